package main

import (
	crand "crypto/rand"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	about("C25", "an object, its safe copies and copies of copies run generated programs over their whole method surface at the same time, "+
		"sharing keys and some inputs, under the Go race detector (pure-Go kernels, so that every access is instrumented) and with the SIMD kernels at full speed; "+
		"every result is compared with the one of the same program run alone; goroutines that make objects, keys and whole life cycles of their own at the same time, first thing in a process",
		"results of calls that draw from the system randomness while they run, and of parallel entry points, are not compared")
	needObs("C25", "concurrent results compared", 5000)
	needObs("C25", "pairs of calls that overlapped", 5000)
	race, fast, all := []string{"race"}, []string{"avx"}, []string{"race", "raceavx", "avx", "purego"}
	for part := 0; part < 3; part++ {
		reg("C25", fmt.Sprintf("races64-%d", part), race, []string{"race", "raceavx"}, func(r *R) { c25Run[uint64](r, part, false, false) })
		heavy("C25", fmt.Sprintf("races64-%d", part), 3)
	}
	reg("C25", "races32", race, []string{"race", "raceavx"}, func(r *R) { c25Run[uint32](r, r.Pick(int(r.Seed%3), -1), false, false) })
	heavy("C25", "races32", 2)
	reg("C25", "results64", fast, all, func(r *R) { c25Run[uint64](r, -1, false, true) })
	reg("C25", "results32", fast, all, func(r *R) { c25Run[uint32](r, -1, false, true) })
	reg("C25", "seeded64", fast, all, func(r *R) { c25Run[uint64](r, -1, true, true) })
	reg("C25", "seeded32", fast, all, func(r *R) { c25Run[uint32](r, -1, true, true) })
}

// countReader counts the reads of the system randomness.
type countReader struct {
	in io.Reader
	n  atomic.Int64
}

func (c *countReader) Read(p []byte) (int, error) {
	c.n.Add(1)
	return c.in.Read(p)
}

func c25Run[T TI](r *R, part int, seeded, compare bool) {
	r.SeedLib("worlds")
	for wi, w := range surfWorlds[T](r) {
		for ai, a := range w.actors {
			if part >= 0 && (wi*2+ai)%3 != part {
				continue
			}
			if !reflect.ValueOf(a.make()).MethodByName("SafeCopy").IsValid() {
				r.Obs("object kinds without safe copies", 1)
				continue
			}
			for rep := 0; rep < r.Pick(1, 6); rep++ {
				key := fmt.Sprintf("%d %s %s/%d seeded=%v %d", wi, w.name, a.key, ai, seeded, rep)
				r.Case(key, func() { c25Actor(r, key, a, seeded, compare) })
			}
		}
	}
}

type c25Call[T TI] struct {
	c          *surfCall[T]
	sub        string // exported field of the object that is called
	args       []reflect.Value
	res        []any
	panicked   any
	start, end int64
}

func c25Actor[T TI](r *R, key string, a *surfActor[T], seeded, compare bool) {
	g := r.Sub(key)
	const G = 4
	r.SeedLib(key)
	origin := a.make()
	// the origin has been in use before
	for i := 0; i < 6; i++ {
		if c, err := a.gen(g, origin, a.ms[g.IntN(len(a.ms))], key); err == nil {
			c.call(origin, c.fresh())
		}
	}
	objs := []any{origin}
	for len(objs) < G {
		objs = append(objs, a.copy(objs[g.IntN(len(objs))]))
	}
	deterministic := func(m string) bool {
		return !strings.Contains(m, "Parallel")
	}
	// in the quick tier only a part of the methods of the objects inside
	var ms []c25Method[T]
	inside := map[string]int{}
	for _, m := range a.ms {
		inside[promoted(origin, m)]++
	}
	for _, m := range a.ms {
		if f := promoted(origin, m); r.Thorough || f == "" || inside[f] <= 16 || g.IntN(8) == 0 {
			ms = append(ms, c25Method[T]{a, "", m})
		}
	}
	for _, s := range c25Inside(a, origin) {
		for _, m := range s.ms {
			if r.Thorough || len(s.ms) <= 16 || g.IntN(8) == 0 {
				ms = append(ms, c25Method[T]{s.surfActor, s.field, m})
			}
		}
	}
	progs := make([][]*c25Call[T], G)
	var shared []*surfCall[T]
	var sharedSub []string
	var sharedArgs [][]reflect.Value
	for k := range progs {
		for n, mi := range g.Perm(len(ms)) {
			m := ms[mi]
			if seeded && !deterministic(m.name) {
				continue
			}
			c, err := m.a.gen(g, field(origin, m.sub), m.name, key)
			if err != nil {
				r.Obs("signatures not understood", 1)
				continue
			}
			x := &c25Call[T]{c: c, sub: m.sub, args: c.fresh()}
			if k == 0 && n%4 == 0 {
				shared, sharedSub, sharedArgs = append(shared, c), append(sharedSub, m.sub), append(sharedArgs, x.args)
			} else if k > 0 && n%4 == 0 && len(shared) > 0 { // the inputs of a call of another goroutine
				s := g.IntN(len(shared))
				x = &c25Call[T]{c: shared[s], sub: sharedSub[s], args: shared[s].fresh()}
				for i := range x.args {
					if i != shared[s].out && !strings.HasSuffix(shared[s].m, "Unsafe") {
						x.args[i] = sharedArgs[s][i]
					}
				}
			}
			progs[k] = append(progs[k], x)
		}
	}
	seedOf := func(k int) string { return fmt.Sprintf("%s object %d", key, k) }
	if seeded {
		for k, o := range objs {
			r.SeedLib(seedOf(k))
			reseed(o)
		}
	}
	r.SeedLib(key + " during")
	t0 := time.Now() // timestamps without synchronization, which would hide races
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for k := range objs {
		yields := g.IntN(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for i, x := range progs[k] {
				if yields > 0 && i%(yields+1) == 0 {
					runtime.Gosched()
				}
				func() {
					defer func() { x.panicked = recover() }()
					x.start = int64(time.Since(t0))
					x.res = x.c.call(field(objs[k], x.sub), x.args)
					x.end = int64(time.Since(t0))
				}()
			}
		}()
	}
	close(begin)
	wg.Wait()
	// overlaps
	pairs := map[string]bool{}
	for k := range progs {
		for l := k + 1; l < G; l++ {
			j := 0
			for _, x := range progs[k] {
				for j < len(progs[l]) && progs[l][j].end < x.start {
					j++
				}
				for q := j; q < len(progs[l]) && progs[l][q].start < x.end; q++ {
					pairs[x.c.m+"|"+progs[l][q].c.m] = true
				}
			}
		}
	}
	r.Obs("pairs of calls that overlapped", len(pairs))
	r.Obs("concurrent calls", G*len(ms))
	if !compare { // panics only
		for k := range progs {
			for _, x := range progs[k] {
				if x.panicked != nil {
					r.Fail("%s on copy %d panicked: %v", x.c.name(), k, x.panicked)
				}
			}
		}
		return
	}
	// the same programs alone
	for k := range progs {
		alone, other := a.make(), a.make()
		r.SeedLib(seedOf(k))
		reseed(alone)
		r.SeedLib(seedOf(k) + " other")
		reseed(other)
		r.SeedLib(seedOf(k) + " alone")
		cr := &countReader{in: crand.Reader}
		crand.Reader = cr
		for _, x := range progs[k] {
			if x.panicked != nil {
				r.Fail("%s on copy %d panicked: %v", x.c.name(), k, x.panicked)
				continue
			}
			n := cr.n.Load()
			want := x.c.call(field(alone, x.sub), x.c.fresh())
			if cr.n.Load() != n || !deterministic(x.c.m) {
				r.Obs("results not comparable", 1)
				continue
			}
			if !seeded {
				if w2 := x.c.call(field(other, x.sub), x.c.fresh()); same(want, w2) != "" {
					r.Obs("randomized results not compared", 1)
					continue
				}
			}
			if d := same(want, x.res); d != "" {
				r.Fail("%s on copy %d, while the other copies were working, differs from the result alone: %s", x.c.name(), k, d)
			}
			r.Obs("concurrent results compared", 1)
		}
	}
	crand.Reader = realReader
}

// c25Method is a method of an object or of an object in one of its exported fields.
type c25Method[T TI] struct {
	a         *surfActor[T]
	sub, name string
}

type c25Sub[T TI] struct {
	*surfActor[T]
	field string
}

// c25Inside lists the exported fields of an object that are objects of a known kind themselves, but not embedded.
func c25Inside[T TI](a *surfActor[T], o any) (out []c25Sub[T]) {
	t := reflect.TypeOf(o).Elem()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous || !f.IsExported() || f.Type.Kind() != reflect.Pointer || reflect.ValueOf(o).Elem().Field(i).IsNil() {
			continue
		}
		kind, _, _ := strings.Cut(strings.TrimPrefix(f.Type.String(), "*"), "[")
		if surfNames[kind] == "" || kind == "poly.Evaluator" && a.w.params.PolyRank() == 0 {
			continue
		}
		if strings.HasPrefix(a.key, "mktfhe.") && !strings.HasPrefix(kind, "mktfhe.") {
			continue // single-key objects inside multi-key ones take other operands than the world makes
		}
		sub := &surfActor[T]{key: kind, w: a.w, idx: a.idx}
		for _, m := range surfMethods(kind, field(o, f.Name), a.w.lit.BootstrapOrder) {
			if !surfUnsupported(a.key, m, a.w.lit.BootstrapOrder) && !(strings.HasPrefix(a.key, "xtfhe.BFV") && c25NeedKey.MatchString(m)) {
				sub.ms = append(sub.ms, m)
			}
		}
		out = append(out, c25Sub[T]{sub, f.Name})
	}
	return
}

// what the evaluator inside a BFV object, made without an evaluation key, cannot do
var c25NeedKey = regexp.MustCompile(`Bootstrap|BlindRotate|DefaultKeySwitch`)

func field(o any, name string) any {
	if name == "" {
		return o
	}
	return reflect.ValueOf(o).Elem().FieldByName(name).Interface()
}

// promoted names the embedded object that an object has a method from.
func promoted(o any, m string) string {
	t := reflect.TypeOf(o).Elem()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.Anonymous {
			continue
		}
		if _, ok := f.Type.MethodByName(m); ok {
			return f.Name
		}
	}
	return ""
}
