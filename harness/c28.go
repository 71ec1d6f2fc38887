package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
)

func init() {
	about("C28", "reflection over every exported method of every object kind of the library, called with generated arguments in random order "+
		"on long-lived objects; the same call on a fresh object with a cleared output and the same randomness is the oracle (bit-exact); "+
		"all results ever returned by an object are kept and compared with copies taken when they were returned",
		"the objects' samplers are replaced by freshly seeded ones before each of the two runs of a call")
	needObs("C28", "calls with almost the inputs of the call before", 500)
	needObs("C28", "calls compared with a fresh object", 5000)
	needObs("C28", "dirty outputs overwritten", 2000)
	needObs("C28", "retained results unchanged", 5000)
	needObs("C28", "allocating forms compared", 1000)
	needObs("C28", "input objects used again with other contents", 3000)
	reg("C28", "histories64", vAll, vAll, func(r *R) { c28Histories[uint64](r) })
	reg("C28", "histories32", vAvx, vAll, func(r *R) { c28Histories[uint32](r) })
	heavy("C28", "histories64", 2)
}

// c28Kept is a result with the copy taken when it was returned.
type c28Kept struct {
	name     string
	res, was any
}

func c28Histories[T TI](r *R) {
	r.SeedLib("worlds")
	for wi, w := range surfWorlds[T](r) {
		for ai, a := range w.actors {
			key := fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai)
			r.Case(key, func() { c28Actor(r, key, a) })
		}
	}
}

func c28Actor[T TI](r *R, key string, a *surfActor[T]) {
	g := r.Sub(key)
	used := a.make()
	var kept []c28Kept
	held := c28Held{}
	last := "nothing"
	for round := 0; round < r.Pick(2, 8); round++ {
		for _, mi := range g.Perm(len(a.ms)) {
			m := a.ms[mi]
			seed := fmt.Sprintf("%s %s %d", key, m, round)
			r.Case(seed, func() {
				c, err := a.gen(g, used, m, seed)
				if err != nil {
					r.Obs("signatures not understood", 1)
					return
				}
				if strings.HasSuffix(m, "Parallel") || strings.HasSuffix(m, "ParallelTo") {
					// the order of the workers shows in the rounding of the results: these only make history
					c.run(r, used, c.fresh())
					last = m
					return
				}
				fa := c.fresh()
				if c.out >= 0 && !c.acc {
					zeroNumbers(fa[c.out])
				}
				want := c.run(r, a.make(), fa)
				ga := c.fresh()
				again := held.refill(g, ga, c.out)
				got := c.run(r, used, ga)
				r.Obs("input objects used again with other contents", again)
				if d := same(want, got); d != "" {
					r.Fail("result on a used object (last call %s) with a dirty output differs from a fresh one: %s", last, d)
				}
				r.Obs("calls compared with a fresh object", 1)
				if c.out >= 0 && !c.acc {
					r.Obs("dirty outputs overwritten", 1)
				}
				c28Neighbour(r, g, a, c, used)
				c28Forms(r, a, c, used, got)
				p := reflect.New(reflect.TypeOf(got))
				p.Elem().Set(reflect.ValueOf(got))
				for i, x := range got {
					b := reflect.New(reflect.TypeOf(x))
					b.Elem().Set(reflect.ValueOf(x))
					kept = append(kept, c28Kept{fmt.Sprintf("%s result %d", seed, i), b.Interface(), cloneDeep(b.Interface())})
				}
				last = m
			})
		}
		r.Case(key+" kept", func() {
			for _, k := range kept {
				if d := same(k.res, k.was); d != "" {
					r.Fail("%s changed after it was returned: %s", k.name, d)
					return
				}
				r.Obs("retained results unchanged", 1)
			}
		})
	}
}

// c28Neighbour repeats the last call with inputs that agree with its own except for a few numbers: what the object
// remembers of the call before looks up to date wherever it compares only a part of them.
func c28Neighbour[T TI](r *R, g *rand.Rand, a *surfActor[T], c *surfCall[T], used any) {
	seed := g.Uint64()
	fa, ga := c.fresh(), c.fresh()
	if c28Perturb[T](rand.New(rand.NewPCG(seed, 1)), fa, c.out) == 0 {
		return
	}
	c28Perturb[T](rand.New(rand.NewPCG(seed, 1)), ga, c.out)
	if c.out >= 0 && !c.acc {
		zeroNumbers(fa[c.out])
	}
	want := c.run(r, a.make(), fa)
	got := c.run(r, used, ga)
	if d := same(want, got); d != "" {
		r.Fail("result for inputs that differ in a few numbers from those of the call before differs from a fresh one: %s", d)
	}
	r.Obs("calls with almost the inputs of the call before", 1)
}

// c28Perturb changes one number of some of the vectors of every input and returns how many.
func c28Perturb[T TI](g *rand.Rand, args []reflect.Value, out int) (n int) {
	for i, a := range args {
		if i == out || hasFunc(a.Elem().Type()) {
			continue
		}
		var vs []reflect.Value
		walkSlices(a, map[visit]bool{}, func(v reflect.Value) {
			switch v.Interface().(type) {
			case []T, []float64:
				if v.Len() > 0 {
					vs = append(vs, v)
				}
			}
		})
		for range (len(vs) + 3) / 4 {
			switch v := vs[g.IntN(len(vs))].Interface().(type) {
			case []T:
				v[g.IntN(len(v))] = T(g.Uint64())
			case []float64:
				v[g.IntN(len(v))] *= -1
			}
			n++
		}
	}
	return n
}

// c28Held are input objects of earlier calls by type and shape. Refilled with the values of the next call, they are the
// same objects in the same memory with other contents: what an object remembers about them is out of date.
type c28Held map[string]reflect.Value

// refill puts some of the arguments into held objects and holds the others, and returns how many were reused.
func (h c28Held) refill(g *rand.Rand, args []reflect.Value, out int) (n int) {
	taken := map[string]bool{}
	for i, a := range args {
		t := a.Elem().Type()
		if i == out || hasFunc(t) || len(shapeOf(a)) == 0 {
			continue
		}
		k := fmt.Sprint(t, shapeOf(a))
		if taken[k] {
			k += " second"
		}
		if taken[k] {
			continue
		}
		taken[k] = true
		old, ok := h[k]
		if !ok {
			h[k] = a
			continue
		}
		if g.IntN(8) == 0 {
			continue
		}
		var to []reflect.Value
		walkSlices(old, map[visit]bool{}, func(v reflect.Value) { to = append(to, v) })
		walkSlices(a, map[visit]bool{}, func(v reflect.Value) {
			reflect.Copy(to[0], v)
			to = to[1:]
		})
		if same(old.Interface(), a.Interface()) != "" { // they differ in more than their numbers
			h[k] = a
			continue
		}
		args[i] = old
		n++
	}
	return n
}

// c28Forms compares a call that writes an output argument with its allocating form.
func c28Forms[T TI](r *R, a *surfActor[T], c *surfCall[T], o any, res []any) {
	base, ok := strings.CutSuffix(c.m, "To")
	if !ok || c.acc {
		return
	}
	v := reflect.ValueOf(o).MethodByName(base)
	if !v.IsValid() || !surfKnown[a.key+"."+base] {
		return
	}
	args := c.fresh()
	args = append(append([]reflect.Value{}, args[:c.out]...), args[c.out+1:]...)
	t := v.Type()
	if t.NumIn() != len(args) || t.NumOut() != 1 || len(res) != 1 || t.Out(0) != reflect.TypeOf(res[0]) {
		r.Obs("allocating forms of another shape", 1)
		return
	}
	for i := range args {
		if args[i].Elem().Type() != t.In(i) {
			r.Obs("allocating forms of another shape", 1)
			return
		}
	}
	if a.w.luts > 1 && t.Out(0).Kind() == reflect.Slice || reflect.TypeOf(res[0]).Kind() == reflect.Slice && strings.HasSuffix(base, "Bits") {
		return
	}
	r.SeedLib(c.seed)
	reseed(o)
	r.SeedLib(c.seed + "+")
	n := &surfCall[T]{a: a, m: base, args: nil, out: -1, seed: c.seed}
	got := n.call(o, args)
	if d := same(res, got); d != "" {
		r.Fail("%s returns something else than %s writes: %s", base, c.m, d)
	}
	r.Obs("allocating forms compared", 1)
}
