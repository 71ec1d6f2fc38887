// Package main is the monitoring harness: every group is a deterministic workload (all choices derive from
// VERIF_SEED) driven through the public API of /repo, with an independent oracle watching each execution.
package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
)

// Group is one unit of work: executed in its own process, in one or more build variants.
type Group struct {
	ID, Name string
	Fn       func(r *R)
	// Quick lists build variants for the quick tier; Thorough for the thorough tier.
	Quick, Thorough []string
	Weight          int
}

var groups []*Group

// need is a minimum number of observations without which a check gives no verdict.
type need struct {
	ID, Obs string
	Min     int64
}

var (
	needs   []need
	rules   = map[string]string{}
	assumes = map[string][]string{}
	extra   = map[string][]string{}
)

// about records how the cases of a property are made and what the verdict assumes.
func about(id, rule string, assume ...string) {
	rules[id] = rule
	assumes[id] = assume
}

// needObs makes the verdict of a check conditional on its monitors having made at least min observations.
func needObs(id, obs string, min int64) { needs = append(needs, need{id, obs, min}) }

// uses declares a build that the groups of a check start themselves.
func uses(id, build string) { extra[id] = append(extra[id], build) }

// heavy marks a group to be scheduled early.
func heavy(id, name string, w int) {
	for _, g := range groups {
		if g.ID == id && g.Name == name {
			g.Weight = w
		}
	}
}

// Variant names: avx (default build), cpuoff (default build, GODEBUG=cpu.all=off), purego (-tags purego),
// race (-race -tags purego), raceavx (-race), asan (-asan -tags purego).
var (
	vAll  = []string{"avx", "cpuoff", "purego"}
	vAvx  = []string{"avx"}
	vTwo  = []string{"avx", "purego"}
	vRace = []string{"race"}
	vNone = []string{}
)

// reg registers a group: quick variants, thorough variants.
func reg(id, name string, quick, thorough []string, fn func(r *R)) {
	groups = append(groups, &Group{ID: id, Name: name, Fn: fn, Quick: quick, Thorough: thorough})
}

// Violation is one observed violation with its witness.
type Violation struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
}

// Report is what a group run outputs.
type Report struct {
	ID, Group, Variant string
	Evaluations        int
	Distinct           int
	Obs                map[string]int64
	ObsMax             map[string]float64
	Samples            []string
	Violations         []Violation
	NViol              int
	Done               bool
}

// R is the recorder handed to a group.
type R struct {
	mu       sync.Mutex
	ID, Name string
	Variant  string
	Thorough bool
	Seed     uint64
	Rng      *rand.Rand
	rep      Report
	seen     map[uint64]struct{}
	cur      string
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// seededReader is a deterministic stand-in for the system randomness.
type seededReader struct {
	mu sync.Mutex
	c  *rand.ChaCha8
}

func (s *seededReader) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.c.Read(p)
}

func newSeededReader(seed uint64, label string) io.Reader {
	var k [32]byte
	h := hash64(label)
	for i := 0; i < 8; i++ {
		k[i] = byte(seed >> (8 * i))
		k[8+i] = byte(h >> (8 * i))
	}
	return &seededReader{c: rand.NewChaCha8(k)}
}

var realReader = crand.Reader

var one = big.NewInt(1)

// SeedLib makes the library's system randomness a deterministic function of (seed, label).
func (r *R) SeedLib(label string) {
	crand.Reader = newSeededReader(r.Seed, r.ID+"/"+r.Name+"/"+label)
}

// Sub returns an independent deterministic PRNG.
func (r *R) Sub(label string) *rand.Rand {
	return rand.New(rand.NewPCG(r.Seed, hash64(r.ID+"/"+r.Name+"/"+label)))
}

// Pick returns q in the quick tier and t in the thorough one.
func (r *R) Pick(q, t int) int {
	if r.Thorough {
		return t
	}
	return q
}

// Case runs one case identified by key (used for distinct counting and replay). Panics are violations.
func (r *R) Case(key string, fn func()) {
	r.CaseN(key, true, fn)
}

// CaseN is Case with an explicit nontriviality flag.
func (r *R) CaseN(key string, nontrivial bool, fn func()) {
	r.mu.Lock()
	r.cur = key
	r.rep.Evaluations++
	if nontrivial {
		h := hash64(key)
		if _, ok := r.seen[h]; !ok {
			r.seen[h] = struct{}{}
			if len(r.rep.Samples) < 3 || (len(r.rep.Samples) < 8 && h%97 == 0) {
				r.rep.Samples = append(r.rep.Samples, key)
			}
		}
	}
	r.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			r.fail(key, fmt.Sprintf("panic: %v\n%s", p, trimStack(st)))
		}
	}()
	fn()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "tfhe-go") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Fail records a violation of the current case.
func (r *R) Fail(format string, args ...any) { r.fail(r.cur, fmt.Sprintf(format, args...)) }

// FailAt records a violation with an explicit case key (for concurrent cases).
func (r *R) FailAt(key, format string, args ...any) { r.fail(key, fmt.Sprintf(format, args...)) }

func (r *R) fail(key, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.NViol++
	if len(r.rep.Violations) < 25 {
		r.rep.Violations = append(r.rep.Violations, Violation{key, msg})
	}
}

// Check is Fail when cond is false.
func (r *R) Check(cond bool, format string, args ...any) bool {
	if !cond {
		r.Fail(format, args...)
	}
	return cond
}

// Obs counts an observation made by the monitor.
func (r *R) Obs(name string, n int) {
	r.mu.Lock()
	r.rep.Obs[name] += int64(n)
	r.mu.Unlock()
}

// Max records the maximum of a measured quantity.
func (r *R) Max(name string, v float64) {
	r.mu.Lock()
	if o, ok := r.rep.ObsMax[name]; !ok || v > o {
		r.rep.ObsMax[name] = v
	}
	r.mu.Unlock()
}

// Panics runs fn and reports whether it panicked.
func Panics(fn func()) (p bool, val any) {
	defer func() {
		if v := recover(); v != nil {
			p, val = true, v
		}
	}()
	fn()
	return
}

func main() {
	list := flag.Bool("list", false, "list groups as JSON")
	id := flag.String("id", "", "property")
	name := flag.String("group", "", "group")
	variant := flag.String("variant", "avx", "build variant (label)")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.String("seed", "1", "seed")
	out := flag.String("out", "", "report file")
	flag.Parse()
	if *list {
		type g struct {
			ID, Name        string
			Quick, Thorough []string
			Weight          int
		}
		var gs []g
		for _, x := range groups {
			gs = append(gs, g{x.ID, x.Name, x.Quick, x.Thorough, x.Weight})
		}
		b, _ := json.Marshal(map[string]any{"Groups": gs, "Needs": needs, "Rules": rules, "Assumes": assumes, "Uses": extra})
		fmt.Println(string(b))
		return
	}
	sd, err := strconv.ParseUint(*seed, 10, 64)
	if err != nil {
		sd = hash64(*seed)
	}
	debug.SetGCPercent(200)
	found := false
	for _, g := range groups {
		if g.ID != *id || (*name != "" && g.Name != *name) {
			continue
		}
		found = true
		r := &R{ID: g.ID, Name: g.Name, Variant: *variant, Thorough: *tier == "thorough", Seed: sd, seen: map[uint64]struct{}{}}
		r.rep = Report{ID: g.ID, Group: g.Name, Variant: *variant, Obs: map[string]int64{}, ObsMax: map[string]float64{}}
		r.Rng = r.Sub("main")
		r.SeedLib("main")
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.fail(r.cur, fmt.Sprintf("panic outside a case: %v\n%s", p, debug.Stack()))
				}
			}()
			g.Fn(r)
		}()
		r.rep.Distinct = len(r.seen)
		r.rep.Done = true
		b, _ := json.Marshal(r.rep)
		if *out != "" {
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		} else {
			var bb bytes.Buffer
			json.Indent(&bb, b, "", " ")
			fmt.Println(bb.String())
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no such group")
		os.Exit(3)
	}
}
