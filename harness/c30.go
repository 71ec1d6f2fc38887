package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
)

func init() {
	about("C30", "every exported method that writes an output argument, called by reflection with the output distinct from the inputs and "+
		"with the output being one (or all) of the inputs of the same type and shape, with the same randomness; in-place forms against the forms "+
		"with an output; vector operations of every numeric type and length",
		"Permute… and MonomialMul… forms with a separate in-place form are not called with overlapping arguments",
		"Fourier results may differ in rounding")
	needObs("C30", "aliased calls compared", 3000)
	needObs("C30", "in-place forms compared", 200)
	needObs("C30", "aliased vector operations compared", 3000)
	reg("C30", "calls64", vAll, vAll, func(r *R) { c30Calls[uint64](r) })
	reg("C30", "calls32", vAvx, vAll, func(r *R) { c30Calls[uint32](r) })
	reg("C30", "vectors", vAll, vAll, func(r *R) {
		c30Vec[uint32](r)
		c30Vec[uint64](r)
		c30Vec[int](r)
		c30Vec[int8](r)
		c30Vec[float32](r)
		c30Vec[float64](r)
		c30Vec[complex128](r)
	})
}

// c30Separate are the operations with a separate in-place form.
var c30Separate = regexp.MustCompile(`^(Permute|MonomialMul)`)

func c30Calls[T TI](r *R) {
	r.SeedLib("worlds")
	ws := surfWorlds[T](r)
	for _, N := range []int{16, 256, 2048} {
		ws = append(ws, surfPoly[T](N))
	}
	for wi, w := range ws {
		for ai, a := range w.actors {
			key := fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai)
			r.Case(key, func() { c30Actor(r, key, a) })
		}
	}
}

func c30Actor[T TI](r *R, key string, a *surfActor[T]) {
	g := r.Sub(key)
	o := a.make()
	for rep := 0; rep < r.Pick(2, 12); rep++ {
		for _, m := range a.ms {
			seed := fmt.Sprintf("%s %s %d", key, m, rep)
			if base, ok := strings.CutSuffix(m, "InPlace"); ok {
				r.Case(seed, func() {
					c, err := a.gen(g, o, m, seed)
					if err == nil {
						c30InPlace(r, a, o, c, base)
					}
				})
				continue
			}
			if i, _ := surfOut(a.key, m, 9); i < 0 || c30Separate.MatchString(m) || strings.Contains(m, "Parallel") || strings.HasSuffix(m, "Body") {
				continue
			}
			r.Case(seed, func() {
				c, err := a.gen(g, o, m, seed)
				if err != nil {
					r.Obs("signatures not understood", 1)
					return
				}
				var same1 []int
				for i := range c.args {
					if i != c.out && c.args[i].Type() == c.args[c.out].Type() && !hasFunc(c.args[i].Type()) && same(shapeOf(boxed(c.args[i])), shapeOf(boxed(c.args[c.out]))) == "" {
						same1 = append(same1, i)
					}
				}
				if len(same1) == 0 {
					return
				}
				for mask := 1; mask < 1<<len(same1); mask++ {
					c30Alias(r, o, c, same1, mask)
				}
			})
		}
	}
}

// c30Alias compares a call with distinct arguments to one where the output is also the inputs in the mask.
func c30Alias[T TI](r *R, o any, c *surfCall[T], ins []int, mask int) {
	as := c.fresh()
	src := -1
	for b, i := range ins {
		if mask>>b&1 == 1 {
			if src < 0 {
				src = i
			} else {
				as[i] = boxed(c.args[src])
			}
		}
	}
	if c.acc {
		as[c.out] = boxed(c.args[src])
	}
	want := c.run(r, o, as)
	al := c.fresh()
	for b, i := range ins {
		if mask>>b&1 == 1 {
			al[i] = al[src]
		}
	}
	al[c.out] = al[src]
	got := c.run(r, o, al)
	if d := nearlySame(want, got); d != "" {
		r.Fail("%s with the output equal to input(s) %v (mask %b): %s", c.m, ins, mask, d)
	}
	r.Obs("aliased calls compared", 1)
}

// c30InPlace compares an in-place form with the form writing an output.
func c30InPlace[T TI](r *R, a *surfActor[T], o any, c *surfCall[T], base string) {
	v := reflect.ValueOf(o).MethodByName(base + "To")
	if !v.IsValid() || v.Type().NumIn() != len(c.args)+1 || v.Type().NumOut() != 0 || surfSkip.MatchString(base) {
		r.Obs("in-place forms of another shape", 1)
		return
	}
	for i := range c.args {
		if v.Type().In(i+1) != c.args[i].Type() {
			r.Obs("in-place forms of another shape", 1)
			return
		}
	}
	if v.Type().In(0) != c.args[0].Type() {
		return
	}
	n := &surfCall[T]{a: a, m: base + "To", args: append([]reflect.Value{c.args[0]}, c.args...), seed: c.seed}
	want := n.run(r, o, n.fresh())
	got := c.run(r, o, c.fresh())
	if d := nearlySame(want, got); d != "" {
		r.Fail("%s and %s: %s", c.m, n.m, d)
	}
	r.Obs("in-place forms compared", 1)
}

// c30Vec calls vector operations with coinciding operands.
func c30Vec[T num.Number](r *R) {
	g := r.Rng
	var z T
	for n := 0; n <= r.Pick(70, 260); n++ {
		for _, op := range vecOps[T]() {
			r.Case(fmt.Sprintf("%T %s %d", z, op.name, n), func() {
				mk := func() []T {
					v := make([]T, n)
					for i := range v {
						v[i] = genNum[T](g)
					}
					return v
				}
				a, b, c := mk(), mk(), genNum[T](g)
				cp := func(v []T) []T { return append([]T(nil), v...) }
				for pat := 0; pat < 4; pat++ {
					var want, got []T
					switch pat {
					case 0: // out = a
						want = mk()
						if op.acc {
							want = cp(a)
						}
						op.fn(want, cp(a), cp(b), c)
						got = cp(a)
						op.fn(got, got, cp(b), c)
					case 1: // out = b
						want = mk()
						if op.acc {
							want = cp(b)
						}
						op.fn(want, cp(a), cp(b), c)
						got = cp(b)
						op.fn(got, cp(a), got, c)
						if op.ins < 2 {
							continue
						}
					case 2: // out = a = b
						want = mk()
						if op.acc {
							want = cp(a)
						}
						op.fn(want, cp(a), cp(a), c)
						got = cp(a)
						op.fn(got, got, got, c)
					case 3: // a = b
						want = mk()
						got = cp(want)
						op.fn(want, cp(a), cp(a), c)
						s := cp(a)
						op.fn(got, s, s, c)
					}
					for i := range want {
						if want[i] != got[i] {
							r.Fail("pattern %d: entry %d is %v and %v", pat, i, got[i], want[i])
							break
						}
					}
					r.Obs("aliased vector operations compared", 1)
				}
				d := g.IntN(4*n+9) - 2*n - 4
				if n > 0 {
					w, x := make([]T, n), cp(a)
					vec.RotateTo(w, a, d)
					vec.RotateInPlace(x, d)
					r.Check(eqV(w, x), "RotateInPlace by %d", d)
				}
				w, x := make([]T, n), cp(a)
				vec.ReverseTo(w, a)
				vec.ReverseInPlace(x)
				r.Check(eqV(w, x), "ReverseInPlace")
			})
		}
	}
}
