package main

import (
	"fmt"
	"strings"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

func c13Type[T num.Integer](r *R) {
	tn := typeName[T]()
	g := r.Rng
	type job struct{ n, reps int }
	jobs := []job{{16, 80}, {32, 50}, {64, 40}, {128, 20}, {256, 12}, {512, 8}, {1024, 4}, {2048, 2}}
	if bitsOf[T]() == 64 {
		jobs = append(jobs, job{4096, 1})
	}
	if r.Thorough {
		for i := range jobs {
			jobs[i].reps *= 12
		}
		jobs = append(jobs, job{8192, 2}, job{16384, 1})
	}
	ops := polyOps[T]()
	for _, j := range jobs {
		e := poly.NewEvaluator[T](j.n)
		for rep := 0; rep < j.reps; rep++ {
			for _, op := range ops {
				if j.n >= 4096 && !strings.Contains(op.name, "Mul") {
					continue
				}
				x := genPArgs[T](g, e)
				r.Case(fmt.Sprintf("%s N=%d %s rep=%d", tn, j.n, op.name, rep), func() {
					a0, b0, f0 := x.a.Copy(), x.b.Copy(), x.fs.Copy()
					want := op.ref(x)
					o0 := genCoeffs[T](g, j.n)
					o := poly.Poly[T]{Coeffs: append([]T(nil), o0...)}
					w := want
					switch op.acc {
					case 1:
						w = rAdd(o0, want)
					case -1:
						w = rSub(o0, want)
					}
					op.to(e, o, x)
					c13Cmp(r, "output form", o.Coeffs, w, x)
					if op.alloc != nil {
						c13Cmp(r, "allocating form", op.alloc(e, x).Coeffs, want, x)
					}
					if op.inpl != nil {
						o := x.a.Copy()
						op.inpl(e, o, x)
						c13Cmp(r, "in-place form", o.Coeffs, want, x)
					}
					r.Obs("products "+op.name, 1)
					r.Check(x.a.Equals(a0) && x.b.Equals(b0) && x.fs.Equals(f0), "an input changed")
				})
			}
		}
		r.Case(fmt.Sprintf("%s N=%d even automorphism", tn, j.n), func() {
			p, q := e.NewPoly(), e.NewPoly()
			for _, d := range []int{0, 2, -2, 2 * j.n} {
				for i, f := range []func(){func() { e.PermutePoly(p, d) }, func() { e.PermutePolyTo(q, p, d) }, func() { e.PermutePolyInPlace(p, d) }, func() { e.PermuteAddPolyTo(q, p, d) }, func() { e.PermuteSubPolyTo(q, p, d) }} {
					ok, _ := Panics(f)
					r.Check(ok, "form %d accepted even exponent %d", i, d)
				}
			}
		})
	}
	r.Case(tn+" constructors", func() {
		for _, n := range []int{0, 1, 8, 15, 17, 24, 48, -16} {
			ok, _ := Panics(func() { poly.NewEvaluator[T](n) })
			ok2, _ := Panics(func() { poly.NewPoly[T](n) })
			r.Check(ok && ok2, "rank %d accepted", n)
		}
		for n := 16; n <= 4096; n *= 2 {
			v := genCoeffs[T](g, 1+g.IntN(2*n))
			p := poly.From(v, n)
			r.Check(eqV(poly.From[T](nil, n).Coeffs, make([]T, n)), "From(nil)")
			r.Check(p.Rank() == n, "rank")
			for i, x := range p.Coeffs {
				if (i < len(v) && x != v[i]) || (i >= len(v) && x != 0) {
					r.Fail("From: coefficient %d", i)
					break
				}
			}
			if len(v) > 0 {
				p.Coeffs[0]++
				r.Check(p.Coeffs[0] == v[0]+1, "From shares memory")
			}
			e := poly.NewEvaluator[T](n)
			r.Check(e.Rank() == n && e.NewPoly().Rank() == n && e.NewFFTPoly().Rank() == n, "ranks of evaluator")
			if n >= 1024 {
				break
			}
		}
	})
}

func c13Cmp[T num.Integer](r *R, form string, got, want []T, x pArgs[T]) {
	for i := range want {
		if got[i] != want[i] {
			r.Fail("%s: coefficient %d is %v, want %v (c=%v d=%d)", form, i, got[i], want[i], x.c, x.d)
			return
		}
	}
}

func init() {
	about("C13", "a case is (type, rank, operation, repetition): operands are uniform, extreme, alternating, sparse and small coefficient vectors, exponents cover all residues, negatives and values beyond 2N; every form (output, allocating, in-place, accumulating) is compared bit for bit with schoolbook arithmetic in Z_q[X]/(X^N+1)",
		"short operands are bounded in absolute value by 2^ShortLogBound - 1")
	needObs("C13", "products MulPoly", 100)
	needObs("C13", "products ShortFFTPolyMulPoly", 100)
	f := func(name string, v []string, fn func(r *R)) { reg("C13", name, v, vAll, fn) }
	needObs("C13", "coefficients of large ranks", 100000)
	f("large32", vTwo, c13Large[uint32])
	f("large64", vAll, c13Large[uint64])
	f("largei64", vAvx, c13Large[int64])
	f("int8", vTwo, c13Type[int8])
	f("uint8", vTwo, c13Type[uint8])
	f("int16", vTwo, c13Type[int16])
	f("uint16", vTwo, c13Type[uint16])
	f("int32", vTwo, c13Type[int32])
	f("uint32", vAll, c13Type[uint32])
	f("int64", vTwo, c13Type[int64])
	f("uint64", vAll, c13Type[uint64])
	f("int", vTwo, c13Type[int])
	f("uint", vTwo, c13Type[uint])
	f("uintptr", vTwo, c13Type[uintptr])
}
