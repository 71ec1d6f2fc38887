package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// c14Large judges large ranks: slot-wise operations everywhere, transforms and their inverses at chosen places.
func c14Large[T num.Integer](r *R) {
	g := r.Rng
	for _, n := range []int{4096, 8192, 16384, 32768, 65536, 131072}[:r.Pick(5, 6)] {
		e := poly.NewEvaluator[T](n)
		s, ok := newSlots(e)
		r.Case(fmt.Sprintf("large %s N=%d roots", typeName[T](), n), func() {
			r.Check(ok, "the transform of X does not consist of one of each pair of odd 2N-th roots of unity")
		})
		if !ok {
			continue
		}
		pick := func(m int) []int {
			idx := []int{0, 1, m/2 - 1, m / 2, m - 1}
			for len(idx) < 24 {
				idx = append(idx, g.IntN(m))
			}
			return idx
		}
		for rep := 0; rep < r.Pick(2, 20); rep++ {
			x := genFArgs(g, e)
			r.Case(fmt.Sprintf("large %s N=%d transforms rep=%d", typeName[T](), n, rep), func() {
				fl := make([]float64, n)
				mx, l1 := 1.0, 0.0
				for i, c := range x.p.Coeffs {
					fl[i] = centred(c)
					mx = math.Max(mx, math.Abs(fl[i]))
					l1 += math.Abs(fl[i])
				}
				idx := pick(n / 2)
				want := make([]complex128, len(idx))
				for i, k := range idx {
					want[i] = s.evalAt(fl, s.root[k])
				}
				got := cx(e.FwdFFT(x.p))
				tol := math.Exp2(-47)*mx*math.Sqrt(float64(n))*4 + math.Exp2(-48)*l1
				for i, k := range idx {
					d := cabs(got[k] - want[i])
					r.Max("forward error of large ranks / bound", d/tol)
					if !(d <= tol) {
						r.Fail("slot %d: %v want %v", k, got[k], want[i])
						break
					}
				}
				c14Back(r, e, x.p, x.fp)
				r.Obs("transforms of large ranks", 1)
			})
			r.Case(fmt.Sprintf("large %s N=%d inverse rep=%d", typeName[T](), n, rep), func() {
				f := cx(x.a)
				q := math.Exp2(float64(bitsOf[T]()))
				mx := 1.0
				for _, v := range x.a.Coeffs {
					mx = math.Max(mx, math.Abs(v))
				}
				got := e.InvFFT(x.a)
				for _, i := range pick(n) {
					w := s.invAt(f, i)
					d := math.Mod(centred(got.Coeffs[i])-w, q)
					d -= q * math.Round(d/q)
					if tol := mx*math.Exp2(-44) + q*math.Exp2(-46) + 0.500001; !(math.Abs(d) <= tol) {
						r.Fail("coefficient %d is %v, want %g mod %g (off by %g)", i, got.Coeffs[i], w, q, d)
						return
					}
				}
			})
			for _, op := range fftOps[T]() {
				x := genFArgs(g, e)
				r.Case(fmt.Sprintf("large %s N=%d %s rep=%d", typeName[T](), n, op.name, rep), func() { c14SlotOp(r, s, e, op, x) })
			}
		}
	}
}
