package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// coeffOf is coefficient i of a*b, by schoolbook arithmetic.
func coeffOf[T num.Integer](a, b []T, i int) T {
	var s T
	for j, y := range b[:i+1] {
		s += a[i-j] * y
	}
	n := len(a)
	for j := i + 1; j < n; j++ {
		s -= a[n+i-j] * b[j]
	}
	return s
}

// c13Large judges ranks far above those of the shipped sets: linear operations on every coefficient, products on
// chosen and random ones.
func c13Large[T num.Integer](r *R) {
	g := r.Rng
	ops := polyOps[T]()
	for _, n := range []int{4096, 8192, 16384, 32768, 65536, 131072}[:r.Pick(5, 6)] {
		e := poly.NewEvaluator[T](n)
		for rep := 0; rep < r.Pick(2, 20); rep++ {
			for _, op := range ops {
				x := genPArgs[T](g, e)
				product := op.name[:3] == "Mul" || op.name[:3] == "Sho"
				r.Case(fmt.Sprintf("large %s N=%d %s rep=%d", typeName[T](), n, op.name, rep), func() {
					idx := []int{0, 1, n/2 - 1, n / 2, n - 2, n - 1}
					for len(idx) < 30 {
						idx = append(idx, g.IntN(n))
					}
					var want []T
					if !product {
						want = op.ref(x)
					}
					at := func(i int) T {
						switch {
						case !product:
							return want[i]
						case op.name[:3] == "Sho":
							return coeffOf(x.a.Coeffs, x.s.Coeffs, i)
						}
						return coeffOf(x.a.Coeffs, x.b.Coeffs, i)
					}
					if !product {
						idx = idx[:0]
						for i := 0; i < n; i++ {
							idx = append(idx, i)
						}
					}
					judge := func(form string, got, o0 []T) {
						for _, i := range idx {
							w := at(i)
							switch {
							case o0 != nil && op.acc > 0:
								w = o0[i] + w
							case o0 != nil && op.acc < 0:
								w = o0[i] - w
							}
							if got[i] != w {
								r.Fail("%s: coefficient %d is %v, want %v (c=%v d=%d)", form, i, got[i], w, x.c, x.d)
								return
							}
						}
						r.Obs("coefficients of large ranks", len(idx))
					}
					o0 := genCoeffs[T](g, n)
					o := poly.Poly[T]{Coeffs: append([]T(nil), o0...)}
					op.to(e, o, x)
					judge("output form", o.Coeffs, o0)
					if op.alloc != nil {
						judge("allocating form", op.alloc(e, x).Coeffs, nil)
					}
					if op.inpl != nil {
						o := x.a.Copy()
						op.inpl(e, o, x)
						judge("in-place form", o.Coeffs, nil)
					}
				})
			}
		}
	}
}
