package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/tfhe"
)

// c12Digits judges one decomposition of x.
func c12Digits[T TI](r *R, gp tfhe.GadgetParameters[T], logB, level int, x T, dg []T) {
	w := logQ[T]()
	if !r.Check(len(dg) == level, "%d digits, want %d", len(dg), level) {
		return
	}
	half := T(1) << (logB - 1)
	var sum T
	for i, d := range dg {
		if absT(d) > half {
			r.Fail("digit %d of %d is %v, outside [-%d, %d]", i, x, signed(d), half, half)
			return
		}
		sum += d << (w - (i+1)*logB)
	}
	var bound T
	if s := w - level*logB; s > 0 {
		bound = T(1) << (s - 1)
	}
	if e := absT(x - sum); e > bound {
		r.Fail("x=%d recomposes to %d, off by %d, more than %d", x, sum, e, bound)
	}
	if s := w - level*logB; s > 0 {
		r.Max("recomposition error / half step", float64(absT(x-sum))/float64(bound))
	}
	r.Obs("decompositions", 1)
}

func c12Values[T TI](g *rand.Rand, logB, level, n int) []T {
	w := logQ[T]()
	v := make([]T, n)
	for i := range v {
		switch g.IntN(5) {
		case 0:
			v[i] = edgeT[T](g)
		case 1: // around multiples and ties of the smallest step
			s := w - level*logB
			v[i] = T(g.Uint64())
			if s > 0 {
				v[i] = (v[i]>>s)<<s + T(1)<<(s-1) + T(g.IntN(3)) - 1
			}
		case 2: // digits equal to half the base, or one away from it
			for j := 0; j < level; j++ {
				v[i] += (T(1)<<(logB-1) + T(g.IntN(3)) - 1) << (w - (j+1)*logB)
			}
		case 3: // digits at the top
			v[i] = ^T(0) << g.IntN(w)
		default:
			v[i] = T(g.Uint64())
		}
	}
	return v
}

func c12Type[T TI](r *R) {
	w := logQ[T]()
	g := r.Rng
	for logB := 1; logB < w; logB++ {
		for level := 1; logB*level <= w; level++ {
			lit := tfhe.GadgetParametersLiteral[T]{Base: T(1) << logB, Level: level}
			N := 16 << g.IntN(r.Pick(4, 7))
			if g.IntN(16) == 0 {
				N = 512 << g.IntN(r.Pick(7, 8))
				r.Obs("large ranks", 1)
			}
			r.Case(fmt.Sprintf("u%d base=2^%d level=%d N=%d", w, logB, level, N), func() {
				gp := lit.Compile()
				d := tfhe.NewDecomposer[T](N)
				// constants of the gadget
				for i := 0; i < level; i++ {
					s := w - (i+1)*logB
					r.Check(gp.BaseQ(i) == T(1)<<s && gp.LogBaseQ(i) == s, "BaseQ(%d) = %d, LogBaseQ = %d", i, gp.BaseQ(i), gp.LogBaseQ(i))
				}
				for rep := 0; rep < r.Pick(15, 40); rep++ {
					xs := c12Values[T](g, logB, level, N)
					p := poly.Poly[T]{Coeffs: append([]T(nil), xs...)}
					dp := d.DecomposePoly(p, gp)
					to := make([]poly.Poly[T], level)
					for i := range to {
						to[i] = poly.Poly[T]{Coeffs: randVec[T](g, N)}
					}
					d.DecomposePolyTo(to, p, gp)
					r.Check(eqV(p.Coeffs, xs), "input changed")
					if !r.Check(len(dp) == level, "%d digit polynomials", len(dp)) {
						return
					}
					rp := d.RecomposePoly(dp, gp)
					rto := poly.Poly[T]{Coeffs: randVec[T](g, N)}
					d.RecomposePolyTo(rto, dp, gp)
					for i, x := range xs {
						dg := d.DecomposeScalar(x, gp)
						c12Digits(r, gp, logB, level, x, dg)
						dto := randVec[T](g, level)
						d.DecomposeScalarTo(dto, x, gp)
						r.Check(eqV(dto, dg), "DecomposeScalarTo(%d) = %v, DecomposeScalar %v", x, dto, dg)
						var sum T
						for j := range dg {
							if dp[j].Coeffs[i] != dg[j] || to[j].Coeffs[i] != dg[j] {
								r.Fail("polynomial and scalar decompositions of %d differ in digit %d: %d, %d, %d", x, j, dp[j].Coeffs[i], to[j].Coeffs[i], dg[j])
								break
							}
							sum += dg[j] << (w - (j+1)*logB)
						}
						r.Check(d.RecomposeScalar(dg, gp) == sum && rp.Coeffs[i] == sum && rto.Coeffs[i] == sum, "recompositions of %d: %d, %d, %d want %d", x, d.RecomposeScalar(dg, gp), rp.Coeffs[i], rto.Coeffs[i], sum)
					}
					// Fourier
					fd := d.FourierDecomposePoly(p, gp)
					fto := make([]poly.FFTPoly, level)
					for i := range fto {
						fto[i] = genFFT(g, N)
					}
					d.FourierDecomposePolyTo(fto, p, gp)
					r.Check(eqV(p.Coeffs, xs), "input changed by Fourier decomposition")
					e := poly.NewEvaluator[T](N)
					for j := range dp {
						want := e.FwdFFT(dp[j])
						tol := math.Exp2(float64(logB)-44) * float64(N)
						if !want.Approx(fd[j], tol) || !want.Approx(fto[j], tol) {
							r.Fail("Fourier decomposition differs at level %d", j)
							break
						}
					}
					r.Obs("Fourier decompositions", 1)
				}
				// buffers have the right shape, in any order of use
				for k := 0; k < 4; k++ {
					l := 1 + g.IntN(level)
					q := tfhe.GadgetParametersLiteral[T]{Base: T(1) << logB, Level: l}.Compile()
					r.Check(len(d.ScalarBuffer(q)) == l, "ScalarBuffer has length %d want %d", len(d.ScalarBuffer(q)), l)
					pb, fb := d.PolyBuffer(q), d.FFTPolyBuffer(q)
					r.Check(len(pb) == l && len(fb) == l, "buffer lengths %d %d want %d", len(pb), len(fb), l)
					for i := range pb {
						r.Check(len(pb[i].Coeffs) == N && len(fb[i].Coeffs) == N, "buffer rank")
					}
					d = d.SafeCopy()
				}
			})
		}
	}
	_ = vec.Equals[int]
}

func init() {
	about("C12", "a case is one (word, base, level) gadget, all of which are enumerated, with a random ring size; the values decomposed are uniform, word extremes, exact ties of the smallest step and their neighbours, and values whose digits sit at half the base; digit count, digit range, recomposition error and agreement of the scalar, polynomial and Fourier forms are judged")
	needObs("C12", "decompositions", 10000)
	needObs("C12", "Fourier decompositions", 200)
	reg("C12", "u32", vAll, vAll, c12Type[uint32])
	reg("C12", "u64", vAll, vAll, c12Type[uint64])
}
