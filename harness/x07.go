package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func x07One[T num.Integer](r *R, g *rand.Rand, c, std float64) {
	var z T
	r.Case(fmt.Sprintf("%T centre %v deviation %v", z, c, std), func() {
		s := xtfhe.NewCDTSampler[T](c, std)
		r.Check(s.Center() == c && s.StdDev() == std, "accessors return %g and %g", s.Center(), s.StdDev())
		n := r.Pick(150000, 1000000)
		out := make([]T, 0, n)
		for len(out) < n {
			k := min(n-len(out), []int{1 + g.IntN(700), 1 + g.IntN(700), 1 + g.IntN(700), 1 + g.IntN(700), 40000}[g.IntN(5)])
			v := make([]T, k)
			for i := range v {
				v[i] = T(g.Uint64())
			}
			base := append([]T(nil), v...)
			switch g.IntN(5) {
			case 0:
				for i := range v {
					v[i] = s.Sample()
				}
			case 1:
				s.SampleVecTo(v)
			case 2:
				s.SamplePolyTo(poly.Poly[T]{Coeffs: v})
			case 3:
				s.SamplePolyAddTo(poly.Poly[T]{Coeffs: v})
				for i := range v {
					v[i] -= base[i]
				}
			case 4:
				s.SamplePolySubTo(poly.Poly[T]{Coeffs: v})
				for i := range v {
					v[i] = base[i] - v[i]
				}
			}
			out = append(out, v...)
		}
		// exact probabilities around the centre
		fl := math.Floor(c)
		fr := c - fl
		K := int(math.Ceil(10*std)) + 2
		pr := make([]float64, 2*K+1)
		sum := 0.0
		for i := range pr {
			d := float64(i-K) - fr
			pr[i] = math.Exp(-d * d / (2 * std * std))
			sum += pr[i]
		}
		for i := range pr {
			pr[i] /= sum
		}
		cnt := make([]int, 2*K+1)
		m, v := 0.0, 0.0
		last, same := T(0), 0
		for i, y := range out {
			d := toF(y - T(int64(fl))) // exact difference to floor(centre) in the element type
			at := int(d) + K
			if at < 0 || at > 2*K {
				r.Fail("sample %v is %g deviations from the centre", y, (d-fr)/std)
				return
			}
			cnt[at]++
			m += d - fr
			v += (d - fr) * (d - fr)
			if i > 0 && y == last {
				same++
			}
			last = y
		}
		nf := float64(n)
		m, v = m/nf, v/nf
		r.Check(math.Abs(m) <= 7*std/math.Sqrt(nf)+1e-6, "mean %g away from the centre", m)
		r.Check(math.Abs(v/(std*std)-1) <= 7*math.Sqrt(2/nf)+1e-3, "variance %g times the requested one", v/(std*std))
		chisq(r, "discrete Gaussian", cnt, pr)
		p2 := 0.0
		for _, p := range pr {
			p2 += p * p
		}
		r.Check(math.Abs(float64(same)-p2*nf) <= 8*math.Sqrt(p2*nf)+5, "%d equal neighbours, expected %g", same, p2*nf)
		r.Obs("samples", n)
		r.Obs("samplers", 1)
	})
}

func x07All[T num.Integer](r *R, far float64) {
	g := r.Rng
	for _, std := range []float64{1, 1.3, 2, 4.7, 16, 63.9, 800} {
		if math.Exp2(float64(bitsOf[T]()-1)) < 24*std {
			continue
		}
		for _, c := range []float64{0, 0.5, -0.5, 0.25, -0.75, 1, -1, 3.999, -2.001, 1e-9, far + 0.3, -far - 0.6, far - 0.5, -far, 17.5} {
			x07One[T](r, g, c, std)
		}
		for i := 0; i < r.Pick(8, 20); i++ {
			x07One[T](r, g, (g.Float64()-0.5)*math.Exp2(float64(g.IntN(int(math.Log2(far))))), std*(1+g.Float64()))
		}
	}
	var outs [][]T
	r.Case("separate samplers are unrelated", func() {
		for i := 0; i < 6; i++ {
			v := make([]T, 64)
			xtfhe.NewCDTSampler[T](0, 4).SampleVecTo(v)
			for _, o := range outs {
				r.Check(!eqV(o[:40], v[:40]), "two samplers produced the same sequence")
			}
			outs = append(outs, v)
		}
	})
}

func init() {
	about("X07", "Cases: output type x centre (integral, fractional, negative, far from zero, random) x deviation from one up; every output value is counted and compared with the exact discrete Gaussian probabilities (chi-square, mean, variance, largest distance, repeated neighbours), through the single, vector, polynomial, adding and subtracting forms.",
		"deviations of at least one: below, the property's smoothness proviso excludes")
	needObs("X07", "samples", 1000000)
	needObs("X07", "samplers", 200)
	reg("X07", "words", vAvx, vTwo, func(r *R) { x07All[uint64](r, math.Exp2(40)); x07All[uint32](r, math.Exp2(28)) })
	reg("X07", "signed", vAvx, vTwo, func(r *R) {
		x07All[int64](r, math.Exp2(45))
		x07All[int32](r, math.Exp2(28))
		x07All[int](r, math.Exp2(33))
		x07All[int16](r, 2000)
	})
}
