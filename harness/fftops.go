package main

import (
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
)

type fArgs[T num.Integer] struct {
	a, b poly.FFTPoly
	p    poly.Poly[T]
	fp   poly.FFTPoly // transform of p
	c    float64
	z    complex128
	d    int
}

// fftOp is a slot-wise operation in the Fourier domain.
type fftOp[T num.Integer] struct {
	name    string
	acc     int
	overlap bool
	uses    string // a, b: Fourier operands
	to      func(e *poly.Evaluator[T], o poly.FFTPoly, x fArgs[T])
	alloc   func(e *poly.Evaluator[T], x fArgs[T]) poly.FFTPoly
	inpl    func(e *poly.Evaluator[T], o poly.FFTPoly, x fArgs[T])
	ref     func(s *slots, x fArgs[T]) []complex128
}

// slots knows which odd root of unity each slot of a transform is evaluated at.
type slots struct {
	n    int
	root []int // slot j evaluates at exp(i*pi*root[j]/n), root odd
	at   map[int]int
	tab  []complex128
}

// newSlots reads the order of the slots off the transform of X; ok is false when they are not the odd roots.
func newSlots[T num.Integer](e *poly.Evaluator[T]) (*slots, bool) {
	n := e.Rank()
	x := e.NewPoly()
	x.Coeffs[1] = 1
	c := vec.Float4ToCmplx(e.FwdFFT(x).Coeffs)
	s := &slots{n: n, at: map[int]int{}, tab: make([]complex128, 2*n)}
	for i := range s.tab {
		sn, cs := math.Sincos(math.Pi * float64(i) / float64(n))
		s.tab[i] = complex(cs, sn)
	}
	for j, z := range c {
		k := posMod(int(math.Round(math.Atan2(imag(z), real(z))/math.Pi*float64(n))), 2*n)
		if k%2 == 0 || cabs(z-s.tab[k]) > 1e-12 {
			return s, false
		}
		if _, ok := s.at[k]; ok {
			return s, false
		}
		s.root = append(s.root, k)
		s.at[k] = j
	}
	for k := range s.at {
		if _, ok := s.at[2*n-k]; ok {
			return s, false
		}
	}
	return s, len(s.root) == n/2
}

func cabs(z complex128) float64 { return math.Hypot(real(z), imag(z)) }

// eval is the reference transform of real coefficients.
func (s *slots) eval(p []float64) []complex128 {
	o := make([]complex128, s.n/2)
	for j, k := range s.root {
		o[j] = s.evalAt(p, k)
	}
	return o
}

// evalAt is the value at root k, by compensated sums.
func (s *slots) evalAt(p []float64, k int) complex128 {
	var re, im, ce, ci float64
	idx := 0
	for _, x := range p {
		w := s.tab[idx]
		y := x*real(w) - ce
		t := re + y
		ce = (t - re) - y
		re = t
		y = x*imag(w) - ci
		t = im + y
		ci = (t - im) - y
		im = t
		idx = (idx + k) & (2*s.n - 1)
	}
	return complex(re, im)
}

// inv is the reference inverse transform: real coefficients.
func (s *slots) inv(f []complex128) []float64 {
	o := make([]float64, s.n)
	for i := range o {
		o[i] = s.invAt(f, i)
	}
	return o
}

// invAt is coefficient i of the inverse.
func (s *slots) invAt(f []complex128, i int) float64 {
	sum := 0.0
	for j, k := range s.root {
		w := s.tab[(i*k)&(2*s.n-1)]
		sum += real(f[j])*real(w) + imag(f[j])*imag(w)
	}
	return 2 * sum / float64(s.n)
}

// auto returns the slots of f(X^d).
func (s *slots) auto(f []complex128, d int) []complex128 {
	o := make([]complex128, len(f))
	for j, k := range s.root {
		kk := posMod(k*posMod(d, 2*s.n), 2*s.n)
		if i, ok := s.at[kk]; ok {
			o[j] = f[i]
		} else {
			z := f[s.at[2*s.n-kk]]
			o[j] = complex(real(z), -imag(z))
		}
	}
	return o
}

func cx(p poly.FFTPoly) []complex128 { return vec.Float4ToCmplx(p.Coeffs) }

func cMap(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
	o := make([]complex128, len(a))
	for i := range a {
		o[i] = f(a[i], b[i])
	}
	return o
}

func fftOps[T num.Integer]() []fftOp[T] {
	type E = *poly.Evaluator[T]
	type F = poly.FFTPoly
	type X = fArgs[T]
	mul := func(s *slots, x X) []complex128 {
		return cMap(cx(x.a), cx(x.b), func(x, y complex128) complex128 { return x * y })
	}
	fm := func(s *slots, x X) []complex128 {
		return cMap(cx(x.a), cx(x.a), func(v, _ complex128) complex128 { return complex(x.c*real(v), x.c*imag(v)) })
	}
	cm := func(s *slots, x X) []complex128 {
		return cMap(cx(x.a), cx(x.a), func(v, _ complex128) complex128 { return x.z * v })
	}
	pm := func(s *slots, x X) []complex128 {
		return cMap(cx(x.a), cx(x.fp), func(x, y complex128) complex128 { return x * y })
	}
	au := func(s *slots, x X) []complex128 { return s.auto(cx(x.a), 2*x.d+1) }
	mo := func(s *slots, x X) []complex128 {
		o := make([]complex128, s.n/2)
		for j, k := range s.root {
			o[j] = s.tab[posMod(k*posMod(x.d, 2*s.n), 2*s.n)]
		}
		return o
	}
	return []fftOp[T]{
		{"AddFFTPoly", 0, true, "ab", func(e E, o F, x X) { e.AddFFTPolyTo(o, x.a, x.b) }, func(e E, x X) F { return e.AddFFTPoly(x.a, x.b) }, nil, func(s *slots, x X) []complex128 {
			return cMap(cx(x.a), cx(x.b), func(x, y complex128) complex128 { return x + y })
		}},
		{"SubFFTPoly", 0, true, "ab", func(e E, o F, x X) { e.SubFFTPolyTo(o, x.a, x.b) }, func(e E, x X) F { return e.SubFFTPoly(x.a, x.b) }, nil, func(s *slots, x X) []complex128 {
			return cMap(cx(x.a), cx(x.b), func(x, y complex128) complex128 { return x - y })
		}},
		{"NegFFTPoly", 0, true, "a", func(e E, o F, x X) { e.NegFFTPolyTo(o, x.a) }, func(e E, x X) F { return e.NegFFTPoly(x.a) }, nil, func(s *slots, x X) []complex128 {
			return cMap(cx(x.a), cx(x.a), func(x, y complex128) complex128 { return -x })
		}},
		{"FloatMulFFTPoly", 0, true, "a", func(e E, o F, x X) { e.FloatMulFFTPolyTo(o, x.a, x.c) }, func(e E, x X) F { return e.FloatMulFFTPoly(x.a, x.c) }, nil, fm},
		{"FloatMulAddFFTPoly", 1, true, "a", func(e E, o F, x X) { e.FloatMulAddFFTPolyTo(o, x.a, x.c) }, nil, nil, fm},
		{"FloatMulSubFFTPoly", -1, true, "a", func(e E, o F, x X) { e.FloatMulSubFFTPolyTo(o, x.a, x.c) }, nil, nil, fm},
		{"CmplxMulFFTPoly", 0, true, "a", func(e E, o F, x X) { e.CmplxMulFFTPolyTo(o, x.a, x.z) }, func(e E, x X) F { return e.CmplxMulFFTPoly(x.a, x.z) }, nil, cm},
		{"CmplxMulAddFFTPoly", 1, true, "a", func(e E, o F, x X) { e.CmplxMulAddFFTPolyTo(o, x.a, x.z) }, nil, nil, cm},
		{"CmplxMulSubFFTPoly", -1, true, "a", func(e E, o F, x X) { e.CmplxMulSubFFTPolyTo(o, x.a, x.z) }, nil, nil, cm},
		{"MulFFTPoly", 0, true, "ab", func(e E, o F, x X) { e.MulFFTPolyTo(o, x.a, x.b) }, func(e E, x X) F { return e.MulFFTPoly(x.a, x.b) }, nil, mul},
		{"MulAddFFTPoly", 1, true, "ab", func(e E, o F, x X) { e.MulAddFFTPolyTo(o, x.a, x.b) }, nil, nil, mul},
		{"MulSubFFTPoly", -1, true, "ab", func(e E, o F, x X) { e.MulSubFFTPolyTo(o, x.a, x.b) }, nil, nil, mul},
		{"PolyMulFFTPoly", 0, true, "a", func(e E, o F, x X) { e.PolyMulFFTPolyTo(o, x.a, x.p) }, func(e E, x X) F { return e.PolyMulFFTPoly(x.a, x.p) }, nil, pm},
		{"PolyMulAddFFTPoly", 1, true, "a", func(e E, o F, x X) { e.PolyMulAddFFTPolyTo(o, x.a, x.p) }, nil, nil, pm},
		{"PolyMulSubFFTPoly", -1, true, "a", func(e E, o F, x X) { e.PolyMulSubFFTPolyTo(o, x.a, x.p) }, nil, nil, pm},
		{"PermuteFFTPoly", 0, false, "a", func(e E, o F, x X) { e.PermuteFFTPolyTo(o, x.a, 2*x.d+1) }, func(e E, x X) F { return e.PermuteFFTPoly(x.a, 2*x.d+1) }, func(e E, o F, x X) { e.PermuteFFTPolyInPlace(o, 2*x.d+1) }, au},
		{"PermuteAddFFTPoly", 1, false, "a", func(e E, o F, x X) { e.PermuteAddFFTPolyTo(o, x.a, 2*x.d+1) }, nil, nil, au},
		{"PermuteSubFFTPoly", -1, false, "a", func(e E, o F, x X) { e.PermuteSubFFTPolyTo(o, x.a, 2*x.d+1) }, nil, nil, au},
		{"MonomialFwdFFT", 0, true, "", func(e E, o F, x X) { e.MonomialFwdFFTTo(o, x.d) }, func(e E, x X) F { return e.MonomialFwdFFT(x.d) }, nil, mo},
		{"MonomialSubOneFwdFFT", 0, true, "", func(e E, o F, x X) { e.MonomialSubOneFwdFFTTo(o, x.d) }, func(e E, x X) F { return e.MonomialSubOneFwdFFT(x.d) }, nil, func(s *slots, x X) []complex128 {
			o := mo(s, x)
			for i := range o {
				o[i] -= 1
			}
			return o
		}},
		{"FwdFFT", 0, true, "", func(e E, o F, x X) { e.FwdFFTTo(o, x.p) }, func(e E, x X) F { return e.FwdFFT(x.p) }, nil, func(s *slots, x X) []complex128 { return cx(x.fp) }},
		{"FwdFFTAdd", 1, true, "", func(e E, o F, x X) { e.FwdFFTAddTo(o, x.p) }, nil, nil, func(s *slots, x X) []complex128 { return cx(x.fp) }},
		{"FwdFFTSub", -1, true, "", func(e E, o F, x X) { e.FwdFFTSubTo(o, x.p) }, nil, nil, func(s *slots, x X) []complex128 { return cx(x.fp) }},
	}
}

func genFFT(g *rand.Rand, n int) poly.FFTPoly {
	f := poly.NewFFTPoly(n)
	sc := math.Exp2(float64(g.IntN(40)))
	for i := range f.Coeffs {
		f.Coeffs[i] = g.NormFloat64() * sc
	}
	return f
}

func genFArgs[T num.Integer](g *rand.Rand, e *poly.Evaluator[T]) fArgs[T] {
	n := e.Rank()
	x := fArgs[T]{a: genFFT(g, n), b: genFFT(g, n), p: poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}, c: g.NormFloat64() * 10, z: complex(g.NormFloat64(), g.NormFloat64()), d: genExp(g, n)}
	x.fp = e.FwdFFT(x.p)
	return x
}
