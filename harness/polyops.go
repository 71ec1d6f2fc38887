package main

import (
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// ---------- reference arithmetic in Z_T[X]/(X^N+1) for any integer type ----------

func rMul[T num.Integer](a, b []T) []T {
	N := len(a)
	o := make([]T, N)
	for j, bj := range b {
		if bj == 0 {
			continue
		}
		hi, lo := a[:N-j], a[N-j:]
		for i, x := range hi {
			o[i+j] += bj * x
		}
		for i, x := range lo {
			o[i] -= bj * x
		}
	}
	return o
}

func rMono[T num.Integer](p []T, d int) []T {
	N := len(p)
	o := make([]T, N)
	for i, x := range p {
		if j := posMod(i+posMod(d, 2*N), 2*N); j >= N {
			o[j-N] = -x
		} else {
			o[j] = x
		}
	}
	return o
}

func rAuto[T num.Integer](p []T, d int) []T {
	N := len(p)
	d = posMod(d, 2*N)
	o := make([]T, N)
	for i, x := range p {
		if j := (i * d) % (2 * N); j >= N {
			o[j-N] = -x
		} else {
			o[j] = x
		}
	}
	return o
}

func rMap[T num.Integer](a, b []T, f func(x, y T) T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = f(a[i], b[i])
	}
	return o
}

func rAdd[T num.Integer](a, b []T) []T { return rMap(a, b, func(x, y T) T { return x + y }) }
func rSub[T num.Integer](a, b []T) []T { return rMap(a, b, func(x, y T) T { return x - y }) }
func rScale[T num.Integer](a []T, c T) []T {
	return rMap(a, a, func(x, _ T) T { return c * x })
}

type pArgs[T num.Integer] struct {
	a, b poly.Poly[T]
	c    T
	d    int // exponent
	s    poly.Poly[T]
	fs   poly.FFTPoly // transform of s (short)
}

// polyOp is an operation on coefficient polynomials: alloc may be nil; to writes into o.
type polyOp[T num.Integer] struct {
	name    string
	acc     int // 0: o = v, 1: o += v, -1: o -= v
	overlap bool
	uses    string // operands: a, b, c, d, s
	to      func(e *poly.Evaluator[T], o poly.Poly[T], x pArgs[T])
	alloc   func(e *poly.Evaluator[T], x pArgs[T]) poly.Poly[T]
	inpl    func(e *poly.Evaluator[T], o poly.Poly[T], x pArgs[T]) // in-place form acting on o instead of a
	ref     func(x pArgs[T]) []T
}

type ev[T num.Integer] = *poly.Evaluator[T]

func polyOps[T num.Integer]() []polyOp[T] {
	type E = *poly.Evaluator[T]
	type P = poly.Poly[T]
	type X = pArgs[T]
	mul := func(x X) []T { return rMul(x.a.Coeffs, x.b.Coeffs) }
	sc := func(x X) []T { return rScale(x.a.Coeffs, x.c) }
	mono := func(x X) []T { return rMono(x.a.Coeffs, x.d) }
	auto := func(x X) []T { return rAuto(x.a.Coeffs, 2*x.d+1) }
	short := func(x X) []T { return rMul(x.a.Coeffs, x.s.Coeffs) }
	return []polyOp[T]{
		{"AddPoly", 0, true, "ab", func(e E, o P, x X) { e.AddPolyTo(o, x.a, x.b) }, func(e E, x X) P { return e.AddPoly(x.a, x.b) }, nil, func(x X) []T { return rAdd(x.a.Coeffs, x.b.Coeffs) }},
		{"SubPoly", 0, true, "ab", func(e E, o P, x X) { e.SubPolyTo(o, x.a, x.b) }, func(e E, x X) P { return e.SubPoly(x.a, x.b) }, nil, func(x X) []T { return rSub(x.a.Coeffs, x.b.Coeffs) }},
		{"NegPoly", 0, true, "a", func(e E, o P, x X) { e.NegPolyTo(o, x.a) }, func(e E, x X) P { return e.NegPoly(x.a) }, nil, func(x X) []T { return rScale(x.a.Coeffs, T(0)-1) }},
		{"ScalarMulPoly", 0, true, "ac", func(e E, o P, x X) { e.ScalarMulPolyTo(o, x.a, x.c) }, func(e E, x X) P { return e.ScalarMulPoly(x.a, x.c) }, nil, sc},
		{"ScalarMulAddPoly", 1, true, "ac", func(e E, o P, x X) { e.ScalarMulAddPolyTo(o, x.a, x.c) }, nil, nil, sc},
		{"ScalarMulSubPoly", -1, true, "ac", func(e E, o P, x X) { e.ScalarMulSubPolyTo(o, x.a, x.c) }, nil, nil, sc},
		{"MulPoly", 0, true, "ab", func(e E, o P, x X) { e.MulPolyTo(o, x.a, x.b) }, func(e E, x X) P { return e.MulPoly(x.a, x.b) }, nil, mul},
		{"MulAddPoly", 1, true, "ab", func(e E, o P, x X) { e.MulAddPolyTo(o, x.a, x.b) }, nil, nil, mul},
		{"MulSubPoly", -1, true, "ab", func(e E, o P, x X) { e.MulSubPolyTo(o, x.a, x.b) }, nil, nil, mul},
		{"MonomialMulPoly", 0, false, "ad", func(e E, o P, x X) { e.MonomialMulPolyTo(o, x.a, x.d) }, func(e E, x X) P { return e.MonomialMulPoly(x.a, x.d) }, func(e E, o P, x X) { e.MonomialMulPolyInPlace(o, x.d) }, mono},
		{"MonomialMulAddPoly", 1, false, "ad", func(e E, o P, x X) { e.MonomialMulAddPolyTo(o, x.a, x.d) }, nil, nil, mono},
		{"MonomialMulSubPoly", -1, false, "ad", func(e E, o P, x X) { e.MonomialMulSubPolyTo(o, x.a, x.d) }, nil, nil, mono},
		{"PermutePoly", 0, false, "ad", func(e E, o P, x X) { e.PermutePolyTo(o, x.a, 2*x.d+1) }, func(e E, x X) P { return e.PermutePoly(x.a, 2*x.d+1) }, func(e E, o P, x X) { e.PermutePolyInPlace(o, 2*x.d+1) }, auto},
		{"PermuteAddPoly", 1, false, "ad", func(e E, o P, x X) { e.PermuteAddPolyTo(o, x.a, 2*x.d+1) }, nil, nil, auto},
		{"PermuteSubPoly", -1, false, "ad", func(e E, o P, x X) { e.PermuteSubPolyTo(o, x.a, 2*x.d+1) }, nil, nil, auto},
		{"ShortFFTPolyMulPoly", 0, true, "as", func(e E, o P, x X) { e.ShortFFTPolyMulPolyTo(o, x.a, x.fs) }, func(e E, x X) P { return e.ShortFFTPolyMulPoly(x.a, x.fs) }, nil, short},
		{"ShortFFTPolyMulAddPoly", 1, true, "as", func(e E, o P, x X) { e.ShortFFTPolyMulAddPolyTo(o, x.a, x.fs) }, nil, nil, short},
		{"ShortFFTPolyMulSubPoly", -1, true, "as", func(e E, o P, x X) { e.ShortFFTPolyMulSubPolyTo(o, x.a, x.fs) }, nil, nil, short},
	}
}

// genCoeffs draws coefficient vectors from several shapes.
func genCoeffs[T num.Integer](g *rand.Rand, n int) []T {
	v := make([]T, n)
	switch g.IntN(10) {
	case 0: // extreme everywhere
		x := edgeI[T](g)
		for i := range v {
			v[i] = x
		}
	case 1: // alternating extremes
		x, y := edgeI[T](g), edgeI[T](g)
		for i := range v {
			v[i] = x
			if i&1 == 1 {
				v[i] = y
			}
		}
	case 2: // sparse
		for k := 0; k < 1+g.IntN(3); k++ {
			v[g.IntN(n)] = edgeI[T](g)
		}
	case 3:
		for i := range v {
			v[i] = edgeI[T](g)
		}
	case 4: // small signed
		for i := range v {
			v[i] = T(g.IntN(9)) - 4
		}
	default:
		for i := range v {
			v[i] = T(g.Uint64())
		}
	}
	return v
}

// genShort draws polynomials bounded by ShortLogBound bits.
func genShort[T num.Integer](g *rand.Rand, n int) []T {
	v := make([]T, n)
	b := 1 << poly.ShortLogBound
	if bitsOf[T]() == 8 {
		b = 1 << 7
	}
	k := g.IntN(4)
	for i := range v {
		switch k {
		case 0:
			v[i] = T(b - 1)
		case 1:
			v[i] = T(g.IntN(2))
		default:
			v[i] = T(g.IntN(2*b-1)) - T(b-1)
		}
	}
	return v
}

func genExp(g *rand.Rand, n int) int {
	switch g.IntN(6) {
	case 0:
		return []int{0, 1, -1, n, -n, n - 1, n + 1, 2 * n, -2 * n, 2*n - 1, 2*n + 1, -n - 1, -2*n - 1, 1 - n}[g.IntN(14)]
	case 1:
		return int(g.Uint32()) - 1<<31
	default:
		return g.IntN(6*n) - 3*n
	}
}

func genPArgs[T num.Integer](g *rand.Rand, e *poly.Evaluator[T]) pArgs[T] {
	n := e.Rank()
	x := pArgs[T]{a: poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}, b: poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}, c: edgeI[T](g), d: genExp(g, n)}
	x.s = poly.Poly[T]{Coeffs: genShort[T](g, n)}
	x.fs = e.FwdFFT(x.s)
	return x
}
