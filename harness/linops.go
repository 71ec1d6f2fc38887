package main

import (
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// lArgs are the operands of a linear operation on ciphertexts.
type lArgs[T TI] struct {
	la, lb tfhe.LWECiphertext[T]
	lp     tfhe.LWEPlaintext[T]
	ga, gb tfhe.GLWECiphertext[T]
	gp     tfhe.GLWEPlaintext[T]
	fa, fb tfhe.FFTGLWECiphertext[T]
	c      T
	x      float64
	z      complex128
	p      poly.Poly[T] // small polynomial
	fp     poly.FFTPoly // its transform
	d      int          // monomial exponent
}

// lweLin is a linear operation on scalar ciphertexts; ref gives the phase of the result from those of the operands.
type lweLin[T TI] struct {
	name  string
	acc   int
	two   bool
	to    func(e *tfhe.Evaluator[T], o tfhe.LWECiphertext[T], a lArgs[T])
	alloc func(e *tfhe.Evaluator[T], a lArgs[T]) tfhe.LWECiphertext[T]
	ref   func(pa, pb T, a lArgs[T]) T
}

// glweLin is one on ring ciphertexts.
type glweLin[T TI] struct {
	name    string
	acc     int
	two     bool
	overlap bool
	float   bool // result is rounded
	perm    bool // the result is under the permuted key
	to      func(e *tfhe.Evaluator[T], o tfhe.GLWECiphertext[T], a lArgs[T])
	alloc   func(e *tfhe.Evaluator[T], a lArgs[T]) tfhe.GLWECiphertext[T]
	inpl    func(e *tfhe.Evaluator[T], o tfhe.GLWECiphertext[T], a lArgs[T])
	ref     func(pa, pb []T, a lArgs[T]) []T
}

// fftLin is one on Fourier ring ciphertexts; ref acts on the slots of each component.
type fftLin[T TI] struct {
	name    string
	acc     int
	two     bool
	overlap bool
	to      func(e *tfhe.Evaluator[T], o tfhe.FFTGLWECiphertext[T], a lArgs[T])
	alloc   func(e *tfhe.Evaluator[T], a lArgs[T]) tfhe.FFTGLWECiphertext[T]
	inpl    func(e *tfhe.Evaluator[T], o tfhe.FFTGLWECiphertext[T], a lArgs[T])
	base    string // the operation of the Fourier layer it consists of
}

func lweLins[T TI]() []lweLin[T] {
	type E = *tfhe.Evaluator[T]
	type C = tfhe.LWECiphertext[T]
	type A = lArgs[T]
	sm := func(pa, pb T, a A) T { return a.c * pa }
	return []lweLin[T]{
		{"AddLWE", 0, true, func(e E, o C, a A) { e.AddLWETo(o, a.la, a.lb) }, func(e E, a A) C { return e.AddLWE(a.la, a.lb) }, func(pa, pb T, a A) T { return pa + pb }},
		{"SubLWE", 0, true, func(e E, o C, a A) { e.SubLWETo(o, a.la, a.lb) }, func(e E, a A) C { return e.SubLWE(a.la, a.lb) }, func(pa, pb T, a A) T { return pa - pb }},
		{"NegLWE", 0, false, func(e E, o C, a A) { e.NegLWETo(o, a.la) }, func(e E, a A) C { return e.NegLWE(a.la) }, func(pa, pb T, a A) T { return -pa }},
		{"AddPlainLWE", 0, false, func(e E, o C, a A) { e.AddPlainLWETo(o, a.la, a.lp) }, func(e E, a A) C { return e.AddPlainLWE(a.la, a.lp) }, func(pa, pb T, a A) T { return pa + a.lp.Value }},
		{"SubPlainLWE", 0, false, func(e E, o C, a A) { e.SubPlainLWETo(o, a.la, a.lp) }, func(e E, a A) C { return e.SubPlainLWE(a.la, a.lp) }, func(pa, pb T, a A) T { return pa - a.lp.Value }},
		{"ScalarMulLWE", 0, false, func(e E, o C, a A) { e.ScalarMulLWETo(o, a.la, a.c) }, func(e E, a A) C { return e.ScalarMulLWE(a.la, a.c) }, sm},
		{"ScalarMulAddLWE", 1, false, func(e E, o C, a A) { e.ScalarMulAddLWETo(o, a.la, a.c) }, nil, sm},
		{"ScalarMulSubLWE", -1, false, func(e E, o C, a A) { e.ScalarMulSubLWETo(o, a.la, a.c) }, nil, sm},
	}
}

func glweLins[T TI]() []glweLin[T] {
	type E = *tfhe.Evaluator[T]
	type C = tfhe.GLWECiphertext[T]
	type A = lArgs[T]
	type V = []T
	sm := func(pa, pb V, a A) V { return scaleV(pa, a.c) }
	pm := func(pa, pb V, a A) V { return negaMul(pa, a.p.Coeffs) }
	mm := func(pa, pb V, a A) V { return monoMul(pa, a.d) }
	au := func(pa, pb V, a A) V { return autoPoly(pa, posMod(2*a.d+1, 2*len(pa))) }
	return []glweLin[T]{
		{"AddGLWE", 0, true, true, false, false, func(e E, o C, a A) { e.AddGLWETo(o, a.ga, a.gb) }, func(e E, a A) C { return e.AddGLWE(a.ga, a.gb) }, nil, func(pa, pb V, a A) V { return addV(pa, pb) }},
		{"SubGLWE", 0, true, true, false, false, func(e E, o C, a A) { e.SubGLWETo(o, a.ga, a.gb) }, func(e E, a A) C { return e.SubGLWE(a.ga, a.gb) }, nil, func(pa, pb V, a A) V { return subV(pa, pb) }},
		{"NegGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.NegGLWETo(o, a.ga) }, func(e E, a A) C { return e.NegGLWE(a.ga) }, nil, func(pa, pb V, a A) V { return scaleV(pa, ^T(0)) }},
		{"AddPlainGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.AddPlainGLWETo(o, a.ga, a.gp) }, func(e E, a A) C { return e.AddPlainGLWE(a.ga, a.gp) }, nil, func(pa, pb V, a A) V { return addV(pa, a.gp.Value.Coeffs) }},
		{"SubPlainGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.SubPlainGLWETo(o, a.ga, a.gp) }, func(e E, a A) C { return e.SubPlainGLWE(a.ga, a.gp) }, nil, func(pa, pb V, a A) V { return subV(pa, a.gp.Value.Coeffs) }},
		{"ScalarMulGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.ScalarMulGLWETo(o, a.ga, a.c) }, func(e E, a A) C { return e.ScalarMulGLWE(a.ga, a.c) }, nil, sm},
		{"ScalarMulAddGLWE", 1, false, true, false, false, func(e E, o C, a A) { e.ScalarMulAddGLWETo(o, a.ga, a.c) }, nil, nil, sm},
		{"ScalarMulSubGLWE", -1, false, true, false, false, func(e E, o C, a A) { e.ScalarMulSubGLWETo(o, a.ga, a.c) }, nil, nil, sm},
		{"PolyMulGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.PolyMulGLWETo(o, a.ga, a.p) }, func(e E, a A) C { return e.PolyMulGLWE(a.ga, a.p) }, nil, pm},
		{"PolyMulAddGLWE", 1, false, true, false, false, func(e E, o C, a A) { e.PolyMulAddGLWETo(o, a.ga, a.p) }, nil, nil, pm},
		{"PolyMulSubGLWE", -1, false, true, false, false, func(e E, o C, a A) { e.PolyMulSubGLWETo(o, a.ga, a.p) }, nil, nil, pm},
		{"FFTPolyMulGLWE", 0, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulGLWETo(o, a.ga, a.fp) }, func(e E, a A) C { return e.FFTPolyMulGLWE(a.ga, a.fp) }, nil, pm},
		{"FFTPolyMulAddGLWE", 1, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulAddGLWETo(o, a.ga, a.fp) }, nil, nil, pm},
		{"FFTPolyMulSubGLWE", -1, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulSubGLWETo(o, a.ga, a.fp) }, nil, nil, pm},
		{"MonomialMulGLWE", 0, false, false, false, false, func(e E, o C, a A) { e.MonomialMulGLWETo(o, a.ga, a.d) }, func(e E, a A) C { return e.MonomialMulGLWE(a.ga, a.d) }, func(e E, o C, a A) { e.MonomialMulGLWEInPlace(o, a.d) }, mm},
		{"MonomialMulAddGLWE", 1, false, false, false, false, func(e E, o C, a A) { e.MonomialMulAddGLWETo(o, a.ga, a.d) }, nil, nil, mm},
		{"MonomialMulSubGLWE", -1, false, false, false, false, func(e E, o C, a A) { e.MonomialMulSubGLWETo(o, a.ga, a.d) }, nil, nil, mm},
		{"PermuteGLWE", 0, false, false, false, true, func(e E, o C, a A) { e.PermuteGLWETo(o, a.ga, 2*a.d+1) }, func(e E, a A) C { return e.PermuteGLWE(a.ga, 2*a.d+1) }, func(e E, o C, a A) { e.PermuteGLWEInPlace(o, 2*a.d+1) }, au},
		{"PermuteAddGLWE", 1, false, false, false, true, func(e E, o C, a A) { e.PermuteAddGLWETo(o, a.ga, 2*a.d+1) }, nil, nil, au},
		{"PermuteSubGLWE", -1, false, false, false, true, func(e E, o C, a A) { e.PermuteSubGLWETo(o, a.ga, 2*a.d+1) }, nil, nil, au},
	}
}

func fftLins[T TI]() []fftLin[T] {
	type E = *tfhe.Evaluator[T]
	type C = tfhe.FFTGLWECiphertext[T]
	type A = lArgs[T]
	return []fftLin[T]{
		{"AddFFTGLWE", 0, true, true, func(e E, o C, a A) { e.AddFFTGLWETo(o, a.fa, a.fb) }, func(e E, a A) C { return e.AddFFTGLWE(a.fa, a.fb) }, nil, "AddFFTPoly"},
		{"SubFFTGLWE", 0, true, true, func(e E, o C, a A) { e.SubFFTGLWETo(o, a.fa, a.fb) }, func(e E, a A) C { return e.SubFFTGLWE(a.fa, a.fb) }, nil, "SubFFTPoly"},
		{"NegFFTGLWE", 0, false, true, func(e E, o C, a A) { e.NegFFTGLWETo(o, a.fa) }, func(e E, a A) C { return e.NegFFTGLWE(a.fa) }, nil, "NegFFTPoly"},
		{"FloatMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.FloatMulFFTGLWETo(o, a.fa, a.x) }, func(e E, a A) C { return e.FloatMulFFTGLWE(a.fa, a.x) }, nil, "FloatMulFFTPoly"},
		{"FloatMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.FloatMulAddFFTGLWETo(o, a.fa, a.x) }, nil, nil, "FloatMulFFTPoly"},
		{"FloatMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.FloatMulSubFFTGLWETo(o, a.fa, a.x) }, nil, nil, "FloatMulFFTPoly"},
		{"CmplxMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.CmplxMulFFTGLWETo(o, a.fa, a.z) }, func(e E, a A) C { return e.CmplxMulFFTGLWE(a.fa, a.z) }, nil, "CmplxMulFFTPoly"},
		{"CmplxMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.CmplxMulAddFFTGLWETo(o, a.fa, a.z) }, nil, nil, "CmplxMulFFTPoly"},
		{"CmplxMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.CmplxMulSubFFTGLWETo(o, a.fa, a.z) }, nil, nil, "CmplxMulFFTPoly"},
		{"PolyMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.PolyMulFFTGLWETo(o, a.fa, a.p) }, func(e E, a A) C { return e.PolyMulFFTGLWE(a.fa, a.p) }, nil, "PolyMulFFTPoly"},
		{"PolyMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.PolyMulAddFFTGLWETo(o, a.fa, a.p) }, nil, nil, "PolyMulFFTPoly"},
		{"PolyMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.PolyMulSubFFTGLWETo(o, a.fa, a.p) }, nil, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.FFTPolyMulFFTGLWETo(o, a.fa, a.fp) }, func(e E, a A) C { return e.FFTPolyMulFFTGLWE(a.fa, a.fp) }, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.FFTPolyMulAddFFTGLWETo(o, a.fa, a.fp) }, nil, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.FFTPolyMulSubFFTGLWETo(o, a.fa, a.fp) }, nil, nil, "PolyMulFFTPoly"},
		{"PermuteFFTGLWE", 0, false, false, func(e E, o C, a A) { e.PermuteFFTGLWETo(o, a.fa, 2*a.d+1) }, func(e E, a A) C { return e.PermuteFFTGLWE(a.fa, 2*a.d+1) }, func(e E, o C, a A) { e.PermuteFFTGLWEInPlace(o, 2*a.d+1) }, "PermuteFFTPoly"},
		{"PermuteAddFFTGLWE", 1, false, false, func(e E, o C, a A) { e.PermuteAddFFTGLWETo(o, a.fa, 2*a.d+1) }, nil, nil, "PermuteFFTPoly"},
		{"PermuteSubFFTGLWE", -1, false, false, func(e E, o C, a A) { e.PermuteSubFFTGLWETo(o, a.fa, 2*a.d+1) }, nil, nil, "PermuteFFTPoly"},
	}
}

// genExpN draws exponents in every range: zero, N, 2N, negative and far outside.
func genExpN(g *rand.Rand, N int) int {
	switch g.IntN(8) {
	case 0:
		return 0
	case 1:
		return N
	case 2:
		return -N
	case 3:
		return 2*N - 1
	case 4:
		return -g.IntN(10 * N)
	case 5:
		return g.IntN(10 * N)
	default:
		return g.IntN(2 * N)
	}
}
