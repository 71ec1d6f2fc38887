package main

import (
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// gad describes a gadget independently of the library's accessors.
type gad[T TI] struct {
	logB, level int
	gp          tfhe.GadgetParameters[T]
}

func gadOf[T TI](logB, level int) gad[T] {
	return gad[T]{logB, level, tfhe.GadgetParametersLiteral[T]{Base: T(1) << logB, Level: level}.Compile()}
}

func (g gad[T]) q(i int) T { return T(1) << (logQ[T]() - (i+1)*g.logB) }

// half is half of the smallest step (0 when the gadget is exact).
func (g gad[T]) half() float64 {
	if s := logQ[T]() - g.logB*g.level; s > 0 {
		return math.Exp2(float64(s - 1))
	}
	return 0
}

// budget is the error allowed to a gadget or external product: a worst-case bound, and a deviation.
type budget struct {
	worst, vr float64
	bias      float64 // rounding to nearest is half a unit off on average
}

// lev accounts for one gadget-encrypted operand: norms of what it encrypts and of its error per level.
func (b *budget) lev(half, base, l1, l2sq float64, errL1, errL2sq []float64) {
	b.worst += half * l1
	b.vr += half * half / 3 * l2sq
	if half > 0 {
		b.bias += l1
	}
	for i := range errL1 {
		b.worst += base / 2 * errL1[i]
		b.vr += (base*base/12 + 1) * errL2sq[i]
	}
}

// bound is the tolerated error; random tells that the decomposed operand was uniform.
func (b budget) bound(random bool, fft float64) float64 {
	w := b.worst
	if s := 12*math.Sqrt(b.vr) + b.bias + 4; random && s < w {
		w = s
	}
	return w + fft + 2
}

// fftProdTol bounds the rounding of a sum of terms products of digits with full-size polynomials.
func fftProdTol[T TI](N, terms int, base float64) float64 {
	return 24 * math.Exp2(float64(logQ[T]()-53)) * base / 2 * math.Sqrt(float64(N*terms)) * math.Log2(float64(N)) / 4
}

func norms[T TI](v []T) (l1, l2sq float64) {
	for _, x := range v {
		s := signed(x)
		l1 += math.Abs(s)
		l2sq += s * s
	}
	return
}

// levErr returns the errors of a Lev encryption of m, per level.
func levErr[T TI](key []T, ct tfhe.LevCiphertext[T], g gad[T], m T) (l1, l2 []float64) {
	for j := range ct.Value {
		a, b := norms([]T{refLWEPhase(key, ct.Value[j].Value) - m*g.q(j)})
		l1, l2 = append(l1, a), append(l2, b)
	}
	return
}

// glevErr returns the error norms of a Fourier GLev encryption of m, per level.
func glevErr[T TI](pe *poly.Evaluator[T], key []poly.Poly[T], ct tfhe.FFTGLevCiphertext[T], g gad[T], m []T) (l1, l2 []float64) {
	for j := range ct.Value {
		a, b := norms(subV(refGLWEPhase(key, invFFTGLWE(pe, ct.Value[j]).Value), scaleV(m, g.q(j))))
		l1, l2 = append(l1, a), append(l2, b)
	}
	return
}

// smallPoly draws a polynomial with few small coefficients: constants, bits, monomials and short ones.
func smallPoly[T TI](r *R, N int) []T {
	g := r.Rng
	v := make([]T, N)
	switch g.IntN(6) {
	case 0:
	case 1:
		v[0] = 1
	case 2:
		v[g.IntN(N)] = 1
	case 3:
		v[N-1] = ^T(0)
	case 4:
		for i := 0; i < 1+g.IntN(4); i++ {
			v[g.IntN(N)] = T(g.IntN(7)) - 3
		}
	default:
		for i := range v {
			v[i] = T(g.IntN(3)) - 1
		}
	}
	return v
}
