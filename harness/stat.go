package main

import (
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// stat accumulates errors for judging a declared deviation.
type stat struct {
	n             int
	sum, sq, peak float64
}

func (s *stat) add(x float64) {
	s.n++
	s.sum += x
	s.sq += x * x
	if a := math.Abs(x); a > s.peak {
		s.peak = a
	}
}

func (s *stat) rms() float64 { return math.Sqrt(s.sq / float64(s.n)) }

// declared judges that the samples are centred and have the given deviation (8 standard errors of slack).
func (s *stat) declared(r *R, label string, std float64) {
	if s.n < 200 {
		return
	}
	std = math.Sqrt(std*std + 1.0/12)
	n := float64(s.n)
	r.Check(math.Abs(s.sum/n) <= 8*std/math.Sqrt(n)+0.51, "%s: mean %g over %d samples of deviation %g", label, s.sum/n, s.n, std)
	tol := 8/math.Sqrt(2*n) + 0.01
	q := s.rms() / std
	r.Check(q >= 1-tol && q <= 1+tol, "%s: measured deviation %g, declared %g (%d samples)", label, s.rms(), std, s.n)
	r.Check(s.peak <= 9.5*std+1, "%s: sample %g of declared deviation %g", label, s.peak, std)
	r.Obs("noise samples", s.n)
}

// lweStd is the declared deviation (scaled by Q) of default LWE encryptions, from the literal.
func lweStd[T TI](lit tfhe.ParametersLiteral[T]) float64 {
	if lit.BootstrapOrder == oBR {
		return lit.LWEStdDev * math.Exp2(float64(logQ[T]()))
	}
	return lit.GLWEStdDev * math.Exp2(float64(logQ[T]()))
}

func glweStd[T TI](lit tfhe.ParametersLiteral[T]) float64 {
	return lit.GLWEStdDev * math.Exp2(float64(logQ[T]()))
}

func lweDim[T TI](lit tfhe.ParametersLiteral[T]) int {
	if lit.BootstrapOrder == oBR {
		return lit.LWEDimension
	}
	return lit.GLWERank * lit.PolyRank
}

// randGadget draws a gadget whose first step leaves room for the noise of the small parameter sets.
func randGadget[T TI](g *rand.Rand, maxLogB int) tfhe.GadgetParameters[T] {
	w := logQ[T]()
	top := 34
	if w == 32 {
		top = 20
	}
	if maxLogB > 0 && maxLogB < top {
		top = maxLogB
	}
	logB := 1 + g.IntN(top)
	level := 1 + g.IntN(min(w/logB, 8))
	if g.IntN(8) == 0 {
		level = 1 + g.IntN(min(w/logB, 40))
	}
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logB, Level: level}.Compile()
}

// roomLogB is the largest base for which the first gadget step exceeds ten deviations of std.
func roomLogB[T TI](std float64) int {
	return logQ[T]() - int(math.Ceil(math.Log2(10*std+1))) - 2
}

// dirty fillers for output arguments.

func dirtyLWE[T TI](g *rand.Rand, n int) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T]{Value: randVec[T](g, n+1)}
}

func dirtyPoly[T TI](g *rand.Rand, N int) poly.Poly[T] {
	return poly.Poly[T]{Coeffs: randVec[T](g, N)}
}

func dirtyGLWE[T TI](g *rand.Rand, k, N int) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertextCustom[T](k, N)
	for i := range ct.Value {
		ct.Value[i] = dirtyPoly[T](g, N)
	}
	return ct
}

func dirtyFFTGLWE[T TI](g *rand.Rand, k, N int) tfhe.FFTGLWECiphertext[T] {
	ct := tfhe.NewFFTGLWECiphertextCustom[T](k, N)
	for i := range ct.Value {
		ct.Value[i] = genFFT(g, N)
	}
	return ct
}

func dirtyLev[T TI](g *rand.Rand, n int, gp tfhe.GadgetParameters[T]) tfhe.LevCiphertext[T] {
	ct := tfhe.NewLevCiphertextCustom(n, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyLWE[T](g, n)
	}
	return ct
}

func dirtyGSW[T TI](g *rand.Rand, n int, gp tfhe.GadgetParameters[T]) tfhe.GSWCiphertext[T] {
	ct := tfhe.NewGSWCiphertextCustom(n, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyLev(g, n, gp)
	}
	return ct
}

func dirtyGLev[T TI](g *rand.Rand, k, N int, gp tfhe.GadgetParameters[T]) tfhe.GLevCiphertext[T] {
	ct := tfhe.NewGLevCiphertextCustom(k, N, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyGLWE[T](g, k, N)
	}
	return ct
}

func dirtyGGSW[T TI](g *rand.Rand, k, N int, gp tfhe.GadgetParameters[T]) tfhe.GGSWCiphertext[T] {
	ct := tfhe.NewGGSWCiphertextCustom(k, N, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyGLev(g, k, N, gp)
	}
	return ct
}

func dirtyFFTGLev[T TI](g *rand.Rand, k, N int, gp tfhe.GadgetParameters[T]) tfhe.FFTGLevCiphertext[T] {
	ct := tfhe.NewFFTGLevCiphertextCustom(k, N, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyFFTGLWE[T](g, k, N)
	}
	return ct
}

func dirtyFFTGGSW[T TI](g *rand.Rand, k, N int, gp tfhe.GadgetParameters[T]) tfhe.FFTGGSWCiphertext[T] {
	ct := tfhe.NewFFTGGSWCiphertextCustom(k, N, gp)
	for i := range ct.Value {
		ct.Value[i] = dirtyFFTGLev(g, k, N, gp)
	}
	return ct
}

// loudCfg makes the declared noise large enough to be measured through the transform's rounding.
func loudCfg[T TI](c Cfg[T]) Cfg[T] {
	if logQ[T]() == 32 {
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-18), math.Exp2(-20)
	} else {
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-33), math.Exp2(-36)
	}
	c.Name += "_loud"
	return c
}
