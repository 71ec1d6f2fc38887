package main

import (
	"math"
	"math/big"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// refEncode reduces m into [0,p) exactly.
func refReduce(m int, p uint64) uint64 {
	b := new(big.Int).Mod(big.NewInt(int64(m)), new(big.Int).SetUint64(p))
	return b.Uint64()
}

// fftTol bounds the rounding error that one trip of full-size coefficients through the Fourier domain may add.
func fftTol[T TI](N int) float64 {
	if logQ[T]() == 32 {
		return 2
	}
	return math.Exp2(15) * math.Sqrt(float64(N)) // coefficients of 2^63 with 53-bit mantissas
}

// expand reduces and pads messages to a coefficient vector.
func expand[T TI](msgs []int, N int, p uint64) []T {
	o := make([]T, N)
	for i := 0; i < N && i < len(msgs); i++ {
		o[i] = T(refReduce(msgs[i], p))
	}
	return o
}

func toInts[T TI](v []T) []int {
	o := make([]int, len(v))
	for i := range v {
		o[i] = int(v[i])
	}
	return o
}

func toIntsMod[T TI](v []T, p int) []int {
	o := make([]int, len(v))
	for i := range v {
		o[i] = int(uint64(v[i]) % uint64(p))
	}
	return o
}

// invFFTGLWE returns the coefficients of a Fourier ciphertext through an independent polynomial evaluator.
func invFFTGLWE[T TI](pe *poly.Evaluator[T], ct tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	o := tfhe.GLWECiphertext[T]{Value: make([]poly.Poly[T], len(ct.Value))}
	for i := range ct.Value {
		o.Value[i] = pe.InvFFT(ct.Value[i])
	}
	return o
}

func invFFTGLev[T TI](pe *poly.Evaluator[T], ct tfhe.FFTGLevCiphertext[T]) tfhe.GLevCiphertext[T] {
	o := tfhe.GLevCiphertext[T]{GadgetParams: ct.GadgetParams, Value: make([]tfhe.GLWECiphertext[T], len(ct.Value))}
	for i := range ct.Value {
		o.Value[i] = invFFTGLWE(pe, ct.Value[i])
	}
	return o
}

func invFFTGGSW[T TI](pe *poly.Evaluator[T], ct tfhe.FFTGGSWCiphertext[T]) tfhe.GGSWCiphertext[T] {
	o := tfhe.GGSWCiphertext[T]{GadgetParams: ct.GadgetParams, Value: make([]tfhe.GLevCiphertext[T], len(ct.Value))}
	for i := range ct.Value {
		o.Value[i] = invFFTGLev(pe, ct.Value[i])
	}
	return o
}

func glweDiff[T TI](a, b tfhe.GLWECiphertext[T]) float64 {
	if len(a.Value) != len(b.Value) {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a.Value {
		m = max(m, maxDiff(a.Value[i].Coeffs, b.Value[i].Coeffs))
	}
	return m
}

func glevDiff[T TI](a, b tfhe.GLevCiphertext[T]) float64 {
	if len(a.Value) != len(b.Value) || a.GadgetParams != b.GadgetParams {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a.Value {
		m = max(m, glweDiff(a.Value[i], b.Value[i]))
	}
	return m
}

func ggswDiff[T TI](a, b tfhe.GGSWCiphertext[T]) float64 {
	if len(a.Value) != len(b.Value) || a.GadgetParams != b.GadgetParams {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a.Value {
		m = max(m, glevDiff(a.Value[i], b.Value[i]))
	}
	return m
}
