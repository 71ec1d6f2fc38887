package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// c05Seq makes every entry point that takes a message vector encrypt a short one right after every entry point has
// encrypted a full one through the same object.
func c05Seq[T TI](r *R, c Cfg[T]) {
	r.SeedLib(c.Name + " sequences")
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	p, N, k := int(params.MessageModulus()), c.Lit.PolyRank, c.Lit.GLWERank
	sk := enc.SecretKey.GLWEKey.Value
	pe := poly.NewEvaluator[T](N)
	gp := tfhe.GadgetParametersLiteral[T]{Base: 1 << 8, Level: 2}.Compile()
	if p > 1<<8 {
		return
	}
	var coef, four stat
	st := &coef
	type entry struct {
		name string
		fn   func(m []int, judge bool)
	}
	payload := func(m []int) []T { return expand[T](m, N, uint64(p)) }
	ring := func(judge bool, m []int, ct tfhe.GLWECiphertext[T]) {
		if judge {
			c05Glwe(r, sk, ct, scaleV(payload(m), params.Scale()), st)
			r.Check(eqV(enc.DecryptGLWE(ct), toInts(payload(m))), "decrypts to %v", enc.DecryptGLWE(ct))
		}
	}
	lev := func(judge bool, m []int, ct tfhe.GLevCiphertext[T]) {
		if judge {
			c05GLev(r, sk, ct, gp, payload(m), st)
			r.Check(eqV(enc.DecryptGLev(ct), toInts(payload(m))), "decrypts to %v", enc.DecryptGLev(ct))
		}
	}
	ggsw := func(judge bool, m []int, ct tfhe.GGSWCiphertext[T]) {
		if judge {
			c05GGSW(r, sk, ct, gp, payload(m), st)
			r.Check(eqV(enc.DecryptGGSW(ct), toInts(payload(m))), "decrypts to %v", enc.DecryptGGSW(ct))
		}
	}
	es := []entry{
		{"EncodeGLWE", func(m []int, j bool) { ring(j, m, enc.EncryptGLWEPlaintext(enc.EncodeGLWE(m))) }},
		{"EncryptGLWE", func(m []int, j bool) { ring(j, m, enc.EncryptGLWE(m)) }},
		{"EncryptGLWETo", func(m []int, j bool) { ct := dirtyGLWE[T](g, k, N); enc.EncryptGLWETo(ct, m); ring(j, m, ct) }},
		{"EncryptFFTGLWE", func(m []int, j bool) { ring(j, m, invFFTGLWE(pe, enc.EncryptFFTGLWE(m))) }},
		{"EncryptFFTGLWETo", func(m []int, j bool) {
			ct := dirtyFFTGLWE[T](g, k, N)
			enc.EncryptFFTGLWETo(ct, m)
			ring(j, m, invFFTGLWE(pe, ct))
		}},
		{"EncryptGLev", func(m []int, j bool) { lev(j, m, enc.EncryptGLev(m, gp)) }},
		{"EncryptGLevTo", func(m []int, j bool) { ct := dirtyGLev(g, k, N, gp); enc.EncryptGLevTo(ct, m); lev(j, m, ct) }},
		{"EncryptFFTGLev", func(m []int, j bool) { lev(j, m, invFFTGLev(pe, enc.EncryptFFTGLev(m, gp))) }},
		{"EncryptFFTGLevTo", func(m []int, j bool) {
			ct := dirtyFFTGLev(g, k, N, gp)
			enc.EncryptFFTGLevTo(ct, m)
			lev(j, m, invFFTGLev(pe, ct))
		}},
		{"EncryptGGSW", func(m []int, j bool) { ggsw(j, m, enc.EncryptGGSW(m, gp)) }},
		{"EncryptGGSWTo", func(m []int, j bool) { ct := dirtyGGSW(g, k, N, gp); enc.EncryptGGSWTo(ct, m); ggsw(j, m, ct) }},
		{"EncryptFFTGGSW", func(m []int, j bool) { ggsw(j, m, invFFTGGSW(pe, enc.EncryptFFTGGSW(m, gp))) }},
		{"EncryptFFTGGSWTo", func(m []int, j bool) {
			ct := dirtyFFTGGSW(g, k, N, gp)
			enc.EncryptFFTGGSWTo(ct, m)
			ggsw(j, m, invFFTGGSW(pe, ct))
		}},
	}
	for _, second := range es {
		for _, first := range es {
			r.Case(fmt.Sprintf("%s short %s after full %s", c.Name, second.name, first.name), func() {
				full := make([]int, N)
				for i := range full {
					full[i] = 1 + g.IntN(p-1)
				}
				first.fn(full, false)
				short := make([]int, []int{0, 1, N / 2, N - 1}[g.IntN(4)])
				for i := range short {
					short[i] = g.IntN(p)
				}
				if st = &coef; strings.Contains(second.name, "FFT") {
					st = &four
				}
				second.fn(short, true)
				r.Obs("short after full", 1)
			})
		}
	}
	r.Case(c.Name+" short after full, noise", func() {
		std := glweStd(c.Lit)
		coef.declared(r, "short vectors", std)
		r.Check(four.rms() >= std/2 && four.rms() <= 2*math.Hypot(std, fftTol[T](N)*math.Sqrt(float64(k))), "Fourier forms of short vectors: measured deviation %g, declared %g", four.rms(), std)
	})
}
