package main

import (
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// evkCheck checks evaluation-key components against the secrets they stand for.
func evkCheck[T TI](r *R, c Cfg[T], sk tfhe.SecretKey[T], ek tfhe.EvaluationKey[T], maxRows int, br, ks *stat) {
	evkCheckBy(r, c, sk, ek, maxRows, br, ks, func(s T, p []T) []T { return scaleV(p, s) })
}

// evkCheckBy does so for blind rotation keys encrypting the operator by(key coefficient).
func evkCheckBy[T TI](r *R, c Cfg[T], sk tfhe.SecretKey[T], ek tfhe.EvaluationKey[T], maxRows int, br, ks *stat, by func(s T, p []T) []T) {
	g := r.Rng
	n, k, N := c.Lit.LWEDimension, c.Lit.GLWERank, c.Lit.PolyRank
	pe := poly.NewEvaluator[T](N)
	gb := gadOf[T](bitLen(c.Lit.BlindRotateParams.Base)-1, c.Lit.BlindRotateParams.Level)
	gk := gadOf[T](bitLen(c.Lit.KeySwitchParams.Base)-1, c.Lit.KeySwitchParams.Level)
	b := ek.BlindRotateKey
	if !r.Check(len(b.Value) == n && b.GadgetParams == gb.gp, "blind rotation key of %d entries, gadget %+v", len(b.Value), b.GadgetParams) {
		return
	}
	ring := sk.GLWEKey.Value
	rows := 0
	idx := g.Perm(n)
	for _, i := range idx {
		e := b.Value[i]
		if !r.Check(len(e.Value) == k+1 && e.GadgetParams == gb.gp, "entry %d has %d rows", i, len(e.Value)) {
			return
		}
		for j := range e.Value {
			if !r.Check(len(e.Value[j].Value) == gb.level && e.Value[j].GadgetParams == gb.gp, "entry %d row %d has %d levels", i, j, len(e.Value[j].Value)) {
				return
			}
			if rows >= maxRows {
				continue
			}
			want := make([]T, N)
			want[0] = 1
			if j > 0 {
				want = ring[j-1].Coeffs
			}
			want = by(sk.LWEKey.Value[i], want)
			for l := range e.Value[j].Value {
				ph := refGLWEPhase(ring, invFFTGLWE(pe, e.Value[j].Value[l]).Value)
				worst := 0.0
				for t := range ph {
					d := signed(ph[t] - want[t]*gb.q(l))
					br.add(d)
					worst = max(worst, math.Abs(d))
				}
				rows++
				if worst > 9.5*glweStd(c.Lit)+fftTol[T](N)*float64(k+1)*8+1 {
					r.Fail("blind rotation key entry %d row %d level %d has error %g (declared deviation %g)", i, j, l, worst, glweStd(c.Lit))
					return
				}
			}
		}
	}
	r.Obs("blind rotation rows", rows)
	s := ek.KeySwitchKey
	if !r.Check(len(s.Value) == k*N-n && s.InputLWEDimension() == k*N-n && s.GadgetParams == gk.gp, "key switching key of %d entries, gadget %+v", len(s.Value), s.GadgetParams) {
		return
	}
	std := c.Lit.LWEStdDev * math.Exp2(float64(logQ[T]()))
	for i := range s.Value {
		if !r.Check(len(s.Value[i].Value) == gk.level && s.Value[i].GadgetParams == gk.gp, "key switching entry %d has %d levels", i, len(s.Value[i].Value)) {
			return
		}
		for l := range s.Value[i].Value {
			ph := refLWEPhase(sk.LWEKey.Value, s.Value[i].Value[l].Value)
			d := signed(ph - sk.LWELargeKey.Value[n+i]*gk.q(l))
			ks.add(d)
			if math.Abs(d) > 9.5*std+1 {
				r.Fail("key switching entry %d level %d has error %g (declared deviation %g)", i, l, d, std)
				return
			}
		}
		r.Obs("key switching rows", len(s.Value[i].Value))
	}
}
