package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func x01Cfg[T TI](r *R, c Cfg[T], gd *gad[T], reps int, exact bool) {
	r.SeedLib(c.Name)
	g := r.Rng
	w := newBfvWorld(r, c)
	if gd != nil {
		w.gd = *gd
	}
	k, N, p := c.Lit.GLWERank, c.Lit.PolyRank, int(c.Lit.MessageModulus)
	scale := divRoundQ(T(p))
	base := float64(T(1) << w.gd.logB)
	trank := k * (k + 3) / 2
	std := glweStd(c.Lit)
	var rlk tfhe.GLWEKeySwitchKey[T]
	var b budget
	ok := false
	way := g.IntN(3)
	r.Case(fmt.Sprintf("%s relinearization key gadget %dx%d way %d", c.Name, w.gd.logB, w.gd.level, way), func() {
		switch way {
		case 0:
			rlk = w.kg.GenRelinKey(w.gd.gp)
		case 1:
			rlk = w.kg.GenEvalKey(nil, w.gd.gp).RelinKey
		case 2:
			rlk = w.kg.GenEvalKey([]int{3}, w.gd.gp).RelinKey.Copy()
		}
		b, ok = kskBudget(r, "relinearization key", w.pe, w.key, w.ext[k:], rlk, w.gd, std)
	})
	if !ok {
		return
	}
	_, kw := keyWeight(w.key)
	_, ew := keyWeight(w.ext)
	fft := fftProdTol[T](N, w.gd.level*(trank-k), base) * 2
	relBound := b.bound(true, 4*fft*kw)
	ev := xtfhe.NewBFVEvaluator(w.params, xtfhe.BFVEvaluationKey[T]{RelinKey: rlk})
	if g.IntN(2) == 0 {
		ev = ev.SafeCopy()
	}
	kstd := math.Sqrt((1 + float64(k*N)/2) / 12)
	for rep := 0; rep < reps; rep++ {
		kind := rep % 4
		r.Case(fmt.Sprintf("%s gadget %dx%d product %d kind %d", c.Name, w.gd.logB, w.gd.level, rep, kind), func() {
			var m [2][]int
			var ct [2]tfhe.GLWECiphertext[T]
			valid := true
			for i := range ct {
				m[i] = make([]int, N)
				switch kind {
				case 0:
					for j := range m[i] {
						m[i][j] = g.IntN(p)
					}
				case 1:
					m[i][g.IntN(N)] = g.IntN(p)
					m[i][N-1] = g.IntN(p)
				case 2:
					for j := range m[i] {
						m[i][j] = p - 1
					}
				}
				ct[i] = w.enc.EncryptGLWE(m[i])
				if kind == 3 {
					valid = false
					ct[i] = dirtyGLWE[T](g, k, N)
				}
			}
			if g.IntN(5) == 0 {
				ct[1], m[1] = ct[0], m[0] // a square
			}
			keep := [2]tfhe.GLWECiphertext[T]{ct[0].Copy(), ct[1].Copy()}
			tol := tensorTol(ct[0], ct[1], scale)
			// the tensor product
			t := ev.Tensor(ct[0], ct[1])
			if !r.Check(len(t.Value) == trank+1, "tensor of %d components, want %d", len(t.Value), trank+1) {
				return
			}
			if exact {
				want := refTensor(ct[0], ct[1], scale)
				d := 0.0
				for i := range want {
					d = max(d, maxDiff(want[i].Coeffs, t.Value[i].Coeffs))
				}
				r.Max("tensor error / tolerance", d/tol)
				r.Check(d <= tol, "tensor component is %g off, tolerance %g", d, tol)
			}
			t2 := dirtyGLWE[T](g, trank, N)
			ev.TensorTo(t2, ct[0], ct[1])
			r.Check(glweDiff(t, t2) <= 2*tol, "TensorTo differs from Tensor by %g", glweDiff(t, t2))
			phT := refGLWEPhase(w.ext, t.Value)
			// the plaintext product, in the ring modulo 2p (one padding bit)
			prod := make([]T, N)
			if valid {
				prod = negaMul(toT[T](m[0]), toT[T](m[1]))
			}
			noise := 12*math.Sqrt(float64(N))*std*float64(p)*(1+2*math.Sqrt2*kstd)*4 + 12*std + tol*ew
			check := func(what string, ph []T, bound float64) {
				if !valid {
					return
				}
				d := maxDiff(ph, scaleV(prod, scale))
				if bound >= float64(scale)/2 {
					r.Obs("products without room", 1)
					return
				}
				r.Max(what+" error / bound", d/bound)
				r.Check(d <= bound, "%s is %g off the encoded product, bound %g, step %g", what, d, bound, float64(scale))
				r.Obs("decoded products", 1)
			}
			check("tensor", phT, noise)
			// relinearization of this tensor and of an arbitrary one
			for i, x := range []tfhe.GLWECiphertext[T]{t, dirtyGLWE[T](g, trank, N)} {
				before := x.Copy()
				o := ev.Relinearize(x)
				want := refGLWEPhase(w.ext, x.Value)
				ph := refGLWEPhase(w.key, o.Value)
				d := maxDiff(ph, want)
				r.Max("relinearization error / bound", d/relBound)
				r.Check(d <= relBound, "relinearized phase is %g off, bound %g", d, relBound)
				o2 := dirtyGLWE[T](g, k, N)
				ev.RelinearizeTo(o2, x)
				r.Check(glweDiff(o, o2) <= 2*fft, "RelinearizeTo differs from Relinearize by %g", glweDiff(o, o2))
				r.Check(glweDiff(before, x) == 0, "relinearization changed its input")
				if i == 0 {
					check("relinearized tensor", ph, noise+relBound)
				}
				r.Obs("relinearizations", 1)
			}
			// the whole product, in every form and repeatedly
			var outs []tfhe.GLWECiphertext[T]
			outs = append(outs, ev.Mul(ct[0], ct[1]))
			o := dirtyGLWE[T](g, k, N)
			ev.MulTo(o, ct[0], ct[1])
			outs = append(outs, o)
			outs = append(outs, ev.Mul(ct[1], ct[0]))
			a := ct[0].Copy()
			ev.MulTo(a, a, ct[1])
			outs = append(outs, a)
			a = ct[1].Copy()
			ev.MulTo(a, ct[0], a)
			outs = append(outs, a, ev.Mul(ct[0], ct[1]))
			for i, o := range outs {
				ph := refGLWEPhase(w.key, o.Value)
				d := maxDiff(ph, phT)
				r.Check(d <= relBound+4*tol*ew, "product %d differs from the tensor by %g, bound %g", i, d, relBound+4*tol*ew)
				check("product", ph, noise+relBound)
				if valid && noise+relBound < float64(scale)/2 {
					dm := w.enc.DecryptGLWE(o)
					for j := range dm {
						if dm[j] != int(uint64(prod[j])%uint64(p)) {
							if p&(p-1) != 0 { // the ring product wraps modulo 2p
								break
							}
							r.Fail("coefficient %d of product %d decrypts to %d, want %d", j, i, dm[j], int(uint64(prod[j])%uint64(p)))
							break
						}
					}
				}
			}
			r.Check(glweDiff(keep[0], ct[0]) == 0 && glweDiff(keep[1], ct[1]) == 0, "an input changed")
			r.Obs("products", 1)
		})
	}
	// chains: products of products while the budget lasts
	r.Case(c.Name+" chain", func() {
		acc := make([]T, N)
		acc[0] = 1
		ct := w.enc.EncryptGLWE([]int{1})
		for i := 0; i < 4; i++ {
			m := make([]int, N)
			m[g.IntN(N)] = 1 // monomials keep the message in range
			mm := toT[T](m)
			acc = negaMul(acc, mm)
			before := refGLWEPhase(w.key, ct.Value)
			err := maxDiff(before, scaleV(prevOf(acc, mm), scale))
			ev.MulTo(ct, ct, w.enc.EncryptGLWE(m))
			tol := tensorTol(ct, ct, scale) * ew * 2
			bound := 12*math.Sqrt(float64(N))*std*float64(p)*(1+2*math.Sqrt2*kstd)*2 + tol + relBound +
				16*err*math.Sqrt(float64(N))*2*float64(p)*(1+8*kstd) // the error is not white
			if bound > float64(scale)/2 {
				break
			}
			d := maxDiff(refGLWEPhase(w.key, ct.Value), scaleV(acc, scale))
			r.Check(d <= bound, "link %d of a chain of products is %g off, bound %g", i, d, bound)
			r.Obs("chain links", 1)
		}
	})
}

// prevOf undoes the multiplication by a monomial.
func prevOf[T TI](acc, m []T) []T {
	for i, x := range m {
		if x == 1 {
			return monoMul(acc, -i)
		}
	}
	return acc
}

func x01Run[T TI](r *R) {
	for _, c := range bfvCfgs[T](r, r.Pick(40, 60)) {
		for i := 0; i < r.Pick(3, 6); i++ {
			x01Cfg(r, c, nil, r.Pick(12, 40), true)
		}
	}
}

func init() {
	about("X01", "Cases: pairs of encrypted polynomials (uniform, sparse, extreme messages, squares) and of arbitrary ciphertexts, over ranks 1-4 and random gadgets; tensor components are compared with an exact integer computation, phases under the quadratic key with the encoded product, relinearized phases (of tensors and of arbitrary ciphertexts of tensor shape) with those before, within bounds computed from the opened key; chains of products.",
		"messages whose noise estimate exceeds half an encoding step are not decoded",
		"rounding tolerances of the transforms are proportional to the norms of the operands")
	needObs("X01", "products", 150)
	needObs("X01", "decoded products", 300)
	needObs("X01", "relinearizations", 300)
	reg("X01", "small32", vTwo, vAll, func(r *R) { x01Run[uint32](r) })
	reg("X01", "small64", vTwo, vAll, func(r *R) { x01Run[uint64](r) })
	reg("X01", "shipped", vAvx, vAll, func(r *R) {
		l := xtfhe.ParamsBFVKeySwitchLogN11
		gd := gadOf[uint64](bitLen(l.Base)-1, l.Level)
		for i := 0; i < r.Pick(3, 10); i++ {
			x01Cfg(r, Cfg[uint64]{"ParamsUint3", tfhe.ParamsUint3}, &gd, r.Pick(2, 8), false)
		}
	})
}
