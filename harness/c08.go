package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func c08Gadget[T TI](r *R) gad[T] {
	g := r.Rng
	w := logQ[T]()
	logB := 1 + g.IntN(w/3)
	level := 1 + g.IntN(min(w/logB, 7))
	return gadOf[T](logB, level)
}

// c08LWE: scalar gadget and external products.
func c08LWE[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name + "lwe")
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	key := keyFor(params, enc.SecretKey)
	n := len(key)
	for i := 0; i < reps; i++ {
		gd := c08Gadget[T](r)
		base := float64(T(1) << gd.logB)
		m := T(g.IntN(9)) - 4
		r.Case(fmt.Sprintf("%s lwe gadget %dx%d m=%v #%d", c.Name, gd.logB, gd.level, signed(m), i), func() {
			lev := enc.EncryptLevScalar(m, gd.gp)
			l1, l2 := levErr(key, lev, gd, m)
			x := edgeT[T](g)
			var b budget
			b.lev(gd.half(), base, absF(m), signed(m)*signed(m), l1, l2)
			near := func(form string, o tfhe.LWECiphertext[T], want T, bd float64) {
				e := absF(refLWEPhase(key, o.Value) - want)
				r.Obs("scalar products", 1)
				r.Check(e <= bd, "%s: %g off, bound %g", form, e, bd)
			}
			bd := b.bound(false, 0)
			ref := ev.GadgetProdLWE(lev, x)
			near("GadgetProdLWE", ref, m*x, bd)
			o := dirtyLWE[T](g, n)
			ev.GadgetProdLWETo(o, lev, x)
			near("GadgetProdLWETo", o, m*x, bd)
			o = dirtyLWE[T](g, n)
			was := o.Copy()
			ev.GadgetProdAddLWETo(o, lev, x)
			r.Check(eqV(o.Value, addV(was.Value, ref.Value)), "GadgetProdAddLWETo adds something else than the product")
			near("GadgetProdAddLWETo", o, refLWEPhase(key, was.Value)+m*x, bd)
			o.CopyFrom(was)
			ev.GadgetProdSubLWETo(o, lev, x)
			r.Check(eqV(o.Value, subV(was.Value, ref.Value)), "GadgetProdSubLWETo subtracts something else than the product")

			gsw := enc.EncryptGSWScalar(m, gd.gp)
			ct := dirtyLWE[T](g, n)
			if g.IntN(3) == 0 {
				ct = enc.EncryptLWE(g.IntN(4))
			}
			keep := ct.Copy()
			ph := refLWEPhase(key, ct.Value)
			b = budget{}
			for j := range gsw.Value {
				mm := m
				if j > 0 {
					mm = m * key[j-1]
				}
				l1, l2 := levErr(key, gsw.Value[j], gd, mm)
				b.lev(gd.half(), base, absF(mm), signed(mm)*signed(mm), l1, l2)
			}
			bd = b.bound(true, 0)
			ref = ev.ExternalProdLWE(gsw, ct)
			near("ExternalProdLWE", ref, m*ph, bd)
			r.Check(eqV(ct.Value, keep.Value), "the scalar operand changed")
			o = dirtyLWE[T](g, n)
			ev.ExternalProdLWETo(o, gsw, ct)
			r.Check(eqV(o.Value, ref.Value), "ExternalProdLWETo differs from ExternalProdLWE")
			near("ExternalProdLWETo", o, m*ph, bd)
			o = dirtyLWE[T](g, n)
			was = o.Copy()
			ev.ExternalProdAddLWETo(o, gsw, ct)
			r.Check(eqV(o.Value, addV(was.Value, ref.Value)), "ExternalProdAddLWETo adds something else than the product")
			o.CopyFrom(was)
			ev.ExternalProdSubLWETo(o, gsw, ct)
			r.Check(eqV(o.Value, subV(was.Value, ref.Value)), "ExternalProdSubLWETo subtracts something else than the product")
			// over the operand itself
			o.CopyFrom(keep)
			ev.ExternalProdLWETo(o, gsw, o)
			r.Check(eqV(o.Value, ref.Value), "ExternalProdLWETo over its operand gives another result")
			o.CopyFrom(keep)
			ev.ExternalProdAddLWETo(o, gsw, o)
			r.Check(eqV(o.Value, addV(keep.Value, ref.Value)), "ExternalProdAddLWETo over its operand gives another result")
			o.CopyFrom(keep)
			ev.ExternalProdSubLWETo(o, gsw, o)
			r.Check(eqV(o.Value, subV(keep.Value, ref.Value)), "ExternalProdSubLWETo over its operand gives another result")
		})
	}
}

// c08GLWE: ring gadget and external products, Fourier forms, CMux.
func c08GLWE[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name + "glwe")
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	pe := poly.NewEvaluator[T](c.Lit.PolyRank)
	dc := tfhe.NewDecomposer[T](c.Lit.PolyRank)
	key := enc.SecretKey.GLWEKey.Value
	k, N := c.Lit.GLWERank, c.Lit.PolyRank
	for i := 0; i < reps; i++ {
		gd := c08Gadget[T](r)
		base := float64(T(1) << gd.logB)
		m := smallPoly[T](r, N)
		r.Case(fmt.Sprintf("%s glwe gadget %dx%d #%d", c.Name, gd.logB, gd.level, i), func() {
			lev := enc.EncryptFFTGLevPoly(polyOf(m), gd.gp)
			random := true
			x := dirtyPoly[T](g, N)
			switch g.IntN(4) {
			case 0:
				random = false
				for j := range x.Coeffs {
					x.Coeffs[j] = edgeT[T](g)
				}
			case 1:
				random = false
				x.Clear()
				x.Coeffs[g.IntN(N)] = edgeT[T](g)
			}
			keepX := x.Copy()
			l1, l2 := glevErr(pe, key, lev, gd, m)
			a1, a2 := norms(m)
			var b budget
			b.lev(gd.half(), base, a1, a2, l1, l2)
			fft := fftProdTol[T](N, gd.level, base) * 2
			want := negaMul(x.Coeffs, m)
			near := func(form string, o tfhe.GLWECiphertext[T], want []T, bd float64) {
				e := maxDiff(refGLWEPhase(key, o.Value), want)
				r.Obs("ring products", 1)
				r.Max("product error / bound", e/bd)
				r.Check(e <= bd, "%s: %g off, bound %g", form, e, bd)
			}
			comp := func(form string, o, want tfhe.GLWECiphertext[T], tol float64) {
				d := glweDiff(o, want)
				r.Check(d <= tol, "%s differs from the product by %g", form, d)
			}
			plus := func(a, b tfhe.GLWECiphertext[T], s int) tfhe.GLWECiphertext[T] {
				o := a.Copy()
				for i := range o.Value {
					if s > 0 {
						o.Value[i].Coeffs = addV(a.Value[i].Coeffs, b.Value[i].Coeffs)
					} else {
						o.Value[i].Coeffs = subV(a.Value[i].Coeffs, b.Value[i].Coeffs)
					}
				}
				return o
			}
			fplus := func(a tfhe.FFTGLWECiphertext[T], b tfhe.GLWECiphertext[T], s int) tfhe.GLWECiphertext[T] {
				return plus(invFFTGLWE(pe, a), b, s)
			}
			// The key's components have full size, so the phase sums k*N/2 rounding errors of the Fourier transform.
			keyw := 1.0
			for i := range key {
				a, _ := norms(key[i].Coeffs)
				keyw += a
			}
			bd := b.bound(random, fft*keyw)
			ref := ev.GadgetProdGLWE(lev, x)
			near("GadgetProdGLWE", ref, want, bd)
			o := dirtyGLWE[T](g, k, N)
			was := o.Copy()
			ev.GadgetProdGLWETo(o, lev, x)
			comp("GadgetProdGLWETo", o, ref, fft)
			near("GadgetProdGLWETo", o, want, bd)
			o.CopyFrom(was)
			ev.GadgetProdAddGLWETo(o, lev, x)
			comp("GadgetProdAddGLWETo", o, plus(was, ref, 1), fft)
			o.CopyFrom(was)
			ev.GadgetProdSubGLWETo(o, lev, x)
			comp("GadgetProdSubGLWETo", o, plus(was, ref, -1), fft)
			r.Check(eqV(x.Coeffs, keepX.Coeffs), "the plaintext operand changed")
			// Fourier forms; sums in the Fourier domain keep the magnitude of the products, not reduced
			pd := dc.FourierDecomposePoly(x, gd.gp)
			fo := dirtyFFTGLWE[T](g, k, N)
			fwas := tfhe.NewFFTGLWECiphertextCustom[T](k, N)
			for i := range fwas.Value {
				fwas.Value[i] = pe.FwdFFT(dirtyPoly[T](g, N))
			}
			ev.GadgetProdFFTGLWETo(fo, lev, pd)
			comp("GadgetProdFFTGLWETo", invFFTGLWE(pe, fo), ref, fft)
			fo.CopyFrom(fwas)
			ev.GadgetProdAddFFTGLWETo(fo, lev, pd)
			comp("GadgetProdAddFFTGLWETo", invFFTGLWE(pe, fo), fplus(fwas, ref, 1), fft)
			fo.CopyFrom(fwas)
			ev.GadgetProdSubFFTGLWETo(fo, lev, pd)
			comp("GadgetProdSubFFTGLWETo", invFFTGLWE(pe, fo), fplus(fwas, ref, -1), fft)

			// external products
			gsw := enc.EncryptFFTGGSWPoly(polyOf(m), gd.gp)
			ct := dirtyGLWE[T](g, k, N)
			if g.IntN(2) == 0 {
				ct = enc.EncryptGLWE(randIntVec(g, N, 4))
			}
			keep := ct.Copy()
			b = budget{}
			for j := range gsw.Value {
				mm := m
				if j > 0 {
					mm = negaMul(key[j-1].Coeffs, m)
				}
				l1, l2 := glevErr(pe, key, gsw.Value[j], gd, mm)
				a1, a2 := norms(mm)
				b.lev(gd.half(), base, a1, a2, l1, l2)
			}
			fft = fftProdTol[T](N, gd.level*(k+1), base) * 2
			bd = b.bound(true, fft*keyw)
			want = negaMul(refGLWEPhase(key, ct.Value), m)
			ref = ev.ExternalProdGLWE(gsw, ct)
			near("ExternalProdGLWE", ref, want, bd)
			o = dirtyGLWE[T](g, k, N)
			was = o.Copy()
			ev.ExternalProdGLWETo(o, gsw, ct)
			comp("ExternalProdGLWETo", o, ref, fft)
			o.CopyFrom(was)
			ev.ExternalProdAddGLWETo(o, gsw, ct)
			comp("ExternalProdAddGLWETo", o, plus(was, ref, 1), fft)
			o.CopyFrom(was)
			ev.ExternalProdSubGLWETo(o, gsw, ct)
			comp("ExternalProdSubGLWETo", o, plus(was, ref, -1), fft)
			r.Check(glweDiff(ct, keep) == 0, "the ring operand changed")
			for s, f := range map[int]func(a tfhe.GLWECiphertext[T]){0: func(a tfhe.GLWECiphertext[T]) { ev.ExternalProdGLWETo(a, gsw, a) }, 1: func(a tfhe.GLWECiphertext[T]) { ev.ExternalProdAddGLWETo(a, gsw, a) }, -1: func(a tfhe.GLWECiphertext[T]) { ev.ExternalProdSubGLWETo(a, gsw, a) }} {
				o.CopyFrom(keep)
				f(o)
				w := ref
				if s != 0 {
					w = plus(keep, ref, s)
				}
				comp(fmt.Sprintf("external product over its operand (%+d)", s), o, w, fft)
			}
			dd := make([][]poly.FFTPoly, k+1)
			for j := range dd {
				dd[j] = dc.FourierDecomposePoly(ct.Value[j], gd.gp)
			}
			fo = dirtyFFTGLWE[T](g, k, N)
			ev.ExternalProdFFTGLWETo(fo, gsw, dd)
			comp("ExternalProdFFTGLWETo", invFFTGLWE(pe, fo), ref, fft)
			fo.CopyFrom(fwas)
			ev.ExternalProdAddFFTGLWETo(fo, gsw, dd)
			comp("ExternalProdAddFFTGLWETo", invFFTGLWE(pe, fo), fplus(fwas, ref, 1), fft)
			fo.CopyFrom(fwas)
			ev.ExternalProdSubFFTGLWETo(fo, gsw, dd)
			comp("ExternalProdSubFFTGLWETo", invFFTGLWE(pe, fo), fplus(fwas, ref, -1), fft)

			// CMux with a selector bit, built coefficient-wise or in the Fourier domain
			bit := g.IntN(2)
			sel := enc.EncryptFFTGGSWPoly(polyOf(expand[T]([]int{bit}, N, 2)), gd.gp)
			if g.IntN(2) == 0 {
				sel = tfhe.NewGLWETransformer[T](N).FwdFFTGGSWCiphertext(enc.EncryptGGSWPoly(polyOf(expand[T]([]int{bit}, N, 2)), gd.gp))
			}
			b = budget{}
			for j := range sel.Value {
				mm := expand[T]([]int{bit}, N, 2)
				if j > 0 {
					mm = scaleV(key[j-1].Coeffs, T(bit))
				}
				l1, l2 := glevErr(pe, key, sel.Value[j], gd, mm)
				a1, a2 := norms(mm)
				b.lev(gd.half(), base, a1, a2, l1, l2)
			}
			bd = b.bound(true, fft*keyw)
			c0, c1 := dirtyGLWE[T](g, k, N), enc.EncryptGLWE(randIntVec(g, N, 4))
			if g.IntN(2) == 0 {
				c0, c1 = c1, c0
			}
			k0, k1 := c0.Copy(), c1.Copy()
			want = refGLWEPhase(key, c0.Value)
			if bit == 1 {
				want = refGLWEPhase(key, c1.Value)
			}
			ref = ev.CMux(sel, c0, c1)
			near("CMux", ref, want, bd)
			o = dirtyGLWE[T](g, k, N)
			ev.CMuxTo(o, sel, c0, c1)
			near("CMuxTo", o, want, bd)
			r.Check(glweDiff(c0, k0) == 0 && glweDiff(c1, k1) == 0, "a branch changed")
			ev.CMuxTo(c0, sel, c0, c1)
			near("CMuxTo over branch 0", c0, want, bd)
			ev.CMuxTo(c1, sel, k0, c1)
			near("CMuxTo over branch 1", c1, want, bd)
			r.Obs("selections", 4)
		})
	}
}

func init() {
	about("C08", "a case is a product under a random gadget (base 2^1..2^(w/3), up to 7 levels) of an encrypted small value or polynomial with an edge-heavy plaintext or ciphertext; the phase of the result is compared with the schoolbook product within a bound computed from the measured errors of the very encryption used (worst case for edge operands, twelve deviations for uniform ones) plus Fourier rounding; accumulate, subtract, overlapping, output-argument and Fourier forms are compared component by component with the product; CMux with both selectors, over each branch")
	needObs("C08", "scalar products", 400)
	needObs("C08", "ring products", 1000)
	needObs("C08", "selections", 200)
	reg("C08", "products32", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c08LWE(r, c, r.Pick(80, 1500))
			c08GLWE(r, c, r.Pick(80, 1500))
		}
	})
	reg("C08", "products64", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c08LWE(r, c, r.Pick(80, 1500))
			c08GLWE(r, c, r.Pick(80, 1500))
		}
	})
	reg("C08", "shipped32", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			c08GLWE(r, c, r.Pick(6, 60))
			if r.Thorough {
				c08LWE(r, c, 1)
			}
		}
	})
	reg("C08", "shipped64", vAvx, vAll, func(r *R) {
		for _, c := range shipped64()[:4] {
			c08GLWE(r, c, r.Pick(5, 30))
		}
	})
}
