package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func c05MsgVec[T TI](r *R, N, p int) []int {
	g := r.Rng
	l := []int{N, N, 0, 1, N / 2, N - 1, N + 5, 2 * N}[g.IntN(8)]
	if N >= 512 && g.IntN(2) == 0 {
		l = N
	}
	v := make([]int, l)
	for i := range v {
		switch g.IntN(4) {
		case 0:
			v[i] = int(g.Int64())
		case 1:
			v[i] = -g.IntN(3 * p)
		default:
			v[i] = g.IntN(p)
		}
	}
	return v
}

type c05St struct{ glwe, glev, ggsw, fglwe, fglev, fggsw stat }

func c05Glwe[T TI](r *R, sk []poly.Poly[T], ct tfhe.GLWECiphertext[T], want []T, s *stat) {
	ph := refGLWEPhase(sk, ct.Value)
	for i := range ph {
		s.add(signed(ph[i] - want[i]))
	}
}

func c05GLev[T TI](r *R, sk []poly.Poly[T], ct tfhe.GLevCiphertext[T], gp tfhe.GadgetParameters[T], pl []T, s *stat) {
	if !r.Check(len(ct.Value) == gp.Level() && ct.GadgetParams == gp, "GLev with %d levels, gadget %+v want %+v", len(ct.Value), ct.GadgetParams, gp) {
		return
	}
	for j := range ct.Value {
		c05Glwe(r, sk, ct.Value[j], scaleV(pl, gp.BaseQ(j)), s)
	}
}

func c05GGSW[T TI](r *R, sk []poly.Poly[T], ct tfhe.GGSWCiphertext[T], gp tfhe.GadgetParameters[T], pl []T, s *stat) {
	if !r.Check(len(ct.Value) == len(sk)+1, "GGSW has %d rows", len(ct.Value)) {
		return
	}
	c05GLev(r, sk, ct.Value[0], gp, pl, s)
	for i := range sk {
		c05GLev(r, sk, ct.Value[i+1], gp, negaMul(pl, sk[i].Coeffs), s)
	}
}

func c05Cfg[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	dec := tfhe.NewEncryptorWithKey(params, enc.SecretKey)
	p, N, k := int(params.MessageModulus()), c.Lit.PolyRank, c.Lit.GLWERank
	sk := enc.SecretKey.GLWEKey.Value
	std := glweStd(c.Lit)
	pe := poly.NewEvaluator[T](N)
	var st c05St
	tol := fftTol[T](N)

	for rep := 0; rep < reps; rep++ {
		msgs := c05MsgVec[T](r, N, p)
		small := expand[T](msgs, N, uint64(p))
		want := scaleV(small, params.Scale())
		wantM := toInts(small)
		r.Case(fmt.Sprintf("%s GLWE len=%d %x", c.Name, len(msgs), g.Uint64()), func() {
			e := enc
			if g.IntN(2) == 0 {
				e = enc.SafeCopy()
			}
			ct := dirtyGLWE[T](g, k, N)
			switch rep % 5 {
			case 0:
				ct = e.EncryptGLWE(msgs)
			case 1:
				e.EncryptGLWETo(ct, msgs)
			case 2:
				ct = e.EncryptGLWEPlaintext(e.EncodeGLWE(msgs))
			case 3:
				pt := tfhe.GLWEPlaintext[T]{Value: dirtyPoly[T](g, N)}
				e.EncodeGLWETo(pt, msgs)
				e.EncryptGLWEPlaintextTo(ct, pt)
				r.Check(eqV(pt.Value.Coeffs, want), "plaintext encodes to %v", pt.Value.Coeffs)
			case 4:
				copy(ct.Value[0].Coeffs, want)
				e.EncryptGLWEBody(ct)
			}
			if !r.Check(len(ct.Value) == k+1, "rank %d want %d", len(ct.Value)-1, k) {
				return
			}
			c05Glwe(r, sk, ct, want, &st.glwe)
			r.Check(eqV(dec.DecryptGLWE(ct), wantM), "DecryptGLWE = %v want %v", dec.DecryptGLWE(ct), wantM)
			// partial and oversized receivers
			for _, l := range []int{0, 1, N / 2, N, N + 3} {
				o := make([]int, l)
				for i := range o {
					o[i] = -7
				}
				dec.DecryptGLWETo(o, ct)
				for i := range o {
					if (i < N && o[i] != wantM[i]) || (i >= N && o[i] != -7) {
						r.Fail("DecryptGLWETo into %d messages: position %d is %d", l, i, o[i])
						break
					}
				}
			}
			ph := refGLWEPhase(sk, ct.Value)
			pt := tfhe.GLWEPlaintext[T]{Value: dirtyPoly[T](g, N)}
			dec.DecryptGLWEPhaseTo(pt, ct)
			r.Check(eqV(dec.DecryptGLWEPhase(ct).Value.Coeffs, ph) && eqV(pt.Value.Coeffs, ph), "library phase differs from schoolbook")
			r.Check(eqV(dec.DecodeGLWE(pt), wantM), "DecodeGLWE differs")

			// Fourier conversion of the ciphertext
			f := dec.FwdFFTGLWECiphertext(ct)
			f2 := dirtyFFTGLWE[T](g, k, N)
			dec.FwdFFTGLWECiphertextTo(f2, ct)
			back := dec.InvFFTGLWECiphertext(f)
			back2 := dirtyGLWE[T](g, k, N)
			dec.InvFFTGLWECiphertextTo(back2, f2)
			r.Check(glweDiff(back, ct) <= tol && glweDiff(back2, ct) <= tol, "GLWE changed by %g and %g on a Fourier round trip", glweDiff(back, ct), glweDiff(back2, ct))
			r.Check(glweDiff(invFFTGLWE(pe, f), ct) <= tol, "Fourier GLWE is not the transform of the coefficients")
			r.Check(eqV(dec.DecryptFFTGLWE(f), wantM), "DecryptFFTGLWE of a converted ciphertext differs")
			r.Max("Fourier round trip error (log2)", math.Log2(1+glweDiff(back, ct)))
			r.Obs("GLWE round trips", 1)
		})
		r.Case(fmt.Sprintf("%s FFTGLWE len=%d %x", c.Name, len(msgs), g.Uint64()), func() {
			ct := dirtyFFTGLWE[T](g, k, N)
			switch rep % 4 {
			case 0:
				ct = enc.EncryptFFTGLWE(msgs)
			case 1:
				enc.EncryptFFTGLWETo(ct, msgs)
			case 2:
				ct = enc.EncryptFFTGLWEPlaintext(enc.EncodeGLWE(msgs))
			case 3:
				enc.EncryptFFTGLWEPlaintextTo(ct, enc.EncodeGLWE(msgs))
			}
			before := ct.Copy()
			c05Glwe(r, sk, invFFTGLWE(pe, ct), want, &st.fglwe)
			r.Check(eqV(dec.DecryptFFTGLWE(ct), wantM), "DecryptFFTGLWE = %v want %v", dec.DecryptFFTGLWE(ct), wantM)
			o := randIntVec(g, N+2, 100)
			dec.DecryptFFTGLWETo(o, ct)
			r.Check(eqV(o[:N], wantM), "DecryptFFTGLWETo differs")
			pt := tfhe.GLWEPlaintext[T]{Value: dirtyPoly[T](g, N)}
			dec.DecryptFFTGLWEPhaseTo(pt, ct)
			ph := refGLWEPhase(sk, invFFTGLWE(pe, ct).Value)
			tolp := tol * float64(k*N+1)
			r.Check(maxDiff(pt.Value.Coeffs, ph) <= tolp && maxDiff(dec.DecryptFFTGLWEPhase(ct).Value.Coeffs, ph) <= tolp, "phase differs from schoolbook by %g", maxDiff(pt.Value.Coeffs, ph))
			for i := range before.Value {
				r.Check(eqV(before.Value[i].Coeffs, ct.Value[i].Coeffs), "decryption changed the ciphertext")
			}
			r.Obs("Fourier GLWE round trips", 1)
		})
	}
	// gadget forms
	for rep := 0; rep < reps; rep++ {
		gp := randGadget[T](g, roomLogB[T](std))
		base := uint64(gp.Base())
		msgs := c05MsgVec[T](r, N, p)
		useMsg := uint64(p) <= base && g.IntN(2) == 0
		if big := N > 256; big && uint64(p) <= base && rep < 6 {
			useMsg = true
		}
		pl := expand[T](msgs, N, uint64(p))
		if !useMsg {
			pl = randVec[T](g, N)
			if g.IntN(2) == 0 { // payloads within the gadget base
				for i := range pl {
					pl[i] %= gp.Base()
				}
			}
		}
		mod := make([]T, N)
		for i := range mod {
			mod[i] = pl[i] & T(base-1)
		}
		wantM := toInts(expand[T](toIntsMod(mod, p), N, uint64(p)))
		po := polyOf(pl)
		big := N > 256
		for kind := 0; kind < 4; kind++ {
			if kind >= 1 && big && rep > 0 && kind != 1+rep%3 {
				continue
			}
			name := []string{"GLev", "GGSW", "FFTGLev", "FFTGGSW"}[kind]
			r.Case(fmt.Sprintf("%s %s base=%d level=%d msg=%v %x", c.Name, name, base, gp.Level(), useMsg, g.Uint64()), func() {
				alt := rep%2 == 0
				enc.EncryptGLWE(randIntVec(g, N, p)) // leaves another message in the encryptor's buffers
				outP := dirtyPoly[T](g, N)
				outM := randIntVec(g, N, 1000)
				var m1 []int
				var p1 poly.Poly[T]
				switch name {
				case "GLev":
					ct := dirtyGLev(g, k, N, gp)
					switch {
					case useMsg && alt:
						ct = enc.EncryptGLev(msgs, gp)
					case useMsg:
						enc.EncryptGLevTo(ct, msgs)
					case alt:
						ct = enc.EncryptGLevPoly(po, gp)
					default:
						enc.EncryptGLevPolyTo(ct, po)
					}
					c05GLev(r, sk, ct, gp, pl, &st.glev)
					m1, p1 = dec.DecryptGLev(ct), dec.DecryptGLevPoly(ct)
					dec.DecryptGLevTo(outM, ct)
					dec.DecryptGLevPolyTo(outP, ct)
					f := dec.FwdFFTGLevCiphertext(ct)
					f2 := dirtyFFTGLev(g, k, N, gp)
					dec.FwdFFTGLevCiphertextTo(f2, ct)
					b := dec.InvFFTGLevCiphertext(f2)
					b2 := dirtyGLev(g, k, N, gp)
					dec.InvFFTGLevCiphertextTo(b2, f)
					r.Check(glevDiff(b, ct) <= tol && glevDiff(b2, ct) <= tol && glevDiff(invFFTGLev(pe, f), ct) <= tol, "GLev changed on a Fourier round trip")
				case "GGSW":
					ct := dirtyGGSW(g, k, N, gp)
					switch {
					case useMsg && alt:
						ct = enc.EncryptGGSW(msgs, gp)
					case useMsg:
						enc.EncryptGGSWTo(ct, msgs)
					case alt:
						ct = enc.EncryptGGSWPoly(po, gp)
					default:
						enc.EncryptGGSWPolyTo(ct, po)
					}
					c05GGSW(r, sk, ct, gp, pl, &st.ggsw)
					m1, p1 = dec.DecryptGGSW(ct), dec.DecryptGGSWPoly(ct)
					dec.DecryptGGSWTo(outM, ct)
					dec.DecryptGGSWPolyTo(outP, ct)
					f := dec.FwdFFTGGSWCiphertext(ct)
					f2 := dirtyFFTGGSW(g, k, N, gp)
					dec.FwdFFTGGSWCiphertextTo(f2, ct)
					b := dec.InvFFTGGSWCiphertext(f2)
					b2 := dirtyGGSW(g, k, N, gp)
					dec.InvFFTGGSWCiphertextTo(b2, f)
					r.Check(ggswDiff(b, ct) <= tol && ggswDiff(b2, ct) <= tol && ggswDiff(invFFTGGSW(pe, f), ct) <= tol, "GGSW changed on a Fourier round trip")
				case "FFTGLev":
					ct := dirtyFFTGLev(g, k, N, gp)
					switch {
					case useMsg && alt:
						ct = enc.EncryptFFTGLev(msgs, gp)
					case useMsg:
						enc.EncryptFFTGLevTo(ct, msgs)
					case alt:
						ct = enc.EncryptFFTGLevPoly(po, gp)
					default:
						enc.EncryptFFTGLevPolyTo(ct, po)
					}
					c05GLev(r, sk, invFFTGLev(pe, ct), gp, pl, &st.fglev)
					m1, p1 = dec.DecryptFFTGLev(ct), dec.DecryptFFTGLevPoly(ct)
					dec.DecryptFFTGLevTo(outM, ct)
					dec.DecryptFFTGLevPolyTo(outP, ct)
				case "FFTGGSW":
					ct := dirtyFFTGGSW(g, k, N, gp)
					switch {
					case useMsg && alt:
						ct = enc.EncryptFFTGGSW(msgs, gp)
					case useMsg:
						enc.EncryptFFTGGSWTo(ct, msgs)
					case alt:
						ct = enc.EncryptFFTGGSWPoly(po, gp)
					default:
						enc.EncryptFFTGGSWPolyTo(ct, po)
					}
					c05GGSW(r, sk, invFFTGGSW(pe, ct), gp, pl, &st.fggsw)
					m1, p1 = dec.DecryptFFTGGSW(ct), dec.DecryptFFTGGSWPoly(ct)
					dec.DecryptFFTGGSWTo(ct, outM)
					dec.DecryptFFTGGSWPolyTo(ct, outP)
				}
				r.Check(eqV(p1.Coeffs, mod) && eqV(outP.Coeffs, mod), "%s polynomial decrypted to %v and %v, want %v", name, p1.Coeffs, outP.Coeffs, mod)
				r.Check(eqV(m1, wantM) && eqV(outM, wantM), "%s decrypted to %v and %v, want %v", name, m1, outM, wantM)
				r.Check(eqV(po.Coeffs, pl), "payload changed")
				r.Obs(name+" round trips", 1)
			})
		}
	}
	// secret key conversion
	r.Case(c.Name+" key conversion", func() {
		f := dec.FwdFFTGLWESecretKey(enc.SecretKey.GLWEKey)
		f2 := tfhe.NewFFTGLWESecretKey(params)
		dec.FwdFFTGLWESecretKeyTo(f2, enc.SecretKey.GLWEKey)
		b := dec.InvFFTGLWESecretKey(f)
		b2 := tfhe.NewGLWESecretKey(params)
		for i := range b2.Value {
			b2.Value[i] = dirtyPoly[T](g, N)
		}
		dec.InvFFTGLWESecretKeyTo(b2, f2)
		for i := range sk {
			r.Check(eqV(b.Value[i].Coeffs, sk[i].Coeffs) && eqV(b2.Value[i].Coeffs, sk[i].Coeffs), "secret key changed on a Fourier round trip")
		}
		r.Obs("key conversions", 1)
	})
	r.Case(c.Name+" noise", func() {
		st.glwe.declared(r, "GLWE", std)
		st.glev.declared(r, "GLev", std)
		st.ggsw.declared(r, "GGSW", std)
		fs := std
		if logQ[T]() == 64 { // rounding of the k products with a binary key
			fs = math.Sqrt(std*std + tol*tol*float64(k)/16)
		}
		// The rounding part is only bounded from above.
		for _, x := range []struct {
			l string
			s *stat
		}{{"FFTGLWE", &st.fglwe}, {"FFTGLev", &st.fglev}, {"FFTGGSW", &st.fggsw}} {
			if x.s.n > 200 {
				t := 8/math.Sqrt(2*float64(x.s.n)) + 0.02
				r.Check(x.s.rms() >= std*(1-t) && x.s.rms() <= math.Sqrt(fs*fs+0.5)*(1+t), "%s: measured deviation %g, declared %g, with rounding at most %g (%d samples)", x.l, x.s.rms(), std, fs, x.s.n)
			}
		}
	})
}

func init() {
	about("C05", "a case is (parameter set, ciphertext kind, entry point, gadget, message vector): structural corners, random and shipped parameter sets, vectors of every length class (empty, short, full, oversized) with negative and huge entries, raw polynomial payloads; every component of each ciphertext is decrypted by schoolbook arithmetic and its error judged against the declaration; Fourier forms are brought back through an independent transformer",
		"the 8-standard-error slack of the deviation estimates", "Fourier rounding of full-size 64-bit coefficients is at most 2^15*sqrt(N)")
	needObs("C05", "GLWE round trips", 300)
	needObs("C05", "GGSW round trips", 50)
	needObs("C05", "FFTGGSW round trips", 50)
	needObs("C05", "noise samples", 20000)
	needObs("C05", "short after full", 500)
	for _, v := range []string{"32", "64"} {
		reg("C05", "fixed"+v, vTwo, vAll, func(r *R) {
			if v == "32" {
				for _, c := range fixedCfgs[uint32]() {
					c05Cfg(r, c, r.Pick(30, 50))
				}
			} else {
				for _, c := range fixedCfgs[uint64]() {
					c05Cfg(r, c, r.Pick(30, 50))
				}
			}
		})
		reg("C05", "rand"+v, vTwo, vAll, func(r *R) {
			for j := 0; j < r.Pick(240, 300); j++ {
				if v == "32" {
					c05Cfg(r, randCfg[uint32](r.Rng), 4)
				} else {
					c05Cfg(r, randCfg[uint64](r.Rng), 4)
				}
			}
		})
		reg("C05", "sequences"+v, vTwo, vAll, func(r *R) {
			if v == "32" {
				for _, c := range fixedCfgs[uint32]() {
					c05Seq(r, c)
				}
			} else {
				for _, c := range fixedCfgs[uint64]() {
					c05Seq(r, c)
				}
			}
		})
		reg("C05", "shipped"+v, vAvx, vAll, func(r *R) {
			if v == "32" {
				for _, c := range shipped32() {
					c05Cfg(r, c, r.Pick(16, 24))
				}
			} else {
				for _, c := range shipped64()[:r.Pick(6, 7)] {
					c05Cfg(r, c, r.Pick(10, 14))
				}
			}
		})
	}
}
