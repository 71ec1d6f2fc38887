package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

type c06St struct {
	lwe, glwe, pk stat
}

func c06Cfg[T TI](r *R, c Cfg[T], keys, reps int, boot, exact bool, st *c06St) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	N, k := c.Lit.PolyRank, c.Lit.GLWERank
	p := int(params.MessageModulus())
	std := glweStd(c.Lit)
	scale := params.Scale()
	if c.Lit.BootstrapOrder == oBR {
		r.Case(c.Name+" refusal", func() {
			e := tfhe.NewEncryptor(params)
			be := tfhe.NewBinaryEncryptor(params)
			var pk tfhe.PublicKey[T]
			r.Check(!params.IsPublicKeyEncryptable(), "%s claims to support public keys", c.Name)
			for name, f := range map[string]func(){
				"NewPublicEncryptor":           func() { tfhe.NewPublicEncryptor(params, tfhe.NewPublicKey(params)) },
				"NewPublicEncryptor, no key":   func() { tfhe.NewPublicEncryptor(params, pk) },
				"NewBinaryPublicEncryptor":     func() { tfhe.NewBinaryPublicEncryptor(params, tfhe.NewPublicKey(params)) },
				"Encryptor.GenPublicKey":       func() { e.GenPublicKey() },
				"BinaryEncryptor.GenPublicKey": func() { be.GenPublicKey() },
				"Encryptor.PublicEncryptor":    func() { be.PublicEncryptor() },
			} {
				ok, _ := Panics(f)
				r.Check(ok, "%s accepted parameters without public-key support", name)
				r.Obs("refusals", 1)
			}
		})
		return
	}
	r.Check(params.IsPublicKeyEncryptable(), "%s claims not to support public keys", c.Name)
	pe := poly.NewEvaluator[T](N)
	tol := fftTol[T](N)
	for kk := 0; kk < keys; kk++ {
		enc := tfhe.NewEncryptor(params)
		sk := enc.SecretKey.GLWEKey.Value
		big := enc.SecretKey.LWELargeKey.Value
		var an pubKeyErr[T]
		r.Case(fmt.Sprintf("%s public key #%d", c.Name, kk), func() {
			e := enc
			if kk%2 == 1 {
				e = enc.SafeCopy()
			}
			an = pubAnalyse(r, c, enc, e.GenPublicKey(), &st.pk)
		})
		pub := tfhe.NewPublicEncryptor(params, an.pk)
		pubC := pub.SafeCopy()
		limL := 12*math.Sqrt(an.lVr) + 2
		limG := 0.0
		for _, v := range an.gVr {
			limG = max(limG, 12*math.Sqrt(v)+2)
		}
		if exact {
			half := float64(scale) / 2
			r.Check(limL+math.Abs(an.lMean) < half || limL > 20*std*math.Sqrt(float64(2*k*N)), "%s: noise does not fit", c.Name)
		}
		lwe := func(form string, ct tfhe.LWECiphertext[T], want T) {
			if !r.Check(len(ct.Value) == k*N+1, "%s: dimension %d", form, len(ct.Value)-1) {
				return
			}
			e := signed(refLWEPhase(big, ct.Value) - want)
			z := (e - an.lMean) / math.Sqrt(an.lVr)
			st.lwe.add(z * 1e3)
			r.Check(math.Abs(e-an.lMean) <= limL, "%s: error %g, predicted deviation %g", form, e, math.Sqrt(an.lVr))
			r.Obs("scalar encryptions", 1)
		}
		glwe := func(form string, ct tfhe.GLWECiphertext[T], want []T, tol float64) {
			if !r.Check(len(ct.Value) == k+1, "%s: rank %d", form, len(ct.Value)-1) {
				return
			}
			ph := refGLWEPhase(sk, ct.Value)
			for i := range ph {
				e := signed(ph[i]-want[i]) - an.gMean[i]
				if tol == 0 {
					st.glwe.add(e / math.Sqrt(an.gVr[i]))
				}
				if !r.Check(math.Abs(e) <= limG+tol, "%s: coefficient %d has error %g, predicted deviation %g", form, i, e, math.Sqrt(an.gVr[i])) {
					break
				}
			}
			r.Obs("ring encryptions", 1)
		}
		var ev *tfhe.Evaluator[T]
		if boot {
			ev = tfhe.NewEvaluator(params, enc.GenEvalKeyParallel())
		}
		for rep := 0; rep < reps; rep++ {
			e := pub
			if g.IntN(2) == 0 {
				e = pubC
			}
			m := []int{0, p - 1, g.IntN(p), p, -1, int(g.Int64()), -g.IntN(1 << 30)}[rep%7]
			want := refReduce(m, uint64(p))
			r.Case(fmt.Sprintf("%s key %d LWE m=%d form %d #%d", c.Name, kk, m, rep%5, rep), func() {
				var ct tfhe.LWECiphertext[T]
				switch rep % 5 {
				case 0:
					ct = e.EncryptLWE(m)
				case 1:
					ct = dirtyLWE[T](g, k*N)
					e.EncryptLWETo(ct, m)
				case 2:
					ct = e.EncryptLWEPlaintext(e.EncodeLWE(m))
				case 3:
					ct = dirtyLWE[T](g, k*N)
					e.EncryptLWEPlaintextTo(ct, e.EncodeLWE(m))
				case 4:
					ct = dirtyLWE[T](g, k*N)
					ct.Value[0] = T(want) * scale
					e.EncryptLWEBody(ct)
				}
				lwe("EncryptLWE", ct, T(want)*scale)
				if exact {
					r.Check(enc.DecryptLWE(ct) == int(want), "scalar encryption of %d decrypts to %d", m, enc.DecryptLWE(ct))
				}
				raw := randT[T](g)
				lwe("EncryptLWEPlaintext", e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{Value: raw}), raw)
			})
			msgs := anyMsgs[T](r, N, p)
			small := expand[T](msgs, N, uint64(p))
			wantG := scaleV(small, scale)
			r.Case(fmt.Sprintf("%s key %d GLWE len=%d form %d #%d", c.Name, kk, len(msgs), rep%5, rep), func() {
				ct := dirtyGLWE[T](g, k, N)
				ft := dirtyFFTGLWE[T](g, k, N)
				pt := tfhe.GLWEPlaintext[T]{Value: polyOf(wantG)}
				switch rep % 5 {
				case 0:
					ct = e.EncryptGLWE(msgs)
					ft = e.EncryptFFTGLWE(msgs)
				case 1:
					e.EncryptGLWETo(ct, msgs)
					e.EncryptFFTGLWETo(ft, msgs)
				case 2:
					ct = e.EncryptGLWEPlaintext(pt)
					ft = e.EncryptFFTGLWEPlaintext(pt)
				case 3:
					e.EncryptGLWEPlaintextTo(ct, pt)
					e.EncryptFFTGLWEPlaintextTo(ft, pt)
				case 4:
					ct.Value[0].CopyFrom(pt.Value)
					e.EncryptGLWEBody(ct)
					e.EncryptFFTGLWETo(ft, msgs)
				}
				r.Check(eqV(pt.Value.Coeffs, wantG), "the plaintext changed")
				glwe("EncryptGLWE", ct, wantG, 0)
				glwe("EncryptFFTGLWE", invFFTGLWE(pe, ft), wantG, tol*float64(k*N))
				if exact {
					r.Check(eqV(enc.DecryptGLWE(ct), toInts(small)), "ring encryption decrypts wrongly")
					r.Check(eqV(enc.DecryptFFTGLWE(ft), toInts(small)), "Fourier encryption decrypts wrongly")
				}
				// extraction of a public ring encryption
				i := g.IntN(N)
				if exact {
					r.Check(enc.DecryptLWE(ct.AsLWECiphertext(i)) == int(small[i]), "coefficient %d extracted from a ring encryption decrypts wrongly", i)
				}
			})
			if !boot || rep >= 12 {
				continue
			}
			r.Case(fmt.Sprintf("%s key %d use #%d", c.Name, kk, rep), func() {
				a, b := g.IntN(p), g.IntN(p)
				ca := e.EncryptLWE(a)
				o := ev.BootstrapFunc(ca, func(x int) int { return 3*x + 1 })
				r.Check(enc.DecryptLWE(o) == (3*a+1)%p, "bootstrap of a public encryption of %d: %d", a, enc.DecryptLWE(o))
				if 2*p < N { // half the room: a sum keeps decrypting
					s := ev.AddLWE(ca, e.EncryptLWE(b))
					r.Check(enc.DecryptLWE(s) == (a+b)%p, "sum of public encryptions %d+%d: %d", a, b, enc.DecryptLWE(s))
					s = ev.AddLWE(ca, enc.EncryptLWE(b))
					r.Check(enc.DecryptLWE(s) == (a+b)%p, "sum of a public and a secret encryption %d+%d: %d", a, b, enc.DecryptLWE(s))
				}
				// ring: selected by an encrypted bit
				bit := g.IntN(2)
				sel := enc.EncryptFFTGGSW([]int{bit}, params.BlindRotateParams())
				m0, m1 := randIntVec(g, N, p), randIntVec(g, N, p)
				if 2*p < N && c.Lit.GLWEStdDev < 1e-7 {
					cm := ev.CMux(sel, e.EncryptGLWE(m0), e.EncryptGLWE(m1))
					w := m0
					if bit == 1 {
						w = m1
					}
					got := enc.DecryptGLWE(cm)
					r.Check(eqV(got, w), "CMux(%d) of public encryptions decrypts wrongly", bit)
				}
				r.Obs("evaluations", 1)
			})
		}
	}
}

func c06Bin[T TI](r *R, c Cfg[T], n int) {
	r.SeedLib(c.Name + "/bin")
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewBinaryEncryptor(params)
	pub := tfhe.NewBinaryPublicEncryptor(params, enc.GenPublicKey())
	pub2 := enc.PublicEncryptor()
	big := enc.Encryptor.SecretKey.LWELargeKey.Value
	for i := 0; i < n; i++ {
		e := []*tfhe.BinaryPublicEncryptor[T]{pub, pub2, pub.SafeCopy()}[i%3]
		r.Case(fmt.Sprintf("%s bool #%d", c.Name, i), func() {
			b := i%2 == 0
			ct := e.EncryptLWEBool(b)
			if g.IntN(2) == 0 {
				ct = dirtyLWE[T](g, len(big))
				e.EncryptLWEBoolTo(ct, b)
			}
			ph := refLWEPhase(big, ct.Value)
			q8 := T(1) << (logQ[T]() - 3)
			if !b {
				q8 = -q8
			}
			r.Max("binary public error / (Q/8)", absF(ph-q8)/math.Exp2(float64(logQ[T]()-3)))
			r.Check(absF(ph-q8) < math.Exp2(float64(logQ[T]()-4)), "public encryption of %v has phase %g/8 Q", b, signed(ph)/math.Exp2(float64(logQ[T]()-3)))
			r.Check(enc.DecryptLWEBool(ct) == b, "public encryption of %v decrypts to %v", b, !b)
			w := g.IntN(20)
			m := g.IntN(1 << w)
			ext := m | g.IntN(8)<<w
			bits := e.EncryptLWEBits(ext, w)
			if g.IntN(2) == 0 {
				bits = make([]tfhe.LWECiphertext[T], w)
				for j := range bits {
					bits[j] = dirtyLWE[T](g, len(big))
				}
				e.EncryptLWEBitsTo(bits, ext)
			}
			r.Check(len(bits) == w && enc.DecryptLWEBits(bits) == m, "public bits of %d (width %d) decrypt to %d", ext, w, enc.DecryptLWEBits(bits))
			r.Obs("binary encryptions", 1+w)
		})
	}
}

// judge compares the accumulated, normalized errors with the prediction.
func (s *c06St) judge(r *R, std float64) {
	s.lwe.declared(r, "public scalar encryption (in thousandths of the predicted deviation)", 1e3)
	if s.glwe.n > 4000 {
		q := s.glwe.rms()
		r.Max("ring rms/predicted", q)
		r.Check(q > 0.75 && q < 1.3, "public ring encryption: deviation %g times the predicted one (%d samples)", q, s.glwe.n)
	}
	if std > 0 {
		s.pk.declared(r, "public key noise", std)
	}
}

func init() {
	about("C06", "Cases: key pair x message (edge and random, reduced modulo p) x entry point x output state, on random and shipped parameter sets with the order that supports public keys; the phase is computed by schoolbook arithmetic and its error compared with the deviation predicted from the generated key's own errors.",
		"tiny parameter sets leave worst-case room, so decryption failures are violations")
	needObs("C06", "scalar encryptions", 200)
	needObs("C06", "ring encryptions", 100)
	needObs("C06", "refusals", 12)
	needObs("C06", "evaluations", 20)
	reg("C06", "small32", vTwo, vAll, func(r *R) { c06Small[uint32](r) })
	reg("C06", "small64", vTwo, vAll, func(r *R) { c06Small[uint64](r) })
	reg("C06", "shipped32", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			var st c06St
			c06Cfg(r, c, 1, r.Pick(40, 300), c.Name == "ParamsBinary" || r.Thorough, c.Lit.MessageModulus > 1, &st)
			if c.Lit.BootstrapOrder == oKS {
				st.judge(r, glweStd(c.Lit))
				c06Bin(r, c, r.Pick(20, 100))
			}
		}
	})
	reg("C06", "shipped64", vAvx, vAll, func(r *R) {
		for i, c := range shipped64() {
			if !r.Thorough && i > 4 {
				continue
			}
			var st c06St
			c06Cfg(r, c, 1, r.Pick(21, 200), r.Thorough, true, &st)
			st.judge(r, glweStd(c.Lit))
		}
	})
}

func c06Small[T TI](r *R) {
	var st c06St
	cfgs := fixedCfgs[T]()
	for i := 0; i < r.Pick(40, 80); i++ {
		cfgs = append(cfgs, randCfg[T](r.Rng))
	}
	for _, c := range cfgs {
		c06Cfg(r, c, 2, r.Pick(10, 40), true, true, &st)
	}
	st.judge(r, glweStd(cfgs[0].Lit))
	c06Bin(r, cfgs[0], r.Pick(30, 200))
}
