package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// mkEnc are the encryption entry points shared by the secret and public encryptors.
type mkEnc[T TI] interface {
	EncryptLWE(int) mktfhe.LWECiphertext[T]
	EncryptLWETo(mktfhe.LWECiphertext[T], int)
	EncryptLWEPlaintext(tfhe.LWEPlaintext[T]) mktfhe.LWECiphertext[T]
	EncryptLWEPlaintextTo(mktfhe.LWECiphertext[T], tfhe.LWEPlaintext[T])
	EncryptLWEBody(mktfhe.LWECiphertext[T])
	EncryptGLWE([]int) mktfhe.GLWECiphertext[T]
	EncryptGLWETo(mktfhe.GLWECiphertext[T], []int)
	EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]) mktfhe.GLWECiphertext[T]
	EncryptGLWEPlaintextTo(mktfhe.GLWECiphertext[T], tfhe.GLWEPlaintext[T])
	EncryptGLWEBody(mktfhe.GLWECiphertext[T])
	EncryptFFTGLWE([]int) mktfhe.FFTGLWECiphertext[T]
	EncryptFFTGLWETo(mktfhe.FFTGLWECiphertext[T], []int)
	EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]) mktfhe.FFTGLWECiphertext[T]
	EncryptFFTGLWEPlaintextTo(mktfhe.FFTGLWECiphertext[T], tfhe.GLWEPlaintext[T])
	EncodeLWE(int) tfhe.LWEPlaintext[T]
}

type m01St struct{ lwe, glwe, pub, pk stat }

// mkDec builds a decryptor knowing exactly the given parties, by one of several histories.
func mkDec[T TI](g *rand.Rand, params mktfhe.Parameters[T], sks map[int]tfhe.SecretKey[T], set map[int]bool) (*mktfhe.Decryptor[T], string) {
	sub := map[int]tfhe.SecretKey[T]{}
	for i := range set {
		sub[i] = sks[i]
	}
	kind := g.IntN(4)
	if kind == 0 {
		return mktfhe.NewDecryptor(params, sub), "at construction"
	}
	if kind == 1 {
		d := mktfhe.NewDecryptor(params, sub)
		c := d.SafeCopy()
		if params.PartyCount() > 1 { // the copy does not follow its origin
			for i := 0; i < params.PartyCount(); i++ {
				if !set[i] {
					d.AddSecretKey(i, sks[i])
				}
			}
		}
		return c, "copy"
	}
	init := map[int]tfhe.SecretKey[T]{}
	for i := range sub {
		if g.IntN(2) == 0 {
			init[i] = sub[i]
		}
	}
	d := mktfhe.NewDecryptor(params, init)
	for i := 0; i < params.PartyCount(); i++ {
		if _, ok := init[i]; set[i] && !ok {
			if kind == 3 { // another key first, then overwritten
				d.AddSecretKey(i, tfhe.NewEncryptor(params.SubParams()).SecretKey)
			}
			d.AddSecretKey(i, sub[i])
		}
	}
	if g.IntN(3) == 0 {
		d = d.SafeCopy()
	}
	return d, fmt.Sprintf("added later (%d)", kind)
}

func m01Dirty[T TI](g *rand.Rand, params mktfhe.Parameters[T]) (mktfhe.LWECiphertext[T], mktfhe.GLWECiphertext[T], mktfhe.FFTGLWECiphertext[T]) {
	P, N := params.PartyCount(), params.PolyRank()
	return mktfhe.LWECiphertext[T]{Value: randVec[T](g, params.DefaultLWEDimension()+1)},
		mktfhe.GLWECiphertext[T]{Value: dirtyGLWE[T](g, P, N).Value},
		mktfhe.FFTGLWECiphertext[T]{Value: dirtyFFTGLWE[T](g, P, N).Value}
}

func m01Cfg[T TI](r *R, c MCfg[T], reps int, st *m01St) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	sp := params.SubParams()
	P, N := c.Lit.PartyCount, c.Lit.SubParams.PolyRank
	n := lweDim(c.Lit.SubParams)
	p := int(sp.MessageModulus())
	scale := sp.Scale()
	lstd, gstd := lweStd(c.Lit.SubParams), glweStd(c.Lit.SubParams)
	pe := poly.NewEvaluator[T](N)
	tol := fftTol[T](N) * float64(N)
	seed := randVec[uint32](g, 3)
	crs := []byte(fmt.Sprint(seed))
	sks := map[int]tfhe.SecretKey[T]{}
	encs := make([]*mktfhe.Encryptor[T], P)
	for i := range encs {
		if i%2 == 0 {
			encs[i] = mktfhe.NewEncryptor(params, i, crs)
			sks[i] = encs[i].SecretKey
		} else {
			sks[i] = tfhe.NewEncryptor(sp).SecretKey
			encs[i] = mktfhe.NewEncryptorWithKey(params, i, crs, sks[i])
		}
	}
	kl, kg := mkLWEKey(c, sks), mkGLWEKey(c, sks)
	for i, j := range []int{P, P + 3} {
		r.Case(fmt.Sprintf("%s refusal %d", c.Name, i), func() {
			ok, _ := Panics(func() { mktfhe.NewEncryptor(params, j, crs) })
			r.Check(ok, "party index %d of %d accepted", j, P)
			ok, _ = Panics(func() { mktfhe.NewEncryptorWithKey(params, j, crs, sks[0]) })
			r.Check(ok, "party index %d of %d accepted", j, P)
			r.Obs("refusals", 2)
		})
	}
	type actor struct {
		name                   string
		e                      mkEnc[T]
		limL, limG, lMean, lSd float64
		gMean                  []float64
		secret                 bool
	}
	parties := P
	if P > 5 {
		parties = 3
	}
	for pi := 0; pi < parties; pi++ {
		idx := pi
		if P > 5 {
			idx = []int{0, P - 1, 1 + g.IntN(P-2)}[pi]
		}
		enc := encs[idx]
		acts := []actor{
			{"secret", enc, 12*lstd + 2, 12*gstd + 2, 0, lstd, make([]float64, N), true},
			{"secret copy", enc.SafeCopy(), 12*lstd + 2, 12*gstd + 2, 0, lstd, make([]float64, N), true},
		}
		if c.Lit.SubParams.BootstrapOrder == oKS {
			r.Case(fmt.Sprintf("%s party %d public key", c.Name, idx), func() {
				pk := enc.GenPublicKey()
				sub := Cfg[T]{c.Name, c.Lit.SubParams}
				an := pubAnalyse(r, sub, tfhe.NewEncryptorWithKey(sp, sks[idx]), pk, &st.pk)
				limG, gm := 0.0, 0.0
				for i, v := range an.gVr {
					limG = max(limG, 12*math.Sqrt(v)+2)
					gm = max(gm, math.Abs(an.gMean[i]))
				}
				pub := mktfhe.NewPublicEncryptor(params, idx, pk)
				acts = append(acts, actor{"public", pub, 12*math.Sqrt(an.lVr) + 2, limG, an.lMean, math.Sqrt(an.lVr), an.gMean, false},
					actor{"public copy", pub.SafeCopy(), 12*math.Sqrt(an.lVr) + 2, limG, an.lMean, math.Sqrt(an.lVr), an.gMean, false})
				ok, _ := Panics(func() { mktfhe.NewPublicEncryptor(params, P, pk) })
				r.Check(ok, "public encryptor with party index %d of %d accepted", P, P)
			})
		} else {
			r.Case(fmt.Sprintf("%s party %d public refusal", c.Name, idx), func() {
				ok, _ := Panics(func() { enc.GenPublicKey() })
				r.Check(ok, "public key generated for parameters that do not support it")
				ok, _ = Panics(func() { mktfhe.NewPublicEncryptor(params, idx, tfhe.NewPublicKey(sp)) })
				r.Check(ok, "public encryptor built for parameters that do not support it")
				r.Obs("refusals", 2)
			})
		}
		if enc.Index != idx {
			r.Fail("%s: encryptor of party %d reports index %d", c.Name, idx, enc.Index)
		}
		if p == 0 || scale == 0 {
			continue
		}
		for rep := 0; rep < reps; rep++ {
			a := acts[rep%len(acts)]
			e := a.e
			form := (rep/len(acts) + rep) % 5
			m := []int{0, p - 1, g.IntN(p), p, -1, int(g.Int64()), -g.IntN(1 << 30)}[g.IntN(7)]
			want := refReduce(m, uint64(p))
			set := subset(g, P, idx)
			key := fmt.Sprintf("%s party %d %s form %d set %v #%d", c.Name, idx, a.name, form, set, rep)
			sub := map[int]tfhe.SecretKey[T]{}
			for i := range set {
				sub[i] = sks[i]
			}
			var d *mktfhe.Decryptor[T]
			r.Case(key+" LWE", func() {
				var how string
				d, how = mkDec(g, params, sks, set)
				for i := 0; i < P; i++ {
					r.Check(d.PartyBitMap[i] == set[i], "decryptor (%s) knows party %d: %v, want %v", how, i, d.PartyBitMap[i], set[i])
				}
				ct, _, _ := m01Dirty(g, params)
				raw := T(want) * scale
				switch form {
				case 0:
					ct = e.EncryptLWE(m)
				case 1:
					e.EncryptLWETo(ct, m)
				case 2:
					raw = randT[T](g)
					ct = e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{Value: raw})
				case 3:
					raw = edgeT[T](g)
					e.EncryptLWEPlaintextTo(ct, tfhe.LWEPlaintext[T]{Value: raw})
				case 4:
					ct.Value[0] = raw
					e.EncryptLWEBody(ct)
				}
				if !r.Check(len(ct.Value) == P*n+1, "dimension %d, want %d", len(ct.Value)-1, P*n) {
					return
				}
				for i, x := range ct.Value[1:] {
					if i/n != idx && x != 0 {
						r.Fail("a component of party %d is set in an encryption by party %d", i/n, idx)
						break
					}
				}
				er := signed(refLWEPhase(kl, ct.Value)-raw) - a.lMean
				r.Check(math.Abs(er) <= a.limL, "phase error %g, deviation %g", er, a.lSd)
				if a.secret {
					st.lwe.add(er / lstd * 1e3)
				} else {
					st.pub.add(er / a.lSd * 1e3)
				}
				pt := d.DecryptLWEPlaintext(ct)
				r.Check(pt.Value == refLWEPhase(mkLWEKey(c, sub), ct.Value), "joint phase wrong (decryptor keys %s)", how)
				if form != 2 && form != 3 {
					r.Check(d.DecryptLWE(ct) == int(want), "encryption of %d decrypts to %d (decryptor keys %s)", want, d.DecryptLWE(ct), how)
				}
				r.Obs("scalar encryptions", 1)
			})
			if d == nil {
				continue
			}
			msgs := anyMsgs[T](r, N, p)
			small := expand[T](msgs, N, uint64(p))
			r.Case(key+fmt.Sprintf(" GLWE len %d", len(msgs)), func() {
				_, ct, ft := m01Dirty(g, params)
				wantG := scaleV(small, scale)
				pt := tfhe.GLWEPlaintext[T]{Value: polyOf(wantG)}
				raw := form == 2 || form == 3
				if raw {
					pt.Value = polyOf(randVec[T](g, N))
					wantG = append([]T(nil), pt.Value.Coeffs...)
				}
				switch form {
				case 0:
					ct, ft = e.EncryptGLWE(msgs), e.EncryptFFTGLWE(msgs)
				case 1:
					e.EncryptGLWETo(ct, msgs)
					e.EncryptFFTGLWETo(ft, msgs)
				case 2:
					ct, ft = e.EncryptGLWEPlaintext(pt), e.EncryptFFTGLWEPlaintext(pt)
				case 3:
					e.EncryptGLWEPlaintextTo(ct, pt)
					e.EncryptFFTGLWEPlaintextTo(ft, pt)
				case 4:
					ct.Value[0].CopyFrom(pt.Value)
					e.EncryptGLWEBody(ct)
					e.EncryptFFTGLWETo(ft, msgs)
				}
				r.Check(eqV(pt.Value.Coeffs, wantG), "the plaintext changed")
				if !r.Check(len(ct.Value) == P+1 && len(ft.Value) == P+1, "%d and %d components", len(ct.Value), len(ft.Value)) {
					return
				}
				inv := invFFTGLWE(pe, tfhe.FFTGLWECiphertext[T]{Value: ft.Value})
				for fi, v := range [][]poly.Poly[T]{ct.Value, inv.Value} {
					t := 0.0
					if fi == 1 {
						t = tol
					}
					ph := refGLWEPhase(kg, v)
					for i := range ph {
						er := signed(ph[i]-wantG[i]) - a.gMean[i]
						if fi == 0 && a.secret {
							st.glwe.add(er)
						}
						if !r.Check(math.Abs(er) <= a.limG+t, "form %d: coefficient %d has error %g", fi, i, er) {
							break
						}
					}
					for i := 0; i < P; i++ {
						if i != idx && !eqV(v[1+i].Coeffs, make([]T, N)) {
							r.Fail("form %d: the component of party %d is set in an encryption by party %d", fi, i, idx)
						}
					}
				}
				kgs := mkGLWEKey(c, sub)
				var po, pf tfhe.GLWEPlaintext[T]
				var mo, mf []int
				if rep%2 == 0 {
					po, pf = d.DecryptGLWEPhase(ct), d.DecryptFFTGLWEPhase(ft)
					mo, mf = d.DecryptGLWE(ct), d.DecryptFFTGLWE(ft)
				} else {
					po.Value, pf.Value = dirtyPoly[T](g, N), dirtyPoly[T](g, N)
					d.DecryptGLWEPhaseTo(po, ct)
					d.DecryptFFTGLWEPhaseTo(pf, ft)
					mo, mf = randIntVec(g, N, 1000), randIntVec(g, N, 1000)
					d.DecryptGLWETo(mo, ct)
					d.DecryptFFTGLWETo(mf, ft)
				}
				r.Check(eqV(po.Value.Coeffs, refGLWEPhase(kgs, ct.Value)), "joint ring phase wrong")
				r.Check(maxDiff(pf.Value.Coeffs, refGLWEPhase(kgs, inv.Value)) <= tol, "joint Fourier phase off by %g", maxDiff(pf.Value.Coeffs, refGLWEPhase(kgs, inv.Value)))
				if !raw {
					r.Check(eqV(mo, toInts(small)), "ring encryption decrypts wrongly")
					r.Check(eqV(mf, toInts(small)), "Fourier encryption decrypts wrongly")
				}
				r.Obs("ring encryptions", 2)
			})
			// the joint phase is linear in all components, whoever is known
			r.Case(key+" arbitrary", func() {
				ct, cg, cf := m01Dirty(g, params)
				r.Check(d.DecryptLWEPlaintext(ct).Value == refLWEPhase(mkLWEKey(c, sub), ct.Value), "joint phase of an arbitrary ciphertext, parties %v", set)
				w := refGLWEPhase(mkGLWEKey(c, sub), cg.Value)
				r.Check(eqV(d.DecryptGLWEPhase(cg).Value.Coeffs, w), "joint ring phase of an arbitrary ciphertext, parties %v", set)
				inv := invFFTGLWE(pe, tfhe.FFTGLWECiphertext[T]{Value: cf.Value})
				w = refGLWEPhase(mkGLWEKey(c, sub), inv.Value)
				got := d.DecryptFFTGLWEPhase(cf).Value.Coeffs
				r.Check(maxDiff(got, w) <= tol*float64(P), "joint Fourier phase of an arbitrary ciphertext off by %g", maxDiff(got, w))
				r.Obs("joint phases", 3)
			})
		}
	}
}

// m01Bin checks the binary encoding on top.
func m01Bin[T TI](r *R, c MCfg[T], n int) {
	r.SeedLib(c.Name + "/bin")
	g := r.Rng
	params := c.Lit.Compile()
	P := c.Lit.PartyCount
	crs := []byte("binary")
	sks := map[int]tfhe.SecretKey[T]{}
	for i := 0; i < P; i++ {
		sks[i] = tfhe.NewEncryptor(params.SubParams()).SecretKey
	}
	dec := mktfhe.NewBinaryDecryptor(params, sks)
	kl := mkLWEKey(c, sks)
	type be interface {
		EncryptLWEBool(bool) mktfhe.LWECiphertext[T]
		EncryptLWEBoolTo(mktfhe.LWECiphertext[T], bool)
		EncryptLWEBits(int, int) []mktfhe.LWECiphertext[T]
		EncryptLWEBitsTo([]mktfhe.LWECiphertext[T], int)
	}
	for i := 0; i < n; i++ {
		idx := g.IntN(P)
		enc := mktfhe.NewBinaryEncryptorWithKey(params, idx, crs, sks[idx])
		var e be = enc
		kind := i % 5
		if kind > 2 && c.Lit.SubParams.BootstrapOrder == oBR {
			kind = 0
		}
		switch kind {
		case 1:
			e = enc.SafeCopy()
		case 2:
			enc = mktfhe.NewBinaryEncryptor(params, idx, crs)
			e = enc
		case 3:
			e = enc.PublicEncryptor()
		case 4:
			e = mktfhe.NewBinaryPublicEncryptor(params, idx, enc.GenPublicKey()).SafeCopy()
		}
		d, key := dec, kl
		if kind == 2 {
			one := map[int]tfhe.SecretKey[T]{idx: enc.Encryptor.SecretKey}
			d, key = mktfhe.NewBinaryDecryptor(params, one), mkLWEKey(c, one)
		} else if i%2 == 0 {
			d = dec.SafeCopy()
		}
		b := g.IntN(2) == 0
		r.Case(fmt.Sprintf("%s bool kind %d party %d %v #%d", c.Name, kind, idx, b, i), func() {
			ct := e.EncryptLWEBool(b)
			if g.IntN(2) == 0 {
				ct, _, _ = m01Dirty(g, params)
				e.EncryptLWEBoolTo(ct, b)
			}
			q8 := T(1) << (logQ[T]() - 3)
			if !b {
				q8 = -q8
			}
			ph := refLWEPhase(key, ct.Value)
			r.Check(absF(ph-q8) < math.Exp2(float64(logQ[T]()-5)), "encryption of %v has phase %g/8 Q", b, signed(ph)/math.Exp2(float64(logQ[T]()-3)))
			r.Check(d.DecryptLWEBool(ct) == b, "encryption of %v decrypts to %v", b, !b)
			w := g.IntN(16)
			m := g.IntN(1 << w)
			ext := m | g.IntN(8)<<w
			bits := e.EncryptLWEBits(ext, w)
			if g.IntN(2) == 0 {
				bits = make([]mktfhe.LWECiphertext[T], w)
				for j := range bits {
					bits[j], _, _ = m01Dirty(g, params)
				}
				e.EncryptLWEBitsTo(bits, ext)
			}
			r.Check(len(bits) == w && d.DecryptLWEBits(bits) == m, "bits of %d (width %d) decrypt to %d", ext, w, d.DecryptLWEBits(bits))
			r.Obs("binary encryptions", 1+w)
		})
	}
}

func m01Run[T TI](r *R) {
	var st m01St
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(80, 120); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	for i, c := range cfgs {
		m01Cfg(r, c, r.Pick(12, 60), &st)
		if i < 4 {
			m01Bin(r, c, r.Pick(20, 100))
		}
	}
	st.lwe.declared(r, "scalar encryption (thousandths of the declared deviation)", 1e3)
	st.glwe.declared(r, "ring encryption", glweStd(cfgs[0].Lit.SubParams))
	st.pub.declared(r, "public scalar encryption (thousandths of the predicted deviation)", 1e3)
	st.pk.declared(r, "public key noise", glweStd(cfgs[0].Lit.SubParams))
}

func init() {
	about("M01", "Cases: party x encryptor kind (secret, public, copies) x entry point x output state x message x set of parties known to the decryptor and the history by which it learnt their keys; phases are recomputed by schoolbook arithmetic under the concatenated keys, and components of other parties must stay empty.",
		"tiny parameter sets leave worst-case room, so decryption failures are violations")
	needObs("M01", "scalar encryptions", 200)
	needObs("M01", "ring encryptions", 200)
	needObs("M01", "refusals", 10)
	needObs("M01", "binary encryptions", 100)
	reg("M01", "small32", vTwo, vAll, func(r *R) { m01Run[uint32](r) })
	reg("M01", "small64", vTwo, vAll, func(r *R) { m01Run[uint64](r) })
	reg("M01", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			if i > 2 && !r.Thorough {
				continue
			}
			var st m01St
			if c.Lit.SubParams.MessageModulus > 1 {
				m01Cfg(r, c, r.Pick(4, 20), &st)
			}
			m01Bin(r, c, r.Pick(6, 40))
		}
	})
}
