package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// uniParts are a uni-encryption's auxiliary key, and the errors of its two halves per level.
type uniParts[T TI] struct {
	r    []T
	e, f [][]T
}

// uniOpen opens a Fourier uni-encryption of m under the ring key s.
func uniOpen[T TI](r *R, pe *poly.Evaluator[T], s poly.Poly[T], ct mktfhe.FFTUniEncryption[T], gd gad[T], m []T) (u uniParts[T]) {
	N := len(m)
	key := []poly.Poly[T]{s}
	u.r = make([]T, N)
	for i := range ct.Value[1].Value {
		ph := refGLWEPhase(key, invFFTGLWE(pe, ct.Value[1].Value[i]).Value)
		if i == 0 {
			for j := range ph {
				u.r[j] = (ph[j] + gd.q(0)/2) / gd.q(0)
				if gd.logB == logQ[T]() {
					u.r[j] = ph[j]
				}
				u.r[j] &= T(1)<<gd.logB - 1
				r.Check(u.r[j] <= 1, "auxiliary key coefficient %d is %d", j, u.r[j])
			}
		}
		u.f = append(u.f, subV(ph, scaleV(u.r, gd.q(i))))
	}
	for i := range ct.Value[0].Value {
		c := invFFTGLWE(pe, ct.Value[0].Value[i])
		v := subV(c.Value[0].Coeffs, negaMul(c.Value[1].Coeffs, u.r))
		u.e = append(u.e, subV(v, scaleV(m, gd.q(i))))
	}
	return
}

// each accounts for per-level errors multiplied by s.
func (b *budget) each(base float64, l1, l2sq []float64) { b.lev(0, base, 0, 0, l1, l2sq) }

func mulNorms[T TI](es [][]T, s []T) (l1, l2 []float64) {
	for _, e := range es {
		a, b := norms(negaMul(e, s))
		l1, l2 = append(l1, a), append(l2, b)
	}
	return
}

type m04Ctx[T TI] struct {
	w    *mkWorld[T]
	pe   *poly.Evaluator[T]
	pk   [][][]T // errors of the reference public keys per party and level
	relU []uniParts[T]
	relG gad[T]
}

func oneV[T TI](N int) []T { v := make([]T, N); v[0] = 1; return v }

// hybrid accounts for one hybrid product with u, a uni-encryption of m.
func (c *m04Ctx[T]) hybrid(b *budget, u uniParts[T], gd gad[T], m []T, set map[int]bool) (fft float64) {
	N := len(m)
	base := math.Exp2(float64(gd.logB))
	add := func(s []T) {
		l1, l2 := norms(negaMul(m, s))
		e1, e2 := mulNorms(u.e, s)
		b.lev(gd.half(), base, l1, l2, e1, e2)
	}
	add(oneV[T](N))
	for i := range set {
		add(c.w.kg[i].Coeffs)
		e1, e2 := mulNorms(c.pk[i][:gd.level], u.r)
		b.each(base, e1, e2)
	}
	l1, l2 := norms(u.r)
	e1, e2 := mulNorms(u.f, oneV[T](N))
	b.lev(gd.half(), base, l1, l2, e1, e2)
	t := float64(1+len(set)*N/2) + float64(N)/2
	return fftProdTol[T](N, gd.level*(2+len(set)), base) * (2 + math.Sqrt(t))
}

// mkPhase is the joint phase over the registered parties.
func (c *m04Ctx[T]) phase(ct mktfhe.GLWECiphertext[T], set map[int]bool) []T {
	v := []poly.Poly[T]{ct.Value[0]}
	var k []poly.Poly[T]
	for i := range c.w.kg {
		if set[i] {
			v = append(v, ct.Value[1+i])
			k = append(k, c.w.kg[i])
		}
	}
	return refGLWEPhase(k, v)
}

func m04Gadget[T TI](g *rand.Rand, maxLevel int) gad[T] {
	w := logQ[T]()
	for {
		lb := 2 + g.IntN(12)
		lv := 1 + g.IntN(8)
		if lv <= maxLevel && lb*lv <= w && lb <= w/2 {
			return gadOf[T](lb, lv)
		}
	}
}

func m04Cfg[T TI](r *R, c MCfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	w := newMkWorld(c, []byte("products of "+c.Name))
	params, sp := w.params, w.params.SubParams()
	P, N := c.Lit.PartyCount, c.Lit.SubParams.PolyRank
	p := int(sp.MessageModulus())
	relLv := c.Lit.RelinKeyParams.Level
	x := &m04Ctx[T]{w: w, pe: poly.NewEvaluator[T](N)}
	x.relG = gadOf[T](bitLen(c.Lit.RelinKeyParams.Base)-1, relLv)
	gstd := glweStd(c.Lit.SubParams)
	room := roomLogB[T](gstd + fftTol[T](N)*float64(N)/12)
	r.Case(c.Name+" keys", func() {
		for i := 0; i < P; i++ {
			var es [][]T
			for j := range w.evks[i].CRSPublicKey.Value {
				es = append(es, refGLWEPhase([]poly.Poly[T]{w.kg[i]}, invFFTGLWE(x.pe, w.evks[i].CRSPublicKey.Value[j]).Value))
				r.Check(maxDiff(es[j], make([]T, N)) <= 12*gstd+2+fftTol[T](N)*float64(N), "reference key of party %d, level %d, does not encrypt zero (%g)", i, j, maxDiff(es[j], make([]T, N)))
			}
			x.pk = append(x.pk, es)
			u := uniOpen(r, x.pe, w.kg[i], w.evks[i].RelinKey, x.relG, w.kg[i].Coeffs)
			x.relU = append(x.relU, u)
			for j := range u.e {
				lim := 12*gstd + 2 + fftTol[T](N)*float64(N)
				r.Check(maxDiff(u.e[j], make([]T, N)) <= lim && maxDiff(u.f[j], make([]T, N)) <= lim, "relinearization key of party %d, level %d, is off by %g and %g", i, j, maxDiff(u.e[j], make([]T, N)), maxDiff(u.f[j], make([]T, N)))
			}
			r.Obs("keys opened", 1)
		}
	})
	if len(x.relU) < P {
		return
	}
	sets := allSets(g, P, reps)
	for rep := 0; rep < reps; rep++ {
		set := sets[rep%len(sets)]
		ev, how := w.evaluator(g, set)
		var ids []int
		for i := 0; i < P; i++ {
			if set[i] {
				ids = append(ids, i)
			}
		}
		idx := ids[g.IntN(len(ids))]
		enc := w.encs[idx]
		if g.IntN(3) == 0 {
			enc = enc.SafeCopy()
		}
		gd := m04Gadget[T](g, relLv)
		for gd.logB > room {
			gd = m04Gadget[T](g, relLv)
		}
		pre := fmt.Sprintf("%s party %d of %v (%s) gadget %dx%d #%d", c.Name, idx, ids, how, gd.logB, gd.level, rep)
		// uni-encryption forms
		m := smallPoly[T](r, N)
		form := rep % 4
		var ft mktfhe.FFTUniEncryption[T]
		r.Case(pre+fmt.Sprintf(" uni-encryption form %d", form), func() {
			mask := T(1)<<gd.logB - 1
			dirtyU := func() mktfhe.UniEncryption[T] {
				return mktfhe.UniEncryption[T]{GadgetParams: gd.gp, Value: []tfhe.GLevCiphertext[T]{dirtyGLev(g, 1, N, gd.gp), dirtyGLev(g, 1, N, gd.gp)}}
			}
			dirtyF := func() mktfhe.FFTUniEncryption[T] {
				return mktfhe.FFTUniEncryption[T]{GadgetParams: gd.gp, Value: []tfhe.FFTGLevCiphertext[T]{dirtyFFTGLev(g, 1, N, gd.gp), dirtyFFTGLev(g, 1, N, gd.gp)}}
			}
			ct := dirtyU()
			ft = dirtyF()
			want := append([]T(nil), m...)
			var ms []int
			if form < 2 {
				ms = anyMsgs[T](r, N, p)
				want = expand[T](ms, N, uint64(p))
				m = want
			}
			switch form {
			case 0:
				ct, ft = enc.UniEncrypt(ms, gd.gp), enc.FFTUniEncrypt(ms, gd.gp)
			case 1:
				enc.UniEncryptTo(ct, ms, gd.gp)
				enc.FFTUniEncryptTo(ft, ms, gd.gp)
			case 2:
				ct, ft = enc.UniEncryptPoly(polyOf(m), gd.gp), enc.FFTUniEncryptPoly(polyOf(m), gd.gp)
			case 3:
				pm := polyOf(m)
				enc.UniEncryptPolyTo(ct, pm)
				enc.FFTUniEncryptPolyTo(ft, pm)
				r.Check(eqV(pm.Coeffs, m), "the plaintext changed")
			}
			r.Check(ct.GadgetParams == gd.gp && ft.GadgetParams == gd.gp, "gadget parameters changed")
			red := make([]T, N)
			ints := make([]int, N)
			for i := range want {
				red[i] = want[i] & mask
				ints[i] = int(red[i] % T(p))
			}
			// decryption by an encryptor that did not make it
			d := mktfhe.NewEncryptorWithKey(params, idx, []byte("other"), w.sks[idx])
			po, pf := d.UniDecryptPoly(ct), d.FFTUniDecryptPoly(ft)
			mo, mf := d.UniDecrypt(ct), d.FFTUniDecrypt(ft)
			if rep%2 == 1 {
				po, pf = dirtyPoly[T](g, N), dirtyPoly[T](g, N)
				d.UniDecryptPolyTo(po, ct)
				d.FFTUniDecryptPolyTo(pf, ft)
				l := []int{N, N, 0, N / 2}[g.IntN(4)]
				mo, mf = randIntVec(g, l, 99), randIntVec(g, l, 99)
				d.UniDecryptTo(mo, ct)
				d.FFTUniDecryptTo(mf, ft)
				ints = ints[:l]
			}
			r.Check(eqV(po.Coeffs, red), "uni-encryption decrypts wrongly")
			r.Check(eqV(pf.Coeffs, red), "Fourier uni-encryption decrypts wrongly")
			r.Check(eqV(mo, ints), "uni-encryption decrypts to wrong messages")
			r.Check(eqV(mf, ints), "Fourier uni-encryption decrypts to wrong messages")
			fu := enc.FwdFFTUniEncryption(ct)
			if g.IntN(2) == 0 {
				fu = dirtyF()
				enc.FwdFFTUniEncryptionTo(fu, ct)
			}
			back := enc.InvFFTUniEncryption(fu)
			if g.IntN(2) == 0 {
				back = dirtyU()
				enc.InvFFTUniEncryptionTo(back, fu)
			}
			for h := range back.Value {
				for i := range back.Value[h].Value {
					dd := glweDiff(back.Value[h].Value[i], ct.Value[h].Value[i])
					r.Check(dd <= fftTol[T](N), "half %d level %d returns from Fourier form off by %g", h, i, dd)
				}
			}
			r.Check(back.GadgetParams == gd.gp && fu.GadgetParams == gd.gp, "gadget parameters lost in transforms")
			if g.IntN(2) == 0 {
				ft = fu
			}
			r.Obs("uni-encryptions", 2)
		})
		if len(ft.Value) != 2 {
			continue
		}
		for kind := 0; kind < 2; kind++ { // hybrid, external
			hyb := kind == 0
			names := []string{"hybrid", "external"}
			in := mktfhe.GLWECiphertext[T]{Value: dirtyGLWE[T](g, P, N).Value}
			random := true
			switch g.IntN(5) {
			case 0: // trivial: only the body
				for i := 1; i <= P; i++ {
					in.Value[i].Clear()
				}
				random = false
			case 1: // a real encryption by some registered party
				in = w.encs[ids[g.IntN(len(ids))]].EncryptGLWE(randIntVec(g, N, p))
				random = false
			case 2: // edge values
				for i := range in.Value {
					for j := range in.Value[i].Coeffs {
						in.Value[i].Coeffs[j] = edgeT[T](g)
					}
				}
				random = false
			}
			out0 := mktfhe.GLWECiphertext[T]{Value: dirtyGLWE[T](g, P, N).Value}
			var b budget
			var fft float64
			var lev tfhe.FFTGLevCiphertext[T]
			mm := m
			lg := gd
			if hyb {
				u := uniOpen(r, x.pe, w.kg[idx], ft, gd, m)
				fft = x.hybrid(&b, u, gd, m, set)
			} else {
				lg = m04Gadget[T](g, 8)
				for lg.logB > room {
					lg = m04Gadget[T](g, 8)
				}
				mm = smallPoly[T](r, N)
				lev = enc.SubEncryptor.EncryptFFTGLevPoly(polyOf(mm), lg.gp)
				base := math.Exp2(float64(lg.logB))
				var es [][]T
				for j := range lev.Value {
					es = append(es, subV(refGLWEPhase([]poly.Poly[T]{w.kg[idx]}, invFFTGLWE(x.pe, lev.Value[j]).Value), scaleV(mm, lg.q(j))))
				}
				add := func(s []T) {
					l1, l2 := norms(negaMul(mm, s))
					e1, e2 := mulNorms(es, s)
					b.lev(lg.half(), base, l1, l2, e1, e2)
				}
				add(oneV[T](N))
				for i := range set {
					add(w.kg[i].Coeffs)
				}
				fft = fftProdTol[T](N, lg.level, base) * (2 + math.Sqrt(float64(1+len(set)*N/2)))
				fft += fft * math.Sqrt(float64(N)/2)
				fft += x.hybrid(&b, x.relU[idx], x.relG, w.kg[idx].Coeffs, set)
			}
			lim := b.bound(random, fft)
			if !random {
				lim = b.worst + fft + 2
			}
			want := negaMul(x.phase(in, set), mm)
			var to mktfhe.GLWECiphertext[T]
			for f := 0; f < 5; f++ {
				r.Case(fmt.Sprintf("%s %s gadget %dx%d form %d", pre, names[kind], lg.logB, lg.level, f), func() {
					ii := in.Copy()
					o := out0.Copy()
					switch f {
					case 0:
						if hyb {
							ev.HybridProdGLWETo(idx, ft, ii, o)
						} else {
							ev.ExternalProdGLWETo(idx, lev, ii, o)
						}
						to = o
					case 1:
						if hyb {
							o = ev.HybridProdGLWE(idx, ft, ii)
						} else {
							o = ev.ExternalProdGLWE(idx, lev, ii)
						}
					case 2:
						if hyb {
							ev.HybridProdAddGLWETo(idx, ft, ii, o)
						} else {
							ev.ExternalProdAddGLWETo(idx, lev, ii, o)
						}
					case 3:
						if hyb {
							ev.HybridProdSubGLWETo(idx, ft, ii, o)
						} else {
							ev.ExternalProdSubGLWETo(idx, lev, ii, o)
						}
					case 4: // over its own input
						if hyb {
							ev.HybridProdGLWETo(idx, ft, ii, ii)
						} else {
							ev.ExternalProdGLWETo(idx, lev, ii, ii)
						}
						o = ii
					}
					if f < 4 {
						for i := range in.Value {
							r.Check(eqV(in.Value[i].Coeffs, ii.Value[i].Coeffs), "the input changed")
						}
					}
					if !r.Check(len(o.Value) == P+1, "%d components", len(o.Value)) {
						return
					}
					delta := mktfhe.GLWECiphertext[T]{}
					for i := range o.Value {
						v := o.Value[i].Coeffs
						if f == 2 {
							v = subV(v, out0.Value[i].Coeffs)
						} else if f == 3 {
							v = subV(out0.Value[i].Coeffs, v)
						}
						delta.Value = append(delta.Value, polyOf(v))
						if i > 0 && !set[i-1] {
							r.Check(eqV(v, make([]T, N)), "form %d: the component of party %d, whose key is not registered, is wrong", f, i-1)
						}
						if len(to.Value) == P+1 {
							d := maxDiff(v, to.Value[i].Coeffs)
							r.Check(d <= fft+2, "form %d: component %d differs by %g from the plain product", f, i, d)
						}
					}
					d := maxDiff(x.phase(delta, set), want)
					r.Max(names[kind]+" error / bound", d/lim)
					r.Max("log2 of "+names[kind]+" error", math.Log2(d+1))
					r.Check(d <= lim, "phase off by %g, bound %g", d, lim)
					if lim < math.Exp2(float64(logQ[T]()-4)) {
						r.Obs("meaningful "+names[kind]+" products", 1)
					}
					r.Obs(names[kind]+" products", 1)
				})
			}
		}
	}
}

func m04Run[T TI](r *R) {
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(40, 80); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	for _, c := range cfgs {
		m04Cfg(r, c, r.Pick(12, 80))
	}
}

func init() {
	about("M04", "Cases: parameter set x registered parties x party index x gadget x message polynomial x multiplicand (uniform, trivial, real encryption, edge values) x product (hybrid, external) x form (allocating, output, accumulate, subtract, in place). The joint phase is compared with the schoolbook product; the bound is computed from the errors actually present in the keys and operands.",
		"the deviation part of the bound assumes uniform operands and is used only for them; others use the worst case")
	needObs("M04", "uni-encryptions", 200)
	needObs("M04", "meaningful hybrid products", 300)
	needObs("M04", "meaningful external products", 300)
	reg("M04", "small32", vTwo, vAll, func(r *R) { m04Run[uint32](r) })
	reg("M04", "small64", vTwo, vAll, func(r *R) { m04Run[uint64](r) })
	reg("M04", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			if i > r.Pick(1, 2) {
				continue
			}
			m04Cfg(r, c, r.Pick(3, 8))
		}
	})
}
