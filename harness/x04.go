package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

type x04Cfg[T TI] struct {
	name string
	lit  xtfhe.CircuitBootstrapParametersLiteral[T]
}

// x04Cfgs are small circuit bootstrapping sets.
func x04Cfgs[T TI](r *R, random int) []x04Cfg[T] {
	g := r.Rng
	var out []x04Cfg[T]
	add := func(n, k, N, bs int, p T, count int, o tfhe.BootstrapOrder, outB, outL int) {
		br, ks, sw, tr := [2]int{8, 6}, [2]int{4, 8}, [2]int{8, 6}, [2]int{8, 6}
		if g.IntN(2) == 0 {
			br, sw, tr = [2]int{12, 4}, [2]int{10, 5}, [2]int{6, 9}
		}
		lwe, glwe := math.Exp2(-46), math.Exp2(-50)
		if logQ[T]() == 32 {
			br, ks, sw, tr = [2]int{5, 6}, [2]int{4, 7}, [2]int{6, 5}, [2]int{4, 7}
			lwe, glwe = math.Exp2(-29), math.Exp2(-31)
		}
		c := mk[T](n, k, N, N, bs, p, br[0], br[1], ks[0], ks[1], o)
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = lwe, glwe
		gl := func(x [2]int) tfhe.GadgetParametersLiteral[T] {
			return tfhe.GadgetParametersLiteral[T]{Base: T(1) << x[0], Level: x[1]}
		}
		out = append(out, x04Cfg[T]{fmt.Sprintf("%s luts %d switch %v trace %v out %dx%d", c.Name, count, sw, tr, outB, outL), xtfhe.CircuitBootstrapParametersLiteral[T]{
			ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: c.Lit, LUTCount: count}, SchemeSwitchParams: gl(sw), TraceKeySwitchParams: gl(tr), OutputParams: gl([2]int{outB, outL})}})
	}
	oL, oB := 4, 5
	if logQ[T]() == 32 {
		oL, oB = 3, 3
	}
	add(6, 1, 64, 1, 2, 2, oBR, oB, oL)
	add(6, 2, 64, 3, 2, 4, oKS, oB, oL)
	add(12, 1, 128, 3, 4, 4, oBR, oB, oL)
	add(10, 1, 64, 1, 4, 1, oKS, oB, 2)
	add(4, 3, 32, 4, 2, 2, oBR, oB-1, 3)
	add(4, 1, 128, 4, 2, 8, oKS, oB, oL) // more tables than levels
	add(32, 2, 16, 16, 2, 1, oBR, oB, 1)
	if logQ[T]() == 64 {
		add(6, 1, 64, 2, 2, 4, oBR, 3, 7) // two passes, the second not full
	}
	for i := 0; i < random; i++ {
		for {
			c := x03Rand[T](g)
			lv := 1 + g.IntN(oL)
			if c.Lit.PolyRank <= 128 && int(c.Lit.MessageModulus) <= 1<<oB && 4*int(c.Lit.MessageModulus)*c.count <= c.Lit.PolyRank {
				add(c.Lit.LWEDimension, c.Lit.GLWERank, c.Lit.PolyRank, c.Lit.BlockSize, c.Lit.MessageModulus, c.count, c.Lit.BootstrapOrder, oB, lv)
				break
			}
		}
	}
	return out
}

func x04One[T TI](r *R, c x04Cfg[T], reps int, worst bool) {
	r.SeedLib(c.name)
	g := r.Rng
	lit := c.lit.ManyLUTParams.BaseParams
	k, N, p := lit.GLWERank, lit.PolyRank, int(lit.MessageModulus)
	logN := bitLen(uint64(N)) - 1
	gdOf := func(l tfhe.GadgetParametersLiteral[T]) gad[T] { return gadOf[T](bitLen(l.Base)-1, l.Level) }
	sw, tr, og := gdOf(c.lit.SchemeSwitchParams), gdOf(c.lit.TraceKeySwitchParams), gdOf(c.lit.OutputParams)
	std := glweStd(lit)
	var params xtfhe.CircuitBootstrapParameters[T]
	var enc *tfhe.Encryptor[T]
	var cb *xtfhe.CircuitBootstrapper[T]
	var evk tfhe.EvaluationKey[T]
	var pe *poly.Evaluator[T]
	var key []poly.Poly[T]
	var kl1, kw float64
	trace := map[int]float64{}
	var swB []budget
	fftTrace := fftProdTol[T](N, tr.level*k, float64(T(1)<<tr.logB)) * 2
	fftSw := fftProdTol[T](N, sw.level*(k+1), float64(T(1)<<sw.logB)) * 2
	ready := false
	r.Case(c.name+" keys", func() {
		params = c.lit.Compile()
		enc = tfhe.NewEncryptor(params.BaseParams())
		key = enc.SecretKey.GLWEKey.Value
		kl1, kw = keyWeight(key)
		pe = poly.NewEvaluator[T](N)
		evk = enc.GenEvalKeyParallel()
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(params, enc.SecretKey)
		if g.IntN(2) == 0 {
			kg = kg.SafeCopy()
		}
		cbk := kg.GenCircuitBootstrapKey()
		if !r.Check(len(cbk.SchemeSwitchKey) == k && len(cbk.TraceKeys) == logN, "key with %d switching and %d trace components, want %d and %d", len(cbk.SchemeSwitchKey), len(cbk.TraceKeys), k, logN) {
			return
		}
		for i := 1; i <= logN; i++ {
			d := 1<<i + 1
			var from []poly.Poly[T]
			for j := range key {
				from = append(from, polyOf(autoPoly(key[j].Coeffs, d)))
			}
			b, ok := kskBudget(r, fmt.Sprintf("trace key %d", d), pe, key, from, cbk.TraceKeys[d], tr, std)
			if !ok {
				return
			}
			trace[i] = b.bound(true, 4*fftTrace*kw)
		}
		for i := range cbk.SchemeSwitchKey {
			var b budget
			ct := cbk.SchemeSwitchKey[i]
			if !r.Check(len(ct.Value) == k+1 && ct.GadgetParams == sw.gp, "switching key %d has %d rows", i, len(ct.Value)) {
				return
			}
			for j := range ct.Value {
				mm := key[i].Coeffs
				if j > 0 {
					mm = negaMul(key[j-1].Coeffs, mm)
				}
				for l := range ct.Value[j].Value {
					d := maxDiff(refGLWEPhase(key, invFFTGLWE(pe, ct.Value[j].Value[l]).Value), scaleV(mm, sw.q(l)))
					lim := 9.5*std + fftTol[T](N)*float64(k+1)*8 + 1
					if !r.Check(d <= lim, "switching key %d row %d level %d is %g off (deviation %g)", i, j, l, d, std) {
						return
					}
					r.Obs("key rows", 1)
				}
				l1, l2 := glevErr(pe, key, ct.Value[j], sw, mm)
				a1, a2 := norms(mm)
				b.lev(sw.half(), float64(T(1)<<sw.logB), a1, a2, l1, l2)
			}
			swB = append(swB, b)
		}
		cb = xtfhe.NewCircuitBootstrapper(params, evk, cbk)
		if g.IntN(2) == 0 {
			cb = cb.SafeCopy()
		}
		ready = true
	})
	if !ready {
		return
	}
	base := params.BaseParams()
	lk := keyFor(base, enc.SecretKey)
	scale := divRoundQ(T(p))
	round := min(kl1/2, 12*math.Sqrt(kl1/12)+1) * float64(N)
	eConst := 9*2.5*base.EstimateBlindRotateStdDev() + 4 + round + kl1
	eKey := 0.0
	for i := 0; i < logN; i++ { // step i uses the key of index 2^(logN-i)+1 and is amplified by the steps after it
		eKey += trace[logN-i] * math.Exp2(float64(logN-1-i))
	}
	// room for noise in the input
	slots := float64(N / c.lit.ManyLUTParams.LUTCount)
	h := float64(lit.LWEDimension/max(lit.BlockSize, 1) + 1)
	room := slots/(2*float64(p)) - h/2 - 2
	if !worst {
		room = slots / (4 * float64(p))
	}
	slot := math.Exp2(float64(logQ[T]())) / (2 * slots)
	room -= 10 * base.EstimateDefaultKeySwitchStdDev() / slot
	prev := map[int]tfhe.LWECiphertext[T]{}
	for rep := 0; rep < reps; rep++ {
		m := rep % p
		kind := rep / p % 3
		r.Case(fmt.Sprintf("%s m=%d kind %d rep %d", c.name, m, kind, rep), func() {
			ct := enc.EncryptLWE(m)
			switch kind {
			case 1: // noisy
				off := room * (2*g.Float64() - 1)
				if g.IntN(2) == 0 {
					off = room * (1 - 2*float64(g.IntN(2))) * 0.99
				}
				if room > 0 {
					ct = dirtyLWE[T](g, len(lk))
					ct.Value[0] = 0
					ct.Value[0] = T(m)*scale + T(int64(off*slot)) - refLWEPhase(lk, ct.Value)
				}
			case 2:
				if x, ok := prev[m]; ok {
					ct = x
				}
			}
			keep := ct.Copy()
			o := cb.CircuitBootstrap(ct)
			r.Check(same(keep, ct) == "", "the input changed")
			if !r.Check(len(o.Value) == k+1 && o.GadgetParams == og.gp, "output with %d rows", len(o.Value)) {
				return
			}
			o2 := dirtyFFTGGSW(g, k, N, og.gp)
			cb.CircuitBootstrapTo(o2, ct)
			if d := same(o, o2); d != "" {
				r.Fail("CircuitBootstrapTo gives another result than CircuitBootstrap: %s", d)
			}
			fit := true
			// first row: the message at every level
			for l := 0; l < og.level; l++ {
				ph := refGLWEPhase(key, invFFTGLWE(pe, o.Value[0].Value[l]).Value)
				e0 := math.Abs(signed(ph[0] - T(m)*og.q(l)))
				r.Max("constant coefficient error / bound", e0/(eConst+eKey))
				r.Check(e0 <= eConst+eKey, "level %d: constant coefficient is %g off, bound %g, step %g", l, e0, eConst+eKey, float64(og.q(l)))
				e := maxDiff(ph[1:], make([]T, N-1))
				r.Max("other coefficients error / bound", e/eKey)
				r.Check(e <= eKey, "level %d: another coefficient is %g off, bound %g, step %g", l, e, eKey, float64(og.q(l)))
				fit = fit && eConst+eKey < float64(og.q(l))/2
				// other rows: the first one multiplied by the key
				for i := 1; i <= k; i++ {
					b := swB[i-1].bound(true, 4*fftSw*kw)
					pi := refGLWEPhase(key, invFFTGLWE(pe, o.Value[i].Value[l]).Value)
					e := maxDiff(pi, negaMul(key[i-1].Coeffs, ph))
					r.Max("switched row error / bound", e/b)
					r.Check(e <= b, "row %d level %d is %g off the key times the first row, bound %g, step %g", i, l, e, b, float64(og.q(l)))
				}
				r.Obs("output levels", 1)
			}
			if !fit {
				r.Obs("outputs without room", 1)
			}
			if fit && m < 1<<og.logB {
				d := enc.DecryptFFTGGSW(o)
				r.Check(d[0] == m, "the output decrypts to %d, want %d", d[0], m)
				for i := 1; i < N; i++ {
					if d[i] != 0 {
						r.Fail("coefficient %d of the output decrypts to %d", i, d[i])
						break
					}
				}
				r.Obs("decrypted outputs", 1)
			}
			// products with the output
			var b budget
			mm := make([]T, N)
			mm[0] = T(m)
			for i := range o.Value {
				w := mm
				if i > 0 {
					w = scaleV(key[i-1].Coeffs, T(m))
				}
				l1, l2 := glevErr(pe, key, o.Value[i], og, w)
				a1, a2 := norms(w)
				b.lev(og.half(), float64(T(1)<<og.logB), a1, a2, l1, l2)
			}
			fft := fftProdTol[T](N, og.level*(k+1), float64(T(1)<<og.logB)) * 2
			bd := b.bound(true, 4*fft*kw)
			msg := [2][]int{randIntVec(g, N, p), randIntVec(g, N, p)}
			in := [2]tfhe.GLWECiphertext[T]{enc.EncryptGLWE(msg[0]), enc.EncryptGLWE(msg[1])}
			po := cb.ManyLUTEvaluator.ExternalProdGLWE(o, in[0])
			e := maxDiff(refGLWEPhase(key, po.Value), scaleV(refGLWEPhase(key, in[0].Value), T(m)))
			r.Max("product error / bound", e/bd)
			r.Check(e <= bd, "product with the output is %g off, bound %g", e, bd)
			r.Obs("products", 1)
			if m < 2 {
				sel := cb.ManyLUTEvaluator.CMux(o, in[0], in[1])
				e := maxDiff(refGLWEPhase(key, sel.Value), refGLWEPhase(key, in[m].Value))
				r.Check(e <= bd, "selected branch %d is %g off, bound %g", m, e, bd)
				if bd+10*std < float64(scale)/2 {
					d := enc.DecryptGLWE(sel)
					for i := range d {
						if d[i] != msg[m][i] {
							r.Fail("coefficient %d of branch %d decrypts to %d, want %d", i, m, d[i], msg[m][i])
							break
						}
					}
					r.Obs("decrypted selections", 1)
				}
				// a chain of selections by the same output
				acc := in[m].Copy()
				for i := 1; i <= 6; i++ {
					if m == 1 {
						cb.ManyLUTEvaluator.CMuxTo(acc, o, in[0], acc)
					} else {
						cb.ManyLUTEvaluator.CMuxTo(acc, o, acc, in[1])
					}
				}
				e = maxDiff(refGLWEPhase(key, acc.Value), refGLWEPhase(key, in[m].Value))
				r.Check(e <= 6*bd, "six selections are %g off, bound %g", e, 6*bd)
				r.Obs("selections", 7)
			}
			if m < p {
				prev[m] = cb.ManyLUTEvaluator.Evaluator.BootstrapFunc(ct, func(x int) int { return x })
			}
		})
	}
}

func init() {
	about("X04", "Cases: small sets over ranks 1-3, both orders, original and block rotation, one or several passes over the output levels, more tables than levels; the shipped sets. Inputs: fresh, phases up to the edge of what the rounding allows, bootstrapped ones. Trace and switching keys are opened row by row; every level of the output is opened: the first row must hold the message on the constant coefficient and nothing elsewhere, every other row the key times the first, within bounds computed from the opened keys; decryption, products, selections and chains of selections with the output.",
		"the blind rotation's share of the bound is nine of its estimated deviations times 2.5")
	needObs("X04", "output levels", 300)
	needObs("X04", "products", 100)
	needObs("X04", "selections", 300)
	needObs("X04", "decrypted outputs", 100)
	reg("X04", "small32", vTwo, vAll, func(r *R) {
		for _, c := range x04Cfgs[uint32](r, r.Pick(16, 60)) {
			x04One(r, c, r.Pick(24, 90), true)
		}
	})
	reg("X04", "small64", vTwo, vAll, func(r *R) {
		for _, c := range x04Cfgs[uint64](r, r.Pick(16, 60)) {
			x04One(r, c, r.Pick(24, 90), true)
		}
	})
	reg("X04", "shipped", vAvx, vAll, func(r *R) {
		x04One(r, x04Cfg[uint64]{"ParamsCircuitBootstrapMedium", xtfhe.ParamsCircuitBootstrapMedium}, r.Pick(10, 24), false)
		x04One(r, x04Cfg[uint64]{"ParamsCircuitBootstrapLarge", xtfhe.ParamsCircuitBootstrapLarge}, r.Pick(10, 24), false)
	})
	heavy("X04", "shipped", 10)
}
