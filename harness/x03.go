package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func x03Fixed[T TI]() []x03Cfg[T] {
	b, s := brChoices[T]()[0], ksChoices[T]()[0]
	f := func(n, k, N, bs int, p T, count int, o tfhe.BootstrapOrder) x03Cfg[T] {
		c := mk[T](n, k, N, N, bs, p, b[0], b[1], s[0], s[1], o)
		c.Name += fmt.Sprintf("_luts%d", count)
		return x03Cfg[T]{c, count}
	}
	return []x03Cfg[T]{
		f(6, 1, 64, 1, 2, 2, oKS),
		f(6, 2, 64, 3, 2, 4, oBR),
		f(12, 1, 128, 3, 4, 4, oKS),
		f(8, 3, 32, 4, 2, 2, oBR),
		f(10, 1, 64, 1, 4, 1, oKS),
		f(1, 1, 64, 1, 2, 8, oKS),
		f(4, 1, 128, 4, 2, 16, oBR),
		f(8, 1, 256, 2, 5, 4, oKS),
		f(32, 2, 16, 16, 2, 1, oBR), // no key switching needed
		f(2, 1, 64, 2, 2, 8, oBR),
	}
}

// slotTable is the table of function i.
func slotTable[T TI](lut tfhe.LookUpTable[T], count, i int) tfhe.LookUpTable[T] {
	n := len(lut.Value[0].Coeffs) / count
	v := make([]T, n)
	for j := range v {
		v[j] = lut.Value[0].Coeffs[j*count+i]
	}
	return tfhe.LookUpTable[T]{Value: []poly.Poly[T]{{Coeffs: v}}}
}

func x03Luts[T TI](r *R, c x03Cfg[T], reps int) {
	g := r.Rng
	params := c.lit().Compile()
	r.Check(params.LUTCount() == c.count && params.LogLUTCount() == bitLen(uint64(c.count))-1 && params.BaseParams().LWEDimension() == c.Lit.LWEDimension,
		"%s: parameters report %d tables (log %d)", c.Name, params.LUTCount(), params.LogLUTCount())
	ev := xtfhe.NewManyLUTEvaluator(params, tfhe.EvaluationKey[T]{})
	N := c.Lit.PolyRank
	L := N / c.count
	p0 := int(c.Lit.MessageModulus)
	for i := 0; i < reps; i++ {
		p := p0
		if i > 0 {
			p = 2 + g.IntN(max(L/4-1, 1))
		}
		if 4*p > L {
			p = 2
		}
		if i == 0 && p != p0 {
			continue
		}
		scale := T(g.Uint64()) >> g.IntN(logQ[T]())
		n := c.count
		if g.IntN(3) == 0 {
			n = 1 + g.IntN(c.count)
		}
		r.Case(fmt.Sprintf("%s table p=%d scale=%d functions=%d", c.Name, p, scale, n), func() {
			var vals [][]int
			var raws [][]T
			var f []func(int) int
			var ff []func(int) T
			for t := 0; t < n; t++ {
				v, w := make([]int, p), make([]T, p)
				for j := range v {
					v[j] = int(g.Uint64()) >> g.IntN(63)
					w[j] = edgeT[T](g)
				}
				vals, raws = append(vals, v), append(raws, w)
				f = append(f, func(x int) int { return v[x] })
				ff = append(ff, func(x int) T { return w[x] })
			}
			judge := func(form string, lut tfhe.LookUpTable[T], scale T, raw bool) {
				for t := 0; t < n; t++ {
					c11Lut(r, fmt.Sprintf("%s function %d", form, t), slotTable(lut, c.count, t), L, p, func(m int) T {
						if raw {
							return raws[t][m]
						}
						return T(refReduce(vals[t][m], uint64(p))) * scale
					})
				}
				r.Obs("tables", 1)
			}
			dirty := func() tfhe.LookUpTable[T] {
				return tfhe.LookUpTable[T]{Value: []poly.Poly[T]{dirtyPoly[T](g, N)}}
			}
			if i == 0 {
				s0 := divRoundQ(T(p))
				judge("GenLUT", ev.GenLUT(f), s0, false)
				o := dirty()
				ev.GenLUTTo(o, f)
				judge("GenLUTTo", o, s0, false)
				judge("GenLUTFull", ev.GenLUTFull(ff), 0, true)
				o = dirty()
				ev.GenLUTFullTo(o, ff)
				judge("GenLUTFullTo", o, 0, true)
			}
			judge("GenLUTCustom", ev.GenLUTCustom(f, T(p), scale), scale, false)
			o := dirty()
			ev.GenLUTCustomTo(o, f, T(p), scale)
			judge("GenLUTCustomTo", o, scale, false)
			judge("GenLUTCustomFull", ev.GenLUTCustomFull(ff, T(p)), 0, true)
			o = dirty()
			ev.GenLUTCustomFullTo(o, ff, T(p))
			judge("GenLUTCustomFullTo", o, 0, true)
		})
	}
	r.Case(c.Name+" too many functions", func() {
		f := make([]func(int) int, c.count+1)
		for i := range f {
			f[i] = func(x int) int { return x }
		}
		pan, _ := Panics(func() { ev.GenLUT(f) })
		r.Check(pan, "%d functions accepted for %d tables", len(f), c.count)
	})
	q := new(big.Int).Lsh(one, uint(logQ[T]()))
	r.Case(c.Name+" modulus switch", func() {
		for i := 0; i < 200*reps; i++ {
			x := edgeT[T](g)
			if i%2 == 0 { // around the rounding boundaries
				t := new(big.Int).Mul(q, big.NewInt(int64(2*g.IntN(2*L)+1)))
				t.Div(t, big.NewInt(int64(4*L)))
				x = T(t.Uint64()) + T(g.IntN(5)) - 2
			}
			got := ev.ModSwitch(x)
			d := new(big.Int).Mul(big.NewInt(int64(got/c.count)), q)
			d.Sub(d, new(big.Int).Mul(bigOf(uint64(x)), big.NewInt(int64(2*L))))
			m := new(big.Int).Mul(q, big.NewInt(int64(2*L)))
			d.Mod(d, m)
			if e := new(big.Int).Sub(m, d); e.Cmp(d) < 0 {
				d = e
			}
			r.Obs("modulus switches", 1)
			if got%c.count != 0 || got < 0 || got > 2*N || new(big.Int).Lsh(d, 1).Cmp(q) > 0 {
				r.Fail("%d switches to %d of %d in steps of %d", x, got, 2*N, c.count)
				return
			}
		}
	})
}

type x03World[T TI] struct {
	c      x03Cfg[T]
	params xtfhe.ManyLUTParameters[T]
	enc    *tfhe.Encryptor[T]
	ev     *xtfhe.ManyLUTEvaluator[T]
}

// x03Rotate compares rotated tables with the schoolbook rotation.
func x03Rotate[T TI](r *R, w *x03World[T], sweep int) {
	g := r.Rng
	c, ev := w.c, w.ev
	base := w.params.BaseParams()
	key, gkey := w.enc.SecretKey.LWEKey.Value, w.enc.SecretKey.GLWEKey.Value
	N := c.Lit.PolyRank
	L := N / c.count
	lw := logQ[T]()
	est := base.EstimateBlindRotateStdDev()
	tol := 9*2.5*est + 4
	step := lw - (bitLen(uint64(2*L)) - 1)
	at := func(t int) T { return T(posMod(t, 2*L)) << step }
	lut := tfhe.NewLUT(base)
	for j := range lut.Value[0].Coeffs {
		lut.Value[0].Coeffs[j] = T(g.IntN(1<<16)) << (lw - 16)
	}
	keep := lut.Copy()
	if sweep > 2*L {
		sweep = 2 * L
	}
	for i := 0; i < sweep; i++ {
		phi := i
		if sweep < 2*L {
			phi = []int{0, L - 1, L, 2*L - 1, g.IntN(2 * L), g.IntN(2 * L)}[i%6]
		}
		r.Case(fmt.Sprintf("%s slot %d/%d", c.Name, phi, 2*L), func() {
			ct := tfhe.LWECiphertext[T]{Value: make([]T, len(key)+1)}
			tb := phi
			kind := g.IntN(3)
			jitter := func() T { // stays within the rounding interval
				return T(g.Uint64())%(T(1)<<(step-1)) - T(1)<<(step-2)
			}
			ts := make([]int, len(key))
			for i := range key {
				t := g.IntN(2 * L)
				switch kind {
				case 1:
					t = 0
				case 2:
					t = []int{0, 1, L, 2*L - 1, L - 1}[g.IntN(5)]
				}
				ts[i] = t
			}
			how := craftVec(g, ts)
			for i, t := range ts {
				ct.Value[i+1] = at(t) + jitter()
				if how != "" {
					ct.Value[i+1] = at(t) // words that are exactly zero
				}
				tb -= t * int(key[i])
			}
			ct.Value[0] = at(tb) + jitter()
			was := ct.Copy()
			o := dirtyGLWE[T](g, c.Lit.GLWERank, N)
			if g.IntN(2) == 0 {
				o = ev.BlindRotate(ct, lut)
			} else {
				ev.BlindRotateTo(o, ct, lut)
			}
			ph := refGLWEPhase(gkey, o.Value)
			want := make([]T, N)
			for i := range want {
				want[i] = c11Table(lut, phi*c.count+i)
			}
			e := maxDiff(ph, want)
			r.Max("rotation error / estimated deviation", e/(est+1))
			r.Obs("rotations", 1)
			r.Check(e <= tol, "rotated table is off by %g (tolerance %g)", e, tol)
			r.Check(eqV(was.Value, ct.Value), "the ciphertext changed")
		})
	}
	r.Check(eqV(lut.Value[0].Coeffs, keep.Value[0].Coeffs), "%s: the table changed", c.Name)
}

// x03Boot bootstraps all messages.
func x03Boot[T TI](r *R, w *x03World[T], msgs []int, tuples int) {
	g := r.Rng
	c, ev := w.c, w.ev
	base := w.params.BaseParams()
	p := int(c.Lit.MessageModulus)
	scale := divRoundQ(T(p))
	sk := keyFor(base, w.enc.SecretKey)
	for tu := 0; tu < tuples; tu++ {
		fns := fnSet(g, p, isPow2(p), 2*c.count)
		g.Shuffle(len(fns), func(i, j int) { fns[i], fns[j] = fns[j], fns[i] })
		n := c.count
		if tu%3 == 2 {
			n = 1 + g.IntN(c.count)
		}
		fns = fns[:min(n, len(fns))]
		if tu%4 == 3 && n > 1 {
			fns[n-1] = fns[0] // a repeated function
		}
		var f []func(int) int
		for _, x := range fns {
			f = append(f, x.f)
		}
		lut := ev.GenLUT(f)
		for mi, m := range msgs {
			r.Case(fmt.Sprintf("%s tuple %d of %d m=%d", c.Name, tu, n, m), func() {
				ct := w.enc.EncryptLWE(m)
				if len(w.enc.SecretKey.LWEKey.Value) <= 64 && g.IntN(3) == 0 && recraft(g, sk, ct, c.Lit.PolyRank/c.count) != "" {
					r.Obs("special masks", 1)
				}
				var outs []tfhe.LWECiphertext[T]
				dirty := func() []tfhe.LWECiphertext[T] {
					o := make([]tfhe.LWECiphertext[T], c.count)
					for i := range o {
						o[i] = dirtyLWE[T](g, len(sk))
					}
					return o
				}
				form := (tu + mi) % 5
				switch form {
				case 0:
					outs = ev.BootstrapFunc(ct, f)
				case 1:
					outs = dirty()
					extra := dirtyLWE[T](g, len(sk))
					was := extra.Copy()
					outs = append(outs, extra, extra)
					ev.BootstrapFuncTo(outs, ct, f)
					r.Check(eqV(extra.Value, was.Value), "form 1: an output past the number of tables was written")
					outs = outs[:c.count]
				case 2:
					outs = ev.BootstrapLUT(ct, lut)
				case 3:
					outs = dirty()
					extra := dirtyLWE[T](g, len(sk))
					was := extra.Copy()
					outs = append(outs, extra)
					ev.BootstrapLUTTo(outs, ct, lut)
					r.Check(eqV(extra.Value, was.Value), "form 3: an output past the number of tables was written")
					outs = outs[:c.count]
				case 4: // the input is one of the outputs
					outs = dirty()
					outs[g.IntN(len(outs))] = ct
					ev.BootstrapLUTTo(outs, ct, lut)
				}
				if !r.Check(len(outs) == c.count, "%d outputs, want %d", len(outs), c.count) {
					return
				}
				for i, x := range fns {
					want := posMod(x.f(posMod(m, p)), p)
					ph := refLWEPhase(sk, outs[i].Value)
					got := refDecode(ph, scale, p)
					r.Obs("bootstrapped outputs", 1)
					r.Check(got == want, "form %d function %d (%s): decoded %d want %d", form, i, x.name, got, want)
					r.Check(w.enc.DecryptLWE(outs[i]) == want, "form %d function %d: library decryption %d want %d", form, i, w.enc.DecryptLWE(outs[i]), want)
					e := math.Abs(signed(ph - T(want)*scale))
					if p&(p-1) == 0 {
						e = math.Min(e, math.Abs(signed(ph-T(want)*scale+T(1)<<(logQ[T]()-1))))
						r.Max("output error / step", e/float64(scale))
					}
				}
				// the inherited one-table bootstrapping still works beside it
				if mi%4 == 0 {
					o := ev.Evaluator.BootstrapFunc(outs[0], func(x int) int { return x })
					want := posMod(fns[0].f(posMod(m, p)), p)
					r.Check(refDecode(refLWEPhase(sk, o.Value), scale, p) == want, "single-table bootstrapping of an output: %d want %d", refDecode(refLWEPhase(sk, o.Value), scale, p), want)
				}
			})
		}
	}
}

func x03One[T TI](r *R, c x03Cfg[T], luts, sweep, tuples, msgs int) {
	r.SeedLib(c.Name)
	x03Luts(r, c, luts)
	w := &x03World[T]{c: c}
	r.Case(c.Name+" keys", func() {
		w.params = c.lit().Compile()
		w.enc = tfhe.NewEncryptor(w.params.BaseParams())
		w.ev = xtfhe.NewManyLUTEvaluator(w.params, w.enc.GenEvalKeyParallel())
		if r.Rng.IntN(2) == 0 {
			w.ev = w.ev.SafeCopy()
		}
	})
	if w.ev == nil {
		return
	}
	x03Rotate(r, w, sweep)
	ms := sampleMsgs(r.Rng, int(c.Lit.MessageModulus), msgs)
	x03Boot(r, w, ms, tuples)
}

func init() {
	about("X03", "Cases: small sets covering original and block rotation, both orders, ranks 1-3, 1 to 16 tables, and the shipped sets; tables: every entry of every function's sub-table away from interval boundaries, for random moduli, scales and counts of functions; modulus switch against exact rounding to the coarser grid; rotation: every slot index, compared coefficient by coefficient with the schoolbook rotation; bootstraps: every message with tuples of functions, all forms, outputs overlapping the input, decoded by schoolbook arithmetic.",
		"outputs beyond the number of functions given are not judged", "message moduli of at most a quarter of the slots; generated sets satisfy the worst-case rounding bound")
	needObs("X03", "bootstrapped outputs", 500)
	needObs("X03", "rotations", 500)
	needObs("X03", "table entries", 10000)
	needObs("X03", "modulus switches", 5000)
	reg("X03", "fixed32", vTwo, vAll, func(r *R) {
		for _, c := range x03Fixed[uint32]() {
			x03One(r, c, r.Pick(6, 60), 1<<20, r.Pick(6, 60), 64)
		}
	})
	reg("X03", "fixed64", vTwo, vAll, func(r *R) {
		for _, c := range x03Fixed[uint64]() {
			x03One(r, c, r.Pick(6, 60), 1<<20, r.Pick(6, 60), 64)
		}
	})
	reg("X03", "rand32", vAvx, vAll, func(r *R) {
		for i := 0; i < r.Pick(160, 240); i++ {
			x03One(r, x03Rand[uint32](r.Rng), 4, r.Pick(64, 1<<20), 4, 16)
		}
	})
	reg("X03", "rand64", vAvx, vAll, func(r *R) {
		for i := 0; i < r.Pick(160, 240); i++ {
			x03One(r, x03Rand[uint64](r.Rng), 4, r.Pick(64, 1<<20), 4, 16)
		}
	})
	reg("X03", "shipped", vAvx, vAll, func(r *R) {
		for _, l := range []xtfhe.ManyLUTParametersLiteral[uint32]{xtfhe.ParamsBinaryLUT2, xtfhe.ParamsBinaryCompactLUT2} {
			x03One(r, x03Cfg[uint32]{Cfg[uint32]{fmt.Sprintf("ParamsBinaryLUT2 order %d", l.BaseParams.BootstrapOrder), l.BaseParams}, l.LUTCount}, 2, r.Pick(6, 200), r.Pick(2, 12), 2)
		}
		x03One(r, x03Cfg[uint64]{Cfg[uint64]{"ParamsUint2LUT4", xtfhe.ParamsUint2LUT4.BaseParams}, xtfhe.ParamsUint2LUT4.LUTCount}, 2, r.Pick(6, 100), r.Pick(2, 12), 4)
		x03One(r, x03Cfg[uint64]{Cfg[uint64]{"ParamsUint3LUT2", xtfhe.ParamsUint3LUT2.BaseParams}, xtfhe.ParamsUint3LUT2.LUTCount}, 2, r.Pick(6, 100), r.Pick(2, 12), 8)
	})
	heavy("X03", "shipped", 10)
}
