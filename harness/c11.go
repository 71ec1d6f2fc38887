package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/tfhe-go/tfhe"
)

func c11Luts[T TI](r *R, c Cfg[T], reps int) {
	g := r.Rng
	params := c.Lit.Compile()
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	N := c.Lit.PolyRank
	L := max(c.Lit.LUTSize, N)
	p0 := int(c.Lit.MessageModulus)
	scale0 := T(1) << (logQ[T]() - 1)
	if p0 > 0 {
		b := new(big.Int).Lsh(one, uint(logQ[T]()))
		b.Add(b, big.NewInt(int64(p0)))
		b.Div(b, big.NewInt(int64(2*p0))) // rounded Q/2p
		scale0 = T(b.Uint64())
	}
	dirty := func() tfhe.LookUpTable[T] {
		o := tfhe.NewLUT(params)
		for i := range o.Value {
			o.Value[i] = dirtyPoly[T](g, N)
		}
		return o
	}
	for i := 0; i < reps; i++ {
		p := p0
		if i > 0 {
			p = 2 + g.IntN(max(L/4-1, 1))
			if g.IntN(2) == 0 {
				p = 1 << g.IntN(bitLen(uint64(L/4)))
			}
			if 4*p > L {
				p = 2
			}
		}
		scale := T(g.Uint64()) >> g.IntN(logQ[T]())
		r.Case(fmt.Sprintf("%s table p=%d scale=%d", c.Name, p, scale), func() {
			vals := make([]int, p)
			raws := make([]T, p)
			for j := range vals {
				vals[j] = int(g.Uint64()) >> g.IntN(63)
				raws[j] = edgeT[T](g)
			}
			calls := make([]int, p)
			f := func(x int) int {
				if x < 0 || x >= p {
					panic(fmt.Sprintf("function called with %d outside [0,%d)", x, p))
				}
				calls[x]++
				return vals[x]
			}
			ff := func(x int) T {
				f(x)
				return raws[x]
			}
			enc := func(p int, scale T) func(m int) T {
				return func(m int) T { return T(refReduce(vals[m], uint64(p))) * scale }
			}
			raw := func(m int) T { return raws[m] }
			if i == 0 {
				c11Lut(r, "GenLUT", ev.GenLUT(f), L, p, enc(p, scale0))
				o := dirty()
				ev.GenLUTTo(o, f)
				c11Lut(r, "GenLUTTo", o, L, p, enc(p, scale0))
				c11Lut(r, "GenLUTFull", ev.GenLUTFull(ff), L, p, raw)
				o = dirty()
				ev.GenLUTFullTo(o, ff)
				c11Lut(r, "GenLUTFullTo", o, L, p, raw)
			}
			c11Lut(r, "GenLUTCustom", ev.GenLUTCustom(f, T(p), scale), L, p, enc(p, scale))
			o := dirty()
			ev.GenLUTCustomTo(o, f, T(p), scale)
			c11Lut(r, "GenLUTCustomTo", o, L, p, enc(p, scale))
			c11Lut(r, "GenLUTCustomFull", ev.GenLUTCustomFull(ff, T(p)), L, p, raw)
			o = dirty()
			ev.GenLUTCustomFullTo(o, ff, T(p))
			c11Lut(r, "GenLUTCustomFullTo", o, L, p, raw)
			for j := range calls {
				r.Check(calls[j] > 0, "the function was never asked for message %d", j)
			}
			r.Obs("tables", 4)
		})
	}
}

// c11ModSwitch compares the modulus switch with exact rounding.
func c11ModSwitch[T TI](r *R, c Cfg[T], reps int) {
	params := c.Lit.Compile()
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	L := max(c.Lit.LUTSize, c.Lit.PolyRank)
	q := new(big.Int).Lsh(one, uint(logQ[T]()))
	r.Case(c.Name+" modulus switch", func() {
		for i := 0; i < reps; i++ {
			x := edgeT[T](r.Rng)
			if i%2 == 0 { // around the rounding boundaries
				t := new(big.Int).Mul(q, big.NewInt(int64(2*r.Rng.IntN(2*L)+1)))
				t.Div(t, big.NewInt(int64(4*L)))
				x = T(t.Uint64()) + T(r.Rng.IntN(5)) - 2
			}
			got := ev.ModSwitch(x)
			// |got*Q - x*2L| <= Q/2 modulo 2L*Q, with slack for doubles
			d := new(big.Int).Mul(big.NewInt(int64(got)), q)
			d.Sub(d, new(big.Int).Mul(bigOf(uint64(x)), big.NewInt(int64(2*L))))
			m := new(big.Int).Mul(q, big.NewInt(int64(2*L)))
			d.Mod(d, m)
			if e := new(big.Int).Sub(m, d); e.Cmp(d) < 0 {
				d = e
			}
			lim := new(big.Int).Rsh(q, 1)
			lim.Add(lim, new(big.Int).Rsh(new(big.Int).Mul(q, big.NewInt(int64(2*L))), 52))
			r.Obs("modulus switches", 1)
			if got < 0 || got >= 2*L || d.Cmp(lim) > 0 {
				r.Fail("%d switches to %d of %d", x, got, 2*L)
				return
			}
		}
	})
}

// c11Rotate sweeps blind rotation over phases with a table whose value reveals the index.
func c11Rotate[T TI](r *R, c Cfg[T], sweep, rnd int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{BlindRotateKey: enc.GenBlindRotateKeyParallel()})
	key, gkey := enc.SecretKey.LWEKey.Value, enc.SecretKey.GLWEKey.Value
	N := c.Lit.PolyRank
	L := max(c.Lit.LUTSize, N)
	w := logQ[T]()
	q := new(big.Int).Lsh(one, uint(w))
	est := params.EstimateBlindRotateStdDev()
	tol := 9*2.5*est + 4
	at := func(t int) T { // the torus value whose switch is exactly t
		b := new(big.Int).Mul(q, big.NewInt(int64(posMod(t, 2*L))))
		b.Add(b, big.NewInt(int64(L)))
		b.Div(b, big.NewInt(int64(2*L)))
		return T(b.Uint64())
	}
	lut := tfhe.NewLUT(params)
	// random entries: any wrong index gives another value with overwhelming probability
	for i := range lut.Value {
		for j := range lut.Value[i].Coeffs {
			lut.Value[i].Coeffs[j] = T(g.IntN(1<<16)) << (w - 16)
		}
	}
	keep := lut.Copy()
	var phis []int
	if sweep >= 2*L {
		for i := 0; i < 2*L; i++ {
			phis = append(phis, i)
		}
	} else {
		phis = []int{0, 1, L - 1, L, L + 1, 2*L - 1}
		for len(phis) < sweep {
			phis = append(phis, g.IntN(2*L))
		}
	}
	for _, phi := range phis {
		r.Case(fmt.Sprintf("%s phase %d/%d", c.Name, phi, 2*L), func() {
			ct := tfhe.LWECiphertext[T]{Value: make([]T, len(key)+1)}
			tb := phi
			kind := g.IntN(3)
			ts := make([]int, len(key))
			for i := range key {
				t := g.IntN(2 * L)
				switch kind {
				case 1:
					t = 0
				case 2:
					t = []int{0, 1, L, 2*L - 1, len(lut.Value), L - 1}[g.IntN(6)]
				}
				ts[i] = t
			}
			craftVec(g, ts)
			for i, t := range ts {
				ct.Value[i+1] = at(t)
				tb -= t * int(key[i])
			}
			ct.Value[0] = at(tb)
			was := append([]T(nil), ct.Value...)
			o := dirtyGLWE[T](g, c.Lit.GLWERank, N)
			if g.IntN(2) == 0 {
				o = ev.BlindRotate(ct, lut)
			} else {
				ev.BlindRotateTo(o, ct, lut)
			}
			ph := refGLWEPhase(gkey, o.Value)
			want := make([]T, N)
			for i := range want {
				want[i] = c11Table(lut, phi+i*len(lut.Value))
			}
			e := maxDiff(ph, want)
			r.Max("error / estimated deviation", e/(est+1))
			r.Obs("rotations", 1)
			r.Check(e <= tol, "rotated table is off by %g (constant coefficient %d, want %d; tolerance %g)", e, ph[0], want[0], tol)
			r.Check(eqV(was, ct.Value), "the ciphertext changed")
		})
	}
	for i := range lut.Value {
		r.Check(eqV(lut.Value[i].Coeffs, keep.Value[i].Coeffs), "%s: the table changed", c.Name)
	}
	// arbitrary masks: the index read off the result stays within the rounding of the phase
	step := T(new(big.Int).Div(q, big.NewInt(int64(8*L))).Uint64())
	if float64(step) < 4*tol {
		return
	}
	for i := range lut.Value {
		for j := range lut.Value[i].Coeffs {
			lut.Value[i].Coeffs[j] = step/2 + step*T(j*len(lut.Value)+i)
		}
	}
	h := 1.0
	for _, s := range key {
		h += float64(s)
	}
	for i := 0; i < rnd; i++ {
		r.Case(fmt.Sprintf("%s mask %d", c.Name, i), func() {
			ct := dirtyLWE[T](g, len(key))
			if g.IntN(4) == 0 {
				for j := range ct.Value {
					ct.Value[j] = edgeT[T](g)
				}
			}
			o := ev.BlindRotate(ct, lut)
			ph := refGLWEPhase(gkey, o.Value)[0]
			// value of entry x: step/2 + step*x; negated above L
			var x float64
			if ph>>(w-1) == 0 {
				x = math.Floor(float64(ph) / float64(step))
			} else {
				x = math.Floor(float64(-ph)/float64(step)) + float64(L)
			}
			exact := float64(refLWEPhase(key, ct.Value)) * 2 * float64(L) / math.Exp2(float64(w))
			d := math.Mod(math.Abs(x-exact), 2*float64(L))
			d = math.Min(d, 2*float64(L)-d)
			r.Max("rounding of the phase / bound", d/(h/2))
			r.Obs("roundings", 1)
			r.Check(d <= h/2+0.001, "phase index %g reads entry %g: further than the rounding of %g terms allows", exact, x, h)
		})
	}
}

func init() {
	about("C11", "tables: a case is a message modulus (default, power of two or not, up to a quarter of the table), scale and random function with outputs over the whole integer range; every entry farther than one index from an interval boundary must hold the encoded value, negated in the upper half; rotations: a case is a phase index (all 2L for the small sets) with random, zero and corner masks; the whole rotated table is compared with the schoolbook one; masks that do not switch exactly must read an entry within the accumulated rounding of the phase",
		"message moduli of at most a quarter of the table size")
	needObs("C11", "table entries", 50000)
	needObs("C11", "rotations", 2000)
	needObs("C11", "roundings", 500)
	reg("C11", "fixed32", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c11Luts(r, c, r.Pick(12, 100))
			c11ModSwitch(r, c, r.Pick(3000, 100000))
			c11Rotate(r, c, 1<<20, r.Pick(60, 2000))
		}
	})
	reg("C11", "fixed64", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c11Luts(r, c, r.Pick(12, 100))
			c11ModSwitch(r, c, r.Pick(3000, 100000))
			c11Rotate(r, c, 1<<20, r.Pick(60, 2000))
		}
	})
	reg("C11", "rand32", vAvx, vAll, func(r *R) {
		for i := 0; i < r.Pick(25, 300); i++ {
			c := randCfg[uint32](r.Rng)
			c11Luts(r, c, 5)
			c11ModSwitch(r, c, 1000)
			c11Rotate(r, c, r.Pick(200, 1<<20), 40)
		}
	})
	reg("C11", "rand64", vAvx, vAll, func(r *R) {
		for i := 0; i < r.Pick(25, 300); i++ {
			c := randCfg[uint64](r.Rng)
			c11Luts(r, c, 5)
			c11ModSwitch(r, c, 1000)
			c11Rotate(r, c, r.Pick(200, 1<<20), 40)
		}
	})
	reg("C11", "shipped", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			c11Luts(r, c, r.Pick(4, 40))
			c11Rotate(r, c, r.Pick(12, 300), r.Pick(6, 100))
		}
		for i, c := range shipped64() {
			c11Luts(r, c, r.Pick(3, 20))
			c11ModSwitch(r, c, r.Pick(3000, 100000))
			if i < 3 || r.Thorough {
				c11Rotate(r, c, r.Pick(8, 100), r.Pick(4, 40))
			}
		}
	})
}
