package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// c09Key draws an input key: binary, ternary, or with larger coefficients.
func c09Key[T TI](r *R, n int) []T {
	v := make([]T, n)
	kind := r.Rng.IntN(3)
	for i := range v {
		switch kind {
		case 0:
			v[i] = T(r.Rng.IntN(2))
		case 1:
			v[i] = T(r.Rng.IntN(3)) - 1
		case 2:
			v[i] = T(r.Rng.IntN(13)) - 6
		}
	}
	return v
}

func c09Cfg[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	pe := poly.NewEvaluator[T](c.Lit.PolyRank)
	key := keyFor(params, enc.SecretKey)
	gkey := enc.SecretKey.GLWEKey.Value
	n, k, N := len(key), c.Lit.GLWERank, c.Lit.PolyRank
	w := logQ[T]()
	for i := 0; i < reps; i++ {
		logB := 1 + g.IntN(w/3)
		gd := gadOf[T](logB, 1+g.IntN(min(w/logB, 8)))
		base := float64(T(1) << gd.logB)
		dim := []int{1, 2, n, n - 1, n + 1, 2*n + 3, 1 + g.IntN(40)}[g.IntN(7)]
		if dim < 1 {
			dim = 1
		}
		in := c09Key[T](r, dim)
		r.Case(fmt.Sprintf("%s LWE %d->%d gadget %dx%d #%d", c.Name, dim, n, gd.logB, gd.level, i), func() {
			ksk := enc.GenLWEKeySwitchKey(tfhe.LWESecretKey[T]{Value: in}, gd.gp)
			var b budget
			for j := range in {
				l1, l2 := levErr(key, ksk.Value[j], gd, in[j])
				b.lev(gd.half(), base, absF(in[j]), signed(in[j])*signed(in[j]), l1, l2)
			}
			for rep := 0; rep < 3; rep++ {
				ct := dirtyLWE[T](g, dim)
				random := true
				if rep == 1 {
					random = false
					for j := range ct.Value {
						ct.Value[j] = edgeT[T](g)
					}
				}
				keep := ct.Copy()
				bd := b.bound(random, 0)
				want := refLWEPhase(in, ct.Value)
				o := ev.KeySwitchLWE(ct, ksk)
				e := absF(refLWEPhase(key, o.Value) - want)
				r.Obs("scalar switches", 1)
				r.Max("switch error / bound", e/bd)
				r.Check(e <= bd, "switched phase is %g off, bound %g", e, bd)
				o2 := dirtyLWE[T](g, n)
				ev.KeySwitchLWETo(o2, ct, ksk)
				r.Check(eqV(o.Value, o2.Value), "KeySwitchLWETo differs from KeySwitchLWE")
				r.Check(eqV(ct.Value, keep.Value), "the input changed")
				if dim == n {
					ev.KeySwitchLWETo(ct, ct, ksk)
					r.Check(eqV(o.Value, ct.Value), "KeySwitchLWETo over its input differs")
				}
			}
		})
		rank := []int{1, 2, k, k + 1, 3}[g.IntN(5)]
		gin := make([]poly.Poly[T], rank)
		for j := range gin {
			gin[j].Coeffs = c09Key[T](r, N)
		}
		r.Case(fmt.Sprintf("%s GLWE %d->%d gadget %dx%d #%d", c.Name, rank, k, gd.logB, gd.level, i), func() {
			ksk := enc.GenGLWEKeySwitchKey(tfhe.GLWESecretKey[T]{Value: gin}, gd.gp)
			r.Check(ksk.InputGLWERank() == rank, "input rank %d, want %d", ksk.InputGLWERank(), rank)
			var b budget
			for j := range gin {
				l1, l2 := glevErr(pe, gkey, ksk.Value[j], gd, gin[j].Coeffs)
				a1, a2 := norms(gin[j].Coeffs)
				b.lev(gd.half(), base, a1, a2, l1, l2)
			}
			keyw := 1.0
			for j := range gkey {
				a, _ := norms(gkey[j].Coeffs)
				keyw += a
			}
			fft := fftProdTol[T](N, gd.level*rank, base) * 2
			bd := b.bound(true, fft*keyw)
			ct := dirtyGLWE[T](g, rank, N)
			keep := ct.Copy()
			want := refGLWEPhase(gin, ct.Value)
			o := ev.KeySwitchGLWE(ct, ksk)
			e := maxDiff(refGLWEPhase(gkey, o.Value), want)
			r.Obs("ring switches", 1)
			r.Max("ring switch error / bound", e/bd)
			r.Check(e <= bd, "switched phase is %g off, bound %g", e, bd)
			o2 := dirtyGLWE[T](g, k, N)
			ev.KeySwitchGLWETo(o2, ct, ksk)
			r.Check(glweDiff(o, o2) <= fft, "KeySwitchGLWETo differs from KeySwitchGLWE")
			r.Check(glweDiff(ct, keep) == 0, "the input changed")
			if rank == k {
				ev.KeySwitchGLWETo(ct, ct, ksk)
				r.Check(glweDiff(o, ct) <= fft, "KeySwitchGLWETo over its input differs")
			}
		})
	}
	// the built-in switch
	for s := 0; s < 2; s++ {
		var ksk tfhe.LWEKeySwitchKey[T]
		if s == 0 {
			ksk = enc.GenDefaultKeySwitchKey()
		} else {
			ksk = enc.GenDefaultKeySwitchKeyParallel()
		}
		ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{KeySwitchKey: ksk})
		large, small := enc.SecretKey.LWELargeKey.Value, enc.SecretKey.LWEKey.Value
		kn := k * N
		gd := gadOf[T](bitLen(c.Lit.KeySwitchParams.Base)-1, c.Lit.KeySwitchParams.Level)
		r.Case(fmt.Sprintf("%s default switch %d", c.Name, s), func() {
			r.Check(len(ksk.Value) == kn-len(small), "%d rows in the switching key, want %d", len(ksk.Value), kn-len(small))
			var b budget
			for j := range ksk.Value {
				sk := large[len(small)+j]
				l1, l2 := levErr(small, ksk.Value[j], gd, sk)
				b.lev(gd.half(), float64(T(1)<<gd.logB), absF(sk), absF(sk), l1, l2)
			}
			for rep := 0; rep < reps; rep++ {
				ct := dirtyLWE[T](g, kn)
				random := true
				if rep%3 == 1 {
					random = false
					for j := range ct.Value {
						ct.Value[j] = edgeT[T](g)
					}
				}
				keep := ct.Copy()
				bd := b.bound(random, 0)
				o := ev.DefaultKeySwitch(ct)
				if !r.Check(len(o.Value) == len(small)+1, "output of dimension %d", len(o.Value)-1) {
					return
				}
				e := absF(refLWEPhase(small, o.Value) - refLWEPhase(large, ct.Value))
				r.Obs("default switches", 1)
				r.Max("default switch error / bound", e/bd)
				r.Check(e <= bd, "switched phase is %g off, bound %g", e, bd)
				o2 := dirtyLWE[T](g, len(small))
				ev.DefaultKeySwitchTo(o2, ct)
				r.Check(eqV(o.Value, o2.Value), "DefaultKeySwitchTo differs from DefaultKeySwitch")
				r.Check(eqV(ct.Value, keep.Value), "the input changed")
			}
		})
	}
}

func init() {
	about("C09", "a case is a freshly generated switching key from a random input key (dimensions 1 to 2n+3, ranks 1 to 4, binary, ternary or larger coefficients) under a random gadget, and ciphertexts uniform over the torus or made of edge values; the phase under the new key is compared with the one under the old key within a bound computed from the measured errors of the switching key; the built-in switch is judged the same way for sequentially and concurrently generated keys",
		"the parameter sets' default gadgets for the built-in switch")
	needObs("C09", "scalar switches", 400)
	needObs("C09", "ring switches", 200)
	needObs("C09", "default switches", 400)
	reg("C09", "fixed32", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c09Cfg(r, c, r.Pick(120, 1500))
		}
	})
	reg("C09", "fixed64", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c09Cfg(r, c, r.Pick(120, 1500))
		}
	})
	reg("C09", "shipped", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			c09Cfg(r, c, r.Pick(3, 20))
		}
		for _, c := range shipped64()[:3] {
			c09Cfg(r, c, r.Pick(2, 10))
		}
	})
}
