package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// x02Indices draws odd automorphism indices: all those of the packing chain, and indices of any size and sign.
func x02Indices(r *R, N, n int) []int {
	g := r.Rng
	out := []int{1, -1, 3, 5, N + 1, N - 1, 2*N - 1, 2*N + 1, 2*N + 3, -5, -N - 1, 5*N + 7, -2*N - 3, 12345*2*N + 9}
	for len(out) < n {
		d := 2*g.IntN(N) + 1
		if g.IntN(3) == 0 {
			d += (g.IntN(41) - 20) * 2 * N
		}
		out = append(out, d)
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(n, len(out))]
}

func permKey[T TI](key []poly.Poly[T], d int) []poly.Poly[T] {
	var o []poly.Poly[T]
	for i := range key {
		o = append(o, poly.Poly[T]{Coeffs: autoPoly(key[i].Coeffs, d)})
	}
	return o
}

func x02Cfg[T TI](r *R, c Cfg[T], gd *gad[T], nIdx, reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	w := newBfvWorld(r, c)
	if gd != nil {
		w.gd = *gd
	}
	k, N, p := c.Lit.GLWERank, c.Lit.PolyRank, c.Lit.MessageModulus
	scale := divRoundQ(p)
	base := float64(T(1) << w.gd.logB)
	std := glweStd(c.Lit)
	_, kw := keyWeight(w.key)
	kl1, _ := keyWeight(w.key)
	fft := fftProdTol[T](N, w.gd.level*k, base) * 2
	logN := bitLen(uint64(N)) - 1
	idx := x02Indices(r, N, nIdx)
	evk := xtfhe.BFVEvaluationKey[T]{}
	way := g.IntN(4)
	extra := 2*N + 5 // present in the map before generation
	var sentinel tfhe.GLWEKeySwitchKey[T]
	name := fmt.Sprintf("%s gadget %dx%d way %d", c.Name, w.gd.logB, w.gd.level, way)
	gens := func() bool {
		ok := true
		r.Case(name+" keys", func() {
			ok = false
			var all []int
			for i := 1; i <= logN; i++ {
				all = append(all, 1<<i+1)
			}
			all = append(all, idx...)
			switch way {
			case 0:
				evk.GaloisKeys = w.kg.GenGaloisKeys(all, w.gd.gp)
			case 1: // over existing entries
				evk.GaloisKeys = map[int]tfhe.GLWEKeySwitchKey[T]{3: dirtyGLWEKSK(g, k, k, N, w.gd.gp), all[len(all)-1]: dirtyGLWEKSK(g, k, k, N, w.gd.gp)}
				w.kg.GenGaloisKeysTo(evk.GaloisKeys, all, w.gd.gp)
			case 2:
				evk = w.kg.GenEvalKey(all, w.gd.gp)
			case 3:
				evk.GaloisKeys = w.kg.GenGaloisKeysForPack(w.gd.gp)
				r.Check(len(evk.GaloisKeys) == logN, "%d packing keys, want %d", len(evk.GaloisKeys), logN)
				if g.IntN(2) == 0 {
					evk.GaloisKeys = map[int]tfhe.GLWEKeySwitchKey[T]{}
					sentinel = dirtyGLWEKSK(g, k, k, N, w.gd.gp)
					evk.GaloisKeys[-extra] = sentinel
					w.kg.GenGaloisKeysForPackTo(evk.GaloisKeys, w.gd.gp)
					r.Check(len(evk.GaloisKeys) == logN+1, "%d packing keys besides one present, want %d", len(evk.GaloisKeys)-1, logN)
					r.Check(same(sentinel, evk.GaloisKeys[-extra]) == "", "an unrelated entry of the map changed")
				}
				for i := 1; i <= logN; i++ {
					_, has := evk.GaloisKeys[1<<i+1]
					r.Check(has, "no packing key for %d", 1<<i+1)
				}
				w.kg.GenGaloisKeysTo(evk.GaloisKeys, idx, w.gd.gp)
			}
			for _, d := range all {
				_, has := evk.GaloisKeys[d]
				r.Check(has, "no key for %d", d)
			}
			ok = true
		})
		return ok
	}
	if !gens() {
		return
	}
	budgets := map[int]budget{}
	for d, key := range evk.GaloisKeys {
		if d == -extra {
			continue
		}
		okd := false
		r.Case(fmt.Sprintf("%s key %d", name, d), func() {
			b, ok := kskBudget(r, fmt.Sprintf("Galois key %d", d), w.pe, w.key, permKey(w.key, d), key, w.gd, std)
			budgets[d], okd = b, ok
		})
		if !okd {
			return
		}
	}
	ev := xtfhe.NewBFVEvaluator(w.params, evk)
	if g.IntN(2) == 0 {
		ev = ev.SafeCopy()
	}
	for _, d := range idx {
		r.Case(fmt.Sprintf("%s index %d", name, d), func() {
			b := budgets[d].bound(true, 4*fft*kw)
			for rep := 0; rep < reps; rep++ {
				m := make([]int, N)
				switch rep % 3 {
				case 0:
					for j := range m {
						m[j] = g.IntN(int(p))
					}
				case 1:
					m[g.IntN(N)] = 1 + g.IntN(int(p)-1)
				case 2:
					for j := range m {
						m[j] = int(p) - 1
					}
				}
				ct := w.enc.EncryptGLWE(m)
				bound, msg := b, true
				switch g.IntN(5) {
				case 0:
					ct, msg = dirtyGLWE[T](g, k, N), false
				case 1: // a sparse ciphertext: rounding errors do not average out
					ct, msg = tfhe.NewGLWECiphertext(w.params), false
					for i := range ct.Value {
						ct.Value[i].Coeffs[g.IntN(N)] = T(g.Uint64())
					}
					bound = budgets[d].bound(false, 4*fft*kw)
				}
				before := ct.Copy()
				o := ev.Permute(ct, d)
				r.Check(same(before, ct) == "", "Permute changed its input")
				want := autoPoly(refGLWEPhase(w.key, ct.Value), d)
				e := maxDiff(refGLWEPhase(w.key, o.Value), want)
				r.Max("permutation error / bound", e/bound)
				r.Check(e <= bound, "index %d: permuted phase is %g off, bound %g, step %g", d, e, bound, float64(scale))
				o2 := dirtyGLWE[T](g, k, N)
				ev.PermuteTo(o2, ct, d)
				r.Check(glweDiff(o, o2) <= 4*fft, "PermuteTo differs from Permute by %g", glweDiff(o, o2))
				ev.PermuteTo(ct, ct, d)
				r.Check(glweDiff(o, ct) <= 4*fft, "PermuteTo in place differs by %g", glweDiff(o, ct))
				r.Obs("permutations", 1)
				if msg && b+10*std < float64(scale)/2 {
					dm := w.enc.DecryptGLWE(o)
					ref := autoPoly(toT[T](m), d)
					for j := range dm {
						x := int(int64(signed(ref[j])))
						if x = ((x % int(p)) + int(p)) % int(p); dm[j] != x {
							if p&(p-1) != 0 && signed(ref[j]) < 0 { // wraps modulo 2p
								continue
							}
							r.Fail("index %d: coefficient %d decrypts to %d, want %d", d, j, dm[j], x)
							break
						}
					}
					r.Obs("permuted messages", 1)
				}
			}
		})
	}
	// permutations compose
	r.Case(name+" composition", func() {
		d1, d2 := idx[g.IntN(len(idx))], idx[g.IntN(len(idx))]
		ct := dirtyGLWE[T](g, k, N)
		o := ev.Permute(ev.Permute(ct, d1), d2)
		want := autoPoly(autoPoly(refGLWEPhase(w.key, ct.Value), d1), d2)
		bound := budgets[d1].bound(true, 4*fft*kw) + budgets[d2].bound(true, 4*fft*kw)
		e := maxDiff(refGLWEPhase(w.key, o.Value), want)
		r.Check(e <= bound, "indices %d then %d: %g off, bound %g", d1, d2, e, bound)
	})
	r.Case(name+" missing key", func() {
		d := 0
		for x := 3; ; x += 2 {
			if _, has := evk.GaloisKeys[x]; !has {
				d = x
				break
			}
		}
		pan, _ := Panics(func() { ev.Permute(dirtyGLWE[T](g, k, N), d) })
		r.Check(pan, "no panic for index %d without a key", d)
		r.Obs("missing keys", 1)
	})
	// packing
	packBound := func(random bool) float64 {
		t := 0.0
		for i := 1; i <= logN; i++ {
			t += budgets[1<<i+1].bound(random, 4*fft*kw) + kl1 + 2
		}
		return t
	}
	large := w.enc.SecretKey.LWELargeKey.Value
	for rep := 0; rep < 2*reps+6; rep++ {
		r.Case(fmt.Sprintf("%s packing %d", name, rep), func() {
			m := g.IntN(int(p))
			ct := tfhe.NewLWECiphertextCustom[T](k * N)
			random, msg := true, true
			kind := g.IntN(5)
			switch kind {
			case 0: // an encryption under the large key
				for i := 1; i < len(ct.Value); i++ {
					ct.Value[i] = T(g.Uint64())
				}
				ct.Value[0] = T(m)*scale - refLWEPhase(large, ct.Value)
				ct.Value[0] += T(int64(g.NormFloat64() * std))
			case 1: // extracted from a ring ciphertext
				pm := make([]int, N)
				j := g.IntN(N)
				pm[j] = m
				w.enc.EncryptGLWE(pm).AsLWECiphertextTo(j, ct)
			case 2: // arbitrary
				for i := range ct.Value {
					ct.Value[i] = T(g.Uint64())
				}
				msg = false
			case 3: // trivial
				random = false
				ct.Value[0] = T(m) * scale
			case 4: // sparse
				random, msg = false, false
				for i := 0; i < 3; i++ {
					ct.Value[g.IntN(len(ct.Value))] = T(g.Uint64())
				}
			}
			bound := packBound(random)
			before := ct.Copy()
			o := ev.Pack(ct)
			r.Check(same(before, ct) == "", "Pack changed its input")
			ph := refGLWEPhase(w.key, o.Value)
			want := make([]T, N)
			want[0] = refLWEPhase(large, ct.Value)
			e := maxDiff(ph, want)
			r.Max("packing error / bound", e/bound)
			r.Check(e <= bound, "kind %d: packed phase is %g off, bound %g, step %g", kind, e, bound, float64(scale))
			o2 := dirtyGLWE[T](g, k, N)
			ev.PackTo(o2, ct)
			r.Check(glweDiff(o, o2) <= 4*fft*float64(logN+1), "PackTo differs from Pack by %g", glweDiff(o, o2))
			r.Obs("packings", 1)
			if msg && bound+10*std < float64(scale)/2 {
				dm := w.enc.DecryptGLWE(o)
				r.Check(dm[0] == m, "packed message %d decrypts to %d", m, dm[0])
				for j := 1; j < N; j++ {
					if dm[j] != 0 {
						r.Fail("coefficient %d of a packed message decrypts to %d, want 0", j, dm[j])
						break
					}
				}
				r.Obs("packed messages", 1)
			}
		})
	}
}

func x02Run[T TI](r *R) {
	for _, c := range bfvCfgs[T](r, r.Pick(12, 40)) {
		for i := 0; i < r.Pick(3, 6); i++ {
			x02Cfg(r, c, nil, r.Pick(16, 40), r.Pick(6, 10))
		}
	}
	if r.Thorough { // every odd index once
		for _, N := range []int{16, 32, 64} {
			c := bfvCfgs[T](r, 0)[0]
			c.Lit.PolyRank, c.Lit.LUTSize = N, N
			x02Cfg(r, Cfg[T]{fmt.Sprintf("all indices N%d", N), c.Lit}, nil, 14+4*N, 2)
		}
	}
}

func init() {
	about("X02", "Cases: automorphisms by odd indices of any size and sign (packing chain, +-1, N+-1, 2N+-1, far multiples), keys generated in every way (fresh map, over existing entries, with the evaluation key, packing keys); keys opened row by row against the permuted secret; phases of permuted encryptions, of arbitrary and of sparse ciphertexts compared with the permuted phase; packing of encrypted, extracted, trivial, sparse and arbitrary scalar ciphertexts compared with the constant polynomial of their phase; all within bounds computed from the opened keys; in place and dirty outputs.",
		"even indices are rejected by the library and not used",
		"ring keys of packing: scalar ciphertexts must be under the large key")
	needObs("X02", "permutations", 200)
	needObs("X02", "permuted messages", 100)
	needObs("X02", "packings", 80)
	needObs("X02", "packed messages", 30)
	needObs("X02", "missing keys", 5)
	reg("X02", "small32", vTwo, vAll, func(r *R) { x02Run[uint32](r) })
	reg("X02", "small64", vTwo, vAll, func(r *R) { x02Run[uint64](r) })
	reg("X02", "shipped", vAvx, vAll, func(r *R) {
		l := xtfhe.ParamsBFVKeySwitchLogN11
		gd := gadOf[uint64](bitLen(l.Base)-1, l.Level)
		for i := 0; i < r.Pick(2, 6); i++ {
			x02Cfg(r, Cfg[uint64]{"ParamsUint3", tfhe.ParamsUint3}, &gd, r.Pick(6, 10), r.Pick(1, 3))
		}
	})
}
