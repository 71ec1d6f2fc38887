package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// c10Shape extracts every (or many) index of ciphertexts of one shape.
func c10Shape[T TI](r *R, k, N, all int) {
	g := r.Rng
	for rep := 0; rep < 2; rep++ {
		// full-size key coefficients make every position of the extracted mask count
		sk := tfhe.NewGLWESecretKeyCustom[T](k, N)
		for i := range sk.Value {
			sk.Value[i] = dirtyPoly[T](g, N)
		}
		keepSk := sk.Copy()
		var lk tfhe.LWESecretKey[T]
		r.Case(fmt.Sprintf("u%d key k=%d N=%d #%d", logQ[T](), k, N, rep), func() {
			lk = sk.AsLWEKey()
			if !r.Check(len(lk.Value) == k*N, "derived key has dimension %d, want %d", len(lk.Value), k*N) {
				return
			}
			for i := 0; i < k*N; i++ {
				if lk.Value[i] != sk.Value[i/N].Coeffs[i%N] {
					r.Fail("entry %d of the derived key is not coefficient %d of component %d", i, i%N, i/N)
					break
				}
			}
			o := tfhe.LWESecretKey[T]{Value: randVec[T](g, k*N)}
			sk.AsLWEKeyTo(o)
			r.Check(eqV(o.Value, lk.Value), "AsLWEKeyTo differs from AsLWEKey")
			o.Value[0]++
			for i := range sk.Value {
				r.Check(eqV(sk.Value[i].Coeffs, keepSk.Value[i].Coeffs), "the ring key changed")
			}
			r.Obs("keys", 1)
		})
		if len(lk.Value) != k*N {
			continue
		}
		ct := dirtyGLWE[T](g, k, N)
		keep := ct.Copy()
		ph := refGLWEPhase(sk.Value, ct.Value)
		var idx []int
		if N <= all {
			for i := 0; i < N; i++ {
				idx = append(idx, i)
			}
		} else {
			idx = []int{0, 1, N/2 - 1, N / 2, N - 2, N - 1}
			for len(idx) < all {
				idx = append(idx, g.IntN(N))
			}
		}
		for _, i := range idx {
			r.Case(fmt.Sprintf("u%d k=%d N=%d index %d #%d", logQ[T](), k, N, i, rep), func() {
				o := ct.AsLWECiphertext(i)
				if !r.Check(len(o.Value) == k*N+1, "extracted ciphertext has length %d", len(o.Value)) {
					return
				}
				got := refLWEPhase(lk.Value, o.Value)
				r.Check(got == ph[i], "phase %d, want %d", got, ph[i])
				o2 := dirtyLWE[T](g, k*N)
				ct.AsLWECiphertextTo(i, o2)
				r.Check(eqV(o2.Value, o.Value), "AsLWECiphertextTo differs from AsLWECiphertext")
				r.Check(glweDiff(ct, keep) == 0, "the ring ciphertext changed")
				r.Obs("extractions", 1)
			})
		}
	}
}

// c10Enc extracts from real encryptions and decrypts with the library.
func c10Enc[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	k, N := c.Lit.GLWERank, c.Lit.PolyRank
	for _, how := range []string{"new", "given", "regenerated"} {
		enc := tfhe.NewEncryptor(params)
		switch how {
		case "given":
			enc = tfhe.NewEncryptorWithKey(params, enc.SecretKey.Copy())
		case "regenerated":
			enc = tfhe.NewEncryptorWithKey(params, enc.GenSecretKey())
		}
		r.Case(c.Name+" large key, encryptor "+how, func() {
			lk := enc.SecretKey.GLWEKey.AsLWEKey()
			r.Check(eqV(lk.Value, enc.SecretKey.LWELargeKey.Value), "the encryptor's large key is not the reinterpreted ring key")
			r.Check(len(enc.SecretKey.LWEKey.Value) == c.Lit.LWEDimension && eqV(enc.SecretKey.LWEKey.Value, lk.Value[:c.Lit.LWEDimension]), "the small key is not a prefix of the large one")
		})
		pe := poly.NewEvaluator[T](N)
		for i := 0; i < reps; i++ {
			r.Case(fmt.Sprintf("%s %s encryption %d", c.Name, how, i), func() {
				p := uint64(params.MessageModulus())
				ms := randIntVec(g, N, int(p))
				ct := enc.EncryptGLWE(ms)
				if g.IntN(2) == 0 {
					ct = invFFTGLWE(pe, enc.EncryptFFTGLWE(ms))
				}
				ph := refGLWEPhase(enc.SecretKey.GLWEKey.Value, ct.Value)
				idx := g.IntN(N)
				o := ct.AsLWECiphertext(idx)
				r.Check(refLWEPhase(enc.SecretKey.LWELargeKey.Value, o.Value) == ph[idx], "phase differs from coefficient %d", idx)
				if len(o.Value) == k*N+1 && c.Lit.BootstrapOrder == oKS {
					r.Check(enc.DecryptLWE(o) == ms[idx], "index %d decrypts to %d, want %d", idx, enc.DecryptLWE(o), ms[idx])
				}
				r.Obs("encrypted extractions", 1)
			})
		}
	}
}

func init() {
	about("C10", "a case is a ring ciphertext with uniform components under a key with uniform full-size coefficients (so every entry of the extracted mask matters), an index, a rank (1-4) and a ring size (16-2048); all indices are extracted up to 128, edges and random ones above; the extracted phase must equal the coefficient exactly")
	needObs("C10", "extractions", 2000)
	needObs("C10", "encrypted extractions", 100)
	reg("C10", "shapes", vTwo, vAll, func(r *R) {
		for _, k := range []int{1, 2, 3, 4} {
			for _, N := range []int{16, 32, 64, 128, 512, 1024, 2048, 4096, 8192} {
				c10Shape[uint32](r, k, N, r.Pick(300, 1024))
				c10Shape[uint64](r, k, N, r.Pick(300, 1024))
			}
		}
	})
	reg("C10", "encrypted", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c10Enc(r, c, r.Pick(40, 400))
		}
		for _, c := range fixedCfgs[uint64]() {
			c10Enc(r, c, r.Pick(40, 400))
		}
		for _, c := range shipped32() {
			c10Enc(r, c, r.Pick(10, 40))
		}
		for _, c := range shipped64()[:r.Pick(6, 7)] {
			c10Enc(r, c, r.Pick(10, 40))
		}
	})
}
