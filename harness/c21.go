package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// c21Secret checks the structure of one secret key.
func c21Secret[T TI](r *R, c Cfg[T], sk tfhe.SecretKey[T], blocks, tail []int) {
	n, k, N, bs := c.Lit.LWEDimension, c.Lit.GLWERank, c.Lit.PolyRank, max(1, c.Lit.BlockSize)
	if !r.Check(len(sk.LWELargeKey.Value) == k*N && len(sk.LWEKey.Value) == n && len(sk.GLWEKey.Value) == k && len(sk.FFTGLWEKey.Value) == k,
		"key of lengths %d, %d, %d, %d", len(sk.LWELargeKey.Value), len(sk.LWEKey.Value), len(sk.GLWEKey.Value), len(sk.FFTGLWEKey.Value)) {
		return
	}
	pe := poly.NewEvaluator[T](N)
	for i, x := range sk.LWELargeKey.Value {
		if x != 0 && x != 1 {
			r.Fail("key entry %d is %d", i, x)
			return
		}
		if i < n && sk.LWEKey.Value[i] != x {
			r.Fail("entry %d of the small key is not entry %d of the large one", i, i)
			return
		}
		if sk.GLWEKey.Value[i/N].Coeffs[i%N] != x {
			r.Fail("coefficient %d of ring component %d is not entry %d of the large key", i%N, i/N, i)
			return
		}
		if i >= n {
			tail[x]++
		}
	}
	for i := range sk.FFTGLWEKey.Value {
		// the same polynomial, up to the rounding of the transform
		w := pe.FwdFFT(sk.GLWEKey.Value[i])
		d := 0.0
		for j := range w.Coeffs {
			d = math.Max(d, math.Abs(w.Coeffs[j]-sk.FFTGLWEKey.Value[i].Coeffs[j]))
		}
		r.Check(d < 1e-3, "Fourier component %d differs from the ring component by %g", i, d)
		r.Check(len(w.Coeffs) == len(sk.FFTGLWEKey.Value[i].Coeffs), "Fourier component of length %d", len(sk.FFTGLWEKey.Value[i].Coeffs))
	}
	for b := 0; b*bs < n; b++ {
		at := bs
		for j, x := range sk.LWEKey.Value[b*bs : (b+1)*bs] {
			if x == 1 && at < bs {
				r.Fail("block %d of the key holds two ones", b)
				return
			}
			if x == 1 {
				at = j
			}
		}
		blocks[at]++
	}
	r.Obs("secret keys", 1)
}

type c21St[T TI] struct {
	br, ks, klwe, kglwe, pk stat
}

func c21Cfg[T TI](r *R, c Cfg[T], secrets, evals, rows int, st *c21St[T]) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	n, k, N, bs := c.Lit.LWEDimension, c.Lit.GLWERank, c.Lit.PolyRank, max(1, c.Lit.BlockSize)
	blocks, tail := make([]int, bs+1), make([]int, 2)
	enc := tfhe.NewEncryptor(params)
	var prev []T
	for i := 0; i < secrets; i++ {
		r.Case(fmt.Sprintf("%s secret key %d", c.Name, i), func() {
			var sk tfhe.SecretKey[T]
			switch i % 3 {
			case 0:
				sk = enc.GenSecretKey()
			case 1:
				sk = tfhe.NewEncryptor(params).SecretKey
			case 2:
				sk = enc.SafeCopy().GenSecretKey()
			}
			c21Secret(r, c, sk, blocks, tail)
			if k*N >= 128 && bs < 4 {
				r.Check(!eqV(prev, sk.LWELargeKey.Value), "two generated keys are equal")
			}
			prev = sk.LWELargeKey.Value
			sk2 := enc.SecretKey
			r.Check(eqV(enc.DefaultLWESecretKey().Value, keyFor(params, sk2)), "the default key is not the one of the bootstrapping order")
		})
	}
	r.Case(c.Name+" key distribution", func() {
		chisq(r, "blocks", blocks, uniformProbs(bs+1))
		if k*N > n {
			chisq(r, "entries beyond the blocks", tail, uniformProbs(2))
		}
	})
	for i := 0; i < evals; i++ {
		r.Case(fmt.Sprintf("%s evaluation key %d", c.Name, i), func() {
			e := tfhe.NewEncryptor(params)
			keep := e.SecretKey.Copy()
			var ek tfhe.EvaluationKey[T]
			switch i % 5 {
			case 0:
				ek = e.GenEvalKey()
			case 1:
				ek = e.GenEvalKeyParallel()
			case 2:
				ek = tfhe.EvaluationKey[T]{BlindRotateKey: e.GenBlindRotateKey(), KeySwitchKey: e.GenDefaultKeySwitchKeyParallel()}
			case 3:
				ek = tfhe.EvaluationKey[T]{BlindRotateKey: e.SafeCopy().GenBlindRotateKeyParallel(), KeySwitchKey: e.SafeCopy().GenDefaultKeySwitchKey()}
			case 4:
				be := tfhe.NewBinaryEncryptorWithKey(params, e.SecretKey)
				ek = be.GenEvalKeyParallel()
			}
			evkCheck(r, c, keep, ek, rows, &st.br, &st.ks)
			// custom key switching keys
			gp := randGadget[T](g, 0)
			w := gadOf[T](gp.LogBase(), gp.Level())
			in := tfhe.LWESecretKey[T]{Value: make([]T, 1+g.IntN(20))}
			for j := range in.Value {
				in.Value[j] = T(g.IntN(3)) - 1
			}
			kk := e.GenLWEKeySwitchKey(in, gp)
			key := keyFor(params, keep)
			if r.Check(len(kk.Value) == len(in.Value) && kk.GadgetParams == gp, "custom key with %d entries, gadget %+v", len(kk.Value), kk.GadgetParams) {
				for j := range kk.Value {
					for l := range kk.Value[j].Value {
						st.klwe.add(signed(refLWEPhase(key, kk.Value[j].Value[l].Value) - in.Value[j]*w.q(l)))
					}
				}
			}
			ri := tfhe.NewGLWESecretKeyCustom[T](1+g.IntN(3), N)
			for j := range ri.Value {
				copy(ri.Value[j].Coeffs, smallPoly[T](r, N))
			}
			kg := e.GenGLWEKeySwitchKey(ri, gp)
			pe := poly.NewEvaluator[T](N)
			if r.Check(len(kg.Value) == len(ri.Value) && kg.InputGLWERank() == len(ri.Value) && kg.GadgetParams == gp, "custom ring key with %d entries", len(kg.Value)) {
				for j := range kg.Value {
					for l := range kg.Value[j].Value {
						ph := refGLWEPhase(keep.GLWEKey.Value, invFFTGLWE(pe, kg.Value[j].Value[l]).Value)
						for t := range ph {
							st.kglwe.add(signed(ph[t] - ri.Value[j].Coeffs[t]*w.q(l)))
						}
					}
				}
			}
			if c.Lit.BootstrapOrder == oKS {
				c06Pk(r, c, keep, e.GenPublicKey(), &st.pk)
			}
			r.Check(eqV(e.SecretKey.LWELargeKey.Value, keep.LWELargeKey.Value), "key generation changed the secret key")
			r.Obs("evaluation keys", 1)
		})
	}
}

// c06Pk measures the noise of every row of a public key.
func c06Pk[T TI](r *R, c Cfg[T], sk tfhe.SecretKey[T], pk tfhe.PublicKey[T], st *stat) {
	N, k := c.Lit.PolyRank, c.Lit.GLWERank
	rev := make([]poly.Poly[T], k)
	for i := range rev {
		rev[i] = poly.Poly[T]{Coeffs: make([]T, N)}
		for j, x := range sk.GLWEKey.Value[i].Coeffs {
			rev[i].Coeffs[N-1-j] = x
		}
	}
	if !r.Check(len(pk.LWEKey.Value) == k && len(pk.GLWEKey.Value) == k, "public key with %d and %d rows", len(pk.LWEKey.Value), len(pk.GLWEKey.Value)) {
		return
	}
	for i := 0; i < k; i++ {
		for _, x := range refGLWEPhase(rev, pk.LWEKey.Value[i].Value) {
			st.add(signed(x))
		}
		for _, x := range refGLWEPhase(sk.GLWEKey.Value, pk.GLWEKey.Value[i].Value) {
			st.add(signed(x))
		}
	}
	r.Obs("public keys", 1)
}

func (s *c21St[T]) judge(r *R, c Cfg[T]) {
	lw := c.Lit.LWEStdDev * math.Exp2(float64(logQ[T]()))
	s.br.declared(r, "blind rotation key", glweStd(c.Lit))
	s.ks.declared(r, "key switching key", lw)
	s.kglwe.declared(r, "custom ring key switching key", glweStd(c.Lit))
	s.pk.declared(r, "public key", glweStd(c.Lit))
}

func c21Small[T TI](r *R) {
	var loud, quiet c21St[T]
	cfgs := fixedCfgs[T]()
	for i := 0; i < r.Pick(24, 40); i++ {
		cfgs = append(cfgs, randCfg[T](r.Rng))
	}
	var o [2]c21St[T]
	for _, c := range cfgs {
		l := loudCfg(c)
		c21Cfg(r, l, r.Pick(24, 90), r.Pick(5, 10), 1<<30, &loud)
		i := 0
		if c.Lit.BootstrapOrder == oBR {
			i = 1
		}
		o[i].klwe.n += loud.klwe.n
		o[i].klwe.sum += loud.klwe.sum
		o[i].klwe.sq += loud.klwe.sq
		o[i].klwe.peak = max(o[i].klwe.peak, loud.klwe.peak)
		loud.klwe = stat{}
		c21Cfg(r, c, 3, 2, 1<<30, &quiet)
	}
	l := loudCfg(cfgs[0])
	loud.judge(r, l)
	l.Lit.BootstrapOrder = oKS
	o[0].klwe.declared(r, "custom key switching key (large key)", lweStd(l.Lit))
	l.Lit.BootstrapOrder = oBR
	o[1].klwe.declared(r, "custom key switching key (small key)", lweStd(l.Lit))
	if logQ[T]() == 32 {
		quiet.judge(r, cfgs[0])
	} else {
		lw := cfgs[0].Lit.LWEStdDev * math.Exp2(64)
		quiet.ks.declared(r, "key switching key", lw)
	}
}

func init() {
	about("C21", "Cases: secret keys and evaluation keys of random and shipped parameter sets from every generator (sequential, parallel, safe copy, binary wrapper, custom input keys); each component is decrypted by schoolbook arithmetic and compared with the secret it stands for, its error with the declared deviation; block outcomes and remaining bits are counted.",
		"blind-rotation rows of shipped sets are sampled in the quick tier")
	needObs("C21", "secret keys", 300)
	needObs("C21", "evaluation keys", 60)
	needObs("C21", "blind rotation rows", 2000)
	needObs("C21", "key switching rows", 2000)
	reg("C21", "small32", vTwo, vAll, func(r *R) { c21Small[uint32](r) })
	reg("C21", "small64", vTwo, vAll, func(r *R) { c21Small[uint64](r) })
	reg("C21", "shipped32", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			var st c21St[uint32]
			c21Cfg(r, c, r.Pick(10, 60), r.Pick(2, 5), r.Pick(60, 600), &st)
			st.judge(r, c)
			st.klwe.declared(r, "custom key switching key", lweStd(c.Lit))
		}
	})
	reg("C21", "shipped64", vAvx, vAll, func(r *R) {
		for i, c := range shipped64() {
			if !r.Thorough && i > 4 {
				continue
			}
			var st c21St[uint64]
			c21Cfg(r, c, r.Pick(6, 60), 1, r.Pick(40, 200), &st)
			lw := c.Lit.LWEStdDev * math.Exp2(64)
			st.ks.declared(r, "key switching key", lw)
			st.klwe.declared(r, "custom key switching key", lweStd(c.Lit))
		}
	})
	heavy("C21", "shipped64", 5)
}
