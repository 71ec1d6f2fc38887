package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func m06Use[T TI](r *R, m MCfg[T]) {
	r.SeedLib(m.Name)
	r.Case(m.Name+" in use", func() {
		p := m.Lit.Compile()
		p2 := through(r, p)
		if d := same(p.Literal(), p2.Literal()); d != "" {
			r.Fail("the literal differs at %s", d)
		}
		seed := []byte("reference string")
		n := m.Lit.PartyCount
		sks, sks2 := map[int]tfhe.SecretKey[T]{}, map[int]tfhe.SecretKey[T]{}
		ks, ks2 := map[int]mktfhe.EvaluationKey[T]{}, map[int]mktfhe.EvaluationKey[T]{}
		var es []*mktfhe.Encryptor[T]
		for i := 0; i < n; i++ {
			e := mktfhe.NewEncryptor(p, i, seed)
			es = append(es, e)
			sks[i], sks2[i] = e.SecretKey, through(r, e.SecretKey)
			ks[i] = e.GenEvalKeyParallel()
			ks2[i] = through(r, ks[i])
		}
		ev, ev2 := mktfhe.NewEvaluator(p, ks), mktfhe.NewEvaluator(p2, ks2)
		d2 := mktfhe.NewDecryptor(p2, sks2)
		M := int(m.Lit.SubParams.MessageModulus)
		for i := 0; i < n; i++ {
			ct := es[i].EncryptLWE(1)
			a, b := ev.BootstrapFunc(ct, func(x int) int { return x + 1 }), ev2.BootstrapFunc(through(r, ct), func(x int) int { return x + 1 })
			r.Check(eqV(a.Value, b.Value), "bootstrapping with deserialized objects gives another ciphertext")
			r.Check(d2.DecryptLWE(b) == 2%M, "message became %d", d2.DecryptLWE(b))
			g := es[i].EncryptGLWE([]int{1, 0, 1})
			u := es[i].FFTUniEncrypt([]int{1}, p.RelinKeyParameters())
			x, y := ev.HybridProdGLWE(i, u, g), ev2.HybridProdGLWE(i, through(r, u), through(r, g))
			for j := range x.Value {
				r.Check(eqV(x.Value[j].Coeffs, y.Value[j].Coeffs), "the product of deserialized operands differs")
			}
		}
	})
}

func m06Run[T TI](r *R) {
	for _, k := range valueKinds[T](true) {
		for i := -bigShapes; i < r.Pick(30, 300); i++ {
			serialRound(r, k, i)
		}
	}
	ms := fixedMulti[T]()
	for i := 0; i < r.Pick(2, 20); i++ {
		ms = append(ms, randMulti[T](r.Rng))
	}
	for _, m := range ms {
		m06Use(r, m)
	}
}

func init() {
	about("M06", "Cases: every serializable multi-key type in random shapes, judged as in C23; deserialized parameters, keys of all parties and ciphertexts replace the originals in multi-key bootstrapping and products, which must give bit-identical results.")
	needObs("M06", "round trips", 200)
	needObs("M06", "objects used after the round trip", 200)
	reg("M06", "values32", vTwo, vAll, func(r *R) { m06Run[uint32](r) })
	reg("M06", "values64", vTwo, vAll, func(r *R) { m06Run[uint64](r) })
	reg("M06", "shipped", vAvx, vAvx, func(r *R) {
		for i, m := range shippedMulti() {
			r.Case(fmt.Sprint("parameters ", m.Name), func() {
				p := m.Lit.Compile()
				q := through(r, p)
				if d := same(p.Literal(), q.Literal()); d != "" {
					r.Fail("the literal differs at %s", d)
				}
			})
			if r.Thorough && i == 0 {
				m06Use(r, m)
			}
		}
	})
}
