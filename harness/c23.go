package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/tfhe"
)

// c23Use uses deserialized parameters, keys and ciphertexts in place of the originals.
func c23Use[T TI](r *R, c Cfg[T]) {
	r.SeedLib(c.Name)
	r.Case(c.Name+" in use", func() {
		p := c.Lit.Compile()
		e := tfhe.NewEncryptor(p)
		p2 := through(r, p)
		sk2 := through(r, e.SecretKey)
		e2 := tfhe.NewEncryptorWithKey(p2, sk2)
		k := e.GenEvalKeyParallel()
		k2 := through(r, k)
		ev, ev2 := tfhe.NewEvaluator(p, k), tfhe.NewEvaluator(p2, k2)
		M := int(c.Lit.MessageModulus)
		for m := 0; m < min(M, 4); m++ {
			ct := e.EncryptLWE(m)
			ct2 := through(r, ct)
			a, b := ev.BootstrapFunc(ct, func(x int) int { return x + 1 }), ev2.BootstrapFunc(ct2, func(x int) int { return x + 1 })
			r.Check(eqV(a.Value, b.Value), "bootstrapping with deserialized parameters, key and input gives another ciphertext")
			r.Check(e2.DecryptLWE(b) == (m+1)%M, "message %d became %d", m, e2.DecryptLWE(b))
			f := e2.EncryptLWE(m)
			r.Check(e.DecryptLWE(f) == m, "the deserialized key encrypts %d as %d", m, e.DecryptLWE(f))
		}
		// changing a view of the deserialized key changes the others, as in the original
		sk2.LWELargeKey.Value[0] ^= 1
		r.Check(sk2.LWEKey.Value[0] == sk2.LWELargeKey.Value[0] && sk2.GLWEKey.Value[0].Coeffs[0] == sk2.LWELargeKey.Value[0], "the views of the deserialized key are detached")
		sk2.LWELargeKey.Value[0] ^= 1
		gp := gadOf[T](4, 3).gp
		gg := e.EncryptFFTGGSW([]int{1}, gp)
		ct := e.EncryptGLWE([]int{1, 0, 1})
		a, b := ev.ExternalProdGLWE(gg, ct), ev2.ExternalProdGLWE(through(r, gg), through(r, ct))
		r.Check(glweDiff(a, b) == 0, "the product of deserialized operands differs")
		ks := e2.GenLWEKeySwitchKey(e.DefaultLWESecretKey(), gp)
		lw := e.EncryptLWE(1)
		x, y := ev.KeySwitchLWE(lw, ks), ev2.KeySwitchLWE(lw, through(r, ks))
		r.Check(eqV(x.Value, y.Value), "switching with a deserialized key differs")
		if c.Lit.BootstrapOrder == oKS {
			pe := tfhe.NewPublicEncryptor(p2, through(r, e.GenPublicKey()))
			r.Check(e.DecryptLWE(pe.EncryptLWE(1)) == 1, "the deserialized public key encrypts something else")
		}
	})
}

func c23Run[T TI](r *R) {
	for _, k := range valueKinds[T](false) {
		for i := -bigShapes; i < r.Pick(12, 300); i++ {
			serialRound(r, k, i)
		}
	}
	cs := fixedCfgs[T]()
	for i := 0; i < r.Pick(4, 60); i++ {
		cs = append(cs, randCfg[T](r.Rng))
	}
	for _, c := range cs {
		c23Use(r, c)
	}
}

// c23Lit: parameters survive serialization whatever their order, block and extension.
func c23Params[T TI](r *R, cs []Cfg[T]) {
	for i, c := range cs {
		r.Case(fmt.Sprintf("%s parameters %d", c.Name, i), func() {
			p := c.Lit.Compile()
			q := through(r, p)
			if d := same(p.Literal(), q.Literal()); d != "" {
				r.Fail("the literal differs at %s", d)
			}
		})
	}
}

func init() {
	about("C23", "Cases: every serializable single-key type in random shapes with random and edge contents (zeros of both signs, infinities, subnormals); written, read into fresh, used and differently shaped targets through whole, one-byte, random and EOF-carrying readers and from the middle of a stream, compared bit by bit with a reflective clone; deserialized parameters, keys and ciphertexts are then used in place of the originals and must give bit-identical results.")
	needObs("C23", "round trips", 1000)
	needObs("C23", "objects used after the round trip", 300)
	reg("C23", "values32", vTwo, vAll, func(r *R) { c23Run[uint32](r) })
	reg("C23", "values64", vTwo, vAll, func(r *R) { c23Run[uint64](r) })
	reg("C23", "shipped", vAvx, vAvx, func(r *R) {
		c23Params(r, shipped32())
		c23Params(r, shipped64())
		c23Use(r, shipped32()[0])
		if r.Thorough {
			c23Use(r, shipped32()[2])
			c23Use(r, shipped64()[1])
		}
	})
}
