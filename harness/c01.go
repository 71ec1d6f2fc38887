package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/tfhe"
)

// pbsMonitor drives all bootstrapping entry points on all messages for one parameter set.
func pbsMonitor[T TI](r *R, name string, params tfhe.Parameters[T], enc *tfhe.Encryptor[T], evk tfhe.EvaluationKey[T], msgs []int, nRandom int) {
	ev := tfhe.NewEvaluator(params, evk)
	p := int(params.MessageModulus())
	sk := keyFor(params, enc.SecretKey)
	fns := fnSet(r.Rng, p, isPow2(p), nRandom)
	for fi, fn := range fns {
		lut := ev.GenLUT(fn.f)
		for _, m := range msgs {
			key := fmt.Sprintf("%s f=%s m=%d", name, fn.name, m)
			want := posMod(fn.f(posMod(m, p)), p)
			r.Case(key, func() {
				ct := enc.EncryptLWE(m)
				if r.Rng.IntN(2) == 0 {
					if how := recraft(r.Rng, sk, ct, params.LUTSize()); how != "" {
						r.Obs("special masks", 1)
					}
				}
				var outs []tfhe.LWECiphertext[T]
				switch (fi + m) % 4 {
				case 0:
					outs = append(outs, ev.BootstrapFunc(ct, fn.f))
				case 1:
					o := tfhe.NewLWECiphertext(params)
					for i := range o.Value {
						o.Value[i] = randT[T](r.Rng)
					}
					ev.BootstrapFuncTo(o, ct, fn.f)
					outs = append(outs, o)
				case 2:
					outs = append(outs, ev.BootstrapLUT(ct, lut))
				case 3:
					ev.BootstrapLUTTo(ct, ct, lut)
					outs = append(outs, ct)
				}
				for _, o := range outs {
					ph := refLWEPhase(sk, o.Value)
					got := refDecode(ph, params.Scale(), p)
					r.Obs("bootstraps", 1)
					r.Check(got == want, "decoded %d want %d (phase %d)", got, want, ph)
					r.Check(enc.DecryptLWE(o) == want, "library decryption %d want %d", enc.DecryptLWE(o), want)
				}
			})
		}
	}
}

func c01Cfg[T TI](r *R, c Cfg[T], nRandom int) {
	r.SeedLib(c.Name)
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	evk := enc.GenEvalKeyParallel()
	p := int(params.MessageModulus())
	msgs := allMsgs(p)
	if isPow2(p) {
		msgs = append(msgs, -1, p, p+1)
	}
	pbsMonitor(r, c.Name, params, enc, evk, msgs, nRandom)
	// The same keys drive the other blind-rotation variants.
	if params.BlockSize() > 1 {
		alt := params.Literal().WithBlockSize(1).Compile()
		pbsMonitor(r, c.Name+"/block1", alt, enc, evk, msgs[:p], 1)
	}
	alt := params.Literal().WithLUTSize(params.LUTSize() * 2).Compile()
	pbsMonitor(r, c.Name+"/lut2x", alt, enc, evk, msgs[:p], 1)
	alt = params.Literal().WithLUTSize(params.LUTSize() * 3).Compile()
	pbsMonitor(r, c.Name+"/lut3x", alt, enc, evk, msgs[:p], 1)
}

func c01Shipped[T TI](r *R, c Cfg[T], nmsg, nRandom int) {
	r.SeedLib(c.Name)
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	evk := enc.GenEvalKeyParallel()
	ev := tfhe.NewEvaluator(params, evk)
	p := int(params.MessageModulus())
	sk := keyFor(params, enc.SecretKey)
	fns := fnSet(r.Rng, p, isPow2(p), nRandom)
	fns = fns[len(fns)-nRandom-1:]
	for fi, fn := range fns {
		lut := ev.GenLUT(fn.f)
		for _, m := range sampleMsgs(r.Rng, p, nmsg) {
			r.Case(fmt.Sprintf("%s f%d m=%d", c.Name, fi, m), func() {
				o := ev.BootstrapLUT(enc.EncryptLWE(m), lut)
				want := posMod(fn.f(m), p)
				got := refDecode(refLWEPhase(sk, o.Value), params.Scale(), p)
				r.Obs("bootstraps", 1)
				r.Check(got == want, "decoded %d want %d", got, want)
			})
		}
	}
}

func init() {
	about("C01", "a case is (parameter set, function, message): parameter sets are the structural corners of the code (original/block/extended rotation, both orders, ranks 1-3, every extension factor, single blocks, n = kN), random structures satisfying the worst-case decoding bound, and the shipped sets; the bootstrapped ciphertext is decoded with the secret key by schoolbook arithmetic and compared with f(m)",
		"a parameter set's worst-case rounding error stays inside the message interval (generated sets) or its designed failure probability is negligible (shipped sets)")
	needObs("C01", "bootstraps", 1000)
	needObs("C01", "special masks", 200)
	reg("C01", "fixed32", vAll, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c01Cfg(r, c, 2)
		}
	})
	reg("C01", "fixed64", vAll, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c01Cfg(r, c, 2)
		}
	})
	for i := 0; i < 4; i++ {
		reg("C01", fmt.Sprintf("rand32_%d", i), vTwo, vAll, func(r *R) {
			for j := 0; j < r.Pick(8, 80); j++ {
				c01Cfg(r, randCfg[uint32](r.Rng), 2)
			}
		})
		reg("C01", fmt.Sprintf("rand64_%d", i), vTwo, vAll, func(r *R) {
			for j := 0; j < r.Pick(8, 80); j++ {
				c01Cfg(r, randCfg[uint64](r.Rng), 2)
			}
		})
	}
	for i, l := range []tfhe.ParametersLiteral[uint64]{tfhe.ParamsUint2, tfhe.ParamsUint3, tfhe.ParamsUint4, tfhe.ParamsUint5, tfhe.ParamsUint6, tfhe.ParamsUint7, tfhe.ParamsUint8} {
		c := Cfg[uint64]{fmt.Sprintf("ParamsUint%d", i+2), l}
		q := vAvx
		reg("C01", c.Name, q, vAll, func(r *R) {
			c01Shipped(r, c, r.Pick(4, 40), r.Pick(1, 3))
		})
	}
}
