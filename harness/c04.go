package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/tfhe-go/tfhe"
)

func c04Msgs[T TI](r *R, p int) []int {
	v := append(sampleMsgs(r.Rng, p, 6), -1, p, p+1, -p, -p-1, 5*p+3, math.MaxInt64, math.MinInt64, math.MinInt64+1, int(r.Rng.Int64()), -int(r.Rng.Int64()))
	return v
}

// c04Custom monitors the encoder on its own.
func c04Custom[T TI](r *R, enc *tfhe.Encoder[T], n int) {
	w := logQ[T]()
	g := r.Rng
	for i := 0; i < n; i++ {
		var p, scale T
		switch g.IntN(4) {
		case 0:
			p = T(1) << (1 + g.IntN(w-4))
			scale = T(new(big.Int).Div(new(big.Int).Lsh(one, uint(w)), bigOf(uint64(p))).Uint64())
		case 1:
			p = 2 + T(g.IntN(1000))
			scale = T(new(big.Int).Div(new(big.Int).Lsh(one, uint(w)), bigOf(uint64(p))).Uint64())
		case 2: // padding left over
			p = 2 + T(g.IntN(100))
			scale = T(1) << (w - 7 - g.IntN(w/2))
		default:
			p = 1 + T(g.Uint64()>>(64-w/2))
			scale = 1 + T(g.Uint64()>>(64-w/2))/2
		}
		if scale < 2 {
			continue
		}
		m := int(g.Uint64())
		if g.IntN(2) == 0 {
			m = g.IntN(1<<20) - 1<<19
		}
		if m == math.MinInt64 {
			continue
		}
		r.CaseN(fmt.Sprintf("u%d p=%d scale=%d", w, p, scale), true, func() {
			want := refReduce(m, uint64(p))
			pt := enc.EncodeLWECustom(m, p, scale)
			r.Check(pt.Value == T(want)*scale, "EncodeLWECustom(%d, %d, %d) = %d, want %d*%d", m, p, scale, pt.Value, want, scale)
			// any error of less than half the scale is tolerated
			e := T(g.Uint64()) % scale
			if e >= scale/2 {
				e -= scale // negative
				if -e >= (scale+1)/2 {
					e = 0
				}
			}
			if new(big.Int).Mul(bigOf(uint64(p)), bigOf(uint64(scale))).BitLen() <= w || (isPow2(int(p)) && p*scale == 0) {
				if want == 0 && signed(e) < 0 && p*scale != 0 {
					e = -e
				}
				got := enc.DecodeLWECustom(tfhe.LWEPlaintext[T]{Value: pt.Value + e}, p, scale)
				r.Check(got == int(want), "DecodeLWECustom(Encode(%d)+%v, %d, %d) = %d, want %d", m, signed(e), p, scale, got, want)
				r.Obs("custom round trips", 1)
			}
			// no reduction at all
			pt = enc.EncodeLWECustom(m, 0, scale)
			r.Check(pt.Value == T(m)*scale, "EncodeLWECustom(%d, 0, %d) = %d", m, scale, pt.Value)
			raw := enc.EncodeLWECustom(m, 0, 1)
			r.Check(T(enc.DecodeLWECustom(raw, 0, 1)) == T(m), "raw value %d came back as %d", m, enc.DecodeLWECustom(raw, 0, 1))
			// automatic modulus round(Q/scale)
			q := new(big.Int).Lsh(one, uint(w))
			q.Mul(q, big.NewInt(2)).Add(q, bigOf(uint64(scale))).Div(q, new(big.Int).Mul(bigOf(uint64(scale)), big.NewInt(2)))
			if q.IsInt64() {
				mm := int(g.Uint64() % q.Uint64())
				v := T(mm) * scale
				ok := new(big.Int).Mul(big.NewInt(int64(mm)), bigOf(uint64(scale))).BitLen() <= w
				if ok && v <= ^T(0)-scale/2 {
					got := enc.DecodeLWECustom(tfhe.LWEPlaintext[T]{Value: v}, 0, scale)
					r.Check(got == mm, "DecodeLWECustom(%d*%d, 0, %d) = %d", mm, scale, scale, got)
				}
			}
		})
	}
}

func c04Cfg[T TI](r *R, c Cfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	enc2 := tfhe.NewEncryptorWithKey(params, enc.SecretKey) // another object holding the same key
	p := int(params.MessageModulus())
	key := keyFor(params, enc.SecretKey)
	n := lweDim(c.Lit)
	std := lweStd(c.Lit)
	var sl, sv, sg stat
	// LWE
	for rep := 0; rep < reps; rep++ {
		for _, m := range c04Msgs[T](r, p) {
			r.Case(fmt.Sprintf("%s LWE m=%d", c.Name, m), func() {
				want := refReduce(m, uint64(p))
				e := enc
				if g.IntN(2) == 0 {
					e = enc.SafeCopy()
				}
				var ct tfhe.LWECiphertext[T]
				switch g.IntN(5) {
				case 0:
					ct = e.EncryptLWE(m)
				case 1:
					ct = dirtyLWE[T](g, n)
					e.EncryptLWETo(ct, m)
				case 2:
					ct = e.EncryptLWEPlaintext(e.EncodeLWE(m))
				case 3:
					ct = dirtyLWE[T](g, n)
					e.EncryptLWEPlaintextTo(ct, e.EncodeLWE(m))
				case 4:
					ct = dirtyLWE[T](g, n)
					ct.Value[0] = e.EncodeLWE(m).Value
					e.EncryptLWEBody(ct)
				}
				if !r.Check(len(ct.Value) == n+1, "ciphertext of length %d, dimension %d", len(ct.Value), n) {
					return
				}
				ph := refLWEPhase(key, ct.Value)
				sl.add(signed(ph - T(want)*params.Scale()))
				r.Check(enc2.DecryptLWEPhase(ct).Value == ph, "DecryptLWEPhase = %d, schoolbook %d", enc2.DecryptLWEPhase(ct).Value, ph)
				r.Check(enc.DecryptLWE(ct) == int(want) && enc2.DecryptLWE(ct) == int(want), "decrypted to %d and %d, want %d", enc.DecryptLWE(ct), enc2.DecryptLWE(ct), want)
				r.Check(refDecode(ph, params.Scale(), p) == int(want), "phase %d decodes to %d, want %d", ph, refDecode(ph, params.Scale(), p), want)
				r.Check(e.DecodeLWE(e.EncodeLWE(m)) == int(want), "DecodeLWE(EncodeLWE(%d)) = %d", m, e.DecodeLWE(e.EncodeLWE(m)))
				r.Obs("LWE round trips", 1)
			})
		}
	}
	// raw torus payloads
	for rep := 0; rep < 4*reps; rep++ {
		x := edgeT[T](g)
		r.Case(fmt.Sprintf("%s raw %d", c.Name, x), func() {
			ct := enc.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{Value: x})
			sl.add(signed(refLWEPhase(key, ct.Value) - x))
			r.Check(float64(absT(enc2.DecryptLWEPhase(ct).Value-x)) <= 9.5*std+1, "raw payload %d came back as %d", x, enc2.DecryptLWEPhase(ct).Value)
		})
	}
	// Lev and GSW
	for rep := 0; rep < 2*reps; rep++ {
		gp := randGadget[T](g, roomLogB[T](std))
		base := uint64(gp.Base())
		for _, kind := range []string{"Lev", "GSW"} {
			var m int
			useMsg := uint64(p) <= base && g.IntN(2) == 0
			m = int(g.Uint64() >> g.IntN(64))
			if g.IntN(2) == 0 {
				m = -m
			}
			if m == math.MinInt64 {
				m = 0
			}
			x := T(m)
			if useMsg {
				x = T(refReduce(m, uint64(p)))
			}
			r.Case(fmt.Sprintf("%s %s base=%d level=%d msg=%v %d", c.Name, kind, base, gp.Level(), useMsg, m), func() {
				if kind == "Lev" {
					ct := dirtyLev(g, n, gp)
					switch {
					case useMsg && rep%2 == 0:
						ct = enc.EncryptLev(m, gp)
					case useMsg:
						enc.EncryptLevTo(ct, m)
					case rep%2 == 0:
						ct = enc.EncryptLevScalar(x, gp)
					default:
						enc.EncryptLevScalarTo(ct, x)
					}
					c04Lev(r, key, ct, gp, x, &sv)
					if useMsg {
						r.Check(enc2.DecryptLev(ct) == int(x), "DecryptLev = %d want %d", enc2.DecryptLev(ct), x)
					}
					r.Check(enc2.DecryptLevScalar(ct) == x&T(base-1), "DecryptLevScalar = %d want %d", enc2.DecryptLevScalar(ct), x&T(base-1))
				} else {
					ct := dirtyGSW(g, n, gp)
					switch {
					case useMsg && rep%2 == 0:
						ct = enc.EncryptGSW(m, gp)
					case useMsg:
						enc.EncryptGSWTo(ct, m)
					case rep%2 == 0:
						ct = enc.EncryptGSWScalar(x, gp)
					default:
						enc.EncryptGSWScalarTo(ct, x)
					}
					if !r.Check(len(ct.Value) == n+1, "GSW has %d rows", len(ct.Value)) {
						return
					}
					c04Lev(r, key, ct.Value[0], gp, x, &sg)
					for i := 0; i < n; i++ {
						c04Lev(r, key, ct.Value[i+1], gp, x*key[i], &sg)
					}
					if useMsg {
						r.Check(enc2.DecryptGSW(ct) == int(x), "DecryptGSW = %d want %d", enc2.DecryptGSW(ct), x)
					}
					r.Check(enc2.DecryptGSWScalar(ct) == x&T(base-1), "DecryptGSWScalar = %d want %d", enc2.DecryptGSWScalar(ct), x&T(base-1))
				}
				r.Obs(kind+" round trips", 1)
			})
		}
	}
	r.Case(c.Name+" noise", func() {
		sl.declared(r, "LWE", std)
		sv.declared(r, "Lev", std)
		sg.declared(r, "GSW", std)
	})
	c04Custom(r, enc.Encoder, 30*reps)
}

// c04Lev judges every level of a Lev ciphertext of x.
func c04Lev[T TI](r *R, key []T, ct tfhe.LevCiphertext[T], gp tfhe.GadgetParameters[T], x T, s *stat) {
	if !r.Check(len(ct.Value) == gp.Level() && ct.GadgetParams == gp, "Lev with %d levels and gadget %+v, want %+v", len(ct.Value), ct.GadgetParams, gp) {
		return
	}
	logB := int(math.Log2(float64(gp.Base())))
	for i := range ct.Value {
		want := x << (logQ[T]() - (i+1)*logB)
		e := signed(refLWEPhase(key, ct.Value[i].Value) - want)
		s.add(e)
	}
}

func init() {
	about("C04", "a case is (parameter set, ciphertext kind, entry point, gadget, message): structural corners and random parameter sets, messages at the ends of the message space, negative and up to the full int range, raw payloads at word extremes, gadgets over all bases; every level and row of each ciphertext is decrypted by schoolbook arithmetic, compared with the payload, and its error enters a deviation estimate judged against the parameter set's declaration",
		"the 8-standard-error slack of the deviation estimates (fixed seeds, so verdicts are reproducible)")
	needObs("C04", "LWE round trips", 1000)
	needObs("C04", "GSW round trips", 50)
	needObs("C04", "noise samples", 20000)
	reg("C04", "fixed32", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c04Cfg(r, c, r.Pick(12, 40))
		}
	})
	reg("C04", "fixed64", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c04Cfg(r, c, r.Pick(12, 40))
		}
	})
	reg("C04", "rand32", vTwo, vAll, func(r *R) {
		for j := 0; j < r.Pick(150, 400); j++ {
			c04Cfg(r, randCfg[uint32](r.Rng), 3)
		}
	})
	reg("C04", "rand64", vTwo, vAll, func(r *R) {
		for j := 0; j < r.Pick(150, 400); j++ {
			c04Cfg(r, randCfg[uint64](r.Rng), 3)
		}
	})
	reg("C04", "shipped", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			c04Shipped(r, c)
		}
		for _, c := range shipped64() {
			c04Shipped(r, c)
		}
	})
}

func c04Shipped[T TI](r *R, c Cfg[T]) {
	r.SeedLib(c.Name)
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	p := int(params.MessageModulus())
	key := keyFor(params, enc.SecretKey)
	var s stat
	for i := 0; i < r.Pick(1000, 3000); i++ {
		m := int(r.Rng.Int64()) % (3 * p)
		r.Case(fmt.Sprintf("%s m=%d", c.Name, m), func() {
			ct := enc.EncryptLWE(m)
			want := posMod(m, p)
			s.add(signed(refLWEPhase(key, ct.Value) - T(want)*params.Scale()))
			r.Check(enc.DecryptLWE(ct) == want, "decrypted to %d want %d", enc.DecryptLWE(ct), want)
			r.Obs("LWE round trips", 1)
		})
	}
	r.Case(c.Name+" noise", func() { s.declared(r, "LWE", lweStd(c.Lit)) })
}
