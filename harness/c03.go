package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
)

type gate[T TI] struct {
	name string
	f    func(a, b bool) bool
	run  func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	to   func(o, a, b tfhe.LWECiphertext[T])
}

func gatesOf[T TI](e *tfhe.BinaryEvaluator[T]) []gate[T] {
	return []gate[T]{
		{"AND", func(a, b bool) bool { return a && b }, e.AND, e.ANDTo},
		{"NAND", func(a, b bool) bool { return !(a && b) }, e.NAND, e.NANDTo},
		{"OR", func(a, b bool) bool { return a || b }, e.OR, e.ORTo},
		{"NOR", func(a, b bool) bool { return !(a || b) }, e.NOR, e.NORTo},
		{"XOR", func(a, b bool) bool { return a != b }, e.XOR, e.XORTo},
		{"XNOR", func(a, b bool) bool { return a == b }, e.XNOR, e.XNORTo},
	}
}

// boolOf reads the bit from a phase, and its distance from the exact encoding.
func boolOf[T TI](ph T) (bool, float64) {
	b := ph>>(logQ[T]()-1) == 0
	if b {
		return b, math.Abs(signed(ph - T(1)<<(logQ[T]()-3)))
	}
	return b, math.Abs(signed(ph - T(7)<<(logQ[T]()-3)))
}

func c03Gates[T TI](r *R, c Cfg[T], reps, circ int, worst bool) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewBinaryEncryptor(params)
	ev := tfhe.NewBinaryEvaluator(params, enc.GenEvalKeyParallel())
	key := keyFor(params, enc.Encryptor.SecretKey)
	n := lweDim(c.Lit)
	gs := gatesOf(ev)
	est := params.EstimateBlindRotateStdDev()
	if c.Lit.BootstrapOrder == oBR {
		est = math.Hypot(est, params.EstimateDefaultKeySwitchStdDev())
	}
	L := float64(c.Lit.LUTSize)
	if L == 0 {
		L = float64(c.Lit.PolyRank)
	}
	q := math.Exp2(float64(logQ[T]()))
	bc := float64(c.Lit.LWEDimension)
	if c.Lit.BlockSize > 1 {
		bc /= float64(c.Lit.BlockSize)
	}
	room := math.Floor((q/8 - ((bc+1)/2+2)*q/(2*L)) / 2) // tolerated error of either input
	var pub *tfhe.BinaryPublicEncryptor[T]
	if c.Lit.BootstrapOrder == oKS {
		pub = enc.PublicEncryptor()
	}
	verify := func(o tfhe.LWECiphertext[T], want bool) {
		ph := refLWEPhase(key, o.Value)
		got, d := boolOf(ph)
		r.Check(got == want, "phase %d decodes to %v, want %v", ph, got, want)
		r.Check(enc.DecryptLWEBool(o) == want, "decrypted %v, want %v", enc.DecryptLWEBool(o), want)
		r.Check(d <= 12*3*est+2, "result is %g off its encoding, estimated deviation %g", d, est)
		r.Obs("gates", 1)
	}
	// sources of an encryption of a bit
	sources := []struct {
		name string
		f    func(b bool) tfhe.LWECiphertext[T]
	}{
		{"fresh", enc.EncryptLWEBool},
		{"freshTo", func(b bool) tfhe.LWECiphertext[T] { o := dirtyLWE[T](g, n); enc.EncryptLWEBoolTo(o, b); return o }},
		{"not", func(b bool) tfhe.LWECiphertext[T] { return ev.NOT(enc.EncryptLWEBool(!b)) }},
		{"gate", func(b bool) tfhe.LWECiphertext[T] {
			x, y := g.IntN(2) == 0, g.IntN(2) == 0
			k := g.IntN(len(gs))
			o := gs[k].run(enc.EncryptLWEBool(x), enc.EncryptLWEBool(y))
			if gs[k].f(x, y) != b {
				o = ev.NOT(o)
			}
			return o
		}},
		{"trivial", func(b bool) tfhe.LWECiphertext[T] {
			o := tfhe.LWECiphertext[T]{Value: make([]T, n+1)}
			o.Value[0] = T(7) << (logQ[T]() - 3)
			if b {
				o.Value[0] = T(1) << (logQ[T]() - 3)
			}
			return o
		}},
	}
	if pub != nil {
		sources = append(sources, struct {
			name string
			f    func(b bool) tfhe.LWECiphertext[T]
		}{"public", func(b bool) tfhe.LWECiphertext[T] {
			if g.IntN(2) == 0 {
				o := dirtyLWE[T](g, n)
				pub.EncryptLWEBoolTo(o, b)
				return o
			}
			return pub.EncryptLWEBool(b)
		}})
	}
	if worst && room > 0 {
		sources = append(sources, struct {
			name string
			f    func(b bool) tfhe.LWECiphertext[T]
		}{"loud", func(b bool) tfhe.LWECiphertext[T] {
			o := enc.EncryptLWEBool(b)
			e := T(int64(room))
			if g.IntN(3) == 0 {
				e = T(g.Uint64() % uint64(room+1))
			}
			if g.IntN(2) == 0 {
				e = -e
			}
			w := T(7) << (logQ[T]() - 3)
			if b {
				w = T(1) << (logQ[T]() - 3)
			}
			o.Value[0] += w + e - refLWEPhase(key, o.Value)
			return o
		}}, struct {
			name string
			f    func(b bool) tfhe.LWECiphertext[T]
		}{"special mask", func(b bool) tfhe.LWECiphertext[T] {
			o := enc.EncryptLWEBool(b)
			recraft(g, key, o, params.LUTSize())
			return o
		}})
	}
	src := func() int { return g.IntN(len(sources)) }
	for _, b := range []bool{false, true} {
		for _, s := range sources {
			r.Case(fmt.Sprintf("%s encrypt/%s %v", c.Name, s.name, b), func() {
				r.Check(enc.DecryptLWEBool(s.f(b)) == b, "wrong bit")
			})
			r.Case(fmt.Sprintf("%s NOT/%s %v", c.Name, s.name, b), func() {
				in := s.f(b)
				was := append([]T(nil), in.Value...)
				o := ev.NOT(in)
				r.Check(eqV(was, in.Value), "input changed")
				want := -refLWEPhase(key, in.Value)
				r.Check(refLWEPhase(key, o.Value) == want, "phase is not negated")
				o = dirtyLWE[T](g, n)
				ev.NOTTo(o, in)
				r.Check(refLWEPhase(key, o.Value) == want, "phase is not negated (To)")
				ev.NOTTo(in, in)
				r.Check(refLWEPhase(key, in.Value) == want, "phase is not negated (in place)")
				r.Check(enc.DecryptLWEBool(o) == !b, "wrong bit")
			})
		}
	}
	for rep := 0; rep < reps; rep++ {
		for _, gt := range gs {
			for v := 0; v < 4; v++ {
				a, b := v&1 == 1, v&2 == 2
				sa, sb := sources[src()], sources[src()]
				mode := g.IntN(5)
				r.Case(fmt.Sprintf("%s %s(%s %v, %s %v) mode %d", c.Name, gt.name, sa.name, a, sb.name, b, mode), func() {
					x, y := sa.f(a), sb.f(b)
					want := gt.f(a, b)
					x0, y0 := append([]T(nil), x.Value...), append([]T(nil), y.Value...)
					var o tfhe.LWECiphertext[T]
					switch mode {
					case 0:
						o = gt.run(x, y)
					case 1:
						o = dirtyLWE[T](g, n)
						gt.to(o, x, y)
					case 2:
						gt.to(x, x, y)
						o = x
						x0 = x.Value
					case 3:
						gt.to(y, x, y)
						o = y
						y0 = y.Value
					case 4:
						if a == b {
							if g.IntN(2) == 0 {
								o = gt.run(x, x)
							} else {
								gt.to(x, x, x)
								o = x
								x0 = x.Value
							}
						} else {
							o = gt.run(x, ev.NOT(x))
						}
					}
					r.Check(eqV(x0, x.Value) && eqV(y0, y.Value), "an input changed")
					verify(o, want)
				})
			}
		}
	}
	// random circuits over a register file
	for i := 0; i < circ; i++ {
		regs := make([]tfhe.LWECiphertext[T], 6)
		bits := make([]bool, 6)
		r.Case(fmt.Sprintf("%s circuit %d", c.Name, i), func() {
			for j := range regs {
				bits[j] = g.IntN(2) == 0
				regs[j] = sources[src()].f(bits[j])
			}
			for st := 0; st < r.Pick(40, 200); st++ {
				d, a, b := g.IntN(6), g.IntN(6), g.IntN(6)
				if g.IntN(7) == 0 {
					ev.NOTTo(regs[d], regs[a])
					bits[d] = !bits[a]
					continue
				}
				gt := gs[g.IntN(len(gs))]
				v := gt.f(bits[a], bits[b])
				gt.to(regs[d], regs[a], regs[b])
				bits[d] = v
				verify(regs[d], v)
			}
			for j := range regs {
				r.Check(enc.DecryptLWEBool(regs[j]) == bits[j], "register %d holds %v, want %v", j, enc.DecryptLWEBool(regs[j]), bits[j])
			}
			r.Obs("circuits", 1)
		})
	}
	// bit vectors
	for w := 0; w <= 64; w++ {
		for _, m := range []int{0, -1, 1, math.MinInt, math.MaxInt, int(g.Uint64()), int(g.Uint64())} {
			if worst && w%7 != 0 && w < 60 && m != -1 {
				continue
			}
			r.Case(fmt.Sprintf("%s bits %d of %d", c.Name, w, m), func() {
				want := m
				if w < 64 {
					want = m & (1<<w - 1)
				}
				cts := enc.EncryptLWEBits(m, w)
				if !r.Check(len(cts) == w, "%d ciphertexts for %d bits", len(cts), w) {
					return
				}
				r.Check(enc.DecryptLWEBits(cts) == want, "bits decrypt to %d, want %d", enc.DecryptLWEBits(cts), want)
				for i := range cts {
					got, _ := boolOf(refLWEPhase(key, cts[i].Value))
					r.Check(got == (m>>i&1 == 1), "bit %d is %v", i, got)
				}
				cts = make([]tfhe.LWECiphertext[T], w)
				for i := range cts {
					cts[i] = dirtyLWE[T](g, n)
				}
				enc.EncryptLWEBitsTo(cts, m)
				r.Check(enc.DecryptLWEBits(cts) == want, "bits (To) decrypt to %d, want %d", enc.DecryptLWEBits(cts), want)
				if pub != nil && (!worst || w%16 == 0) {
					r.Check(enc.DecryptLWEBits(pub.EncryptLWEBits(m, w)) == want, "public bits decrypt wrongly")
					cts = make([]tfhe.LWECiphertext[T], w)
					for i := range cts {
						cts[i] = dirtyLWE[T](g, n)
					}
					pub.EncryptLWEBitsTo(cts, m)
					r.Check(enc.DecryptLWEBits(cts) == want, "public bits (To) decrypt wrongly")
				}
				r.Obs("bit vectors", 1)
			})
		}
	}
}

func init() {
	about("C03", "a case is a gate with the sources of its two inputs (fresh, negated, output of a previous gate, noiseless, public-key, or pushed to half of the tolerated error), its four input pairs, and the way the output is given (new, stale object, over the first or second input, same ciphertext twice); circuits are random gate sequences over six registers with overwriting; every result is decoded by schoolbook arithmetic with the secret key and its distance from the exact encoding judged",
		"shipped sets have their designed negligible failure probability; tiny sets satisfy a worst-case bound")
	needObs("C03", "gates", 3000)
	needObs("C03", "circuits", 20)
	// structural corners with room for gates: the tolerated error is positive
	small32 := func() []Cfg[uint32] {
		var o []Cfg[uint32]
		for _, c := range fixedCfgs[uint32]() {
			L, h := c.Lit.LUTSize, c.Lit.LWEDimension/c.Lit.BlockSize
			if L >= 4*((h+1)/2+3) {
				o = append(o, c)
			}
		}
		return o
	}
	small64 := func() []Cfg[uint64] {
		var o []Cfg[uint64]
		for _, c := range fixedCfgs[uint64]() {
			L, h := c.Lit.LUTSize, c.Lit.LWEDimension/c.Lit.BlockSize
			if L >= 4*((h+1)/2+3) {
				o = append(o, c)
			}
		}
		return o
	}
	reg("C03", "small32", vTwo, vAll, func(r *R) {
		for _, c := range small32() {
			c03Gates(r, c, r.Pick(6, 60), r.Pick(2, 10), true)
		}
	})
	reg("C03", "small64", vTwo, vAll, func(r *R) {
		for _, c := range small64() {
			c03Gates(r, c, r.Pick(6, 60), r.Pick(2, 10), true)
		}
	})
	for _, c := range shipped32() {
		reg("C03", c.Name, vAvx, vAll, func(r *R) { c03Gates(r, c, r.Pick(5, 40), r.Pick(2, 10), false) })
	}
}
