package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

type mkGate[T TI] struct {
	name       string
	f          func(a, b bool) bool
	run, runP  func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]
	to, toP    func(o, a, b mktfhe.LWECiphertext[T])
	parallelOK bool
}

func mkGates[T TI](e *mktfhe.BinaryEvaluator[T]) []mkGate[T] {
	return []mkGate[T]{
		{"AND", func(a, b bool) bool { return a && b }, e.AND, e.ANDParallel, e.ANDTo, e.ANDParallelTo, true},
		{"NAND", func(a, b bool) bool { return !(a && b) }, e.NAND, e.NANDParallel, e.NANDTo, e.NANDParallelTo, true},
		{"OR", func(a, b bool) bool { return a || b }, e.OR, e.ORParallel, e.ORTo, e.ORParallelTo, true},
		{"NOR", func(a, b bool) bool { return !(a || b) }, e.NOR, e.NORParallel, e.NORTo, e.NORParallelTo, true},
		{"XOR", func(a, b bool) bool { return a != b }, e.XOR, e.XORParallel, e.XORTo, e.XORParallelTo, true},
		{"XNOR", func(a, b bool) bool { return a == b }, e.XNOR, e.XNORParallel, e.XNORTo, e.XNORParallelTo, true},
	}
}

// bitOf reads the bit from a phase, and its distance from the exact encoding.
func bitOf[T TI](ph T) (bool, float64) {
	if ph>>(logQ[T]()-1) == 0 {
		return true, math.Abs(signed(ph - T(1)<<(logQ[T]()-3)))
	}
	return false, math.Abs(signed(ph - T(7)<<(logQ[T]()-3)))
}

func m02Cfg[T TI](r *R, c MCfg[T], reps, circ int, worst bool) {
	r.SeedLib(c.Name)
	g := r.Rng
	w := newMkWorld(c, []byte("gates of "+c.Name))
	params, lit := w.params, c.Lit.SubParams
	P, N := c.Lit.PartyCount, lit.PolyRank
	nd := lweDim(lit)
	dim := P * nd
	q := math.Exp2(float64(logQ[T]()))
	sets := allSets(g, P, 4)
	steps := float64(lit.LWEDimension / max(lit.BlockSize, 1))
	encs := make([]*mktfhe.BinaryEncryptor[T], P)
	pubs := make([]*mktfhe.BinaryPublicEncryptor[T], P)
	for i := range encs {
		encs[i] = mktfhe.NewBinaryEncryptorWithKey(params, i, w.crs, w.sks[i])
		if lit.BootstrapOrder == oKS {
			pubs[i] = encs[i].PublicEncryptor()
		}
	}
	dec := mktfhe.NewBinaryDecryptor(params, w.sks)
	for _, set := range sets {
		m := len(set)
		var inSet []int
		for i := 0; i < P; i++ {
			if set[i] {
				inSet = append(inSet, i)
			}
		}
		evk := w.subKeys(set)
		var ev *mktfhe.BinaryEvaluator[T]
		how := g.IntN(3)
		switch how {
		case 0:
			ev = mktfhe.NewBinaryEvaluator(params, evk)
		case 1:
			ev = mktfhe.NewBinaryEvaluator(params, evk).SafeCopy()
		case 2:
			ev = mktfhe.NewBinaryEvaluator(params, map[int]mktfhe.EvaluationKey[T]{})
			for i, k := range evk {
				ev.Evaluator.AddEvaluationKey(i, k)
			}
		}
		gs := mkGates(ev)
		est := w.bootStd(m)
		room := math.Floor((q/8 - (float64(m)*steps/2+3)*q/float64(2*N) - 12*w.ksStd(m)) / 2)
		if room < 12*lweStd(lit) || 18*est+2 > q/8 {
			r.Obs("sets without room", 1)
			continue
		}
		name := fmt.Sprintf("%s registered %v how %d", c.Name, inSet, how)
		party := func() int { return inSet[g.IntN(m)] }
		verify := func(o mktfhe.LWECiphertext[T], want bool) {
			if !r.Check(len(o.Value) == dim+1, "dimension %d", len(o.Value)-1) {
				return
			}
			got, d := bitOf(refLWEPhase(w.kl, o.Value))
			r.Check(got == want, "result decodes to %v, want %v", got, want)
			r.Check(dec.DecryptLWEBool(o) == want, "result decrypts to %v, want %v", dec.DecryptLWEBool(o), want)
			r.Max("error / estimate", d/est)
			r.Check(d <= 18*est+2, "result is %g off its encoding, estimated deviation %g", d, est)
			for i, x := range o.Value[1:] {
				if !set[i/nd] && x != 0 {
					r.Fail("a component of party %d, whose key is not registered, is set", i/nd)
					break
				}
			}
			r.Obs("gates", 1)
		}
		dirty := func() mktfhe.LWECiphertext[T] { return mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)} }
		type source struct {
			name string
			f    func(b bool) mktfhe.LWECiphertext[T]
		}
		sources := []source{
			{"fresh", func(b bool) mktfhe.LWECiphertext[T] { return encs[party()].EncryptLWEBool(b) }},
			{"freshTo", func(b bool) mktfhe.LWECiphertext[T] { o := dirty(); encs[party()].EncryptLWEBoolTo(o, b); return o }},
			{"not", func(b bool) mktfhe.LWECiphertext[T] { return ev.NOT(encs[party()].EncryptLWEBool(!b)) }},
			{"gate", func(b bool) mktfhe.LWECiphertext[T] {
				x, y := g.IntN(2) == 0, g.IntN(2) == 0
				k := g.IntN(len(gs))
				o := gs[k].run(encs[party()].EncryptLWEBool(x), encs[party()].EncryptLWEBool(y))
				if gs[k].f(x, y) != b {
					o = ev.NOT(o)
				}
				return o
			}},
			{"single-key", func(b bool) mktfhe.LWECiphertext[T] {
				i := party()
				o := dirty()
				o.CopyFromSubKey(tfhe.NewBinaryEncryptorWithKey(params.SubParams(), w.sks[i]).EncryptLWEBool(b), i)
				return o
			}},
		}
		if pubs[0] != nil {
			sources = append(sources, source{"public", func(b bool) mktfhe.LWECiphertext[T] { return pubs[party()].EncryptLWEBool(b) }})
		}
		if worst {
			sources = append(sources, source{"loud", func(b bool) mktfhe.LWECiphertext[T] {
				o := encs[party()].EncryptLWEBool(b)
				for i := range o.Value[1:] { // masks of every registered party
					if set[i/nd] {
						o.Value[1+i] = randT[T](g)
					}
				}
				for _, i := range inSet {
					craftMask(g, o.Value[1+i*nd:1+(i+1)*nd], N)
				}
				e := T(int64(room))
				if g.IntN(3) == 0 {
					e = T(g.Uint64() % uint64(room+1))
				}
				if g.IntN(2) == 0 {
					e = -e
				}
				v := T(7) << (logQ[T]() - 3)
				if b {
					v = T(1) << (logQ[T]() - 3)
				}
				o.Value[0] += v + e - refLWEPhase(w.kl, o.Value)
				return o
			}})
		}
		src := func() source { return sources[g.IntN(len(sources))] }
		for _, b := range []bool{false, true} {
			s := src()
			r.Case(fmt.Sprintf("%s NOT %s %v", name, s.name, b), func() {
				in := s.f(b)
				was := append([]T(nil), in.Value...)
				want := -refLWEPhase(w.kl, in.Value)
				o := ev.NOT(in)
				r.Check(refLWEPhase(w.kl, o.Value) == want, "phase is not negated")
				o = dirty()
				ev.NOTTo(o, in)
				r.Check(refLWEPhase(w.kl, o.Value) == want, "phase is not negated (To)")
				r.Check(eqV(was, in.Value), "input changed")
				ev.NOTTo(in, in)
				r.Check(refLWEPhase(w.kl, in.Value) == want, "phase is not negated (in place)")
				r.Check(dec.DecryptLWEBool(o) == !b, "wrong bit")
			})
		}
		for rep := 0; rep < reps; rep++ {
			for gi, gt := range gs {
				for v := 0; v < 4; v++ {
					if !worst && (v+gi+rep)%4 > 1 {
						continue
					}
					a, b := v&1 == 1, v&2 == 2
					sa, sb := src(), src()
					mode := g.IntN(7)
					r.Case(fmt.Sprintf("%s %s(%s %v, %s %v) mode %d #%d", name, gt.name, sa.name, a, sb.name, b, mode, rep), func() {
						x, y := sa.f(a), sb.f(b)
						want := gt.f(a, b)
						x0, y0 := append([]T(nil), x.Value...), append([]T(nil), y.Value...)
						var o mktfhe.LWECiphertext[T]
						switch mode {
						case 0:
							o = gt.run(x, y)
						case 1:
							o = dirty()
							gt.to(o, x, y)
						case 2:
							o = gt.runP(x, y)
						case 3:
							o = dirty()
							gt.toP(o, x, y)
						case 4:
							gt.to(x, x, y)
							o, x0 = x, x.Value
						case 5:
							gt.toP(y, x, y)
							o, y0 = y, y.Value
						case 6:
							if a == b {
								gt.toP(x, x, x)
								o, x0 = x, x.Value
							} else {
								o = gt.run(x, ev.NOT(x))
							}
						}
						r.Check(eqV(x0, x.Value) && eqV(y0, y.Value), "an input changed")
						verify(o, want)
						if mode < 4 { // both variants compute the same thing
							s, p := gt.run(x, y), gt.runP(x, y)
							d := signed(refLWEPhase(w.kl, s.Value) - refLWEPhase(w.kl, p.Value))
							r.Check(eqV(s.Value, p.Value) || math.Abs(d) <= 24*est, "sequential and parallel results differ by %g", d)
							r.Obs("parallel comparisons", 1)
							if eqV(s.Value, p.Value) {
								r.Obs("parallel results identical", 1)
							}
						}
					})
				}
			}
		}
		for i := 0; i < circ; i++ {
			regs := make([]mktfhe.LWECiphertext[T], 6)
			bits := make([]bool, 6)
			r.Case(fmt.Sprintf("%s circuit %d", name, i), func() {
				for j := range regs {
					bits[j] = g.IntN(2) == 0
					regs[j] = src().f(bits[j])
				}
				for st := 0; st < r.Pick(25, 120); st++ {
					d, a, b := g.IntN(6), g.IntN(6), g.IntN(6)
					if g.IntN(7) == 0 {
						ev.NOTTo(regs[d], regs[a])
						bits[d] = !bits[a]
						continue
					}
					gt := gs[g.IntN(len(gs))]
					v := gt.f(bits[a], bits[b])
					if g.IntN(2) == 0 {
						gt.to(regs[d], regs[a], regs[b])
					} else {
						gt.toP(regs[d], regs[a], regs[b])
					}
					bits[d] = v
					verify(regs[d], v)
				}
				m, got := 0, dec.DecryptLWEBits(regs)
				for j := range regs {
					if bits[j] {
						m |= 1 << j
					}
				}
				r.Check(got == m, "registers hold %b, want %b", got, m)
				r.Obs("circuits", 1)
			})
		}
	}
}

func m02Run[T TI](r *R) {
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(3, 30); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	for _, c := range cfgs {
		m02Cfg(r, c, r.Pick(2, 12), r.Pick(1, 5), true)
	}
}

func init() {
	about("M02", "Cases: parameter set x registered parties x gate x sources of the inputs (fresh, negated, gate outputs, embedded single-key, public-key, joint with all masks random and half of the tolerated error) x the four input pairs x sequential/parallel and output state; circuits are random gate sequences over six registers. Results are decoded by schoolbook arithmetic and their distance from the exact encoding judged.",
		"the worst-case bound of the small sets leaves room for every input used; shipped sets have their designed failure probability")
	needObs("M02", "gates", 1500)
	needObs("M02", "circuits", 10)
	needObs("M02", "parallel comparisons", 300)
	reg("M02", "small32", vTwo, vAll, func(r *R) { m02Run[uint32](r) })
	reg("M02", "small64", vTwo, vAll, func(r *R) { m02Run[uint64](r) })
	reg("M02", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			if i > r.Pick(0, 3) {
				continue
			}
			m02Cfg(r, c, 1, r.Pick(0, 1), false)
		}
	})
	heavy("M02", "shipped", 5)
}
