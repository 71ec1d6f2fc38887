package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// m03Sum makes a joint encryption of m by the given parties, each contributing a share.
func m03Sum[T TI](g *rand.Rand, w *mkWorld[T], parties []int, m int) mktfhe.LWECiphertext[T] {
	p := int(w.params.SubParams().MessageModulus())
	out := mktfhe.NewLWECiphertext(w.params)
	sum := T(0)
	for _, i := range parties {
		v := g.IntN(p)
		sum += T(v)
		ct := w.encs[i].EncryptLWE(v)
		for j := range out.Value {
			out.Value[j] += ct.Value[j]
		}
	}
	out.Value[0] += (T(refReduce(m, uint64(p))) - sum) * w.params.SubParams().Scale()
	return out
}

// members lists a random nonempty subset of set.
func members(g *rand.Rand, set map[int]bool, P int) []int {
	for {
		var o []int
		for i := 0; i < P; i++ {
			if set[i] && g.IntN(3) > 0 {
				o = append(o, i)
			}
		}
		if len(o) > 0 {
			g.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
			return o
		}
	}
}

type m03St struct {
	rot, ks stat
}

func m03Cfg[T TI](r *R, c MCfg[T], reps int, sets []map[int]bool, msgs bool, st *m03St) {
	r.SeedLib(c.Name)
	g := r.Rng
	w := newMkWorld(c, []byte(c.Name))
	params, sp := w.params, w.params.SubParams()
	lit := c.Lit.SubParams
	P, N, n := c.Lit.PartyCount, lit.PolyRank, lit.LWEDimension
	p := int(sp.MessageModulus())
	scale := sp.Scale()
	ev0 := tfhe.NewEvaluator(sp, tfhe.EvaluationKey[T]{})
	decs := mktfhe.NewDecryptor(params, w.sks)
	dim := params.DefaultLWEDimension()
	nd := lweDim(lit)
	step := lit.LWEDimension / max(lit.BlockSize, 1)
	for si, set := range sets {
		ev, how := w.evaluator(g, set)
		m := len(set)
		bStd, kStd, rStd := w.bootStd(m), w.ksStd(m), w.rotStd(m)
		name := fmt.Sprintf("%s registered %v (%s)", c.Name, set, how)
		for i := 0; i < P; i++ {
			if ev.PartyBitMap[i] != set[i] {
				r.Fail("%s: evaluator knows party %d: %v", name, i, ev.PartyBitMap[i])
			}
		}
		// half of what the input may be off
		room := float64(scale)/2 - (float64(m*step+1)/2+2)*math.Exp2(float64(logQ[T]()))/float64(2*N) - 12*kStd
		fns := fnSet(g, p, isPow2(p), 1)
		for rep := 0; rep < reps; rep++ {
			fn := fns[(rep+si)%len(fns)]
			mm := g.IntN(p)
			if msgs && rep < p {
				mm = rep
			}
			if rep%5 == 4 && isPow2(p) {
				mm = []int{-1, p, p + 1, 3 * p}[g.IntN(4)]
			}
			ps := members(g, set, P)
			form := (rep + si) % 8
			noise := 0.0
			if rep%2 == 1 && room > 0 {
				noise = math.Floor(room * []float64{1, -1, g.Float64(), -g.Float64()}[g.IntN(4)])
			}
			r.Case(fmt.Sprintf("%s parties %v f=%s m=%d form %d noise %g #%d", name, ps, fn.name, mm, form, noise, rep), func() {
				var ct mktfhe.LWECiphertext[T]
				if noise == 0 && room > 12*math.Sqrt(float64(len(ps)))*lweStd(lit) {
					ct = m03Sum(g, w, ps, mm)
				} else {
					ct = m03Sum(g, w, ps, mm)
					if g.IntN(2) == 0 {
						for _, i := range ps {
							if craftMask(g, ct.Value[1+i*nd:1+(i+1)*nd], N) != "" {
								r.Obs("special masks", 1)
							}
						}
					}
					ct.Value[0] += T(refReduce(mm, uint64(p)))*scale + T(int64(noise)) - refLWEPhase(w.kl, ct.Value)
				}
				want := posMod(fn.f(posMod(mm, p)), p)
				was := append([]T(nil), ct.Value...)
				o := mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)}
				switch form {
				case 0:
					o = ev.BootstrapFunc(ct, fn.f)
				case 1:
					ev.BootstrapFuncTo(o, ct, fn.f)
				case 2:
					o = ev.BootstrapLUT(ct, ev0.GenLUT(fn.f))
				case 3:
					ev.BootstrapLUTTo(o, ct, ev0.GenLUT(fn.f))
				case 4:
					o = ev.BootstrapFuncParallel(ct, fn.f)
				case 5:
					ev.BootstrapFuncParallelTo(o, ct, fn.f)
				case 6:
					o = ev.BootstrapLUTParallel(ct, ev0.GenLUT(fn.f))
				case 7:
					o = ct
					if g.IntN(2) == 0 {
						ev.BootstrapLUTParallelTo(o, ct, ev0.GenLUT(fn.f))
					} else {
						ev.BootstrapLUTTo(o, ct, ev0.GenLUT(fn.f))
					}
				}
				if form != 7 {
					r.Check(eqV(was, ct.Value), "the input changed")
				}
				if !r.Check(len(o.Value) == dim+1, "dimension %d", len(o.Value)-1) {
					return
				}
				e := signed(refLWEPhase(w.kl, o.Value) - T(want)*scale)
				r.Max("bootstrap error / estimate", math.Abs(e)/bStd)
				st.rot.add(e / bStd * 1e3)
				r.Check(math.Abs(e) <= 18*bStd+2, "result is %g off the encoding of %d (half interval %g), estimated deviation %g", e, want, float64(scale)/2, bStd)
				if 18*bStd+2 >= float64(scale)/2 {
					r.Obs("too noisy to decode", 1)
				} else {
					r.Obs("decoded", 1)
				}
				r.Check(18*bStd+2 >= float64(scale)/2 || decs.DecryptLWE(o) == want, "decrypted %d, want %d", decs.DecryptLWE(o), want)
				for i, x := range o.Value[1:] {
					if !set[i/nd] && x != 0 {
						r.Fail("a component of party %d, whose key is not registered, is set", i/nd)
						break
					}
				}
				r.Obs("bootstraps", 1)
			})
			// the two halves on their own
			r.Case(fmt.Sprintf("%s halves #%d", name, rep), func() {
				var prev []T
				for again := range 2 {
					big := mktfhe.LWECiphertext[T]{Value: randVec[T](g, P*N+1)}
					for i := range big.Value[1:] {
						if !set[i/N] {
							big.Value[1+i] = 0
						}
					}
					prev = nearly(r, prev, big.Value)
					was := append([]T(nil), big.Value...)
					large := make([]T, P*N)
					for i := 0; i < P; i++ {
						copy(large[i*N:], w.sks[i].LWELargeKey.Value)
					}
					o := mktfhe.LWECiphertext[T]{Value: randVec[T](g, P*n+1)}
					if (rep+again)%2 == 0 {
						o = ev.DefaultKeySwitch(big)
					} else {
						ev.DefaultKeySwitchTo(o, big)
					}
					r.Check(eqV(was, big.Value), "the input of the key switching changed")
					if !r.Check(len(o.Value) == P*n+1, "key switching gives dimension %d, want %d", len(o.Value)-1, P*n) {
						return
					}
					e := signed(refLWEPhase(w.kb, o.Value) - refLWEPhase(large, big.Value))
					r.Max("key switching error / estimate", math.Abs(e)/(kStd+1e-9))
					if kStd > 0 {
						st.ks.add(e / kStd * 1e3)
					}
					r.Check(math.Abs(e) <= 12*kStd+2, "key switching moves the phase by %g, estimated deviation %g", e, kStd)
					r.Obs("key switches", 1)
				}
				prev = nil
				for again := range 2 {
					in := mktfhe.LWECiphertext[T]{Value: randVec[T](g, P*n+1)}
					for i := 0; i < P; i++ {
						craftVec(g, in.Value[1+i*n:1+(i+1)*n])
					}
					for i := range in.Value[1:] {
						if !set[i/n] {
							in.Value[1+i] = 0
						}
					}
					prev = nearly(r, prev, in.Value)
					lut := tfhe.NewLUT(sp)
					copy(lut.Value[0].Coeffs, randVec[T](g, N))
					if rep%3 == 0 {
						for i := range lut.Value[0].Coeffs {
							lut.Value[0].Coeffs[i] = T(i) << (logQ[T]() - 10)
						}
					}
					l0 := append([]T(nil), lut.Value[0].Coeffs...)
					was := append([]T(nil), in.Value...)
					og := mktfhe.GLWECiphertext[T]{Value: dirtyGLWE[T](g, P, N).Value}
					switch rep%4 ^ again {
					case 0:
						og = ev.BlindRotate(in, lut)
					case 1:
						ev.BlindRotateTo(og, in, lut)
					case 2:
						og = ev.BlindRotateParallel(in, lut)
					case 3:
						ev.BlindRotateParallelTo(og, in, lut)
					}
					r.Check(eqV(was, in.Value) && eqV(l0, lut.Value[0].Coeffs), "an input of the blind rotation changed")
					idx := refSwitch(in.Value[0], 2*N)
					for i, s := range w.kb {
						if s != 0 {
							idx += refSwitch(in.Value[1+i], 2*N)
						}
					}
					d := subV(refGLWEPhase(w.kg, og.Value), monoMul(l0, -(idx%(2*N))))
					worst := 0.0
					for _, x := range d {
						worst = max(worst, absF(x))
					}
					r.Max("blind rotation error / estimate", worst/rStd)
					r.Check(worst <= 20*rStd+2, "blind rotation by %d is off by %g, estimated deviation %g", idx%(2*N), worst, rStd)
					for i := 0; i < P; i++ {
						if !set[i] && !eqV(og.Value[1+i].Coeffs, make([]T, N)) {
							r.Fail("the component of party %d, whose key is not registered, is set", i)
						}
					}
					r.Obs("blind rotations", 1)
				}
			})
		}
	}
}

// nearly replaces, now and then, the numbers v by those of the call before except for a few, and returns what v holds.
func nearly[T TI](r *R, prev, v []T) []T {
	if len(prev) == len(v) {
		old := append([]T(nil), v...)
		copy(v, prev)
		for range 1 + r.Rng.IntN(4) {
			i := r.Rng.IntN(len(v))
			v[i] = old[i]
		}
		r.Obs("inputs almost those of the call before", 1)
	}
	return append([]T(nil), v...)
}

// refSwitch rounds x*m/Q to an integer modulo m (ties up).
func refSwitch[T TI](x T, m int) int {
	lg := 0
	for 1<<lg < m {
		lg++
	}
	sh := logQ[T]() - lg
	return int((x>>sh + (x>>(sh-1))&1) & T(m-1))
}

func m03Run[T TI](r *R) {
	var st m03St
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(3, 30); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	for _, c := range cfgs {
		m03Cfg(r, c, r.Pick(16, 60), allSets(r.Rng, c.Lit.PartyCount, r.Pick(5, 15)), true, &st)
	}
	r.Max("bootstrap rms / estimate", st.rot.rms()/1e3)
	r.Check(st.rot.n < 100 || st.rot.rms() < 1.2e3, "bootstrap errors have %g times the estimated deviation", st.rot.rms()/1e3)
	r.Check(st.ks.n < 100 || st.ks.rms() < 1.5e3, "key switching errors have %g times the estimated deviation", st.ks.rms()/1e3)
	r.Max("key switching rms / estimate", st.ks.rms()/1e3)
}

func init() {
	about("M03", "Cases: parameter set x set of registered parties and the history by which the evaluator learnt their keys x set of involved parties (message shared among them) x function x message x input noise up to the tolerated maximum x entry point; phases are recomputed by schoolbook arithmetic, the exact rotation index from rounded components. Key switching and blind rotation are also judged separately on uniform inputs and tables.",
		"tiny parameter sets leave worst-case room, so wrong values are violations; the error estimate is the harness's own, with 12 deviations allowed")
	needObs("M03", "bootstraps", 300)
	needObs("M03", "decoded", 300)
	needObs("M03", "blind rotations", 300)
	needObs("M03", "key switches", 300)
	reg("M03", "small32", vTwo, vAll, func(r *R) { m03Run[uint32](r) })
	reg("M03", "small64", vTwo, vAll, func(r *R) { m03Run[uint64](r) })
	reg("M03", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			if i > r.Pick(0, 3) {
				continue
			}
			var st m03St
			m03Cfg(r, c, r.Pick(4, 16), allSets(r.Rng, c.Lit.PartyCount, r.Pick(2, 3)), true, &st)
		}
	})
}
