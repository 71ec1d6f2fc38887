package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// MCfg is a named multi-key parameter literal.
type MCfg[T TI] struct {
	Name string
	Lit  mktfhe.ParametersLiteral[T]
}

// mkMulti builds a small multi-key set over a small single-key one (rank 1, table size = ring size).
func mkMulti[T TI](c Cfg[T], parties, accB, accL, relB, relL int) MCfg[T] {
	if logQ[T]() == 32 { // a quieter set: the products of several parties must fit
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-29), math.Exp2(-31)
	}
	lit := mktfhe.ParametersLiteral[T]{SubParams: c.Lit, PartyCount: parties,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << accB, Level: accL},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: T(1) << relB, Level: relL}}
	return MCfg[T]{fmt.Sprintf("P%d_acc%dx%d_rel%dx%d_%s", parties, accB, accL, relB, relL, c.Name), lit}
}

// randMulti draws a small multi-key set leaving room for the drift of all parties.
func randMulti[T TI](g *rand.Rand) MCfg[T] {
	for {
		c := randCfg[T](g)
		if c.Lit.GLWERank != 1 || max(c.Lit.LUTSize, c.Lit.PolyRank) != c.Lit.PolyRank {
			continue
		}
		P := 1 + g.IntN(5)
		// rounding drift of the modulus switch: P*(blocks+1)/2 + slack must stay below half an interval
		h := P*(c.Lit.LWEDimension/c.Lit.BlockSize) + 1
		if float64(h)/2+2 >= float64(c.Lit.PolyRank)/(2*float64(c.Lit.MessageModulus)) {
			continue
		}
		rel := [][2]int{{8, 6}, {10, 5}, {7, 8}, {12, 4}}
		acc := [][2]int{{8, 6}, {6, 8}, {10, 5}, {9, 5}}
		if logQ[T]() == 32 {
			rel = [][2]int{{5, 6}, {4, 7}, {3, 10}, {4, 8}}
			acc = [][2]int{{5, 6}, {4, 7}, {3, 10}, {2, 14}}
			br := acc[g.IntN(2)]
			c = mk[T](c.Lit.LWEDimension, 1, c.Lit.PolyRank, c.Lit.PolyRank, c.Lit.BlockSize, c.Lit.MessageModulus, br[0], br[1], 4, 7, c.Lit.BootstrapOrder)
		}
		a, b := acc[g.IntN(len(acc))], rel[g.IntN(len(rel))]
		return mkMulti(c, P, a[0], a[1], b[0], b[1])
	}
}

func fixedMulti[T TI]() []MCfg[T] {
	b := brChoices[T]()[0]
	s := ksChoices[T]()[0]
	f := func(P, n, N, bs int, p T, o tfhe.BootstrapOrder) MCfg[T] {
		if logQ[T]() == 32 {
			return mkMulti(mk[T](n, 1, N, N, bs, p, 4, 7, 4, 7, o), P, 4, 7, 4, 7)
		}
		c := mk[T](n, 1, N, N, bs, p, b[0], b[1], s[0], s[1], o)
		return mkMulti(c, P, 8, 6, 10, 5)
	}
	return []MCfg[T]{
		f(1, 6, 64, 1, 4, oKS),
		f(2, 6, 128, 1, 4, oBR),
		f(2, 12, 128, 3, 4, oKS),
		f(3, 8, 128, 2, 4, oBR),
		f(3, 16, 64, 16, 4, oKS),
		f(5, 6, 256, 3, 4, oKS),
		f(2, 32, 32, 16, 2, oBR), // n == N
		f(4, 4, 128, 4, 5, oBR),
		f(8, 4, 256, 1, 4, oKS),
		f(17, 2, 128, 2, 2, oBR),
	}
}

func shippedMulti() []MCfg[uint64] {
	return []MCfg[uint64]{{"Party2", mktfhe.ParamsBinaryParty2}, {"Party4", mktfhe.ParamsBinaryParty4}, {"Party8", mktfhe.ParamsBinaryParty8}, {"Party16", mktfhe.ParamsBinaryParty16}, {"Party32", mktfhe.ParamsBinaryParty32}}
}

// mkLWEKey concatenates the default keys of the parties (absent ones zero).
func mkLWEKey[T TI](c MCfg[T], sks map[int]tfhe.SecretKey[T]) []T {
	n := lweDim(c.Lit.SubParams)
	out := make([]T, n*c.Lit.PartyCount)
	for i, sk := range sks {
		src := sk.LWELargeKey.Value
		if c.Lit.SubParams.BootstrapOrder == oBR {
			src = sk.LWEKey.Value
		}
		copy(out[i*n:(i+1)*n], src)
	}
	return out
}

// mkGLWEKey lists the ring keys of the parties (absent ones zero).
func mkGLWEKey[T TI](c MCfg[T], sks map[int]tfhe.SecretKey[T]) []poly.Poly[T] {
	out := make([]poly.Poly[T], c.Lit.PartyCount)
	for i := range out {
		if sk, ok := sks[i]; ok {
			out[i] = sk.GLWEKey.Value[0]
		} else {
			out[i] = poly.Poly[T]{Coeffs: make([]T, c.Lit.SubParams.PolyRank)}
		}
	}
	return out
}

// mkWorld is a set of parties with their keys.
type mkWorld[T TI] struct {
	c      MCfg[T]
	params mktfhe.Parameters[T]
	crs    []byte
	encs   []*mktfhe.Encryptor[T]
	sks    map[int]tfhe.SecretKey[T]
	evks   map[int]mktfhe.EvaluationKey[T]
	kl     []T            // default scalar keys, concatenated
	kb     []T            // small scalar keys (those consumed by the blind rotation), concatenated
	kg     []poly.Poly[T] // ring keys
}

func newMkWorld[T TI](c MCfg[T], crs []byte) *mkWorld[T] {
	w := &mkWorld[T]{c: c, params: c.Lit.Compile(), crs: crs, sks: map[int]tfhe.SecretKey[T]{}, evks: map[int]mktfhe.EvaluationKey[T]{}}
	for i := 0; i < c.Lit.PartyCount; i++ {
		e := mktfhe.NewEncryptor(w.params, i, crs)
		w.encs = append(w.encs, e)
		w.sks[i] = e.SecretKey
		if i%2 == 0 {
			w.evks[i] = e.GenEvalKeyParallel()
		} else {
			w.evks[i] = e.GenEvalKey()
		}
		w.kb = append(w.kb, e.SecretKey.LWEKey.Value...)
	}
	w.kl, w.kg = mkLWEKey(c, w.sks), mkGLWEKey(c, w.sks)
	return w
}

// subKeys restricts the evaluation keys to a set of parties.
func (w *mkWorld[T]) subKeys(set map[int]bool) map[int]mktfhe.EvaluationKey[T] {
	o := map[int]mktfhe.EvaluationKey[T]{}
	for i := range set {
		o[i] = w.evks[i]
	}
	return o
}

// evaluator builds an evaluator knowing exactly the given parties, by one of several histories.
func (w *mkWorld[T]) evaluator(g *rand.Rand, set map[int]bool) (*mktfhe.Evaluator[T], string) {
	switch g.IntN(4) {
	case 0:
		return mktfhe.NewEvaluator(w.params, w.subKeys(set)), "at construction"
	case 1:
		e := mktfhe.NewEvaluator(w.params, w.subKeys(set))
		cp := e.SafeCopy()
		for i := range w.evks { // the copy does not follow its origin
			if !set[i] {
				e.AddEvaluationKey(i, w.evks[i])
			}
		}
		return cp, "copy"
	case 2:
		e := mktfhe.NewEvaluator(w.params, map[int]mktfhe.EvaluationKey[T]{})
		for i := range w.evks {
			if set[i] {
				e.AddEvaluationKey(i, w.evks[i])
			}
		}
		return e, "added later"
	default:
		init := map[int]mktfhe.EvaluationKey[T]{}
		for i := range set {
			init[i] = mktfhe.NewEvaluationKey(w.params)
		}
		e := mktfhe.NewEvaluator(w.params, init).SafeCopy()
		for i := range w.evks {
			if set[i] {
				e.AddEvaluationKey(i, w.evks[i])
			}
		}
		return e, "overwritten"
	}
}

// rotStd estimates the error of a multi-key blind rotation over m registered parties: a phase of 1+m*N/2 terms goes
// through m external products with blind-rotated gadgets, each relinearized.
func (w *mkWorld[T]) rotStd(m int) float64 {
	N := float64(w.c.Lit.SubParams.PolyRank)
	q := math.Exp2(float64(logQ[T]()))
	terms := 1 + float64(m)*N/2
	br := w.params.SubParams().EstimateBlindRotateStdDev()
	ga, gr := w.c.Lit.AccumulatorParams, w.c.Lit.RelinKeyParams
	step := func(b float64, l int) float64 { return q / math.Pow(b, float64(l)) }
	dig := func(b float64, l int) float64 { return N * float64(l) * (b*b/12 + 1) }
	std := glweStd(w.c.Lit.SubParams)
	ba, br2 := float64(ga.Base), float64(gr.Base)
	sa, sr := step(ba, ga.Level), step(br2, gr.Level)
	v := terms * (dig(ba, ga.Level)*br*br + sa*sa/12)
	v += terms * (dig(br2, gr.Level)*std*std + N/2*sr*sr/12)
	v += float64(m) * N / 2 * dig(br2, gr.Level) * std * std
	v += dig(br2, gr.Level)*std*std + N/2*sr*sr/12
	// rounding of the transforms
	fa := math.Exp2(float64(logQ[T]()-53)) * (ba*math.Sqrt(N*float64(ga.Level)) + 3*br2*math.Sqrt(N*float64(gr.Level))) * math.Log2(N) / 8
	v += terms * fa * fa
	return math.Sqrt(float64(m) * v)
}

// ksStd estimates the error of the default key switching of m parties.
func (w *mkWorld[T]) ksStd(m int) float64 {
	return math.Sqrt(float64(m)) * w.params.SubParams().EstimateDefaultKeySwitchStdDev()
}

// bootStd estimates the error of a bootstrapped ciphertext with m registered parties.
func (w *mkWorld[T]) bootStd(m int) float64 {
	if w.c.Lit.SubParams.BootstrapOrder == oBR {
		return math.Hypot(w.rotStd(m), w.ksStd(m))
	}
	return w.rotStd(m)
}

// allSets lists every nonempty set of parties, or a sample.
func allSets(g *rand.Rand, P, limit int) []map[int]bool {
	var o []map[int]bool
	for b := 1; b < 1<<min(P, 16); b++ {
		s := map[int]bool{}
		for i := 0; i < P; i++ {
			if b>>i&1 == 1 {
				s[i] = true
			}
		}
		o = append(o, s)
	}
	if len(o) > limit {
		full := o[len(o)-1]
		g.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
		o = append(o[:limit-1], full)
	}
	return o
}

// subset draws a set of parties containing idx.
func subset(g *rand.Rand, P, idx int) map[int]bool {
	s := map[int]bool{idx: true}
	switch g.IntN(3) {
	case 0:
	case 1:
		for i := 0; i < P; i++ {
			s[i] = true
		}
	default:
		for i := 0; i < P; i++ {
			if g.IntN(2) == 0 {
				s[i] = true
			}
		}
	}
	return s
}
