package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func init() {
	about("C26", "every parallel entry point under the race detector and at full speed, for processor counts 1 to 16 and dimensions and party counts "+
		"below, at and above the number of workers; every component of a generated key is opened with the secrets it stands for; parallel multi-key "+
		"evaluations are compared by joint phase with the sequential ones, with cleared and arbitrary outputs, alone and several at a time",
		"a parallel and a sequential evaluation may differ by twice 12 estimated deviations of the evaluation error")
	needObs("C26", "keys generated in parallel", 40)
	needObs("C26", "blind rotation rows", 1000)
	needObs("C26", "parallel evaluations compared", 200)
	few := []string{"cpu1", "cpu2", "cpu3", "cpu5"}
	fast := []string{"race", "avx"}
	all := []string{"race", "raceavx", "avx", "purego"}
	reg("C26", "keys64", fast, all, func(r *R) { c26Keys[uint64](r) })
	reg("C26", "few64", few, few, func(r *R) {
		r.Obs(fmt.Sprintf("runs with %s", map[int]string{1: "one processor", 2: "two processors", 3: "three processors", 5: "five processors"}[runtime.NumCPU()]), 1)
		c26Keys[uint64](r)
		if r.Variant != "cpu3" { // under the race detector
			c26Multi[uint64](r)
		}
	})
	reg("C26", "few32", []string{"cpu1", "cpu2"}, few, func(r *R) {
		c26Keys[uint32](r)
		c26Multi[uint32](r)
	})
	reg("C26", "keys32", []string{"avx"}, all, func(r *R) { c26Keys[uint32](r) })
	reg("C26", "multi64", fast, all, func(r *R) { c26Multi[uint64](r) })
	reg("C26", "multi32", []string{"avx"}, all, func(r *R) { c26Multi[uint32](r) })
	heavy("C26", "multi64", 2)
	heavy("C26", "keys64", 1)
}

var c26Procs = []int{1, 2, 3, 8, 16}

func withProcs(n int, fn func()) {
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)
	fn()
}

// distinctMasks fails if two rows of a key switching key have the same mask.
func distinctMasks[T TI](r *R, k tfhe.LWEKeySwitchKey[T]) {
	seen := map[string]string{}
	for i := range k.Value {
		for l := range k.Value[i].Value {
			m := k.Value[i].Value[l].Value[1:]
			if len(m)*logQ[T]() < 128 {
				return
			}
			h := fmt.Sprint(m)
			at := fmt.Sprintf("%d/%d", i, l)
			if o, ok := seen[h]; ok {
				r.Fail("key switching rows %s and %s have the same mask", o, at)
				return
			}
			seen[h] = at
		}
	}
}

func c26Keys[T TI](r *R) {
	g := r.Rng
	b, s := brChoices[T](), ksChoices[T]()
	// dimension, rank, ring size, block size
	shapes := [][4]int{{1, 1, 16, 1}, {2, 1, 16, 2}, {3, 2, 16, 1}, {7, 1, 32, 1}, {8, 1, 32, 2}, {9, 1, 16, 3}, {16, 1, 16, 4}, {17, 2, 32, 1}, {15, 1, 16, 1}, {32, 2, 16, 1}, {5, 3, 32, 5}}
	for i, sh := range shapes {
		for rep := 0; rep < r.Pick(1, 5); rep++ {
			bb, ss := b[g.IntN(len(b))], s[g.IntN(len(s))]
			o := []tfhe.BootstrapOrder{oKS, oBR}[(i+rep)%2]
			c := mk[T](sh[0], sh[1], sh[2], sh[2], sh[3], 2, bb[0], bb[1], ss[0], ss[1], o)
			procs := c26Procs
			if !r.Thorough {
				procs = []int{c26Procs[g.IntN(5)], c26Procs[(i+rep)%5]}
			}
			for _, p := range procs {
				r.Case(fmt.Sprintf("%s procs=%d %d", c.Name, p, rep), func() { withProcs(p, func() { c26Key(r, c) }) })
			}
		}
	}
	fcs := fixedFhew[T]()[:r.Pick(6, 9)]
	for i, f := range fcs {
		if !r.Thorough && f.Lit.BaseParams.PolyRank > 128 {
			continue
		}
		p := c26Procs[i%5]
		r.Case(fmt.Sprintf("%s procs=%d", f.Name, p), func() { withProcs(p, func() { c26Fhew(r, f) }) })
	}
}

func c26Key[T TI](r *R, c Cfg[T]) {
	params := c.Lit.Compile()
	e := tfhe.NewEncryptor(params)
	var br, ks stat
	sk := e.SecretKey
	was := cloneDeep(&sk)
	ek := e.GenEvalKeyParallel()
	evkCheck(r, c, sk, ek, 1<<30, &br, &ks)
	distinctMasks(r, ek.KeySwitchKey)
	// the parts, made separately by a copy, and by several copies at a time
	x, y := e.SafeCopy(), e.SafeCopy()
	bin := tfhe.NewBinaryEncryptorWithKey(params, sk)
	var wg sync.WaitGroup
	var e1, e2, e3 tfhe.EvaluationKey[T]
	wg.Add(3)
	go func() { defer wg.Done(); e1.BlindRotateKey = x.GenBlindRotateKeyParallel() }()
	go func() { defer wg.Done(); e2.KeySwitchKey = y.GenDefaultKeySwitchKeyParallel() }()
	go func() { defer wg.Done(); e3 = bin.GenEvalKeyParallel() }()
	wg.Wait()
	e1.KeySwitchKey = e2.KeySwitchKey
	evkCheck(r, c, sk, e1, 1<<30, &br, &ks)
	evkCheck(r, c, sk, e3, 1<<30, &br, &ks)
	distinctMasks(r, e2.KeySwitchKey)
	distinctMasks(r, e3.KeySwitchKey)
	seq := e.GenEvalKey()
	if d := same(shapeOf(boxedOf(seq)), shapeOf(boxedOf(ek))); d != "" {
		r.Fail("keys generated in parallel and in sequence have different shapes: %s", d)
	}
	if d := same(&sk, was); d != "" {
		r.Fail("the secret key changed: %s", d)
	}
	r.Obs("keys generated in parallel", 3)
}

func c26Fhew[T TI](r *R, c FCfg[T]) {
	params := c.Lit.Compile()
	e := xtfhe.NewFHEWEncryptor(params)
	sk := e.SecretKey
	for i, evk := range []xtfhe.FHEWEvaluationKey[T]{e.GenEvalKeyParallel(), {BlindRotateKey: e.GenBlindRotateKeyParallel(), KeySwitchKey: e.GenDefaultKeySwitchKeyParallel()}} {
		var s1, s2 stat
		evkCheckBy(r, Cfg[T]{c.Name, c.Lit.BaseParams}, sk, tfhe.EvaluationKey[T]{BlindRotateKey: evk.BlindRotateKey, KeySwitchKey: evk.KeySwitchKey}, 1<<30, &s1, &s2,
			func(s T, p []T) []T { return monoMul(p, int(signed(s))) })
		distinctMasks(r, evk.KeySwitchKey)
		if i == 0 {
			seq := e.GenEvalKey()
			if d := same(shapeOf(boxedOf(seq)), shapeOf(boxedOf(evk))); d != "" {
				r.Fail("keys generated in parallel and in sequence have different shapes: %s", d)
			}
		}
		r.Obs("keys generated in parallel", 1)
	}
}

func c26Multi[T TI](r *R) {
	ms := fixedMulti[T]()
	for i := 0; i < r.Pick(2, 16); i++ {
		ms = append(ms, randMulti[T](r.Rng))
	}
	for i, m := range ms {
		if !r.Thorough && strings.HasPrefix(r.Variant, "race") && i%2 == 1 {
			continue
		}
		procs := c26Procs
		if !r.Thorough {
			procs = []int{c26Procs[i%5]}
		}
		for _, p := range procs {
			withProcs(p, func() { c26Mk(r, m, p) })
		}
	}
}

func c26Mk[T TI](r *R, c MCfg[T], procs int) {
	name := fmt.Sprintf("%s procs=%d", c.Name, procs)
	r.SeedLib(name)
	g := r.Rng
	seqKeys := map[int]mktfhe.EvaluationKey[T]{}
	w := &mkWorld[T]{c: c, params: c.Lit.Compile(), crs: []byte(name), sks: map[int]tfhe.SecretKey[T]{}, evks: map[int]mktfhe.EvaluationKey[T]{}}
	P, lit := c.Lit.PartyCount, c.Lit.SubParams
	r.Case(name+" keys", func() {
		for i := 0; i < P; i++ {
			e := mktfhe.NewEncryptor(w.params, i, w.crs)
			w.encs = append(w.encs, e)
			w.sks[i] = e.SecretKey
			switch i % 2 {
			case 0:
				w.evks[i] = e.GenEvalKeyParallel()
			case 1:
				w.evks[i] = mktfhe.NewBinaryEncryptorWithKey(w.params, i, w.crs, e.SecretKey).GenEvalKeyParallel()
			}
			var s1, s2 stat
			ek := w.evks[i].EvaluationKey
			evkCheck(r, Cfg[T]{c.Name, lit}, e.SecretKey, ek, 1<<30, &s1, &s2)
			ek.KeySwitchKey = e.SafeCopy().GenDefaultKeySwitchKeyParallel()
			evkCheck(r, Cfg[T]{c.Name, lit}, e.SecretKey, ek, 0, &s1, &s2)
			distinctMasks(r, ek.KeySwitchKey)
			seq := e.GenEvalKey()
			seqKeys[i] = seq
			if d := same(shapeOf(boxedOf(seq)), shapeOf(boxedOf(w.evks[i]))); d != "" {
				r.Fail("keys generated in parallel and in sequence have different shapes: %s", d)
			}
			r.Obs("keys generated in parallel", 1)
		}
	})
	if len(w.evks) != P {
		return
	}
	w.kl, w.kg = mkLWEKey(c, w.sks), mkGLWEKey(c, w.sks)
	nd, N := lweDim(lit), lit.PolyRank
	dim := P * nd
	for _, set := range allSets(g, P, r.Pick(3, 6)) {
		var in []int
		for i := 0; i < P; i++ {
			if set[i] {
				in = append(in, i)
			}
		}
		m := len(in)
		ev := mktfhe.NewEvaluator(w.params, w.subKeys(set))
		seqEv := mktfhe.NewEvaluator(w.params, w.subKeys(set))
		sub := map[int]mktfhe.EvaluationKey[T]{}
		for _, i := range in {
			sub[i] = seqKeys[i]
		}
		seqKeyEv := mktfhe.NewEvaluator(w.params, sub)
		bev := mktfhe.NewBinaryEvaluator(w.params, w.subKeys(set))
		bseq := mktfhe.NewBinaryEvaluator(w.params, w.subKeys(set))
		others := []*mktfhe.Evaluator[T]{ev.SafeCopy(), ev.SafeCopy()}
		ct := func() mktfhe.LWECiphertext[T] { // joint ciphertext of the registered parties
			o := mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)}
			for i := range o.Value[1:] {
				if !set[i/nd] {
					o.Value[1+i] = 0
				}
			}
			return o
		}
		glweDiff := func(a, b mktfhe.GLWECiphertext[T]) float64 {
			return maxDiff(refGLWEPhase(w.kg, a.Value), refGLWEPhase(w.kg, b.Value))
		}
		lweDiff := func(a, b mktfhe.LWECiphertext[T]) float64 {
			return math.Abs(signed(refLWEPhase(w.kl, a.Value) - refLWEPhase(w.kl, b.Value)))
		}
		rot, boot := 24*w.rotStd(m)+2, 24*w.bootStd(m)+2
		lut := tfhe.NewLUT(w.params.SubParams())
		for i := range lut.Value[0].Coeffs {
			lut.Value[0].Coeffs[i] = edgeT[T](g)
		}
		small := func() mktfhe.LWECiphertext[T] {
			o := mktfhe.LWECiphertext[T]{Value: randVec[T](g, P*lit.LWEDimension+1)}
			for i := range o.Value[1:] {
				if !set[i/lit.LWEDimension] {
					o.Value[1+i] = 0
				}
			}
			return o
		}
		for rep := 0; rep < r.Pick(2, 5); rep++ {
			at := fmt.Sprintf("%s registered %v %d", name, in, rep)
			r.Case(at+" blind rotation", func() {
				x := small()
				want := seqEv.BlindRotate(x, lut)
				dirty := mktfhe.GLWECiphertext[T]{Value: nil}
				for i := 0; i <= P; i++ {
					dirty.Value = append(dirty.Value, polyOf(randVec[T](g, N)))
				}
				ev.BlindRotateParallelTo(dirty, x, lut)
				got := []mktfhe.GLWECiphertext[T]{ev.BlindRotateParallel(x, lut), dirty}
				for i, o := range got {
					r.Check(glweDiff(want, o) <= rot, "form %d is %g off the sequential result (estimated deviation %g)", i, glweDiff(want, o), w.rotStd(m))
					for j := 0; j < P; j++ {
						if !set[j] && !allZero(o.Value[1+j].Coeffs) {
							r.Fail("form %d: the component of party %d, whose key is not registered, is set", i, j)
						}
					}
				}
				// with keys generated in sequence for the same secrets
				d := glweDiff(seqKeyEv.BlindRotate(x, lut), dirty)
				r.Check(d <= rot, "rotations with keys generated in sequence and in parallel differ by %g (estimated deviation %g)", d, w.rotStd(m))
				r.Max("rotation difference between keys / estimate", d/w.rotStd(m))
				r.Max("rotation difference / estimate", glweDiff(want, dirty)/w.rotStd(m))
				r.Obs("parallel evaluations compared", 2)
			})
			r.Case(at+" bootstrapping", func() {
				x := ct()
				y := mktfhe.LWECiphertext[T]{Value: append([]T(nil), x.Value...)}
				dirty := mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)}
				want := seqEv.BootstrapLUT(x, lut)
				ev.BootstrapLUTParallelTo(dirty, x, lut)
				ev.BootstrapLUTParallelTo(y, y, lut)
				for i, o := range []mktfhe.LWECiphertext[T]{ev.BootstrapLUTParallel(x, lut), dirty, y} {
					r.Check(len(o.Value) == dim+1 && lweDiff(want, o) <= boot, "table, form %d is %g off the sequential result (estimated deviation %g)", i, lweDiff(want, o), w.bootStd(m))
				}
				f := func(x int) int { return 3*x + 1 }
				dirty2 := mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)}
				ev.BootstrapFuncParallelTo(dirty2, x, f)
				want = seqEv.BootstrapFunc(x, f)
				for i, o := range []mktfhe.LWECiphertext[T]{ev.BootstrapFuncParallel(x, f), dirty2} {
					r.Check(lweDiff(want, o) <= boot, "function, form %d is %g off the sequential result (estimated deviation %g)", i, lweDiff(want, o), w.bootStd(m))
				}
				r.Obs("parallel evaluations compared", 5)
			})
			r.Case(at+" several at a time", func() {
				xs := []mktfhe.LWECiphertext[T]{ct(), ct(), ct()}
				es := append([]*mktfhe.Evaluator[T]{ev}, others...)
				got := make([]mktfhe.LWECiphertext[T], 3)
				var wg sync.WaitGroup
				for i := range es {
					wg.Add(1)
					go func() { defer wg.Done(); got[i] = es[i].BootstrapLUTParallel(xs[i], lut) }()
				}
				wg.Wait()
				for i := range got {
					d := lweDiff(seqEv.BootstrapLUT(xs[i], lut), got[i])
					r.Check(d <= boot, "copy %d is %g off the sequential result", i, d)
				}
				r.Obs("parallel evaluations compared", 3)
			})
			r.Case(at+" gates", func() {
				gp, gs := c26Gates(bev), c26GatesSeq(bseq)
				x, y := ct(), ct()
				for i := range gp {
					dirty := mktfhe.LWECiphertext[T]{Value: randVec[T](g, dim+1)}
					gp[i].to(dirty, x, y)
					want := gs[i](x, y)
					for j, o := range []mktfhe.LWECiphertext[T]{gp[i].fn(x, y), dirty} {
						// both bits are decided by the same rotation index, so the phases agree
						r.Check(lweDiff(want, o) <= boot, "gate %d, form %d is %g off the sequential result", i, j, lweDiff(want, o))
					}
					r.Obs("parallel evaluations compared", 2)
				}
			})
		}
	}
}

type c26Gate[T TI] struct {
	fn func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]
	to func(o, a, b mktfhe.LWECiphertext[T])
}

func c26Gates[T TI](e *mktfhe.BinaryEvaluator[T]) []c26Gate[T] {
	return []c26Gate[T]{{e.ANDParallel, e.ANDParallelTo}, {e.NANDParallel, e.NANDParallelTo}, {e.ORParallel, e.ORParallelTo},
		{e.NORParallel, e.NORParallelTo}, {e.XORParallel, e.XORParallelTo}, {e.XNORParallel, e.XNORParallelTo}}
}

func c26GatesSeq[T TI](e *mktfhe.BinaryEvaluator[T]) []func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T] {
	return []func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]{e.AND, e.NAND, e.OR, e.NOR, e.XOR, e.XNOR}
}

func allZero[T TI](v []T) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}
