package main

import (
	"fmt"
	"sync"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// An object that learns keys while it lives, and its safe copies: what one of them is told afterwards is its own.

func init() {
	needObs("C25", "results after registrations compared", 300)
	regs := func(name string, variants, thorough []string, f func(r *R)) {
		reg("C25", name, variants, thorough, f)
	}
	regs("registrations64", []string{"race", "avx"}, []string{"race", "raceavx", "avx", "purego"}, func(r *R) { c25Registrations[uint64](r) })
	regs("registrations32", []string{"race", "avx"}, []string{"race", "raceavx", "avx", "purego"}, func(r *R) { c25Registrations[uint32](r) })
}

// c25Step is one step of a history: a registration (idx >= 0, one of two keys of that party) or a use.
type c25Step[T TI] struct {
	idx, key int
	kind     int
	in       mktfhe.LWECiphertext[T]
	big      mktfhe.GLWECiphertext[T]
}

func c25Registrations[T TI](r *R) {
	cfgs := fixedMulti[T]()
	for rep := 0; rep < r.Pick(4, 16); rep++ {
		c := cfgs[3+rep%5]
		if c.Lit.PartyCount < 2 {
			c = cfgs[1]
		}
		r.Case(fmt.Sprintf("%s #%d", c.Name, rep), func() { c25Register(r, c, rep) })
	}
}

func c25Register[T TI](r *R, c MCfg[T], rep int) {
	g := r.Sub(fmt.Sprintf("%s %d", c.Name, rep))
	r.SeedLib(fmt.Sprintf("registrations %s %d", c.Name, rep))
	P := c.Lit.PartyCount
	w := newMkWorld(c, []byte(c.Name))
	w2 := newMkWorld(c, []byte(c.Name)) // the parties again, with other keys
	ws := []*mkWorld[T]{w, w2}
	lut := tfhe.NewEvaluator(w.params.SubParams(), tfhe.EvaluationKey[T]{}).GenLUT(func(x int) int { return x + 1 })
	n := w.params.DefaultLWEDimension()
	N := c.Lit.SubParams.PolyRank

	// the origin knows a part of the parties
	known := map[int]bool{}
	for i := 0; i < P-1; i++ {
		if g.IntN(2) == 0 {
			known[i] = true
		}
	}
	const G = 4
	hists := make([][]c25Step[T], G)
	for k := range hists {
		for s := 0; s < r.Pick(5, 12); s++ {
			st := c25Step[T]{idx: -1}
			if k != 0 && s%2 == 0 { // the origin itself, in the first place, never learns anything
				st.idx, st.key = g.IntN(P), g.IntN(2)
			} else {
				st.kind = g.IntN(4)
				st.in = mktfhe.LWECiphertext[T]{Value: randVec[T](g, n+1)}
				st.big = mktfhe.NewGLWECiphertext(w.params)
				for i := range st.big.Value {
					copy(st.big.Value[i].Coeffs, randVec[T](g, N))
				}
			}
			hists[k] = append(hists[k], st)
		}
	}
	// which of the objects is the origin and which are copies (of copies)
	order := g.Perm(G)
	parent := make([]int, G)
	for i := 1; i < G; i++ {
		parent[i] = g.IntN(i)
	}
	run := func(what string, mk func() any, cp func(any) any, do func(o any, st c25Step[T]) []T) {
		objs := make([]any, G)
		objs[order[0]] = mk()
		for i := 1; i < G; i++ {
			objs[order[i]] = cp(objs[order[parent[i]]])
		}
		got := make([][][]T, G)
		var wg sync.WaitGroup
		for k := range objs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						r.Fail("%s: object %d panicked: %v", what, k, e)
					}
				}()
				for _, st := range hists[k] {
					got[k] = append(got[k], do(objs[k], st))
				}
			}()
		}
		wg.Wait()
		for k := range objs {
			alone := mk()
			for s, st := range hists[k] {
				if s >= len(got[k]) {
					break
				}
				want := do(alone, st)
				if !eqV(want, got[k][s]) {
					r.Fail("%s: step %d of object %d (copy order %v, parents %v, known %v) differs from the same history alone", what, s, k, order, parent, known)
				}
				if st.idx < 0 {
					r.Obs("results after registrations compared", 1)
				} else {
					r.Obs("registrations on objects with copies", 1)
				}
			}
		}
		// one after the other: everything the copies were told is still their own
		late := c25Step[T]{idx: -1, in: mktfhe.LWECiphertext[T]{Value: randVec[T](g, n+1)}, big: hists[0][0].big}
		for k := range objs {
			alone := mk()
			for _, st := range hists[k] {
				if st.idx >= 0 {
					do(alone, st)
				}
			}
			if late.kind = k % 4; !eqV(do(alone, late), do(objs[k], late)) {
				r.Fail("%s: object %d (copy order %v, parents %v, known %v) ends up different from the same history alone", what, k, order, parent, known)
			}
			r.Obs("results after registrations compared", 1)
		}
	}
	out := func() mktfhe.LWECiphertext[T] { return mktfhe.NewLWECiphertext(w.params) }
	bits := func(m []bool) (o []T) {
		for _, b := range m {
			if b {
				o = append(o, 1)
			} else {
				o = append(o, 0)
			}
		}
		return
	}
	use := func(e *mktfhe.Evaluator[T], st c25Step[T]) []T {
		if st.idx >= 0 {
			e.AddEvaluationKey(st.idx, ws[st.key].evks[st.idx])
			return bits(e.PartyBitMap)
		}
		if !anyTrue(e.PartyBitMap) {
			return nil
		}
		switch st.kind {
		case 0:
			o := out()
			e.BootstrapLUTTo(o, c25Mask(st.in, e.PartyBitMap), lut)
			return o.Value
		case 1:
			return e.BootstrapFunc(c25Mask(st.in, e.PartyBitMap), func(x int) int { return 2 * x }).Value
		case 2:
			idx := 0
			for !e.PartyBitMap[idx] {
				idx++
			}
			o := e.HybridProdGLWE(idx, w.evks[idx].RelinKey, st.big)
			return append(append([]T(nil), o.Value[0].Coeffs...), o.Value[P].Coeffs...)
		default:
			o := e.BlindRotate(mktfhe.LWECiphertext[T]{Value: c25Small(w, st.in, e.PartyBitMap)}, lut)
			return o.Value[0].Coeffs
		}
	}
	sub := func() map[int]mktfhe.EvaluationKey[T] { return w.subKeys(known) }
	run("mktfhe.Evaluator", func() any { return mktfhe.NewEvaluator(w.params, sub()) },
		func(o any) any { return o.(*mktfhe.Evaluator[T]).SafeCopy() },
		func(o any, st c25Step[T]) []T { return use(o.(*mktfhe.Evaluator[T]), st) })
	run("mktfhe.BinaryEvaluator", func() any { return mktfhe.NewBinaryEvaluator(w.params, sub()) },
		func(o any) any { return o.(*mktfhe.BinaryEvaluator[T]).SafeCopy() },
		func(o any, st c25Step[T]) []T {
			e := o.(*mktfhe.BinaryEvaluator[T])
			if st.idx < 0 && st.kind == 0 && anyTrue(e.Evaluator.PartyBitMap) {
				ct := c25Mask(st.in, e.Evaluator.PartyBitMap)
				return e.NAND(ct, e.NOT(ct)).Value
			}
			return use(e.Evaluator, st)
		})
	dec := func(d *mktfhe.Decryptor[T], st c25Step[T]) []T {
		if st.idx >= 0 {
			d.AddSecretKey(st.idx, ws[st.key].sks[st.idx])
			return bits(d.PartyBitMap)
		}
		if st.kind%2 == 0 {
			return []T{d.DecryptLWEPlaintext(st.in).Value}
		}
		return d.DecryptGLWEPhase(st.big).Value.Coeffs
	}
	secrets := func() map[int]tfhe.SecretKey[T] {
		o := map[int]tfhe.SecretKey[T]{}
		for i := range known {
			o[i] = w.sks[i]
		}
		return o
	}
	run("mktfhe.Decryptor", func() any { return mktfhe.NewDecryptor(w.params, secrets()) },
		func(o any) any { return o.(*mktfhe.Decryptor[T]).SafeCopy() },
		func(o any, st c25Step[T]) []T { return dec(o.(*mktfhe.Decryptor[T]), st) })
	run("mktfhe.BinaryDecryptor", func() any { return mktfhe.NewBinaryDecryptor(w.params, secrets()) },
		func(o any) any { return o.(*mktfhe.BinaryDecryptor[T]).SafeCopy() },
		func(o any, st c25Step[T]) []T { return dec(o.(*mktfhe.BinaryDecryptor[T]).Decryptor, st) })
}

func anyTrue(v []bool) bool {
	for _, b := range v {
		if b {
			return true
		}
	}
	return false
}

// c25Mask clears what belongs to parties that are not known.
func c25Mask[T TI](ct mktfhe.LWECiphertext[T], known []bool) mktfhe.LWECiphertext[T] {
	o := append([]T(nil), ct.Value...)
	n := (len(o) - 1) / len(known)
	for i, ok := range known {
		if !ok {
			clear(o[1+i*n : 1+(i+1)*n])
		}
	}
	return mktfhe.LWECiphertext[T]{Value: o}
}

// c25Small cuts a ciphertext down to the dimension of the small keys.
func c25Small[T TI](w *mkWorld[T], ct mktfhe.LWECiphertext[T], known []bool) []T {
	n := w.c.Lit.SubParams.LWEDimension * len(known)
	return c25Mask(mktfhe.LWECiphertext[T]{Value: ct.Value[:n+1]}, known).Value
}
