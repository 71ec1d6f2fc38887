package main

import (
	crand "crypto/rand"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// Objects of different goroutines, made while the others are being made and copied: nothing else runs first in the
// process, so whatever the constructors share is still untouched when the goroutines begin.

func init() {
	needObs("C25", "objects made at the same time", 400)
	needObs("C25", "results of objects made at the same time", 400)
	all := []string{"race", "raceavx", "avx", "purego"}
	reg("C25", "making64", []string{"race", "avx"}, all, func(r *R) { c25Making[uint64](r, false) })
	reg("C25", "making32", []string{"race", "avx"}, all, func(r *R) { c25Making[uint32](r, false) })
	reg("C25", "worlds64", []string{"race"}, all, func(r *R) { c25Making[uint64](r, true) })
	reg("C25", "worlds32", []string{"race"}, all, func(r *R) { c25Making[uint32](r, true) })
}

const c25Makers = 8

// together runs f in goroutines that begin at the same time, without any other synchronization.
func together(r *R, what string, f func(k int, fail func(string, ...any))) {
	var wg sync.WaitGroup
	begin := make(chan struct{})
	msgs := make([][]string, c25Makers)
	for k := 0; k < c25Makers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					msgs[k] = append(msgs[k], fmt.Sprintf("goroutine %d panicked: %v", k, p))
				}
			}()
			<-begin
			f(k, func(s string, a ...any) { msgs[k] = append(msgs[k], fmt.Sprintf(s, a...)) })
		}()
	}
	close(begin)
	wg.Wait()
	for _, m := range msgs {
		for _, s := range m {
			r.Fail("%s: %s", what, s)
		}
	}
}

func c25Making[T TI](r *R, worlds bool) {
	crand.Reader = realReader // the stand-in has a lock, which would order the goroutines
	if worlds {
		r.Case("worlds", func() { c25Worlds[T](r) })
		return
	}
	for rep := 0; rep < r.Pick(3, 12); rep++ {
		r.Case(fmt.Sprintf("keyless #%d", rep), func() { c25Keyless[T](r, rep) })
		r.Case(fmt.Sprintf("pipelines #%d", rep), func() { c25Pipes[T](r, rep) })
	}
}

type c25Kind struct {
	name string
	// use makes an object and a copy of it, and gives what they do to inputs drawn from g
	use func(g *rand.Rand, copied bool) any
}

func c25Kinds[T TI]() (ks []c25Kind) {
	add := func(name string, use func(g *rand.Rand, copied bool) any) { ks = append(ks, c25Kind{name, use}) }
	for _, N := range []int{16, 32, 64, 128, 256, 512, 1024, 2048} {
		add(fmt.Sprintf("poly.Evaluator %d", N), func(g *rand.Rand, copied bool) any {
			e := poly.NewEvaluator[T](N)
			if copied {
				e = e.SafeCopy()
			}
			p := poly.Poly[T]{Coeffs: smallVec[T](g, N)}
			fp := e.FwdFFT(p)
			return []any{p, fp, e.InvFFT(fp), e.MonomialFwdFFT(3), e.MonomialSubOneFwdFFT(5), e.PermutePoly(p, 3)}
		})
		add(fmt.Sprintf("tfhe.GLWETransformer %d", N), func(g *rand.Rand, copied bool) any {
			tr := tfhe.NewGLWETransformer[T](N)
			if copied {
				tr = tr.SafeCopy()
			}
			ct := tfhe.NewGLWECiphertextCustom[T](1, N)
			for i := range ct.Value {
				copy(ct.Value[i].Coeffs, smallVec[T](g, N))
			}
			f := tr.FwdFFTGLWECiphertext(ct)
			return []any{f, tr.InvFFTGLWECiphertext(f)}
		})
		add(fmt.Sprintf("tfhe.Decomposer %d", N), func(g *rand.Rand, copied bool) any {
			d := tfhe.NewDecomposer[T](N)
			if copied {
				d = d.SafeCopy()
			}
			gp := tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + g.IntN(6)), Level: 1 + g.IntN(4)}.Compile()
			p := poly.Poly[T]{Coeffs: make([]T, N)}
			for i := range p.Coeffs {
				p.Coeffs[i] = T(g.Uint64())
			}
			return []any{d.DecomposePoly(p, gp), d.FourierDecomposePoly(p, gp), d.DecomposeScalar(p.Coeffs[0], gp)}
		})
		add(fmt.Sprintf("tfhe.Encoder %d", N), func(g *rand.Rand, copied bool) any {
			b, s := brChoices[T]()[0], ksChoices[T]()[0]
			p := mk[T](2, 1, N, N, 1, 4, b[0], b[1], s[0], s[1], []tfhe.BootstrapOrder{oKS, oBR}[g.IntN(2)]).Lit.Compile()
			e := tfhe.NewEncoder(p)
			ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
			if copied {
				ev = ev.SafeCopy()
			}
			m := g.IntN(4)
			return []any{e.EncodeLWE(m), e.DecodeLWE(e.EncodeLWE(m)), e.EncodeGLWE([]int{m, 1}), ev.GenLUT(func(x int) int { return x ^ m }), ev.ModSwitch(T(g.Uint64()))}
		})
	}
	for i := 0; i < 6; i++ {
		add(fmt.Sprintf("samplers %d", i), func(g *rand.Rand, copied bool) any {
			seed := []byte{byte(i), byte(g.Uint32())}
			u := csprng.NewUniformSamplerWithSeed[T](seed)
			b := csprng.NewBinarySamplerWithSeed[T](seed)
			n := csprng.NewGaussianSamplerWithSeed[T](seed, 1)
			var out [3][]T
			for j := range out {
				out[j] = make([]T, 100)
			}
			u.SampleVecTo(out[0])
			b.SampleVecTo(out[1])
			n.SampleVecTo(out[2], float64(i+1))
			return []any{out[0], out[1], out[2]}
		})
	}
	for _, c := range fixedFhew[T]()[:4] {
		add("fhew parameters "+c.Name, func(g *rand.Rand, copied bool) any {
			p := c.Lit.Compile()
			e := xtfhe.NewFHEWEvaluator(p, xtfhe.FHEWEvaluationKey[T]{})
			if copied {
				e = e.SafeCopy()
			}
			return []any{e.GenLUT(func(x int) int { return x }), e.ModSwitch(T(g.Uint64()))}
		})
	}
	return
}

// c25Keyless makes objects without keys; what they do is compared with what one does that is made alone afterwards.
func c25Keyless[T TI](r *R, rep int) {
	ks := c25Kinds[T]()
	results := make([][]any, c25Makers)
	together(r, "keyless objects", func(k int, fail func(string, ...any)) {
		results[k] = make([]any, len(ks))
		order := r.Sub(fmt.Sprint("order ", rep, k/2)).Perm(len(ks)) // two goroutines go the same way
		for _, i := range order {
			results[k][i] = ks[i].use(r.Sub(fmt.Sprint(rep, " ", ks[i].name)), k%4 == 1)
		}
	})
	r.Obs("objects made at the same time", len(ks)*c25Makers)
	for i, kind := range ks {
		alone := kind.use(r.Sub(fmt.Sprint(rep, " ", kind.name)), false)
		for k := range results {
			if results[k] == nil || results[k][i] == nil {
				continue
			}
			if d := same(alone, results[k][i]); d != "" {
				r.Fail("%s, made by goroutine %d while others were being made, works differently from one made alone: %s", kind.name, k, d)
			}
			r.Obs("results of objects made at the same time", 1)
		}
	}
}

// c25Pipes runs whole life cycles, from the parameters to the decryption, each goroutine its own.
func c25Pipes[T TI](r *R, rep int) {
	b, s := brChoices[T]()[0], ksChoices[T]()[0]
	cs := []Cfg[T]{
		mk[T](4, 1, 64, 64, 1, 4, b[0], b[1], s[0], s[1], oKS),
		mk[T](6, 1, 64, 128, 2, 4, b[0], b[1], s[0], s[1], oBR),
		mk[T](4, 2, 32, 32, 2, 2, b[0], b[1], s[0], s[1], oKS),
		mk[T](8, 1, 128, 128, 4, 4, b[0], b[1], s[0], s[1], oBR),
	}
	ms := fixedMulti[T]()
	fh := fixedFhew[T]()
	together(r, "pipelines", func(k int, fail func(string, ...any)) {
		c := cs[(k/2+rep)%len(cs)]
		p := c.Lit.Compile()
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, enc.GenEvalKey())
		P := int(c.Lit.MessageModulus)
		f := func(x int) int { return (x*x + 1) % P }
		for m := 0; m < P; m++ {
			if got := enc.DecryptLWE(ev.BootstrapFunc(enc.EncryptLWE(m), f)); got != f(m) {
				fail("%s: %d bootstrapped to %d, not %d", c.Name, m, got, f(m))
			}
		}
		be := tfhe.NewBinaryEncryptorWithKey(p, enc.SecretKey)
		if c.Lit.LWEStdDev > 0 {
			bv := tfhe.NewBinaryEvaluator(p, ev.EvalKey)
			if got := be.DecryptLWEBool(bv.NAND(be.EncryptLWEBool(true), be.EncryptLWEBool(k%2 == 0))); got == (k%2 == 0) {
				fail("%s: NAND decrypted to %v", c.Name, got)
			}
		}
		runtime.Gosched()
		if k%2 == 0 {
			fc := fh[(k/2)%2]
			fp := fc.Lit.Compile()
			fe := xtfhe.NewFHEWEncryptor(fp)
			fv := xtfhe.NewFHEWEvaluator(fp, fe.GenEvalKey())
			if got := fe.DecryptLWE(fv.BootstrapFunc(fe.EncryptLWE(1), func(x int) int { return x })); got != 1 {
				fail("%s: 1 bootstrapped to %d", fc.Name, got)
			}
		} else {
			mc := ms[3]
			w := newMkWorldSeq(mc, []byte("crs"))
			mv := mktfhe.NewEvaluator(w.params, w.evks)
			md := mktfhe.NewDecryptor(w.params, w.sks)
			for i, e := range w.encs {
				if got := md.DecryptLWE(mv.BootstrapFunc(e.EncryptLWE(1), func(x int) int { return x })); got != 1 {
					fail("%s: 1 of party %d bootstrapped to %d", mc.Name, i, got)
				}
			}
		}
	})
	r.Obs("life cycles at the same time", c25Makers)
}

// c25Worlds makes keys and objects of every kind and uses them, each goroutine its own.
func c25Worlds[T TI](r *R) {
	b, s := brChoices[T]()[0], ksChoices[T]()[0]
	fh, mm := fixedFhew[T](), fixedMulti[T]()
	makers := []func() *surfWorld[T]{
		func() *surfWorld[T] { return surfSingle(mk[T](6, 1, 32, 32, 1, 4, b[0], b[1], s[0], s[1], oKS)) },
		func() *surfWorld[T] { return surfMany[T](6, 1, 64, 2, 2, oKS) },
		func() *surfWorld[T] { return surfFhew(fh[0]) },
		func() *surfWorld[T] { return surfSan[T](6, 64, 2) },
		func() *surfWorld[T] { return surfMulti(mm[2]) },
		func() *surfWorld[T] { return surfSingle(mk[T](8, 2, 32, 128, 2, 4, b[0], b[1], s[0], s[1], oKS)) },
		func() *surfWorld[T] { return surfMany[T](8, 2, 64, 1, 4, oBR) },
		func() *surfWorld[T] { return surfMulti(mm[3]) },
	}
	for rep := 0; rep < r.Pick(1, 4); rep++ {
		for first := 0; first < len(makers); first += 4 {
			made, called := make([]int, c25Makers), make([]int, c25Makers)
			together(r, "worlds", func(k int, fail func(string, ...any)) {
				g := r.Sub(fmt.Sprint("world ", rep, first, k))
				w := makers[first+k/2]()
				for ai, a := range w.actors {
					o := a.make()
					made[k]++
					ms := a.ms
					for n := 0; n < min(len(ms), r.Pick(24, 60)); n++ {
						c, err := a.gen(g, o, ms[g.IntN(len(ms))], fmt.Sprint(rep, k, ai, n))
						if err != nil {
							continue
						}
						c.call(o, c.fresh())
						called[k]++
					}
				}
			})
			for k := range made {
				r.Obs("objects made at the same time", made[k])
				r.Obs("calls of objects made at the same time", called[k])
			}
		}
	}
}
