package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sync"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// secrets is the key material an actor's ciphertexts are judged against.
type secrets[T TI] struct {
	small, large []T
	ring         []poly.Poly[T]
}

func secretsOf[T TI](sk tfhe.SecretKey[T]) secrets[T] {
	return secrets[T]{sk.LWEKey.Value, sk.LWELargeKey.Value, sk.GLWEKey.Value}
}

// ledger records every mask and every noise stream ever produced, and reports any that appears twice.
type ledger[T TI] struct {
	r             *R
	pe            *poly.Evaluator[T]
	mask, noise   map[uint64]int
	labels        []string
	streams       map[string][]int32
	order         []string
	stL, stS, stG stat // errors under the large key, the small key, the ring key
	bytes         [256]int
	dup           int
}

const (
	maskWin  = 6
	noiseWin = 10
)

func newLedger[T TI](r *R, N int) *ledger[T] {
	return &ledger[T]{r: r, pe: poly.NewEvaluator[T](N), mask: map[uint64]int{}, noise: map[uint64]int{}, streams: map[string][]int32{}}
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	return h ^ h>>29
}

// addMask enters one mask.
func (l *ledger[T]) addMask(label string, v []T) {
	id := len(l.labels)
	l.labels = append(l.labels, label)
	sh := logQ[T]() - 16
	for _, x := range v {
		l.bytes[byte(x>>(sh+8))]++
	}
	if len(v) < maskWin {
		return
	}
	for i := 0; i+maskWin <= len(v); i++ {
		h := uint64(1)
		for _, x := range v[i : i+maskWin] {
			h = mix(h, uint64(x>>sh))
		}
		if o, ok := l.mask[h]; ok && !(o == id && i%maskWin == 0) {
			l.dup++
			if l.dup < 5 {
				l.r.Fail("words %d.. of the mask of [%s] already appeared in the mask of [%s]", i, label, l.labels[o])
			}
		}
		if i%maskWin == 0 {
			l.mask[h] = id
		}
	}
	l.r.Obs("mask words", len(v))
}

// addNoise appends errors to the noise stream of an actor.
func (l *ledger[T]) addNoise(actor string, e float64) {
	if _, ok := l.streams[actor]; !ok {
		l.order = append(l.order, actor)
	}
	q := 22
	if logQ[T]() == 32 {
		q = 6
	}
	l.streams[actor] = append(l.streams[actor], int32(math.Floor(math.Ldexp(e, -q))))
}

// finish compares all noise streams and judges the uniformity of the mask bytes.
func (l *ledger[T]) finish() {
	type at struct{ s, i int }
	seen := map[uint64]at{}
	bad := 0
	for si, a := range l.order {
		v := l.streams[a]
		for i := 0; i+noiseWin <= len(v); i++ {
			h := uint64(2)
			for _, x := range v[i : i+noiseWin] {
				h = mix(h, uint64(uint32(x)))
			}
			if o, ok := seen[h]; ok && bad < 4 {
				bad++
				l.r.Fail("noises %d.. of the stream of %s already appeared as noises %d.. of the stream of %s", i, a, o.i, l.order[o.s])
			}
			if i%noiseWin == 0 {
				seen[h] = at{si, i}
			}
		}
		l.r.Obs("noise stream words", len(v))
	}
	n := 0
	for _, c := range l.bytes {
		n += c
	}
	if n > 4000 {
		chisq(l.r, "mask bytes", l.bytes[:], uniformProbs(256))
	}
	l.r.Obs("distinct masks", len(l.labels))
}

func (l *ledger[T]) lwe(actor, label string, ct []T, s secrets[T], step T) {
	l.addMask(actor+" "+label, ct[1:])
	l.lweErr(actor, ct, s, step)
}

func (l *ledger[T]) lweErr(actor string, ct []T, s secrets[T], step T) {
	key, st := s.small, &l.stS
	if len(ct)-1 == len(s.large) {
		key, st = s.large, &l.stL
	}
	if len(ct)-1 != len(key) {
		panic(fmt.Sprintf("mask of length %d", len(ct)-1))
	}
	e := reduceTo(refLWEPhase(key, ct), step)
	st.add(e)
	l.addNoise(actor, e)
}

// reduceTo returns the centred residue of x modulo step (0 for the whole modulus).
func reduceTo[T TI](x, step T) float64 {
	if step == 0 {
		return signed(x)
	}
	x &= step - 1
	if x >= step/2 {
		return float64(x) - float64(step)
	}
	return float64(x)
}

func (l *ledger[T]) glwe(actor, label string, v []poly.Poly[T], s secrets[T], step T, masks bool) {
	if masks {
		for i := range v[1:] {
			l.addMask(fmt.Sprintf("%s %s/%d", actor, label, i), v[1+i].Coeffs)
		}
	}
	if s.ring == nil {
		return
	}
	for _, x := range refGLWEPhase(s.ring, v) {
		e := reduceTo(x, step)
		l.stG.add(e)
		l.addNoise(actor, e)
	}
}

// take enters everything contained in a ciphertext or key; step is the smallest message step.
func (l *ledger[T]) take(actor, label string, v any, s secrets[T], step T) {
	sub := func(i int) string { return fmt.Sprintf("%s/%d", label, i) }
	gstep := func(g tfhe.GadgetParameters[T]) T { return g.BaseQ(g.Level() - 1) }
	switch c := v.(type) {
	case tfhe.LWECiphertext[T]:
		l.lwe(actor, label, c.Value, s, step)
	case tfhe.GLWECiphertext[T]:
		l.glwe(actor, label, c.Value, s, step, true)
	case tfhe.FFTGLWECiphertext[T]:
		l.glwe(actor, label, invFFTGLWE(l.pe, c).Value, s, step, true)
	case tfhe.LevCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, gstep(c.GadgetParams))
		}
	case tfhe.GSWCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case tfhe.GLevCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, gstep(c.GadgetParams))
		}
	case tfhe.GGSWCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case tfhe.FFTGLevCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, gstep(c.GadgetParams))
		}
	case tfhe.FFTGGSWCiphertext[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case tfhe.LWEKeySwitchKey[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case tfhe.GLWEKeySwitchKey[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case []tfhe.GLWEKeySwitchKey[T]:
		for i, x := range c {
			l.take(actor, sub(i), x, s, 0)
		}
	case map[int]tfhe.GLWEKeySwitchKey[T]:
		for i := -4096; i < 1<<17; i++ {
			if x, ok := c[i]; ok {
				l.take(actor, sub(i), x, s, 0)
			}
		}
	case tfhe.BlindRotateKey[T]:
		for i, x := range c.Value {
			l.take(actor, sub(i), x, s, 0)
		}
	case tfhe.EvaluationKey[T]:
		l.take(actor, label+".brk", c.BlindRotateKey, s, 0)
		l.take(actor, label+".ksk", c.KeySwitchKey, s, 0)
	case tfhe.PublicKey[T]:
		rev := s
		rev.ring = nil
		for _, p := range s.ring {
			q := poly.Poly[T]{Coeffs: make([]T, len(p.Coeffs))}
			for j, x := range p.Coeffs {
				q.Coeffs[len(p.Coeffs)-1-j] = x
			}
			rev.ring = append(rev.ring, q)
		}
		for i := range c.LWEKey.Value {
			l.glwe(actor, label+".lwe", c.LWEKey.Value[i].Value, rev, 0, true)
		}
		for i := range c.GLWEKey.Value {
			l.glwe(actor, label+".ring", c.GLWEKey.Value[i].Value, s, 0, true)
		}
	case xtfhe.BFVEvaluationKey[T]:
		l.take(actor, label+".relin", c.RelinKey, s, 0)
		l.take(actor, label+".galois", c.GaloisKeys, s, 0)
	case xtfhe.CircuitBootstrapKey[T]:
		for i, x := range c.SchemeSwitchKey {
			l.take(actor, fmt.Sprintf("%s.ss%d", label, i), x, s, 0)
		}
		l.take(actor, label+".trace", c.TraceKeys, s, 0)
	case xtfhe.FHEWEvaluationKey[T]:
		l.take(actor, label+".brk", c.BlindRotateKey, s, 0)
		l.take(actor, label+".ksk", c.KeySwitchKey, s, 0)
		l.take(actor, label+".galois", c.GaloisKey, s, 0)
	case mktfhe.EvaluationKey[T]:
		l.take(actor, label, c.EvaluationKey, s, 0)
		// the masks are the common reference string, whatever the party: only the noises must differ
		for _, x := range c.CRSPublicKey.Value {
			l.glwe(actor, label+".crs", invFFTGLWE(l.pe, x).Value, s, 0, false)
		}
		l.uni(actor, label+".relin", c.RelinKey, s)
	default:
		panic(fmt.Sprintf("ledger: %T", v))
	}
	if actor != "" {
		l.r.Obs("ciphertexts entered", 1)
	}
}

// uni enters a uni-encryption: rows of the auxiliary key are fresh; the rows masked by the reference string differ in their bodies.
func (l *ledger[T]) uni(actor, label string, u mktfhe.FFTUniEncryption[T], s secrets[T]) {
	l.take(actor, label+".aux", u.Value[1], s, 0)
	for i, x := range u.Value[0].Value {
		l.addMask(fmt.Sprintf("%s %s body %d", actor, label, i), l.pe.InvFFT(x.Value[0]).Coeffs)
	}
}

func c20Gad[T TI](g *rand.Rand) tfhe.GadgetParameters[T] {
	top := 26
	if logQ[T]() == 32 {
		top = 11
	}
	b := 1 + g.IntN(top/2)
	lv := 1 + g.IntN(min(top/b, 4))
	return gadOf[T](b, lv).gp
}

// c20Cfgs are sets whose every gadget step is far above the (loud) noise.
func c20Cfgs[T TI]() []Cfg[T] {
	b, s := [2]int{6, 3}, [2]int{4, 4}
	if logQ[T]() == 32 {
		b, s = [2]int{4, 2}, [2]int{2, 4}
	}
	f := func(n, k, N, L, bs int, o tfhe.BootstrapOrder) Cfg[T] {
		return loudCfg(mk[T](n, k, N, L, bs, 2, b[0], b[1], s[0], s[1], o))
	}
	return []Cfg[T]{f(24, 1, 64, 64, 1, oKS), f(24, 2, 32, 64, 3, oBR), f(30, 2, 32, 32, 2, oKS), f(16, 1, 64, 256, 4, oBR)}
}

// c20Actor is anything able to encrypt, with the calls it offers.
type c20Actor[T TI] struct {
	name  string
	s     secrets[T]
	calls []func(label string)
}

func c20Encryptor[T TI](l *ledger[T], c Cfg[T], name string, e *tfhe.Encryptor[T], mu *sync.Mutex) *c20Actor[T] {
	p := c.Lit.Compile()
	N := c.Lit.PolyRank
	a := &c20Actor[T]{name: name, s: secretsOf(e.SecretKey)}
	g := rand.New(rand.NewPCG(hash64(name), l.r.Seed))
	take := func(label string, v any) {
		mu.Lock()
		defer mu.Unlock()
		l.take(name, label, v, a.s, 0)
	}
	zero := make([]int, 3)
	zp := poly.NewPoly[T](N)
	add := func(f func(label string)) { a.calls = append(a.calls, f) }
	add(func(s string) { take(s, e.EncryptLWE(0)) })
	add(func(s string) { take(s, e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{})) })
	add(func(s string) {
		ct := tfhe.NewLWECiphertext(p)
		for i := 0; i < 20; i++ {
			e.EncryptLWETo(ct, 0)
			take(s, ct.Copy())
			ct.Value[0] = 0
			e.EncryptLWEBody(ct)
			take(s, ct.Copy())
		}
	})
	add(func(s string) { take(s, e.EncryptLev(0, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptLevScalar(0, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGSW(0, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGSWScalar(1, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGLWE(zero)) })
	add(func(s string) { take(s, e.EncryptGLWEPlaintext(tfhe.NewGLWEPlaintext(p))) })
	add(func(s string) {
		ct := tfhe.NewGLWECiphertext(p)
		for i := 0; i < 3; i++ {
			e.EncryptGLWETo(ct, zero)
			take(s, ct.Copy())
			ct.Value[0].Clear()
			e.EncryptGLWEBody(ct)
			take(s, ct.Copy())
		}
	})
	add(func(s string) { take(s, e.EncryptFFTGLWE(zero)) })
	add(func(s string) { take(s, e.EncryptFFTGLWEPlaintext(tfhe.NewGLWEPlaintext(p))) })
	add(func(s string) { take(s, e.EncryptGLev(zero, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGLevPoly(zp, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGGSW(zero, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptGGSWPoly(zp, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptFFTGLev(zero, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptFFTGLevPoly(zp, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptFFTGGSW(zero, c20Gad[T](g))) })
	add(func(s string) { take(s, e.EncryptFFTGGSWPoly(zp, c20Gad[T](g))) })
	add(func(s string) {
		in := tfhe.LWESecretKey[T]{Value: make([]T, 3)}
		in.Value[1] = 1
		take(s, e.GenLWEKeySwitchKey(in, c20Gad[T](g)))
	})
	add(func(s string) {
		in := tfhe.NewGLWESecretKeyCustom[T](2, N)
		in.Value[0].Coeffs[1] = 1
		take(s, e.GenGLWEKeySwitchKey(in, c20Gad[T](g)))
	})
	return a
}

func c20Keys[T TI](l *ledger[T], c Cfg[T], name string, e *tfhe.Encryptor[T]) *c20Actor[T] {
	p := c.Lit.Compile()
	a := &c20Actor[T]{name: name, s: secretsOf(e.SecretKey)}
	be := tfhe.NewBinaryEncryptorWithKey(p, e.SecretKey)
	add := func(f func(label string)) { a.calls = append(a.calls, f) }
	// the streams of parallel generators interleave: each call is its own stream
	n := 0
	take := func(s string, v any) {
		n++
		l.take(fmt.Sprintf("%s-%d", name, n), s, v, a.s, 0)
	}
	add(func(s string) { take(s, e.GenEvalKey()) })
	add(func(s string) { take(s, e.GenEvalKeyParallel()) })
	add(func(s string) { take(s, e.GenBlindRotateKeyParallel()) })
	add(func(s string) { take(s, e.GenDefaultKeySwitchKeyParallel()) })
	add(func(s string) { take(s, e.GenDefaultKeySwitchKey()) })
	add(func(s string) { take(s, be.GenEvalKeyParallel()) })
	if c.Lit.BootstrapOrder == oKS {
		add(func(s string) { take(s, e.GenPublicKey()) })
		add(func(s string) { take(s, be.GenPublicKey()) })
	}
	return a
}

func (l *ledger[T]) judge(r *R, c Cfg[T]) {
	l.finish()
	l.stG.declared(r, "ring errors", glweStd(c.Lit))
	lw := c.Lit.LWEStdDev * math.Exp2(float64(logQ[T]()))
	l.stS.declared(r, "small-key errors", lw)
	if c.Lit.BootstrapOrder == oKS {
		l.stL.declared(r, "large-key errors", glweStd(c.Lit))
	}
}

// c20Hist drives random histories over several actors sharing or not sharing a key.
func c20Hist[T TI](r *R) {
	for _, c := range c20Cfgs[T]() {
		r.SeedLib(c.Name)
		p := c.Lit.Compile()
		l := newLedger[T](r, c.Lit.PolyRank)
		var mu sync.Mutex
		e := tfhe.NewEncryptor(p)
		cp := e.SafeCopy()
		be := tfhe.NewBinaryEncryptorWithKey(p, e.SecretKey)
		as := []*c20Actor[T]{
			c20Encryptor(l, c, "encryptor", e, &mu),
			c20Encryptor(l, c, "same key", tfhe.NewEncryptorWithKey(p, e.SecretKey), &mu),
			c20Encryptor(l, c, "copied key", tfhe.NewEncryptorWithKey(p, e.SecretKey.Copy()), &mu),
			c20Encryptor(l, c, "safe copy", cp, &mu),
			c20Encryptor(l, c, "second safe copy", e.SafeCopy(), &mu),
			c20Encryptor(l, c, "copy of the copy", cp.SafeCopy(), &mu),
			c20Encryptor(l, c, "another encryptor", tfhe.NewEncryptor(p), &mu),
			c20Encryptor(l, c, "binary", be.Encryptor, &mu),
			c20Encryptor(l, c, "binary safe copy", be.SafeCopy().Encryptor, &mu),
			c20Keys(l, c, "keygen", e),
			c20Keys(l, c, "keygen copy", e.SafeCopy()),
			c20Keys(l, c, "keygen of another", tfhe.NewEncryptor(p)),
		}
		// every call once per actor in the same order (streams aligned), then at random
		for j := 0; ; j++ {
			any := false
			for _, a := range as {
				if j < len(a.calls) {
					any = true
					r.Case(fmt.Sprintf("%s %s call %d", c.Name, a.name, j), func() { a.calls[j](fmt.Sprintf("call %d", j)) })
				}
			}
			if !any {
				break
			}
		}
		for i := 0; i < r.Pick(60, 1200); i++ {
			a := as[r.Rng.IntN(len(as))]
			j := r.Rng.IntN(len(a.calls))
			r.Case(fmt.Sprintf("%s step %d %s call %d", c.Name, i, a.name, j), func() { a.calls[j](fmt.Sprintf("step %d call %d", i, j)) })
		}
		r.Case(c.Name+" binary bits", func() {
			for i := 0; i < 40; i++ {
				for j, ct := range be.EncryptLWEBits(5, 4) {
					l.addMask(fmt.Sprintf("bits %d/%d", i, j), ct.Value[1:])
				}
			}
		})
		r.Case(c.Name+" verdict", func() { l.judge(r, c) })
	}
}

// c20Conc uses safe copies at the same time.
func c20Conc[T TI](r *R) {
	for _, c := range c20Cfgs[T]()[:2] {
		r.SeedLib(c.Name)
		p := c.Lit.Compile()
		for round := 0; round < r.Pick(3, 20); round++ {
			r.Case(fmt.Sprintf("%s round %d", c.Name, round), func() {
				l := newLedger[T](r, c.Lit.PolyRank)
				var mu sync.Mutex
				e := tfhe.NewEncryptor(p)
				var wg sync.WaitGroup
				for w := 0; w < 8; w++ {
					a := c20Encryptor(l, c, fmt.Sprintf("worker %d", w), e.SafeCopy(), &mu)
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if x := recover(); x != nil {
								r.FailAt(c.Name, "worker: %v", x)
							}
						}()
						for i := 0; i < 60; i++ {
							a.calls[(i*7+w*round)%len(a.calls)](fmt.Sprint(i))
						}
					}()
				}
				wg.Wait()
				l.judge(r, c)
			})
		}
	}
}

// c20Long draws millions of mask words from one encryptor.
func c20Long[T TI](r *R) {
	c := c20Cfgs[T]()[0]
	c.Lit.LWEDimension, c.Lit.PolyRank, c.Lit.LUTSize = 512, 1024, 1024
	p := c.Lit.Compile()
	r.Case("long history", func() {
		l := newLedger[T](r, 1024)
		e := tfhe.NewEncryptor(p)
		n := r.Pick(1500, 12000)
		ct := tfhe.NewGLWECiphertext(p)
		lc := tfhe.NewLWECiphertext(p)
		s := secretsOf(e.SecretKey)
		for i := 0; i < n; i++ {
			if i%5 == 0 {
				e.EncryptLWETo(lc, 0)
				l.lwe("long", fmt.Sprint(i), lc.Value, s, 0)
			}
			e.EncryptGLWETo(ct, nil)
			l.addMask(fmt.Sprint(i), ct.Value[1].Coeffs)
			if i%20 == 0 {
				l.glwe("long", "", ct.Value, s, 0, false)
			}
		}
		l.judge(r, c)
	})
}

// c20Public watches public-key encryption: with a zero key only the noise remains, with a key of half the modulus the
// auxiliary key shows.
func c20Public[T TI](r *R) {
	for _, c := range c20Cfgs[T]() {
		if c.Lit.BootstrapOrder != oKS {
			continue
		}
		r.SeedLib(c.Name)
		p := c.Lit.Compile()
		N, k := c.Lit.PolyRank, c.Lit.GLWERank
		e := tfhe.NewEncryptor(p)
		pk := e.GenPublicKey()
		zk := tfhe.NewPublicKey(p)
		hk := tfhe.NewPublicKey(p)
		half := T(1) << (logQ[T]() - 1)
		for i := 0; i < k; i++ {
			hk.GLWEKey.Value[i].Value[0].Coeffs[0] = half
			hk.LWEKey.Value[i].Value[0].Coeffs[0] = half
		}
		l := newLedger[T](r, N)
		zl := newLedger[T](r, N)
		bits := map[string]string{}
		ones, total := 0, 0
		zst := map[string]*stat{}
		zadd := func(label string, x float64) {
			if zst[label] == nil {
				zst[label] = &stat{}
			}
			zst[label].add(x)
		}
		calls := func(e *tfhe.PublicEncryptor[T], g int) (tfhe.GLWECiphertext[T], []T) {
			ct := tfhe.NewGLWECiphertext(p)
			lc := tfhe.NewLWECiphertext(p)
			switch g % 4 {
			case 0:
				ct = e.EncryptGLWE(nil)
				lc = e.EncryptLWE(0)
			case 1:
				e.EncryptGLWETo(ct, []int{0})
				e.EncryptLWETo(lc, 0)
			case 2:
				ct = invFFTGLWE(l.pe, e.EncryptFFTGLWE(nil))
				lc = e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{})
			case 3:
				e.EncryptGLWEBody(ct)
				e.EncryptLWEBody(lc)
			}
			return ct, lc.Value
		}
		mk3 := func(pk tfhe.PublicKey[T]) []*tfhe.PublicEncryptor[T] {
			a := tfhe.NewPublicEncryptor(p, pk)
			b := a.SafeCopy()
			d := tfhe.NewBinaryPublicEncryptor(p, pk)
			return []*tfhe.PublicEncryptor[T]{a, b, b.SafeCopy(), tfhe.NewPublicEncryptor(p, pk), d.Encryptor, d.SafeCopy().Encryptor}
		}
		real, zero, hf := mk3(pk), mk3(zk), mk3(hk)
		for i := 0; i < r.Pick(140, 600); i++ {
			for a := range real {
				r.Case(fmt.Sprintf("%s step %d actor %d", c.Name, i, a), func() {
					name := fmt.Sprintf("public %d", a)
					ct, lc := calls(real[a], i)
					for j := range ct.Value[1:] {
						l.addMask(fmt.Sprint(name, i, j), ct.Value[1+j].Coeffs)
					}
					l.addMask(fmt.Sprint(name, "lwe", i), lc[1:])
					// zero key: body and mask are pure noise
					ct, lc = calls(zero[a], i)
					for j := range ct.Value {
						for _, x := range ct.Value[j].Coeffs {
							zadd(fmt.Sprintf("ring component %d, entry %d", j, i%4), signed(x))
							zl.addNoise(name, signed(x))
						}
					}
					zadd(fmt.Sprintf("scalar body, entry %d", i%4), signed(lc[0]))
					for q, x := range lc[1:] {
						zadd(fmt.Sprintf("scalar mask, block %d, entry %d", q/N, i%4), signed(x))
						zadd(fmt.Sprintf("scalar mask, position %d", q), signed(x))
						zl.addNoise(name, signed(x))
					}
					// half key: the auxiliary key is the top bit of the body
					ct, _ = calls(hf[a], i)
					v := make([]byte, N)
					for j, x := range ct.Value[0].Coeffs {
						b := byte((x + half/2) >> (logQ[T]() - 1))
						v[j] = '0' + b
						ones += int(b)
						total++
					}
					key := string(v)
					if o, ok := bits[key]; ok {
						r.Fail("%s call %d used the auxiliary key of %s", name, i, o)
					}
					bits[key] = fmt.Sprint(name, " call ", i)
					r.Obs("auxiliary keys", 1)
				})
			}
		}
		r.Case(c.Name+" verdict", func() {
			l.finish()
			zl.finish()
			for _, k := range sortedKeys(zst) {
				zst[k].declared(r, "public encryption noise, "+k, glweStd(c.Lit))
				if r.Check(zst[k].n >= 200, "%s: only %d samples", k, zst[k].n) {
					r.Obs("noise components judged", 1)
				}
			}
			chisq(r, "auxiliary key bits", []int{total - ones, ones}, uniformProbs(2))
		})
	}
}

// c20Ext watches the keys of the extensions and of the multi-key parties.
func c20Ext[T TI](r *R) {
	for ci, c := range c20Cfgs[T]() {
		r.SeedLib(c.Name)
		p := c.Lit.Compile()
		N := c.Lit.PolyRank
		l := newLedger[T](r, N)
		e := tfhe.NewEncryptor(p)
		s := secretsOf(e.SecretKey)
		n := 0
		take := func(s2 string, v any, s secrets[T]) {
			n++
			r.Case(fmt.Sprintf("%s %s %d", c.Name, s2, n), func() { l.take(fmt.Sprintf("%s %d", s2, n), s2, v, s, 0) })
		}
		g := r.Rng
		for i := 0; i < r.Pick(2, 10); i++ {
			kg := xtfhe.NewBFVKeyGenerator(p, e.SecretKey)
			gp := c20Gad[T](g)
			for _, x := range []*xtfhe.BFVKeyGenerator[T]{kg, kg.SafeCopy(), kg} {
				take("bfv", x.GenEvalKey([]int{3, 5, -1}, gp), s)
				take("pack", x.GenGaloisKeysForPack(gp), s)
				take("galois", x.GenGaloisKeys([]int{3, 7}, gp), s)
				o := map[int]tfhe.GLWEKeySwitchKey[T]{}
				x.GenGaloisKeysTo(o, []int{3, 9}, gp)
				x.GenGaloisKeysForPackTo(o, gp)
				take("galois", o, s)
				take("relin", x.GenRelinKey(gp), s)
			}
			if c.Lit.LUTSize == c.Lit.PolyRank {
				lit := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: c.Lit, LUTCount: 2}}
				small := tfhe.GadgetParametersLiteral[T]{Base: 4, Level: 3}
				lit.SchemeSwitchParams, lit.TraceKeySwitchParams, lit.OutputParams = small, small, small
				ck := xtfhe.NewCircuitBootstrapKeyGenerator(lit.Compile(), e.SecretKey)
				take("circuit", ck.GenCircuitBootstrapKey(), s)
				take("circuit", ck.SafeCopy().GenCircuitBootstrapKey(), s)
			}
			if max(1, c.Lit.BlockSize) == 1 && c.Lit.LUTSize == c.Lit.PolyRank {
				lit := xtfhe.FHEWParametersLiteral[T]{BaseParams: c.Lit, SecretKeyStdDev: math.Exp2(float64(1 - logQ[T]())), WindowSize: 3}
				f := xtfhe.NewFHEWEncryptor(lit.Compile())
				fs := secretsOf(f.SecretKey)
				take("fhew", f.GenEvalKey(), fs)
				take("fhew", f.GenEvalKeyParallel(), fs)
				take("fhew", f.SafeCopy().GenEvalKeyParallel(), fs)
				take("fhew", xtfhe.NewFHEWEncryptorWithKey(lit.Compile(), f.SecretKey).GenBlindRotateKey(), fs)
				k2 := f.GenSecretKey()
				r.Check(!eqV(k2.LWELargeKey.Value, f.SecretKey.LWELargeKey.Value), "two generated keys are equal")
			}
		}
		r.Case(c.Name+" verdict", func() { l.judge(r, c) })
		if c.Lit.GLWERank != 1 || c.Lit.LUTSize != c.Lit.PolyRank {
			continue
		}
		_ = ci
		m := mkMulti(c, 3, 4, 2, 4, 2)
		m.Lit.SubParams.LWEStdDev, m.Lit.SubParams.GLWEStdDev = c.Lit.LWEStdDev, c.Lit.GLWEStdDev
		mp := m.Lit.Compile()
		for i := 0; i < r.Pick(3, 12); i++ {
			r.Case(fmt.Sprintf("%s parties %d", m.Name, i), func() {
				l := newLedger[T](r, N)
				seed := []byte(fmt.Sprint("seed", i))
				e0 := mktfhe.NewEncryptor(mp, 0, seed)
				as := []*mktfhe.Encryptor[T]{e0, e0.SafeCopy(), mktfhe.NewEncryptorWithKey(mp, 1, seed, e0.SecretKey), mktfhe.NewEncryptor(mp, 2, seed),
					mktfhe.NewBinaryEncryptorWithKey(mp, 2, seed, e0.SecretKey).Encryptor, mktfhe.NewEncryptor(mp, 0, seed)}
				gp := gadOf[T](3, 2).gp
				dl := lweDim(c.Lit)
				for round := 0; round < 3; round++ {
					for ai, a := range as {
						name := fmt.Sprintf("party actor %d", ai)
						as := secretsOf(a.SecretKey)
						for q := 0; q < 8; q++ {
							ct := a.EncryptLWE(0).Value
							own := append([]T{ct[0]}, ct[1+a.Index*dl:1+(a.Index+1)*dl]...)
							l.lwe(name, "lwe", own, as, 0)
						}
						ct := a.EncryptGLWE(nil)
						l.glwe(name, "ring", []poly.Poly[T]{ct.Value[0], ct.Value[1+a.Index]}, as, 0, true)
						ft := a.EncryptFFTGLWE(nil)
						l.glwe(name, "fft ring", []poly.Poly[T]{l.pe.InvFFT(ft.Value[0]), l.pe.InvFFT(ft.Value[1+a.Index])}, as, 0, true)
						l.uni(name, "uni", a.FFTUniEncrypt(nil, gp), as)
						u := a.UniEncryptPoly(poly.NewPoly[T](N), gp)
						l.take(name, "uni.aux", u.Value[1], as, 0)
						for i, x := range u.Value[0].Value {
							l.addMask(fmt.Sprintf("%s uni body %d", name, i), x.Value[0].Coeffs)
						}
						if round < 2 {
							k := fmt.Sprintf("%s keys %d", name, round)
							if (ai+round)%2 == 0 {
								l.take(k, "evk", a.GenEvalKey(), as, 0)
							} else {
								l.take(k, "evk", a.GenEvalKeyParallel(), as, 0)
							}
						}
						r.Obs("party rounds", 1)
					}
				}
				l.judge(r, c)
			})
		}
	}
}

func init() {
	about("C20", "Cases: every call of every encryptor, key generator and copy of them, in aligned and in random order; each mask (six consecutive words at every offset) and each noise stream (ten consecutive errors) enters a ledger that reports any second appearance; errors are measured by schoolbook decryption and judged against the declared deviation; public-key encryption is driven with a zero key (noise shows) and a half-modulus key (auxiliary key shows).",
		"noise streams are compared after quantization to the precision of the Fourier domain", "small-key masks shorter than six words are not entered")
	needObs("C20", "mask words", 2000000)
	needObs("C20", "noise stream words", 300000)
	needObs("C20", "auxiliary keys", 400)
	needObs("C20", "noise components judged", 100)
	needObs("C20", "party rounds", 100)
	reg("C20", "hist32", vAvx, vAll, func(r *R) { c20Hist[uint32](r) })
	reg("C20", "hist64", vAvx, vAll, func(r *R) { c20Hist[uint64](r) })
	reg("C20", "conc32", vAvx, vTwo, func(r *R) { c20Conc[uint32](r) })
	reg("C20", "conc64", vAvx, vTwo, func(r *R) { c20Conc[uint64](r) })
	reg("C20", "long32", vAvx, vTwo, func(r *R) { c20Long[uint32](r) })
	reg("C20", "long64", vAvx, vTwo, func(r *R) { c20Long[uint64](r) })
	reg("C20", "public32", vTwo, vAll, func(r *R) { c20Public[uint32](r) })
	reg("C20", "public64", vTwo, vAll, func(r *R) { c20Public[uint64](r) })
	reg("C20", "ext32", vAvx, vAll, func(r *R) { c20Ext[uint32](r) })
	reg("C20", "ext64", vAvx, vAll, func(r *R) { c20Ext[uint64](r) })
}
