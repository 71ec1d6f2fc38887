package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// m07Seed draws a shared seed: empty ones, short and long ones, and ones that differ in a single bit or in length.
func m07Seed(g *rand.Rand) []byte {
	switch g.IntN(6) {
	case 0:
		return []byte{}
	case 1:
		return make([]byte, 1+g.IntN(40))
	}
	s := make([]byte, []int{1, 8, 31, 32, 33, 64, 200}[g.IntN(7)])
	for i := range s {
		s[i] = byte(g.Uint32())
	}
	return s
}

func m07Flat[T TI](crs []poly.Poly[T]) []T {
	var o []T
	for _, p := range crs {
		o = append(o, p.Coeffs...)
	}
	return o
}

// corrTest judges that two error vectors are uncorrelated (and their equality).
func corrTest(r *R, label string, a, b []float64) {
	var ab, aa, bb float64
	for i := range a {
		ab += a[i] * b[i]
		aa += a[i] * a[i]
		bb += b[i] * b[i]
	}
	if aa == 0 || bb == 0 || len(a) < 64 {
		return
	}
	c := ab / math.Sqrt(aa*bb) * math.Sqrt(float64(len(a)))
	r.Check(math.Abs(c) < 8, "%s: errors are correlated (%.1f deviations over %d)", label, c, len(a))
	r.Max("correlation in deviations", math.Abs(c))
	r.Obs("correlations", 1)
}

// m07Key checks the multi-key components of an evaluation key; it returns the errors of the public part and of the
// relinearization key, and the auxiliary secret of the latter.
func m07Key[T TI](r *R, c MCfg[T], sk tfhe.SecretKey[T], crs []poly.Poly[T], ek mktfhe.EvaluationKey[T], st *stat) (pub, rel []float64, aux []T) {
	N := c.Lit.SubParams.PolyRank
	pe := poly.NewEvaluator[T](N)
	gr := gadOf[T](bitLen(c.Lit.RelinKeyParams.Base)-1, c.Lit.RelinKeyParams.Level)
	std := glweStd(c.Lit.SubParams)
	ring := sk.GLWEKey.Value[:1]
	lim := 9.5*std + fftTol[T](N)*16 + 1
	tol := fftTol[T](N)*4 + 1
	pk := ek.CRSPublicKey
	if !r.Check(len(pk.Value) == gr.level && pk.GadgetParams == gr.gp && len(crs) == gr.level, "public part of %d levels, reference string of %d, gadget %+v", len(pk.Value), len(crs), pk.GadgetParams) {
		return
	}
	for l := range pk.Value {
		ct := invFFTGLWE(pe, pk.Value[l])
		r.Check(maxDiff(ct.Value[1].Coeffs, crs[l].Coeffs) <= tol, "level %d of the public part is not masked by the reference string (off by %g)", l, maxDiff(ct.Value[1].Coeffs, crs[l].Coeffs))
		for _, x := range refGLWEPhase(ring, ct.Value) {
			d := signed(x)
			st.add(d)
			pub = append(pub, d)
			if math.Abs(d) > lim {
				r.Fail("level %d of the public part has error %g (declared deviation %g)", l, d, std)
				return
			}
		}
		r.Obs("key levels", 1)
	}
	rk := ek.RelinKey
	if !r.Check(len(rk.Value) == 2 && rk.GadgetParams == gr.gp && len(rk.Value[0].Value) == gr.level && len(rk.Value[1].Value) == gr.level, "relinearization key of %d parts, gadget %+v", len(rk.Value), rk.GadgetParams) {
		return
	}
	// the auxiliary secret, from the leading level of its encryption
	aux = make([]T, N)
	for i, x := range refGLWEPhase(ring, invFFTGLWE(pe, rk.Value[1].Value[0]).Value) {
		v := math.Round(signed(x) / float64(gr.q(0)))
		if v != 0 && v != 1 {
			if !(gr.logB == 1 && v == -1) {
				r.Fail("the auxiliary secret has coefficient %g", v)
				return
			}
			v = 1
		}
		aux[i] = T(v)
	}
	for l := 0; l < gr.level; l++ {
		for i, x := range refGLWEPhase(ring, invFFTGLWE(pe, rk.Value[1].Value[l]).Value) {
			d := signed(x - aux[i]*gr.q(l))
			st.add(d)
			rel = append(rel, d)
			if math.Abs(d) > lim {
				r.Fail("level %d of the encrypted auxiliary secret has error %g (declared deviation %g)", l, d, std)
				return
			}
		}
		ct := invFFTGLWE(pe, rk.Value[0].Value[l])
		r.Check(maxDiff(ct.Value[1].Coeffs, crs[l].Coeffs) <= tol, "level %d of the relinearization key is not masked by the reference string", l)
		ph := subV(ct.Value[0].Coeffs, negaMul(ct.Value[1].Coeffs, aux))
		for i, x := range ph {
			d := signed(x - ring[0].Coeffs[i]*gr.q(l))
			st.add(d)
			rel = append(rel, d)
			if math.Abs(d) > lim {
				r.Fail("level %d of the relinearization key has error %g (declared deviation %g)", l, d, std)
				return
			}
		}
		r.Obs("key levels", 2)
	}
	return
}

// m07Crs derives reference strings in one process and in another one.
func m07Child[T TI](seed uint64) [][]T {
	g := rand.New(rand.NewPCG(seed, hash64("reference strings")))
	var out [][]T
	for i := 0; i < 12; i++ {
		c := randMulti[T](g)
		s := m07Seed(g)
		out = append(out, m07Flat(mktfhe.NewEncryptor(c.Lit.Compile(), c.Lit.PartyCount-1, s).CRS))
	}
	return out
}

func m07Crs[T TI](r *R, cfgs []MCfg[T], reps int) {
	g := r.Rng
	var cells [256]int
	for _, c := range cfgs {
		params := c.Lit.Compile()
		P, N, L := c.Lit.PartyCount, c.Lit.SubParams.PolyRank, c.Lit.RelinKeyParams.Level
		all := map[string]string{}
		for rep := 0; rep < reps; rep++ {
			s := m07Seed(g)
			r.Case(fmt.Sprintf("%s reference string of %d-byte seed #%d", c.Name, len(s), rep), func() {
				keep := append([]byte(nil), s...)
				first := mktfhe.NewEncryptor(params, g.IntN(P), s)
				want := m07Flat(first.CRS)
				r.Check(len(first.CRS) == L && len(want) == L*N, "reference string of %d levels, %d coefficients", len(first.CRS), len(want))
				for l := range first.CRS {
					for m := 0; m < l; m++ {
						r.Check(!eqV(first.CRS[l].Coeffs, first.CRS[m].Coeffs), "levels %d and %d are equal", m, l)
					}
				}
				if len(s) < 8 || s[0] == 0 && s[1] == 0 {
					want = nil // few distinct seeds: they would be counted many times
				}
				for _, x := range want {
					cells[byte(x)]++
					cells[byte(uint64(x)>>(logQ[T]()-8))]++
				}
				want = m07Flat(first.CRS)
				used := append([]T(nil), want...)
				for i := 0; i < P; i++ {
					if g.IntN(3) == 0 { // any amount of sampling in between
						first.EncryptLWE(1)
						first.GenCRSPublicKey()
					}
					e := mktfhe.NewEncryptor(params, i, s)
					o := mktfhe.NewEncryptorWithKey(params, P-1-i, append([]byte(nil), s...), e.SecretKey)
					b := mktfhe.NewBinaryEncryptor(params, i, s)
					bo := mktfhe.NewBinaryEncryptorWithKey(params, i, s, e.SecretKey)
					for j, x := range []*mktfhe.Encryptor[T]{e, o, e.SafeCopy(), b.Encryptor, bo.Encryptor, b.SafeCopy().Encryptor} {
						r.Check(eqV(m07Flat(x.CRS), want), "party %d derives another reference string (way %d)", i, j)
						r.Obs("derivations", 1)
					}
					if N >= 64 {
						r.Check(!eqV(e.SecretKey.LWELargeKey.Value, first.SecretKey.LWELargeKey.Value) && !eqV(b.Encryptor.SecretKey.LWELargeKey.Value, e.SecretKey.LWELargeKey.Value),
							"two parties sharing a seed drew the same secret")
					}
				}
				r.Check(eqV(m07Flat(first.CRS), used), "the reference string changed")
				r.Check(string(keep) == string(s), "the seed changed")
				if o, ok := all[fmt.Sprint(want[:4])]; ok {
					r.Check(o == string(s), "different seeds give the same reference string")
				}
				all[fmt.Sprint(want[:4])] = string(s)
				// a seed one bit or one byte away
				near := append([]byte(nil), s...)
				if len(near) > 0 && g.IntN(2) == 0 {
					near[g.IntN(len(near))] ^= 1 << g.IntN(8)
				} else {
					near = append(near, 0)
				}
				other := m07Flat(mktfhe.NewEncryptor(params, 0, near).CRS)
				hits := 0
				for i := range other {
					if other[i] == want[i] {
						hits++
					}
				}
				r.Check(hits <= 3, "reference strings of different seeds share %d of %d coefficients", hits, len(want))
				r.Obs("reference strings", 1)
			})
		}
	}
	r.Case("reference string distribution", func() { chisq(r, "bytes of reference strings", cells[:], uniformProbs(256)) })
	r.Case("reference strings of another process", func() {
		want := m07Child[T](r.Seed)
		f, err := os.CreateTemp(os.Getenv("VH_WORK"), "crs")
		if err != nil {
			panic(err)
		}
		f.Close()
		defer os.Remove(f.Name())
		cmd := exec.Command(filepath.Clean(os.Args[0]), "-id", "M07", "-group", fmt.Sprintf("child%d", logQ[T]()), "-seed", fmt.Sprint(r.Seed), "-variant", r.Variant)
		cmd.Env = append(os.Environ(), "VH_CRS_FILE="+f.Name())
		if out, err := cmd.CombinedOutput(); err != nil {
			r.Fail("the other process failed: %v %.500s", err, out)
			return
		}
		b, _ := os.ReadFile(f.Name())
		var got [][]T
		if err := json.Unmarshal(b, &got); err != nil {
			r.Fail("no output from the other process")
			return
		}
		for i := range want {
			r.Check(i < len(got) && eqV(got[i], want[i]), "another process derives another reference string (%d)", i)
		}
		r.Obs("cross-process comparisons", len(want))
	})
}

func m07Keys[T TI](r *R, c MCfg[T], rows int, boot int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	P, lit := c.Lit.PartyCount, c.Lit.SubParams
	s := m07Seed(g)
	var st, br, ks stat
	w := &mkWorld[T]{c: c, params: params, crs: s, sks: map[int]tfhe.SecretKey[T]{}, evks: map[int]mktfhe.EvaluationKey[T]{}}
	pubs, rels := make([][]float64, P), make([][]float64, P)
	auxs := make([][]T, P)
	ways := make([]int, P)
	for i := 0; i < P; i++ {
		ways[i] = g.IntN(5)
		r.Case(fmt.Sprintf("%s party %d key, way %d", c.Name, i, ways[i]), func() {
			e := mktfhe.NewEncryptor(params, i, s)
			if i > 0 && g.IntN(2) == 0 { // someone else's index does not matter, a known key may be used
				e = mktfhe.NewEncryptorWithKey(params, i, append([]byte(nil), s...), e.SecretKey)
			}
			keep := e.SecretKey.Copy()
			var ek mktfhe.EvaluationKey[T]
			switch ways[i] {
			case 0:
				ek = e.GenEvalKey()
			case 1:
				ek = e.GenEvalKeyParallel()
			case 2:
				ek = mktfhe.NewBinaryEncryptorWithKey(params, i, s, e.SecretKey).GenEvalKeyParallel()
			case 3:
				ek = e.SafeCopy().GenEvalKeyParallel()
			case 4:
				sub := tfhe.NewEncryptorWithKey(params.SubParams(), e.SecretKey)
				ek = mktfhe.EvaluationKey[T]{EvaluationKey: sub.GenEvalKeyParallel(), CRSPublicKey: e.GenCRSPublicKey(), RelinKey: e.GenRelinKey()}
				ek.EvaluationKey.KeySwitchKey = e.GenDefaultKeySwitchKeyParallel()
			}
			if g.IntN(2) == 0 {
				ek = through(r, ek.Copy())
			}
			if d := same(e.SecretKey, keep); d != "" {
				r.Fail("key generation changed the secret key: %s", d)
			}
			evkCheck(r, Cfg[T]{c.Name, lit}, keep, ek.EvaluationKey, rows, &br, &ks)
			pubs[i], rels[i], auxs[i] = m07Key(r, c, keep, e.CRS, ek, &st)
			p2, r2, a2 := m07Key(r, c, keep, e.CRS, mktfhe.EvaluationKey[T]{CRSPublicKey: e.GenCRSPublicKey(), RelinKey: e.GenRelinKey()}, &st)
			// the transforms round a mask always in the same way: errors below that are naturally correlated
			audible := glweStd(lit) > 4*fftTol[T](lit.PolyRank)
			if audible && pubs[i] != nil && rels[i] != nil && p2 != nil && r2 != nil {
				corrTest(r, "public parts of one party", pubs[i], p2)
				corrTest(r, "relinearization keys of one party", rels[i], r2)
				L := c.Lit.RelinKeyParams.Level
				n := len(pubs[i]) / L
				for l := 1; l < L; l++ {
					corrTest(r, "levels of one public part", pubs[i][:n], pubs[i][l*n:(l+1)*n])
				}
				corrTest(r, "public part and relinearization key", pubs[i], rels[i][:len(pubs[i])])
				if n >= 64 {
					r.Check(!eqV(auxs[i], a2), "two relinearization keys share their auxiliary secret")
					r.Check(!eqV(auxs[i], keep.GLWEKey.Value[0].Coeffs), "the auxiliary secret is the secret key")
				}
			}
			for j := 0; j < i; j++ {
				if !audible || pubs[i] == nil || pubs[j] == nil || rels[i] == nil || rels[j] == nil {
					continue
				}
				corrTest(r, "public parts of two parties", pubs[i], pubs[j])
				corrTest(r, "relinearization keys of two parties", rels[i], rels[j])
				if lit.PolyRank >= 64 {
					r.Check(!eqV(auxs[i], auxs[j]), "two parties share an auxiliary secret")
					r.Check(!eqV(w.sks[j].LWELargeKey.Value, keep.LWELargeKey.Value), "two parties share a secret")
				}
			}
			w.encs = append(w.encs, e)
			w.sks[i], w.evks[i] = e.SecretKey, ek
			w.kb = append(w.kb, e.SecretKey.LWEKey.Value...)
			r.Obs("evaluation keys", 1)
		})
	}
	if len(w.encs) < P {
		return
	}
	w.kl, w.kg = mkLWEKey(c, w.sks), mkGLWEKey(c, w.sks)
	if glweStd(lit) > 4*fftTol[T](lit.PolyRank) {
		r.Case(c.Name+" errors", func() {
			st.declared(r, "multi-key components", glweStd(lit))
			ks.declared(r, "key switching rows", lit.LWEStdDev*math.Exp2(float64(logQ[T]())))
			br.declared(r, "blind rotation rows", glweStd(lit))
		})
	}
	if P < 2 || boot == 0 {
		return
	}
	// Keys of one seed work together; a party with another seed does not fit in.
	set := map[int]bool{0: true, P - 1: true}
	est := w.bootStd(2)
	q := math.Exp2(float64(logQ[T]()))
	p := float64(lit.MessageModulus)
	steps := float64(lit.LWEDimension / max(lit.BlockSize, 1))
	if 12*est+2 > q/(4*p) || (steps+3)*q/float64(2*lit.PolyRank)+12*(w.ksStd(2)+lweStd(lit)*1.5) > q/(4*p) {
		r.Obs("sets without room", 1)
		return
	}
	dim := len(w.kl)
	run := func(ev *mktfhe.Evaluator[T], i int) (float64, bool) {
		m := g.IntN(int(lit.MessageModulus))
		f := func(x int) int { return (3*x + 1) % int(lit.MessageModulus) }
		// a joint message: the sum of two shares that does not wrap
		a := w.encs[0].EncryptLWE(m)
		b := w.encs[P-1].EncryptLWE(0)
		for j := range a.Value {
			a.Value[j] += b.Value[j]
		}
		o := ev.BootstrapFunc(a, f)
		r.Check(len(o.Value) == dim+1, "dimension %d", len(o.Value)-1)
		scale := refDivRound(q, 2*p)
		d := signed(refLWEPhase(w.kl, o.Value) - T(uint64(f(m)))*T(scale))
		return math.Abs(d), w.encs[0].DecodeLWE(tfhe.LWEPlaintext[T]{Value: refLWEPhase(w.kl, o.Value)}) == f(m)
	}
	ev, _ := w.evaluator(g, set)
	for i := 0; i < boot; i++ {
		r.Case(fmt.Sprintf("%s interoperation %d", c.Name, i), func() {
			d, ok := run(ev, i)
			r.Check(ok, "joint bootstrapping decodes wrongly")
			r.Check(d <= 12*est+2, "joint bootstrapping is off by %g, estimated deviation %g", d, est)
			r.Max("error / estimate", d/est)
			r.Obs("joint bootstraps", 1)
		})
	}
	r.Case(c.Name+" incompatible seeds", func() {
		other := mktfhe.NewEncryptorWithKey(params, P-1, append(append([]byte(nil), s...), 1), w.sks[P-1])
		bad := mktfhe.NewEvaluator(params, map[int]mktfhe.EvaluationKey[T]{0: w.evks[0], P - 1: other.GenEvalKeyParallel()})
		worst := 0.0
		for i := 0; i < 6; i++ {
			d, _ := run(bad, i)
			worst = max(worst, d)
		}
		r.Check(worst > 12*est+2, "a party with another seed is compatible (errors at most %g)", worst)
		r.Obs("incompatible parties", 1)
	})
}

func refDivRound(a, b float64) uint64 { return uint64(math.Round(a / b)) }

func m07Run[T TI](r *R) {
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(4, 40); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	m07Crs(r, cfgs, r.Pick(6, 60))
	for _, c := range cfgs {
		for i := 0; i < r.Pick(1, 6); i++ {
			m07Keys(r, c, r.Pick(40, 400), r.Pick(5, 30))
			l := c
			l.Name, l.Lit.SubParams = "loud "+c.Name, loudCfg(Cfg[T]{c.Name, c.Lit.SubParams}).Lit
			m07Keys(r, l, r.Pick(40, 400), 0)
		}
	}
}

func m07ChildRun[T TI](r *R) {
	b, _ := json.Marshal(m07Child[T](r.Seed))
	if err := os.WriteFile(os.Getenv("VH_CRS_FILE"), b, 0o600); err != nil {
		panic(err)
	}
}

func init() {
	about("M07", "Cases: reference strings of random seeds (empty, constant, 1-200 bytes) derived by every constructor, party index and copy, before and after use and in another process; evaluation keys of all parties generated in every way, with each level of the public part and of the relinearization key opened by schoolbook arithmetic; joint bootstraps, and ones mixing seeds.",
		"the system randomness of the library is replaced by a deterministic stream with independent draws",
		"incompatibility of different seeds is judged on the worst of six bootstraps")
	needObs("M07", "derivations", 500)
	needObs("M07", "reference strings", 100)
	needObs("M07", "evaluation keys", 60)
	needObs("M07", "key levels", 1000)
	needObs("M07", "correlations", 300)
	needObs("M07", "joint bootstraps", 50)
	needObs("M07", "incompatible parties", 10)
	needObs("M07", "cross-process comparisons", 24)
	reg("M07", "small32", vTwo, vAll, func(r *R) { m07Run[uint32](r) })
	reg("M07", "small64", vTwo, vAll, func(r *R) { m07Run[uint64](r) })
	reg("M07", "child32", vNone, vNone, func(r *R) { m07ChildRun[uint32](r) })
	reg("M07", "child64", vNone, vNone, func(r *R) { m07ChildRun[uint64](r) })
	reg("M07", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			c.Lit.PartyCount = min(c.Lit.PartyCount, 2)
			if i > r.Pick(0, 4) {
				continue
			}
			m07Keys(r, c, r.Pick(60, 600), 1)
		}
	})
	heavy("M07", "shipped", 5)
}
