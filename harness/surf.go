package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// The surface: every exported method of every object kind, called by reflection with generated arguments.

// surfActor is a kind of object in a world of keys.
type surfActor[T TI] struct {
	key  string
	make func() any // a new object over the keys of the world
	copy func(any) any
	ms   []string
	w    *surfWorld[T]
	idx  []int // registered parties
}

// surfWorld is a set of keys and the objects over them.
type surfWorld[T TI] struct {
	name     string
	lit      tfhe.ParametersLiteral[T]
	params   tfhe.Parameters[T]
	parties  int
	luts     int
	outN     int // ring components of BFV tensor products
	enc      *tfhe.Encryptor[T]
	tr       *tfhe.GLWETransformer[T]
	key      tfhe.SecretKey[T]
	lweKSK   []tfhe.LWEKeySwitchKey[T]
	glweKSK  []tfhe.GLWEKeySwitchKey[T]
	gps      []tfhe.GadgetParameters[T] // for objects that bring their own gadget
	gp       tfhe.GadgetParameters[T]   // of the call being made
	idx      []int
	kd       int // 1 when the input and output dimensions of key switching agree
	mk       *mkWorld[T]
	gals     []int
	actors   []*surfActor[T]
	keep     []any // pointers to key material
	noBFVMul bool
}

// surfCall is one generated call. The argument values are never passed themselves: calls get copies.
type surfCall[T TI] struct {
	a    *surfActor[T]
	m    string
	args []reflect.Value
	out  int // index of the output argument, or -1
	acc  bool
	seed string
}

func (c *surfCall[T]) name() string { return c.a.key + "." + c.m }

var (
	surfSkip = regexp.MustCompile(`^(SafeCopy|AddSecretKey|AddEvaluationKey|PublicEncryptor)$|Buffer`)
	surfAcc  = regexp.MustCompile(`(Mul|Prod|Permute|FFT)(Add|Sub)`)
)

// surfOut tells which argument of a method is written, and whether its previous content takes part in the result.
func surfOut(actor, m string, nargs int) (idx int, acc bool) {
	switch {
	case strings.HasSuffix(m, "InPlace"), strings.HasPrefix(m, "Encrypt") && strings.HasSuffix(m, "Body"):
		return 0, true
	case strings.HasSuffix(m, "To"), strings.HasSuffix(m, "ToUnsafe"):
		switch {
		case m == "DecryptFFTGGSWPolyTo", m == "DecryptFFTGGSWTo":
			return 1, false
		case strings.HasPrefix(actor, "mktfhe.") && (strings.HasPrefix(m, "ExternalProd") || strings.HasPrefix(m, "HybridProd")):
			return nargs - 1, surfAcc.MatchString(m)
		}
		return 0, surfAcc.MatchString(m)
	}
	return -1, false
}

// surfUnsupported tells the methods that an object has but does not support: public keys exist for one bootstrapping
// order only, and a circuit bootstrapper has no relinearization key.
func surfUnsupported(key, m string, order tfhe.BootstrapOrder) bool {
	if key == "xtfhe.CircuitBootstrapper" && regexp.MustCompile(`^(Mul|Relinearize)(To)?$`).MatchString(m) {
		return true
	}
	return m == "GenPublicKey" && order != oKS
}

// surfMethods lists the methods of an object that the harness knows.
func surfMethods(key string, o any, order tfhe.BootstrapOrder) []string {
	t := reflect.TypeOf(o)
	var out []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i).Name
		if surfSkip.MatchString(m) || surfUnsupported(key, m, order) || (len(surfKnown) > 0 && !surfKnown[key+"."+m]) {
			continue
		}
		out = append(out, m)
	}
	return out
}

func (w *surfWorld[T]) add(key string, mk func() any) *surfActor[T] {
	a := &surfActor[T]{key: key, make: mk, w: w}
	for i := 0; i < w.parties; i++ {
		a.idx = append(a.idx, i)
	}
	a.copy = func(o any) any { return reflect.ValueOf(o).MethodByName("SafeCopy").Call(nil)[0].Interface() }
	o := mk()
	a.ms = surfMethods(key, o, w.lit.BootstrapOrder)
	w.actors = append(w.actors, a)
	return a
}

// surfSingle is a world of single-key objects.
func surfSingle[T TI](c Cfg[T]) *surfWorld[T] { return surfSingleOf(c, false) }

// surfSingleOf is surfSingle, optionally with bootstrapping objects only.
func surfSingleOf[T TI](c Cfg[T], light bool) *surfWorld[T] {
	w := &surfWorld[T]{name: c.Name, lit: c.Lit, params: c.Lit.Compile(), luts: 1}
	w.base()
	evk := w.enc.GenEvalKey()
	w.keep = append(w.keep, &evk)
	p := w.params
	if light {
		w.add("tfhe.Evaluator", func() any { return tfhe.NewEvaluator(p, evk) })
		return w
	}
	w.add("poly.Evaluator", func() any { return poly.NewEvaluator[T](p.PolyRank()) })
	w.add("tfhe.Encoder", func() any { return tfhe.NewEncoder(p) })
	w.add("tfhe.Encryptor", func() any { return tfhe.NewEncryptorWithKey(p, w.key) })
	w.add("tfhe.Evaluator", func() any { return tfhe.NewEvaluator(p, evk) })
	w.add("tfhe.GLWETransformer", func() any { return tfhe.NewGLWETransformer[T](p.PolyRank()) })
	w.add("tfhe.Decomposer", func() any { return tfhe.NewDecomposer[T](p.PolyRank()) })
	w.add("tfhe.BinaryEncryptor", func() any { return tfhe.NewBinaryEncryptorWithKey(p, w.key) })
	w.add("tfhe.BinaryEvaluator", func() any { return tfhe.NewBinaryEvaluator(p, evk) })
	if c.Lit.BootstrapOrder == oKS {
		pk := w.enc.GenPublicKey()
		w.keep = append(w.keep, &pk)
		w.add("tfhe.PublicEncryptor", func() any { return tfhe.NewPublicEncryptor(p, pk) })
		w.add("tfhe.BinaryPublicEncryptor", func() any { return tfhe.NewBinaryPublicEncryptor(p, pk) })
	}
	if p.PolyRank() == p.LUTSize() {
		kg := xtfhe.NewBFVKeyGenerator(p, w.key)
		w.gals = []int{3, 2*p.PolyRank() - 1, 5}
		bk := xtfhe.BFVEvaluationKey[T]{RelinKey: kg.GenRelinKey(p.BlindRotateParams()), GaloisKeys: kg.GenGaloisKeys(w.gals, p.BlindRotateParams())}
		kg.GenGaloisKeysForPackTo(bk.GaloisKeys, p.BlindRotateParams())
		w.keep = append(w.keep, &bk)
		w.add("xtfhe.BFVEvaluator", func() any { return xtfhe.NewBFVEvaluator(p, bk) })
		w.add("xtfhe.BFVKeyGenerator", func() any { return xtfhe.NewBFVKeyGenerator(p, w.key) })
	}
	return w
}

// inLWE is the input dimension of key switching keys: another (0) or the same (1) as the output dimension.
func (w *surfWorld[T]) inLWE(d int) int {
	if d == 0 {
		return w.params.LWEDimension() + 3
	}
	return w.params.DefaultLWEDimension()
}

// base makes the key material every world has.
func (w *surfWorld[T]) base() {
	p := w.params
	w.enc = tfhe.NewEncryptor(p)
	w.key = w.enc.SecretKey
	w.tr = tfhe.NewGLWETransformer[T](p.PolyRank())
	for i, l := range []int{p.BlindRotateParams().Level() + 2, 1} {
		w.gps = append(w.gps, tfhe.GadgetParametersLiteral[T]{Base: T(1) << (2 + i), Level: l}.Compile())
	}
	w.gps = append(w.gps, p.BlindRotateParams(), p.KeySwitchParams())
	for _, gp := range w.gps {
		// from other keys, of another and of the same dimension
		for d := 0; d < 2; d++ {
			from := tfhe.NewLWESecretKeyCustom[T](w.inLWE(d))
			fromG := tfhe.NewGLWESecretKeyCustom[T](p.GLWERank()+1-d, p.PolyRank())
			w.enc.BinarySampler.SampleVecTo(from.Value)
			for i := range fromG.Value {
				w.enc.BinarySampler.SamplePolyTo(fromG.Value[i])
			}
			w.lweKSK = append(w.lweKSK, w.enc.GenLWEKeySwitchKey(from, gp))
			w.glweKSK = append(w.glweKSK, w.enc.GenGLWEKeySwitchKey(fromG, gp))
		}
	}
	w.outN = p.GLWERank() + p.GLWERank()*(p.GLWERank()+1)/2
	w.keep = append(w.keep, &w.key, &w.lweKSK, &w.glweKSK)
}

// surfMany is a world of multi-table and circuit bootstrapping objects.
func surfMany[T TI](n, k, N, bs, count int, o tfhe.BootstrapOrder) *surfWorld[T] {
	br, ks, lwe, glwe := [2]int{8, 6}, [2]int{4, 8}, math.Exp2(-46), math.Exp2(-50)
	if logQ[T]() == 32 {
		br, ks, lwe, glwe = [2]int{5, 6}, [2]int{4, 7}, math.Exp2(-29), math.Exp2(-31)
	}
	c := mk[T](n, k, N, N, bs, 2, br[0], br[1], ks[0], ks[1], o)
	c.Lit.LWEStdDev, c.Lit.GLWEStdDev = lwe, glwe
	gl := tfhe.GadgetParametersLiteral[T]{Base: T(1) << br[0], Level: br[1]}
	ml := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: c.Lit, LUTCount: count}
	cl := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: ml, SchemeSwitchParams: gl, TraceKeySwitchParams: gl, OutputParams: tfhe.GadgetParametersLiteral[T]{Base: 8, Level: 3}}
	w := &surfWorld[T]{name: fmt.Sprintf("%s_luts%d", c.Name, count), lit: c.Lit, params: c.Lit.Compile(), luts: count, noBFVMul: true}
	w.base()
	mp, cp := ml.Compile(), cl.Compile()
	evk := w.enc.GenEvalKey()
	cbk := xtfhe.NewCircuitBootstrapKeyGenerator(cp, w.key).GenCircuitBootstrapKey()
	for d := range cbk.TraceKeys {
		w.gals = append(w.gals, d)
	}
	sort.Ints(w.gals)
	w.keep = append(w.keep, &evk, &cbk)
	w.add("xtfhe.ManyLUTEvaluator", func() any { return xtfhe.NewManyLUTEvaluator(mp, evk) })
	w.add("xtfhe.CircuitBootstrapper", func() any { return xtfhe.NewCircuitBootstrapper(cp, evk, cbk) })
	w.add("xtfhe.CircuitBootstrapKeyGenerator", func() any { return xtfhe.NewCircuitBootstrapKeyGenerator(cp, w.key) })
	return w
}

func surfFhew[T TI](c FCfg[T]) *surfWorld[T] {
	lit := c.Lit.BaseParams
	w := &surfWorld[T]{name: c.Name, lit: lit, params: lit.Compile(), luts: 1}
	fp := c.Lit.Compile()
	w.base()
	e := xtfhe.NewFHEWEncryptor(fp)
	w.key = e.SecretKey
	w.keep = append(w.keep, &w.key)
	w.enc = e.Encryptor
	evk := e.GenEvalKey()
	w.keep = append(w.keep, &evk)
	w.add("xtfhe.FHEWEncryptor", func() any { return xtfhe.NewFHEWEncryptorWithKey(fp, w.key) })
	w.add("xtfhe.FHEWEvaluator", func() any { return xtfhe.NewFHEWEvaluator(fp, evk) })
	return w
}

func surfSan[T TI](n, N, bs int) *surfWorld[T] {
	c := mk[T](n, 1, N, N, bs, 2, 11, 4, 6, 5, oKS)
	rt, lt := math.Exp2(20), math.Exp2(40)
	c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-36), math.Exp2(-60)
	if logQ[T]() == 32 {
		c = mk[T](n, 1, N, N, bs, 2, 6, 4, 4, 6, oKS)
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-27), math.Exp2(-31)
		rt, lt = math.Exp2(10), math.Exp2(20)
	}
	q := math.Exp2(float64(logQ[T]()))
	sl := xtfhe.SanitizationParametersLiteral[T]{BaseParams: c.Lit, RandSigma: 3 / q, RandTau: rt / q, LinEvalSigma: 2 / q, LinEvalTau: lt / q}
	w := &surfWorld[T]{name: c.Name + "_sanitize", lit: c.Lit, params: c.Lit.Compile(), luts: 1}
	w.base()
	sp := sl.Compile()
	evk, pk := w.enc.GenEvalKey(), w.enc.GenPublicKey()
	w.keep = append(w.keep, &evk, &pk)
	w.add("xtfhe.Sanitizer", func() any { return xtfhe.NewSanitizer(sp, pk, evk) })
	return w
}

// surfMulti is a world of multi-key objects.
func surfMulti[T TI](c MCfg[T]) *surfWorld[T] {
	w := &surfWorld[T]{name: c.Name, lit: c.Lit.SubParams, params: c.Lit.SubParams.Compile(), parties: c.Lit.PartyCount, luts: 1}
	w.base()
	m := newMkWorldSeq(c, []byte("surface reference string"))
	w.mk = m
	w.key = m.sks[0]
	w.keep = append(w.keep, &m.sks, &m.evks)
	p := m.params
	crs := m.crs
	last := c.Lit.PartyCount - 1
	w.add("mktfhe.Encryptor", func() any { return mktfhe.NewEncryptorWithKey(p, last, crs, m.sks[last]) })
	w.add("mktfhe.Decryptor", func() any { return mktfhe.NewDecryptor(p, m.sks) })
	w.add("mktfhe.Evaluator", func() any { return mktfhe.NewEvaluator(p, m.evks) })
	if last > 0 { // not every party's keys are known
		w.add("mktfhe.Evaluator", func() any {
			return mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{last: m.evks[last]})
		}).idx = []int{last}
	}
	w.add("mktfhe.GLWETransformer", func() any { return mktfhe.NewGLWETransformer[T](w.params.PolyRank()) })
	w.add("mktfhe.BinaryEncryptor", func() any { return mktfhe.NewBinaryEncryptorWithKey(p, last, crs, m.sks[last]) })
	w.add("mktfhe.BinaryDecryptor", func() any { return mktfhe.NewBinaryDecryptor(p, m.sks) })
	w.add("mktfhe.BinaryEvaluator", func() any { return mktfhe.NewBinaryEvaluator(p, m.evks) })
	if w.lit.BootstrapOrder == oKS {
		pk := m.encs[last].GenPublicKey()
		w.keep = append(w.keep, &pk)
		w.add("mktfhe.PublicEncryptor", func() any { return mktfhe.NewPublicEncryptor(p, last, pk) })
		w.add("mktfhe.BinaryPublicEncryptor", func() any { return mktfhe.NewBinaryPublicEncryptor(p, last, pk) })
	}
	return w
}

// newMkWorldSeq makes the keys in sequence, so that they are a function of the randomness.
func newMkWorldSeq[T TI](c MCfg[T], crs []byte) *mkWorld[T] {
	w := &mkWorld[T]{c: c, params: c.Lit.Compile(), crs: crs, sks: map[int]tfhe.SecretKey[T]{}, evks: map[int]mktfhe.EvaluationKey[T]{}}
	for i := 0; i < c.Lit.PartyCount; i++ {
		e := mktfhe.NewEncryptor(w.params, i, crs)
		w.encs = append(w.encs, e)
		w.sks[i] = e.SecretKey
		w.evks[i] = e.GenEvalKey()
		w.kb = append(w.kb, e.SecretKey.LWEKey.Value...)
	}
	w.kl, w.kg = mkLWEKey(c, w.sks), mkGLWEKey(c, w.sks)
	return w
}

// argument generation

func (w *surfWorld[T]) poly(g *rand.Rand) poly.Poly[T] {
	v := make([]T, w.params.PolyRank())
	for i := range v {
		if g.IntN(4) == 0 {
			v[i] = edgeT[T](g)
		} else {
			v[i] = randT[T](g)
		}
	}
	return poly.Poly[T]{Coeffs: v}
}

func (w *surfWorld[T]) glwe(g *rand.Rand, k int) tfhe.GLWECiphertext[T] {
	ct := tfhe.GLWECiphertext[T]{Value: make([]poly.Poly[T], k+1)}
	for i := range ct.Value {
		ct.Value[i] = w.poly(g)
	}
	return ct
}

func (w *surfWorld[T]) glev(g *rand.Rand, k int, gp tfhe.GadgetParameters[T]) tfhe.GLevCiphertext[T] {
	ct := tfhe.NewGLevCiphertextCustom(k, w.params.PolyRank(), gp)
	for i := range ct.Value {
		ct.Value[i] = w.glwe(g, k)
	}
	return ct
}

func (w *surfWorld[T]) ggsw(g *rand.Rand, k int, gp tfhe.GadgetParameters[T]) tfhe.GGSWCiphertext[T] {
	ct := tfhe.NewGGSWCiphertextCustom(k, w.params.PolyRank(), gp)
	for i := range ct.Value {
		ct.Value[i] = w.glev(g, k, gp)
	}
	return ct
}

func (w *surfWorld[T]) lwe(g *rand.Rand, n int) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T]{Value: w.vec(g, n+1)}
}

func (w *surfWorld[T]) vec(g *rand.Rand, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = randT[T](g)
		if g.IntN(6) == 0 {
			v[i] = edgeT[T](g)
		}
	}
	return v
}

func (w *surfWorld[T]) uni(g *rand.Rand, gp tfhe.GadgetParameters[T]) mktfhe.UniEncryption[T] {
	ct := mktfhe.NewUniEncryptionCustom(w.params.PolyRank(), gp)
	for i := range ct.Value {
		ct.Value[i] = w.glev(g, 1, gp)
	}
	return ct
}

func (w *surfWorld[T]) msgs(g *rand.Rand, n int) []int {
	v := make([]int, n)
	p := int(w.lit.MessageModulus)
	for i := range v {
		v[i] = g.IntN(3*p) - p
	}
	return v
}

// arg makes argument i of a method.
func (w *surfWorld[T]) arg(g *rand.Rand, actor, m string, i int, t reflect.Type, out bool) any {
	k, N, n, p := w.params.GLWERank(), w.params.PolyRank(), lweDim(w.lit), int(w.lit.MessageModulus)
	small, large := w.lit.LWEDimension, k*N
	multi := strings.HasPrefix(actor, "mktfhe.")
	gp := w.gp
	if multi {
		gp = w.params.BlindRotateParams()
	}
	switch {
	case actor == "xtfhe.CircuitBootstrapper" && strings.HasPrefix(m, "CircuitBootstrap"):
		gp = tfhe.GadgetParametersLiteral[T]{Base: 8, Level: 3}.Compile()
	case multi && strings.Contains(m, "Uni"), strings.HasPrefix(m, "HybridProd"):
		gp = w.mk.params.RelinKeyParameters()
	case multi && strings.HasPrefix(m, "ExternalProd"):
		gp = w.mk.params.AccumulatorParameters()
	}
	P := w.parties
	switch reflect.Zero(t).Interface().(type) {
	case bool:
		return g.IntN(2) == 0
	case float64:
		return math.Ldexp(g.Float64()*2-1, g.IntN(8))
	case complex128:
		return complex(math.Ldexp(g.Float64()*2-1, g.IntN(8)), math.Ldexp(g.Float64()*2-1, g.IntN(8)))
	case int:
		switch {
		case multi && i == 0 && (strings.HasPrefix(m, "ExternalProd") || strings.HasPrefix(m, "HybridProd")):
			return w.idx[g.IntN(len(w.idx))]
		case actor == "xtfhe.BFVEvaluator" && strings.HasPrefix(m, "Permute"):
			return w.gals[g.IntN(len(w.gals))]
		case actor == "xtfhe.CircuitBootstrapper" && strings.HasPrefix(m, "Permute"):
			return w.gals[g.IntN(len(w.gals))]
		case strings.HasPrefix(m, "Permute"):
			return 2*(g.IntN(5*N)-2*N) + 1
		case strings.HasPrefix(m, "Monomial"):
			return g.IntN(7*N) - 3*N
		case strings.HasSuffix(m, "Bits") && i == 1:
			return 1 + g.IntN(6)
		case strings.HasSuffix(m, "Bits"), strings.HasSuffix(m, "BitsTo"):
			return g.IntN(64)
		}
		return g.IntN(3*p) - p
	case T:
		if m == "GenLUTCustomFull" || m == "GenLUTCustomFullTo" {
			return T(2)
		}
		if strings.Contains(m, "Custom") { // message modulus, then scale
			sig := w.customArg(actor, m, i)
			if sig == "p" {
				return T(2 + 2*g.IntN(2))
			}
			return T(1) << (logQ[T]() - 2 - g.IntN(5))
		}
		return edgeT[T](g)
	case []int:
		if strings.HasPrefix(m, "Gen") {
			return []int{1 + 2*g.IntN(N), 3}
		}
		return w.msgs(g, N)
	case func(int) int:
		return w.fn(g)
	case func(int) T:
		f := w.fn(g)
		return func(x int) T { return T(f(x)) << (logQ[T]() - 6) }
	case []func(int) int:
		v := make([]func(int) int, w.luts)
		for j := range v {
			v[j] = w.fn(g)
		}
		return v
	case []func(int) T:
		v := make([]func(int) T, w.luts)
		for j := range v {
			f := w.fn(g)
			v[j] = func(x int) T { return T(f(x)) << (logQ[T]() - 6) }
		}
		return v
	case tfhe.LWECiphertext[T]:
		switch {
		case strings.HasPrefix(m, "DefaultKeySwitch"):
			if out {
				return w.lwe(g, small)
			}
			return w.lwe(g, large)
		case strings.HasPrefix(m, "KeySwitchLWE"):
			if out {
				return w.lwe(g, n)
			}
			return w.lwe(g, w.inLWE(w.kd))
		case strings.HasPrefix(m, "BlindRotate"):
			return w.lwe(g, small)
		case strings.HasPrefix(m, "Pack"):
			return w.lwe(g, large)
		}
		return w.lwe(g, n)
	case []tfhe.LWECiphertext[T]:
		v := make([]tfhe.LWECiphertext[T], w.luts)
		if strings.HasSuffix(m, "BitsTo") {
			v = make([]tfhe.LWECiphertext[T], 5)
		}
		for j := range v {
			v[j] = w.lwe(g, n)
		}
		return v
	case tfhe.LevCiphertext[T]:
		ct := tfhe.NewLevCiphertextCustom(n, gp)
		fillValue[T](g, &ct)
		return ct
	case tfhe.GSWCiphertext[T]:
		ct := tfhe.NewGSWCiphertextCustom(n, gp)
		fillValue[T](g, &ct)
		return ct
	case tfhe.GLWECiphertext[T]:
		switch {
		case strings.HasPrefix(m, "KeySwitchGLWE") && !out:
			return w.glwe(g, k+1-w.kd)
		case strings.HasPrefix(m, "Tensor") && out, strings.HasPrefix(m, "Relin") && !out:
			return w.glwe(g, w.outN)
		}
		return w.glwe(g, k)
	case tfhe.GLevCiphertext[T]:
		return w.glev(g, k, gp)
	case tfhe.GGSWCiphertext[T]:
		return w.ggsw(g, k, gp)
	case tfhe.FFTGLWECiphertext[T]:
		return w.tr.FwdFFTGLWECiphertext(w.glwe(g, k))
	case tfhe.FFTGLevCiphertext[T]:
		return w.tr.FwdFFTGLevCiphertext(w.glev(g, k, gp))
	case tfhe.FFTGGSWCiphertext[T]:
		return w.tr.FwdFFTGGSWCiphertext(w.ggsw(g, k, gp))
	case tfhe.LWEPlaintext[T]:
		return tfhe.LWEPlaintext[T]{Value: edgeT[T](g)}
	case tfhe.GLWEPlaintext[T]:
		return tfhe.GLWEPlaintext[T]{Value: w.poly(g)}
	case tfhe.LookUpTable[T]:
		l := tfhe.NewLUT(w.params)
		fillValue[T](g, &l)
		return l
	case tfhe.LWESecretKey[T]:
		sk := tfhe.NewLWESecretKeyCustom[T](small + 3)
		for j := range sk.Value {
			sk.Value[j] = T(g.IntN(2))
		}
		return sk
	case tfhe.GLWESecretKey[T]:
		kk := k
		if strings.HasPrefix(m, "GenGLWEKeySwitchKey") {
			kk = k + 1
		}
		sk := tfhe.NewGLWESecretKeyCustom[T](kk, N)
		for j := range sk.Value {
			for l := range sk.Value[j].Coeffs {
				sk.Value[j].Coeffs[l] = T(g.IntN(2))
			}
		}
		return sk
	case tfhe.FFTGLWESecretKey[T]:
		sk := tfhe.NewGLWESecretKeyCustom[T](k, N)
		for j := range sk.Value {
			for l := range sk.Value[j].Coeffs {
				sk.Value[j].Coeffs[l] = T(g.IntN(2))
			}
		}
		return w.tr.FwdFFTGLWESecretKey(sk)
	case tfhe.LWEKeySwitchKey[T]:
		return w.lweKSK[2*g.IntN(len(w.lweKSK)/2)+w.kd]
	case tfhe.GLWEKeySwitchKey[T]:
		return w.glweKSK[2*g.IntN(len(w.glweKSK)/2)+w.kd]
	case tfhe.GadgetParameters[T]:
		return gp
	case poly.Poly[T]:
		return w.poly(g)
	case poly.FFTPoly:
		return w.tr.PolyEvaluator.FwdFFT(polyOf(smallVec[T](g, N)))
	case []T:
		return w.vec(g, gp.Level())
	case []poly.Poly[T]:
		v := make([]poly.Poly[T], gp.Level())
		for j := range v {
			v[j] = w.poly(g)
		}
		return v
	case []poly.FFTPoly:
		v := make([]poly.FFTPoly, gp.Level())
		for j := range v {
			v[j] = w.tr.PolyEvaluator.FwdFFT(polyOf(smallVec[T](g, N)))
		}
		return v
	case [][]poly.FFTPoly:
		v := make([][]poly.FFTPoly, k+1)
		for i := range v {
			v[i] = make([]poly.FFTPoly, gp.Level())
			for j := range v[i] {
				v[i][j] = w.tr.PolyEvaluator.FwdFFT(polyOf(smallVec[T](g, N)))
			}
		}
		return v
	case map[int]tfhe.GLWEKeySwitchKey[T]:
		return map[int]tfhe.GLWEKeySwitchKey[T]{}
	case mktfhe.LWECiphertext[T]:
		d := n * P
		if strings.HasPrefix(m, "DefaultKeySwitch") {
			d = P * large
			if out {
				d = P * small
			}
		}
		if strings.HasPrefix(m, "BlindRotate") {
			d = P * small
		}
		return mktfhe.LWECiphertext[T]{Value: w.vec(g, d+1)}
	case []mktfhe.LWECiphertext[T]:
		v := make([]mktfhe.LWECiphertext[T], 5)
		for j := range v {
			v[j] = mktfhe.LWECiphertext[T]{Value: w.vec(g, n*P+1)}
		}
		return v
	case mktfhe.GLWECiphertext[T]:
		return mktfhe.GLWECiphertext[T]{Value: w.glwe(g, P).Value}
	case mktfhe.FFTGLWECiphertext[T]:
		ct := mktfhe.NewFFTGLWECiphertextCustom[T](P, N)
		for j, q := range w.glwe(g, P).Value {
			w.tr.PolyEvaluator.FwdFFTTo(ct.Value[j], q)
		}
		return ct
	case mktfhe.UniEncryption[T]:
		return w.uni(g, gp)
	case mktfhe.FFTUniEncryption[T]:
		return mktfhe.NewGLWETransformer[T](N).FwdFFTUniEncryption(w.uni(g, gp))
	}
	return nil
}

// smallVec is a polynomial with short coefficients, like a decomposition digit.
func smallVec[T TI](g *rand.Rand, N int) []T {
	v := make([]T, N)
	for i := range v {
		v[i] = T(int64(g.IntN(65) - 32))
	}
	return v
}

func (w *surfWorld[T]) fn(g *rand.Rand) func(int) int {
	p := int(w.lit.MessageModulus)
	tab := randIntVec(g, 4*p+8, p)
	return func(x int) int { return tab[posMod(x, len(tab))] }
}

// customArg tells the message modulus from the scale.
func (w *surfWorld[T]) customArg(actor, m string, i int) string {
	var o any
	for _, a := range w.actors {
		if a.key == actor {
			o = a.make()
		}
	}
	t := reflect.ValueOf(o).MethodByName(m).Type()
	first := -1
	var z T
	for j := 0; j < t.NumIn(); j++ {
		if t.In(j) == reflect.TypeOf(z) && first < 0 {
			first = j
		}
	}
	if i == first {
		return "p"
	}
	return "scale"
}

// gen makes a call of method m.
func (a *surfActor[T]) gen(g *rand.Rand, o any, m string, seed string) (*surfCall[T], error) {
	t := reflect.ValueOf(o).MethodByName(m).Type()
	c := &surfCall[T]{a: a, m: m, seed: seed}
	c.out, c.acc = surfOut(a.key, m, t.NumIn())
	a.w.idx = a.idx
	a.w.kd = g.IntN(2)
	a.w.gp = a.w.gps[g.IntN(len(a.w.gps))]
	for i := 0; i < t.NumIn(); i++ {
		v := a.w.arg(g, a.key, m, i, t.In(i), i == c.out)
		if v == nil || reflect.TypeOf(v) != t.In(i) {
			return nil, fmt.Errorf("%s.%s: argument %d of type %v: no generator (%T)", a.key, m, i, t.In(i), v)
		}
		c.args = append(c.args, reflect.ValueOf(v))
	}
	return c, nil
}

// boxed returns a pointer to a deep copy of v.
func boxed(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if v.Kind() == reflect.Func {
		return p
	}
	if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Func {
		return p
	}
	return reflect.ValueOf(cloneDeep(p.Interface()))
}

// fresh returns copies of the arguments, as pointers.
func (c *surfCall[T]) fresh() []reflect.Value {
	o := make([]reflect.Value, len(c.args))
	for i, v := range c.args {
		o[i] = boxed(v)
	}
	return o
}

// zero clears the numbers of a boxed value.
func zeroNumbers(p reflect.Value) {
	walkSlices(p, map[visit]bool{}, func(v reflect.Value) {
		v.Clear()
	})
	if p.Elem().Kind() == reflect.Struct && p.Elem().NumField() == 1 && p.Elem().Field(0).CanSet() && plainKind(p.Elem().Field(0).Kind()) {
		p.Elem().Field(0).SetZero()
	}
}

// call invokes the method with the pointed-to arguments and returns the results, the output argument last.
func (c *surfCall[T]) call(o any, args []reflect.Value) []any {
	in := make([]reflect.Value, len(args))
	for i := range args {
		in[i] = args[i].Elem()
	}
	var out []any
	for _, v := range reflect.ValueOf(o).MethodByName(c.m).Call(in) {
		out = append(out, v.Interface())
	}
	if c.out >= 0 {
		out = append(out, args[c.out].Elem().Interface())
	}
	return out
}

// samplers of an object

var samplerType = regexp.MustCompile(`^\*(csprng|xtfhe)\.(UniformSampler|BinarySampler|GaussianSampler|CDTSampler)\[`)

// reseed replaces every sampler reachable through exported fields of an object by a new one.
func reseed(o any) { walkSamplers(reflect.ValueOf(o), map[uintptr]bool{}) }

func walkSamplers(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] || v.Elem().Kind() != reflect.Struct {
			return
		}
		seen[v.Pointer()] = true
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			if !s.Type().Field(i).IsExported() {
				continue
			}
			walkSamplerField(s.Field(i), seen)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() != reflect.Pointer {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkSamplerField(v.Index(i), seen)
		}
	}
}

func walkSamplerField(f reflect.Value, seen map[uintptr]bool) {
	if samplerType.MatchString(f.Type().String()) && !f.IsNil() && f.CanSet() {
		f.Set(reflect.ValueOf(newSampler(f.Interface())))
		return
	}
	walkSamplers(f, seen)
}

// newSampler makes a sampler like s from the system randomness.
func newSampler(s any) any {
	switch x := s.(type) {
	case *csprng.UniformSampler[uint32]:
		return csprng.NewUniformSampler[uint32]()
	case *csprng.UniformSampler[uint64]:
		return csprng.NewUniformSampler[uint64]()
	case *csprng.BinarySampler[uint32]:
		return csprng.NewBinarySampler[uint32]()
	case *csprng.BinarySampler[uint64]:
		return csprng.NewBinarySampler[uint64]()
	case *csprng.GaussianSampler[uint32]:
		return csprng.NewGaussianSampler[uint32]()
	case *csprng.GaussianSampler[uint64]:
		return csprng.NewGaussianSampler[uint64]()
	case *xtfhe.CDTSampler[uint32]:
		return xtfhe.NewCDTSampler[uint32](x.Center(), x.StdDev())
	case *xtfhe.CDTSampler[uint64]:
		return xtfhe.NewCDTSampler[uint64](x.Center(), x.StdDev())
	}
	panic(fmt.Sprintf("unknown sampler %T", s))
}

// run invokes the call with the randomness determined by its seed.
func (c *surfCall[T]) run(r *R, o any, args []reflect.Value) []any {
	r.SeedLib(c.seed)
	reseed(o)
	r.SeedLib(c.seed + "+")
	return c.call(o, args)
}

// surfWorlds are the worlds of the surface for one word size.
func surfWorlds[T TI](r *R) []*surfWorld[T] {
	b, s := brChoices[T]()[0], ksChoices[T]()[0]
	fh := fixedFhew[T]()
	mm := fixedMulti[T]()
	ws := []*surfWorld[T]{
		surfSingle(mk[T](6, 1, 32, 32, 1, 4, b[0], b[1], s[0], s[1], oKS)),
		surfSingle(mk[T](12, 2, 64, 64, 3, 4, b[0], b[1], s[0], s[1], oBR)),
		surfSingle(mk[T](8, 2, 32, 128, 2, 4, b[0], b[1], s[0], s[1], oKS)),
		surfMany[T](6, 1, 64, 2, 2, oKS),
		surfMany[T](8, 2, 64, 1, 4, oBR),
		surfFhew(fh[0]),
		surfFhew(fh[1]),
		surfSan[T](6, 64, 2),
		surfMulti(mm[2]),
		surfMulti(mm[3]),
		surfSingleOf(mk[T](3, 1, 32, 128, 3, 4, b[0], b[1], s[0], s[1], oBR), true),
		surfSingleOf(mk[T](2, 1, 32, 64, 1, 4, b[0], b[1], s[0], s[1], oKS), true),
		surfSingleOf(mk[T](4, 1, 64, 64, 4, 4, b[0], b[1], s[0], s[1], oBR), true),
		surfSingleOf(mk[T](2, 2, 32, 32, 1, 4, b[0], b[1], s[0], s[1], oBR), true),
	}
	for i := 0; i < r.Pick(0, 8); i++ {
		ws = append(ws, surfSingle(randCfg[T](r.Rng)))
		if i < 4 {
			ws = append(ws, surfMulti(randMulti[T](r.Rng)), surfFhew(randFhew[T](r.Rng)))
		}
	}
	return ws
}

// surfPoly is a world of keyless objects of a given rank.
func surfPoly[T TI](N int) *surfWorld[T] {
	b, s := brChoices[T]()[0], ksChoices[T]()[0]
	c := mk[T](4, 1, N, N, 1, 4, b[0], b[1], s[0], s[1], oKS)
	w := &surfWorld[T]{name: c.Name, lit: c.Lit, params: c.Lit.Compile(), luts: 1}
	w.tr = tfhe.NewGLWETransformer[T](N)
	w.gps = append(w.gps, w.params.BlindRotateParams())
	w.add("poly.Evaluator", func() any { return poly.NewEvaluator[T](N) })
	w.add("tfhe.GLWETransformer", func() any { return tfhe.NewGLWETransformer[T](N) })
	w.add("tfhe.Decomposer", func() any { return tfhe.NewDecomposer[T](N) })
	return w
}

// nearlySame compares results exactly, and Fourier values up to rounding.
func nearlySame(a, b any) string {
	d := same(a, b)
	if d == "" {
		return ""
	}

	x, y := floatsOf(a), floatsOf(b)
	if len(x) == 0 || len(x) != len(y) {
		return d
	}
	for i := range x {
		if len(x[i]) != len(y[i]) {
			return d
		}
		m := 0.0
		for j := range x[i] {
			m = max(m, math.Abs(x[i][j]))
		}
		for j := range x[i] {
			if !(math.Abs(x[i][j]-y[i][j]) <= 1e-9*m) {
				return d
			}
		}
	}
	return ""
}

// floatsOf lists the Fourier polynomials in a list of results, or nothing if there is anything else.
func floatsOf(a any) (o [][]float64) {
	ok := true
	for _, v := range a.([]any) {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		walkSlices(p, map[visit]bool{}, func(s reflect.Value) {
			if f, is := s.Interface().([]float64); is {
				o = append(o, f)
			} else {
				ok = false
			}
		})
	}
	if !ok {
		return nil
	}
	return o
}

func hasFunc(t reflect.Type) bool {
	return t.Kind() == reflect.Func || t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Func
}

// shapeOf lists the lengths of the numeric slices of a boxed value.
func shapeOf(p reflect.Value) []int {
	var o []int
	walkSlices(p, map[visit]bool{}, func(s reflect.Value) { o = append(o, s.Len()) })
	return o
}

// boxedOf boxes a value without copying its memory.
func boxedOf(v any) reflect.Value {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p
}
