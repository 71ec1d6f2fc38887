package main

import (
	"encoding"
	"encoding/gob"
	"fmt"
	"os"
	"reflect"
	"sort"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func init() {
	reg("C16", "exchange64", vAvx, vAvx, func(r *R) { c16Exchange(r, "x64") })
	reg("C16", "exchange32", vAvx, vAvx, func(r *R) { c16Exchange(r, "x32") })
	reg("C16", "x64", vNone, vNone, func(r *R) { c16Role[uint64](r) })
	reg("C16", "x32", vNone, vNone, func(r *R) { c16Role[uint32](r) })
	heavy("C16", "exchange64", 3)
}

// c16Bundle is what one build hands to another: serialized values by name, and the messages the ciphertexts should have.
type c16Bundle struct {
	Blobs   map[string][]byte
	Expect  map[string][]int
	Got     map[string][]int
	Trouble []string
}

func newBundle() *c16Bundle {
	return &c16Bundle{map[string][]byte{}, map[string][]int{}, map[string][]int{}, nil}
}

func (b *c16Bundle) put(name string, v any, expect ...int) {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	m, ok := v.(encoding.BinaryMarshaler)
	if !ok {
		m = p.Interface().(encoding.BinaryMarshaler)
	}
	d, err := m.MarshalBinary()
	if err != nil {
		b.Trouble = append(b.Trouble, fmt.Sprintf("%s: %v", name, err))
		return
	}
	b.Blobs[name] = d
	if len(expect) > 0 {
		b.Expect[name] = expect
	}
}

// get loads a value, which must serialize to the same bytes again.
func bundleGet[V any](b, report *c16Bundle, name string) V {
	v := new(V)
	if err := any(v).(encoding.BinaryUnmarshaler).UnmarshalBinary(b.Blobs[name]); err != nil {
		report.Trouble = append(report.Trouble, fmt.Sprintf("%s (%d bytes): %v", name, len(b.Blobs[name]), err))
		return *v
	}
	n := newBundle()
	n.put("again", *v)
	if string(n.Blobs["again"]) != string(b.Blobs[name]) {
		report.Trouble = append(report.Trouble, name+" serializes to other bytes after it was loaded")
	}
	return *v
}

func bundleFile(path string) *c16Bundle {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b := new(c16Bundle)
	if err := gob.NewDecoder(f).Decode(b); err != nil {
		panic(err)
	}
	return b
}

func c16Role[T TI](r *R) {
	out := newBundle()
	var key, in *c16Bundle
	role := os.Getenv("VH_C16_ROLE")
	if role != "produce" {
		key = bundleFile(os.Getenv("VH_C16_KEYS"))
	}
	if role == "decrypt" {
		in = bundleFile(os.Getenv("VH_C16_IN"))
	}
	r.Name = "exchange"
	cs := fixedCfgs[T]()
	var cfgs []Cfg[T]
	for _, i := range []int{0, 1, 2, 4, 6, 14}[:r.Pick(5, 6)] {
		cfgs = append(cfgs, cs[i])
	}
	if logQ[T]() == 32 {
		for _, c := range shipped32()[:r.Pick(0, 3)] {
			cfgs = append(cfgs, any(c).(Cfg[T]))
		}
	} else if r.Thorough {
		for _, c := range shipped64()[1:3] {
			cfgs = append(cfgs, any(c).(Cfg[T]))
		}
	}
	guard := func(name string, f func()) {
		if ok, p := Panics(f); ok {
			out.Trouble = append(out.Trouble, fmt.Sprintf("%s: panic: %v", name, p))
		}
	}
	for i, c := range cfgs {
		n := fmt.Sprintf("set %d: ", i)
		guard(n+role, func() {
			switch role {
			case "produce":
				c16Produce(r, n, c, out)
			case "evaluate":
				c16Evaluate[T](n, key, out)
			case "decrypt":
				c16Decrypt[T](n, key, in, out)
			}
		})
	}
	for i, c := range []MCfg[T]{fixedMulti[T]()[2], fixedMulti[T]()[3]} {
		n := fmt.Sprintf("multi-key set %d: ", i)
		guard(n+role, func() {
			switch role {
			case "produce":
				c16ProduceMk(r, n, c, out)
			case "evaluate":
				c16EvaluateMk[T](n, key, out)
			case "decrypt":
				c16DecryptMk[T](n, key, in, out)
			}
		})
	}
	for i, c := range fixedFhew[T]()[:2] {
		n := fmt.Sprintf("FHEW set %d: ", i)
		guard(n+role, func() {
			switch role {
			case "produce":
				c16ProduceFhew(r, n, c, out)
			case "evaluate":
				c16EvaluateFhew(n, c, key, out)
			case "decrypt":
				c16Decrypt[T](n, key, in, out)
			}
		})
	}
	f, err := os.Create(os.Getenv("VH_C16_OUT"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := gob.NewEncoder(f).Encode(out); err != nil {
		panic(err)
	}
}

const c16Msgs = 4

func c16Fn(x int) int { return 3*x + 1 }

func bit01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c16Produce[T TI](r *R, n string, c Cfg[T], out *c16Bundle) {
	g := r.Sub(n)
	p := c.Lit.Compile()
	P := int(c.Lit.MessageModulus)
	e := tfhe.NewEncryptor(p)
	be := tfhe.NewBinaryEncryptorWithKey(p, e.SecretKey)
	out.put(n+"params", p)
	out.put(n+"sk", e.SecretKey)
	out.put(n+"evk", e.GenEvalKey())
	if c.Lit.BootstrapOrder == oKS {
		out.put(n+"pk", e.GenPublicKey())
	}
	for i := 0; i < c16Msgs; i++ {
		m, b := g.IntN(P), g.IntN(2)
		out.put(fmt.Sprintf("%slwe %d", n, i), e.EncryptLWE(m), m)
		out.put(fmt.Sprintf("%sbool %d", n, i), be.EncryptLWEBool(b == 1), b)
	}
	for i := 0; i < 2; i++ {
		m := randIntVec(g, p.PolyRank(), P)
		out.put(fmt.Sprintf("%sglwe %d", n, i), e.EncryptGLWE(m), m...)
		m = randIntVec(g, p.PolyRank(), P)
		out.put(fmt.Sprintf("%sfft %d", n, i), e.EncryptFFTGLWE(m), m...)
	}
	b := g.IntN(2)
	out.put(n+"ggsw", e.EncryptFFTGGSW([]int{b}, p.BlindRotateParams()))
	out.Expect[n+"ggsw"] = []int{b}
	from := tfhe.NewEncryptor(p)
	m := randIntVec(g, p.PolyRank(), P)
	for i, v := range e.GenGLWEKeySwitchKey(from.SecretKey.GLWEKey, p.BlindRotateParams()).Value {
		out.put(fmt.Sprintf("%sglwe ksk %d", n, i), v)
	}
	out.put(n+"foreign glwe", from.EncryptGLWE(m))
	out.Expect[n+"foreign glwe"] = m
	out.put(n+"lwe ksk", e.GenLWEKeySwitchKey(from.DefaultLWESecretKey(), p.KeySwitchParams()))
	out.put(n+"foreign lwe", from.EncryptLWE(m[0]))
	out.Expect[n+"foreign lwe"] = m[:1]
}

func c16Evaluate[T TI](n string, in, out *c16Bundle) {
	p := bundleGet[tfhe.Parameters[T]](in, out, n+"params")
	P := int(p.MessageModulus())
	evk := bundleGet[tfhe.EvaluationKey[T]](in, out, n+"evk")
	e, be := tfhe.NewEvaluator(p, evk), tfhe.NewBinaryEvaluator(p, evk)
	var lwe, bits []tfhe.LWECiphertext[T]
	var m, b []int
	for i := 0; i < c16Msgs; i++ {
		l, k := fmt.Sprintf("%slwe %d", n, i), fmt.Sprintf("%sbool %d", n, i)
		lwe, m = append(lwe, bundleGet[tfhe.LWECiphertext[T]](in, out, l)), append(m, in.Expect[l][0])
		bits, b = append(bits, bundleGet[tfhe.LWECiphertext[T]](in, out, k)), append(b, in.Expect[k][0])
	}
	for i := range lwe {
		out.put(fmt.Sprintf("%slwe function %d", n, i), e.BootstrapFunc(lwe[i], c16Fn), posMod(c16Fn(m[i]), P))
		j := (i + 1) % c16Msgs
		out.put(fmt.Sprintf("%slwe sum %d", n, i), e.AddLWE(lwe[i], lwe[j]), (m[i]+m[j])%P)
		out.put(fmt.Sprintf("%sbool NAND %d", n, i), be.NAND(bits[i], bits[j]), 1-b[i]*b[j])
		out.put(fmt.Sprintf("%sbool XOR %d", n, i), be.XOR(bits[i], bits[j]), b[i]^b[j])
		// results of this build as operands
		out.put(fmt.Sprintf("%slwe twice %d", n, i), e.BootstrapFunc(e.BootstrapFunc(lwe[i], c16Fn), c16Fn), posMod(c16Fn(posMod(c16Fn(m[i]), P)), P))
	}
	g0 := bundleGet[tfhe.GLWECiphertext[T]](in, out, n+"glwe 0")
	g1 := bundleGet[tfhe.GLWECiphertext[T]](in, out, n+"glwe 1")
	f0 := bundleGet[tfhe.FFTGLWECiphertext[T]](in, out, n+"fft 0")
	f1 := bundleGet[tfhe.FFTGLWECiphertext[T]](in, out, n+"fft 1")
	s := bundleGet[tfhe.FFTGGSWCiphertext[T]](in, out, n+"ggsw")
	sel := in.Expect[n+"ggsw"][0]
	out.put(n+"glwe selected", e.CMux(s, g0, g1), in.Expect[fmt.Sprintf("%sglwe %d", n, sel)]...)
	sum := func(a, b []int) []int {
		o := make([]int, len(a))
		for i := range o {
			o[i] = (a[i] + b[i]) % P
		}
		return o
	}
	out.put(n+"glwe sum", e.AddGLWE(g0, g1), sum(in.Expect[n+"glwe 0"], in.Expect[n+"glwe 1"])...)
	out.put(n+"fft sum", e.AddFFTGLWE(f0, f1), sum(in.Expect[n+"fft 0"], in.Expect[n+"fft 1"])...)
	out.put(n+"fft of glwe", e.FwdFFTGLWECiphertext(g0), in.Expect[n+"glwe 0"]...)
	out.put(n+"glwe of fft", e.InvFFTGLWECiphertext(f1), in.Expect[n+"fft 1"]...)
	gk := tfhe.NewGLWEKeySwitchKey(p, p.GLWERank(), p.BlindRotateParams())
	for i := range gk.Value {
		gk.Value[i] = bundleGet[tfhe.FFTGLevCiphertext[T]](in, out, fmt.Sprintf("%sglwe ksk %d", n, i))
	}
	out.put(n+"glwe switched", e.KeySwitchGLWE(bundleGet[tfhe.GLWECiphertext[T]](in, out, n+"foreign glwe"), gk), in.Expect[n+"foreign glwe"]...)
	lk := bundleGet[tfhe.LWEKeySwitchKey[T]](in, out, n+"lwe ksk")
	out.put(n+"lwe switched", e.KeySwitchLWE(bundleGet[tfhe.LWECiphertext[T]](in, out, n+"foreign lwe"), lk), in.Expect[n+"foreign lwe"]...)
	if in.Blobs[n+"pk"] != nil {
		pe := tfhe.NewPublicEncryptor(p, bundleGet[tfhe.PublicKey[T]](in, out, n+"pk"))
		out.put(n+"glwe public", pe.EncryptGLWE(in.Expect[n+"fft 0"]), in.Expect[n+"fft 0"]...)
		out.put(n+"lwe public", pe.EncryptLWE(m[1]), m[1])
		out.put(n+"lwe extracted", g0.AsLWECiphertext(3), in.Expect[n+"glwe 0"][3])
	}
}

// c16Decrypt opens what was made and what was evaluated with the serialized secret key.
func c16Decrypt[T TI](n string, key, in, out *c16Bundle) {
	p := bundleGet[tfhe.Parameters[T]](key, out, n+"params")
	sk := bundleGet[tfhe.SecretKey[T]](key, out, n+"sk")
	e, be := tfhe.NewEncryptorWithKey(p, sk), tfhe.NewBinaryEncryptorWithKey(p, sk)
	for _, b := range []*c16Bundle{key, in} {
		for name := range b.Expect {
			if len(name) < len(n)+4 || name[:len(n)] != n {
				continue
			}
			switch kind := name[len(n):]; {
			case kind[:4] == "lwe ":
				out.Got[name] = []int{e.DecryptLWE(bundleGet[tfhe.LWECiphertext[T]](b, out, name))}
			case kind[:4] == "bool":
				out.Got[name] = []int{bit01(be.DecryptLWEBool(bundleGet[tfhe.LWECiphertext[T]](b, out, name)))}
			case kind[:4] == "glwe":
				out.Got[name] = e.DecryptGLWE(bundleGet[tfhe.GLWECiphertext[T]](b, out, name))
			case kind[:4] == "fft ":
				out.Got[name] = e.DecryptFFTGLWE(bundleGet[tfhe.FFTGLWECiphertext[T]](b, out, name))
			}
		}
	}
}

func c16ProduceMk[T TI](r *R, n string, c MCfg[T], out *c16Bundle) {
	g := r.Sub(n)
	p := c.Lit.Compile()
	out.put(n+"params", p)
	for i := 0; i < c.Lit.PartyCount; i++ {
		e := mktfhe.NewEncryptor(p, i, []byte("exchange"))
		be := mktfhe.NewBinaryEncryptorWithKey(p, i, []byte("exchange"), e.SecretKey)
		out.put(fmt.Sprintf("%ssk %d", n, i), e.SecretKey)
		out.put(fmt.Sprintf("%sevk %d", n, i), e.GenEvalKey())
		for j := 0; j < 2; j++ {
			m, b := g.IntN(int(c.Lit.SubParams.MessageModulus)), g.IntN(2)
			out.put(fmt.Sprintf("%slwe %d %d", n, i, j), e.EncryptLWE(m), m)
			out.put(fmt.Sprintf("%sbool %d %d", n, i, j), be.EncryptLWEBool(b == 1), b)
		}
		m := randIntVec(g, c.Lit.SubParams.PolyRank, int(c.Lit.SubParams.MessageModulus))
		out.put(fmt.Sprintf("%sglwe %d", n, i), e.EncryptGLWE(m), m...)
	}
}

func c16EvaluateMk[T TI](n string, in, out *c16Bundle) {
	p := bundleGet[mktfhe.Parameters[T]](in, out, n+"params")
	P, M := p.PartyCount(), int(p.SubParams().MessageModulus())
	keys := map[int]mktfhe.EvaluationKey[T]{}
	for i := 0; i < P; i++ {
		keys[i] = bundleGet[mktfhe.EvaluationKey[T]](in, out, fmt.Sprintf("%sevk %d", n, i))
	}
	e, be := mktfhe.NewEvaluator(p, keys), mktfhe.NewBinaryEvaluator(p, keys)
	for i := 0; i < P; i++ {
		k := (i + 1) % P
		at := func(kind string, i, j int) (mktfhe.LWECiphertext[T], int) {
			name := fmt.Sprintf("%s%s %d %d", n, kind, i, j)
			return bundleGet[mktfhe.LWECiphertext[T]](in, out, name), in.Expect[name][0]
		}
		a, ma := at("lwe", i, 0)
		b, mb := at("lwe", k, 1)
		// the sum of the messages must not leave the message space
		out.put(fmt.Sprintf("%slwe function %d", n, i), e.BootstrapFunc(a, c16Fn), posMod(c16Fn(ma), M))
		if ma+mb < M {
			out.put(fmt.Sprintf("%slwe joint function %d", n, i), e.BootstrapFuncParallel(e.AddLWE(a, b), c16Fn), posMod(c16Fn(ma+mb), M))
		}
		x, mx := at("bool", i, 0)
		y, my := at("bool", k, 1)
		out.put(fmt.Sprintf("%sbool NAND %d", n, i), be.NAND(x, y), 1-mx*my)
		out.put(fmt.Sprintf("%sbool XOR %d", n, i), be.XORParallel(x, y), mx^my)
		g0, g1 := fmt.Sprintf("%sglwe %d", n, i), fmt.Sprintf("%sglwe %d", n, k)
		s := make([]int, len(in.Expect[g0]))
		for j := range s {
			s[j] = (in.Expect[g0][j] + in.Expect[g1][j]) % M
		}
		out.put(fmt.Sprintf("%sglwe sum %d", n, i), e.AddGLWE(bundleGet[mktfhe.GLWECiphertext[T]](in, out, g0), bundleGet[mktfhe.GLWECiphertext[T]](in, out, g1)), s...)
	}
}

func c16DecryptMk[T TI](n string, key, in, out *c16Bundle) {
	p := bundleGet[mktfhe.Parameters[T]](key, out, n+"params")
	sks := map[int]tfhe.SecretKey[T]{}
	for i := 0; i < p.PartyCount(); i++ {
		sks[i] = bundleGet[tfhe.SecretKey[T]](key, out, fmt.Sprintf("%ssk %d", n, i))
	}
	d, bd := mktfhe.NewDecryptor(p, sks), mktfhe.NewBinaryDecryptor(p, sks)
	for _, b := range []*c16Bundle{key, in} {
		for name := range b.Expect {
			if len(name) < len(n)+4 || name[:len(n)] != n {
				continue
			}
			switch kind := name[len(n):]; {
			case kind[:4] == "lwe ":
				out.Got[name] = []int{d.DecryptLWE(bundleGet[mktfhe.LWECiphertext[T]](b, out, name))}
			case kind[:4] == "bool":
				out.Got[name] = []int{bit01(bd.DecryptLWEBool(bundleGet[mktfhe.LWECiphertext[T]](b, out, name)))}
			case kind[:4] == "glwe":
				out.Got[name] = d.DecryptGLWE(bundleGet[mktfhe.GLWECiphertext[T]](b, out, name))
			}
		}
	}
}

func c16ProduceFhew[T TI](r *R, n string, c FCfg[T], out *c16Bundle) {
	g := r.Sub(n)
	p := c.Lit.Compile()
	e := xtfhe.NewFHEWEncryptor(p)
	evk := e.GenEvalKey()
	out.put(n+"params", c.Lit.BaseParams.Compile())
	out.put(n+"sk", e.SecretKey)
	out.put(n+"brk", evk.BlindRotateKey)
	out.put(n+"ksk", evk.KeySwitchKey)
	for i, k := range evk.GaloisKey {
		out.put(fmt.Sprintf("%sgadget %d", n, i), k.GadgetParams)
		for j, v := range k.Value {
			out.put(fmt.Sprintf("%sgalois %d %d", n, i, j), v)
		}
	}
	for i := 0; i < c16Msgs; i++ {
		m := g.IntN(int(c.Lit.BaseParams.MessageModulus))
		out.put(fmt.Sprintf("%slwe %d", n, i), e.EncryptLWE(m), m)
	}
}

func c16EvaluateFhew[T TI](n string, c FCfg[T], in, out *c16Bundle) {
	M := int(c.Lit.BaseParams.MessageModulus)
	evk := xtfhe.FHEWEvaluationKey[T]{
		BlindRotateKey: bundleGet[tfhe.BlindRotateKey[T]](in, out, n+"brk"), KeySwitchKey: bundleGet[tfhe.LWEKeySwitchKey[T]](in, out, n+"ksk")}
	for i := 0; i <= c.Lit.WindowSize; i++ {
		k := tfhe.GLWEKeySwitchKey[T]{GadgetParams: bundleGet[tfhe.GadgetParameters[T]](in, out, fmt.Sprintf("%sgadget %d", n, i))}
		for j := 0; j < c.Lit.BaseParams.GLWERank; j++ {
			k.Value = append(k.Value, bundleGet[tfhe.FFTGLevCiphertext[T]](in, out, fmt.Sprintf("%sgalois %d %d", n, i, j)))
		}
		evk.GaloisKey = append(evk.GaloisKey, k)
	}
	e := xtfhe.NewFHEWEvaluator(c.Lit.Compile(), evk)
	for i := 0; i < c16Msgs; i++ {
		name := fmt.Sprintf("%slwe %d", n, i)
		ct := bundleGet[tfhe.LWECiphertext[T]](in, out, name)
		out.put(fmt.Sprintf("%slwe function %d", n, i), e.BootstrapFunc(ct, c16Fn), posMod(c16Fn(in.Expect[name][0]), M))
	}
}

// c16Exchange passes keys and ciphertexts from every build to every other and on to a third.
func c16Exchange(r *R, group string) {
	keys := map[string]string{}
	rm := func(f string) {
		if f != "" {
			os.Remove(f)
			os.Remove(f + ".json")
		}
	}
	var files []string
	defer func() {
		for _, f := range files {
			rm(f)
		}
	}()
	run := func(title, variant string, env ...string) string {
		f, err := c16Child(r, group, variant, env...)
		files = append(files, f)
		ok := true
		r.Case(title, func() {
			if err != nil {
				r.Fail("%v", err)
				ok = false
				return
			}
			for _, t := range bundleFile(f).Trouble {
				r.Fail("%s", t)
			}
		})
		if !ok {
			return ""
		}
		return f
	}
	for _, a := range c16Builds {
		keys[a] = run(a+" makes keys and ciphertexts", a, "VH_C16_ROLE=produce")
		if keys[a] == "" {
			return
		}
	}
	for i, a := range c16Builds {
		for j, b := range c16Builds {
			res := run(b+" evaluates what "+a+" made", b, "VH_C16_ROLE=evaluate", "VH_C16_KEYS="+keys[a])
			if res == "" {
				continue
			}
			c := c16Builds[(2*i+2*j)%3] // the third one when they differ
			title := fmt.Sprintf("%s decrypts what %s evaluated with the keys of %s", c, b, a)
			got := run(title, c, "VH_C16_ROLE=decrypt", "VH_C16_KEYS="+keys[a], "VH_C16_IN="+res)
			if got == "" {
				continue
			}
			gb := bundleFile(got)
			for _, f := range []string{keys[a], res} {
				want := bundleFile(f).Expect
				var names []string
				for n := range want {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					if n == "" || gb.Got[n] == nil {
						continue
					}
					r.Case(title+", "+n, func() {
						r.Check(eqV(want[n], gb.Got[n]), "decrypts to %.200v, not to %.200v", gb.Got[n], want[n])
						r.Obs("messages through another build", len(want[n]))
					})
				}
			}
		}
	}
}
