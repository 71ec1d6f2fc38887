package main

import (
	"encoding/gob"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

func init() {
	about("C16", "the same program with the same randomness is run by the SIMD build, the same build with the CPU extensions off and the pure-Go build, in "+
		"separate processes; the transcripts of all results are compared value by value: integer operations exactly, Fourier values and single products "+
		"to a rounding bound, chains of products (whose digits may flip) by the phases under the secret keys; serialized keys and ciphertexts "+
		"travel between every ordered pair of builds and every result is decrypted by the third and by the oracle",
		"the CPU has the SIMD extensions; GODEBUG=cpu.all=off turns their use off")
	uses("C16", "purego")
	needObs("C16", "results compared between builds", 4000)
	needObs("C16", "integer results compared exactly", 1500)
	needObs("C16", "phases compared between builds", 200)
	needObs("C16", "messages through another build", 300)
	reg("C16", "transcripts64", vAvx, vAvx, func(r *R) { c16Compare(r, "t64") })
	reg("C16", "transcripts32", vAvx, vAvx, func(r *R) { c16Compare(r, "t32") })
	reg("C16", "kernels", vAvx, vAvx, func(r *R) { c16Compare(r, "vec") })
	reg("C16", "t64", vNone, vNone, func(r *R) { c16Write(r, c16Surface[uint64]) })
	reg("C16", "t32", vNone, vNone, func(r *R) { c16Write(r, c16Surface[uint32]) })
	reg("C16", "vec", vNone, vNone, func(r *R) { c16Write(r, c16Kernels) })
}

// c16Leaf is one numeric vector of a result.
type c16Leaf struct {
	Path   string
	Ints   []uint64
	Bits   int  // word size of the integers
	Signed bool // messages and decisions, not words modulo a power of two
	Floats []float64
}

// c16Rec is one recorded operation.
type c16Rec struct {
	Name   string // the method
	Key    string // the case
	Leaves []c16Leaf
	Phases []c16Leaf
	Panic  string
}

// child runs a group of this check in another build and returns its output file.
func c16Child(r *R, group, variant string, env ...string) (string, error) {
	bin := os.Getenv("VH_BIN_plain")
	if variant == "purego" {
		bin = os.Getenv("VH_BIN_purego")
	}
	if bin == "" {
		bin = filepath.Clean(os.Args[0])
	}
	f, err := os.CreateTemp(os.Getenv("VH_WORK"), "c16")
	if err != nil {
		return "", err
	}
	f.Close()
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	rep := f.Name() + ".json"
	cmd := exec.Command(bin, "-id", "C16", "-group", group, "-variant", variant, "-tier", tier, "-seed", fmt.Sprint(r.Seed), "-out", rep)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GODEBUG=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	if variant == "cpuoff" {
		cmd.Env = append(cmd.Env, "GODEBUG=cpu.all=off")
	}
	cmd.Env = append(cmd.Env, "VH_C16_OUT="+f.Name())
	cmd.Env = append(cmd.Env, env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		if len(out) > 1500 {
			out = out[:1500]
		}
		return f.Name(), fmt.Errorf("the %s process failed: %v: %s", variant, err, out)
	}
	return f.Name(), nil
}

func c16Write(r *R, prog func(r *R, emit func(c16Rec))) {
	f, err := os.Create(os.Getenv("VH_C16_OUT"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	e := gob.NewEncoder(f)
	prog(r, func(x c16Rec) {
		if err := e.Encode(x); err != nil {
			panic(err)
		}
	})
	if err := e.Encode(c16Rec{Name: "END"}); err != nil {
		panic(err)
	}
}

// flatten lists the numbers of a value in a fixed order.
func flatten(v reflect.Value, path string, out *[]c16Leaf) {
	if !v.IsValid() {
		return
	}
	if v.CanAddr() && !v.CanInterface() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	num1 := func(v reflect.Value, l *c16Leaf) bool {
		switch v.Kind() {
		case reflect.Bool:
			l.Bits, l.Signed = 64, true
			if v.Bool() {
				l.Ints = append(l.Ints, 1)
			} else {
				l.Ints = append(l.Ints, 0)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			l.Bits, l.Signed = 64, true
			l.Ints = append(l.Ints, uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			l.Bits = int(v.Type().Size()) * 8
			l.Ints = append(l.Ints, v.Uint())
		case reflect.Float32, reflect.Float64:
			l.Floats = append(l.Floats, v.Float())
		case reflect.Complex64, reflect.Complex128:
			l.Floats = append(l.Floats, real(v.Complex()), imag(v.Complex()))
		default:
			return false
		}
		return true
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			flatten(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flatten(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice, reflect.Array:
		l := c16Leaf{Path: path}
		all := true
		for i := 0; i < v.Len(); i++ {
			if !num1(v.Index(i), &l) {
				all = false
				break
			}
		}
		if all {
			*out = append(*out, l)
			return
		}
		for i := 0; i < v.Len(); i++ {
			flatten(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(v.MapIndex(k))
			flatten(p.Elem(), fmt.Sprintf("%s[%v]", path, k), out)
		}
	default:
		l := c16Leaf{Path: path}
		if num1(v, &l) {
			*out = append(*out, l)
		}
	}
}

// c16Phases opens the ciphertexts in a value with the secret keys of the world.
func c16Phases[T TI](w *surfWorld[T], v reflect.Value, path string, out *[]c16Leaf) {
	add := func(p []T) {
		l := c16Leaf{Path: path, Bits: logQ[T]()}
		for _, x := range p {
			l.Ints = append(l.Ints, uint64(x))
		}
		*out = append(*out, l)
	}
	lwe := func(ct []T) {
		for _, k := range [][]T{w.key.LWEKey.Value, w.key.LWELargeKey.Value} {
			if len(k) == len(ct)-1 {
				add([]T{refLWEPhase(k, ct)})
				return
			}
		}
	}
	switch x := v.Interface().(type) {
	case tfhe.LWECiphertext[T]:
		lwe(x.Value)
		return
	case mktfhe.LWECiphertext[T]:
		if w.mk != nil {
			for _, k := range [][]T{w.mk.kl, w.mk.kb} {
				if len(k) == len(x.Value)-1 {
					add([]T{refLWEPhase(k, x.Value)})
					return
				}
			}
		}
		return
	case tfhe.GLWECiphertext[T]:
		if len(x.Value) == len(w.key.GLWEKey.Value)+1 {
			add(refGLWEPhase(w.key.GLWEKey.Value, x.Value))
		}
		return
	case tfhe.FFTGLWECiphertext[T]:
		if len(x.Value) == len(w.key.GLWEKey.Value)+1 {
			add(refGLWEPhase(w.key.GLWEKey.Value, w.tr.InvFFTGLWECiphertext(x).Value))
		}
		return
	case mktfhe.GLWECiphertext[T]:
		if w.mk != nil && len(x.Value) == len(w.mk.kg)+1 {
			add(refGLWEPhase(w.mk.kg, x.Value))
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				c16Phases(w, v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		if !plainKind(v.Type().Elem().Kind()) {
			for i := 0; i < v.Len(); i++ {
				c16Phases(w, v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
	}
}

// c16Surface calls every method of every object with generated arguments.
func c16Surface[T TI](r *R, emit func(c16Rec)) {
	r.Name = "surface" // the randomness is the same whatever the build
	r.Rng = r.Sub("main")
	r.SeedLib("worlds")
	ws := surfWorlds[T](r)
	for _, N := range []int{16, 256, 1024, 2048}[:r.Pick(3, 4)] {
		ws = append(ws, surfPoly[T](N))
	}
	for wi, w := range ws {
		for ai, a := range w.actors {
			key := fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai)
			g := r.Sub(key)
			o := a.make()
			for _, m := range a.ms {
				for rep := 0; rep < r.Pick(1, 6); rep++ {
					seed := fmt.Sprintf("%s %s %d", key, m, rep)
					c, err := a.gen(g, o, m, seed)
					if err != nil || strings.HasSuffix(m, "Parallel") || strings.HasSuffix(m, "ParallelTo") {
						continue
					}
					x := c16Rec{Name: a.key + "." + m, Key: seed}
					func() {
						defer func() {
							if p := recover(); p != nil {
								x.Panic = fmt.Sprint(p)
							}
						}()
						res := c.run(r, o, c.fresh())
						for i, v := range res {
							b := boxedOf(v)
							flatten(b.Elem(), fmt.Sprintf("result %d", i), &x.Leaves)
							c16Phases(w, b.Elem(), fmt.Sprintf("result %d", i), &x.Phases)
						}
					}()
					emit(x)
				}
			}
		}
	}
}

// c16Kernels runs the vector functions over every element type and length.
func c16Kernels(r *R, emit func(c16Rec)) {
	r.Name = "kernels"
	r.Rng = r.Sub("main")
	c16Vec[uint32](r, emit, "uint32")
	c16Vec[uint64](r, emit, "uint64")
	c16Vec[int32](r, emit, "int32")
	c16Vec[int64](r, emit, "int64")
	c16Vec[int](r, emit, "int")
	c16Vec[uint](r, emit, "uint")
	c16Vec[uint8](r, emit, "uint8")
	c16Vec[int16](r, emit, "int16")
	c16Vec[uintptr](r, emit, "uintptr")
	c16Vec[float32](r, emit, "float32")
	c16Vec[float64](r, emit, "float64")
	c16Vec[complex128](r, emit, "complex128")
	c16Poly[uint32](r, emit, "uint32")
	c16Poly[uint64](r, emit, "uint64")
}

func c16Vec[T num.Number](r *R, emit func(c16Rec), name string) {
	g := r.Sub(name)
	vv := func(n int) []T {
		o := make([]T, n)
		for i := range o {
			o[i] = genNum[T](g)
		}
		return o
	}
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 23, 31, 33, 63, 64, 65, 100, 127, 257, 1000}
	for i := 0; i < r.Pick(2, 60); i++ {
		lens = append(lens, g.IntN(3000))
	}
	lens = append(lens, 4096+g.IntN(5), 16380+g.IntN(9), 65530+g.IntN(12))
	for _, op := range vecOps[T]() {
		for _, n := range lens {
			o, a, b, c := vv(n), vv(n), vv(n), genNum[T](g)
			op.fn(o, a, b, c)
			x := c16Rec{Name: "vec." + op.name, Key: fmt.Sprintf("vec.%s %s length %d", op.name, name, n)}
			flatten(reflect.ValueOf(o), "result", &x.Leaves)
			emit(x)
		}
	}
}

func c16Poly[T TI](r *R, emit func(c16Rec), name string) {
	for _, N := range []int{16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}[:r.Pick(11, 12)] {
		g := r.Sub(fmt.Sprint(name, N))
		e := poly.NewEvaluator[T](N)
		for _, op := range polyOps[T]() {
			x := genPArgs(g, e)
			o := polyOf(randVec[T](g, N))
			op.to(e, o, x)
			rec := c16Rec{Name: "poly." + op.name, Key: fmt.Sprintf("poly.%s %s rank %d", op.name, name, N)}
			flatten(reflect.ValueOf(o), "result", &rec.Leaves)
			emit(rec)
		}
		for _, op := range fftOps[T]() {
			x := genFArgs(g, e)
			o := genFFT(g, N)
			op.to(e, o, x)
			rec := c16Rec{Name: "fft." + op.name, Key: fmt.Sprintf("fft.%s %s rank %d", op.name, name, N)}
			flatten(reflect.ValueOf(o), "result", &rec.Leaves)
			emit(rec)
		}
	}
}

var c16Builds = []string{"avx", "cpuoff", "purego"}

// c16Read reads a transcript record by record.
func c16Read(f string) (func() (c16Rec, error), func()) {
	h, err := os.Open(f)
	if err != nil {
		return func() (c16Rec, error) { return c16Rec{}, err }, func() {}
	}
	d := gob.NewDecoder(h)
	return func() (c16Rec, error) {
		var x c16Rec
		err := d.Decode(&x)
		return x, err
	}, func() { h.Close() }
}

func c16Compare(r *R, group string) {
	var files [3]string
	var errs [3]error
	done := make(chan int)
	for i, b := range c16Builds {
		go func() { files[i], errs[i] = c16Child(r, group, b); done <- i }()
	}
	for range c16Builds {
		<-done
	}
	defer func() {
		for _, f := range files {
			if f != "" {
				os.Remove(f)
			}
		}
	}()
	for i, err := range errs {
		if err != nil {
			r.Case("process "+c16Builds[i], func() { r.Fail("%v", err) })
			return
		}
	}
	var next [3]func() (c16Rec, error)
	for i, f := range files {
		n, cl := c16Read(f)
		defer cl()
		next[i] = n
	}
	dbg := os.Getenv("VH_C16_DEBUG")
	for {
		var x [3]c16Rec
		for i := range x {
			var err error
			if x[i], err = next[i](); err != nil {
				r.Case("transcript "+c16Builds[i], func() { r.Fail("the transcript ends early: %v", err) })
				return
			}
		}
		if x[0].Name == "END" && x[1].Name == "END" && x[2].Name == "END" {
			return
		}
		r.Case(x[0].Key, func() {
			for i := 1; i < 3; i++ {
				if x[i].Key != x[0].Key {
					r.Fail("the %s build does something else: %s", c16Builds[i], x[i].Key)
					return
				}
				if x[i].Panic != x[0].Panic {
					r.Fail("the %s build panics with %q, the SIMD build with %q", c16Builds[i], x[i].Panic, x[0].Panic)
					continue
				}
				d := c16Diff(r, x[0], x[i])
				r.Obs("results compared between builds", 1)
				if d != "" {
					r.Fail("%s build: %s", c16Builds[i], d)
				}
				if dbg != "" {
					c16Debug(dbg, x[0], x[i])
				}
			}
		})
	}
}

func c16Debug(file string, a, b c16Rec) {
	f, _ := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	defer f.Close()
	i, fl := c16Dist(a.Leaves, b.Leaves)
	p, _ := c16Dist(a.Phases, b.Phases)
	fmt.Fprintf(f, "%s\t%g\t%g\t%g\t%s\n", a.Name, math.Log2(i), math.Log2(fl), math.Log2(p), a.Key)
}

// c16Dist is the largest distance between integers, as a fraction of their modulus, and between floats, relative to the vector.
func c16Dist(a, b []c16Leaf) (id, fd float64) {
	if len(a) != len(b) {
		return math.Inf(1), math.Inf(1)
	}
	for i := range a {
		if a[i].Path != b[i].Path || len(a[i].Ints) != len(b[i].Ints) || len(a[i].Floats) != len(b[i].Floats) {
			return math.Inf(1), math.Inf(1)
		}
		for j, x := range a[i].Ints {
			y := b[i].Ints[j]
			if x == y {
				continue
			}
			d := float64(int64((x - y) << (64 - a[i].Bits)))
			id = max(id, math.Abs(d)/math.Exp2(64))
		}
		m := 0.0
		for _, x := range a[i].Floats {
			m = max(m, math.Abs(x))
		}
		for j, x := range a[i].Floats {
			y := b[i].Floats[j]
			if x == y || x != x && y != y {
				continue
			}
			if d := math.Abs(x-y) / m; d == d {
				fd = max(fd, d)
			} else {
				fd = math.Inf(1)
			}
		}
	}
	return
}

// methods whose integer results pass through the Fourier domain, and so are subject to rounding
var c16Rounded = regexp.MustCompile(`FFT|Prod|CMux|KeySwitchGLWE|BlindRotate|Bootstrap|Sanitize|Pack|Inv|^(Mul|Permute|Relinearize|Tensor|AND|OR|XOR|NAND|NOR|XNOR)(To)?$`)

// methods which use products exact by construction
var c16Exact = regexp.MustCompile(`^ShortFFT`)

// the second of the two products of a hybrid product works on digits of the first, and random operands encrypt nothing
var c16Unopened = regexp.MustCompile(`^mktfhe\..*\.HybridProd`)

const (
	c16FloatTol = 0x1p-44
	c16WordTol  = 0x1p-26
	c16PhaseTol = 0x1p-9
)

func c16Diff(r *R, a, b c16Rec) string {
	m := a.Name[strings.LastIndex(a.Name, ".")+1:]
	words, floats := c16Dist(a.Leaves, b.Leaves)
	if math.IsInf(words, 0) {
		return "results of another shape"
	}
	for i, l := range a.Leaves {
		if l.Signed && !eqV(l.Ints, b.Leaves[i].Ints) {
			return fmt.Sprintf("%s: %.200v, the SIMD build has %.200v", l.Path, b.Leaves[i].Ints, l.Ints)
		}
	}
	if words == 0 && floats == 0 {
		if len(a.Leaves) > 0 && (!c16Rounded.MatchString(m) || c16Exact.MatchString(m)) {
			r.Obs("integer results compared exactly", 1)
		}
		return ""
	}
	if !c16Rounded.MatchString(m) || c16Exact.MatchString(m) {
		if words > 0 {
			return fmt.Sprintf("an integer operation gives different results (off by %g of the modulus)", words)
		}
	}
	if words <= c16WordTol && floats <= c16FloatTol {
		r.Max("log2 rounding difference of words", math.Log2(words+0x1p-70))
		r.Max("log2 rounding difference of Fourier values", math.Log2(floats+0x1p-70))
		return ""
	}
	if c16Unopened.MatchString(a.Name) {
		r.Obs("hybrid products of random operands", 1)
		return ""
	}
	if len(a.Phases) == 0 {
		return fmt.Sprintf("results differ by %g of the modulus, Fourier values by %g", words, floats)
	}
	ph, _ := c16Dist(a.Phases, b.Phases)
	r.Obs("phases compared between builds", len(a.Phases))
	r.Max("log2 phase difference of chains", math.Log2(ph+0x1p-70))
	if ph > c16PhaseTol {
		return fmt.Sprintf("the results encrypt something else: phases differ by %g of the modulus", ph)
	}
	return ""
}
