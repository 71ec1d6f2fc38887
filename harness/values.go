package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// vshape is the shape of a generated value.
type vshape[T TI] struct {
	n, k, N, in, parties, ext int
	g1, g2, g3                tfhe.GadgetParameters[T]
}

func (s vshape[T]) String() string {
	return fmt.Sprintf("n=%d k=%d N=%d in=%d parties=%d ext=%d gadgets %dx%d %dx%d %dx%d", s.n, s.k, s.N, s.in, s.parties, s.ext,
		s.g1.LogBase(), s.g1.Level(), s.g2.LogBase(), s.g2.Level(), s.g3.LogBase(), s.g3.Level())
}

func randShape[T TI](g *rand.Rand) vshape[T] {
	gp := func() tfhe.GadgetParameters[T] {
		b := 1 + g.IntN(logQ[T]()-1)
		return gadOf[T](b, 1+g.IntN(min(4, logQ[T]()/b))).gp
	}
	s := vshape[T]{k: 1 + g.IntN(3), N: 16 << g.IntN(2), in: 1 + g.IntN(3), parties: 1 + g.IntN(4), ext: 1 + g.IntN(4), g1: gp(), g2: gp(), g3: gp()}
	s.n = 1 + g.IntN(min(9, s.k*s.N-1))
	return s
}

// bigShapes is the number of shapes that are large in one direction.
const bigShapes = 10

// vshapeOf is a random shape, or for i < 0 one that is large in one direction.
func vshapeOf[T TI](g *rand.Rand, i int) vshape[T] {
	s := randShape[T](g)
	if i >= 0 {
		return s
	}
	g1 := gadOf[T](7, 1+g.IntN(3)).gp
	s.k, s.N, s.in, s.parties, s.ext, s.n, s.g1, s.g2, s.g3 = 1, 16, 1, 1, 1, 1+g.IntN(5), g1, gadOf[T](5, 2).gp, gadOf[T](3, 1).gp
	switch -1 - i {
	case 0:
		s.N = 512 << g.IntN(2)
	case 1:
		s.N = 2048 << g.IntN(2)
	case 2:
		s.k = 4 + g.IntN(6)
	case 3:
		s.k, s.n = 9+g.IntN(10), 1
	case 4:
		s.n, s.N = 64+g.IntN(190), 256
		s.g1 = gadOf[T](7, 1).gp
	case 5:
		s.n, s.k, s.N = 257+g.IntN(40), 20, 16
		s.g1 = gadOf[T](7, 1).gp
	case 6:
		s.in = 20 + g.IntN(300)
	case 7:
		s.parties, s.ext = 5+g.IntN(70), 5+g.IntN(70)
	case 8:
		s.g1 = gadOf[T](1+g.IntN(2), 5+g.IntN(logQ[T]()/2-5)).gp
	case 9:
		s.g1, s.g2, s.g3 = gadOf[T](1, 3+g.IntN(logQ[T]()-3)).gp, gadOf[T](2, 9+g.IntN(6)).gp, gadOf[T](1, logQ[T]()-g.IntN(3)).gp
	}
	return s
}

// tooBig tells whether a value of a large shape is more than its check has time for.
func tooBig(p any, i, limit int) bool {
	if i >= 0 {
		return false
	}
	n := 0
	walkSlices(reflect.ValueOf(p), map[visit]bool{}, func(v reflect.Value) {
		n += 200 // many small slices take their time too
		switch s := v.Interface().(type) {
		case []uint32:
			n += 4 * len(s)
		case []uint64:
			n += 8 * len(s)
		case []float64:
			n += 8 * len(s)
		}
	})
	return n > limit
}

// vkind is a family of values of one type.
type vkind[T TI] struct {
	name string
	make func(g *rand.Rand, s vshape[T]) any // allocated, shaped, not filled
	own  bool                                // already filled
}

func fftp(N int) poly.FFTPoly { return poly.NewFFTPoly(N) }

// valueKinds lists the value types of the single-key (or multi-key) packages.
func valueKinds[T TI](multi bool) []vkind[T] {
	type S = vshape[T]
	v := func(name string, f func(s S) any) vkind[T] {
		return vkind[T]{name, func(_ *rand.Rand, s S) any { return f(s) }, false}
	}
	if multi {
		return []vkind[T]{
			v("mktfhe.LWECiphertext", func(s S) any { return mktfhe.NewLWECiphertextCustom[T](s.n * s.parties) }),
			v("mktfhe.GLWECiphertext", func(s S) any { return mktfhe.NewGLWECiphertextCustom[T](s.parties, s.N) }),
			v("mktfhe.FFTGLWECiphertext", func(s S) any { return mktfhe.NewFFTGLWECiphertextCustom[T](s.parties, s.N) }),
			v("mktfhe.UniEncryption", func(s S) any { return mktfhe.NewUniEncryptionCustom(s.N, s.g1) }),
			v("mktfhe.FFTUniEncryption", func(s S) any { return mktfhe.NewFFTUniEncryptionCustom(s.N, s.g1) }),
			v("mktfhe.EvaluationKey", func(s S) any { return mktfhe.NewEvaluationKeyCustom(min(s.n, s.N-1), s.N, s.g1, s.g2, s.g3) }),
			v("mktfhe.EvaluationKey (empty key switching key)", func(s S) any { return mktfhe.NewEvaluationKeyCustom(s.N, s.N, s.g1, s.g2, s.g3) }),
			{"mktfhe.Parameters", func(g *rand.Rand, s S) any { return randMulti[T](g).Lit.Compile() }, true},
		}
	}
	return []vkind[T]{
		v("LWESecretKey", func(s S) any { return tfhe.NewLWESecretKeyCustom[T](s.n) }),
		v("LWEPublicKey", func(s S) any { return tfhe.NewLWEPublicKeyCustom[T](s.k, s.N) }),
		v("LWEPlaintext", func(s S) any { return tfhe.NewLWEPlaintext[T]() }),
		v("LWECiphertext", func(s S) any { return tfhe.NewLWECiphertextCustom[T](s.n) }),
		v("LevCiphertext", func(s S) any { return tfhe.NewLevCiphertextCustom(s.n, s.g1) }),
		v("GSWCiphertext", func(s S) any { return tfhe.NewGSWCiphertextCustom(s.n, s.g1) }),
		v("GLWESecretKey", func(s S) any { return tfhe.NewGLWESecretKeyCustom[T](s.k, s.N) }),
		v("GLWEPublicKey", func(s S) any { return tfhe.NewGLWEPublicKeyCustom[T](s.k, s.N) }),
		v("GLWEPlaintext", func(s S) any { return tfhe.NewGLWEPlaintextCustom[T](s.N) }),
		v("GLWECiphertext", func(s S) any { return tfhe.NewGLWECiphertextCustom[T](s.k, s.N) }),
		v("GLevCiphertext", func(s S) any { return tfhe.NewGLevCiphertextCustom(s.k, s.N, s.g1) }),
		v("GGSWCiphertext", func(s S) any { return tfhe.NewGGSWCiphertextCustom(s.k, s.N, s.g1) }),
		v("FFTGLWESecretKey", func(s S) any { return tfhe.NewFFTGLWESecretKeyCustom[T](s.k, s.N) }),
		v("FFTGLWECiphertext", func(s S) any { return tfhe.NewFFTGLWECiphertextCustom[T](s.k, s.N) }),
		v("FFTGLevCiphertext", func(s S) any { return tfhe.NewFFTGLevCiphertextCustom(s.k, s.N, s.g1) }),
		v("FFTGGSWCiphertext", func(s S) any { return tfhe.NewFFTGGSWCiphertextCustom(s.k, s.N, s.g1) }),
		v("SecretKey", func(s S) any { return tfhe.NewSecretKeyCustom[T](s.n, s.k, s.N) }),
		v("PublicKey", func(s S) any { return tfhe.NewPublicKeyCustom[T](s.k, s.N) }),
		v("LWEKeySwitchKey", func(s S) any { return tfhe.NewLWEKeySwitchKeyCustom(s.in, s.n, s.g1) }),
		v("LWEKeySwitchKey (bootstrap)", func(s S) any { return tfhe.NewKeySwitchKeyForBootstrapCustom(s.n, s.k, s.N, s.g1) }),
		v("GLWEKeySwitchKey", func(s S) any { return tfhe.NewGLWEKeySwitchKeyCustom(s.in, s.k, s.N, s.g1) }),
		v("BlindRotateKey", func(s S) any { return tfhe.NewBlindRotateKeyCustom(s.n, s.k, s.N, s.g1) }),
		v("EvaluationKey", func(s S) any { return tfhe.NewEvaluationKeyCustom(s.n, s.k, s.N, s.g1, s.g2) }),
		v("EvaluationKey (empty key switching key)", func(s S) any { return tfhe.NewEvaluationKeyCustom(s.k*s.N, s.k, s.N, s.g1, s.g2) }),
		v("GadgetParameters", func(s S) any { return s.g1 }),
		{"Parameters", func(g *rand.Rand, s S) any { return randCfg[T](g).Lit.Compile() }, true},
		v("LookUpTable", func(s S) any { return tfhe.NewLUTCustom[T](s.ext, s.N) }),
		v("Poly", func(s S) any { return poly.NewPoly[T](s.N) }),
		v("FFTPoly", func(s S) any { return fftp(s.N) }),
	}
}

// newValue makes a filled value and returns a pointer to it.
func (k vkind[T]) newValue(g *rand.Rand, s vshape[T]) any {
	v := k.make(g, s)
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	if !k.own {
		fillValue[T](g, p.Interface())
	}
	return p.Interface()
}

// fillValue fills every numeric slice (and the scalar of a plaintext) with random and edge values.
func fillValue[T TI](g *rand.Rand, p any) {
	walkSlices(reflect.ValueOf(p), map[visit]bool{}, func(v reflect.Value) {
		switch s := v.Interface().(type) {
		case []T:
			for i := range s {
				s[i] = edgeT[T](g)
			}
		case []float64:
			for i := range s {
				s[i] = edgeFloat(g)
			}
		}
	})
	if q, ok := p.(*tfhe.LWEPlaintext[T]); ok {
		q.Value = edgeT[T](g)
	}
}

func edgeFloat(g *rand.Rand) float64 {
	switch g.IntN(12) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.Inf(1 - 2*g.IntN(2))
	case 3:
		return math.Float64frombits(g.Uint64() & 0x800fffffffffffff) // subnormal
	case 4:
		return math.MaxFloat64
	default:
		return math.Ldexp(g.Float64()*2-1, g.IntN(140)-70)
	}
}

// deepSame compares two values bit by bit (lengths, hidden fields and float bits included) and names the first difference.
func deepSame(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return path + ": types differ"
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": one is nil"
		}
		if a.IsNil() {
			return ""
		}
		return deepSame(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := deepSame(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: lengths %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := deepSame(a.Index(i), b.Index(i), path+"["+fmt.Sprint(i)+"]"); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return path + ": map sizes differ"
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() {
				return path + ": key missing"
			}
			if d := deepSame(a.MapIndex(k), w, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Float64, reflect.Float32:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %g and %g", path, a.Float(), b.Float())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d and %d", path, a.Uint(), b.Uint())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d and %d", path, a.Int(), b.Int())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return path + ": differ"
		}
	case reflect.String:
		if a.String() != b.String() {
			return path + ": differ"
		}
	}
	return ""
}

func same(a, b any) string { return deepSame(reflect.ValueOf(a), reflect.ValueOf(b), "") }

// cloneDeep copies a value by reflection, keeping shared memory shared.
func cloneDeep(p any) any {
	v := reflect.ValueOf(p)
	n := reflect.New(v.Type().Elem())
	n.Elem().Set(v.Elem())
	var dup func(v reflect.Value)
	// numeric memory first: find the maximal regions, copy them once
	var regs []sliceAt
	walkSlices(v, map[visit]bool{}, func(s reflect.Value) {
		if s.Len() > 0 {
			regs = append(regs, sliceAt{p: s.UnsafePointer(), lo: s.Pointer(), hi: s.Pointer() + uintptr(s.Len())*s.Type().Elem().Size()})
		}
	})
	regs = mergeRegions(regs)
	mem := make([][]byte, len(regs))
	for i, r := range regs {
		w := make([]uint64, (r.hi-r.lo+7)/8)
		b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(w))), int(r.hi-r.lo))
		copy(b, unsafe.Slice((*byte)(r.p), int(r.hi-r.lo)))
		mem[i] = b
	}
	find := func(p uintptr) unsafe.Pointer {
		lo, hi := 0, len(regs)
		for lo+1 < hi {
			m := (lo + hi) / 2
			if regs[m].lo <= p {
				lo = m
			} else {
				hi = m
			}
		}
		return unsafe.Pointer(&mem[lo][p-regs[lo].lo])
	}
	dup = func(v reflect.Value) { // v addressable
		if !v.CanSet() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				dup(v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				dup(v.Index(i))
			}
		case reflect.Pointer:
			if !v.IsNil() {
				e := reflect.New(v.Type().Elem())
				e.Elem().Set(v.Elem())
				dup(e.Elem())
				v.Set(e)
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			if plainKind(v.Type().Elem().Kind()) {
				if v.Len() == 0 {
					v.Set(reflect.MakeSlice(v.Type(), 0, 0))
					return
				}
				p := find(v.Pointer())
				h := (*struct {
					p        unsafe.Pointer
					len, cap int
				})(unsafe.Pointer(v.UnsafeAddr()))
				h.p, h.cap = p, h.len
				return
			}
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			for i := 0; i < s.Len(); i++ {
				dup(s.Index(i))
			}
			v.Set(s)
		case reflect.Map:
			if v.IsNil() {
				return
			}
			m := reflect.MakeMap(v.Type())
			it := v.MapRange()
			for it.Next() {
				e := reflect.New(v.Type().Elem())
				e.Elem().Set(it.Value())
				dup(e.Elem())
				m.SetMapIndex(it.Key(), e.Elem())
			}
			v.Set(m)
		}
	}
	dup(n.Elem())
	return n.Interface()
}

func mergeRegions(r []sliceAt) []sliceAt {
	sortRegions(r)
	var o []sliceAt
	for _, x := range r {
		if len(o) > 0 && x.lo < o[len(o)-1].hi {
			o[len(o)-1].hi = max(o[len(o)-1].hi, x.hi)
			continue
		}
		o = append(o, x)
	}
	return o
}

// regions lists the numeric memory of a value.
func regions(p any) []sliceAt {
	var r []sliceAt
	walkSlices(reflect.ValueOf(p), map[visit]bool{}, func(s reflect.Value) {
		if s.Len() > 0 {
			r = append(r, sliceAt{lo: s.Pointer(), hi: s.Pointer() + uintptr(s.Len())*s.Type().Elem().Size()})
		}
	})
	return mergeRegions(r)
}

// shareMemory reports whether two values share numeric memory.
func shareMemory(a, b any) bool {
	x, y := regions(a), regions(b)
	for i, j := 0, 0; i < len(x) && j < len(y); {
		if x[i].hi <= y[j].lo {
			i++
		} else if y[j].hi <= x[i].lo {
			j++
		} else {
			return true
		}
	}
	return false
}

// aliasShape describes which of the value's own slices share memory with which, relative to each other.
func aliasShape(p any) string {
	var s []sliceAt
	walkSlices(reflect.ValueOf(p), map[visit]bool{}, func(v reflect.Value) {
		if v.Len() > 0 {
			s = append(s, sliceAt{lo: v.Pointer(), hi: v.Pointer() + uintptr(v.Len())*v.Type().Elem().Size()})
		}
	})
	if len(s) > 400 {
		s = s[:400]
	}
	out := ""
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[i].lo < s[j].hi && s[j].lo < s[i].hi {
				out += fmt.Sprintf("%d/%d%+d;", i, j, int64(s[j].lo-s[i].lo))
			}
		}
	}
	return out
}
