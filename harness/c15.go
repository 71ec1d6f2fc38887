package main

import (
	"fmt"
	"sort"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
)

func c15Lens(r *R) []int {
	m := map[int]bool{}
	for i := 0; i <= 70; i++ {
		m[i] = true
	}
	for _, b := range []int{128, 256, 512, 1000, 1024} {
		for d := -2; d <= 3; d++ {
			m[b+d] = true
		}
	}
	for i := 0; i < r.Pick(40, 200); i++ {
		m[r.Rng.IntN(r.Pick(6000, 20000))] = true
	}
	for _, b := range []int{4096, 16384, 65536, 5000 + r.Rng.IntN(60000)} { // loops that change their ways for long vectors
		m[b-3+r.Rng.IntN(7)] = true
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

const pad = 9

// framed returns a slice of length n inside a larger buffer filled with canaries.
func framed[T num.Number](r *R, n, off int) (buf, v []T) {
	buf = make([]T, n+2*pad+off)
	for i := range buf {
		buf[i] = genNum[T](r.Rng)
	}
	return buf, buf[pad+off : pad+off+n : len(buf)]
}

func c15Arith[T num.Number](r *R) {
	tn := typeName[T]()
	g := r.Rng
	for _, n := range c15Lens(r) {
		for _, op := range vecOps[T]() {
			for alias := 0; alias < 5; alias++ {
				if alias >= 2 && op.ins < 2 {
					break
				}
				off := g.IntN(5)
				r.CaseN(fmt.Sprintf("%s %s len=%d alias=%d off=%d", tn, op.name, n, alias, off), n > 0, func() {
					bo, o := framed[T](r, n, off)
					ba, a := framed[T](r, n, g.IntN(5))
					bb, b := framed[T](r, n, g.IntN(5))
					switch alias { // 0 distinct
					case 1:
						a = o
					case 2:
						b = o
					case 3:
						a, b = o, o
					case 4:
						b = a
					}
					c := genNum[T](g)
					ao, aa, ab := append([]T(nil), bo...), append([]T(nil), ba...), append([]T(nil), bb...)
					o0, a0, b0 := append([]T(nil), o...), append([]T(nil), a...), append([]T(nil), b...)
					op.fn(o, a, b, c)
					for i := range o {
						if want := op.ref(o0[i], a0[i], b0[i], c); o[i] != want {
							r.Fail("position %d: %v, want %v (out %v, in %v, %v, c %v)", i, o[i], want, o0[i], a0[i], b0[i], c)
							break
						}
					}
					r.Obs("elements", n)
					copy(bo[pad+off:pad+off+n], o0)
					r.Check(vec.Equals(bo, ao), "memory around the output changed")
					r.Check(vec.Equals(ba, aa) && vec.Equals(bb, ab), "an input changed")
				})
			}
		}
		r.CaseN(fmt.Sprintf("%s allocating len=%d", tn, n), n > 0, func() {
			_, a := framed[T](r, n, g.IntN(5))
			_, b := framed[T](r, n, g.IntN(5))
			c := genNum[T](g)
			add, sub, mul, neg, sm := vec.Add(a, b), vec.Sub(a, b), vec.Mul(a, b), vec.Neg(a), vec.ScalarMul(a, c)
			var dot T
			for i := range a {
				dot += a[i] * b[i]
				if add[i] != a[i]+b[i] || sub[i] != a[i]-b[i] || mul[i] != a[i]*b[i] || neg[i] != -a[i] || sm[i] != c*a[i] {
					r.Fail("position %d wrong", i)
					break
				}
			}
			r.Check(len(add) == n && len(sub) == n && len(mul) == n && len(neg) == n && len(sm) == n, "wrong output length")
			// sums of floats are exact here only for moderate lengths
			if n <= 100 {
				r.Check(vec.Dot(a, b) == dot, "Dot %v want %v", vec.Dot(a, b), dot)
			}
			r.Obs("elements", n)
		})
	}
	c15Move[T](r)
}

// c15Move monitors the reordering and copying helpers.
func c15Move[T num.Number](r *R) {
	tn := typeName[T]()
	g := r.Rng
	for n := 0; n <= 66; n++ {
		r.CaseN(fmt.Sprintf("%s reorder len=%d", tn, n), n > 0, func() {
			buf, a := framed[T](r, n, 0)
			a0 := append([]T(nil), a...)
			rv := vec.Reverse(a)
			ip := append([]T(nil), a...)
			vec.ReverseInPlace(ip)
			cp := vec.Copy(a)
			for i := range a0 {
				if rv[i] != a0[n-1-i] || ip[i] != a0[n-1-i] || cp[i] != a0[i] {
					r.Fail("Reverse/Copy wrong at %d", i)
					break
				}
			}
			r.Check(len(rv) == n && len(cp) == n && (cp != nil), "lengths %d %d", len(rv), len(cp))
			if n > 0 {
				cp[0]++
				r.Check(a[0] == a0[0], "Copy shares memory")
				for k := 0; k < 8; k++ {
					l := g.IntN(4*n+1) - 2*n
					ro := vec.Rotate(a, l)
					ri := append([]T(nil), a...)
					vec.RotateInPlace(ri, l)
					for i := range a0 {
						if w := a0[posMod(i-l, n)]; ro[i] != w || ri[i] != w {
							r.Fail("Rotate by %d wrong at %d", l, i)
							break
						}
					}
				}
			}
			r.Check(vec.Equals(a, a0), "input changed")
			r.Check(vec.Equals(a, append([]T(nil), a...)), "Equals false on equal vectors")
			if n > 0 {
				d := append([]T(nil), a...)
				d[g.IntN(n)]++
				r.Check(!vec.Equals(a, d), "Equals true on different vectors")
				r.Check(!vec.Equals(a, a[:n-1]) && !vec.Equals(a[:n-1], a), "Equals true on different lengths")
			}
			x := genNum[T](g)
			b0 := append([]T(nil), buf...)
			vec.Fill(a, x)
			for i := range buf {
				w := b0[i]
				if i >= pad && i < pad+n {
					w = x
				}
				if buf[i] != w {
					r.Fail("Fill wrong at %d", i-pad)
					break
				}
			}
		})
	}
	for lg := 0; lg <= 12; lg++ {
		n := 1 << lg
		r.CaseN(fmt.Sprintf("%s bitreverse len=%d", tn, n), n > 2, func() {
			_, a := framed[T](r, n, 0)
			a0 := append([]T(nil), a...)
			vec.BitReverseInPlace(a)
			for i := range a {
				j := 0
				for b := 0; b < lg; b++ {
					j |= ((i >> b) & 1) << (lg - 1 - b)
				}
				if a[i] != a0[j] {
					r.Fail("position %d", i)
					break
				}
			}
		})
	}
}

func c15Cast[A, B num.Integer](r *R) {
	r.Case(fmt.Sprintf("cast %s->%s", typeName[A](), typeName[B]()), func() {
		for n := 0; n < 40; n++ {
			v := make([]A, n)
			for i := range v {
				v[i] = edgeI[A](r.Rng)
			}
			o := vec.Cast[B](v)
			for i := range v {
				if o[i] != B(v[i]) {
					r.Fail("Cast %v -> %v", v[i], o[i])
				}
			}
			f := vec.Cast[float64](v)
			for i := range v {
				if f[i] != float64(v[i]) {
					r.Fail("Cast %v -> %v", v[i], f[i])
				}
			}
			r.Obs("elements", n)
		}
	})
}

func init() {
	about("C15", "a case is (type, operation, length, aliasing pattern, offset): all 15 numeric types, every length 0..70 and lengths around powers of two, operands placed at odd offsets inside canary-filled buffers; each output position is compared with scalar Go arithmetic, all other memory must stay as it was",
		"floating-point operands are small dyadic rationals, so that every result is exact whatever the association")
	needObs("C15", "elements", 1000000)
	f := func(name string, fn func(r *R)) { reg("C15", name, vAll, vAll, fn) }
	f("int8", c15Arith[int8])
	f("uint8", c15Arith[uint8])
	f("int16", c15Arith[int16])
	f("uint16", c15Arith[uint16])
	f("int32", c15Arith[int32])
	f("uint32", c15Arith[uint32])
	f("int64", c15Arith[int64])
	f("uint64", c15Arith[uint64])
	f("int", c15Arith[int])
	f("uint", c15Arith[uint])
	f("uintptr", c15Arith[uintptr])
	f("float32", c15Arith[float32])
	f("float64", c15Arith[float64])
	f("complex64", c15Arith[complex64])
	f("complex128", c15Arith[complex128])
	f("cast_float4", func(r *R) {
		c15Cast[uint32, uint64](r)
		c15Cast[uint64, uint32](r)
		c15Cast[int64, uint32](r)
		c15Cast[int, uint64](r)
		c15Cast[uint32, int](r)
		c15Cast[int8, uint64](r)
		c15Cast[uint8, int16](r)
		for n := 0; n <= 256; n += 4 {
			r.CaseN(fmt.Sprintf("float4 len=%d", n), n > 0, func() {
				c := make([]complex128, n)
				for i := range c {
					c[i] = complex(r.Rng.NormFloat64(), r.Rng.NormFloat64())
				}
				f := vec.CmplxToFloat4(c)
				r.Check(len(f) == 2*n, "length %d", len(f))
				for i := range c {
					if f[(i/4)*8+i%4] != real(c[i]) || f[(i/4)*8+4+i%4] != imag(c[i]) {
						r.Fail("position %d", i)
						break
					}
				}
				r.Check(vec.Equals(vec.Float4ToCmplx(f), c), "round trip")
				r.Obs("elements", n)
			})
		}
	})
}
