package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
)

// refused runs fn, which gets operands of inconsistent lengths: it has to panic, and not because of a fault or by
// running off the end half way through.
func refused(r *R, what string, fn func()) {
	r.Obs("inconsistent operands", 1)
	defer func() {
		e := recover()
		if e == nil {
			r.Fail("%s: operands of inconsistent lengths were accepted", what)
			return
		}
		if f, ok := e.(interface{ Addr() uintptr }); ok {
			r.Fail("%s: memory fault at %#x on operands of inconsistent lengths", what, f.Addr())
			return
		}
		if s := fmt.Sprint(e); strings.Contains(s, "unexpected fault") || strings.Contains(s, "invalid memory address") {
			r.Fail("%s: %s", what, s)
		}
	}()
	fn()
}

// otherLens are lengths different from n, near and far.
func otherLens(g *rand.Rand, n int) []int {
	out := []int{n + 1, n + 4, n + 8, 2*n + 16}
	for _, d := range []int{1, 4, 8, (n + 1) / 2, n} {
		if d > 0 && n-d >= 0 {
			out = append(out, n-d)
		}
	}
	return append(out, n+1+g.IntN(64))
}

func c17LenVec[T num.Number](r *R, a *arena) {
	g := r.Rng
	for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 512, 1024} {
		for _, m := range otherLens(g, n) {
			get := func(k int) []T { return gslice(a, gvec[T](g, k), true, 0) }
			try := func(name string, fn func(l func(i int) []T), operands int) {
				for k := 0; k < operands; k++ {
					r.Case(fmt.Sprintf("%s %s len=%d operand %d of len %d", typeName[T](), name, n, k, m), func() {
						a.reset()
						v := make([][]T, operands)
						for i := range v {
							v[i] = get(n)
							if i == k {
								v[i] = get(m)
							}
						}
						refused(r, name, func() { fn(func(i int) []T { return v[i] }) })
						ok, why := a.intact()
						r.Check(ok, "%s", why)
					})
				}
			}
			for _, op := range vecOps[T]() {
				c := genNum[T](g)
				try(op.name, func(l func(int) []T) {
					if op.ins == 1 {
						op.fn(l(0), l(1), nil, c)
					} else {
						op.fn(l(0), l(1), l(2), c)
					}
				}, 1+op.ins)
			}
			two := func(name string, fn func(x, y []T)) {
				try(name, func(l func(int) []T) { fn(l(0), l(1)) }, 2)
			}
			two("Add", func(x, y []T) { vec.Add(x, y) })
			two("Sub", func(x, y []T) { vec.Sub(x, y) })
			two("Mul", func(x, y []T) { vec.Mul(x, y) })
			two("Dot", func(x, y []T) { vec.Dot(x, y) })
			two("ReverseTo", func(x, y []T) { vec.ReverseTo(x, y) })
			two("CastTo", func(x, y []T) { c17Cast(g, x, y, a) })
			if n > 0 && m > 0 {
				two("RotateTo", func(x, y []T) { vec.RotateTo(x, y, g.IntN(9)-4) })
			}
		}
	}
}

// c17Cast casts into a vector of another element type and length len(x) when T is a real type.
func c17Cast[T num.Number](g *rand.Rand, x, y []T, a *arena) {
	o := gslice(a, make([]int32, len(x)), true, 0)
	switch v := any(y).(type) {
	case []uint32:
		vec.CastTo(o, v)
	case []uint64:
		vec.CastTo(o, v)
	case []float64:
		vec.CastTo(o, v)
	case []int16:
		vec.CastTo(o, v)
	default:
		panic("not a real type")
	}
}

// c17LenCmplx: layout conversions take whole groups of four and outputs of the matching length.
func c17LenCmplx(r *R, a *arena) {
	for n := 0; n <= 68; n++ {
		for m := 0; m <= 140; m++ {
			f, z := gslice(a, make([]float64, m), true, 0), gslice(a, make([]complex128, n), true, 0)
			r.Case(fmt.Sprintf("complex layout %d and %d", n, m), func() {
				if n%4 != 0 || m != 2*n {
					refused(r, "CmplxToFloat4To", func() { vec.CmplxToFloat4To(f, z) })
				}
				if m%8 != 0 || m != 2*n {
					refused(r, "Float4ToCmplxTo", func() { vec.Float4ToCmplxTo(z, f) })
				}
				if n%4 != 0 && m == 0 {
					refused(r, "CmplxToFloat4", func() { vec.CmplxToFloat4(z) })
				}
				if m%8 != 0 && n == 0 {
					refused(r, "Float4ToCmplx", func() { vec.Float4ToCmplx(f) })
				}
			})
			a.reset()
		}
	}
}

func c17LenPoly[T num.Integer](r *R, a *arena) {
	g := r.Rng
	for lg := 4; lg <= r.Pick(9, 12); lg++ {
		n := 1 << lg
		e := poly.NewEvaluator[T](n)
		for _, m := range otherLens(g, n) {
			odd := func() poly.Poly[T] { return poly.Poly[T]{Coeffs: gslice(a, genCoeffs[T](g, max(m, 1))[:m], true, 0)} }
			oddF := func() poly.FFTPoly {
				f := gslice(a, make([]float64, m), true, 0)
				for i := range f {
					f[i] = g.NormFloat64()
				}
				return poly.FFTPoly{Coeffs: f}
			}
			for _, op := range polyOps[T]() {
				for _, u := range "o" + op.uses {
					if u == 'c' || u == 'd' {
						continue
					}
					r.Case(fmt.Sprintf("%s N=%d %s operand %c of length %d", typeName[T](), n, op.name, u, m), func() {
						a.reset()
						x := genPArgs[T](g, e)
						o := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}
						a.fence(true, 0, &x, &o)
						switch u {
						case 'o':
							o = odd()
						case 'a':
							x.a = odd()
						case 'b':
							x.b = odd()
						case 's':
							x.fs = oddF()
						}
						refused(r, op.name, func() { op.to(e, o, x) })
						if op.alloc != nil && u != 'o' {
							refused(r, op.name+" allocating", func() { op.alloc(e, x) })
						}
						if op.inpl != nil && u == 'o' {
							refused(r, op.name+" in place", func() { op.inpl(e, o, x) })
						}
						ok, why := a.intact()
						r.Check(ok, "%s", why)
					})
				}
			}
			for _, op := range fftOps[T]() {
				uses := "o" + op.uses
				if strings.HasPrefix(op.name, "FwdFFT") || strings.HasPrefix(op.name, "PolyMul") {
					uses += "p"
				}
				for _, u := range uses {
					r.Case(fmt.Sprintf("%s N=%d Fourier %s operand %c of length %d", typeName[T](), n, op.name, u, m), func() {
						a.reset()
						x := genFArgs[T](g, e)
						o := genFFT(g, n)
						a.fence(true, 0, &x, &o)
						switch u {
						case 'o':
							o = oddF()
						case 'a':
							x.a = oddF()
						case 'b':
							x.b = oddF()
						case 'p':
							x.p = odd()
						}
						refused(r, op.name, func() { op.to(e, o, x) })
						if op.alloc != nil && u != 'o' {
							refused(r, op.name+" allocating", func() { op.alloc(e, x) })
						}
						if op.inpl != nil && u == 'o' {
							refused(r, op.name+" in place", func() { op.inpl(e, o, x) })
						}
						ok, why := a.intact()
						r.Check(ok, "%s", why)
					})
				}
			}
			inv := map[string]func(p poly.Poly[T], f poly.FFTPoly){
				"InvFFTTo": e.InvFFTTo, "InvFFTAddTo": e.InvFFTAddTo, "InvFFTSubTo": e.InvFFTSubTo,
				"InvFFTToUnsafe": e.InvFFTToUnsafe, "InvFFTAddToUnsafe": e.InvFFTAddToUnsafe, "InvFFTSubToUnsafe": e.InvFFTSubToUnsafe,
				"InvFFT": func(p poly.Poly[T], f poly.FFTPoly) { e.InvFFT(f) },
			}
			for _, name := range sortedKeys(inv) {
				for k := 0; k < 2; k++ {
					if name == "InvFFT" && k == 0 {
						continue
					}
					r.Case(fmt.Sprintf("%s N=%d %s operand %d of length %d", typeName[T](), n, name, k, m), func() {
						a.reset()
						p, f := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}, genFFT(g, n)
						a.fence(true, 0, &p, &f)
						if k == 0 {
							p = odd()
						} else {
							f = oddF()
						}
						refused(r, name, func() { inv[name](p, f) })
						ok, why := a.intact()
						r.Check(ok, "%s", why)
					})
				}
			}
		}
	}
}

// c17LenBlocks: block-binary vectors have whole blocks; what lies behind them is left alone.
func c17LenBlocks[T num.Integer](r *R) {
	g := r.Rng
	for n := 1; n <= r.Pick(40, 200); n++ {
		for b := 2; b <= n+9; b++ {
			if n%b == 0 {
				continue
			}
			r.Case(fmt.Sprintf("%s vector of %d in blocks of %d", typeName[T](), n, b), func() {
				back := genCoeffs[T](g, n+b)
				was := append([]T(nil), back...)
				s := csprng.NewBinarySamplerWithSeed[T]([]byte{byte(n), byte(b)})
				refused(r, "SampleBlockVecTo", func() { s.SampleBlockVecTo(back[:n], b) })
				refused(r, "SampleBlockPolyTo", func() { s.SampleBlockPolyTo(poly.Poly[T]{Coeffs: back[:n]}, b) })
				r.Check(eqV(back[n:], was[n:]), "values behind the vector were overwritten")
			})
		}
	}
}
