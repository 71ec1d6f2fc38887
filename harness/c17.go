package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/tfhe"
)

func c17Lens(r *R) []int {
	var out []int
	for i := 0; i <= 68; i++ {
		out = append(out, i)
	}
	out = append(out, 127, 128, 129, 255, 511, 512, 513, 1023, 1024, 1025, 2047, 2050)
	out = append(out, 16384+r.Rng.IntN(4), 65536-r.Rng.IntN(4))
	for i := 0; i < r.Pick(6, 200); i++ {
		out = append(out, r.Rng.IntN(5000))
	}
	return out
}

func gvec[T num.Number](g *rand.Rand, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = genNum[T](g)
	}
	return v
}

// c17Vec runs every vector operation with each operand against a fence.
func c17Vec[T num.Number](r *R, a *arena) {
	tn := typeName[T]()
	g := r.Rng
	for _, n := range c17Lens(r) {
		for place := 0; place < 3; place++ { // 0: fence right behind, 1: right before, 2: mixed and shifted
			side := func() (bool, int) {
				switch place {
				case 0:
					return true, 0
				case 1:
					return false, 0
				}
				return g.IntN(2) == 0, g.IntN(9)
			}
			get := func() []T { s, sh := side(); return gslice(a, gvec[T](g, n), s, sh) }
			for _, op := range vecOps[T]() {
				r.CaseN(fmt.Sprintf("%s %s len=%d place=%d", tn, op.name, n, place), n > 0, func() {
					a.reset()
					o, x, y := get(), get(), get()
					x0, y0, o0 := append([]T(nil), x...), append([]T(nil), y...), append([]T(nil), o...)
					c := genNum[T](g)
					a.protect(1, 3, true) // inputs may be read only
					op.fn(o, x, y, c)
					ok, why := a.intact()
					r.Check(ok, "%s", why)
					r.Check(vec.Equals(x, x0) && vec.Equals(y, y0), "an input changed")
					for i := range o {
						if o[i] != op.ref(o0[i], x0[i], y0[i], c) {
							r.Fail("wrong result at %d", i)
							break
						}
					}
					r.Obs("fenced vector calls", 1)
				})
			}
			r.CaseN(fmt.Sprintf("%s reductions and moves len=%d place=%d", tn, n, place), n > 0, func() {
				a.reset()
				x, y := get(), get()
				a.protect(0, 2, true)
				vec.Dot(x, y)
				vec.Add(x, y)
				vec.Sub(x, y)
				vec.Mul(x, y)
				vec.Neg(x)
				vec.ScalarMul(x, genNum[T](g))
				vec.Reverse(x)
				vec.Copy(x)
				vec.Equals(x, y)
				o := get()
				vec.ReverseTo(o, x)
				if n > 0 {
					vec.RotateTo(o, x, g.IntN(2*n+1)-n)
					vec.RotateInPlace(o, g.IntN(2*n+1)-n)
				}
				vec.ReverseInPlace(o)
				vec.Fill(o, genNum[T](g))
				if n > 0 && n&(n-1) == 0 {
					vec.BitReverseInPlace(o)
				}
				ok, why := a.intact()
				r.Check(ok, "%s", why)
				r.Obs("fenced vector calls", 16)
			})
		}
	}
}

// c17Misc runs casts, complex layout conversions and samplers against fences.
func c17Misc(r *R, a *arena) {
	g := r.Rng
	us32, us64, us8 := csprng.NewUniformSamplerWithSeed[uint32]([]byte{1}), csprng.NewUniformSamplerWithSeed[uint64]([]byte{2}), csprng.NewUniformSamplerWithSeed[uint8]([]byte{3})
	bs := csprng.NewBinarySamplerWithSeed[uint32]([]byte{4})
	gs := csprng.NewGaussianSamplerWithSeed[uint64]([]byte{5}, 3)
	for _, n := range c17Lens(r) {
		for place := 0; place < 2; place++ {
			right := place == 0
			r.CaseN(fmt.Sprintf("casts and samplers len=%d place=%d", n, place), n > 0, func() {
				a.reset()
				u8, u32, u64 := gslice(a, gvec[uint8](g, n), right, 0), gslice(a, gvec[uint32](g, n), right, 0), gslice(a, gvec[uint64](g, n), right, 0)
				f, i16 := gslice(a, gvec[float64](g, n), right, 0), gslice(a, gvec[int16](g, n), right, 0)
				vec.CastTo(f, u8)
				vec.CastTo(i16, u64)
				vec.CastTo(u32, i16)
				vec.CastTo(u64, f)
				us8.SampleVecTo(u8)
				us32.SampleVecTo(u32)
				us64.SampleVecTo(u64)
				bs.SampleVecTo(u32)
				for b := 1; b <= n; b++ {
					if n%b == 0 {
						bs.SampleBlockVecTo(u32, b)
					}
				}
				gs.SampleVecTo(u64, 10)
				ok, why := a.intact()
				r.Check(ok, "%s", why)
				r.Obs("fenced vector calls", 9)
			})
			if n%4 == 0 {
				r.CaseN(fmt.Sprintf("complex layout len=%d place=%d", n, place), n > 0, func() {
					a.reset()
					z := gslice(a, gvec[complex128](g, n), right, 0)
					f := gslice(a, gvec[float64](g, 2*n), right, 0)
					vec.CmplxToFloat4To(f, z)
					vec.Float4ToCmplxTo(z, f)
					vec.CmplxToFloat4(z)
					vec.Float4ToCmplx(f)
					ok, why := a.intact()
					r.Check(ok, "%s", why)
					r.Obs("fenced vector calls", 4)
				})
			}
		}
	}
}

// c17Poly runs every polynomial and Fourier operation with operands, buffers and tables of the evaluator fenced.
func c17Poly[T num.Integer](r *R, a *arena) {
	g := r.Rng
	maxLog := r.Pick(13, 15)
	for lg := 4; lg <= maxLog; lg++ {
		n := 1 << lg
		for place := 0; place < 3; place++ {
			right, sh := place == 0, 0
			if place == 2 {
				right, sh = g.IntN(2) == 0, 1+g.IntN(7)
			}
			a.reset()
			e := poly.NewEvaluator[T](n)
			a.fence(right, sh, e)
			mark := len(a.recs)
			off := a.off
			back := func() { // drop operands, keep the evaluator
				a.recs = a.recs[:mark]
				a.off = off
			}
			for rep := 0; rep < 2; rep++ {
				if rep == 1 {
					back()
					e = e.SafeCopy()
					a.fence(right, sh, e)
					mark, off = len(a.recs), a.off
				}
				for _, op := range polyOps[T]() {
					r.Case(fmt.Sprintf("%s N=%d place=%d rep=%d %s", typeName[T](), n, place, rep, op.name), func() {
						back()
						x := genPArgs[T](g, e)
						o := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}
						a.fence(right, sh, &x)
						m2 := len(a.recs)
						a.fence(right, sh, &o)
						a.protect(mark, m2, true)
						op.to(e, o, x)
						if op.alloc != nil {
							op.alloc(e, x)
						}
						if op.inpl != nil {
							op.inpl(e, o, x)
						}
						a.protect(mark, m2, false)
						ok, why := a.intact()
						r.Check(ok, "%s", why)
						r.Obs("fenced polynomial calls", 1)
					})
				}
				for _, op := range fftOps[T]() {
					r.Case(fmt.Sprintf("%s N=%d place=%d rep=%d Fourier %s", typeName[T](), n, place, rep, op.name), func() {
						back()
						x := genFArgs[T](g, e)
						o := genFFT(g, n)
						a.fence(right, sh, &x)
						m2 := len(a.recs)
						a.fence(right, sh, &o)
						a.protect(mark, m2, true)
						op.to(e, o, x)
						if op.alloc != nil {
							op.alloc(e, x)
						}
						if op.inpl != nil {
							op.inpl(e, o, x)
						}
						a.protect(mark, m2, false)
						ok, why := a.intact()
						r.Check(ok, "%s", why)
						r.Obs("fenced polynomial calls", 1)
					})
				}
				r.Case(fmt.Sprintf("%s N=%d place=%d rep=%d transforms", typeName[T](), n, place, rep), func() {
					back()
					p := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}
					f := genFFT(g, n)
					a.fence(right, sh, &p, &f)
					e.FwdFFT(p)
					e.FwdFFTTo(f, p)
					e.InvFFT(f)
					e.InvFFTTo(p, f)
					e.InvFFTAddTo(p, f)
					e.InvFFTSubTo(p, f)
					e.FwdFFTTo(f, p)
					e.InvFFTToUnsafe(p, f)
					e.FwdFFTTo(f, p)
					e.InvFFTAddToUnsafe(p, f)
					e.FwdFFTTo(f, p)
					e.InvFFTSubToUnsafe(p, f)
					for i := 0; i < 8; i++ {
						e.MonomialFwdFFTTo(f, genExp(g, n))
						e.MonomialSubOneFwdFFTTo(f, genExp(g, n))
					}
					ok, why := a.intact()
					r.Check(ok, "%s", why)
					r.Obs("fenced polynomial calls", 28)
				})
			}
		}
	}
}

// c17Flow runs whole workloads with every buffer and key of the objects fenced.
func c17Flow[T TI](r *R, a *arena, c Cfg[T], right bool) {
	g := r.Rng
	r.SeedLib(c.Name)
	params := c.Lit.Compile()
	p := int(c.Lit.MessageModulus)
	r.Case(fmt.Sprintf("%s right=%v workload", c.Name, right), func() {
		a.reset()
		enc := tfhe.NewEncryptor(params)
		n := a.fence(right, 0, enc)
		ek := enc.GenEvalKey()
		if c.Lit.LWEDimension < c.Lit.GLWERank*c.Lit.PolyRank && g.IntN(2) == 0 {
			ek = enc.GenEvalKeyParallel()
		}
		n += a.fence(right, 0, &ek)
		ev := tfhe.NewEvaluator(params, ek)
		n += a.fence(right, 0, ev)
		r.Obs("fenced slices of long-lived objects", n)
		lut := ev.GenLUT(func(x int) int { return x + 1 })
		a.fence(right, 0, &lut)
		for i := 0; i < 3; i++ {
			m := g.IntN(p)
			ct := enc.EncryptLWE(m)
			o := tfhe.NewLWECiphertext(params)
			a.fence(right, 0, &ct, &o)
			ev.BootstrapLUTTo(o, ct, lut)
			r.Check(enc.DecryptLWE(o) == int(refReduce(m+1, uint64(p))), "wrong bootstrap result")
			gl := enc.EncryptGLWE(randIntVec(g, c.Lit.PolyRank, p))
			gg := tfhe.NewGLWECiphertext(params)
			a.fence(right, 0, &gl, &gg)
			ff := ev.FwdFFTGLWECiphertext(gl)
			a.fence(right, 0, &ff)
			ev.InvFFTGLWECiphertextTo(gg, ff)
			gp := randGadget[T](g, 0)
			s := enc.EncryptFFTGGSW([]int{1}, gp)
			s2 := enc.EncryptGSW(1, gp)
			lv := enc.EncryptLev(1, gp)
			a.fence(right, 0, &s, &s2, &lv)
			ev.ExternalProdGLWETo(gg, s, gl)
			ev.ExternalProdAddGLWETo(gg, s, gl)
			ev.CMuxTo(gg, s, gl, ev.SubGLWE(gl, gg))
			ev.ExternalProdLWETo(o, s2, ct)
			ev.GadgetProdLWETo(o, lv, randT[T](g))
			sk := tfhe.LWESecretKey[T]{Value: randVec[T](g, 1+g.IntN(40))}
			ks := enc.GenLWEKeySwitchKey(sk, gp)
			in := tfhe.LWECiphertext[T]{Value: randVec[T](g, 1+len(sk.Value))}
			a.fence(right, 0, &ks, &in)
			ev.KeySwitchLWETo(o, in, ks)
			rk := tfhe.NewGLWESecretKeyCustom[T](1+g.IntN(3), c.Lit.PolyRank)
			kg := enc.GenGLWEKeySwitchKey(rk, gp)
			ig := dirtyGLWE[T](g, len(rk.Value), c.Lit.PolyRank)
			a.fence(right, 0, &kg, &ig)
			ev.KeySwitchGLWETo(gg, ig, kg)
			big := tfhe.LWECiphertext[T]{Value: make([]T, c.Lit.GLWERank*c.Lit.PolyRank+1)}
			a.fence(right, 0, &big)
			gl.AsLWECiphertextTo(g.IntN(c.Lit.PolyRank), big)
			enc.DecryptGLWE(gg)
			r.Obs("fenced ciphertext operations", 20)
		}
		ok, why := a.intact()
		r.Check(ok, "%s", why)
	})
}

func init() {
	about("C17", "Cases: every vector, polynomial, Fourier and sampling operation on operands, evaluator tables and buffers placed against inaccessible pages (fence behind, before, or a shifted position with checked slack), inputs write-protected during the call; whole encryption/bootstrapping workloads with every numeric slice reachable from encryptor, evaluator, keys and operands moved into fenced memory; workloads under the address sanitizer and pointer checking. A fault, a changed slack byte or a sanitizer report is a violation.",
		"assembly kernels are observed through faults and slack only (sanitizers do not instrument them)")
	needObs("C17", "fenced vector calls", 20000)
	needObs("C17", "fenced polynomial calls", 4000)
	needObs("C17", "sanitized calls", 2000)
	needObs("C17", "inconsistent operands", 10000)
	needObs("C17", "fenced slices of long-lived objects", 1000)
	with := func(fn func(r *R, a *arena)) func(r *R) {
		return func(r *R) {
			a := newArena(1 << 32)
			defer a.close()
			fn(r, a)
		}
	}
	reg("C17", "vec-words", vAll, vAll, with(func(r *R, a *arena) {
		c17Vec[uint32](r, a)
		c17Vec[uint64](r, a)
		c17Misc(r, a)
	}))
	reg("C17", "vec-others", vTwo, vAll, with(func(r *R, a *arena) {
		c17Vec[int32](r, a)
		c17Vec[int64](r, a)
		c17Vec[uint8](r, a)
		c17Vec[int16](r, a)
		c17Vec[float32](r, a)
		c17Vec[float64](r, a)
		c17Vec[complex64](r, a)
		c17Vec[complex128](r, a)
	}))
	reg("C17", "poly", vAll, vAll, with(func(r *R, a *arena) {
		c17Poly[uint32](r, a)
		c17Poly[uint64](r, a)
		if r.Thorough {
			c17Poly[int32](r, a)
			c17Poly[int64](r, a)
		}
	}))
	reg("C17", "lengths", vAll, vAll, with(func(r *R, a *arena) {
		c17LenVec[uint32](r, a)
		c17LenVec[uint64](r, a)
		c17LenVec[float64](r, a)
		c17LenVec[int16](r, a)
		c17LenVec[complex128](r, a)
		c17LenCmplx(r, a)
		c17LenBlocks[uint32](r)
		c17LenBlocks[uint64](r)
		c17LenPoly[uint32](r, a)
		c17LenPoly[uint64](r, a)
		if r.Thorough {
			c17LenVec[int32](r, a)
			c17LenVec[int64](r, a)
			c17LenPoly[int64](r, a)
		}
	}))
	flows := func(r *R, a *arena) {
		for _, right := range []bool{true, false} {
			if a == nil && !right {
				break
			}
			for _, c := range fixedCfgs[uint32]() {
				c17Flow(r, a, c, right)
			}
			for _, c := range fixedCfgs[uint64]() {
				c17Flow(r, a, c, right)
			}
			for i := 0; i < r.Pick(2, 30); i++ {
				c17Flow(r, a, randCfg[uint32](r.Rng), right)
				c17Flow(r, a, randCfg[uint64](r.Rng), right)
			}
		}
	}
	reg("C17", "flows", vAll, vAll, with(flows))
	reg("C17", "sanitized", []string{"asan"}, []string{"asan"}, func(r *R) {
		flows(r, nil)
		c17Heap[uint32](r)
		c17Heap[uint64](r)
		c17Heap[int16](r)
		c17Heap[complex128](r)
		c17HeapPoly[uint32](r)
		c17HeapPoly[int64](r)
		c17HeapPoly[uint64](r)
	})
	reg("C17", "pointers", []string{"race"}, []string{"race", "raceavx"}, func(r *R) {
		flows(r, nil)
		c17Heap[uint32](r)
		c17Heap[uint64](r)
		c17HeapPoly[uint32](r)
		c17HeapPoly[uint64](r)
	})
}

// c17Heap runs the vector operations on exactly sized heap slices, for sanitized builds.
func c17Heap[T num.Number](r *R) {
	g := r.Rng
	for n := 0; n <= 72; n++ {
		for _, op := range vecOps[T]() {
			r.CaseN(fmt.Sprintf("heap %s %s len=%d", typeName[T](), op.name, n), n > 0, func() {
				o, x, y := gvec[T](g, n), gvec[T](g, n), gvec[T](g, n)
				op.fn(o, x, y, genNum[T](g))
				op.fn(o, o, y, genNum[T](g))
				r.Obs("sanitized calls", 2)
			})
		}
		r.CaseN(fmt.Sprintf("heap %s moves len=%d", typeName[T](), n), n > 0, func() {
			x, y := gvec[T](g, n), gvec[T](g, n)
			vec.Dot(x, y)
			vec.Reverse(x)
			vec.Copy(x)
			if n > 0 {
				vec.Rotate(x, g.IntN(2*n+1)-n)
				vec.RotateInPlace(x, g.IntN(2*n+1)-n)
			}
			r.Obs("sanitized calls", 5)
		})
	}
}

func c17HeapPoly[T num.Integer](r *R) {
	g := r.Rng
	for lg := 4; lg <= r.Pick(9, 12); lg++ {
		n := 1 << lg
		e := poly.NewEvaluator[T](n)
		for _, op := range polyOps[T]() {
			r.Case(fmt.Sprintf("heap %s N=%d %s", typeName[T](), n, op.name), func() {
				x := genPArgs[T](g, e)
				op.to(e, poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}, x)
				r.Obs("sanitized calls", 1)
			})
		}
		for _, op := range fftOps[T]() {
			r.Case(fmt.Sprintf("heap %s N=%d Fourier %s", typeName[T](), n, op.name), func() {
				x := genFArgs[T](g, e)
				op.to(e, genFFT(g, n), x)
				r.Obs("sanitized calls", 1)
			})
		}
	}
}
