package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
)

func c14Type[T num.Integer](r *R) {
	tn := typeName[T]()
	g := r.Rng
	type job struct{ n, reps int }
	jobs := []job{{16, 100}, {32, 60}, {64, 40}, {128, 20}, {256, 12}, {512, 6}, {1024, 3}, {2048, 1}}
	if r.Thorough {
		for i := range jobs {
			jobs[i].reps *= 10
		}
		jobs = append(jobs, job{4096, 2}, job{8192, 1})
	}
	ops := fftOps[T]()
	for _, j := range jobs {
		n := j.n
		e := poly.NewEvaluator[T](n)
		var s *slots
		r.Case(fmt.Sprintf("%s N=%d roots", tn, n), func() {
			var ok bool
			s, ok = newSlots(e)
			if !ok {
				s = nil
			}
			r.Check(ok, "the transform of X does not consist of one of each pair of odd 2N-th roots of unity")
		})
		if s == nil {
			continue
		}
		eps := math.Exp2(-47)
		for rep := 0; rep < j.reps; rep++ {
			// forward transform against direct evaluation
			x := genFArgs(g, e)
			r.Case(fmt.Sprintf("%s N=%d forward rep=%d", tn, n, rep), func() {
				// residues have many integer representatives; compare modulo the choice of representative: the centred or
				// the natural one, whichever the transform uses, must be used consistently.
				p0 := x.p.Copy()
				got := cx(e.FwdFFT(x.p))
				r.Check(x.p.Equals(p0), "input changed")
				fl := make([]float64, n)
				mx, l1 := 1.0, 0.0
				for i, c := range x.p.Coeffs {
					fl[i] = centred(c)
					mx = math.Max(mx, math.Abs(fl[i]))
					l1 += math.Abs(fl[i])
				}
				want := s.eval(fl)
				tol := eps*mx*math.Sqrt(float64(n))*4 + math.Exp2(-48)*l1
				for k := range want {
					d := cabs(got[k] - want[k])
					r.Max("forward error / bound", d/tol)
					if !(d <= tol) {
						r.Fail("slot %d: %v want %v", k, got[k], want[k])
						break
					}
				}
				r.Obs("transforms", 1)
				// and back
				c14Back(r, e, x.p, poly.FFTPoly{Coeffs: vec.CmplxToFloat4(got)})
			})
			// inverse of arbitrary spectra
			if n <= 512 || rep == 0 {
				r.Case(fmt.Sprintf("%s N=%d inverse rep=%d", tn, n, rep), func() { c14Inverse(r, s, e, x.a) })
			}
			for _, op := range ops {
				x := genFArgs(g, e)
				r.Case(fmt.Sprintf("%s N=%d %s rep=%d", tn, n, op.name, rep), func() {
					c14SlotOp(r, s, e, op, x)
				})
			}
			r.Case(fmt.Sprintf("%s N=%d FFTPolyMulPoly rep=%d", tn, n, rep), func() { c14PolyMul(r, e) })
		}
		r.Case(fmt.Sprintf("%s N=%d even automorphism", tn, n), func() {
			f, h := e.NewFFTPoly(), e.NewFFTPoly()
			for _, d := range []int{0, 2, -2, 2 * n} {
				for i, fn := range []func(){func() { e.PermuteFFTPoly(f, d) }, func() { e.PermuteFFTPolyTo(h, f, d) }, func() { e.PermuteFFTPolyInPlace(f, d) }, func() { e.PermuteAddFFTPolyTo(h, f, d) }, func() { e.PermuteSubFFTPolyTo(h, f, d) }} {
					ok, _ := Panics(fn)
					r.Check(ok, "form %d accepted even exponent %d", i, d)
				}
			}
		})
	}
}

// c14SlotOp judges every form of a slot-wise operation.
func c14SlotOp[T num.Integer](r *R, s *slots, e *poly.Evaluator[T], op fftOp[T], x fArgs[T]) {
	a0, b0, p0 := x.a.Copy(), x.b.Copy(), x.p.Copy()
	want := op.ref(s, x)
	o := genFFT(r.Rng, e.Rank())
	oc := cx(o)
	w := want
	switch op.acc {
	case 1:
		w = cMap(oc, want, func(x, y complex128) complex128 { return x + y })
	case -1:
		w = cMap(oc, want, func(x, y complex128) complex128 { return x - y })
	default:
		oc = nil
	}
	op.to(e, o, x)
	c14Cmp(r, "output form", cx(o), w, oc, x)
	if op.alloc != nil {
		c14Cmp(r, "allocating form", cx(op.alloc(e, x)), want, nil, x)
	}
	if op.inpl != nil {
		o := x.a.Copy()
		op.inpl(e, o, x)
		c14Cmp(r, "in-place form", cx(o), want, nil, x)
	}
	r.Obs("slot-wise operations", 1)
	r.Check(vec.Equals(x.a.Coeffs, a0.Coeffs) && vec.Equals(x.b.Coeffs, b0.Coeffs) && x.p.Equals(p0), "an input changed")
}

// centred is the representative of x in [-2^(w-1), 2^(w-1)).
func centred[T num.Integer](x T) float64 {
	switch bitsOf[T]() {
	case 8:
		return float64(int8(x))
	case 16:
		return float64(int16(x))
	case 32:
		return float64(int32(x))
	}
	return float64(int64(x))
}

func c14Cmp[T num.Integer](r *R, form string, got, want, o []complex128, x fArgs[T]) {
	a, b, fp := cx(x.a), cx(x.b), cx(x.fp)
	for i := range want {
		m := cabs(want[i]) + (cabs(a[i])+cabs(b[i]))*1 + cabs(a[i])*(math.Abs(x.c)+cabs(x.z))
		m = math.Max(m, cabs(a[i])*cabs(b[i]))
		m = math.Max(m, cabs(a[i])*cabs(fp[i]))
		if o != nil {
			m += cabs(o[i])
		}
		m += 1
		if d := cabs(got[i] - want[i]); !(d <= m*math.Exp2(-48)) {
			r.Fail("%s: slot %d is %v, want %v (d=%d)", form, i, got[i], want[i], x.d)
			return
		}
	}
}

// c14Tol is the tolerance of a coefficient of absolute size at most m computed through a transform.
func c14Tol(m float64) float64 { return m*math.Exp2(-46) + 0.500001 }

func c14Near[T num.Integer](r *R, form string, got []T, want []T, m float64) {
	for i := range want {
		d := math.Abs(centred(got[i] - want[i]))
		if t := c14Tol(m); !(d <= t) {
			r.Fail("%s: coefficient %d is %v, want %v (difference %g, tolerance %g)", form, i, got[i], want[i], d, t)
			return
		}
	}
}

// c14Back monitors every inverse form on the transform of p.
func c14Back[T num.Integer](r *R, e *poly.Evaluator[T], p poly.Poly[T], f poly.FFTPoly) {
	m := math.Exp2(float64(bitsOf[T]()))
	g := r.Rng
	f0 := f.Copy()
	keep := func(form string) {
		r.Check(vec.Equals(f.Coeffs, f0.Coeffs), "%s changed its input", form)
	}
	c14Near(r, "InvFFT", e.InvFFT(f).Coeffs, p.Coeffs, m)
	keep("InvFFT")
	o := poly.Poly[T]{Coeffs: genCoeffs[T](g, p.Rank())}
	o0 := o.Copy()
	e.InvFFTAddTo(o, f)
	keep("InvFFTAddTo")
	c14Near(r, "InvFFTAddTo", o.Coeffs, rAdd(o0.Coeffs, p.Coeffs), m)
	o.CopyFrom(o0)
	e.InvFFTSubTo(o, f)
	keep("InvFFTSubTo")
	c14Near(r, "InvFFTSubTo", o.Coeffs, rSub(o0.Coeffs, p.Coeffs), m)
	o.CopyFrom(o0)
	e.InvFFTTo(o, f)
	keep("InvFFTTo")
	c14Near(r, "InvFFTTo", o.Coeffs, p.Coeffs, m)
	o.CopyFrom(o0)
	e.InvFFTToUnsafe(o, f.Copy())
	c14Near(r, "InvFFTToUnsafe", o.Coeffs, p.Coeffs, m)
	o.CopyFrom(o0)
	e.InvFFTAddToUnsafe(o, f.Copy())
	c14Near(r, "InvFFTAddToUnsafe", o.Coeffs, rAdd(o0.Coeffs, p.Coeffs), m)
	o.CopyFrom(o0)
	e.InvFFTSubToUnsafe(o, f.Copy())
	c14Near(r, "InvFFTSubToUnsafe", o.Coeffs, rSub(o0.Coeffs, p.Coeffs), m)
}

// c14Inverse compares the inverse of an arbitrary spectrum with the direct inverse reduced modulo the word size.
func c14Inverse[T num.Integer](r *R, s *slots, e *poly.Evaluator[T], f poly.FFTPoly) {
	want := s.inv(cx(f))
	q := math.Exp2(float64(bitsOf[T]()))
	mx := 1.0
	for _, v := range f.Coeffs {
		mx = math.Max(mx, math.Abs(v))
	}
	got := e.InvFFT(f)
	// either reading of the word as signed or unsigned; distance on the circle of circumference q
	for i, w := range want {
		d := math.Mod(centred(got.Coeffs[i])-w, q)
		if d > q/2 {
			d -= q
		}
		if d < -q/2 {
			d += q
		}
		if tol := mx*math.Exp2(-44) + q*math.Exp2(-46) + 0.500001; !(math.Abs(d) <= tol) {
			r.Fail("coefficient %d is %v, want %g mod %g (off by %g)", i, got.Coeffs[i], w, q, d)
			return
		}
	}
	r.Obs("inverse transforms of arbitrary spectra", 1)
}

// c14PolyMul monitors the approximate products of polynomials through the Fourier domain.
func c14PolyMul[T num.Integer](r *R, e *poly.Evaluator[T]) {
	g := r.Rng
	n := e.Rank()
	a := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}
	b := poly.Poly[T]{Coeffs: genShort[T](g, n)}
	fb := e.FwdFFT(b)
	a0, fb0 := a.Copy(), fb.Copy()
	want := rMul(a.Coeffs, b.Coeffs)
	m := math.Exp2(float64(bitsOf[T]()-1)) * 256 * float64(n)
	c14Near(r, "FFTPolyMulPoly", e.FFTPolyMulPoly(a, fb).Coeffs, want, m)
	o0 := poly.Poly[T]{Coeffs: genCoeffs[T](g, n)}
	o := o0.Copy()
	e.FFTPolyMulPolyTo(o, a, fb)
	c14Near(r, "FFTPolyMulPolyTo", o.Coeffs, want, m)
	o = o0.Copy()
	e.FFTPolyMulAddPolyTo(o, a, fb)
	c14Near(r, "FFTPolyMulAddPolyTo", o.Coeffs, rAdd(o0.Coeffs, want), m)
	o = o0.Copy()
	e.FFTPolyMulSubPolyTo(o, a, fb)
	c14Near(r, "FFTPolyMulSubPolyTo", o.Coeffs, rSub(o0.Coeffs, want), m)
	// the same product slot by slot, and the automorphism of a product is the product of automorphisms
	fa := e.FwdFFT(a)
	fo := e.MulFFTPoly(fa, fb)
	c14Near(r, "MulFFTPoly", e.InvFFT(fo).Coeffs, want, m)
	d := 2*genExp(g, n) + 1
	c14Near(r, "PermuteFFTPoly", e.InvFFT(e.PermuteFFTPoly(fo, d)).Coeffs, rAuto(want, d), m)
	r.Check(a.Equals(a0) && vec.Equals(fb.Coeffs, fb0.Coeffs), "an input changed")
	r.Obs("products through the Fourier domain", 1)
}

func init() {
	about("C14", "a case is (type, rank, operation, repetition): the order of the slots is read off the transform of X, every slot of a forward transform is compared with direct evaluation at its root of unity, every inverse with the direct inverse sum, every slot-wise operation with complex arithmetic, and products through the Fourier domain with schoolbook products",
		"floating-point tolerances are 2^-46..2^-48 relative to the operands, far above rounding noise and far below any wrong coefficient")
	needObs("C14", "transforms", 500)
	needObs("C14", "slot-wise operations", 5000)
	f := func(name string, v []string, fn func(r *R)) { reg("C14", name, v, vAll, fn) }
	needObs("C14", "transforms of large ranks", 20)
	f("large32", vTwo, c14Large[uint32])
	f("large64", vAll, c14Large[uint64])
	f("uint32", vAll, c14Type[uint32])
	f("uint64", vAll, c14Type[uint64])
	f("int32", vTwo, c14Type[int32])
	f("int64", vTwo, c14Type[int64])
	f("uint16", vTwo, c14Type[uint16])
	f("int8", vTwo, c14Type[int8])
	f("int", vTwo, c14Type[int])
}
