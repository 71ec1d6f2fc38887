package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// mkArgs are the operands of a linear operation on ciphertexts.
type mkArgs[T TI] struct {
	la, lb mktfhe.LWECiphertext[T]
	lp     tfhe.LWEPlaintext[T]
	ga, gb mktfhe.GLWECiphertext[T]
	gp     tfhe.GLWEPlaintext[T]
	fa, fb mktfhe.FFTGLWECiphertext[T]
	c      T
	x      float64
	z      complex128
	p      poly.Poly[T] // small polynomial
	fp     poly.FFTPoly // its transform
	d      int          // monomial exponent
}

// mkLweLin is a linear operation on scalar ciphertexts; ref gives the phase of the result from those of the operands.
type mkLweLin[T TI] struct {
	name  string
	acc   int
	two   bool
	to    func(e *mktfhe.Evaluator[T], o mktfhe.LWECiphertext[T], a mkArgs[T])
	alloc func(e *mktfhe.Evaluator[T], a mkArgs[T]) mktfhe.LWECiphertext[T]
	ref   func(pa, pb T, a mkArgs[T]) T
}

// mkGlweLin is one on ring ciphertexts.
type mkGlweLin[T TI] struct {
	name    string
	acc     int
	two     bool
	overlap bool
	float   bool // result is rounded
	perm    bool // the result is under the permuted key
	to      func(e *mktfhe.Evaluator[T], o mktfhe.GLWECiphertext[T], a mkArgs[T])
	alloc   func(e *mktfhe.Evaluator[T], a mkArgs[T]) mktfhe.GLWECiphertext[T]
	inpl    func(e *mktfhe.Evaluator[T], o mktfhe.GLWECiphertext[T], a mkArgs[T])
	ref     func(pa, pb []T, a mkArgs[T]) []T
}

// mkFftLin is one on Fourier ring ciphertexts; ref acts on the slots of each component.
type mkFftLin[T TI] struct {
	name    string
	acc     int
	two     bool
	overlap bool
	to      func(e *mktfhe.Evaluator[T], o mktfhe.FFTGLWECiphertext[T], a mkArgs[T])
	alloc   func(e *mktfhe.Evaluator[T], a mkArgs[T]) mktfhe.FFTGLWECiphertext[T]
	inpl    func(e *mktfhe.Evaluator[T], o mktfhe.FFTGLWECiphertext[T], a mkArgs[T])
	base    string // the operation of the Fourier layer it consists of
}

func mkLweLins[T TI]() []mkLweLin[T] {
	type E = *mktfhe.Evaluator[T]
	type C = mktfhe.LWECiphertext[T]
	type A = mkArgs[T]
	sm := func(pa, pb T, a A) T { return a.c * pa }
	return []mkLweLin[T]{
		{"AddLWE", 0, true, func(e E, o C, a A) { e.AddLWETo(o, a.la, a.lb) }, func(e E, a A) C { return e.AddLWE(a.la, a.lb) }, func(pa, pb T, a A) T { return pa + pb }},
		{"SubLWE", 0, true, func(e E, o C, a A) { e.SubLWETo(o, a.la, a.lb) }, func(e E, a A) C { return e.SubLWE(a.la, a.lb) }, func(pa, pb T, a A) T { return pa - pb }},
		{"NegLWE", 0, false, func(e E, o C, a A) { e.NegLWETo(o, a.la) }, func(e E, a A) C { return e.NegLWE(a.la) }, func(pa, pb T, a A) T { return -pa }},
		{"AddPlainLWE", 0, false, func(e E, o C, a A) { e.AddPlainLWETo(o, a.la, a.lp) }, func(e E, a A) C { return e.AddPlainLWE(a.la, a.lp) }, func(pa, pb T, a A) T { return pa + a.lp.Value }},
		{"SubPlainLWE", 0, false, func(e E, o C, a A) { e.SubPlainLWETo(o, a.la, a.lp) }, func(e E, a A) C { return e.SubPlainLWE(a.la, a.lp) }, func(pa, pb T, a A) T { return pa - a.lp.Value }},
		{"ScalarMulLWE", 0, false, func(e E, o C, a A) { e.ScalarMulLWETo(o, a.la, a.c) }, func(e E, a A) C { return e.ScalarMulLWE(a.la, a.c) }, sm},
		{"ScalarMulAddLWE", 1, false, func(e E, o C, a A) { e.ScalarMulAddLWETo(o, a.la, a.c) }, nil, sm},
		{"ScalarMulSubLWE", -1, false, func(e E, o C, a A) { e.ScalarMulSubLWETo(o, a.la, a.c) }, nil, sm},
	}
}

func mkGlweLins[T TI]() []mkGlweLin[T] {
	type E = *mktfhe.Evaluator[T]
	type C = mktfhe.GLWECiphertext[T]
	type A = mkArgs[T]
	type V = []T
	sm := func(pa, pb V, a A) V { return scaleV(pa, a.c) }
	pm := func(pa, pb V, a A) V { return negaMul(pa, a.p.Coeffs) }
	mm := func(pa, pb V, a A) V { return monoMul(pa, a.d) }
	au := func(pa, pb V, a A) V { return autoPoly(pa, posMod(2*a.d+1, 2*len(pa))) }
	return []mkGlweLin[T]{
		{"AddGLWE", 0, true, true, false, false, func(e E, o C, a A) { e.AddGLWETo(o, a.ga, a.gb) }, func(e E, a A) C { return e.AddGLWE(a.ga, a.gb) }, nil, func(pa, pb V, a A) V { return addV(pa, pb) }},
		{"SubGLWE", 0, true, true, false, false, func(e E, o C, a A) { e.SubGLWETo(o, a.ga, a.gb) }, func(e E, a A) C { return e.SubGLWE(a.ga, a.gb) }, nil, func(pa, pb V, a A) V { return subV(pa, pb) }},
		{"NegGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.NegGLWETo(o, a.ga) }, func(e E, a A) C { return e.NegGLWE(a.ga) }, nil, func(pa, pb V, a A) V { return scaleV(pa, ^T(0)) }},
		{"AddPlainGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.AddPlainGLWETo(o, a.ga, a.gp) }, func(e E, a A) C { return e.AddPlainGLWE(a.ga, a.gp) }, nil, func(pa, pb V, a A) V { return addV(pa, a.gp.Value.Coeffs) }},
		{"SubPlainGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.SubPlainGLWETo(o, a.ga, a.gp) }, func(e E, a A) C { return e.SubPlainGLWE(a.ga, a.gp) }, nil, func(pa, pb V, a A) V { return subV(pa, a.gp.Value.Coeffs) }},
		{"ScalarMulGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.ScalarMulGLWETo(o, a.ga, a.c) }, func(e E, a A) C { return e.ScalarMulGLWE(a.ga, a.c) }, nil, sm},
		{"ScalarMulAddGLWE", 1, false, true, false, false, func(e E, o C, a A) { e.ScalarMulAddGLWETo(o, a.ga, a.c) }, nil, nil, sm},
		{"ScalarMulSubGLWE", -1, false, true, false, false, func(e E, o C, a A) { e.ScalarMulSubGLWETo(o, a.ga, a.c) }, nil, nil, sm},
		{"PolyMulGLWE", 0, false, true, false, false, func(e E, o C, a A) { e.PolyMulGLWETo(o, a.ga, a.p) }, func(e E, a A) C { return e.PolyMulGLWE(a.ga, a.p) }, nil, pm},
		{"PolyMulAddGLWE", 1, false, true, false, false, func(e E, o C, a A) { e.PolyMulAddGLWETo(o, a.ga, a.p) }, nil, nil, pm},
		{"PolyMulSubGLWE", -1, false, true, false, false, func(e E, o C, a A) { e.PolyMulSubGLWETo(o, a.ga, a.p) }, nil, nil, pm},
		{"FFTPolyMulGLWE", 0, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulGLWETo(o, a.ga, a.fp) }, func(e E, a A) C { return e.FFTPolyMulGLWE(a.ga, a.fp) }, nil, pm},
		{"FFTPolyMulAddGLWE", 1, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulAddGLWETo(o, a.ga, a.fp) }, nil, nil, pm},
		{"FFTPolyMulSubGLWE", -1, false, true, true, false, func(e E, o C, a A) { e.FFTPolyMulSubGLWETo(o, a.ga, a.fp) }, nil, nil, pm},
		{"MonomialMulGLWE", 0, false, false, false, false, func(e E, o C, a A) { e.MonomialMulGLWETo(o, a.ga, a.d) }, func(e E, a A) C { return e.MonomialMulGLWE(a.ga, a.d) }, func(e E, o C, a A) { e.MonomialMulGLWEInPlace(o, a.d) }, mm},
		{"MonomialMulAddGLWE", 1, false, false, false, false, func(e E, o C, a A) { e.MonomialMulAddGLWETo(o, a.ga, a.d) }, nil, nil, mm},
		{"MonomialMulSubGLWE", -1, false, false, false, false, func(e E, o C, a A) { e.MonomialMulSubGLWETo(o, a.ga, a.d) }, nil, nil, mm},
		{"PermuteGLWE", 0, false, false, false, true, func(e E, o C, a A) { e.PermuteGLWETo(o, a.ga, 2*a.d+1) }, nil, func(e E, o C, a A) { e.PermuteGLWEInPlace(o, 2*a.d+1) }, au},
		{"PermuteAddGLWE", 1, false, false, false, true, func(e E, o C, a A) { e.PermuteAddGLWETo(o, a.ga, 2*a.d+1) }, nil, nil, au},
		{"PermuteSubGLWE", -1, false, false, false, true, func(e E, o C, a A) { e.PermuteSubGLWETo(o, a.ga, 2*a.d+1) }, nil, nil, au},
	}
}

func mkFftLins[T TI]() []mkFftLin[T] {
	type E = *mktfhe.Evaluator[T]
	type C = mktfhe.FFTGLWECiphertext[T]
	type A = mkArgs[T]
	return []mkFftLin[T]{
		{"AddFFTGLWE", 0, true, true, func(e E, o C, a A) { e.AddFFTGLWETo(o, a.fa, a.fb) }, func(e E, a A) C { return e.AddFFTGLWE(a.fa, a.fb) }, nil, "AddFFTPoly"},
		{"SubFFTGLWE", 0, true, true, func(e E, o C, a A) { e.SubFFTGLWETo(o, a.fa, a.fb) }, func(e E, a A) C { return e.SubFFTGLWE(a.fa, a.fb) }, nil, "SubFFTPoly"},
		{"NegFFTGLWE", 0, false, true, func(e E, o C, a A) { e.NegFFTGLWETo(o, a.fa) }, func(e E, a A) C { return e.NegFFTGLWE(a.fa) }, nil, "NegFFTPoly"},
		{"FloatMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.FloatMulFFTGLWETo(o, a.fa, a.x) }, func(e E, a A) C { return e.FloatMulFFTGLWE(a.fa, a.x) }, nil, "FloatMulFFTPoly"},
		{"FloatMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.FloatMulAddFFTGLWETo(o, a.fa, a.x) }, nil, nil, "FloatMulFFTPoly"},
		{"FloatMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.FloatMulSubFFTGLWETo(o, a.fa, a.x) }, nil, nil, "FloatMulFFTPoly"},
		{"CmplxMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.CmplxMulFFTGLWETo(o, a.fa, a.z) }, func(e E, a A) C { return e.CmplxMulFFTGLWE(a.fa, a.z) }, nil, "CmplxMulFFTPoly"},
		{"CmplxMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.CmplxMulAddFFTGLWETo(o, a.fa, a.z) }, nil, nil, "CmplxMulFFTPoly"},
		{"CmplxMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.CmplxMulSubFFTGLWETo(o, a.fa, a.z) }, nil, nil, "CmplxMulFFTPoly"},
		{"PolyMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.PolyMulFFTGLWETo(o, a.fa, a.p) }, func(e E, a A) C { return e.PolyMulFFTGLWE(a.fa, a.p) }, nil, "PolyMulFFTPoly"},
		{"PolyMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.PolyMulAddFFTGLWETo(o, a.fa, a.p) }, nil, nil, "PolyMulFFTPoly"},
		{"PolyMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.PolyMulSubFFTGLWETo(o, a.fa, a.p) }, nil, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulFFTGLWE", 0, false, true, func(e E, o C, a A) { e.FFTPolyMulFFTGLWETo(o, a.fa, a.fp) }, func(e E, a A) C { return e.FFTPolyMulFFTGLWE(a.fa, a.fp) }, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulAddFFTGLWE", 1, false, true, func(e E, o C, a A) { e.FFTPolyMulAddFFTGLWETo(o, a.fa, a.fp) }, nil, nil, "PolyMulFFTPoly"},
		{"FFTPolyMulSubFFTGLWE", -1, false, true, func(e E, o C, a A) { e.FFTPolyMulSubFFTGLWETo(o, a.fa, a.fp) }, nil, nil, "PolyMulFFTPoly"},
		{"PermuteFFTGLWE", 0, false, false, func(e E, o C, a A) { e.PermuteFFTGLWETo(o, a.fa, 2*a.d+1) }, nil, func(e E, o C, a A) { e.PermuteFFTGLWEInPlace(o, 2*a.d+1) }, "PermuteFFTPoly"},
		{"PermuteAddFFTGLWE", 1, false, false, func(e E, o C, a A) { e.PermuteAddFFTGLWETo(o, a.fa, 2*a.d+1) }, nil, nil, "PermuteFFTPoly"},
		{"PermuteSubFFTGLWE", -1, false, false, func(e E, o C, a A) { e.PermuteSubFFTGLWETo(o, a.fa, 2*a.d+1) }, nil, nil, "PermuteFFTPoly"},
	}
}

func mkDirtyLWE[T TI](g *rand.Rand, n int) mktfhe.LWECiphertext[T] {
	return mktfhe.LWECiphertext[T]{Value: randVec[T](g, n+1)}
}

func mkDirtyGLWE[T TI](g *rand.Rand, k, N int) mktfhe.GLWECiphertext[T] {
	return mktfhe.GLWECiphertext[T]{Value: dirtyGLWE[T](g, k, N).Value}
}

func mkDirtyFFT[T TI](g *rand.Rand, k, N int) mktfhe.FFTGLWECiphertext[T] {
	return mktfhe.FFTGLWECiphertext[T]{Value: dirtyFFTGLWE[T](g, k, N).Value}
}

func asSub[T TI](c mktfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T]{Value: c.Value}
}

func m05Cfg[T TI](r *R, c MCfg[T], reps int) {
	g := r.Rng
	params := c.Lit.Compile()
	ev := mktfhe.NewEvaluator(params, map[int]mktfhe.EvaluationKey[T]{})
	k, N := c.Lit.PartyCount, c.Lit.SubParams.PolyRank
	n := k * lweDim(c.Lit.SubParams)
	pe := poly.NewEvaluator[T](N)
	sl, ok := newSlots(pe)
	if !r.Check(ok, "transform of X does not list the odd roots") {
		return
	}
	base := map[string]fftOp[T]{}
	for _, o := range fftOps[T]() {
		base[o.name] = o
	}
	q := math.Exp2(float64(logQ[T]()))
	for rep := 0; rep < reps; rep++ {
		// Phases are taken under keys with full-size coefficients, so that an error anywhere in the ciphertext shows.
		lk := randVec[T](g, n)
		gk := make([]poly.Poly[T], k)
		for i := range gk {
			gk[i] = dirtyPoly[T](g, N)
		}
		gen := func() mkArgs[T] {
			a := mkArgs[T]{
				la: mkDirtyLWE[T](g, n), lb: mkDirtyLWE[T](g, n), lp: tfhe.LWEPlaintext[T]{Value: edgeT[T](g)},
				ga: mkDirtyGLWE[T](g, k, N), gb: mkDirtyGLWE[T](g, k, N), gp: tfhe.GLWEPlaintext[T]{Value: dirtyPoly[T](g, N)},
				fa: mkDirtyFFT[T](g, k, N), fb: mkDirtyFFT[T](g, k, N),
				c: edgeT[T](g), x: g.NormFloat64() * 10, z: complex(g.NormFloat64(), g.NormFloat64()),
				d: genExpN(g, N),
			}
			a.p = poly.Poly[T]{Coeffs: make([]T, N)}
			full := g.IntN(3) == 0
			for i := range a.p.Coeffs {
				if full {
					a.p.Coeffs[i] = edgeT[T](g)
				} else {
					a.p.Coeffs[i] = T(g.IntN(255)) - 127
				}
			}
			if g.IntN(4) == 0 { // very sparse
				for i := range a.p.Coeffs {
					if g.IntN(N) > 1 {
						a.p.Coeffs[i] = 0
					}
				}
			}
			a.fp = pe.FwdFFT(a.p)
			return a
		}
		pick := func(acc int, old, f T) T {
			switch acc {
			case 1:
				return old + f
			case -1:
				return old - f
			}
			return f
		}
		for _, op := range mkLweLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s #%d", c.Name, op.name, rep), func() {
				keepA, keepB := a.la.Copy(), a.lb.Copy()
				pa, pb := refLWEPhase(lk, a.la.Value), refLWEPhase(lk, a.lb.Value)
				f := op.ref(pa, pb, a)
				see := func(form string, o mktfhe.LWECiphertext[T], want T) {
					r.Obs("phases", 1)
					got := refLWEPhase(lk, o.Value)
					r.Check(got == want, "%s: phase %d, want %d", form, got, want)
				}
				o := mkDirtyLWE[T](g, n)
				old := refLWEPhase(lk, o.Value)
				op.to(ev, o, a)
				see("To", o, pick(op.acc, old, f))
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), f)
				}
				r.Check(eqV(a.la.Value, keepA.Value) && eqV(a.lb.Value, keepB.Value), "an input changed")
				b := a
				b.la = keepA.Copy()
				op.to(ev, b.la, b)
				see("output = first input", b.la, pick(op.acc, pa, f))
				if op.two {
					b = a
					b.lb = keepB.Copy()
					op.to(ev, b.lb, b)
					see("output = second input", b.lb, f)
					b = a
					b.lb = b.la
					o := mkDirtyLWE[T](g, n)
					op.to(ev, o, b)
					see("equal inputs", o, op.ref(pa, pa, b))
				}
			})
		}
		for _, op := range mkGlweLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s d=%d #%d", c.Name, op.name, a.d, rep), func() {
				key := gk
				keepA, keepB := a.ga.Copy(), a.gb.Copy()
				kp := a.p.Copy()
				if op.perm {
					key = make([]poly.Poly[T], k)
					for i := range key {
						key[i].Coeffs = autoPoly(gk[i].Coeffs, posMod(2*a.d+1, 2*N))
					}
				}
				pa, pb := refGLWEPhase(gk, a.ga.Value), refGLWEPhase(gk, a.gb.Value)
				f := op.ref(pa, pb, a)
				tol := 0.0
				if op.float {
					// Rounding is judged per component, under the trivial key.
					l2 := 0.0
					for _, x := range a.p.Coeffs {
						l2 += signed(x) * signed(x)
					}
					tol = 2 + q*math.Exp2(-53)*math.Sqrt(l2)*math.Sqrt(float64(N))*32
					if tol > q/8 {
						return
					}
				}
				see := func(form string, o, was mktfhe.GLWECiphertext[T], acc int, x mkArgs[T]) {
					r.Obs("phases", 1)
					if op.float {
						for i := range o.Value {
							w := op.ref(keepA.Value[i].Coeffs, nil, x)
							switch acc {
							case 1:
								w = addV(was.Value[i].Coeffs, w)
							case -1:
								w = subV(was.Value[i].Coeffs, w)
							}
							d := maxDiff(o.Value[i].Coeffs, w)
							r.Max("rounding / tolerance", d/tol)
							r.Check(d <= tol, "%s: component %d is %g off (tolerance %g)", form, i, d, tol)
						}
						return
					}
					want := f
					switch acc {
					case 1:
						want = addV(refGLWEPhase(key, was.Value), f)
					case -1:
						want = subV(refGLWEPhase(key, was.Value), f)
					}
					r.Check(eqV(refGLWEPhase(key, o.Value), want), "%s: wrong phase", form)
				}
				o := mkDirtyGLWE[T](g, k, N)
				was := o.Copy()
				op.to(ev, o, a)
				see("To", o, was, op.acc, a)
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), was, 0, a)
				}
				r.Check(glweDiff(asSub(a.ga), asSub(keepA)) == 0 && glweDiff(asSub(a.gb), asSub(keepB)) == 0 && eqV(a.p.Coeffs, kp.Coeffs), "an input changed")
				if op.overlap {
					b := a
					b.ga = keepA.Copy()
					op.to(ev, b.ga, b)
					see("output = first input", b.ga, keepA, op.acc, a)
				}
				if op.two {
					b := a
					b.gb = keepB.Copy()
					op.to(ev, b.gb, b)
					see("output = second input", b.gb, keepB, op.acc, a)
				}
				if op.inpl != nil {
					o := keepA.Copy()
					op.inpl(ev, o, a)
					see("in place", o, keepA, 0, a)
				}
			})
		}
		for _, op := range mkFftLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s d=%d #%d", c.Name, op.name, a.d, rep), func() {
				bo := base[op.base]
				keepA, keepB := a.fa.Copy(), a.fb.Copy()
				see := func(form string, o, was mktfhe.FFTGLWECiphertext[T], acc int) {
					r.Obs("Fourier results", 1)
					for i := range o.Value {
						w := bo.ref(sl, fArgs[T]{a: keepA.Value[i], b: keepB.Value[i], p: a.p, fp: a.fp, c: a.x, z: a.z, d: a.d})
						got := cx(o.Value[i])
						pre := cx(was.Value[i])
						for j := range w {
							x := w[j]
							m := cabs(w[j])
							switch acc {
							case 1:
								x, m = pre[j]+x, m+cabs(pre[j])
							case -1:
								x, m = pre[j]-x, m+cabs(pre[j])
							}
							if d := cabs(got[j] - x); !(d <= m*math.Exp2(-45)+math.Exp2(-40)) {
								r.Fail("%s: component %d slot %d is %v, want %v", form, i, j, got[j], x)
								return
							}
						}
					}
				}
				o := mkDirtyFFT[T](g, k, N)
				was := o.Copy()
				op.to(ev, o, a)
				see("To", o, was, op.acc)
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), was, 0)
				}
				for i := range keepA.Value {
					r.Check(eqV(keepA.Value[i].Coeffs, a.fa.Value[i].Coeffs) && eqV(keepB.Value[i].Coeffs, a.fb.Value[i].Coeffs), "an input changed")
				}
				if op.overlap {
					b := a
					b.fa = keepA.Copy()
					op.to(ev, b.fa, b)
					see("output = first input", b.fa, keepA, op.acc)
				}
				if op.two {
					b := a
					b.fb = keepB.Copy()
					op.to(ev, b.fb, b)
					see("output = second input", b.fb, keepB, op.acc)
				}
				if op.inpl != nil {
					o := keepA.Copy()
					op.inpl(ev, o, a)
					see("in place", o, keepA, 0)
				}
			})
		}
	}
}

// m05Conv checks embeddings, extraction and Fourier conversions.
func m05Conv[T TI](r *R, c MCfg[T], reps int) {
	g := r.Rng
	params := c.Lit.Compile()
	P, N := c.Lit.PartyCount, c.Lit.SubParams.PolyRank
	n := lweDim(c.Lit.SubParams)
	pe := poly.NewEvaluator[T](N)
	tol := fftTol[T](N)
	for rep := 0; rep < reps; rep++ {
		idx := g.IntN(P)
		lk := randVec[T](g, P*n)
		gk := make([]poly.Poly[T], P)
		var glk []T
		for i := range gk {
			gk[i] = dirtyPoly[T](g, N)
			glk = append(glk, gk[i].Coeffs...)
		}
		r.Case(fmt.Sprintf("%s embed party %d #%d", c.Name, idx, rep), func() {
			s := dirtyLWE[T](g, n)
			o := mktfhe.NewLWECiphertext(params)
			if rep%2 == 0 {
				o = mkDirtyLWE[T](g, P*n)
			}
			was := append([]T(nil), s.Value...)
			o.CopyFromSubKey(s, idx)
			r.Check(len(o.Value) == P*n+1 && refLWEPhase(lk, o.Value) == refLWEPhase(lk[idx*n:(idx+1)*n], s.Value), "embedded scalar ciphertext has another phase")
			s.Value[0]++ // independent of the source
			r.Check(o.Value[0] == was[0], "the embedded ciphertext shares memory with its source")
			sg := dirtyGLWE[T](g, 1, N)
			og := mkDirtyGLWE[T](g, P, N)
			if rep%2 == 0 {
				og = mktfhe.NewGLWECiphertext(params)
			}
			og.CopyFromSubKey(sg, idx)
			want := refGLWEPhase(gk[idx:idx+1], sg.Value)
			r.Check(len(og.Value) == P+1 && eqV(refGLWEPhase(gk, og.Value), want), "embedded ring ciphertext has another phase")
			sg.Value[0].Coeffs[0]++
			sg.Value[1].Coeffs[0]++
			r.Check(eqV(refGLWEPhase(gk, og.Value), want), "the embedded ring ciphertext shares memory with its source")
			sf := dirtyFFTGLWE[T](g, 1, N)
			of := mkDirtyFFT[T](g, P, N)
			if rep%2 == 0 {
				of = mktfhe.NewFFTGLWECiphertext(params)
			}
			of.CopyFromSubKey(sf, idx)
			for i := range of.Value {
				w := make([]float64, N)
				if i == 0 {
					w = sf.Value[0].Coeffs
				} else if i == 1+idx {
					w = sf.Value[1].Coeffs
				}
				r.Check(eqV(of.Value[i].Coeffs, w), "component %d of an embedded Fourier ciphertext", i)
			}
			for _, bad := range []func(){
				func() { x := mktfhe.NewLWECiphertext(params); x.CopyFromSubKey(dirtyLWE[T](g, P*n+1), 0) },
				func() { x := mktfhe.NewLWECiphertext(params); x.CopyFromSubKey(dirtyLWE[T](g, notDividing(g, P*n)), 0) },
				func() { x := mktfhe.NewGLWECiphertext(params); x.CopyFromSubKey(dirtyGLWE[T](g, 2, N), 0) },
				func() { x := mktfhe.NewFFTGLWECiphertext(params); x.CopyFromSubKey(dirtyFFTGLWE[T](g, 2, N), 0) },
			} {
				ok, _ := Panics(bad)
				r.Check(ok, "a ciphertext of the wrong shape was embedded")
			}
			r.Obs("embeddings", 3)
		})
		r.Case(fmt.Sprintf("%s extract #%d", c.Name, rep), func() {
			ct := mkDirtyGLWE[T](g, P, N)
			keep := ct.Copy()
			ph := refGLWEPhase(gk, ct.Value)
			for _, i := range []int{0, 1, N / 2, N - 1, g.IntN(N), g.IntN(N)} {
				o := ct.AsLWECiphertext(i)
				if !r.Check(len(o.Value) == P*N+1, "extracted ciphertext has length %d", len(o.Value)) {
					return
				}
				r.Check(refLWEPhase(glk, o.Value) == ph[i], "coefficient %d extracted with another phase", i)
				o2 := mkDirtyLWE[T](g, P*N)
				ct.AsLWECiphertextTo(o2, i)
				r.Check(eqV(o.Value, o2.Value), "AsLWECiphertextTo differs from AsLWECiphertext")
				r.Obs("extractions", 1)
			}
			r.Check(glweDiff(asSub(ct), asSub(keep)) == 0, "the ring ciphertext changed")
		})
		r.Case(fmt.Sprintf("%s transform #%d", c.Name, rep), func() {
			t := mktfhe.NewGLWETransformer[T](N)
			if rep%2 == 0 {
				t = mktfhe.NewEvaluator(params, nil).GLWETransformer.SafeCopy()
			}
			ct := mkDirtyGLWE[T](g, P, N)
			keep := ct.Copy()
			f := t.FwdFFTGLWECiphertext(ct)
			f2 := mkDirtyFFT[T](g, P, N)
			t.FwdFFTGLWECiphertextTo(f2, ct)
			r.Check(glweDiff(asSub(ct), asSub(keep)) == 0, "the ring ciphertext changed")
			for i := range ct.Value {
				w := pe.FwdFFT(ct.Value[i])
				m := 0.0
				for j := range w.Coeffs {
					m = max(m, math.Abs(w.Coeffs[j]))
				}
				for j := range w.Coeffs {
					if math.Abs(f.Value[i].Coeffs[j]-w.Coeffs[j]) > m*math.Exp2(-40) {
						r.Fail("component %d: transform differs from that of the polynomial", i)
						break
					}
				}
				r.Check(eqV(f.Value[i].Coeffs, f2.Value[i].Coeffs), "forms of the transform differ")
			}
			kf := f.Copy()
			b := t.InvGLWECiphertext(f)
			b2 := mkDirtyGLWE[T](g, P, N)
			t.InvGLWECiphertextTo(b2, f)
			for i := range f.Value {
				r.Check(eqV(f.Value[i].Coeffs, kf.Value[i].Coeffs), "the Fourier ciphertext changed")
			}
			r.Check(len(b.Value) == P+1 && glweDiff(asSub(b), asSub(keep)) <= tol, "the ciphertext does not return from Fourier form")
			r.Check(glweDiff(asSub(b2), asSub(b)) == 0, "forms of the inverse transform differ")
			r.Obs("transforms", 2)
		})
	}
}

// m05Enc runs linear programs on encryptions by different parties.
func m05Enc[T TI](r *R, c MCfg[T], progs int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	P, N := c.Lit.PartyCount, c.Lit.SubParams.PolyRank
	p := int(c.Lit.SubParams.MessageModulus)
	if !isPow2(p) {
		return
	}
	encs := make([]*mktfhe.Encryptor[T], P)
	sks := map[int]tfhe.SecretKey[T]{}
	for i := range encs {
		encs[i] = mktfhe.NewEncryptor(params, i, []byte("x"))
		sks[i] = encs[i].SecretKey
	}
	ev := mktfhe.NewEvaluator(params, map[int]mktfhe.EvaluationKey[T]{})
	dec := mktfhe.NewDecryptor(params, sks)
	any := func() *mktfhe.Encryptor[T] { return encs[g.IntN(P)] }
	for i := 0; i < progs; i++ {
		r.Case(fmt.Sprintf("%s program %d", c.Name, i), func() {
			m := g.IntN(p)
			ct := any().EncryptLWE(m)
			ms := randIntVec(g, N, p)
			cg := any().EncryptGLWE(ms)
			cf := any().EncryptFFTGLWE(ms)
			mf := append([]int(nil), ms...)
			for s := 0; s < 6; s++ {
				switch x := g.IntN(p); g.IntN(5) {
				case 0:
					ct, m = ev.AddLWE(ct, any().EncryptLWE(x)), m+x
				case 1:
					ev.SubPlainLWETo(ct, ct, encs[0].EncodeLWE(x))
					m -= x
				case 2:
					ev.NegLWETo(ct, ct)
					m = -m
				case 3:
					ev.ScalarMulAddLWETo(ct, any().EncryptLWE(x), 3)
					m += 3 * x
				case 4:
					ev.SubLWETo(ct, any().EncryptLWE(x), ct)
					m = x - m
				}
				y := randIntVec(g, N, p)
				rot := func(v []int, d int) []int {
					t := make([]int, N)
					for j := range v {
						if k := (j + d) % (2 * N); k >= N {
							t[k-N] = -v[j]
						} else {
							t[k] = v[j]
						}
					}
					return t
				}
				d := g.IntN(2 * N)
				switch g.IntN(5) {
				case 0:
					ev.AddGLWETo(cg, any().EncryptGLWE(y), cg)
					ev.AddFFTGLWETo(cf, any().EncryptFFTGLWE(y), cf)
					for j := range ms {
						ms[j] += y[j]
						mf[j] += y[j]
					}
				case 1:
					ev.SubPlainGLWETo(cg, cg, encs[0].EncodeGLWE(y))
					for j := range ms {
						ms[j] -= y[j]
					}
				case 2:
					ev.MonomialMulGLWEInPlace(cg, d)
					ms = rot(ms, d)
				case 3:
					ev.NegGLWETo(cg, cg)
					ev.NegFFTGLWETo(cf, cf)
					for j := range ms {
						ms[j] = -ms[j]
						mf[j] = -mf[j]
					}
				case 4:
					o := any().EncryptGLWE(y)
					ev.MonomialMulSubGLWETo(cg, o, d)
					t := rot(y, d)
					for j := range ms {
						ms[j] -= t[j]
					}
				}
			}
			r.Check(dec.DecryptLWE(ct) == posMod(m, p), "scalar program decrypts to %d, want %d", dec.DecryptLWE(ct), posMod(m, p))
			for what, x := range map[string][2][]int{"ring": {dec.DecryptGLWE(cg), ms}, "Fourier": {dec.DecryptFFTGLWE(cf), mf}} {
				for j := range x[1] {
					if x[0][j] != posMod(x[1][j], p) {
						r.Fail("%s program: coefficient %d decrypts to %d, want %d", what, j, x[0][j], posMod(x[1][j], p))
						break
					}
				}
			}
			r.Obs("programs", 1)
		})
	}
}

// notDividing is a positive number below n (three or more) that does not divide it.
func notDividing(g *rand.Rand, n int) int {
	for {
		if d := 2 + g.IntN(n-2); n%d != 0 {
			return d
		}
	}
}

func m05Run[T TI](r *R) {
	cfgs := fixedMulti[T]()
	for i := 0; i < r.Pick(4, 40); i++ {
		cfgs = append(cfgs, randMulti[T](r.Rng))
	}
	for _, c := range cfgs {
		m05Cfg(r, c, r.Pick(6, 60))
		m05Conv(r, c, r.Pick(10, 80))
		m05Enc(r, c, r.Pick(20, 150))
	}
}

func init() {
	about("M05", "a case is one operation on uniform multi-key operands (edge constants, exponents of every sign and size, dense, sparse and full-size polynomials) in its allocating, output-argument, overlapping and in-place forms; joint phases are taken by schoolbook arithmetic under keys with uniform full-size coefficients, so that a wrong value in any party's component is visible; embeddings of single-key ciphertexts, extraction of coefficients and Fourier conversions likewise; random linear programs over encryptions of several parties are decrypted at the end")
	needObs("M05", "phases", 2000)
	needObs("M05", "Fourier results", 2000)
	needObs("M05", "embeddings", 200)
	needObs("M05", "extractions", 400)
	needObs("M05", "programs", 200)
	reg("M05", "small32", vAll, vAll, func(r *R) { m05Run[uint32](r) })
	reg("M05", "small64", vAll, vAll, func(r *R) { m05Run[uint64](r) })
	reg("M05", "shipped", vAvx, vAvx, func(r *R) {
		for i, c := range shippedMulti() {
			if i > 0 && !r.Thorough || i > 2 {
				continue
			}
			m05Cfg(r, c, 1)
			m05Conv(r, c, r.Pick(1, 4))
		}
	})
}
