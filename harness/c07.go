package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

func c07Cfg[T TI](r *R, c Cfg[T], reps int) {
	g := r.Rng
	params := c.Lit.Compile()
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	pe := poly.NewEvaluator[T](c.Lit.PolyRank)
	k, N, n := c.Lit.GLWERank, c.Lit.PolyRank, lweDim(c.Lit)
	sl, ok := newSlots(pe)
	if !r.Check(ok, "transform of X does not list the odd roots") {
		return
	}
	base := map[string]fftOp[T]{}
	for _, o := range fftOps[T]() {
		base[o.name] = o
	}
	q := math.Exp2(float64(logQ[T]()))
	for rep := 0; rep < reps; rep++ {
		// Phases are taken under keys with full-size coefficients, so that an error anywhere in the ciphertext shows.
		lk := randVec[T](g, n)
		gk := make([]poly.Poly[T], k)
		for i := range gk {
			gk[i] = dirtyPoly[T](g, N)
		}
		gen := func() lArgs[T] {
			a := lArgs[T]{
				la: dirtyLWE[T](g, n), lb: dirtyLWE[T](g, n), lp: tfhe.LWEPlaintext[T]{Value: edgeT[T](g)},
				ga: dirtyGLWE[T](g, k, N), gb: dirtyGLWE[T](g, k, N), gp: tfhe.GLWEPlaintext[T]{Value: dirtyPoly[T](g, N)},
				fa: dirtyFFTGLWE[T](g, k, N), fb: dirtyFFTGLWE[T](g, k, N),
				c: edgeT[T](g), x: g.NormFloat64() * 10, z: complex(g.NormFloat64(), g.NormFloat64()),
				d: genExpN(g, N),
			}
			a.p = poly.Poly[T]{Coeffs: make([]T, N)}
			full := g.IntN(3) == 0
			for i := range a.p.Coeffs {
				if full {
					a.p.Coeffs[i] = edgeT[T](g)
				} else {
					a.p.Coeffs[i] = T(g.IntN(255)) - 127
				}
			}
			if g.IntN(4) == 0 { // very sparse
				for i := range a.p.Coeffs {
					if g.IntN(N) > 1 {
						a.p.Coeffs[i] = 0
					}
				}
			}
			a.fp = pe.FwdFFT(a.p)
			return a
		}
		pick := func(acc int, old, f T) T {
			switch acc {
			case 1:
				return old + f
			case -1:
				return old - f
			}
			return f
		}
		for _, op := range lweLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s #%d", c.Name, op.name, rep), func() {
				keepA, keepB := a.la.Copy(), a.lb.Copy()
				pa, pb := refLWEPhase(lk, a.la.Value), refLWEPhase(lk, a.lb.Value)
				f := op.ref(pa, pb, a)
				see := func(form string, o tfhe.LWECiphertext[T], want T) {
					r.Obs("phases", 1)
					got := refLWEPhase(lk, o.Value)
					r.Check(got == want, "%s: phase %d, want %d", form, got, want)
				}
				o := dirtyLWE[T](g, n)
				old := refLWEPhase(lk, o.Value)
				op.to(ev, o, a)
				see("To", o, pick(op.acc, old, f))
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), f)
				}
				r.Check(eqV(a.la.Value, keepA.Value) && eqV(a.lb.Value, keepB.Value), "an input changed")
				b := a
				b.la = keepA.Copy()
				op.to(ev, b.la, b)
				see("output = first input", b.la, pick(op.acc, pa, f))
				if op.two {
					b = a
					b.lb = keepB.Copy()
					op.to(ev, b.lb, b)
					see("output = second input", b.lb, f)
					b = a
					b.lb = b.la
					o := dirtyLWE[T](g, n)
					op.to(ev, o, b)
					see("equal inputs", o, op.ref(pa, pa, b))
				}
			})
		}
		for _, op := range glweLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s d=%d #%d", c.Name, op.name, a.d, rep), func() {
				key := gk
				keepA, keepB := a.ga.Copy(), a.gb.Copy()
				kp := a.p.Copy()
				if op.perm {
					key = make([]poly.Poly[T], k)
					for i := range key {
						key[i].Coeffs = autoPoly(gk[i].Coeffs, posMod(2*a.d+1, 2*N))
					}
				}
				pa, pb := refGLWEPhase(gk, a.ga.Value), refGLWEPhase(gk, a.gb.Value)
				f := op.ref(pa, pb, a)
				tol := 0.0
				if op.float {
					// Rounding is judged per component, under the trivial key.
					l2 := 0.0
					for _, x := range a.p.Coeffs {
						l2 += signed(x) * signed(x)
					}
					tol = 2 + q*math.Exp2(-53)*math.Sqrt(l2)*math.Sqrt(float64(N))*32
					if tol > q/8 {
						return
					}
				}
				see := func(form string, o, was tfhe.GLWECiphertext[T], acc int, x lArgs[T]) {
					r.Obs("phases", 1)
					if op.float {
						for i := range o.Value {
							w := op.ref(keepA.Value[i].Coeffs, nil, x)
							switch acc {
							case 1:
								w = addV(was.Value[i].Coeffs, w)
							case -1:
								w = subV(was.Value[i].Coeffs, w)
							}
							d := maxDiff(o.Value[i].Coeffs, w)
							r.Max("rounding / tolerance", d/tol)
							r.Check(d <= tol, "%s: component %d is %g off (tolerance %g)", form, i, d, tol)
						}
						return
					}
					want := f
					switch acc {
					case 1:
						want = addV(refGLWEPhase(key, was.Value), f)
					case -1:
						want = subV(refGLWEPhase(key, was.Value), f)
					}
					r.Check(eqV(refGLWEPhase(key, o.Value), want), "%s: wrong phase", form)
				}
				o := dirtyGLWE[T](g, k, N)
				was := o.Copy()
				op.to(ev, o, a)
				see("To", o, was, op.acc, a)
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), was, 0, a)
				}
				r.Check(glweDiff(a.ga, keepA) == 0 && glweDiff(a.gb, keepB) == 0 && eqV(a.p.Coeffs, kp.Coeffs), "an input changed")
				if op.overlap {
					b := a
					b.ga = keepA.Copy()
					op.to(ev, b.ga, b)
					see("output = first input", b.ga, keepA, op.acc, a)
				}
				if op.two {
					b := a
					b.gb = keepB.Copy()
					op.to(ev, b.gb, b)
					see("output = second input", b.gb, keepB, op.acc, a)
				}
				if op.inpl != nil {
					o := keepA.Copy()
					op.inpl(ev, o, a)
					see("in place", o, keepA, 0, a)
				}
			})
		}
		for _, op := range fftLins[T]() {
			a := gen()
			r.Case(fmt.Sprintf("%s %s d=%d #%d", c.Name, op.name, a.d, rep), func() {
				bo := base[op.base]
				keepA, keepB := a.fa.Copy(), a.fb.Copy()
				see := func(form string, o, was tfhe.FFTGLWECiphertext[T], acc int) {
					r.Obs("Fourier results", 1)
					for i := range o.Value {
						w := bo.ref(sl, fArgs[T]{a: keepA.Value[i], b: keepB.Value[i], p: a.p, fp: a.fp, c: a.x, z: a.z, d: a.d})
						got := cx(o.Value[i])
						pre := cx(was.Value[i])
						for j := range w {
							x := w[j]
							m := cabs(w[j])
							switch acc {
							case 1:
								x, m = pre[j]+x, m+cabs(pre[j])
							case -1:
								x, m = pre[j]-x, m+cabs(pre[j])
							}
							if d := cabs(got[j] - x); !(d <= m*math.Exp2(-45)+math.Exp2(-40)) {
								r.Fail("%s: component %d slot %d is %v, want %v", form, i, j, got[j], x)
								return
							}
						}
					}
				}
				o := dirtyFFTGLWE[T](g, k, N)
				was := o.Copy()
				op.to(ev, o, a)
				see("To", o, was, op.acc)
				if op.alloc != nil {
					see("allocating", op.alloc(ev, a), was, 0)
				}
				for i := range keepA.Value {
					r.Check(eqV(keepA.Value[i].Coeffs, a.fa.Value[i].Coeffs) && eqV(keepB.Value[i].Coeffs, a.fb.Value[i].Coeffs), "an input changed")
				}
				if op.overlap {
					b := a
					b.fa = keepA.Copy()
					op.to(ev, b.fa, b)
					see("output = first input", b.fa, keepA, op.acc)
				}
				if op.two {
					b := a
					b.fb = keepB.Copy()
					op.to(ev, b.fb, b)
					see("output = second input", b.fb, keepB, op.acc)
				}
				if op.inpl != nil {
					o := keepA.Copy()
					op.inpl(ev, o, a)
					see("in place", o, keepA, 0)
				}
			})
		}
	}
}

// c07Enc runs short random linear programs on real encryptions and decrypts at the end.
func c07Enc[T TI](r *R, c Cfg[T], progs int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	p := int(params.MessageModulus())
	if !isPow2(p) {
		return
	}
	N := c.Lit.PolyRank
	for i := 0; i < progs; i++ {
		r.Case(fmt.Sprintf("%s program %d", c.Name, i), func() {
			m := g.IntN(p)
			ct := enc.EncryptLWE(m)
			ms := randIntVec(g, N, p)
			cg := enc.EncryptGLWE(ms)
			for s := 0; s < 6; s++ {
				switch x := g.IntN(p); g.IntN(5) {
				case 0:
					ct, m = ev.AddLWE(ct, enc.EncryptLWE(x)), m+x
				case 1:
					ev.SubPlainLWETo(ct, ct, enc.EncodeLWE(x))
					m -= x
				case 2:
					ev.NegLWETo(ct, ct)
					m = -m
				case 3:
					ev.ScalarMulAddLWETo(ct, enc.EncryptLWE(x), 3)
					m += 3 * x
				case 4:
					ev.SubLWETo(ct, enc.EncryptLWE(x), ct)
					m = x - m
				}
				y := randIntVec(g, N, p)
				switch d := g.IntN(4 * N); g.IntN(5) {
				case 0:
					ev.AddGLWETo(cg, enc.EncryptGLWE(y), cg)
					for j := range ms {
						ms[j] += y[j]
					}
				case 1:
					ev.SubPlainGLWETo(cg, cg, enc.EncodeGLWE(y))
					for j := range ms {
						ms[j] -= y[j]
					}
				case 2:
					ev.MonomialMulGLWEInPlace(cg, d)
					t := make([]int, N)
					for j := range ms {
						if k := (j + d) % (2 * N); k >= N {
							t[k-N] = -ms[j]
						} else {
							t[k] = ms[j]
						}
					}
					ms = t
				case 3:
					ev.NegGLWETo(cg, cg)
					for j := range ms {
						ms[j] = -ms[j]
					}
				case 4:
					ev.ScalarMulGLWETo(cg, cg, ^T(0)-2)
					for j := range ms {
						ms[j] *= -3
					}
				}
			}
			r.Check(enc.DecryptLWE(ct) == posMod(m, p), "scalar program decrypts to %d, want %d", enc.DecryptLWE(ct), posMod(m, p))
			got := enc.DecryptGLWE(cg)
			for j := range ms {
				if got[j] != posMod(ms[j], p) {
					r.Fail("ring program: coefficient %d decrypts to %d, want %d", j, got[j], posMod(ms[j], p))
					break
				}
			}
			r.Obs("programs", 1)
		})
	}
}

func init() {
	about("C07", "a case is one operation on operands drawn over the full range (edge constants, exponents of every sign and size, dense, sparse and full-size polynomials), run in its allocating, output-argument, overlapping and in-place forms; phases are taken by schoolbook arithmetic under keys with uniform full-size coefficients, so that a wrong value in any position of the ciphertext is visible; Fourier operations are compared slot by slot with complex arithmetic; short random programs on real encryptions are decrypted at the end")
	needObs("C07", "phases", 3000)
	needObs("C07", "Fourier results", 3000)
	reg("C07", "ops32", vAll, vAll, func(r *R) {
		for i, c := range fixedCfgs[uint32]() {
			c07Cfg(r, c, r.Pick(24, 200))
			if i < 6 {
				c07Enc(r, c, r.Pick(30, 300))
			}
		}
	})
	reg("C07", "ops64", vAll, vAll, func(r *R) {
		for i, c := range fixedCfgs[uint64]() {
			c07Cfg(r, c, r.Pick(24, 200))
			if i < 6 {
				c07Enc(r, c, r.Pick(30, 300))
			}
		}
	})
	reg("C07", "shipped", vAvx, vAll, func(r *R) {
		for _, c := range shipped32() {
			c07Cfg(r, c, r.Pick(4, 12))
		}
		for _, c := range shipped64()[:4] {
			c07Cfg(r, c, r.Pick(3, 8))
			c07Enc(r, c, r.Pick(6, 20))
		}
	})
}
