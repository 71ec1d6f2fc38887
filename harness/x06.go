package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

type x06Cfg[T TI] struct {
	Cfg[T]
	rs, rt, ls, lt float64 // deviations in units of the torus step
}

func (c x06Cfg[T]) lit() xtfhe.SanitizationParametersLiteral[T] {
	q := math.Exp2(float64(logQ[T]()))
	return xtfhe.SanitizationParametersLiteral[T]{BaseParams: c.Lit, RandSigma: c.rs / q, RandTau: c.rt / q, LinEvalSigma: c.ls / q, LinEvalTau: c.lt / q}
}

func x06Mk[T TI](n, N, bs int, p T, rs, rt, ls, lt float64) x06Cfg[T] {
	var c Cfg[T]
	if logQ[T]() == 32 {
		c = mk[T](n, 1, N, N, bs, p, 6, 4, 4, 6, oKS)
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-27), math.Exp2(-31)
	} else {
		c = mk[T](n, 1, N, N, bs, p, 11, 4, 6, 5, oKS)
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-36), math.Exp2(-60)
	}
	c.Name += fmt.Sprintf("_rand%g,%g_lin%g,%g", rs, rt, ls, lt)
	return x06Cfg[T]{c, rs, rt, ls, lt}
}

func x06Fixed[T TI]() []x06Cfg[T] {
	t := func(e32, e64 float64) float64 {
		if logQ[T]() == 32 {
			return math.Exp2(e32)
		}
		return math.Exp2(e64)
	}
	return []x06Cfg[T]{
		x06Mk[T](8, 64, 1, 2, 8, t(10, 20), 4, t(22, 54)),
		x06Mk[T](12, 128, 3, 2, 2, t(8, 36), 2, t(21, 20)),
		x06Mk[T](6, 256, 1, 4, 30, t(6, 12), 3, t(10, 40)),
		x06Mk[T](5, 64, 5, 2, 1.5, t(12, 40), 1.3, t(24, 56)),
		x06Mk[T](16, 512, 2, 8, 4, t(9, 24), 1, t(20, 51)),
		x06Mk[T](1, 32, 1, 2, 3, t(4, 8), 2, t(23, 56)),
		x06Mk[T](1, 64, 1, 2, 3, t(4, 8), 0.6, t(12, 20)), // few enough multipliers to see their centre
	}
}

func x06Rand[T TI](g *rand.Rand) x06Cfg[T] {
	N := 32 << g.IntN(4)
	bs := 1 + g.IntN(3)
	n := bs * (1 + g.IntN(max(1, N/(12*bs))))
	p := T(2) << g.IntN(2)
	if N < 128 {
		p = 2
	}
	top := float64(logQ[T]())
	return x06Mk[T](n, N, bs, p, 1+20*g.Float64(), math.Exp2(4+(top/2-8)*g.Float64()), 1+3*g.Float64(), math.Exp2(4+(top-14)*g.Float64()))
}

// x06Pub is a public key whose only row has constant components.
func x06Pub[T TI](N int, b, a T) tfhe.PublicKey[T] {
	pk := tfhe.NewPublicKeyCustom[T](1, N)
	pk.GLWEKey.Value[0].Value[0].Coeffs[0] = b
	pk.GLWEKey.Value[0].Value[1].Coeffs[0] = a
	return pk
}

// corr accumulates a correlation of centred samples of known deviation.
type corr struct {
	n int
	s float64
}

func (c *corr) add(x, y float64) { c.n++; c.s += x * y }
func (c *corr) zero(r *R, label string, sx, sy float64) {
	if c.n < 200 {
		return
	}
	z := c.s / (sx * sy * math.Sqrt(float64(c.n)))
	r.Max("correlation in deviations", math.Abs(z))
	r.Check(math.Abs(z) <= 8, "%s: correlated (%g deviations over %d pairs)", label, z, c.n)
}

// x06Exposed runs re-randomization under a public key that exposes every sampled value.
func x06Exposed[T TI](r *R, c x06Cfg[T], reps int) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.lit().Compile()
	N := c.Lit.PolyRank
	w := logQ[T]()
	r.Case(c.Name+" parameters", func() {
		q := math.Exp2(float64(w))
		near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-12*math.Abs(b) }
		r.Check(near(params.RandSigmaQ(), c.rs) && near(params.RandTauQ(), c.rt) && near(params.LinEvalSigmaQ(), c.ls) && near(params.LinEvalTauQ(), c.lt), "parameters report deviations %g %g %g %g, want %g %g %g %g", params.RandSigmaQ(), params.RandTauQ(), params.LinEvalSigmaQ(), params.LinEvalTauQ(), c.rs, c.rt, c.ls, c.lt)
		r.Check(near(params.RandSigma()*q, c.rs) && near(params.RandTau()*q, c.rt) && near(params.LinEvalSigma()*q, c.ls) && near(params.LinEvalTau()*q, c.lt), "normalized deviations")
	})
	// b = 2^hb, a = 2^ha: body = ct + 2^hb*g + tau, mask = ct + 2^ha*g + g2
	hb := int(math.Ceil(math.Log2(10*c.rt))) + 2
	ha := int(math.Ceil(math.Log2(26*c.rs))) + 1
	top := int(math.Ceil(math.Log2(13*c.rs))) + 1
	if hb+top >= w || ha+top >= w {
		r.Obs("sets without room for exposed samples", 1)
		return
	}
	for _, mode := range []string{"ring", "scalar"} {
		for _, cp := range []bool{false, true} {
			r.Case(fmt.Sprintf("%s exposed %s copy=%v", c.Name, mode, cp), func() {
				s := xtfhe.NewSanitizer(params, x06Pub[T](N, T(1)<<hb, T(1)<<ha), tfhe.EvaluationKey[T]{})
				if cp {
					s = s.SafeCopy()
				}
				var sg, sg2, st stat
				var cgg, clag, cgt, cprev corr
				var last []float64
				for i := 0; i < reps; i++ {
					var body, mask []T
					var inB, inM []T
					if mode == "ring" {
						ct := dirtyGLWE[T](g, 1, N)
						inB, inM = ct.Value[0].Coeffs, ct.Value[1].Coeffs
						was := ct.Copy()
						o := dirtyGLWE[T](g, 1, N)
						if i%3 == 0 {
							o = ct
							inB, inM = was.Value[0].Coeffs, was.Value[1].Coeffs
						}
						s.ReRandGLWETo(o, ct)
						r.Check(i%3 == 0 || same(ct, was) == "", "the input changed")
						body, mask = o.Value[0].Coeffs, o.Value[1].Coeffs
					} else {
						ct := dirtyLWE[T](g, N)
						inB, inM = ct.Value[:1], ct.Value[1:]
						was := ct.Copy()
						o := dirtyLWE[T](g, N)
						if i%3 == 0 {
							o = ct
							inB, inM = was.Value[:1], was.Value[1:]
						}
						s.ReRandLWETo(o, ct)
						r.Check(i%3 == 0 || eqV(ct.Value, was.Value), "the input changed")
						body, mask = o.Value[:1], o.Value[1:]
					}
					// the mask of the extracted ciphertext is (m0, -m_{N-1}, ..., -m_1)
					dm := subV(mask, inM)
					if mode == "scalar" {
						e := make([]T, N)
						e[0] = dm[0]
						for j := 1; j < N; j++ {
							e[N-j] = -dm[j]
						}
						dm = e
					}
					db := subV(body, inB)
					cur := make([]float64, 0, 2*N)
					for j := range dm {
						x := dm[j] + T(1)<<(ha-1)
						gj := signed(x) / math.Exp2(float64(ha))
						gj = math.Floor(gj)
						g2 := signed(dm[j] - T(int64(gj))<<ha)
						sg.add(gj)
						sg2.add(g2)
						cgg.add(gj, g2)
						cur = append(cur, gj, g2)
						if j > 0 {
							clag.add(gj, cur[2*j-2])
							clag.add(g2, cur[2*j-1])
						}
						if j < len(db) {
							tau := signed(db[j] - T(int64(gj))<<hb)
							st.add(tau)
							cgt.add(tau, gj)
							if math.Abs(tau) > 10*c.rt+1 {
								r.Fail("the body moved by %g beyond the multiple %g of the public key (deviation %g)", tau, gj, c.rt)
								return
							}
						}
					}
					if last != nil {
						d := 0
						for j := range cur {
							cprev.add(cur[j], last[j])
							if cur[j] == last[j] {
								d++
							}
						}
						r.Check(d < len(cur), "two calls drew the same values")
					}
					last = cur
					r.Obs("exposed re-randomizations", 1)
				}
				sg.declared(r, "multiplier of the public key", math.Sqrt(max(c.rs*c.rs-1.0/12, 0.01)))
				sg2.declared(r, "mask noise", math.Sqrt(max(c.rs*c.rs-1.0/12, 0.01)))
				st.declared(r, "body noise", c.rt)
				cgg.zero(r, "multiplier and mask noise", c.rs, c.rs)
				clag.zero(r, "neighbouring coefficients", c.rs, c.rs)
				cgt.zero(r, "body noise and multiplier", c.rs, c.rt)
				cprev.zero(r, "successive calls", c.rs, c.rs)
			})
		}
	}
}

type x06World[T TI] struct {
	params xtfhe.SanitizationParameters[T]
	enc    *tfhe.Encryptor[T]
	pk     tfhe.PublicKey[T]
	evk    tfhe.EvaluationKey[T]
	key    []T
	ring   []poly.Poly[T]
	rand   float64 // deviation of the phase change by re-randomization
}

func x06NewWorld[T TI](c x06Cfg[T]) *x06World[T] {
	w := &x06World[T]{params: c.lit().Compile()}
	w.enc = tfhe.NewEncryptor(w.params.BaseParams())
	w.pk = w.enc.GenPublicKey()
	w.evk = w.enc.GenEvalKeyParallel()
	w.key, w.ring = w.enc.SecretKey.LWELargeKey.Value, w.enc.SecretKey.GLWEKey.Value
	v := 0.0
	for _, x := range refGLWEPhase(w.ring, w.pk.GLWEKey.Value[0].Value) {
		v += signed(x) * signed(x)
	}
	for _, x := range w.key {
		v += signed(x) * signed(x)
	}
	w.rand = math.Sqrt(c.rt*c.rt + c.rs*c.rs*v)
	return w
}

// x06Real judges re-randomization and sanitization under real keys.
func x06Real[T TI](r *R, c x06Cfg[T], rerands, boots int) {
	r.SeedLib(c.Name + "real")
	g := r.Rng
	N, p, lw := c.Lit.PolyRank, int(c.Lit.MessageModulus), logQ[T]()
	step := math.Exp2(float64(lw - bitLen(uint64(N))))
	scale := divRoundQ(T(p))
	w := x06NewWorld(c)
	s := xtfhe.NewSanitizer(w.params, w.pk, w.evk)
	other := s.SafeCopy()
	bytes := make([]int, 256)
	seen := map[T]bool{}
	repeats := 0
	mark := func(v []T) {
		for _, x := range v {
			bytes[byte(x>>(lw-8))]++
			if lw == 64 {
				if seen[x] && x != 0 {
					repeats++
				}
				seen[x] = true
			}
		}
	}
	r.Case(c.Name+" re-randomized phases", func() {
		var sr, ss stat
		ct := w.enc.EncryptLWE(p - 1)
		ctG := w.enc.EncryptGLWE(randIntVec(g, N, p))
		ph, phG := refLWEPhase(w.key, ct.Value), refGLWEPhase(w.ring, ctG.Value)
		o, oG := dirtyLWE[T](g, N), dirtyGLWE[T](g, 1, N)
		for i := 0; i < rerands; i++ {
			a := s
			if i%2 == 1 {
				a = other
			}
			a.ReRandLWETo(o, ct)
			ss.add(signed(refLWEPhase(w.key, o.Value) - ph))
			d := subV(o.Value[1:], ct.Value[1:])
			mark(d)
			if i%8 == 0 {
				a.ReRandGLWETo(oG, ctG)
				for j, x := range refGLWEPhase(w.ring, oG.Value) {
					sr.add(signed(x - phG[j]))
				}
				mark(subV(oG.Value[1].Coeffs, ctG.Value[1].Coeffs))
			}
			if i%4 == 3 { // continue from the output: the message stays through repetition
				ct, ph = o.Copy(), refLWEPhase(w.key, o.Value)
			}
			r.Obs("re-randomizations", 1)
		}
		ss.declared(r, "phase change of a scalar ciphertext", w.rand)
		sr.declared(r, "phase change of a ring ciphertext", w.rand)
		chisq(r, "top byte of the mask change", bytes, uniformProbs(256))
		r.Check(repeats == 0, "%d values of the mask changes repeat", repeats)
	})
	bytes, seen, repeats = make([]int, 256), map[T]bool{}, 0
	bp := w.params.BaseParams()
	// room for the rounding of the index, in steps
	ones := 0.0
	for _, x := range w.enc.SecretKey.LWEKey.Value {
		ones += signed(x)
	}
	drift := 0.5*ones + 1 + 0.5
	if ones > 60 {
		drift = 7*math.Sqrt((ones+2)/12) + 1.5
	}
	ks := 10 * bp.EstimateDefaultKeySwitchStdDev() / step
	room := float64(N)/(2*float64(p)) - drift - ks - 9.5*w.rand/step - 1
	// output noise
	br := bp.EstimateBlindRotateStdDev() + 4
	amp := 2 * float64(p) * c.ls * math.Sqrt(float64(N))
	mulErr := 0.0
	if !isPow2(p) {
		mulErr = float64(p) * float64(p) * amp
	}
	lo, hi := c.lt, math.Sqrt(c.lt*c.lt+(2.5*br)*(2.5*br)*(1+amp*amp))+mulErr
	lost := hi*9.5 > float64(scale)/2
	if room <= 0 {
		r.Obs("sets without room", 1)
		return
	}
	fns := fnSet(g, p, isPow2(p), 2)
	kinds := map[string]*stat{}
	var prev []T
	for i := 0; i < boots; i++ {
		fn := fns[i%len(fns)]
		m := g.IntN(p)
		kind := []string{"fresh", "noisy", "trivial", "public", "sanitized"}[g.IntN(5)]
		r.Case(fmt.Sprintf("%s sanitize %d f=%s m=%d %s", c.Name, i, fn.name, m, kind), func() {
			ct := w.enc.EncryptLWE(m)
			switch kind {
			case "trivial":
				ct.Clear()
				ct.Value[0] = T(m) * scale
			case "public":
				ct = tfhe.NewPublicEncryptor(bp, w.pk).EncryptLWE(m)
			case "sanitized":
				ct = s.SanitizeFunc(ct, func(x int) int { return x })
			}
			at := math.Abs(signed(refLWEPhase(w.key, ct.Value)-T(m)*scale)) / step
			if at > room {
				r.Obs("inputs without room", 1)
				return
			}
			if kind == "noisy" {
				ct.Value[0] += T(int64((room - at) * 0.98 * (2*g.Float64() - 1) * step))
			}
			a := s
			if g.IntN(3) == 0 {
				a = other
			}
			lut := a.GenLUT(fn.f)
			if allZero(lut.Value[0].Coeffs) { // judged separately
				fn = fns[1]
				lut = a.GenLUT(fn.f)
			}
			was, wasL := ct.Copy(), lut.Copy()
			var o tfhe.LWECiphertext[T]
			switch i % 6 {
			case 0:
				o = a.SanitizeFunc(ct, fn.f)
			case 1:
				o = dirtyLWE[T](g, N)
				a.SanitizeFuncTo(o, ct, fn.f)
			case 2:
				o = a.SanitizeLUT(ct, lut)
			case 3:
				o = dirtyLWE[T](g, N)
				a.SanitizeLUTTo(o, ct, lut)
			case 4:
				o = ct.Copy()
				a.SanitizeLUTTo(o, o, lut)
			case 5:
				o = ct.Copy()
				a.SanitizeFuncTo(o, o, fn.f)
			}
			r.Check(eqV(ct.Value, was.Value) && same(lut, wasL) == "", "an input changed")
			r.Obs("sanitizations", 1)
			want := posMod(fn.f(m), p)
			ph := refLWEPhase(w.key, o.Value)
			e := signed(ph - T(want)*scale)
			if math.Abs(e) > math.Exp2(float64(lw-2)) {
				e = signed(ph - T(want)*scale + T(1)<<(lw-1)) // the padding bit
			}
			if !lost {
				got := refDecode(ph, scale, p)
				r.Check(got == want && w.enc.DecryptLWE(o) == want, "decoded %d (library %d), want %d", got, w.enc.DecryptLWE(o), want)
				if got != want {
					return
				}
			}
			if kinds[kind] == nil {
				kinds[kind] = &stat{}
			}
			kinds[kind].add(e)
			r.Max("output noise / bound", math.Abs(e)/(9.5*hi))
			r.Check(math.Abs(e) <= 9.5*hi, "output noise %g for a bound of %g", e, 9.5*hi)
			mark(o.Value[1:])
			if prev != nil && c.lt > 1000 {
				r.Check(!eqV(prev, o.Value), "the output repeats")
			}
			prev = o.Value
			// once more on the same input
			if i%3 == 0 {
				o2 := other.SanitizeFunc(was, fn.f)
				mark(subV(o2.Value[1:], o.Value[1:]))
				r.Check(math.Abs(signed(refLWEPhase(w.key, o2.Value)-ph)) <= 2*9.5*hi+2, "two sanitizations differ in meaning")
				eq := 0
				for j := range o2.Value[1:] {
					if o2.Value[j+1] == o.Value[j+1] {
						eq++
					}
				}
				// a shorter key may not rotate at all, which leaves a mask of zeros
				r.Check(c.Lit.LWEDimension < 4 || eq <= 3+N/100, "two sanitizations of one input share %d of %d mask values", eq, N)
				r.Obs("repeated sanitizations", 1)
			}
		})
	}
	r.Case(c.Name+" zero function", func() {
		ct := w.enc.EncryptLWE(p - 1)
		o := s.SanitizeFunc(ct, func(int) int { return 0 })
		ph := refLWEPhase(w.key, o.Value)
		r.Check(lost || refDecode(ph, scale, p) == 0, "decoded %d, want 0", refDecode(ph, scale, p))
		r.Check(math.Abs(signed(ph)) <= 9.5*hi, "output noise %g for a bound of %g", signed(ph), 9.5*hi)
		r.Check(!allZero(o.Value[1:]), "the mask is all zero")
		if c.lt > 100 {
			r.Check(!eqV(o.Value, s.SanitizeFunc(ct, func(int) int { return 0 }).Value), "the output repeats")
		}
	})
	r.Case(c.Name+" output statistics", func() {
		all := stat{}
		for k, s := range kinds {
			all.n, all.sum, all.sq, all.peak = all.n+s.n, all.sum+s.sum, all.sq+s.sq, max(all.peak, s.peak)
			if s.n >= 30 {
				tol := 8 / math.Sqrt(2*float64(s.n))
				r.Check(s.rms() >= lo*(1-tol) && s.rms() <= hi*(1+tol), "%s inputs: output deviation %g, declared between %g and %g (%d samples)", k, s.rms(), lo, hi, s.n)
			}
		}
		if all.n >= 60 {
			tol := min(8/math.Sqrt(2*float64(all.n)), 0.9)
			r.Check(all.rms() >= lo*(1-tol), "output deviation %g, declared at least %g (%d samples)", all.rms(), lo, all.n)
			r.Obs("sets judged on output noise", 1)
		}
		if hi < 1.02*lo && all.n > 0 {
			all.declared(r, "output noise", math.Sqrt(lo*hi))
			r.Obs("sets judged on exact output noise", 1)
		}
		if c.Lit.LWEDimension >= 4 { // shorter keys visit few rotations: the masks depend on each other
			chisq(r, "top byte of sanitized masks", bytes, uniformProbs(256))
		}
		r.Check(repeats == 0, "%d mask values repeat", repeats)
	})
}

// x06Linear exposes the random linear combination: a table with one large entry (or a constant table) shows single coefficients
// (or the signed sum) of the multiplier.
func x06Linear[T TI](r *R, c x06Cfg[T], reps int) {
	r.SeedLib(c.Name + "lin")
	g := r.Rng
	N, p, lw := c.Lit.PolyRank, int(c.Lit.MessageModulus), logQ[T]()
	w := x06NewWorld(c)
	bp := w.params.BaseParams()
	step := math.Exp2(float64(lw - bitLen(uint64(N))))
	ones := 0.0
	for _, x := range w.enc.SecretKey.LWEKey.Value {
		ones += signed(x)
	}
	drift := 0.5*ones + 1.5 + (10*bp.EstimateDefaultKeySwitchStdDev()+9.5*w.rand)/step + 1
	br := 2.5*bp.EstimateBlindRotateStdDev() + 4
	sums := 2 * float64(p) * c.ls * math.Sqrt(float64(N)) // deviation of the signed sum
	noise := 9.5 * math.Sqrt(c.lt*c.lt+br*br*(1+sums*sums))
	V := lw - 2 - int(math.Ceil(math.Log2(10*sums+2)))
	if math.Exp2(float64(V)) < 4*noise || drift > float64(N)/4 {
		r.Obs("sets without room for the linear combination", 1)
		return
	}
	unit := T(1) << V
	read := func(o tfhe.LWECiphertext[T]) (int, bool) {
		ph := signed(refLWEPhase(w.key, o.Value))
		v := math.Round(ph / float64(unit))
		return int(v), math.Abs(ph-v*float64(unit)) <= noise
	}
	s := xtfhe.NewSanitizer(w.params, w.pk, w.evk)
	lut := tfhe.NewLUT(bp)
	r.Case(c.Name+" signed sum of the multiplier", func() {
		for i := range lut.Value[0].Coeffs {
			lut.Value[0].Coeffs[i] = unit
		}
		var st stat
		for i := 0; i < reps; i++ {
			a := s
			if i%2 == 1 {
				a = s.SafeCopy()
			}
			ct := tfhe.NewLWECiphertext(bp)
			ct.Value[0] = T(1) << (lw - 2) // the middle of the table
			neg := i%3 == 0
			if neg {
				ct.Value[0] = -ct.Value[0]
			}
			v, ok := read(a.SanitizeLUT(ct, lut))
			if neg {
				v = -v
			}
			r.Obs("linear combinations", 1)
			if !r.Check(ok && posMod(v, 2*p) == 1, "the signed sum is %d (near: %v), want 1 modulo %d", v, ok, 2*p) {
				return
			}
			st.add(float64(v))
		}
		// coefficients at odd places keep their mean: coefficient 0 has mean 0, so have the others
		st.declared(r, "signed sum", math.Sqrt(max(sums*sums-1.0/12, 0.1)))
	})
	r.Case(c.Name+" coefficients of the multiplier", func() {
		var st stat
		zero, lead := 0, make([]int, 19)
		cp := s.SafeCopy()
		for i := 0; i < reps; i++ {
			x := g.IntN(N)
			lut.Clear()
			lut.Value[0].Coeffs[x] = unit
			t := g.IntN(2 * N)
			if i%2 == 0 {
				t = x
			}
			ct := tfhe.NewLWECiphertext(bp)
			for j := range ct.Value {
				ct.Value[j] = T(g.Uint64())
			}
			ct.Value[0] += T(t)*T(step) - refLWEPhase(w.key, ct.Value)
			a := s
			if i/2%2 == 1 {
				a = cp
			}
			v, ok := read(a.SanitizeLUT(ct, lut))
			if !r.Check(ok, "the value is no multiple of the table entry") {
				return
			}
			d := posMod(t-x, 2*N)
			d = min(d, 2*N-d, posMod(d-N, 2*N), posMod(N-d, 2*N))
			res := posMod(v, 2*p)
			r.Obs("linear combinations", 1)
			switch {
			case res == 0:
				st.add(float64(v))
			case res == 1 || res == 2*p-1:
				zero++
				y := v
				if res != 1 {
					y = -v
				}
				lead[max(min((y-1)/(2*p), 9), -9)+9]++
				r.Check(float64(d) <= drift, "coefficient %d of the multiplier is %d modulo %d", d, v, 2*p)
				st.add(float64(v))
			default:
				r.Fail("coefficient of the multiplier is %d, want 0 or +-1 modulo %d", v, 2*p)
				return
			}
		}
		r.Obs("leading coefficients seen", zero)
		pr := make([]float64, 19)
		sum := 0.0
		ctr := -1 / float64(2*p)
		for x := -int(14*c.ls) - 2; x <= int(14*c.ls)+2; x++ {
			d := float64(x) - ctr
			f := math.Exp(-d * d / (2 * c.ls * c.ls))
			pr[max(min(x, 9), -9)+9] += f
			sum += f
		}
		for x := range pr {
			pr[x] /= sum
		}
		chisq(r, "multipliers behind the leading coefficient", lead, pr)
		st.declared(r, "coefficients", math.Sqrt(max(4*float64(p*p)*c.ls*c.ls-1.0/12, 0.1)))
	})
	// the re-randomization inside: a public key with body Q/8 shifts the index by multiples of an eighth of the turn
	for _, part := range []string{"body", "mask"} {
		r.Case(c.Name+" index shift by the "+part+" of the public key", func() {
			pk := x06Pub(N, T(1)<<(lw-3), 0)
			if part == "mask" {
				pk = x06Pub(N, 0, T(1)<<(lw-3))
			}
			a := xtfhe.NewSanitizer(w.params, pk, w.evk)
			lut.Clear()
			q := N / 4
			if drift > float64(q)/2-1 || noise > math.Exp2(float64(lw-2))/float64(p) {
				r.Obs("sets without room for index shifts", 1)
				return
			}
			for i := 0; i < q; i++ { // the first quarter of the table holds the message 1
				lut.Value[0].Coeffs[i] = T(1) << (lw - 1) / T(p)
			}
			ones, cnt := 0, make([]int, 8)
			for i := 0; i < reps; i++ {
				ct := tfhe.NewLWECiphertext(bp)
				ct.Value[0] = T(q/2) * T(step)
				o := a.SanitizeLUT(ct, lut)
				k := posMod(refDecodeSigned(refLWEPhase(w.key, o.Value), p), 2*p)
				switch k {
				case 0:
					cnt[0]++
				case 1:
					ones++
				case 2*p - 1:
					cnt[1]++
				default:
					r.Fail("decoded %d of a table of 0 and 1", k)
					return
				}
				r.Obs("index shifts", 1)
			}
			// shift by g mod 8: 0 keeps the entry, 4 negates it
			prob := wrapProbs(c.rs, 8)
			if part == "mask" {
				prob = make([]float64, 8)
				// the signed sum of h samples
				h := 0.0
				for _, x := range w.key {
					h += signed(x)
				}
				prob = wrapProbs(c.rs*math.Sqrt(h), 8)
			}
			chisq(r, "index shifts", []int{ones, cnt[1], cnt[0]}, []float64{prob[0], prob[4], 1 - prob[0] - prob[4]})
		})
	}
}

func allZero[T TI](v []T) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// scaleOf is the encoding step.
func scaleOf[T TI](p int) T { return divRoundQ(T(p)) }

// refDecodeSigned rounds a phase to multiples of Q/2p.
func refDecodeSigned[T TI](ph T, p int) int {
	return int(math.Round(signed(ph) / (math.Exp2(float64(logQ[T]())) / float64(2*p))))
}

// wrapProbs is the distribution modulo n of a centred discrete Gaussian.
func wrapProbs(std float64, n int) []float64 {
	p := make([]float64, n)
	s := 0.0
	k := int(14*std) + 2
	for x := -k; x <= k; x++ {
		v := math.Exp(-float64(x*x) / (2 * std * std))
		p[posMod(x, n)] += v
		s += v
	}
	for i := range p {
		p[i] /= s
	}
	return p
}

func init() {
	about("X06", "Cases: small sets of both widths and the shipped set. Re-randomization runs under a crafted public key that exposes each drawn value (declared deviations, independence between coefficients and calls, the same multiplier on body and mask) and under real keys (phase change of the declared variance given the opened key, uniform mask change). Sanitization: every message and function kind, every entry point, inputs fresh, noisy up to the interval, trivial, public-key encrypted or already sanitized; output decoded with the reference decoder, noise within the declared size whatever the input; masks uniform and unrelated between repetitions; the hidden linear combination exposed through tables of one entry or one value (1 modulo 2p at the front, 0 elsewhere, declared deviation); the re-randomization inside observed through public keys that shift the index.",
		"sets whose worst-case index error exceeds the interval are not decoded (counted)")
	needObs("X06", "exposed re-randomizations", 500)
	needObs("X06", "re-randomizations", 1500)
	needObs("X06", "sanitizations", 800)
	needObs("X06", "linear combinations", 1000)
	needObs("X06", "index shifts", 500)
	needObs("X06", "leading coefficients seen", 1500)
	needObs("X06", "sets judged on output noise", 10)
	needObs("X06", "sets judged on exact output noise", 1)
	run := func(name string, v []string, f func(r *R)) { reg("X06", name, v, vAll, f) }
	run("small32", vTwo, func(r *R) { x06Small[uint32](r) })
	run("small64", vTwo, func(r *R) { x06Small[uint64](r) })
	run("shipped", vAvx, func(r *R) {
		l := xtfhe.ParamsSanitizeBinary
		q := math.Exp2(64)
		c := x06Cfg[uint64]{Cfg[uint64]{"ParamsSanitizeBinary", l.BaseParams}, l.RandSigma * q, l.RandTau * q, l.LinEvalSigma * q, l.LinEvalTau * q}
		x06Exposed(r, c, 20)
		x06Real(r, c, r.Pick(200, 1000), r.Pick(60, 1500))
	})
	heavy("X06", "shipped", 10)
}

func x06Small[T TI](r *R) {
	cs := x06Fixed[T]()
	for i := 0; i < r.Pick(2, 30); i++ {
		cs = append(cs, x06Rand[T](r.Rng))
	}
	for _, c := range cs {
		x06Exposed(r, c, r.Pick(40, 300))
		x06Real(r, c, r.Pick(300, 3000), r.Pick(260, 1500))
		n := r.Pick(250, 3000)
		if c.ls < 1 {
			n = r.Pick(4000, 20000)
		}
		x06Linear(r, c, n)
	}
}
