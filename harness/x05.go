package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// x05Odd rounds x*2N/Q to the nearest odd integer.
func x05Odd[T TI](x T, N int) int {
	v := new(big.Int).Mul(bigOf(uint64(x)), big.NewInt(int64(2*N)))
	v.Rsh(v, uint(logQ[T]())) // floor
	return int(v.Int64()) | 1
}

func x05One[T TI](r *R, c FCfg[T], keys, rot, boots int) {
	r.SeedLib(c.Name)
	g := r.Rng
	lit := c.Lit.BaseParams
	n, k, N, p := lit.LWEDimension, lit.GLWERank, lit.PolyRank, int(lit.MessageModulus)
	lw := logQ[T]()
	gb := gadOf[T](bitLen(lit.BlindRotateParams.Base)-1, lit.BlindRotateParams.Level)
	std := glweStd(lit)
	sdev := c.Lit.SecretKeyStdDev * math.Exp2(float64(lw))
	step := lw - bitLen(uint64(N)) // a unit of the index
	scale := divRoundQ(T(p))
	for kk := 0; kk < keys; kk++ {
		name := fmt.Sprintf("%s key %d", c.Name, kk)
		var params xtfhe.FHEWParameters[T]
		var enc *xtfhe.FHEWEncryptor[T]
		var evk xtfhe.FHEWEvaluationKey[T]
		var ev *xtfhe.FHEWEvaluator[T]
		pe := poly.NewEvaluator[T](N)
		var small, large []T
		var ring []poly.Poly[T]
		var kw float64
		var perm [2]budget // largest of the Galois keys
		var ext []budget
		ready := false
		r.Case(name+" keys", func() {
			params = c.Lit.Compile()
			r.Check(params.WindowSize() == c.Lit.WindowSize && params.SecretKeyStdDev() == c.Lit.SecretKeyStdDev && math.Abs(params.SecretKeyStdDevQ()-sdev) < 1e-9*sdev, "parameters report window %d, deviation %g", params.WindowSize(), params.SecretKeyStdDevQ())
			enc = xtfhe.NewFHEWEncryptor(params)
			switch kk % 3 {
			case 1:
				enc = xtfhe.NewFHEWEncryptorWithKey(params, enc.GenSecretKey())
			case 2:
				enc = enc.SafeCopy()
			}
			sk := enc.SecretKey
			small, large, ring = sk.LWEKey.Value, sk.LWELargeKey.Value, sk.GLWEKey.Value
			if !r.Check(len(small) == n && len(large) == k*N && len(ring) == k, "secret key of %d, %d, %d components", len(small), len(large), len(ring)) {
				return
			}
			for i := range large {
				r.Check(large[i] == ring[i/N].Coeffs[i%N] && (i >= n || small[i] == large[i]), "views of the secret key differ at %d", i)
				if math.Abs(signed(large[i])) > 9.5*sdev+1 {
					r.Fail("key coefficient %g for a deviation of %g", signed(large[i]), sdev)
				}
			}
			_, kw = keyWeight(ring)
			if kk%2 == 0 {
				evk = enc.GenEvalKeyParallel()
			} else {
				evk = enc.GenEvalKey()
			}
			var s1, s2 stat
			evkCheckBy(r, Cfg[T]{c.Name, lit}, sk, tfhe.EvaluationKey[T]{BlindRotateKey: evk.BlindRotateKey, KeySwitchKey: evk.KeySwitchKey}, 400, &s1, &s2, func(s T, p []T) []T { return monoMul(p, int(signed(s))) })
			if !r.Check(len(evk.GaloisKey) == c.Lit.WindowSize+1, "%d Galois keys, want %d", len(evk.GaloisKey), c.Lit.WindowSize+1) {
				return
			}
			d := 1
			for i := range evk.GaloisKey {
				dd := -5
				if i > 0 {
					d = d * 5 % (2 * N)
					dd = d
				}
				var from []poly.Poly[T]
				for j := range ring {
					from = append(from, polyOf(autoPoly(ring[j].Coeffs, dd)))
				}
				b, ok := kskBudget(r, fmt.Sprintf("Galois key %d", i), pe, ring, from, evk.GaloisKey[i], gb, std)
				if !ok {
					return
				}
				perm[0].worst, perm[0].vr, perm[0].bias = max(perm[0].worst, b.worst), max(perm[0].vr, b.vr), max(perm[0].bias, b.bias)
			}
			for i := range evk.BlindRotateKey.Value {
				var b budget
				for j := range evk.BlindRotateKey.Value[i].Value {
					mm := make([]T, N)
					mm[0] = 1
					if j > 0 {
						mm = ring[j-1].Coeffs
					}
					mm = monoMul(mm, int(signed(small[i])))
					l1, l2 := glevErr(pe, ring, evk.BlindRotateKey.Value[i].Value[j], gb, mm)
					a1, a2 := norms(mm)
					b.lev(gb.half(), float64(T(1)<<gb.logB), a1, a2, l1, l2)
				}
				ext = append(ext, b)
			}
			ev = xtfhe.NewFHEWEvaluator(params, evk)
			if g.IntN(2) == 0 {
				ev = ev.SafeCopy()
			}
			ready = true
		})
		if !ready {
			return
		}
		// the modulus switch
		r.Case(name+" modulus switch", func() {
			for i := 0; i < 2000; i++ {
				x := edgeT[T](g)
				if i%2 == 0 {
					x = T(g.IntN(2*N))<<step + T(g.IntN(5)) - 2
				}
				got := ev.ModSwitch(x)
				// |got*Q/2N - x| <= Q/2N
				d := math.Abs(signed(T(got)<<step - x))
				r.Obs("modulus switches", 1)
				if got&1 == 0 || got < 0 || got >= 2*N || d > math.Exp2(float64(step)) {
					r.Fail("%d switches to %d of %d: %g index units away", x, got, 2*N, d/math.Exp2(float64(step)))
					return
				}
			}
		})
		// rotation
		fft := (fftProdTol[T](N, gb.level*(k+1), float64(T(1)<<gb.logB)) * 2) * 4 * kw
		total := budget{}
		for i := range ext {
			total.worst += ext[i].worst
			total.vr += ext[i].vr
			total.bias += ext[i].bias
		}
		perms := float64(2*(min(n, N/2)+(N/2)/c.Lit.WindowSize) + 3)
		total.worst += perms * perm[0].worst
		total.vr += perms * perm[0].vr
		total.bias += perms * perm[0].bias
		bd := total.bound(true, fft*(float64(n)+perms))
		lut := tfhe.NewLUT(params.BaseParams())
		for i := 0; i < rot; i++ {
			r.Case(fmt.Sprintf("%s rotation %d", name, i), func() {
				for j := range lut.Value[0].Coeffs {
					lut.Value[0].Coeffs[j] = T(g.Uint64())
				}
				keep := lut.Copy()
				ct := tfhe.LWECiphertext[T]{Value: make([]T, n+1)}
				jitter := func() T { return T(g.Uint64())%(T(1)<<(step-1)-2) - T(1)<<(step-2) }
				kind := g.IntN(8)
				for j := range ct.Value {
					o := 2*g.IntN(N) + 1
					switch kind {
					case 0: // few values, so that indices coincide
						o = []int{1, 2*N - 1, 5, 2*N - 5, N + 1, N - 1}[g.IntN(6)]
					case 1:
						o = 1
					case 2:
						o = 2*N - 1
					case 3: // all in one place, the last words zero
						if j > 0 {
							ct.Value[j] = ct.Value[0]
							if g.IntN(3) == 0 {
								ct.Value[j] = -T(1) << (step - 1)
							}
							continue
						}
					}
					ct.Value[j] = -(T(o)<<step + jitter())
				}
				odd := func(x T) int { // the centre of the interval it was drawn from
					return int((x+T(1)<<(step-1))>>step) % (2 * N)
				}
				phi := fhewSum(small, odd, ct.Value)
				was := ct.Copy()
				o := dirtyGLWE[T](g, k, N)
				if g.IntN(2) == 0 {
					o = ev.BlindRotate(ct, lut)
				} else {
					ev.BlindRotateTo(o, ct, lut)
				}
				e := maxDiff(refGLWEPhase(ring, o.Value), monoMul(lut.Value[0].Coeffs, posMod(phi, 2*N)))
				r.Max("rotation error / bound", e/bd)
				r.Obs("rotations", 1)
				r.Check(e <= bd, "table rotated by %d is %g off, bound %g", phi, e, bd)
				r.Check(eqV(was.Value, ct.Value), "the ciphertext changed")
				r.Check(same(keep, lut) == "", "the table changed")
			})
		}
		// bootstrapping
		lk := keyFor(params.BaseParams(), enc.SecretKey)
		drift := 1.0 // the worst rounding of the index
		for _, s := range small {
			drift += math.Abs(signed(s))
		}
		room := float64(N)/(2*float64(p)) - drift - 1
		ksErr := 10 * params.BaseParams().EstimateDefaultKeySwitchStdDev() * (1 + sdev) / math.Exp2(float64(step))
		if n > 100 { // a shipped set: rounding errors do not add up
			s := 0.0
			for _, x := range small {
				s += signed(x) * signed(x)
			}
			room = float64(N)/(2*float64(p)) - 1 - 7*math.Sqrt((s+1)/3)
		}
		fns := fnSet(g, p, isPow2(p), 2)
		for i := 0; i < boots; i++ {
			fn := fns[i%len(fns)]
			m := i / len(fns) % p
			r.Case(fmt.Sprintf("%s bootstrap %d f=%s m=%d", name, i, fn.name, m), func() {
				ct := enc.EncryptLWE(m)
				in := math.Abs(signed(refLWEPhase(lk, ct.Value)-T(m)*scale)) / math.Exp2(float64(step))
				if room-ksErr-in <= 0 {
					r.Obs("bootstraps without room", 1)
					return
				}
				if i%3 == 1 { // a noisy one
					ct.Value[0] += T(int64((room - ksErr - in) * 0.95 * (2*g.Float64() - 1) * math.Exp2(float64(step))))
				}
				var o tfhe.LWECiphertext[T]
				switch i % 4 {
				case 0:
					o = ev.BootstrapFunc(ct, fn.f)
				case 1:
					o = dirtyLWE[T](g, len(lk))
					ev.BootstrapFuncTo(o, ct, fn.f)
				case 2:
					o = ev.BootstrapLUT(ct, ev.GenLUT(fn.f))
				case 3:
					o = ct
					ev.BootstrapLUTTo(o, o, ev.GenLUT(fn.f))
				}
				want := posMod(fn.f(m), p)
				ph := refLWEPhase(lk, o.Value)
				r.Obs("bootstraps", 1)
				r.Check(refDecode(ph, scale, p) == want, "decoded %d want %d", refDecode(ph, scale, p), want)
				r.Check(enc.DecryptLWE(o) == want, "library decryption %d want %d", enc.DecryptLWE(o), want)
				e := min(math.Abs(signed(ph-T(want)*scale)), math.Abs(signed(ph-T(want)*scale+T(1)<<(lw-1))))
				tol := bd
				if lit.BootstrapOrder == oBR {
					tol += 10*params.BaseParams().EstimateDefaultKeySwitchStdDev()*(1+sdev) + drift*4
				}
				r.Max("output error / step", e/float64(scale))
				r.Check(e <= tol || p&(p-1) != 0, "output noise %g, bound %g", e, tol)
			})
		}
	}
}

// x05Secret judges the distribution of secret keys.
func x05Secret[T TI](r *R, std float64, draws int) {
	c := fixedFhew[T]()[1]
	c.Lit.SecretKeyStdDev = std / math.Exp2(float64(logQ[T]()))
	r.SeedLib(fmt.Sprint("secret", std))
	r.Case(fmt.Sprintf("u%d secret key deviation %g", logQ[T](), std), func() {
		enc := xtfhe.NewFHEWEncryptor(c.Lit.Compile())
		n, sum, sq := 0.0, 0.0, 0.0
		for i := 0; i < draws; i++ {
			for _, x := range enc.GenSecretKey().LWELargeKey.Value {
				n++
				sum += signed(x)
				sq += signed(x) * signed(x)
			}
		}
		v := std*std + 1.0/12
		r.Obs("key coefficients", int(n))
		r.Check(math.Abs(sum/n) < 7*math.Sqrt(v/n), "mean %g of %g coefficients of deviation %g", sum/n, n, std)
		r.Check(math.Abs(sq/n-v) < 7*math.Sqrt(2/n)*v+0.1*boolF(std < 0.8), "variance %g of coefficients of variance %g", sq/n, v)
	})
}

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func init() {
	about("X05", "Cases: small sets over ranks 1-3, both orders, key deviations 0.5-3.5, windows from 1 to beyond the cycle of the automorphisms, and the shipped set; keys generated in sequence and in parallel are opened row by row (monomials of the secret, permuted secrets); rotation of random tables by ciphertexts with random, coinciding and corner masks compared coefficient by coefficient with the schoolbook rotation within a bound computed from the opened keys; modulus switch to the nearest odd index; bootstraps of all messages and functions with fresh and noisy inputs; secret key statistics.",
		"sets whose worst-case rounding exceeds the interval for the drawn key are not decoded (counted)")
	needObs("X05", "rotations", 300)
	needObs("X05", "bootstraps", 300)
	needObs("X05", "modulus switches", 20000)
	needObs("X05", "key coefficients", 20000)
	run := func(name string, v []string, f func(r *R)) { reg("X05", name, v, vAll, f) }
	run("small32", vTwo, func(r *R) {
		for _, c := range fixedFhew[uint32]() {
			x05One(r, c, r.Pick(2, 12), r.Pick(12, 60), r.Pick(24, 100))
		}
		for i := 0; i < r.Pick(3, 40); i++ {
			x05One(r, randFhew[uint32](r.Rng), 2, 12, 24)
		}
		x05Secret[uint32](r, 3, 200)
	})
	run("small64", vTwo, func(r *R) {
		for _, c := range fixedFhew[uint64]() {
			x05One(r, c, r.Pick(2, 12), r.Pick(12, 60), r.Pick(24, 100))
		}
		for i := 0; i < r.Pick(3, 40); i++ {
			x05One(r, randFhew[uint64](r.Rng), 2, 12, 24)
		}
		for _, s := range []float64{0.5, 1, 3.2, 10} {
			x05Secret[uint64](r, s, 200)
		}
	})
	run("shipped", vAvx, func(r *R) {
		x05One(r, FCfg[uint64]{"ParamsFHEWBinary", xtfhe.ParamsFHEWBinary}, r.Pick(1, 4), r.Pick(6, 60), r.Pick(12, 100))
	})
	heavy("X05", "shipped", 10)
}
