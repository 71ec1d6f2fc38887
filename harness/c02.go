package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
)

// c02Chain drives a long computation that mixes additions and bootstraps, and watches the error of every output.
func c02Chain[T TI](r *R, c Cfg[T], steps int, slack float64, worst bool) {
	r.SeedLib(c.Name)
	g := r.Rng
	params := c.Lit.Compile()
	enc := tfhe.NewEncryptor(params)
	evk := enc.GenEvalKeyParallel()
	ev := tfhe.NewEvaluator(params, evk)
	p := int(params.MessageModulus())
	key := keyFor(params, enc.SecretKey)
	scale := params.Scale()
	L := float64(c.Lit.LUTSize)
	if L == 0 {
		L = float64(c.Lit.PolyRank)
	}
	unit := math.Exp2(float64(logQ[T]())) / (2 * L)
	est := params.EstimateBlindRotateStdDev()
	if c.Lit.BootstrapOrder == oBR {
		est = math.Hypot(est, params.EstimateDefaultKeySwitchStdDev())
	}
	bc := float64(c.Lit.LWEDimension)
	if c.Lit.BlockSize > 1 {
		bc = float64(c.Lit.LWEDimension / c.Lit.BlockSize)
	}
	room := 0.0
	if worst {
		room = math.Floor(float64(scale)/2 - ((bc+1)/2+2)*unit)
	}
	type val struct {
		ct    tfhe.LWECiphertext[T]
		m     int
		depth int
	}
	pool := []val{}
	for i := 0; i < 3; i++ {
		m := g.IntN(p)
		pool = append(pool, val{enc.EncryptLWE(m), m, 0})
	}
	var fresh, deep, loud stat
	for s := 0; s < steps; s++ {
		a := pool[g.IntN(len(pool))]
		b := pool[g.IntN(len(pool))]
		if s%3 == 0 { // always extend the deepest value
			for _, v := range pool {
				if v.depth > a.depth {
					a = v
				}
			}
		}
		tab := randIntVec(g, p, p)
		f := func(x int) int { return tab[x] }
		r.Case(fmt.Sprintf("%s step %d depth %d", c.Name, s, a.depth), func() {
			in, m := a.ct, a.m
			kind := "direct"
			switch g.IntN(5) {
			case 0:
				if a.m+b.m < p && !worst || a.m+b.m < p && room > 8*est {
					in, m = ev.AddLWE(a.ct, b.ct), a.m+b.m
					kind = "sum"
				}
			case 1:
				d := g.IntN(p - a.m)
				in, m = ev.AddPlainLWE(a.ct, ev.EncodeLWE(d)), a.m+d
				kind = "plain"
			case 2: // an input as noisy as decoding tolerates
				if worst && room > 0 {
					e := T(int64(room))
					if g.IntN(2) == 0 {
						e = T(g.Uint64() % uint64(room+1))
					}
					if g.IntN(2) == 0 {
						e = -e
					}
					in, m = a.ct.Copy(), a.m
					in.Value[0] += T(m)*scale - refLWEPhase(key, in.Value) + e
					kind = "loud"
				}
			case 3:
				m = g.IntN(p)
				in = enc.EncryptLWE(m)
				kind = "fresh"
			}
			if worst && g.IntN(3) == 0 {
				in = in.Copy()
				if recraft(g, key, in, params.LUTSize()) != "" {
					r.Obs("special masks", 1)
				}
			}
			var o tfhe.LWECiphertext[T]
			if g.IntN(2) == 0 {
				o = ev.BootstrapFunc(in, f)
			} else {
				o = ev.BootstrapLUT(in, ev.GenLUT(f))
			}
			ph := refLWEPhase(key, o.Value)
			r.Check(refDecode(ph, scale, p) == tab[m], "%s input: decoded %d want %d", kind, refDecode(ph, scale, p), tab[m])
			r.Check(enc.DecryptLWE(o) == tab[m], "%s input: decrypted %d want %d", kind, enc.DecryptLWE(o), tab[m])
			e := signed(ph - T(tab[m])*scale)
			switch kind {
			case "loud":
				loud.add(e)
			case "fresh":
				fresh.add(e)
			default:
				deep.add(e)
			}
			r.Check(math.Abs(e) <= 9*slack*est+2, "%s input: error %g of estimated deviation %g", kind, e, est)
			v := val{o, tab[m], a.depth + 1}
			if len(pool) < 4 {
				pool = append(pool, v)
			} else {
				pool[g.IntN(len(pool))] = v
			}
			r.Max("depth", float64(v.depth))
			r.Obs("chained bootstraps", 1)
		})
	}
	r.Case(c.Name+" error", func() {
		for _, x := range []struct {
			l string
			s *stat
		}{{"fresh", &fresh}, {"deep", &deep}, {"loud", &loud}} {
			if x.s.n < 8 {
				continue
			}
			q := x.s.rms() / math.Hypot(est, 1)
			r.Max(fmt.Sprintf("deviation / estimate, %s inputs", x.l), q)
			r.Check(q <= slack*(1+4/math.Sqrt(2*float64(x.s.n))), "%s inputs: output deviation %g, estimated %g (%d samples)", x.l, x.s.rms(), est, x.s.n)
		}
	})
}

func init() {
	about("C02", "a case is one step of a computation: a value taken from a pool (preferring the deepest), optionally summed with another, shifted by a plaintext, replaced by a fresh encryption or pushed to the edge of the tolerated error, then bootstrapped with a random function; every output is decoded with the secret key and its error judged against the parameter set's own estimate, separately for fresh, deep and noisy inputs",
		"estimates of the tiny parameter sets are averages over keys, so their measured deviations get a factor of slack; shipped sets get 1.2")
	needObs("C02", "chained bootstraps", 2000)
	reg("C02", "fixed32", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint32]() {
			c02Chain(r, c, r.Pick(60, 600), 3, true)
		}
	})
	reg("C02", "fixed64", vTwo, vAll, func(r *R) {
		for _, c := range fixedCfgs[uint64]() {
			c02Chain(r, c, r.Pick(60, 600), 3, true)
		}
	})
	reg("C02", "rand32", vTwo, vAll, func(r *R) {
		for i := 0; i < r.Pick(12, 200); i++ {
			c02Chain(r, randCfg[uint32](r.Rng), 50, 3, true)
		}
	})
	reg("C02", "rand64", vTwo, vAll, func(r *R) {
		for i := 0; i < r.Pick(12, 200); i++ {
			c02Chain(r, randCfg[uint64](r.Rng), 50, 3, true)
		}
	})
	for i, c := range shipped32() {
		_ = i
		reg("C02", c.Name, vAvx, vAll, func(r *R) { c02Chain(r, c, r.Pick(150, 1500), 1.2, false) })
	}
	for i, c := range shipped64() {
		q := vAvx
		if i > 4 {
			q = vNone
		}
		reg("C02", c.Name, q, vAll, func(r *R) { c02Chain(r, c, r.Pick(100, 300), 1.2, false) })
	}
}
