package main

import (
	"math"
	"math/big"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// bfvCfgs are single-key sets fit for ring arithmetic: little noise, power-of-two and other message moduli.
func bfvCfgs[T TI](r *R, random int) []Cfg[T] {
	var out []Cfg[T]
	add := func(k, N int, p T) {
		c := mk[T](min(4, k*N), k, N, N, 1, p, 8, 2, 4, 4, oKS)
		if logQ[T]() == 32 {
			c = mk[T](min(4, k*N), k, N, N, 1, p, 5, 2, 4, 4, oKS)
			c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-30), math.Exp2(-30.5)
		} else {
			c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-48), math.Exp2(-50)
		}
		out = append(out, c)
	}
	add(1, 16, 2)
	add(1, 64, 4)
	add(2, 32, 8)
	add(3, 16, 4)
	add(1, 128, 16)
	add(4, 16, 2)
	add(6, 32, 4)
	if logQ[T]() == 64 {
		add(1, 32, 5)
		add(2, 64, 64)
	}
	for i := 0; i < random; i++ {
		add(1+r.Rng.IntN(4), 16<<r.Rng.IntN(4), T(2)<<r.Rng.IntN(5))
	}
	return out
}

// bfvGad draws a gadget for ring key switching.
func bfvGad[T TI](r *R) gad[T] {
	if logQ[T]() == 32 {
		return [](gad[T]){gadOf[T](3, 9), gadOf[T](4, 7), gadOf[T](2, 14), gadOf[T](5, 6), gadOf[T](1, 31)}[r.Rng.IntN(5)]
	}
	return [](gad[T]){gadOf[T](8, 6), gadOf[T](10, 5), gadOf[T](6, 9), gadOf[T](12, 4), gadOf[T](3, 21)}[r.Rng.IntN(5)]
}

// extKey is the quadratic key in the order of a tensor ciphertext.
func extKey[T TI](s []poly.Poly[T]) []poly.Poly[T] {
	out := append([]poly.Poly[T](nil), s...)
	for i := range s {
		for j := i; j < len(s); j++ {
			out = append(out, poly.Poly[T]{Coeffs: negaMul(s[i].Coeffs, s[j].Coeffs)})
		}
	}
	return out
}

// refTensor is the exact scaled tensor product of two ciphertexts.
func refTensor[T TI](a, b tfhe.GLWECiphertext[T], scale T) []poly.Poly[T] {
	k := len(a.Value) - 1
	N := len(a.Value[0].Coeffs)
	lift := func(p poly.Poly[T]) []*big.Int {
		o := make([]*big.Int, N)
		for i, x := range p.Coeffs {
			v := new(big.Int).SetUint64(uint64(x))
			if x>>(logQ[T]()-1) == 1 {
				v.Sub(v, new(big.Int).Lsh(one, uint(logQ[T]())))
			}
			o[i] = v
		}
		return o
	}
	var la, lb [][]*big.Int
	for i := range a.Value {
		la, lb = append(la, lift(a.Value[i])), append(lb, lift(b.Value[i]))
	}
	acc := func(o []*big.Int, x, y []*big.Int) {
		t := new(big.Int)
		for i := range x {
			if x[i].Sign() == 0 {
				continue
			}
			for j := range y {
				t.Mul(x[i], y[j])
				if i+j < N {
					o[i+j].Add(o[i+j], t)
				} else {
					o[i+j-N].Sub(o[i+j-N], t)
				}
			}
		}
	}
	sc := new(big.Int).SetUint64(uint64(scale))
	mod := new(big.Int).Lsh(one, uint(logQ[T]()))
	var out []poly.Poly[T]
	for i := 0; i <= k; i++ {
		for j := i; j <= k; j++ {
			o := make([]*big.Int, N)
			for t := range o {
				o[t] = new(big.Int)
			}
			acc(o, la[i], lb[j])
			if i != j {
				acc(o, la[j], lb[i])
			}
			p := poly.Poly[T]{Coeffs: make([]T, N)}
			for t := range o { // round to nearest
				o[t].Lsh(o[t], 1)
				o[t].Add(o[t], sc)
				o[t].Div(o[t], new(big.Int).Lsh(sc, 1))
				p.Coeffs[t] = T(o[t].Mod(o[t], mod).Uint64())
			}
			out = append(out, p)
		}
	}
	return out
}

// tensorTol bounds the rounding of a tensor component.
func tensorTol[T TI](a, b tfhe.GLWECiphertext[T], scale T) float64 {
	na, nb := 0.0, 0.0
	for i := range a.Value {
		_, x := norms(a.Value[i].Coeffs)
		_, y := norms(b.Value[i].Coeffs)
		na, nb = max(na, x), max(nb, y)
	}
	N := float64(len(a.Value[0].Coeffs))
	q := math.Exp2(float64(logQ[T]()))
	t := 16 * math.Exp2(-53) * math.Log2(N) * math.Sqrt(na) * math.Sqrt(nb) / float64(scale)
	// the fractional part of a result much larger than the modulus
	t += 4 * math.Exp2(-53) * math.Sqrt(na) * math.Sqrt(nb) / float64(scale)
	return t + 2 + q*math.Exp2(-52)
}

// weight is the norm of (1, key) that random errors of a ciphertext are multiplied by.
func keyWeight[T TI](key []poly.Poly[T]) (l1, l2 float64) {
	l1 = 1
	s := 1.0
	for i := range key {
		a, b := norms(key[i].Coeffs)
		l1 += a
		s += b
	}
	return l1, math.Sqrt(s)
}

// kskBudget opens a ring key switching key from the given components, checks its errors against the declared
// deviation, and returns the error its use may add.
func kskBudget[T TI](r *R, what string, pe *poly.Evaluator[T], key, from []poly.Poly[T], ksk tfhe.GLWEKeySwitchKey[T], gd gad[T], std float64) (b budget, ok bool) {
	N := len(key[0].Coeffs)
	base := float64(T(1) << gd.logB)
	if !r.Check(len(ksk.Value) == len(from) && ksk.GadgetParams == gd.gp, "%s: %d components, want %d", what, len(ksk.Value), len(from)) {
		return b, false
	}
	lim := 9.5*std + fftTol[T](N)*float64(len(key)+1)*8 + 1
	for i := range from {
		if !r.Check(len(ksk.Value[i].Value) == gd.level, "%s: component %d has %d levels", what, i, len(ksk.Value[i].Value)) {
			return b, false
		}
		for l := range ksk.Value[i].Value {
			ph := refGLWEPhase(key, invFFTGLWE(pe, ksk.Value[i].Value[l]).Value)
			if d := maxDiff(ph, scaleV(from[i].Coeffs, gd.q(l))); d > lim {
				r.Fail("%s: component %d level %d is %g off (declared deviation %g)", what, i, l, d, std)
				return b, false
			}
			r.Obs("key rows", 1)
		}
		l1, l2 := glevErr(pe, key, ksk.Value[i], gd, from[i].Coeffs)
		a1, a2 := norms(from[i].Coeffs)
		b.lev(gd.half(), base, a1, a2, l1, l2)
	}
	return b, true
}

// bfvWorld is a key set for ring arithmetic.
type bfvWorld[T TI] struct {
	c      Cfg[T]
	params tfhe.Parameters[T]
	enc    *tfhe.Encryptor[T]
	kg     *xtfhe.BFVKeyGenerator[T]
	pe     *poly.Evaluator[T]
	key    []poly.Poly[T]
	ext    []poly.Poly[T]
	gd     gad[T]
}

func newBfvWorld[T TI](r *R, c Cfg[T]) *bfvWorld[T] {
	w := &bfvWorld[T]{c: c, params: c.Lit.Compile(), gd: bfvGad[T](r)}
	w.enc = tfhe.NewEncryptor(w.params)
	w.kg = xtfhe.NewBFVKeyGenerator(w.params, w.enc.SecretKey)
	if r.Rng.IntN(2) == 0 {
		w.kg = w.kg.SafeCopy()
	}
	w.pe = poly.NewEvaluator[T](c.Lit.PolyRank)
	w.key = w.enc.SecretKey.GLWEKey.Value
	w.ext = extKey(w.key)
	return w
}

// dirtyGLWEKSK is a ring key switching key full of junk.
func dirtyGLWEKSK[T TI](g *rand.Rand, in, k, N int, gp tfhe.GadgetParameters[T]) tfhe.GLWEKeySwitchKey[T] {
	ksk := tfhe.NewGLWEKeySwitchKeyCustom(in, k, N, gp)
	for i := range ksk.Value {
		ksk.Value[i] = dirtyFFTGLev(g, k, N, gp)
	}
	return ksk
}
