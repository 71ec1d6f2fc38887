package main

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// pubKeyErr holds a public key and returns what the noise of an encryption under the public key is, given that key: the mean
// and variance of the scalar error, and the same for every coefficient of the ring error.
type pubKeyErr[T TI] struct {
	pk         tfhe.PublicKey[T]
	lMean, lVr float64
	gMean, gVr []float64
}

func pubAnalyse[T TI](r *R, c Cfg[T], enc *tfhe.Encryptor[T], pk tfhe.PublicKey[T], st *stat) pubKeyErr[T] {
	N, k := c.Lit.PolyRank, c.Lit.GLWERank
	std := glweStd(c.Lit)
	sk := enc.SecretKey.GLWEKey.Value
	hw := 0.0
	rev := make([]poly.Poly[T], k)
	for i := range sk {
		rev[i] = poly.Poly[T]{Coeffs: make([]T, N)}
		for j, x := range sk[i].Coeffs {
			hw += float64(x)
			rev[i].Coeffs[N-1-j] = x
		}
	}
	out := pubKeyErr[T]{pk: pk, gMean: make([]float64, N), gVr: make([]float64, N)}
	base := std * std * (1 + hw)
	out.lVr = base
	for i := range out.gVr {
		out.gVr[i] = base
	}
	if !r.Check(len(pk.LWEKey.Value) == k && len(pk.GLWEKey.Value) == k, "public key with %d and %d rows, want %d", len(pk.LWEKey.Value), len(pk.GLWEKey.Value), k) {
		return out
	}
	for i := 0; i < k; i++ {
		e := refGLWEPhase(rev, pk.LWEKey.Value[i].Value)
		for _, x := range e {
			s := signed(x)
			st.add(s)
			out.lMean += s / 2
			out.lVr += s * s / 4
		}
		e = refGLWEPhase(sk, pk.GLWEKey.Value[i].Value)
		sum := 0.0
		for _, x := range e {
			st.add(signed(x))
			sum += signed(x) * signed(x)
		}
		for cc := 0; cc < N; cc++ {
			m := 0.0
			for l, x := range e {
				if l <= cc {
					m += signed(x)
				} else {
					m -= signed(x)
				}
			}
			out.gMean[cc] += m / 2
			out.gVr[cc] += sum / 4
		}
	}
	r.Obs("public keys", 1)
	return out
}

// anyMsgs draws a message vector of any length.
func anyMsgs[T TI](r *R, N, p int) []int {
	g := r.Rng
	v := make([]int, []int{N, N, 0, 1, N / 2, N - 1, N + 5, 2 * N}[g.IntN(8)])
	for i := range v {
		switch g.IntN(4) {
		case 0:
			v[i] = int(g.Int64())
		case 1:
			v[i] = -g.IntN(3 * p)
		default:
			v[i] = g.IntN(p)
		}
	}
	return v
}
