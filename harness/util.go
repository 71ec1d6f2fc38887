package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// TI is the torus integer constraint.
type TI interface{ uint32 | uint64 }

func logQ[T TI]() int { var x T; return int(unsafe.Sizeof(x)) * 8 }

// signed interprets x as a centred representative.
func signed[T TI](x T) float64 {
	if logQ[T]() == 32 {
		return float64(int32(x))
	}
	return float64(int64(x))
}

// absT is |x| for the centred representative.
func absT[T TI](x T) T {
	if x>>(logQ[T]()-1) == 1 {
		return -x
	}
	return x
}

// ---------- reference (schoolbook) phase computations, independent of library arithmetic ----------

func refLWEPhase[T TI](sk, ct []T) T {
	if len(ct) != len(sk)+1 {
		panic(fmt.Sprintf("refLWEPhase: ct len %d, sk len %d", len(ct), len(sk)))
	}
	p := ct[0]
	for i := range sk {
		p += sk[i] * ct[i+1]
	}
	return p
}

// negaMulAcc computes acc += a*b in Z_q[X]/(X^N+1); cheap when b is sparse.
func negaMulAcc[T TI](acc, a, b []T) {
	N := len(a)
	for j, bj := range b {
		if bj == 0 {
			continue
		}
		for i := 0; i < N-j; i++ {
			acc[i+j] += bj * a[i]
		}
		for i := N - j; i < N; i++ {
			acc[i+j-N] -= bj * a[i]
		}
	}
}

func negaMul[T TI](a, b []T) []T {
	out := make([]T, len(a))
	negaMulAcc(out, a, b)
	return out
}

func refGLWEPhase[T TI](sk []poly.Poly[T], ct []poly.Poly[T]) []T {
	if len(ct) != len(sk)+1 {
		panic("refGLWEPhase: rank mismatch")
	}
	out := append([]T(nil), ct[0].Coeffs...)
	for i := range sk {
		negaMulAcc(out, ct[i+1].Coeffs, sk[i].Coeffs)
	}
	return out
}

// monoMul returns X^d * p.
func monoMul[T TI](p []T, d int) []T {
	N := len(p)
	d = ((d % (2 * N)) + 2*N) % (2 * N)
	out := make([]T, N)
	for i := range p {
		j := (i + d) % (2 * N)
		if j >= N {
			out[j-N] = -p[i]
		} else {
			out[j] = p[i]
		}
	}
	return out
}

// autoPoly returns p(X^d), d odd.
func autoPoly[T TI](p []T, d int) []T {
	N := len(p)
	out := make([]T, N)
	for i := range p {
		j := ((i*d)%(2*N) + 2*N) % (2 * N)
		if j >= N {
			out[j-N] = -p[i]
		} else {
			out[j] = p[i]
		}
	}
	return out
}

func addV[T TI](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] + b[i]
	}
	return o
}
func subV[T TI](a, b []T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] - b[i]
	}
	return o
}
func scaleV[T TI](a []T, c T) []T {
	o := make([]T, len(a))
	for i := range a {
		o[i] = a[i] * c
	}
	return o
}

// maxDiff returns the largest centred |a-b| as float.
func maxDiff[T TI](a, b []T) float64 {
	if len(a) != len(b) {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a {
		if d := float64(absT(a[i] - b[i])); d > m {
			m = d
		}
	}
	return m
}

func eqV[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func randT[T TI](g *rand.Rand) T { return T(g.Uint64()) }

// edgeT draws from a distribution heavy on edge values.
func edgeT[T TI](g *rand.Rand) T {
	w := logQ[T]()
	switch g.IntN(8) {
	case 0:
		return 0
	case 1:
		return ^T(0)
	case 2:
		return T(1) << (w - 1)
	case 3:
		return T(1)<<(w-1) - 1
	case 4:
		return T(1) << g.IntN(w)
	case 5:
		return (T(1) << g.IntN(w)) - 1
	default:
		return T(g.Uint64())
	}
}

func randVec[T TI](g *rand.Rand, n int) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = T(g.Uint64())
	}
	return v
}

func randIntVec(g *rand.Rand, n, mod int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = g.IntN(mod)
	}
	return v
}

func polyOf[T TI](v []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: append([]T(nil), v...)} }

func posMod(x, m int) int { return ((x % m) + m) % m }

func bigOf(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// meanStd returns mean and (zero-centred) root mean square.
func meanStd(x []float64) (mean, rms float64) {
	for _, v := range x {
		mean += v
		rms += v * v
	}
	mean /= float64(len(x))
	rms = math.Sqrt(rms / float64(len(x)))
	return
}

// ---------- parameter sets ----------

// Cfg is a named parameter literal.
type Cfg[T TI] struct {
	Name string
	Lit  tfhe.ParametersLiteral[T]
}

// mk builds a small but structurally complete parameter set. Noise is tiny so that, by worst-case bounds, decoding
// cannot fail for correct code as long as (n/bs+1)/2 + 2 < L/(2p).
func mk[T TI](n, k, N, L, bs int, p T, brB, brL, ksB, ksL int, order tfhe.BootstrapOrder) Cfg[T] {
	lit := tfhe.ParametersLiteral[T]{
		LWEDimension: n, GLWERank: k, PolyRank: N, LUTSize: L, BlockSize: bs, MessageModulus: p,
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << brB, Level: brL},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: T(1) << ksB, Level: ksL},
		BootstrapOrder:    order,
	}
	if logQ[T]() == 32 {
		lit.LWEStdDev, lit.GLWEStdDev = math.Exp2(-28), math.Exp2(-30)
	} else {
		lit.LWEStdDev, lit.GLWEStdDev = math.Exp2(-48), math.Exp2(-52)
	}
	o := "KSBR"
	if order == tfhe.OrderBlindRotateKeySwitch {
		o = "BRKS"
	}
	return Cfg[T]{fmt.Sprintf("u%d_n%d_k%d_N%d_L%d_b%d_p%d_br%dx%d_ks%dx%d_%s", logQ[T](), n, k, N, L, bs, p, brB, brL, ksB, ksL, o), lit}
}

const (
	oKS = tfhe.OrderKeySwitchBlindRotate
	oBR = tfhe.OrderBlindRotateKeySwitch
)

// gadgets returns valid gadget choices giving enough precision for the tiny sets.
func brChoices[T TI]() [][2]int {
	if logQ[T]() == 32 {
		return [][2]int{{8, 3}, {6, 4}, {7, 4}, {10, 2}, {5, 5}, {8, 4}, {4, 6}, {2, 12}, {3, 9}}
	}
	return [][2]int{{10, 4}, {8, 5}, {16, 2}, {12, 3}, {16, 4}, {9, 5}, {4, 9}, {3, 14}, {2, 19}, {24, 1}}
}
func ksChoices[T TI]() [][2]int {
	if logQ[T]() == 32 {
		return [][2]int{{4, 5}, {3, 7}, {2, 10}, {8, 3}, {5, 4}, {4, 8}, {1, 20}}
	}
	return [][2]int{{4, 8}, {6, 6}, {2, 16}, {8, 4}, {5, 7}, {16, 2}, {8, 8}, {1, 34}, {3, 13}}
}

// randCfg draws a structurally random small parameter set satisfying the worst-case decoding bound.
func randCfg[T TI](g *rand.Rand) Cfg[T] {
	for {
		N := 16 << g.IntN(4)
		k := []int{1, 1, 1, 2, 2, 2, 3, 3, 4, 5}[g.IntN(10)]
		ext := []int{1, 1, 1, 1, 2, 3, 4, 5, 8, 9, 16}[g.IntN(11)]
		L := N * ext
		bs := []int{1, 1, 1, 2, 2, 3, 4, 5, 7, 8, 10}[g.IntN(11)]
		bc := 1 + g.IntN(12)
		n := bs * bc
		if n > k*N {
			continue
		}
		h := bc
		maxp := int(float64(L) / (2 * (float64(h+1)/2 + 2)))
		if maxp < 2 {
			continue
		}
		var p int
		if g.IntN(4) == 0 {
			p = 2 + g.IntN(maxp-1)
			if p > 12 {
				p = 2 + p%11
			}
		} else {
			p = 2
			for p*2 <= maxp && p < 32 && g.IntN(3) > 0 {
				p *= 2
			}
		}
		br := brChoices[T]()[g.IntN(len(brChoices[T]()))]
		ks := ksChoices[T]()[g.IntN(len(ksChoices[T]()))]
		o := oKS
		if g.IntN(2) == 0 {
			o = oBR
		}
		return mk[T](n, k, N, L, bs, T(p), br[0], br[1], ks[0], ks[1], o)
	}
}

// fixedCfgs covers each structural corner explicitly.
func fixedCfgs[T TI]() []Cfg[T] {
	b := brChoices[T]()[0]
	s := ksChoices[T]()[0]
	f := func(n, k, N, L, bs int, p T, o tfhe.BootstrapOrder) Cfg[T] {
		return mk[T](n, k, N, L, bs, p, b[0], b[1], s[0], s[1], o)
	}
	return []Cfg[T]{
		f(10, 1, 64, 64, 1, 4, oKS),   // original
		f(10, 2, 64, 64, 1, 4, oBR),   // original, rank 2
		f(12, 1, 64, 64, 3, 4, oKS),   // block
		f(12, 2, 32, 32, 3, 2, oBR),   // block, rank 2
		f(12, 1, 32, 64, 3, 4, oKS),   // extended x2 + block
		f(8, 1, 32, 128, 1, 8, oBR),   // extended x4, original keys
		f(12, 2, 16, 128, 2, 8, oKS),  // extended x8, rank 2
		f(16, 1, 16, 16, 16, 2, oKS),  // single block, n == kN (empty key switch)
		f(4, 1, 32, 64, 4, 4, oBR),    // extended, single block
		f(8, 1, 32, 64, 4, 4, oBR),    // extended, two blocks
		f(1, 1, 32, 32, 1, 4, oKS),    // one-dimensional key, original
		f(2, 1, 32, 128, 1, 8, oKS),   // extended, two blocks of one
		f(1, 1, 32, 128, 1, 8, oBR),   // extended, n=1
		f(32, 2, 16, 256, 2, 4, oBR),  // n == kN, extended x16
		f(30, 3, 128, 128, 5, 8, oKS), // rank 3
		f(9, 1, 64, 64, 3, 5, oKS),    // non-power-of-two message modulus
		f(9, 1, 64, 128, 3, 7, oBR),
		f(20, 4, 64, 64, 4, 4, oKS),   // rank 4
		f(30, 5, 32, 32, 6, 2, oBR),   // rank 5, six to a block
		f(40, 8, 16, 16, 20, 2, oKS),  // rank 8, two large blocks
		f(12, 1, 16, 528, 1, 16, oBR), // extended x33
		f(70, 1, 256, 256, 7, 8, oKS), // ten blocks of seven
	}
}

// shipped parameter sets.
func shipped32() []Cfg[uint32] {
	return []Cfg[uint32]{{"ParamsBinary", tfhe.ParamsBinary}, {"ParamsBinaryCompact", tfhe.ParamsBinaryCompact}, {"ParamsBinaryOriginal", tfhe.ParamsBinaryOriginal}}
}

func shipped64() []Cfg[uint64] {
	return []Cfg[uint64]{{"ParamsUint2", tfhe.ParamsUint2}, {"ParamsUint3", tfhe.ParamsUint3}, {"ParamsUint4", tfhe.ParamsUint4}, {"ParamsUint5", tfhe.ParamsUint5}, {"ParamsUint6", tfhe.ParamsUint6}, {"ParamsUint7", tfhe.ParamsUint7}, {"ParamsUint8", tfhe.ParamsUint8}}
}

func absF[T TI](x T) float64 { return float64(absT(x)) }

func bitLen[T TI](x T) int {
	n := 0
	for x > 0 {
		n++
		x >>= 1
	}
	return n
}

// divRoundQ is Q/2p rounded to the nearest integer.
func divRoundQ[T TI](p T) T {
	q := new(big.Int).Lsh(big.NewInt(1), uint(logQ[T]()))
	d := new(big.Int).Lsh(bigOf(uint64(p)), 1)
	q.Add(q, bigOf(uint64(p)))
	return T(q.Div(q, d).Uint64())
}

func toT[T TI](v []int) []T {
	o := make([]T, len(v))
	for i := range v {
		o[i] = T(v[i])
	}
	return o
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
