package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
)

// fnSet returns functions on [0,p): identity, constant, negation-like, random tables and out-of-range outputs.
type namedFn struct {
	name string
	f    func(int) int
}

func fnSet(g *rand.Rand, p int, pow2 bool, nRandom int) []namedFn {
	out := []namedFn{
		{"id", func(x int) int { return x }},
		{"const", func(x int) int { return p - 1 }},
		{"rev", func(x int) int { return p - 1 - x }},
		{"sq", func(x int) int { return x*x + 1 }},
	}
	if pow2 {
		out = append(out, namedFn{"neg", func(x int) int { return -x - 1 }})
	}
	for i := 0; i < nRandom; i++ {
		tab := randIntVec(g, p, p)
		out = append(out, namedFn{fmt.Sprintf("tab%v", tab), func(x int) int {
			if x < 0 || x >= p {
				panic(fmt.Sprintf("function called with %d outside [0,%d)", x, p))
			}
			return tab[x]
		}})
	}
	return out
}

// keyFor returns the LWE key under which default ciphertexts are encrypted.
func keyFor[T TI](params tfhe.Parameters[T], sk tfhe.SecretKey[T]) []T {
	if params.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
		return sk.LWEKey.Value
	}
	return sk.LWELargeKey.Value
}

// refDecode rounds a phase to the message space by exact integer arithmetic.
func refDecode[T TI](ph, scale T, p int) int {
	q := uint64(ph) / uint64(scale)
	rem := uint64(ph) % uint64(scale)
	if rem >= uint64(scale)-rem {
		q++
	}
	return int(q % uint64(p))
}

func isPow2(p int) bool { return p > 0 && p&(p-1) == 0 }

func allMsgs(p int) []int {
	v := make([]int, p)
	for i := range v {
		v[i] = i
	}
	return v
}

func sampleMsgs(g *rand.Rand, p, n int) []int {
	if p <= n {
		return allMsgs(p)
	}
	v := []int{0, p - 1, p / 2, p/2 - 1}
	for len(v) < n {
		v = append(v, g.IntN(p))
	}
	return v
}

// craftVec gives a vector special structure: zeros at either end or in a run, few nonzero entries, equal or repeating
// entries. Half of the time it leaves it alone.
func craftVec[T num.Integer](g *rand.Rand, v []T) string {
	n := len(v)
	if n == 0 {
		return ""
	}
	switch g.IntN(16) {
	case 0:
		v[0] = 0
		return "first word zero"
	case 1:
		v[n-1] = 0
		return "last word zero"
	case 2:
		a := g.IntN(n)
		b := a + 1 + g.IntN(n-a)
		for i := a; i < b; i++ {
			v[i] = 0
		}
		return "run of zeros"
	case 3:
		k := g.IntN(n)
		for i := range v {
			if i != k {
				v[i] = 0
			}
		}
		return "one word set"
	case 4:
		for i := range v {
			v[i] = 0
		}
		return "all zero"
	case 5:
		for i := range v {
			v[i] = v[0]
		}
		return "all equal"
	case 6:
		for i := range v {
			if (i+n)&1 == 0 {
				v[i] = 0
			}
		}
		return "every other word zero"
	case 7:
		h := (n + 1) / 2
		copy(v[h:], v[:n-h])
		return "halves equal"
	}
	return ""
}

// craftMask also uses numerically special words: around the boundaries of rounding to an index unit of Q/2L, few bits,
// tiny. The body has to be corrected afterwards.
func craftMask[T TI](g *rand.Rand, mask []T, L int) string {
	unit := T(math.Exp2(float64(logQ[T]())-1) / float64(L))
	how := ""
	switch g.IntN(8) {
	case 0:
		for i := range mask {
			mask[i] = T(g.IntN(2*L))*unit + unit/2 + T(g.IntN(5)) - 2
		}
		how = "at rounding boundaries"
	case 1:
		for i := range mask {
			mask[i] = T(g.IntN(8)) << (logQ[T]() - 3)
		}
		how = "eighths"
	case 2:
		for i := range mask {
			mask[i] = T(g.Uint64())%unit - unit/2
		}
		how = "tiny"
	}
	if s := craftVec(g, mask); s != "" {
		how += " " + s
		if s == "all equal" || s == "halves equal" { // no correlated rounding errors in the key switching
			for i := range mask {
				mask[i] = mask[i] >> (logQ[T]() - 8) << (logQ[T]() - 8)
			}
		}
	}
	return how
}

// recraft replaces the mask of a ciphertext under the given key by a special one with the same phase.
func recraft[T TI](g *rand.Rand, key []T, ct tfhe.LWECiphertext[T], L int) string {
	ph := refLWEPhase(key, ct.Value)
	how := craftMask(g, ct.Value[1:], L)
	ct.Value[0] += ph - refLWEPhase(key, ct.Value)
	return how
}
