package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// FCfg is a named set for rotation by automorphisms.
type FCfg[T TI] struct {
	Name string
	Lit  xtfhe.FHEWParametersLiteral[T]
}

// mkFhew builds a small set with a key of deviation std (in units of the torus step).
func mkFhew[T TI](n, k, N int, p T, br, ks [2]int, o tfhe.BootstrapOrder, std float64, window int) FCfg[T] {
	c := mk[T](n, k, N, N, 1, p, br[0], br[1], ks[0], ks[1], o)
	if logQ[T]() == 32 {
		c.Lit.LWEStdDev, c.Lit.GLWEStdDev = math.Exp2(-29), math.Exp2(-31)
	}
	return FCfg[T]{fmt.Sprintf("%s_key%g_window%d", c.Name, std, window), xtfhe.FHEWParametersLiteral[T]{BaseParams: c.Lit, SecretKeyStdDev: std / math.Exp2(float64(logQ[T]())), WindowSize: window}}
}

func fhewGadgets[T TI]() (br, ks [2]int) {
	if logQ[T]() == 32 {
		return [2]int{5, 6}, [2]int{4, 7}
	}
	return [2]int{8, 5}, [2]int{4, 10}
}

func fixedFhew[T TI]() []FCfg[T] {
	br, ks := fhewGadgets[T]()
	f := func(n, k, N int, p T, o tfhe.BootstrapOrder, std float64, w int) FCfg[T] {
		return mkFhew[T](n, k, N, p, br, ks, o, std, w)
	}
	return []FCfg[T]{
		f(4, 1, 64, 2, oBR, 1, 5),
		f(6, 1, 128, 4, oKS, 1.5, 10),
		f(5, 2, 64, 2, oBR, 1, 1),
		f(3, 1, 32, 2, oKS, 0.8, 3),
		f(8, 1, 256, 2, oKS, 3, 7),
		f(1, 1, 64, 4, oBR, 2, 40), // a window longer than the cycle
		f(16, 1, 16, 2, oBR, 0.5, 2),
		f(12, 3, 64, 2, oKS, 1.2, 31),
		f(10, 1, 512, 5, oBR, 3.2, 10),
		f(7, 4, 64, 2, oKS, 1, 6),
		f(40, 1, 1024, 3, oKS, 2, 12),
		f(3, 1, 512, 2, oKS, 20, 9), // the widest key allowed
		f(6, 2, 512, 2, oBR, 9, 14),
	}
}

func randFhew[T TI](g *rand.Rand) FCfg[T] {
	br, ks := fhewGadgets[T]()
	N := 32 << g.IntN(4)
	k := 1 + g.IntN(2)
	return mkFhew[T](1+g.IntN(min(16, k*N)), k, N, T(2+g.IntN(4)), br, ks, []tfhe.BootstrapOrder{oKS, oBR}[g.IntN(2)], 0.5+3*g.Float64(), 1+g.IntN(N/2+3))
}

// fhewIndex is the rotation index of a ciphertext whose mask and body round to the given odd values.
func fhewSum[T TI](key []T, odd func(x T) int, ct []T) int {
	s := odd(-ct[0])
	for i := range key {
		s += odd(-ct[i+1]) * int(signed(key[i]))
	}
	return s
}
