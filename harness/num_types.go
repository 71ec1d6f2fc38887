package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/num"
)

func bigI[T num.Integer](x T) *big.Int {
	if num64Signed[T]() {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

func num64Signed[T num.Integer]() bool {
	var z T
	z--
	return z < 0
}

func bitsOf[T num.Integer]() int {
	var z T
	return int(unsafe.Sizeof(z)) * 8
}

func fitsT[T num.Integer](b *big.Int) bool {
	w := uint(bitsOf[T]())
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), w)
	if num64Signed[T]() {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return b.Cmp(lo) >= 0 && b.Cmp(hi) < 0
}

func minOf[T num.Integer]() T {
	if num64Signed[T]() {
		return T(1) << (bitsOf[T]() - 1)
	}
	return 0
}

func maxOf[T num.Integer]() T { return minOf[T]() - 1 }

// edgeI draws integers of any type with a preference for the edges.
func edgeI[T num.Integer](g *rand.Rand) T {
	w := bitsOf[T]()
	switch g.IntN(10) {
	case 0:
		return 0
	case 1:
		return minOf[T]()
	case 2:
		return maxOf[T]()
	case 3:
		return T(1) << g.IntN(w)
	case 4:
		return T(1)<<g.IntN(w) - 1
	case 5:
		return T(1)<<g.IntN(w) + 1
	case 6:
		return minOf[T]() + T(g.IntN(100))
	case 7:
		return maxOf[T]() - T(g.IntN(100))
	case 8:
		return T(g.Uint64()) >> g.IntN(w)
	default:
		return T(g.Uint64())
	}
}

func typeName[T any]() string { var z T; return fmt.Sprintf("%T", z) }
