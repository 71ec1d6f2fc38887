package main

import (
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
)

// vecOp is an element-wise vector operation with its reference.
type vecOp[T num.Number] struct {
	name string
	ins  int // vector operands
	acc  bool
	fn   func(out, a, b []T, c T)
	ref  func(o, a, b, c T) T
}

func vecOps[T num.Number]() []vecOp[T] {
	return []vecOp[T]{
		{"AddTo", 2, false, func(o, a, b []T, c T) { vec.AddTo(o, a, b) }, func(o, a, b, c T) T { return a + b }},
		{"SubTo", 2, false, func(o, a, b []T, c T) { vec.SubTo(o, a, b) }, func(o, a, b, c T) T { return a - b }},
		{"MulTo", 2, false, func(o, a, b []T, c T) { vec.MulTo(o, a, b) }, func(o, a, b, c T) T { return a * b }},
		{"MulAddTo", 2, true, func(o, a, b []T, c T) { vec.MulAddTo(o, a, b) }, func(o, a, b, c T) T { x := a * b; return o + x }},
		{"MulSubTo", 2, true, func(o, a, b []T, c T) { vec.MulSubTo(o, a, b) }, func(o, a, b, c T) T { x := a * b; return o - x }},
		{"NegTo", 1, false, func(o, a, b []T, c T) { vec.NegTo(o, a) }, func(o, a, b, c T) T { return -a }},
		{"ScalarMulTo", 1, false, func(o, a, b []T, c T) { vec.ScalarMulTo(o, a, c) }, func(o, a, b, c T) T { return c * a }},
		{"ScalarMulAddTo", 1, true, func(o, a, b []T, c T) { vec.ScalarMulAddTo(o, a, c) }, func(o, a, b, c T) T { x := c * a; return o + x }},
		{"ScalarMulSubTo", 1, true, func(o, a, b []T, c T) { vec.ScalarMulSubTo(o, a, c) }, func(o, a, b, c T) T { x := c * a; return o - x }},
	}
}

// genNum draws values of any numeric type for which the operations above are exact (integers of at most 24 bits of
// product for floating point types), edge-weighted for integers.
func genNum[T num.Number](g *rand.Rand) T {
	var z T
	switch p := any(&z).(type) {
	case *float32:
		*p = float32(g.IntN(2001) - 1000)
	case *float64:
		*p = float64(g.IntN(200001)-100000) / 8
	case *complex64:
		*p = complex(float32(g.IntN(1001)-500), float32(g.IntN(1001)-500))
	case *complex128:
		*p = complex(float64(g.IntN(200001)-100000)/8, float64(g.IntN(200001)-100000)/8)
	case *int:
		*p = edgeI[int](g)
	case *int8:
		*p = edgeI[int8](g)
	case *int16:
		*p = edgeI[int16](g)
	case *int32:
		*p = edgeI[int32](g)
	case *int64:
		*p = edgeI[int64](g)
	case *uint:
		*p = edgeI[uint](g)
	case *uint8:
		*p = edgeI[uint8](g)
	case *uint16:
		*p = edgeI[uint16](g)
	case *uint32:
		*p = edgeI[uint32](g)
	case *uint64:
		*p = edgeI[uint64](g)
	case *uintptr:
		*p = edgeI[uintptr](g)
	}
	return z
}
