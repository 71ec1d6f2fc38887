package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/math/num"
)

// c18Unary monitors the one-argument helpers at x.
func c18Unary[T num.Integer](r *R, x T) {
	bx := bigI(x)
	if x != minOf[T]() || !num64Signed[T]() {
		want := new(big.Int).Abs(bx)
		r.Check(bigI(num.Abs(x)).Cmp(want) == 0, "Abs(%v) = %v", x, num.Abs(x))
	}
	pow2 := bx.Sign() > 0 && new(big.Int).And(bx, new(big.Int).Sub(bx, one)).Sign() == 0
	r.Check(num.IsPowerOfTwo(x) == pow2, "IsPowerOfTwo(%v) = %v", x, !pow2)
	if bx.Sign() > 0 {
		r.Check(num.Log2(x) == bx.BitLen()-1, "Log2(%v) = %d", x, num.Log2(x))
	} else {
		p, _ := Panics(func() { num.Log2(x) })
		r.Check(p, "Log2(%v) did not panic", x)
	}
	if bx.Sign() >= 0 {
		want := new(big.Int).Sqrt(bx)
		r.Check(bigI(num.Sqrt(x)).Cmp(want) == 0, "Sqrt(%v) = %v want %v", x, num.Sqrt(x), want)
	} else {
		p, _ := Panics(func() { num.Sqrt(x) })
		r.Check(p, "Sqrt(%v) did not panic", x)
	}
	for b := 0; b < bitsOf[T](); b++ {
		c18Bits(r, x, b)
	}
	r.Obs("unary values", 1)
}

func c18Bits[T num.Integer](r *R, x T, b int) {
	// |x - 2^b*got| <= 2^(b-1), modulo 2^w
	got := num.DivRoundBits(x, b)
	bx := bigI(x)
	half := new(big.Int)
	if b > 0 {
		half.Lsh(one, uint(b-1))
	}
	fl := new(big.Int).Rsh(bx, uint(b)) // floor
	rem := new(big.Int).Sub(bx, new(big.Int).Lsh(fl, uint(b)))
	up := new(big.Int).Add(fl, one)
	g := bigI(got)
	ok := false
	switch {
	case b == 0 || rem.Cmp(half) < 0:
		ok = g.Cmp(fl) == 0
	case rem.Cmp(half) > 0:
		ok = g.Cmp(up) == 0
	case bx.Sign() >= 0: // tie of a non-negative value rounds up
		ok = g.Cmp(up) == 0
	default:
		ok = g.Cmp(up) == 0 || g.Cmp(fl) == 0
	}
	r.Check(ok, "DivRoundBits(%v, %d) = %v", x, b, got)
}

// c18Div monitors rounded division.
func c18Div[T num.Integer](r *R, x, y T) {
	if y == 0 {
		return
	}
	bx, by := bigI(x), bigI(y)
	ax, ay := new(big.Int).Abs(bx), new(big.Int).Abs(by)
	// half away from zero: floor((2|x|+|y|)/(2|y|))
	num2 := new(big.Int).Add(new(big.Int).Lsh(ax, 1), ay)
	want := new(big.Int).Quo(num2, new(big.Int).Lsh(ay, 1))
	if (bx.Sign() < 0) != (by.Sign() < 0) {
		want.Neg(want)
	}
	if !fitsT[T](want) {
		return
	}
	got := num.DivRound(x, y)
	r.Check(bigI(got).Cmp(want) == 0, "DivRound[%s](%v, %v) = %v want %v", typeName[T](), x, y, got, want)
}

func c18Ext[T num.Integer](r *R, v []T) {
	mx, mn := bigI(v[0]), bigI(v[0])
	for _, x := range v {
		if b := bigI(x); b.Cmp(mx) > 0 {
			mx = b
		} else if b.Cmp(mn) < 0 {
			mn = b
		}
	}
	r.Check(bigI(num.MaxN(v...)).Cmp(mx) == 0, "MaxN%v = %v", v, num.MaxN(v...))
	r.Check(bigI(num.MinN(v...)).Cmp(mn) == 0, "MinN%v = %v", v, num.MinN(v...))
	x, y := v[0], v[len(v)-1]
	wx, wn := x, y
	if bigI(x).Cmp(bigI(y)) < 0 {
		wx, wn = y, x
	}
	r.Check(num.Max(x, y) == wx && num.Min(x, y) == wn, "Max/Min(%v,%v) = %v/%v", x, y, num.Max(x, y), num.Min(x, y))
}

func c18Inverse[T num.Integer](r *R, x, m T) {
	var got T
	p, _ := Panics(func() { got = num.ModInverse(x, m) })
	bm := bigI(m)
	var want *big.Int
	if bm.Sign() > 0 {
		bx := new(big.Int).Mod(bigI(x), bm)
		if new(big.Int).GCD(nil, nil, bx, bm).Cmp(one) == 0 {
			if bm.Cmp(one) == 0 {
				want = new(big.Int)
			} else {
				want = new(big.Int).ModInverse(bx, bm)
			}
		}
	}
	if want == nil {
		r.Check(p, "ModInverse[%s](%v, %v) = %v, should panic", typeName[T](), x, m, got)
		return
	}
	r.Obs("inverses", 1)
	if bm.Cmp(one) == 0 {
		return // every integer is an inverse modulo one
	}
	r.Check(!p && bigI(got).Cmp(want) == 0, "ModInverse[%s](%v, %v) = %v (panic %v) want %v", typeName[T](), x, m, got, p, want)
}

func c18Exp[T num.Integer](r *R, x, y, m T) {
	var got T
	p, _ := Panics(func() { got = num.ModExp(x, y, m) })
	bm, by := bigI(m), bigI(y)
	var want *big.Int
	if bm.Sign() > 0 {
		bx := new(big.Int).Mod(bigI(x), bm)
		if by.Sign() < 0 {
			if new(big.Int).GCD(nil, nil, bx, bm).Cmp(one) == 0 {
				if bm.Cmp(one) == 0 {
					want = new(big.Int)
				} else {
					want = new(big.Int).Exp(new(big.Int).ModInverse(bx, bm), new(big.Int).Neg(by), bm)
				}
			}
		} else {
			want = new(big.Int).Exp(bx, by, bm)
			want.Mod(want, bm)
		}
	}
	if want == nil {
		r.Check(p, "ModExp[%s](%v, %v, %v) = %v, should panic", typeName[T](), x, y, m, got)
		return
	}
	r.Obs("powers", 1)
	r.Check(!p && bigI(got).Cmp(want) == 0, "ModExp[%s](%v, %v, %v) = %v (panic %v) want %v", typeName[T](), x, y, m, got, p, want)
}

func c18Type[T num.Integer](r *R) {
	tn := typeName[T]()
	r.Case(tn+" constants", func() {
		w := bitsOf[T]()
		r.Check(num.SizeT[T]() == w && num.ByteSizeT[T]() == w/8, "SizeT %d ByteSizeT %d", num.SizeT[T](), num.ByteSizeT[T]())
		r.Check(num.IsSigned[T]() == num64Signed[T](), "IsSigned %v", num.IsSigned[T]())
		r.Check(num.MaxT[T]() == uint64(maxOf[T]()), "MaxT %d", num.MaxT[T]())
		r.Check(num.MinT[T]() == int64(minOf[T]()), "MinT %d", num.MinT[T]())
		r.Check(num.MaxN[T]() == 0 && num.MinN[T]() == 0, "empty extrema")
	})
	g := r.Rng
	if bitsOf[T]() == 8 {
		// exhaustive
		all := make([]T, 0, 256)
		for i := 0; i < 256; i++ {
			all = append(all, minOf[T]()+T(i))
		}
		r.Case(tn+" all values", func() {
			for _, x := range all {
				c18Unary(r, x)
				for _, y := range all {
					c18Div(r, x, y)
					c18Ext(r, []T{x, y})
					c18Inverse(r, x, y)
				}
			}
		})
		for _, m := range all {
			r.Case(fmt.Sprintf("%s ModExp m=%v", tn, m), func() {
				for k := 0; k < 2000; k++ {
					c18Exp(r, all[g.IntN(256)], all[g.IntN(256)], m)
				}
			})
		}
		return
	}
	for k := 0; k < r.Pick(1500, 20000); k++ {
		x := edgeI[T](g)
		r.Case(fmt.Sprintf("%s x=%v", tn, x), func() {
			c18Unary(r, x)
			for j := 0; j < 8; j++ {
				y := edgeI[T](g)
				c18Div(r, x, y)
				c18Div(r, y, x)
				if y != 0 { // around ties
					c18Div(r, x/2*y+y/2, y)
					c18Div(r, (T(g.IntN(100))-50)*y+y/2+T(g.IntN(3))-1, y)
				}
				c18Inverse(r, x, y)
				c18Exp(r, x, y, edgeI[T](g))
				c18Exp(r, T(g.Uint64()), T(g.IntN(200)), x)
			}
			for s := 0; s < 4; s++ {
				b := bigI(x)
				b.Mul(b, b)
				b.Add(b, big.NewInt(int64(s-2)))
				if fitsT[T](b) && b.Sign() >= 0 {
					c18Unary(r, T(b.Uint64())) // around perfect squares
				}
			}
			v := make([]T, 1+g.IntN(9))
			for i := range v {
				v[i] = edgeI[T](g)
			}
			c18Ext(r, v)
		})
	}
}

func c18Float(r *R, g *rand.Rand) {
	for k := 0; k < r.Pick(10000, 50000); k++ {
		v := make([]float64, 1+g.IntN(6))
		f32 := make([]float32, len(v))
		for i := range v {
			v[i] = (g.Float64() - 0.5) * float64(int64(1)<<g.IntN(60))
			f32[i] = float32(v[i])
		}
		r.Case(fmt.Sprintf("float %v", v), func() {
			mx, mn := v[0], v[0]
			for _, x := range v {
				if x > mx {
					mx = x
				}
				if x < mn {
					mn = x
				}
			}
			r.Check(num.MaxN(v...) == mx && num.MinN(v...) == mn, "extrema of %v", v)
			r.Check(num.MaxN(f32...) == float32(mx) && num.MinN(f32...) == float32(mn), "extrema of %v", f32)
			a := v[0]
			if a < 0 {
				a = -a
			}
			r.Check(num.Abs(v[0]) == a, "Abs(%v)", v[0])
			l := v[len(v)-1]
			wm, wn := l, v[0]
			if v[0] > l {
				wm, wn = v[0], l
			}
			r.Check(num.Max(v[0], l) == wm && num.Min(v[0], l) == wn, "Max/Min(%v,%v)", v[0], l)
		})
	}
	r.Case("float signedness", func() {
		r.Check(num.IsSigned[float64]() && num.IsSigned[float32](), "IsSigned of floats")
	})
}

func init() {
	about("C18", "a case is (type, arguments): all arguments for the 8-bit types, edge-weighted random ones (type limits, powers of two and neighbours, ties, perfect squares and neighbours) for the others; results are compared with big-integer arithmetic, and calls outside the documented domain must panic",
		"rounding ties of negative values in DivRoundBits may go either way; results that do not fit the type are not judged")
	needObs("C18", "unary values", 1000)
	needObs("C18", "inverses", 10000)
	needObs("C18", "powers", 10000)
	one := func(name string, f func(r *R)) { reg("C18", name, vTwo, vTwo, f) }
	one("int8", c18Type[int8])
	one("uint8", c18Type[uint8])
	one("int16", c18Type[int16])
	one("uint16", c18Type[uint16])
	one("int32", c18Type[int32])
	one("uint32", c18Type[uint32])
	one("int64", c18Type[int64])
	one("uint64", c18Type[uint64])
	one("int", c18Type[int])
	one("uint", c18Type[uint])
	one("uintptr", c18Type[uintptr])
	one("float", func(r *R) { c18Float(r, r.Rng) })
}
