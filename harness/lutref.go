package main

import (
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
)

// c11Table reads entry x (0 <= x < 2L) of a table, negated in the upper half.
func c11Table[T TI](lut tfhe.LookUpTable[T], x int) T {
	ext := len(lut.Value)
	L := ext * len(lut.Value[0].Coeffs)
	x = posMod(x, 2*L)
	if x >= L {
		return -c11Table(lut, x-L)
	}
	return lut.Value[x%ext].Coeffs[x/ext]
}

// c11Lut judges a generated table: want(m) is the encoded value of message m.
func c11Lut[T TI](r *R, form string, lut tfhe.LookUpTable[T], L, p int, want func(m int) T) {
	// Index x stands for the phase x*Q/2L; message m is encoded at x = mL/p and owns the indices within L/2p of it.
	bad := 0
	for x := 0; x < 2*L; x++ {
		num := x * p // position in units of L/p, times L
		m := num / L
		if rem := num % L; 2*rem >= L {
			m++
		}
		dist := num - m*L // in [-L/2, L/2)
		if dist < 0 {
			dist = -dist
		}
		signed := func(m int) T {
			m = (m + 2*p) % (2 * p)
			if m >= p {
				return -want(m - p)
			}
			return want(m)
		}
		w := signed(m)
		got := c11Table(lut, x)
		if L-2*dist <= 2*p { // within one index of a boundary (two roundings of half an index): either neighbour
			if 4*p > L { // a message owns too few indices to tell the neighbours
				continue
			}
			r.Obs("boundary entries", 1)
			near := m + 1
			if num < m*L {
				near = m - 1
			}
			if got != w && got == signed(near) {
				w = got
			}
		} else {
			r.Obs("table entries", 1)
		}
		if got != w {
			if bad == 0 {
				r.Fail("%s: entry at phase index %d of 2*%d is %d, want %d (message %d of %d)", form, x, L, got, w, m, p)
			}
			bad++
		}
	}
	// the encodings themselves
	for m := 0; m < p; m++ {
		x := int(math.Round(float64(m*L) / float64(p)))
		if x < L && 4*p <= L {
			r.Check(c11Table(lut, x) == want(m), "%s: entry at the encoding of %d is %d, want %d", form, m, c11Table(lut, x), want(m))
		}
	}
}
