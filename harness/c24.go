package main

import "fmt"

func c24Run[T TI](r *R) {
	for _, k := range append(valueKinds[T](false), valueKinds[T](true)...) {
		for i := -bigShapes; i < r.Pick(2, 12); i++ {
			s := vshapeOf[T](r.Rng, i)
			if i == 0 {
				s.N, s.k, s.n = 16, 1, min(s.n, 3)
				s.g1, s.g2, s.g3 = gadOf[T](5, 2).gp, gadOf[T](7, 1).gp, gadOf[T](3, 2).gp
			}
			p := k.newValue(r.Rng, s)
			points := r.Pick(260, 3000)
			if i < 0 {
				if tooBig(p, i, r.Pick(40000, 400000)) {
					continue
				}
				points = 100
				r.Obs("large values", 1)
			}
			faults(r, r.Rng, fmt.Sprintf("%s %d u%d %s", k.name, i, logQ[T](), s), p, points)
		}
	}
}

func init() {
	about("C24", "Cases: every serializable type in random shapes; writers that fail, fail after taking a part, or silently fall short at chosen and random byte offsets (every offset for small values), readers that end or fail there in pieces of varying size; the monitor counts the bytes that crossed the stream and compares with what is reported.",
		"streams are cut, not corrupted: damaged headers are outside the domain")
	needObs("C24", "write faults", 30000)
	needObs("C24", "read faults", 40000)
	needObs("C24", "truncations", 8000)
	reg("C24", "faults32", vAvx, vTwo, func(r *R) { c24Run[uint32](r) })
	reg("C24", "faults64", vAvx, vTwo, func(r *R) { c24Run[uint64](r) })
}
