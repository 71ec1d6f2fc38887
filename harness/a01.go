package main

func init() {
	about("A01", "The go:generate lines of internal/asmgen are run in a scratch copy of the repository from which every generated file was removed, and the harness is built with the emitted kernels and stubs in place of the committed ones. On that build: a case is one operation on one length or rank with operands as in C12 to C15 (results against scalar, schoolbook and direct-evaluation references), or as in C17 (operands, tables and buffers against inaccessible pages, inputs write-protected), or a whole bootstrapping workload in fenced memory. A generator that fails, omits a committed file or emits code that does not assemble is a violation.",
		"the host runs AVX2 and FMA, so the generated kernels are the ones dispatched to")
	needObs("A01", "elements", 1000000)
	needObs("A01", "decompositions", 10000)
	needObs("A01", "transforms", 500)
	needObs("A01", "slot-wise operations", 5000)
	needObs("A01", "products MulPoly", 50)
	needObs("A01", "fenced vector calls", 10000)
	needObs("A01", "fenced polynomial calls", 4000)
	v := []string{"regen"}
	f := func(name string, fn func(r *R)) { reg("A01", name, v, v, fn) }
	fence := func(fn func(r *R, a *arena)) func(r *R) {
		return func(r *R) {
			a := newArena(1 << 32)
			defer a.close()
			fn(r, a)
		}
	}
	f("decompose-u32", c12Type[uint32])
	f("decompose-u64", c12Type[uint64])
	f("poly-u32", c13Type[uint32])
	f("poly-u64", c13Type[uint64])
	f("poly-i32", c13Type[int32])
	f("poly-i64", c13Type[int64])
	f("fourier-u32", c14Type[uint32])
	f("fourier-u64", c14Type[uint64])
	f("fourier-i16", c14Type[int16])
	f("vec-u32", c15Arith[uint32])
	f("vec-u64", c15Arith[uint64])
	f("vec-uint", c15Arith[uint])
	f("vec-i32", c15Arith[int32])
	f("vec-i64", c15Arith[int64])
	f("vec-uintptr", c15Arith[uintptr])
	f("fenced-vec", fence(func(r *R, a *arena) {
		c17Vec[uint32](r, a)
		c17Vec[uint64](r, a)
		c17Misc(r, a)
	}))
	f("fenced-poly-u32", fence(c17Poly[uint32]))
	f("fenced-poly-u64", fence(c17Poly[uint64]))
	f("fenced-flows", fence(func(r *R, a *arena) {
		for _, right := range []bool{true, false} {
			for _, c := range fixedCfgs[uint32]() {
				c17Flow(r, a, c, right)
			}
			for _, c := range fixedCfgs[uint64]() {
				c17Flow(r, a, c, right)
			}
			for i := 0; i < r.Pick(1, 30); i++ {
				c17Flow(r, a, randCfg[uint32](r.Rng), right)
				c17Flow(r, a, randCfg[uint64](r.Rng), right)
			}
		}
	}))
}
