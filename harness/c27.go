package main

import (
	"bytes"
	"encoding"
	"fmt"
	"io"
	"reflect"
	"regexp"
)

func init() {
	about("C27", "reflection over every exported method of every object kind: all keys of the world and all input arguments of a call live in "+
		"fenced read-only pages while it runs (a write faults), and are compared deeply with copies afterwards; the same for serialization, "+
		"copying and size queries of every value type", "arguments documented as in-place or destroyed (…InPlace, …Body, …Unsafe) are outputs")
	needObs("C27", "input arguments watched", 10000)
	needObs("C27", "key memory regions watched", 5000)
	needObs("C27", "values serialized read-only", 200)
	two := []string{"avx", "purego"}
	reg("C27", "calls64", two, vAll, func(r *R) { c27Calls[uint64](r) })
	reg("C27", "calls32", vAvx, vAll, func(r *R) { c27Calls[uint32](r) })
	reg("C27", "values", vAvx, vAll, func(r *R) { c27Values[uint64](r); c27Values[uint32](r) })
	heavy("C27", "calls64", 2)
}

// fenceDeep moves the memory of a value, also inside maps, into the arena.
func fenceDeep(a *arena, p any) int {
	n := 0
	var maps func(v reflect.Value)
	maps = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					maps(v.Field(i))
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				e := reflect.New(v.Type().Elem())
				e.Elem().Set(v.MapIndex(k))
				n += fenceDeep(a, e.Interface())
				v.SetMapIndex(k, e.Elem())
			}
		}
	}
	maps(reflect.ValueOf(p).Elem())
	return n + a.fence(false, 0, p)
}

func c27Calls[T TI](r *R) {
	r.SeedLib("worlds")
	keys, args := newArena(2<<30), newArena(1<<30)
	defer keys.close()
	defer args.close()
	for wi, w := range surfWorlds[T](r) {
		for _, k := range w.keep {
			r.Obs("key memory regions watched", fenceDeep(keys, k))
		}
		keys.protect(0, len(keys.recs), true)
		var was []any
		for _, k := range w.keep {
			was = append(was, cloneDeep(k))
		}
		for ai, a := range w.actors {
			c27Actor(r, fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai), a, keys, args)
			r.Case(fmt.Sprintf("%d %s keys after %s", wi, w.name, a.key), func() {
				for i, k := range w.keep {
					if d := same(k, was[i]); d != "" {
						r.Fail("%T changed: %s", k, d)
					}
				}
				ok, msg := keys.intact()
				r.Check(ok, "memory next to the keys changed: %s", msg)
			})
		}
		keys.reset()
	}
}

// c27Unsafe are the methods documented to destroy an input.
var c27Unsafe = regexp.MustCompile(`Unsafe$`)

func c27Actor[T TI](r *R, key string, a *surfActor[T], keys, arena *arena) {
	g := r.Sub(key)
	var o any
	r.Case(key+" construction", func() { o = a.make() })
	if o == nil {
		return
	}
	for rep := 0; rep < r.Pick(2, 10); rep++ {
		for _, mi := range g.Perm(len(a.ms)) {
			m := a.ms[mi]
			seed := fmt.Sprintf("%s %s %d", key, m, rep)
			r.Case(seed, func() {
				c, err := a.gen(g, o, m, seed)
				if err != nil {
					r.Obs("signatures not understood", 1)
					return
				}
				defer arena.reset()
				as := c.fresh()
				// the same object in two input positions
				for i := range as {
					for j := 0; j < i; j++ {
						if i != c.out && j != c.out && as[i].Type() == as[j].Type() && g.IntN(3) == 0 &&
							(as[i].Elem().Kind() == reflect.Struct || as[i].Elem().Kind() == reflect.Slice) && same(shapeOf(as[i]), shapeOf(as[j])) == "" {
							as[i] = as[j]
							r.Obs("calls with the same object as two inputs", 1)
						}
					}
				}
				was := make([]any, len(as))
				ins := 0
				for i := range as {
					if i == c.out || c27Unsafe.MatchString(m) || hasFunc(as[i].Elem().Type()) {
						continue
					}
					was[i] = cloneDeep(as[i].Interface())
					arena.fence(g.IntN(2) == 0, 0, as[i].Interface())
					ins++
				}
				arena.protect(0, len(arena.recs), true)
				c.run(r, o, as)
				for i := range as {
					if was[i] == nil {
						continue
					}
					if d := same(as[i].Interface(), was[i]); d != "" {
						r.Fail("argument %d (%v) changed: %s", i, as[i].Type().Elem(), d)
					}
				}
				ok, msg := arena.intact()
				r.Check(ok, "memory next to the inputs changed: %s", msg)
				r.Obs("input arguments watched", ins)
				r.Obs("calls", 1)
			})
		}
	}
}

// c27Values serializes, copies and measures values in read-only memory.
func c27Values[T TI](r *R) {
	a := newArena(1 << 30)
	defer a.close()
	for _, multi := range []bool{false, true} {
		for _, k := range valueKinds[T](multi) {
			for i := -bigShapes; i < r.Pick(6, 60); i++ {
				g := r.Rng
				s := vshapeOf[T](g, i)
				r.Case(fmt.Sprintf("%d %s %v %d", logQ[T](), k.name, s, i), func() {
					defer a.reset()
					p := k.newValue(g, s)
					if tooBig(p, i, r.Pick(120000, 1000000)) {
						return
					}
					was := cloneDeep(p)
					fenceDeep(a, p)
					a.protect(0, len(a.recs), true)
					v := reflect.ValueOf(p)
					var data []byte
					if m, ok := p.(encoding.BinaryMarshaler); ok {
						data, _ = m.MarshalBinary()
						r.Obs("values serialized read-only", 1)
					}
					if m, ok := p.(io.WriterTo); ok {
						m.WriteTo(io.Discard)
					}
					if m, ok := p.(sized); ok {
						m.ByteSize()
					}
					if c := v.MethodByName("Copy"); c.IsValid() && c.Type().NumIn() == 0 {
						cp := c.Call(nil)[0]
						// writing to the copy must not reach the original
						np := reflect.New(cp.Type())
						np.Elem().Set(cp)
						fillValue[T](g, np.Interface())
						r.Obs("copies overwritten", 1)
					}
					if c := v.MethodByName("CopyFrom"); c.IsValid() && c.Type().NumIn() == 1 && c.Type().In(0) == v.Type().Elem() {
						d := reflect.ValueOf(cloneDeep(was))
						fillValue[T](g, d.Interface())
						d.MethodByName("CopyFrom").Call([]reflect.Value{v.Elem()})
						fillValue[T](g, d.Interface())
						r.Obs("copy sources watched", 1)
					}
					if d := same(p, was); d != "" {
						r.Fail("value changed: %s", d)
					}
					if data == nil {
						return
					}
					// the stream read from is an input, too
					mem := gslice(a, data, true, 0)
					n := len(a.recs)
					a.protect(n-1, n, true)
					q := reflect.New(v.Type().Elem())
					if u, ok := q.Interface().(encoding.BinaryUnmarshaler); ok {
						if err := u.UnmarshalBinary(mem); err == nil {
							fillValue[T](g, q.Interface())
						}
						r.Check(bytes.Equal(mem, data), "the serialized bytes changed")
						r.Obs("streams watched", 1)
					}
				})
			}
		}
	}
}
