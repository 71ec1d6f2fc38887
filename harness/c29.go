package main

import (
	"fmt"
	"reflect"
)

// call1 calls a method by name on the pointer or the value.
func callM(p any, name string, args ...reflect.Value) ([]reflect.Value, bool) {
	m := reflect.ValueOf(p).MethodByName(name)
	if !m.IsValid() {
		return nil, false
	}
	return m.Call(args), true
}

func ptrTo(v reflect.Value) any {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

// allZero reports the first nonzero number in the slices of a value.
func allZero(p any) string {
	bad := ""
	walkSlices(reflect.ValueOf(p), map[visit]bool{}, func(v reflect.Value) {
		for i := 0; i < v.Len() && bad == ""; i++ {
			if !v.Index(i).IsZero() {
				bad = fmt.Sprintf("%s entry %d is %v", v.Type(), i, v.Index(i))
			}
		}
	})
	return bad
}

// copyOps judges Copy, CopyFrom and Clear of one kind of value.
func copyOps[T TI](r *R, k vkind[T], i int) {
	g := r.Rng
	s := vshapeOf[T](g, i)
	r.Case(fmt.Sprintf("%s %d u%d %s", k.name, i, logQ[T](), s), func() {
		a := k.newValue(g, s)
		if tooBig(a, i, r.Pick(120000, 1000000)) {
			return
		}
		keep := cloneDeep(a)
		if d := same(a, keep); d != "" {
			panic("harness: clone differs " + d)
		}
		if o, ok := callM(a, "Copy"); ok {
			c := ptrTo(o[0])
			if d := same(c, keep); d != "" {
				r.Fail("the copy differs from the original at %s", d)
			}
			r.Check(same(a, keep) == "", "Copy changed the original")
			r.Check(!shareMemory(a, c), "the copy shares memory with the original")
			r.Check(aliasShape(c) == aliasShape(keep), "the copy's own views share memory differently: %q instead of %q", aliasShape(c), aliasShape(keep))
			// writes to one do not reach the other
			fillValue[T](g, c)
			if d := same(a, keep); d != "" {
				r.Fail("writing to the copy changed the original at %s", d)
			}
			o2, _ := callM(a, "Copy")
			c2 := ptrTo(o2[0])
			fillValue[T](g, a)
			if d := same(c2, keep); d != "" {
				r.Fail("writing to the original changed the copy at %s", d)
			}
			o3, _ := callM(c2, "Copy")
			if d := same(ptrTo(o3[0]), keep); d != "" {
				r.Fail("the copy of the copy differs at %s", d)
			}
			r.Obs("copies", 3)
		}
		// copying into an existing value of the same shape (the gadget may have another base)
		s2 := s
		if s.g1.LogBase()*s.g1.Level() < logQ[T]()-s.g1.Level() {
			s2.g1 = gadOf[T](s.g1.LogBase()+1, s.g1.Level()).gp
		}
		b := k.newValue(g, s2)
		src := cloneDeep(keep)
		if _, ok := callM(b, "CopyFrom", reflect.ValueOf(src).Elem()); ok {
			if d := same(b, keep); d != "" {
				r.Fail("after CopyFrom the value differs from the source at %s", d)
			}
			r.Check(same(src, keep) == "", "CopyFrom changed the source")
			r.Check(!shareMemory(b, src), "CopyFrom shares memory with the source")
			r.Check(aliasShape(b) == aliasShape(keep), "after CopyFrom the value's own views share memory differently")
			fillValue[T](g, b)
			if d := same(src, keep); d != "" {
				r.Fail("writing to the target of CopyFrom changed the source at %s", d)
			}
			callM(b, "CopyFrom", reflect.ValueOf(src).Elem())
			fillValue[T](g, src)
			if d := same(b, keep); d != "" {
				r.Fail("writing to the source after CopyFrom changed the target at %s", d)
			}
			callM(b, "CopyFrom", reflect.ValueOf(b).Elem())
			if d := same(b, keep); d != "" {
				r.Fail("CopyFrom of a value into itself changed it at %s", d)
			}
			r.Obs("copies into", 3)
		}
		e := cloneDeep(keep)
		other := cloneDeep(keep)
		if _, ok := callM(e, "Clear"); ok {
			if d := allZero(e); d != "" {
				r.Fail("after Clear, %s", d)
			}
			if p := reflect.ValueOf(e).Elem(); p.Kind() == reflect.Struct && p.NumField() > 0 && p.Field(0).Kind() != reflect.Slice && k.name == "LWEPlaintext" {
				r.Check(p.Field(0).IsZero(), "after Clear the plaintext is %v", p.Field(0))
			}
			// the shape stays: filling it with the original's numbers gives the original
			refill(e, keep)
			if d := same(e, keep); d != "" {
				r.Fail("Clear changed more than the numbers: %s", d)
			}
			r.Check(same(other, keep) == "", "Clear changed another value")
			r.Obs("clears", 1)
		}
	})
}

// refill copies the numbers of src into the equally shaped dst.
func refill(dst, src any) {
	var a, b []reflect.Value
	walkSlices(reflect.ValueOf(dst), map[visit]bool{}, func(v reflect.Value) { a = append(a, v) })
	walkSlices(reflect.ValueOf(src), map[visit]bool{}, func(v reflect.Value) { b = append(b, v) })
	for i := range a {
		if i < len(b) && a[i].Type() == b[i].Type() {
			reflect.Copy(a[i], b[i])
		}
	}
	d, s := reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem()
	if d.Kind() == reflect.Struct {
		for i := 0; i < d.NumField(); i++ {
			if plainKind(d.Field(i).Kind()) && d.Field(i).CanSet() {
				d.Field(i).Set(s.Field(i))
			}
		}
	}
}

func c29Run[T TI](r *R, kinds []vkind[T]) {
	for _, k := range kinds {
		for i := -bigShapes; i < r.Pick(12, 200); i++ {
			copyOps(r, k, i)
		}
	}
}

func init() {
	about("C29", "Cases: every copyable value type in random shapes with random and edge contents; Copy, CopyFrom and Clear are compared bit by bit with a reflective clone, memory regions are checked for sharing, and each side is overwritten to see that the other does not follow.",
		"CopyFrom is driven between equally shaped values")
	needObs("C29", "copies", 1500)
	needObs("C29", "copies into", 1500)
	needObs("C29", "clears", 500)
	reg("C29", "values32", vTwo, vAll, func(r *R) { c29Run(r, append(valueKinds[uint32](false), valueKinds[uint32](true)...)) })
	reg("C29", "values64", vTwo, vAll, func(r *R) { c29Run(r, append(valueKinds[uint64](false), valueKinds[uint64](true)...)) })
}
