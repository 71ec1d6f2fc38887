package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"regexp"
	"unsafe"
)

var streamType = regexp.MustCompile(`^\*csprng\.UniformSampler\[`)

// streamsOf calls f on every byte stream reachable from an object, whatever field holds it, with the path to it.
func streamsOf(v reflect.Value, path string, seen map[visit]bool, f func(string, reflect.Value)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			streamsOf(v.Elem(), path, seen, f)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		if streamType.MatchString(v.Type().String()) {
			f(path, v)
			return
		}
		streamsOf(v.Elem(), path, seen, f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			if fv.CanAddr() {
				fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
				if streamType.MatchString("*" + fv.Type().String()) {
					streamsOf(fv.Addr(), path+"."+v.Type().Field(i).Name, seen, f)
					continue
				}
			}
			streamsOf(fv, path+"."+v.Type().Field(i).Name, seen, f)
		}
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Pointer, reflect.Struct, reflect.Interface:
			for i := 0; i < v.Len() && i < 64; i++ {
				streamsOf(v.Index(i), path+"[]", seen, f)
			}
		}
	}
}

// c20Copies draws from every random stream of every kind of object and of its copies, taken in the middle of its work:
// no stretch of one may appear in another.
func c20Copies[T TI](r *R) {
	r.SeedLib("copies")
	for wi, w := range surfWorlds[T](r) {
		for ai, a := range w.actors {
			key := fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai)
			r.Case(key, func() {
				g := r.Sub(key)
				o := a.make()
				if !reflect.ValueOf(o).MethodByName("SafeCopy").IsValid() {
					return
				}
				seen := map[[3]uint64]string{}
				for round := 0; round < r.Pick(3, 8); round++ {
					for _, mi := range g.Perm(len(a.ms))[:min(3, len(a.ms))] {
						c, err := a.gen(g, o, a.ms[mi], fmt.Sprint(key, round, mi))
						if err == nil {
							c.run(r, o, c.fresh())
						}
					}
					begin := func(x any) { // have every stream drawn from before the next copy
						streamsOf(reflect.ValueOf(x), "", map[visit]bool{}, func(_ string, s reflect.Value) { s.MethodByName("Sample").Call(nil) })
					}
					begin(o)
					objs := []any{o, a.copy(o)}
					begin(objs[1])
					objs = append(objs, a.copy(objs[1]), a.copy(o))
					at := map[uintptr]bool{}
					for oi, x := range objs {
						streamsOf(reflect.ValueOf(x), "", map[visit]bool{}, func(path string, s reflect.Value) {
							if at[s.Pointer()] {
								return // the same stream: whether it may be shared is for the race detector
							}
							at[s.Pointer()] = true
							name := fmt.Sprintf("round %d object %d %s", round, oi, path)
							var win [3]uint64
							draw := s.MethodByName("SampleVecTo")
							buf := reflect.MakeSlice(draw.Type().In(0), 96, 96)
							draw.Call([]reflect.Value{buf})
							var words []uint64
							for i := 0; i < 96; i++ {
								words = append(words, buf.Index(i).Convert(reflect.TypeFor[uint64]()).Uint())
							}
							if buf.Index(0).Type().Size() < 8 {
								var by []byte
								for i := 0; i < 96; i++ {
									by = binary.LittleEndian.AppendUint64(by, words[i])[:len(by)+int(buf.Index(0).Type().Size())]
								}
								words = words[:0]
								for ; len(by) >= 8; by = by[8:] {
									words = append(words, binary.LittleEndian.Uint64(by))
								}
							}
							for i := 0; i+3 <= len(words); i++ {
								copy(win[:], words[i:])
								if was, ok := seen[win]; ok {
									r.Fail("%s draws what %s drew", name, was)
									return
								}
								seen[win] = name
							}
							r.Obs("streams of objects and copies", 1)
						})
					}
				}
			})
		}
	}
}

func init() {
	needObs("C20", "streams of objects and copies", 500)
	reg("C20", "copies32", vAvx, vAvx, func(r *R) { c20Copies[uint32](r) })
	reg("C20", "copies64", vAvx, vAvx, func(r *R) { c20Copies[uint64](r) })
}
