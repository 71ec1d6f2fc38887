package main

import (
	"fmt"
	"reflect"
)

func init() {
	needObs("C17", "calls of fenced objects", 5000)
	reg("C17", "surface64", vTwo, vAll, func(r *R) { c17Surf[uint64](r) })
	reg("C17", "surface32", vAvx, vAll, func(r *R) { c17Surf[uint32](r) })
}

// c17Surf calls every exported method of every kind of object of all packages while the memory of the object (its keys
// and internal buffers) and of all arguments lies against inaccessible pages.
func c17Surf[T TI](r *R) {
	r.SeedLib("worlds")
	objs, args := newArena(4<<30), newArena(1<<30)
	defer objs.close()
	defer args.close()
	for wi, w := range surfWorlds[T](r) {
		objs.reset() // not between the objects of a world, as they share their keys
		for ai, a := range w.actors {
			key := fmt.Sprintf("%d %s %s/%d", wi, w.name, a.key, ai)
			g := r.Sub(key)
			right := g.IntN(3) > 0
			var o any
			r.Case(key+" construction", func() {
				o = a.make()
				p := reflect.New(reflect.TypeOf(o))
				p.Elem().Set(reflect.ValueOf(o))
				r.Obs("fenced slices of long-lived objects", objs.fence(right, 0, p.Interface()))
			})
			if o == nil {
				continue
			}
			for rep := 0; rep < r.Pick(1, 6); rep++ {
				for _, mi := range g.Perm(len(a.ms)) {
					m := a.ms[mi]
					seed := fmt.Sprintf("%s %s %d", key, m, rep)
					r.Case(seed, func() {
						c, err := a.gen(g, o, m, seed)
						if err != nil {
							r.Obs("signatures not understood", 1)
							return
						}
						defer args.reset()
						as := c.fresh()
						for i := range as {
							if !hasFunc(as[i].Elem().Type()) {
								args.fence(g.IntN(2) == 0, 0, as[i].Interface())
							}
						}
						c.run(r, o, as)
						ok, msg := args.intact()
						r.Check(ok, "memory next to the arguments changed: %s", msg)
						r.Obs("calls of fenced objects", 1)
					})
				}
			}
			r.Case(key+" memory", func() {
				ok, msg := objs.intact()
				r.Check(ok, "memory next to the object's buffers changed: %s", msg)
			})
		}
	}
}
