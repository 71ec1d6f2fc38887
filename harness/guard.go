package main

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"
)

// arena hands out memory fenced by inaccessible pages: an access beyond an allocation faults.
// Faults become panics (debug.SetPanicOnFault), hence violations of the running case.
type arena struct {
	mem  []byte
	off  int
	recs []grec
}

// grec is one allocation: data occupies mem[lo:hi] inside the accessible pages mem[plo:phi].
type grec struct{ plo, lo, hi, phi int }

const pageSz = 4096

func newArena(size int) *arena {
	m, err := syscall.Mmap(-1, 0, size, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	debug.SetPanicOnFault(true)
	return &arena{mem: m}
}

func (a *arena) close() { syscall.Munmap(a.mem) }

// reset makes everything inaccessible again and forgets it.
func (a *arena) reset() {
	if a == nil {
		return
	}
	if a.off > 0 {
		if err := syscall.Mprotect(a.mem[:a.off], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		syscall.Madvise(a.mem[:a.off], syscall.MADV_DONTNEED)
	}
	a.off, a.recs = 0, nil
}

const slackByte = 0xA7

// alloc returns n bytes ending (right) or starting (left) exactly at an inaccessible page; shift moves the data away
// from the fence by that many bytes.
func (a *arena) alloc(n int, right bool, shift int) unsafe.Pointer {
	pages := (n + shift + pageSz - 1) / pageSz
	plo := a.off + pageSz
	phi := plo + pages*pageSz
	if phi+pageSz > len(a.mem) {
		panic("arena exhausted")
	}
	a.off = phi
	if pages > 0 {
		if err := syscall.Mprotect(a.mem[plo:phi], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			panic(err)
		}
	}
	lo := plo + shift
	if right {
		lo = phi - n - shift
	}
	for i := plo; i < lo; i++ {
		a.mem[i] = slackByte
	}
	for i := lo + n; i < phi; i++ {
		a.mem[i] = slackByte
	}
	a.recs = append(a.recs, grec{plo, lo, lo + n, phi})
	return unsafe.Add(unsafe.Pointer(unsafe.SliceData(a.mem)), lo)
}

// intact checks the bytes between each allocation and its pages' ends.
func (a *arena) intact() (bool, string) {
	if a == nil {
		return true, ""
	}
	for i, r := range a.recs {
		for j := r.plo; j < r.lo; j++ {
			if a.mem[j] != slackByte {
				return false, fmt.Sprintf("byte %d before allocation %d (%d bytes) was written", r.lo-j, i, r.hi-r.lo)
			}
		}
		for j := r.hi; j < r.phi; j++ {
			if a.mem[j] != slackByte {
				return false, fmt.Sprintf("byte %d after allocation %d (%d bytes) was written", j-r.hi, i, r.hi-r.lo)
			}
		}
	}
	return true, ""
}

// protect makes allocations from..to read-only (or writable again).
func (a *arena) protect(from, to int, ro bool) {
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if ro {
		p = syscall.PROT_READ
	}
	for _, r := range a.recs[from:to] {
		if r.phi > r.plo {
			if err := syscall.Mprotect(a.mem[r.plo:r.phi], p); err != nil {
				panic(err)
			}
		}
	}
}

// gslice returns a fenced copy of v.
func gslice[T any](a *arena, v []T, right bool, shift int) []T {
	var z T
	n := len(v)
	p := (*T)(a.alloc(n*int(unsafe.Sizeof(z)), right, shift*int(unsafe.Sizeof(z))))
	o := unsafe.Slice(p, n)
	copy(o, v)
	return o
}

type sliceAt struct {
	lo, hi uintptr
	v      reflect.Value // addressable slice header
	p      unsafe.Pointer
}

func plainKind(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128
}

// walkSlices calls f on every slice of plain numbers reachable from v without passing through interfaces.
func walkSlices(v reflect.Value, seen map[visit]bool, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		walkSlices(v.Elem(), seen, f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			if fv.CanAddr() {
				fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
			}
			walkSlices(fv, seen, f)
		}
	case reflect.Array:
		if plainKind(v.Type().Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkSlices(v.Index(i), seen, f)
		}
	case reflect.Slice:
		if plainKind(v.Type().Elem().Kind()) {
			f(v)
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if v.Len() == 0 || seen[k] {
			return
		}
		seen[k] = true
		for i := 0; i < v.Len(); i++ {
			walkSlices(v.Index(i), seen, f)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			walkSlices(it.Value(), seen, f)
		}
	}
}

type visit struct {
	p uintptr
	t reflect.Type
}

// fence moves the contents of every numeric slice reachable from the pointers into fenced memory, keeping shared
// memory shared. It returns the number of slices moved.
func (a *arena) fence(right bool, shift int, ptrs ...any) int {
	if a == nil { // no fences: the build itself is instrumented
		return 0
	}
	var all []sliceAt
	seen := map[visit]bool{}
	for _, p := range ptrs {
		walkSlices(reflect.ValueOf(p), seen, func(v reflect.Value) {
			if v.Len() == 0 || !v.CanAddr() {
				return
			}
			lo := v.Pointer()
			all = append(all, sliceAt{lo: lo, hi: lo + uintptr(v.Len())*v.Type().Elem().Size(), v: v})
		})
	}
	sortRegions(all)
	base := uintptr(unsafe.Pointer(unsafe.SliceData(a.mem)))
	for i := 0; i < len(all); {
		lo, hi := all[i].lo, all[i].hi
		j := i + 1
		for j < len(all) && all[j].lo < hi {
			hi = max(hi, all[j].hi)
			j++
		}
		if lo >= base && lo < base+uintptr(len(a.mem)) {
			i = j // already here
			continue
		}
		src := unsafe.Slice((*byte)(all[i].v.UnsafePointer()), int(hi-lo))
		p := a.alloc(len(src), right, shift*int(all[i].v.Type().Elem().Size()))
		copy(unsafe.Slice((*byte)(p), len(src)), src)
		for ; i < j; i++ {
			s := all[i]
			h := (*struct {
				p        unsafe.Pointer
				len, cap int
			})(unsafe.Pointer(s.v.UnsafeAddr()))
			h.p = unsafe.Add(p, int(s.lo-lo))
			h.cap = h.len
		}
	}
	return len(all)
}

func sortRegions(r []sliceAt) {
	sort.SliceStable(r, func(i, j int) bool { return r[i].lo < r[j].lo })
}
