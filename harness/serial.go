package main

import (
	"bytes"
	"encoding"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
)

type sized interface{ ByteSize() int }

type serialValue interface {
	io.WriterTo
	io.ReaderFrom
	sized
}

// chunkReader returns data in pieces of varying size, sometimes none, sometimes together with the final EOF.
type chunkReader struct {
	d       []byte
	g       *rand.Rand
	max     int
	withEOF bool
	err     error // instead of EOF
	taken   int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	end := c.err
	if end == nil {
		end = io.EOF
	}
	if len(c.d) == 0 {
		return 0, end
	}
	if len(p) == 0 || c.g.IntN(20) == 0 {
		return 0, nil
	}
	n := min(len(p), len(c.d), 1+c.g.IntN(c.max))
	copy(p, c.d[:n])
	c.d = c.d[n:]
	c.taken += n
	if len(c.d) == 0 && c.withEOF {
		return n, end
	}
	return n, nil
}

// serialRound judges serialization of one value.
func serialRound[T TI](r *R, k vkind[T], i int) {
	g := r.Rng
	s := vshapeOf[T](g, i)
	p := k.newValue(g, s)
	sv, ok := p.(serialValue)
	if !ok || tooBig(p, i, r.Pick(120000, 1000000)) {
		return
	}
	if i < 0 {
		r.Obs("large values", 1)
	}
	r.Case(fmt.Sprintf("%s %d u%d %s", k.name, i, logQ[T](), s), func() {
		keep := cloneDeep(p)
		roundTrip(r, g, sv, keep, func() any { return k.newValue(g, randShape[T](g)) })
		r.Check(same(p, keep) == "", "serialization changed the value")
		r.Obs("round trips", 1)
	})
}

func newLike(p any) any { return reflect.New(reflect.TypeOf(p).Elem()).Interface() }

func roundTrip(r *R, g *rand.Rand, sv serialValue, keep any, used func() any) {
	var b bytes.Buffer
	n, err := sv.WriteTo(&b)
	r.Check(err == nil, "WriteTo: %v", err)
	enc := b.Bytes()
	r.Check(n == int64(len(enc)), "WriteTo wrote %d bytes and reported %d", len(enc), n)
	r.Check(sv.ByteSize() == len(enc), "ByteSize says %d, WriteTo wrote %d", sv.ByteSize(), len(enc))
	if m, ok := sv.(encoding.BinaryMarshaler); ok {
		d, err := m.MarshalBinary()
		r.Check(err == nil && bytes.Equal(d, enc), "MarshalBinary and WriteTo disagree (%v)", err)
	}
	// again, the same bytes
	var b2 bytes.Buffer
	sv.WriteTo(&b2)
	r.Check(bytes.Equal(enc, b2.Bytes()), "writing twice gives different bytes")
	check := func(what string, q any) {
		if d := same(q, keep); d != "" {
			r.Fail("%s: the value differs from the written one at %s", what, d)
		}
		r.Check(aliasShape(q) == aliasShape(keep), "%s: the value's own views share memory differently", what)
		if z, ok := q.(sized); ok {
			r.Check(z.ByteSize() == len(enc), "%s: ByteSize %d instead of %d", what, z.ByteSize(), len(enc))
		}
	}
	read := func(what string, q any, rd io.Reader) {
		n, err := q.(io.ReaderFrom).ReadFrom(rd)
		if r.Check(err == nil, "%s: ReadFrom: %v", what, err) {
			r.Check(n == int64(len(enc)), "%s: ReadFrom reported %d bytes of %d", what, n, len(enc))
			check(what, q)
		}
	}
	read("fresh target", newLike(sv), bytes.NewReader(enc))
	if used != nil {
		read("used target of another shape", used(), bytes.NewReader(enc))
	}
	read("target with other contents", cloneDeep(keep), bytes.NewReader(enc))
	if len(enc) < 40000 {
		read("byte by byte", newLike(sv), &chunkReader{d: append([]byte(nil), enc...), g: g, max: 1})
	}
	read("in random pieces", newLike(sv), &chunkReader{d: append([]byte(nil), enc...), g: g, max: 300})
	read("with EOF on the last piece", newLike(sv), &chunkReader{d: append([]byte(nil), enc...), g: g, max: 70000, withEOF: true})
	if m, ok := newLike(sv).(encoding.BinaryUnmarshaler); ok {
		d := append([]byte(nil), enc...)
		r.Check(m.UnmarshalBinary(d) == nil, "UnmarshalBinary failed")
		for i := range d {
			d[i] ^= 0x5a
		}
		check("UnmarshalBinary (input overwritten afterwards)", m)
	}
	// a stream of several: nothing beyond the value is consumed
	st := bytes.NewReader(append(append(append([]byte(nil), enc...), enc...), 1, 2, 3))
	read("first of a stream", newLike(sv), st)
	r.Check(st.Len() == len(enc)+3, "reading the first of a stream left %d bytes, not %d", st.Len(), len(enc)+3)
	read("second of a stream", newLike(sv), st)
	r.Check(st.Len() == 3, "reading the second of a stream left %d bytes, not 3", st.Len())
	// the read value writes the same bytes
	q := newLike(sv)
	q.(io.ReaderFrom).ReadFrom(bytes.NewReader(enc))
	var b3 bytes.Buffer
	q.(io.WriterTo).WriteTo(&b3)
	r.Check(bytes.Equal(enc, b3.Bytes()), "the read value writes different bytes")
	r.Obs("bytes", len(enc))
}

var errPlanted = errors.New("planted stream failure")

// faultWriter accepts limit bytes, then fails; with partial it accepts what fits of the last call.
type faultWriter struct {
	b       bytes.Buffer
	limit   int
	partial bool
	err     error
	failed  bool
	after   int // calls after the failure
	silent  bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		if !w.silent {
			return 0, w.err
		}
	}
	room := w.limit - w.b.Len()
	if len(p) <= room {
		w.b.Write(p)
		return len(p), nil
	}
	w.failed = true
	n := 0
	if w.partial {
		n = room
		w.b.Write(p[:n])
	}
	if w.silent {
		return n, nil
	}
	return n, w.err
}

// faultPoints are offsets at which a stream of n bytes is made to fail.
func faultPoints(g *rand.Rand, n, extra int) []int {
	m := map[int]bool{}
	var o []int
	add := func(x int) {
		if x >= 0 && x < n && !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	if n <= extra {
		for i := 0; i < n; i++ {
			add(i)
		}
		return o
	}
	for i := 0; i < 72; i++ {
		add(i)
	}
	for i := 0; i < 12; i++ {
		add(n - 1 - i)
		add(n - 8*i)
	}
	for len(o) < min(n, extra) {
		add(g.IntN(n))
	}
	return o
}

// faults drives one value through failing streams.
func faults(r *R, g *rand.Rand, label string, p any, extra int) {
	sv, ok := p.(serialValue)
	if !ok {
		return
	}
	keep := cloneDeep(p)
	var b bytes.Buffer
	sv.WriteTo(&b)
	enc := b.Bytes()
	r.Case(label+" failing writers", func() {
		for _, at := range faultPoints(g, len(enc), extra) {
			for mode := 0; mode < 3; mode++ {
				w := &faultWriter{limit: at, partial: mode != 1, err: errPlanted, silent: mode == 2}
				n, err := sv.WriteTo(w)
				if !r.Check(err != nil, "a writer failing at byte %d of %d (mode %d) went unnoticed", at, len(enc), mode) {
					return
				}
				if mode == 2 {
					r.Check(errors.Is(err, io.ErrShortWrite), "a writer short at byte %d gives %v", at, err)
				} else {
					r.Check(errors.Is(err, errPlanted), "a writer failing at byte %d gives %v", at, err)
					r.Check(w.after == 0, "writing went on %d times after the failure at byte %d", w.after, at)
				}
				if !r.Check(n == int64(w.b.Len()), "a writer failing at byte %d (mode %d) took %d bytes, WriteTo says %d", at, mode, w.b.Len(), n) {
					return
				}
				if !r.Check(mode == 2 || bytes.Equal(w.b.Bytes(), enc[:w.b.Len()]), "what was written before the failure at byte %d is not a prefix", at) {
					return
				}
				r.Obs("write faults", 1)
			}
		}
		r.Check(same(p, keep) == "", "a failed write changed the value")
		var b2 bytes.Buffer
		n, err := sv.WriteTo(&b2)
		r.Check(err == nil && n == int64(len(enc)) && bytes.Equal(b2.Bytes(), enc), "writing after a failure is different: %v", err)
	})
	r.Case(label+" failing readers", func() {
		for _, at := range faultPoints(g, len(enc), extra) {
			for mode := 0; mode < 4; mode++ {
				rd := &chunkReader{d: append([]byte(nil), enc[:at]...), g: g, max: 1 << (3 * mode), withEOF: mode%2 == 1}
				if mode >= 2 {
					rd.err = errPlanted
				}
				q := newLike(p)
				n, err := q.(io.ReaderFrom).ReadFrom(rd)
				if !r.Check(err != nil, "a stream ending at byte %d of %d went unnoticed", at, len(enc)) {
					return
				}
				if mode >= 2 {
					r.Check(errors.Is(err, errPlanted), "a reader failing at byte %d gives %v", at, err)
				} else {
					r.Check(errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF), "a stream ending at byte %d gives %v", at, err)
				}
				if !r.Check(n == int64(rd.taken) && rd.taken == at, "of a stream ending at byte %d %d were taken, ReadFrom says %d", at, rd.taken, n) {
					return
				}
				r.Obs("read faults", 1)
			}
			if m, ok := newLike(p).(encoding.BinaryUnmarshaler); ok {
				r.Check(m.UnmarshalBinary(append([]byte(nil), enc[:at]...)) != nil, "UnmarshalBinary accepted %d of %d bytes", at, len(enc))
				r.Obs("truncations", 1)
			}
		}
		// a retry after a failure succeeds
		q := newLike(p)
		for try := 0; try < 4; try++ {
			at := g.IntN(len(enc))
			q.(io.ReaderFrom).ReadFrom(&chunkReader{d: append([]byte(nil), enc[:at]...), g: g, max: 100})
			n, err := q.(io.ReaderFrom).ReadFrom(bytes.NewReader(enc))
			r.Check(err == nil && n == int64(len(enc)), "reading after a failure: %d bytes, %v", n, err)
			if d := same(q, keep); d != "" {
				r.Fail("reading after a failure gives another value at %s", d)
			}
		}
	})
}

// through sends a value through its encoding.
func through[V any](r *R, v V) V {
	p := any(&v).(serialValue)
	var b bytes.Buffer
	n, err := p.WriteTo(&b)
	if err != nil || n != int64(p.ByteSize()) {
		r.Fail("%T: wrote %d of %d: %v", v, n, p.ByteSize(), err)
	}
	var w V
	n, err = any(&w).(io.ReaderFrom).ReadFrom(&b)
	if err != nil || n != int64(p.ByteSize()) {
		r.Fail("%T: read %d of %d: %v", v, n, p.ByteSize(), err)
	}
	if d := same(&v, &w); d != "" {
		r.Fail("%T: the read value differs at %s", v, d)
	}
	r.Obs("objects used after the round trip", 1)
	return w
}
