package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// A HugeM is an indexed file too large to exist: its index and its features
// are computed when a stream delivers them. Feature i is a point at
// (i, i mod 2), all features have the same length, and the index's leaves are
// in feature order or, if rev is set, in the opposite order.
type HugeM struct {
	n, ns  int64
	counts []int64
	starts []int64
	nodes  int64
	rev    bool
	hdr    *HeaderM
	tmpl   []byte
	posX   int
	hdrEnd int64
	idxEnd int64
	end    int64
}

const hugeMark = 1.2345678912345e-77

// genHuge makes an index of more than 2^31 bytes where the machine's integers
// allow it.
func genHuge(w *World, t *Tape) *HugeM {
	h := &HugeM{ns: []int64{16, 16, 2, 3, 7, 255, 4096, 65535}[t.Pick(6, 6, 3, 3, 3, 2, 1, 1)]}
	max := int64(math.MaxInt) / 40
	var target int64 // number of nodes
	switch t.N(8) {
	case 0:
		target = 1<<31/40 + 1 + int64(t.N(50))
	case 1:
		target = 1<<32/40 + 1 + int64(t.N(50))
	case 2:
		target = 1<<33/40 + int64(t.N(1000))
	case 3:
		target = 1<<31 + int64(t.N(100)) - 50
	case 4:
		target = 1<<32 + int64(t.N(100)) - 50
	case 5:
		target = int64(1)<<uint(33+t.N(20)) + int64(t.N(1000))
	case 6:
		target = 1<<31/40 - int64(t.N(1000)) - 1
	case 7:
		target = 1<<32/40 + int64(t.N(1<<30))
	}
	if target > max {
		target = max/2 + int64(t.N(int(max/2)))
	}
	h.n = target/h.ns*(h.ns-1) + 1 + target%h.ns
	if t.P(400) { // counts around powers of two
		if n := int64(1)<<uint(24+t.N(10)) + int64(t.N(5)) - 2; n < max/2 {
			h.n = n
		}
	}
	for {
		h.levels()
		if h.nodes <= max {
			break
		}
		h.n -= 1 + (h.nodes - max)
	}
	h.rev = t.P(400)
	f := &FeatM{geom: &GeomM{typ: 1, xy: []float64{hugeMark, 0}}}
	if t.P(500) {
		f.props = []byte{0, 0, byte(t.N(256))}
	}
	h.tmpl = f.encode(newBuilder(), 0)
	var m [8]byte
	binary.LittleEndian.PutUint64(m[:], math.Float64bits(hugeMark))
	h.posX = bytes.Index(h.tmpl, m[:])
	h.hdr = &HeaderM{name: "huge", gtype: 1, count: uint64(h.n), nodeSize: uint16(h.ns)}
	h.hdr.encode(0)
	h.hdrEnd = int64(len(sig) + len(h.hdr.bytes))
	h.idxEnd = h.hdrEnd + 40*h.nodes
	h.end = h.idxEnd + h.n*int64(len(h.tmpl))
	w.desc = fmt.Sprintf("virtual index of %d refs, node size %d, %d bytes", h.n, h.ns, 40*h.nodes)
	w.cover("huge", fmt.Sprint(h.rev))
	return h
}

func (h *HugeM) levels() {
	h.counts, h.nodes = nil, 0
	for k := h.n; ; {
		h.counts = append(h.counts, k)
		h.nodes += k
		if len(h.counts) > 1 && k == 1 {
			break
		}
		k = (k-1)/h.ns + 1
	}
	h.starts = make([]int64, len(h.counts))
	at := h.nodes
	for i, c := range h.counts {
		at -= c
		h.starts[i] = at
	}
}

// feat is the number of the feature which leaf i refers to, and the reverse.
func (h *HugeM) feat(i int64) int64 {
	if h.rev {
		return h.n - 1 - i
	}
	return i
}

func (h *HugeM) node(k int64, b []byte) {
	l := len(h.starts) - 1
	for h.starts[l]+h.counts[l] <= k {
		l--
	}
	lo := k - h.starts[l]
	hi := lo
	off := int64(0)
	if l > 0 {
		off = h.starts[l-1] + lo*h.ns
	}
	for i := l; i > 0; i-- {
		lo *= h.ns
		hi = hi*h.ns + h.ns - 1
		if hi > h.counts[i-1]-1 {
			hi = h.counts[i-1] - 1
		}
	}
	if h.rev {
		lo, hi = h.feat(hi), h.feat(lo)
	}
	if l == 0 {
		off = lo * int64(len(h.tmpl))
	}
	y0, y1 := 0.0, 1.0
	if lo == hi {
		y0 = float64(lo & 1)
		y1 = y0
	}
	for i, v := range []float64{float64(lo), y0, float64(hi), y1} {
		binary.LittleEndian.PutUint64(b[8*i:], math.Float64bits(v))
	}
	binary.LittleEndian.PutUint64(b[32:], uint64(off))
	if mirror != "" {
		for i := 0; i < 40; i += 8 {
			binary.LittleEndian.PutUint64(b[i:], binary.BigEndian.Uint64(b[i:]))
		}
	}
}

func (h *HugeM) feature(i int64, b []byte) {
	copy(b, h.tmpl)
	binary.LittleEndian.PutUint64(b[h.posX:], math.Float64bits(float64(i)))
	binary.LittleEndian.PutUint64(b[h.posX+8:], math.Float64bits(float64(i&1)))
}

// gen delivers the index section's bytes from at on, and those of the
// features after it.
func (h *HugeM) gen(p []byte, at int64) {
	b := make([]byte, 40+len(h.tmpl))
	for len(p) > 0 {
		var n int
		if at < 40*h.nodes {
			h.node(at/40, b[:40])
			n = copy(p, b[at%40:40])
		} else {
			d := at - 40*h.nodes
			fl := int64(len(h.tmpl))
			h.feature(d/fl, b[:fl])
			n = copy(p, b[d%fl:fl])
		}
		p = p[n:]
		at += int64(n)
	}
}

// query makes a box which intersects few leaves, and the features it has to
// find.
func (h *HugeM) query(t *Tape) (BoxM, []int64) {
	k := int64(t.Skew(20))
	a := int64(0)
	switch t.Pick(2, 2, 2, 2) {
	case 0:
		a = int64(t.U64(uint64(h.n)))
	case 1:
		a = h.n - 1 - k - int64(t.N(3))
	case 2:
		a = int64(t.N(40))
	case 3:
		l := t.N(len(h.counts) - 1)
		w := int64(1)
		for ; l > 0; l-- {
			w *= h.ns
		}
		a = h.feat(w*int64(t.U64(uint64(h.n/w+1))) - int64(t.N(5)))
	}
	if a < 0 {
		a = 0
	} else if a > h.n-1-k {
		a = h.n - 1 - k
	}
	q := BoxM{float64(a), 0, float64(a + k), 1}
	par := int64(-1)
	switch t.Pick(4, 2, 2, 1) {
	case 1:
		q.y1 = 0.5
		par = 0
	case 2:
		q.y0 = 1
		par = 1
	case 3:
		return BoxM{float64(a), 1.5, float64(a + k), 3}, nil
	}
	var want []int64
	for i := a; i <= a+k; i++ {
		if par < 0 || i&1 == par {
			want = append(want, i)
		}
	}
	return q, want
}

const hugeBudget = 4 << 20

// runHugeSeek is C04 on an index which does not fit in memory.
func runHugeSeek(w *World) {
	t := w.T
	h := genHuge(w, t)
	base := pickBase(t, true)
	s := newSource(w, base, nil)
	s.end = base + 40*h.nodes
	s.virt = &virtSeg{base, 40 * h.nodes, h.gen}
	s.seekable = true
	s.Transfer(t)
	idxLimit(w, s, base, 40*h.nodes)
	for i := 1 + t.N(4); i > 0; i-- {
		q, want := h.query(t)
		leaf := func(f int64) (int64, int64) { return h.feat(f), f * int64(len(h.tmpl)) }
		if h.rev { // ascending leaves
			sort.Slice(want, func(a, b int) bool { return want[a] > want[b] })
		}
		s.pos = base
		var rs packedrtree.Results
		var err error
		w.Call(fmt.Sprintf("Seek[%v]", q), hugeBudget, func() {
			rs, err = packedrtree.Seek(s.ReadSeeker(), int(h.n), uint16(h.ns), boxOf(q))
		})
		w.Check(err == nil, "seek-error", "Seek failed: %v", err)
		w.Check(len(rs) == len(want), "search-count", "Seek returned %d results, %d refs intersect", len(rs), len(want))
		for i := range rs {
			ri, off := leaf(want[i])
			w.Check(int64(rs[i].RefIndex) == ri && rs[i].Offset == off, "search-result", "result %d is (ref %d, offset %d), want (%d, %d)", i, rs[i].RefIndex, rs[i].Offset, ri, off)
		}
		w.Check(s.pos == base+40*h.nodes, "position", "Seek left the stream at %d, the index ends at %d", s.pos-base, 40*h.nodes)
	}
	w.nontriv = true
}

// runHugeReader is a reader's call history on a file which does not fit in
// memory.
func runHugeReader(w *World) {
	t := w.T
	h := genHuge(w, t)
	seekable := !t.P(30) || h.idxEnd > 5<<30 || t.small || raceEnabled
	base := pickBase(t, seekable)
	s := newSource(w, base, append(append([]byte{}, sig...), h.hdr.bytes...))
	s.pos = base
	s.end = base + h.end
	gen := h.gen
	if !seekable {
		gen = func(p []byte, at int64) { // Nobody looks at the index.
			if at+int64(len(p)) <= 40*h.nodes {
				for i := range p {
					p[i] = 0
				}
				return
			}
			h.gen(p, at)
		}
	}
	s.virt = &virtSeg{base + h.hdrEnd, h.end - h.hdrEnd, gen}
	s.seekable = seekable
	if seekable || t.P(300) {
		s.Transfer(t)
		if !seekable && s.k < 1000 { // gigabytes are to be skipped
			s.mode = 0
		}
	}
	r := flatgeobuf.NewFileReader(s.Reader())
	var hdr *flat.Header
	var err error
	w.Call("Header", hugeBudget, func() { hdr, err = r.Header() })
	w.Check(err == nil && tabBytes(hdr.Table().Bytes, h.hdr.bytes), "header-error", "Header failed: %v", err)
	fl := int64(len(h.tmpl))
	want := make([]byte, fl)
	check := func(op string, f *flat.Feature, i int64) {
		h.feature(i, want)
		w.Check(tabBytes(f.Table().Bytes, want), "feature-content", "%s did not return feature %d, but other content", op, i)
	}
	at := func(op string, pos int64) {
		w.Check(s.pos == base+pos, "position", "%s left the stream at %d of the file, want %d", op, s.pos-base, pos)
	}
	st, next := rsHdr, int64(0)
	ops := 2 + t.N(7)
	budget := hugeBudget
	if !seekable {
		ops = 1 + t.N(2)
		budget = math.MaxInt
	}
	for i := 0; i < ops; i++ {
		k := t.Pick(4, 4, 3)
		if !seekable {
			k = 1
		}
		switch k {
		case 0:
			if st == rsHdr {
				q, m := h.query(t)
				var fs []flat.Feature
				w.Call(q.name("IndexSearch"), budget, func() { fs, err = r.IndexSearch(boxOf(q)) })
				w.Check(err == nil, "search-error", "IndexSearch failed: %v", err)
				w.Check(len(fs) == len(m), "search-count", "IndexSearch returned %d features, %d match", len(fs), len(m))
				for j := range fs {
					check("IndexSearch", &fs[j], m[j])
				}
				st = rsEOF
				if len(m) > 0 {
					at("IndexSearch", h.idxEnd+(m[len(m)-1]+1)*fl)
				} else {
					at("IndexSearch", h.idxEnd)
				}
			} else {
				tch := s.touches
				w.Call("IndexSearch", budget, func() { _, err = r.IndexSearch(packedrtree.EmptyBox) })
				w.Check(err != nil && s.touches == tch, "order-accepted", "IndexSearch in state %s returned %v", rsName[st], err)
			}
		case 1:
			p := make([]flat.Feature, 1+t.Skew(30))
			n := 0
			w.Call("Data", budget, func() { n, err = r.Data(p) })
			if st == rsEOF {
				w.Check(n == 0 && errors.Is(err, io.EOF), "eof-again", "Data at the end of data returned (%d, %v)", n, err)
				break
			}
			w.Check(n == len(p) && err == nil, "data-error", "Data of %d features returned (%d, %v)", len(p), n, err)
			for j := range p {
				check("Data", &p[j], next+int64(j))
			}
			next += int64(n)
			st = rsData
			at("Data", h.idxEnd+next*fl)
		case 2:
			w.Call("Rewind", budget, func() { err = r.Rewind() })
			w.Check(err == nil, "rewind-error", "Rewind failed in state %s: %v", rsName[st], err)
			st, next = rsHdr, 0
		}
	}
	w.nontriv = true
}
