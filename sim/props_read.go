package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// pickBase picks where in the stream the file starts.
func pickBase(t *Tape, seekable bool) int64 {
	if !seekable {
		return 0
	}
	switch t.Pick(6, 3, 1) {
	case 1:
		return int64(1 + t.N(5000))
	case 2:
		return 5<<30 + int64(t.N(100))
	}
	return 0
}

// batch picks a batch size for Data.
func (d *RD) batch() int {
	switch d.t.Pick(4, 4, 1, 1, 1) {
	case 0:
		return 1
	case 1:
		return 1 + d.t.N(8)
	case 2:
		return 0
	case 3:
		return d.total
	}
	return 1 + d.t.N(2*d.total+3)
}

// drain reads to the end of data.
func (d *RD) drain() {
	for i := 0; d.st != rsEOF && !d.trunc && !d.broken && !d.dead; i++ {
		if i > 40 || d.t.P(150) {
			d.DataRem()
			if d.st != rsEOF && !d.trunc && !d.broken && !d.dead {
				d.w.Fail("datarem-eof", "DataRem did not reach the end of data")
			}
			return
		}
		d.Data(d.batch())
	}
}

// randomOp makes one reader call.
func (d *RD) randomOp(wHeader, wIndex, wSearch, wData, wRem, wRewind, wClose int) {
	if d.w.tired() {
		return
	}
	switch d.t.Pick(wData, wHeader, wIndex, wSearch, wRem, wRewind, wClose) {
	case 0:
		d.Data(d.batch())
	case 1:
		d.Header()
	case 2:
		d.Index()
	case 3:
		d.Search(d.f.genQuery(d.t))
	case 4:
		d.DataRem()
	case 5:
		d.Rewind()
	case 6:
		d.Close()
	}
}

// likelyOp prefers calls which the model accepts.
func (d *RD) likelyOp() {
	if d.w.tired() {
		return
	}
	if d.t.P(120) {
		d.randomOp(1, 1, 1, 1, 1, 1, 0)
		return
	}
	switch d.st {
	case rsNew:
		d.Header()
	case rsHdr:
		d.randomOp(0, 3, 4, 4, 1, 1, 0)
	case rsEOF:
		if d.s.seekable {
			d.randomOp(0, 0, 0, 1, 1, 5, 0)
		} else {
			d.randomOp(1, 1, 1, 1, 1, 1, 0)
		}
	default:
		d.randomOp(0, 0, 0, 6, 1, 3, 0)
	}
}

func fileDesc(f *FileM) string {
	return fmt.Sprintf("file of %d bytes: count %d, %d features, node size %d (header %d), data at %d", len(f.bytes), f.hdr.count, len(f.feats), f.nodeSize, f.hdr.nodeSize, f.idxEnd)
}

// writeFile writes the file with the code under test on a perfect sink and
// returns what was written, as a model.
func writeFile(w *World, t *Tape, f *FileM, mem *argMem) (*FileM, []byte) {
	d := newWD(w, t, f)
	d.mem = mem
	d.s.stdOK = true
	d.share = true
	d.slack = t.P(300)
	d.open(t.P(500))
	d.Header(-1)
	indexed := false
	if f.nodeSize > 0 {
		switch t.Pick(1, 1, 1) {
		case 0:
			d.Index(d.tree(), f.idx, "")
		case 1:
			d.IndexData(f.feats, false, -1, 0)
			indexed = true
		case 2:
			d.IndexData(f.feats, true, -1, 0)
			indexed = true
		}
	}
	if !indexed {
		for _, m := range f.feats {
			d.Data(m, -1)
		}
	}
	d.Close()
	d.release()
	g := f
	if indexed {
		g = &FileM{hdr: f.hdr, nodeSize: f.nodeSize, feats: d.ordered}
		g.assemble(nil)
	}
	w.Check(bytes.Equal(g.bytes, d.s.buf), "content", "the written file differs from the format at byte %d", diffAt(g.bytes, d.s.buf))
	return g, d.s.buf
}

// C01: round trip.
func runC01(w *World) {
	t := w.T
	f := genFile(t, GenOpt{big: t.P(400), many: t.P(200), wide: 40, permute: true})
	w.desc = fileDesc(f)
	if t.P(80) {
		checkBuilders(w, t, f)
		checkMutators(w, t, f)
	}
	var g *FileM
	if t.P(150) {
		g = f // written by another implementation
	} else {
		var mem *argMem
		if t.P(300) {
			mem = &argMem{}
			if t.P(400) { // another file before it, from the same memory
				writeFile(w, t, genFile(t, GenOpt{permute: true, maxFeats: 20}), mem)
			}
		}
		g, _ = writeFile(w, t, f, mem)
	}
	d := newRD(w, g, t)
	d.deep = 4
	d.std = true
	seekable := t.P(500)
	tail := int64(0)
	if g.known() {
		tail = int64(t.Pick(3, 1) * t.N(200))
	}
	d.open(pickBase(t, seekable), tail, seekable, t.P(300))
	d.s.Transfer(t)
	d.Header()
	if t.P(500) {
		d.Index()
	}
	d.drain()
	if t.P(300) {
		d.Data(1 + t.N(3)) // again the end of data
	}
	if seekable && t.P(300) {
		d.Rewind()
		d.drain()
	}
	w.nontriv = len(g.feats) > 0 && (d.s.mode != 0 || d.s.zeros || d.s.eofWith)
	if t.P(250) {
		copyPipeline(w, t, g)
	}
	d.Close()
}

// copyPipeline reads a file and writes what it read: the bytes must be the
// same.
func copyPipeline(w *World, t *Tape, f *FileM) {
	s := newSource(w, 0, f.bytes)
	s.seekable = t.P(500)
	s.Transfer(t)
	sink := &Sink{w: w, stdOK: true}
	s.stdOK = true
	var h *flat.Header
	var err error
	r := flatgeobuf.NewFileReader(s.Reader())
	wr := flatgeobuf.NewFileWriter(sink.Writer())
	b := int(8*len(f.bytes) + 2000)
	w.Call("copy header", b, func() { h, err = r.Header() })
	w.Check(err == nil, "copy", "Header: %v", err)
	w.Call("copy header", b, func() { _, err = wr.Header(h) })
	w.Check(err == nil, "copy", "writing the header read: %v", err)
	var x *packedrtree.PackedRTree
	w.Call("copy index", b, func() { x, err = r.Index() })
	w.Check(err == nil, "copy", "Index: %v", err)
	if x != nil {
		w.Call("copy index", b, func() { _, err = wr.Index(x) })
		w.Check(err == nil, "copy", "writing the index read: %v", err)
	}
	p := make([]flat.Feature, 1+t.N(5))
	for {
		var n int
		w.Call("copy Data", b, func() { n, err = r.Data(p) })
		for i := 0; i < n; i++ {
			var werr error
			w.Call("copy Data", b, func() { _, werr = wr.Data(&p[i]) })
			w.Check(werr == nil, "copy", "writing a feature read: %v", werr)
		}
		if err == io.EOF {
			break
		}
		w.Check(err == nil && n > 0, "copy", "Data returned (%d, %v)", n, err)
	}
	w.Call("copy Close", b, func() { err = wr.Close() })
	w.Check(err == nil, "copy", "Close: %v", err)
	want := f.bytes
	w.Check(bytes.Equal(sink.buf, want), "copy", "copied file differs at byte %d of %d", diffAt(sink.buf, want), len(want))
	w.cover("copy", s.Kind())
}

// punchHole moves the features from number i on n bytes further away.
func (f *FileM) punchHole(i int, n int64) []seg {
	at := f.featStart(i)
	var order []int
	for _, l := range f.leaves {
		order = append(order, l.feat)
	}
	for k := i; k < len(f.feats); k++ {
		f.feats[k].off += n
	}
	for k := range f.leaves {
		f.leaves[k].off = f.feats[f.leaves[k].feat].off
	}
	f.idx = encodeIndex(f.leaves, f.nodeSize)
	copy(f.bytes[f.hdrEnd:], f.idx)
	f.end += n
	return []seg{{0, f.bytes[:at]}, {at + n, f.bytes[at:]}}
}

// C03: file index search.
func runC03(w *World) {
	t := w.T
	if t.P(30) {
		runHugeReader(w)
		return
	}
	o := GenOpt{index: 1, permute: true, big: t.P(200), many: t.P(60)}
	if t.P(120) {
		o.index = 2
	}
	f := genFile(t, o)
	w.desc = fileDesc(f)
	d := newRD(w, f, t)
	d.deep = 2
	hole := f.nodeSize > 0 && t.P(80)
	seekable := hole || t.P(600)
	base := pickBase(t, seekable)
	if hole {
		segs := f.punchHole(t.N(len(f.feats)), int64(1)<<uint(30+t.N(6))+int64(t.N(100)))
		for i := range segs {
			segs[i].off += base
		}
		d.base = base
		d.cut = f.end
		d.s = newSource(w, 0, nil)
		d.s.segs, d.s.pos, d.s.end = segs, base, base+f.end
		d.s.seekable = true
		w.ev("hole", base, f.end)
		d.start()
	} else {
		tail := int64(t.Pick(2, 1) * t.N(100))
		if !f.known() {
			tail = 0
		}
		d.std = true
		d.open(base, tail, seekable, t.P(200))
	}
	d.s.Transfer(t)
	d.Header()
	if !seekable {
		d.Search(f.genQuery(t))
		if f.nodeSize == 0 {
			d.drain()
		} else if t.P(300) {
			d.Data(t.N(3))
		}
	} else {
		n := t.Hist(1, 6)
		for i := 0; i < n; i++ {
			switch t.Pick(6, 2, 2, 1) {
			case 0:
				d.Search(f.genQuery(t))
			case 1:
				d.Index()
			case 2:
				if hole {
					d.Search(f.genQuery(t))
				} else {
					d.Data(d.batch())
				}
			}
			if t.P(900) {
				d.Rewind()
			}
		}
		d.Rewind()
		d.Search(f.genQuery(t))
	}
	w.nontriv = len(f.feats) > 0
	if t.P(200) {
		d.Close()
	}
}

// genLeaves makes references for an index of its own.
func genLeaves(t *Tape, max int) ([]Leaf, int) {
	ns := genNodeSize(t)
	o := GenOpt{maxFeats: 400, minFeats: 1}
	if t.small {
		o.maxFeats, max = 40, 0
	}
	n := genCount(t, ns, &o)
	if max > 0 && t.P(12) {
		n = []int{4096, 32767, 32768, 32769, 40000, max}[t.N(6)]
	}
	g := genCoords(t)
	var d D = t
	leaves := make([]Leaf, n)
	kind := t.Pick(3, 1, 1)
	off := int64(0)
	for i := range leaves {
		if i == 8 {
			d = t.Sub()
		}
		x, y := g.c(d), g.c(d)
		b := BoxM{x, y, x, y}
		if d.P(600) {
			b.add(BoxM{x + float64(d.N(4))*g.scale, y + float64(d.N(4))*g.scale, x, y})
		}
		if d.P(30) {
			b = emptyBoxM
		}
		switch kind {
		case 0:
			off += int64(1 + d.N(500))
		case 1:
			off = int64(d.N(1<<20)) - 1000
		case 2:
			off = int64(d.N(1<<30))<<33 | int64(d.N(1<<20))
		}
		leaves[i] = Leaf{b, off, i}
	}
	return leaves, ns
}

func leafQuery(leaves []Leaf, d D) BoxM {
	f := &FileM{empties: true}
	for i := range leaves {
		f.feats = append(f.feats, &FeatM{box: leaves[i].box})
	}
	return f.genQuery(d)
}

// hilbert gives the tree the order packedrtree.HilbertSort chooses.
func hilbert(w *World, leaves []Leaf) {
	refs := refsOf(leaves)
	b := emptyBoxM
	for i, l := range leaves {
		refs[i].Offset = int64(i)
		b.add(l.box)
	}
	w.Call("HilbertSort", 10, func() { packedrtree.HilbertSort(refs, boxOf(b)) })
	out := make([]Leaf, len(leaves))
	seen := make([]bool, len(leaves))
	for i := range refs {
		k := refs[i].Offset
		w.Check(k >= 0 && k < int64(len(leaves)) && !seen[k] && refs[i].Box == boxOf(leaves[k].box), "hilbert-permutation", "HilbertSort did not permute its input")
		seen[k] = true
		out[i] = leaves[k]
	}
	copy(leaves, out)
}

func checkResults(w *World, op string, rs packedrtree.Results, leaves []Leaf, q BoxM, ordered bool) {
	seen := make(map[int]bool, len(rs))
	last := -1
	for i := range rs {
		k := rs[i].RefIndex
		w.Check(k >= 0 && k < len(leaves), "result-index", "%s: result %d has leaf position %d of %d", op, i, k, len(leaves))
		w.Check(!seen[k], "result-twice", "%s: leaf %d returned twice", op, k)
		seen[k] = true
		w.Check(rs[i].Offset == leaves[k].off, "result-offset", "%s: leaf %d has offset %d, want %d", op, k, rs[i].Offset, leaves[k].off)
		w.Check(q.hits(leaves[k].box), "result-extra", "%s: leaf %d %v does not intersect the query %v", op, k, leaves[k].box, q)
		if ordered {
			w.Check(k > last, "result-order", "%s: leaf %d returned after leaf %d", op, k, last)
			last = k
		}
	}
	for k := range leaves {
		if !seen[k] && q.hits(leaves[k].box) {
			w.Fail("result-missing", "%s: leaf %d %v intersects the query %v but was not returned", op, k, leaves[k].box, q)
		}
	}
}

// idxLimit makes the source complain about requests outside [base,base+n).
func idxLimit(w *World, s *Source, base, n int64) {
	s.onRead = func(pos int64, k int) {
		if k > 0 && (pos < base || pos+int64(k) > base+n) {
			w.Fail("over-read", "read of %d bytes at %d of an index of %d bytes", k, pos-base, n)
		}
	}
}

// C04: streaming index search.
func runC04(w *World) {
	t := w.T
	if t.P(40) {
		runHugeSeek(w)
		return
	}
	leaves, ns := genLeaves(t, 70000)
	if t.P(600) {
		hilbert(w, leaves)
	}
	idx := encodeIndex(leaves, ns)
	w.desc = fmt.Sprintf("index of %d refs, node size %d", len(leaves), ns)
	if t.P(700) {
		refs := refsOf(leaves)
		var x *packedrtree.PackedRTree
		var err error
		w.Call("New", 10, func() { x, err = packedrtree.New(refs, uint16(ns)) })
		w.Check(err == nil, "tree-error", "New: %v", err)
		checkTree(w, x, idx, len(leaves), ns)
	}
	base := pickBase(t, true)
	s := newSource(w, base, idx)
	s.pos = base
	s.end += int64(t.Pick(1, 1) * t.N(300))
	s.Transfer(t)
	s.seekable = true
	s.stdOK = true
	size := int64(len(idx))
	idxLimit(w, s, base, size)
	budget := 8*len(idx) + 2000
	k := 1 + t.N(4)
	if len(leaves) > 2000 {
		k = 1
	}
	mem := makeTree(w, t, leaves, idx, ns)
	for i := 0; i < k; i++ {
		q := leafQuery(leaves, t)
		s.pos = base
		var rs packedrtree.Results
		var err error
		w.Call(fmt.Sprintf("Seek[%v]", q), budget, func() {
			rs, err = packedrtree.Seek(s.ReadSeeker(), len(leaves), uint16(ns), boxOf(q))
		})
		w.Check(err == nil, "seek-error", "Seek failed: %v", err)
		checkResults(w, "Seek", rs, leaves, q, true)
		w.Check(s.at() == base+size, "position", "Seek left the stream at %d, the index ends at %d", s.at()-base, size)
		var ms packedrtree.Results
		w.Call(fmt.Sprintf("Search[%v]", q), budget, func() { ms = mem.Search(boxOf(q)) })
		checkResults(w, "Search", ms, leaves, q, false)
		n := "some"
		if len(rs) == 0 {
			n = "none"
		} else if len(rs) == len(leaves) {
			n = "all"
		}
		w.cover("seek", n)
	}
	w.nontriv = len(leaves) > 1
}

// C05: index serialization.
func runC05(w *World) {
	t := w.T
	leaves, ns := genLeaves(t, 70000)
	idx := encodeIndex(leaves, ns)
	w.desc = fmt.Sprintf("index of %d refs, node size %d", len(leaves), ns)
	var sz int
	var err error
	w.Call("Size", 10, func() { sz, err = packedrtree.Size(len(leaves), uint16(ns)) })
	w.Check(err == nil && sz == len(idx), "size", "Size(%d, %d) = (%d, %v), the index has %d bytes", len(leaves), ns, sz, err, len(idx))
	x := makeTree(w, t, leaves, idx, ns)
	budget := 8*len(idx) + 2000

	// Serialize to a stream which may fail.
	sink := &Sink{w: w}
	if t.P(600) {
		sink.faults = append(sink.faults, genWFault(w, t, int64(len(idx)), 2))
	}
	for try := 0; try < 2; try++ {
		sink.clearCall()
		sink.buf = nil
		var n int
		w.Call("Marshal", budget, func() { n, err = x.Marshal(sink.Writer()) })
		w.Check(n == len(sink.buf), "byte-count", "Marshal returned %d, the stream accepted %d bytes", n, len(sink.buf))
		if sink.last != nil {
			w.Check(err != nil && hasCause(err, sink.last), "cause-lost", "Marshal returned %v, the stream failed with %v", err, sink.last)
			w.Check(bytes.HasPrefix(idx, sink.buf), "content", "failing Marshal wrote other bytes than the index")
			w.cover("marshal", "fault")
			continue
		}
		w.Check(err == nil, "marshal-error", "Marshal failed: %v", err)
		w.Check(bytes.Equal(sink.buf, idx), "content", "Marshal wrote other bytes than the index (at %d)", diffAt(sink.buf, idx))
		w.cover("marshal", "ok")
	}

	// Deserialize from a stream which may fail or be cut.
	base := int64(t.Pick(2, 1) * t.N(1000))
	cut := int64(len(idx))
	s := newSource(w, base, idx)
	s.pos = base
	switch t.Pick(2, 2, 2) {
	case 0:
		s.end += int64(t.Pick(1, 1) * t.N(200))
		s.seekable = t.P(300)
		s.stdOK = true
	case 1:
		cut = genCut(t, cut, 40)
		s.segs[0].data = idx[:cut]
		s.end = base + cut
	case 2:
		s.faults = append(s.faults, genRFault(w, t, base, cut, false))
	}
	s.Transfer(t)
	idxLimit(w, s, base, int64(len(idx)))
	var y *packedrtree.PackedRTree
	w.Call("Unmarshal", budget, func() { y, err = packedrtree.Unmarshal(s.Reader(), len(leaves), uint16(ns)) })
	switch {
	case s.last != nil:
		w.Check(y == nil && err != nil, "fault-swallowed", "Unmarshal returned a tree although the stream failed with %v", s.last)
		w.Check(hasCause(err, s.last), "cause-lost", "Unmarshal returned %q, which does not preserve %q", err, s.last)
		w.cover("unmarshal", "fault")
		w.nontriv = true
		return
	case cut < int64(len(idx)):
		w.Check(y == nil && err != nil, "truncated-index", "Unmarshal returned a tree from %d of %d bytes", cut, len(idx))
		w.Check(errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF), "cause-lost", "Unmarshal of a cut index returned %q", err)
		w.faults["cut"]++
		w.cover("unmarshal", "cut")
		w.nontriv = true
		return
	}
	w.Check(err == nil, "index-error", "Unmarshal failed: %v", err)
	w.Check(s.at() == base+int64(len(idx)), "position", "Unmarshal left the stream at %d, the index ends at %d", s.at()-base, len(idx))
	checkTree(w, y, idx, len(leaves), ns)
	for k := 0; k < 2; k++ {
		q := leafQuery(leaves, t)
		var a, b packedrtree.Results
		w.Call("Search", budget, func() { a, b = x.Search(boxOf(q)), y.Search(boxOf(q)) })
		checkResults(w, "Search", a, leaves, q, false)
		checkResults(w, "Search after Unmarshal", b, leaves, q, false)
	}
	w.cover("unmarshal", "ok")
	w.nontriv = len(leaves) > 1
}

// genCut picks how many of n bytes remain; cuts near the section boundaries
// given are likely.
func genCut(t *Tape, n int64, bounds ...int64) int64 {
	if n == 0 {
		return 0
	}
	var c int64
	if len(bounds) > 0 && t.P(600) {
		c = bounds[t.N(len(bounds))] + int64(t.N(9)) - 4
	} else {
		c = int64(t.N(int(n)))
	}
	if c < 0 {
		c = 0
	}
	if c >= n {
		c = n - 1
	}
	return c
}

// genRFault plans a read or seek failure for n bytes at base.
func genRFault(w *World, t *Tape, base, n int64, seeks bool, bounds ...int64) *RFault {
	f := &RFault{err: newErr(w, "read"), perm: t.P(400), withData: t.P(400)}
	k := t.Pick(5, 2, 3)
	if k == 2 && !seeks {
		k = 0
	}
	switch k {
	case 0:
		f.kind = "byte"
		f.at = base + genCut(t, n, bounds...)
	case 1:
		f.kind = "read"
		f.at = int64(1 + t.Skew(60))
	case 2:
		f.kind = "seek"
		f.at = int64(1 + t.N(8))
	}
	return f
}

// genWFault plans a write failure.
func genWFault(w *World, t *Tape, n int64, ops int, bounds ...int64) *WFault {
	f := &WFault{err: newErr(w, "write"), perm: t.P(350)}
	switch t.Pick(4, 3, 1, 2) {
	case 0:
		f.kind = "byte"
		f.at = genCut(t, n, bounds...)
	case 1:
		f.kind = "write"
		f.at = int64(1 + t.N(ops))
	case 2:
		f.kind = "write"
		f.at = int64(1 + t.N(ops))
		f.late = true
	case 3:
		f.kind = "full"
		f.perm = true
		f.at = genCut(t, n, bounds...)
	}
	return f
}

func (f *FileM) bounds() []int64 {
	b := []int64{0, 8, 12, f.hdrEnd, f.idxEnd, f.end}
	if f.nodeSize > 0 {
		b = append(b, f.hdrEnd+40)
	}
	for i := range f.feats {
		if i > 20 {
			break
		}
		b = append(b, f.featStart(i), f.featStart(i)+4, f.featEnd(i))
	}
	return b
}

// C06: call histories.
func runC06(w *World) {
	t := w.T
	if t.P(20) {
		runHugeReader(w)
		return
	}
	f := genFile(t, GenOpt{permute: true, maxFeats: 40, many: t.P(60)})
	w.desc = fileDesc(f)
	d := newRD(w, f, t)
	d.std = true
	seekable := t.P(600)
	tail := int64(0)
	if f.known() {
		tail = int64(t.Pick(2, 1) * t.N(100))
	}
	d.open(pickBase(t, seekable), tail, seekable, t.P(300))
	d.s.Transfer(t)
	n := t.Hist(2, 14)
	for i := 0; i < n; i++ {
		if t.P(300) {
			d.randomOp(1, 1, 1, 2, 1, 2, 0)
		} else {
			d.likelyOp()
		}
	}
	if d.st == rsNew {
		d.Header()
	}
	d.drain()
	if seekable {
		d.Rewind()
		if t.P(500) {
			d.Search(f.genQuery(t))
		} else {
			d.drain()
		}
	}
	w.nontriv = w.calls > 5
}

// C09: read and seek failures.
func runC09(w *World) {
	w.eofErrs = true
	t := w.T
	if t.P(200) {
		runSeekFaults(w)
		return
	}
	f := genFile(t, GenOpt{permute: true, maxFeats: 40, big: t.P(100), many: t.P(30)})
	w.desc = fileDesc(f)
	d := newRD(w, f, t)
	seekable := t.P(600)
	base := pickBase(t, seekable)
	d.open(base, 0, seekable, t.P(300))
	d.s.Transfer(t)
	nf := 1 + t.Pick(5, 1)
	for i := 0; i < nf; i++ {
		d.s.faults = append(d.s.faults, genRFault(w, t, base, f.end, seekable, f.bounds()...))
	}
	n := t.Hist(3, 12)
	after := 0
	for i := 0; i < n; i++ {
		d.likelyOp()
		if d.dead {
			after++
		}
	}
	if !d.dead {
		if d.st == rsNew {
			d.Header()
		}
		if !d.dead {
			d.drain()
		}
	}
	for i := t.N(4); i >= 0; i-- {
		d.randomOp(1, 1, 1, 1, 1, 1, 0)
	}
	d.Close()
	w.nontriv = d.dead && after > 0
}

// runSeekFaults injects failures into streaming search and deserialization.
func runSeekFaults(w *World) {
	t := w.T
	leaves, ns := genLeaves(t, 0)
	idx := encodeIndex(leaves, ns)
	w.desc = fmt.Sprintf("index of %d refs, node size %d", len(leaves), ns)
	base := pickBase(t, true)
	s := newSource(w, base, idx)
	s.pos = base
	s.seekable = true
	s.Transfer(t)
	counts := levelCounts(len(leaves), ns)
	var bs []int64
	at := int64(0)
	for i := len(counts) - 1; i >= 0; i-- {
		at += 40 * int64(counts[i])
		bs = append(bs, at)
	}
	cut := int64(len(idx))
	if t.P(150) {
		cut = genCut(t, cut, bs...)
		s.segs[0].data = idx[:cut]
		s.end = base + cut
	} else {
		s.faults = append(s.faults, genRFault(w, t, base, int64(len(idx)), true, bs...))
	}
	q := leafQuery(leaves, t)
	budget := 8*len(idx) + 2000
	var rs packedrtree.Results
	var err error
	if t.P(250) {
		var x *packedrtree.PackedRTree
		w.Call("Unmarshal", budget, func() { x, err = packedrtree.Unmarshal(s.Reader(), len(leaves), uint16(ns)) })
		if s.last != nil || cut < int64(len(idx)) {
			w.Check(err != nil && x == nil, "fault-swallowed", "Unmarshal succeeded although the stream failed")
			w.Check(s.last == nil || hasCause(err, s.last), "cause-lost", "Unmarshal returned %q, the stream failed with %q", err, s.last)
		} else {
			w.Check(err == nil, "index-error", "Unmarshal failed: %v", err)
			checkTree(w, x, idx, len(leaves), ns)
		}
	} else {
		w.Call(fmt.Sprintf("Seek[%v]", q), budget, func() {
			rs, err = packedrtree.Seek(s.ReadSeeker(), len(leaves), uint16(ns), boxOf(q))
		})
		switch {
		case s.last != nil:
			w.Check(err != nil, "fault-swallowed", "Seek succeeded although the stream failed with %v", s.last)
			w.Check(hasCause(err, s.last), "cause-lost", "Seek returned %q, which does not preserve %q", err, s.last)
			w.Check(len(rs) == 0, "fault-delivers", "Seek returned results together with an error")
		case err != nil:
			w.Check(cut < int64(len(idx)), "seek-error", "Seek failed: %v", err)
			w.Check(errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF), "cause-lost", "Seek on a cut index returned %q", err)
		default:
			checkResults(w, "Seek", rs, leaves, q, true)
		}
	}
	w.nontriv = w.fired > 0
}

// C10: truncation.
func runC10(w *World) {
	t := w.T
	f := genFile(t, GenOpt{permute: true, maxFeats: 40, big: t.P(60), many: t.P(40)})
	d := newRD(w, f, t)
	d.cut = genCut(t, f.end, f.bounds()...)
	w.desc = fileDesc(f) + fmt.Sprintf(", cut at %d", d.cut)
	w.faults["cut"]++
	sec := "preamble"
	switch {
	case d.cut >= f.idxEnd:
		sec = "data"
	case d.cut >= f.hdrEnd:
		sec = "index"
	case d.cut >= 12:
		sec = "header"
	}
	w.cover("cut", sec)
	if !f.known() && d.cut >= f.hdrEnd {
		// A cut between two features cannot be told from the end.
		for i := range f.feats {
			if f.featStart(i) == d.cut {
				d.total = i
			}
		}
	}
	seekable := t.P(500)
	d.std = true
	d.open(pickBase(t, seekable), 0, seekable, t.P(200))
	d.s.Transfer(t)
	d.Header()
	if !d.broken {
		n := t.N(5)
		for i := 0; i < n && !d.broken; i++ {
			d.likelyOp()
		}
		if !d.broken {
			d.drain()
		}
		if d.trunc {
			d.Data(1 + t.N(3))
		}
		if seekable && t.P(400) {
			d.Rewind()
			if !d.trunc && !d.broken {
				if t.P(500) {
					d.Search(f.genQuery(t))
				} else {
					d.drain()
				}
			}
		}
	}
	if d.broken {
		if t.P(500) {
			d.Data(1 + t.N(3))
		} else {
			d.DataRem()
		}
	}
	w.nontriv = true
	d.Close()
}

// C12: close, for readers and writers.
func runC12(w *World) {
	t := w.T
	if t.P(400) {
		runC12w(w)
		return
	}
	f := genFile(t, GenOpt{permute: true, maxFeats: 30})
	w.desc = fileDesc(f)
	d := newRD(w, f, t)
	d.keep = true
	d.deep = 2
	seekable := t.P(500)
	closable := t.P(800)
	d.open(pickBase(t, seekable), 0, seekable, closable)
	d.s.Transfer(t)
	if t.P(400) {
		d.s.closeErr = newErr(w, "close")
	}
	if t.P(300) {
		d.s.faults = append(d.s.faults, genRFault(w, t, d.base, f.end, seekable, f.bounds()...))
	}
	n := t.Hist(0, 8)
	for i := 0; i < n; i++ {
		d.likelyOp()
		w.Check(d.s.closes == 0, "closed-early", "the stream was closed by %s", w.call)
	}
	d.Close()
	d.checkKept()
	for i := 1 + t.N(6); i > 0; i-- {
		d.randomOp(1, 1, 1, 1, 1, 1, 2)
	}
	d.checkKept()
	for i := range d.kept {
		if i < 3 {
			k := &d.kept[i]
			w.Call("feature accessors", 10, func() { deepFeature(w, k.f, k.m) })
		}
	}
	w.Check(!closable || d.s.closes == 1, "close-count", "the stream was closed %d times", d.s.closes)
	w.nontriv = n > 0
}

// C17: exact consumption.
func runC17(w *World) {
	t := w.T
	if t.P(15) {
		runHugeReader(w)
		return
	}
	switch t.Pick(5, 2, 2, 1) {
	case 0:
		f := genFile(t, GenOpt{permute: true, maxFeats: 60, big: t.P(150), many: t.P(30)})
		w.desc = fileDesc(f)
		d := newRD(w, f, t)
		d.exact = true
		d.std = true
		seekable := t.P(500)
		tail := int64(0)
		if f.known() {
			tail = int64(t.N(300))
		}
		d.open(pickBase(t, seekable), tail, seekable, t.P(200))
		d.s.Transfer(t)
		n := t.Hist(2, 8)
		for i := 0; i < n; i++ {
			d.likelyOp()
		}
		if d.st == rsNew {
			d.Header()
		}
		d.drain()
		w.nontriv = w.calls > 4
	case 1:
		runBackToBack(w)
	case 2:
		runPropConsumption(w)
	case 3:
		n := t.N(20)
		b := make([]byte, n)
		copy(b, sig)
		base := int64(t.N(50))
		s := newSource(w, base, b)
		s.pos = base
		s.seekable = t.P(300)
		s.stdOK = true
		s.Transfer(t)
		idxLimit(w, s, base, 8)
		var err error
		w.Call("Magic", 8*n+100, func() { _, err = flatgeobuf.Magic(s.Reader()) })
		want := int64(8)
		if n < 8 {
			want = int64(n)
			w.Check(err != nil, "magic-short", "Magic accepted %d bytes", n)
		} else {
			w.Check(err == nil, "magic-error", "Magic failed: %v", err)
		}
		w.Check(s.at() == base+want, "position", "Magic consumed %d bytes, want %d", s.at()-base, want)
		w.nontriv = true
	}
}

// runBackToBack reads several files and other data from one stream.
func runBackToBack(w *World) {
	t := w.T
	k := 2 + t.N(3)
	files := make([]*FileM, k)
	var all []byte
	var starts []int64
	lead := t.N(50)
	all = append(all, bytes.Repeat([]byte{0xC3}, lead)...)
	for i := range files {
		files[i] = genFile(t, GenOpt{count: 1, permute: true, maxFeats: 12})
		starts = append(starts, int64(len(all)))
		all = append(all, files[i].bytes...)
		all = append(all, bytes.Repeat([]byte{0x3C}, t.Pick(1, 1)*t.N(20))...)
	}
	w.desc = fmt.Sprintf("%d files back to back, %d bytes", k, len(all))
	s := newSource(w, 0, all)
	s.seekable = t.P(500)
	s.Transfer(t)
	skip := func(to int64) {
		s.onRead = nil
		for s.pos < to {
			_, err := s.read(make([]byte, to-s.pos))
			if err != nil {
				break
			}
		}
		w.Check(s.pos == to, "position", "stream is at %d, the next file starts at %d", s.pos, to)
	}
	for i, f := range files {
		skip(starts[i])
		d := newRD(w, f, t)
		d.exact = true
		d.base = starts[i]
		d.s = s
		d.start()
		d.Header()
		switch t.Pick(2, 1, 1) {
		case 0:
			d.drain()
		case 1:
			d.Index()
			d.drain()
		case 2:
			if f.nodeSize > 0 && s.seekable {
				d.Search(f.genQuery(t))
				d.Rewind()
			}
			d.drain()
		}
	}
	w.nontriv = true
}

var errAny = errors.New("any")

// C20: preamble.
func runC20(w *World) {
	t := w.T
	f := genFile(t, GenOpt{maxFeats: 6})
	var b []byte
	why := ""
	set := func(v string) { why = v }
	mk := func(mod func(h *HeaderM)) {
		h := *f.hdr
		mod(&h)
		h.encode(0)
		b = append(append([]byte{}, sig...), h.bytes...)
		b = append(b, f.bytes[f.hdrEnd:]...)
	}
	b = append([]byte{}, f.bytes...)
	major, patch := byte(3), byte(1)
	magicOK := true
	cut := int64(-1)
	var fault *RFault
	headerRead := true // whether the header may be returned together with the error
	headerRead = false
	var segs []seg
	var grow int64 // how much longer the header is made with bytes no table of it uses
	present := func(n int64) {
		grow = n - int64(len(f.hdr.bytes)-4)
		b[8], b[9], b[10], b[11] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		segs = []seg{{0, b[:f.hdrEnd]}, {f.hdrEnd + grow, b[f.hdrEnd:]}}
	}
	maxCount, unsized := false, false
	switch k := t.Pick(3000, 3000, 3000, 2000, 2000, 2000, 2000, 2000, 2000, 20, 100, 400); k {
	case 11: // an index which is larger than any integer can tell
		mk(func(h *HeaderM) {
			h.nodeSize = uint16(genNodeSize(t))
			h.count = math.MaxInt - uint64(t.Skew(1000))
			if t.P(500) {
				h.count = math.MaxInt/40 + 1 + uint64(t.Skew(1<<30))
			}
		})
		if t.P(700) { // what follows the header looks like features
			b = append(b[:len(b)-len(f.bytes)+int(f.hdrEnd)], f.bytes[f.idxEnd:]...)
		}
		unsized = true
		w.cover("count", "unsized")
	case 10: // the largest count, which is valid
		mk(func(h *HeaderM) { h.count, h.nodeSize = math.MaxInt, 0 })
		b = append(b[:len(b)-len(f.bytes)+int(f.hdrEnd)], f.bytes[f.idxEnd:]...)
		maxCount = true
		w.cover("count", "largest")
	case 9: // a long header, up to the limit
		n := int64(32<<20) - int64(t.Skew(3))
		if t.P(800) {
			n = int64(1)<<(12+t.N(10)) + int64(t.N(5)) - 2
		}
		if m := int64(len(f.hdr.bytes) - 4); n < m {
			n = m
		}
		present(n)
		w.cover("header-length", strconv.Itoa(bits.Len64(uint64(n))))
	case 0: // valid; any patch version
		patch = byte(t.N(256))
		b[7] = patch
	case 1: // wrong signature byte
		i := []int{0, 1, 2, 4, 5, 6}[t.N(6)]
		b[i] ^= byte(1 + t.N(255))
		magicOK = false
		set("signature")
	case 2: // wrong major version
		major = byte(t.N(256))
		patch = byte(t.N(256))
		b[3], b[7] = major, patch
		if major != 3 {
			set("major version")
		}
	case 3: // header length too small
		n := t.N(4)
		b[8], b[9], b[10], b[11] = byte(n), 0, 0, 0
		set("header length too small")
	case 4: // header length beyond the limit
		n := uint32(32<<20) + 1 + uint32(t.Skew(1<<30))
		if t.P(300) {
			n = math.MaxUint32 - uint32(t.N(10))
		}
		if t.P(400) { // all of it is there, and readable
			n = uint32(32<<20) + 1 + uint32(t.Skew(1<<20))
			present(int64(n))
		}
		b[8], b[9], b[10], b[11] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		set("header length beyond limit")
	case 5:
		mk(func(h *HeaderM) { h.nodeSize = 1 })
		set("node size 1")
		headerRead = true
	case 6:
		mk(func(h *HeaderM) {
			h.count = math.MaxInt + 1 + uint64(t.N(1<<30))
			if t.P(300) {
				h.count = math.MaxUint64 - uint64(t.N(3))
			}
		})
		set("count beyond int")
		headerRead = true
	case 7:
		cut = genCut(t, f.hdrEnd, 0, 8, 12, f.hdrEnd)
		b = b[:cut]
		if cut >= 12 && t.P(250) { // of a header of another length
			n := max(4, int(cut)-12+1+t.Skew(1<<16))
			b[8], b[9], b[10], b[11] = byte(n), byte(n>>8), byte(n>>16), 0
			if t.P(400) {
				clear(b[12:])
			}
		}
		set("cut")
		w.faults["cut"]++
		magicOK = cut >= 8
	case 8:
		set("fault")
		fault = genRFault(w, t, 0, f.hdrEnd, false, 0, 8, 12)
		if fault.kind == "read" {
			fault.at = int64(1 + t.N(3))
		}
	}
	w.desc = fmt.Sprintf("preamble: %s, %d bytes", why, len(b))
	base := int64(t.Pick(3, 1) * t.N(100))
	newS := func() *Source {
		s := newSource(w, base, b)
		s.pos = base
		if segs != nil {
			s.segs = []seg{{base + segs[0].off, segs[0].data}, {base + segs[1].off, segs[1].data}}
			s.end += grow
		}
		s.seekable = t.P(500)
		s.closable = t.P(300)
		s.stdOK = fault == nil
		s.Transfer(t)
		return s
	}
	budget := 8*(len(b)+int(grow)) + 2000
	// Magic on its own.
	if fault == nil || t.P(500) {
		s := newS()
		if fault != nil {
			x := *fault
			if x.kind == "byte" {
				x.at += base
			}
			s.faults = []*RFault{&x}
		}
		var v flatgeobuf.SpecVersion
		var err error
		w.Call("Magic", budget, func() { v, err = flatgeobuf.Magic(s.Reader()) })
		if s.last != nil {
			w.Check(err != nil, "fault-swallowed", "Magic succeeded although the stream failed with %v", s.last)
			w.Check(hasCause(err, s.last), "cause-lost", "Magic returned %q, which does not preserve %q", err, s.last)
			w.cover("magic", "fault")
		} else {
			if magicOK {
				w.Check(err == nil && v.Major == major && v.Patch == patch, "magic", "Magic returned (%v, %v), want version %d.%d", v, err, major, patch)
			} else {
				w.Check(err != nil, "magic-accepted", "Magic accepted an invalid signature or a short stream")
			}
			n := int64(8)
			if int64(len(b)) < n {
				n = int64(len(b))
			}
			w.Check(s.at() == base+n, "position", "Magic consumed %d bytes, want %d", s.at()-base, n)
			w.cover("magic", fmt.Sprint(magicOK))
		}
	}
	s := newS()
	if fault != nil {
		if fault.kind == "byte" {
			fault.at += base
		}
		s.faults = []*RFault{fault}
	}
	r := flatgeobuf.NewFileReader(s.Reader())
	var h *flat.Header
	var err error
	w.Call("Header", budget, func() { h, err = r.Header() })
	if fault != nil && s.last == nil { // it came too late
		w.Check(err == nil, "header-error", "Header failed: %v", err)
		return
	}
	w.cover("header", why)
	w.nontriv = true
	if unsized && err != nil {
		w.cover("count", "refused")
	} else if unsized {
		for i := 1 + t.N(5); i > 0; i-- {
			p := make([]flat.Feature, 1+t.N(3))
			n := 0
			op := []string{"Data", "DataRem", "IndexSearch", "Index", "Rewind"}[t.N(5)]
			w.Call(op, budget, func() {
				switch op {
				case "Data":
					n, err = r.Data(p)
				case "DataRem":
					p, err = r.DataRem()
					n = len(p)
				case "IndexSearch":
					p, err = r.IndexSearch(boxOf(f.genQuery(t)))
					n = len(p)
				case "Index":
					_, err = r.Index()
				case "Rewind":
					_ = r.Rewind()
					err = errAny
				}
			})
			w.Check(n == 0 && err != nil && !isPlainEOF(err), "unsized-index", "%s of a file whose index has more than %d bytes returned (%d, %v)", op, math.MaxInt, n, err)
		}
		return
	}
	if why == "" {
		w.Check(err == nil && h != nil, "header-refused", "Header refused a valid version %d.%d file: %v", major, patch, err)
		if maxCount {
			w.Check(h.FeaturesCount() == math.MaxInt, "header-content", "feature count %d, want %d", h.FeaturesCount(), math.MaxInt)
			p := make([]flat.Feature, len(f.feats))
			n := 0
			w.Call("Data", budget, func() { n, err = r.Data(p) })
			w.Check(n == len(p) && err == nil, "data-error", "Data of %d features returned (%d, %v)", len(p), n, err)
			for i := range p {
				w.Check(tabBytes(p[i].Table().Bytes, f.feats[i].bytes), "feature-content", "feature %d differs", i)
			}
			p = make([]flat.Feature, 1)
			w.Call("Data", budget, func() { n, err = r.Data(p) })
			w.Check(n == 0 && err != nil && !isPlainEOF(err), "truncated-as-eof", "Data at the end of a file which lacks features returned (%d, %v)", n, err)
			return
		}
		deepHeader(w, h, f.hdr)
		if grow > 0 {
			g := *f
			g.hdrEnd += grow
			g.idxEnd += grow
			g.end += grow
			f = &g
		}
		d := newRD(w, f, t)
		d.base, d.s, d.r, d.st = base, s, r, rsHdr
		d.cut = f.end
		d.drain()
		return
	}
	w.Check(err != nil, "header-accepted", "Header accepted a stream with invalid %s", why)
	w.Check(h == nil || headerRead, "header-accepted", "Header returned a header together with %v", err)
	if s.last != nil {
		w.Check(hasCause(err, s.last), "cause-lost", "Header returned %q, which does not preserve %q", err, s.last)
	}
	if why == "cut" {
		w.Check(errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF), "cause-lost", "Header of a cut stream returned %q", err)
	}
	for i := 1 + t.N(6); i > 0; i-- {
		p := make([]flat.Feature, 1+t.N(3))
		switch t.N(6) {
		case 0:
			w.Call("Header", budget, func() { _, err = r.Header() })
			w.Check(err != nil, "after-bad-header", "second Header succeeded")
		case 1:
			var n int
			w.Call("Data", budget, func() { n, err = r.Data(p) })
			w.Check(err != nil && n == 0, "after-bad-header", "Data returned (%d, %v) after Header failed", n, err)
		case 2:
			var fs []flat.Feature
			w.Call("DataRem", budget, func() { fs, err = r.DataRem() })
			w.Check(err != nil && len(fs) == 0, "after-bad-header", "DataRem returned (%d, %v) after Header failed", len(fs), err)
		case 3:
			var fs []flat.Feature
			w.Call("IndexSearch", budget, func() { fs, err = r.IndexSearch(packedrtree.Box{XMin: -1e9, YMin: -1e9, XMax: 1e9, YMax: 1e9}) })
			w.Check(err != nil && len(fs) == 0, "after-bad-header", "IndexSearch returned (%d, %v) after Header failed", len(fs), err)
		case 4:
			w.Call("Rewind", budget, func() { err = r.Rewind() })
			w.Check(err != nil, "after-bad-header", "Rewind succeeded after Header failed")
		case 5:
			var x *packedrtree.PackedRTree
			w.Call("Index", budget, func() { x, err = r.Index() })
			w.Check(err != nil && x == nil, "after-bad-header", "Index returned (%v, %v) after Header failed", x, err)
		}
	}
}
