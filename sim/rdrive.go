package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

const (
	rsNew = iota
	rsHdr
	rsIdx
	rsData
	rsEOF
)

var rsName = []string{"new", "hdr", "idx", "data", "eof"}

// RD drives one FileReader over a simulated stream and checks every call
// against the reference model: a cursor over the list of features.
type RD struct {
	w    *World
	t    *Tape
	f    *FileM
	s    *Source
	base int64
	cut  int64 // bytes of the file that exist
	r    *flatgeobuf.FileReader

	st     int
	next   int
	total  int  // features of the file, as far as a reader can know
	dead   bool // an injected failure was reported
	trunc  bool // the truncation was reported
	broken bool // the truncation was reported by something other than Data
	closed bool
	idxHit bool // the index was read with Index()

	exact      bool // check stream positions and requests
	deep       int  // how many more features to compare field by field
	hdr        *flat.Header
	tree       *packedrtree.PackedRTree
	kept       []keptFeat
	keep       bool
	std        bool // the stream may be one of the standard library's
	buf        []flat.Feature
	skipTo     int64 // during a search: the end of the last feature it returns
	wreckLists bool  // overwrite some result lists after looking at them
	hold       bool  // the list being checked is kept as it is
}

type keptFeat struct {
	f    *flat.Feature // in the list that was returned, or a copy
	m    *FeatM
	what string
}

func newRD(w *World, f *FileM, t *Tape) *RD {
	d := &RD{w: w, t: t, f: f, cut: f.end, total: len(f.feats)}
	return d
}

// open puts the file into a stream at base, followed by tail bytes of other
// data, and makes the reader.
func (d *RD) open(base, tail int64, seekable, closable bool) {
	d.base = base
	d.s = newSource(d.w, base, d.f.bytes[:d.cut])
	d.s.pos = base
	d.s.end = base + d.cut + tail
	d.s.seekable, d.s.closable = seekable, closable
	d.s.stdOK = d.std
	d.w.ev("open:"+d.s.Kind(), base, d.cut)
	d.start()
}

func (d *RD) start() {
	d.w.Call("NewFileReader", 10, func() { d.r = flatgeobuf.NewFileReader(d.s.Reader()) })
	if d.exact {
		d.s.onRead = d.onRead
	}
}

func (d *RD) budget() int { return int(8*(d.s.segTotal()) + 2000) }

func (s *Source) segTotal() int64 {
	var n int64
	for _, g := range s.segs {
		n += int64(len(g.data))
	}
	return n
}

func (d *RD) onRead(pos int64, n int) {
	if n == 0 {
		return
	}
	p := pos - d.base
	f := d.f
	var lim int64
	switch {
	case p < f.hdrEnd:
		lim = f.hdrEnd
	case p < f.idxEnd:
		lim = f.idxEnd
	case p < f.end:
		lo, hi := 0, len(f.feats)-1
		for lo < hi {
			m := (lo + hi) / 2
			if f.featEnd(m) > p {
				hi = m
			} else {
				lo = m + 1
			}
		}
		lim = f.featEnd(lo)
		if d.skipTo > lim {
			lim = d.skipTo // A search may skip several features at once.
		}
	default:
		if f.known() {
			d.w.Fail("over-read", "read of %d bytes at %d, past the end of the file (%d)", n, p, f.end)
		}
		return
	}
	if p+int64(n) > lim {
		d.w.Fail("over-read", "read of %d bytes at %d requests bytes past the end of the item in progress (%d)", n, p, lim)
	}
}

// pre handles what is common to all calls before their outcome is judged.
// It returns true if the outcome was fully judged.
func (d *RD) judge(op string, touches int, n int, err error) bool {
	w := d.w
	if d.closed {
		w.Check(errors.Is(err, flatgeobuf.ErrClosed), "not-closed-error", "%s after Close returned %v, want ErrClosed", op, err)
		w.Check(n == 0, "closed-delivers", "%s after Close returned %d features", op, n)
		w.Check(d.s.touches == touches, "closed-touches", "%s after Close touched the stream", op)
		w.cover("closed", op)
		return true
	}
	if d.dead {
		w.Check(err != nil, "fault-not-sticky", "%s succeeded after a stream failure was reported", op)
		w.Check(n == 0, "fault-delivers", "%s returned %d features after a stream failure was reported", op, n)
		w.Check(!isPlainEOF(err), "fault-as-eof", "%s returned %v after a stream failure was reported", op, err)
		w.Check(d.s.touches == touches, "dead-touches", "%s touched the stream after a stream failure was reported", op)
		w.cover("dead", op)
		return true
	}
	return false
}

func isPlainEOF(err error) bool {
	var e *simErr // A failure may wrap io.EOF.
	return errors.Is(err, io.EOF) && (err == io.EOF || !errors.As(err, &e))
}

// injected checks the outcome of a call in which a fault fired.
func (d *RD) injected(op string, err error) bool {
	inj := d.s.last
	if inj == nil {
		return false
	}
	d.w.Check(err != nil, "fault-swallowed", "%s succeeded although the stream failed with %v", op, inj)
	d.w.Check(hasCause(err, inj), "cause-lost", "%s returned %q, which does not preserve the stream's error %q", op, err, inj)
	d.w.Check(!isPlainEOF(err), "fault-as-eof", "%s returned %q, which reads as end of file", op, err)
	d.w.cover("fault", op, rsName[d.st])
	d.dead = true
	return true
}

func (d *RD) pos(op string, want int64) {
	if d.exact && d.s.at() != d.base+want {
		d.w.Fail("position", "%s left the stream at %d of the file, want %d", op, d.s.at()-d.base, want)
	}
}

func (d *RD) rejected(op string, touches int, pos int64, n int, err error) {
	d.w.Check(err != nil, "order-accepted", "%s in state %s succeeded, want an error", op, rsName[d.st])
	d.w.Check(n == 0, "order-delivers", "%s in state %s returned %d features", op, rsName[d.st], n)
	d.w.Check(d.s.at() == pos && d.s.touches == touches, "order-touches", "rejected %s in state %s touched the stream", op, rsName[d.st])
	d.w.Check(!errors.Is(err, flatgeobuf.ErrClosed), "order-closed", "%s in state %s returned %v, but nothing was closed", op, rsName[d.st], err)
	d.w.cover("rejected", op, rsName[d.st])
}

func (d *RD) isTruncated() bool { return d.cut < d.f.end && !(d.total < len(d.f.feats)) }

func (d *RD) Header() {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	d.s.clearCall()
	var h *flat.Header
	var err error
	w.Call("Header", d.budget(), func() { h, err = d.r.Header() })
	if d.judge("Header", touches, 0, err) {
		return
	}
	if d.st != rsNew {
		d.rejected("Header", touches, pos, 0, err)
		return
	}
	if d.injected("Header", err) {
		return
	}
	if d.cut < d.f.hdrEnd {
		w.Check(err != nil, "truncated-header", "Header succeeded on a file cut at %d of %d header bytes", d.cut, d.f.hdrEnd)
		d.broken = true
		w.cover("truncated", "Header")
		return
	}
	w.Check(err == nil, "header-error", "Header failed: %v", err)
	d.checkHeader(h)
	d.hdr = h
	d.st = rsHdr
	d.pos("Header", d.f.hdrEnd)
	w.cover("ok", "Header", d.s.Kind())
}

func tabBytes(b []byte, want []byte) bool {
	return len(b) >= len(want) && bytes.Equal(b[:len(want)], want)
}

func (d *RD) checkHeader(h *flat.Header) {
	w := d.w
	w.Check(h != nil, "header-nil", "Header returned nil")
	tab := h.Table()
	w.Check(tabBytes(tab.Bytes, d.f.hdr.bytes), "header-content", "header bytes differ from those in the file")
	w.Check(h.FeaturesCount() == d.f.hdr.count && h.IndexNodeSize() == d.f.hdr.nodeSize, "header-content", "header says count %d node size %d, want %d and %d", h.FeaturesCount(), h.IndexNodeSize(), d.f.hdr.count, d.f.hdr.nodeSize)
	if d.deep > 0 {
		w.Call("header accessors", 10, func() { deepHeader(w, h, d.f.hdr) })
	}
}

func (d *RD) Index() {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	d.s.clearCall()
	var x *packedrtree.PackedRTree
	var err error
	w.Call("Index", d.budget(), func() { x, err = d.r.Index() })
	if d.judge("Index", touches, 0, err) {
		return
	}
	if d.trunc || d.broken {
		w.Check(err != nil, "truncated-index", "Index succeeded after the truncation was reported")
		return
	}
	if d.st != rsHdr {
		d.rejected("Index", touches, pos, 0, err)
		return
	}
	if d.injected("Index", err) {
		return
	}
	if d.cut < d.f.idxEnd && !d.idxHit {
		w.Check(err != nil, "truncated-index", "Index succeeded on a file cut at %d, before the end of the index at %d", d.cut, d.f.idxEnd)
		d.broken = true
		w.cover("truncated", "Index")
		return
	}
	w.Check(err == nil, "index-error", "Index failed: %v", err)
	if d.f.nodeSize == 0 {
		w.Check(x == nil, "index-phantom", "Index returned a tree for a file without an index")
	} else {
		w.Check(x != nil, "index-nil", "Index returned nil for a file with an index")
		checkTree(w, x, d.f.idx, len(d.f.leaves), d.f.nodeSize)
		d.tree = x
		d.idxHit = true
	}
	d.st = rsIdx
	d.next = 0
	d.pos("Index", d.f.idxEnd)
	w.cover("ok", "Index", d.s.Kind())
}

// checkTree compares a tree with its serialized form.
func checkTree(w *World, x *packedrtree.PackedRTree, idx []byte, n, ns int) {
	w.Check(x.NumRefs() == n && int(x.NodeSize()) == ns, "tree-params", "tree has %d refs and node size %d, want %d and %d", x.NumRefs(), x.NodeSize(), n, ns)
	b := x.Bounds()
	r := nodeAt(idx, 0)
	w.Check(b == r.Box, "tree-bounds", "tree bounds %v, want %v", b, r.Box)
	var out bytes.Buffer
	m, err := x.Marshal(&out)
	w.Check(err == nil && m == len(idx), "tree-marshal", "Marshal returned (%d, %v), want (%d, nil)", m, err, len(idx))
	w.Check(bytes.Equal(out.Bytes(), idx), "tree-content", "tree serializes to other bytes than the index in the file")
}

func nodeAt(idx []byte, i int) packedrtree.Ref {
	p := idx[40*i:]
	return packedrtree.Ref{Box: packedrtree.Box{XMin: f64(p), YMin: f64(p[8:]), XMax: f64(p[16:]), YMax: f64(p[24:])}, Offset: int64(u64(p[32:]))}
}

// name is a call's name; it avoids package fmt, whose pooled buffers would
// order the tasks of a race run.
func (q BoxM) name(op string) string {
	b := append([]byte(op), '[')
	for i, v := range []float64{q.x0, q.y0, q.x1, q.y1} {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendFloat(b, v, 'g', -1, 64)
	}
	return string(append(b, ']'))
}

// u64 decodes a number of an index.
func u64(p []byte) uint64 {
	if mirror != "" {
		return binary.BigEndian.Uint64(p)
	}
	return uint64(p[0]) | uint64(p[1])<<8 | uint64(p[2])<<16 | uint64(p[3])<<24 | uint64(p[4])<<32 | uint64(p[5])<<40 | uint64(p[6])<<48 | uint64(p[7])<<56
}
func f64(p []byte) float64 { return math.Float64frombits(u64(p)) }
func u32(p []byte) uint32 {
	return uint32(p[0]) | uint32(p[1])<<8 | uint32(p[2])<<16 | uint32(p[3])<<24
}

func boxOf(b BoxM) packedrtree.Box {
	return packedrtree.Box{XMin: b.x0, YMin: b.y0, XMax: b.x1, YMax: b.y1}
}

// checkFeat compares a returned feature with the one in the file.
func (d *RD) checkFeat(op string, g *flat.Feature, i int) {
	m := d.f.feats[i]
	tab := g.Table()
	if !tabBytes(tab.Bytes, m.bytes) {
		d.w.Fail("feature-content", "%s: feature %d of the file was expected, but %s was returned", op, i, d.identify(tab.Bytes))
	}
	if want := 4 + u32(m.bytes[4:]); uint32(tab.Pos) != want {
		d.w.Fail("feature-content", "%s: feature %d has table position %d, want %d", op, i, tab.Pos, want)
	}
	if d.deep > 0 {
		d.deep--
		d.w.Call("feature accessors", 10, func() { deepFeature(d.w, g, m) })
	}
	if d.keep && len(d.kept) < 200 {
		if !d.hold {
			c := *g
			g = &c
		}
		d.kept = append(d.kept, keptFeat{g, m, op + " feature " + strconv.Itoa(i)})
	}
}

func (d *RD) identify(b []byte) string {
	for i, m := range d.f.feats {
		if tabBytes(b, m.bytes) {
			return fmt.Sprintf("feature %d", i)
		}
	}
	return fmt.Sprintf("a record of %d bytes which is not in the file", len(b))
}

// checkKept verifies that values returned earlier are unchanged.
func (d *RD) checkKept() {
	for i := range d.kept {
		k := &d.kept[i]
		tab := k.f.Table()
		d.w.Check(tabBytes(tab.Bytes, k.m.bytes) && uint32(tab.Pos) == 4+u32(k.m.bytes[4:]), "snapshot", "%s changed after it was returned", k.what)
	}
	if d.hdr != nil {
		d.w.Check(tabBytes(d.hdr.Table().Bytes, d.f.hdr.bytes), "snapshot", "header changed after it was returned")
	}
	if d.tree != nil {
		checkTree(d.w, d.tree, d.f.idx, len(d.f.leaves), d.f.nodeSize)
	}
}

func (d *RD) Search(q BoxM) {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	d.s.clearCall()
	var fs []flat.Feature
	var err error
	d.skipTo = 0
	if m := d.f.search(q); len(m) > 0 {
		d.skipTo = d.f.featEnd(m[len(m)-1])
	}
	w.Call(q.name("IndexSearch"), d.budget(), func() { fs, err = d.r.IndexSearch(boxOf(q)) })
	d.skipTo = 0
	if d.judge("IndexSearch", touches, len(fs), err) {
		return
	}
	if d.trunc || d.broken {
		w.Check(err != nil, "truncated-search", "IndexSearch succeeded after the truncation was reported")
		return
	}
	if d.st != rsHdr {
		d.rejected("IndexSearch", touches, pos, len(fs), err)
		return
	}
	if d.injected("IndexSearch", err) {
		// Features delivered together with the error, if any, must be
		// correct answers.
		want := d.f.search(q)
		w.Check(len(fs) <= len(want), "search-extra", "IndexSearch returned %d features together with an error, only %d match", len(fs), len(want))
		for i := range fs {
			d.checkFeat("IndexSearch", &fs[i], want[i])
		}
		return
	}
	if d.f.nodeSize == 0 {
		w.Check(errors.Is(err, flatgeobuf.ErrNoIndex), "no-index-error", "IndexSearch on a file without an index returned %v, want ErrNoIndex", err)
		w.Check(len(fs) == 0, "no-index-features", "IndexSearch on a file without an index returned features")
		d.st = rsIdx
		d.next = 0
		d.pos("IndexSearch", d.f.idxEnd)
		w.cover("ok", "IndexSearch", "noindex", d.s.Kind())
		return
	}
	want := d.f.search(q)
	if err != nil && d.isTruncated() {
		w.Check(len(fs) == 0, "truncated-search", "IndexSearch returned features together with error %v", err)
		d.broken = true
		w.cover("truncated", "IndexSearch")
		return
	}
	w.Check(err == nil, "search-error", "IndexSearch failed: %v", err)
	if len(fs) != len(want) {
		w.Fail("search-count", "IndexSearch returned %d features, %d match %v", len(fs), len(want), want)
	}
	d.hold = d.keep && !(d.wreckLists && d.t.P(500))
	for i := range fs {
		d.checkFeat("IndexSearch", &fs[i], want[i])
	}
	if d.wreckLists && !d.hold {
		// The caller uses the list for something else, beyond its length,
		// too.
		fs = fs[:cap(fs)]
		for i := range fs {
			fs[i] = flat.Feature{}
		}
	}
	d.hold = false
	d.st = rsEOF
	d.next = d.total
	if len(want) > 0 {
		d.pos("IndexSearch", d.f.featEnd(want[len(want)-1]))
	} else {
		d.pos("IndexSearch", d.f.idxEnd)
	}
	k := "streamed"
	if d.idxHit {
		k = "cached"
	}
	n := "some"
	if len(want) == 0 {
		n = "none"
	} else if len(want) == d.total {
		n = "all"
	}
	w.cover("ok", "IndexSearch", k, n, d.s.Kind())
}

// avail is the number of complete features from i on in what exists of the
// file.
func (d *RD) avail() int {
	n := d.next
	for n < d.total && d.f.featEnd(n) <= d.cut {
		n++
	}
	return n - d.next
}

func (d *RD) Data(k int) {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	var p []flat.Feature
	fresh := d.keep && k < 100 && d.t.P(300)
	if fresh {
		p = make([]flat.Feature, k) // A list which the caller keeps.
		d.hold = true
	} else if k <= len(d.buf) {
		p = d.buf[:k]
	} else {
		p = make([]flat.Feature, k)
		d.buf = p
	}
	d.s.clearCall()
	var n int
	var err error
	w.Call("Data("+strconv.Itoa(k)+")", d.budget(), func() { n, err = d.r.Data(p) })
	w.Check(n >= 0 && n <= k, "data-count", "Data(%d) returned %d", k, n)
	d.judgeData("Data", touches, pos, p[:n], k, err)
	d.hold = false
}

func (d *RD) DataRem() {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	d.s.clearCall()
	var p []flat.Feature
	var err error
	w.Call("DataRem", d.budget(), func() { p, err = d.r.DataRem() })
	if err == nil && !d.closed && !d.dead {
		err = io.EOF // DataRem does not signal the end of data, which is where it leads.
	} else if isPlainEOF(err) && d.st != rsNew && !d.broken {
		w.Fail("datarem-eof", "DataRem returned %v", err)
	}
	d.hold = d.keep && !(d.wreckLists && d.t.P(500))
	d.judgeData("DataRem", touches, pos, p, math.MaxInt, err)
	if d.wreckLists && !d.hold {
		p = p[:cap(p)]
		for i := range p {
			p[i] = flat.Feature{}
		}
	}
	d.hold = false
}

func (d *RD) judgeData(op string, touches int, pos int64, p []flat.Feature, k int, err error) {
	w := d.w
	n := len(p)
	if op == "DataRem" && (d.dead || d.closed) && err == io.EOF {
		err = nil
	}
	if d.judge(op, touches, n, err) {
		return
	}
	if d.broken {
		w.Check(err != nil && n == 0, "truncated-data", "%s returned (%d, %v) after the truncation was reported", op, n, err)
		return
	}
	if d.trunc {
		w.Check(n == 0 && (err != nil || k == 0) && !isPlainEOF(err), "truncated-data", "%s returned (%d, %v) after the truncation was reported", op, n, err)
		return
	}
	if d.st == rsNew {
		if op == "DataRem" && err == io.EOF {
			err = nil
		}
		d.rejected(op, touches, pos, n, err)
		return
	}
	rem := d.total - d.next
	av := d.avail()
	w.Check(n <= av, "data-extra", "%s returned %d features, only %d remain", op, n, av)
	for i := range p {
		d.checkFeat(op, &p[i], d.next+i)
	}
	if d.injected(op, err) {
		d.next += n
		return
	}
	atEOF := d.st == rsEOF
	want := rem
	if k < want {
		want = k
	}
	if atEOF {
		w.Check(n == 0, "eof-delivers", "%s returned %d features after the end of data", op, n)
		w.Check(err == io.EOF || (k == 0 && err == nil), "eof-again", "%s at the end of data returned %v, want io.EOF", op, err)
		w.cover("ok", op, "eof", d.s.Kind())
		return
	}
	if av < want || (av < rem && op == "DataRem") {
		// The file is cut short of what was asked for.
		w.Check(n == av, "truncated-lost", "%s returned %d features, %d are complete", op, n, av)
		w.Check(err != nil && !isPlainEOF(err), "truncated-as-eof", "%s on a file cut at %d of %d returned %v after %d of %d features: this reads as a normal end of data", op, d.cut, d.f.end, err, d.next+n, d.total)
		d.next += n
		d.trunc = true
		w.cover("truncated", op)
		return
	}
	w.Check(n == want, "data-count", "%s (asked for %d) returned (%d, %v), %d features remain", op, k, n, err, rem)
	d.next += n
	ended := d.next == d.total
	switch {
	case err == io.EOF:
		w.Check(ended, "eof-early", "%s returned io.EOF with %d features remaining", op, d.total-d.next)
	case err != nil:
		if k == 0 && d.cut <= d.f.idxEnd && d.cut < d.f.end {
			d.broken = true // Skipping the index may already reveal the cut.
			return
		}
		w.Fail("data-error", "%s failed: %v", op, err)
	default:
		if ended && d.f.known() && k > 0 {
			w.Fail("eof-late", "%s returned the last of the declared features without io.EOF", op)
		}
		if ended && k > n {
			w.Fail("eof-late", "%s returned %d of %d features without io.EOF", op, n, k)
		}
	}
	if err == io.EOF {
		d.st = rsEOF
	} else {
		d.st = rsData
	}
	if n > 0 && !(d.next == d.total && !d.f.known() && k > n) {
		d.pos(op, d.f.featEnd(d.next-1))
	}
	w.cover("ok", op, d.s.Kind())
}

func (d *RD) Rewind() {
	w := d.w
	touches, pos := d.s.touches, d.s.at()
	d.s.clearCall()
	var err error
	w.Call("Rewind", d.budget(), func() { err = d.r.Rewind() })
	if d.judge("Rewind", touches, 0, err) {
		return
	}
	if d.broken {
		if err == nil {
			d.broken = false
			d.st, d.next = rsHdr, 0
		}
		return
	}
	if d.trunc {
		if err == nil {
			d.trunc = false
			d.st, d.next = rsHdr, 0
		}
		return
	}
	if d.st == rsNew {
		d.rejected("Rewind", touches, pos, 0, err)
		return
	}
	if !d.s.seekable {
		if d.st == rsHdr && err == nil {
			return // Nothing to rewind.
		}
		d.rejected("Rewind", touches, pos, 0, err)
		return
	}
	if d.injected("Rewind", err) {
		return
	}
	w.Check(err == nil, "rewind-error", "Rewind failed in state %s: %v", rsName[d.st], err)
	w.cover("ok", "Rewind", rsName[d.st])
	d.st, d.next = rsHdr, 0
}

func (d *RD) Close() {
	w := d.w
	touches := d.s.touches
	d.s.clearCall()
	var err error
	w.Call("Close", d.budget(), func() { err = d.r.Close() })
	if d.closed && d.judge("Close", touches, 0, err) {
		return
	}
	if d.s.closable {
		w.Check(d.s.closes == 1, "close-missing", "Close closed the stream %d times", d.s.closes)
		w.Check(d.s.touches == touches+1, "close-touches", "Close touched the stream other than by closing it")
		if d.s.closeErr != nil {
			w.Check(err != nil && hasCause(err, d.s.closeErr), "close-error-lost", "Close returned %v, the stream's close error was %v", err, d.s.closeErr)
		} else {
			w.Check(err == nil, "close-error", "Close failed: %v", err)
		}
	} else {
		w.Check(err == nil, "close-error", "Close failed: %v", err)
		w.Check(d.s.touches == touches, "close-touches", "Close touched the stream")
	}
	d.closed = true
	w.cover("close", rsName[d.st], strconv.FormatBool(d.dead), d.s.Kind())
}
