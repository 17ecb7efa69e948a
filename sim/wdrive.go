package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	fb "github.com/google/flatbuffers/go"
)

// WD drives one FileWriter over a simulated sink and checks every call
// against the reference model of a writer.
type WD struct {
	share  bool // features to index may be listed more than once
	nested bool // a geometry is nested more deeply than has to be accepted
	heavy  int  // rejected calls with very many features
	w      *World
	t      *Tape
	f      *FileM // what is to be written
	s      *Sink
	wr     *flatgeobuf.FileWriter

	st      int
	next    int    // features written
	exp     []byte // what the sink must hold
	ns      int    // node size in force: 0 if there is no index
	dead    bool
	closed  bool
	limbo   bool // outcome of a failed call unspecified: only the prefix rule applies
	slack   bool // hand over tables in larger buffers
	scratch [][]byte
	method  string
	ordered []*FeatM // features in the order they were written
	args    []argSnap
	mem     *argMem
}

// argMem is memory which a caller uses again for the arguments of later calls,
// of one writer or of several in turn: the bytes of tables, the structs around
// them, and lists.
type argMem struct {
	free [][]byte
	hdr  flat.Header
	feat flat.Feature
	vals []flat.Feature
	ptrs []*flat.Feature
}

// release says that the call is over: the arguments are the caller's again.
func (d *WD) release() {
	if d.mem == nil {
		return
	}
	d.checkArgs()
	for _, a := range d.args {
		d.mem.free = append(d.mem.free, a.b[:0])
	}
	d.args = d.args[:0]
}

// take returns free memory for n bytes.
func (m *argMem) take(n int) []byte {
	for i := len(m.free) - 1; i >= 0 && i >= len(m.free)-8; i-- {
		if b := m.free[i]; cap(b) >= n {
			m.free = append(m.free[:i], m.free[i+1:]...)
			return b[:n]
		}
	}
	return nil
}

type argSnap struct {
	what string
	b    []byte
	copy []byte
}

func newWD(w *World, t *Tape, f *FileM) *WD {
	d := &WD{w: w, t: t, f: f, s: &Sink{w: w}}
	return d
}

func (d *WD) open(closable bool) {
	d.s.closable = closable
	d.w.Call("NewFileWriter", 10, func() { d.wr = flatgeobuf.NewFileWriter(d.s.Writer()) })
	d.ns = d.f.nodeSize
}

func (d *WD) budget() int { return 50*len(d.f.feats) + len(d.f.bytes) + 2000 }

// table copies an encoded table into a buffer of its own, sometimes with
// other bytes after it.
func (d *WD) table(b []byte) []byte {
	n := len(b)
	var out []byte
	if d.mem != nil {
		out = d.mem.take(n)
	}
	if out != nil {
		d.w.faults["reused-memory"]++
	} else {
		out = make([]byte, n, n+16)
	}
	copy(out, b)
	if d.slack {
		out = append(out, "\xde\xad\xbe\xef"...)
	}
	d.args = append(d.args, argSnap{"argument", out, append([]byte(nil), out...)})
	return out
}

func (d *WD) checkArgs() {
	for _, a := range d.args {
		d.w.Check(bytes.Equal(a.b, a.copy), "argument-modified", "an argument's bytes were modified")
	}
}

func (d *WD) hdrArg() *flat.Header {
	if d.mem != nil {
		b := d.table(d.f.hdr.bytes)
		d.mem.hdr.Init(b, 4+fb.UOffsetT(u32(b[4:])))
		return &d.mem.hdr
	}
	return flat.GetSizePrefixedRootAsHeader(d.table(d.f.hdr.bytes), 0)
}

func (d *WD) featArg(m *FeatM) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(d.table(m.bytes), 0)
}

// oneFeatArg is a feature for a call of its own.
func (d *WD) oneFeatArg(m *FeatM) *flat.Feature {
	x := d.featArg(m)
	if d.mem != nil {
		d.mem.feat = *x
		return &d.mem.feat
	}
	return x
}

// lists returns lists for n features.
func (d *WD) lists(n int) ([]flat.Feature, []*flat.Feature) {
	if d.mem == nil {
		return make([]flat.Feature, n), make([]*flat.Feature, n)
	}
	if cap(d.mem.vals) < n {
		d.mem.vals = make([]flat.Feature, n, n+n/2+4)
		d.mem.ptrs = make([]*flat.Feature, n, n+n/2+4)
	}
	return d.mem.vals[:n], d.mem.ptrs[:n]
}

// badHeader makes a header which has to be rejected.
func (d *WD) badHeader(kind int) (*flat.Header, string) {
	x, r := d.badHeader1(kind)
	if d.mem != nil {
		b := d.table(x.Table().Bytes)
		d.mem.hdr.Init(b[:len(x.Table().Bytes):len(x.Table().Bytes)], x.Table().Pos)
		x = &d.mem.hdr
	}
	return x, r
}

func (d *WD) badHeader1(kind int) (*flat.Header, string) {
	h := *d.f.hdr
	switch kind {
	case 0:
		h.nodeSize = 1
		h.encode(0)
		return flat.GetSizePrefixedRootAsHeader(h.bytes, 0), "node size 1"
	case 1:
		h.count = 1<<63 + uint64(d.t.N(3))
		h.encode(0)
		return flat.GetSizePrefixedRootAsHeader(h.bytes, 0), "count beyond int"
	case 2:
		b := append([]byte(nil), d.f.hdr.bytes[4:]...)
		return flat.GetRootAsHeader(b, 0), "not size-prefixed"
	case 3:
		b := append([]byte{9, 9, 9, 9}, d.f.hdr.bytes...)
		return flat.GetSizePrefixedRootAsHeader(b, 4), "not at offset 0"
	case 4:
		b := append([]byte(nil), d.f.hdr.bytes...)
		binary.LittleEndian.PutUint32(b, uint32(len(b)-4+1+d.t.N(100)))
		return flat.GetSizePrefixedRootAsHeader(b, 0), "shorter than its size prefix"
	}
	if kind == 6 {
		if b := d.badVtable(); b != nil {
			return flat.GetSizePrefixedRootAsHeader(b[:len(b):len(b)], 0), "with fields outside the table"
		}
	}
	b := cutTable(d.t, d.f.hdr.bytes)
	x := &flat.Header{}
	x.Init(b, 4+fb.UOffsetT(u32(d.f.hdr.bytes[4:])))
	return x, "truncated"
}

func (d *WD) badFeature(m *FeatM, kind int) (*flat.Feature, string) {
	x, r := d.badFeature1(m, kind)
	if d.mem != nil { // in memory which held something else before
		b := d.table(x.Table().Bytes)
		d.mem.feat.Init(b[:len(x.Table().Bytes):len(x.Table().Bytes)], x.Table().Pos)
		x = &d.mem.feat
	}
	return x, r
}

func (d *WD) badFeature1(m *FeatM, kind int) (*flat.Feature, string) {
	switch kind {
	case 0:
		b := append([]byte(nil), m.bytes[4:]...)
		return flat.GetRootAsFeature(b, 0), "not size-prefixed"
	case 1:
		b := append([]byte{9, 9, 9, 9}, m.bytes...)
		return flat.GetSizePrefixedRootAsFeature(b, 4), "not at offset 0"
	case 2:
		b := append([]byte(nil), m.bytes...)
		binary.LittleEndian.PutUint32(b, uint32(len(b)-4+1+d.t.N(100)))
		return flat.GetSizePrefixedRootAsFeature(b, 0), "shorter than its size prefix"
	}
	if kind > 3 {
		if b := d.badGeometry(m); b != nil {
			return flat.GetSizePrefixedRootAsFeature(b[:len(b):len(b)], 0), "with an unreadable geometry"
		}
	}
	b := cutTable(d.t, m.bytes)
	x := &flat.Feature{}
	x.Init(b, 4+fb.UOffsetT(u32(m.bytes[4:])))
	return x, "truncated"
}

// cutTable returns a proper prefix of a table. Now and then the bytes which
// were cut off are still within the capacity of the slice.
func cutTable(t *Tape, b []byte) []byte {
	n := len(b) - 1 - t.N(len(b)-9)
	if t.P(200) {
		n = t.N(9)
	}
	c := append([]byte(nil), b...)
	if t.P(300) {
		return c[:n:n]
	}
	return c[:n:len(c)]
}

// fieldAt returns the position of a field of the table at p, 0 if absent.
func fieldAt(b []byte, p, i int) int {
	vt := p - int(int32(u32(b[p:])))
	if 4+2*i >= int(binary.LittleEndian.Uint16(b[vt:])) {
		return 0
	}
	if o := int(binary.LittleEndian.Uint16(b[vt+4+2*i:])); o > 0 {
		return p + o
	}
	return 0
}

// badVtable makes a complete size-prefixed table in which the feature count or
// the node size cannot be read.
func (d *WD) badVtable() []byte {
	b := append([]byte(nil), d.f.hdr.bytes...)
	if len(b) > 60000 {
		return nil
	}
	p := 4 + int(u32(b[4:]))
	vt := p - int(int32(u32(b[p:])))
	slot := vt + 4 + 2*(8+d.t.N(2)) // feature count, node size
	if d.t.P(300) || slot >= vt+int(binary.LittleEndian.Uint16(b[vt:])) {
		// A virtual table far behind the end.
		binary.LittleEndian.PutUint32(b[p:], uint32(-(int32(len(b)) + int32(d.t.N(1<<20)))))
		return b
	}
	binary.LittleEndian.PutUint16(b[slot:], uint16(len(b)-p+d.t.N(65535-len(b))))
	return b
}

// badGeometry makes a complete size-prefixed table whose geometry has offsets
// or lengths which lead out of it.
func (d *WD) badGeometry(m *FeatM) []byte {
	b := append([]byte(nil), m.bytes...)
	field := func(p, i int) int { return fieldAt(b, p, i) }
	g := field(4+int(u32(b[4:])), 0)
	if g == 0 {
		return nil
	}
	far := uint32(len(b) + d.t.N(1<<20))
	gp := g + int(u32(b[g:]))
	at := g
	if xy := field(gp, 1); xy > 0 {
		switch d.t.N(3) {
		case 1:
			at = xy
		case 2: // more coordinates than there are bytes
			at = xy + int(u32(b[xy:]))
			far = uint32(len(b)/8+1+d.t.N(1000)) &^ 1
		}
	}
	binary.LittleEndian.PutUint32(b[at:], far)
	return b
}

// after judges the outcome of a call. want is what the call had to write if
// it had to be accepted, nil if it had to be rejected. It returns true if the
// call was accepted and wrote everything.
func (d *WD) after(op string, before int, touches int, n int, err error, want []byte, reject string) bool {
	w := d.w
	s := d.s
	acc := len(s.buf) - before
	w.Check(n == acc, "byte-count", "%s returned %d, but the stream accepted %d bytes (err=%v)", op, n, acc, err)
	if d.closed {
		w.Check(errors.Is(err, flatgeobuf.ErrClosed), "not-closed-error", "%s after Close returned %v, want ErrClosed", op, err)
		w.Check(s.touches == touches, "closed-touches", "%s after Close touched the stream", op)
		w.cover("closed", op)
		return false
	}
	if d.dead {
		w.Check(err != nil, "fault-not-sticky", "%s succeeded after a write failure left a piece partly written", op)
		w.Check(acc == 0, "dead-writes", "%s wrote %d bytes after a write failure left a piece partly written", op, acc)
		w.cover("dead", op)
		return false
	}
	if want == nil {
		w.Check(err != nil, "accepted", "%s accepted %s in state %s", op, reject, rsName[d.st])
		w.Check(acc == 0 && s.touches == touches, "rejected-writes", "rejected %s (%s) touched the stream (%d bytes)", op, reject, acc)
		w.Check(!errors.Is(err, flatgeobuf.ErrClosed), "order-closed", "%s returned %v, but nothing was closed", op, err)
		w.cover("rejected", op, reject, rsName[d.st])
		return false
	}
	if inj := s.last; inj != nil {
		w.Check(err != nil, "fault-swallowed", "%s succeeded although the stream failed with %v", op, inj)
		w.Check(hasCause(err, inj), "cause-lost", "%s returned %q, which does not preserve the stream's error %q", op, err, inj)
		w.Check(acc <= len(want) && bytes.Equal(s.buf[before:], want[:acc]), "content", "failing %s wrote other bytes than it had to", op)
		w.cover("fault", op, rsName[d.st])
		return false
	}
	w.Check(err == nil, "refused", "%s failed in state %s: %v", op, rsName[d.st], err)
	if !bytes.Equal(s.buf[before:], want) {
		w.Fail("content", "%s wrote %d bytes which differ from the %d expected (first difference at %d)", op, acc, len(want), diffAt(s.buf[before:], want))
	}
	w.cover("ok", op)
	return true
}

func diffAt(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// Header hands over the header; bad selects an invalid one if not negative.
func (d *WD) Header(bad int) {
	d.release()
	arg, reject := (*flat.Header)(nil), ""
	var want []byte
	if bad >= 0 {
		arg, reject = d.badHeader(bad)
	} else {
		arg = d.hdrArg()
		if d.st == rsNew {
			want = append(append([]byte{}, sig...), d.f.hdr.bytes...)
		} else {
			reject = "second header"
		}
	}
	before, touches := len(d.s.buf), d.s.touches
	d.s.clearCall()
	var n int
	var err error
	d.w.Call("Header("+reject+")", d.budget(), func() { n, err = d.wr.Header(arg) })
	if d.closed && bad >= 0 {
		d.w.Check(err != nil && d.s.touches == touches, "closed-touches", "Header after Close returned %v", err)
		return
	}
	if d.after("Header", before, touches, n, err, want, reject) {
		d.st = rsHdr
		return
	}
	if want != nil && !d.closed && !d.dead {
		d.failed(before, len(want))
	}
}

// failed updates the model after a call that was to write a single piece of
// size bytes and failed.
func (d *WD) failed(before, size int) {
	acc := len(d.s.buf) - before
	switch {
	case acc == 0 && d.st >= rsIdx: // a feature: may be retried
	case acc == 0:
		d.limbo = true
	case acc < size:
		d.dead = true
	default:
		d.limbo = true
	}
}

// Index hands over a tree.
func (d *WD) Index(x *packedrtree.PackedRTree, idx []byte, reject string) {
	var want []byte
	if reject == "" {
		if d.st == rsHdr && d.ns > 0 {
			want = idx
			if uint64(len(d.f.feats)) != d.f.hdr.count {
				want, reject = nil, "index with wrong count"
			}
		} else {
			reject = "index out of order"
		}
	}
	before, touches := len(d.s.buf), d.s.touches
	d.s.clearCall()
	var n int
	var err error
	d.w.Call("Index("+reject+")", d.budget(), func() { n, err = d.wr.Index(x) })
	if d.after("Index", before, touches, n, err, want, reject) {
		d.st = rsIdx
		return
	}
	if want != nil && !d.closed && !d.dead {
		d.failed(before, len(want))
	}
}

// tree makes the file's index: built from references, or deserialized.
func (d *WD) tree() *packedrtree.PackedRTree {
	return makeTree(d.w, d.t, d.f.leaves, d.f.idx, d.f.nodeSize)
}

func makeTree(w *World, t *Tape, leaves []Leaf, idx []byte, ns int) (x *packedrtree.PackedRTree) {
	var err error
	if t.P(500) {
		w.Call("Unmarshal", len(idx)+100, func() { x, err = packedrtree.Unmarshal(bytes.NewReader(idx), len(leaves), uint16(ns)) })
	} else {
		refs := refsOf(leaves)
		w.Call("New", 100, func() { x, err = packedrtree.New(refs, uint16(ns)) })
		for i := range refs { // not needed any more
			refs[i] = packedrtree.Ref{Offset: -1}
		}
	}
	w.Check(err == nil, "tree-error", "making a tree of %d refs, node size %d failed: %v", len(leaves), ns, err)
	return x
}

func refsOf(leaves []Leaf) []packedrtree.Ref {
	refs := make([]packedrtree.Ref, len(leaves))
	for i, l := range leaves {
		refs[i] = packedrtree.Ref{Box: boxOf(l.box), Offset: l.off}
	}
	return refs
}

// Data hands over feature m; bad selects an invalid table if not negative.
func (d *WD) Data(m *FeatM, bad int) {
	d.release()
	var arg *flat.Feature
	var want []byte
	reject := ""
	if bad >= 0 {
		arg, reject = d.badFeature(m, bad)
	} else {
		arg = d.oneFeatArg(m)
		switch {
		case d.st == rsNew:
			reject = "feature before header"
		case d.st == rsHdr && d.ns > 0:
			reject = "feature before index"
		case d.st == rsEOF:
			reject = "feature beyond count"
		default:
			want = m.bytes
		}
	}
	before, touches := len(d.s.buf), d.s.touches
	d.s.clearCall()
	var n int
	var err error
	d.w.Call("Data("+reject+")", d.budget(), func() { n, err = d.wr.Data(arg) })
	ok := d.after("Data", before, touches, n, err, want, reject)
	if d.closed || d.dead || d.limbo {
		return
	}
	if ok {
		d.wrote(m)
		return
	}
	if want != nil {
		if d.st < rsIdx {
			d.st = rsIdx
		}
		d.failed(before, len(want))
	}
}

func (d *WD) wrote(m *FeatM) {
	d.ordered = append(d.ordered, m)
	d.next++
	d.st = rsData
	if d.f.hdr.count > 0 && uint64(d.next) == d.f.hdr.count {
		d.st = rsEOF
	}
}

// IndexData hands over features to index and write.
func (d *WD) IndexData(feats []*FeatM, ptr bool, badAt, badKind int) {
	w := d.w
	d.release()
	reject := ""
	if d.st != rsHdr || d.ns == 0 {
		reject = "index out of order"
	} else if uint64(len(feats)) != d.f.hdr.count {
		reject = "wrong number of features"
	}
	vals, ptrs := d.lists(len(feats))
	same := map[int]int{} // listed again
	if d.share && badAt < 0 && len(feats) > 1 && d.t.P(150) {
		feats = append([]*FeatM(nil), feats...)
		i := d.t.N(len(feats) - 1)
		for k := 1 + d.t.N(3); k > 0; k-- {
			j := i + 1 + d.t.N(len(feats)-1-i)
			feats[j] = feats[i]
			same[j] = i
		}
		w.cover("same-feature-twice", strconv.FormatBool(ptr))
	}
	for i, m := range feats {
		if j, ok := same[i]; ok {
			vals[i] = vals[j]
			ptrs[i] = ptrs[j]
			continue
		}
		if i == badAt {
			x, r := d.badFeature(m, badKind)
			vals[i] = *x
			if reject == "" {
				reject = "feature " + r
			}
		} else {
			vals[i] = *d.featArg(m)
		}
		ptrs[i] = &vals[i]
	}
	before, touches := len(d.s.buf), d.s.touches
	d.s.clearCall()
	var n int
	var err error
	op := "IndexData"
	if ptr {
		op = "IndexDataPtr"
		w.Call(op+"("+reject+")", d.budget(), func() { n, err = d.wr.IndexDataPtr(ptrs) })
	} else {
		w.Call(op+"("+reject+")", d.budget(), func() { n, err = d.wr.IndexData(vals) })
	}
	for i := range ptrs {
		j := i
		if k, ok := same[i]; ok {
			j = k
		}
		w.Check(ptrs[i] == &vals[j], "argument-modified", "%s reordered the caller's slice", op)
		if i != badAt {
			w.Check(tabBytes(vals[i].Table().Bytes, feats[i].bytes), "argument-modified", "%s changed the caller's feature %d", op, i)
		}
	}
	if d.nested && err != nil && reject == "" {
		w.Check(n == 0 && d.s.touches == touches, "rejected-writes", "%s failed for deeply nested parts (%v), but touched the stream", op, err)
		w.cover("nested-rejected", op)
		return
	}
	var want []byte
	if reject == "" && !d.closed && !d.dead && d.s.last == nil {
		// What has to be written depends on the order which the writer
		// chose for the features.
		want = d.arrange(op, d.s.buf[before:], feats)
	} else if reject == "" {
		want = d.s.buf[before:]
		if len(want) == 0 {
			want = []byte{}
		}
	}
	if d.after(op, before, touches, n, err, want, reject) {
		d.next = len(feats)
		d.st = rsEOF
	}
}

// arrange finds out in which order the features were written and returns the
// index and data sections which belong to that order.
func (d *WD) arrange(op string, got []byte, feats []*FeatM) []byte {
	w := d.w
	is := indexSize(len(feats), d.ns)
	w.Check(int64(len(got)) >= is, "content", "%s wrote %d bytes, the index alone has %d", op, len(got), is)
	left := map[string][]*FeatM{}
	for _, m := range feats {
		left[string(m.bytes)] = append(left[string(m.bytes)], m)
	}
	o := &FileM{hdr: d.f.hdr, nodeSize: d.ns}
	data := got[is:]
	for len(data) > 0 {
		w.Check(len(data) >= 4 && uint64(len(data)) >= 4+uint64(u32(data)), "content", "%s wrote an incomplete feature", op)
		b := data[:4+u32(data)]
		ms := left[string(b)]
		w.Check(len(ms) > 0, "content", "%s wrote a feature of %d bytes which was not in its argument (any more)", op, len(b))
		cp := *ms[0]
		left[string(b)] = ms[1:]
		o.feats = append(o.feats, &cp)
		data = data[len(b):]
	}
	w.Check(len(o.feats) == len(feats), "content", "%s wrote %d features of %d", op, len(o.feats), len(feats))
	o.assemble(nil)
	d.ordered = append(d.ordered, o.feats...)
	return o.bytes[o.hdrEnd:]
}

func (d *WD) Close() {
	w := d.w
	touches := d.s.touches
	before := len(d.s.buf)
	d.s.clearCall()
	var err error
	w.Call("Close", d.budget(), func() { err = d.wr.Close() })
	w.Check(len(d.s.buf) == before, "close-writes", "Close wrote bytes")
	if d.closed {
		w.Check(errors.Is(err, flatgeobuf.ErrClosed), "not-closed-error", "second Close returned %v, want ErrClosed", err)
		w.Check(d.s.touches == touches, "closed-touches", "second Close touched the stream")
		return
	}
	d.closed = true
	if d.s.closable {
		w.Check(d.s.closes == 1, "close-missing", "Close closed the stream %d times", d.s.closes)
	}
	short := d.st != rsNew && uint64(d.next) < d.f.hdr.count
	switch {
	case d.s.closable && d.s.closeErr != nil:
		w.Check(err != nil && hasCause(err, d.s.closeErr), "close-error-lost", "Close returned %v, the stream's close error was %v", err, d.s.closeErr)
	case d.limbo:
	case short:
		w.Check(err != nil && !errors.Is(err, flatgeobuf.ErrClosed), "short-file", "Close returned %v after %d of %d declared features", err, d.next, d.f.hdr.count)
	case !d.dead && d.s.syncs == 0:
		w.Check(err == nil, "close-error", "Close failed: %v", err)
	}
	w.cover("close", rsName[d.st], strconv.FormatBool(d.dead), strconv.FormatBool(short))
}
