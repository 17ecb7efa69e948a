package main

import (
	"encoding/binary"
	"math"

	fb "github.com/google/flatbuffers/go"
)

// This file is an independent description of the FlatGeobuf v3 format: it
// uses neither the code under test nor its generated FlatBuffers code.

var inf = math.Inf(1)

type BoxM struct{ x0, y0, x1, y1 float64 }

var emptyBoxM = BoxM{inf, inf, -inf, -inf}

func (b *BoxM) add(c BoxM) {
	if c.x0 < b.x0 {
		b.x0 = c.x0
	}
	if c.y0 < b.y0 {
		b.y0 = c.y0
	}
	if c.x1 > b.x1 {
		b.x1 = c.x1
	}
	if c.y1 > b.y1 {
		b.y1 = c.y1
	}
}

func (b BoxM) hits(c BoxM) bool {
	return b.x0 <= c.x1 && c.x0 <= b.x1 && b.y0 <= c.y1 && c.y0 <= b.y1
}

func (b BoxM) empty() bool { return b.x0 > b.x1 || b.y0 > b.y1 }

type GeomM struct {
	typ   byte
	ends  []uint32
	xy    []float64
	z, m  []float64
	t     []float64
	tm    []uint64
	parts []*GeomM
}

func (g *GeomM) box() BoxM {
	b := emptyBoxM
	for i := 0; i+1 < len(g.xy); i += 2 {
		b.add(BoxM{g.xy[i], g.xy[i+1], g.xy[i], g.xy[i+1]})
	}
	for _, p := range g.parts {
		b.add(p.box())
	}
	return b
}

type ColM struct {
	name                    string
	typ                     byte
	title, desc, meta       string
	width, precision, scale int32
	nullable, unique, pk    bool
}

type CrsM struct {
	org, name, desc, wkt, codeString string
	code                             int32
}

type HeaderM struct {
	name, title, desc, meta string
	env                     []float64
	gtype                   byte
	hasZ, hasM, hasT, hasTM bool
	cols                    []ColM
	count                   uint64
	nodeSize                uint16
	explicitNodeSize        bool
	crs                     *CrsM
	bytes                   []byte
}

type FeatM struct {
	geom  *GeomM
	props []byte
	cols  []ColM
	vals  []PropM
	bytes []byte
	box   BoxM
	off   int64 // in the data section
}

type Leaf struct {
	box  BoxM
	off  int64
	feat int
}

type FileM struct {
	hdr      *HeaderM
	feats    []*FeatM
	leaves   []Leaf
	idx      []byte
	nodeSize int // 0 if there is no index
	hdrEnd   int64
	idxEnd   int64
	end      int64
	bytes    []byte
	empties  bool // some leaf box is empty
}

// known tells whether the header declares the feature count.
func (f *FileM) known() bool { return f.hdr.count > 0 }

func fbFloats(b *fb.Builder, v []float64) fb.UOffsetT {
	if v == nil {
		return 0
	}
	b.StartVector(8, len(v), 8)
	for i := len(v) - 1; i >= 0; i-- {
		b.PrependFloat64(v[i])
	}
	return b.EndVector(len(v))
}

func fbGeom(b *fb.Builder, g *GeomM) fb.UOffsetT {
	if g == nil {
		return 0
	}
	var parts, ends, xy, z, m, t, tm fb.UOffsetT
	if g.parts != nil {
		offs := make([]fb.UOffsetT, len(g.parts))
		for i, p := range g.parts {
			offs[i] = fbGeom(b, p)
		}
		b.StartVector(4, len(offs), 4)
		for i := len(offs) - 1; i >= 0; i-- {
			b.PrependUOffsetT(offs[i])
		}
		parts = b.EndVector(len(offs))
	}
	if g.ends != nil {
		b.StartVector(4, len(g.ends), 4)
		for i := len(g.ends) - 1; i >= 0; i-- {
			b.PrependUint32(g.ends[i])
		}
		ends = b.EndVector(len(g.ends))
	}
	xy = fbFloats(b, g.xy)
	z = fbFloats(b, g.z)
	m = fbFloats(b, g.m)
	t = fbFloats(b, g.t)
	if g.tm != nil {
		b.StartVector(8, len(g.tm), 8)
		for i := len(g.tm) - 1; i >= 0; i-- {
			b.PrependUint64(g.tm[i])
		}
		tm = b.EndVector(len(g.tm))
	}
	b.StartObject(8)
	slot := func(i int, o fb.UOffsetT) {
		if o != 0 {
			b.PrependUOffsetTSlot(i, o, 0)
		}
	}
	slot(0, ends)
	slot(1, xy)
	slot(2, z)
	slot(3, m)
	slot(4, t)
	slot(5, tm)
	b.PrependByteSlot(6, g.typ, 0)
	slot(7, parts)
	return b.EndObject()
}

func fbStr(b *fb.Builder, s string) fb.UOffsetT {
	if s == "" {
		return 0
	}
	if s == "\x00" { // stands for a present but empty string
		return b.CreateString("")
	}
	return b.CreateString(s)
}

func fbCols(b *fb.Builder, cols []ColM) fb.UOffsetT {
	if cols == nil {
		return 0
	}
	offs := make([]fb.UOffsetT, len(cols))
	for i, c := range cols {
		n, t, d, m := fbStr(b, c.name), fbStr(b, c.title), fbStr(b, c.desc), fbStr(b, c.meta)
		b.StartObject(11)
		b.PrependUOffsetTSlot(0, n, 0)
		b.PrependByteSlot(1, c.typ, 0)
		b.PrependUOffsetTSlot(2, t, 0)
		b.PrependUOffsetTSlot(3, d, 0)
		b.PrependInt32Slot(4, c.width, -1)
		b.PrependInt32Slot(5, c.precision, -1)
		b.PrependInt32Slot(6, c.scale, -1)
		b.PrependBoolSlot(7, c.nullable, true)
		b.PrependBoolSlot(8, c.unique, false)
		b.PrependBoolSlot(9, c.pk, false)
		b.PrependUOffsetTSlot(10, m, 0)
		offs[i] = b.EndObject()
	}
	b.StartVector(4, len(offs), 4)
	for i := len(offs) - 1; i >= 0; i-- {
		b.PrependUOffsetT(offs[i])
	}
	return b.EndVector(len(offs))
}

// sizePrefixed finishes the buffer and copies it out, with pad extra bytes
// inside the size-prefixed record.
func sizePrefixed(b *fb.Builder, root fb.UOffsetT, pad int) []byte {
	b.FinishSizePrefixed(root)
	out := append([]byte(nil), b.FinishedBytes()...)
	if pad > 0 {
		out = append(out, make([]byte, pad)...)
		binary.LittleEndian.PutUint32(out, uint32(len(out)-4))
	}
	return out
}

func newBuilder() *fb.Builder { return fb.NewBuilder(256) }

func (h *HeaderM) encode(pad int) []byte {
	b := fb.NewBuilder(1024)
	var crs fb.UOffsetT
	if h.crs != nil {
		o, n, d, w, cs := fbStr(b, h.crs.org), fbStr(b, h.crs.name), fbStr(b, h.crs.desc), fbStr(b, h.crs.wkt), fbStr(b, h.crs.codeString)
		b.StartObject(6)
		b.PrependUOffsetTSlot(0, o, 0)
		b.PrependInt32Slot(1, h.crs.code, 0)
		b.PrependUOffsetTSlot(2, n, 0)
		b.PrependUOffsetTSlot(3, d, 0)
		b.PrependUOffsetTSlot(4, w, 0)
		b.PrependUOffsetTSlot(5, cs, 0)
		crs = b.EndObject()
	}
	name, title, desc, meta := fbStr(b, h.name), fbStr(b, h.title), fbStr(b, h.desc), fbStr(b, h.meta)
	env := fbFloats(b, h.env)
	cols := fbCols(b, h.cols)
	b.StartObject(14)
	b.PrependUOffsetTSlot(0, name, 0)
	b.PrependUOffsetTSlot(1, env, 0)
	b.PrependByteSlot(2, h.gtype, 0)
	b.PrependBoolSlot(3, h.hasZ, false)
	b.PrependBoolSlot(4, h.hasM, false)
	b.PrependBoolSlot(5, h.hasT, false)
	b.PrependBoolSlot(6, h.hasTM, false)
	b.PrependUOffsetTSlot(7, cols, 0)
	b.PrependUint64Slot(8, h.count, 0)
	b.PrependUint16Slot(9, h.nodeSize, 16)
	b.PrependUOffsetTSlot(10, crs, 0)
	b.PrependUOffsetTSlot(11, title, 0)
	b.PrependUOffsetTSlot(12, desc, 0)
	b.PrependUOffsetTSlot(13, meta, 0)
	h.bytes = sizePrefixed(b, b.EndObject(), pad)
	return h.bytes
}

func (f *FeatM) encode(b *fb.Builder, pad int) []byte {
	b.Reset()
	g := fbGeom(b, f.geom)
	var props fb.UOffsetT
	if f.props != nil {
		props = b.CreateByteVector(f.props)
	}
	cols := fbCols(b, f.cols)
	b.StartObject(3)
	b.PrependUOffsetTSlot(0, g, 0)
	b.PrependUOffsetTSlot(1, props, 0)
	b.PrependUOffsetTSlot(2, cols, 0)
	f.bytes = sizePrefixed(b, b.EndObject(), pad)
	f.box = emptyBoxM
	if f.geom != nil {
		f.box = f.geom.box()
	}
	return f.bytes
}

// padTo extends the encoded feature to a whole number of m bytes.
func (f *FeatM) padTo(m int) {
	if k := len(f.bytes) % m; k > 0 {
		f.bytes = append(f.bytes, make([]byte, m-k)...)
		binary.LittleEndian.PutUint32(f.bytes, uint32(len(f.bytes)-4))
	}
}

// levelCounts returns the number of nodes of each level, leaves first.
func levelCounts(n, nodeSize int) []int {
	out := []int{n}
	for {
		n = (n + nodeSize - 1) / nodeSize
		out = append(out, n)
		if n == 1 {
			return out
		}
	}
}

func indexSize(n, nodeSize int) int64 {
	if n == 0 || nodeSize == 0 {
		return 0
	}
	var s int64
	for _, c := range levelCounts(n, nodeSize) {
		s += int64(c)
	}
	return 40 * s
}

// mirror is set at link time in builds with the big-endian code.
var mirror string

type nodeM struct {
	box BoxM
	off int64
}

// encodeIndex builds the packed R-tree over the leaves: levels from the root
// down, each parent with the union of its children's boxes and the number of
// its first child.
func encodeIndex(leaves []Leaf, nodeSize int) []byte {
	counts := levelCounts(len(leaves), nodeSize)
	start := make([]int, len(counts))
	n := 0
	for l := len(counts) - 1; l >= 0; l-- {
		start[l] = n
		n += counts[l]
	}
	nodes := make([]nodeM, n)
	for i, lf := range leaves {
		nodes[start[0]+i] = nodeM{lf.box, lf.off}
	}
	for l := 1; l < len(counts); l++ {
		for i := 0; i < counts[l]; i++ {
			p := nodeM{emptyBoxM, int64(start[l-1] + i*nodeSize)}
			for j := i * nodeSize; j < (i+1)*nodeSize && j < counts[l-1]; j++ {
				p.box.add(nodes[start[l-1]+j].box)
			}
			nodes[start[l]+i] = p
		}
	}
	out := make([]byte, 40*n)
	for i, nd := range nodes {
		p := out[40*i:]
		binary.LittleEndian.PutUint64(p, math.Float64bits(nd.box.x0))
		binary.LittleEndian.PutUint64(p[8:], math.Float64bits(nd.box.y0))
		binary.LittleEndian.PutUint64(p[16:], math.Float64bits(nd.box.x1))
		binary.LittleEndian.PutUint64(p[24:], math.Float64bits(nd.box.y1))
		binary.LittleEndian.PutUint64(p[32:], uint64(nd.off))
	}
	if mirror != "" {
		// The code under test is the big-endian one, on a little-endian
		// machine: it reverses every number.
		for i := 0; i < len(out); i += 8 {
			binary.LittleEndian.PutUint64(out[i:], binary.BigEndian.Uint64(out[i:]))
		}
	}
	return out
}

var sig = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}

// assemble lays the file out. order gives the leaf order as feature numbers,
// or nil for the order of the features.
func (f *FileM) assemble(order []int) {
	var off int64
	for _, ft := range f.feats {
		ft.off = off
		off += int64(len(ft.bytes))
	}
	f.leaves = nil
	f.idx = nil
	f.empties = false
	for _, ft := range f.feats {
		if ft.box.empty() {
			f.empties = true
		}
	}
	if f.nodeSize > 0 {
		f.leaves = make([]Leaf, len(f.feats))
		for i := range f.leaves {
			k := i
			if order != nil {
				k = order[i]
			}
			f.leaves[i] = Leaf{f.feats[k].box, f.feats[k].off, k}
		}
		f.idx = encodeIndex(f.leaves, f.nodeSize)
	}
	out := make([]byte, 0, 12+len(f.hdr.bytes)+len(f.idx)+int(off))
	out = append(out, sig...)
	out = append(out, f.hdr.bytes...)
	f.hdrEnd = int64(len(out))
	out = append(out, f.idx...)
	f.idxEnd = int64(len(out))
	for _, ft := range f.feats {
		out = append(out, ft.bytes...)
	}
	f.end = int64(len(out))
	f.bytes = out
}

// featStart and featEnd are file positions.
func (f *FileM) featStart(i int) int64 { return f.idxEnd + f.feats[i].off }
func (f *FileM) featEnd(i int) int64   { return f.idxEnd + f.feats[i].off + int64(len(f.feats[i].bytes)) }

// search is the brute-force answer to a query: feature numbers in file order.
func (f *FileM) search(q BoxM) []int {
	out := []int{}
	for i, ft := range f.feats {
		if q.hits(ft.box) {
			out = append(out, i)
		}
	}
	return out
}
