package main

import (
	"encoding/binary"
	"math"
	"strconv"

	fb "github.com/google/flatbuffers/go"
)

// Column types of the FlatGeobuf schema.
const (
	tByte = iota
	tUByte
	tBool
	tShort
	tUShort
	tInt
	tUInt
	tLong
	tULong
	tFloat
	tDouble
	tString
	tJson
	tDateTime
	tBinary
	numTypes
)

// PropM is a property value: bits for the fixed-size types, data otherwise.
type PropM struct {
	col  int
	typ  byte
	bits uint64
	data []byte
}

var typeSize = [numTypes]int{1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, -1, -1, -1, -1}

func encodeValue(b []byte, p *PropM) []byte {
	switch typeSize[p.typ] {
	case 1:
		return append(b, byte(p.bits))
	case 2:
		return binary.LittleEndian.AppendUint16(b, uint16(p.bits))
	case 4:
		return binary.LittleEndian.AppendUint32(b, uint32(p.bits))
	case 8:
		return binary.LittleEndian.AppendUint64(b, p.bits)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(p.data)))
	return append(b, p.data...)
}

func encodeProps(vals []PropM) []byte {
	b := []byte{}
	for i := range vals {
		b = binary.LittleEndian.AppendUint16(b, uint16(vals[i].col))
		b = encodeValue(b, &vals[i])
	}
	return b
}

var interesting = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x0102030405060708, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff}

func genValue(d D, typ byte, big bool) PropM {
	p := PropM{typ: typ}
	if typ >= tString {
		n := 0
		switch d.Pick(3, 6, 2, 1) {
		case 1:
			n = 1 + d.N(12)
		case 2:
			n = d.Skew(300)
		case 3:
			n = 20
			if big {
				n = []int{255, 256, 4096, 8097, 65535, 65536, 70000}[d.N(7)]
			}
		}
		if t, ok := d.(*Tape); ok && t.huge && d.P(60) { // beyond a MiB
			n = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 4097, 2 << 20, 3<<20 + 5}[d.N(6)]
		}
		p.data = make([]byte, n)
		s := byte(d.N(256))
		for i := range p.data {
			p.data[i] = s + byte(i)*7
			if typ != tBinary {
				p.data[i] = 'a' + p.data[i]%26
			}
		}
		if typ == tBinary && d.P(150) {
			c := []byte{0, 0xff, ' ', '\n'}[d.N(4)]
			for i := d.N(2) * n / 2; i < n; i++ {
				p.data[i] = c
			}
		}
		if typ != tBinary && n > 0 && d.P(350) {
			p.data = oddText(d, p.data)
		}
		return p
	}
	if typ == tBool {
		p.bits = uint64(d.N(2))
		return p
	}
	switch d.Pick(3, 2, 2, 2, 1) {
	case 0:
		p.bits = interesting[d.N(len(interesting))]
	case 3: // around a power of two, of either sign
		p.bits = uint64(1)<<uint(d.N(64)) + uint64(d.N(5)) - 2
		if d.P(500) {
			p.bits = -p.bits
		}
	case 4: // every byte apart
		for i := uint(0); i < 64; i += 8 {
			p.bits |= uint64([]int{0, 0, 0xff, 0xff, 0x7f, 0x80, 1, d.N(256)}[d.N(8)]) << i
		}
	case 1:
		p.bits = uint64(d.N(1<<16)) | uint64(d.N(1<<16))<<16 | uint64(d.N(1<<16))<<32 | uint64(d.N(1<<16))<<48
	case 2:
		p.bits = uint64(int64(d.N(400) - 200))
	}
	switch typ {
	case tFloat:
		switch d.Pick(4, 1, 2) {
		case 2:
			if v := uint32(p.bits); v&0x7f800000 == 0x7f800000 {
				p.bits = uint64(v | 0x400000) // infinity and signalling NaN become a quiet NaN
			}
		case 0:
			p.bits = uint64(math.Float32bits(float32(int(p.bits%2000)-1000) / 8))
		case 1:
			p.bits = uint64(math.Float32bits([]float32{0, float32(math.Copysign(0, -1)), float32(inf), float32(-inf), math.MaxFloat32, math.SmallestNonzeroFloat32}[d.N(6)]))
		}
	case tDouble:
		switch d.Pick(4, 1, 2) {
		case 2:
			if p.bits&0x7ff0000000000000 == 0x7ff0000000000000 {
				p.bits |= 0x8000000000000
			}
		case 0:
			p.bits = math.Float64bits(float64(int64(p.bits)) / 8)
		case 1:
			p.bits = math.Float64bits([]float64{0, math.Copysign(0, -1), inf, -inf, math.MaxFloat64, math.SmallestNonzeroFloat64}[d.N(6)])
		}
	}
	if s := typeSize[typ]; s < 8 {
		p.bits &= 1<<(8*uint(s)) - 1
	}
	return p
}

// oddities are pieces of text which careless code may change: white space,
// terminators, escapes, characters of several bytes, invalid UTF-8, other
// notations of the same value.
var oddities = []string{
	"\x00", " ", "  ", "\n", "\r\n", "\t", "\xc3\xa9", "e\xcc\x81", "\xf0\x9f\x8c\x8d", "\xef\xbb\xbf", "\xe2\x80\xa8", "\xc2\xa0",
	"\xff", "\xc3", "\xed\xa0\x80", "\xc0\x80", "\xef\xbf\xbd", "\"", "\\", "'", "<&>", "%", "%s", "\x1b", "\x7f",
	"{}", "[ ]", "null", `{"b": 1, "a":  2}`, `{"a":1,"a":2}`, "1.0", "1e400", "\"\\u003c\"", "0",
	"2023-01-02T03:04:05Z", "2023-01-02T03:04:05.000+00:00", "2023-01-02", "2023-02-30T24:00:60-00:00", "A", "a",
}

func oddText(d D, b []byte) []byte {
	var out []byte
	for k := 1 + d.N(3); k > 0; k-- {
		if d.P(300) {
			out = append(out, b...)
			b = nil
		}
		out = append(out, oddities[d.N(len(oddities))]...)
	}
	if d.P(300) {
		out = append(out, b...)
	}
	return out
}

func genStr(d D) string {
	switch d.Pick(5, 4, 1, 1, 2) {
	case 4:
		return string(oddText(d, []byte("x")))
	case 1:
		return "name" + string(rune('a'+d.N(26)))
	case 2:
		return "\x00"
	case 3:
		b := make([]byte, d.Skew(400))
		for i := range b {
			b[i] = 'A' + byte(i%50)
		}
		return string(b)
	}
	return ""
}

// genCode picks a code of a coordinate system.
func genCode(d D) int32 {
	if d.P(700) {
		return int32(d.N(10000) - 10)
	}
	return []int32{0, 1, -1, 4326, math.MaxInt32, math.MinInt32}[d.N(6)]
}

func genCols(d D, max int) []ColM {
	n := d.N(max + 1)
	cols := make([]ColM, n)
	for i := range cols {
		c := &cols[i]
		c.typ = byte(d.N(numTypes))
		c.name = "c" + string(rune('a'+i%26))
		c.width, c.precision, c.scale = -1, -1, -1
		c.nullable = true
		if d.P(30) { // none, an empty one, a long one, one like others
			c.name = genStr(d)
		}
		if d.P(300) {
			c.title, c.desc, c.meta = genStr(d), genStr(d), genStr(d)
			c.width, c.precision, c.scale = int32(d.N(20)-2), int32(d.N(20)-2), int32(d.N(20)-2)
			c.nullable, c.unique, c.pk = d.P(500), d.P(500), d.P(500)
		}
	}
	return cols
}

// genWideCols makes a schema with more columns than fit a byte; their names and
// widths are all different.
func genWideCols(d D) []ColM {
	n := 200 + d.N(500)
	if d.P(10) {
		n = 65536 - d.N(3)
	}
	cols := make([]ColM, n)
	k := d.N(numTypes)
	for i := range cols {
		cols[i] = ColM{typ: byte((i*7 + i>>8 + k) % numTypes), name: "c" + strconv.Itoa(i), width: int32(i), precision: -1, scale: -1, nullable: true}
	}
	return cols
}

func genVals(d D, cols []ColM, max int, big bool) []PropM {
	if len(cols) == 0 {
		return nil
	}
	n := d.N(max + 1)
	vals := make([]PropM, n)
	for i := range vals {
		c := d.N(len(cols))
		if len(cols) > 100 && d.P(500) {
			c = []int{len(cols) - 1, 255, 256, 127, 128, 32767, 32768, 0}[d.N(8)] % len(cols)
		}
		vals[i] = genValue(d, cols[c].typ, big)
		vals[i].col = c
	}
	return vals
}

// GenOpt restricts what is generated.
type GenOpt struct {
	index    int  // 0: any, 1: with index, 2: without
	count    int  // 0: any, 1: known count, 2: unknown
	maxFeats int  // 0: default
	big      bool // allow features of more than a few KB
	many     bool // allow more than 1024 features
	wide     int  // how likely, per mille, those are more than 16 bits can count
	tiny     bool // smallest features only
	permute  bool // allow leaf order other than file order
	noEmpty  bool // every feature has coordinates
	minFeats int
	noPad    bool
}

type coordGen struct {
	scale, off float64
	span       int
	inf        bool
}

func genCoords(d D) *coordGen {
	g := &coordGen{scale: 1, span: 5}
	switch d.Pick(50, 20, 20, 10, 3, 3, 3, 6) {
	case 7: // all digits in use
		g.span = 100
		g.scale = []float64{1.2345678901234567, 1e-9 / 3, math.Pi * 1e15}[d.N(3)]
		g.off = -g.scale / 7
	case 6:
		g.inf = true
	case 4: // differences overflow
		g.scale = 8e307
	case 5:
		g.scale = 3e-320
	case 1:
		g.span = 17
	case 2:
		g.span = 1400
		g.scale = 0.25
		g.off = -175
	case 3:
		g.span = 200
		g.scale = 1e6
		g.off = 123456.5
	}
	return g
}

func (g *coordGen) c(d D) float64 {
	if g.inf && d.N(12) == 11 {
		return []float64{inf, -inf, math.MaxFloat64, -math.MaxFloat64}[d.N(4)]
	}
	return float64(d.N(g.span)-g.span/2)*g.scale + g.off
}

func (g *coordGen) geom(d D, depth int, o *GenOpt) *GeomM {
	m := &GeomM{}
	n := 1
	switch d.Pick(6, 5, 1) {
	case 1:
		n = 1 + d.N(5)
	case 2:
		if o.big {
			n = []int{100, 520, 4200, 9000}[d.Pick(4, 3, 2, 1)]
		} else {
			n = 1 + d.N(30)
		}
	}
	m.typ = byte(1 + d.N(6))
	if d.P(100) {
		m.typ = byte(d.N(18))
	}
	if depth > 0 && d.P(200) {
		m.typ = 7
		if d.P(400) { // polygons of a MultiPolygon, and every other type
			m.typ = []byte{6, 6, byte(d.N(18))}[d.N(3)]
		}
		k := d.N(4)
		chain := 0
		if depth == 2 {
			switch d.Pick(60, 1, 1) {
			case 1:
				k = 50 + d.N(300)
			case 2:
				k, chain = 1, 3+d.N(61)
			}
		}
		m.parts = make([]*GeomM, k)
		for i := range m.parts {
			dd := depth - 1
			if k > 4 {
				dd = 0
			}
			m.parts[i] = g.geom(d, dd, &GenOpt{})
			if chain > 0 {
				m.parts[i] = g.geom(d, 0, &GenOpt{})
			}
		}
		for p := m; chain > 0; chain-- {
			p = p.parts[0]
			p.typ = []byte{7, 6, m.typ}[d.N(3)]
			q := &GeomM{typ: byte(1 + d.N(6)), xy: []float64{g.c(d), g.c(d)}}
			if chain > 1 && d.P(500) {
				q.xy = nil
			}
			p.parts = append(p.parts, q)
			if d.P(100) {
				p.parts[0], p.parts[len(p.parts)-1] = p.parts[len(p.parts)-1], p.parts[0]
			}
		}
		if d.P(800) {
			n = 0
		}
	}
	if n == 0 && d.P(500) {
		return m
	}
	m.xy = make([]float64, 0, 2*n)
	for i := 0; i < n; i++ {
		m.xy = append(m.xy, g.c(d), g.c(d))
	}
	if d.P(150) {
		m.z = make([]float64, n)
		for i := range m.z {
			m.z[i] = float64(i) + 0.5
		}
		m.m = append([]float64(nil), m.z...)
	}
	if d.P(80) {
		m.t = make([]float64, n)
		m.tm = make([]uint64, n)
		for i := range m.tm {
			m.tm[i] = uint64(i) << 33
		}
	}
	if m.typ == 3 || m.typ == 5 {
		if d.P(300) {
			m.ends = []uint32{uint32(n / 2), uint32(n)}
		}
	}
	return m
}

func (g *coordGen) feature(d D, hdrCols []ColM, o *GenOpt, b *fb.Builder) *FeatM {
	f := &FeatM{}
	if o.tiny {
		f.geom = &GeomM{typ: 1, xy: []float64{g.c(d), g.c(d)}}
		f.encode(b, 0)
		return f
	}
	switch d.Pick(16, 1, 1) {
	case 0:
		f.geom = g.geom(d, 2, o)
	case 1: // no geometry
	case 2:
		f.geom = &GeomM{typ: 1}
		if d.P(500) {
			f.geom.xy = []float64{}
		}
	}
	if o.noEmpty && (f.geom == nil || f.geom.box().empty()) {
		f.geom = &GeomM{typ: 1, xy: []float64{g.c(d), g.c(d)}}
	}
	switch d.Pick(4, 4, 1, 1) {
	case 1:
		f.vals = genVals(d, hdrCols, 5, o.big)
		f.props = encodeProps(f.vals)
	case 2:
		f.cols = genCols(d, 4)
		f.vals = genVals(d, f.cols, 4, false)
		f.props = encodeProps(f.vals)
	case 3:
		f.props = []byte{}
	}
	pad := 0
	if !o.noPad && d.P(30) {
		pad = 1 + d.N(9)
	}
	f.encode(b, pad)
	return f
}

var nodeSizes = []int{2, 3, 4, 5, 7, 8, 16, 15, 17, 255, 256, 65535}

func genNodeSize(d D) int {
	switch d.Pick(3, 3, 1) {
	case 0:
		return 2 + d.N(4)
	case 1:
		return 2 + d.N(19)
	}
	return nodeSizes[d.N(len(nodeSizes))]
}

// genCount picks a number of features; counts around powers of the node
// size are likely.
func genCount(d D, ns int, o *GenOpt) int {
	max := o.maxFeats
	if max == 0 {
		max = 300
	}
	n := 0
	switch d.Pick(4, 6, 4, 2, 1) {
	case 0:
		n = d.N(4)
	case 1:
		n = 1 + d.N(14)
	case 2:
		if ns < 2 {
			ns = 4
		}
		p := ns
		for k := d.N(3); k > 0 && p*ns <= max; k-- {
			p *= ns
		}
		n = p + d.N(3) - 1
	case 3:
		n = d.N(120)
	case 4:
		n = 30
		if o.many {
			n = []int{1023, 1024, 1025, 2047, 2048, 2049, 3100}[d.N(7)]
			wide := o.wide
			if wide == 0 {
				wide = 20
			}
			if d.P(wide) {
				n = 65534 + d.N(4)
			} else if ns >= 2 && d.P(400) {
				// An index of a whole number of the usual buffer sizes, among
				// them the code's own.
				size := 40 * int64([]int{512, 1012, 1024, 2024, 2048}[d.N(5)])
				for n = int(size / 40); indexSize(n, ns) > size; n-- {
				}
			}
		}
	}
	if n > max && !(o.many && n > 1000) {
		n = max
	}
	if n < o.minFeats {
		n = o.minFeats
	}
	return n
}

func genHeader(d *Tape) *HeaderM {
	h := &HeaderM{nodeSize: 16}
	h.gtype = byte(d.N(8))
	if d.P(500) {
		h.name = genStr(d)
		h.title, h.desc, h.meta = genStr(d), genStr(d), genStr(d)
		h.hasZ, h.hasM, h.hasT, h.hasTM = d.P(300), d.P(300), d.P(300), d.P(300)
		if d.P(500) {
			h.env = []float64{-1, -2, 3, 4.5}
		}
		if d.P(500) {
			h.crs = &CrsM{genStr(d), genStr(d), genStr(d), genStr(d), genStr(d), genCode(d)}
		}
	}
	h.cols = genCols(d, 6)
	if len(h.cols) == 0 && d.P(500) {
		h.cols = nil
	}
	if !d.small && d.P(8) { // a long header
		switch d.N(3) {
		case 0:
			h.cols = genWideCols(d)
		default:
			b := make([]byte, []int{4000, 4096, 8192, 65500, 65536, 300000, 1100000}[d.Pick(4, 4, 4, 4, 4, 2, 1)]+d.N(9))
			for i := range b {
				b[i] = '!' + byte(i%90)
			}
			h.meta = string(b)
		}
	}
	return h
}

func genFile(t *Tape, o GenOpt) *FileM {
	if t.small {
		o.big, o.many = false, false
		if o.maxFeats == 0 || o.maxFeats > 20 {
			o.maxFeats = 20
		}
	}
	f := &FileM{hdr: genHeader(t)}
	h := f.hdr
	ns := 0
	withIndex := o.index == 1 || (o.index == 0 && t.P(600))
	if withIndex {
		ns = genNodeSize(t)
	}
	n := genCount(t, ns, &o)
	known := o.count == 1 || withIndex || (o.count == 0 && t.P(500))
	if n == 0 && (withIndex || o.count == 1) {
		n = 1
	}
	if known && n > 0 {
		h.count = uint64(n)
	}
	h.nodeSize = uint16(ns)
	if h.count == 0 && t.P(500) {
		h.nodeSize = uint16(genNodeSize(t)) // announces nothing: there are no declared features to index
	}
	pad := 0
	if !o.noPad && t.P(60) {
		pad = 1 + t.N(9)
	}
	h.encode(pad)
	f.nodeSize = ns
	g := genCoords(t)
	bld := fb.NewBuilder(256)
	f.feats = make([]*FeatM, n)
	var d D = t
	fo := o
	for i := range f.feats {
		if i == 6 {
			d = t.Sub()
			if n > 40 {
				fo.big = false
			}
			if n > 400 {
				fo.tiny = true
			}
		}
		f.feats[i] = g.feature(d, h.cols, &fo, bld)
	}
	if o.big && n > 0 && t.P(25) { // one feature of more than a MiB
		i := t.N(n)
		floats := 140000
		if t.P(5) { // longer than any header may be
			floats = 4200000
		}
		f.feats[i].geom = &GeomM{typ: 4, xy: make([]float64, floats+t.N(3))}
		for j := range f.feats[i].geom.xy {
			f.feats[i].geom.xy[j] = float64(j%9 - 4)
		}
		f.feats[i].geom.xy = f.feats[i].geom.xy[:len(f.feats[i].geom.xy)&^1]
		f.feats[i].encode(bld, 0)
	}
	if !o.noPad && n > 1 && t.P(20) { // gaps of a whole number of buffers
		m := []int{8096, 4096, 8192, 512, 1024}[t.Pick(2, 2, 1, 1, 1)]
		for i := 0; i < n && i < 5; i++ {
			f.feats[i].padTo(m)
		}
	}
	var order []int
	if o.permute && withIndex && t.P(300) {
		order = make([]int, n)
		r := t.Sub()
		for i := range order {
			j := r.N(i + 1)
			order[i] = order[j]
			order[j] = i
		}
	}
	f.assemble(order)
	return f
}

// genQuery makes a query box; finite unless the file has no empty boxes.
func (f *FileM) genQuery(d D) BoxM {
	pick := func() BoxM {
		for k := 0; k < 4 && len(f.feats) > 0; k++ {
			b := f.feats[d.N(len(f.feats))].box
			if !b.empty() {
				return b
			}
		}
		return BoxM{0, 0, 0, 0}
	}
	switch d.Pick(3, 3, 3, 2, 2, 1, 1, 2) {
	case 7: // just beside one feature's box, or just touching it
		b := pick()
		q := BoxM{b.x0 - 1, b.y0 - 1, b.x1 + 1, b.y1 + 1}
		by := func(v, to float64) float64 {
			if d.P(300) {
				return v
			}
			return math.Nextafter(v, to)
		}
		switch d.N(4) {
		case 0:
			q.x0 = by(b.x1, 2e300)
			q.x1 = math.Max(q.x1, q.x0)
		case 1:
			q.x1 = by(b.x0, -2e300)
			q.x0 = math.Min(q.x0, q.x1)
		case 2:
			q.y0 = by(b.y1, 2e300)
			q.y1 = math.Max(q.y1, q.y0)
		case 3:
			q.y1 = by(b.y0, -2e300)
			q.y0 = math.Min(q.y0, q.y1)
		}
		return q
	case 0: // everything
		return BoxM{-1e300, -1e300, 1e300, 1e300}
	case 1: // one feature's box exactly
		return pick()
	case 2: // touching one feature's box from outside
		b := pick()
		switch d.N(4) {
		case 0:
			return BoxM{b.x1, b.y0, b.x1 + 2, b.y1}
		case 1:
			return BoxM{b.x0 - 3, b.y0 - 1, b.x0, b.y1}
		case 2:
			return BoxM{b.x0, b.y1, b.x1, b.y1 + 0.5}
		default:
			return BoxM{b.x0 - 1, b.y0 - 1, b.x0, b.y0}
		}
	case 3: // a point of one feature
		b := pick()
		return BoxM{b.x0, b.y1, b.x0, b.y1}
	case 4: // around two features
		b := pick()
		b.add(pick())
		return b
	case 5: // nothing
		return BoxM{2e300, 2e300, 3e300, 3e300}
	}
	b := pick()
	if f.empties {
		return BoxM{b.x0, -1e300, 1e300, b.y1}
	}
	switch d.N(4) {
	case 0:
		return BoxM{-inf, -inf, inf, inf}
	case 1:
		return BoxM{b.x0, -inf, inf, b.y1}
	case 2:
		return emptyBoxM
	}
	return BoxM{-inf, b.y1, b.x0, inf}
}
