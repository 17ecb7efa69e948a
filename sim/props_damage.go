package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// damage changes bytes of b in place, or inserts or deletes some. points are
// positions of lengths, counts and offsets.
func damage(w *World, t *Tape, b []byte, points []int) []byte {
	n := 1 + t.Pick(6, 3, 2, 1)
	for k := 0; k < n && len(b) > 0; k++ {
		at := t.N(len(b))
		if len(points) > 0 && t.P(600) {
			at = points[t.N(len(points))]
			if at >= len(b) {
				at = t.N(len(b))
			}
		}
		switch t.Pick(3, 2, 4, 3, 2, 1, 1, 1, 2, 2) {
		case 0:
			b[at] ^= 1 << uint(t.N(8))
			w.faults["damage-flip"]++
		case 1:
			b[at] = byte(interesting[t.N(len(interesting))])
			w.faults["damage-byte"]++
		case 2:
			if at+4 <= len(b) {
				v := uint32(t.Skew(1 << 30))
				switch t.Pick(2, 3, 2, 2) {
				case 1:
					v = uint32(interesting[t.N(len(interesting))])
				case 2:
					v = uint32(len(b)+t.N(9)) - 4
				case 3: // leads backwards, modulo 2^32
					v = uint32(t.N(at+1) - at)
				}
				binary.LittleEndian.PutUint32(b[at:], v)
				w.faults["damage-u32"]++
			}
		case 3:
			if at+2 <= len(b) {
				v := uint16(t.N(64))
				if t.P(500) {
					v = uint16(interesting[t.N(len(interesting))])
				}
				binary.LittleEndian.PutUint16(b[at:], v)
				w.faults["damage-u16"]++
			}
		case 4:
			if at+8 <= len(b) {
				v := interesting[t.N(len(interesting))]
				if t.P(500) {
					v = uint64(int64(t.N(len(b))))
				}
				binary.LittleEndian.PutUint64(b[at:], v)
				w.faults["damage-u64"]++
			}
		case 5:
			k := 1 + t.N(9)
			b = append(b[:at:at], append(t.Sub().Bytes(k), b[at:]...)...)
			w.faults["damage-insert"]++
		case 6:
			k := 1 + t.N(40)
			if at+k > len(b) {
				k = len(b) - at
			}
			b = append(b[:at:at], b[at+k:]...)
			w.faults["damage-delete"]++
		case 7:
			k := 1 + t.N(200)
			if at+k > len(b) {
				k = len(b) - at
			}
			r := t.Sub()
			for i := at; i < at+k; i++ {
				b[i] = byte(r.U64())
			}
			w.faults["damage-garble"]++
		case 8:
			from := t.N(len(b))
			k := 1 + t.N(100)
			copy(b[at:], append([]byte(nil), b[from:min(from+k, len(b))]...))
			w.faults["damage-splice"]++
		case 9:
			b = b[:at]
			w.faults["damage-cut"]++
		}
		w.ev("damage", int64(at), int64(len(b)))
	}
	return b
}

// vitalPoints are the positions of the lengths, counts and offsets of a
// table: everything in it that leads to something else.
func vitalPoints(b []byte, base, start int) []int {
	out := []int{base + start, base + start + 4}
	u := func(p int) int {
		if p < 0 || p > len(b)-4 {
			return -1
		}
		v := u32(b[p:])
		if v > 1<<30 {
			return -1
		}
		return int(v)
	}
	seen := map[int]bool{}
	var table func(p, depth int)
	table = func(p, depth int) {
		if p < 0 || p > len(b)-4 || seen[p] || depth > 5 || len(out) > 300 {
			return
		}
		seen[p] = true
		out = append(out, base+p)
		vt := p - int(int32(u32(b[p:])))
		if vt < 0 || vt > len(b)-4 {
			return
		}
		n := int(b[vt]) | int(b[vt+1])<<8
		for i := 0; i < n && vt+i+2 <= len(b); i += 2 {
			out = append(out, base+vt+i)
			if i < 4 {
				continue
			}
			f := int(b[vt+i]) | int(b[vt+i+1])<<8
			if f == 0 || p+f+4 > len(b) {
				continue
			}
			o := u(p + f)
			if o <= 0 || p+f+o+4 > len(b) {
				continue
			}
			out = append(out, base+p+f)
			v := p + f + o
			out = append(out, base+v) // a vector's length, or a table
			k := u(v)
			if k > 0 && k < 40 && v+4+4*k <= len(b) {
				for j := 0; j < k; j++ { // perhaps offsets of tables
					e := v + 4 + 4*j
					if x := u(e); x > 0 && x < len(b) && e+x+4 <= len(b) {
						out = append(out, base+e)
						table(e+x, depth+1)
					}
				}
			}
			table(v, depth+1)
		}
	}
	if r := u(start + 4); r >= 0 {
		table(start+4+r, 0)
	}
	return out
}

// filePoints are the vital points of a whole file.
func filePoints(f *FileM) []int {
	out := []int{0, 3, 8}
	out = append(out, vitalPoints(f.hdr.bytes, 8, 0)...)
	for i := 0; i < len(f.idx) && i < 4000; i += 40 {
		out = append(out, int(f.hdrEnd)+i+32, int(f.hdrEnd)+i)
	}
	for i, m := range f.feats {
		if i > 12 {
			break
		}
		out = append(out, vitalPoints(m.bytes, int(f.featStart(i)), 0)...)
	}
	return out
}

const memAllowance = 48 << 20

// memBound is what a call may allocate in total given the size of its input.
func memBound(n int) uint64 { return memAllowance + 400*uint64(n) }

var corpusNames = []string{"alldatatypes.fgb", "empty.fgb", "heterogeneous.fgb", "no_properties.fgb", "poly00.fgb", "poly01.fgb", "triangle.fgb", "unknown_feature_count.fgb"}
var corpusDir = "corpus"
var corpusCache = map[string][]byte{}

func corpusFile(t *Tape) []byte {
	n := corpusNames[t.N(len(corpusNames))]
	if corpusCache[n] == nil {
		b, err := os.ReadFile(corpusDir + "/" + n)
		if err != nil {
			panic("corpus: " + err.Error())
		}
		corpusCache[n] = b
	}
	return append([]byte(nil), corpusCache[n]...)
}

// badDAG gives a file geometry parts which lead back to themselves, or are
// shared many times over.
func badDAG(w *World, t *Tape, f *FileM, b []byte) {
	for i, m := range f.feats {
		if m.geom == nil || len(m.geom.parts) == 0 {
			continue
		}
		pts := vitalPoints(m.bytes, 0, 0)
		base := int(f.featStart(i))
		for k := 0; k < 4; k++ {
			from, to := pts[t.N(len(pts))], pts[t.N(len(pts))]
			if base+from+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[base+from:], uint32(to-from))
				w.faults["damage-link"]++
			}
		}
	}
}

// C11: damaged input.
func runC11(w *World) {
	t := w.T
	w.mem = true
	switch t.Pick(8, 2, 2, 2) {
	case 0:
		damagedFile(w, t)
	case 1:
		damagedIndex(w, t)
	case 2:
		damagedProps(w, t)
	case 3:
		damagedFeature(w, t)
	}
	w.nontriv = true
}

func damagedFile(w *World, t *Tape) {
	var b []byte
	var pts []int
	var f *FileM
	if t.P(200) {
		b = corpusFile(t)
		if len(b) > 12 {
			pts = append(vitalPoints(b[8:], 8, 0), 8)
			at := 12 + int(u32(b[8:]))
			for at+8 < len(b) && len(pts) < 400 { // features, if there is no index
				pts = append(pts, at, at+4)
				if t.P(500) {
					break
				}
				pts = append(pts, vitalPoints(b[at:], at, 0)...)
				at += 4 + int(u32(b[at:]))
			}
		}
	} else {
		f = genFile(t, GenOpt{permute: true, maxFeats: 40, many: t.P(20)})
		b = append([]byte(nil), f.bytes...)
		pts = filePoints(f)
		switch t.Pick(5, 1, 1, 1) {
		case 1:
			badDAG(w, t, f, b)
		case 2: // claim another count or node size
			h := *f.hdr
			switch t.N(3) {
			case 0:
				h.count = []uint64{1, 2, 1000, 1 << 20, 1 << 31, 1 << 40, 1 << 55, 1<<63 - 1, 1 << 63, 1<<64 - 1}[t.N(10)]
			case 1:
				h.count += uint64(1 + t.N(3))
			case 2:
				h.nodeSize = uint16([]int{0, 1, 2, 3, 16, 17, 65535}[t.N(7)])
			}
			h.encode(0)
			b = append(append(append([]byte{}, sig...), h.bytes...), b[f.hdrEnd:]...)
			w.faults["damage-claim"]++
		case 3: // a single length far too large
			if len(f.feats) > 0 {
				i := t.N(len(f.feats))
				binary.LittleEndian.PutUint32(b[f.featStart(i):], []uint32{0x7fffffff, 0xffffffff, 0x80000000, 0xfffffffc, 1 << 25, 3, 0, 4}[t.N(8)])
				w.faults["damage-length"]++
			}
		}
	}
	if t.P(900) {
		b = damage(w, t, b, pts)
	}
	w.desc = fmt.Sprintf("damaged file of %d bytes", len(b))
	w.memCap = memBound(len(b))
	base := pickBase(t, true)
	s := newSource(w, base, b)
	s.pos = base
	s.seekable = t.P(600)
	if !s.seekable {
		s.segs[0].off, s.end, s.pos = 0, int64(len(b)), 0
	}
	s.closable = t.P(200)
	s.Transfer(t)
	budget := 12*len(b) + 4000
	r := flatgeobuf.NewFileReader(s.Reader())
	var h *flat.Header
	var feats []flat.Feature
	var x *packedrtree.PackedRTree
	errs := 0
	note := func(op string, err error) {
		k := "ok"
		if err == io.EOF {
			k = "eof"
		} else if err != nil {
			k = "error"
			errs++
		}
		w.cover("file", op, k)
		w.ev("outcome:"+op+":"+k, 0, 0)
	}
	op := func(k int) {
		var err error
		switch k {
		case 0:
			var hh *flat.Header
			w.Call("Header", budget, func() { hh, err = r.Header() })
			if hh != nil {
				h = hh
			}
			note("Header", err)
		case 1:
			p := make([]flat.Feature, t.Pick(1, 3, 1)*(1+t.N(6)))
			var n int
			w.Call("Data", budget, func() { n, err = r.Data(p) })
			w.Check(n >= 0 && n <= len(p), "data-count", "Data(%d) returned %d", len(p), n)
			feats = append(feats, p[:n]...)
			note("Data", err)
		case 2:
			var p []flat.Feature
			w.Call("DataRem", budget, func() { p, err = r.DataRem() })
			feats = append(feats, p...)
			note("DataRem", err)
		case 3:
			var p []flat.Feature
			q := BoxM{-1e9, -1e9, 1e9, 1e9}
			if f != nil {
				q = f.genQuery(t)
			}
			w.Call("IndexSearch", budget, func() { p, err = r.IndexSearch(boxOf(q)) })
			if err == nil && h != nil {
				checkDamagedSearch(w, b, int(h.FeaturesCount()), int(h.IndexNodeSize()), p)
			}
			feats = append(feats, p...)
			note("IndexSearch", err)
		case 4:
			var y *packedrtree.PackedRTree
			w.Call("Index", budget, func() { y, err = r.Index() })
			if y != nil {
				x = y
			}
			note("Index", err)
		case 5:
			w.Call("Rewind", budget, func() { err = r.Rewind() })
			note("Rewind", err)
		case 6:
			if h != nil {
				w.Call("HeaderString", budget, func() { flatgeobuf.HeaderString(h) })
				note("HeaderString", nil)
			}
		case 7:
			if x != nil {
				damagedTree(w, t, x, budget+100*x.NumRefs())
			}
		case 8:
			if len(feats) > 0 {
				inspectDamaged(w, t, &feats[t.N(len(feats))], h, budget)
			}
		case 9:
			w.Call("Close", budget, func() { err = r.Close() })
			note("Close", err)
		}
	}
	op(0)
	n := t.Hist(3, 12)
	for i := 0; i < n; i++ {
		op(t.Pick(2, 8, 3, 5, 4, 5, 2, 3, 8, 0)) // index 0: Header
	}
	for i := range feats {
		if i < 30 {
			inspectDamaged(w, t, &feats[i], h, budget)
		}
	}
	if h != nil {
		op(6)
	}
	if t.P(300) {
		writeDamaged(w, t, h, x, feats, budget)
	}
	if t.P(300) {
		op(9)
		op(t.N(6))
	}
}

// checkDamagedSearch checks that the features which a search of a damaged
// file returned are those lying at the offsets given by leaves of its index.
func checkDamagedSearch(w *World, b []byte, n, ns int, p []flat.Feature) {
	if n <= 0 || ns < 2 || len(b) < 12 || len(p) == 0 {
		return
	}
	data := 12 + int64(u32(b[8:])) + indexSize(n, ns)
	leaves := data - 40*int64(n)
	if data > int64(len(b)) || leaves < 12 {
		w.Fail("damaged-search", "search of a file of %d bytes succeeded, but its data section would start at %d", len(b), data)
	}
	// The leaves by the first bytes of what lies at their offsets.
	key := func(rec []byte) uint64 {
		h := uint64(len(rec))
		for i := 0; i < len(rec) && i < 400; i++ {
			h = (h ^ uint64(rec[i])) * 0x100000001b3
		}
		return h
	}
	at := make(map[uint64][]int64)
	for j := 0; j < n; j++ {
		off := int64(u64(b[leaves+40*int64(j)+32:]))
		if off < 0 || off > int64(len(b))-data-4 {
			continue
		}
		rec := b[data+off:]
		if size := 4 + int64(u32(rec)); size <= int64(len(rec)) {
			k := key(rec[:size])
			at[k] = append(at[k], off)
		}
	}
next:
	for i := range p {
		got := p[i].Table().Bytes
		k := key(got)
		offs := at[k]
		for j := len(offs) - 1; j >= 0; j-- {
			if rec := b[data+offs[j]:]; tabBytes(got, rec[:4+int64(u32(rec))]) {
				at[k] = append(offs[:j], offs[j+1:]...)
				continue next
			}
		}
		w.Fail("damaged-search", "feature %d returned by a search of a damaged file does not lie at the offset of any leaf of its index", i)
	}
	w.cover("file", "IndexSearch", "offsets-checked")
}

func damagedTree(w *World, t *Tape, x *packedrtree.PackedRTree, budget int) {
	switch t.N(4) {
	case 0:
		w.Call("tree.Bounds", budget, func() { x.Bounds(); x.NumRefs(); x.NodeSize() })
	case 1:
		w.Call("tree.String", budget, func() { _ = x.String() })
	case 2:
		w.Call("tree.Marshal", budget, func() { _, _ = x.Marshal(io.Discard) })
	case 3:
		v := float64(t.N(20) - 10)
		w.Call("tree.Search", budget, func() {
			x.Search(packedrtree.Box{XMin: -v, YMin: -v, XMax: v, YMax: v})
			x.Search(packedrtree.Box{XMin: -1e300, YMin: -1e300, XMax: 1e300, YMax: 1e300})
		})
	}
}

// inspectDamaged makes summary and property calls on a damaged feature.
func inspectDamaged(w *World, t *Tape, f *flat.Feature, h *flat.Header, budget int) {
	var sc flatgeobuf.Schema
	if h != nil && t.P(700) {
		sc = h
	}
	w.Call("FeatureString", budget, func() { flatgeobuf.FeatureString(f, sc) })
	// The caller's own access to the damaged table may panic.
	props := safeProps(f)
	if len(props) > 0 {
		s := newSource(w, 0, props)
		s.Transfer(t)
		r := flatgeobuf.NewPropReader(s.Reader())
		if sc == nil || t.P(300) {
			sc = f
		}
		var err error
		w.Call("ReadSchema", 12*len(props)+4000, func() { _, err = r.ReadSchema(sc) })
		k := "ok"
		if err != nil {
			k = "error"
		}
		w.cover("props", k)
	}
}

func safeProps(f *flat.Feature) (b []byte) {
	defer func() {
		if recover() != nil {
			b = nil
		}
	}()
	return f.PropertiesBytes()
}

// writeDamaged hands damaged values to a writer.
func writeDamaged(w *World, t *Tape, h *flat.Header, x *packedrtree.PackedRTree, feats []flat.Feature, budget int) {
	if h == nil {
		return
	}
	sink := &Sink{w: w}
	wr := flatgeobuf.NewFileWriter(sink.Writer())
	budget += 20*len(feats) + 1000
	total := 0
	for i := range feats {
		total += len(feats[i].Table().Bytes)
	}
	w.memCap += 400 * uint64(total)
	w.Call("writer.Header", budget, func() { _, _ = wr.Header(h) })
	switch t.N(3) {
	case 0:
		if x != nil {
			w.Call("writer.Index", budget+x.NumRefs(), func() { _, _ = wr.Index(x) })
		}
	case 1:
		w.Call("writer.IndexData", budget, func() { _, _ = wr.IndexData(feats) })
	}
	for i := range feats {
		if i < 10 {
			w.Call("writer.Data", budget, func() { _, _ = wr.Data(&feats[i]) })
		}
	}
	w.Call("writer.Close", budget, func() { _ = wr.Close() })
}

// damagedIndex searches and deserializes a damaged index.
func damagedIndex(w *World, t *Tape) {
	leaves, ns := genLeaves(t, 0)
	idx := encodeIndex(leaves, ns)
	var pts []int
	for i := 0; i < len(idx) && i < 8000; i += 40 {
		pts = append(pts, i+32, i)
	}
	b := damage(w, t, append([]byte(nil), idx...), pts)
	n := len(leaves)
	switch t.Pick(4, 1, 1, 1) {
	case 1:
		n += 1 + t.N(5)
	case 2:
		n = int([]int64{1, 1 << 20, 1 << 31, 1 << 40, 1 << 57, math.MaxInt}[t.N(6)])
		if n < 1 { // 32-bit
			n = math.MaxInt
		}
	case 3:
		ns = genNodeSize(t)
	}
	w.desc = fmt.Sprintf("damaged index of %d bytes read as %d refs, node size %d", len(b), n, ns)
	w.memCap = memBound(len(b))
	base := pickBase(t, true)
	s := newSource(w, base, b)
	s.seekable = true
	s.Transfer(t)
	budget := 12*len(b) + 10000
	var err error
	for k := 0; k < 2; k++ {
		s.pos = base
		q := leafQuery(leaves, t)
		w.Call("Seek", budget, func() { _, err = packedrtree.Seek(s.ReadSeeker(), n, uint16(ns), boxOf(q)) })
		w.cover("seek", fmt.Sprint(err == nil))
		s.pos = base
		var x *packedrtree.PackedRTree
		w.Call("Unmarshal", budget, func() { x, err = packedrtree.Unmarshal(s.Reader(), n, uint16(ns)) })
		w.cover("unmarshal", fmt.Sprint(err == nil))
		if x != nil {
			for i := 0; i < 3; i++ {
				damagedTree(w, t, x, budget+100*len(leaves))
			}
		}
	}
}

// damagedProps decodes a damaged property block.
func damagedProps(w *World, t *Tape) {
	cols := genCols(t, 6)
	pv := genVals(t, cols, 8, t.P(100))
	enc := encodeProps(pv)
	var pts []int
	at := 0
	for i := range pv {
		pts = append(pts, at, at+2)
		at += len(encodeProps(pv[i : i+1]))
	}
	b := damage(w, t, append([]byte(nil), enc...), pts)
	var schema flatgeobuf.Schema
	if t.P(400) { // a damaged schema
		h := &HeaderM{cols: cols, nodeSize: 16}
		h.encode(0)
		hb := append([]byte(nil), h.bytes...)
		hp := vitalPoints(hb, 0, 0)
		hb = damage(w, t, hb, hp[2:])
		if len(hb) < 8 || int64(u32(hb[4:])) > int64(len(hb)) {
			return
		}
		func() {
			defer func() {
				if recover() != nil {
					schema = nil
				}
			}()
			schema = flat.GetSizePrefixedRootAsHeader(hb, 0)
		}()
		if schema == nil {
			return
		}
	} else {
		schema = schemaOf(w, t, cols)
	}
	w.desc = fmt.Sprintf("damaged property block of %d bytes", len(b))
	w.memCap = memBound(len(b))
	s := newSource(w, 0, b)
	s.Transfer(t)
	r := flatgeobuf.NewPropReader(s.Reader())
	budget := 12*len(b) + 4000
	var err error
	if t.P(600) {
		w.Call("ReadSchema", budget, func() { _, err = r.ReadSchema(schema) })
		w.cover("schema", fmt.Sprint(err == nil))
		return
	}
	for i := 0; i < 20 && err == nil; i++ {
		typ := byte(t.N(numTypes))
		w.Call("Read"+typeNames[typ], budget, func() { _, err = readValue(r, typ) })
		w.cover("value", typeNames[typ], fmt.Sprint(err == nil))
	}
}

// damagedFeature makes summary, property and index calls on a single
// damaged feature, which a caller may have got from anywhere.
func damagedFeature(w *World, t *Tape) {
	g := genCoords(t)
	cols := genCols(t, 5)
	h := &HeaderM{cols: cols, nodeSize: 16}
	h.encode(0)
	m := g.feature(t, cols, &GenOpt{}, newBuilder())
	if t.P(600) {
		m.geom = g.geom(t, 3, &GenOpt{})
		m.geom.typ = 7
		for i := t.N(4); i >= 0; i-- {
			m.geom.parts = append(m.geom.parts, g.geom(t, 2, &GenOpt{}))
		}
		m.encode(newBuilder(), 0)
	}
	b := append([]byte(nil), m.bytes...)
	pts := vitalPoints(b, 0, 0)
	if t.P(500) {
		for k := 1 + t.N(4); k > 0; k-- {
			from, to := pts[t.N(len(pts))], pts[t.N(len(pts))]
			if from+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[from:], uint32(to-from))
				w.faults["damage-link"]++
			}
		}
	} else {
		b = damage(w, t, b, pts)
	}
	w.desc = fmt.Sprintf("damaged feature of %d bytes", len(b))
	w.memCap = memBound(len(b))
	var f *flat.Feature
	func() {
		defer func() {
			if recover() != nil {
				f = nil
			}
		}()
		f = flat.GetSizePrefixedRootAsFeature(b, 0)
	}()
	if f == nil {
		return
	}
	hdr := flat.GetSizePrefixedRootAsHeader(h.bytes, 0)
	inspectDamaged(w, t, f, hdr, 1000)
	h2 := &HeaderM{cols: cols, nodeSize: 16, count: 1}
	h2.encode(0)
	sink := &Sink{w: w}
	wr := flatgeobuf.NewFileWriter(sink.Writer())
	w.Call("writer.Header", 1000, func() { _, _ = wr.Header(flat.GetSizePrefixedRootAsHeader(h2.bytes, 0)) })
	w.Call("writer.IndexData", 1000, func() { _, _ = wr.IndexData([]flat.Feature{*f}) })
	if bytes.Equal(b, m.bytes) {
		w.cover("undamaged")
	}
}
