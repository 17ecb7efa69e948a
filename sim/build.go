package main

import (
	"bytes"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)

// This file builds headers and features as a user of the library does, with
// the builder functions of package flat. The results have to be the bytes
// which the independent encoder of spec.go makes.

func flatVec(b *fb.Builder, n int, start func(*fb.Builder, int) fb.UOffsetT, put func(i int)) fb.UOffsetT {
	start(b, n)
	for i := n - 1; i >= 0; i-- {
		put(i)
	}
	return b.EndVector(n)
}

func flatFloats(b *fb.Builder, v []float64, start func(*fb.Builder, int) fb.UOffsetT) fb.UOffsetT {
	if v == nil {
		return 0
	}
	return flatVec(b, len(v), start, func(i int) { b.PrependFloat64(v[i]) })
}

func flatGeom(b *fb.Builder, g *GeomM) fb.UOffsetT {
	if g == nil {
		return 0
	}
	var parts, ends, tm fb.UOffsetT
	if g.parts != nil {
		offs := make([]fb.UOffsetT, len(g.parts))
		for i, p := range g.parts {
			offs[i] = flatGeom(b, p)
		}
		parts = flatVec(b, len(offs), flat.GeometryStartPartsVector, func(i int) { b.PrependUOffsetT(offs[i]) })
	}
	if g.ends != nil {
		ends = flatVec(b, len(g.ends), flat.GeometryStartEndsVector, func(i int) { b.PrependUint32(g.ends[i]) })
	}
	xy := flatFloats(b, g.xy, flat.GeometryStartXyVector)
	z := flatFloats(b, g.z, flat.GeometryStartZVector)
	m := flatFloats(b, g.m, flat.GeometryStartMVector)
	t := flatFloats(b, g.t, flat.GeometryStartTVector)
	if g.tm != nil {
		tm = flatVec(b, len(g.tm), flat.GeometryStartTmVector, func(i int) { b.PrependUint64(g.tm[i]) })
	}
	flat.GeometryStart(b)
	flat.GeometryAddEnds(b, ends)
	flat.GeometryAddXy(b, xy)
	flat.GeometryAddZ(b, z)
	flat.GeometryAddM(b, m)
	flat.GeometryAddT(b, t)
	flat.GeometryAddTm(b, tm)
	flat.GeometryAddType(b, flat.GeometryType(g.typ))
	flat.GeometryAddParts(b, parts)
	return flat.GeometryEnd(b)
}

func flatCol(b *fb.Builder, c *ColM) fb.UOffsetT {
	n, t, d, m := fbStr(b, c.name), fbStr(b, c.title), fbStr(b, c.desc), fbStr(b, c.meta)
	flat.ColumnStart(b)
	flat.ColumnAddName(b, n)
	flat.ColumnAddType(b, flat.ColumnType(c.typ))
	flat.ColumnAddTitle(b, t)
	flat.ColumnAddDescription(b, d)
	flat.ColumnAddWidth(b, c.width)
	flat.ColumnAddPrecision(b, c.precision)
	flat.ColumnAddScale(b, c.scale)
	flat.ColumnAddNullable(b, c.nullable)
	flat.ColumnAddUnique(b, c.unique)
	flat.ColumnAddPrimaryKey(b, c.pk)
	flat.ColumnAddMetadata(b, m)
	return flat.ColumnEnd(b)
}

func flatCols(b *fb.Builder, cols []ColM, start func(*fb.Builder, int) fb.UOffsetT) fb.UOffsetT {
	if cols == nil {
		return 0
	}
	offs := make([]fb.UOffsetT, len(cols))
	for i := range cols {
		offs[i] = flatCol(b, &cols[i])
	}
	return flatVec(b, len(offs), start, func(i int) { b.PrependUOffsetT(offs[i]) })
}

func flatCrs(b *fb.Builder, c *CrsM) fb.UOffsetT {
	o, n, d, w, cs := fbStr(b, c.org), fbStr(b, c.name), fbStr(b, c.desc), fbStr(b, c.wkt), fbStr(b, c.codeString)
	flat.CrsStart(b)
	flat.CrsAddOrg(b, o)
	flat.CrsAddCode(b, c.code)
	flat.CrsAddName(b, n)
	flat.CrsAddDescription(b, d)
	flat.CrsAddWkt(b, w)
	flat.CrsAddCodeString(b, cs)
	return flat.CrsEnd(b)
}

func flatHeader(b *fb.Builder, h *HeaderM) fb.UOffsetT {
	var crs fb.UOffsetT
	if h.crs != nil {
		crs = flatCrs(b, h.crs)
	}
	name, title, desc, meta := fbStr(b, h.name), fbStr(b, h.title), fbStr(b, h.desc), fbStr(b, h.meta)
	env := flatFloats(b, h.env, flat.HeaderStartEnvelopeVector)
	cols := flatCols(b, h.cols, flat.HeaderStartColumnsVector)
	flat.HeaderStart(b)
	flat.HeaderAddName(b, name)
	flat.HeaderAddEnvelope(b, env)
	flat.HeaderAddGeometryType(b, flat.GeometryType(h.gtype))
	flat.HeaderAddHasZ(b, h.hasZ)
	flat.HeaderAddHasM(b, h.hasM)
	flat.HeaderAddHasT(b, h.hasT)
	flat.HeaderAddHasTm(b, h.hasTM)
	flat.HeaderAddColumns(b, cols)
	flat.HeaderAddFeaturesCount(b, h.count)
	flat.HeaderAddIndexNodeSize(b, h.nodeSize)
	flat.HeaderAddCrs(b, crs)
	flat.HeaderAddTitle(b, title)
	flat.HeaderAddDescription(b, desc)
	flat.HeaderAddMetadata(b, meta)
	return flat.HeaderEnd(b)
}

func flatFeat(b *fb.Builder, f *FeatM) fb.UOffsetT {
	g := flatGeom(b, f.geom)
	var props fb.UOffsetT
	if f.props != nil {
		if len(f.props)%2 == 0 {
			props = b.CreateByteVector(f.props)
		} else {
			props = flatVec(b, len(f.props), flat.FeatureStartPropertiesVector, func(i int) { b.PrependByte(f.props[i]) })
		}
	}
	cols := flatCols(b, f.cols, flat.FeatureStartColumnsVector)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FeatureAddProperties(b, props)
	flat.FeatureAddColumns(b, cols)
	return flat.FeatureEnd(b)
}

// checkBuilders builds some of a file's tables with package flat, and reads
// them back as roots at any position of a buffer.
func checkBuilders(w *World, t *Tape, f *FileM) {
	// same compares with the independent encoding, whose record may be
	// longer than the table.
	same := func(what string, got, want []byte) {
		w.Check(len(got) >= 8 && len(got) <= len(want) && bytes.Equal(got[4:], want[4:len(got)]) && int(u32(got))+4 == len(got), "builder", "package flat builds other bytes for a %s (at %d)", what, diffAt(got, want))
	}
	lead := int(t.Pick(1, 1)) * (1 + t.N(20))
	at := func(b []byte) []byte { return append(bytes.Repeat([]byte{0xA5}, lead), b...) }
	o := fb.UOffsetT(lead)
	w.Call("flat header", 10, func() {
		b := fb.NewBuilder(64)
		flat.FinishSizePrefixedHeaderBuffer(b, flatHeader(b, f.hdr))
		got := b.FinishedBytes()
		same("header", got, f.hdr.bytes)
		deepHeader(w, flat.GetSizePrefixedRootAsHeader(at(got), o), f.hdr)
		b = fb.NewBuilder(64)
		flat.FinishHeaderBuffer(b, flatHeader(b, f.hdr))
		deepHeader(w, flat.GetRootAsHeader(at(b.FinishedBytes()), o), f.hdr)
		if c := f.hdr.crs; c != nil {
			b = fb.NewBuilder(64)
			flat.FinishCrsBuffer(b, flatCrs(b, c))
			deepCrs(w, flat.GetRootAsCrs(at(b.FinishedBytes()), o), c)
			b = fb.NewBuilder(64)
			flat.FinishSizePrefixedCrsBuffer(b, flatCrs(b, c))
			deepCrs(w, flat.GetSizePrefixedRootAsCrs(at(b.FinishedBytes()), o), c)
		}
		if len(f.hdr.cols) > 0 {
			c := &f.hdr.cols[t.N(len(f.hdr.cols))]
			b = fb.NewBuilder(64)
			flat.FinishColumnBuffer(b, flatCol(b, c))
			deepCol(w, "root", 0, flat.GetRootAsColumn(at(b.FinishedBytes()), o), c)
			b = fb.NewBuilder(64)
			flat.FinishSizePrefixedColumnBuffer(b, flatCol(b, c))
			deepCol(w, "root", 0, flat.GetSizePrefixedRootAsColumn(at(b.FinishedBytes()), o), c)
		}
	})
	for k := 0; k < 3 && len(f.feats) > 0; k++ {
		m := f.feats[t.N(len(f.feats))]
		w.Call("flat feature", 10, func() {
			b := fb.NewBuilder(64)
			flat.FinishSizePrefixedFeatureBuffer(b, flatFeat(b, m))
			got := b.FinishedBytes()
			same("feature", got, m.bytes)
			deepFeature(w, flat.GetSizePrefixedRootAsFeature(at(got), o), m)
			b = fb.NewBuilder(64)
			flat.FinishFeatureBuffer(b, flatFeat(b, m))
			deepFeature(w, flat.GetRootAsFeature(at(b.FinishedBytes()), o), m)
			if m.geom != nil {
				b = fb.NewBuilder(64)
				flat.FinishGeometryBuffer(b, flatGeom(b, m.geom))
				deepGeom(w, flat.GetRootAsGeometry(at(b.FinishedBytes()), o), m.geom)
				b = fb.NewBuilder(64)
				flat.FinishSizePrefixedGeometryBuffer(b, flatGeom(b, m.geom))
				deepGeom(w, flat.GetSizePrefixedRootAsGeometry(at(b.FinishedBytes()), o), m.geom)
			}
		})
	}
	w.cover("builders")
}

// checkMutators changes some of a file's tables in place with package flat.
// Each change has to be refused exactly if the field is absent, and to change
// nothing but the field.
func checkMutators(w *World, t *Tape, f *FileM) {
	vec := func(v []float64) []float64 { return append(v[:0:0], v...) }
	scalar := func(name string, p int, tab fb.Table, slot int, mutate func() bool, set func()) {
		if !t.P(p) {
			return
		}
		has := fieldAt(tab.Bytes, int(tab.Pos), slot) != 0
		got := mutate()
		w.Check(got == has, "mutator", "Mutate%s returned %v, field present: %v", name, got, has)
		if has {
			set()
		}
	}
	elem := func(name string, n int, mutate func(j int) bool) {
		if n == 0 || !t.P(400) {
			return
		}
		j := t.N(n)
		w.Check(mutate(j), "mutator", "Mutate%s(%d) of %d elements returned false", name, j, n)
	}
	floats := func(name string, v []float64, mutate func(int, float64) bool) {
		w.Check(v != nil || !mutate(0, 1), "mutator", "Mutate%s(0) returned true, but there is no such field", name)
		elem(name, len(v), func(j int) bool {
			v[j] = float64(int64(mix(t.U64(1<<32)))) / 8
			return mutate(j, v[j])
		})
	}
	w.Call("mutators", 10, func() {
		m := *f.hdr
		m.bytes = append([]byte(nil), f.hdr.bytes...)
		m.env = vec(m.env)
		h := flat.GetSizePrefixedRootAsHeader(m.bytes, 0)
		floats("Envelope", m.env, h.MutateEnvelope)
		v := mix(t.U64(1 << 32))
		bit := t.N(2) == 1
		scalar("GeometryType", 400, h.Table(), 2, func() bool { return h.MutateGeometryType(flat.GeometryType(byte(v))) }, func() { m.gtype = byte(v) })
		scalar("HasZ", 300, h.Table(), 3, func() bool { return h.MutateHasZ(bit) }, func() { m.hasZ = bit })
		scalar("HasM", 300, h.Table(), 4, func() bool { return h.MutateHasM(bit) }, func() { m.hasM = bit })
		scalar("HasT", 300, h.Table(), 5, func() bool { return h.MutateHasT(bit) }, func() { m.hasT = bit })
		scalar("HasTm", 300, h.Table(), 6, func() bool { return h.MutateHasTm(bit) }, func() { m.hasTM = bit })
		scalar("FeaturesCount", 400, h.Table(), 8, func() bool { return h.MutateFeaturesCount(v) }, func() { m.count = v })
		scalar("IndexNodeSize", 400, h.Table(), 9, func() bool { return h.MutateIndexNodeSize(uint16(v)) }, func() { m.nodeSize = uint16(v) })
		if m.crs != nil {
			c := *m.crs
			m.crs = &c
			x := h.Crs(nil)
			scalar("Code", 500, x.Table(), 1, func() bool { return x.MutateCode(int32(v)) }, func() { c.code = int32(v) })
		}
		if n := len(m.cols); n > 0 && n < 1000 {
			m.cols = append([]ColM(nil), m.cols...)
			c := &m.cols[t.N(n)]
			var x flat.Column
			for i := range m.cols {
				if c == &m.cols[i] {
					h.Columns(&x, i)
				}
			}
			scalar("Type", 400, x.Table(), 1, func() bool { return x.MutateType(flat.ColumnType(byte(v))) }, func() { c.typ = byte(v) })
			scalar("Width", 400, x.Table(), 4, func() bool { return x.MutateWidth(int32(v)) }, func() { c.width = int32(v) })
			scalar("Precision", 400, x.Table(), 5, func() bool { return x.MutatePrecision(int32(v >> 9)) }, func() { c.precision = int32(v >> 9) })
			scalar("Scale", 400, x.Table(), 6, func() bool { return x.MutateScale(int32(v >> 17)) }, func() { c.scale = int32(v >> 17) })
			scalar("Nullable", 400, x.Table(), 7, func() bool { return x.MutateNullable(bit) }, func() { c.nullable = bit })
			scalar("Unique", 400, x.Table(), 8, func() bool { return x.MutateUnique(bit) }, func() { c.unique = bit })
			scalar("PrimaryKey", 400, x.Table(), 9, func() bool { return x.MutatePrimaryKey(bit) }, func() { c.pk = bit })
		}
		deepHeader(w, flat.GetSizePrefixedRootAsHeader(m.bytes, 0), &m)
		if len(f.feats) == 0 {
			return
		}
		fm := *f.feats[t.N(len(f.feats))]
		fm.bytes = append([]byte(nil), fm.bytes...)
		x := flat.GetSizePrefixedRootAsFeature(fm.bytes, 0)
		if fm.props != nil {
			fm.props = append([]byte{}, fm.props...)
			elem("Properties", len(fm.props), func(j int) bool {
				fm.props[j] = byte(v)
				return x.MutateProperties(j, byte(v))
			})
		} else {
			w.Check(!x.MutateProperties(0, 1), "mutator", "MutateProperties returned true, but there are none")
		}
		if fm.geom != nil {
			fm.geom = cloneGeom(fm.geom)
			g, gm := x.Geometry(nil), fm.geom
			for len(gm.parts) > 0 && t.P(700) {
				j := t.N(len(gm.parts))
				sub := &flat.Geometry{}
				g.Parts(sub, j)
				g, gm = sub, gm.parts[j]
			}
			floats("Xy", gm.xy, g.MutateXy)
			floats("Z", gm.z, g.MutateZ)
			floats("M", gm.m, g.MutateM)
			floats("T", gm.t, g.MutateT)
			w.Check((gm.ends != nil || !g.MutateEnds(0, 1)) && (gm.tm != nil || !g.MutateTm(0, 1)), "mutator", "MutateEnds or MutateTm returned true, but there is no such field")
			elem("Ends", len(gm.ends), func(j int) bool { gm.ends[j] = uint32(v); return g.MutateEnds(j, uint32(v)) })
			elem("Tm", len(gm.tm), func(j int) bool { gm.tm[j] = v; return g.MutateTm(j, v) })
			scalar("Type", 400, g.Table(), 6, func() bool { return g.MutateType(flat.GeometryType(byte(v))) }, func() { gm.typ = byte(v) })
		}
		deepFeature(w, flat.GetSizePrefixedRootAsFeature(fm.bytes, 0), &fm)
	})
	w.cover("mutators")
}

func cloneGeom(g *GeomM) *GeomM {
	c := *g
	c.ends = append(g.ends[:0:0], g.ends...)
	c.xy, c.z, c.m, c.t = append(g.xy[:0:0], g.xy...), append(g.z[:0:0], g.z...), append(g.m[:0:0], g.m...), append(g.t[:0:0], g.t...)
	c.tm = append(g.tm[:0:0], g.tm...)
	c.parts = c.parts[:0:0]
	for _, p := range g.parts {
		c.parts = append(c.parts, cloneGeom(p))
	}
	return &c
}
