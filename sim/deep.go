package main

import (
	"bytes"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

// This file compares returned headers and features with their models through
// the accessors a user has.

func eqStr(w *World, what string, got []byte, want string) {
	switch want {
	case "":
		w.Check(got == nil, "accessor", "%s is %q, want none", what, got)
	case "\x00":
		w.Check(got != nil && len(got) == 0, "accessor", "%s is %q, want present and empty", what, got)
	default:
		w.Check(string(got) == want, "accessor", "%s is %q, want %q", what, got, want)
	}
}

func eqFloats(w *World, what string, n int, at func(int) float64, want []float64) {
	w.Check(n == len(want), "accessor", "%s has %d elements, want %d", what, n, len(want))
	w.Check(want != nil || at(0) == 0, "accessor", "%s[0] is not zero, but there are none", what)
	for i := 0; i < n; i++ {
		if i > 64 && i < n-64 {
			continue
		}
		w.Check(at(i) == want[i], "accessor", "%s[%d] is %v, want %v", what, i, at(i), want[i])
	}
}

func deepCols(w *World, what string, n int, at func(*flat.Column, int) bool, want []ColM) {
	w.Check(n == len(want), "accessor", "%s: %d columns, want %d", what, n, len(want))
	for i := range want {
		var c flat.Column
		w.Check(at(&c, i), "accessor", "%s: column %d missing", what, i)
		deepCol(w, what, i, &c, &want[i])
	}
	w.Check(want != nil || !at(&flat.Column{}, 0), "accessor", "%s: there are no columns, but one was found", what)
}

func deepCol(w *World, what string, i int, c *flat.Column, m *ColM) {
	eqStr(w, what+" column name", c.Name(), m.name)
	w.Check(byte(c.Type()) == m.typ, "accessor", "%s: column %d type %v, want %d", what, i, c.Type(), m.typ)
	eqStr(w, what+" column title", c.Title(), m.title)
	eqStr(w, what+" column description", c.Description(), m.desc)
	eqStr(w, what+" column metadata", c.Metadata(), m.meta)
	w.Check(c.Width() == m.width && c.Precision() == m.precision && c.Scale() == m.scale, "accessor", "%s: column %d width/precision/scale %d/%d/%d, want %d/%d/%d", what, i, c.Width(), c.Precision(), c.Scale(), m.width, m.precision, m.scale)
	w.Check(c.Nullable() == m.nullable && c.Unique() == m.unique && c.PrimaryKey() == m.pk, "accessor", "%s: column %d flags differ", what, i)
}

func deepHeader(w *World, h *flat.Header, m *HeaderM) {
	eqStr(w, "header name", h.Name(), m.name)
	eqStr(w, "header title", h.Title(), m.title)
	eqStr(w, "header description", h.Description(), m.desc)
	eqStr(w, "header metadata", h.Metadata(), m.meta)
	eqFloats(w, "header envelope", h.EnvelopeLength(), h.Envelope, m.env)
	w.Check(byte(h.GeometryType()) == m.gtype, "accessor", "header geometry type %v, want %d", h.GeometryType(), m.gtype)
	w.Check(h.HasZ() == m.hasZ && h.HasM() == m.hasM && h.HasT() == m.hasT && h.HasTm() == m.hasTM, "accessor", "header dimension flags differ")
	w.Check(h.FeaturesCount() == m.count && h.IndexNodeSize() == m.nodeSize, "accessor", "header count %d node size %d, want %d and %d", h.FeaturesCount(), h.IndexNodeSize(), m.count, m.nodeSize)
	deepCols(w, "header", h.ColumnsLength(), h.Columns, m.cols)
	crs := h.Crs(nil)
	w.Check((crs != nil) == (m.crs != nil), "accessor", "header CRS presence differs")
	if crs != nil {
		deepCrs(w, crs, m.crs)
		var given flat.Crs
		w.Check(h.Crs(&given) == &given, "accessor", "the header's CRS was not stored where it was asked for")
		deepCrs(w, &given, m.crs)
	}
}

func deepCrs(w *World, crs *flat.Crs, m *CrsM) {
	eqStr(w, "crs org", crs.Org(), m.org)
	eqStr(w, "crs name", crs.Name(), m.name)
	eqStr(w, "crs description", crs.Description(), m.desc)
	eqStr(w, "crs wkt", crs.Wkt(), m.wkt)
	eqStr(w, "crs code string", crs.CodeString(), m.codeString)
	w.Check(crs.Code() == m.code, "accessor", "crs code %d, want %d", crs.Code(), m.code)
}

func deepGeom(w *World, g *flat.Geometry, m *GeomM) {
	w.Check(byte(g.Type()) == m.typ, "accessor", "geometry type %v, want %d", g.Type(), m.typ)
	eqFloats(w, "xy", g.XyLength(), g.Xy, m.xy)
	eqFloats(w, "z", g.ZLength(), g.Z, m.z)
	eqFloats(w, "m", g.MLength(), g.M, m.m)
	eqFloats(w, "t", g.TLength(), g.T, m.t)
	w.Check(g.TmLength() == len(m.tm) && g.EndsLength() == len(m.ends), "accessor", "tm/ends have %d/%d elements, want %d/%d", g.TmLength(), g.EndsLength(), len(m.tm), len(m.ends))
	for i := range m.tm {
		w.Check(g.Tm(i) == m.tm[i], "accessor", "tm[%d] is %d, want %d", i, g.Tm(i), m.tm[i])
	}
	for i := range m.ends {
		w.Check(g.Ends(i) == m.ends[i], "accessor", "ends[%d] is %d, want %d", i, g.Ends(i), m.ends[i])
	}
	w.Check((m.tm != nil || g.Tm(0) == 0) && (m.ends != nil || g.Ends(0) == 0), "accessor", "tm[0] or ends[0] is not zero, but there are none")
	w.Check(m.parts != nil || !g.Parts(&flat.Geometry{}, 0), "accessor", "there are no parts, but one was found")
	w.Check(g.PartsLength() == len(m.parts), "accessor", "geometry has %d parts, want %d", g.PartsLength(), len(m.parts))
	for i := range m.parts {
		var p flat.Geometry
		w.Check(g.Parts(&p, i), "accessor", "part %d missing", i)
		deepGeom(w, &p, m.parts[i])
	}
}

func deepFeature(w *World, f *flat.Feature, m *FeatM) {
	g := f.Geometry(nil)
	w.Check((g != nil) == (m.geom != nil), "accessor", "feature geometry presence differs")
	if g != nil {
		var given flat.Geometry
		w.Check(f.Geometry(&given) == &given && given.Table().Pos == g.Table().Pos, "accessor", "the feature's geometry was not stored where it was asked for")
		deepGeom(w, g, m.geom)
	}
	w.Check(f.PropertiesLength() == len(m.props) && bytes.Equal(f.PropertiesBytes(), m.props), "accessor", "feature properties differ")
	if len(m.props) > 0 {
		i := len(m.props) / 2
		w.Check(f.Properties(i) == m.props[i], "accessor", "feature property byte %d differs", i)
	}
	w.Check(m.props != nil || f.PropertiesBytes() == nil && f.Properties(0) == 0, "accessor", "the feature has no properties, but the accessors find some")
	deepCols(w, "feature", f.ColumnsLength(), f.Columns, m.cols)
}
