package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sync"
	"syscall"
	"unsafe"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	fb "github.com/google/flatbuffers/go"
)

// readValue reads a value of the given type and returns it in model form.
func readValue(r *flatgeobuf.PropReader, typ byte) (p PropM, err error) {
	p.typ = typ
	switch typ {
	case tByte:
		var v int8
		v, err = r.ReadByte()
		p.bits = uint64(uint8(v))
	case tUByte:
		var v uint8
		v, err = r.ReadUByte()
		p.bits = uint64(v)
	case tBool:
		var v bool
		v, err = r.ReadBool()
		if v {
			p.bits = 1
		}
	case tShort:
		var v int16
		v, err = r.ReadShort()
		p.bits = uint64(uint16(v))
	case tUShort:
		var v uint16
		v, err = r.ReadUShort()
		p.bits = uint64(v)
	case tInt:
		var v int32
		v, err = r.ReadInt()
		p.bits = uint64(uint32(v))
	case tUInt:
		var v uint32
		v, err = r.ReadUInt()
		p.bits = uint64(v)
	case tLong:
		var v int64
		v, err = r.ReadLong()
		p.bits = uint64(v)
	case tULong:
		p.bits, err = r.ReadULong()
	case tFloat:
		var v float32
		v, err = r.ReadFloat()
		p.bits = uint64(math.Float32bits(v))
	case tDouble:
		var v float64
		v, err = r.ReadDouble()
		p.bits = math.Float64bits(v)
	case tString, tDateTime:
		var v string
		v, err = r.ReadString()
		p.data = []byte(v)
	default:
		p.data, err = r.ReadBinary()
	}
	return
}

func writeValue(x *flatgeobuf.PropWriter, p *PropM) (int, error) {
	switch p.typ {
	case tByte:
		return x.WriteByte(int8(p.bits))
	case tUByte:
		return x.WriteUByte(uint8(p.bits))
	case tBool:
		return x.WriteBool(p.bits != 0)
	case tShort:
		return x.WriteShort(int16(p.bits))
	case tUShort:
		return x.WriteUShort(uint16(p.bits))
	case tInt:
		return x.WriteInt(int32(p.bits))
	case tUInt:
		return x.WriteUInt(uint32(p.bits))
	case tLong:
		return x.WriteLong(int64(p.bits))
	case tULong:
		return x.WriteULong(p.bits)
	case tFloat:
		return x.WriteFloat(math.Float32frombits(uint32(p.bits)))
	case tDouble:
		return x.WriteDouble(math.Float64frombits(p.bits))
	case tString, tDateTime:
		return x.WriteString(string(p.data))
	}
	return x.WriteBinary(p.data)
}

var typeNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}

// intDefect is the known finding about Int values: only the low byte is
// decoded.
const intDefect = "PropReader.ReadInt returns v&0xFF"

// sameValue compares a value read with the one written. For the known finding
// it demands exactly the known wrong result.
func sameValue(w *World, got, want *PropM) bool {
	if got.bits == want.bits && bytes.Equal(got.data, want.data) {
		return true
	}
	if want.typ == tInt && got.typ == tInt && got.bits == want.bits&0xff {
		w.knownFinding("C13", intDefect)
		return true
	}
	return false
}

func (w *World) knownFinding(prop, what string) {
	for _, k := range w.known {
		if k == what {
			return
		}
	}
	w.known = append(w.known, what)
}

// fromAny converts a value decoded by ReadSchema.
func fromAny(typ byte, v interface{}) (p PropM, ok bool) {
	p.typ = typ
	switch x := v.(type) {
	case int8:
		p.bits, ok = uint64(uint8(x)), typ == tByte
	case uint8:
		p.bits, ok = uint64(x), typ == tUByte
	case bool:
		if x {
			p.bits = 1
		}
		ok = typ == tBool
	case int16:
		p.bits, ok = uint64(uint16(x)), typ == tShort
	case uint16:
		p.bits, ok = uint64(x), typ == tUShort
	case int32:
		p.bits, ok = uint64(uint32(x)), typ == tInt
	case uint32:
		p.bits, ok = uint64(x), typ == tUInt
	case int64:
		p.bits, ok = uint64(x), typ == tLong
	case uint64:
		p.bits, ok = x, typ == tULong
	case float32:
		p.bits, ok = uint64(math.Float32bits(x)), typ == tFloat
	case float64:
		p.bits, ok = math.Float64bits(x), typ == tDouble
	case string:
		p.data, ok = []byte(x), typ == tString || typ == tDateTime
	case []byte:
		p.data, ok = x, typ == tJson || typ == tBinary
	}
	return
}

func schemaOf(w *World, t D, cols []ColM) flatgeobuf.Schema {
	if t.N(2) == 0 {
		h := &HeaderM{cols: cols, nodeSize: 16}
		return flat.GetSizePrefixedRootAsHeader(h.encode(0), 0)
	}
	f := &FeatM{cols: cols}
	return flat.GetSizePrefixedRootAsFeature(f.encode(fb.NewBuilder(256), 0), 0)
}

func genTypedVals(t *Tape, max int, big bool) []PropM {
	n := t.Hist(0, max+1)
	vals := make([]PropM, n)
	for i := range vals {
		vals[i] = genValue(t, byte(t.N(numTypes)), big)
	}
	return vals
}

func checkSchemaVals(w *World, got []flatgeobuf.PropValue, want []PropM, cols []ColM) {
	w.Check(len(got) == len(want), "schema-count", "ReadSchema returned %d values, want %d", len(got), len(want))
	for i := range got {
		m := &want[i]
		g := &got[i]
		w.Check(int(g.ColIndex) == m.col, "schema-column", "value %d has column index %d, want %d", i, g.ColIndex, m.col)
		w.Check(byte(g.Type) == m.typ, "schema-type", "value %d has type %v, want %s", i, g.Type, typeNames[m.typ])
		eqStr(w, "column name", g.Col.Name(), cols[m.col].name)
		w.Check(byte(g.Col.Type()) == m.typ && g.Col.Width() == cols[m.col].width, "schema-column", "value %d has column type %v, width %d, want %s, %d", i, g.Col.Type(), g.Col.Width(), typeNames[m.typ], cols[m.col].width)
		p, ok := fromAny(m.typ, g.Value)
		w.Check(ok, "schema-value", "value %d of type %s has Go type %T", i, typeNames[m.typ], g.Value)
		w.Check(sameValue(w, &p, m), "schema-value", "value %d of type %s is %x/%q, want %x/%q", i, typeNames[m.typ], p.bits, p.data, m.bits, m.data)
	}
}

// C13: property values round-trip.
func runC13(w *World) {
	t := w.T
	t.huge = !t.small && t.P(20)
	big := t.P(150)
	vals := genTypedVals(t, 12, big)
	w.desc = fmt.Sprintf("%d property values", len(vals))
	sink := &Sink{w: w, closable: t.P(200), stdOK: true}
	x := flatgeobuf.NewPropWriter(sink.Writer())
	var enc []byte
	for i := range vals {
		before := len(sink.buf)
		start := len(enc)
		enc = encodeValue(enc, &vals[i])
		var n int
		var err error
		arg := vals[i]
		if arg.data != nil {
			arg.data = append([]byte{}, arg.data...)
		}
		w.Call("Write"+typeNames[arg.typ], 100, func() { n, err = writeValue(x, &arg) })
		w.Check(err == nil && n == len(sink.buf)-before, "write", "Write%s returned (%d, %v), the stream accepted %d bytes", typeNames[arg.typ], n, err, len(sink.buf)-before)
		w.Check(bytes.Equal(sink.buf[before:], enc[start:]), "encoding", "Write%s of %x/%d bytes wrote %x", typeNames[arg.typ], arg.bits, len(arg.data), head(sink.buf[before:]))
		w.Check(bytes.Equal(arg.data, vals[i].data), "argument-modified", "Write%s modified its argument", typeNames[arg.typ])
	}
	w.Check(sink.closes == 0, "closed-early", "the property writer closed its stream")
	src := func(b []byte) *Source {
		s := newSource(w, 0, b)
		s.seekable, s.closable = t.P(200), t.P(200)
		s.stdOK = true
		s.Transfer(t)
		return s
	}
	s := src(sink.buf)
	r := flatgeobuf.NewPropReader(s.Reader())
	budget := 8*len(enc) + 1000
	for i := range vals {
		var p PropM
		var err error
		w.Call("Read"+typeNames[vals[i].typ], budget, func() { p, err = readValue(r, vals[i].typ) })
		w.Check(err == nil, "read", "Read%s failed: %v", typeNames[vals[i].typ], err)
		w.Check(sameValue(w, &p, &vals[i]), "value", "Read%s returned %x/%x, written was %x/%x", typeNames[vals[i].typ], p.bits, head(p.data), vals[i].bits, head(vals[i].data))
		w.cover("value", typeNames[vals[i].typ])
	}
	if s.at() == s.end {
		var err error
		w.Call("ReadByte at end", budget, func() { _, err = r.ReadByte() })
		w.Check(errors.Is(err, io.EOF), "end", "reading at the end of the block returned %v, want io.EOF", err)
	} else {
		w.Fail("position", "after reading all values the stream is at %d of %d", s.at(), s.end)
	}

	// A block with a schema.
	cols := genCols(t, 8)
	if t.P(4) {
		cols = genWideCols(t)
		w.cover("schema", "wide")
	}
	pv := genVals(t, cols, 8, big)
	schema := schemaOf(w, t, cols)
	sink2 := &Sink{w: w, stdOK: true}
	x2 := flatgeobuf.NewPropWriter(sink2.Writer())
	for i := range pv {
		var err error
		w.Call("WriteUShort", 100, func() { _, err = x2.WriteUShort(uint16(pv[i].col)) })
		w.Check(err == nil, "write", "WriteUShort failed: %v", err)
		w.Call("Write"+typeNames[pv[i].typ], 100, func() { _, err = writeValue(x2, &pv[i]) })
		w.Check(err == nil, "write", "Write%s failed: %v", typeNames[pv[i].typ], err)
	}
	w.Check(bytes.Equal(sink2.buf, encodeProps(pv)), "encoding", "property block differs from its encoding at byte %d", diffAt(sink2.buf, encodeProps(pv)))
	s2 := src(sink2.buf)
	r2 := flatgeobuf.NewPropReader(s2.Reader())
	var got []flatgeobuf.PropValue
	var err error
	w.Call("ReadSchema", 8*len(sink2.buf)+1000, func() { got, err = r2.ReadSchema(schema) })
	w.Check(err == nil, "schema-error", "ReadSchema failed: %v", err)
	checkSchemaVals(w, got, pv, cols)
	w.Check(s2.at() == s2.end, "position", "ReadSchema left the stream at %d of %d", s2.at(), s2.end)
	w.Check(s.closes == 0 && s2.closes == 0, "closed-early", "the property reader closed its stream")
	w.nontriv = len(vals)+len(pv) > 0
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// C14: property I/O failures.
func runC14(w *World) {
	w.eofErrs = true
	t := w.T
	t.huge = !t.small && t.P(10)
	switch t.Pick(3, 4, 3) {
	case 0: // writer
		if t.P(15) {
			runTooLong(w)
			return
		}
		vals := genTypedVals(t, 8, t.P(100))
		var enc []byte
		var bounds []int64
		for i := range vals {
			bounds = append(bounds, int64(len(enc)))
			enc = encodeValue(enc, &vals[i])
		}
		w.desc = fmt.Sprintf("writing %d values, %d bytes", len(vals), len(enc))
		sink := &Sink{w: w}
		for i := 1 + t.N(2); i > 0; i-- {
			sink.faults = append(sink.faults, genWFault(w, t, int64(len(enc)), 2*len(vals)+1, bounds...))
		}
		x := flatgeobuf.NewPropWriter(sink.Writer())
		for i := range vals {
			want := encodeValue(nil, &vals[i])
			for try := 0; try < 2; try++ {
				before := len(sink.buf)
				sink.clearCall()
				var n int
				var err error
				w.Call("Write"+typeNames[vals[i].typ], 100, func() { n, err = writeValue(x, &vals[i]) })
				acc := sink.buf[before:]
				w.Check(n == len(acc), "byte-count", "Write%s returned %d, the stream accepted %d bytes (err=%v)", typeNames[vals[i].typ], n, len(acc), err)
				w.Check(bytes.HasPrefix(want, acc), "content", "Write%s wrote other bytes than the value's encoding", typeNames[vals[i].typ])
				if sink.last != nil {
					w.Check(err != nil && hasCause(err, sink.last), "cause-lost", "Write%s returned %v, the stream failed with %v", typeNames[vals[i].typ], err, sink.last)
					w.cover("write-fault", typeNames[vals[i].typ])
					if len(acc) > 0 {
						break
					}
					continue
				}
				w.Check(err == nil && len(acc) == len(want), "write", "Write%s wrote %d of %d bytes and returned %v", typeNames[vals[i].typ], len(acc), len(want), err)
				break
			}
		}
		w.nontriv = w.fired > 0
	case 1: // value reader
		vals := genTypedVals(t, 8, t.P(100))
		if len(vals) == 0 {
			vals = append(vals, genValue(t, byte(t.N(numTypes)), false))
		}
		var enc []byte
		var bounds []int64
		for i := range vals {
			bounds = append(bounds, int64(len(enc)))
			enc = encodeValue(enc, &vals[i])
			if typeSize[vals[i].typ] < 0 {
				bounds = append(bounds, int64(len(enc)-len(vals[i].data)))
			}
		}
		if len(enc) == 0 {
			return
		}
		s := newSource(w, 0, enc)
		cut := int64(len(enc))
		if t.P(500) {
			cut = genCut(t, cut, bounds...)
			s.segs[0].data = enc[:cut]
			s.end = cut
			w.faults["cut"]++
		} else {
			s.faults = append(s.faults, genRFault(w, t, 0, cut, false, bounds...))
		}
		w.desc = fmt.Sprintf("reading %d values from %d of %d bytes", len(vals), cut, len(enc))
		s.Transfer(t)
		r := flatgeobuf.NewPropReader(s.Reader())
		at := int64(0)
		for i := range vals {
			n := int64(len(encodeValue(nil, &vals[i])))
			var p PropM
			var err error
			s.clearCall()
			name := typeNames[vals[i].typ]
			w.Call("Read"+name, 8*len(enc)+1000, func() { p, err = readValue(r, vals[i].typ) })
			if s.last != nil {
				w.Check(err != nil, "fault-swallowed", "Read%s returned %x/%q although the stream failed", name, p.bits, head(p.data))
				w.Check(hasCause(err, s.last), "cause-lost", "Read%s returned %q, which does not preserve %q", name, err, s.last)
				w.cover("read-fault", name)
				w.nontriv = true
				return
			}
			if at+n > cut {
				w.Check(err != nil, "made-up", "Read%s returned %x/%q with %d of %d bytes", name, p.bits, head(p.data), cut-at, n)
				if at < cut {
					w.Check(!errors.Is(err, io.EOF), "truncated-as-eof", "Read%s of %d of %d bytes returned %q, which reads as a normal end", name, cut-at, n, err)
				}
				w.cover("read-cut", name)
				w.nontriv = true
				return
			}
			w.Check(err == nil, "read", "Read%s failed: %v", name, err)
			w.Check(sameValue(w, &p, &vals[i]), "value", "Read%s returned %x/%x, want %x/%x", name, p.bits, head(p.data), vals[i].bits, head(vals[i].data))
			at += n
		}
	case 2: // schema reader
		cols := genCols(t, 6)
		if t.P(4) {
			cols = genWideCols(t)
			w.cover("schema", "wide")
		}
		if len(cols) == 0 {
			cols = []ColM{{name: "c", typ: byte(t.N(numTypes)), width: -1, precision: -1, scale: -1, nullable: true}}
		}
		pv := genVals(t, cols, 6, t.P(100))
		schema := schemaOf(w, t, cols)
		var enc []byte
		ends := map[int64]int{0: 0}
		bounds := []int64{0}
		for i := range pv {
			enc = append(enc, encodeProps(pv[i:i+1])...)
			ends[int64(len(enc))] = i + 1
			bounds = append(bounds, int64(len(enc)), int64(len(enc))-int64(len(pv[i].data)))
		}
		bad := ""
		cut := int64(len(enc))
		var s *Source
		switch t.Pick(4, 3, 2, 1, 1) {
		case 0:
			cut = genCut(t, cut, bounds...)
			enc = enc[:cut]
			w.faults["cut"]++
			if _, ok := ends[cut]; !ok {
				bad = "cut inside an entry"
			} else {
				pv = pv[:ends[cut]]
			}
			s = newSource(w, 0, enc)
		case 1:
			s = newSource(w, 0, enc)
			s.faults = append(s.faults, genRFault(w, t, 0, cut+1, false, bounds...))
		case 2:
			if len(cols) > 65535 {
				cols = cols[:65535]
				schema = schemaOf(w, t, cols)
			}
			c := len(cols) + t.Skew(65535-len(cols))
			enc = append(enc, byte(c), byte(c>>8))
			enc = append(enc, make([]byte, t.N(9))...)
			s = newSource(w, 0, enc)
			bad = fmt.Sprintf("column %d of %d", c, len(cols))
		case 3:
			s = newSource(w, 0, enc)
		case 4:
			s = newSource(w, 0, enc)
			if len(pv) > 0 {
				schema, bad = badSchema(t, cols, pv[t.N(len(pv))].col)
			}
		}
		w.desc = fmt.Sprintf("schema of %d columns, %d values, %d bytes %s", len(cols), len(pv), len(enc), bad)
		s.Transfer(t)
		r := flatgeobuf.NewPropReader(s.Reader())
		var got []flatgeobuf.PropValue
		var err error
		w.Call("ReadSchema", 8*len(enc)+1000, func() { got, err = r.ReadSchema(schema) })
		switch {
		case s.last != nil:
			w.Check(err != nil, "fault-swallowed", "ReadSchema returned %d values although the stream failed", len(got))
			w.Check(len(got) == 0, "fault-delivers", "ReadSchema returned values together with %v", err)
			w.cover("schema", "fault")
			w.nontriv = true
		case bad != "":
			w.Check(err != nil, "made-up", "ReadSchema returned %d values from a block with %s", len(got), bad)
			w.cover("schema", "bad")
			w.nontriv = true
		default:
			w.Check(err == nil, "schema-error", "ReadSchema failed: %v", err)
			checkSchemaVals(w, got, pv, cols)
			w.cover("schema", "ok")
		}
	}
}

// lostColumn is a schema which cannot deliver one of its columns.
type lostColumn struct {
	flatgeobuf.Schema
	col int
}

func (l lostColumn) Columns(obj *flat.Column, j int) bool {
	return j != l.col && l.Schema.Columns(obj, j)
}

// badSchema makes a schema in which column c cannot be read.
func badSchema(t *Tape, cols []ColM, c int) (flatgeobuf.Schema, string) {
	cols = append([]ColM(nil), cols...)
	kind := t.N(4)
	if kind == 0 {
		cols[c].typ = byte(numTypes + t.N(256-numTypes))
	}
	var b []byte
	slot := 7
	header := t.P(500)
	if header {
		h := &HeaderM{cols: cols, nodeSize: 16}
		b = append(b, h.encode(0)...)
	} else {
		f := &FeatM{cols: cols}
		b = append(b, f.encode(fb.NewBuilder(256), 0)...)
		slot = 2
	}
	vec := fieldAt(b, 4+int(u32(b[4:])), slot)
	elem := vec + int(u32(b[vec:])) + 4 + 4*c
	what := ""
	switch kind {
	case 0:
		what = fmt.Sprintf("column %d of the unknown type %d", c, cols[c].typ)
	case 1:
		binary.LittleEndian.PutUint32(b[elem:], uint32(len(b)+t.N(1<<20)))
		what = fmt.Sprintf("column %d outside the schema's table", c)
	case 2:
		binary.LittleEndian.PutUint32(b[vec:], uint32(len(b)+t.N(1<<20)))
		what = "the columns outside the schema's table"
	}
	b = b[:len(b):len(b)]
	var s flatgeobuf.Schema = flat.GetSizePrefixedRootAsFeature(b, 0)
	if header {
		s = flat.GetSizePrefixedRootAsHeader(b, 0)
	}
	if kind == 3 {
		s, what = lostColumn{s, c}, fmt.Sprintf("column %d not to be found", c)
	}
	return s, what
}

// tooLong is read-only memory of more than 2^32 bytes, of which no page is
// ever touched.
var tooLong = sync.OnceValue(func() []byte {
	n := int64(1)<<32 + 1<<16
	if int64(int(n)) != n {
		return nil
	}
	b, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return b
})

// lenWriter only counts.
type lenWriter struct {
	calls int
	n     int64
}

func (l *lenWriter) Write(p []byte) (int, error) {
	l.calls++
	l.n += int64(len(p))
	return len(p), nil
}

// runTooLong checks that a value whose length does not fit into the length
// field is refused.
func runTooLong(w *World) {
	t := w.T
	b := tooLong()
	if b == nil || raceEnabled {
		return
	}
	v := b[:len(b)-1<<16+t.Skew(1<<16)]
	w.desc = fmt.Sprintf("writing a value of %d bytes", len(v))
	l := &lenWriter{}
	x := flatgeobuf.NewPropWriter(l)
	var n int
	var err error
	name := "WriteBinary"
	if t.P(500) {
		name = "WriteString"
	}
	w.Call(name, 100, func() {
		if name == "WriteString" {
			n, err = x.WriteString(unsafe.String(&v[0], len(v)))
		} else {
			n, err = x.WriteBinary(v)
		}
	})
	w.Check(err != nil, "too-long", "%s of %d bytes, which do not fit a 32-bit length, returned (%d, nil)", name, len(v), n)
	w.Check(l.n == 0 && n == 0, "too-long", "%s of %d bytes was refused after writing %d bytes (returned %d)", name, len(v), l.n, n)
	w.cover("write-too-long", name)
	w.nontriv = true
}

// runPropConsumption checks that each property read consumes exactly its
// value.
func runPropConsumption(w *World) {
	t := w.T
	t.huge = !t.small && t.P(20)
	vals := genTypedVals(t, 10, t.P(100))
	var enc []byte
	for i := range vals {
		enc = encodeValue(enc, &vals[i])
	}
	w.desc = fmt.Sprintf("%d property values", len(vals))
	base := int64(t.N(40))
	s := newSource(w, base, enc)
	s.pos = base
	s.end += int64(t.N(60))
	s.seekable = t.P(200)
	s.stdOK = true
	s.Transfer(t)
	r := flatgeobuf.NewPropReader(s.Reader())
	at := base
	for i := range vals {
		n := int64(len(encodeValue(nil, &vals[i])))
		s.onRead = func(pos int64, k int) {
			if pos+int64(k) > at+n {
				w.Fail("over-read", "read of %d bytes at %d requests bytes past the end of the value at %d", k, pos-base, at+n-base)
			}
		}
		var err error
		w.Call("Read"+typeNames[vals[i].typ], 8*len(enc)+1000, func() { _, err = readValue(r, vals[i].typ) })
		w.Check(err == nil, "read", "Read%s failed: %v", typeNames[vals[i].typ], err)
		at += n
		w.Check(s.at() == at, "position", "Read%s left the stream at %d, the value ends at %d", typeNames[vals[i].typ], s.at()-base, at-base)
	}
	w.nontriv = len(vals) > 0
}
