package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"strconv"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/packedrtree"
	fb "github.com/google/flatbuffers/go"
)

// badCall makes a call which the writer has to reject.
func (d *WD) badCall() {
	t := d.t
	f := d.f
	some := func() *FeatM {
		if len(f.feats) > 0 {
			return f.feats[t.N(len(f.feats))]
		}
		m := &FeatM{geom: &GeomM{typ: 1, xy: []float64{1, 2}}}
		m.encode(newBuilder(), 0)
		return m
	}
	kind := t.Pick(3, 2, 3, 3, 3, 3, 2, 2)
	if len(f.feats) > 500 && (kind == 2 || kind == 5 || kind == 7) {
		if d.heavy++; d.heavy > 3 {
			kind = 3
		}
	}
	switch kind {
	case 0:
		d.Header(t.N(7))
	case 1:
		if d.st != rsNew {
			d.Header(-1)
		} else {
			d.Header(t.N(7))
		}
	case 2: // an index which does not belong to the header, or out of order
		n := len(f.feats)
		ns := f.nodeSize
		reject := ""
		switch {
		case ns == 0:
			n, ns = 1+t.N(3), 2+t.N(15)
			reject = "index of a file without one"
		case t.P(400):
			n += 1 + t.N(3)
			reject = "index with wrong count"
		case n > 1 && t.P(500):
			n--
			reject = "index with wrong count"
		case t.P(500):
			ns++
			reject = "index with wrong node size"
			if ns > 65535 {
				ns = 2
			}
		default:
			if d.st == rsHdr {
				n++
				reject = "index with wrong count"
			}
		}
		if d.st == rsHdr && ns == f.nodeSize && uint64(n) == f.hdr.count {
			n++
			reject = "index with wrong count"
		}
		leaves := make([]Leaf, n)
		for i := range leaves {
			leaves[i] = Leaf{BoxM{float64(i), 0, float64(i), 1}, int64(i) * 100, i}
		}
		idx := encodeIndex(leaves, ns)
		d.Index(makeTree(d.w, t, leaves, idx, ns), idx, reject)
	case 3: // invalid feature
		d.Data(some(), t.N(4))
	case 4: // feature out of order
		if d.st == rsNew || d.st == rsEOF || (d.st == rsHdr && d.ns > 0) || d.closed {
			d.Data(some(), -1)
		} else {
			d.Data(some(), t.N(4))
		}
	case 5: // features to index: wrong number, or one of them invalid
		if d.st != rsHdr || d.ns == 0 {
			d.IndexData(f.feats, t.P(500), -1, 0)
			return
		}
		if t.P(500) && len(f.feats) > 0 {
			d.IndexData(f.feats, t.P(500), t.N(len(f.feats)), t.N(7))
			return
		}
		k := t.N(3)
		if n := uint64(len(f.feats)); k == 1 && n+1 == f.hdr.count || k == 2 && n-1 == f.hdr.count {
			k = 0
		}
		switch k {
		case 0:
			d.IndexData(nil, t.P(500), -1, 0)
		case 1:
			d.IndexData(append(append([]*FeatM{}, f.feats...), some()), t.P(500), -1, 0)
		case 2:
			d.IndexData(f.feats[:len(f.feats)-1], t.P(500), -1, 0)
		}
	case 6: // an empty list of features
		d.IndexData(nil, t.P(500), -1, 0)
	case 7:
		if d.st == rsHdr && d.ns > 0 {
			d.Data(some(), -1)
		} else if f.nodeSize > 0 && d.st != rsHdr {
			d.Index(d.tree(), f.idx, "")
		} else {
			d.Header(t.N(7))
		}
	}
}

// goodCall makes the next call of a complete write sequence.
func (d *WD) goodCall() {
	switch {
	case d.st == rsNew:
		d.Header(-1)
	case d.st == rsHdr && d.ns > 0:
		if len(d.f.feats) > 500 {
			if d.heavy++; d.heavy > 6 { // it is refused again and again
				return
			}
		}
		if d.method == "" {
			d.method = []string{"Index", "IndexData", "IndexDataPtr"}[d.t.N(3)]
		}
		if d.method == "Index" {
			d.Index(d.tree(), d.f.idx, "")
		} else {
			d.IndexData(d.f.feats, d.method == "IndexDataPtr", -1, 0)
		}
	case d.st != rsEOF && d.next < len(d.f.feats):
		d.Data(d.f.feats[d.next], -1)
	}
}

// finish checks the bytes of a complete write sequence.
func (d *WD) finish() {
	g := d.f
	if d.method == "IndexData" || d.method == "IndexDataPtr" {
		g = &FileM{hdr: d.f.hdr, nodeSize: d.f.nodeSize, feats: d.ordered}
		g.assemble(nil)
	}
	d.w.Check(bytes.Equal(g.bytes, d.s.buf), "content", "the written file differs from the format at byte %d of %d", diffAt(g.bytes, d.s.buf), len(g.bytes))
}

// nestedParts writes a feature whose parts are nested so deeply that the
// writer may refuse it. If it does not, the index must be right.
func nestedParts(w *World, t *Tape) {
	f := genFile(t, GenOpt{index: 1, minFeats: 1, maxFeats: 6, permute: true})
	m := f.feats[t.N(len(f.feats))]
	m.geom = &GeomM{typ: 1, xy: []float64{float64(t.N(2000) - 1000), float64(t.N(2000) - 1000)}}
	for n := []int{64, 65, 66, 67, 100, 1000}[t.N(6)]; n > 0; n-- {
		g := &GeomM{typ: 7, parts: []*GeomM{m.geom}}
		if t.P(100) {
			g.parts = append(g.parts, &GeomM{typ: 1, xy: []float64{1, 2}})
		}
		m.geom = g
	}
	m.encode(fb.NewBuilder(256), 0)
	f.assemble(nil)
	w.desc = fileDesc(f)
	d := newWD(w, t, f)
	d.nested = true
	d.open(false)
	d.Header(-1)
	d.IndexData(f.feats, t.P(500), -1, 0)
	if d.st == rsEOF {
		d.method = "IndexData"
		d.Close()
		d.finish()
	}
	w.nontriv = true
}

// C02: exact layout.
func runC02(w *World) {
	t := w.T
	if t.P(4) {
		nestedParts(w, t)
		return
	}
	f := genFile(t, GenOpt{permute: true, many: t.P(100), wide: 60, big: t.P(300), maxFeats: 150})
	w.desc = fileDesc(f)
	d := newWD(w, t, f)
	d.slack = t.P(300)
	if t.P(300) {
		d.mem = &argMem{}
	}
	bad := t.P(500)
	// Writes of which nothing is accepted, and the retries after them.
	fails := t.P(500)
	d.s.stdOK = !fails
	d.share = true
	d.open(t.P(300))
	pbad := 200
	if n := len(f.feats); n > 200 {
		pbad = 40000 / n
	}
	for i := 0; i < 4*len(f.feats)+20; i++ {
		if bad && t.P(pbad) {
			d.badCall()
			continue
		}
		if fails && d.st >= rsIdx && d.st != rsEOF && t.P(200) {
			d.s.faults = []*WFault{{kind: "write", at: int64(d.s.writes) + 1, err: newErr(w, "write")}}
		}
		if d.st == rsEOF || (d.st != rsNew && d.next >= len(f.feats) && !(d.ns > 0 && d.st == rsHdr)) {
			break
		}
		d.goodCall()
		if d.dead || d.limbo {
			w.Fail("retry", "a feature write of which nothing was accepted left the writer unusable")
		}
	}
	for d.next < len(f.feats) {
		d.s.faults = nil
		d.goodCall()
	}
	if bad {
		d.badCall()
	}
	d.Close()
	d.finish()
	d.checkArgs()
	if d.mem != nil && t.P(400) { // another file from the same memory
		d.release()
		writeFile(w, t, genFile(t, GenOpt{permute: true, maxFeats: 30}), d.mem)
	}
	w.nontriv = len(f.feats) > 0 && (w.fired > 0 || bad || f.nodeSize > 0)
}

// C07: writer call histories.
func runC07(w *World) {
	t := w.T
	f := genFile(t, GenOpt{permute: true, maxFeats: []int{12, 300}[t.Pick(29, 1)], many: t.P(5), wide: 250})
	if len(f.feats) > 0 && t.P(150) { // a header which declares another number of features
		switch n := uint64(len(f.feats)); t.Pick(2, 2, 2, 2, 1, 1) {
		case 0:
			f.hdr.count = n + 1 + uint64(t.N(3))
		case 1:
			f.hdr.count = n - uint64(t.N(int(n)))
		case 2:
			f.hdr.count = uint64(t.N(int(n)+2)) + uint64(1+t.N(3))<<uint(t.Pick(1, 1)*8+8)
		case 3:
			f.hdr.count = uint64(t.N(int(n)+2)) + uint64(1+t.N(3))<<uint([]int{31, 32, 33, 48}[t.N(4)])
		case 4:
			f.hdr.count = math.MaxInt - uint64(t.N(int(n)+2))
		case 5:
			f.hdr.count = uint64(t.N(int(n)+2)) + 1<<uint(8+t.N(55))
		}
		if f.hdr.count > math.MaxInt {
			f.hdr.count = math.MaxInt
		}
		if f.nodeSize == 0 {
			f.hdr.nodeSize = 0
		}
		f.hdr.encode(0)
		f.assemble(nil)
		w.cover("declared", strconv.Itoa(bits.Len64(f.hdr.count)))
	}
	w.desc = fileDesc(f)
	d := newWD(w, t, f)
	d.slack = t.P(300)
	if t.P(300) {
		d.mem = &argMem{}
	}
	d.s.stdOK = true
	d.share = true
	d.open(t.P(300))
	n := t.Hist(1, 20)
	for i := 0; i < n; i++ {
		if t.P(450) {
			d.badCall()
		} else {
			d.goodCall()
		}
		if d.f.hdr.count == 0 && d.st != rsNew && d.next == len(f.feats) && t.P(200) {
			// Unknown count: features may go on.
			if len(f.feats) > 0 {
				f.feats = append(f.feats, f.feats[t.N(len(f.feats))])
				m := *f.feats[len(f.feats)-1]
				f.feats[len(f.feats)-1] = &m
				f.assemble(nil)
			}
		}
	}
	if len(f.feats) > 300 && t.P(500) { // write nearly everything
		for i := 0; i < len(f.feats)+6 && d.st != rsEOF && d.next < len(f.feats) && d.heavy <= 6; i++ {
			d.goodCall()
		}
		for i := t.N(4); i > 0; i-- {
			d.badCall()
		}
	}
	// The bytes are a prefix of the file.
	g := f
	if d.method == "IndexData" || d.method == "IndexDataPtr" {
		if len(d.ordered) > 0 {
			g = &FileM{hdr: f.hdr, nodeSize: f.nodeSize, feats: d.ordered}
			g.assemble(nil)
		}
	}
	w.Check(bytes.HasPrefix(g.bytes, d.s.buf), "content", "the bytes written are not a prefix of the file (differ at %d)", diffAt(g.bytes, d.s.buf))
	if t.P(600) {
		d.Close()
		if t.P(300) {
			d.Close()
		}
	}
	d.checkArgs()
	w.nontriv = w.calls > 4
}

// C08: write failures. The same call sequence is first made on a perfect
// stream, which gives the reference bytes.
func runC08(w *World) {
	t := w.T
	f := genFile(t, GenOpt{permute: true, maxFeats: 40, big: t.P(100)})
	w.desc = fileDesc(f)
	ref := newWD(w, t, f)
	ref.open(false)
	for ref.st != rsEOF && !(ref.next >= len(f.feats) && ref.st != rsNew && !(ref.st == rsHdr && ref.ns > 0)) {
		ref.goodCall()
	}
	R := ref.s.buf
	method := ref.method
	g := f
	if method == "IndexData" || method == "IndexDataPtr" {
		g = &FileM{hdr: f.hdr, nodeSize: f.nodeSize, feats: ref.ordered}
		g.assemble(nil)
	}
	w.Check(bytes.Equal(R, g.bytes), "content", "the written file differs from the format at byte %d", diffAt(g.bytes, R))

	sink := &Sink{w: w, closable: t.P(300)}
	nf := 1 + t.Pick(4, 2)
	for i := 0; i < nf; i++ {
		sink.faults = append(sink.faults, genWFault(w, t, g.end, 3+len(f.feats), g.bounds()...))
	}
	wr := flatgeobuf.NewFileWriter(sink.Writer())
	boundary := map[int]bool{0: true, int(g.hdrEnd): true, int(g.idxEnd): true}
	for i := range g.feats {
		boundary[int(g.featEnd(i))] = true
	}
	args := newWD(w, t, f)
	budget := args.budget()
	dead, limbo := false, false
	var last error
	// call makes one call and checks the rules which hold for every call.
	call := func(name string, fn func() (int, error)) (int, error) {
		before := len(sink.buf)
		sink.clearCall()
		var n int
		var err error
		w.Call(name, budget, func() { n, err = fn() })
		acc := len(sink.buf) - before
		w.Check(n == acc, "byte-count", "%s returned %d, the stream accepted %d bytes (err=%v)", name, n, acc, err)
		w.Check(bytes.HasPrefix(R, sink.buf), "not-a-prefix", "after %s the stream holds other bytes than an error-free run writes (at %d)", name, diffAt(R, sink.buf))
		if dead {
			w.Check(err != nil, "fault-not-sticky", "%s succeeded after a write failure left a piece partly written", name)
			w.Check(acc == 0, "dead-writes", "%s wrote %d bytes after a write failure left a piece partly written", name, acc)
			w.cover("dead", name)
		} else if sink.last != nil {
			w.Check(err != nil, "fault-swallowed", "%s succeeded although the stream failed with %v", name, sink.last)
			w.Check(hasCause(err, sink.last), "cause-lost", "%s returned %q, which does not preserve %q", name, err, sink.last)
			last = sink.last
			if !boundary[len(sink.buf)] {
				dead = true
				w.cover("torn", name)
			} else if sink.lastN > 0 {
				limbo = true
				w.cover("late", name)
			} else {
				w.cover("nothing", name)
			}
		} else if !limbo {
			last = nil
		}
		return n, err
	}
	retries := 0
	pos := func() int { return len(sink.buf) }
	// Header.
	ok := false
	for try := 0; try < 2 && !ok && !dead && !limbo; try++ {
		_, err := call("Header", func() (int, error) { return wr.Header(args.hdrArg()) })
		ok = err == nil
	}
	if ok && f.nodeSize > 0 {
		ok = false
		for try := 0; try < 2 && !ok && !dead && !limbo && pos() == int(g.hdrEnd); try++ {
			switch method {
			case "Index":
				x := args.tree()
				_, err := call("Index", func() (int, error) { return wr.Index(x) })
				ok = err == nil
			default:
				_, err := call(method, func() (int, error) {
					if method == "IndexData" {
						return wr.IndexData(featVals(args, f.feats))
					}
					vs := featVals(args, f.feats)
					ps := make([]*flatFeature, len(vs))
					for i := range vs {
						ps[i] = &vs[i]
					}
					return wr.IndexDataPtr(ps)
				})
				ok = err == nil
				if ok {
					w.Check(pos() == len(R), "content", "%s succeeded without writing everything", method)
				}
				// A feature write of which nothing was accepted can be
				// retried feature by feature.
				if err != nil && !dead && !limbo && pos() >= int(g.idxEnd) {
					ok = true
				}
			}
			if try > 0 {
				retries++
			}
		}
	}
	if ok {
		for i := 0; i < 4*len(g.feats)+8 && pos() < len(R) && !dead && !limbo; i++ {
			k := 0
			for int(g.featStart(k)) != pos() {
				k++
			}
			before := pos()
			_, err := call("Data", func() (int, error) { return wr.Data(args.featArg(g.feats[k])) })
			if err != nil && !dead && !limbo {
				w.Check(sink.last != nil, "retry", "Data failed with %q although the stream did not: nothing of the feature had been accepted before", err)
				w.Check(pos() == before, "not-a-prefix", "failed Data wrote bytes")
				retries++
				if sink.broken != nil && t.P(300) {
					break
				}
			}
		}
		if !dead && !limbo && sink.broken == nil {
			w.Check(bytes.Equal(sink.buf, R), "incomplete", "after all retries %d of %d bytes were written", len(sink.buf), len(R))
		}
	}
	if dead {
		for i := 1 + t.N(4); i > 0; i-- {
			switch t.N(4) {
			case 0:
				call("Header", func() (int, error) { return wr.Header(args.hdrArg()) })
			case 1:
				if f.nodeSize > 0 {
					x := args.tree()
					call("Index", func() (int, error) { return wr.Index(x) })
				}
			case 2:
				if f.nodeSize > 0 {
					call("IndexData", func() (int, error) { return wr.IndexData(featVals(args, f.feats)) })
				}
			case 3:
				if len(f.feats) > 0 {
					k := t.N(len(f.feats))
					call("Data", func() (int, error) { return wr.Data(args.featArg(f.feats[k])) })
				}
			}
		}
	} else if limbo && len(f.feats) > 0 {
		for i := t.N(4); i > 0; i-- {
			k := 0
			for k < len(g.feats)-1 && int(g.featStart(k)) != pos() {
				k++
			}
			if int(g.featStart(k)) == pos() {
				call("Data", func() (int, error) { return wr.Data(args.featArg(g.feats[k])) })
			}
		}
	}
	sink.clearCall()
	before := pos()
	var err error
	w.Call("Close", budget, func() { err = wr.Close() })
	w.Check(pos() == before, "close-writes", "Close wrote bytes")
	hdrDone := before >= int(g.hdrEnd) && !(limbo && before == int(g.hdrEnd))
	if hdrDone && f.hdr.count > 0 && before < len(R) {
		w.Check(err != nil, "short-file", "Close reported success for a file cut at %d of %d bytes", before, len(R))
	}
	_ = last
	w.nontriv = w.fired > 0
	if retries > 0 {
		w.cover("retried")
	}
	args.checkArgs()
}

func featVals(d *WD, feats []*FeatM) []flatFeature {
	vs := make([]flatFeature, len(feats))
	for i, m := range feats {
		vs[i] = *d.featArg(m)
	}
	return vs
}

func runC12w(w *World) {
	t := w.T
	f := genFile(t, GenOpt{maxFeats: 10})
	w.desc = fileDesc(f)
	d := newWD(w, t, f)
	d.open(t.P(800))
	if t.P(400) {
		d.s.closeErr = newErr(w, "close")
	}
	if t.P(300) {
		d.s.syncErr = newErr(w, "sync")
	}
	if t.P(300) {
		d.s.faults = append(d.s.faults, genWFault(w, t, f.end, 8, f.bounds()...))
	}
	n := t.Hist(0, 10)
	for i := 0; i < n && !d.limbo; i++ {
		if d.dead || t.P(300) {
			d.badCall()
		} else if d.st == rsHdr && d.ns > 0 {
			if len(d.s.faults) > 0 {
				d.Index(d.tree(), f.idx, "")
			} else {
				d.goodCall()
			}
		} else {
			d.goodCall()
		}
		w.Check(d.s.closes == 0, "closed-early", "the stream was closed by %s", w.call)
	}
	d.Close()
	for i := 1 + t.N(6); i > 0; i-- {
		switch t.N(6) {
		case 0:
			d.Close()
		case 1:
			d.Header(-1)
		case 2:
			if f.nodeSize > 0 {
				d.Index(d.tree(), f.idx, "")
			}
		case 3:
			d.IndexData(f.feats, t.P(500), -1, 0)
		case 4:
			if len(f.feats) > 0 {
				d.Data(f.feats[t.N(len(f.feats))], -1)
			}
		case 5:
			d.Header(t.N(7))
		}
	}
	w.Check(!d.s.closable || d.s.closes == 1, "close-count", "the stream was closed %d times", d.s.closes)
	w.nontriv = n > 0
}

var errNone = errors.New("none")

func treeFor(w *World, leaves []Leaf, ns int) *packedrtree.PackedRTree {
	x, err := packedrtree.New(refsOf(leaves), uint16(ns))
	w.Check(err == nil, "tree-error", "New: %v", err)
	return x
}

func desc(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }
