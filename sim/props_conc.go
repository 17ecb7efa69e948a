package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

var (
	curWorld *World
	curSched *Sched
)

func init() { packedrtree.SimYield = simYield }

// simYield is called by each step of an index search.
func simYield() {
	if s := curSched; s != nil {
		if s.isMixed() {
			return // Several tasks may be running.
		}
		if i := s.getCur(); i >= 0 {
			s.tasks[i].w.step()
		}
		return
	}
	if w := curWorld; w != nil {
		w.step()
	}
}

// runTasks runs the bodies as tasks with child worlds and passes on the first
// violation.
func runTasks(w *World, s *Sched, worlds []*World, bodies []func(*World)) {
	s.w = w
	s.cur = -1
	curSched = s
	s.Run(worlds, bodies)
	curSched = nil
	for i, c := range worlds {
		w.merge(c, i)
	}
}

func (w *World) child(t *Tape) *World {
	c := newWorld(t)
	c.verbose = w.verbose
	c.stopOnViol = w.stopOnViol
	return c
}

// merge adds up what a child world counted.
func (w *World) merge(c *World, i int) {
	w.ev("task", int64(i), int64(c.hash))
	for _, k := range sortedKeys(c.faults) {
		w.faults[k] += c.faults[k]
	}
	for _, k := range sortedKeys(c.cov) {
		w.cov[k] += c.cov[k]
	}
	w.fired += c.fired
	w.calls += c.calls
	w.total += c.total
	w.data += c.data
	if w.verbose {
		w.note("task %d:", i)
		for _, l := range c.log {
			w.note("    [%d] %s", i, l)
		}
	}
}

// sharedThings is what the tasks of C15 share.
type sharedThings struct {
	x      *packedrtree.PackedRTree
	leaves []Leaf
	ns     int
	idx    []byte
	str    string
	bounds packedrtree.Box
	f      *FileM
	hdr    *flat.Header
	feats  []flat.Feature
	fstr   []string
	hstr   string
	hbytes []byte
}

// C15: concurrent use of one index, and of features and headers.
func runC15(w *World) {
	t := w.T
	w.stopOnViol = true
	sh := &sharedThings{}
	if t.P(500) {
		sh.leaves, sh.ns = genLeaves(t, 0)
		if len(sh.leaves) > 150 {
			sh.leaves = sh.leaves[:150]
		}
		sh.idx = encodeIndex(sh.leaves, sh.ns)
		sh.x = makeTree(w, t, sh.leaves, sh.idx, sh.ns)
	} else {
		f := genFile(t, GenOpt{index: 1, maxFeats: 60, permute: true})
		sh.f = f
		sh.leaves, sh.ns, sh.idx = f.leaves, f.nodeSize, f.idx
		s := newSource(w, 0, f.bytes)
		s.Transfer(t)
		r := flatgeobuf.NewFileReader(s.Reader())
		var err error
		b := 8*len(f.bytes) + 2000
		w.Call("Header", b, func() { sh.hdr, err = r.Header() })
		w.Check(err == nil, "header-error", "Header: %v", err)
		w.Call("Index", b, func() { sh.x, err = r.Index() })
		w.Check(err == nil && sh.x != nil, "index-error", "Index: %v", err)
		w.Call("DataRem", b, func() { sh.feats, err = r.DataRem() })
		w.Check(err == nil, "data-error", "DataRem: %v", err)
		// Expected answers come from separate objects, so that this does
		// not initialize anything lazily in the shared ones.
		for i := range sh.feats {
			if i >= 12 {
				break
			}
			m := f.feats[i]
			cp := flat.GetSizePrefixedRootAsFeature(append([]byte(nil), m.bytes...), 0)
			hc := flat.GetSizePrefixedRootAsHeader(append([]byte(nil), f.hdr.bytes...), 0)
			w.Call("FeatureString", 10, func() { sh.fstr = append(sh.fstr, flatgeobuf.FeatureString(cp, hc)) })
		}
		hc := flat.GetSizePrefixedRootAsHeader(append([]byte(nil), f.hdr.bytes...), 0)
		w.Call("HeaderString", 10, func() { sh.hstr = flatgeobuf.HeaderString(hc) })
	}
	var err error
	var twin *packedrtree.PackedRTree
	w.Call("Unmarshal", len(sh.idx)+100, func() {
		twin, err = packedrtree.Unmarshal(bytes.NewReader(sh.idx), len(sh.leaves), uint16(sh.ns))
	})
	w.Check(err == nil, "tree-error", "Unmarshal: %v", err)
	w.Call("String", 10, func() { sh.str = twin.String(); sh.bounds = twin.Bounds() })

	n := 2 + t.Pick(4, 3, 2, 1)
	var worlds []*World
	var bodies []func(*World)
	for i := 0; i < n; i++ {
		worlds = append(worlds, w.child(t.Child()))
		bodies = append(bodies, sh.task)
	}
	w.desc = fmt.Sprintf("%d tasks sharing an index of %d refs, node size %d, and %d features", n, len(sh.leaves), sh.ns, len(sh.feats))
	runTasks(w, &Sched{}, worlds, bodies)
	for i, c := range worlds {
		if c.viol != nil {
			c.viol.Msg = fmt.Sprintf("task %d: %s", i, c.viol.Msg)
			w.viol = c.viol
			return
		}
	}
	checkTree(w, sh.x, sh.idx, len(sh.leaves), sh.ns)
	w.nontriv = w.switches > 2
}

func (sh *sharedThings) task(w *World) {
	t := w.T
	k := 1 + t.N(6)
	for i := 0; i < k; i++ {
		budget := 4*len(sh.leaves) + 2000
		switch t.Pick(8, 1, 1, 2, 4, 2, 2, 2, 2, 1) {
		case 0:
			q := leafQuery(sh.leaves, t)
			var rs packedrtree.Results
			w.Call(q.name("Search"), budget, func() { rs = sh.x.Search(boxOf(q)) })
			checkResults(w, "Search", rs, sh.leaves, q, false)
			for j := range rs { // the caller may do what it likes with them
				rs[j] = packedrtree.Result{Offset: -1, RefIndex: -1}
			}
			w.cover("op", "Search")
		case 1:
			w.Call("Bounds", budget, func() {
				b := sh.x.Bounds()
				w.Check(b == sh.bounds, "bounds", "Bounds returned %v, want %v", b, sh.bounds)
			})
			w.cover("op", "Bounds")
		case 2:
			w.Call("NumRefs", budget, func() {
				w.Check(sh.x.NumRefs() == len(sh.leaves) && int(sh.x.NodeSize()) == sh.ns, "params", "tree reports %d refs, node size %d", sh.x.NumRefs(), sh.x.NodeSize())
			})
			w.cover("op", "NumRefs")
		case 3:
			w.Call("String", budget, func() {
				s := sh.x.String()
				w.Check(s == sh.str, "string", "String returned %q, want %q", s, sh.str)
			})
			w.cover("op", "String")
		case 4:
			sink := &Sink{w: w}
			if t.P(200) {
				sink.faults = append(sink.faults, genWFault(w, t, int64(len(sh.idx)), 1))
			}
			var n int
			var err error
			w.Call("Marshal", len(sh.idx)+1000, func() { n, err = sh.x.Marshal(sink.Writer()) })
			w.Check(n == len(sink.buf), "byte-count", "Marshal returned %d, the stream accepted %d", n, len(sink.buf))
			w.Check(bytes.HasPrefix(sh.idx, sink.buf) && ((err == nil && n == len(sh.idx)) || sink.last != nil), "serialization", "Marshal wrote other bytes than the index (at %d, %v)", diffAt(sink.buf, sh.idx), err)
			w.cover("op", "Marshal")
		case 5:
			if sh.f == nil {
				continue
			}
			sink := &Sink{w: w}
			wr := flatgeobuf.NewFileWriter(sink.Writer())
			var err error
			w.Call("writer.Header", budget, func() { _, err = wr.Header(sh.hdr) })
			w.Check(err == nil, "writer", "writing the shared header: %v", err)
			w.Call("writer.Index", len(sh.idx)+1000, func() { _, err = wr.Index(sh.x) })
			w.Check(err == nil, "writer", "writing the shared index: %v", err)
			for j := range sh.feats {
				w.Call("writer.Data", budget, func() { _, err = wr.Data(&sh.feats[j]) })
				w.Check(err == nil, "writer", "writing a shared feature: %v", err)
			}
			w.Check(bytes.Equal(sink.buf, sh.f.bytes), "serialization", "file written from shared values differs at %d", diffAt(sink.buf, sh.f.bytes))
			w.cover("op", "FileWriter")
		case 6:
			if len(sh.fstr) == 0 {
				continue
			}
			j := t.N(len(sh.fstr))
			w.Call("FeatureString", budget, func() {
				s := flatgeobuf.FeatureString(&sh.feats[j], sh.hdr)
				w.Check(s == sh.fstr[j], "feature-string", "FeatureString of shared feature %d returned %q, want %q", j, s, sh.fstr[j])
			})
			w.cover("op", "FeatureString")
		case 7:
			if len(sh.feats) == 0 {
				continue
			}
			j := t.N(len(sh.feats))
			m := sh.f.feats[j]
			w.Call("feature accessors", budget, func() { deepFeature(w, &sh.feats[j], m) })
			if len(m.vals) > 0 && m.cols == nil {
				r := flatgeobuf.NewPropReader(newSource(w, 0, sh.feats[j].PropertiesBytes()).Reader())
				var got []flatgeobuf.PropValue
				var err error
				w.Call("ReadSchema", 8*len(m.props)+1000, func() { got, err = r.ReadSchema(sh.hdr) })
				w.Check(err == nil, "schema-error", "ReadSchema: %v", err)
				checkSchemaVals(w, got, m.vals, sh.f.hdr.cols)
			}
			w.cover("op", "accessors")
		case 8:
			if sh.hdr == nil {
				continue
			}
			w.Call("HeaderString", budget, func() {
				s := flatgeobuf.HeaderString(sh.hdr)
				w.Check(s == sh.hstr, "header-string", "HeaderString returned %q, want %q", s, sh.hstr)
				deepHeader(w, sh.hdr, sh.f.hdr)
			})
			w.cover("op", "HeaderString")
		case 9:
			if len(sh.feats) == 0 {
				continue
			}
			// Index the shared features anew.
			sink := &Sink{w: w}
			wr := flatgeobuf.NewFileWriter(sink.Writer())
			var err error
			fs := append([]flat.Feature(nil), sh.feats...)
			w.Call("writer.Header", budget, func() { _, err = wr.Header(sh.hdr) })
			w.Check(err == nil, "writer", "writing the shared header: %v", err)
			w.Call("writer.IndexData", budget+len(sh.f.bytes), func() { _, err = wr.IndexData(fs) })
			w.Check(err == nil && len(sink.buf) == len(sh.f.bytes), "writer", "indexing shared features: %v, %d of %d bytes", err, len(sink.buf), len(sh.f.bytes))
			w.cover("op", "IndexData")
		}
	}
}

// outcome is what a task of C16 did: everything it was told by the code under
// test and every byte it moved, or how it ended.
type outcome struct {
	hash  uint64
	class string
	msg   string
	steps int
}

func (o outcome) String() string {
	if o.class != "" {
		return fmt.Sprintf("ends with %s (%s)", o.class, o.msg)
	}
	return fmt.Sprintf("completes (digest %016x after %d stream operations)", o.hash, o.steps)
}

func outcomeOf(w *World) outcome {
	o := outcome{hash: w.hash, steps: w.total}
	if w.viol != nil {
		o.class, o.msg = w.viol.Class, w.viol.Msg
		if i := bytes.IndexByte([]byte(o.msg), '\n'); i > 0 {
			o.msg = o.msg[:i]
		}
	}
	return o
}

// guarded runs body in w and records how it ended in w.viol.
func guarded(w *World, body func(*World)) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Violation:
				w.viol = x
			case tapeTooLong, abortTask:
			default:
				panic(r)
			}
		}
	}()
	body(w)
}

var independent = []struct {
	name string
	body func(*World)
}{
	{"reading a file", runC06}, {"writing a file", runC02}, {"round trip", runC01}, {"searching a file", runC03},
	{"searching an index", runC04}, {"serializing an index", runC05}, {"writer calls", runC07}, {"failing writes", runC08},
	{"failing reads", runC09}, {"cut file", runC10}, {"closing", runC12}, {"properties", runC13}, {"failing property streams", runC14},
	{"preamble", runC20}, {"exact consumption", runC17}, {"snapshots", runC19},
	{"reusing memory", reuse},
}

// C16: independent instances. Each task's run is made alone first, and must
// come out identically when interleaved with the others at every stream
// operation.
func runC16(w *World) {
	t := w.T
	if t.P(80) {
		reuse(w)
		return
	}
	n := 2 + t.Pick(4, 3, 2)
	var bodies []func(*World)
	var solo []outcome
	var worlds []*World
	var recs [][]uint64
	var kids []*Tape
	names := ""
	same := t.P(300)
	k := 0
	for i := 0; i < n; i++ {
		if i == 0 || !same {
			k = t.N(len(independent))
		}
		body := independent[k].body
		names += independent[k].name + "; "
		kid := t.Child()
		c := w.child(kid)
		kid.small = true
		curWorld = c
		guarded(c, body)
		curWorld = w
		solo = append(solo, outcomeOf(c))
		recs = append(recs, append([]uint64(nil), kid.rec...))
		kids = append(kids, kid)
		bodies = append(bodies, body)
	}
	w.desc = fmt.Sprintf("%d tasks: %s", n, names)
	for i := range bodies {
		rt := replayTape(kids[i].seed, [][]uint64{recs[i]})
		rt.small = true
		c := w.child(rt)
		worlds = append(worlds, c)
	}
	runTasks(w, &Sched{}, worlds, bodies)
	if w.viol != nil {
		return
	}
	for i, c := range worlds {
		o := outcomeOf(c)
		if o.hash != solo[i].hash || o.class != solo[i].class || o.steps != solo[i].steps {
			w.call = ""
			w.Fail("influenced", "task %d %s when interleaved with the others, but %s when run alone", i, o, solo[i])
		}
	}
	w.nontriv = w.switches > n
}

// Link is the simulated stream between a producer and a consumer: a pipe of
// limited capacity whose contents arrive after delays in virtual time.
type Link struct {
	w        *World
	t        *Tape
	now      int64
	cap      int64 // bytes accepted but not consumed
	sent     int64
	arrived  int64
	consumed int64
	flight   []arrival
	closed   bool
	closedAt int64
	mode     int
	maxChunk int
	sleepers []int64
}

type arrival struct {
	at  int64
	end int64 // bytes arrived then, counted from the start; -1: end of stream
}

func (l *Link) delay() int64 {
	switch l.t.Pick(4, 3, 2, 1) {
	case 1:
		return int64(l.t.N(1000)) * 1000
	case 2:
		return int64(l.t.N(1000)) * 1e6
	case 3:
		l.w.faults["stall"]++
		return int64(1+l.t.N(100)) * 60e9
	}
	return 0
}

func (l *Link) send(n int64) {
	for n > 0 {
		k := n
		switch l.mode {
		case 0:
			k = 1 + int64(l.t.Skew(l.maxChunk))
		case 1:
			k = 1 + int64(l.t.N(l.maxChunk))
		}
		if k > n {
			k = n
		}
		at := l.now + l.delay()
		if len(l.flight) > 0 && l.flight[len(l.flight)-1].at > at {
			at = l.flight[len(l.flight)-1].at
		}
		l.sent += k
		n -= k
		l.flight = append(l.flight, arrival{at, l.sent})
		l.w.faults["delayed-chunk"]++
	}
	l.deliver()
}

func (l *Link) deliver() {
	for len(l.flight) > 0 && l.flight[0].at <= l.now {
		if l.flight[0].end < 0 {
			l.closed = true
			l.closedAt = l.now
		} else {
			l.arrived = l.flight[0].end
		}
		l.flight = l.flight[1:]
	}
}

// advance lets virtual time pass until something happens.
func (l *Link) advance() bool {
	next := int64(-1)
	if len(l.flight) > 0 {
		next = l.flight[0].at
	}
	for _, s := range l.sleepers {
		if s > l.now && (next < 0 || s < next) {
			next = s
		}
	}
	if next < 0 || next <= l.now {
		return false
	}
	l.now = next
	l.w.vtime = l.now
	l.w.ev("clock", l.now, 0)
	l.deliver()
	return true
}

// C18: progress of a producer and a consumer on a slow link.
func runC18(w *World) {
	t := w.T
	w.stopOnViol = true
	f := genFile(t, GenOpt{permute: true, maxFeats: 25, big: t.P(80)})
	// An error-free run tells what will be written.
	ref := newWD(w, t, f)
	ref.open(false)
	for ref.st != rsEOF && !(ref.next >= len(f.feats) && ref.st != rsNew && !(ref.st == rsHdr && ref.ns > 0)) {
		ref.goodCall()
	}
	g := f
	if ref.method == "IndexData" || ref.method == "IndexDataPtr" {
		g = &FileM{hdr: f.hdr, nodeSize: f.nodeSize, feats: ref.ordered}
		g.assemble(nil)
	}
	w.Check(bytes.Equal(g.bytes, ref.s.buf), "content", "the written file differs from the format at byte %d", diffAt(g.bytes, ref.s.buf))
	w.desc = fileDesc(g)

	pt, ct := t.Child(), t.Child()
	pw, cw := w.child(pt), w.child(ct)
	link := &Link{w: w, t: t.Child(), mode: t.N(3), maxChunk: []int{1, 4, 30, 400, 20000}[t.N(5)]}
	if len(g.bytes) > 5000 && link.maxChunk < 400 {
		link.maxChunk = 400
	}
	link.cap = []int64{1 << 40, 1, 7, 100, 5000}[t.N(5)]
	if len(g.bytes) > 2000 && link.cap < 100 {
		link.cap = 100
	}
	if len(g.bytes) > 100000 && link.cap < 5000 {
		link.cap = 5000
	}
	s := &Sched{advance: link.advance}

	producer := func(w *World) {
		t := w.T
		sink := &Sink{w: w}
		total := int64(0)
		sink.onWrite = func(p []byte) {
			for n := int64(len(p)); n > 0; {
				room := func() bool { return link.sent-link.consumed < link.cap }
				if !room() {
					w.faults["pipe-full"]++
					s.block(0, room)
				}
				k := link.cap - (link.sent - link.consumed)
				if k > n {
					k = n
				}
				link.send(k)
				n -= k
			}
			total += int64(len(p))
		}
		args := newWD(w, t, f)
		wr := flatgeobuf.NewFileWriter(sink.Writer())
		budget := args.budget() + len(g.bytes)
		handed := func(op string, n int, err error, want int64) {
			w.Check(err == nil, "producer-error", "%s failed: %v", op, err)
			w.Check(total == want && link.sent == want, "not-handed-over", "%s returned with %d bytes handed to the stream, the item ends at %d", op, total, want)
			w.Check(bytes.Equal(sink.buf, g.bytes[:want]), "content", "%s handed over other bytes than the file's (at %d)", op, diffAt(sink.buf, g.bytes))
		}
		nap := func() {
			if t.P(300) {
				until := link.now + int64(1+t.N(1000))*1e7
				link.sleepers = append(link.sleepers, until)
				w.faults["producer-pause"]++
				s.block(0, func() bool { return link.now >= until })
			}
		}
		var n int
		var err error
		nap()
		w.Call("writer.Header", budget, func() { n, err = wr.Header(args.hdrArg()) })
		handed("Header", n, err, g.hdrEnd)
		nap()
		all := false
		if f.nodeSize > 0 {
			switch ref.method {
			case "Index":
				x := args.tree()
				w.Call("writer.Index", budget, func() { n, err = wr.Index(x) })
				handed("Index", n, err, g.idxEnd)
			case "IndexData":
				w.Call("writer.IndexData", budget, func() { n, err = wr.IndexData(featVals(args, f.feats)) })
				handed("IndexData", n, err, g.end)
				all = true
			default:
				vs := featVals(args, f.feats)
				ps := make([]*flatFeature, len(vs))
				for i := range vs {
					ps[i] = &vs[i]
				}
				w.Call("writer.IndexDataPtr", budget, func() { n, err = wr.IndexDataPtr(ps) })
				handed("IndexDataPtr", n, err, g.end)
				all = true
			}
		}
		if !all {
			for i, m := range g.feats {
				nap()
				w.Call("writer.Data", budget, func() { n, err = wr.Data(args.featArg(m)) })
				handed("Data", n, err, g.featEnd(i))
			}
		}
		nap()
		w.Call("writer.Close", budget, func() { err = wr.Close() })
		w.Check(err == nil, "producer-error", "Close failed: %v", err)
		link.flight = append(link.flight, arrival{maxTime(link), -1})
		link.deliver()
	}

	consumer := func(w *World) {
		t := w.T
		d := newRD(w, g, t)
		d.s = newSource(w, 0, g.bytes)
		d.s.zeros = t.P(200)
		d.s.mode = t.Pick(4, 1, 2)
		if len(g.bytes) > 5000 {
			d.s.mode = 0
		}
		d.s.k = 1 + t.N(50)
		d.s.rng = t.Sub()
		d.s.closable = t.P(200)
		// need is the position at which the item in progress is complete,
		// or -1 if it takes the end of the stream to know that.
		need := int64(0)
		blocks := 0
		d.s.gate = func(pos int64, n int) int {
			link.consumed = pos
			if pos >= g.end {
				if need >= 0 {
					w.Fail("waits", "at %d of the file the reader waits for more, although the item in progress was complete at %d", pos, need)
				}
				if !link.closed {
					blocks++
					s.block(1, func() bool { return link.closed })
				}
				return n
			}
			if link.arrived <= pos {
				if need >= 0 && pos >= need {
					w.Fail("waits", "at %d of the file the reader waits for more, although the item in progress was complete at %d", pos, need)
				}
				blocks++
				w.faults["reader-blocked"]++
				s.block(1, func() bool { return link.arrived > pos })
			}
			if int64(n) > link.arrived-pos {
				n = int(link.arrived - pos)
			}
			return n
		}
		d.start()
		featNeed := func(k int) int64 {
			if k == 0 || d.st == rsEOF {
				return d.s.pos
			}
			last := d.next + k
			if last > d.total {
				if !g.known() {
					return -1
				}
				last = d.total
			}
			if last == d.next {
				return max(d.s.pos, g.idxEnd)
			}
			return g.featEnd(last - 1)
		}
		need = g.hdrEnd
		d.Header()
		switch t.Pick(3, 3, 2) {
		case 1:
			need = g.idxEnd
			d.Index()
		case 2:
			q := g.genQuery(t)
			if r := g.search(q); g.nodeSize > 0 && len(r) > 0 {
				need = g.featEnd(r[len(r)-1])
			} else {
				need = g.idxEnd
			}
			d.Search(q)
			w.cover("stream-search")
		}
		for i := 0; d.st != rsEOF; i++ {
			if t.P(60) || i > 60 {
				need = featNeed(1 << 30)
				d.DataRem()
				continue
			}
			k := t.Pick(1, 8, 2) * 1
			if k == 2 {
				k = 2 + t.N(5)
			}
			need = featNeed(k)
			if k == 0 {
				// A read of nothing may skip the index first.
				need = max(d.s.pos, g.idxEnd)
			}
			d.Data(k)
			if t.P(200) {
				until := link.now + int64(1+t.N(1000))*1e7
				link.sleepers = append(link.sleepers, until)
				w.faults["consumer-pause"]++
				s.block(1, func() bool { return link.now >= until })
			}
		}
		// What nobody asked for still has to drain.
		need = -1
		buf := make([]byte, 4096)
		for {
			if _, err := d.s.read(buf); err == io.EOF {
				break
			}
		}
		w.Check(w.total <= 3*len(g.bytes)+60*(w.calls+2)+w.faults["empty-reads"]+4*d.s.reads0(), "too-many-operations", "%d stream operations for %d bytes", w.total, len(g.bytes))
		if blocks > 0 {
			w.cover("blocked")
		}
	}
	runTasks(w, s, []*World{pw, cw}, []func(*World){producer, consumer})
	for i, c := range []*World{pw, cw} {
		if c.viol != nil {
			c.viol.Msg = fmt.Sprintf("%s: %s", []string{"producer", "consumer"}[i], c.viol.Msg)
			w.viol = c.viol
			return
		}
	}
	w.nontriv = link.now > 0 && w.switches > 3
}

func maxTime(l *Link) int64 {
	at := l.now
	if n := len(l.flight); n > 0 && l.flight[n-1].at > at {
		at = l.flight[n-1].at
	}
	return at + l.delay()
}

// reads0 counts the reads which delivered nothing.
func (s *Source) reads0() int { return s.nothing }

// C19: snapshots.
func runC19(w *World) {
	t := w.T
	switch t.Pick(5, 2, 2, 2, 1) {
	case 0:
		snapshotReader(w)
	case 1:
		snapshotTree(w)
	case 2:
		snapshotWriter(w)
	case 3:
		snapshotProps(w)
	case 4:
		reuse(w)
	}
}

// vandal overwrites the bytes of some returned features.
func (d *RD) vandal() {
	for k := 1 + d.t.N(3); k > 0 && len(d.kept) > 0; k-- {
		i := d.t.N(len(d.kept))
		b := d.kept[i].f.Table().Bytes
		if d.t.P(500) { // as appending does
			b = b[:cap(b)]
		}
		for j := range b {
			b[j] ^= 0xA5
		}
		d.kept[i] = d.kept[len(d.kept)-1]
		d.kept = d.kept[:len(d.kept)-1]
		d.w.faults["modified-result"]++
	}
	for i := range d.buf {
		d.buf[i] = flat.Feature{}
	}
}

func snapshotReader(w *World) {
	t := w.T
	f := genFile(t, GenOpt{permute: true, maxFeats: 25, big: t.P(150), index: t.Pick(2, 3)})
	w.desc = fileDesc(f)
	d := newRD(w, f, t)
	d.keep = true
	d.wreckLists = true
	d.std = true
	seekable := t.P(800)
	d.open(pickBase(t, seekable), 0, seekable, t.P(300))
	d.s.Transfer(t)
	d.Header()
	if t.P(300) && d.hdr != nil {
		// What the caller does with its header is no concern of the reader.
		b := d.hdr.Table().Bytes
		b = b[:cap(b)]
		for j := range b {
			b[j] ^= 0xA5
		}
		d.hdr = nil
		w.faults["modified-result"]++
	}
	n := t.Hist(3, 10)
	for i := 0; i < n; i++ {
		d.likelyOp()
		if t.P(300) {
			d.vandal()
		}
		if t.P(300) {
			d.checkKept()
		}
		if d.tree != nil && t.P(300) {
			q := f.genQuery(t)
			var rs packedrtree.Results
			w.Call("tree.Search", d.budget(), func() { rs = d.tree.Search(boxOf(q)) })
			checkResults(w, "Search", rs, f.leaves, q, false)
			for j := range rs {
				rs[j] = packedrtree.Result{}
			}
		}
	}
	if t.P(500) {
		d.Close()
	}
	d.s.spoil()
	d.checkKept()
	for i := range d.kept {
		if i < 3 {
			k := &d.kept[i]
			w.Call("feature accessors", 10, func() { deepFeature(w, k.f, k.m) })
		}
	}
	w.nontriv = len(d.kept) > 0 || w.faults["modified-result"] > 0
}

func snapshotTree(w *World) {
	t := w.T
	leaves, ns := genLeaves(t, 0)
	idx := encodeIndex(leaves, ns)
	w.desc = fmt.Sprintf("index of %d refs, node size %d", len(leaves), ns)
	refs := refsOf(leaves)
	cp := append([]packedrtree.Ref(nil), refs...)
	var x *packedrtree.PackedRTree
	var err error
	w.Call("New", 10, func() { x, err = packedrtree.New(refs, uint16(ns)) })
	w.Check(err == nil, "tree-error", "New: %v", err)
	for i := range refs {
		w.Check(refs[i] == cp[i], "argument-modified", "New changed reference %d", i)
	}
	for i := range refs {
		refs[i] = packedrtree.Ref{Offset: 77}
	}
	_ = append(refs[:0], packedrtree.Ref{})
	type ans struct {
		rs packedrtree.Results
		cp packedrtree.Results
	}
	var kept []ans
	for k := 2 + t.N(5); k > 0; k-- {
		q := leafQuery(leaves, t)
		var rs packedrtree.Results
		if t.P(300) {
			s := newSource(w, 0, idx)
			s.seekable = true
			s.Transfer(t)
			w.Call("Seek", 8*len(idx)+2000, func() { rs, err = packedrtree.Seek(s.ReadSeeker(), len(leaves), uint16(ns), boxOf(q)) })
			w.Check(err == nil, "seek-error", "Seek: %v", err)
		} else {
			w.Call("Search", 8*len(idx)+2000, func() { rs = x.Search(boxOf(q)) })
		}
		checkResults(w, "Search", rs, leaves, q, false)
		if t.P(400) {
			full := rs[:cap(rs)]
			for i := range full {
				full[i] = packedrtree.Result{Offset: -5, RefIndex: 1 << 30}
			}
			w.faults["modified-result"]++
		} else {
			kept = append(kept, ans{rs, append(packedrtree.Results(nil), rs...)})
		}
		for _, a := range kept {
			for i := range a.rs {
				w.Check(a.rs[i] == a.cp[i], "snapshot", "a search result changed after it was returned")
			}
		}
	}
	checkTree(w, x, idx, len(leaves), ns)
	w.nontriv = true
}

func snapshotWriter(w *World) {
	t := w.T
	n := 20
	if t.P(40) {
		n = 150
	}
	f := genFile(t, GenOpt{permute: true, maxFeats: n})
	w.desc = fileDesc(f)
	d := newWD(w, t, f)
	d.slack = t.P(300)
	d.share = true
	d.s.stdOK = true
	d.open(false)
	for i := 0; i < 4*len(f.feats)+20; i++ {
		if d.st == rsEOF || (d.st != rsNew && d.next >= len(f.feats) && !(d.ns > 0 && d.st == rsHdr)) {
			break
		}
		d.goodCall()
		// The call has returned: its arguments are the caller's again.
		d.checkArgs()
		for _, a := range d.args {
			for j := range a.b {
				a.b[j] ^= 0xA5
			}
		}
		w.faults["modified-argument"] += len(d.args)
		d.args = nil
	}
	d.Close()
	d.finish()
	w.nontriv = true
}

// reuse has several instances do their work one after the other, all with the
// same memory and the same streams: the same buffers and structs with other
// contents, streams which deliver something else.
func reuse(w *World) {
	t := w.T
	k := 2 + t.N(2)
	w.nontriv = true
	w.cover("reuse")
	switch t.Pick(3, 4, 2, 2, 3) {
	case 0: // writers
		mem := &argMem{}
		o := GenOpt{permute: true, maxFeats: 20, index: t.Pick(1, 3)}
		w.desc = fmt.Sprintf("%d files written from the same memory", k)
		for ; k > 0; k-- {
			writeFile(w, t, genFile(t, o), mem)
		}
	case 1: // readers
		f := genFile(t, GenOpt{permute: true, maxFeats: 20, index: t.Pick(1, 3)})
		w.desc = fmt.Sprintf("%d readers of the same stream; first %s", k, fileDesc(f))
		base := pickBase(t, true)
		var s *Source
		for ; k > 0; k-- {
			d := newRD(w, f, t)
			if s == nil {
				d.open(base, 0, t.P(800), false)
				s = d.s
				if t.P(300) && (s.end < 1<<17 || !s.seekable) {
					s.oneReader()
					d.start()
				}
			} else {
				s.segs = []seg{{base, f.bytes}}
				s.end = base + f.end
				s.pos = base
				d.s, d.base = s, base
				d.start()
			}
			s.Transfer(t)
			if s.seekable && f.nodeSize > 0 && t.P(300) {
				q := f.genQuery(t)
				s.pos = base + f.hdrEnd
				var rs packedrtree.Results
				var err error
				w.Call("Seek", d.budget(), func() {
					rs, err = packedrtree.Seek(s.Reader().(io.ReadSeeker), len(f.feats), uint16(f.nodeSize), boxOf(q))
				})
				w.Check(err == nil, "seek-error", "Seek: %v", err)
				checkResults(w, "Seek", rs, f.leaves, q, false)
				s.pos = base
				d.start()
			}
			for i := t.Hist(2, 6); i > 0; i-- {
				d.likelyOp()
			}
			if d.st != rsNew && t.P(700) {
				d.drain()
			}
			if t.P(500) {
				d.Close()
			}
			// Next time the same number of other features.
			g := &FileM{hdr: f.hdr, nodeSize: f.nodeSize}
			for i := range f.feats {
				m := f.feats[t.N(len(f.feats))]
				if t.P(500) {
					m = f.feats[i]
				}
				cp := *m
				g.feats = append(g.feats, &cp)
			}
			if t.P(200) {
				g = genFile(t, GenOpt{permute: true, maxFeats: 20, index: 1})
			} else {
				g.assemble(nil)
			}
			f = g
		}
	case 2: // indexes
		leaves, ns := genLeaves(t, 0)
		if len(leaves) > 300 {
			leaves = leaves[:300]
		}
		w.desc = fmt.Sprintf("%d indexes of %d refs, node size %d", k, len(leaves), ns)
		refs := make([]packedrtree.Ref, len(leaves))
		s := newSource(w, 0, nil)
		s.seekable = true
		s.Transfer(t)
		for ; k > 0; k-- {
			idx := encodeIndex(leaves, ns)
			copy(refs, refsOf(leaves))
			var x *packedrtree.PackedRTree
			var err error
			w.Call("New", 100, func() { x, err = packedrtree.New(refs, uint16(ns)) })
			w.Check(err == nil, "tree-error", "New: %v", err)
			checkTree(w, x, idx, len(leaves), ns)
			s.segs = []seg{{0, idx}}
			s.end = int64(len(idx))
			if t.P(500) {
				s.pos = 0
				w.Call("Unmarshal", 8*len(idx)+2000, func() { x, err = packedrtree.Unmarshal(s.Reader(), len(leaves), uint16(ns)) })
				w.Check(err == nil, "tree-error", "Unmarshal: %v", err)
				checkTree(w, x, idx, len(leaves), ns)
			}
			for i := 1 + t.N(2); i > 0; i-- {
				q := leafQuery(leaves, t)
				s.pos = 0
				var rs packedrtree.Results
				w.Call("Seek", 8*len(idx)+2000, func() { rs, err = packedrtree.Seek(s.ReadSeeker(), len(leaves), uint16(ns), boxOf(q)) })
				w.Check(err == nil, "seek-error", "Seek: %v", err)
				checkResults(w, "Seek", rs, leaves, q, false)
			}
			next := append([]Leaf(nil), leaves...)
			for i := range next {
				next[i].box = leaves[t.N(len(leaves))].box
			}
			leaves = next
		}
	case 3: // properties
		cols := genCols(t, 6)
		schema := schemaOf(w, t, cols)
		w.desc = fmt.Sprintf("%d property blocks", k)
		s := newSource(w, 0, nil)
		s.Transfer(t)
		sink := &Sink{w: w}
		arg := make([]byte, 0, 64)
		for ; k > 0; k-- {
			pv := genVals(t, cols, 10, false)
			enc := encodeProps(pv)
			s.segs = []seg{{0, enc}}
			s.pos, s.end = 0, int64(len(enc))
			var got []flatgeobuf.PropValue
			var err error
			w.Call("ReadSchema", 8*len(enc)+1000, func() { got, err = flatgeobuf.NewPropReader(s.Reader()).ReadSchema(schema) })
			w.Check(err == nil, "schema-error", "ReadSchema: %v", err)
			checkSchemaVals(w, got, pv, cols)
			x := flatgeobuf.NewPropWriter(sink.Writer())
			before := len(sink.buf)
			var want []byte
			for i := range pv {
				p := pv[i]
				if p.data != nil {
					arg = append(arg[:0], p.data...)
					p.data = arg
				}
				want = encodeValue(want, &pv[i])
				w.Call("Write"+typeNames[p.typ], 100, func() { _, err = writeValue(x, &p) })
				w.Check(err == nil, "write", "Write%s: %v", typeNames[p.typ], err)
			}
			w.Check(bytes.Equal(sink.buf[before:], want), "content", "property bytes differ at %d", diffAt(sink.buf[before:], want))
		}
	case 4: // texts
		var hdr flat.Header
		var feat flat.Feature
		var mem argMem
		w.desc = fmt.Sprintf("texts of %d headers and their features", k)
		for ; k > 0; k-- {
			f := genFile(t, GenOpt{permute: true, maxFeats: 4})
			d := newWD(w, t, f)
			d.mem = &mem
			hdr = *d.hdrArg()
			var a, b string
			fresh := flat.GetSizePrefixedRootAsHeader(append([]byte(nil), f.hdr.bytes...), 0)
			w.Call("HeaderString", 100, func() { a, b = flatgeobuf.HeaderString(&hdr), flatgeobuf.HeaderString(fresh) })
			w.Check(a == b, "header-string", "HeaderString returned %q, want %q", a, b)
			for i := 0; i < len(f.feats) && i < 3; i++ {
				feat = *d.featArg(f.feats[i])
				fr := flat.GetSizePrefixedRootAsFeature(append([]byte(nil), f.feats[i].bytes...), 0)
				w.Call("FeatureString", 100, func() { a, b = flatgeobuf.FeatureString(&feat, &hdr), flatgeobuf.FeatureString(fr, fresh) })
				w.Check(a == b, "feature-string", "FeatureString returned %q, want %q", a, b)
			}
			d.release()
		}
	}
}

func snapshotProps(w *World) {
	t := w.T
	cols := genCols(t, 6)
	pv := genVals(t, cols, 10, t.P(100))
	enc := encodeProps(pv)
	w.desc = fmt.Sprintf("%d properties", len(pv))
	schema := schemaOf(w, t, cols)
	block := append([]byte(nil), enc...)
	// The stream delivers a second block when the first one has been read.
	pv2 := genVals(t, cols, 4, false)
	block = append(block, encodeProps(pv2)...)
	s := newSource(w, 0, block)
	s.end = int64(len(enc))
	s.Transfer(t)
	r := flatgeobuf.NewPropReader(s.Reader())
	var got, got2 []flatgeobuf.PropValue
	var err error
	w.Call("ReadSchema", 8*len(enc)+1000, func() { got, err = r.ReadSchema(schema) })
	w.Check(err == nil, "schema-error", "ReadSchema: %v", err)
	checkSchemaVals(w, got, pv, cols)
	s.end = int64(len(block))
	w.Call("ReadSchema", 8*len(block)+1000, func() { got2, err = r.ReadSchema(schema) })
	w.Check(err == nil, "schema-error", "ReadSchema of a second block: %v", err)
	checkSchemaVals(w, got2, pv2, cols)
	if t.P(300) {
		got2 = got2[:cap(got2)]
		for i := range got2 {
			if b, ok := got2[i].Value.([]byte); ok {
				b = b[:cap(b)]
				for j := range b {
					b[j] ^= 0xA5
				}
			}
			got2[i] = flatgeobuf.PropValue{}
		}
		w.faults["modified-result"]++
	}
	for i := range block {
		block[i] ^= 0xA5
	}
	// Values read one by one keep their content, too.
	var one []PropM
	var want []PropM
	var all []byte
	for i := range pv {
		all = encodeValue(all, &pv[i])
	}
	s2 := newSource(w, 0, all)
	s2.stdOK = true
	s2.Transfer(t)
	r2 := flatgeobuf.NewPropReader(s2.Reader())
	for i := range pv {
		var p PropM
		w.Call("Read"+typeNames[pv[i].typ], 8*len(all)+1000, func() { p, err = readValue(r2, pv[i].typ) })
		w.Check(err == nil, "read", "Read%s: %v", typeNames[pv[i].typ], err)
		if typeSize[pv[i].typ] < 0 && t.P(300) && len(p.data) > 0 && pv[i].typ != tString && pv[i].typ != tDateTime {
			p.data = p.data[:cap(p.data)]
			for j := range p.data {
				p.data[j] = 0
			}
			w.faults["modified-result"]++
			continue
		}
		one = append(one, p)
		want = append(want, pv[i])
	}
	s2.spoil()
	for i := range one {
		w.Check(sameValue(w, &one[i], &want[i]), "snapshot", "a property value changed after it was returned")
	}
	for i := range got { // modify one binary: no other value changes
		if b, ok := got[i].Value.([]byte); ok && len(b) > 0 {
			b = b[:cap(b)]
			for j := range b {
				b[j] ^= 0xA5
			}
			w.faults["modified-result"]++
			got = append(got[:i:i], got[i+1:]...)
			pv = append(pv[:i:i], pv[i+1:]...)
			break
		}
	}
	checkSchemaVals(w, got, pv, cols)
	// The writer leaves its arguments alone and does not keep them.
	sink := &Sink{w: w}
	x := flatgeobuf.NewPropWriter(sink.Writer())
	for i := range pv {
		arg := pv[i]
		arg.data = append([]byte(nil), pv[i].data...)
		w.Call("Write", 100, func() { _, err = writeValue(x, &arg) })
		w.Check(err == nil && bytes.Equal(arg.data, pv[i].data), "argument-modified", "Write%s modified its argument", typeNames[arg.typ])
		for j := range arg.data {
			arg.data[j] = 0xEE
		}
	}
	var e []byte
	for i := range pv {
		e = encodeValue(e, &pv[i])
	}
	w.Check(bytes.Equal(sink.buf, e), "content", "property bytes differ at %d", diffAt(sink.buf, e))
	w.nontriv = len(pv) > 0
}
