package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// A Violation is the failure of a property in one run. The class is what has
// to stay the same while a failing run is minimised.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
	Known bool   `json:"known,omitempty"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// World is one simulated run: its decisions, its event log, the step budget
// of the call in progress, and what it counted. Nothing in a run reads a
// clock, draws from a global PRNG or iterates over a map.
type World struct {
	T          *Tape
	hash       uint64
	nev        int
	verbose    bool
	log        []string
	viol       *Violation
	known      []string // known findings hit
	steps      int
	budget     int
	total      int
	call       string
	inCall     bool
	faults     map[string]int
	cov        map[string]int
	data       int64 // bytes moved
	calls      int
	vtime      int64 // virtual nanoseconds, where the run has a clock
	fired      int   // faults fired
	yield      func()
	after      []func() // run after each call
	mem        bool
	memMax     uint64
	memCap     uint64
	nontriv    bool
	desc       string // short description of the case
	sched      uint64 // hash of scheduling decisions
	switches   int
	stopOnViol bool
	eofErrs    bool // injected errors may wrap io.EOF
}

func newWorld(t *Tape) *World {
	return &World{T: t, hash: 0xcbf29ce484222325, budget: math.MaxInt, faults: map[string]int{}, cov: map[string]int{}}
}

// ev appends an event to the run's log.
func (w *World) ev(op string, a, b int64) {
	h := w.hash
	for i := 0; i < len(op); i++ {
		h = (h ^ uint64(op[i])) * 0x100000001b3
	}
	h = mix(h ^ uint64(a)*0x9e3779b97f4a7c15)
	h = mix(h ^ uint64(b))
	w.hash = h
	w.nev++
	if w.verbose && len(w.log) < 5000 {
		l := fmt.Sprintf("#%d %s %d %d", w.nev, op, a, b)
		w.log = append(w.log, l)
		if recordFD != 0 {
			record("D %s\n", w.desc)
			record("E %s\n", l)
		}
	}
}

// recordFD, if not zero, is where decisions and events are written to at
// once, for runs which end their process.
var recordFD int

// record writes with a bare system call: a file's own locks would order
// events for the race detector.
func record(format string, a ...interface{}) {
	b := []byte(fmt.Sprintf(format, a...))
	_, _, _ = syscall.RawSyscall(syscall.SYS_WRITE, uintptr(recordFD), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
}

// digest mixes content into the event log.
func (w *World) digest(op string, b []byte) {
	h := uint64(0xcbf29ce484222325)
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	w.ev(op, int64(len(b)), int64(h))
}

func (w *World) note(format string, a ...interface{}) {
	if w.verbose && len(w.log) < 5000 {
		w.log = append(w.log, "    "+fmt.Sprintf(format, a...))
	}
}

func (w *World) cover(parts ...string) { w.cov[strings.Join(parts, "/")]++ }

func (w *World) fault(kind string) {
	w.faults[kind]++
	w.fired++
	w.ev("fault:"+kind, 0, 0)
}

// Fail ends the run with a violation.
func (w *World) Fail(class, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if w.call != "" {
		msg = w.call + ": " + msg
	}
	v := &Violation{Class: class, Msg: msg}
	if w.viol == nil {
		w.viol = v
	}
	panic(w.viol)
}

func (w *World) Check(ok bool, class, format string, a ...interface{}) {
	if !ok {
		w.Fail(class, format, a...)
	}
}

// step counts a stream operation or search step of the call in progress.
func (w *World) step() {
	w.steps++
	w.total++
	if w.steps > w.budget {
		w.Fail("no-progress", "call still running after %d stream operations", w.steps-1)
	}
	if w.yield != nil {
		w.yield()
	}
}

// tired tells that a run has done enough work: its history ends early.
func (w *World) tired() bool { return w.total > 5e6 || w.data > 400<<20 }

type abortTask struct{}

// Call runs one call into the code under test: a panic in it is a violation,
// and so are more than budget stream operations.
func (w *World) Call(name string, budget int, f func()) {
	w.call = name
	w.calls++
	w.steps = 0
	w.budget = budget
	w.inCall = true
	w.ev("call:"+name, 0, 0)
	var m0 uint64
	if w.mem {
		m0 = allocBytes()
	}
	callBegins(name)
	defer func() {
		callEnds()
		w.inCall = false
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Violation, tapeTooLong, abortTask:
				panic(r)
			default:
				if w.viol != nil {
					panic(w.viol)
				}
				w.Fail("panic", "panic: %v\n%s", x, trimStack(debug.Stack()))
			}
		}
	}()
	f()
	for _, g := range w.after {
		g()
	}
	if w.viol != nil { // The code under test recovered it.
		panic(w.viol)
	}
	if w.mem {
		m := allocBytes() - m0
		if m > w.memMax {
			w.memMax = m
		}
		if m > w.memCap {
			w.Fail("memory", "call allocated more than %d bytes", w.memCap)
		}
	}
	w.ev("return", 0, 0)
	w.call = "after " + name
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/flatgeobuf") || strings.Contains(l, "packedrtree") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// call0 is a call name without its arguments.
func call0(s string) string {
	if i := strings.IndexAny(s, "(["); i >= 0 {
		return s[:i]
	}
	return s
}

func sprint(x interface{}) string { return fmt.Sprint(x) }
