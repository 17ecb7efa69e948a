// Command sim searches seeded deterministic simulations of flatgeobuf for
// violations of the properties in /verif/properties.jsonl.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
)

// Prop is a property and how it is explored.
type Prop struct {
	id       string
	run      func(*World)
	race     bool // explored with the race detector
	quick    int  // runs
	thorough int
	rule     string
	stub     string
}

var props = []Prop{
	{id: "C01", run: runC01, quick: 160000, rule: "a generated file is written by the code under test and read back over a simulated stream; non-trivial: at least one feature and a stream which splits, empties or ends transfers unusually"},
	{id: "C02", run: runC02, quick: 500000, rule: "a generated write sequence, with rejected calls and failed-and-retried writes in between; non-trivial: at least one feature and an index, a rejected call or a write failure"},
	{id: "C03", run: runC03, quick: 250000, rule: "searches, reads and rewinds of an indexed file; non-trivial: at least one feature"},
	{id: "C04", run: runC04, quick: 220000, rule: "streaming and in-memory searches of a generated index; non-trivial: at least two references"},
	{id: "C05", run: runC05, quick: 400000, rule: "serialization to a failing sink and deserialization from a cut, failing or intact source; non-trivial: a failure or at least two references"},
	{id: "C06", run: runC06, quick: 700000, rule: "a history of reader calls; non-trivial: more than five calls"},
	{id: "C07", run: runC07, quick: 2200000, rule: "a history of valid and invalid writer calls; non-trivial: more than four calls"},
	{id: "C08", run: runC08, quick: 800000, rule: "a write sequence with write failures, retries and calls after the failure; non-trivial: a failure was injected"},
	{id: "C09", run: runC09, quick: 1000000, rule: "a history of reader calls with read and seek failures; non-trivial: a failure was reported and calls were made after it"},
	{id: "C10", run: runC10, quick: 1100000, rule: "a file cut at a byte, read, searched and rewound; every run is non-trivial"},
	{id: "C11", run: runC11, quick: 900000, rule: "a damaged file, index, property block or feature and a history of calls on it; every run is non-trivial"},
	{id: "C12", run: runC12, quick: 1800000, rule: "a history of calls, close, and calls after it; non-trivial: at least one call before close"},
	{id: "C13", run: runC13, quick: 2000000, rule: "property values written and read back one by one and with a schema; non-trivial: at least one value"},
	{id: "C14", run: runC14, quick: 5000000, rule: "property streams which fail or end at some byte; non-trivial: the failure or end was met"},
	{id: "C15", run: runC15, race: true, quick: 110000, rule: "two to five tasks share an index, features and headers, interleaved at every search step and stream operation under the race detector; non-trivial: more than two task switches"},
	{id: "C16", run: runC16, race: true, quick: 40000, rule: "two to four independent tasks, each run alone and then interleaved at every stream operation under the race detector; non-trivial: more switches than tasks"},
	{id: "C17", run: runC17, quick: 700000, rule: "reads with every stream request and position checked, files back to back; non-trivial: more than four calls"},
	{id: "C18", run: runC18, quick: 300000, rule: "a producer and a consumer on a slow link in virtual time; non-trivial: time passed and control switched more than three times"},
	{id: "C19", run: runC19, quick: 800000, rule: "returned values, result lists and arguments are kept or overwritten while calls go on; non-trivial: something was kept or overwritten"},
	{id: "C20", run: runC20, quick: 3500000, rule: "valid, invalid, cut and failing preambles and calls after them; non-trivial: the header call was judged"},
}

func findProp(id string) *Prop {
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	return nil
}

func propSeed(seed uint64, id string, i int) uint64 {
	h := mix(seed)
	for _, c := range []byte(id) {
		h = mix(h ^ uint64(c))
	}
	return mix(h ^ uint64(i)*0x9e3779b97f4a7c15)
}

// execute makes one run.
func execute(p *Prop, t *Tape, verbose bool) *World {
	w := newWorld(t)
	w.verbose = verbose
	curWorld = w
	curSched = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *Violation:
					w.viol = x
				case tapeTooLong:
					w.cover("tape-too-long")
				case abortTask:
				default:
					panic(r)
				}
			}
		}()
		p.run(w)
	}()
	curWorld = nil
	curSched = nil
	if w.viol == nil {
		for _, k := range w.known {
			if _, ok := knownFindings()[p.id+" "+k]; !ok && p.id == "C13" {
				w.viol = &Violation{Class: "value", Msg: k}
			}
		}
	}
	return w
}

var knownCache map[string]string

// knownFindings reads the committed list: "finding: property=<id> key=<key> |
// <description>".
func knownFindings() map[string]string {
	if knownCache != nil {
		return knownCache
	}
	knownCache = map[string]string{}
	b, err := os.ReadFile(verifDir() + "/known-findings.txt")
	if err != nil {
		return knownCache
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(l, " ")
		key, what, _ := strings.Cut(rest, " | ")
		key = strings.TrimPrefix(key, "key=")
		knownCache[id+" "+key] = what
	}
	return knownCache
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func setupWorker() {
	runtime.GOMAXPROCS(1)
	go watchdog()
	debug.SetGCPercent(300)
	debug.SetMaxStack(256 << 20)
	corpusDir = verifDir() + "/sim/corpus"
	if !raceEnabled {
		m := uint64(envInt("VERIF_MEM_GB", 12)) << 30
		lim := syscall.Rlimit{Cur: m, Max: m}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check ID | replay FILE | one ID INDEX | selftest")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "worker":
		setupWorker()
		worker(os.Args[2:])
	case "shrinker":
		setupWorker()
		shrinker()
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	case "one":
		setupWorker()
		p := findProp(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		t := newTape(propSeed(uint64(envInt("VERIF_SEED", 1)), p.id, i))
		if f, err := os.Create(os.Getenv("VERIF_PROFILE")); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		w := execute(p, t, true)
		fmt.Println(w.desc)
		for _, l := range w.log {
			fmt.Println(l)
		}
		fmt.Printf("hash %016x, %d events, %d draws, violation: %v\n", w.hash, w.nev, len(t.rec), w.viol)
	case "hashes":
		// The event-log digests of runs [A,B), to compare processes.
		setupWorker()
		p := findProp(os.Args[2])
		a, _ := strconv.Atoi(os.Args[3])
		b, _ := strconv.Atoi(os.Args[4])
		step, _ := strconv.Atoi(os.Args[5])
		for i := a; i < b; i += step {
			w := execute(p, newTape(propSeed(uint64(envInt("VERIF_SEED", 1)), p.id, i)), false)
			fmt.Printf("%s %d %016x %d %v\n", p.id, i, w.hash, w.nev, w.viol)
		}
	case "campaign":
		// Development: the plain properties one after another, each with
		// its quick number of runs divided by the argument.
		setupWorker()
		div, _ := strconv.Atoi(os.Args[2])
		for _, p := range props {
			if p.race || len(os.Args) > 3 && !strings.Contains(os.Args[3], p.id) {
				continue
			}
			for i := 0; i < p.quick/div; i++ {
				if w := execute(&p, newTape(propSeed(uint64(envInt("VERIF_SEED", 1)), p.id, i)), false); w.viol != nil {
					fmt.Printf("CAUGHT %s run %d %s: %s\n", p.id, i, w.viol.Class, w.viol.Msg)
					os.Exit(1)
				}
			}
		}
		fmt.Println("QUIET")
	case "list":
		for _, p := range props {
			b := "plain"
			if p.race {
				b = "race"
			}
			fmt.Println(p.id, b)
		}
	default:
		die("unknown command %q", os.Args[1])
	}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		die("json: %v", err)
	}
	return b
}
