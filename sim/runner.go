package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// workerOut is what a worker reports when it ends.
type workerOut struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Calls      int            `json:"calls"`
	Steps      int            `json:"steps"`
	Data       int64          `json:"data"`
	VTime      float64        `json:"vtime"`
	Switches   int            `json:"switches"`
	Faults     map[string]int `json:"faults"`
	FaultRuns  int            `json:"fault_runs"`
	Cov        map[string]int `json:"cov"`
	Known      []string       `json:"known"`
	Samples    []string       `json:"samples"`
	MaxMem     uint64         `json:"max_mem"`
	Rechecked  int            `json:"rechecked"`
	Mismatch   int            `json:"mismatch"`
	Violation  *Violation     `json:"violation,omitempty"`
	Index      int            `json:"index"`
	Stopped    bool           `json:"stopped"`
	HashFile   string         `json:"hash_file"`
}

// worker runs [id, number, workers, runs, directory, deadline unix seconds].
func worker(a []string) {
	p := findProp(a[0])
	num, _ := strconv.Atoi(a[1])
	of, _ := strconv.Atoi(a[2])
	runs, _ := strconv.Atoi(a[3])
	dir := a[4]
	dl, _ := strconv.ParseInt(a[5], 10, 64)
	first := num
	if len(a) > 6 {
		first, _ = strconv.Atoi(a[6])
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	st, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("status%d", num)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		die("%v", err)
	}
	out := &workerOut{Faults: map[string]int{}, Cov: map[string]int{}, Index: -1}
	hashes := map[uint64]struct{}{}
	sched := map[uint64]struct{}{}
	knownSeen := map[string]bool{}
	var sb [8]byte
	slow := time.Hour
	if n := envInt("VERIF_SLOW", 0); n > 0 { // report runs of that many milliseconds
		slow = time.Duration(n) * time.Millisecond
	}
	for i := first; i < runs; i += of {
		if time.Now().Unix() >= dl {
			out.Stopped = true
			break
		}
		binary.LittleEndian.PutUint64(sb[:], uint64(i)+1)
		_, _ = st.WriteAt(sb[:], 0)
		t := newTape(propSeed(seed, p.id, i))
		began := time.Now()
		w := execute(p, t, false)
		if d := time.Since(began); d > slow {
			if f, err := os.OpenFile(os.Getenv("VERIF_SLOW_LOG"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%s: run %d took %v: %s\n", p.id, i, d, w.desc)
				f.Close()
			}
		}
		out.Evals++
		out.Calls += w.calls
		out.Steps += w.total
		out.Data += w.data
		out.VTime += float64(w.vtime) / 1e9
		out.Switches += w.switches
		for k, v := range w.faults {
			out.Faults[k] += v
		}
		if w.fired > 0 {
			out.FaultRuns++
		}
		for k := range w.cov {
			out.Cov[k]++
		}
		if w.memMax > out.MaxMem {
			out.MaxMem = w.memMax
		}
		for _, k := range w.known {
			if !knownSeen[k] {
				knownSeen[k] = true
				out.Known = append(out.Known, k)
			}
		}
		if w.nontriv {
			hashes[w.hash] = struct{}{}
			out.Nontrivial++
			if w.sched != 0 {
				sched[w.sched] = struct{}{}
			}
			if len(out.Samples) < 3 && i%7 == 3 {
				out.Samples = append(out.Samples, fmt.Sprintf("run %d (seed %#x): %s; %d calls, %d stream operations, %d faults fired, %d decisions", i, t.seed, w.desc, w.calls, w.total, w.fired, t.draws()))
			}
		}
		if w.viol != nil {
			out.Violation = w.viol
			out.Index = i
			break
		}
		if i%97 == 5 {
			out.Rechecked++
			w2 := execute(p, newTape(propSeed(seed, p.id, i)), false)
			if w2.hash != w.hash || w2.nev != w.nev {
				out.Mismatch++
			}
		}
	}
	out.HashFile = filepath.Join(dir, fmt.Sprintf("hashes%d", num))
	writeHashes(out.HashFile, hashes)
	writeHashes(out.HashFile+"s", sched)
	_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("out%d", num)), mustJSON(out), 0o644)
}

func (t *Tape) draws() int {
	n := len(t.rec)
	for _, k := range t.kids {
		n += k.draws()
	}
	return n
}

func writeHashes(name string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	_ = os.WriteFile(name, b, 0o644)
}

func readHashes(name string, m map[uint64]struct{}) {
	b, _ := os.ReadFile(name)
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

// Replay is a replay file.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Message  string     `json:"message"`
	Case     string     `json:"case"`
	Seed     uint64     `json:"verif_seed"`
	Run      int        `json:"run"`
	RunSeed  uint64     `json:"run_seed"`
	Build    string     `json:"build"`
	Tapes    [][]uint64 `json:"decisions,omitempty"`
	// Prefix lists runs to be executed before in the same process, where
	// the violation depends on what ran before.
	Prefix   []int    `json:"prefix,omitempty"`
	Original int      `json:"decisions_before_minimisation,omitempty"`
	Events   []string `json:"events,omitempty"`
	How      string   `json:"how_to_replay"`
}

// shrinkReq asks a shrinker process to execute one run.
type shrinkReq struct {
	Property string
	Seed     uint64 // VERIF_SEED
	RunSeed  uint64
	Tapes    [][]uint64
	Gen      bool // generate from RunSeed instead of replaying Tapes
	Prefix   []int
	Verbose  bool
	Record   string // file to record decisions and events in as they happen
}

type shrinkRes struct {
	Class  string
	Msg    string
	Desc   string
	Hash   uint64
	Tapes  [][]uint64
	Events []string
}

func shrinker() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	outw := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q shrinkReq
		if json.Unmarshal(line, &q) != nil {
			return
		}
		p := findProp(q.Property)
		for _, i := range q.Prefix {
			execute(p, newTape(propSeed(q.Seed, p.id, i)), false)
		}
		var t *Tape
		if q.Gen {
			t = newTape(q.RunSeed)
		} else {
			t = replayTape(q.RunSeed, q.Tapes)
		}
		if q.Record != "" {
			fd, err := syscall.Open(q.Record, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0o644)
			if err == nil {
				recordFD = fd
				t.sink = func(kid int, v uint64) { record("T %d %d\n", kid, v) }
				q.Verbose = true
			}
		}
		w := execute(p, t, q.Verbose)
		res := shrinkRes{Desc: w.desc, Hash: w.hash, Tapes: t.Recorded()}
		if w.viol != nil {
			res.Class, res.Msg = w.viol.Class, w.viol.Msg
		}
		if q.Verbose {
			res.Events = w.log
		}
		_, _ = outw.Write(append(mustJSON(res), '\n'))
		_ = outw.Flush()
	}
}

// shrinkProc is a shrinker process; it is restarted when a run ends it.
type shrinkProc struct {
	bin    string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
}

// variants are other builds of the simulator ("name=path,..."): the last
// workers use one each.
func variants() []string {
	if v := os.Getenv("VERIF_VARIANTS"); v != "" {
		return strings.Split(v, ",")
	}
	return nil
}

// variantOf names the build which executes run number i of nw workers ("" is
// this one) and gives its path.
func variantOf(i, nw int) (name, path string) {
	vs := variants()
	if k := nw - 1 - i%nw; k < len(vs) && nw > len(vs) {
		name, path, _ = strings.Cut(vs[k], "=")
		return name, path
	}
	return "", self()
}

func workerBin(i, nw int) string {
	_, p := variantOf(i, nw)
	return p
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return e
}

func (s *shrinkProc) start() {
	if s.bin == "" {
		s.bin = self()
	}
	s.cmd = exec.Command(s.bin, "shrinker")
	s.cmd.Env = childEnv()
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	s.stderr = &tailBuf{}
	s.cmd.Stderr = s.stderr
	if err := s.cmd.Start(); err != nil {
		die("%v", err)
	}
}

func (s *shrinkProc) stop() {
	if s.cmd != nil {
		_ = s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

// crashClass tells from a process's last words how it ended.
func crashClass(stderr string) (class, msg string) {
	for _, l := range strings.Split(stderr, "\n") {
		if m := strings.TrimPrefix(l, "HANG: "); m != l {
			return "hang", m
		}
	}
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		return "data-race", "the race detector reports:\n" + clip(stderr[i:], 2500)
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return "crash", "the process ends with: " + l
		}
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") {
			return "crash", "the process ends with: " + l
		}
	}
	return "died", "the process ends: " + clip(stderr, 300)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// do executes one run. A run which burns more CPU time than the limit is
// reported as a hang.
func (s *shrinkProc) do(q shrinkReq, cpu time.Duration) shrinkRes {
	if s.cmd == nil {
		s.start()
	}
	c0 := cpuTime(s.cmd.Process.Pid)
	ch := make(chan []byte, 1)
	go func(r *bufio.Reader) {
		b, err := r.ReadBytes('\n')
		if err != nil {
			b = nil
		}
		ch <- b
	}(s.out)
	_, err := s.in.Write(append(mustJSON(q), '\n'))
	_ = err
	start := time.Now()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case b := <-ch:
			if b == nil {
				_ = s.cmd.Wait()
				class, msg := crashClass(s.stderr.String())
				s.cmd = nil
				return shrinkRes{Class: class, Msg: msg}
			}
			var r shrinkRes
			if err := json.Unmarshal(b, &r); err != nil {
				die("shrinker: %v", err)
			}
			return r
		case <-tick.C:
			used := cpuTime(s.cmd.Process.Pid) - c0
			if used > cpu {
				_ = s.cmd.Process.Kill()
				<-ch
				_ = s.cmd.Wait()
				s.cmd = nil
				return shrinkRes{Class: "slow", Msg: fmt.Sprintf("the run does not end within %v of CPU time", cpu)}
			}
			if time.Since(start) > 10*cpu+60*time.Second {
				_ = s.cmd.Process.Kill()
				<-ch
				_ = s.cmd.Wait()
				s.cmd = nil
				return shrinkRes{Class: "stalled", Msg: "the run makes no progress and uses no CPU time"}
			}
		}
	}
}

// cpuTime is the CPU time used by one of our own child processes.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseInt(f[11], 10, 64)
			k, _ := strconv.ParseInt(f[12], 10, 64)
			return time.Duration(u+k) * 10 * time.Millisecond
		}
	}
	return 0
}

// runCPU is far more CPU time than any run takes.
const runCPU = 150 * time.Second

type running struct {
	cmd    *exec.Cmd
	stderr *tailBuf
	done   chan error
	last   uint64
	cpu0   time.Duration
	wall0  time.Time
	fail   string
	over   bool
}

func check(id string) int {
	p := findProp(id)
	if p == nil {
		die("no such property: %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	runs := p.quick
	limit := 150 * time.Second
	if tier == "thorough" {
		runs = p.quick * 40
		if p.thorough > 0 {
			runs = p.thorough
		}
		limit = 720 * time.Second
	}
	runs = envInt("VERIF_RUNS", runs)
	if s := envInt("VERIF_LIMIT", 0); s > 0 {
		limit = time.Duration(s) * time.Second
	}
	nw := envInt("VERIF_WORKERS", 8)
	dir, err := os.MkdirTemp("", "fgbsim")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	deadline := start.Add(limit)
	var ws []*running
	for i := 0; i < nw; i++ {
		r := &running{stderr: &tailBuf{}, done: make(chan error, 1), wall0: time.Now()}
		r.cmd = exec.Command(workerBin(i, nw), "worker", id, fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(runs), dir, fmt.Sprint(deadline.Unix()))
		r.cmd.Env = childEnv()
		r.cmd.Stderr = r.stderr
		if err := r.cmd.Start(); err != nil {
			die("%v", err)
		}
		ws = append(ws, r)
		go func() { r.done <- r.cmd.Wait() }()
	}
	status := func(i int) uint64 {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status%d", i)))
		if len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	stopAll := func() {
		for _, r := range ws {
			if !r.over {
				_ = r.cmd.Process.Kill()
			}
		}
		for _, r := range ws {
			if !r.over {
				<-r.done
				r.over = true
			}
		}
	}
	// Wait for the workers; the first to end with a violation, crash or hang
	// ends the search.
	suspect := -1
	why := ""
	left := nw
	var outs = make([]*workerOut, nw)
	for left > 0 && suspect < 0 {
		time.Sleep(20 * time.Millisecond)
		for i, r := range ws {
			if r.over {
				continue
			}
			select {
			case err := <-r.done:
				r.over = true
				left--
				b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", i)))
				if err != nil || rerr != nil {
					if suspect < 0 {
						suspect = i
						why = "died"
					}
					continue
				}
				var o workerOut
				if json.Unmarshal(b, &o) != nil {
					die("worker output")
				}
				outs[i] = &o
				if o.Violation != nil && suspect < 0 {
					suspect = i
					why = "violation"
				}
			default:
				s := status(i)
				if s != r.last {
					r.last = s
					r.cpu0 = cpuTime(r.cmd.Process.Pid)
					r.wall0 = time.Now()
				} else if cpuTime(r.cmd.Process.Pid)-r.cpu0 > runCPU && s > 0 {
					suspect = i
					why = "slow"
				} else if time.Since(r.wall0) > 300*time.Second {
					suspect = i
					why = "stalled"
				}
			}
		}
	}
	if suspect >= 0 {
		idx := int(status(suspect)) - 1
		stopAll()
		if outs[suspect] != nil && outs[suspect].Violation != nil {
			idx = outs[suspect].Index
		}
		// Of several violations the one with the lowest run number counts.
		for i, o := range outs {
			if o != nil && o.Violation != nil && o.Index < idx {
				idx, suspect, why = o.Index, i, "violation"
			}
		}
		stderr := ws[suspect].stderr.String()
		return report(p, tier, seed, idx, suspect, nw, why, stderr, dir, outs, start)
	}
	code := 0
	total := merge(outs)
	for _, k := range total.Known {
		if what, ok := knownFindings()[id+" "+k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
		}
	}
	writeEvidence(p, tier, seed, total, dir, outs, time.Since(start), nil, runs, nw)
	fmt.Printf("%s: %d runs, no violation, %.1fs\n", id, total.Evals, time.Since(start).Seconds())
	if total.Mismatch > 0 {
		fmt.Printf("%s: warning: %d of %d re-executed runs differ\n", id, total.Mismatch, total.Rechecked)
	}
	return code
}

func merge(outs []*workerOut) *workerOut {
	t := &workerOut{Faults: map[string]int{}, Cov: map[string]int{}}
	known := map[string]int{}
	for _, o := range outs {
		if o == nil {
			continue
		}
		t.Evals += o.Evals
		t.Nontrivial += o.Nontrivial
		t.Calls += o.Calls
		t.Steps += o.Steps
		t.Data += o.Data
		t.VTime += o.VTime
		t.Switches += o.Switches
		t.FaultRuns += o.FaultRuns
		t.Rechecked += o.Rechecked
		t.Mismatch += o.Mismatch
		t.Stopped = t.Stopped || o.Stopped
		if o.MaxMem > t.MaxMem {
			t.MaxMem = o.MaxMem
		}
		for k, v := range o.Faults {
			t.Faults[k] += v
		}
		for k, v := range o.Cov {
			t.Cov[k] += v
		}
		for _, k := range o.Known {
			known[k]++
		}
		t.Samples = append(t.Samples, o.Samples...)
	}
	t.Known = sortedKeys(known)
	return t
}

func writeEvidence(p *Prop, tier string, seed uint64, t *workerOut, dir string, outs []*workerOut, wall time.Duration, v *Replay, runs, nw int) {
	distinct := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	for _, o := range outs {
		if o != nil && o.HashFile != "" {
			readHashes(o.HashFile, distinct)
			readHashes(o.HashFile+"s", scheds)
		}
	}
	samples := t.Samples
	sort.Strings(samples)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []string{}
	}
	top := map[string]int{}
	keys := sortedKeys(t.Cov)
	for _, k := range keys {
		top[k] = t.Cov[k]
	}
	cov := map[string]interface{}{
		"evaluations":                 t.Evals,
		"distinct_nontrivial":         len(distinct),
		"rule":                        p.rule + ". One run is one seed: every choice (case, calls, transfer splits, faults, schedule) comes from a decision tape drawn from a PRNG seeded with a hash of VERIF_SEED, the property and the run number. Distinct runs are counted by the digest of the event log (calls, outcomes, stream operations, clock steps, faults).",
		"samples":                     samples,
		"runs_planned":                runs,
		"stopped_by_time":             t.Stopped,
		"runs_per_hour_one_seed_each": int(float64(t.Evals) / wall.Hours()),
		"nontrivial_runs":             t.Nontrivial,
		"calls_into_code":             t.Calls,
		"stream_operations":           t.Steps,
		"bytes_moved":                 t.Data,
		"faults_fired":                t.Faults,
		"runs_with_a_fault":           t.FaultRuns,
		"situations":                  top,
		"situations_distinct":         len(top),
		"situations_measure":          "number of runs in which the named situation (call, state, outcome) occurred",
		"re_executed_runs":            t.Rechecked,
		"re_executed_differ":          t.Mismatch,
		"workers":                     nw,
		"real_components":             "all of packages flatgeobuf, flatgeobuf/flat, packedrtree and the FlatBuffers runtime, built from /repo's working tree with -tags verif" + map[bool]string{true: " -race", false: ""}[p.race],
		"stub_components":             "the caller's io.Reader, io.Seeker, io.Closer, io.Writer (simulated streams)" + map[bool]string{true: "; goroutine scheduling (token scheduler)", false: ""}[p.race || p.id == "C18"],
	}
	for i := range outs {
		if v, _ := variantOf(i, nw); v != "" && outs[i] != nil {
			cov["runs_in_build_"+v] = outs[i].Evals
		}
	}
	if p.id == "C18" {
		cov["simulated_seconds"] = t.VTime
	} else {
		cov["simulated_time"] = "none: the code has no clock, timer or timeout; progress is counted in stream operations"
	}
	if t.Switches > 0 {
		cov["task_switches"] = t.Switches
		cov["distinct_interleavings"] = len(scheds)
	}
	if t.MaxMem > 0 {
		cov["max_bytes_allocated_by_one_call"] = t.MaxMem
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": 0,
		"assumptions": []string{
			"streams honour the io.Reader, io.Writer and io.Seeker contracts and make progress (never more than three empty reads in a row)",
			"the reference model in /verif/sim (spec.go, rdrive.go, wdrive.go) describes the FlatGeobuf v3 format and the documented call order",
			"sampling: behaviours outside the generated cases and schedules are not covered",
		},
	}
	if v != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]interface{}{"class": v.Class, "message": v.Message, "run": v.Run}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(verifDir()+"/evidence", 0o755)
	if err := os.WriteFile(verifDir()+"/evidence/"+p.id+".json", append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// report confirms, minimises and reports a violation.
func report(p *Prop, tier string, seed uint64, idx, num, nw int, why, stderr, dir string, outs []*workerOut, start time.Time) int {
	if idx < 0 {
		die("%s: a worker ended before its first run: %s", p.id, clip(stderr, 1000))
	}
	rs := propSeed(seed, p.id, idx)
	sp := &shrinkProc{bin: workerBin(idx, nw)}
	defer sp.stop()
	rep := &Replay{Property: p.id, Seed: seed, Run: idx, RunSeed: rs, Build: "plain", How: "bash /verif/check.sh replay <this file>"}
	if p.race {
		rep.Build = "race"
	}
	if v, _ := variantOf(idx, nw); v != "" {
		rep.Build = v
	}
	gen := shrinkReq{Property: p.id, Seed: seed, RunSeed: rs, Gen: true}
	fresh := func(q shrinkReq) shrinkRes {
		sp.stop()
		return sp.do(q, runCPU)
	}
	res := fresh(gen)
	fmt.Fprintf(os.Stderr, "%s: run %d %s; alone in a fresh process: %q\n", p.id, idx, why, res.Class)
	if res.Class == "died" || res.Class == "slow" || res.Class == "stalled" {
		die("%s: run %d: %s", p.id, idx, res.Msg)
	}
	if res.Class == "" && why != "slow" && why != "stalled" {
		// It may depend on the runs before it in the same process.
		first := num
		var all []int
		for i := first; i < idx; i += nw {
			all = append(all, i)
		}
		for k := 1; ; k *= 4 {
			if k > len(all) {
				k = len(all)
			}
			q := gen
			q.Prefix = all[len(all)-k:]
			r := fresh(shrinkReq{Property: q.Property, Seed: q.Seed, RunSeed: rs, Gen: true, Prefix: q.Prefix})
			if r.Class != "" && r.Class != "hang" && r.Class != "died" && r.Class != "slow" && r.Class != "stalled" {
				rep.Prefix = q.Prefix
				res = r
				break
			}
			if k == len(all) || time.Since(start) > 600*time.Second {
				break
			}
		}
		// Fewer runs may do.
		for dl := time.Now().Add(20 * time.Second); len(rep.Prefix) > 1 && time.Now().Before(dl); {
			n := len(rep.Prefix)
			smaller := false
			for _, cand := range [][]int{rep.Prefix[n/2:], rep.Prefix[:n/2], rep.Prefix[1:], rep.Prefix[:n-1]} {
				r := fresh(shrinkReq{Property: p.id, Seed: seed, RunSeed: rs, Gen: true, Prefix: cand})
				if r.Class == res.Class {
					rep.Prefix = append([]int(nil), cand...)
					smaller = true
					break
				}
			}
			if !smaller {
				break
			}
		}
	}
	if res.Class == "" {
		// Not confirmed: trouble with the check or the machine.
		die("%s: run %d %s, but does not do so again: %s", p.id, idx, why, clip(stderr, 2000))
	}
	if res.Class == "hang" {
		if r := fresh(gen); r.Class != "hang" {
			die("%s: run %d hung once, but not again", p.id, idx)
		}
	}
	rep.Class, rep.Message, rep.Case = res.Class, res.Msg, res.Desc
	rep.Tapes = res.Tapes
	if rep.Tapes == nil && len(rep.Prefix) == 0 {
		// The run ended its process.
		if r, tapes, desc, _ := recoverTapes(sp, gen, dir, runCPU); r.Class == rep.Class {
			rep.Tapes = tapes
			rep.Case = desc
		}
	}
	if rep.Tapes != nil {
		for _, t := range rep.Tapes {
			rep.Original += len(t)
		}
	}
	if rep.Tapes != nil {
		full := rep.Tapes
		minimise(sp, rep, 20*time.Second, len(rep.Prefix) > 0)
		if len(rep.Prefix) == 0 && (size(rep.Tapes) == size(full) || fresh(rep.request()).Class != rep.Class) {
			// Perhaps runs in one process influence each other.
			rep.Tapes = full
			minimise(sp, rep, 30*time.Second, true)
		}
	}
	// The replay file must reproduce it in a fresh process.
	q := rep.request()
	r := fresh(q)
	if r.Class != rep.Class {
		q.Gen = true
		q.Tapes = nil
		rep.Tapes = nil
		r = fresh(q)
	}
	if r.Class != "" {
		rep.Class, rep.Message = r.Class, r.Msg
		if r.Desc != "" {
			rep.Case = r.Desc
		}
		// Logging uses package fmt, whose pooled buffers order goroutines
		// for the race detector, so it may hide a race.
		q.Verbose = true
		if v := fresh(q); v.Class == r.Class && v.Events != nil {
			rep.Events = v.Events
		} else {
			_, _, _, rep.Events = recoverTapes(sp, q, dir, runCPU)
		}
		if len(rep.Events) > 400 {
			rep.Events = append([]string{"..."}, rep.Events[len(rep.Events)-400:]...)
		}
	}
	_ = os.MkdirAll(verifDir()+"/replays", 0o755)
	path := fmt.Sprintf("%s/replays/%s-%d-%d.json", verifDir(), p.id, seed, idx)
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	n := 0
	for _, t := range rep.Tapes {
		n += len(t)
	}
	fmt.Printf("%s: %s: %s\n", p.id, rep.Class, rep.Message)
	fmt.Printf("%s: case: %s\n", p.id, rep.Case)
	fmt.Printf("%s: run %d of seed %d, %d decisions minimised to %d\n", p.id, idx, seed, rep.Original, n)
	writeEvidence(p, tier, seed, merge(outs), dir, outs, time.Since(start), rep, 0, nw)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	return 1
}

// recoverTapes gets the decisions, the case and the events of a run which ends
// its process: they are written to a file as they are made.
func recoverTapes(sp *shrinkProc, q shrinkReq, dir string, limit time.Duration) (shrinkRes, [][]uint64, string, []string) {
	sp.stop()
	q.Record = filepath.Join(dir, "record")
	_ = os.Remove(q.Record)
	r := sp.do(q, limit)
	sp.stop()
	b, err := os.ReadFile(q.Record)
	if err != nil {
		return r, nil, "", nil
	}
	tapes := [][]uint64{nil}
	desc := ""
	var events []string
	for len(b) > 0 {
		n := bytes.IndexByte(b, '\n')
		if n < 0 {
			break
		}
		l := string(b[:n])
		b = b[n+1:]
		switch {
		case strings.HasPrefix(l, "T "):
			var kid int
			var v uint64
			if _, err := fmt.Sscanf(l, "T %d %d", &kid, &v); err != nil {
				continue
			}
			for len(tapes) <= kid {
				tapes = append(tapes, nil)
			}
			tapes[kid] = append(tapes[kid], v)
		case strings.HasPrefix(l, "D "):
			desc = l[2:]
		case strings.HasPrefix(l, "E "):
			events = append(events, l[2:])
		}
	}
	return r, tapes, desc, events
}

func size(tapes [][]uint64) int {
	n := 0
	for _, t := range tapes {
		n += len(t)
	}
	return n
}

// request is the request to execute what the replay file says.
func (rep *Replay) request() shrinkReq {
	return shrinkReq{Property: rep.Property, Seed: rep.Seed, RunSeed: rep.RunSeed, Tapes: rep.Tapes, Gen: rep.Tapes == nil, Prefix: rep.Prefix}
}

// minimise shrinks the decision tapes while the class stays the same. If
// isolate is set, each candidate is executed in a process of its own.
func minimise(sp *shrinkProc, rep *Replay, budget time.Duration, isolate bool) {
	dl := time.Now().Add(budget)
	limit := 10 * time.Second
	if rep.Class == "hang" {
		limit = 4 * time.Second // It is confirmed with the full limit afterwards.
	}
	best := rep.Tapes
	tries := 0
	try := func(c [][]uint64) bool {
		if time.Now().After(dl) {
			return false
		}
		tries++
		if isolate {
			sp.stop()
		}
		q := rep.request()
		q.Tapes = c
		r := sp.do(q, limit)
		if rep.Class == "hang" && r.Class == "slow" {
			r.Class = "hang"
		}
		if r.Class != rep.Class {
			return false
		}
		// What was really drawn, if that is less.
		if r.Tapes != nil && (size(r.Tapes) < size(c) || (size(r.Tapes) == size(c) && less(r.Tapes, c))) {
			c = trim(r.Tapes)
		}
		best = trim(c)
		rep.Message = r.Msg
		return true
	}
	clone := func() [][]uint64 {
		o := make([][]uint64, len(best))
		for i := range best {
			o[i] = append([]uint64(nil), best[i]...)
		}
		return o
	}
	for round := 0; round < 6 && time.Now().Before(dl); round++ {
		before := fmt.Sprint(best)
		for k := 0; k < len(best); k++ {
			// Delete runs of decisions.
			for n := len(best[k]); n >= 1; n /= 2 {
				for i := len(best[k]) - n; i >= 0; i -= n {
					if i+n > len(best[k]) {
						continue
					}
					c := clone()
					c[k] = append(c[k][:i:i], c[k][i+n:]...)
					try(c)
				}
				if time.Now().After(dl) {
					break
				}
			}
			// Zero runs of decisions.
			for n := len(best[k]); n >= 1; n /= 2 {
				for i := 0; i+n <= len(best[k]); i += n {
					c := clone()
					z := true
					for j := i; j < i+n; j++ {
						if c[k][j] != 0 {
							z = false
						}
						c[k][j] = 0
					}
					if !z {
						try(c)
					}
				}
				if time.Now().After(dl) {
					break
				}
			}
			// Lower single decisions.
			for i := 0; i < len(best[k]); i++ {
				for _, f := range []func(uint64) uint64{func(v uint64) uint64 { return 1 }, func(v uint64) uint64 { return v / 2 }, func(v uint64) uint64 { return v - 1 }} {
					if i >= len(best[k]) || best[k][i] < 2 {
						break
					}
					c := clone()
					c[k][i] = f(c[k][i])
					try(c)
				}
			}
		}
		if fmt.Sprint(best) == before {
			break
		}
	}
	rep.Tapes = best
}

// trim drops trailing zeros, which is what an exhausted tape yields anyway.
func trim(c [][]uint64) [][]uint64 {
	o := make([][]uint64, len(c))
	for i := range c {
		n := len(c[i])
		for n > 0 && c[i][n-1] == 0 {
			n--
		}
		o[i] = c[i][:n]
	}
	return o
}

func less(a, b [][]uint64) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		for j := range a[i] {
			if j >= len(b[i]) {
				return false
			}
			if a[i][j] != b[i][j] {
				return a[i][j] < b[i][j]
			}
		}
	}
	return false
}

func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		die("%v", err)
	}
	p := findProp(rep.Property)
	if p == nil {
		die("no such property: %s", rep.Property)
	}
	sp := &shrinkProc{}
	defer sp.stop()
	r := sp.do(rep.request(), runCPU)
	for _, l := range rep.Events {
		fmt.Println(l)
	}
	fmt.Println("case:", r.Desc)
	if r.Class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s: %s\n", p.id, r.Class, r.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	return 1
}
