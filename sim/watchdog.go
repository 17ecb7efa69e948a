package main

import (
	"fmt"
	"os"
	"syscall"
	"time"
)

// The watchdog ends the process if a single call into the code under test
// burns CPU time without end; what the simulator itself does between calls is
// not counted. It only reads, through uninstrumented functions, so it neither
// influences a run nor hides a race.

const hangCPU = 20 * time.Second // of one call

var watched struct {
	seq    uint64 // number of calls begun and ended
	active int    // calls in progress
	name   string
}

//go:norace
//go:noinline
func callBegins(name string) {
	watched.seq++
	watched.active++
	watched.name = name
}

//go:norace
//go:noinline
func callEnds() {
	watched.seq++
	watched.active--
}

//go:norace
//go:noinline
func callState() (uint64, int) { return watched.seq, watched.active }

//go:norace
//go:noinline
func callName() string { return watched.name }

func watchdog() {
	var last uint64
	var since time.Duration
	for {
		time.Sleep(250 * time.Millisecond)
		var u syscall.Rusage
		if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
			return
		}
		cpu := time.Duration(u.Utime.Nano() + u.Stime.Nano())
		if seq, active := callState(); seq != last || active == 0 {
			last, since = seq, cpu
		} else if cpu-since > hangCPU {
			fmt.Fprintf(os.Stderr, "HANG: the call %s does not end within %v of CPU time\n", callName(), hangCPU)
			os.Exit(68)
		}
	}
}
