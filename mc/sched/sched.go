// Package sched is a cooperative scheduler: instrumented code calls Y before every
// statement, and a controller decides after how many of these calls which thread runs.
// It must not import anything of the code under test.
package sched

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

func getg() uintptr

type thread struct {
	g      uintptr
	n      int // yields so far
	stop   int // yield at which to stop, 0 for none
	resume chan int
	parked bool
	done   bool
}

var (
	active  atomic.Bool
	threads [3]*thread
	events  = make(chan int, 8)
)

// Y is a scheduling point.
func Y() {
	if !active.Load() {
		return
	}
	g := getg()
	for i, t := range threads {
		if t != nil && t.g == g {
			t.n++
			if t.n == t.stop {
				events <- i
				t.stop = <-t.resume
			}
			return
		}
	}
}

// Seg is a part of a schedule: a thread runs until its count of scheduling points is Stop (0: to its end).
type Seg struct{ Thread, Stop int }

// Result of a schedule.
type Result struct {
	Yields  []int // per thread
	Blocked int   // times a thread waited for another one and the schedule had to go on with that
	Hang    bool
}

// Run runs the functions as threads under a schedule; what is left after it runs to the end in order.
func Run(fs []func(), segs []Seg) Result {
	for i := range threads {
		threads[i] = nil
	}
	start := make([]chan int, len(fs))
	ready := make(chan int, len(fs))
	for i, f := range fs {
		i, f := i, f
		start[i] = make(chan int)
		t := &thread{resume: make(chan int)}
		threads[i] = t
		go func() {
			t.g = getg()
			ready <- i
			t.stop = <-start[i]
			f()
			events <- i + len(threads)
		}()
	}
	for range fs {
		<-ready
	}
	active.Store(true)
	var res Result
	started := make([]bool, len(fs))
	for i := range fs {
		segs = append(segs[:len(segs):len(segs)], Seg{i, 0})
	}
	running := map[int]bool{} // threads let run and not back yet (more than one only if one is blocked)
	note := func(e int) {
		if e >= len(threads) {
			threads[e-len(threads)].done = true
			delete(running, e-len(threads))
		} else {
			threads[e].parked = true
			delete(running, e)
		}
	}
	for _, s := range segs {
		t := threads[s.Thread]
		if t.done || running[s.Thread] || s.Stop > 0 && s.Stop <= t.n {
			continue
		}
		running[s.Thread] = true
		if !started[s.Thread] {
			started[s.Thread] = true
			start[s.Thread] <- s.Stop
		} else {
			t.parked = false
			t.resume <- s.Stop
		}
		timer := time.NewTimer(100 * time.Millisecond)
		for running[s.Thread] {
			select {
			case e := <-events:
				note(e)
				continue
			case <-timer.C:
			}
			break
		}
		if running[s.Thread] {
			res.Blocked++
		}
		timer.Stop()
	}
	deadline := time.After(20 * time.Second)
	for len(running) > 0 || anyParked(fs) {
		for i := range fs {
			if threads[i].parked {
				threads[i].parked = false
				running[i] = true
				threads[i].resume <- 0
			}
		}
		select {
		case e := <-events:
			note(e)
		case <-deadline:
			res.Hang = true
			active.Store(false)
			return res
		}
	}
	active.Store(false)
	for i := range fs {
		res.Yields = append(res.Yields, threads[i].n)
	}
	return res
}

func anyParked(fs []func()) bool {
	for i := range fs {
		if threads[i].parked {
			return true
		}
	}
	return false
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	b := make([]byte, 1<<16)
	return fmt.Sprintf("%s", b[:runtime.Stack(b, true)])
}
