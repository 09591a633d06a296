package vrt

import (
	"os"
	"sync"

	"vharness/shim"
)

type thread struct {
	resume chan bool
	done   bool
	err    any
	waits  func() bool
}

// Par runs f and g at the same time and returns when both are through. In the
// engine every schedule with at most the given number of preemptions is
// explored; natively the recorded schedule is replayed when the code under
// test is built with the stand-ins for sync, and otherwise they just run.
// Inputs must not be drawn inside.
func Par(preempt int, f, g func()) {
	if os.Getenv("REPLAY_SCHED") == "" {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); f() }()
		go func() { defer wg.Done(); g() }()
		wg.Wait()
		return
	}
	var th [2]*thread
	cur := 0
	back := make(chan struct{})
	for i, fn := range []func(){f, g} {
		i, fn := i, fn
		t := &thread{resume: make(chan bool)}
		th[i] = t
		go func() {
			defer func() {
				t.err = recover()
				t.done = true
				if o := th[1-i]; t.err == nil && !o.done {
					if o.waits == nil || o.waits() {
						o.waits = nil
						cur = 1 - i
						o.resume <- true
						return
					}
					t.err = "deadlock: all threads wait"
				}
				back <- struct{}{}
			}()
			<-t.resume
			fn()
		}()
	}
	switchTo := func(k int) {
		t := th[cur]
		th[k].waits = nil
		cur = k
		th[k].resume <- true
		<-t.resume
	}
	oldY, oldW := shim.Yield, shim.Wait
	shim.Yield = func() {
		o := th[1-cur]
		if o.done || preempt == 0 || o.waits != nil && !o.waits() {
			return
		}
		if next() == 0 {
			return
		}
		preempt--
		switchTo(1 - cur)
	}
	shim.Wait = func(ready func() bool) {
		for !ready() {
			o := th[1-cur]
			if o.done || o.waits != nil && !o.waits() {
				panic("deadlock: all threads wait")
			}
			th[cur].waits = ready
			switchTo(1 - cur)
		}
	}
	cur = int(next())
	th[cur].resume <- true
	<-back
	shim.Yield, shim.Wait = oldY, oldW
	for _, t := range th {
		if t.err != nil {
			panic(t.err)
		}
	}
}
