// Package shim connects the stand-ins for sync and sync/atomic (which replace
// them in the code under test when schedules are replayed) with the scheduler.
package shim

// Yield is called before every synchronisation operation, Wait when one cannot
// go on before ready holds.
var (
	Yield = func() {}
	Wait  = func(ready func() bool) {
		if !ready() {
			panic("deadlock: all threads wait")
		}
	}
)
