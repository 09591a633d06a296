package main

// Concurrency: vrt.Par runs two functions as threads of the program. Exactly
// one runs at a time; before every synchronisation operation of the code under
// test a fresh symbolic variable decides whether the other thread goes on
// instead (up to a bound on such preemptions). Accesses to memory in between
// are checked for data races with vector clocks, so switching at
// synchronisation operations alone is enough: a program without data races
// behaves as if its threads were switched only there.

import (
	"fmt"
	"strings"
)

type vclock [2]uint32

func (c *vclock) join(d *vclock) {
	for i := range c {
		c[i] = max(c[i], d[i])
	}
}

type thread struct {
	id      int
	f       W
	stack   []W
	sp      int
	depth   int
	curFn   []*Code
	panics  []*goPanic
	ret     []W
	resume  chan bool // false: give up
	done    bool
	err     interface{}
	waits   func() bool // nil, or tells whether the thread may go on
	vc      vclock
	started bool
}

type shadowKey struct {
	o *Obj
	i int
}

type shadow struct {
	w    int8 // thread of the last write, plus one
	wc   uint32
	r    vclock
	rwho [2]*Code
	wwho *Code
}

type parState struct {
	th       [2]*thread
	cur      int
	left     int // preemptions left
	back     chan struct{}
	shadows  map[shadowKey]*shadow
	clocks   map[poolKey]*vclock
	items    map[*Obj]*vclock
	quiet    int
	readers  map[poolKey]int
	switches int
}

func (m *Machine) saveThread(t *thread) {
	t.stack, t.sp, t.depth, t.curFn, t.panics, t.ret = m.stack, m.sp, m.depth, m.curFn, m.panics, m.ret
}

func (m *Machine) loadThread(t *thread) {
	m.stack, m.sp, m.depth, m.curFn, m.panics, m.ret = t.stack, t.sp, t.depth, t.curFn, t.panics, t.ret
}

type threadAbort struct{}

func (m *Machine) doPar(f, g W, preempt int) {
	if m.par != nil {
		m.unsup("nested Par")
	}
	p := &parState{left: preempt, back: make(chan struct{}), shadows: map[shadowKey]*shadow{}, clocks: map[poolKey]*vclock{}, items: map[*Obj]*vclock{}, readers: map[poolKey]int{}}
	var main thread
	m.saveThread(&main)
	for i := range p.th {
		t := &thread{id: i, resume: make(chan bool), stack: make([]W, 1<<13), depth: m.depth,
			curFn: append([]*Code(nil), m.curFn...)}
		t.vc[i] = 1
		t.f = f
		if i == 1 {
			t.f = g
		}
		p.th[i] = t
		go func() {
			defer func() {
				r := recover()
				if _, ok := r.(threadAbort); ok {
					p.back <- struct{}{}
					return
				}
				t.err = r
				t.done = true
				if r == nil {
					o := p.th[1-t.id]
					if !o.done {
						if o.waits != nil && !o.waits() {
							t.err = deadlock{}
						} else {
							o.waits = nil
							p.cur = o.id
							m.loadThread(o)
							o.resume <- true
							return
						}
					}
				}
				p.back <- struct{}{}
			}()
			if !<-t.resume {
				panic(threadAbort{})
			}
			m.callFunc(t.f, nil)
		}()
	}
	m.par = p
	first := m.schedule()
	p.cur = first
	m.loadThread(p.th[first])
	p.th[first].resume <- true
	<-p.back
	// one of the threads ended with an error, or both are through
	var err interface{}
	for _, t := range p.th {
		if t.err != nil {
			err = t.err
		}
	}
	for _, t := range p.th {
		if !t.done {
			t.resume <- false
			<-p.back
		}
	}
	m.par = nil
	m.loadThread(&main)
	if _, ok := err.(deadlock); ok {
		m.goPanicMsg("deadlock: all threads wait")
	}
	if err != nil {
		panic(err)
	}
}

type deadlock struct{}

// schedule draws which of two goes on.
func (m *Machine) schedule() int {
	return int(m.concretize(m.newVar(8, 0, 1), 8))
}

// fromRepo reports whether the running intrinsic was called by the code under test.
func (m *Machine) fromRepo() bool {
	for i := len(m.curFn) - 2; i >= 0; i-- {
		fn := m.curFn[i].fn
		if fn == nil {
			return false
		}
		if fn.Pkg == nil || fn.Synthetic != "" {
			if o := fn.Origin(); o == nil || o.Pkg == nil {
				continue
			}
		}
		pk := fn.Pkg
		if pk == nil {
			pk = fn.Origin().Pkg
		}
		if pk.Pkg.Path() == "sync/atomic" {
			continue
		}
		return strings.HasPrefix(pk.Pkg.Path(), "github.com/zerosnake0/jzon")
	}
	return false
}

// yield is a point where the other thread may go on.
func (m *Machine) yield() {
	p := m.par
	if p == nil || !m.fromRepo() {
		return
	}
	o := p.th[1-p.cur]
	if o.done || p.left == 0 || o.waits != nil && !o.waits() {
		return
	}
	if m.schedule() == 0 {
		return
	}
	p.left--
	m.switchTo(o)
}

func (m *Machine) switchTo(o *thread) {
	p := m.par
	t := p.th[p.cur]
	m.saveThread(t)
	o.waits = nil
	p.cur = o.id
	p.switches++
	m.loadThread(o)
	o.resume <- true
	if !<-t.resume {
		panic(threadAbort{})
	}
}

// block waits until ready holds.
func (m *Machine) block(ready func() bool) {
	p := m.par
	for !ready() {
		o := p.th[1-p.cur]
		if o.done || o.waits != nil && !o.waits() {
			m.goPanicMsg("deadlock: all threads wait")
		}
		p.th[p.cur].waits = ready
		m.switchTo(o)
	}
}

func (m *Machine) acquire(k poolKey) {
	if p := m.par; p != nil {
		if c := p.clocks[k]; c != nil {
			p.th[p.cur].vc.join(c)
		}
	}
}

func (m *Machine) release(k poolKey) {
	if p := m.par; p != nil {
		t := p.th[p.cur]
		c := p.clocks[k]
		if c == nil {
			c = &vclock{}
			p.clocks[k] = c
		}
		c.join(&t.vc)
		t.vc[t.id]++
	}
}

// unchecked runs f without checking its accesses for races.
func (m *Machine) unchecked(f func()) {
	if m.par == nil {
		f()
		return
	}
	m.par.quiet++
	f()
	m.par.quiet--
}

func (m *Machine) raceAt(o *Obj, i int, write bool) {
	p := m.par
	t := p.th[p.cur]
	k := shadowKey{o, i}
	s := p.shadows[k]
	if s == nil {
		s = &shadow{}
		p.shadows[k] = s
	}
	other := 1 - t.id
	if s.w == int8(other)+1 && s.wc > t.vc[other] {
		m.race(s.wwho, write, "write")
	}
	if write {
		if s.r[other] > t.vc[other] {
			m.race(s.rwho[other], true, "read")
		}
		s.w, s.wc, s.wwho = int8(t.id)+1, t.vc[t.id], m.topFn()
	} else {
		s.r[t.id], s.rwho[t.id] = t.vc[t.id], m.topFn()
	}
}

// topFn is the innermost running function of the code under test.
func (m *Machine) topFn() *Code {
	for i := len(m.curFn) - 1; i >= 0; i-- {
		if c := m.curFn[i]; c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Name() == "jzon" {
			return c
		}
	}
	return nil
}

func fnName(c *Code) string {
	if c == nil {
		return "?"
	}
	return strings.ReplaceAll(c.name, "github.com/zerosnake0/", "")
}

type raceEnd struct{ msg string }

func (m *Machine) race(who *Code, write bool, what string) {
	k := "read"
	if write {
		k = "write"
	}
	panic(raceEnd{fmt.Sprintf("data race: %s in %s and %s in %s", k, fnName(m.topFn()), what, fnName(who))})
}

func (m *Machine) track(o *Obj, off uint64, lay *Layout, write bool) {
	if m.par.quiet > 0 || o.ro || o.kind != KData {
		return
	}
	for _, lf := range lay.leaves {
		if i := o.cellIndex(off + uint64(lf.off)); i >= 0 {
			m.raceAt(o, i, write)
		}
	}
}

func (m *Machine) trackMap(o *Obj, write bool) {
	if m.par != nil && m.par.quiet == 0 && o != nil {
		m.raceAt(o, -1, write)
	}
}

// ---- locks ----

func (m *Machine) lock(k poolKey, rw bool) {
	m.yield()
	ready := func() bool { return m.locks[k] == 0 && (m.par == nil || m.par.readers[k] == 0) }
	if m.par == nil {
		if !ready() {
			m.goPanicMsg("deadlock: lock of a held mutex")
		}
	} else {
		m.block(ready)
	}
	m.locks[k] = 1
	m.acquire(k)
}

func (m *Machine) unlock(k poolKey) {
	m.yield()
	if m.locks[k] == 0 {
		m.goPanicMsg("sync: unlock of unlocked mutex")
	}
	m.locks[k] = 0
	m.release(k)
}

func (m *Machine) rlock(k poolKey) {
	m.yield()
	if m.par == nil {
		if m.locks[k] != 0 {
			m.goPanicMsg("deadlock: lock of a held mutex")
		}
		return
	}
	m.block(func() bool { return m.locks[k] == 0 })
	m.par.readers[k]++
	m.acquire(k)
}

func (m *Machine) runlock(k poolKey) {
	m.yield()
	if m.par == nil {
		return
	}
	if m.par.readers[k] == 0 {
		m.goPanicMsg("sync: RUnlock of unlocked RWMutex")
	}
	m.par.readers[k]--
	m.release(k)
}
