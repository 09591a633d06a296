package main

// Path exploration: decisions, path conditions, feasibility, worklist.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	k int32
	v uint64
}

type WorkItem struct {
	prefix []Dec
	model  []uint64
}

type inputRec struct {
	v   *Term // symbolic input, or
	val uint64
}

type obsRec struct {
	tag string
	ws  []W
	wd  uint8
}

type PathState struct {
	prefix      []Dec
	taken       []Dec
	pos         int
	others      []*Term
	doms        []Set
	ent         []bool
	vars        []*Term
	model       []uint64
	inputs      []inputRec
	obs         []obsRec
	asserts     int
	noteUnknown bool
	pfApps      []pfApp
	pfFacts     []pfFact
	floats      []floatHint
}

type Violation struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []uint64         `json:"inputs"`
	Msg     string           `json:"msg"`
	Kind    string           `json:"kind"` // assert, panic, memory, budget, sample
	native  string
	Obs     []string `json:"observed"`
}

type Sample struct {
	Inputs []uint64
	Obs    []string
}

type ledgerKey struct{ dom, set Set }

type Explorer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []WorkItem
	active int
	stop   bool
	// per job results
	paths, okPaths, assumeEnds, violPaths int64
	unsup                                 map[string]int64
	budget                                map[string]int64
	unknown                               int64
	dropped                               int64
	viols                                 []Violation
	violKeys                              map[string]int
	samples                               []Sample
	sampleEvery                           int64
	asserts                               int64
	assertQ                               int64
	cover                                 map[string]int64
	maxPaths                              int64
	deadline                              time.Time
	timedOut                              bool
	stepsTot                              int64
	ledger                                map[ledgerKey]struct{}
	ledgerN                               int64
	evals                                 int64
	simplified                            int64
	forks                                 int64
	maxSteps                              int64
	wantCap                               int // stop after this many violations
}

func newExplorer() *Explorer {
	ex := &Explorer{}
	ex.cond = sync.NewCond(&ex.mu)
	ex.resetJob()
	return ex
}

func (ex *Explorer) resetJob() {
	ex.stack = nil
	ex.stop = false
	ex.timedOut = false
	ex.paths, ex.okPaths, ex.assumeEnds, ex.violPaths = 0, 0, 0, 0
	ex.unsup = map[string]int64{}
	ex.budget = map[string]int64{}
	ex.unknown, ex.dropped = 0, 0
	ex.viols = nil
	ex.violKeys = map[string]int{}
	ex.samples = nil
	ex.asserts, ex.assertQ = 0, 0
	ex.cover = map[string]int64{}
	ex.ledger = map[ledgerKey]struct{}{}
	ex.ledgerN = 0
	ex.stepsTot = 0
	ex.maxSteps = 0
	ex.wantCap = 40
}

func (ex *Explorer) pushWork(w WorkItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) take() (WorkItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return WorkItem{}, false
		}
		if len(ex.stack) > 0 {
			if ex.maxPaths > 0 && ex.paths+int64(ex.active) >= ex.maxPaths || !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
				if ex.maxPaths > 0 && ex.paths+int64(ex.active) >= ex.maxPaths {
				} else {
					ex.timedOut = true
				}
				ex.dropped += int64(len(ex.stack))
				ex.stack = nil
				ex.stop = true
				ex.cond.Broadcast()
				return WorkItem{}, false
			}
			w := ex.stack[len(ex.stack)-1]
			ex.stack = ex.stack[:len(ex.stack)-1]
			ex.active++
			return w, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return WorkItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// ---- symbolic inputs ----

func (m *Machine) newVar(w uint8, lo, hi uint64) W {
	if m.path == nil {
		m.unsup("symbolic input outside a path")
	}
	ps := m.path
	idx := len(ps.vars)
	if lo == hi {
		ps.inputs = append(ps.inputs, inputRec{val: lo})
		return W{u: lo}
	}
	v := m.tb.Var(idx, w, lo, hi)
	ps.vars = append(ps.vars, v)
	var d Set
	if w <= 8 {
		d = fullSet(v)
	}
	ps.doms = append(ps.doms, d)
	ps.ent = append(ps.ent, false)
	for len(ps.model) <= idx {
		ps.model = append(ps.model, lo)
	}
	if ps.model[idx] < lo || ps.model[idx] > hi {
		ps.model[idx] = lo
	}
	ps.inputs = append(ps.inputs, inputRec{v: v})
	return W{t: v}
}

// ---- decisions ----

func (m *Machine) branch(c *Term) bool {
	if c == m.tb.tt {
		return true
	}
	if c == m.tb.ff {
		return false
	}
	return m.fork([]*Term{c, m.tb.BNot(c)}) == 0
}

func (m *Machine) note(dom, set Set) {
	ex := m.ex
	ex.mu.Lock()
	ex.ledger[ledgerKey{dom, set}] = struct{}{}
	ex.ledgerN++
	ex.mu.Unlock()
}

func conjuncts(c *Term) []*Term {
	if c.op == OBand {
		return c.ts
	}
	return []*Term{c}
}

// domainEmpty reports that a byte constraint contradicts the byte's current
// domain; the claim is put on the ledger for the solver to confirm.
func (m *Machine) domainEmpty(c *Term) bool {
	ps := m.path
	for _, x := range conjuncts(c) {
		if x.op == OInSet && x.a.op == OVar {
			d := ps.doms[x.a.k]
			if d.and(x.set).empty() {
				m.note(d, x.set)
				return true
			}
		}
	}
	return false
}

func (m *Machine) assume(c *Term) {
	ps := m.path
	for _, x := range conjuncts(c) {
		if x == m.tb.tt {
			continue
		}
		if x.op == OInSet && x.a.op == OVar {
			i := x.a.k
			ps.doms[i] = ps.doms[i].and(x.set)
			continue
		}
		dup := false
		for _, y := range ps.others {
			if y == x {
				dup = true
			}
		}
		if dup {
			continue
		}
		ps.others = append(ps.others, x)
		for _, v := range varsOf(x) {
			ps.ent[v] = true
		}
	}
}

func (m *Machine) fork(conds []*Term) int {
	if m.region {
		panic(regionAbort{})
	}
	if m.path == nil {
		m.unsup("symbolic decision during initialisation")
	}
	ps := m.path
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		ps.pos++
		if int(d.k) >= len(conds) {
			m.unsup("replay divergence")
		}
		ps.taken = append(ps.taken, d)
		m.assume(conds[d.k])
		return int(d.k)
	}
	atomic.AddInt64(&m.ex.forks, 1)
	cur := -1
	for i, c := range conds {
		if c == m.tb.ff || c.uf {
			continue
		}
		if v, ok := m.tb.Eval(c, ps.model); ok && v != 0 {
			cur = i
			break
		}
	}
	for i, c := range conds {
		if i == cur || c == m.tb.ff {
			continue
		}
		r, model := m.feasible(c)
		switch r {
		case Sat:
			if cur < 0 {
				cur = i
				ps.model = model
				continue
			}
			pre := make([]Dec, len(ps.taken)+1)
			copy(pre, ps.taken)
			pre[len(ps.taken)] = Dec{k: int32(i)}
			m.ex.pushWork(WorkItem{pre, model})
		case Unknown:
			atomic.AddInt64(&m.ex.unknown, 1)
		}
	}
	if cur < 0 {
		panic(pathEnd{"infeasible"})
	}
	ps.taken = append(ps.taken, Dec{k: int32(cur)})
	m.assume(conds[cur])
	return cur
}

// choose makes a harness-level choice among n alternatives.
func (m *Machine) choose(n int) int {
	ps := m.path
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		ps.pos++
		ps.taken = append(ps.taken, d)
		ps.inputs = append(ps.inputs, inputRec{val: uint64(d.k)})
		return int(d.k)
	}
	for i := n - 1; i > 0; i-- {
		pre := make([]Dec, len(ps.taken)+1)
		copy(pre, ps.taken)
		pre[len(ps.taken)] = Dec{k: int32(i)}
		m.ex.pushWork(WorkItem{pre, append([]uint64(nil), ps.model...)})
	}
	ps.taken = append(ps.taken, Dec{})
	ps.inputs = append(ps.inputs, inputRec{val: 0})
	return 0
}

// concretize fixes the value of a word, forking over its possible values.
func (m *Machine) concretize(w W, width uint8) uint64 {
	if w.o != nil {
		m.unsup("pointer where an integer is needed")
	}
	if w.t == nil {
		return w.u
	}
	if m.region {
		panic(regionAbort{})
	}
	t := w.t
	ps := m.path
	if ps == nil {
		m.unsup("symbolic value during initialisation")
	}
	if t.single && t.sv.w <= 8 && !t.uf {
		vec := m.tb.vecOf(t)
		d := ps.doms[t.sv.k]
		seen := map[uint64]bool{}
		var vals []uint64
		for i := uint64(0); i < uint64(len(vec)); i++ {
			if d.has(i) && !seen[vec[i]] {
				seen[vec[i]] = true
				vals = append(vals, vec[i])
			}
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
		if len(vals) == 1 {
			var ns Set
			for i := range vec {
				if vec[i] != vals[0] {
					ns.add(uint64(i))
				}
			}
			m.note(d, ns)
			return vals[0]
		}
		conds := make([]*Term, len(vals))
		for i, v := range vals {
			conds[i] = m.tb.Eq(t, m.tb.Const(t.w, v))
		}
		return vals[m.fork(conds)]
	}
	for n := 0; ; n++ {
		if n > 64 {
			m.unsup("too many values for a symbolic quantity")
		}
		if ps.pos < len(ps.prefix) {
			d := ps.prefix[ps.pos]
			ps.pos++
			ps.taken = append(ps.taken, d)
			eq := m.tb.Eq(t, m.tb.Const(t.w, d.v))
			if d.k == 0 {
				m.assume(eq)
				return d.v
			}
			m.assume(m.tb.BNot(eq))
			continue
		}
		v, ok := m.tb.Eval(t, ps.model)
		if !ok {
			m.unsup("concretisation of an uninterpreted value")
		}
		eq := m.tb.Eq(t, m.tb.Const(t.w, v))
		ne := m.tb.BNot(eq)
		if ne != m.tb.ff {
			r, model := m.feasible(ne)
			switch r {
			case Sat:
				pre := make([]Dec, len(ps.taken)+1)
				copy(pre, ps.taken)
				pre[len(ps.taken)] = Dec{k: 1, v: v}
				m.ex.pushWork(WorkItem{pre, model})
			case Unknown:
				atomic.AddInt64(&m.ex.unknown, 1)
			}
		}
		ps.taken = append(ps.taken, Dec{k: 0, v: v})
		m.assume(eq)
		return v
	}
}

// feasible decides PC and c; on Sat a full model is returned.
func (m *Machine) feasible(c *Term) (SatRes, []uint64) {
	ps := m.path
	if c == m.tb.ff {
		return Unsat, nil
	}
	if m.domainEmpty(c) {
		return Unsat, nil
	}
	cj := conjuncts(c)
	easy := true
	for _, x := range cj {
		if !(x.op == OInSet && x.a.op == OVar) || ps.ent[x.a.k] {
			easy = false
			break
		}
	}
	if easy {
		model := append([]uint64(nil), ps.model...)
		for _, x := range cj {
			s := ps.doms[x.a.k].and(x.set)
			if !s.has(model[x.a.k]) {
				model[x.a.k] = s.first()
			}
		}
		return Sat, model
	}
	// slice
	inSlice := map[int32]bool{}
	for _, v := range varsOf(c) {
		inSlice[v] = true
	}
	used := make([]bool, len(ps.others))
	for changed := true; changed; {
		changed = false
		for i, o := range ps.others {
			if used[i] {
				continue
			}
			hit := o.uf && c.uf
			for _, v := range varsOf(o) {
				if inSlice[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range varsOf(o) {
					inSlice[v] = true
				}
			}
		}
	}
	var cs []*Term
	for i, o := range ps.others {
		if used[i] {
			cs = append(cs, o)
		}
	}
	var vs []int
	for v := range inSlice {
		vs = append(vs, int(v))
	}
	sort.Ints(vs)
	cs = append(cs, cj...)
	var vars []*Term
	var sub map[uint64]*Term
	var ds []*Term
	for _, v := range vs {
		vt := ps.vars[v]
		vars = append(vars, vt)
		if vt.w <= 8 {
			d := ps.doms[v]
			if dt := m.tb.inSet(vt, d); dt != m.tb.tt {
				ds = append(ds, dt)
				// narrow the variable to the hull of its domain
				lo, hi := d.first(), d.last()
				if lo > vt.lo || hi < vt.hi {
					if sub == nil {
						sub = map[uint64]*Term{}
					}
					if lo == hi {
						sub[vt.k] = m.tb.Const(vt.w, lo)
					} else {
						sub[vt.k] = m.tb.narrow(vt, lo, hi)
					}
				}
			}
		}
	}
	if sub != nil {
		memo := map[int32]*Term{}
		out := cs[:0]
		for _, x := range cs {
			y := m.tb.rebuild(x, sub, memo)
			if y == m.tb.ff {
				atomic.AddInt64(&m.ex.simplified, 1)
				return Unsat, nil
			}
			if y != m.tb.tt {
				out = append(out, y)
			}
		}
		cs = out
	}
	cs = append(cs, ds...)
	r, vals := m.query(cs, vars)
	if r != Sat {
		return r, nil
	}
	model := append([]uint64(nil), ps.model...)
	for i, v := range vs {
		model[v] = vals[i]
	}
	return Sat, model
}

type qres struct {
	r    SatRes
	vals []uint64
}

var queryCacheHits int64

func (m *Machine) query(cs []*Term, vars []*Term) (SatRes, []uint64) {
	ids := make([]int32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 4*len(ids))
	for i, x := range ids {
		binary.LittleEndian.PutUint32(kb[4*i:], uint32(x))
	}
	for _, v := range vars {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(v.id))
	}
	key := string(kb)
	if r, ok := m.qcache()[key]; ok {
		atomic.AddInt64(&queryCacheHits, 1)
		return r.r, r.vals
	}
	ck := canonKey(cs, vars)
	if r, ok := canonGet(ck); ok {
		atomic.AddInt64(&queryCacheHits, 1)
		m.qcache()[key] = r
		return r.r, r.vals
	}
	if m.solver == nil {
		m.solver = newSolver(solverTimeout)
	}
	t0 := time.Now()
	r, vals := m.solver.check(cs, vars)
	if slowLog && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %v %v\n", time.Since(t0), r)
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "   %s\n", c)
		}
	}
	if r == Unknown {
		r, vals = m.fallback(cs, vars)
	}
	m.qcache()[key] = qres{r, vals}
	if r != Unknown {
		canonPut(ck, qres{r, vals})
	}
	return r, vals
}

var slowLog = os.Getenv("SYMJZ_SLOW") != ""

var solverTimeout = 10 * time.Second

func (m *Machine) qcache() map[string]qres {
	if m.tb.qc == nil {
		m.tb.qc = map[string]qres{}
	}
	return m.tb.qc
}

// doAssert is the property: PC and not c must be unsatisfiable.
func (m *Machine) doAssert(w W, msg string) {
	atomic.AddInt64(&m.ex.asserts, 1)
	ps := m.path
	if ps == nil {
		if w.t == nil && w.u == 0 {
			panic(&goPanic{msg: "assertion failed during setup: " + msg})
		}
		return
	}
	ps.asserts++
	if w.t == nil {
		if w.u == 0 {
			m.violation("assert", msg, ps.model, nil)
			panic(pathEnd{"violation"})
		}
		return
	}
	c := m.toTerm(w, 0)
	atomic.AddInt64(&m.ex.assertQ, 1)
	// when replaying a prefix the assertion was already decided by the path
	// that created it: its path condition here is the same conjunction.
	if ps.pos < len(ps.prefix) {
		m.assume(c)
		return
	}
	// a conjunction holds when each part does: parts over the same variables are
	// decided together, the others one by one
	var order []string
	groups := map[string]*Term{}
	for _, x := range conjuncts(c) {
		var k strings.Builder
		for _, v := range varsOf(x) {
			fmt.Fprintf(&k, "%d,", v)
		}
		g, ok := groups[k.String()]
		if !ok {
			g = m.tb.tt
			order = append(order, k.String())
		}
		groups[k.String()] = m.tb.And(g, x)
	}
	if len(order) == 1 {
		groups[order[0]] = c
	}
	bad := false
	for _, k := range order {
		n := m.tb.BNot(groups[k])
		r, model := m.feasible(n)
		if r == Sat {
			bad = true
			m.violation("assert", msg, model, n)
			break
		}
		if r == Unknown {
			bad = true
			atomic.AddInt64(&m.ex.unknown, 1)
		}
	}
	if bad {
		r, model := m.feasible(c)
		if r == Unsat {
			panic(pathEnd{"violation"})
		}
		if r == Sat {
			ps.model = model
		}
	}
	m.assume(c)
}

func (m *Machine) doAssume(w W) {
	ps := m.path
	if w.t == nil {
		if w.u == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	c := m.toTerm(w, 0)
	if ps.pos < len(ps.prefix) {
		m.assume(c)
		return
	}
	if v, ok := m.tb.Eval(c, ps.model); !ok || v == 0 {
		r, model := m.feasible(c)
		if r != Sat {
			if r == Unknown {
				atomic.AddInt64(&m.ex.unknown, 1)
			}
			panic(pathEnd{"assume"})
		}
		ps.model = model
	}
	m.assume(c)
}

func (m *Machine) concreteInputs(model []uint64) []uint64 {
	ps := m.path
	r := make([]uint64, len(ps.inputs))
	for i, in := range ps.inputs {
		if in.v != nil {
			r[i] = model[in.v.k]
		} else {
			r[i] = in.val
		}
	}
	return r
}

// holds evaluates the path condition and extra under the model, with the real
// functions in place of the uninterpreted ones.
func (m *Machine) holds(model []uint64, extra *Term) bool {
	for _, c := range m.path.others {
		if v, ok := m.tb.Eval(c, model); !ok || v == 0 {
			return false
		}
	}
	if extra != nil {
		if v, ok := m.tb.Eval(extra, model); !ok || v == 0 {
			return false
		}
	}
	return true
}

func (m *Machine) rnd() uint64 {
	m.rng ^= m.rng << 13
	m.rng ^= m.rng >> 7
	m.rng ^= m.rng << 17
	return m.rng
}

// realModel looks for a model that also holds for the real functions.
func (m *Machine) realModel(model []uint64, extra *Term, tries int) ([]uint64, bool) {
	if m.holds(model, extra) {
		return model, true
	}
	ps := m.path
	m.rng = uint64(len(ps.taken))*0x9E3779B97F4A7C15 + 88172645463325252
	for t := 0; t < tries; t++ {
		c := append([]uint64(nil), model...)
		for i, v := range ps.vars {
			if v.w > 8 || t%3 == 1 && m.rnd()%4 != 0 {
				continue
			}
			d := ps.doms[i]
			if n := d.count(); n > 1 {
				k := int(m.rnd() % uint64(n))
				for x := uint64(0); x < 256; x++ {
					if d.has(x) {
						if k == 0 {
							c[i] = x
							break
						}
						k--
					}
				}
			}
		}
		if len(ps.floats) > 0 {
			c = m.floatModel(c, rand.New(rand.NewSource(int64(m.rnd()))))
		}
		if m.holds(c, extra) {
			return c, true
		}
	}
	return model, false
}

func (m *Machine) violation(kind, msg string, model []uint64, extra *Term) {
	model, real := m.realModel(model, extra, 2000)
	v := Violation{Inputs: m.concreteInputs(model), Msg: msg, Kind: kind}
	ex := m.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := kind + "|" + msg
	if !real {
		k = "?" + k
	} else {
		ex.violPaths++
	}
	ex.violKeys[k]++
	if ex.violKeys[k] <= 6 && len(ex.viols) < 60 {
		ex.viols = append(ex.viols, v)
	}
	if int(ex.violPaths) >= ex.wantCap {
		if len(ex.stack) > 0 {
			ex.dropped += int64(len(ex.stack))
		}
		ex.stack = nil
		ex.stop = true
		ex.cond.Broadcast()
	}
}

// ---- running paths ----

func (m *Machine) resetPath(w WorkItem) {
	m.revert()
	m.path = &PathState{prefix: w.prefix, model: append([]uint64(nil), w.model...)}
	m.steps = 0
	m.depth = 0
	m.sp = 0
	m.curFn = m.curFn[:0]
	m.panics = m.panics[:0]
	m.region = false
	m.par = nil
	m.resetPools()
	for k := range m.locks {
		delete(m.locks, k)
	}
}

func (m *Machine) runPath(fn *ssa.Function, w WorkItem) {
	ex := m.ex
	m.resetPath(w)
	status := "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					status = x.why
				case unsupported:
					status = "unsup"
					ex.mu.Lock()
					ex.unsup[x.msg]++
					ex.mu.Unlock()
				case budgetEnd:
					status = "budget"
					m.region = false
					ex.mu.Lock()
					ex.budget[strings.SplitN(x.what, " ", 2)[0]]++
					ex.mu.Unlock()
					m.violation("budget", "path exceeded the "+x.what+" bound", m.path.model, nil)
				case *goPanic:
					status = "panic"
					kind := "panic"
					if strings.HasPrefix(x.msg, "MEMORY") {
						kind = "memory"
					}
					m.violation(kind, x.msg, m.path.model, nil)
				case raceEnd:
					status = "race"
					m.violation("race", x.msg, m.path.model, nil)
				case regionAbort:
					status = "unsup"
					ex.mu.Lock()
					ex.unsup["stray region abort"]++
					ex.mu.Unlock()
				default:
					status = "unsup"
					ex.mu.Lock()
					ex.unsup[fmt.Sprintf("engine: %v%s", r, m.where())]++
					n := ex.unsup[fmt.Sprintf("engine: %v%s", r, m.where())]
					ex.mu.Unlock()
					if n == 1 {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
					}
				}
			}
		}()
		code := m.codeOf(fn)
		m.call(code, nil, nil)
	}()
	m.region = false
	var smp *Sample
	if status == "ok" {
		n := atomic.AddInt64(&ex.okPaths, 1)
		if ex.sampleEvery > 0 && (n%ex.sampleEvery == 1 || ex.sampleEvery == 1) {
			smp = m.sample()
		}
	}
	ex.mu.Lock()
	ex.paths++
	ex.stepsTot += m.steps
	if m.steps > ex.maxSteps {
		ex.maxSteps = m.steps
	}
	if status == "assume" || status == "infeasible" {
		ex.assumeEnds++
	}
	if status == "ok" || status == "violation" {
		for k := range m.cover {
			ex.cover[k]++
		}
	}
	if smp != nil && len(ex.samples) < 400 {
		ex.samples = append(ex.samples, *smp)
	}
	ex.mu.Unlock()
	for k := range m.cover {
		delete(m.cover, k)
	}
	if m.tb.nid > 1_500_000 {
		m.tb = newTB()
		if m.solver != nil {
			m.solver.restart()
		}
	}
}

func (m *Machine) sample() *Sample {
	uf := false
	for _, c := range m.path.others {
		uf = uf || c.uf
	}
	if uf {
		mo, ok := m.realModel(m.path.model, nil, 30)
		if !ok {
			return nil
		}
		m.path.model = mo
	} else {
		m.spread()
	}
	s := &Sample{Inputs: m.concreteInputs(m.path.model)}
	for _, o := range m.path.obs {
		var sb strings.Builder
		sb.WriteString(o.tag + "=")
		for i, w := range o.ws {
			if i > 0 {
				sb.WriteByte(',')
			}
			v := w.u
			if w.t != nil {
				var ok bool
				v, ok = m.tb.Eval(w.t, m.path.model)
				if !ok {
					sb.Reset()
					sb.WriteString(o.tag + "=?")
					break
				}
			}
			fmt.Fprintf(&sb, "%d", v)
		}
		s.Obs = append(s.Obs, sb.String())
	}
	return s
}

// spread varies the values of the inputs that only their domain constrains.
func (m *Machine) spread() {
	ps := m.path
	m.rng = uint64(len(ps.taken))*0x9E3779B97F4A7C15 + 88172645463325252
	for _, d := range ps.taken {
		m.rng = (m.rng ^ uint64(d.k) ^ d.v) * 0x100000001b3
	}
	m.rng |= 1
	for i, v := range ps.vars {
		if v.w > 8 || ps.ent[i] {
			continue
		}
		d := ps.doms[i]
		n := d.count()
		if n < 2 {
			continue
		}
		k := int(m.rnd() % uint64(n))
		for x := uint64(0); x < 256; x++ {
			if d.has(x) {
				if k == 0 {
					ps.model[i] = x
					break
				}
				k--
			}
		}
	}
}
