package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	H     string           `json:"h"`
	P     map[string]int64 `json:"p"`
	Time  float64          `json:"time"`  // seconds
	Paths int64            `json:"paths"` // 0: no limit
	Cover []string         `json:"cover"` // tags that must be reached
	Steps int64            `json:"steps"`
	Depth int              `json:"depth"`
	Note  string           `json:"note"`
}

type PropJobs struct {
	Quick    []Job    `json:"quick"`
	Thorough []Job    `json:"thorough"`
	Bounds   string   `json:"bounds"`
	Outside  string   `json:"outside"`
	Assume   []string `json:"assume"`
}

type JobResult struct {
	Harness     string           `json:"harness"`
	Params      map[string]int64 `json:"params"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"paths_completed"`
	Pruned      int64            `json:"paths_ended_by_assumption"`
	Asserts     int64            `json:"assertions_reached"`
	AssertQ     int64            `json:"assertions_decided_symbolically"`
	Queries     int64            `json:"solver_queries"`
	CacheHits   int64            `json:"solver_query_cache_hits"`
	SolverS     float64          `json:"solver_s"`
	Ledger      int64            `json:"byte_domain_refutations"`
	LedgerU     int              `json:"byte_domain_refutations_distinct"`
	LedgerOK    bool             `json:"byte_domain_refutations_confirmed_unsat"`
	Unknown     int64            `json:"unknown"`
	Unsup       map[string]int64 `json:"unsupported,omitempty"`
	Budget      map[string]int64 `json:"over_budget,omitempty"`
	Dropped     int64            `json:"paths_dropped"`
	TimedOut    bool             `json:"timed_out"`
	Complete    bool             `json:"complete"`
	Cover       map[string]int64 `json:"reached,omitempty"`
	Missing     []string         `json:"not_reached,omitempty"`
	Samples     int              `json:"native_replays"`
	Mismatch    int              `json:"native_mismatches"`
	Unconfirmed int              `json:"unconfirmed_counterexamples"`
	Viol        int              `json:"violations"`
	Known       int              `json:"known"`
	WallS       float64          `json:"wall_s"`
	MaxSteps    int64            `json:"longest_path_instructions"`
	Steps       int64            `json:"instructions_executed"`
}

type Engine struct {
	p       *Prog
	ex      *Explorer
	ms      []*Machine
	nat     *Native
	natErr  error
	natWait chan struct{}
	setups  map[string]bool
	verbose bool
	skipped int
	// of schedules
	harness, scratch string
	sched, race      *Native
	schedErr         error
	schedDone        bool
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "GOENV", "GOWORK", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "PATH", "GO111MODULE", "GOPATH", "GOMODCACHE", "CGO_ENABLED", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	gobin := os.Getenv("SYMJZ_GO")
	if gobin == "" {
		gobin = "/opt/veriftools/go1.23.12/bin"
	}
	return append(env, "PATH="+gobin+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=0")
}

func (e *Engine) fn(name string) *ssa.Function { return e.p.byPath["vharness/h"].Func(name) }

func (e *Engine) run(j Job) (*JobResult, []Violation) {
	t0 := time.Now()
	f := e.fn(j.H)
	if f == nil {
		fatalf("no harness %s", j.H)
	}
	ex := e.ex
	ex.resetJob()
	ex.maxPaths = j.Paths
	ex.sampleEvery = 1
	if j.Time > 0 {
		ex.deadline = time.Now().Add(time.Duration(j.Time * float64(time.Second)))
	} else {
		ex.deadline = time.Time{}
	}
	s := e.fn("S_" + strings.TrimPrefix(j.H, "H_"))
	if s != nil {
		e.prepare(s, j)
	}
	var q0, qt0 int64
	for _, m := range e.ms {
		if m.solver != nil {
			q0 += m.solver.queries
			qt0 += int64(m.solver.time)
		}
	}
	ch0 := atomic.LoadInt64(&queryCacheHits)
	ex.pushWork(WorkItem{})
	var wg sync.WaitGroup
	for _, m := range e.ms {
		m := m
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.params = j.P
			m.maxStep = 5_000_000
			if j.Steps > 0 {
				m.maxStep = j.Steps
			}
			m.maxDepth = 1200
			if j.Depth > 0 {
				m.maxDepth = j.Depth
			}
			for {
				w, ok := ex.take()
				if !ok {
					return
				}
				m.runPath(f, w)
				ex.done()
			}
		}()
	}
	wg.Wait()
	r := &JobResult{Harness: j.H, Params: j.P, Paths: ex.paths, Completed: ex.okPaths, Pruned: ex.assumeEnds,
		Asserts: ex.asserts, AssertQ: ex.assertQ, Unknown: ex.unknown, Dropped: ex.dropped, TimedOut: ex.timedOut,
		Cover: ex.cover, Ledger: ex.ledgerN, LedgerU: len(ex.ledger), MaxSteps: ex.maxSteps, Steps: ex.stepsTot}
	if len(ex.unsup) > 0 {
		r.Unsup = ex.unsup
	}
	if len(ex.budget) > 0 {
		r.Budget = ex.budget
	}
	r.LedgerOK = e.verifyLedger()
	var q1, qt1 int64
	for _, m := range e.ms {
		if m.solver != nil {
			q1 += m.solver.queries
			qt1 += int64(m.solver.time)
		}
	}
	r.Queries = q1 - q0
	r.SolverS = float64(qt1-qt0) / 1e9
	r.CacheHits = atomic.LoadInt64(&queryCacheHits) - ch0
	for _, c := range j.Cover {
		if ex.cover[c] == 0 {
			r.Missing = append(r.Missing, c)
		}
	}
	// replay
	viols := e.replay(j, r)
	r.Viol = len(viols)
	r.Complete = r.Unknown == 0 && r.Dropped == 0 && len(r.Unsup) == 0 && len(r.Budget) == 0 && r.LedgerOK && len(r.Missing) == 0
	r.WallS = time.Since(t0).Seconds()
	return r, viols
}

// prepare runs the harness's setup function on every machine. A machine on which it
// fails is started afresh: the harness then meets the failure itself, if it is one.
func (e *Engine) prepare(s *ssa.Function, j Job) {
	var wg sync.WaitGroup
	for i, m := range e.ms {
		if m.didSetup[j.H] {
			continue
		}
		i, m := i, m
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.params = j.P
			m.didSetup[j.H] = true
			msg := m.setup(s)
			if msg == "" {
				return
			}
			if i == 0 {
				fmt.Fprintf(os.Stderr, "engine: setup of %s: %s\n", j.H, msg)
			}
			n := newMachine(e.p, e.ex)
			n.boot()
			n.didSetup = m.didSetup
			for f, c := range m.funcHit {
				n.funcHit[f] += c
			}
			if m.solver != nil {
				m.solver.stop()
			}
			e.ms[i] = n
		}()
	}
	wg.Wait()
}

func (e *Engine) verifyLedger() bool {
	ex := e.ex
	if len(ex.ledger) == 0 {
		return true
	}
	m := e.ms[0]
	if m.solver == nil {
		m.solver = newSolver(solverTimeout)
	}
	keys := make([]ledgerKey, 0, len(ex.ledger))
	for k := range ex.ledger {
		keys = append(keys, k)
	}
	ok := true
	for len(keys) > 0 {
		n := len(keys)
		if n > 400 {
			n = 400
		}
		var sb strings.Builder
		sb.WriteString("(declare-const x (_ BitVec 8))\n(assert (or false")
		for _, k := range keys[:n] {
			sb.WriteString(" (and " + setExpr("x", 8, k.dom) + " " + setExpr("x", 8, k.set) + ")")
		}
		sb.WriteString("))\n")
		if m.solver.raw(sb.String()) != Unsat {
			ok = false
		}
		keys = keys[n:]
	}
	return ok
}

// raced runs the harness with the race detector.
func (e *Engine) raced(q nreq) nans {
	if e.race == nil {
		n, err := buildRace(e.harness, filepath.Join(e.scratch, "race"), goEnv())
		if err != nil {
			fmt.Printf("NOTE no race detector: %v\n", err)
			return nans{Status: "error", Msg: "no race detector"}
		}
		e.race = n
	}
	return e.race.one(q, 60*time.Second)
}

func (e *Engine) replay(j Job, r *JobResult) []Violation {
	<-e.natWait
	ex := e.ex
	var out []Violation
	if e.natErr != nil {
		fatalf("native build: %v", e.natErr)
	}
	nat := e.nat
	par := strings.HasPrefix(j.H, "H_par")
	if par {
		if !e.schedDone {
			e.schedDone = true
			e.sched, e.schedErr = buildSched(e.harness, filepath.Join(e.scratch, "sched"), goEnv(), "/repo")
			if e.schedErr != nil {
				fmt.Printf("NOTE no replay of schedules: %v\n", e.schedErr)
			}
		}
		if e.sched == nil {
			r.Unsup = map[string]int64{"schedules cannot be replayed against the real code": 1}
			return nil
		}
		nat = e.sched
	}
	confirmed := map[string]int{}
	for _, v := range ex.viols {
		v.Harness, v.Params = j.H, j.P
		k := v.Kind + "|" + v.Msg
		if confirmed[k] > 0 {
			continue
		}
		var a nans
		if v.Kind == "race" {
			if confirmed["race"] > 3 {
				continue
			}
			if a = e.raced(nreq{j.H, j.P, v.Inputs}); a.Status == "crash" {
				confirmed["race"]++
				a.Msg = v.Msg + " (race detector: " + a.Msg + ")"
			}
		} else {
			a = nat.one(nreq{j.H, j.P, v.Inputs}, 20*time.Second)
		}
		switch a.Status {
		case "assert", "panic", "crash", "hang":
			confirmed[k]++
			v.native = a.Status + ": " + a.Msg
			v.Obs = a.Obs
			if a.Status == "assert" {
				v.Msg = a.Msg
			} else {
				v.Msg = a.Status + ": " + head(a.Msg, 300)
			}
			out = append(out, v)
		default:
			r.Unconfirmed++
			fmt.Printf("NOTE unconfirmed counterexample in %s %v: %s %s (native: %s %s) inputs=%v obs=%v\n", j.H, j.P, v.Kind, v.Msg, a.Status, a.Msg, v.Inputs, a.Obs)
		}
	}
	// validation samples
	var rs []nreq
	for _, s := range ex.samples {
		rs = append(rs, nreq{j.H, j.P, s.Inputs})
	}
	if len(rs) > 0 {
		var as []nans
		ok := false
		if !par {
			as, ok = nat.many(rs, 60*time.Second)
		}
		if !ok {
			rs = rs[:min(len(rs), 60)]
			as = make([]nans, len(rs))
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			for i, q := range rs {
				i, q := i, q
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					as[i] = nat.one(q, 20*time.Second)
					<-sem
				}()
			}
			wg.Wait()
		}
		seen := map[string]bool{}
		for i, a := range as {
			r.Samples++
			s := ex.samples[i]
			switch a.Status {
			case "assert", "panic", "crash", "hang":
				if !seen[a.Status+a.Msg] && len(out) < 20 {
					seen[a.Status+a.Msg] = true
					msg := a.Msg
					if a.Status != "assert" {
						msg = a.Status + ": " + head(a.Msg, 300)
					}
					out = append(out, Violation{Harness: j.H, Params: j.P, Inputs: s.Inputs, Kind: "sample", Msg: msg, native: a.Status, Obs: a.Obs})
				}
				r.Mismatch++
			case "ok":
				if !sameObs(s.Obs, a.Obs) {
					r.Mismatch++
					if r.Mismatch <= 3 {
						fmt.Printf("NOTE mismatch in %s %v inputs=%v\n  engine: %v\n  native: %v\n", j.H, j.P, s.Inputs, s.Obs, a.Obs)
					}
				}
			default:
				r.Mismatch++
				fmt.Printf("NOTE native replay of a sample of %s ended with %s %s\n", j.H, a.Status, a.Msg)
			}
		}
	}
	return out
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if strings.HasSuffix(a[i], "=?") {
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fallback tries other solvers and encodings on a query the main one gave up on.
func (m *Machine) fallback(cs []*Term, vars []*Term) (SatRes, []uint64) {
	s := &Solver{defined: map[int32]bool{}, ufs: map[string]bool{}, varDone: map[string]bool{}}
	var refs []string
	for _, c := range cs {
		refs = append(refs, s.ref(c))
	}
	for _, v := range vars {
		s.ref(v)
	}
	for _, r := range refs {
		s.buf.WriteString("(assert " + r + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		s.buf.WriteString("(get-value (")
		for _, v := range vars {
			s.buf.WriteString(varName(v) + " ")
		}
		s.buf.WriteString("))\n")
	}
	txt := "(set-option :produce-models true)\n(set-logic ALL)\n" + s.buf.String()
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	type res struct {
		r    SatRes
		vals []uint64
	}
	cmds := [][]string{{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum"}, {"cvc5", "--lang=smt2"}}
	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- res{Unsat, nil}
			case strings.HasPrefix(o, "sat"):
				vals := make([]uint64, len(vars))
				if parseValues(o[3:], vals) {
					ch <- res{Sat, vals}
				} else {
					ch <- res{Unknown, nil}
				}
			default:
				ch <- res{Unknown, nil}
			}
		}()
	}
	atomic.AddInt64(&fallbacks, 1)
	for range cmds {
		if r := <-ch; r.r != Unknown {
			return r.r, r.vals
		}
	}
	return Unknown, nil
}

var fallbacks int64

func newEngine(harness, scratch string, workers int) *Engine {
	env := goEnv()
	for _, kv := range env {
		if i := strings.IndexByte(kv, '='); i > 0 {
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
	e := &Engine{setups: map[string]bool{}, natWait: make(chan struct{}), harness: harness, scratch: scratch}
	go func() {
		e.nat, e.natErr = buildNative(harness, filepath.Join(scratch, "replay"), env)
		close(e.natWait)
	}()
	e.p = load(harness, env)
	e.ex = newExplorer()
	e.ms = make([]*Machine, workers)
	var wg sync.WaitGroup
	for i := range e.ms {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newMachine(e.p, e.ex)
			m.boot()
			e.ms[i] = m
		}()
	}
	wg.Wait()
	return e
}

func (e *Engine) close() {
	for _, m := range e.ms {
		if m.solver != nil {
			m.solver.stop()
		}
	}
}

func (e *Engine) functions() (all []string, repo []string) {
	seen := map[string]bool{}
	for _, m := range e.ms {
		for f, n := range m.funcHit {
			if n == 0 || f.Pkg == nil && f.Object() == nil {
				continue
			}
			s := f.String()
			if seen[s] {
				continue
			}
			seen[s] = true
			if strings.Contains(s, "vharness") {
				continue
			}
			if strings.Contains(s, "zerosnake0/jzon") {
				repo = append(repo, strings.ReplaceAll(s, "github.com/zerosnake0/jzon", "jzon"))
			} else {
				all = append(all, s)
			}
		}
	}
	sort.Strings(all)
	sort.Strings(repo)
	return
}

// replayFile runs one counterexample against the compiled code of /repo.
func replayFile(f, harness, scratch string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatalf("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatalf("%v", err)
	}
	var nat *Native
	switch out := filepath.Join(scratch, "replay"); {
	case v.Kind == "race":
		nat, err = buildRace(harness, out, goEnv())
	case strings.HasPrefix(v.Harness, "H_par"):
		nat, err = buildSched(harness, out, goEnv(), "/repo")
	default:
		nat, err = buildNative(harness, out, goEnv())
	}
	if err != nil {
		fatalf("%v", err)
	}
	a := nat.one(nreq{v.Harness, v.Params, v.Inputs}, 60*time.Second)
	js, _ := json.Marshal(a)
	fmt.Printf("%s\n", js)
	if a.Status == "ok" {
		return 0
	}
	return 1
}

func main() {
	runtime.GOMAXPROCS(runtime.NumCPU())
	debug.SetGCPercent(400)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "verification directory")
	run := flag.String("run", "", "run one harness")
	ps := flag.String("p", "", "parameters k=v,k=v")
	tm := flag.Float64("time", 60, "time limit of -run, seconds")
	workers := flag.Int("j", 8, "workers")
	prof := flag.String("prof", "", "cpu profile")
	cover := flag.String("cover", "", "required cover tags for -run")
	rep := flag.String("replay", "", "replay the counterexample in a file against the compiled code")
	flag.Parse()
	start := time.Now()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	scratch, err := os.MkdirTemp("", "symjz")
	if err != nil {
		fatalf("%v", err)
	}
	code := 0
	defer func() {
		os.RemoveAll(scratch)
		if code != 0 {
			pprof.StopCPUProfile()
			os.Exit(code)
		}
	}()
	if *rep != "" {
		code = replayFile(*rep, filepath.Join(*root, "harness"), scratch)
		return
	}
	e := newEngine(filepath.Join(*root, "harness"), scratch, *workers)
	defer e.close()
	bootS := time.Since(start).Seconds()
	if *run != "" {
		j := Job{H: *run, P: map[string]int64{}, Time: *tm}
		for _, kv := range strings.Split(*ps, ",") {
			if i := strings.IndexByte(kv, '='); i > 0 {
				v, _ := strconv.ParseInt(kv[i+1:], 10, 64)
				j.P[kv[:i]] = v
			}
		}
		if *cover != "" {
			j.Cover = strings.Split(*cover, ",")
		}
		r, vs := e.run(j)
		js, _ := json.MarshalIndent(r, "", " ")
		fmt.Printf("boot %.2fs fallbacks %d\n%s\n", bootS, fallbacks, js)
		for _, v := range vs {
			fmt.Printf("VIOL %s %s | %s | %v | %v\n", v.Kind, v.Msg, v.native, v.Obs, v.Inputs)
		}
		return
	}
	code = check(e, *root, *prop, *tier, start)
}
