package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // exact assertion message
	What     string `json:"what"`
}

// known-findings.txt holds "fixed: ..." lines (which suppress nothing) and
// "finding: {json}" lines.
func loadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var fs []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: ") {
			var f Finding
			if json.Unmarshal([]byte(l[9:]), &f) == nil {
				fs = append(fs, f)
			}
		}
	}
	return fs
}

func check(e *Engine, root, prop, tier string, start time.Time) int {
	b, err := os.ReadFile(filepath.Join(root, "jobs.json"))
	if err != nil {
		fatalf("%v", err)
	}
	var all map[string]*PropJobs
	if err := json.Unmarshal(b, &all); err != nil {
		fatalf("jobs.json: %v", err)
	}
	pj := all[prop]
	if pj == nil {
		fatalf("no jobs for %s", prop)
	}
	jobs := pj.Quick
	if tier == "thorough" {
		if len(pj.Thorough) > 0 {
			jobs = append(append([]Job(nil), pj.Quick...), pj.Thorough...)
		}
		for i := range jobs {
			jobs[i].Time *= 3
		}
	}
	finds := loadFindings(filepath.Join(root, "known-findings.txt"))
	var results []*JobResult
	var viols []Violation
	known := map[string]bool{}
	limit := 480.0
	if tier == "thorough" {
		limit = 6 * 3600
	}
	skipped := 0
	for _, j := range jobs {
		if time.Since(start).Seconds() > limit {
			skipped++
			continue
		}
		r, vs := e.run(j)
		for _, v := range vs {
			kf := false
			for _, f := range finds {
				if f.Property == prop && f.Harness == v.Harness && f.Match == v.Msg {
					kf = true
					if !known[f.What] {
						known[f.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
					}
				}
			}
			if kf {
				r.Known++
			} else {
				viols = append(viols, v)
			}
		}
		results = append(results, r)
		st := "complete"
		if !r.Complete {
			st = "REDUCED"
		}
		fmt.Printf("%s %s %v paths=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs replays=%d %s", prop, j.H, j.P, r.Paths, r.Asserts, r.Queries, r.SolverS, r.WallS, r.Samples, st)
		if !r.Complete {
			fmt.Printf(" unknown=%d dropped=%d unsup=%v budget=%v missing=%v ledger=%v", r.Unknown, r.Dropped, r.Unsup, r.Budget, r.Missing, r.LedgerOK)
		}
		if r.Mismatch > 0 || r.Unconfirmed > 0 {
			fmt.Printf(" MISMATCH=%d UNCONFIRMED=%d", r.Mismatch, r.Unconfirmed)
		}
		fmt.Println()
		if len(viols) >= 10 {
			break
		}
	}
	if skipped > 0 {
		fmt.Printf("%s REDUCED: %d jobs skipped after %.0f s\n", prop, skipped, limit)
	}
	e.skipped = skipped
	code := 0
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	for i, v := range viols {
		code = 1
		path := filepath.Join(evdir, fmt.Sprintf("%s.violation.%d.json", prop, i))
		js, _ := json.MarshalIndent(map[string]interface{}{
			"property": prop, "harness": v.Harness, "params": v.Params, "inputs": v.Inputs, "kind": v.Kind,
			"message": v.Msg, "native": v.native, "observed": readable(v.Obs),
			"replay": fmt.Sprintf("bash %s/replay.sh %s", root, path),
		}, "", " ")
		os.WriteFile(path, append(js, '\n'), 0o644)
		fmt.Printf("  %s %v: %s [%s]\n", v.Harness, v.Params, v.Msg, strings.Join(readable(v.Obs), " "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		if i >= 9 {
			break
		}
	}
	writeEvidence(e, evdir, prop, tier, pj, results, viols, start)
	return code
}

// readable renders observations of byte strings as text.
func readable(obs []string) []string {
	var r []string
	for _, o := range obs {
		i := strings.IndexByte(o, '=')
		parts := strings.Split(o[i+1:], ",")
		b := []byte{}
		ok := len(parts) > 1
		for _, p := range parts {
			n, err := strconv.Atoi(p)
			if err != nil || n < 0 || n > 255 {
				ok = false
				break
			}
			b = append(b, byte(n))
		}
		if ok {
			r = append(r, o[:i]+"="+strconv.Quote(string(b)))
		} else {
			r = append(r, o)
		}
	}
	return r
}

func writeEvidence(e *Engine, dir, prop, tier string, pj *PropJobs, rs []*JobResult, viols []Violation, start time.Time) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	std, repo := e.functions()
	var paths, compl, asserts, assertq, queries, cache, ledger, samples, unknown, dropped, mism, unconf int64
	var ledgerU int
	var solver float64
	done := 0
	for _, r := range rs {
		paths += r.Paths
		compl += r.Completed
		asserts += r.Asserts
		assertq += r.AssertQ
		queries += r.Queries
		cache += r.CacheHits
		ledger += r.Ledger
		ledgerU += r.LedgerU
		samples += int64(r.Samples)
		unknown += r.Unknown
		dropped += r.Dropped
		mism += int64(r.Mismatch)
		unconf += int64(r.Unconfirmed)
		solver += r.SolverS
		if r.Complete {
			done++
		}
	}
	smp := []string{}
	for i, s := range e.ex.samples {
		if i%40 == 0 && len(smp) < 8 {
			smp = append(smp, strings.Join(readable(s.Obs), " "))
		}
	}
	expl := fmt.Sprintf("Bounded symbolic execution of the real code: the SSA of /repo (and of the standard library it calls) is regenerated from source and executed with symbolic inputs; %d paths cover the input space of %d jobs (%d of them exhaustively within their bounds), %d assertions were reached, %d branch/assertion queries were decided by z3 (%.1f s), %d further byte-domain refutations were confirmed unsat in batches. %d path models were replayed against the natively compiled code.",
		paths, len(rs), done, asserts, queries, solver, ledgerU, samples)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":                     expl,
			"exhaustive":                      done == len(rs) && e.skipped == 0,
			"jobs_skipped":                    e.skipped,
			"bounds":                          pj.Bounds,
			"outside_the_bounds":              pj.Outside,
			"paths":                           paths,
			"paths_completed":                 compl,
			"assertions_reached":              asserts,
			"assertions_decided_symbolically": assertq,
			"solver":                          e.ms[0].solverName(),
			"solver_queries":                  queries,
			"solver_query_cache_hits":         cache,
			"solver_s":                        solver,
			"fallback_queries":                fallbacks,
			"byte_domain_refutations":         ledger,
			"native_replays":                  samples,
			"native_mismatches":               mism,
			"unconfirmed_counterexamples":     unconf,
			"unknown":                         unknown,
			"dropped_paths":                   dropped,
			"functions_encoded":               repo,
			"functions_encoded_count":         len(repo),
			"library_functions_encoded":       std,
			"jobs":                            groupJobs(rs),
			"samples":                         smp,
		},
		"assumptions": append([]string{
			"go/ssa's translation of the source and the engine's interpretation of it (validated on every run by replaying path models against the compiled code)",
			"amd64, Go 1.23 standard library semantics; sync, reflect type queries, runtime map/alloc entry points, strconv float conversion and fmt are modelled, not executed",
		}, pj.Assume...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viols),
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("evidence: %v", err)
	}
	os.WriteFile(filepath.Join(dir, prop+".json"), append(js, '\n'), 0o644)
}

func (m *Machine) solverName() string {
	return filepath.Base(solverBin()) + " (fallback: cvc5)"
}

// groupJobs sums the results per harness (the evidence file stays small); jobs
// that were not exhaustive are listed one by one.
func groupJobs(rs []*JobResult) []map[string]interface{} {
	var order []string
	by := map[string][]*JobResult{}
	for _, r := range rs {
		if by[r.Harness] == nil {
			order = append(order, r.Harness)
		}
		by[r.Harness] = append(by[r.Harness], r)
	}
	var out []map[string]interface{}
	for _, h := range order {
		var paths, compl, pruned, asserts, assertq, queries, ledger, samples, steps, maxs int64
		var solver, wall float64
		vals := map[string]map[int64]bool{}
		reached := map[string]int64{}
		done := 0
		var open []*JobResult
		nopen := 0
		for _, r := range by[h] {
			paths += r.Paths
			compl += r.Completed
			pruned += r.Pruned
			asserts += r.Asserts
			assertq += r.AssertQ
			queries += r.Queries
			ledger += r.Ledger
			samples += int64(r.Samples)
			steps += r.Steps
			maxs = max(maxs, r.MaxSteps)
			solver += r.SolverS
			wall += r.WallS
			for k, v := range r.Params {
				if vals[k] == nil {
					vals[k] = map[int64]bool{}
				}
				vals[k][v] = true
			}
			for k, v := range r.Cover {
				reached[k] += v
			}
			if r.Complete {
				done++
			} else if nopen++; nopen <= 20 {
				open = append(open, r)
			}
		}
		ps := map[string][]int64{}
		for k, vs := range vals {
			for v := range vs {
				ps[k] = append(ps[k], v)
			}
			sort.Slice(ps[k], func(i, j int) bool { return ps[k][i] < ps[k][j] })
		}
		g := map[string]interface{}{"harness": h, "jobs": len(by[h]), "jobs_exhaustive": done, "parameter_values": ps,
			"paths": paths, "paths_completed": compl, "paths_ended_by_assumption": pruned, "assertions_reached": asserts,
			"assertions_decided_symbolically": assertq, "solver_queries": queries, "solver_s": solver, "byte_domain_refutations": ledger,
			"native_replays": samples, "instructions_executed": steps, "longest_path_instructions": maxs, "wall_s": wall, "reached": reached}
		if len(open) > 0 {
			g["not_exhaustive"] = open
		}
		out = append(out, g)
	}
	return out
}
