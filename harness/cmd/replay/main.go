// replay runs harnesses natively on recorded inputs: one JSON request per line
// on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"vharness/vrt"
)

type req struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []uint64         `json:"inputs"`
}

type ans struct {
	Status string   `json:"status"` // ok, assert, assume, panic, ...
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

var setupDone = map[string]bool{}

func run(r req) (a ans) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(vrt.Failure); ok {
				a = ans{Status: f.Kind, Msg: f.Msg}
			} else {
				a = ans{Status: "panic", Msg: fmt.Sprint(x)}
				if os.Getenv("REPLAY_STACK") != "" {
					a.Msg += "\n" + string(debug.Stack())
				}
			}
		}
		a.Obs = vrt.Obs
	}()
	f := harnesses[r.Harness]
	if f == nil {
		return ans{Status: "missing", Msg: r.Harness}
	}
	vrt.Reset(r.Inputs, r.Params)
	if s := setups[r.Harness]; s != nil && !setupDone[r.Harness] {
		setupDone[r.Harness] = true
		func() {
			defer func() { recover() }() // the harness meets the failure itself
			s()
		}()
	}
	f()
	return ans{Status: "ok"}
}

func main() {
	debug.SetMaxStack(64 << 20)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var r req
		if err := json.Unmarshal(in.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		n := 1
		if t, err := strconv.Atoi(os.Getenv("REPLAY_TIMES")); err == nil {
			n = t
		}
		var a ans
		for i := 0; i < n; i++ {
			if a = run(r); a.Status != "ok" {
				break
			}
		}
		out.Encode(a)
	}
}
