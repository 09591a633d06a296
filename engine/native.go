package main

// Native replay of harness runs against the real, compiled code.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type nreq struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []uint64         `json:"inputs"`
}

type nans struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type Native struct {
	bin string
	env []string
}

func buildNative(dir, out string, env []string) (*Native, error) {
	c := exec.Command("go", "build", "-o", out, "./cmd/replay")
	c.Dir = dir
	c.Env = env
	b, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, b)
	}
	return &Native{bin: out}, nil
}

// buildSched builds the replay program with the stand-ins for sync and
// sync/atomic in place of those packages in the code under test.
func buildSched(dir, out string, env []string, repo string) (*Native, error) {
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	repl := map[string]string{}
	for i, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			return nil, err
		}
		type edit struct {
			beg, end int
			txt      string
		}
		var eds []edit
		for _, im := range af.Imports {
			name := ""
			var to string
			switch im.Path.Value {
			case `"sync"`:
				name, to = "sync", `"vharness/shim/vsync"`
			case `"sync/atomic"`:
				name, to = "atomic", `"vharness/shim/vatomic"`
			default:
				continue
			}
			if im.Name != nil {
				name = ""
			}
			eds = append(eds, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, name + " " + to})
		}
		if len(eds) == 0 {
			continue
		}
		for k := len(eds) - 1; k >= 0; k-- {
			e := eds[k]
			src = append(src[:e.beg:e.beg], append([]byte(e.txt), src[e.end:]...)...)
		}
		nf := fmt.Sprintf("%s.%d.go", out, i)
		if err := os.WriteFile(nf, src, 0o644); err != nil {
			return nil, err
		}
		repl[f] = nf
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := out + ".overlay.json"
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return nil, err
	}
	c := exec.Command("go", "build", "-overlay", ov, "-o", out, "./cmd/replay")
	c.Dir = dir
	c.Env = env
	b, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, b)
	}
	return &Native{bin: out, env: []string{"REPLAY_SCHED=1"}}, nil
}

// buildRace builds the replay program with the race detector.
func buildRace(dir, out string, env []string) (*Native, error) {
	c := exec.Command("go", "build", "-race", "-gcflags=all=-d=checkptr=0", "-o", out, "./cmd/replay")
	c.Dir = dir
	c.Env = append(append([]string{}, env...), "CGO_ENABLED=1")
	b, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, b)
	}
	return &Native{bin: out, env: []string{"REPLAY_TIMES=400", "GORACE=halt_on_error=1 exitcode=66"}}, nil
}

// one runs a single request in a process of its own.
func (n *Native) one(r nreq, timeout time.Duration) nans {
	js, _ := json.Marshal(r)
	c := exec.Command(n.bin)
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	if n.env == nil {
		c.Env = append(c.Env, "GOMAXPROCS=2")
	}
	c.Env = append(c.Env, n.env...)
	c.Stdin = bytes.NewReader(append(js, '\n'))
	var out, errb limitBuf
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		return nans{Status: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return nans{Status: "crash", Msg: head(errb.b.String(), 400)}
		}
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		return nans{Status: "hang", Msg: fmt.Sprintf("no answer within %v", timeout)}
	}
	var a nans
	if err := json.Unmarshal(out.b.Bytes(), &a); err != nil {
		return nans{Status: "error", Msg: "bad answer: " + head(out.b.String(), 200)}
	}
	return a
}

// many runs requests in one process; false if the process died or hung.
func (n *Native) many(rs []nreq, timeout time.Duration) ([]nans, bool) {
	var in bytes.Buffer
	for _, r := range rs {
		js, _ := json.Marshal(r)
		in.Write(js)
		in.WriteByte('\n')
	}
	c := exec.Command(n.bin)
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	c.Stdin = &in
	var out bytes.Buffer
	c.Stdout = &out
	if err := c.Start(); err != nil {
		return nil, false
	}
	timer := time.AfterFunc(timeout, func() { c.Process.Kill() })
	err := c.Wait()
	timer.Stop()
	if err != nil {
		return nil, false
	}
	var as []nans
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var a nans
		if json.Unmarshal(sc.Bytes(), &a) != nil {
			return nil, false
		}
		as = append(as, a)
	}
	return as, len(as) == len(rs)
}

type limitBuf struct{ b bytes.Buffer }

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<22 {
		l.b.Write(p)
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}
