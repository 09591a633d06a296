package main

// SMT-LIB2 printing and a long-lived solver process per worker.

import (
	"math/bits"
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	ufs     map[string]bool
	varDone map[string]bool
	buf     strings.Builder
	timeout time.Duration
	// statistics
	queries, sat, unsat, unknown int64
	time                         time.Duration
	dead                         bool
	log                          *os.File
	bin                          string
}

func newSolver(timeout time.Duration) *Solver {
	s := &Solver{timeout: timeout}
	s.start()
	return s
}

func solverBin() string {
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func (s *Solver) start() {
	s.bin = solverBin()
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatalf("solver start: %v", err)
	}
	s.in = in
	s.out = bufio.NewReader(out)
	s.defined = map[int32]bool{}
	s.ufs = map[string]bool{}
	s.varDone = map[string]bool{}
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :print-success false)\n(set-option :smt.random_seed 1)\n", s.timeout.Milliseconds())
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

// varName includes the static range, which is asserted once with the declaration.
func varName(t *Term) string {
	if t.orig != nil {
		t = t.orig
	}
	return fmt.Sprintf("v%d_%d_%d_%d", t.k, t.w, t.lo, t.hi)
}

func bvConst(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst, OTrue, OFalse:
		return bvConst(t.w, t.constVal())
	case OVar:
		if t.orig != nil {
			t = t.orig
		}
		n := varName(t)
		if !s.varDone[n] {
			s.varDone[n] = true
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sortName(t.w))
			if t.lo != 0 {
				fmt.Fprintf(&s.buf, "(assert (bvuge %s %s))\n", n, bvConst(t.w, t.lo))
			}
			if t.hi != mask(t.w) {
				fmt.Fprintf(&s.buf, "(assert (bvule %s %s))\n", n, bvConst(t.w, t.hi))
			}
		}
		return n
	}
	n := "t" + strconv.Itoa(int(t.id))
	if s.defined[t.id] {
		return n
	}
	e := s.expr(t)
	s.defined[t.id] = true
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, sortName(t.w), e)
	return n
}

func fpOf(w uint8, x string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + x + ")"
	}
	return "((_ to_fp 11 53) " + x + ")"
}

func (s *Solver) expr(t *Term) string {
	bin := func(op string) string { return "(" + op + " " + s.ref(t.a) + " " + s.ref(t.b) + ")" }
	switch t.op {
	case OLin:
		var parts []string
		for i, x := range t.ts {
			r := s.ref(x)
			if t.ks[i] == 1 {
				parts = append(parts, r)
			} else {
				parts = append(parts, "(bvmul "+bvConst(t.w, t.ks[i])+" "+r+")")
			}
		}
		if t.k != 0 {
			parts = append(parts, bvConst(t.w, t.k))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(bvadd " + strings.Join(parts, " ") + ")"
	case OMul:
		return bin("bvmul")
	case OUdiv:
		return bin("bvudiv")
	case OSdiv:
		return bin("bvsdiv")
	case OUrem:
		return bin("bvurem")
	case OSrem:
		return bin("bvsrem")
	case OAnd:
		return bin("bvand")
	case OOr:
		return bin("bvor")
	case OXor:
		return bin("bvxor")
	case OShl:
		return bin("bvshl")
	case OLshr:
		return bin("bvlshr")
	case OAshr:
		return bin("bvashr")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, s.ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OConcat:
		return bin("concat")
	case OIte:
		return "(ite " + s.ref(t.a) + " " + s.ref(t.b) + " " + s.ref(t.c) + ")"
	case OTable:
		x := s.ref(t.a)
		n := len(t.tbl.vals)
		hi := t.a.hi
		if hi >= uint64(n) {
			hi = uint64(n) // value past the table is 0
		}
		type run struct {
			end  uint64
			v, d uint64 // value v + d*x (mod 2^w)
		}
		val := func(i uint64) uint64 {
			if i < uint64(n) {
				return t.tbl.vals[i]
			}
			return 0
		}
		var runs []run
		for i := t.a.lo; i <= hi; {
			v := val(i)
			e := i
			for e < hi && val(e+1) == v {
				e++
			}
			if e == i && i < hi {
				d := (val(i+1) - v) & mask(t.w)
				e2 := i
				for e2 < hi && (val(e2+1)-val(e2))&mask(t.w) == d {
					e2++
				}
				if e2 >= i+2 {
					runs = append(runs, run{e2, (v - d*i) & mask(t.w), d})
					i = e2 + 1
					continue
				}
			}
			runs = append(runs, run{e, v, 0})
			i = e + 1
		}
		xx := x
		if t.w > t.a.w {
			xx = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, x)
		} else if t.w < t.a.w {
			xx = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, x)
		}
		iw := uint8(bits.Len64(t.a.hi)) // the comparisons need no more bits than the index has
		if iw == 0 {
			iw = 1
		}
		var build func(lo, hi int) string
		build = func(lo, hi int) string {
			if lo == hi {
				r := runs[lo]
				if r.d == 0 {
					return bvConst(t.w, r.v)
				}
				y := xx
				if r.d != 1 {
					y = "(bvmul " + bvConst(t.w, r.d) + " " + xx + ")"
				}
				if r.v == 0 {
					return y
				}
				return "(bvadd " + y + " " + bvConst(t.w, r.v) + ")"
			}
			m := (lo + hi) / 2
			return "(ite (bvule ix " + bvConst(iw, runs[m].end) + ") " + build(lo, m) + " " + build(m+1, hi) + ")"
		}
		if iw < t.a.w {
			return fmt.Sprintf("(let ((ix ((_ extract %d 0) %s))) %s)", iw-1, x, build(0, len(runs)-1))
		}
		return "(let ((ix " + x + ")) " + build(0, len(runs)-1) + ")"
	case OUF:
		n := fmt.Sprintf("uf_%s_%d_%d", t.name, len(t.ts), t.w)
		if !s.ufs[n] {
			s.ufs[n] = true
			var as []string
			for _, a := range t.ts {
				as = append(as, sortName(a.w))
			}
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), sortName(t.w))
		}
		if len(t.ts) == 0 {
			return n
		}
		var as []string
		for _, a := range t.ts {
			as = append(as, s.ref(a))
		}
		return "(" + n + " " + strings.Join(as, " ") + ")"
	case OFP, OFcmp:
		var as []string
		for _, a := range t.ts {
			as = append(as, fpOf(a.w, s.ref(a)))
		}
		switch t.name {
		case "eq":
			return "(fp.eq " + as[0] + " " + as[1] + ")"
		case "lt":
			return "(fp.lt " + as[0] + " " + as[1] + ")"
		case "le":
			return "(fp.leq " + as[0] + " " + as[1] + ")"
		case "ext":
			return "(fp.to_ieee_bv ((_ to_fp 11 53) RNE " + as[0] + "))"
		case "trunc":
			return "(fp.to_ieee_bv ((_ to_fp 8 24) RNE " + as[0] + "))"
		case "neg":
			return "(bvxor " + s.ref(t.ts[0]) + " " + bvConst(t.w, 1<<(t.w-1)) + ")"
		}
		panic("smt fp " + t.name)
	case OEq:
		return bin("=")
	case OUlt:
		return bin("bvult")
	case OUle:
		return bin("bvule")
	case OSlt:
		return bin("bvslt")
	case OSle:
		return bin("bvsle")
	case OBand, OBor:
		op := "and"
		if t.op == OBor {
			op = "or"
		}
		var as []string
		for _, a := range t.ts {
			as = append(as, s.ref(a))
		}
		return "(" + op + " " + strings.Join(as, " ") + ")"
	case OBnot:
		return "(not " + s.ref(t.a) + ")"
	case OInSet:
		return setExpr(s.ref(t.a), t.a.w, t.set)
	}
	panic(fmt.Sprintf("smt expr op %d", t.op))
}

func setExpr(x string, w uint8, set Set) string {
	var parts []string
	for i := uint64(0); i < 256; i++ {
		if !set.has(i) {
			continue
		}
		j := i
		for j+1 < 256 && set.has(j+1) {
			j++
		}
		switch {
		case i == j:
			parts = append(parts, "(= "+x+" "+bvConst(w, i)+")")
		case i == 0 && j >= mask(w):
			parts = append(parts, "true")
		case i == 0:
			parts = append(parts, "(bvule "+x+" "+bvConst(w, j)+")")
		case j >= mask(w):
			parts = append(parts, "(bvuge "+x+" "+bvConst(w, i)+")")
		default:
			parts = append(parts, "(and (bvuge "+x+" "+bvConst(w, i)+") (bvule "+x+" "+bvConst(w, j)+"))")
		}
		i = j
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// check decides the conjunction of cs; on Sat it returns values for vars.
func (s *Solver) check(cs []*Term, vars []*Term) (SatRes, []uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if s.dead {
		s.restart()
	}
	s.buf.Reset()
	var refs []string
	for _, c := range cs {
		refs = append(refs, s.ref(c))
	}
	for _, v := range vars {
		s.ref(v)
	}
	s.buf.WriteString("(push)\n")
	for _, r := range refs {
		s.buf.WriteString("(assert " + r + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	res, err := s.roundTrip()
	if err != nil {
		s.unknown++
		s.dead = true
		return Unknown, nil
	}
	switch res {
	case "unsat":
		s.unsat++
		s.send("(pop)\n")
		return Unsat, nil
	case "sat":
		s.sat++
		vals := make([]uint64, len(vars))
		if len(vars) > 0 {
			s.buf.Reset()
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(varName(v) + " ")
			}
			s.buf.WriteString("))\n(pop)\n")
			s.send(s.buf.String())
			txt, err := s.readSexp()
			if err != nil {
				s.dead = true
				return Unknown, nil
			}
			if !parseValues(txt, vals) {
				s.dead = true
				s.unknown++
				return Unknown, nil
			}
		} else {
			s.send("(pop)\n")
		}
		return Sat, vals
	}
	s.unknown++
	if strings.Contains(res, "error") {
		fmt.Fprintln(os.Stderr, "solver error:", res)
		s.dead = true
	} else {
		s.send("(pop)\n")
	}
	return Unknown, nil
}

// raw sends text and a check-sat, in a scope of its own.
func (s *Solver) raw(text string) SatRes {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if s.dead {
		s.restart()
	}
	s.buf.Reset()
	s.buf.WriteString("(push)\n" + text + "(check-sat)\n")
	res, err := s.roundTrip()
	if err != nil {
		s.dead = true
		s.unknown++
		return Unknown
	}
	if strings.Contains(res, "error") {
		s.dead = true
		s.unknown++
		return Unknown
	}
	s.send("(pop)\n")
	switch res {
	case "sat":
		s.sat++
		return Sat
	case "unsat":
		s.unsat++
		return Unsat
	}
	s.unknown++
	return Unknown
}

func (s *Solver) send(txt string) {
	if s.log != nil {
		s.log.WriteString(txt)
	}
	io.WriteString(s.in, txt)
}

func (s *Solver) roundTrip() (string, error) {
	s.send(s.buf.String())
	timer := time.AfterFunc(s.timeout*2+5*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		line = strings.TrimSpace(line)
		if line != "" {
			return line, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, vals []uint64) bool {
	// ((v0_8 #x61) (v1_64 #b...) ...)
	fs := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	j := 0
	for i := 0; i+1 < len(fs) && j < len(vals); i += 2 {
		x := fs[i+1]
		var v uint64
		var err error
		switch {
		case strings.HasPrefix(x, "#x"):
			v, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, err = strconv.ParseUint(x[2:], 2, 64)
		case x == "true":
			v = 1
		case x == "false":
			v = 0
		default:
			return false
		}
		if err != nil {
			return false
		}
		vals[j] = v
		j++
	}
	return j == len(vals)
}
