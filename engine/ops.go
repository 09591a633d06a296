package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (cp *compiler) binop(x *ssa.BinOp, dst int) (instrFn, bool) {
	m := cp.m
	a, b := cp.op(x.X), cp.op(x.Y)
	t := x.X.Type()
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		bt, isBasic := t.Underlying().(*types.Basic)
		if isBasic && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			w, _, _, _ := typeWidth(m, t)
			return func(fr *Frame) {
				p, q := fr.get(&a), fr.get(&b)
				if p.t == nil && q.t == nil {
					fr.s[dst] = W{u: b2u((p.o == q.o && p.u == q.u) != neg)}
					return
				}
				var r *Term
				if w == 0 {
					r = fr.m.tb.Eq(fr.m.toTerm(p, 0), fr.m.toTerm(q, 0))
				} else {
					r = fr.m.scalarEq(p, q, w)
				}
				if neg {
					r = fr.m.tb.BNot(r)
				}
				fr.s[dst] = fr.m.fromTerm(r)
			}, true
		}
		// comparison of interface with concrete operand types
		xt, yt := x.X.Type(), x.Y.Type()
		xi, yi := types.IsInterface(xt), types.IsInterface(yt)
		n := m.words(xt)
		n2 := m.words(yt)
		return func(fr *Frame) {
			p, q := fr.getN(&a, n), fr.getN(&b, n2)
			if xi && !yi {
				if bb, ok := yt.(*types.Basic); ok && bb.Kind() == types.UntypedNil {
					fr.s[dst] = W{u: b2u((p[0].o == nil) != neg)}
					return
				}
				q = []W{fr.m.typeWord(fr.m.typeOf(yt), xt), fr.m.box(yt, q)}
			} else if yi && !xi {
				p = []W{fr.m.typeWord(fr.m.typeOf(xt), yt), fr.m.box(xt, p)}
			}
			et := xt
			if yi {
				et = yt
			}
			r := fr.m.eqTerm(et, p, q)
			if neg {
				r = fr.m.tb.BNot(r)
			}
			fr.s[dst] = fr.m.fromTerm(r)
		}, true
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return func(fr *Frame) { fr.m.unsup("binop %v on %v", op, t) }, false
	}
	if bt.Info()&types.IsString != 0 {
		return cp.strBinop(x, op, a, b, dst), op != token.ADD
	}
	w, signed, float, _ := typeWidth(m, t)
	if float {
		return func(fr *Frame) { fr.s[dst] = fr.m.floatOp(op, fr.get(&a), fr.get(&b), w) }, true
	}
	if bt.Info()&types.IsComplex != 0 {
		return func(fr *Frame) { fr.m.unsup("complex arithmetic") }, false
	}
	if op == token.SHL || op == token.SHR {
		yw, ysg, _, _ := typeWidth(m, x.Y.Type())
		return func(fr *Frame) {
			p, q := fr.get(&a), fr.get(&b)
			if q.t == nil {
				if ysg && sext64(q.u, yw) < 0 {
					fr.m.goPanicMsg("runtime error: negative shift amount")
				}
				if p.t == nil {
					if p.o != nil {
						fr.m.unsup("shift of pointer")
					}
					var v uint64
					switch {
					case op == token.SHL:
						if q.u < 64 {
							v = p.u << q.u
						}
					case signed:
						s := q.u
						if s > 63 {
							s = 63
						}
						v = uint64(sext64(p.u, w) >> s)
					default:
						if q.u < 64 {
							v = p.u >> q.u
						}
					}
					fr.s[dst] = W{u: v & mask(w)}
					return
				}
			} else if ysg && q.t.hi >= 1<<(yw-1) {
				if fr.m.branch(fr.m.tb.Slt(q.t, fr.m.tb.Const(yw, 0))) {
					fr.m.goPanicMsg("runtime error: negative shift amount")
				}
			}
			xt := fr.m.toTerm(p, w)
			var yt *Term
			if q.t == nil {
				s := q.u
				if s > uint64(w) {
					s = uint64(w)
				}
				yt = fr.m.tb.Const(w, s)
				if w == 8 && s > 255 {
					yt = fr.m.tb.Const(w, 255)
				}
			} else {
				yt = q.t
				if yt.w > w {
					// saturate: a shift of at least w gives the same result as w
					big := fr.m.tb.BNot(fr.m.tb.Ult(yt, fr.m.tb.Const(yt.w, uint64(w))))
					yt = fr.m.tb.Ite(big, fr.m.tb.Const(w, uint64(w)), fr.m.tb.Extract(yt, 0, w))
				} else {
					yt = fr.m.tb.Zext(yt, w)
				}
			}
			var r *Term
			switch {
			case op == token.SHL:
				r = fr.m.tb.bin(OShl, xt, yt)
			case signed:
				r = fr.m.tb.bin(OAshr, xt, yt)
			default:
				r = fr.m.tb.bin(OLshr, xt, yt)
			}
			fr.s[dst] = fr.m.fromTerm(r)
		}, true
	}
	return func(fr *Frame) { fr.s[dst] = fr.m.intOp(op, fr.get(&a), fr.get(&b), w, signed) }, true
}

func (m *Machine) intOp(op token.Token, p, q W, w uint8, signed bool) W {
	if p.t == nil && q.t == nil {
		if p.o != nil || q.o != nil {
			return m.ptrOp(op, p, q)
		}
		var v uint64
		switch op {
		case token.ADD:
			v = p.u + q.u
		case token.SUB:
			v = p.u - q.u
		case token.MUL:
			v = p.u * q.u
		case token.QUO, token.REM:
			if q.u == 0 {
				m.goPanicMsg("runtime error: integer divide by zero")
			}
			o := OUdiv
			switch {
			case op == token.QUO && signed:
				o = OSdiv
			case op == token.REM && signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			v = evalBin(o, w, p.u, q.u)
		case token.AND:
			v = p.u & q.u
		case token.OR:
			v = p.u | q.u
		case token.XOR:
			v = p.u ^ q.u
		case token.AND_NOT:
			v = p.u &^ q.u
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var c int
			if signed {
				x, y := sext64(p.u, w), sext64(q.u, w)
				if x < y {
					c = -1
				} else if x > y {
					c = 1
				}
			} else {
				if p.u < q.u {
					c = -1
				} else if p.u > q.u {
					c = 1
				}
			}
			switch op {
			case token.LSS:
				return W{u: b2u(c < 0)}
			case token.LEQ:
				return W{u: b2u(c <= 0)}
			case token.GTR:
				return W{u: b2u(c > 0)}
			}
			return W{u: b2u(c >= 0)}
		default:
			m.unsup("int op %v", op)
		}
		return W{u: v & mask(w)}
	}
	if p.o != nil || q.o != nil {
		// pointer plus symbolic offset
		if op == token.ADD {
			if q.o != nil {
				p, q = q, p
			}
			if q.o == nil && p.t == nil {
				v := m.concretize(q, w)
				return m.ptrOp(op, p, W{u: v})
			}
		}
		m.unsup("symbolic pointer arithmetic")
	}
	x, y := m.toTerm(p, w), m.toTerm(q, w)
	tb := m.tb
	switch op {
	case token.ADD:
		return m.fromTerm(tb.Add(x, y))
	case token.SUB:
		return m.fromTerm(tb.Sub(x, y))
	case token.MUL:
		return m.fromTerm(tb.Mul(x, y))
	case token.QUO, token.REM:
		if y.isConst() {
			if y.k == 0 {
				m.goPanicMsg("runtime error: integer divide by zero")
			}
		} else if m.branch(tb.Eq(y, tb.Const(w, 0))) {
			m.goPanicMsg("runtime error: integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && signed:
			o = OSdiv
		case op == token.REM && signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return m.fromTerm(tb.bin(o, x, y))
	case token.AND:
		return m.fromTerm(tb.bin(OAnd, x, y))
	case token.OR:
		return m.fromTerm(tb.bin(OOr, x, y))
	case token.XOR:
		return m.fromTerm(tb.bin(OXor, x, y))
	case token.AND_NOT:
		return m.fromTerm(tb.bin(OAnd, x, tb.Not(y)))
	case token.LSS:
		if signed {
			return m.fromTerm(tb.Slt(x, y))
		}
		return m.fromTerm(tb.Ult(x, y))
	case token.LEQ:
		if signed {
			return m.fromTerm(tb.Sle(x, y))
		}
		return m.fromTerm(tb.Ule(x, y))
	case token.GTR:
		if signed {
			return m.fromTerm(tb.Slt(y, x))
		}
		return m.fromTerm(tb.Ult(y, x))
	case token.GEQ:
		if signed {
			return m.fromTerm(tb.Sle(y, x))
		}
		return m.fromTerm(tb.Ule(y, x))
	}
	m.unsup("symbolic int op %v", op)
	return W{}
}

func (m *Machine) ptrOp(op token.Token, p, q W) W {
	switch op {
	case token.ADD:
		if p.o != nil && q.o == nil {
			return m.ptrAdd(p, q.u)
		}
		if q.o != nil && p.o == nil {
			return m.ptrAdd(q, p.u)
		}
	case token.SUB:
		if p.o == q.o {
			return W{u: p.u - q.u}
		}
		if q.o == nil {
			return m.ptrAdd(p, -q.u)
		}
	case token.XOR, token.OR:
		if q.o == nil && q.u == 0 {
			return p
		}
		if p.o == nil && p.u == 0 {
			return q
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if p.o == q.o {
			return m.intOp(op, W{u: p.u}, W{u: q.u}, 64, false)
		}
	}
	m.unsup("pointer arithmetic %v", op)
	return W{}
}

func (m *Machine) floatOp(op token.Token, p, q W, w uint8) W {
	if p.t == nil && q.t == nil {
		var x, y float64
		if w == 32 {
			x, y = float64(math.Float32frombits(uint32(p.u))), float64(math.Float32frombits(uint32(q.u)))
		} else {
			x, y = math.Float64frombits(p.u), math.Float64frombits(q.u)
		}
		var r float64
		switch op {
		case token.LSS:
			return W{u: b2u(x < y)}
		case token.LEQ:
			return W{u: b2u(x <= y)}
		case token.GTR:
			return W{u: b2u(x > y)}
		case token.GEQ:
			return W{u: b2u(x >= y)}
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		default:
			m.unsup("float op %v", op)
		}
		if w == 32 {
			switch op {
			case token.ADD:
				return W{u: uint64(math.Float32bits(float32(x) + float32(y)))}
			case token.SUB:
				return W{u: uint64(math.Float32bits(float32(x) - float32(y)))}
			case token.MUL:
				return W{u: uint64(math.Float32bits(float32(x) * float32(y)))}
			default:
				return W{u: uint64(math.Float32bits(float32(x) / float32(y)))}
			}
		}
		return W{u: math.Float64bits(r)}
	}
	x, y := m.toTerm(p, w), m.toTerm(q, w)
	switch op {
	case token.LSS:
		return m.fromTerm(m.tb.FP("lt", 0, x, y))
	case token.LEQ:
		return m.fromTerm(m.tb.FP("le", 0, x, y))
	case token.GTR:
		return m.fromTerm(m.tb.FP("lt", 0, y, x))
	case token.GEQ:
		return m.fromTerm(m.tb.FP("le", 0, y, x))
	}
	m.unsup("symbolic float op %v", op)
	return W{}
}

func (cp *compiler) strBinop(x *ssa.BinOp, op token.Token, a, b opnd, dst int) instrFn {
	return func(fr *Frame) {
		m := fr.m
		p, q := fr.getN(&a, 2), fr.getN(&b, 2)
		if p[1].t != nil || q[1].t != nil {
			m.unsup("symbolic string length")
		}
		if op == token.ADD {
			if p[1].u == 0 {
				fr.s[dst], fr.s[dst+1] = q[0], q[1]
				return
			}
			if q[1].u == 0 {
				fr.s[dst], fr.s[dst+1] = p[0], p[1]
				return
			}
			o := m.newObjN(m.byteLay, int(p[1].u+q[1].u))
			for i := uint64(0); i < p[1].u; i++ {
				o.cells[i] = m.byteAt(p[0], i)
			}
			for i := uint64(0); i < q[1].u; i++ {
				o.cells[p[1].u+i] = m.byteAt(q[0], i)
			}
			fr.s[dst], fr.s[dst+1] = W{o: o}, W{u: p[1].u + q[1].u}
			return
		}
		c := m.cmpBytes(p[0], p[1].u, q[0], q[1].u)
		var r bool
		switch op {
		case token.LSS:
			r = c < 0
		case token.LEQ:
			r = c <= 0
		case token.GTR:
			r = c > 0
		case token.GEQ:
			r = c >= 0
		}
		fr.s[dst] = W{u: b2u(r)}
	}
}

func (m *Machine) cmpBytes(a W, an uint64, b W, bn uint64) int {
	n := an
	if bn < n {
		n = bn
	}
	for i := uint64(0); i < n; i++ {
		x, y := m.byteAt(a, i), m.byteAt(b, i)
		if x.t == nil && y.t == nil {
			if x.u != y.u {
				if x.u < y.u {
					return -1
				}
				return 1
			}
			continue
		}
		xt, yt := m.toTerm(x, 8), m.toTerm(y, 8)
		switch m.fork([]*Term{m.tb.Eq(xt, yt), m.tb.Ult(xt, yt), m.tb.Ult(yt, xt)}) {
		case 1:
			return -1
		case 2:
			return 1
		}
	}
	if an < bn {
		return -1
	}
	if an > bn {
		return 1
	}
	return 0
}

// decodeRune decodes one rune of a string with possibly symbolic bytes.
func (m *Machine) decodeRune(p W, n uint64) (W, uint64) {
	k := n
	if k > 4 {
		k = 4
	}
	var buf [4]byte
	conc := true
	for i := uint64(0); i < k; i++ {
		w := m.byteAt(p, i)
		if w.t != nil {
			conc = false
			if i == 0 {
				break
			}
			// a concrete leading ASCII byte needs nothing else
			if buf[0] < utf8.RuneSelf {
				conc = true
				k = 1
			}
			break
		}
		buf[i] = byte(w.u)
	}
	if conc {
		r, s := utf8.DecodeRune(buf[:k])
		return W{u: uint64(uint32(r))}, uint64(s)
	}
	pkg := m.p.byPath["unicode/utf8"]
	if pkg == nil {
		m.unsup("unicode/utf8 not loaded")
	}
	code := m.codeOf(pkg.Func("DecodeRuneInString"))
	m.call(code, []W{p, {u: n}}, nil)
	return m.ret[0], m.concretize(m.ret[1], 64)
}

func (cp *compiler) convert(xv ssa.Value, to types.Type, dst int) (instrFn, bool) {
	m := cp.m
	a := cp.op(xv)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tbt, tok := tu.(*types.Basic)
	// pointers
	isPtrish := func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
		}
		return false
	}
	if isPtrish(fu) && isPtrish(tu) {
		return func(fr *Frame) { fr.s[dst] = fr.get(&a) }, true
	}
	num := func(b *types.Basic) bool { return b.Info()&types.IsNumeric != 0 }
	if fok && tok && num(fb) && num(tbt) {
		fw, fs, ff, _ := typeWidth(m, from)
		tw, ts, tf, _ := typeWidth(m, to)
		if fb.Info()&types.IsComplex != 0 || tbt.Info()&types.IsComplex != 0 {
			return func(fr *Frame) { fr.m.unsup("complex conversion") }, false
		}
		return func(fr *Frame) {
			w := fr.get(&a)
			m := fr.m
			if w.t == nil {
				if w.o != nil {
					if tw == 64 && !tf {
						fr.s[dst] = w
						return
					}
					m.unsup("pointer to integer conversion")
				}
				switch {
				case !ff && !tf:
					v := w.u
					if fs {
						v = uint64(sext64(v, fw))
					}
					fr.s[dst] = W{u: v & mask(tw)}
				case !ff && tf:
					if tw == 32 {
						var f float32
						if fs {
							f = float32(sext64(w.u, fw))
						} else {
							f = float32(w.u)
						}
						fr.s[dst] = W{u: uint64(math.Float32bits(f))}
					} else {
						var f float64
						if fs {
							f = float64(sext64(w.u, fw))
						} else {
							f = float64(w.u)
						}
						fr.s[dst] = W{u: math.Float64bits(f)}
					}
				case ff && !tf:
					var f float64
					if fw == 32 {
						f = float64(math.Float32frombits(uint32(w.u)))
					} else {
						f = math.Float64frombits(w.u)
					}
					if ts {
						fr.s[dst] = W{u: uint64(int64(f)) & mask(tw)}
					} else {
						fr.s[dst] = W{u: uint64(f) & mask(tw)}
					}
				default:
					if fw == tw {
						fr.s[dst] = w
					} else if tw == 64 {
						fr.s[dst] = W{u: math.Float64bits(float64(math.Float32frombits(uint32(w.u))))}
					} else {
						fr.s[dst] = W{u: uint64(math.Float32bits(float32(math.Float64frombits(w.u))))}
					}
				}
				return
			}
			switch {
			case !ff && !tf:
				switch {
				case tw == fw:
					fr.s[dst] = w
				case tw < fw:
					fr.s[dst] = m.fromTerm(m.tb.Extract(w.t, 0, tw))
				case fs:
					fr.s[dst] = m.fromTerm(m.tb.Sext(w.t, tw))
				default:
					fr.s[dst] = m.fromTerm(m.tb.Zext(w.t, tw))
				}
			case ff && tf:
				if fw == tw {
					fr.s[dst] = w
				} else if tw == 64 {
					fr.s[dst] = m.fromTerm(m.tb.FP("ext", 64, w.t))
				} else {
					fr.s[dst] = m.fromTerm(m.tb.FP("trunc", 32, w.t))
				}
			default:
				m.unsup("symbolic int/float conversion")
			}
		}, true
	}
	isStr := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsString != 0 }
	if isStr(fb, fok) {
		if isStr(tbt, tok) {
			return func(fr *Frame) { v := fr.getN(&a, 2); fr.s[dst], fr.s[dst+1] = v[0], v[1] }, true
		}
		if sl, ok := tu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return func(fr *Frame) {
					m := fr.m
					v := fr.getN(&a, 2)
					if v[1].t != nil {
						m.unsup("symbolic string length")
					}
					n := v[1].u
					c := roundupsize(n)
					o := m.newObjN(m.byteLay, int(c))
					for i := uint64(0); i < n; i++ {
						o.cells[i] = m.byteAt(v[0], i)
					}
					fr.s[dst], fr.s[dst+1], fr.s[dst+2] = W{o: o}, W{u: n}, W{u: c}
				}, false
			}
			return func(fr *Frame) {
				m := fr.m
				v := fr.getN(&a, 2)
				var rs []W
				for off := uint64(0); off < v[1].u; {
					r, s := m.decodeRune(W{o: v[0].o, u: v[0].u + off}, v[1].u-off)
					rs = append(rs, r)
					off += s
				}
				o := m.newObjN(m.layout(types.Typ[types.Int32]), len(rs))
				copy(o.cells, rs)
				fr.s[dst], fr.s[dst+1], fr.s[dst+2] = W{o: o}, W{u: uint64(len(rs))}, W{u: uint64(len(rs))}
			}, false
		}
	}
	if isStr(tbt, tok) {
		if sl, ok := fu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return func(fr *Frame) {
					m := fr.m
					v := fr.getN(&a, 3)
					if v[1].t != nil {
						m.unsup("symbolic slice length")
					}
					n := v[1].u
					if n == 0 {
						fr.s[dst], fr.s[dst+1] = W{}, W{}
						return
					}
					o := m.newObjN(m.byteLay, int(n))
					for i := uint64(0); i < n; i++ {
						o.cells[i] = m.byteAt(v[0], i)
					}
					fr.s[dst], fr.s[dst+1] = W{o: o}, W{u: n}
				}, false
			}
			return func(fr *Frame) {
				m := fr.m
				v := fr.getN(&a, 3)
				var buf []byte
				for i := uint64(0); i < v[1].u; i++ {
					var d [1]W
					m.load(W{o: v[0].o, u: v[0].u + 4*i}, m.layout(types.Typ[types.Int32]), d[:])
					if d[0].t != nil {
						m.unsup("symbolic rune slice to string")
					}
					buf = utf8.AppendRune(buf, rune(int32(d[0].u)))
				}
				s := m.strW(string(buf))
				fr.s[dst], fr.s[dst+1] = s[0], s[1]
			}, false
		}
		if fok && fb.Info()&types.IsInteger != 0 {
			fw, fs, _, _ := typeWidth(m, from)
			return func(fr *Frame) {
				w := fr.get(&a)
				v := fr.m.concretize(w, fw)
				if fs {
					v = uint64(sext64(v, fw))
				}
				r := rune(0xFFFD)
				if int64(v) >= 0 && v <= 0x10FFFF {
					r = rune(v)
				}
				s := fr.m.strW(string(r))
				fr.s[dst], fr.s[dst+1] = s[0], s[1]
			}, false
		}
	}
	if types.Identical(fu, tu) {
		n := m.words(to)
		return func(fr *Frame) { copy(fr.s[dst:dst+n], fr.getN(&a, n)) }, true
	}
	return func(fr *Frame) { fr.m.unsup("conversion %v -> %v", from, to) }, false
}

// ---- calls ----

type argDesc struct {
	o opnd
	n int
}

func (cp *compiler) args(vs []ssa.Value) ([]argDesc, int) {
	var r []argDesc
	tot := 0
	for _, v := range vs {
		n := cp.m.words(v.Type())
		r = append(r, argDesc{cp.op(v), n})
		tot += n
	}
	return r, tot
}

// call compiles a call; results are left in m.ret.
func (cp *compiler) call(cc *ssa.CallCommon) func(fr *Frame) {
	m := cp.m
	args, tot := cp.args(cc.Args)
	gather := func(fr *Frame, pre int) []W {
		ws := make([]W, pre, pre+tot)
		for i := range args {
			ws = append(ws, fr.getN(&args[i].o, args[i].n)...)
		}
		return ws
	}
	if cc.IsInvoke() {
		recv := cp.op(cc.Value)
		name := cc.Method
		return func(fr *Frame) {
			v := fr.getN(&recv, 2)
			code, rw := fr.m.resolve(v, name)
			ws := append(rw, gather(fr, 0)...)
			fr.m.call(code, ws, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return cp.builtin(f, cc, args)
	case *ssa.Function:
		code := m.codeOf(f)
		return func(fr *Frame) {
			m := fr.m
			m.prepare(code)
			if code.intr != nil {
				ws := gather(fr, 0)
				m.callIntr(fr, code, ws)
				return
			}
			nf := m.push(code)
			k := 0
			for i := range args {
				k += copy(nf.s[k:], fr.getN(&args[i].o, args[i].n))
			}
			m.run(nf)
		}
	}
	fv := cp.op(cc.Value)
	return func(fr *Frame) {
		f := fr.get(&fv)
		ws := gather(fr, 0)
		fr.m.callFunc(f, ws)
	}
}

func (m *Machine) callFunc(f W, ws []W) {
	if f.o == nil {
		m.nilDeref()
	}
	if f.o.kind != KFunc {
		m.unsup("call of non-function object")
	}
	m.call(f.o.code, ws, f.o.free)
}

// resolve finds the method of an interface value; the receiver words are returned.
func (m *Machine) resolve(v []W, meth *types.Func) (*Code, []W) {
	d := dynType(v[0])
	if d == nil {
		m.nilDeref()
	}
	k := methodKey{d, meth.Id()}
	code := m.methods[k]
	if code == nil {
		sel := m.p.prog.MethodSets.MethodSet(d.typ).Lookup(meth.Pkg(), meth.Name())
		if sel == nil {
			m.unsup("no method %s on %v", meth.Name(), d.typ)
		}
		fn := m.p.prog.MethodValue(sel)
		if fn == nil {
			m.unsup("abstract method %s on %v", meth.Name(), d.typ)
		}
		code = m.codeOf(fn)
		m.methods[k] = code
	}
	n := m.words(d.typ)
	rw := make([]W, n, n+8)
	if n == 0 {
		return code, rw
	}
	m.unbox(d.typ, v[1], rw)
	return code, rw
}

func (cp *compiler) deferCall(cc *ssa.CallCommon) func(fr *Frame) func(m *Machine) {
	args, tot := cp.args(cc.Args)
	gather := func(fr *Frame) []W {
		ws := make([]W, 0, tot)
		for i := range args {
			ws = append(ws, fr.getN(&args[i].o, args[i].n)...)
		}
		return ws
	}
	if cc.IsInvoke() {
		recv := cp.op(cc.Value)
		return func(fr *Frame) func(m *Machine) {
			v := fr.getN(&recv, 2)
			code, rw := fr.m.resolve(v, cc.Method)
			ws := append(rw, gather(fr)...)
			return func(m *Machine) { m.call(code, ws, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) func(m *Machine) {
			ws := gather(fr)
			_ = ws
			name := b.Name()
			return func(m *Machine) {
				switch name {
				case "recover":
					m.doRecover()
				default:
					m.unsup("deferred builtin %s", name)
				}
			}
		}
	}
	fv := cp.op(cc.Value)
	return func(fr *Frame) func(m *Machine) {
		f := fr.get(&fv)
		ws := gather(fr)
		return func(m *Machine) { m.callFunc(f, ws) }
	}
}

func (m *Machine) push(code *Code) *Frame {
	if m.region {
		panic(regionAbort{})
	}
	m.depth++
	if m.depth > m.maxDepth {
		panic(budgetEnd{"call depth" + m.where()})
	}
	if m.sp+code.nslots > len(m.stack) {
		m.stack = make([]W, 1<<16+code.nslots)
		m.sp = 0
	}
	fr := &Frame{m: m, s: m.stack[m.sp : m.sp+code.nslots : m.sp+code.nslots], code: code}
	return fr
}

func (m *Machine) callIntr(fr *Frame, code *Code, ws []W) {
	if m.region {
		panic(regionAbort{})
	}
	m.curFn = append(m.curFn, code)
	m.ret = m.ret[:0]
	code.intr(&Frame{m: m, code: code}, ws)
	m.curFn = m.curFn[:len(m.curFn)-1]
}

func (m *Machine) call(code *Code, ws, free []W) {
	m.prepare(code)
	if code.intr != nil {
		m.callIntr(nil, code, ws)
		return
	}
	fr := m.push(code)
	k := copy(fr.s, ws)
	copy(fr.s[k:], free)
	m.run(fr)
}

func (m *Machine) setRet(ws ...W) { m.ret = append(m.ret[:0], ws...) }

// run executes a frame to completion, leaving results in m.ret.
func (m *Machine) run(fr *Frame) {
	saveStack, saveSp, saveDepth, saveFn := m.stack, m.sp, m.depth-1, len(m.curFn)
	m.sp += fr.code.nslots
	m.curFn = append(m.curFn, fr.code)
	m.funcHit[fr.code.fn]++
	if fr.code.hasDef {
		m.runDeferring(fr)
	} else {
		m.exec(fr, fr.code.blocks[0])
	}
	m.stack, m.sp, m.depth = saveStack, saveSp, saveDepth
	m.curFn = m.curFn[:saveFn]
}

func (m *Machine) runDeferring(fr *Frame) {
	depth, sp, nfn, stack := m.depth, m.sp, len(m.curFn), m.stack
	p := m.tryExec(fr, fr.code.blocks[0])
	if p == nil {
		return
	}
	for p != nil {
		m.depth, m.sp, m.stack = depth, sp, stack
		m.curFn = m.curFn[:nfn]
		fr.pan = p
		m.panics = append(m.panics, p)
		np := m.tryDefers(fr)
		m.panics = m.panics[:len(m.panics)-1]
		if np != nil {
			p = np
			continue
		}
		if !p.recovered {
			panic(p)
		}
		fr.pan = nil
		if fr.code.recov == nil {
			m.ret = append(m.ret[:0], make([]W, fr.code.resW)...)
			return
		}
		p = m.tryExec(fr, fr.code.recov)
	}
}

func (m *Machine) tryExec(fr *Frame, bb *BB) (p *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				p = gp
				return
			}
			panic(r)
		}
	}()
	m.exec(fr, bb)
	return nil
}

func (m *Machine) tryDefers(fr *Frame) (p *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				p = gp
				return
			}
			panic(r)
		}
	}()
	m.runDefers(fr)
	return nil
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.fn(m)
	}
}

func (m *Machine) doRecover() {
	if n := len(m.panics); n > 0 && !m.panics[n-1].recovered {
		p := m.panics[n-1]
		p.recovered = true
		m.setRet(p.val[0], p.val[1])
		return
	}
	m.setRet(W{}, W{})
}

func (fr *Frame) takeEdge(e *Edge) *BB {
	cs := e.copies
	switch len(cs) {
	case 0:
	case 1:
		c := &cs[0]
		if c.n == 1 {
			fr.s[c.dst] = fr.get(&c.src)
		} else {
			copy(fr.s[c.dst:c.dst+c.n], fr.getN(&c.src, c.n))
		}
	default:
		var buf [64]W
		tmp := buf[:0]
		for i := range cs {
			tmp = append(tmp, fr.getN(&cs[i].src, cs[i].n)...)
		}
		k := 0
		for i := range cs {
			k += copy(fr.s[cs[i].dst:cs[i].dst+cs[i].n], tmp[k:k+cs[i].n])
		}
	}
	return e.to
}

func (m *Machine) exec(fr *Frame, bb *BB) {
	for {
		m.steps += int64(len(bb.instrs)) + 1
		if m.steps > m.maxStep {
			panic(budgetEnd{"steps" + m.where()})
		}
		for _, f := range bb.instrs {
			f(fr)
		}
		switch bb.kind {
		case 'j':
			bb = fr.takeEdge(bb.edges[0])
		case 'i':
			w := fr.get(&bb.cond)
			if w.t == nil {
				if w.u != 0 {
					bb = fr.takeEdge(bb.edges[0])
				} else {
					bb = fr.takeEdge(bb.edges[1])
				}
				continue
			}
			bb = m.symIf(fr, bb, w.t)
		case 'r':
			m.ret = m.ret[:0]
			for i := range bb.ret {
				m.ret = append(m.ret, fr.getN(&bb.ret[i].o, bb.ret[i].n)...)
			}
			return
		case 'p':
			v := fr.getN(&bb.pan, 2)
			gp := &goPanic{val: [2]W{v[0], v[1]}, msg: m.panicMsg(v)}
			panic(gp)
		default:
			m.unsup("block without terminator")
		}
	}
}

func (m *Machine) panicMsg(v []W) string {
	d := dynType(v[0])
	if d == nil {
		return "panic(nil)"
	}
	if b, ok := d.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		var ws [2]W
		m.unbox(d.typ, v[1], ws[:])
		if s, ok := m.concreteString(ws[0], ws[1]); ok {
			return "panic: " + s + m.where()
		}
	}
	return fmt.Sprintf("panic of type %v%s", d.typ, m.where())
}

// ---- decision regions ----

type regionExit struct {
	e    *Edge
	cond *Term
	phi  []W
}

type regionAlt struct {
	to   *BB
	cond *Term
	e    *Edge
	phi  []W
}

func (m *Machine) symIf(fr *Frame, bb *BB, cond *Term) *BB {
	if m.region {
		panic(regionAbort{})
	}
	tb := m.tb
	var exits []regionExit
	m.expand(fr, bb.edges[0], cond, &exits, 0)
	m.expand(fr, bb.edges[1], tb.BNot(cond), &exits, 0)
	var alts []regionAlt
next:
	for _, ex := range exits {
		for i := range alts {
			a := &alts[i]
			if a.to != ex.e.to {
				continue
			}
			u := tb.Or(a.cond, ex.cond)
			if u != tb.tt && !(u.op == OInSet) {
				// keep path conditions over several variables apart
				continue
			}
			if phi, ok := m.mergePhi(a, &ex); ok {
				a.cond = u
				a.phi = phi
				continue next
			}
		}
		alts = append(alts, regionAlt{ex.e.to, ex.cond, ex.e, ex.phi})
	}
	g := 0
	if len(alts) > 1 {
		conds := make([]*Term, len(alts))
		for i := range alts {
			conds[i] = alts[i].cond
		}
		g = m.fork(conds)
	}
	a := &alts[g]
	k := 0
	for i := range a.e.copies {
		c := &a.e.copies[i]
		k += copy(fr.s[c.dst:c.dst+c.n], a.phi[k:k+c.n])
	}
	return a.to
}

func (m *Machine) mergePhi(a *regionAlt, ex *regionExit) ([]W, bool) {
	same := true
	for i := range a.phi {
		if a.phi[i] != ex.phi[i] {
			same = false
			break
		}
	}
	if same {
		return a.phi, true
	}
	out := append([]W(nil), a.phi...)
	k := 0
	for i := range ex.e.copies {
		c := &ex.e.copies[i]
		for j := 0; j < c.n; j++ {
			x, y := a.phi[k+j], ex.phi[k+j]
			if x == y {
				continue
			}
			if x.o != nil || y.o != nil || (!c.boolean && c.width == 0) {
				return nil, false
			}
			w := c.width
			if c.boolean {
				w = 0
			}
			t := m.tb.Ite(ex.cond, m.toTerm(y, w), m.toTerm(x, w))
			if t.many || t.uf {
				return nil, false
			}
			out[k+j] = m.fromTerm(t)
		}
		k += c.n
	}
	return out, true
}

func (m *Machine) expand(fr *Frame, e *Edge, cond *Term, exits *[]regionExit, depth int) {
	tb := m.tb
	if cond == tb.ff {
		return
	}
	if m.domainEmpty(cond) {
		return
	}
	to := e.to
	if to.pure && to.single && depth < 64 && len(to.instrs) < 24 && m.tryPure(fr, to) {
		switch to.kind {
		case 'j':
			m.expand(fr, to.edges[0], cond, exits, depth+1)
			return
		case 'i':
			w := fr.get(&to.cond)
			if w.t == nil {
				if w.u != 0 {
					m.expand(fr, to.edges[0], cond, exits, depth+1)
				} else {
					m.expand(fr, to.edges[1], cond, exits, depth+1)
				}
				return
			}
			c1 := tb.And(cond, w.t)
			c0 := tb.And(cond, tb.BNot(w.t))
			m.expand(fr, to.edges[0], c1, exits, depth+1)
			m.expand(fr, to.edges[1], c0, exits, depth+1)
			return
		}
	}
	var phi []W
	for i := range e.copies {
		phi = append(phi, fr.getN(&e.copies[i].src, e.copies[i].n)...)
	}
	*exits = append(*exits, regionExit{e, cond, phi})
}

func (m *Machine) tryPure(fr *Frame, bb *BB) (ok bool) {
	m.region = true
	defer func() {
		m.region = false
		if r := recover(); r != nil {
			if _, is := r.(regionAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, f := range bb.instrs {
		f(fr)
	}
	m.steps += int64(len(bb.instrs))
	return true
}
