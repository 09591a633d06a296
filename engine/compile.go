package main

// Lowering of go/ssa functions to closures over a frame of words.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	m      *Machine
	s      []W
	code   *Code
	defers []deferred
	pan    *goPanic // panic being unwound while this frame's defers run
}

type deferred struct {
	fn func(m *Machine) // performs the call
}

type instrFn func(fr *Frame)

type Edge struct {
	to     *BB
	copies []phiCopy
}

type phiCopy struct {
	dst, n  int
	src     opnd
	boolean bool
	width   uint8 // scalar integer width, 0 if not mergeable
}

type BB struct {
	idx    int
	instrs []instrFn
	pure   bool // only effect-free instructions
	nphi   int
	single bool // exactly one predecessor
	// terminator
	kind  byte // 'j' jump, 'i' if, 'r' return, 'p' panic
	cond  opnd
	edges []*Edge
	ret   []opndN
	pan   opnd
	pos   token.Pos
}

type opndN struct {
	o opnd
	n int
}

type Code struct {
	fn      *ssa.Function
	name    string
	nslots  int
	blocks  []*BB
	nparamW int
	recov   *BB
	hasDef  bool
	intr    func(fr *Frame, args []W)
	ready   bool
	fobj    *Obj
	sig     *types.Signature
	resW    int
}

type opnd struct {
	c []W
	s int
}

func (fr *Frame) get(o *opnd) W {
	if o.c != nil {
		return o.c[0]
	}
	return fr.s[o.s]
}

func (fr *Frame) getN(o *opnd, n int) []W {
	if o.c != nil {
		return o.c[:n]
	}
	return fr.s[o.s : o.s+n]
}

func (m *Machine) codeOf(fn *ssa.Function) *Code {
	if c := m.codes[fn]; c != nil {
		return c
	}
	c := &Code{fn: fn, name: fn.String(), sig: fn.Signature}
	m.codes[fn] = c
	m.nextID++
	c.fobj = &Obj{kind: KFunc, base: true, id: m.nextID, code: c, lay: m.byteLay}
	c.resW = m.words(fn.Signature.Results())
	for _, p := range fn.Params {
		c.nparamW += m.words(p.Type())
	}
	c.intr = m.intrinsic(fn)
	return c
}

type compiler struct {
	m     *Machine
	c     *Code
	slots map[ssa.Value]int
	n     int
	bbs   []*BB
}

func (m *Machine) prepare(c *Code) {
	if c.ready {
		return
	}
	c.ready = true
	if c.intr != nil {
		return
	}
	fn := c.fn
	if fn.Blocks == nil {
		name := c.name
		c.intr = func(fr *Frame, args []W) { fr.m.unsup("function without body: %s", name) }
		return
	}
	cp := &compiler{m: m, c: c, slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		cp.slots[p] = cp.n
		cp.n += m.words(p.Type())
	}
	for _, p := range fn.FreeVars {
		cp.slots[p] = cp.n
		cp.n += m.words(p.Type())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cp.slots[v] = cp.n
				cp.n += cp.valWords(v)
			}
		}
	}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, done := cp.slots[v]; !done {
					cp.slots[v] = cp.n
					cp.n += cp.valWords(v)
				}
			}
		}
	}
	c.nslots = cp.n
	blocks := fn.Blocks
	c.blocks = make([]*BB, len(blocks))
	for i, b := range blocks {
		c.blocks[i] = &BB{idx: i, single: len(b.Preds) == 1, pure: true}
	}
	cp.bbs = c.blocks
	for i, b := range blocks {
		cp.block(c.blocks[i], b)
	}
	if fn.Recover != nil {
		if fn.Recover.Index < len(blocks) && blocks[fn.Recover.Index] == fn.Recover {
			c.recov = c.blocks[fn.Recover.Index]
		} else {
			c.recov = &BB{idx: -1}
			cp.block(c.recov, fn.Recover)
		}
	}
}

func (cp *compiler) valWords(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.Range:
		return 1
	case *ssa.Next:
		if x.IsString {
			return 3
		}
		tup := x.Type().(*types.Tuple)
		n := 1
		for i := 1; i < 3; i++ {
			if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				// unused component: still occupies the map's width
				continue
			}
			n += cp.m.words(tup.At(i).Type())
		}
		return n
	}
	return cp.m.words(v.Type())
}

func (m *Machine) constWords(c *ssa.Const) []W {
	t := types.Default(c.Type())
	n := m.words(t)
	ws := make([]W, n, n+1)
	if c.Value == nil {
		if n == 0 {
			return make([]W, 0, 1)
		}
		return ws
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter constants do not occur after instantiation
		panic(fmt.Sprintf("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		ws[0].u = b2u(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		s := m.strW(constant.StringVal(c.Value))
		copy(ws, s[:])
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			ws[0].u = uint64(math.Float32bits(f32))
		} else {
			ws[0].u = math.Float64bits(f)
		}
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		if b.Kind() == types.Complex64 {
			ws[0].u, ws[1].u = uint64(math.Float32bits(float32(re))), uint64(math.Float32bits(float32(im)))
		} else {
			ws[0].u, ws[1].u = math.Float64bits(re), math.Float64bits(im)
		}
	default:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			ws[0].u = uint64(i)
		} else if u, ok := constant.Uint64Val(v); ok {
			ws[0].u = u
		}
		ws[0].u &= mask(uint8(m.p.sizes.Sizeof(b)) * 8)
	}
	return ws
}

func (cp *compiler) op(v ssa.Value) opnd {
	m := cp.m
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{c: m.constWords(x)}
	case *ssa.Global:
		return opnd{c: []W{{o: m.global(x)}}}
	case *ssa.Function:
		return opnd{c: []W{{o: m.codeOf(x).fobj}}}
	case *ssa.Builtin:
		return opnd{c: []W{{}}}
	}
	s, ok := cp.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v %T in %s", v, v, cp.c.name))
	}
	return opnd{s: s}
}

func (m *Machine) global(g *ssa.Global) *Obj {
	if o := m.globals[g]; o != nil {
		return o
	}
	sv := m.booting
	m.booting = true
	o := m.newObj(g.Type().(*types.Pointer).Elem())
	m.booting = sv
	o.name = g.String()
	m.globals[g] = o
	if g.Pkg != nil && !m.inited[g.Pkg] && !initOK(g.Pkg.Pkg.Path()) {
		o.kind = KIter // poisoned: any access is unsupported
	}
	return o
}

func (cp *compiler) edge(from *ssa.BasicBlock, succ int) *Edge {
	to := from.Succs[succ]
	// which predecessor index is this edge
	pi := -1
	seen := 0
	want := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			want++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if seen == want {
				pi = i
				break
			}
			seen++
		}
	}
	e := &Edge{to: cp.bbs[to.Index]}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := cp.m.words(ph.Type())
		pc := phiCopy{dst: cp.slots[ph], n: n, src: cp.op(ph.Edges[pi])}
		if b, ok := ph.Type().Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				pc.boolean = true
			} else if b.Info()&types.IsInteger != 0 {
				pc.width = uint8(cp.m.p.sizes.Sizeof(b)) * 8
			}
		}
		e.copies = append(e.copies, pc)
	}
	return e
}

func (cp *compiler) block(bb *BB, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			bb.nphi++
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			bb.kind = 'j'
			bb.edges = []*Edge{cp.edge(b, 0)}
			continue
		case *ssa.If:
			bb.kind = 'i'
			bb.cond = cp.op(x.Cond)
			bb.edges = []*Edge{cp.edge(b, 0), cp.edge(b, 1)}
			bb.pos = x.Cond.Pos()
			continue
		case *ssa.Return:
			bb.kind = 'r'
			for _, r := range x.Results {
				bb.ret = append(bb.ret, opndN{cp.op(r), cp.m.words(r.Type())})
			}
			continue
		case *ssa.Panic:
			bb.kind = 'p'
			bb.pan = cp.op(x.X)
			continue
		}
		f, pure := cp.instr(in)
		if !pure {
			bb.pure = false
		}
		if f != nil {
			bb.instrs = append(bb.instrs, f)
		}
	}
	if bb.kind == 'r' || bb.kind == 'p' || bb.nphi > 0 {
		bb.pure = false
	}
}

func typeWidth(m *Machine, t types.Type) (w uint8, signed, float, isbool bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false, false, false
	}
	if b.Info()&types.IsBoolean != 0 {
		return 0, false, false, true
	}
	w = uint8(m.p.sizes.Sizeof(b)) * 8
	return w, b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0, b.Info()&types.IsFloat != 0, false
}

// instr compiles one non-control instruction; pure means it may be evaluated
// speculatively (it aborts the region by itself when it would fork or panic).
func (cp *compiler) instr(in ssa.Instruction) (instrFn, bool) {
	m := cp.m
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cp.slots[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		n := 1
		et := t
		for {
			a, ok := et.Underlying().(*types.Array)
			if !ok {
				break
			}
			n *= int(a.Len())
			et = a.Elem()
		}
		lay := m.layout(et)
		return func(fr *Frame) { fr.s[dst] = W{o: fr.m.newObjN(lay, n)} }, false

	case *ssa.BinOp:
		return cp.binop(x, dst)

	case *ssa.UnOp:
		a := cp.op(x.X)
		switch x.Op {
		case token.MUL:
			lay := m.layout(x.Type())
			n := len(lay.leaves)
			return func(fr *Frame) {
				fr.m.load(fr.get(&a), lay, fr.s[dst:dst+n])
			}, true
		case token.NOT:
			return func(fr *Frame) {
				w := fr.get(&a)
				if w.t != nil {
					fr.s[dst] = fr.m.fromTerm(fr.m.tb.BNot(fr.m.toTerm(w, 0)))
				} else {
					fr.s[dst] = W{u: w.u ^ 1}
				}
			}, true
		case token.SUB:
			w, _, fl, _ := typeWidth(m, x.Type())
			return func(fr *Frame) {
				v := fr.get(&a)
				if v.t == nil {
					if fl {
						fr.s[dst] = W{u: v.u ^ 1<<(w-1)}
					} else {
						fr.s[dst] = W{u: -v.u & mask(w)}
					}
					return
				}
				if fl {
					fr.s[dst] = fr.m.fromTerm(fr.m.tb.bin(OXor, v.t, fr.m.tb.Const(w, 1<<(w-1))))
				} else {
					fr.s[dst] = fr.m.fromTerm(fr.m.tb.Neg(v.t))
				}
			}, true
		case token.XOR:
			w, _, _, _ := typeWidth(m, x.Type())
			return func(fr *Frame) {
				v := fr.get(&a)
				if v.t == nil {
					if v.o != nil {
						fr.m.unsup("^pointer")
					}
					fr.s[dst] = W{u: ^v.u & mask(w)}
					return
				}
				fr.s[dst] = fr.m.fromTerm(fr.m.tb.Not(v.t))
			}, true
		}
		return func(fr *Frame) { fr.m.unsup("unop %v", x.Op) }, false

	case *ssa.Call:
		f := cp.call(&x.Call)
		n := cp.valWords(x)
		return func(fr *Frame) {
			f(fr)
			copy(fr.s[dst:dst+n], fr.m.ret)
		}, false

	case *ssa.Defer:
		f := cp.deferCall(&x.Call)
		cp.c.hasDef = true
		return func(fr *Frame) { fr.defers = append(fr.defers, deferred{f(fr)}) }, false

	case *ssa.RunDefers:
		return func(fr *Frame) { fr.m.runDefers(fr) }, false

	case *ssa.ChangeType:
		a := cp.op(x.X)
		n := m.words(x.Type())
		return func(fr *Frame) { copy(fr.s[dst:dst+n], fr.getN(&a, n)) }, true

	case *ssa.ChangeInterface:
		a := cp.op(x.X)
		it := x.Type()
		return func(fr *Frame) {
			v := fr.getN(&a, 2)
			tw := fr.m.typeWord(dynType(v[0]), it)
			fr.s[dst+1] = v[1]
			fr.s[dst] = tw
		}, true

	case *ssa.Convert:
		return cp.convert(x.X, x.Type(), dst)
	case *ssa.MultiConvert:
		return cp.convert(x.X, x.Type(), dst)

	case *ssa.Extract:
		tup := x.Tuple.Type().(*types.Tuple)
		off := 0
		if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString {
			for i := 0; i < x.Index; i++ {
				t := tup.At(i).Type()
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					continue
				}
				off += m.words(t)
			}
		} else {
			for i := 0; i < x.Index; i++ {
				off += m.words(tup.At(i).Type())
			}
		}
		n := m.words(x.Type())
		a := cp.op(x.Tuple)
		src := a.s + off
		return func(fr *Frame) { copy(fr.s[dst:dst+n], fr.s[src:src+n]) }, true

	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		off := 0
		for i := 0; i < x.Field; i++ {
			off += m.words(st.Field(i).Type())
		}
		n := m.words(x.Type())
		tot := m.words(x.X.Type())
		a := cp.op(x.X)
		return func(fr *Frame) { copy(fr.s[dst:dst+n], fr.getN(&a, tot)[off:off+n]) }, true

	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fs := make([]*types.Var, st.NumFields())
		for i := range fs {
			fs[i] = st.Field(i)
		}
		off := uint64(m.p.sizes.Offsetsof(fs)[x.Field])
		a := cp.op(x.X)
		return func(fr *Frame) {
			p := fr.get(&a)
			if p.o == nil {
				fr.m.nilDeref()
			}
			fr.s[dst] = fr.m.ptrAdd(p, off)
		}, true

	case *ssa.IndexAddr:
		return cp.indexAddr(x, dst)
	case *ssa.Index:
		return cp.index(x, dst)

	case *ssa.Lookup: // map lookup (or string index in old ssa)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return cp.strIndex(cp.op(x.X), cp.op(x.Index), x.Index.Type(), dst)
		}
		mt := x.X.Type().Underlying().(*types.Map)
		a, k := cp.op(x.X), cp.op(x.Index)
		kn := m.words(mt.Key())
		vl := m.layout(mt.Elem())
		vn := len(vl.leaves)
		commaOk := x.CommaOk
		return func(fr *Frame) {
			mo := fr.get(&a).o
			e, _, _ := fr.m.mapFind(mo, fr.getN(&k, kn))
			if e == nil {
				if mo == nil && types.IsInterface(mt.Key()) {
					// nil map: still ok
				}
				for i := 0; i < vn; i++ {
					fr.s[dst+i] = W{}
				}
			} else {
				fr.m.load(W{o: e.v}, vl, fr.s[dst:dst+vn])
			}
			if commaOk {
				fr.s[dst+vn] = W{u: b2u(e != nil)}
			}
		}, false

	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		a, k, v := cp.op(x.Map), cp.op(x.Key), cp.op(x.Value)
		kn, vn := m.words(mt.Key()), m.words(mt.Elem())
		return func(fr *Frame) {
			fr.m.mapSet(fr.get(&a).o, fr.getN(&k, kn), fr.getN(&v, vn))
		}, false

	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.s[dst] = W{o: fr.m.newMap(mt)} }, false

	case *ssa.MakeClosure:
		code := m.codeOf(x.Fn.(*ssa.Function))
		type bn struct {
			o opnd
			n int
		}
		var bs []bn
		tot := 0
		for _, b := range x.Bindings {
			n := m.words(b.Type())
			bs = append(bs, bn{cp.op(b), n})
			tot += n
		}
		return func(fr *Frame) {
			o := fr.m.newKind(KFunc)
			o.code = code
			o.lay = fr.m.byteLay
			o.free = make([]W, 0, tot)
			for i := range bs {
				o.free = append(o.free, fr.getN(&bs[i].o, bs[i].n)...)
			}
			fr.s[dst] = W{o: o}
		}, false

	case *ssa.MakeInterface:
		a := cp.op(x.X)
		t := x.X.Type()
		n := m.words(t)
		it := x.Type()
		to := m.typeOf(t)
		direct := directIface(t)
		return func(fr *Frame) {
			tw := fr.m.typeWord(to, it)
			var d W
			if direct {
				d = fr.get(&a)
			} else {
				d = fr.m.box(t, fr.getN(&a, n))
			}
			fr.s[dst], fr.s[dst+1] = tw, d
		}, false

	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, c := cp.op(x.Len), cp.op(x.Cap)
		lw, _, _, _ := typeWidth(m, x.Len.Type())
		cw, _, _, _ := typeWidth(m, x.Cap.Type())
		return func(fr *Frame) {
			m := fr.m
			ln := m.concretize(fr.get(&l), lw)
			cn := m.concretize(fr.get(&c), cw)
			ln = uint64(sext64(ln, lw))
			cn = uint64(sext64(cn, cw))
			if int64(ln) < 0 || int64(ln) > 1<<40 {
				m.goPanicMsg("runtime error: makeslice: len out of range")
			}
			if int64(cn) < int64(ln) || int64(cn) > 1<<40 {
				m.goPanicMsg("runtime error: makeslice: cap out of range")
			}
			o := m.newSliceObj(et, int(cn))
			fr.s[dst], fr.s[dst+1], fr.s[dst+2] = W{o: o}, W{u: ln}, W{u: cn}
		}, false

	case *ssa.Slice:
		return cp.slice(x, dst)

	case *ssa.SliceToArrayPointer:
		a := cp.op(x.X)
		n := uint64(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s := fr.getN(&a, 3)
			if s[1].t != nil {
				fr.m.unsup("symbolic len")
			}
			if s[1].u < n {
				fr.m.goPanicMsg("runtime error: cannot convert slice to array pointer: length too short")
			}
			fr.s[dst] = s[0]
		}, true

	case *ssa.Store:
		a, v := cp.op(x.Addr), cp.op(x.Val)
		lay := m.layout(x.Val.Type())
		n := len(lay.leaves)
		return func(fr *Frame) { fr.m.store(fr.get(&a), lay, fr.getN(&v, n)) }, false

	case *ssa.TypeAssert:
		return cp.typeAssert(x, dst)

	case *ssa.Range:
		a := cp.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) {
				mo := fr.get(&a).o
				it := fr.m.newKind(KIter)
				it.it = &iterState{ents: fr.m.mapSnapshot(mo), mo: mo}
				fr.s[dst] = W{o: it}
			}, false
		}
		return func(fr *Frame) {
			s := fr.getN(&a, 2)
			it := fr.m.newKind(KIter)
			it.it = &iterState{str: [2]W{s[0], s[1]}}
			fr.s[dst] = W{o: it}
		}, false

	case *ssa.Next:
		return cp.next(x, dst)

	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return func(fr *Frame) { fr.m.unsup("concurrency instruction %T", in) }, false
	}
	return func(fr *Frame) { fr.m.unsup("instruction %T", in) }, false
}

func (m *Machine) newSliceObj(et types.Type, n int) *Obj {
	k := 1
	for {
		a, ok := et.Underlying().(*types.Array)
		if !ok {
			break
		}
		k *= int(a.Len())
		et = a.Elem()
	}
	return m.newObjN(m.layout(et), n*k)
}

func (m *Machine) ptrAdd(p W, off uint64) W {
	if off == 0 {
		return p
	}
	if p.o != nil && p.o.kind == KSymPtr {
		sp := *p.o
		sp.off += off
		return W{o: &sp}
	}
	p.u += off
	return p
}

// index64 widens an index operand to a signed 64-bit value.
func (m *Machine) index64(w W, t types.Type) W {
	wd, sg, _, _ := typeWidth(m, t)
	if w.t != nil {
		if sg {
			return m.fromTerm(m.tb.Sext(w.t, 64))
		}
		return m.fromTerm(m.tb.Zext(w.t, 64))
	}
	if sg {
		return W{u: uint64(sext64(w.u, wd))}
	}
	return w
}

// boundsCheck makes sure 0 <= i < n.
func (m *Machine) boundsCheck(i W, n uint64) {
	if i.o != nil {
		m.unsup("pointer as index")
	}
	if i.t == nil {
		if i.u >= n {
			m.goPanicMsg(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.u), n))
		}
		return
	}
	c := m.tb.Ult(i.t, m.tb.Const(64, n))
	if c == m.tb.tt {
		return
	}
	if !m.branch(c) {
		m.goPanicMsg(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
	}
}

func (m *Machine) elemAddr(base W, i W, n uint64, es uint64) W {
	if i.t == nil {
		return m.ptrAdd(base, i.u*es)
	}
	if base.o != nil && base.o.kind == KSymPtr {
		// two symbolic dimensions: fix the outer one
		oi := m.concretize(W{t: base.o.idx}, 64)
		base = W{o: base.o.other, u: base.o.off + oi*base.o.esize}
	}
	m.nextID++
	return W{o: &Obj{kind: KSymPtr, id: m.nextID, other: base.o, off: base.u, idx: i.t, esize: es, cnt: n, lay: m.byteLay}}
}

func (cp *compiler) indexAddr(x *ssa.IndexAddr, dst int) (instrFn, bool) {
	m := cp.m
	a, ix := cp.op(x.X), cp.op(x.Index)
	ixt := x.Index.Type()
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		es := uint64(m.p.sizes.Sizeof(u.Elem()))
		return func(fr *Frame) {
			s := fr.getN(&a, 3)
			i := fr.get(&ix)
			if i.t != nil || s[1].t != nil {
				if s[1].t != nil {
					fr.m.unsup("symbolic slice length")
				}
			}
			i = fr.m.index64(i, ixt)
			fr.m.boundsCheck(i, s[1].u)
			fr.s[dst] = fr.m.elemAddr(s[0], i, s[1].u, es)
		}, true
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		es := uint64(m.p.sizes.Sizeof(at.Elem()))
		n := uint64(at.Len())
		return func(fr *Frame) {
			p := fr.get(&a)
			if p.o == nil {
				fr.m.nilDeref()
			}
			i := fr.m.index64(fr.get(&ix), ixt)
			fr.m.boundsCheck(i, n)
			fr.s[dst] = fr.m.elemAddr(p, i, n, es)
		}, true
	}
	return func(fr *Frame) { fr.m.unsup("IndexAddr on %v", x.X.Type()) }, false
}

func (cp *compiler) strIndex(a, ix opnd, ixt types.Type, dst int) (instrFn, bool) {
	return func(fr *Frame) {
		s := fr.getN(&a, 2)
		if s[1].t != nil {
			fr.m.unsup("symbolic string length")
		}
		i := fr.m.index64(fr.get(&ix), ixt)
		fr.m.boundsCheck(i, s[1].u)
		if i.t == nil {
			fr.s[dst] = fr.m.byteAt(s[0], i.u)
			return
		}
		var d [1]W
		fr.m.load(fr.m.elemAddr(s[0], i, s[1].u, 1), fr.m.byteLay, d[:])
		fr.s[dst] = d[0]
	}, true
}

func (cp *compiler) index(x *ssa.Index, dst int) (instrFn, bool) {
	m := cp.m
	a, ix := cp.op(x.X), cp.op(x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		return cp.strIndex(a, ix, x.Index.Type(), dst)
	case *types.Array:
		n := uint64(u.Len())
		en := m.words(u.Elem())
		tot := m.words(x.X.Type())
		ixt := x.Index.Type()
		at := x.X.Type()
		lay := m.layout(u.Elem())
		return func(fr *Frame) {
			i := fr.m.index64(fr.get(&ix), ixt)
			fr.m.boundsCheck(i, n)
			if i.t == nil {
				copy(fr.s[dst:dst+en], fr.getN(&a, tot)[int(i.u)*en:int(i.u)*en+en])
				return
			}
			o := fr.m.newObj(at)
			copy(o.cells, fr.getN(&a, tot))
			fr.m.load(fr.m.elemAddr(W{o: o}, i, n, lay.size), lay, fr.s[dst:dst+en])
		}, true
	}
	return func(fr *Frame) { fr.m.unsup("Index on %v", x.X.Type()) }, false
}

func (cp *compiler) slice(x *ssa.Slice, dst int) (instrFn, bool) {
	m := cp.m
	a := cp.op(x.X)
	var lo, hi, mx *opnd
	var lot, hit, mxt types.Type
	if x.Low != nil {
		o := cp.op(x.Low)
		lo, lot = &o, x.Low.Type()
	}
	if x.High != nil {
		o := cp.op(x.High)
		hi, hit = &o, x.High.Type()
	}
	if x.Max != nil {
		o := cp.op(x.Max)
		mx, mxt = &o, x.Max.Type()
	}
	var es, alen uint64
	kind := byte('s')
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		kind, es = 't', 1
	case *types.Slice:
		es = uint64(m.p.sizes.Sizeof(u.Elem()))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		kind, es, alen = 'a', uint64(m.p.sizes.Sizeof(at.Elem())), uint64(at.Len())
	}
	return func(fr *Frame) {
		m := fr.m
		var base W
		var ln, cp uint64
		switch kind {
		case 't':
			s := fr.getN(&a, 2)
			if s[1].t != nil {
				m.unsup("symbolic string length")
			}
			base, ln, cp = s[0], s[1].u, s[1].u
		case 's':
			s := fr.getN(&a, 3)
			if s[1].t != nil || s[2].t != nil {
				m.unsup("symbolic slice length")
			}
			base, ln, cp = s[0], s[1].u, s[2].u
		default:
			base, ln, cp = fr.get(&a), alen, alen
			if base.o == nil {
				m.nilDeref()
			}
		}
		get := func(o *opnd, t types.Type, def uint64) uint64 {
			if o == nil {
				return def
			}
			w := m.index64(fr.get(o), t)
			if w.o != nil {
				m.unsup("pointer as slice bound")
			}
			if w.t != nil {
				// out of range values are a panic; fork on them first
				if !m.branch(m.tb.Ule(w.t, m.tb.Const(64, cp))) {
					m.goPanicMsg("runtime error: slice bounds out of range [symbolic]")
				}
				return m.concretize(w, 64)
			}
			return w.u
		}
		l := get(lo, lot, 0)
		h := get(hi, hit, ln)
		c := get(mx, mxt, cp)
		if c > cp || h > c || l > h {
			m.goPanicMsg(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", int64(l), int64(h), int64(c), cp))
		}
		if c-l != 0 || kind == 't' {
			base = m.ptrAdd(base, l*es)
		}
		fr.s[dst], fr.s[dst+1] = base, W{u: h - l}
		if kind != 't' {
			fr.s[dst+2] = W{u: c - l}
		}
	}, true
}

func (cp *compiler) typeAssert(x *ssa.TypeAssert, dst int) (instrFn, bool) {
	m := cp.m
	a := cp.op(x.X)
	t := x.AssertedType
	n := m.words(t)
	if it, ok := t.Underlying().(*types.Interface); ok {
		return func(fr *Frame) {
			v := fr.getN(&a, 2)
			d := dynType(v[0])
			good := d != nil && fr.m.implements(d, it)
			if !good && !x.CommaOk {
				fr.m.goPanicMsg("interface conversion: missing method or nil: " + t.String())
			}
			if good {
				fr.s[dst+1] = v[1]
				fr.s[dst] = fr.m.typeWord(d, t)
			} else {
				fr.s[dst], fr.s[dst+1] = W{}, W{}
			}
			if x.CommaOk {
				fr.s[dst+2] = W{u: b2u(good)}
			}
		}, true
	}
	to := m.typeOf(t)
	return func(fr *Frame) {
		v := fr.getN(&a, 2)
		d := dynType(v[0])
		if d == to {
			fr.m.unbox(t, v[1], fr.s[dst:dst+n])
		} else {
			if !x.CommaOk {
				dn := "nil"
				if d != nil {
					dn = d.typ.String()
				}
				fr.m.goPanicMsg("interface conversion: interface is " + dn + ", not " + t.String())
			}
			for i := 0; i < n; i++ {
				fr.s[dst+i] = W{}
			}
		}
		if x.CommaOk {
			fr.s[dst+n] = W{u: b2u(d == to)}
		}
	}, true
}

func (m *Machine) implements(d *Obj, it *types.Interface) bool {
	k := implKey{d, it}
	if r, ok := m.impl[k]; ok {
		return r
	}
	// a value whose dynamic type is an interface (only unsafe code can make one) has no methods
	r := types.Implements(d.typ, it) && (it.NumMethods() == 0 || !types.IsInterface(d.typ))
	m.impl[k] = r
	return r
}

func (cp *compiler) next(x *ssa.Next, dst int) (instrFn, bool) {
	m := cp.m
	a := cp.op(x.Iter)
	tup := x.Type().(*types.Tuple)
	bad := func(i int) bool {
		b, ok := tup.At(i).Type().(*types.Basic)
		return ok && b.Kind() == types.Invalid
	}
	if x.IsString {
		bk, bv := bad(1), bad(2)
		return func(fr *Frame) {
			it := fr.get(&a).o.it
			n := it.str[1].u
			if it.off >= n {
				fr.s[dst] = W{}
				return
			}
			r, size := fr.m.decodeRune(W{o: it.str[0].o, u: it.str[0].u + it.off}, n-it.off)
			fr.s[dst] = W{u: 1}
			k := dst + 1
			if !bk {
				fr.s[k] = W{u: it.off}
				k++
			}
			if !bv {
				fr.s[k] = r
			}
			it.off += size
		}, false
	}
	kn, vn := 0, 0
	if !bad(1) {
		kn = m.words(tup.At(1).Type())
	}
	if !bad(2) {
		vn = m.words(tup.At(2).Type())
	}
	return func(fr *Frame) {
		it := fr.get(&a).o.it
		for {
			if it.pos >= len(it.ents) {
				fr.s[dst] = W{}
				for i := 0; i < kn+vn; i++ {
					fr.s[dst+1+i] = W{}
				}
				return
			}
			e := it.ents[it.pos]
			it.pos++
			// the entry may have been deleted or the table cloned meanwhile
			alive := false
			fr.m.trackMap(it.mo, false)
			for _, c := range it.mo.mp.ents {
				if c.k == e.k && !c.dead {
					alive = true
					break
				}
			}
			if !alive {
				continue
			}
			fr.s[dst] = W{u: 1}
			if kn > 0 {
				copy(fr.s[dst+1:dst+1+kn], e.k.cells)
			}
			if vn > 0 {
				copy(fr.s[dst+1+kn:dst+1+kn+vn], e.v.cells)
			}
			return
		}
	}, false
}
