package main

// Values, memory and the per-worker abstract machine.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(3)
}

// W is one machine word or smaller scalar: a concrete integer (u), a symbolic
// one (t), or a pointer (o plus byte offset u).
type W struct {
	t *Term
	o *Obj
	u uint64
}

type OKind uint8

const (
	KData OKind = iota
	KMap
	KFunc
	KType
	KItab
	KSymPtr
	KIter
)

type Obj struct {
	kind  OKind
	base  bool // allocated during initialisation: writes are undone after a path
	ro    bool
	id    int64
	lay   *Layout
	n     int
	cells []W
	mp    *MapData
	mtyp  *types.Map
	code  *Code
	free  []W
	typ   types.Type
	other *Obj // type<->itab
	// symbolic pointer
	idx   *Term
	off   uint64
	esize uint64
	cnt   uint64
	// iterator
	it   *iterState
	name string
}

type leafKind uint8

const (
	lkInt leafKind = iota
	lkBool
	lkFloat
	lkPtr // anything that may hold a pointer
)

type Leaf struct {
	off  uint32
	size uint8
	kind leafKind
	sig  bool
}

type Layout struct {
	size   uint64
	leaves []Leaf
	leafAt []int32
}

type MapEnt struct {
	k, v *Obj
	key  string
	sym  bool
	dead bool
}

type MapData struct {
	ents  []*MapEnt
	index map[string]*MapEnt
	n     int
	owned bool // private to the current path
	nsym  int
}

type undoRec struct {
	o   *Obj
	i   int
	old W
	mp  *MapData
}

type Prog struct {
	prog   *ssa.Program
	sizes  types.Sizes
	fset   *token.FileSet
	pkgs   []*ssa.Package
	byPath map[string]*ssa.Package
	link   map[string]string // "pkg.name" -> linkname target
}

type goPanic struct {
	val       [2]W
	msg       string
	rt        bool
	recovered bool
}

// control-flow panics of the engine itself
type pathEnd struct{ why string }
type unsupported struct{ msg string }
type regionAbort struct{}
type budgetEnd struct{ what string }

type Machine struct {
	rng       uint64
	p         *Prog
	tb        *TB
	solver    *Solver
	layouts   typeutil.Map
	typeObj   typeutil.Map
	codes     map[*ssa.Function]*Code
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]bool
	methods   map[methodKey]*Code
	impl      map[implKey]bool
	strObjs   map[string]*Obj
	nextID    int64
	booting   bool
	undo      []undoRec
	ret       []W
	stack     []W
	sp        int
	depth     int
	steps     int64
	maxStep   int64
	region    bool
	params    map[string]int64
	panics    []*goPanic
	pools     map[poolKey][][2]W
	locks     map[poolKey]int
	basePools map[poolKey][][2]W
	cover     map[string]bool
	path      *PathState
	ex        *Explorer
	funcHit   map[*ssa.Function]int64
	byteLay   *Layout
	trace     bool
	didSetup  map[string]bool
	maxDepth  int
	deadline  time.Time
	curFn     []*Code
	par       *parState
}

type poolKey struct {
	o *Obj
	u uint64
}
type methodKey struct {
	t    *Obj
	name string
}
type implKey struct {
	t *Obj
	i *types.Interface
}

func newMachine(p *Prog, ex *Explorer) *Machine {
	m := &Machine{p: p, tb: newTB(), ex: ex,
		codes: map[*ssa.Function]*Code{}, globals: map[*ssa.Global]*Obj{},
		inited: map[*ssa.Package]bool{}, methods: map[methodKey]*Code{}, impl: map[implKey]bool{},
		strObjs: map[string]*Obj{}, pools: map[poolKey][][2]W{}, locks: map[poolKey]int{},
		cover: map[string]bool{}, funcHit: map[*ssa.Function]int64{}, maxStep: 5_000_000, maxDepth: 1200, didSetup: map[string]bool{}}
	m.stack = make([]W, 1<<16)
	m.byteLay = m.layout(types.Typ[types.Uint8])
	return m
}

func (m *Machine) unsup(f string, a ...interface{}) {
	if m.region {
		panic(regionAbort{})
	}
	msg := fmt.Sprintf(f, a...)
	if n := len(m.curFn); n > 0 {
		msg += " [in " + m.curFn[n-1].name + "]"
	}
	panic(unsupported{msg})
}

// ---- layouts ----

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (m *Machine) layout(t types.Type) *Layout {
	if l := m.layouts.At(t); l != nil {
		return l.(*Layout)
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		d := types.Default(t)
		if b.Kind() == types.UntypedNil {
			d = types.Typ[types.UnsafePointer]
		}
		return m.layout(d)
	}
	l := &Layout{size: uint64(m.p.sizes.Sizeof(t))}
	m.flatten(t, 0, l)
	l.leafAt = make([]int32, l.size)
	for i := range l.leafAt {
		l.leafAt[i] = -1
	}
	for i, lf := range l.leaves {
		l.leafAt[lf.off] = int32(i)
	}
	m.layouts.Set(t, l)
	return l
}

func (m *Machine) flatten(t types.Type, off uint64, l *Layout) {
	add := func(o uint64, size uint8, k leafKind, sig bool) {
		l.leaves = append(l.leaves, Leaf{uint32(o), size, k, sig})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			add(off, 1, lkBool, false)
		case u.Info()&types.IsString != 0:
			add(off, 8, lkPtr, false)
			add(off+8, 8, lkInt, true)
		case u.Info()&types.IsFloat != 0:
			add(off, uint8(m.p.sizes.Sizeof(u)), lkFloat, true)
		case u.Info()&types.IsComplex != 0:
			s := uint8(m.p.sizes.Sizeof(u)) / 2
			add(off, s, lkFloat, true)
			add(off+uint64(s), s, lkFloat, true)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr:
			add(off, 8, lkPtr, false)
		case u.Kind() == types.UntypedNil:
			add(off, 8, lkPtr, false)
		case u.Kind() == types.Invalid:
		default:
			add(off, uint8(m.p.sizes.Sizeof(u)), lkInt, u.Info()&types.IsUnsigned == 0)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		add(off, 8, lkPtr, false)
	case *types.Slice:
		add(off, 8, lkPtr, false)
		add(off+8, 8, lkInt, true)
		add(off+16, 8, lkInt, true)
	case *types.Interface:
		add(off, 8, lkPtr, false)
		add(off+8, 8, lkPtr, false)
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := m.p.sizes.Offsetsof(fs)
		for i := range fs {
			m.flatten(fs[i].Type(), off+uint64(offs[i]), l)
		}
	case *types.Array:
		es := uint64(m.p.sizes.Sizeof(u.Elem()))
		if u.Len() > 1<<16 {
			m.unsup("array too large in layout: %v", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			m.flatten(u.Elem(), off+uint64(i)*es, l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			// tuples live only in registers; give them disjoint pseudo offsets
			m.flatten(u.At(i).Type(), off, l)
		}
	default:
		m.unsup("layout of %v (%T)", t, u)
	}
}

// words is the number of register words of a type.
func (m *Machine) words(t types.Type) int {
	if tp, ok := t.(*types.Tuple); ok {
		n := 0
		for i := 0; i < tp.Len(); i++ {
			n += m.words(tp.At(i).Type())
		}
		return n
	}
	return len(m.layout(t).leaves)
}

// ---- objects ----

func (m *Machine) newObjN(lay *Layout, n int) *Obj {
	m.nextID++
	if n < 0 || n*len(lay.leaves) > 1<<22 {
		m.unsup("allocation too large: %d", n)
	}
	return &Obj{kind: KData, base: m.booting, id: m.nextID, lay: lay, n: n, cells: make([]W, n*len(lay.leaves))}
}

func (m *Machine) newObj(t types.Type) *Obj {
	n := 1
	for {
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			break
		}
		n *= int(a.Len())
		t = a.Elem()
	}
	return m.newObjN(m.layout(t), n)
}

func (m *Machine) newKind(k OKind) *Obj {
	m.nextID++
	return &Obj{kind: k, base: m.booting, id: m.nextID}
}

// strPtr returns a pointer to read-only bytes of s.
func (m *Machine) strPtr(s string) W {
	if len(s) == 0 {
		return W{}
	}
	if o := m.strObjs[s]; o != nil {
		return W{o: o}
	}
	m.nextID++
	o := &Obj{kind: KData, base: true, ro: true, id: m.nextID, lay: m.byteLay, n: len(s), cells: make([]W, len(s))}
	for i := 0; i < len(s); i++ {
		o.cells[i].u = uint64(s[i])
	}
	m.strObjs[s] = o
	return W{o: o}
}

func (m *Machine) strW(s string) [2]W { return [2]W{m.strPtr(s), {u: uint64(len(s))}} }

func (m *Machine) typeOf(t types.Type) *Obj {
	if o := m.typeObj.At(t); o != nil {
		return o.(*Obj)
	}
	m.nextID++
	o := &Obj{kind: KType, base: true, id: m.nextID, typ: t, lay: m.byteLay}
	m.nextID++
	o.other = &Obj{kind: KItab, base: true, id: m.nextID, typ: t, other: o, lay: m.layout(types.Typ[types.Uintptr]), n: 2, cells: []W{{}, {o: o}}}
	m.typeObj.Set(t, o)
	return o
}

// dynType maps the type word of an interface to its type object.
func dynType(w W) *Obj {
	if w.o == nil {
		return nil
	}
	if w.o.kind == KItab {
		return w.o.other
	}
	return w.o
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// typeWord is the first word of an interface value of static type it.
func (m *Machine) typeWord(dyn *Obj, it types.Type) W {
	if dyn == nil {
		return W{}
	}
	if isEmptyIface(it) {
		return W{o: dyn}
	}
	return W{o: dyn.other}
}

// directIface reports whether values of t are stored directly in the data word.
func directIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && directIface(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && directIface(u.Elem())
	}
	return false
}

func (m *Machine) box(t types.Type, ws []W) W {
	if directIface(t) {
		return ws[0]
	}
	o := m.newObj(t)
	copy(o.cells, ws)
	return W{o: o}
}

func (m *Machine) unbox(t types.Type, data W, dst []W) {
	if directIface(t) {
		dst[0] = data
		return
	}
	m.load(data, m.layout(t), dst)
}

func (o *Obj) bytes() uint64 { return uint64(o.n) * o.lay.size }

// cellIndex maps a byte offset to a cell, or -1.
func (o *Obj) cellIndex(off uint64) int {
	l := o.lay
	if l.size == 1 {
		if off < uint64(o.n) {
			return int(off)
		}
		return -1
	}
	if l.size == 0 {
		return -1
	}
	e := off / l.size
	if e >= uint64(o.n) {
		return -1
	}
	i := l.leafAt[off-e*l.size]
	if i < 0 {
		return -1
	}
	return int(e)*len(l.leaves) + int(i)
}

func (o *Obj) leafOf(cell int) Leaf { return o.lay.leaves[cell%len(o.lay.leaves)] }

func (m *Machine) nilDeref() {
	m.goPanicMsg("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) goPanicMsg(msg string) {
	if m.region {
		panic(regionAbort{})
	}
	s := m.strW(msg)
	w := [2]W{{o: m.typeOf(types.Typ[types.String])}, m.box(types.Typ[types.String], s[:])}
	panic(&goPanic{val: w, msg: msg + m.where(), rt: true})
}

func (m *Machine) where() string {
	var sb strings.Builder
	for i := len(m.curFn) - 1; i >= 0 && i >= len(m.curFn)-6; i-- {
		sb.WriteString(" < " + m.curFn[i].name)
	}
	return sb.String()
}

func (m *Machine) load(p W, lay *Layout, dst []W) {
	o := p.o
	if o == nil {
		if p.t != nil {
			m.unsup("load through symbolic integer")
		}
		if len(lay.leaves) == 0 && p.u != 0 {
			return
		}
		m.nilDeref()
	}
	switch o.kind {
	case KData, KItab:
	case KSymPtr:
		m.loadSym(o, lay, dst)
		return
	default:
		if len(lay.leaves) == 0 {
			return
		}
		m.unsup("load from object kind %d %v", o.kind, o.typ)
	}
	if p.t != nil {
		m.unsup("load through symbolic pointer")
	}
	if len(lay.leaves) == 0 {
		return
	}
	if m.par != nil {
		m.track(o, p.u, lay, false)
	}
	if lay.size == 1 && o.lay.size == 1 && lay == o.lay {
		if p.u >= uint64(len(o.cells)) {
			m.oob(p, lay)
		}
		dst[0] = o.cells[p.u]
		return
	}
	if o.lay == lay && p.u%lay.size == 0 {
		i := p.u / lay.size
		if i >= uint64(o.n) {
			m.oob(p, lay)
		}
		n := len(lay.leaves)
		copy(dst[:n], o.cells[int(i)*n:int(i)*n+n])
		return
	}
	for k, lf := range lay.leaves {
		i := o.cellIndex(p.u + uint64(lf.off))
		if i < 0 {
			if v, ok := m.loadMixed(o, p.u+uint64(lf.off), lf); ok {
				dst[k] = v
				continue
			}
			m.oob(p, lay)
		}
		sl := o.leafOf(i)
		if sl.size != lf.size {
			if v, ok := m.loadMixed(o, p.u+uint64(lf.off), lf); ok {
				dst[k] = v
				continue
			}
			m.unsup("load size mismatch: %d vs %d", lf.size, sl.size)
		}
		w := o.cells[i]
		if w.t != nil && w.o == nil && w.t.w == 0 && lf.kind != lkBool {
			w = W{t: m.tb.Ite(w.t, m.tb.Const(8, 1), m.tb.Const(8, 0))}
		} else if w.t != nil && w.o == nil && w.t.w == 8 && lf.kind == lkBool {
			w = W{t: m.tb.BNot(m.tb.Eq(w.t, m.tb.Const(8, 0)))}
		}
		dst[k] = w
	}
}

// loadMixed assembles an integer from narrower cells (little endian) or cuts a
// piece out of a wider one.
func (m *Machine) loadMixed(o *Obj, off uint64, lf Leaf) (W, bool) {
	if o.lay.size == 0 {
		return W{}, false
	}
	var parts []W
	var sizes []uint8
	end := off + uint64(lf.size)
	for q := off; q < end; {
		i := o.cellIndex(q)
		if i < 0 {
			return W{}, false
		}
		sl := o.leafOf(i)
		if q+uint64(sl.size) > end {
			if q == off && o.cells[i].o == nil && o.cells[i].t == nil {
				return W{u: o.cells[i].u & mask(lf.size*8)}, true
			}
			return W{}, false
		}
		if o.cells[i].o != nil || sl.kind == lkBool && o.cells[i].t != nil {
			return W{}, false
		}
		parts = append(parts, o.cells[i])
		sizes = append(sizes, sl.size)
		q += uint64(sl.size)
	}
	var u uint64
	conc := true
	sh := uint(0)
	for i, w := range parts {
		if w.t != nil {
			conc = false
			break
		}
		u |= w.u << sh
		sh += uint(sizes[i]) * 8
	}
	if conc {
		return W{u: u}, true
	}
	t := m.toTerm(parts[0], sizes[0]*8)
	for i := 1; i < len(parts); i++ {
		t = m.tb.Concat(m.toTerm(parts[i], sizes[i]*8), t)
	}
	return W{t: t}, true
}

func (m *Machine) oob(p W, lay *Layout) {
	m.goPanicMsg(fmt.Sprintf("MEMORY: access of %d bytes at offset %d of an object of %d bytes", lay.size, int64(p.u), p.o.bytes()))
}

func (m *Machine) setCell(o *Obj, i int, w W) {
	if o.base && !m.booting {
		m.undo = append(m.undo, undoRec{o: o, i: i, old: o.cells[i]})
	}
	o.cells[i] = w
}

func (m *Machine) store(p W, lay *Layout, src []W) {
	if m.region {
		panic(regionAbort{})
	}
	o := p.o
	if o == nil {
		if p.t != nil {
			m.unsup("store through symbolic integer")
		}
		m.nilDeref()
	}
	switch o.kind {
	case KData:
	case KSymPtr:
		i := m.concretize(W{t: o.idx}, 64)
		m.store(W{o: o.other, u: o.off + i*o.esize}, lay, src)
		return
	default:
		if len(lay.leaves) == 0 {
			return
		}
		m.unsup("store to object kind %d", o.kind)
	}
	if o.ro {
		m.goPanicMsg("MEMORY: write to read-only string data")
	}
	if len(lay.leaves) == 0 {
		return
	}
	if m.par != nil {
		m.track(o, p.u, lay, true)
	}
	if o.lay == lay && p.u%lay.size == 0 {
		i := p.u / lay.size
		if i >= uint64(o.n) {
			m.oob(p, lay)
		}
		n := len(lay.leaves)
		b := int(i) * n
		if o.base && !m.booting {
			for k := 0; k < n; k++ {
				m.setCell(o, b+k, src[k])
			}
		} else {
			copy(o.cells[b:b+n], src[:n])
		}
		return
	}
	for k, lf := range lay.leaves {
		i := o.cellIndex(p.u + uint64(lf.off))
		if i < 0 {
			m.oob(p, lay)
		}
		sl := o.leafOf(i)
		if sl.size != lf.size {
			m.unsup("store size mismatch: %d vs %d", lf.size, sl.size)
		}
		w := src[k]
		if w.t != nil && w.o == nil && w.t.w == 0 && sl.kind != lkBool {
			w = W{t: m.tb.Ite(w.t, m.tb.Const(8, 1), m.tb.Const(8, 0))}
		} else if w.t != nil && w.o == nil && w.t.w == 8 && sl.kind == lkBool {
			w = W{t: m.tb.BNot(m.tb.Eq(w.t, m.tb.Const(8, 0)))}
		}
		m.setCell(o, i, w)
	}
}

// loadSym loads through base[idx] with a symbolic idx.
func (m *Machine) loadSym(sp *Obj, lay *Layout, dst []W) {
	lo, hi := sp.idx.lo, sp.idx.hi
	if hi >= sp.cnt {
		hi = sp.cnt - 1
	}
	if hi-lo > 4096 {
		m.unsup("symbolic index range too large")
	}
	n := len(lay.leaves)
	rows := make([][]W, hi-lo+1)
	allInt := true
	anySym := false
	for i := lo; i <= hi; i++ {
		r := make([]W, n)
		m.load(W{o: sp.other, u: sp.off + i*sp.esize}, lay, r)
		rows[i-lo] = r
		for _, w := range r {
			if w.o != nil {
				allInt = false
			}
			if w.t != nil {
				anySym = true
			}
		}
	}
	if allInt && !anySym {
		intKinds := true
		for _, lf := range lay.leaves {
			if lf.kind == lkPtr {
				intKinds = false
			}
		}
		if intKinds {
			for k, lf := range lay.leaves {
				vals := make([]uint64, hi+1)
				for i := lo; i <= hi; i++ {
					vals[i] = rows[i-lo][k].u
				}
				if lf.kind == lkBool {
					tt := m.tb.Table(8, vals, sp.idx)
					dst[k] = m.fromTerm(m.tb.BNot(m.tb.Eq(tt, m.tb.Const(8, 0))))
				} else {
					dst[k] = m.fromTerm(m.tb.Table(lf.size*8, vals, sp.idx))
				}
			}
			return
		}
	}
	if allInt && anySym && hi-lo < 64 {
		ok := true
		for _, lf := range lay.leaves {
			if lf.kind == lkPtr {
				ok = false
			}
		}
		if ok {
			for k, lf := range lay.leaves {
				w := lf.size * 8
				if lf.kind == lkBool {
					w = 0
				}
				acc := m.toTerm(rows[hi-lo][k], w)
				for i := hi; i > lo; i-- {
					acc = m.tb.Ite(m.tb.Eq(sp.idx, m.tb.Const(sp.idx.w, i-1)), m.toTerm(rows[i-1-lo][k], w), acc)
				}
				dst[k] = m.fromTerm(acc)
			}
			return
		}
	}
	// group rows by value and fork over the groups
	group := map[string]int{}
	gid := make([]uint64, hi+1)
	var reps [][]W
	for i := lo; i <= hi; i++ {
		var sb strings.Builder
		for _, w := range rows[i-lo] {
			fmt.Fprintf(&sb, "%p.%x.", w.o, w.u)
			if w.t != nil {
				fmt.Fprintf(&sb, "t%d", w.t.id)
			}
		}
		g, ok := group[sb.String()]
		if !ok {
			g = len(reps)
			group[sb.String()] = g
			reps = append(reps, rows[i-lo])
		}
		gid[i] = uint64(g)
	}
	if len(reps) == 1 {
		copy(dst, reps[0])
		return
	}
	gt := m.tb.Table(32, gid, sp.idx)
	conds := make([]*Term, len(reps))
	for g := range reps {
		conds[g] = m.tb.Eq(gt, m.tb.Const(32, uint64(g)))
	}
	g := m.fork(conds)
	copy(dst, reps[g])
}

// ---- terms from words ----

func (m *Machine) toTerm(w W, width uint8) *Term {
	if w.t != nil && w.o == nil {
		if w.t.w != width {
			if width == 0 {
				return m.tb.BNot(m.tb.Eq(w.t, m.tb.Const(w.t.w, 0)))
			}
			if w.t.w == 0 {
				return m.tb.Ite(w.t, m.tb.Const(width, 1), m.tb.Const(width, 0))
			}
			m.unsup("width mismatch %d vs %d", w.t.w, width)
		}
		return w.t
	}
	if w.o != nil {
		m.unsup("pointer used as integer")
	}
	if width == 0 {
		return m.tb.Bool(w.u != 0)
	}
	return m.tb.Const(width, w.u)
}

func (m *Machine) fromTerm(t *Term) W {
	if t.isConst() {
		return W{u: t.constVal()}
	}
	return W{t: t}
}

// ---- undo ----

func (m *Machine) revert() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		r := m.undo[i]
		if r.mp != nil {
			r.o.mp = r.mp
		} else {
			r.o.cells[r.i] = r.old
		}
		m.undo[i] = undoRec{}
	}
	m.undo = m.undo[:0]
}

// ---- maps ----

func (m *Machine) newMap(t *types.Map) *Obj {
	o := m.newKind(KMap)
	o.mtyp = t
	o.mp = &MapData{index: map[string]*MapEnt{}}
	o.lay = m.byteLay
	return o
}

func (m *Machine) mapOwn(o *Obj) *MapData {
	if m.region {
		panic(regionAbort{})
	}
	if !o.base || m.booting {
		return o.mp
	}
	if o.mp.owned {
		return o.mp
	}
	old := o.mp
	m.undo = append(m.undo, undoRec{o: o, mp: old})
	n := &MapData{index: make(map[string]*MapEnt, len(old.index)), n: old.n, nsym: old.nsym, owned: true}
	for _, e := range old.ents {
		c := *e
		n.ents = append(n.ents, &c)
		if !c.sym && !c.dead {
			n.index[c.key] = n.ents[len(n.ents)-1]
		}
	}
	o.mp = n
	return n
}

// mapKey builds a canonical key for concrete key words.
func (m *Machine) mapKey(t types.Type, ws []W, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if ws[1].t != nil {
				m.unsup("symbolic string length")
			}
			n := int(ws[1].u)
			fmt.Fprintf(sb, "s%d:", n)
			for i := 0; i < n; i++ {
				b := m.byteAt(ws[0], uint64(i))
				if b.t != nil {
					return false
				}
				sb.WriteByte(byte(b.u))
			}
			return true
		}
		if ws[0].t != nil {
			return false
		}
		if u.Info()&types.IsFloat != 0 && ws[0].u<<1 == 0 {
			sb.WriteString("f0;") // +0 == -0
			return true
		}
		if ws[0].o != nil {
			fmt.Fprintf(sb, "p%d+%d;", ws[0].o.id, ws[0].u)
			return true
		}
		fmt.Fprintf(sb, "i%d;", ws[0].u)
		return true
	case *types.Interface:
		d := dynType(ws[0])
		if d == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "T%d(", d.id)
		l := m.layout(d.typ)
		tmp := make([]W, len(l.leaves)+1)
		m.unbox(d.typ, ws[1], tmp)
		ok := m.mapKey(d.typ, tmp, sb)
		sb.WriteByte(')')
		return ok
	case *types.Pointer, *types.Chan:
		if ws[0].o != nil {
			fmt.Fprintf(sb, "p%d+%d;", ws[0].o.id, ws[0].u)
		} else {
			sb.WriteString("p0;")
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n := m.words(u.Field(i).Type())
			if !m.mapKey(u.Field(i).Type(), ws[:n], sb) {
				return false
			}
			ws = ws[n:]
		}
		return true
	case *types.Array:
		n := m.words(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			if !m.mapKey(u.Elem(), ws[:n], sb) {
				return false
			}
			ws = ws[n:]
		}
		return true
	}
	m.goPanicMsg("runtime error: hash of unhashable type " + t.String())
	return false
}

func (m *Machine) mapFind(o *Obj, ws []W) (*MapEnt, string, bool) {
	if o == nil || o.mp == nil {
		return nil, "", false
	}
	m.trackMap(o, false)
	d := o.mp
	var sb strings.Builder
	conc := m.mapKey(o.mtyp.Key(), ws, &sb)
	key := sb.String()
	if conc && d.nsym == 0 {
		return d.index[key], key, true
	}
	if conc {
		if e := d.index[key]; e != nil {
			return e, key, true
		}
	}
	// symbolic: fork over the entries that may be equal
	var cands []*MapEnt
	var conds []*Term
	rest := m.tb.tt
	kl := m.layout(o.mtyp.Key())
	for _, e := range d.ents {
		if e.dead || conc && !e.sym {
			continue
		}
		kw := make([]W, len(kl.leaves))
		m.load(W{o: e.k}, kl, kw)
		eq := m.eqTerm(o.mtyp.Key(), ws, kw)
		if eq == m.tb.ff {
			continue
		}
		c := m.tb.And(rest, eq)
		cands = append(cands, e)
		conds = append(conds, c)
		rest = m.tb.And(rest, m.tb.BNot(eq))
		if rest == m.tb.ff {
			break
		}
	}
	if rest != m.tb.ff {
		conds = append(conds, rest)
		cands = append(cands, nil)
	}
	g := 0
	if len(conds) > 1 {
		g = m.fork(conds)
	}
	return cands[g], key, conc
}

func (m *Machine) mapSet(o *Obj, kws, vws []W) {
	if o == nil {
		m.goPanicMsg("assignment to entry in nil map")
	}
	m.trackMap(o, true)
	e, key, conc := m.mapFind(o, kws)
	vl := m.layout(o.mtyp.Elem())
	if e != nil {
		m.store(W{o: e.v}, vl, vws)
		return
	}
	d := m.mapOwn(o)
	ko := m.newObjN(m.layout(o.mtyp.Key()), 1)
	copy(ko.cells, kws)
	vo := m.newObjN(vl, 1)
	copy(vo.cells, vws)
	e = &MapEnt{k: ko, v: vo, key: key, sym: !conc}
	d.ents = append(d.ents, e)
	d.n++
	if conc {
		d.index[key] = e
	} else {
		d.nsym++
	}
}

func (m *Machine) mapDelete(o *Obj, kws []W) {
	if o == nil {
		return
	}
	m.trackMap(o, true)
	e, _, _ := m.mapFind(o, kws)
	if e == nil {
		return
	}
	at := -1
	for i, x := range o.mp.ents {
		if x == e {
			at = i
		}
	}
	d := m.mapOwn(o)
	e = d.ents[at]
	e.dead = true
	d.n--
	if e.sym {
		d.nsym--
	} else {
		delete(d.index, e.key)
	}
}

type iterState struct {
	ents []*MapEnt
	mo   *Obj
	pos  int
	str  [2]W // string iteration
	off  uint64
}

func (m *Machine) mapSnapshot(o *Obj) []*MapEnt {
	if o == nil {
		return nil
	}
	m.trackMap(o, false)
	var r []*MapEnt
	for _, e := range o.mp.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}

// byteAt reads a byte at p+i.
func (m *Machine) byteAt(p W, i uint64) W {
	if p.o != nil && p.o.kind == KData && p.o.lay.size == 1 && len(p.o.lay.leaves) == 1 && p.t == nil {
		off := p.u + i
		if off < uint64(len(p.o.cells)) {
			if m.par != nil {
				m.track(p.o, off, m.byteLay, false)
			}
			w := p.o.cells[off]
			if w.t == nil || w.t.w == 8 {
				return w
			}
		}
	}
	var d [1]W
	m.load(W{o: p.o, u: p.u + i, t: p.t}, m.byteLay, d[:])
	return d[0]
}

// concreteString extracts a Go string when every byte is concrete.
func (m *Machine) concreteString(p W, n W) (string, bool) {
	if n.t != nil {
		return "", false
	}
	b := make([]byte, n.u)
	for i := range b {
		w := m.byteAt(p, uint64(i))
		if w.t != nil {
			return "", false
		}
		b[i] = byte(w.u)
	}
	return string(b), true
}

// eqTerm builds the equality of two values of type t.
func (m *Machine) eqTerm(t types.Type, a, b []W) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if a[1].t != nil || b[1].t != nil {
				m.unsup("symbolic string length in ==")
			}
			if a[1].u != b[1].u {
				return m.tb.ff
			}
			return m.bytesEq(a[0], b[0], a[1].u)
		}
		if u.Info()&types.IsFloat != 0 {
			w := uint8(m.p.sizes.Sizeof(u)) * 8
			return m.tb.FP("eq", 0, m.toTerm(a[0], w), m.toTerm(b[0], w))
		}
		if u.Info()&types.IsComplex != 0 {
			w := uint8(m.p.sizes.Sizeof(u)) * 4
			return m.tb.And(m.tb.FP("eq", 0, m.toTerm(a[0], w), m.toTerm(b[0], w)), m.tb.FP("eq", 0, m.toTerm(a[1], w), m.toTerm(b[1], w)))
		}
		if u.Info()&types.IsBoolean != 0 {
			return m.tb.Eq(m.toTerm(a[0], 0), m.toTerm(b[0], 0))
		}
		return m.scalarEq(a[0], b[0], uint8(m.p.sizes.Sizeof(u))*8)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return m.scalarEq(a[0], b[0], 64)
	case *types.Slice:
		// only comparison with nil is legal
		return m.scalarEq(a[0], b[0], 64)
	case *types.Interface:
		da, db := dynType(a[0]), dynType(b[0])
		if da != db {
			return m.tb.ff
		}
		if da == nil {
			return m.tb.tt
		}
		if !types.Comparable(da.typ) {
			m.goPanicMsg("runtime error: comparing uncomparable type " + da.typ.String())
		}
		n := m.words(da.typ)
		x, y := make([]W, n+1), make([]W, n+1)
		m.unbox(da.typ, a[1], x)
		m.unbox(da.typ, b[1], y)
		return m.eqTerm(da.typ, x, y)
	case *types.Struct:
		r := m.tb.tt
		for i := 0; i < u.NumFields(); i++ {
			n := m.words(u.Field(i).Type())
			if u.Field(i).Name() != "_" {
				r = m.tb.And(r, m.eqTerm(u.Field(i).Type(), a[:n], b[:n]))
			}
			a, b = a[n:], b[n:]
		}
		return r
	case *types.Array:
		n := m.words(u.Elem())
		r := m.tb.tt
		for i := int64(0); i < u.Len(); i++ {
			r = m.tb.And(r, m.eqTerm(u.Elem(), a[:n], b[:n]))
			a, b = a[n:], b[n:]
		}
		return r
	}
	m.unsup("== on %v", t)
	return nil
}

func (m *Machine) scalarEq(a, b W, w uint8) *Term {
	if a.o != nil || b.o != nil {
		if a.o != nil && a.o.kind == KSymPtr || b.o != nil && b.o.kind == KSymPtr {
			if a.o == nil || b.o == nil {
				return m.tb.ff
			}
			m.unsup("comparison of symbolic pointers")
		}
		if a.o != b.o {
			return m.tb.ff
		}
		return m.tb.Bool(a.u == b.u)
	}
	return m.tb.Eq(m.toTerm(a, w), m.toTerm(b, w))
}

func (m *Machine) bytesEq(a, b W, n uint64) *Term {
	if n == 0 || a == b {
		return m.tb.tt
	}
	var cs []*Term
	for i := uint64(0); i < n; i++ {
		x, y := m.byteAt(a, i), m.byteAt(b, i)
		if x.t == nil && y.t == nil {
			if x.u != y.u {
				return m.tb.ff
			}
			continue
		}
		if x == y {
			continue
		}
		c := m.tb.Eq(m.toTerm(x, 8), m.toTerm(y, 8))
		if c == m.tb.ff {
			return c
		}
		if c != m.tb.tt {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return m.tb.tt
	}
	return m.tb.And(cs...)
}

func sortedKeys(x map[string]bool) []string {
	var r []string
	for k := range x {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
