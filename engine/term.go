package main

// Hash-consed bit-vector / Boolean terms.  All integers of the encoded program
// are fixed width bit-vectors that wrap, as Go's do.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // sum of coeff*atom + constant, modulo 2^w
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OExtract // k = low bit; width w
	OZext
	OSext
	OConcat // a high, b low
	OIte
	OTable
	OUF // uninterpreted function name, args ts
	OFP // floating point op producing a bit-vector; name
	OEq // from here on Boolean
	OUlt
	OUle
	OSlt
	OSle
	OBand
	OBor
	OBnot
	OInSet
	OFcmp // floating point comparison; name
	OTrue
	OFalse
)

type Set [4]uint64

func (s *Set) has(i uint64) bool { return s[i>>6]>>(i&63)&1 == 1 }
func (s *Set) add(i uint64)      { s[i>>6] |= 1 << (i & 63) }
func (s Set) and(o Set) Set {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s Set) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) last() uint64 {
	for i := 255; i >= 0; i-- {
		if s.has(uint64(i)) {
			return uint64(i)
		}
	}
	return 0
}
func (s Set) first() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

type Table struct {
	id   int
	vals []uint64
	key  string
}

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	uf      bool  // contains an uninterpreted function
	single  bool  // support is exactly one variable (sv)
	many    bool  // support has more than one variable
	id      int32
	k       uint64
	a, b, c *Term
	ks      []uint64
	ts      []*Term
	name    string
	set     Set
	tbl     *Table
	sv      *Term
	orig    *Term // the variable this is a narrower view of
	lo, hi  uint64 // static unsigned range
	vec     []uint64
	evGen   int64
	evVal   uint64
	vars    []int32 // sorted variable indices, lazily
	prGen   int64   // printing stamp
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	s       string
	set     Set
}

type TB struct { // term builder, one per worker
	tab    map[tkey]*Term
	nid    int32
	tables map[string]*Table
	tt, ff *Term
	qc     map[string]qres
	evGen  int64
}

func newTB() *TB {
	b := &TB{tab: map[tkey]*Term{}, tables: map[string]*Table{}}
	b.tt = b.intern(tkey{op: OTrue}, &Term{op: OTrue})
	b.ff = b.intern(tkey{op: OFalse}, &Term{op: OFalse})
	return b
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func idOf(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (b *TB) intern(k tkey, t *Term) *Term {
	if x := b.tab[k]; x != nil {
		return x
	}
	b.nid++
	t.id = b.nid
	b.tab[k] = t
	// support
	addS := func(x *Term) {
		if x != nil && x.uf {
			t.uf = true
		}
		if x == nil || (!x.single && !x.many) {
			return
		}
		if x.many {
			t.many, t.single = true, false
			return
		}
		if t.many {
			return
		}
		if !t.single {
			t.single = true
			t.sv = x.sv
		} else if t.sv != x.sv {
			t.many, t.single = true, false
		}
	}
	if t.op == OUF {
		t.uf = true
	}
	if t.op != OVar {
		addS(t.a)
		addS(t.b)
		addS(t.c)
		for _, x := range t.ts {
			addS(x)
		}
		if t.w > 0 && t.op != OConst && t.hi == 0 && t.lo == 0 {
			t.lo, t.hi = b.rangeOf(t)
		}
	}
	return t
}

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.tt
	}
	return b.ff
}

func (b *TB) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	k := tkey{op: OConst, w: w, k: v}
	if x := b.tab[k]; x != nil {
		return x
	}
	return b.intern(k, &Term{op: OConst, w: w, k: v, lo: v, hi: v})
}

func (b *TB) Var(idx int, w uint8, lo, hi uint64) *Term {
	k := tkey{op: OVar, w: w, k: uint64(idx), s: fmt.Sprint(lo, "-", hi)}
	if x := b.tab[k]; x != nil {
		return x
	}
	t := &Term{op: OVar, w: w, k: uint64(idx), lo: lo, hi: hi, single: true}
	t.sv = t
	return b.intern(k, t)
}

// narrow is a view of a variable that is known to be within lo..hi.
func (b *TB) narrow(v *Term, lo, hi uint64) *Term {
	k := tkey{op: OVar, w: v.w, k: v.k, a: v.id, s: fmt.Sprint("n", lo, "-", hi)}
	if x := b.tab[k]; x != nil {
		return x
	}
	t := &Term{op: OVar, w: v.w, k: v.k, lo: lo, hi: hi, single: true, orig: v}
	t.sv = t
	return b.intern(k, t)
}

func (t *Term) isConst() bool { return t.op == OConst || t.op == OTrue || t.op == OFalse }
func (t *Term) constVal() uint64 {
	if t.op == OTrue {
		return 1
	}
	return t.k
}

// ---- range ----

func (b *TB) rangeOf(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OZext:
		return t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < 1<<(t.a.w-1) {
			return t.a.lo, t.a.hi
		}
	case OTable:
		lo, hi := uint64(math.MaxUint64), uint64(0)
		n := uint64(len(t.tbl.vals))
		for i := t.a.lo; i <= t.a.hi && i < n; i++ {
			v := t.tbl.vals[i]
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		if lo <= hi {
			return lo, hi
		}
	case OIte:
		lo, hi := t.b.lo, t.b.hi
		if t.c.lo < lo {
			lo = t.c.lo
		}
		if t.c.hi > hi {
			hi = t.c.hi
		}
		return lo, hi
	case OLin:
		if lo, hi, ok := linRange(t.ks, t.ts, t.k, m); ok {
			return lo, hi
		}
		if lo, hi, _, ok := linHull(t.w, t.ks, t.ts, t.k, false); ok {
			return lo.Uint64(), hi.Uint64()
		}
	case OUdiv:
		if t.b.op == OConst && t.b.k != 0 {
			return t.a.lo / t.b.k, t.a.hi / t.b.k
		}
	case OUrem:
		if t.b.op == OConst && t.b.k != 0 {
			h := t.b.k - 1
			if t.a.hi < h {
				h = t.a.hi
			}
			return 0, h
		}
	case OAnd:
		h := t.a.hi
		if t.b.hi < h {
			h = t.b.hi
		}
		return 0, h
	case OOr, OXor:
		h := t.a.hi | t.b.hi
		n := bits.Len64(h)
		if n >= 64 {
			return 0, m
		}
		return 0, (1<<n - 1)
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			return t.a.lo >> t.b.k, t.a.hi >> t.b.k
		}
		return 0, t.a.hi
	case OConcat:
		return t.a.lo<<t.b.w | t.b.lo, t.a.hi<<t.b.w | t.b.hi
	case OExtract:
		if t.k == 0 && t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
	}
	return 0, m
}

// linRange computes the exact integer range of a linear form, reading the
// constant and the coefficients either as unsigned or as negative numbers, and
// reports ok only for a reading under which no wrap can occur.
func linRange(ks []uint64, ts []*Term, k uint64, m uint64) (uint64, uint64, bool) {
	lo, hi, _, _, ok := linRange4(ks, ts, k, m)
	return lo, hi, ok
}

func linRange4(ks []uint64, ts []*Term, k uint64, m uint64) (lo, hi uint64, negK, negC, ok bool) {
	for v := 0; v < 4; v++ {
		negK, negC = v&1 == 1, v&2 == 2
		if lo, hi, ok = linRange1(ks, ts, k, m, negK, negC); ok {
			return
		}
	}
	return
}

// linHull computes the integer range of a linear form of width w, reading the
// coefficients as signed numbers and shifting the constant by a multiple of 2^w
// so that the range starts within min..min+2^w-1. ok: the whole range fits, so
// the form equals the shifted sum over the integers. k is the shifted constant.
func linHull(w uint8, ks []uint64, ts []*Term, k uint64, signed bool) (lo, hi, kk *big.Int, ok bool) {
	lo, hi = new(big.Int), new(big.Int)
	for i, c := range ks {
		sc := big.NewInt(sext64(c, w))
		p := new(big.Int).Mul(sc, new(big.Int).SetUint64(ts[i].lo))
		q := new(big.Int).Mul(sc, new(big.Int).SetUint64(ts[i].hi))
		if p.Cmp(q) > 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	min := new(big.Int)
	if signed {
		min.Neg(new(big.Int).Rsh(mod, 1))
	}
	kk = new(big.Int).SetUint64(k)
	// q = floor((lo+k-min) / 2^w)
	q := new(big.Int).Sub(new(big.Int).Add(lo, kk), min)
	q.Div(q, mod) // Euclidean division: floor for a positive divisor
	kk.Sub(kk, q.Mul(q, mod))
	lo.Add(lo, kk)
	hi.Add(hi, kk)
	ok = new(big.Int).Sub(hi, min).Cmp(mod) < 0
	return
}

func bigLow(x *big.Int) uint64 {
	m := new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64)) // two's complement
	return m.Uint64()
}

func negCoef(c, m uint64) bool { return c >= m>>1+1 }

func linRange1(ks []uint64, ts []*Term, k uint64, m uint64, negK, negC bool) (uint64, uint64, bool) {
	var pLo, pHi, nLo, nHi uint64 // positive sum range, negative sum range
	ok := true
	addc := func(x *uint64, c, v uint64) {
		h, l := bits.Mul64(c, v)
		s, cy := bits.Add64(*x, l, 0)
		if h != 0 || cy != 0 {
			ok = false
		}
		*x = s
	}
	if negK && k != 0 {
		nLo = (m - k) + 1
		nHi = nLo
	} else {
		pLo, pHi = k, k
	}
	for i, c := range ks {
		if negC && negCoef(c, m) {
			n := (m - c) + 1
			addc(&nLo, n, ts[i].lo)
			addc(&nHi, n, ts[i].hi)
		} else {
			addc(&pLo, c, ts[i].lo)
			addc(&pHi, c, ts[i].hi)
		}
	}
	if !ok || pLo < nHi || pHi < nLo || pHi-nLo > m {
		return 0, 0, false
	}
	return pLo - nHi, pHi - nLo, true
}

// ---- linear forms ----

func linParts(t *Term) (ks []uint64, ts []*Term, k uint64) {
	switch t.op {
	case OConst:
		return nil, nil, t.k
	case OLin:
		return t.ks, t.ts, t.k
	}
	return []uint64{1}, []*Term{t}, 0
}

func (b *TB) mkLin(w uint8, ks []uint64, ts []*Term, k uint64) *Term {
	m := mask(w)
	type pr struct {
		t *Term
		c uint64
	}
	acc := make([]pr, 0, len(ts))
	for i, t := range ts {
		found := false
		for j := range acc {
			if acc[j].t == t {
				acc[j].c = (acc[j].c + ks[i]) & m
				found = true
				break
			}
		}
		if !found {
			acc = append(acc, pr{t, ks[i] & m})
		}
	}
	out := acc[:0]
	for _, p := range acc {
		if p.c != 0 {
			out = append(out, p)
		}
	}
	k &= m
	if len(out) == 0 {
		return b.Const(w, k)
	}
	if len(out) == 1 && out[0].c == 1 && k == 0 {
		return out[0].t
	}
	// merge tables over the same index
	for i := 0; i < len(out); i++ {
		if out[i].t.op != OTable {
			continue
		}
		for j := i + 1; j < len(out); j++ {
			if out[j].t.op == OTable && out[j].t.a == out[i].t.a && len(out[j].t.tbl.vals) == len(out[i].t.tbl.vals) {
				vals := make([]uint64, len(out[i].t.tbl.vals))
				for x := range vals {
					vals[x] = (out[i].c*out[i].t.tbl.vals[x] + out[j].c*out[j].t.tbl.vals[x]) & m
				}
				nt := b.Table(w, vals, out[i].t.a)
				ks2 := []uint64{1}
				ts2 := []*Term{nt}
				for x, p := range out {
					if x != i && x != j {
						ks2 = append(ks2, p.c)
						ts2 = append(ts2, p.t)
					}
				}
				return b.mkLinFlat(w, ks2, ts2, k)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	nk := make([]uint64, len(out))
	nt := make([]*Term, len(out))
	var sb strings.Builder
	for i, p := range out {
		nk[i] = p.c
		nt[i] = p.t
		fmt.Fprintf(&sb, "%x.%x,", p.t.id, p.c)
	}
	key := tkey{op: OLin, w: w, k: k, s: sb.String()}
	if x := b.tab[key]; x != nil {
		return x
	}
	return b.intern(key, &Term{op: OLin, w: w, k: k, ks: nk, ts: nt})
}

// mkLinFlat re-flattens members that may themselves be linear forms.
func (b *TB) mkLinFlat(w uint8, ks []uint64, ts []*Term, k uint64) *Term {
	var ks2 []uint64
	var ts2 []*Term
	for i, t := range ts {
		a, c, kk := linParts(t)
		for j := range a {
			ks2 = append(ks2, a[j]*ks[i])
			ts2 = append(ts2, c[j])
		}
		k += kk * ks[i]
	}
	return b.mkLin(w, ks2, ts2, k)
}

func (b *TB) linComb(x, y *Term, cx, cy uint64) *Term {
	return b.mkLinFlat(x.w, []uint64{cx, cy}, []*Term{x, y}, 0)
}

func (b *TB) Add(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.w, x.k+y.k)
	}
	if r := b.mapTable2(x, y, func(a, c uint64) uint64 { return a + c }, x.w); r != nil {
		return r
	}
	return b.linComb(x, y, 1, 1)
}
func (b *TB) Sub(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.w, x.k-y.k)
	}
	if r := b.mapTable2(x, y, func(a, c uint64) uint64 { return a - c }, x.w); r != nil {
		return r
	}
	return b.linComb(x, y, 1, mask(x.w))
}
func (b *TB) Neg(x *Term) *Term { return b.Sub(b.Const(x.w, 0), x) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.w, x.k*y.k)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.k == 0 {
			return y
		}
		return b.mkLinFlat(x.w, []uint64{y.k}, []*Term{x}, 0)
	}
	return b.bin(OMul, x, y)
}

// mapTable pushes a unary function over a table lookup.
func (b *TB) mapTable(x *Term, f func(uint64) uint64, w uint8) *Term {
	if x.op != OTable {
		return nil
	}
	vals := make([]uint64, len(x.tbl.vals))
	for i, v := range x.tbl.vals {
		vals[i] = f(v) & mask(w)
	}
	return b.Table(w, vals, x.a)
}

func (b *TB) mapTable2(x, y *Term, f func(a, c uint64) uint64, w uint8) *Term {
	if x.op == OTable && y.isConst() {
		return b.mapTable(x, func(v uint64) uint64 { return f(v, y.k) }, w)
	}
	if y.op == OTable && x.isConst() {
		return b.mapTable(y, func(v uint64) uint64 { return f(x.k, v) }, w)
	}
	return nil
}

func (b *TB) bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("term width mismatch op %d: %d vs %d", op, x.w, y.w))
	}
	w := x.w
	if x.isConst() && y.isConst() {
		return b.Const(w, evalBin(op, w, x.k, y.k))
	}
	if r := b.mapTable2(x, y, func(p, q uint64) uint64 { return evalBin(op, w, p, q) }, w); r != nil {
		return r
	}
	switch op {
	case OAnd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
			if w == 64 && y.k == 1<<63-1 && x.op == OFP && x.name == "ext" {
				return b.FP("ext", 64, b.bin(OAnd, x.ts[0], b.Const(32, 1<<31-1)))
			}
			// x & (2^n-1) with x already in range
			if y.k&(y.k+1) == 0 && x.hi <= y.k {
				return x
			}
		}
		if x == y {
			return x
		}
	case OOr:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.k == 0 || x == y {
			return x
		}
	case OXor:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.k == 0 {
			return x
		}
		if x == y {
			return b.Const(w, 0)
		}
	case OShl:
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if y.k >= uint64(w) {
				return b.Const(w, 0)
			}
			return b.Mul(x, b.Const(w, 1<<y.k))
		}
	case OLshr:
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if y.k >= uint64(w) {
				return b.Const(w, 0)
			}
			if x.hi>>y.k == 0 {
				return b.Const(w, 0)
			}
		}
	case OAshr:
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if x.hi < 1<<(w-1) {
				return b.bin(OLshr, x, y)
			}
		}
	case OUdiv:
		if y.isConst() && y.k != 0 {
			if y.k == 1 {
				return x
			}
			if x.hi < y.k {
				return b.Const(w, 0)
			}
			if q, _, ok := b.splitDiv(x, y.k); ok {
				return q
			}
			if y.k&(y.k-1) == 0 {
				return b.bin(OLshr, x, b.Const(w, uint64(bits.TrailingZeros64(y.k))))
			}
			if x.op == OUdiv && x.b.isConst() {
				if h, l := bits.Mul64(x.b.k, y.k); h == 0 && l <= mask(w) {
					return b.bin(OUdiv, x.a, b.Const(w, l))
				}
			}
		}
	case OUrem:
		if y.isConst() && y.k != 0 {
			if y.k == 1 {
				return b.Const(w, 0)
			}
			if x.hi < y.k {
				return x
			}
			if _, r, ok := b.splitDiv(x, y.k); ok {
				return r
			}
			if y.k&(y.k-1) == 0 {
				return b.bin(OAnd, x, b.Const(w, y.k-1))
			}
		}
	case OSdiv:
		if y.isConst() && y.k < 1<<(w-1) && x.hi < 1<<(w-1) {
			return b.bin(OUdiv, x, y)
		}
	case OSrem:
		if y.isConst() && y.k < 1<<(w-1) && x.hi < 1<<(w-1) {
			return b.bin(OUrem, x, y)
		}
	}
	if op == OMul || op == OAnd || op == OOr || op == OXor {
		if x.id > y.id {
			x, y = y, x
		}
	}
	k := tkey{op: op, w: w, a: x.id, b: y.id}
	if t := b.tab[k]; t != nil {
		return b.normBV(t)
	}
	return b.normBV(b.intern(k, &Term{op: op, w: w, a: x, b: y}))
}

// normBV turns a term over a single byte variable into a table lookup.
func (b *TB) normBV(t *Term) *Term {
	if t.single && t.sv.w <= 8 && !t.uf {
		return b.Table(t.w, b.vecOf(t), t.sv)
	}
	return t
}

// splitDiv divides a non-wrapping linear form with non-negative coefficients by c
// when the part whose coefficients are not multiples of c stays below c.
func (b *TB) splitDiv(x *Term, c uint64) (q, r *Term, ok bool) {
	if x.op != OLin {
		return
	}
	m := mask(x.w)
	// no wrap, all coefficients taken as non-negative
	var hi uint64
	over := false
	addc := func(cc, v uint64) {
		h, l := bits.Mul64(cc, v)
		s, cy := bits.Add64(hi, l, 0)
		if h != 0 || cy != 0 || s > m {
			over = true
		}
		hi = s
	}
	addc(1, x.k)
	for i := range x.ks {
		addc(x.ks[i], x.ts[i].hi)
	}
	if over {
		return
	}
	var qk, rk []uint64
	var qt, rt []*Term
	for i := range x.ks {
		cq, cr := x.ks[i]/c, x.ks[i]%c
		if cq != 0 {
			qk = append(qk, cq)
			qt = append(qt, x.ts[i])
		}
		if cr != 0 {
			rk = append(rk, cr)
			rt = append(rt, x.ts[i])
		}
	}
	r = b.mkLin(x.w, rk, rt, x.k%c)
	// r's own range without wrap
	var rh uint64 = x.k % c
	for i := range rk {
		h, l := bits.Mul64(rk[i], rt[i].hi)
		s, cy := bits.Add64(rh, l, 0)
		if h != 0 || cy != 0 {
			return nil, nil, false
		}
		rh = s
	}
	if rh >= c {
		return nil, nil, false
	}
	q = b.mkLin(x.w, qk, qt, x.k/c)
	return q, r, true
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OMul:
		return x * y & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			return 0
		}
		a, c := sext64(x, w), sext64(y, w)
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case OSrem:
		if y == 0 {
			return x
		}
		a, c := sext64(x, w), sext64(y, w)
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m
	}
	panic("evalBin")
}

func (b *TB) Not(x *Term) *Term { // bitwise complement
	return b.Sub(b.Const(x.w, mask(x.w)), x)
}

func (b *TB) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.k)
	}
	if r := b.mapTable(x, func(v uint64) uint64 { return v }, w); r != nil {
		return r
	}
	if x.op == OZext {
		return b.Zext(x.a, w)
	}
	if x.op == OLin {
		// distribute over a linear form that cannot wrap
		if _, _, kk, ok := linHull(x.w, x.ks, x.ts, x.k, false); ok {
			return b.distribute(x, kk, w)
		}
	}
	k := tkey{op: OZext, w: w, a: x.id}
	if t := b.tab[k]; t != nil {
		return t
	}
	return b.intern(k, &Term{op: OZext, w: w, a: x})
}

// distribute extends a linear form whose value is the integer sum with constant k.
func (b *TB) distribute(x *Term, k *big.Int, w uint8) *Term {
	ks := make([]uint64, len(x.ks))
	ts := make([]*Term, len(x.ks))
	for i := range x.ks {
		ks[i] = uint64(sext64(x.ks[i], x.w)) & mask(w)
		ts[i] = b.Zext(x.ts[i], w)
	}
	return b.mkLinFlat(w, ks, ts, bigLow(k)&mask(w))
}

func (b *TB) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return b.Const(w, uint64(sext64(x.k, x.w)))
	}
	if r := b.mapTable(x, func(v uint64) uint64 { return uint64(sext64(v, x.w)) }, w); r != nil {
		return r
	}
	if x.hi < 1<<(x.w-1) {
		return b.Zext(x, w)
	}
	if x.op == OLin {
		// distribute over a linear form that cannot overflow as a signed sum
		if _, _, kk, ok := linHull(x.w, x.ks, x.ts, x.k, true); ok {
			return b.distribute(x, kk, w)
		}
	}
	k := tkey{op: OSext, w: w, a: x.id}
	if t := b.tab[k]; t != nil {
		return t
	}
	return b.intern(k, &Term{op: OSext, w: w, a: x})
}

func (b *TB) Extract(x *Term, low uint64, w uint8) *Term {
	if low == 0 && x.w == w {
		return x
	}
	if x.isConst() {
		return b.Const(w, x.k>>low)
	}
	if r := b.mapTable(x, func(v uint64) uint64 { return v >> low }, w); r != nil {
		return r
	}
	if low == 0 {
		if x.op == OZext || x.op == OSext {
			if x.a.w == w {
				return x.a
			}
			if x.a.w > w {
				return b.Extract(x.a, 0, w)
			}
			if x.op == OZext {
				return b.Zext(x.a, w)
			}
			return b.Sext(x.a, w)
		}
		if x.op == OLin {
			ks := make([]uint64, len(x.ks))
			ts := make([]*Term, len(x.ks))
			for i := range x.ks {
				ks[i] = x.ks[i] & mask(w)
				ts[i] = b.Extract(x.ts[i], 0, w)
			}
			return b.mkLinFlat(w, ks, ts, x.k&mask(w))
		}
	}
	if x.op == OConcat {
		if low >= uint64(x.b.w) {
			return b.Extract(x.a, low-uint64(x.b.w), w)
		}
		if low+uint64(w) <= uint64(x.b.w) {
			return b.Extract(x.b, low, w)
		}
	}
	if x.op == OIte && x.b.isConst() && x.c.isConst() {
		return b.Ite(x.a, b.Extract(x.b, low, w), b.Extract(x.c, low, w))
	}
	k := tkey{op: OExtract, w: w, k: low, a: x.id}
	if t := b.tab[k]; t != nil {
		return t
	}
	return b.intern(k, &Term{op: OExtract, w: w, k: low, a: x})
}

func (b *TB) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return b.Const(w, hi.k<<lo.w|lo.k)
	}
	k := tkey{op: OConcat, w: w, a: hi.id, b: lo.id}
	if t := b.tab[k]; t != nil {
		return t
	}
	return b.intern(k, &Term{op: OConcat, w: w, a: hi, b: lo})
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.tt {
		return x
	}
	if c == b.ff {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return b.Or(b.And(c, x), b.And(b.BNot(c), y))
	}
	k := tkey{op: OIte, w: x.w, a: c.id, b: x.id, c: y.id}
	if t := b.tab[k]; t != nil {
		return b.normBV(t)
	}
	return b.normBV(b.intern(k, &Term{op: OIte, w: x.w, a: c, b: x, c: y}))
}

func (b *TB) mkTable(vals []uint64) *Table {
	var sb strings.Builder
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	s := sb.String()
	if t := b.tables[s]; t != nil {
		return t
	}
	t := &Table{id: len(b.tables), vals: vals, key: s}
	b.tables[s] = t
	return t
}

func (b *TB) Table(w uint8, vals []uint64, idx *Term) *Term {
	if idx.isConst() {
		if idx.k < uint64(len(vals)) {
			return b.Const(w, vals[idx.k])
		}
		return b.Const(w, 0)
	}
	// strip zero extension of the index
	for idx.op == OZext {
		idx = idx.a
	}
	if idx.w < 64 && uint64(len(vals)) > mask(idx.w)+1 {
		vals = vals[:mask(idx.w)+1]
	}
	// table over table
	if idx.op == OTable {
		nv := make([]uint64, len(idx.tbl.vals))
		for i, v := range idx.tbl.vals {
			if v < uint64(len(vals)) {
				nv[i] = vals[v]
			}
		}
		return b.Table(w, nv, idx.a)
	}
	// constant or identity over the static range
	if idx.hi < uint64(len(vals)) {
		same, ident, affine := true, true, idx.w <= w
		for i := idx.lo; i <= idx.hi; i++ {
			if (vals[i]-i)&mask(w) != (vals[idx.lo]-idx.lo)&mask(w) {
				affine = false
			}
			if vals[i] != vals[idx.lo] {
				same = false
			}
			if vals[i] != i {
				ident = false
			}
		}
		if same {
			return b.Const(w, vals[idx.lo])
		}
		if ident {
			if idx.w == w {
				return idx
			}
			if idx.w < w {
				return b.Zext(idx, w)
			}
			return b.Extract(idx, 0, w)
		}
		if affine {
			return b.Add(b.Zext(idx, w), b.Const(w, vals[idx.lo]-idx.lo))
		}
	}
	t := b.mkTable(vals)
	k := tkey{op: OTable, w: w, k: uint64(t.id), a: idx.id}
	if x := b.tab[k]; x != nil {
		return x
	}
	return b.intern(k, &Term{op: OTable, w: w, tbl: t, a: idx})
}

func (b *TB) UF(name string, w uint8, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	op := OUF
	k := tkey{op: op, w: w, s: sb.String()}
	if x := b.tab[k]; x != nil {
		return x
	}
	t := b.intern(k, &Term{op: op, w: w, name: name, ts: args})
	return t
}

// FP builds a floating point operation: name in {ext3264, trunc6432, add.., neg..}
func (b *TB) FP(name string, w uint8, args ...*Term) *Term {
	op := OFP
	if w == 0 {
		op = OFcmp
	}
	allc := true
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if !a.isConst() {
			allc = false
		}
	}
	if allc {
		vs := make([]uint64, len(args))
		for i := range args {
			vs[i] = args[i].k
		}
		r := evalFP(name, args[0].w, w, vs)
		if w == 0 {
			return b.Bool(r != 0)
		}
		return b.Const(w, r)
	}
	if name == "trunc" && args[0].op == OFP && args[0].name == "ext" && args[0].ts[0].w == w {
		return args[0].ts[0]
	}
	if w == 0 {
		if r := b.fpCmp(name, args[0], args[1]); r != nil {
			return r
		}
	}
	k := tkey{op: op, w: w, s: sb.String()}
	if x := b.tab[k]; x != nil {
		return x
	}
	return b.intern(k, &Term{op: op, w: w, name: name, ts: args})
}

func evalFP(name string, aw, w uint8, v []uint64) uint64 {
	f := func(i int) float64 {
		if aw == 32 {
			return float64(math.Float32frombits(uint32(v[i])))
		}
		return math.Float64frombits(v[i])
	}
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch name {
	case "eq":
		return bo(f(0) == f(1))
	case "lt":
		return bo(f(0) < f(1))
	case "le":
		return bo(f(0) <= f(1))
	case "ext":
		return math.Float64bits(f(0))
	case "trunc":
		return uint64(math.Float32bits(float32(f(0))))
	case "neg":
		if aw == 32 {
			return v[0] ^ 1<<31
		}
		return v[0] ^ 1<<63
	}
	panic("evalFP " + name)
}

// ---- Booleans ----

func (b *TB) norm(t *Term) *Term {
	if t.op == OInSet || t.isConst() {
		return t
	}
	if t.single && t.sv.w <= 8 && !t.uf {
		return b.inSet(t.sv, b.setOf(t))
	}
	return t
}

func (b *TB) setOf(t *Term) Set {
	var s Set
	if t.op == OInSet {
		return t.set
	}
	v := b.vecOf(t)
	for i, x := range v {
		if x != 0 {
			s.add(uint64(i))
		}
	}
	return s
}

func fullSet(v *Term) Set {
	var s Set
	for i := v.lo; i <= v.hi; i++ {
		s.add(i)
	}
	return s
}

func (b *TB) inSet(v *Term, s Set) *Term {
	s = s.and(fullSet(v))
	if s.empty() {
		return b.ff
	}
	if s == fullSet(v) {
		return b.tt
	}
	k := tkey{op: OInSet, a: v.id, set: s}
	if x := b.tab[k]; x != nil {
		return x
	}
	return b.intern(k, &Term{op: OInSet, a: v, set: s})
}

// vecOf tabulates a term over the 2^w values of its single variable.
func (b *TB) vecOf(t *Term) []uint64 {
	if t.vec != nil {
		return t.vec
	}
	var v *Term
	if t.single {
		v = t.sv
	}
	n := 256
	if v != nil {
		n = 1 << v.w
	}
	r := make([]uint64, n)
	arg := func(x *Term) func(i int) uint64 {
		if x == nil {
			return nil
		}
		if x.isConst() {
			c := x.constVal()
			return func(int) uint64 { return c }
		}
		vv := b.vecOf(x)
		return func(i int) uint64 { return vv[i] }
	}
	switch t.op {
	case OVar:
		for i := range r {
			r[i] = uint64(i)
		}
	case OConst, OTrue, OFalse:
		for i := range r {
			r[i] = t.constVal()
		}
	default:
		fa, fb, fc := arg(t.a), arg(t.b), arg(t.c)
		var fts []func(int) uint64
		for _, x := range t.ts {
			fts = append(fts, arg(x))
		}
		ev := make([]uint64, len(fts))
		for i := range r {
			var a, c, d uint64
			if fa != nil {
				a = fa(i)
			}
			if fb != nil {
				c = fb(i)
			}
			if fc != nil {
				d = fc(i)
			}
			for j := range fts {
				ev[j] = fts[j](i)
			}
			r[i] = evalOp(t, a, c, d, ev)
		}
	}
	t.vec = r
	return r
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

func evalOp(t *Term, a, c, d uint64, ts []uint64) uint64 {
	switch t.op {
	case OLin:
		s := t.k
		for i := range ts {
			s += t.ks[i] * ts[i]
		}
		return s & mask(t.w)
	case OMul, OUdiv, OSdiv, OUrem, OSrem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		return evalBin(t.op, t.w, a, c)
	case OExtract:
		return a >> t.k & mask(t.w)
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, t.a.w)) & mask(t.w)
	case OConcat:
		return a<<t.b.w | c
	case OIte:
		if a != 0 {
			return c
		}
		return d
	case OTable:
		if a < uint64(len(t.tbl.vals)) {
			return t.tbl.vals[a]
		}
		return 0
	case OEq:
		return b2u(a == c)
	case OUlt:
		return b2u(a < c)
	case OUle:
		return b2u(a <= c)
	case OSlt:
		return b2u(sext64(a, t.a.w) < sext64(c, t.a.w))
	case OSle:
		return b2u(sext64(a, t.a.w) <= sext64(c, t.a.w))
	case OBand:
		for _, x := range ts {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OBor:
		for _, x := range ts {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OBnot:
		return 1 - a
	case OInSet:
		return b2u(t.set.has(a))
	case OFP, OFcmp:
		return evalFP(t.name, t.ts[0].w, t.w, ts)
	}
	panic(fmt.Sprintf("evalOp %d %s", t.op, t.name))
}

func (b *TB) cmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("cmp width mismatch %d vs %d", x.w, y.w))
	}
	if x == y {
		return b.Bool(op == OEq || op == OUle || op == OSle)
	}
	if x.isConst() && y.isConst() {
		t := Term{op: op, a: x, b: y}
		return b.Bool(evalOp(&t, x.constVal(), y.constVal(), 0, nil) != 0)
	}
	if x.w == 0 { // Boolean equality
		if op != OEq {
			panic("bool cmp")
		}
		if x.isConst() {
			x, y = y, x
		}
		if y == b.tt {
			return x
		}
		if y == b.ff {
			return b.BNot(x)
		}
		return b.Or(b.And(x, y), b.And(b.BNot(x), b.BNot(y)))
	}
	half := uint64(1) << (x.w - 1)
	switch op {
	case OEq:
		if x.hi < y.lo || y.hi < x.lo {
			return b.ff
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch x.op {
			case OZext:
				return b.cmp(OEq, x.a, b.Const(x.a.w, y.k))
			case OSext:
				c := b.Const(x.a.w, y.k)
				if uint64(sext64(c.k, c.w))&mask(x.w) != y.k {
					return b.ff
				}
				return b.cmp(OEq, x.a, c)
			case OIte:
				if x.b.isConst() || x.c.isConst() {
					return b.Ite(x.a, b.cmp(OEq, x.b, y), b.cmp(OEq, x.c, y))
				}
			case OConcat:
				return b.And(b.cmp(OEq, x.a, b.Const(x.a.w, y.k>>x.b.w)), b.cmp(OEq, x.b, b.Const(x.b.w, y.k)))
			}
		} else if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
			return b.cmp(OEq, x.a, y.a)
		} else if x.op == OLin || y.op == OLin {
			// cancel
			d := b.Sub(x, y)
			if d.isConst() {
				return b.Bool(d.k == 0)
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OUlt:
		if x.hi < y.lo {
			return b.tt
		}
		if x.lo >= y.hi {
			return b.ff
		}
		if x.op == OZext && y.isConst() && y.k <= mask(x.a.w) {
			return b.cmp(OUlt, x.a, b.Const(x.a.w, y.k))
		}
		if y.op == OZext && x.isConst() && x.k <= mask(y.a.w) {
			return b.cmp(OUlt, b.Const(y.a.w, x.k), y.a)
		}
	case OUle:
		return b.BNot(b.cmp(OUlt, y, x))
	case OSlt:
		if x.hi < half && y.hi < half {
			return b.cmp(OUlt, x, y)
		}
		if x.lo >= half && y.hi < half {
			return b.tt
		}
		if x.hi < half && y.lo >= half {
			return b.ff
		}
	case OSle:
		return b.BNot(b.cmp(OSlt, y, x))
	}
	k := tkey{op: op, a: x.id, b: y.id}
	if t := b.tab[k]; t != nil {
		return b.norm(t)
	}
	return b.norm(b.intern(k, &Term{op: op, a: x, b: y}))
}

func (b *TB) Eq(x, y *Term) *Term  { return b.cmp(OEq, x, y) }
func (b *TB) Ult(x, y *Term) *Term { return b.cmp(OUlt, x, y) }
func (b *TB) Ule(x, y *Term) *Term { return b.cmp(OUle, x, y) }
func (b *TB) Slt(x, y *Term) *Term { return b.cmp(OSlt, x, y) }
func (b *TB) Sle(x, y *Term) *Term { return b.cmp(OSle, x, y) }

func (b *TB) BNot(x *Term) *Term {
	switch x.op {
	case OTrue:
		return b.ff
	case OFalse:
		return b.tt
	case OBnot:
		return x.a
	case OInSet:
		s := fullSet(x.a)
		for i := range s {
			s[i] &^= x.set[i]
		}
		return b.inSet(x.a, s)
	}
	k := tkey{op: OBnot, a: x.id}
	if t := b.tab[k]; t != nil {
		return t
	}
	return b.intern(k, &Term{op: OBnot, a: x})
}

func (b *TB) nary(op Op, args []*Term) *Term {
	unit, zero := b.tt, b.ff
	if op == OBor {
		unit, zero = b.ff, b.tt
	}
	var flat []*Term
	seen := map[int32]bool{}
	setIdx := map[int32]int{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit {
			return true
		}
		if x.op == op {
			for _, y := range x.ts {
				if !walk(y) {
					return false
				}
			}
			return true
		}
		if x.op == OInSet {
			if i, ok := setIdx[x.a.id]; ok {
				s := flat[i].set
				for j := range s {
					if op == OBand {
						s[j] &= x.set[j]
					} else {
						s[j] |= x.set[j]
					}
				}
				n := b.inSet(x.a, s)
				if n == zero {
					return false
				}
				flat[i] = n
				return true
			}
			setIdx[x.a.id] = len(flat)
			flat = append(flat, x)
			return true
		}
		if seen[x.id] {
			return true
		}
		seen[x.id] = true
		if x.op == OBnot && seen[x.a.id] {
			return false
		}
		if t := b.tab[tkey{op: OBnot, a: x.id}]; t != nil && seen[t.id] {
			return false
		}
		flat = append(flat, x)
		return true
	}
	for _, x := range args {
		if !walk(x) {
			return zero
		}
	}
	out := flat[:0]
	for _, x := range flat {
		if x != unit {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	for _, x := range out {
		fmt.Fprintf(&sb, "%x,", x.id)
	}
	k := tkey{op: op, s: sb.String()}
	if t := b.tab[k]; t != nil {
		return b.norm(t)
	}
	return b.norm(b.intern(k, &Term{op: op, ts: append([]*Term(nil), out...)}))
}

func (b *TB) And(xs ...*Term) *Term {
	if len(xs) == 2 {
		if xs[0] == b.tt {
			return xs[1]
		}
		if xs[1] == b.tt {
			return xs[0]
		}
		if xs[0] == b.ff || xs[1] == b.ff {
			return b.ff
		}
	}
	return b.nary(OBand, xs)
}
func (b *TB) Or(xs ...*Term) *Term {
	if len(xs) == 2 {
		if xs[0] == b.ff {
			return xs[1]
		}
		if xs[1] == b.ff {
			return xs[0]
		}
		if xs[0] == b.tt || xs[1] == b.tt {
			return b.tt
		}
	}
	return b.nary(OBor, xs)
}

// ---- evaluation under a model ----

type evalUnknown struct{}

func (b *TB) eval(t *Term, model []uint64, gen int64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k]
		}
		return t.lo
	case OUF:
		if f := ufImpl[t.name]; f != nil {
			a := make([]uint64, len(t.ts))
			for i, x := range t.ts {
				a[i] = b.eval(x, model, gen)
			}
			return f(a)
		}
		panic(evalUnknown{})
	}
	if t.evGen == gen {
		return t.evVal
	}
	var a, c, d uint64
	if t.a != nil {
		a = b.eval(t.a, model, gen)
	}
	if t.b != nil {
		c = b.eval(t.b, model, gen)
	}
	if t.c != nil {
		d = b.eval(t.c, model, gen)
	}
	var ts []uint64
	if len(t.ts) > 0 {
		ts = make([]uint64, len(t.ts))
		for i, x := range t.ts {
			ts[i] = b.eval(x, model, gen)
		}
	}
	v := evalOp(t, a, c, d, ts)
	t.evGen, t.evVal = gen, v
	return v
}

// ufImpl holds the real functions behind the uninterpreted ones; they serve
// evaluation under a concrete model only.
var ufImpl = map[string]func(a []uint64) uint64{}

func init() {
	parse := func(a []uint64, bs int) (float64, error) {
		b := make([]byte, len(a))
		for i, x := range a {
			b[i] = byte(x)
		}
		return strconv.ParseFloat(string(b), bs)
	}
	for _, bs := range []int{32, 64} {
		bs := bs
		ufImpl["parsefloat"+strconv.Itoa(bs)] = func(a []uint64) uint64 {
			f, _ := parse(a, bs)
			if bs == 32 {
				return uint64(math.Float32bits(float32(f)))
			}
			return math.Float64bits(f)
		}
		ufImpl["parsefloat"+strconv.Itoa(bs)+"_err"] = func(a []uint64) uint64 {
			if _, err := parse(a, bs); err != nil {
				return 1
			}
			return 0
		}
	}
}

// Eval evaluates t under model; ok=false if it involves an uninterpreted function.
func (b *TB) Eval(t *Term, model []uint64) (v uint64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(evalUnknown); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	b.evGen++
	return b.eval(t, model, b.evGen), true
}

// varsOf lists the variable indices in t.
func varsOf(t *Term) []int32 {
	if t.vars != nil || t.isConst() {
		return t.vars
	}
	if t.op == OVar {
		t.vars = []int32{int32(t.k)}
		return t.vars
	}
	set := map[int32]bool{}
	add := func(x *Term) {
		if x != nil {
			for _, v := range varsOf(x) {
				set[v] = true
			}
		}
	}
	add(t.a)
	add(t.b)
	add(t.c)
	for _, x := range t.ts {
		add(x)
	}
	r := make([]int32, 0, len(set))
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	t.vars = r
	return r
}

func hasUF(t *Term, seen map[int32]bool) bool {
	if t == nil || seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.op == OUF {
		return true
	}
	if hasUF(t.a, seen) || hasUF(t.b, seen) || hasUF(t.c, seen) {
		return true
	}
	for _, x := range t.ts {
		if hasUF(x, seen) {
			return true
		}
	}
	return false
}

// subsetOf2 reports whether the set is not empty and holds nothing but a and b.
func (s Set) subsetOf2(a, b uint64) bool {
	var o Set
	o.add(a)
	o.add(b)
	for i := range s {
		if s[i]&^o[i] != 0 {
			return false
		}
	}
	return !s.empty()
}

// rebuild constructs the term anew with the given replacements of variables,
// so that every simplification applies to their narrower ranges.
func (b *TB) rebuild(t *Term, sub map[uint64]*Term, memo map[int32]*Term) *Term {
	if t.isConst() {
		return t
	}
	if r := memo[t.id]; r != nil {
		return r
	}
	f := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		return b.rebuild(x, sub, memo)
	}
	fs := func() []*Term {
		r := make([]*Term, len(t.ts))
		for i, x := range t.ts {
			r[i] = f(x)
		}
		return r
	}
	var r *Term
	switch t.op {
	case OVar:
		r = t
		if x := sub[t.k]; x != nil {
			r = x
		}
	case OLin:
		r = b.mkLinFlat(t.w, t.ks, fs(), t.k)
	case OMul:
		r = b.Mul(f(t.a), f(t.b))
	case OUdiv, OSdiv, OUrem, OSrem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		r = b.bin(t.op, f(t.a), f(t.b))
	case OExtract:
		r = b.Extract(f(t.a), t.k, t.w)
	case OZext:
		r = b.Zext(f(t.a), t.w)
	case OSext:
		r = b.Sext(f(t.a), t.w)
	case OConcat:
		r = b.Concat(f(t.a), f(t.b))
	case OIte:
		r = b.Ite(f(t.a), f(t.b), f(t.c))
	case OTable:
		r = b.Table(t.w, t.tbl.vals, f(t.a))
	case OUF:
		r = b.UF(t.name, t.w, fs())
	case OFP, OFcmp:
		r = b.FP(t.name, t.w, fs()...)
	case OEq, OUlt, OUle, OSlt, OSle:
		r = b.cmp(t.op, f(t.a), f(t.b))
	case OBand:
		r = b.And(fs()...)
	case OBor:
		r = b.Or(fs()...)
	case OBnot:
		r = b.BNot(f(t.a))
	case OInSet:
		x := f(t.a)
		switch {
		case x.isConst():
			r = b.Bool(t.set.has(x.k))
		case x.op == OVar:
			r = b.inSet(x, t.set)
		default:
			r = t
		}
	default:
		r = t
	}
	memo[t.id] = r
	return r
}

var opNames = []string{"const", "var", "lin", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "extract", "zext", "sext", "concat", "ite", "table", "uf", "fp", "=", "ult", "ule", "slt", "sle", "band", "bor", "bnot", "inset", "fcmp", "true", "false"}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d[%d-%d]", t.k, t.lo, t.hi)
	case OTrue, OFalse:
		return opNames[t.op]
	}
	s := "(" + opNames[t.op] + fmt.Sprintf("%d", t.w)
	if t.k != 0 {
		s += fmt.Sprintf(" k=%d", t.k)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	for i, x := range t.ts {
		s += " "
		if t.op == OLin {
			s += fmt.Sprintf("%d*", t.ks[i])
		}
		s += x.String()
	}
	if t.op == OUF || t.op == OFP || t.op == OFcmp {
		s += " " + t.name
	}
	return s + ")"
}
