package main

import (
	"math"
	"math/rand"
	"strconv"
)

// fpCmp writes a comparison with a constant as comparisons of bit patterns.
// nil: no such form.
func (b *TB) fpCmp(name string, x, y *Term) *Term {
	if name == "eq" && x == y {
		return b.fpNum(x)
	}
	if !x.isConst() && !y.isConst() {
		return nil
	}
	if name == "eq" && x.isConst() {
		x, y = y, x
	}
	isExt := func(t *Term) bool { return t.op == OFP && t.name == "ext" }
	if isExt(x) || isExt(y) {
		// compare in 32 bits: the constant is rounded so that the answer stays the same
		up := func(f float64, dir bool) *Term {
			g := float32(f)
			if dir && float64(g) < f {
				g = math.Nextafter32(g, float32(math.Inf(1)))
			}
			if !dir && float64(g) > f {
				g = math.Nextafter32(g, float32(math.Inf(-1)))
			}
			return b.Const(32, uint64(math.Float32bits(g)))
		}
		if isExt(x) {
			c := math.Float64frombits(y.k)
			switch name {
			case "eq":
				if float64(float32(c)) != c {
					return b.ff
				}
				return b.FP("eq", 0, x.ts[0], up(c, true))
			case "lt": // x < c  iff  x < the least float32 not below c
				return b.FP("lt", 0, x.ts[0], up(c, true))
			case "le":
				return b.FP("le", 0, x.ts[0], up(c, false))
			}
			return nil
		}
		c := math.Float64frombits(x.k)
		if name == "lt" {
			return b.FP("lt", 0, up(c, false), y.ts[0])
		}
		return b.FP("le", 0, up(c, true), y.ts[0])
	}
	v, c, lt := x, y, true // v < c, or c < v
	if x.isConst() {
		v, c, lt = y, x, false
	}
	w := v.w
	sign := uint64(1) << (w - 1)
	inf := uint64(0x7ff) << 52
	if w == 32 {
		inf = 0xff << 23
	}
	k := c.k
	mag := k &^ sign
	neg := k&sign != 0 && mag != 0
	if mag > inf {
		return b.ff
	}
	K := func(x uint64) *Term { return b.Const(w, x) }
	within := func(lo, hi uint64) *Term {
		if lo > hi {
			return b.ff
		}
		return b.And(b.Ule(K(lo), v), b.Ule(v, K(hi)))
	}
	if name == "eq" {
		if mag == 0 {
			return b.Or(b.Eq(v, K(0)), b.Eq(v, K(sign)))
		}
		return b.Eq(v, K(k))
	}
	le := name == "le"
	var r *Term
	switch {
	case lt && mag == 0: // v < 0, v <= 0
		r = within(sign+1, sign+inf)
		if le {
			r = b.Or(b.Eq(v, K(0)), within(sign, sign+inf))
		}
	case lt && !neg:
		m := mag
		if !le {
			m--
		}
		r = b.Or(b.Ule(v, K(m)), within(sign, sign+inf))
	case lt && neg:
		m := mag
		if !le {
			m++
		}
		r = within(sign+m, sign+inf)
	case mag == 0: // 0 < v, 0 <= v
		r = within(1, inf)
		if le {
			r = b.Or(b.Ule(v, K(inf)), b.Eq(v, K(sign)))
		}
	case !neg:
		m := mag
		if !le {
			m++
		}
		r = within(m, inf)
	default:
		m := mag
		if !le {
			m--
		}
		r = b.Or(b.Ule(v, K(inf)), within(sign, sign+m))
	}
	return r
}

// fpNum: not a NaN
func (b *TB) fpNum(v *Term) *Term {
	if v.op == OFP && v.name == "ext" {
		return b.fpNum(v.ts[0])
	}
	w := v.w
	sign := uint64(1) << (w - 1)
	inf := uint64(0x7ff) << 52
	if w == 32 {
		inf = 0xff << 23
	}
	return b.Or(b.Ule(v, b.Const(w, inf)), b.And(b.Ule(b.Const(w, sign), v), b.Ule(v, b.Const(w, sign+inf))))
}

// ---- the decimal form of a symbolic float ----
//
// The shortest decimal that rounds to a positive finite float x is
// 0.d1d2..dn * 10^(e+1): its exponent e is decided exactly, since
// float(10^e) <= x < float(10^(e+1)) holds for exactly one e; the number of
// digits n and the digits are uninterpreted functions of the bits of x.

var pow10 = map[int][]uint64{}

const eMin64, eMin32 = -324, -45

func init() {
	for _, bs := range []int{32, 64} {
		lo, hi := eMin64, 308
		if bs == 32 {
			lo, hi = eMin32, 38
		}
		for e := lo; e <= hi; e++ {
			f, err := strconv.ParseFloat("1e"+strconv.Itoa(e), bs)
			if err != nil {
				panic(err)
			}
			k := math.Float64bits(f)
			if bs == 32 {
				k = uint64(math.Float32bits(float32(f)))
			}
			pow10[bs] = append(pow10[bs], k)
		}
		bs := bs
		ufImpl["fdn"+strconv.Itoa(bs)] = func(a []uint64) uint64 { return uint64(len(decimalOf(a[0], bs))) }
		for i := 0; i < 17; i++ {
			i := i
			ufImpl["fd"+strconv.Itoa(bs)+"_"+strconv.Itoa(i)] = func(a []uint64) uint64 {
				d := decimalOf(a[0], bs)
				if i < len(d) {
					return uint64(d[i])
				}
				return '0'
			}
		}
	}
}

// decimalOf gives the digits of the shortest decimal.
func decimalOf(bits uint64, bs int) string {
	f := math.Float64frombits(bits)
	if bs == 32 {
		f = float64(math.Float32frombits(uint32(bits)))
	}
	s := strconv.FormatFloat(math.Abs(f), 'e', -1, bs)
	d := ""
	for i := 0; i < len(s) && s[i] != 'e'; i++ {
		if s[i] != '.' {
			d += string(s[i])
		}
	}
	return d
}

// floatHint: the variable behind a float whose decimal form the path fixed
type floatHint struct {
	abs  *Term
	bs   int
	n, e int
	digs []W
}

// appendFloatSym models strconv.AppendFloat with the shortest precision.
func (m *Machine) appendFloatSym(a []W, fm uint64, prec, bs int) {
	if prec != -1 || bs != 32 && bs != 64 {
		m.unsup("AppendFloat of a symbolic value with precision %d", prec)
	}
	tb := m.tb
	t := m.toTerm(a[3], 64)
	if bs == 32 {
		t = tb.FP("trunc", 32, t)
	}
	w := uint8(bs)
	sign := uint64(1) << (w - 1)
	inf := uint64(0x7ff) << 52
	if w == 32 {
		inf = 0xff << 23
	}
	var out []W
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, W{u: uint64(s[i])})
		}
	}
	neg := m.branch(tb.Ule(tb.Const(w, sign), t))
	abs := tb.bin(OAnd, t, tb.Const(w, sign-1))
	known := -1
	for i, h := range m.path.floats {
		if h.abs == abs && h.bs == bs {
			known = i
		}
	}
	if known < 0 && !m.branch(tb.Ule(abs, tb.Const(w, inf))) {
		lit("NaN")
		m.appendWords(a[:3], out)
		return
	}
	if known < 0 && m.branch(tb.Eq(abs, tb.Const(w, inf))) {
		if neg {
			lit("-Inf")
		} else {
			lit("+Inf")
		}
		m.appendWords(a[:3], out)
		return
	}
	if neg {
		lit("-")
	}
	var digs []W
	e := 0
	if known >= 0 {
		h := m.path.floats[known]
		digs, e = h.digs, h.e
	} else if m.branch(tb.Eq(abs, tb.Const(w, 0))) {
		digs = []W{{u: '0'}}
	} else {
		ps := pow10[bs]
		lo, hi := 0, len(ps)-1 // ps[lo] <= abs (ps[0] is 0 or the least float), abs < ps[hi+1]
		for lo < hi {
			mid := (lo + hi + 1) / 2
			if m.branch(tb.Ule(tb.Const(w, ps[mid]), abs)) {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		e = lo + eMin64
		max := 17
		if bs == 32 {
			e = lo + eMin32
			max = 9
		}
		nm := strconv.Itoa(bs)
		cn := tb.UF("fdn"+nm, 8, []*Term{abs})
		conds := make([]*Term, max)
		for i := range conds {
			conds[i] = tb.Eq(cn, tb.Const(8, uint64(i+1)))
		}
		n := m.fork(conds) + 1
		for i := 0; i < n; i++ {
			d := tb.UF("fd"+nm+"_"+strconv.Itoa(i), 8, []*Term{abs})
			l := uint64('0')
			if i == 0 || i == n-1 {
				l = '1'
			}
			m.assume(tb.And(tb.Ule(tb.Const(8, l), d), tb.Ule(d, tb.Const(8, '9'))))
			digs = append(digs, m.fromTerm(d))
		}
		m.path.floats = append(m.path.floats, floatHint{abs, bs, n, e, digs})
	}
	n := len(digs)
	switch fm {
	case 'g', 'G':
		fm -= 2 // e, E
		if e >= -4 && e < 6 {
			fm = 'f'
		}
	}
	switch fm {
	case 'e', 'E':
		out = append(out, digs[0])
		if n > 1 {
			lit(".")
			out = append(out, digs[1:]...)
		}
		out = append(out, W{u: fm})
		x := e
		if x < 0 {
			lit("-")
			x = -x
		} else {
			lit("+")
		}
		if x < 10 {
			lit("0")
		}
		lit(strconv.Itoa(x))
	case 'f':
		if e < 0 {
			lit("0.")
			for i := -1; i > e; i-- {
				lit("0")
			}
			out = append(out, digs...)
		} else {
			for i := 0; i <= e || i < n; i++ {
				if i == e+1 {
					lit(".")
				}
				if i < n {
					out = append(out, digs[i])
				} else {
					lit("0")
				}
			}
		}
	default:
		m.unsup("AppendFloat of a symbolic value in format %c", byte(fm))
	}
	m.appendWords(a[:3], out)
}

// floatModel gives the inputs behind floats values with the digits the path fixed.
func (m *Machine) floatModel(model []uint64, r *rand.Rand) []uint64 {
	for _, h := range m.path.floats {
		vs := varsOf(h.abs)
		if len(vs) != 1 {
			continue
		}
		ds := make([]byte, h.n)
		for i := range ds {
			ds[i] = byte('0' + r.Intn(10))
		}
		if ds[0] == '0' {
			ds[0] = '1'
		}
		if ds[h.n-1] == '0' {
			ds[h.n-1] = '7'
		}
		f, err := strconv.ParseFloat(string(ds)+"e"+strconv.Itoa(h.e-h.n+1), h.bs)
		if err != nil {
			continue
		}
		k, s := math.Float64bits(f), uint64(1)<<63
		if h.bs == 32 {
			k, s = uint64(math.Float32bits(float32(f))), 1<<31
		}
		// the variable is the value itself, apart from its sign
		model[vs[0]] = model[vs[0]]&s | k
	}
	return model
}
