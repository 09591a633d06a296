package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// zm is a member encoding/json gives a struct (see gen/zoo.py).
type zm struct {
	name         string
	leaf         int // the int it holds, if it is no struct
	omit, quoted bool
	kids         []zm
	ptr          int   // the pointer it is, if it is one
	abs          []int // the embedded pointers it is behind
}

type stZoo struct {
	mk       func(null func(int) bool) interface{}
	leaves   func(interface{}) []*int
	exported []bool
	up       [][]int // the pointers a pointer is behind
	m        []zm
}

// zooNulls decides which of the pointers are nil.
func zooNulls(z *stZoo) []bool {
	n := make([]bool, len(z.up))
	for i := range n {
		n[i] = vrt.Choose(2) == 1
		for _, u := range z.up[i] {
			n[i] = n[i] || n[u]
		}
	}
	return n
}

func zooEnc(b []byte, ms []zm, nulls []bool, ls []*int) []byte {
	b = append(b, '{')
	n := 0
next:
	for i := range ms {
		m := &ms[i]
		for _, k := range m.abs {
			if nulls[k] {
				continue next
			}
		}
		if m.omit && (m.kids == nil && *ls[m.leaf] == 0 || m.kids != nil && nulls[m.ptr]) {
			continue
		}
		if n > 0 {
			b = append(b, ',')
		}
		n++
		b = append(b, '"')
		for _, c := range []byte(m.name) {
			if c == '<' {
				b = append(b, `\u003c`...)
			} else {
				b = append(b, c)
			}
		}
		b = append(b, '"', ':')
		switch {
		case m.kids != nil && m.ptr >= 0 && nulls[m.ptr]:
			b = append(b, "null"...)
		case m.kids != nil:
			b = zooEnc(b, m.kids, nulls, ls)
		default:
			if m.quoted {
				b = append(b, '"')
			}
			b = refEnc(b, tInt, ofInt(*ls[m.leaf]), false)
			if m.quoted {
				b = append(b, '"')
			}
		}
	}
	return append(b, '}')
}

// stZooO is a struct with the members it has under options (see gen/zoo.py).
type stZooO struct {
	mk       func(null func(int) bool) interface{}
	leaves   func(interface{}) []*int
	exported []bool
	up       [][]int
	m        [4][]zm
}

func zooWith(k, o int) *stZoo {
	z := &zooOpt[k]
	return &stZoo{z.mk, z.leaves, z.exported, z.up, z.m[o]}
}

var (
	optEnc = [4]*jzon.EncoderConfig{}
	optDec = [4][4]*jzon.DecoderConfig{}
)

func init() {
	for o := range optEnc {
		tag := ""
		if o&1 == 1 {
			tag = "db"
		}
		optEnc[o] = jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: tag, OnlyTaggedField: o&2 == 2, EscapeHTML: true})
		for c := range optDec[o] {
			optDec[o][c] = jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: tag, OnlyTaggedField: o&2 == 2, CaseSensitive: c&1 == 1, DisallowUnknownFields: c >= 2})
		}
	}
}

// H_optEnc: the same as H_structEnc under options o.
func H_optEnc() {
	o := param("o")
	zooEncOn(zooWith(param("k"), o), optEnc[o].Marshal, optDec[o][0].Unmarshal)
}

// H_optDec: the same as H_structDec under options o.
func H_optDec() {
	o := param("o")
	zooDecOn(zooWith(param("k"), o), optDec[o][param("c")])
}

func S_optEnc() {
	for i := range zooOpt {
		for _, c := range optEnc {
			c.Marshal(zooOpt[i].mk(func(int) bool { return false }))
		}
	}
}

func S_optDec() {
	for i := range zooOpt {
		for _, l := range optDec {
			for _, c := range l {
				c.Unmarshal([]byte(`{"q":1}`), zooOpt[i].mk(func(int) bool { return true }))
			}
		}
	}
}

// H_structEnc: Marshal of struct k with any of its pointers nil and two arbitrary leaves.
func H_structEnc() { zooEncOn(&zooAll[param("k")], jzon.Marshal, jzon.Unmarshal) }

func zooEncOn(z *stZoo, marshal func(interface{}) ([]byte, error), unmarshal func([]byte, interface{}) error) {
	nulls := zooNulls(z)
	x := z.mk(func(i int) bool { return nulls[i] })
	ls := z.leaves(x)
	f := param("f")
	if f >= len(ls) {
		vrt.Cover("done")
		return
	}
	for i, l := range ls {
		if l == nil {
			continue
		}
		if i == f || i == f+1 {
			*l = gInt()
		} else if param("z") == 0 {
			*l = 100 + i
		}
	}
	want := zooEnc(nil, z.m, nulls, ls)
	got, err := marshal(x)
	vrt.ObserveBytes("out", got)
	vrt.Assert(err == nil && string(got) == string(want), "Marshal of a struct writes other members than encoding/json")
	y := z.mk(func(i int) bool { return nulls[i] })
	err = unmarshal(got, y)
	vrt.Assert(err == nil, "Unmarshal rejects what Marshal wrote")
	l2 := z.leaves(y)
	zooBack(z.m, nulls, ls, l2)
	vrt.Cover("done")
}

func zooBack(ms []zm, nulls []bool, a, b []*int) {
next:
	for i := range ms {
		m := &ms[i]
		for _, k := range m.abs {
			if nulls[k] {
				continue next
			}
		}
		if m.kids == nil {
			vrt.Assert(*a[m.leaf] == *b[m.leaf], "Marshal and Unmarshal give another value")
		} else if m.ptr < 0 || !nulls[m.ptr] {
			zooBack(m.kids, nulls, a, b)
		}
	}
}

// zooApply does what decoding v does to the members; the leaves are in want.
func zooApply(z *stZoo, ms []zm, v *val, c int, nulls []bool, want []int, fresh func(k int)) bool {
	if v.kind == 'n' {
		return true
	}
	if v.kind != 'o' {
		return false
	}
	names := make([]string, len(ms))
	for i := range ms {
		names[i] = ms[i].name
	}
	for i, key := range v.k {
		j := selects(names, key, c&1 == 1)
		if j < 0 {
			if c >= 2 {
				return false
			}
			continue
		}
		m, e := &ms[j], v.e[i]
		for _, k := range m.abs {
			if nulls[k] {
				if !z.exported[k] {
					return false
				}
				fresh(k)
			}
		}
		if m.kids != nil {
			if m.ptr >= 0 {
				if e.kind == 'n' {
					nulls[m.ptr] = true
					continue
				}
				if e.kind == 'o' && nulls[m.ptr] {
					fresh(m.ptr)
				}
			}
			if !zooApply(z, m.kids, e, c, nulls, want, fresh) {
				return false
			}
			continue
		}
		if e.kind == 'n' {
			continue
		}
		kind := byte('0')
		if m.quoted {
			kind = 's'
		}
		n, ok := smallInt(e.s)
		if e.kind != kind || !ok {
			return false
		}
		want[m.leaf] = n
	}
	return true
}

// H_structDec: struct k with any of its pointers nil takes an object of n members.
// s: 0 names of the struct, any spelling; l>0 one name of l arbitrary bytes.
func H_structDec() { zooDecOn(&zooAll[param("k")], structCfg[param("c")]) }

func zooDecOn(z *stZoo, cfg *jzon.DecoderConfig) {
	c, r, l := param("c"), param("r"), param("l")
	nulls := zooNulls(z)
	b := []byte{'{'}
	for i := 0; i < param("n"); i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '"')
		var m *zm
		if l > 0 {
			for j := 0; j < l; j++ {
				b = append(b, stChar())
			}
		} else if len(z.m) == 0 {
			b = append(b, 'A')
		} else {
			m = &z.m[vrt.Choose(len(z.m))]
			b = zooName(b, m.name)
		}
		b = append(b, '"', ':')
		b = zooVal(b, m)
	}
	b = append(b, '}')
	zooDec(z, cfg, b, nulls, c, r)
}

func zooName(b []byte, n string) []byte {
	k := len(b)
	b = append(b, n...)
	switch vrt.Choose(3) {
	case 1:
		b[k] ^= 0x20 // most are letters
	case 2:
		b[len(b)-1] = vrt.ByteIn('A', 'z')
		vrt.Assume(b[len(b)-1] != '\\')
	}
	return b
}

func zooVal(b []byte, m *zm) []byte {
	d := vrt.ByteIn('0', '9')
	if m == nil {
		switch vrt.Choose(4) {
		case 0:
			return append(b, '"', d, '"')
		case 1:
			return append(b, "{}"...)
		case 2:
			return append(b, "null"...)
		}
		return append(b, d)
	}
	if vrt.Choose(3) == 0 {
		return append(b, "null"...)
	}
	if m.kids == nil {
		if m.quoted {
			return append(b, '"', d, '"')
		}
		return append(b, d)
	}
	b = append(b, '{')
	if len(m.kids) > 0 {
		if j := vrt.Choose(len(m.kids) + 1); j < len(m.kids) {
			b = append(b, '"')
			b = append(b, m.kids[j].name...)
			b = append(b, '"', ':')
			if m.kids[j].kids != nil {
				b = append(b, "{}"...)
			} else if m.kids[j].quoted {
				b = append(b, '"', d, '"')
			} else {
				b = append(b, d)
			}
		}
	}
	return append(b, '}')
}

func zooDec(z *stZoo, cfg *jzon.DecoderConfig, b []byte, nulls []bool, c, r int) {
	vrt.ObserveBytes("in", b)
	x := z.mk(func(i int) bool { return nulls[i] })
	ls := z.leaves(x)
	want := make([]int, len(ls))
	for i, l := range ls {
		if l != nil {
			want[i] = -100 - i
			*l = want[i]
		}
	}
	v, ok := refDoc(b)
	if ok {
		ok = zooApply(z, z.m, v, c, nulls, want, func(k int) { nulls[k] = false })
	}
	var err error
	if r < 0 {
		err = cfg.Unmarshal(b, x)
	} else {
		err = cfg.UnmarshalFromReader(newReader(r, b), x)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "decoding into a struct accepts something else than encoding/json, or rejects it")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	y := z.mk(func(i int) bool { return nulls[i] })
	for i, l := range z.leaves(y) {
		g := z.leaves(x)[i]
		vrt.Assert((g == nil) == (l == nil), "decoding leaves other pointers nil than encoding/json")
		if g != nil {
			vrt.Assert(*g == want[i], "a member is stored in another field than its name selects, or another field changes")
		}
	}
}

func S_structEnc() {
	for i := range zooAll {
		z := &zooAll[i]
		jzon.Marshal(z.mk(func(int) bool { return false }))
	}
}

func S_structDec() {
	for i := range zooAll {
		z := &zooAll[i]
		for _, c := range structCfg {
			c.Unmarshal([]byte(`{"q":1}`), z.mk(func(int) bool { return true }))
		}
	}
}
