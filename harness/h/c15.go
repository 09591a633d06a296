package h

import (
	"encoding/json"
	"math"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// fld is a struct field as encoding/json sees it.
type fld struct {
	name  string
	t     *ty
	omit  bool
	quote bool
}

// refEnc writes the text of a value.
func refEnc(b []byte, t *ty, c *cv, quote bool) []byte {
	if cuEnc != 0 {
		if x, does := refCuEnc(t, c); does {
			return append(b, x...)
		}
	}
	if c.nul {
		return append(b, "null"...)
	}
	switch t.k {
	case 'i', 'x', 'b', 's':
		q := quote && t.k != 's'
		if q {
			b = append(b, '"')
		}
		switch {
		case t.k == 'b' && c.i == 1:
			b = append(b, "true"...)
		case t.k == 'b':
			b = append(b, "false"...)
		case t.k == 's':
			if quote {
				b = append(b, `"\`...)
			}
			b = append(b, '"')
			b = append(b, c.s...)
			if quote {
				b = append(b, '\\', '"')
			}
			b = append(b, '"')
		default:
			n := c.i
			if n < 0 {
				b = append(b, '-')
				n = -n
			}
			if n >= 100 {
				b = append(b, '0'+byte(n/100))
			}
			if n >= 10 {
				b = append(b, '0'+byte(n/10%10))
			}
			b = append(b, '0'+byte(n%10))
		}
		if q {
			b = append(b, '"')
		}
		return b
	case 'n':
		if len(c.s) == 0 {
			return append(b, '0')
		}
		return append(b, c.s...)
	case 'r':
		return append(b, c.s...)
	case 'y':
		b = append(b, '"')
		for i := 0; i < len(c.s); i += 3 {
			x, n := uint32(0), 0
			for j := 0; j < 3; j++ {
				x <<= 8
				if i+j < len(c.s) {
					x |= uint32(c.s[i+j])
					n++
				}
			}
			q := []byte{b64[x>>18], b64[x>>12&63], b64[x>>6&63], b64[x&63]}
			b = append(b, q[:n+1]...)
			b = append(b, "=="[:3-n]...)
		}
		return append(b, '"')
	case 'P':
		return refEnc(b, t.elem, c.in, quote)
	case 'E', 'F':
		return refEnc(b, c.t, c.in, false)
	case 'L', 'A':
		b = append(b, '[')
		for i, e := range c.e {
			if i > 0 {
				b = append(b, ',')
			}
			b = refEnc(b, t.elem, e, false)
		}
		return append(b, ']')
	case 'M':
		b = append(b, '{')
		for i, e := range c.e {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, '"')
			b = append(b, c.k[i]...)
			b = append(b, '"', ':')
			b = refEnc(b, t.elem, e, false)
		}
		return append(b, '}')
	case 'T':
		b = append(b, '{')
		n := 0
		for i, f := range t.f {
			e := c.e[i]
			if e == nil || f.omit && refEmpty(f.t, e) {
				continue
			}
			if n > 0 {
				b = append(b, ',')
			}
			n++
			b = append(b, '"')
			b = append(b, f.name...)
			b = append(b, '"', ':')
			b = refEnc(b, f.t, e, f.quote)
		}
		return append(b, '}')
	}
	panic("ty")
}

func refEmpty(t *ty, c *cv) bool {
	if cuEnc != 0 {
		if e, does := refCuEmpty(t, c); does {
			return e
		}
	}
	if c.nul {
		return true
	}
	switch t.k {
	case 'i', 'x', 'b':
		return c.i == 0
	case 's', 'y', 'n', 'r':
		return len(c.s) == 0
	case 'L', 'M':
		return len(c.e) == 0
	case 'A':
		return t.n == 0
	}
	return false
}

// ---- contents

func gInt() int {
	d := int(vrt.ByteIn(0, 19))
	return d - 9
}
func gDig() int { return int(vrt.ByteIn(0, 9)) }
func gStr() string {
	return string(gBytesN(vrt.Choose(2)))
}
func gBytesN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.ByteIn('a', 'z')
	}
	return b
}
func gBool() bool { return vrt.Choose(2) == 1 }
func gPInt() *int {
	if vrt.Choose(2) == 0 {
		return nil
	}
	x := gInt()
	return &x
}
func gInts() []int {
	switch vrt.Choose(4) {
	case 0:
		return nil
	case 1:
		return []int{}
	case 2:
		return []int{gDig()}
	}
	return []int{gDig(), gDig()}
}
func gMap() map[string]int {
	switch vrt.Choose(3) {
	case 0:
		return nil
	case 1:
		return map[string]int{}
	}
	return map[string]int{string(gBytesN(1)): gDig()}
}
func gBytes() []byte {
	switch n := vrt.Choose(6); n {
	case 0:
		return nil
	default:
		return bytesN(n - 1)
	}
}
func ofBool(x bool) *cv { return &cv{i: int(b2i(x))} }
func ofP(x *cv, isNil bool) *cv {
	if isNil {
		return &cv{nul: true}
	}
	return &cv{in: x}
}

type leafE struct {
	A int    `json:"a,omitempty"`
	B int8   `json:"b,string"`
	C string `json:"c,omitempty"`
	D string `json:",string"`
	E bool   `json:"e,omitempty"`
	F bool   `json:"f,string,omitempty"`
	G *int   `json:"g,omitempty"`
	H *int
	I *int    `json:"i,string"`
	J *string `json:"j,omitempty,string"`
	k int
	L uint16 `json:"-"`
}

var tLeafE = &ty{k: 'T', f: []fld{{"a", tInt, true, false}, {"b", tOther, false, true}, {"c", tStr, true, false}, {"D", tStr, false, true},
	{"e", tBool, true, false}, {"f", tBool, true, true}, {"g", tPtr(tInt), true, false}, {"H", tPtr(tInt), false, false}, {"i", tPtr(tInt), false, true}, {"j", tPtr(tStr), true, true}}}

func gLeafE(f int) leafE {
	x := leafE{A: 1, B: 2, C: "c", D: "d", k: 3, L: 4}
	// two of the fields vary
	for j := f; j < f+3; j++ {
		switch j % 10 {
		case 0:
			x.A = gInt()
		case 1:
			x.B = int8(gInt())
		case 2:
			x.C = gStr()
		case 3:
			x.D = gStr()
		case 4:
			x.E = gBool()
		case 5:
			x.F = gBool()
		case 6:
			x.G = gPInt()
		case 7:
			x.H = gPInt()
		case 8:
			x.I = gPInt()
		case 9:
			if vrt.Choose(2) == 1 {
				s := gStr()
				x.J = &s
			}
		}
	}
	return x
}
func ofLeafE(x leafE) *cv {
	c := &cv{e: []*cv{ofInt(x.A), ofInt(int(x.B)), ofStr(x.C), ofStr(x.D), ofBool(x.E), ofBool(x.F), ofPInt(x.G), ofPInt(x.H), ofPInt(x.I), &cv{nul: true}}}
	if x.J != nil {
		c.e[9] = &cv{in: ofStr(*x.J)}
	}
	return c
}

type contE struct {
	A []int             `json:"a"`
	B []int             `json:"b,omitempty"`
	C map[string]int    `json:"c"`
	D map[string]int    `json:"d,omitempty"`
	E [2]int            `json:"e,omitempty"`
	F [0]int            `json:"f,omitempty"`
	G []byte            `json:"g,omitempty"`
	H []byte            `json:"h"`
	I struct{}          `json:"i,omitempty"`
	J struct{ X int }   `json:"j,omitempty"`
	K *contE            `json:"k,omitempty"`
	L []*contE          `json:"l,omitempty"`
	M map[string]*contE `json:"m,omitempty"`
	N *[]int            `json:"n,omitempty"`
}

var tContE = func() *ty {
	t := &ty{k: 'T'}
	in := &ty{k: 'T', f: []fld{{"X", tInt, false, false}}}
	t.f = []fld{{"a", tSlice(tInt), false, false}, {"b", tSlice(tInt), true, false}, {"c", tMap(tInt), false, false}, {"d", tMap(tInt), true, false},
		{"e", tArr(2, tInt), true, false}, {"f", tArr(0, tInt), true, false}, {"g", tBytes, true, false}, {"h", tBytes, false, false},
		{"i", &ty{k: 'T'}, true, false}, {"j", in, true, false}, {"k", tPtr(t), true, false}, {"l", tSlice(tPtr(t)), true, false}, {"m", tMap(tPtr(t)), true, false}, {"n", tPtr(tSlice(tInt)), true, false}}
	return t
}()

func gContE(f int, deep bool) contE {
	x := contE{}
	for j := f; j < f+2; j++ {
		switch j % 12 {
		case 0:
			x.A = gInts()
		case 1:
			x.B = gInts()
		case 2:
			x.C = gMap()
		case 3:
			x.D = gMap()
		case 4:
			x.E = [2]int{gInt(), gInt()}
		case 5:
			x.J.X = gInt()
		case 6:
			x.G = gBytes()
		case 7:
			x.H = gBytes()
		case 8:
			if deep && vrt.Choose(2) == 1 {
				y := gContE(f%5, false)
				x.K = &y
			}
		case 9:
			if n := vrt.Choose(3); deep && n > 0 {
				y := gContE(1, false)
				x.L = []*contE{nil, &y}[2-n:]
			}
		case 10:
			switch {
			case !deep:
			case vrt.Choose(2) == 1:
				y := gContE(2, false)
				x.M = map[string]*contE{"q": &y}
			case vrt.Choose(2) == 1:
				x.M = map[string]*contE{"q": nil}
			}
		case 11:
			if vrt.Choose(2) == 1 {
				y := gInts()
				if y == nil {
					y = []int{}
				}
				x.N = &y
			}
		}
	}
	return x
}
func ofContE(x contE) *cv {
	c := &cv{e: []*cv{ofInts(x.A), ofInts(x.B), ofMap(x.C), ofMap(x.D), ofInts(x.E[:]), &cv{}, ofBytes(x.G), ofBytes(x.H), &cv{}, &cv{e: []*cv{ofInt(x.J.X)}}, nil, nil, nil, nil}}
	c.e[10] = ofPContE(x.K)
	c.e[11] = &cv{nul: x.L == nil}
	for _, e := range x.L {
		c.e[11].e = append(c.e[11].e, ofPContE(e))
	}
	c.e[12] = &cv{nul: x.M == nil}
	for k, e := range x.M {
		c.e[12].k = append(c.e[12].k, []byte(k))
		c.e[12].e = append(c.e[12].e, ofPContE(e))
	}
	c.e[13] = &cv{nul: true}
	if x.N != nil {
		c.e[13] = &cv{in: ofInts(*x.N)}
	}
	return c
}
func ofPContE(x *contE) *cv {
	if x == nil {
		return &cv{nul: true}
	}
	return &cv{in: ofContE(*x)}
}

type (
	ptrOnly struct{ P *int }
	mapOnly struct{ M map[string]int }
	deepPtr struct{ P ptrOnly }
	arrPtr  struct{ P [1]*int }
	anyOnly struct{ A interface{} }
	numRaw  struct {
		N json.Number     `json:"n"`
		M json.Number     `json:"m,omitempty"`
		R json.RawMessage `json:"r"`
		S json.RawMessage `json:"s,omitempty"`
		P *json.Number    `json:"p"`
		Q *json.RawMessage
	}
	tree struct {
		V int   `json:"v"`
		L *tree `json:"l,omitempty"`
		R *tree
	}
	nestL []nestL
	nestM map[string]nestM
)

var (
	tNum     = &ty{k: 'n'}
	tRaw     = &ty{k: 'r'}
	tPtrOnly = &ty{k: 'T', f: []fld{{"P", tPtr(tInt), false, false}}}
	tMapOnly = &ty{k: 'T', f: []fld{{"M", tMap(tInt), false, false}}}
	tDeepPtr = &ty{k: 'T', f: []fld{{"P", tPtrOnly, false, false}}}
	tArrPtr  = &ty{k: 'T', f: []fld{{"P", tArr(1, tPtr(tInt)), false, false}}}
	tNumRaw  = &ty{k: 'T', f: []fld{{"n", tNum, false, false}, {"m", tNum, true, false}, {"r", tRaw, false, false}, {"s", tRaw, true, false}, {"p", tPtr(tNum), false, false}, {"Q", tPtr(tRaw), false, false}}}
	tTree    = func() *ty {
		t := &ty{k: 'T'}
		t.f = []fld{{"v", tInt, false, false}, {"l", tPtr(t), true, false}, {"R", tPtr(t), false, false}}
		return t
	}()
	tNestL = func() *ty { t := &ty{k: 'L'}; t.elem = t; return t }()
	tNestM = func() *ty { t := &ty{k: 'M'}; t.elem = t; return t }()
)

func gNum() json.Number { return json.Number(gDigits(vrt.Choose(3))) }
func gDigits(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.ByteIn('1', '9')
	}
	return b
}
func gRaw() json.RawMessage {
	switch vrt.Choose(4) {
	case 0:
		return nil
	case 1:
		return json.RawMessage{vrt.ByteIn('0', '9')}
	case 2:
		return json.RawMessage(`[1,{"a":null}]`)
	}
	return json.RawMessage{'"', vrt.ByteIn('a', 'z'), '"'}
}
func ofNum(x json.Number) *cv     { return ofStr(string(x)) }
func ofRaw(x json.RawMessage) *cv { return ofBytes(x) }

func gTree(n int) *tree {
	if n == 0 || vrt.Choose(2) == 0 {
		return nil
	}
	return &tree{gDig(), gTree(n - 1), gTree(n - 1)}
}
func ofTree(x *tree) *cv {
	if x == nil {
		return &cv{nul: true}
	}
	return &cv{in: &cv{e: []*cv{ofInt(x.V), ofTree(x.L), ofTree(x.R)}}}
}
func gNestL(n int) nestL {
	if n == 0 {
		return nil
	}
	x := nestL{}
	for i := vrt.Choose(3); i > 0; i-- {
		x = append(x, gNestL(n-1))
	}
	return x
}
func ofNestL(x nestL) *cv {
	c := &cv{nul: x == nil}
	for _, e := range x {
		c.e = append(c.e, ofNestL(e))
	}
	return c
}
func gNestM(n int) nestM {
	if n == 0 || vrt.Choose(2) == 0 {
		return nil
	}
	x := nestM{}
	if vrt.Choose(2) == 1 {
		x[string(gBytesN(1))] = gNestM(n - 1)
	}
	return x
}
func ofNestM(x nestM) *cv {
	c := &cv{nul: x == nil}
	for k, e := range x {
		c.k = append(c.k, []byte(k))
		c.e = append(c.e, ofNestM(e))
	}
	return c
}

// gDyn gives something an interface may hold.
func gDyn() (interface{}, *cv) {
	hold := func(t *ty, c *cv) *cv { return &cv{t: t, in: c} }
	switch vrt.Choose(13) {
	case 0:
		return nil, &cv{nul: true}
	case 1:
		x := gInt()
		return x, hold(tInt, ofInt(x))
	case 2:
		x := gPInt()
		return x, hold(tPtr(tInt), ofPInt(x))
	case 3:
		x := gInts()
		return x, hold(tSlice(tInt), ofInts(x))
	case 4:
		x := gMap()
		return x, hold(tMap(tInt), ofMap(x))
	case 5:
		x := ptrOnly{gPInt()}
		return x, hold(tPtrOnly, &cv{e: []*cv{ofPInt(x.P)}})
	case 6:
		x := &ptrOnly{gPInt()}
		return x, hold(tPtr(tPtrOnly), &cv{in: &cv{e: []*cv{ofPInt(x.P)}}})
	case 7:
		x := [1]*int{gPInt()}
		return x, hold(tArr(1, tPtr(tInt)), &cv{e: []*cv{ofPInt(x[0])}})
	case 8:
		x := mapOnly{gMap()}
		return x, hold(tMapOnly, &cv{e: []*cv{ofMap(x.M)}})
	case 9:
		x := gStr()
		return x, hold(tStr, ofStr(x))
	case 10:
		x := []interface{}{gInt(), nil}
		return x, hold(tSlice(tAny), &cv{e: []*cv{hold(tInt, ofInt(x[0].(int))), {nul: true}}})
	case 11:
		p := gPInt()
		return &p, hold(tPtr(tPtr(tInt)), &cv{in: ofPInt(p)})
	}
	x := gBytesN(2)
	return x, hold(tBytes, ofBytes(x))
}

type wrapO[T any] struct {
	X T   `json:"x,omitempty"`
	Y int `json:"y"`
}
type wrapS[T any] struct{ X T }
type wrapP[T any] struct {
	X *T
	Y int
}

const wraps = 13

// encAgrees marshals the value, wrapped in one of several ways, and reads it back.
func encAgrees[T any](v T, t *ty, c *cv, of func(T) *cv, w int) {
	five := string(refEnc(nil, tInt, ofInt(5), false))
	one := string(refEnc(nil, tInt, ofInt(1), false))
	var b []byte
	var err error
	var want []byte
	var back *T
	txt := refEnc(nil, t, c, false)
	j := func(l, r string) []byte { return append(append([]byte(l), txt...), r...) }
	var e2 error
	rd := of != nil && cuEnc == 0
	switch w {
	case 0:
		b, err = mar(v)
		want = txt
		if rd && err == nil {
			back = new(T)
			e2 = jzon.Unmarshal(b, back)
		}
	case 1:
		b, err = mar(&v)
		want = txt
	case 2:
		b, err = mar([]T{v, v})
		want = append(j("[", ","), j("", "]")...)
		if rd && err == nil {
			x := []T{}
			e2 = jzon.Unmarshal(b, &x)
			if len(x) == 2 {
				back = &x[1]
			}
		}
	case 3:
		b, err = mar([1]T{v})
		want = j("[", "]")
	case 4:
		b, err = mar(map[string]T{"k": v})
		want = j(`{"k":`, "}")
		if rd && err == nil {
			x := map[string]T{}
			e2 = jzon.Unmarshal(b, &x)
			y := x["k"]
			back = &y
		}
	case 5:
		b, err = mar(wrapS[T]{v})
		want = j(`{"X":`, "}")
		if rd && err == nil {
			x := wrapS[T]{}
			e2 = jzon.Unmarshal(b, &x)
			back = &x.X
		}
	case 6:
		b, err = mar(&wrapS[T]{v})
		want = j(`{"X":`, "}")
	case 7:
		b, err = mar(wrapP[T]{&v, 5})
		want = j(`{"X":`, `,"Y":`+five+`}`)
		if rd && err == nil && !c.nul {
			x := wrapP[T]{}
			e2 = jzon.Unmarshal(b, &x)
			back = x.X
		}
	case 8:
		b, err = mar(wrapO[T]{v, 5})
		want = j(`{"x":`, `,"y":`+five+`}`)
		if refEmpty(t, c) {
			want = []byte(`{"y":` + five + `}`)
		}
	case 9:
		b, err = mar([]interface{}{v, 1, &v})
		want = append(j("[", ","+one+","), j("", "]")...)
	case 10:
		p := &v
		b, err = mar(&p)
		want = txt
	case 11:
		b, err = mar([2]T{v, v})
		want = append(j("[", ","), j("", "]")...)
		if rd && err == nil {
			x := [2]T{}
			e2 = jzon.Unmarshal(b, &x)
			back = &x[0]
		}
	case 12:
		w := &flaky{part: -1}
		e := newEnc(w)
		err = e.Encode(map[string]*T{"": &v})
		e.Release()
		b = w.b
		want = j(`{"":`, "}\n")
	}
	vrt.ObserveBytes("out", b)
	vrt.ObserveBytes("want", want)
	vrt.Assert(err == nil, "Marshal fails on a value encoding/json can write")
	vrt.Assert(string(b) == string(want), "Marshal writes something else than encoding/json documents")
	if back != nil || e2 != nil {
		vrt.Assert(e2 == nil, "Unmarshal rejects what Marshal wrote")
		vrt.Assert(sameText(t, of(*back), c), "Marshal and Unmarshal give another value")
	}
	vrt.Cover("done")
}

// sameText compares contents, an absent container equal to an empty one where it is omitted.
func sameText(t *ty, a, b *cv) bool {
	return string(refEnc(nil, t, a, false)) == string(refEnc(nil, t, b, false))
}

const encShapes = 22

func enc(k, f, w int) {
	switch k {
	case 0:
		x := gLeafE(f)
		encAgrees(x, tLeafE, ofLeafE(x), ofLeafE, w)
	case 1:
		x := gContE(f, true)
		encAgrees(x, tContE, ofContE(x), ofContE, w)
	case 2:
		x := ptrOnly{gPInt()}
		of := func(x ptrOnly) *cv { return &cv{e: []*cv{ofPInt(x.P)}} }
		encAgrees(x, tPtrOnly, of(x), of, w)
	case 3:
		x := mapOnly{gMap()}
		of := func(x mapOnly) *cv { return &cv{e: []*cv{ofMap(x.M)}} }
		encAgrees(x, tMapOnly, of(x), of, w)
	case 4:
		x := deepPtr{ptrOnly{gPInt()}}
		of := func(x deepPtr) *cv { return &cv{e: []*cv{{e: []*cv{ofPInt(x.P.P)}}}} }
		encAgrees(x, tDeepPtr, of(x), of, w)
	case 5:
		x := arrPtr{[1]*int{gPInt()}}
		of := func(x arrPtr) *cv { return &cv{e: []*cv{{e: []*cv{ofPInt(x.P[0])}}}} }
		encAgrees(x, tArrPtr, of(x), of, w)
	case 6:
		x := numRaw{N: "0", R: json.RawMessage("0")}
		of := func(x numRaw) *cv {
			c := &cv{e: []*cv{ofNum(x.N), ofNum(x.M), ofRaw(x.R), ofRaw(x.S), {nul: true}, {nul: true}}}
			if x.P != nil {
				c.e[4] = &cv{in: ofNum(*x.P)}
			}
			if x.Q != nil {
				c.e[5] = &cv{in: ofRaw(*x.Q)}
			}
			return c
		}
		switch f % 3 {
		case 0:
			x.N, x.M = gNum(), gNum()
		case 1:
			x.R, x.S = gRaw(), gRaw()
		case 2:
			if vrt.Choose(2) == 1 {
				n := gNum()
				x.P = &n
			}
			if vrt.Choose(2) == 1 {
				r := gRaw()
				x.Q = &r
			}
		}
		encAgrees(x, tNumRaw, of(x), nil, w)
	case 7:
		x := gTree(2 + f%2)
		of := func(x *tree) *cv { return ofTree(x) }
		encAgrees(x, tPtr(tTree), of(x), of, w)
	case 8:
		x := gNestL(2 + f%2)
		encAgrees(x, tNestL, ofNestL(x), ofNestL, w)
	case 9:
		x := gNestM(2 + f%3)
		encAgrees(x, tNestM, ofNestM(x), ofNestM, w)
	case 10:
		x := gInts()
		encAgrees(x, tSlice(tInt), ofInts(x), ofInts, w)
	case 11:
		x := gMap()
		encAgrees(x, tMap(tInt), ofMap(x), ofMap, w)
	case 12:
		x := gBytes()
		encAgrees(x, tBytes, ofBytes(x), ofBytes, w)
	case 13:
		x := gPInt()
		encAgrees(x, tPtr(tInt), ofPInt(x), ofPInt, w)
	case 14:
		x, c := gDyn()
		encAgrees(x, tAny, c, nil, w)
	case 15:
		y, d := gDyn()
		x := anyOnly{y}
		encAgrees(x, &ty{k: 'T', f: []fld{{"A", tAny, false, false}}}, &cv{e: []*cv{d}}, nil, w)
	case 16:
		x := [2]*int{gPInt(), gPInt()}
		of := func(x [2]*int) *cv { return &cv{e: []*cv{ofPInt(x[0]), ofPInt(x[1])}} }
		encAgrees(x, tArr(2, tPtr(tInt)), of(x), of, w)
	case 17:
		x := [1]map[string]int{gMap()}
		of := func(x [1]map[string]int) *cv { return &cv{e: []*cv{ofMap(x[0])}} }
		encAgrees(x, tArr(1, tMap(tInt)), of(x), of, w)
	case 18:
		x := [3]byte{1, byte(gInt() + 20), 3}
		of := func(x [3]byte) *cv { return &cv{e: []*cv{ofInt(int(x[0])), ofInt(int(x[1])), ofInt(int(x[2]))}} }
		encAgrees(x, tArr(3, tU8), of(x), of, w)
	case 19:
		x := []namedByte{namedByte(vrt.Byte())}
		of := func(x []namedByte) *cv {
			c := &cv{nul: x == nil}
			for _, b := range x {
				c.s = append(c.s, byte(b))
			}
			return c
		}
		encAgrees(x, &ty{k: 'y', n: 1}, of(x), of, w)
	case 20:
		x := gStr()
		encAgrees(x, tStr, ofStr(x), ofStr, w)
	case 21:
		x := gRaw()
		encAgrees(x, tRaw, ofRaw(x), nil, w)
	}
}

func H_encode() { enc(param("k"), param("f"), param("w")) }

// H_encStruct: the struct shapes of C12, every field arbitrary; w: value, pointer,
// in a slice, without HTML escaping.
func H_encStruct() {
	k, w := param("k"), param("w")
	target, names, fields := shape(k)
	ps := fields()
	b := []byte{'{'}
	n := 0
	vals := []int{}
	for i, p := range ps {
		if p == nil {
			vals = append(vals, 0)
			continue
		}
		// two of the fields vary
		if i == param("f") || i == param("f")+1 {
			*p = gInt()
		}
		vals = append(vals, *p)
	}
	for i, name := range names {
		if (k == 4 && name == "z") || (name == "k_1" || name == "O") && vals[i] == 0 {
			continue
		}
		if n > 0 {
			b = append(b, ',')
		}
		n++
		b = append(b, '"')
		b = append(b, name...)
		b = append(b, '"', ':')
		if k == 6 && i == 0 {
			b = append(b, `{"V":`...)
			b = refEnc(b, tInt, ofInt(vals[2]), false)
			b = append(b, `,"T":`...)
			b = refEnc(b, tInt, ofInt(vals[3]), false)
			b = append(b, '}')
			continue
		}
		b = refEnc(b, tInt, ofInt(vals[i]), false)
	}
	b = append(b, '}')
	var got []byte
	var err error
	switch w {
	case 0:
		got, err = jzon.Marshal(target)
	case 1:
		got, err = jzon.Marshal([]interface{}{target})
		b = append(append([]byte{'['}, b...), ']')
	case 2:
		got, err = plainEnc.Marshal(&target)
	}
	vrt.ObserveBytes("out", got)
	vrt.Assert(err == nil && string(got) == string(b), "Marshal of a struct writes other members than encoding/json documents")
	// and back
	if w == 0 {
		t2, _, f2 := shape(k)
		for _, p := range f2() {
			if p != nil {
				*p = 0
			}
		}
		err := jzon.Unmarshal(got, t2)
		vrt.Assert(err == nil, "Unmarshal rejects what Marshal wrote")
		p2 := f2()
		for i := range names {
			if p2[i] != nil && ps[i] != nil && !(k == 4 && i == 1) {
				vrt.Assert(*p2[i] == vals[i], "Marshal and Unmarshal give another value")
			}
		}
	}
	vrt.Cover("done")
}

var plainEnc = jzon.NewEncoderConfig(&jzon.EncoderOption{})

// H_encMap: maps of n members with key type k.
func H_encMap() {
	n := param("n")
	var got []byte
	var err error
	type ent struct {
		k []byte
		v int
	}
	want := []ent{}
	num := func(x int) []byte { return refEnc(nil, tInt, ofInt(x), false) }
	put := func(k []byte, v int) {
		for i := range want {
			if string(want[i].k) == string(k) {
				want[i].v = v
				return
			}
		}
		want = append(want, ent{k, v})
	}
	var back interface{}
	switch param("k") {
	case 0:
		m := map[string]int{}
		for i := 0; i < n; i++ {
			k := gBytesN(1)
			v := gInt()
			m[string(k)] = v
			put(k, v)
		}
		got, err = jzon.Marshal(m)
		back = &map[string]int{}
	case 1:
		m := map[int8]int{}
		for i := 0; i < n; i++ {
			k, v := gInt(), gInt()
			m[int8(k)] = v
			put(num(k), v)
		}
		got, err = jzon.Marshal(m)
		back = &map[int8]int{}
	case 2:
		m := map[uint64]*int{}
		for i := 0; i < n; i++ {
			k, v := gInt()+9, gInt()
			m[uint64(k)] = &v
			put(num(k), v)
		}
		got, err = jzon.Marshal(m)
		back = &map[uint64]*int{}
	case 3:
		m := map[int]interface{}{}
		for i := 0; i < n; i++ {
			k, v := gInt(), gInt()
			m[k] = v
			put(num(k), v)
		}
		got, err = jzon.Marshal(m)
	case 4:
		m := map[uint16]ptrOnly{}
		for i := 0; i < n; i++ {
			k, v := gInt()+9, gInt()
			m[uint16(k)] = ptrOnly{&v}
			put(num(k), v)
		}
		got, err = jzon.Marshal(m)
		back = &map[uint16]ptrOnly{}
	}
	vrt.ObserveInt("len", int64(len(got)))
	vrt.Assert(err == nil, "Marshal of a map fails")
	v, ok := refDoc(got)
	vrt.Assert(ok && v.kind == 'o', "Marshal of a map writes malformed text")
	vrt.Assert(len(v.k) == len(want), "Marshal of a map writes more or less members than it has")
	for i, k := range v.k {
		found := false
		for _, e := range want {
			if string(e.k) == string(k) {
				found = true
				txt := num(e.v)
				if param("k") == 4 {
					txt = append(append([]byte(`{"P":`), txt...), '}')
				}
				vrt.Assert(string(got[v.e[i].beg:v.e[i].end]) == string(txt), "Marshal of a map writes another value for a key")
			}
		}
		vrt.Assert(found, "Marshal of a map writes a key it has not")
		for j := 0; j < i; j++ {
			vrt.Assert(string(v.k[j]) != string(k), "Marshal of a map writes a key twice")
		}
	}
	if back != nil {
		vrt.Assert(jzon.Unmarshal(got, back) == nil, "Unmarshal rejects what Marshal wrote")
		again, err := jzon.Marshal(back)
		vrt.Assert(err == nil && len(again) == len(got), "Marshal and Unmarshal give another value")
	}
	vrt.Cover("done")
}

// ---- what is omitted

type omitIn[T any] struct {
	A T  `json:"a,omitempty"`
	B *T `json:"b,omitempty"`
	C T  `json:"c"`
	D T  `json:"d,omitempty"`
}

type omitOne[T any] struct {
	A T `json:",omitempty"`
}

// omitAgrees: x is written as txt and is empty or not.
func omitAgrees[T any](x T, txt string, empty bool, zero T, zeroTxt string) {
	w := vrt.Choose(4)
	var got []byte
	var err error
	want := ""
	_, isStruct := any(zero).(omitBoth)
	_, isOne := any(zero).([1]int)
	_, isTwo := any(zero).([2]string)
	never := isStruct || isOne || isTwo // types without empty values
	add := func(n, t string) {
		if want != "" {
			want += ","
		}
		want += `"` + n + `":` + t
	}
	switch w {
	case 0: // the pointer is not empty
		got, err = jzon.Marshal(omitIn[T]{x, &x, x, zero})
		if !empty {
			add("a", txt)
		}
		add("b", txt)
		add("c", txt)
		if never {
			add("d", zeroTxt)
		}
	case 1:
		got, err = jzon.Marshal(&omitIn[T]{zero, nil, zero, x})
		if never {
			add("a", zeroTxt)
		}
		add("c", zeroTxt)
		if !empty {
			add("d", txt)
		}
	case 2:
		got, err = jzon.Marshal(omitOne[T]{x})
		if !empty {
			add("A", txt)
		}
	case 3:
		got, err = jzon.Marshal([]*omitOne[T]{{x}})
		if !empty {
			add("A", txt)
		}
	}
	want = "{" + want + "}"
	if w == 3 {
		want = "[" + want + "]"
	}
	vrt.ObserveBytes("out", got)
	vrt.Assert(err == nil && string(got) == want, "omitempty leaves out other members than encoding/json documents")
	vrt.Cover("done")
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// omitInt: 0, a small number, and one with only the highest bit of the type.
func omitInt[T integer](top T, topTxt string) {
	switch vrt.Choose(4) {
	case 0:
		omitAgrees(T(0), "0", true, 0, "0")
	case 1:
		c := vrt.ByteIn(1, 9)
		omitAgrees(T(c), string([]byte{'0' + c}), false, 0, "0")
	case 2:
		omitAgrees(top, topTxt, false, 0, "0")
	case 3:
		omitAgrees(T(64), "64", false, 0, "0")
	}
}

type floating interface{ ~float32 | ~float64 }

func omitFloat[T floating](tiny T, tinyTxt string) {
	switch vrt.Choose(4) {
	case 0:
		omitAgrees(T(0), "0", true, 0, "0")
	case 1:
		omitAgrees(T(math.Copysign(0, -1)), "-0", true, 0, "0")
	case 2:
		omitAgrees(tiny, tinyTxt, false, 0, "0")
	case 3:
		omitAgrees(T(-1), "-1", false, 0, "0")
	}
}

type omitBoth struct{ X, Y int }

// H_omit: omitempty fields of every kind.
func H_omit() {
	switch param("k") {
	case 0:
		omitInt(math.MinInt64, "-9223372036854775808")
	case 1:
		omitInt(int8(math.MinInt8), "-128")
	case 2:
		omitInt(int16(math.MinInt16), "-32768")
	case 3:
		omitInt(int32(math.MinInt32), "-2147483648")
	case 4:
		omitInt(int64(math.MinInt64), "-9223372036854775808")
	case 5:
		omitInt(uint(1<<63), "9223372036854775808")
	case 6:
		omitInt(uint8(128), "128")
	case 7:
		omitInt(uint16(32768), "32768")
	case 8:
		omitInt(uint32(1<<31), "2147483648")
	case 9:
		omitInt(uint64(1<<63), "9223372036854775808")
	case 10:
		omitInt(uintptr(1<<63), "9223372036854775808")
	case 11:
		omitInt(nInt16(256), "256")
	case 12:
		omitFloat(float32(math.SmallestNonzeroFloat32), "1e-45")
	case 13:
		omitFloat(math.SmallestNonzeroFloat64, "5e-324")
	case 14:
		omitFloat(nF32(-0.5), "-0.5")
	case 15:
		omitFloat(nF64(1<<52), "4503599627370496")
	case 16:
		if vrt.Choose(2) == 0 {
			omitAgrees(false, "false", true, false, "false")
		} else {
			omitAgrees(nBool(true), "true", false, false, "false")
		}
	case 17:
		if vrt.Choose(2) == 0 {
			omitAgrees("", `""`, true, "", `""`)
		} else {
			c := string([]byte{vrt.ByteIn('a', 'z')})
			omitAgrees(nStr(c), `"`+c+`"`, false, "", `""`)
		}
	case 18:
		switch vrt.Choose(3) {
		case 0:
			omitAgrees([]int(nil), `null`, true, nil, `null`)
		case 1:
			omitAgrees([]int{}, `[]`, true, nil, `null`)
		case 2:
			omitAgrees([]int{0}, `[0]`, false, nil, `null`)
		}
	case 19:
		switch vrt.Choose(3) {
		case 0:
			omitAgrees(map[string]int(nil), `null`, true, nil, `null`)
		case 1:
			omitAgrees(map[string]int{}, `{}`, true, nil, `null`)
		case 2:
			omitAgrees(map[string]int{"": 0}, `{"":0}`, false, nil, `null`)
		}
	case 20:
		omitAgrees(omitBoth{}, `{"X":0,"Y":0}`, false, omitBoth{}, `{"X":0,"Y":0}`)
	case 21:
		switch vrt.Choose(3) {
		case 0:
			omitAgrees[interface{}](nil, `null`, true, nil, `null`)
		case 1:
			omitAgrees[interface{}](0, `0`, false, nil, `null`)
		case 2:
			omitAgrees[interface{}]((*int)(nil), `null`, false, nil, `null`)
		}
	case 22:
		switch vrt.Choose(3) {
		case 0:
			omitAgrees([]byte(nil), `null`, true, nil, `null`)
		case 1:
			omitAgrees([]byte{}, `""`, true, nil, `null`)
		case 2:
			omitAgrees([]byte{0}, `"AA=="`, false, nil, `null`)
		}
	case 23:
		omitAgrees([1]int{}, `[0]`, false, [1]int{}, `[0]`)
	case 24:
		if vrt.Choose(2) == 0 {
			omitAgrees([0]int{}, `[]`, true, [0]int{}, `[]`)
		} else {
			omitAgrees([2]string{}, `["",""]`, false, [2]string{}, `["",""]`)
		}
	case 25:
		if vrt.Choose(2) == 0 {
			omitAgrees(json.RawMessage(nil), `null`, true, nil, `null`)
		} else {
			omitAgrees(json.RawMessage("0"), `0`, false, nil, `null`)
		}
	case 26:
		if vrt.Choose(2) == 0 {
			omitAgrees(json.Number(""), `0`, true, "", `0`)
		} else {
			omitAgrees(json.Number("0"), `0`, false, "", `0`)
		}
	case 27:
		z := 0
		p := &z
		if vrt.Choose(2) == 0 {
			omitAgrees(p, `0`, false, nil, `null`)
		} else {
			omitAgrees(&p, `0`, false, nil, `null`)
		}
	}
}

// ---- long containers

// H_encBig: containers of n members, one of them arbitrary.
func H_encBig() {
	n := param("n")
	p := 0
	if n > 100 { // some of the positions
		p = []int{0, 1, 8, 63, 64, 65, n / 2, n - 2, n - 1}[vrt.Choose(9)]
	} else {
		p = vrt.Choose(n)
	}
	at := func(i int) int {
		if i == p {
			return gInt()
		}
		return i % 1000
	}
	list := func(f func(i int) *cv) *cv {
		c := &cv{}
		for i := 0; i < n; i++ {
			c.e = append(c.e, f(i))
		}
		return c
	}
	w := param("w")
	switch param("k") {
	case 0:
		x := make([]int, n)
		for i := range x {
			x[i] = at(i)
		}
		encAgrees(x, tSlice(tInt), ofInts(x), ofInts, w)
	case 1:
		x := make([]*int, n)
		for i := range x {
			if i != p || gBool() {
				y := at(i)
				x[i] = &y
			}
		}
		of := func(x []*int) *cv { return list(func(i int) *cv { return ofPInt(x[i]) }) }
		encAgrees(x, tSlice(tPtr(tInt)), of(x), nil, w)
	case 2:
		x := make([]string, n)
		for i := range x {
			x[i] = rep("s", i%70)
			if i == p {
				x[i] = string(gBytesN(2))
			}
		}
		of := func(x []string) *cv { return list(func(i int) *cv { return ofStr(x[i]) }) }
		encAgrees(x, tSlice(tStr), of(x), nil, w)
	case 3:
		x := make([]byte, n)
		for i := range x {
			x[i] = byte(i * 37)
		}
		x[p] = vrt.Byte()
		encAgrees(x, tBytes, ofBytes(x), ofBytes, w)
	case 4:
		x := make([]interface{}, n)
		var at cv
		for i := range x {
			x[i] = i
		}
		y, d := gDyn()
		x[p] = y
		at.e = list(func(i int) *cv {
			if i == p {
				return d
			}
			return &cv{t: tInt, in: ofInt(i)}
		}).e
		encAgrees(x, tSlice(tAny), &at, nil, w)
	case 5:
		x := make([][]int, n)
		for i := range x {
			x[i] = []int{i}
		}
		x[p] = gInts()
		of := func(x [][]int) *cv { return list(func(i int) *cv { return ofInts(x[i]) }) }
		encAgrees(x, tSlice(tSlice(tInt)), of(x), nil, w)
	case 6:
		var x nestL
		depth := 0
		for ; depth < n; depth++ {
			x = nestL{x}
		}
		if gBool() {
			x = append(x, nestL{})
		}
		encAgrees(x, tNestL, ofNestL(x), ofNestL, w)
	case 7:
		x := [300]int8{}
		for i := range x {
			x[i] = int8(i)
		}
		d := gInt()
		x[p] = int8(d)
		c := &cv{}
		for i := range x {
			c.e = append(c.e, ofInt(int(x[i])))
		}
		encAgrees(x, tArr(300, tInt), c, nil, w)
	case 8:
		x := nestM{}
		y := x
		for i := 1; i < n; i++ {
			z := nestM{}
			y["k"] = z
			y = z
		}
		y["k"] = gNestM(2)
		encAgrees(x, tNestM, ofNestM(x), ofNestM, w)
	}
	vrt.Cover("done")
}
func S_encBig() {
	jzon.Marshal([]*int{})
	jzon.Marshal([]string{})
	jzon.Marshal([][]int{})
	jzon.Marshal([300]int8{})
}
