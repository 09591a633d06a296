package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// ty describes a target type for the reference: i int, s string, b bool, x uint8,
// y []byte, L slice, A array, M map with string keys, P pointer, E interface{},
// S the struct contS, Z the empty struct, F a non-empty interface.
type ty struct {
	k    byte
	elem *ty
	n    int
	f    []fld
}

// cv is a target's content.
type cv struct {
	nul bool
	i   int
	s   []byte
	e   []*cv
	k   [][]byte
	x   interface{} // E: what the interface holds when it is not a pointer
	v   *val        // E: the value it has to hold
	in  *cv         // P, and E and F that hold a pointer
	t   *ty         // E and F: the type pointed to
}

var (
	tInt   = &ty{k: 'i'}
	tStr   = &ty{k: 's'}
	tBool  = &ty{k: 'b'}
	tU8    = &ty{k: 'x'}
	tBytes = &ty{k: 'y'}
	tAny   = &ty{k: 'E'}
	tVoid  = &ty{k: 'Z'}
	tIface = &ty{k: 'F'}
	tCont  = &ty{k: 'S'}
)

func tSlice(e *ty) *ty      { return &ty{k: 'L', elem: e} }
func tArr(n int, e *ty) *ty { return &ty{k: 'A', elem: e, n: n} }
func tMap(e *ty) *ty        { return &ty{k: 'M', elem: e} }
func tPtr(e *ty) *ty        { return &ty{k: 'P', elem: e} }

type contS struct {
	A []int          `json:"a"`
	B map[string]int `json:"b"`
	C *int           `json:"c"`
	D [2]int         `json:"d"`
	E interface{}    `json:"e"`
	F []byte         `json:"f"`
	G string         `json:"g"`
}

var contNames = []string{"a", "b", "c", "d", "e", "f", "g"}
var contTys = []*ty{tSlice(tInt), tMap(tInt), tPtr(tInt), tArr(2, tInt), tAny, tBytes, tStr}

func zeroOf(t *ty) *cv {
	switch t.k {
	case 'L', 'M', 'P', 'E', 'F', 'y':
		return &cv{nul: true}
	case 'A':
		c := &cv{}
		for i := 0; i < t.n; i++ {
			c.e = append(c.e, zeroOf(t.elem))
		}
		return c
	case 'S':
		c := &cv{}
		for _, f := range contTys {
			c.e = append(c.e, zeroOf(f))
		}
		return c
	}
	return &cv{}
}

// refInto gives what the target holds after the value is decoded into it.
func refInto(t *ty, v *val, old *cv) (*cv, bool) {
	if cuDec != 0 {
		if c, ok, does := refCuDec(t, v, old); does {
			return c, ok
		}
	}
	if t.k == 'E' {
		if old.in != nil {
			if v.kind == 'n' {
				if old.t.k == 'P' {
					return &cv{in: &cv{nul: true}, t: old.t}, true
				}
				return &cv{nul: true}, true
			}
			in, ok := refInto(old.t, v, old.in)
			return &cv{in: in, t: old.t}, ok
		}
		if v.kind == 'n' {
			return &cv{nul: true}, true
		}
		return &cv{v: v}, inRange(v)
	}
	if v.kind == 'n' {
		switch t.k {
		case 'L', 'M', 'P', 'F', 'y':
			return &cv{nul: true}, true
		}
		return old, true
	}
	switch t.k {
	case 'i', 'x':
		n, ok := smallInt(v.s)
		if v.kind != '0' || !ok || t.k == 'x' && (n < 0 || n > 255 || v.s[0] == '-') {
			return nil, false
		}
		return &cv{i: n}, true
	case 's':
		return &cv{s: v.s}, v.kind == 's'
	case 'b':
		return &cv{i: int(b2i(v.kind == 't'))}, v.kind == 't' || v.kind == 'f'
	case 'y':
		if v.kind == 's' {
			s, ok := refBase64(v.s)
			return &cv{s: s}, ok
		}
		if v.kind != 'a' {
			return nil, false
		}
		c := &cv{s: []byte{}}
		for _, e := range v.e {
			b, ok := refInto(tU8, e, &cv{})
			if !ok {
				return nil, false
			}
			c.s = append(c.s, byte(b.i))
		}
		return c, true
	case 'L', 'A':
		if v.kind != 'a' {
			return nil, false
		}
		c := &cv{}
		for i, e := range v.e {
			prev := zeroOf(t.elem)
			if t.k == 'A' {
				if i >= t.n {
					continue
				}
				prev = old.e[i]
			}
			x, ok := refInto(t.elem, e, prev)
			if !ok {
				return nil, false
			}
			c.e = append(c.e, x)
		}
		for t.k == 'A' && len(c.e) < t.n {
			c.e = append(c.e, zeroOf(t.elem))
		}
		return c, true
	case 'M':
		if v.kind != 'o' {
			return nil, false
		}
		c := &cv{}
		c.k = append(c.k, old.k...)
		c.e = append(c.e, old.e...)
		for i, key := range v.k {
			x, ok := refInto(t.elem, v.e[i], zeroOf(t.elem))
			if !ok {
				return nil, false
			}
			j := 0
			for j < len(c.k) && string(c.k[j]) != string(key) {
				j++
			}
			if j == len(c.k) {
				c.k = append(c.k, key)
				c.e = append(c.e, x)
			} else {
				c.e[j] = x
			}
		}
		return c, true
	case 'P':
		prev := old.in
		if prev == nil {
			prev = zeroOf(t.elem)
		}
		x, ok := refInto(t.elem, v, prev)
		return &cv{in: x}, ok
	case 'F':
		if old.in == nil {
			return nil, false
		}
		x, ok := refInto(old.t, v, old.in)
		return &cv{in: x, t: old.t}, ok
	case 'Z':
		return &cv{}, v.kind == 'o'
	case 'S':
		if v.kind != 'o' {
			return nil, false
		}
		c := &cv{e: append([]*cv{}, old.e...)}
		for i, key := range v.k {
			j := selects(contNames, key, false)
			if j < 0 {
				continue
			}
			x, ok := refInto(contTys[j], v.e[i], c.e[j])
			if !ok {
				return nil, false
			}
			c.e[j] = x
		}
		return c, true
	}
	panic("ty")
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

var b64Tab = func() (t [256]byte) {
	for i := range t {
		t[i] = 64
	}
	for i := 0; i < 64; i++ {
		t[b64[i]] = byte(i)
	}
	return
}()

// refBase64 decodes padded base64, line breaks ignored.
func refBase64(s []byte) ([]byte, bool) {
	t := []byte{}
	for _, c := range s {
		if c != '\n' && c != '\r' {
			t = append(t, c)
		}
	}
	if len(t)%4 != 0 {
		return nil, false
	}
	out := []byte{}
	for i := 0; i < len(t); i += 4 {
		n := 4
		if i+4 == len(t) && t[i+3] == '=' {
			n = 3
			if t[i+2] == '=' {
				n = 2
			}
		}
		x := uint32(0)
		for j := 0; j < 4; j++ {
			d := byte(0)
			if j < n {
				d = b64Tab[t[i+j]]
				if d == 64 {
					return nil, false
				}
			}
			x = x<<6 | uint32(d)
		}
		q := []byte{byte(x >> 16), byte(x >> 8), byte(x)}
		out = append(out, q[:n-1]...)
	}
	return out, true
}

func same(t *ty, a, b *cv) bool {
	if a.nul || b.nul {
		return a.nul && b.nul
	}
	switch t.k {
	case 'i', 'x', 'b':
		return a.i == b.i
	case 's', 'y':
		return string(a.s) == string(b.s)
	case 'Z':
		return true
	case 'P':
		return same(t.elem, a.in, b.in)
	case 'E', 'F':
		if a.in != nil || b.in != nil {
			return a.in != nil && b.in != nil && a.t.k == b.t.k && same(a.t, a.in, b.in)
		}
		return eqVal(a.x, b.v, false)
	case 'L', 'A', 'S':
		if len(a.e) != len(b.e) {
			return false
		}
		for i := range a.e {
			e := t.elem
			if t.k == 'S' {
				e = contTys[i]
			}
			if !same(e, a.e[i], b.e[i]) {
				return false
			}
		}
		return true
	case 'M':
		if len(a.k) != len(b.k) {
			return false
		}
		for i := range a.k {
			j := 0
			for j < len(b.k) && string(b.k[j]) != string(a.k[i]) {
				j++
			}
			if j == len(b.k) || !same(t.elem, a.e[i], b.e[j]) {
				return false
			}
		}
		return true
	}
	panic("ty")
}

// the content of Go values
func ofInt(x int) *cv      { return &cv{i: x} }
func ofStr(x string) *cv   { return &cv{s: []byte(x)} }
func ofBytes(x []byte) *cv { return &cv{nul: x == nil, s: append([]byte{}, x...)} }
func ofInts(x []int) *cv {
	c := &cv{nul: x == nil}
	for _, e := range x {
		c.e = append(c.e, ofInt(e))
	}
	return c
}
func ofPInt(x *int) *cv {
	if x == nil {
		return &cv{nul: true}
	}
	return &cv{in: ofInt(*x)}
}
func ofMap(x map[string]int) *cv {
	c := &cv{nul: x == nil}
	for k, v := range x {
		c.k = append(c.k, []byte(k))
		c.e = append(c.e, ofInt(v))
	}
	return c
}
func ofAny(x interface{}) *cv {
	switch p := x.(type) {
	case nil:
		return &cv{nul: true}
	case *int:
		if p != nil {
			return &cv{in: ofInt(*p), t: tInt}
		}
	case **int:
		return &cv{in: ofPInt(*p), t: tPtr(tInt)}
	case *[]int:
		return &cv{in: ofInts(*p), t: tSlice(tInt)}
	case *contS:
		return &cv{in: ofCont(*p), t: tCont}
	case *interface{}:
		return &cv{in: ofAny(*p), t: tAny}
	case *ifaceT:
		return &cv{in: &cv{i: int(*p)}, t: tInt}
	case *map[string]int:
		return &cv{in: ofMap(*p), t: tMap(tInt)}
	case *[2]int:
		return &cv{in: ofInts(p[:]), t: tArr(2, tInt)}
	case *string:
		return &cv{in: ofStr(*p), t: tStr}
	case *bool:
		return &cv{in: &cv{i: int(b2i(*p))}, t: tBool}
	case *[]byte:
		return &cv{in: ofBytes(*p), t: tBytes}
	case *struct{}:
		return &cv{in: &cv{}, t: tVoid}
	case **contS:
		if *p == nil {
			return &cv{in: &cv{nul: true}, t: tPtr(tCont)}
		}
		return &cv{in: &cv{in: ofCont(**p)}, t: tPtr(tCont)}
	}
	return &cv{x: x}
}
func ofCont(x contS) *cv {
	return &cv{e: []*cv{ofInts(x.A), ofMap(x.B), ofPInt(x.C), ofInts(x.D[:]), ofAny(x.E), ofBytes(x.F), ofStr(x.G)}}
}

type ifaceI interface{ Foo() int }
type ifaceT int

func (p *ifaceT) Foo() int { return int(*p) }

type namedByte byte
type namedBytes []byte

// ptrShape is a pointer that points at x already.
func ptrShape[T any](x T, t *ty, of func(T) *cv) (interface{}, *ty, func() *cv) {
	p := &x
	return &p, tPtr(t), func() *cv {
		if p == nil {
			return &cv{nul: true}
		}
		return &cv{in: of(*p)}
	}
}

const contShapes = 60

// contShape gives a target, its type and how to read its content.
func contShape(k int) (target interface{}, t *ty, get func() *cv) {
	seven, eight := 7, 8
	switch k {
	case 0:
		x := append(make([]int, 0, 5), 7, 8, 9)
		return &x, tSlice(tInt), func() *cv { return ofInts(x) }
	case 1:
		var x []int
		return &x, tSlice(tInt), func() *cv { return ofInts(x) }
	case 2:
		x := [3]int{7, 8, 9}
		return &x, tArr(3, tInt), func() *cv { return ofInts(x[:]) }
	case 3:
		x := [0]int{}
		return &x, tArr(0, tInt), func() *cv { return &cv{} }
	case 4:
		x := map[string]int{"a": 7, "b": 8}
		return &x, tMap(tInt), func() *cv { return ofMap(x) }
	case 5:
		var x map[string]int
		return &x, tMap(tInt), func() *cv { return ofMap(x) }
	case 6:
		var x *int
		return &x, tPtr(tInt), func() *cv { return ofPInt(x) }
	case 7:
		x := &seven
		return &x, tPtr(tInt), func() *cv { return ofPInt(x) }
	case 8:
		p := &seven
		x := &p
		return &x, tPtr(tPtr(tInt)), func() *cv {
			if x == nil {
				return &cv{nul: true}
			}
			return &cv{in: ofPInt(*x)}
		}
	case 9:
		x := []byte("xyz")
		return &x, tBytes, func() *cv { return ofBytes(x) }
	case 10:
		x := []namedByte{1, 2}
		return &x, tBytes, func() *cv {
			c := &cv{nul: x == nil}
			for _, b := range x {
				c.s = append(c.s, byte(b))
			}
			return c
		}
	case 11:
		x := [][]int{{1, 2}, nil}
		return &x, tSlice(tSlice(tInt)), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				c.e = append(c.e, ofInts(e))
			}
			return c
		}
	case 12:
		x := [2][2]int{{1, 2}, {3, 4}}
		return &x, tArr(2, tArr(2, tInt)), func() *cv {
			return &cv{e: []*cv{ofInts(x[0][:]), ofInts(x[1][:])}}
		}
	case 13:
		x := map[string][]int{"a": {1, 2}, "b": nil}
		return &x, tMap(tSlice(tInt)), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				c.k, c.e = append(c.k, []byte(k)), append(c.e, ofInts(e))
			}
			return c
		}
	case 14:
		x := []*int{&seven, nil, &eight}
		return &x, tSlice(tPtr(tInt)), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				c.e = append(c.e, ofPInt(e))
			}
			return c
		}
	case 15:
		x := [2]*int{&seven, nil}
		return &x, tArr(2, tPtr(tInt)), func() *cv { return &cv{e: []*cv{ofPInt(x[0]), ofPInt(x[1])}} }
	case 16:
		x := map[string]*int{"a": &seven, "b": nil}
		return &x, tMap(tPtr(tInt)), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				c.k, c.e = append(c.k, []byte(k)), append(c.e, ofPInt(e))
			}
			return c
		}
	case 17:
		var x interface{}
		return &x, tAny, func() *cv { return ofAny(x) }
	case 18:
		var x interface{} = map[string]interface{}{"a": 1.0}
		return &x, tAny, func() *cv { return ofAny(x) }
	case 19:
		var x interface{} = &seven
		return &x, tAny, func() *cv { return ofAny(x) }
	case 20:
		p := &seven
		var x interface{} = &p
		return &x, tAny, func() *cv { return ofAny(x) }
	case 21:
		var x interface{} = (*int)(nil)
		return &x, tAny, func() *cv { return ofAny(x) }
	case 22:
		var x interface{} = &[]int{1, 2}
		return &x, tAny, func() *cv { return ofAny(x) }
	case 23:
		var y interface{} = &seven
		var x interface{} = &y
		return &x, tAny, func() *cv { return ofAny(x) }
	case 24:
		t := ifaceT(5)
		var x ifaceI = &t
		return &x, tIface, func() *cv { return ofAny(x) }
	case 25:
		var x ifaceI
		return &x, tIface, func() *cv { return ofAny(x) }
	case 26:
		x := contS{A: []int{1, 2, 3}, B: map[string]int{"a": 7}, C: &seven, D: [2]int{4, 5}, E: &eight, F: []byte("pq"), G: "old"}
		return &x, tCont, func() *cv { return ofCont(x) }
	case 27:
		x := &contS{}
		return x, tCont, func() *cv { return ofCont(*x) }
	case 28:
		x := []contS{{A: []int{1}, C: &seven}}
		return &x, tSlice(tCont), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				c.e = append(c.e, ofCont(e))
			}
			return c
		}
	case 29:
		x := map[string]contS{"a": {A: []int{1}, C: &seven, G: "g"}}
		return &x, tMap(tCont), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				c.k, c.e = append(c.k, []byte(k)), append(c.e, ofCont(e))
			}
			return c
		}
	case 30:
		x := []string{"o", "p"}
		return &x, tSlice(tStr), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				c.e = append(c.e, ofStr(e))
			}
			return c
		}
	case 31:
		x := []struct{}{{}}
		return &x, tSlice(tVoid), func() *cv {
			c := &cv{nul: x == nil}
			for range x {
				c.e = append(c.e, &cv{})
			}
			return c
		}
	case 32:
		x := [3]bool{true, false, true}
		return &x, tArr(3, tBool), func() *cv {
			c := &cv{}
			for _, b := range x {
				c.e = append(c.e, &cv{i: int(b2i(b))})
			}
			return c
		}
	case 33:
		x := []interface{}{1.0, &seven}
		return &x, tSlice(tAny), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				c.e = append(c.e, ofAny(e))
			}
			return c
		}
	case 34:
		x := map[string]interface{}{"a": &seven, "b": "c"}
		return &x, tMap(tAny), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				d := ofAny(e)
				if s, ok := e.(string); ok {
					d = &cv{x: s, v: &val{kind: 's', s: []byte(s)}}
				}
				c.k, c.e = append(c.k, []byte(k)), append(c.e, d)
			}
			return c
		}
	case 35:
		x := [2]interface{}{&seven, nil}
		return &x, tArr(2, tAny), func() *cv { return &cv{e: []*cv{ofAny(x[0]), ofAny(x[1])}} }
	case 36:
		x := namedBytes("ab")
		return &x, tBytes, func() *cv { return ofBytes(x) }
	case 37:
		x := [3]byte{1, 2, 3}
		return &x, tArr(3, tU8), func() *cv {
			c := &cv{}
			for _, b := range x {
				c.e = append(c.e, &cv{i: int(b)})
			}
			return c
		}
	case 38:
		x := map[string]map[string]int{"a": {"a": 1}, "b": nil}
		return &x, tMap(tMap(tInt)), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				c.k, c.e = append(c.k, []byte(k)), append(c.e, ofMap(e))
			}
			return c
		}
	case 39:
		x := &[]int{1}
		return &x, tPtr(tSlice(tInt)), func() *cv {
			if x == nil {
				return &cv{nul: true}
			}
			return &cv{in: ofInts(*x)}
		}
	}
	hold := func(x interface{}) (interface{}, *ty, func() *cv) {
		return &x, tAny, func() *cv { return ofAny(x) }
	}
	switch k {
	case 52:
		return hold(&contS{A: []int{1}, C: &seven, G: "g"})
	case 53:
		return hold(&map[string]int{"a": 7})
	case 54:
		return hold(&[2]int{7, 8})
	case 55:
		s := "old"
		return hold(&s)
	case 56:
		b := true
		return hold(&b)
	case 57:
		b := []byte("xyz")
		return hold(&b)
	case 58:
		return hold(&struct{}{})
	case 59:
		p := &contS{G: "g"}
		return hold(&p)
	}
	ofAny2 := func(x interface{}) *cv { return ofAny(x) }
	ofBool := func(x bool) *cv { return &cv{i: int(b2i(x))} }
	switch k {
	case 40:
		return ptrShape("old", tStr, ofStr)
	case 41:
		return ptrShape(true, tBool, ofBool)
	case 42:
		return ptrShape([]byte("xyz"), tBytes, ofBytes)
	case 43:
		return ptrShape(map[string]int{"a": 7}, tMap(tInt), ofMap)
	case 44:
		return ptrShape(contS{A: []int{1}, C: &seven, G: "g"}, tCont, ofCont)
	case 45:
		return ptrShape([2]int{7, 8}, tArr(2, tInt), func(x [2]int) *cv { return ofInts(x[:]) })
	case 46:
		return ptrShape[interface{}](&seven, tAny, ofAny2)
	case 47:
		return ptrShape[interface{}](nil, tAny, ofAny2)
	case 48:
		t := ifaceT(5)
		return ptrShape[ifaceI](&t, tIface, func(x ifaceI) *cv { return ofAny(x) })
	case 49:
		return ptrShape(struct{}{}, tVoid, func(struct{}) *cv { return &cv{} })
	case 50:
		var e interface{} = &seven
		x := []*interface{}{&e, nil}
		return &x, tSlice(tPtr(tAny)), func() *cv {
			c := &cv{nul: x == nil}
			for _, e := range x {
				d := &cv{nul: true}
				if e != nil {
					d = &cv{in: ofAny(*e)}
				}
				c.e = append(c.e, d)
			}
			return c
		}
	case 51:
		str := "s"
		x := map[string]*string{"a": &str, "b": nil}
		return &x, tMap(tPtr(tStr)), func() *cv {
			c := &cv{nul: x == nil}
			for k, e := range x {
				d := &cv{nul: true}
				if e != nil {
					d = &cv{in: ofStr(*e)}
				}
				c.k, c.e = append(c.k, []byte(k)), append(c.e, d)
			}
			return c
		}
	}
	panic("shape")
}

func S_cont() {
	for k := 0; k < contShapes; k++ {
		t, _, _ := contShape(k)
		jzon.Unmarshal([]byte(`null`), t)
		t, _, _ = contShape(k)
		jzon.Unmarshal([]byte(`1`), t)
		t, _, _ = contShape(k)
		jzon.Unmarshal([]byte(`{"e":1}`), t)
	}
}

func contAgrees(b []byte, k, r int) {
	vrt.ObserveBytes("in", b)
	target, t, get := contShape(k)
	old := get()
	var err error
	if r < 0 {
		err = jzon.Unmarshal(b, target)
	} else {
		err = jzon.UnmarshalFromReader(newReader(r, b), target)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	v, ok := refDoc(b)
	var want *cv
	if ok {
		want, ok = refInto(t, v, old)
	}
	vrt.Assert((err == nil) == ok, "decoding into a container accepts something else than the documented texts, or rejects one")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.Assert(same(t, get(), want), "decoding into a container gives another content than the text says")
}

// H_cont: every text of n bytes.
func H_cont() { contAgrees(bytesN(param("n")), param("k"), param("r")) }

// H_contE: an array (o=0) or object (o=1) of n members, each of one of the element texts.
func H_contE() {
	elems := []string{"#", "null", `"^"`, "[#,#]", `{"?":#}`, "tru?", "[]", "{}", `"QUI?"`}
	k, n, o := param("k"), param("n"), param("o")
	b := []byte{"[{"[o]}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if o == 1 {
			b = append(b, '"', vrt.ByteIn('a', 'g'), '"', ':')
		}
		b = append(b, tpl(elems[vrt.Choose(len(elems))])...)
	}
	b = append(b, "]}"[o])
	contAgrees(b, k, param("r"))
}
func S_contE() { S_cont() }

var contTpl = []string{
	/*0*/ `_[_#_,_#_]_`,
	/*1*/ `[#?#]`,
	/*2*/ `{"a":#?"b":#}`,
	/*3*/ `{"a":[#,null,#],"A":[#],"b":{"?":#,"b":null},"B":{"x":#},"c":#,"d":[#],"e":#,"f":"QUJ?","g":"?"}`,
	/*4*/ `{"a":null,"b":null,"c":null,"d":null,"e":null,"f":null,"g":null}`,
	/*5*/ `{"c":?,"d":[#,#,#,?],"e":?}`,
	/*6*/ `"????"`,
	/*7*/ `"QUJD??=?"`,
	/*8*/ `"QUI=?"`,
	/*9*/ `"Q\n?I=\r"`,
	/*10*/ `[[#],[#,#,#],null,[]?`,
	/*11*/ `[#,#,#,#,#,#,#,#,#,?]`,
	/*12*/ `{"?":null,"a":#,"\u006~":#}`,
	/*13*/ `[{"a":[#],"c":#},{"A":[],"c":null},null,{?}]`,
	/*14*/ `{"a":{"a":[#],"g":"?"},"b":null,"a":{"c":#}}`,
	/*15*/ `[[],{},"?",null,#]`,
	/*16*/ `[2?#,25?,0?]`,
	/*17*/ `{"a":{"?":#},"b":{"c":#},"a":{}}`,
	/*18*/ `[nul?,#]`,
	/*19*/ `{"a":#,}`,
	/*20*/ `[#,?]`,
	/*21*/ `"` + "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NTY3ODk?" + `"`,
}

func H_contT() { contAgrees(tpl(contTpl[param("t")]), param("k"), param("r")) }
func S_contT() { S_cont() }

// H_contLong: a slice of n elements, one of them arbitrary.
func H_contLong() {
	n := param("n")
	p := vrt.Choose(n)
	b := []byte{'['}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if i == p {
			b = append(b, vrt.Byte())
		} else {
			b = append(b, "0123456789"[i%10])
		}
	}
	contAgrees(append(b, ']'), param("k"), param("r"))
}
func S_contLong() { S_cont() }
