package h

import (
	"encoding"
	"encoding/json"
	"errors"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// What the user's methods do next.
var (
	hookErr   error
	hookCalls int
	hookText  []byte // what a marshaler writes before the receiver's own digit
)

func hook(n int) ([]byte, error) {
	hookCalls++
	if hookErr != nil {
		return []byte("[broken"), hookErr
	}
	b := append([]byte{'['}, hookText...)
	return append(b, ',', '0'+byte(n), ']'), nil
}

func hookT(n int) ([]byte, error) {
	hookCalls++
	if hookErr != nil {
		return []byte("broken"), hookErr
	}
	return append(append([]byte{}, hookText...), '0'+byte(n)), nil
}

type (
	mjVal struct{ N, M int }
	mjPtr struct{ N, M int }
	mjMap map[string]int
	mjDir struct{ P *int } // an interface holds it directly
	mjInt int
	mjStr string
	mjArr [1]*int
	mjFun func() int
	mtVal struct{ N, M int }
	mtPtr struct{ N, M int }
	mtMap map[string]int
	mtDir struct{ P *int }
	mtInt int
	mtSli []int
	mBoth struct{ N int }
)

func (x mjVal) MarshalJSON() ([]byte, error)  { return hook(x.N) }
func (x *mjPtr) MarshalJSON() ([]byte, error) { return hook(x.N) }
func (x mjMap) MarshalJSON() ([]byte, error)  { return hook(x["n"]) }
func (x mjDir) MarshalJSON() ([]byte, error)  { return hook(*x.P) }
func (x mjInt) MarshalJSON() ([]byte, error)  { return hook(int(x)) }
func (x mjStr) MarshalJSON() ([]byte, error)  { return hook(len(x)) }
func (x mjArr) MarshalJSON() ([]byte, error)  { return hook(*x[0]) }
func (x mjFun) MarshalJSON() ([]byte, error)  { return hook(x()) }
func (x mtVal) MarshalText() ([]byte, error)  { return hookT(x.N) }
func (x *mtPtr) MarshalText() ([]byte, error) { return hookT(x.N) }
func (x mtMap) MarshalText() ([]byte, error)  { return hookT(x["n"]) }
func (x mtDir) MarshalText() ([]byte, error)  { return hookT(*x.P) }
func (x mtInt) MarshalText() ([]byte, error)  { return hookT(int(x)) }
func (x mtSli) MarshalText() ([]byte, error)  { return hookT(len(x)) }
func (x mBoth) MarshalJSON() ([]byte, error)  { return hook(x.N) }
func (x mBoth) MarshalText() ([]byte, error)  { return hookT(9) }

type jsonMI interface{ MarshalJSON() ([]byte, error) }
type textMI interface{ MarshalText() ([]byte, error) }
type wrapI struct {
	J jsonMI `json:"j,omitempty"`
	T textMI `json:"t"`
}

const hookWraps = 15

// hookEnc marshals the value in one of several places; txt is what its method gives.
func hookEnc[T any](v T, txt []byte, empty, isNil bool, w int) {
	var b []byte
	var err error
	var want []byte
	j := func(l, r string) []byte { return append(append([]byte(l), txt...), r...) }
	n := 1
	switch w {
	case 0:
		b, err = jzon.Marshal(&v)
		want = txt
	case 1:
		b, err = jzon.Marshal([]T{v, v})
		want = append(j("[", ","), j("", "]")...)
		n = 2
	case 2:
		b, err = jzon.Marshal(&[2]T{v, v})
		want = append(j("[", ","), j("", "]")...)
		n = 2
	case 3:
		b, err = jzon.Marshal(&wrapS[T]{v})
		want = j(`{"X":`, "}")
	case 4:
		b, err = jzon.Marshal(wrapP[T]{&v, 5})
		want = j(`{"X":`, `,"Y":5}`)
	case 5:
		b, err = jzon.Marshal(&wrapO[T]{v, 5})
		want = j(`{"x":`, `,"y":5}`)
		if empty {
			want = []byte(`{"y":5}`)
			n = 0
		}
	case 6:
		b, err = jzon.Marshal([]interface{}{1, &v})
		want = j("[1,", "]")
	case 7:
		p := &v
		b, err = jzon.Marshal(&p)
		want = txt
	case 8:
		b, err = jzon.Marshal(map[string]*T{"k": &v})
		want = j(`{"k":`, "}")
	case 9:
		var p *T
		b, err = jzon.Marshal([]*T{p, &v})
		want = j("[null,", "]")
	// from here the value is not addressable: only for methods of the value itself
	case 10:
		b, err = jzon.Marshal(v)
		want = txt
	case 11:
		b, err = jzon.Marshal(map[string]T{"k": v})
		want = j(`{"k":`, "}")
	case 12:
		b, err = jzon.Marshal(wrapS[T]{v})
		want = j(`{"X":`, "}")
	case 13:
		b, err = jzon.Marshal([]interface{}{v, 2})
		want = j("[", ",2]")
	case 14:
		b, err = jzon.Marshal([1]T{v})
		want = j("[", "]")
	}
	if isNil {
		n = 0
	}
	vrt.ObserveBytes("out", b)
	if hookErr != nil && n > 0 {
		vrt.Assert(err != nil, "the error of a marshal method is not reported")
		vrt.Assert(errors.Is(err, hookErr), "another error than the marshal method's is reported")
		vrt.Assert(b == nil, "a failed Marshal gives output")
		vrt.Cover("failed")
		return
	}
	vrt.ObserveBytes("want", want)
	vrt.Assert(err == nil, "Marshal fails without a reason")
	vrt.Assert(string(b) == string(want), "the result of a marshal method is not embedded as it is")
	vrt.Assert(hookCalls == n, "a marshal method is called more or less often than there are values")
	vrt.Cover("done")
}

const hookTypes = 15

// H_hookEnc: type k in place w.
func H_hookEnc() {
	k, w := param("k"), param("w")
	hookErr, hookCalls = nil, 0
	if vrt.Choose(2) == 1 {
		hookErr = errBroken
	}
	d := gDig()
	// any text the method may give
	text := k >= 8 && k != 14
	if text {
		hookText = append([]byte(rep("k", param("l"))), bytesN(param("n"))...)
	} else {
		hookText = tpl([]string{"#", `"^"`, "{}", "nul?"}[vrt.Choose(4)])
	}
	g := hookText
	save := hookErr
	hookErr = nil
	txt := func(n int) []byte {
		if text {
			b, _ := hookT(n)
			hookCalls = 0
			return quoteRef(b)
		}
		b, _ := hook(n)
		hookCalls = 0
		return b
	}
	_ = g
	var t []byte
	switch k {
	case 4:
		t = txt(d)
		hookErr = save
		hookEnc(mjInt(d), t, d == 0, false, w)
	case 0:
		t = txt(d)
		hookErr = save
		hookEnc(mjVal{d, 1}, t, false, false, w)
	case 1:
		t = txt(d)
		hookErr = save
		hookEnc(mjPtr{d, 1}, t, false, false, w)
	case 2:
		m := mjMap(nil)
		switch vrt.Choose(3) {
		case 0:
			d = 0
		case 1:
			d, m = 0, mjMap{}
		default:
			m = mjMap{"n": d}
		}
		t = txt(d)
		hookErr = save
		hookEnc(m, t, len(m) == 0, false, w)
	case 3:
		t = txt(d)
		hookErr = save
		hookEnc(mjDir{&d}, t, false, false, w)
	case 5:
		s := gStr()
		t = txt(len(s))
		hookErr = save
		hookEnc(mjStr(s), t, s == "", false, w)
	case 6:
		t = txt(d)
		hookErr = save
		hookEnc(mjArr{&d}, t, false, false, w)
	case 7:
		t = txt(d)
		hookErr = save
		hookEnc(mjFun(func() int { return d }), t, false, false, w)
	case 8:
		t = txt(d)
		hookErr = save
		hookEnc(mtVal{d, 1}, t, false, false, w)
	case 9:
		t = txt(d)
		hookErr = save
		hookEnc(mtPtr{d, 1}, t, false, false, w)
	case 10:
		m := mtMap(nil)
		if vrt.Choose(2) == 1 {
			m = mtMap{"n": d}
		} else {
			d = 0
		}
		t = txt(d)
		hookErr = save
		hookEnc(m, t, len(m) == 0, false, w)
	case 11:
		t = txt(d)
		hookErr = save
		hookEnc(mtDir{&d}, t, false, false, w)
	case 12:
		t = txt(d)
		hookErr = save
		hookEnc(mtInt(d), t, d == 0, false, w)
	case 13:
		s := mtSli(nil)
		if vrt.Choose(2) == 1 {
			s = mtSli{1, 2}
		}
		t = txt(len(s))
		hookErr = save
		hookEnc(s, t, len(s) == 0, false, w)
	case 14:
		t = txt(d)
		hookErr = save
		hookEnc(mBoth{d}, t, false, false, w)
	}
}

// quoteRef is the string literal of b with HTML escaping.
func quoteRef(b []byte) []byte {
	out := []byte{'"'}
	for i := 0; i < len(b); {
		n := runeLen(b, i)
		switch c := b[i]; {
		case n == 0:
			out = append(out, `\ufffd`...)
			n = 1
		case n == 3 && c == 0xE2 && b[i+1] == 0x80 && b[i+2]&^1 == 0xA8:
			out = append(out, '\\', 'u', '2', '0', '2', '8'+b[i+2]&1)
		case n > 1:
			out = append(out, b[i:i+n]...)
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		default:
			out = append(out, c)
		}
		i += n
	}
	return append(out, '"')
}

// H_hookI: the methods of what an interface with methods holds.
func H_hookI() {
	hookErr, hookCalls, hookText = nil, 0, []byte{vrt.ByteIn('0', '9')}
	d := gDig()
	x := wrapI{}
	js, ts := "", "null"
	switch vrt.Choose(5) {
	case 0:
	case 1:
		x.J = mjVal{d, 0}
		js = "j"
	case 2:
		x.J = &mjPtr{d, 0}
		js = "j"
	case 3:
		x.J = mjInt(d)
		js = "j"
	case 4:
		x.J = (*mjVal)(nil)
		js = "null"
	}
	switch vrt.Choose(4) {
	case 0:
	case 1:
		x.T = mtVal{d, 0}
		ts = "t"
	case 2:
		x.T = &mtPtr{d, 0}
		ts = "t"
	case 3:
		x.T = (*mtPtr)(nil)
	}
	want := []byte{'{'}
	if js == "null" {
		want = append(want, `"j":null,`...)
	} else if js == "j" {
		want = append(want, `"j":[`...)
		want = append(want, hookText[0], ',', '0'+byte(d))
		want = append(want, "],"...)
	}
	want = append(want, `"t":`...)
	if ts == "null" {
		want = append(want, "null}"...)
	} else {
		want = append(want, '"', hookText[0], '0'+byte(d), '"', '}')
	}
	var b []byte
	var err error
	switch param("w") {
	case 0:
		b, err = jzon.Marshal(x)
	case 1:
		b, err = jzon.Marshal(&x)
	case 2:
		b, err = jzon.Marshal([]wrapI{x})
		want = append(append([]byte{'['}, want...), ']')
	case 3:
		b, err = jzon.Marshal(map[string]interface{}{"": x})
		want = append(append([]byte(`{"":`), want...), '}')
	}
	vrt.ObserveBytes("out", b)
	vrt.Assert(err == nil && string(b) == string(want), "the method of what an interface holds is not honoured")
	vrt.Cover("done")
}

// ---- decoding

type (
	ujVal struct {
		S string
		N int
	}
	ujMap map[string]int
	utVal struct {
		S string
		N int
	}
	utInt int
	uBoth struct{ S string }
	utKey struct{ S string }
)

var hookGot []string

func unhook(b []byte) error {
	hookCalls++
	hookGot = append(hookGot, string(b))
	return hookErr
}
func (x *ujVal) UnmarshalJSON(b []byte) error { x.S = string(b); return unhook(b) }
func (x ujMap) UnmarshalJSON(b []byte) error  { x["n"] = len(b); return unhook(b) }
func (x *utVal) UnmarshalText(b []byte) error { x.S = string(b); return unhook(b) }
func (x *utInt) UnmarshalText(b []byte) error { *x = utInt(len(b)); return unhook(b) }
func (x *uBoth) UnmarshalJSON(b []byte) error { x.S = string(b); return unhook(b) }
func (x *uBoth) UnmarshalText(b []byte) error { x.S = "text"; return unhook(b) }
func (x *utKey) UnmarshalText(b []byte) error { x.S = string(b); return unhook(b) }

const unhookWraps = 11

// hookDec decodes the text b, which stands in place w; get reads what the method stored.
// text: the method takes the string's characters, and null is no call.
func hookDec[T any](b []byte, text bool, zero T, get func(T) string, w, r int) {
	j := func(l, rr string) []byte { return append(append([]byte(l), b...), rr...) }
	var in []byte
	var target interface{}
	var read func() *T
	ptr := false // null does not get through to the method
	switch w {
	case 0:
		x := zero
		target, read, in = &x, func() *T { return &x }, b
	case 1:
		x := []T{}
		target, in = &x, j("[", "]")
		read = func() *T { return &x[0] }
	case 2:
		x := [1]T{zero}
		target, in = &x, j("[", "]")
		read = func() *T { return &x[0] }
	case 3:
		x := map[string]T{}
		target, in = &x, j(`{"k":`, "}")
		read = func() *T { y := x["k"]; return &y }
	case 4:
		x := wrapS[T]{zero}
		target, in = &x, j(`{"x":`, "}")
		read = func() *T { return &x.X }
	case 5:
		x := wrapP[T]{}
		target, in, ptr = &x, j(`{"X":`, `,"Y":1}`), true
		read = func() *T { return x.X }
	case 6:
		old := zero
		x := wrapP[T]{X: &old}
		target, in, ptr = &x, j(`{"Y":1,"X":`, `}`), true
		read = func() *T {
			vrt.Assert(x.X == nil || x.X == &old, "a pointer that was there is replaced")
			return x.X
		}
	case 7:
		var p *T
		target, in, ptr = &p, b, true
		read = func() *T { return p }
	case 8:
		x := zero
		var e interface{} = &x
		target, in, ptr = &e, b, true
		read = func() *T {
			if e == nil {
				return nil
			}
			return &x
		}
	case 9:
		x := []*T{}
		target, in, ptr = &x, j("[ ", " ]"), true
		read = func() *T { return x[0] }
	case 10:
		x := map[string]*T{}
		target, in, ptr = &x, j(`{"k" :`, " }"), true
		read = func() *T { return x["k"] }
	}
	vrt.ObserveBytes("in", in)
	hookErr, hookCalls, hookGot = nil, 0, nil
	if vrt.Choose(2) == 1 {
		hookErr = errBroken
	}
	it := jzon.NewIterator()
	rd := srcR(it, r, in)
	err := it.ReadVal(target)
	left := rest(it, rd)
	it.Release()
	vrt.ObserveInt("err", b2i(err != nil))
	// the value's own text
	v, end, ok := refValue(b, 0)
	if w != 0 && w != 7 && w != 8 {
		// inside a container the text must be that value alone
		if !ok || skipWS(b, end) != len(b) {
			if d, _, ok2 := refValue(in, 0); ok2 && (len(d.e) != 1 || ok) {
				// something else altogether, such as none or two elements
				vrt.Cover("other")
				return
			}
			ok = false
		}
	}
	if !ok {
		vrt.Assert(err != nil, "a malformed value is accepted where a method is to be called")
		vrt.Assert(hookCalls == 0 || hookErr != nil || w != 0 && w != 7 && w != 8, "a method is called for a malformed value")
		vrt.Cover("rejected")
		return
	}
	call, arg := true, string(b[v.beg:v.end])
	if text {
		arg = string(v.s)
		if v.kind == 'n' {
			call = false
		} else if v.kind != 's' {
			vrt.Assert(err != nil, "UnmarshalText is offered something else than a string")
			vrt.Assert(hookCalls == 0, "UnmarshalText is called for something else than a string")
			vrt.Cover("rejected")
			return
		}
	}
	isNull := v.kind == 'n'
	if isNull && ptr {
		call = false
	}
	if !call {
		vrt.Assert(err == nil && hookCalls == 0, "null calls a method or is an error")
		if ptr {
			vrt.Assert(read() == nil, "null leaves a pointer that is not nil")
		} else {
			was := zero
			if w == 1 || w == 3 { // a new element
				was = *new(T)
			}
			vrt.Assert(get(*read()) == get(was), "null changes the value")
		}
		vrt.Cover("null")
		return
	}
	vrt.Assert(hookCalls == 1, "the unmarshal method is not called exactly once")
	vrt.Assert(hookGot[0] == arg, "the unmarshal method does not get exactly the value's text")
	if hookErr != nil {
		vrt.Assert(errors.Is(err, errBroken), "the unmarshal method's error is not reported")
		vrt.Cover("failed")
		return
	}
	vrt.Assert(err == nil, "decoding fails although the method does not")
	p := read()
	vrt.Assert(p != nil && get(*p) == get2(arg, get(zero)), "the method is not called on the target itself")
	if w == 0 {
		vrt.Assert(string(left) == string(in[end:]), "the iterator does not stop behind the value")
	}
	vrt.Cover("done")
}

func get2(arg, zero string) string {
	if zero == "#" { // types that keep the length only
		return string(rune('0' + len(arg)))
	}
	return arg
}

func hookDecK(b []byte) {
	w, r := param("w"), param("r")
	switch param("k") {
	case 0:
		hookDec(b, false, ujVal{S: "old", N: 3}, func(x ujVal) string { return x.S }, w, r)
	case 1:
		hookDec(b, true, utVal{S: "old", N: 3}, func(x utVal) string { return x.S }, w, r)
	case 2:
		hookDec(b, false, uBoth{S: "old"}, func(x uBoth) string { return x.S }, w, r)
	case 3:
		hookDec(b, true, utInt(-13), func(x utInt) string { return string(rune('0' + int(x))) }, w, r)
	}
}

// H_hookDec: every text of n bytes.
func H_hookDec() { hookDecK(bytesN(param("n"))) }

var hookTpl = []string{
	/*0*/ `"^?^"`,
	/*1*/ `_"\u00~~"_`,
	/*2*/ `[#,{"a":?}]`,
	/*3*/ ` {"a":"?"} `,
	/*4*/ `nul?`,
	/*5*/ `"` + pad(70) + `\?"`,
	/*6*/ `[[],[{"x":[#,"]"]}?]`,
	/*7*/ `-#.#e?#`,
	/*8*/ `"\\\"?"`,
}

func H_hookDecT() { hookDecK(tpl(hookTpl[param("t")])) }

// H_hookKey: TextUnmarshaler and TextMarshaler map keys.
func H_hookKey() {
	hookErr, hookCalls, hookGot = nil, 0, nil
	if vrt.Choose(2) == 1 {
		hookErr = errBroken
	}
	b := tpl([]string{`{"?":1}`, `{"\u00~~":1}`, `{"":1,"a^":2}`, `{}`, `{"a":1,"a":?}`}[param("t")])
	vrt.ObserveBytes("in", b)
	m := map[utKey]int{{"old"}: 5}
	err := jzon.Unmarshal(b, &m)
	vrt.ObserveInt("err", b2i(err != nil))
	v, ok := refDoc(b)
	if ok {
		for _, e := range v.e {
			ok = ok && (e.kind == '0' || e.kind == 'n')
		}
	}
	if !ok {
		vrt.Assert(err != nil, "a malformed map is accepted")
		return
	}
	if hookErr != nil && len(v.k) > 0 {
		vrt.Assert(err != nil, "the error of a key's method is not reported")
		vrt.Cover("failed")
		return
	}
	vrt.Assert(err == nil, "a map with keys that have methods is rejected")
	vrt.Assert(hookCalls == len(v.k), "a key's method is not called once for each member")
	seen := 1
	for i, k := range v.k {
		vrt.Assert(hookGot[i] == string(k), "a key's method gets something else than the name")
		last, first := true, true
		for j := range v.k {
			if string(v.k[j]) == string(k) {
				if j > i {
					last = false
				}
				if j < i {
					first = false
				}
			}
		}
		if string(k) != "old" && first {
			seen++
		}
		if last {
			n, _ := smallInt(v.e[i].s)
			x, ok := m[utKey{string(k)}]
			vrt.Assert(ok && x == n, "a member is stored under another key than its method makes")
		}
	}
	vrt.Assert(len(m) == seen, "a map holds other members")
	vrt.Cover("done")
}

// H_hookKeyEnc: map keys that are text marshalers.
func H_hookKeyEnc() {
	hookErr, hookCalls = nil, 0
	if vrt.Choose(2) == 1 {
		hookErr = errBroken
	}
	hookText = append([]byte(rep("k", param("l"))), bytesN(param("n"))...)
	d := gDig()
	save := hookErr
	hookErr = nil
	t, _ := hookT(d)
	key := quoteRef(t)
	hookErr = save
	var b []byte
	var err error
	switch param("k") {
	case 0:
		b, err = jzon.Marshal(map[mtVal]int{{d, 0}: 1})
	case 1:
		b, err = jzon.Marshal(map[*mtPtr]int{{d, 0}: 1})
	case 2:
		b, err = jzon.Marshal(map[mtInt]int{mtInt(d): 1})
	case 3:
		b, err = jzon.Marshal(map[mtDir]int{{&d}: 1})
	}
	vrt.ObserveBytes("out", b)
	if hookErr != nil {
		vrt.Assert(errors.Is(err, errBroken) && b == nil, "the error of a key's method is not reported")
		vrt.Cover("failed")
		return
	}
	want := append(append([]byte{'{'}, key...), ":1}"...)
	vrt.Assert(err == nil && string(b) == string(want), "a key is not the text its method gives")
	vrt.Cover("done")
}

var _ json.Marshaler = mjVal{}

// ---- the interfaces of the standard library as types

type (
	stdI struct {
		J json.Marshaler         `json:"j"`
		T encoding.TextMarshaler `json:"t"`
	}
	stdO struct {
		J json.Marshaler         `json:"j,omitempty"`
		T encoding.TextMarshaler `json:"t,omitempty"`
	}
	keyI interface {
		Also() int
		MarshalText() ([]byte, error)
	}
	mtIn2 int
	stdU  struct {
		J json.Unmarshaler         `json:"j"`
		T encoding.TextUnmarshaler `json:"t"`
	}
)

func (x mtIn2) Also() int                    { return 1 }
func (x mtIn2) MarshalText() ([]byte, error) { return hookT(int(x)) }

// H_hookStd: what a json.Marshaler and an encoding.TextMarshaler hold, in place w.
func H_hookStd() {
	hookErr, hookCalls = nil, 0
	hookText = append([]byte(rep("k", param("l"))), bytesN(param("n"))...)
	d := gDig()
	var j json.Marshaler
	var t encoding.TextMarshaler
	js, ts := []byte("null"), []byte("null")
	a := vrt.Choose(5)
	switch a {
	case 1:
		j = mjVal{d, 0}
	case 2:
		j = &mjPtr{d, 0}
	case 3:
		j = mjInt(d)
	case 4:
		j = mjDir{&d}
	}
	if a > 0 {
		js, _ = hook(d)
	}
	b := vrt.Choose(5)
	switch b {
	case 1:
		t = mtVal{d, 0}
	case 2:
		t = &mtPtr{d, 0}
	case 3:
		t = mtInt(d)
	case 4:
		t = mtDir{&d}
	}
	if b > 0 {
		x, _ := hookT(d)
		ts = quoteRef(x)
	}
	hookErr, hookCalls = nil, 0
	if vrt.Choose(2) == 1 {
		hookErr = errBroken
	}
	both := append(append(append(append([]byte(`{"j":`), js...), `,"t":`...), ts...), '}')
	var out, want []byte
	var err error
	fails := a > 0 || b > 0
	in := func(o string, b []byte, c string) { want = append(append([]byte(o), b...), c...) }
	switch param("w") {
	case 0:
		out, err = jzon.Marshal(stdI{j, t})
		want = both
	case 1:
		out, err = jzon.Marshal(&stdI{j, t})
		want = both
	case 2:
		out, err = jzon.Marshal([]json.Marshaler{j, nil})
		in("[", js, ",null]")
		fails = a > 0
	case 3:
		out, err = jzon.Marshal([1]encoding.TextMarshaler{t})
		in("[", ts, "]")
		fails = b > 0
	case 4:
		out, err = jzon.Marshal(map[string]json.Marshaler{"": j})
		in(`{"":`, js, "}")
		fails = a > 0
	case 5:
		out, err = jzon.Marshal(map[int]encoding.TextMarshaler{7: t})
		in(`{"7":`, ts, "}")
		fails = b > 0
	case 6:
		out, err = jzon.Marshal(&j)
		want = js
		fails = a > 0
	case 7:
		out, err = jzon.Marshal([]*encoding.TextMarshaler{&t, nil})
		in("[", ts, ",null]")
		fails = b > 0
	case 8:
		out, err = jzon.Marshal(stdO{j, t})
		want = []byte{'{'}
		if a > 0 {
			want = append(append(want, `"j":`...), js...)
			if b > 0 {
				want = append(want, ',')
			}
		}
		if b > 0 {
			want = append(append(want, `"t":`...), ts...)
		}
		want = append(want, '}')
	case 9:
		switch a {
		case 0:
			out, err = jzon.Marshal(map[encoding.TextMarshaler]int{mtVal{d, 0}: d})
		case 1:
			out, err = jzon.Marshal(map[encoding.TextMarshaler]int{&mtPtr{d, 0}: d})
		case 2:
			out, err = jzon.Marshal(map[keyI]int{mtIn2(d): d})
		case 3:
			out, err = jzon.Marshal(map[textMI]int{mtDir{&d}: d})
		case 4:
			out, err = jzon.Marshal(map[encoding.TextMarshaler]int{mtInt(d): d})
		}
		x, _ := hookT(d)
		if hookErr == nil {
			in("{", quoteRef(x), ":")
			want = append(want, '0'+byte(d), '}')
		}
		fails = true
	}
	vrt.ObserveBytes("out", out)
	vrt.ObserveInt("err", b2i(err != nil))
	if hookErr != nil && fails {
		vrt.Assert(err != nil, "the error of a method is dropped")
		vrt.Cover("failed")
		return
	}
	vrt.Assert(err == nil && string(out) == string(want), "the method of what an interface holds is not honoured")
	vrt.Cover("done")
}

var stdTpl = []string{
	/*0*/ `{"j":?,"t":"^"}`,
	/*1*/ `{"t":_"?",_"j":[1_,{"a":"?"}]}`,
	/*2*/ `{"j":nul?,"t":nul?}`,
	/*3*/ `{"t":"\?","j":-#.#}`,
	/*4*/ `{"t":?,"j":"\u00~~"}`,
	/*5*/ `{"j":{"j":?}_,"t":"a\u00~~b"}`,
	/*6*/ `{"j":[?}`,
	/*7*/ `?"j":1}`,
}

// H_hookStdDec: texts decoded into what a json.Unmarshaler and an encoding.TextUnmarshaler hold.
func H_hookStdDec() {
	hookErr, hookGot, hookCalls = nil, nil, 0
	b := tpl(stdTpl[param("t")])
	vrt.ObserveBytes("in", b)
	var x stdU
	j, t := &ujVal{S: "old"}, &utVal{S: "old"}
	a := vrt.Choose(3)
	switch a {
	case 0:
		x = stdU{j, t}
	case 1: // nothing to call
	case 2:
		x = stdU{(*ujVal)(nil), (*utVal)(nil)}
	}
	var err error
	if r := param("r"); r < 0 {
		err = jzon.Unmarshal(b, &x)
	} else {
		err = jzon.UnmarshalFromReader(newReader(r, b), &x)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	v, ok := refDoc(b)
	ok = ok && (v.kind == 'o' || v.kind == 'n')
	wantJ, wantT := "old", "old"
	nilJ, nilT := a == 1, a == 1
	if ok {
		for i, key := range v.k {
			e := v.e[i]
			switch selects([]string{"j", "t"}, key, false) {
			case 0:
				if e.kind == 'n' {
					nilJ = true
				} else if nilJ || a > 0 {
					ok = false
				} else {
					wantJ = string(b[e.beg:e.end])
				}
			case 1:
				if e.kind == 'n' {
					nilT = true
				} else if nilT || a > 0 || e.kind != 's' {
					ok = false
				} else {
					wantT = string(e.s)
				}
			}
			if !ok {
				break
			}
		}
	}
	vrt.Assert((err == nil) == ok, "an interface with an unmarshal method accepts something else than what it holds, or rejects it")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.Assert((x.J == nil) == nilJ && (x.T == nil) == nilT, "null does not clear an interface, or something else does")
	vrt.Assert(j.S == wantJ && t.S == wantT, "the method of what an interface holds gets another text")
}
