package h

import (
	"bytes"
	"encoding/json"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

const pasts = 23

// The iterator and the streamer that past uses, if not ones of its own.
var (
	pastOwn  *jzon.Iterator
	pastOwnS *jzon.Streamer
)

func pastIter() *jzon.Iterator {
	if pastOwn != nil {
		return pastOwn
	}
	return jzon.NewIterator()
}

func pastDone(it *jzon.Iterator) {
	if it != pastOwn {
		it.Release()
	}
}

func pastStreamer() *jzon.Streamer {
	if pastOwnS != nil {
		return pastOwnS
	}
	return jzon.NewStreamer()
}

func pastDoneS(s *jzon.Streamer) {
	if s != pastOwnS {
		s.Release()
	}
}

// past is something done before: kinds of use that leave state behind.
func past(i int) {
	hookErr, hookGot = nil, nil
	c := byte(0)
	if vrt.Param("c") == 0 {
		c = vrt.Byte()
	} else {
		c = "\"1]"[vrt.Choose(3)]
	}
	switch i {
	case 0: // a failed read of a captured value
		it := pastIter()
		rd := newReader(rdOne, []byte{'[', '1', ',', c, ']'})
		rd.fail = errBroken
		it.Reset(rd)
		it.ReadRaw()
		pastDone(it)
	case 1: // numbers as texts, unknown fields an error
		d := jzon.NewDecoder(newReader(rdOne, []byte{'{', '"', c, '"', ':', '1', '}', '2'}))
		d.UseNumber()
		d.DisallowUnknownFields()
		var x tagEmb
		d.Decode(&x)
		d.Release()
	case 2: // left in the middle of a string with escapes
		it := pastIter()
		it.ResetBytes([]byte{'"', 'a', '\\', 'n', c})
		it.ReadString()
		pastDone(it)
	case 3: // left in the middle of an object
		it := pastIter()
		it.ResetBytes([]byte{'{', '"', c, '"', ':', '[', '[', '{', '"', 'a', '"'})
		it.ReadObjectBegin()
		it.Skip()
		pastDone(it)
	case 4: // stopped by a callback
		it := pastIter()
		it.Reset(newReader(rdOne, []byte{'[', '1', ',', c, ']'}))
		it.ReadArrayCB(func(it *jzon.Iterator) error { it.SkipRaw(); return errStop })
		pastDone(it)
	case 5: // a panic in a callback
		func() {
			defer func() { recover() }()
			it := pastIter()
			defer pastDone(it)
			it.Reset(newReader(rdOne, []byte{'{', '"', 'k', '"', ':', c}))
			it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { panic("user") })
		}()
	case 6:
		var x interface{}
		it := pastIter()
		it.Unmarshal([]byte{'[', '{', '"', 'a', '"', ':', '"', c, '"', '}', ',', '[', '1', ','}, &x)
		pastDone(it)
	case 7:
		var x []contS
		it := pastIter()
		it.UnmarshalFromReader(newReader(rdEOF, []byte{'[', '{', '"', 'g', '"', ':', '"', c, '"', '}', ',', '1'}), &x)
		pastDone(it)
	case 8:
		it := pastIter()
		it.Valid([]byte{'[', c, '{', '"', 'x', '"', ':'})
		pastDone(it)
	case 9: // a streamer left open, with options
		s := pastStreamer()
		s.EscapeHTML(false)
		s.ArrayStart().ObjectStart().Field(string([]byte{c})).ArrayStart().Int(1)
		if s == pastOwnS {
			s.EscapeHTML(true)
		}
		pastDoneS(s)
	case 10: // an encoder whose writer fails
		e := jzon.NewEncoder(&flaky{part: 1})
		e.SetEscapeHTML(false)
		e.Encode([]string{string([]byte{c}), "second"})
		e.Release()
	case 11: // a failed Marshal
		s := pastStreamer()
		s.Value([]interface{}{1, string([]byte{c}), map[string]interface{}{"x": (chan int)(nil)}})
		pastDoneS(s)
	case 12: // a writer that takes nothing
		s := pastStreamer()
		s.Reset(&flaky{part: 0})
		s.String(string([]byte{c}))
		s.Flush()
		pastDoneS(s)
	case 13: // a user's method fails
		hookErr = errBroken
		hookText = []byte{c}
		jzon.Marshal([]interface{}{1, mjVal{1, 2}, mtVal{1, 2}})
		hookErr = nil
	case 14: // a user's method panics
		func() {
			defer func() { recover() }()
			s := pastStreamer()
			defer pastDoneS(s)
			s.Value([]interface{}{"x", mPanic{}})
		}()
	case 15:
		x := make([]ujVal, 0)
		hookErr = errBroken
		jzon.Unmarshal([]byte{'[', '1', ',', '"', c, '"', ']'}, &x)
		hookErr = nil
	case 16: // a longer document than the buffers hold
		b := []byte(`["` + pad(200) + `",`)
		it := pastIter()
		it.Reset(newReader(rdEOF, append(b, c)))
		it.SkipRaw()
		pastDone(it)
	case 17: // a longer text
		jzon.Marshal([]string{pad(300), string([]byte{c})})
	case 18: // reset to nothing
		it := pastIter()
		it.ResetBytes([]byte{'[', c})
		it.ReadArrayBegin()
		it.Reset(nil)
		it.Read()
		pastDone(it)
	case 19: // a Decoder inside an array
		d := jzon.NewDecoder(bytes.NewBuffer([]byte{'1', ' ', '[', c}))
		var x int
		d.Decode(&x)
		d.More()
		d.Release()
	case 20: // numbers as texts, by configuration
		var x interface{}
		strictNumCfg.Unmarshal([]byte{'[', '1', c}, &x)
	case 22: // the same with something left over
		var x interface{}
		strictNumCfg.Unmarshal([]byte{'[', '1', ' ', c, ' ', '2', ']', '3', ']'}, &x)
	case 21: // another configuration's streamer
		s := plainEnc.NewStreamer()
		s.Value(map[string]string{"<": string([]byte{c})})
		s.Release()
	}
}

var strictNumCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true, DisallowUnknownFields: true})

type mPanic struct{}

func (mPanic) MarshalJSON() ([]byte, error) { panic("user") }

// reuseDec: what is read does not depend on what was done before.
func reuseDec(b []byte, m, r, h, n int) {
	vrt.ObserveBytes("in", b)
	keep := append([]byte{}, b...)
	it := jzon.NewIterator()
	it.ResetBytes(b)
	p := streamOp(it, m)
	p.rest = rest(it, nil)
	how := vrt.Choose(4)
	pastOwn = nil
	if how == 3 {
		pastOwn = it
	}
	past(h)
	for i := 1; i < n; i++ {
		past(vrt.Choose(pasts))
	}
	var rd *reader
	pastOwn = nil
	switch how {
	case 0, 3: // the same one again
		rd = srcR(it, r, b)
	case 1: // released and taken out again
		it.Release()
		it = jzon.NewIterator()
		rd = srcR(it, r, b)
	case 2: // another one at the same time
		other := jzon.NewIterator()
		other.ResetBytes(append([]byte("[1,"), b...))
		other.ReadArrayBegin()
		rd = srcR(it, r, b)
		streamOp(other, m)
		other.Release()
	}
	q := streamOp(it, m)
	q.rest = rest(it, rd)
	it.Release()
	vrt.ObserveInt("err", b2i(p.err != nil))
	vrt.Assert((p.err == nil) == (q.err == nil), "whether a read succeeds depends on what was done before")
	vrt.Assert(string(b) == string(keep), "reading changes the input")
	if p.err != nil {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.Assert(sameOutcome(&p, &q), "what is read depends on what was done before")
	vrt.Assert(eqB(p.rest, q.rest), "where a read stops depends on what was done before")
}

var reuseTpl = []string{
	/*0*/ `{"a":#,"b":"?","d":{"c":[true],"r":[#,"^"]}}`,
	/*1*/ `[#,-#2,?]`,
	/*2*/ `"a\u00~~^"_`,
	/*3*/ `-#.?5`,
	/*4*/ `{"^":"^","b":#}`,
	/*5*/ `"` + pad(70) + `?"`,
	/*6*/ `[[["?"]],[{"x":{}}],#]`,
	/*7*/ `tru?`,
	/*8*/ `["^","\n?"]`,
	/*9*/ `{"e":{"a":"^"},"u":"#2","f":#.5}`,
}

func H_reuse()  { reuseDec(bytesN(param("n")), param("m"), param("r"), param("h"), param("l")) }
func H_reuseT() { reuseDec(tpl(reuseTpl[param("t")]), param("m"), param("r"), param("h"), param("l")) }
func S_reuse() {
	S_stream()
}
func S_reuseT() { S_stream() }

// H_reuseCont: decoding into the targets of C13 after other uses.
func H_reuseCont() {
	past(param("h"))
	for i := 1; i < param("l"); i++ {
		past(vrt.Choose(pasts))
	}
	contAgrees(tpl(contTpl[param("t")]), param("k"), param("r"))
}
func S_reuseCont() { S_cont() }

// H_reuseEnc: encoding after other uses, and what was handed out stays.
func H_reuseEnc() {
	past(param("h"))
	for i := 1; i < param("l"); i++ {
		past(vrt.Choose(pasts))
	}
	x := map[string]interface{}{"s": string([]byte{vrt.ByteIn(' ', '~')})}
	first, err := jzon.Marshal(x)
	vrt.Assert(err == nil, "Marshal fails after other uses")
	was := string(first)
	want := append(append([]byte(`{"s":`), quoteRef([]byte(x["s"].(string)))...), '}')
	vrt.Assert(was == string(want), "what Marshal writes depends on what was done before")
	enc(param("k"), 0, param("w"))
	past(param("h"))
	vrt.Assert(string(first) == was, "a text that was handed out changes later")
	second, err := jzon.Marshal(x)
	vrt.Assert(err == nil && string(second) == was, "Marshal gives another text the second time")
	for i := range second {
		second[i] = 'x'
	}
	third, err := jzon.Marshal(x)
	vrt.Assert(err == nil && string(third) == was, "a text that was handed out is used again")
	vrt.Assert(string(first) == was, "two texts share memory")
}

// H_reuseOps: a streamer after other uses.
func H_reuseOps() {
	past(param("h"))
	for i := 1; i < param("l"); i++ {
		past(vrt.Choose(pasts))
	}
	if param("own") == 1 {
		s := jzon.NewStreamer()
		pastOwnS = s
		past(param("h"))
		pastOwnS = nil
		opsOn(s)
		return
	}
	opsOn(jzon.NewStreamer())
}

// ---- what was handed out

type keepS struct {
	A string            `json:"a"`
	B []byte            `json:"b"`
	C json.RawMessage   `json:"c"`
	D json.Number       `json:"d"`
	E interface{}       `json:"e"`
	F map[string]string `json:"f"`
	G []string          `json:"g"`
	H *string           `json:"h"`
	I utVal             `json:"i"`
	J string            `json:"j,string"`
}

// keepL has too many fields for the small struct decoder.
type keepL struct {
	keepS
	K, L, M string
}

func (x *keepS) text() string {
	h := ""
	if x.H != nil {
		h = *x.H
	}
	s := x.A + "|" + string(x.B) + "|" + string(x.C) + "|" + string(x.D) + "|" + h + "|" + x.I.S + "|" + x.J + "|"
	for k, v := range x.F {
		s += k + ":" + v + "|"
	}
	for _, v := range x.G {
		s += v + ","
	}
	return s + anyText(x.E)
}

func anyText(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case json.Number:
		return string(v)
	case []interface{}:
		s := "["
		for _, e := range v {
			s += anyText(e) + ","
		}
		return s + "]"
	case map[string]interface{}:
		s := "{"
		for k, e := range v {
			s += k + ":" + anyText(e) + ","
		}
		return s + "}"
	}
	return "?"
}

var keepTpl = []string{
	/*0*/ `{"a":"^x","b":"QUJ#","e":"^"}`,
	/*1*/ `{"c":["^"],"d":-#2.5e1,"g":["^","\u00~1"]}`,
	/*2*/ `{"f":{"^":"^"},"h":"^","i":"^","j":"\"^\""}`,
	/*3*/ `{"e":[{"^":"^"},"a\u00~~"],"c":{"^":-#}}`,
	/*4*/ `{"a":"\u00~~` + pad(70) + `^","c":"` + pad(70) + `^"}`,
	/*5*/ `{"a":"^` + pad(130) + `","g":["^` + pad(64) + `"],"d":1234567890#}`,
}

// H_keep: what was decoded stays, whatever becomes of the input and the iterator.
func H_keep() {
	b := tpl(keepTpl[param("t")])
	r := param("r")
	hookErr, hookGot = nil, nil
	vrt.ObserveBytes("in", b)
	keep := append([]byte{}, b...)
	var x *keepS
	var target interface{}
	if param("big") == 1 {
		l := new(keepL)
		target, x = l, &l.keepS
	} else {
		x = new(keepS)
		target = x
	}
	it := jzon.NewIterator()
	switch r {
	case -2:
		it.Reset(bytes.NewBuffer(b))
	default:
		srcR(it, r, b)
	}
	if r >= 0 {
		b = append([]byte{}, b...)
	}
	err := it.ReadVal(target)
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert(string(b) == string(keep), "decoding changes the input")
	if err != nil {
		vrt.Cover("rejected")
		it.Release()
		return
	}
	was := x.text()
	for i := range b {
		b[i] = 'X'
	}
	vrt.Assert(x.text() == was, "what was decoded changes with the input")
	past(param("h"))
	it.ResetBytes([]byte(`["other","` + pad(100) + `\n` + pad(100) + `"]`))
	it.Read()
	it.Reset(newReader(rdEOF, []byte(`["other","`+pad(100)+`\n`+pad(100)+`"]`)))
	it.ReadRaw()
	it.Release()
	vrt.Assert(x.text() == was, "what was decoded changes with later uses")
	past(param("h"))
	vrt.Assert(x.text() == was, "what was decoded changes with later uses")
	vrt.Cover("read")
}

// H_keepPull: the same for what the calls of the iterator hand out.
func H_keepPull() {
	m := param("m")
	r := param("r")
	s := []string{`"^x\u00~~^"`, `"^^"`, `"` + pad(80) + `^"`, `["^",#]`, `{"^":"^"}`, `-#.#e2`}[param("t")]
	b := tpl(s)
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	srcR(it, r, b)
	if r >= 0 {
		b = append([]byte{}, b...)
	}
	var got []byte
	var str string
	var any interface{}
	var err error
	switch m {
	case 0:
		str, err = it.ReadString()
	case 1:
		got, err = it.ReadRaw()
	case 2:
		got, err = it.AppendRaw([]byte("pre"))
	case 3:
		got, err = it.ReadStringAndAppend([]byte("pre"))
	case 4:
		any, err = it.Read()
	case 5:
		var n json.Number
		n, err = it.ReadNumber()
		str = string(n)
	case 6:
		err = it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
			str += field
			return it.Skip()
		})
	case 7:
		var f string
		_, f, err = it.ReadObjectBegin()
		str = f
	}
	if err != nil {
		vrt.Cover("rejected")
		it.Release()
		return
	}
	str2, got2, any2 := string(append([]byte{}, str...)), string(got), anyText(any)
	for i := range b {
		b[i] = 'X'
	}
	it.ResetBytes([]byte(`["\n` + pad(100) + `"]`))
	it.Read()
	it.Reset(newReader(rdEOF, []byte(`["other","`+pad(100)+`\n`+pad(100)+`"]`)))
	it.ReadRaw()
	it.Release()
	past(param("h"))
	vrt.Assert(str == str2 && string(got) == got2 && anyText(any) == any2, "what was handed out changes later")
	vrt.Cover("read")
}

// H_keepLen: texts of every length within a range, one after the other.
func H_keepLen() {
	m, r := param("m"), param("r")
	n := param("lo") + vrt.Choose(param("n"))
	c := vrt.ByteIn('0', '9')
	p, q := rep("1", n)+string([]byte{c}), rep("2", n)+string([]byte{c})
	var b []byte
	switch m {
	case 3, 4:
		b = []byte(`[` + p + `,` + q + `,` + q + `]`)
	case 5:
		b = []byte(`{"` + p + `":"` + q + `","` + q + `":"` + p + `"}`)
	case 8:
		b = []byte(`{"a":"` + p + `","j":"\"` + q + `\"","h":"` + q + `"}`)
	default:
		b = []byte(`["` + p + `","` + q + `","` + q + `"]`)
	}
	it := jzon.NewIterator()
	srcR(it, r, b)
	if r >= 0 {
		b = append([]byte{}, b...)
	}
	var err error
	var ok func() bool
	switch m {
	case 0:
		var x []string
		err = it.ReadVal(&x)
		ok = func() bool { return len(x) == 3 && x[0] == p && x[1] == q && x[2] == q }
	case 1:
		var x interface{}
		x, err = it.Read()
		ok = func() bool {
			y, _ := x.([]interface{})
			return len(y) == 3 && y[0] == interface{}(p) && y[1] == interface{}(q) && y[2] == interface{}(q)
		}
	case 2:
		var x []json.RawMessage
		err = it.ReadVal(&x)
		ok = func() bool {
			return len(x) == 3 && string(x[0]) == `"`+p+`"` && string(x[1]) == `"`+q+`"` && string(x[2]) == `"`+q+`"`
		}
	case 3:
		var x []json.Number
		err = it.ReadVal(&x)
		ok = func() bool { return len(x) == 3 && string(x[0]) == p && string(x[1]) == q && string(x[2]) == q }
	case 4:
		var x [][]byte
		err = it.ReadArrayCB(func(it *jzon.Iterator) error {
			y, err := it.ReadRaw()
			x = append(x, y)
			return err
		})
		ok = func() bool { return len(x) == 3 && string(x[0]) == p && string(x[1]) == q && string(x[2]) == q }
	case 5:
		var x map[string]string
		err = it.ReadVal(&x)
		ok = func() bool { return len(x) == 2 && x[p] == q && x[q] == p }
	case 6:
		var x []string
		err = it.ReadArrayCB(func(it *jzon.Iterator) error {
			y, err := it.ReadString()
			x = append(x, y)
			return err
		})
		ok = func() bool { return len(x) == 3 && x[0] == p && x[1] == q && x[2] == q }
	case 7:
		var x []utVal
		hookErr, hookGot = nil, nil
		err = it.ReadVal(&x)
		ok = func() bool { return len(x) == 3 && x[0].S == p && x[1].S == q && x[2].S == q }
	case 8:
		var x keepS
		err = it.ReadVal(&x)
		ok = func() bool { return x.A == p && x.J == q && x.H != nil && *x.H == q }
	}
	vrt.Assert(err == nil, "a text of some length is rejected")
	vrt.Assert(ok(), "what was decoded changes with what is decoded next")
	for i := range b {
		b[i] = 'X'
	}
	it.ResetBytes([]byte(`["` + rep("3", n/2+1) + `\n` + rep("3", n/2) + `"]`))
	it.Read()
	it.Reset(newReader(rdEOF, []byte(`["`+rep("3", n)+`",1]`)))
	it.ReadRaw()
	it.Release()
	vrt.Assert(ok(), "what was decoded changes with later uses")
	vrt.Cover("read")
}
func S_keepLen() {
	for _, x := range []interface{}{new([]string), new([]json.RawMessage), new([]json.Number), new(map[string]string), new([]utVal), new(keepS)} {
		jzon.Unmarshal([]byte("null"), x)
		jzon.Unmarshal([]byte("{}"), x)
		jzon.Unmarshal([]byte("[]"), x)
	}
}

// ---- uses within uses

type nestU struct{ v interface{} }

func (x *nestU) UnmarshalJSON(b []byte) error { return jzon.Unmarshal(b, &x.v) }
func (x nestU) MarshalJSON() ([]byte, error)  { return jzon.Marshal(x.v) }

type nestT struct{ s string }

func (x *nestT) UnmarshalText(b []byte) error {
	return jzon.Unmarshal(append(append([]byte{'"'}, b...), '"'), &x.s)
}
func (x nestT) MarshalText() ([]byte, error) {
	b, err := jzon.Marshal(x.s)
	if err != nil {
		return nil, err
	}
	return b[1 : len(b)-1], nil
}

// H_nested: methods that use the package themselves.
func H_nested() {
	b := tpl([]string{`[{"^":["^"]},"a^"]`, `["^",[],"\u00~~"]`, `[{"a":{"^":null}},"^` + pad(70) + `"]`}[param("t")])
	vrt.ObserveBytes("in", b)
	v, ok := refDoc(b)
	vrt.Assume(ok)
	// values the method itself can decode
	var x []nestU
	var err error
	if r := param("r"); r < 0 {
		err = jzon.Unmarshal(b, &x)
	} else {
		err = jzon.UnmarshalFromReader(newReader(r, b), &x)
	}
	vrt.Assert(err == nil && len(x) == len(v.e), "a method that uses the package itself fails")
	for i := range x {
		vrt.Assert(eqVal(x[i].v, v.e[i], false), "a method that uses the package itself gives another value")
	}
	out, err := jzon.Marshal(x)
	vrt.Assert(err == nil, "a method that uses the package itself fails")
	direct := []interface{}{}
	for i := range x {
		direct = append(direct, x[i].v)
	}
	want, err := jzon.Marshal(direct)
	vrt.ObserveBytes("out", out)
	vrt.Assert(err == nil && string(out) == string(want), "a method that uses the package itself writes another text")
	vrt.Cover("done")
}

func H_nestedT() {
	c := gBytesN(2)
	in := []byte{'{', '"', c[0], '"', ':', '"', c[1], '"', ',', '"', '#', '"', ':', '"', c[0], '"', '}'}
	var x map[nestT]nestT
	err := jzon.Unmarshal(in, &x)
	vrt.Assert(err == nil && len(x) == 2, "a method that uses the package itself fails")
	y, ok := x[nestT{string(c[:1])}]
	vrt.Assert(ok && y.s == string(c[1:]), "a method that uses the package itself gives another value")
	delete(x, nestT{"#"})
	out, err := jzon.Marshal(x)
	vrt.ObserveBytes("out", out)
	vrt.Assert(err == nil && string(out) == string(append(in[:8], '}')), "a method that uses the package itself writes another text")
	vrt.Cover("done")
}

// H_keepEnc: texts of every length within a range, one after the other.
func H_keepEnc() {
	m, n := param("m"), param("lo")+vrt.Choose(param("n"))
	c := vrt.ByteIn('0', '9')
	hookErr, hookText = nil, nil
	one := func(d byte) (v interface{}, want string) {
		s := rep(string([]byte{d}), n) + string([]byte{c})
		switch m {
		case 0:
			return s, `"` + s + `"`
		case 1:
			return json.RawMessage(s), s
		case 2:
			return json.Number(s), s
		case 3:
			return map[string]string{s: s}, `{"` + s + `":"` + s + `"}`
		case 4:
			return nestU{s}, `"` + s + `"`
		case 5:
			return nestT{s}, `"` + s + `"`
		case 6:
			return []interface{}{s, 1}, `["` + s + `",1]`
		}
		return []byte(s)[:n], string(refEnc(nil, tBytes, ofBytes([]byte(s)[:n]), false))
	}
	x, wx := one('1')
	y, wy := one('2')
	var res [4][]byte
	for i := range res {
		v, w := x, wx
		if i%2 == 1 {
			v, w = y, wy
		}
		b, err := jzon.Marshal(v)
		vrt.Assert(err == nil && string(b) == w, "what Marshal writes depends on what was written before")
		if i == 2 {
			res[0] = append(res[0], "tail"...)[:len(wx)]
		}
		res[i] = b
	}
	vrt.Assert(string(res[0]) == wx && string(res[1]) == wy, "a text Marshal gave changes later")
	for i := range res[2] {
		res[2][i] = 'X'
	}
	b, err := jzon.Marshal(x)
	vrt.Assert(err == nil && string(b) == wx && string(res[3]) == wy, "a text Marshal gave shares memory with another")
	for i := range res[3][:cap(res[3])] {
		res[3][:cap(res[3])][i] = 'Y'
	}
	vrt.Assert(string(b) == wx && string(res[0]) == wx && string(res[1]) == wy, "a text Marshal gave shares memory with another")
	vrt.Cover("done")
}
func S_keepEnc() {
	for _, x := range []interface{}{"", json.RawMessage("1"), json.Number("1"), map[string]string{"a": "b"}, nestU{"x"}, nestT{"y"}, []interface{}{"", 1}, []byte("x")} {
		jzon.Marshal(x)
	}
}

// H_efaceAgain: a target that is an interface or a pointer chain is decoded into again
// after a decode into it that failed anywhere.
func H_efaceAgain() {
	seven := 7
	p := &seven
	list := []int{1}
	var y interface{} = &seven
	var x interface{}
	set := func() {
		seven = 7
		switch param("k") {
		case 0:
			x = &seven
		case 1:
			x = &p
		case 2:
			x = &list
		case 3:
			y = &seven
			x = &y
		}
	}
	lead := rep(" ", vrt.Choose(3))
	good := lead + "[5]"
	if param("k") != 2 {
		good = lead + "5"
	}
	bad := append([]byte(lead), bytesN(param("n"))...)
	it := jzon.NewIterator()
	set()
	srcR(it, param("r"), bad)
	it.ReadVal(&x)
	set()
	switch vrt.Choose(3) {
	case 0:
		it.ResetBytes([]byte(good))
	case 1:
		it.Reset(newReader(rdWhole, []byte(good)))
	case 2:
		it.Release()
		it = jzon.NewIterator()
		it.ResetBytes([]byte(good))
	}
	err := it.ReadVal(&x)
	vrt.Assert(err == nil, "a target cannot be decoded into again")
	switch param("k") {
	case 0, 1, 3:
		vrt.Assert(seven == 5 || p != &seven && *p == 5, "a target decoded into again gets another value")
	case 2:
		vrt.Assert(len(list) == 1 && list[0] == 5, "a target decoded into again gets another value")
	}
	it.Release()
	vrt.Cover("done")
}
func S_efaceAgain() { S_reuseCont() }
