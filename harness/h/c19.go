package h

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"unsafe"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// Custom codecs: bit i of cuDec and cuEnc says whether codec i is registered.
var cuDec, cuEnc int
var cuCfg *jzon.EncoderConfig

var tOther = &ty{k: 'i', n: 1} // an integer of another type than int

func isIntTy(t *ty) bool { return t.k == 'i' && t.n == 0 }

type (
	cuInt  struct{}
	cuCont struct{}
	cuInts struct{}
	cuMap  struct{}
	cuPtr  struct{}
	cuAny  struct{}
	cuStr  struct{}
	cuPO   struct{}
	cuByts struct{}
	cuU8   struct{}
)

var errCu = errors.New("custom")

func cuNum(it *jzon.Iterator, null int) (int, error) {
	vt, err := it.NextValueType()
	if err != nil {
		return 0, err
	}
	if vt == jzon.NullValue {
		return null, it.ReadNull()
	}
	return it.ReadInt()
}

func (cuInt) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	n, err := cuNum(it, 50)
	if err == nil {
		*(*int)(p) = n + 100
	}
	return err
}
func (cuCont) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	s, err := it.ReadString()
	if err == nil {
		(*contS)(p).G = s + "!"
	}
	return err
}
func (cuInts) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	n, err := cuNum(it, 3)
	if err == nil {
		*(*[]int)(p) = []int{n, n + 1}
	}
	return err
}
func (cuMap) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	n, err := cuNum(it, 4)
	if err == nil {
		*(*map[string]int)(p) = map[string]int{"c": n}
	}
	return err
}
func (cuPtr) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	n, err := cuNum(it, -201)
	if err == nil {
		n += 200
		*(**int)(p) = &n
	}
	return err
}
func (cuAny) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	err := it.Skip()
	if err == nil {
		*(*interface{})(p) = "any!"
	}
	return err
}
func (cuStr) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	s, err := it.ReadString()
	if err == nil {
		*(*string)(p) = s + "?"
	}
	return err
}

const cuDecs = 7

func decCfg(set int) *jzon.DecoderConfig {
	m := map[reflect.Type]jzon.ValDecoder{}
	for i, c := range []struct {
		x interface{}
		d jzon.ValDecoder
	}{{0, cuInt{}}, {contS{}, cuCont{}}, {[]int(nil), cuInts{}}, {map[string]int(nil), cuMap{}}, {(*int)(nil), cuPtr{}}, {"", cuStr{}}} {
		if set>>i&1 == 1 {
			m[reflect.TypeOf(c.x)] = c.d
		}
	}
	if set>>6&1 == 1 {
		m[reflect.TypeOf((*interface{})(nil)).Elem()] = cuAny{}
	}
	return jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: m})
}

// refCuDec is what the registered decoders do.
func refCuDec(t *ty, v *val, old *cv) (c *cv, ok, does bool) {
	num := func(null int) (int, bool) {
		if v.kind == 'n' {
			return null, true
		}
		n, ok := smallInt(v.s)
		return n, ok && v.kind == '0'
	}
	on := func(i int) bool { return cuDec>>i&1 == 1 }
	switch {
	case on(0) && isIntTy(t):
		n, ok := num(50)
		return ofInt(n + 100), ok, true
	case on(1) && t.k == 'S':
		c := &cv{e: append([]*cv{}, old.e...)}
		c.e[6] = &cv{s: append(append([]byte{}, v.s...), '!')}
		return c, v.kind == 's', true
	case on(2) && t.k == 'L' && isIntTy(t.elem):
		n, ok := num(3)
		return &cv{e: []*cv{ofInt(n), ofInt(n + 1)}}, ok, true
	case on(3) && t.k == 'M' && isIntTy(t.elem):
		n, ok := num(4)
		return &cv{k: [][]byte{{'c'}}, e: []*cv{ofInt(n)}}, ok, true
	case on(4) && t.k == 'P' && isIntTy(t.elem):
		n, ok := num(-201)
		return &cv{in: ofInt(n + 200)}, ok, true
	case on(5) && t.k == 's':
		return &cv{s: append(append([]byte{}, v.s...), '?')}, v.kind == 's', true
	case on(6) && t.k == 'E':
		return &cv{x: "any!", v: &val{kind: 's', s: []byte("any!")}}, true, true
	}
	return nil, false, false
}

// the types a configuration met before
func priorDec(cfg *jzon.DecoderConfig, i int) {
	switch i {
	case 0:
	case 1:
		x := 1
		cfg.Unmarshal([]byte("1"), &x)
	case 2:
		x := contS{}
		cfg.Unmarshal([]byte("{}"), &x)
	case 3:
		x := []*contS{}
		cfg.Unmarshal([]byte("null"), &x)
	case 4:
		x := map[string]map[string]interface{}{}
		cfg.Unmarshal([]byte(`{"a":{"b":[1,"x",null]}}`), &x)
	case 5:
		x := [2][]byte{}
		cfg.Unmarshal([]byte(`["QUJD",[1,2]]`), &x)
	case 6:
		t := ifaceT(5)
		var x ifaceI = &t
		cfg.Unmarshal([]byte("4"), &x)
	case 7:
		var x **int
		cfg.Unmarshal([]byte("[[[["), &x)
	}
}

func cfgAgrees(b []byte, k, set, prior int) {
	cuDec = set
	vrt.ObserveBytes("in", b)
	target, t, get := contShape(k)
	old := get()
	cfg := decCfg(set)
	for i := 0; i < prior; i++ {
		priorDec(cfg, vrt.Choose(8))
	}
	err := cfg.Unmarshal(b, target)
	vrt.ObserveInt("err", b2i(err != nil))
	v, ok := refDoc(b)
	doc := ok
	var want *cv
	if ok {
		want, ok = refInto(t, v, old)
	}
	vrt.Assert((err == nil) == ok, "with custom decoders other texts are accepted than those decoders accept where their types occur")
	if ok {
		vrt.Assert(same(t, get(), want), "custom decoders are not used for every value of their type and for no other")
		vrt.Cover("read")
	}
	// another configuration goes on without them
	cuDec = 0
	target, t, get = contShape(k)
	old = get()
	err = jzon.Unmarshal(b, target)
	if doc {
		want, ok = refInto(t, v, old)
	}
	vrt.Assert((err == nil) == (doc && ok), "a custom decoder is used by another configuration")
	if doc && ok {
		vrt.Assert(same(t, get(), want), "a custom decoder is used by another configuration")
	}
}

// H_cfgDec: shape k, template t, codecs c, after p uses of the configuration.
func H_cfgDec() {
	cfgAgrees(tpl(contTpl[param("t")]), param("k"), param("c"), param("p"))
}
func S_cfgDec() { S_cont() }

func H_cfgDecN() { cfgAgrees(bytesN(param("n")), param("k"), param("c"), param("p")) }
func S_cfgDecN() { S_cont() }

// ---- encoding

func (cuInt) IsEmpty(p unsafe.Pointer) bool { return *(*int)(p) == 1 }
func (cuInt) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.Int(*(*int)(p) + 100)
}
func (cuPO) IsEmpty(p unsafe.Pointer) bool { return (*ptrOnly)(p).P == nil }
func (cuPO) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.Bool((*ptrOnly)(p).P == nil)
}
func (cuInts) IsEmpty(p unsafe.Pointer) bool { return len(*(*[]int)(p)) == 1 }
func (cuInts) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.ArrayStart().Int(len(*(*[]int)(p))).Null().ArrayEnd()
}
func (cuMap) IsEmpty(p unsafe.Pointer) bool { return false }
func (cuMap) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.ObjectStart().Field("m").Int(len(*(*map[string]int)(p))).ObjectEnd()
}
func (cuStr) IsEmpty(p unsafe.Pointer) bool { return false }
func (cuStr) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.String(*(*string)(p) + "?")
}
func (cuByts) IsEmpty(p unsafe.Pointer) bool { return len(*(*[]byte)(p)) == 2 }
func (cuByts) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.Int(len(*(*[]byte)(p)))
}
func (cuU8) IsEmpty(p unsafe.Pointer) bool { return false }
func (cuU8) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil { // what a nil pointer gives
		s.Null()
		return
	}
	s.Bool(*(*uint8)(p) > 7)
}

const cuEncs = 7

func encCfg(set int) *jzon.EncoderConfig {
	m := map[reflect.Type]jzon.ValEncoder{}
	for i, c := range []struct {
		x interface{}
		d jzon.ValEncoder
	}{{0, cuInt{}}, {ptrOnly{}, cuPO{}}, {[]int(nil), cuInts{}}, {map[string]int(nil), cuMap{}}, {"", cuStr{}}, {[]byte(nil), cuByts{}}, {uint8(0), cuU8{}}} {
		if set>>i&1 == 1 {
			m[reflect.TypeOf(c.x)] = c.d
		}
	}
	return jzon.NewEncoderConfig(&jzon.EncoderOption{ValEncoders: m, EscapeHTML: true})
}

func mar(x interface{}) ([]byte, error) {
	if cuCfg != nil {
		return cuCfg.Marshal(x)
	}
	return jzon.Marshal(x)
}
func newEnc(w io.Writer) *jzon.Encoder {
	if cuCfg != nil {
		return cuCfg.NewEncoder(w)
	}
	return jzon.NewEncoder(w)
}

func refCuEnc(t *ty, c *cv) (b []byte, does bool) {
	on := func(i int) bool { return cuEnc>>i&1 == 1 }
	plain := func(n int) []byte {
		save := cuEnc
		cuEnc = 0
		b := refEnc(nil, tInt, ofInt(n), false)
		cuEnc = save
		return b
	}
	tf := func(x bool) []byte {
		if x {
			return []byte("true")
		}
		return []byte("false")
	}
	switch {
	case on(0) && isIntTy(t):
		return plain(c.i + 100), true
	case on(1) && t == tPtrOnly:
		return tf(c.e[0].nul), true
	case on(2) && t.k == 'L' && isIntTy(t.elem):
		return append(append([]byte{'['}, plain(len(c.e))...), ",null]"...), true
	case on(3) && t.k == 'M' && isIntTy(t.elem):
		return append(append([]byte(`{"m":`), plain(len(c.e))...), '}'), true
	case on(4) && t.k == 's':
		return append(append([]byte{'"'}, c.s...), '?', '"'), true
	case on(5) && t.k == 'y' && t.n == 0:
		return plain(len(c.s)), true
	case on(6) && t.k == 'x':
		return tf(c.i > 7), true
	case on(6) && t.k == 'y' && !c.nul:
		b = []byte{'['}
		for i, x := range c.s {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, tf(x > 7)...)
		}
		return append(b, ']'), true
	}
	return nil, false
}

func refCuEmpty(t *ty, c *cv) (empty, does bool) {
	on := func(i int) bool { return cuEnc>>i&1 == 1 }
	switch {
	case on(0) && isIntTy(t):
		return c.i == 1, true
	case on(1) && t == tPtrOnly:
		return c.e[0].nul, true
	case on(2) && t.k == 'L' && isIntTy(t.elem):
		return len(c.e) == 1, true
	case on(3) && t.k == 'M' && isIntTy(t.elem):
		return false, true
	case on(4) && t.k == 's':
		return false, true
	case on(5) && t.k == 'y' && t.n == 0:
		return len(c.s) == 2, true
	case on(6) && t.k == 'x':
		return false, true
	}
	return false, false
}

func priorEnc(cfg *jzon.EncoderConfig, i int) {
	one := 1
	switch i {
	case 0:
	case 1:
		cfg.Marshal(1)
	case 2:
		cfg.Marshal(&contE{})
	case 3:
		cfg.Marshal([]interface{}{ptrOnly{}, map[string]int{}, &one, "", []byte{1}, namedBytes{1}})
	case 4:
		cfg.Marshal(map[string]*ptrOnly{"a": nil, "b": {}})
	case 5:
		cfg.Marshal([1]*int{&one})
	case 6:
		cfg.Marshal([]leafE{})
	case 7:
		cfg.Marshal(&deepPtr{})
	}
}

// H_cfgEnc: type k of C15 with field f, in place w, codecs c, after p uses.
func H_cfgEnc() {
	c := param("c")
	cfg := encCfg(c)
	for i := param("p"); i > 0; i-- {
		priorEnc(cfg, vrt.Choose(8))
	}
	cuEnc, cuCfg = c, cfg
	enc(param("k"), param("f"), param("w"))
	cuEnc, cuCfg = 0, nil
}

// H_cfgEncOff: other configurations go on without the codecs.
func H_cfgEncOff() {
	cfg := encCfg(param("c"))
	priorEnc(cfg, vrt.Choose(8))
	cuEnc, cuCfg = 0, nil
	if vrt.Choose(2) == 1 {
		cuCfg = encCfg(0)
	}
	enc(param("k"), param("f"), param("w"))
	cuCfg = nil
}

// ---- options

type tagEmb struct {
	P int `json:"p" xx:"q"`
	Q int
}
type tagS struct {
	A int `json:"a" xx:"b"`
	B int `json:"b" xx:"-"`
	C int `json:"-" xx:"c,omitempty"`
	D int
	E int `xx:",omitempty"`
	F int `json:",omitempty"`
	tagEmb
}

// tagNames gives the members with their fields, under the options.
func tagNames(xx, only bool) (names []string, fields []int, omit []bool) {
	add := func(n string, i int, o bool) {
		names, fields, omit = append(names, n), append(fields, i), append(omit, o)
	}
	if xx {
		add("b", 0, false)
		add("c", 2, true)
		if !only {
			add("D", 3, false)
		}
		add("E", 4, true)
		if !only {
			add("F", 5, false)
		}
		add("q", 6, false)
		if !only {
			add("Q", 7, false)
		}
		return
	}
	add("a", 0, false)
	add("b", 1, false)
	if !only {
		add("D", 3, false)
		add("E", 4, false)
	}
	add("F", 5, true)
	add("p", 6, false)
	if !only {
		add("Q", 7, false)
	}
	return
}
func (x *tagS) all() []*int {
	return []*int{&x.A, &x.B, &x.C, &x.D, &x.E, &x.F, &x.P, &x.Q}
}

// H_tagDec: an object whose names are arbitrary bytes, under every set of options.
func H_tagDec() {
	o := param("o")
	tag, xx := "", o&1 == 1
	if xx {
		tag = "xx"
	}
	only, exact, strict := o&2 != 0, o&4 != 0, o&8 != 0
	cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: tag, OnlyTaggedField: only, CaseSensitive: exact, DisallowUnknownFields: strict})
	var x tagS
	x.C, x.Q = 7, 8
	b := tpl([]string{`{"^":#}`, `{"^":#,"^":#}`, `{"a":#,"Q":#,"^":[]}`, `{"\u00~~":#}`, `{"^^":null}`}[param("t")])
	vrt.ObserveBytes("in", b)
	v, ok := refDoc(b)
	vrt.Assume(ok)
	names, fields, _ := tagNames(xx, only)
	want := x
	w := want.all()
	for i, k := range v.k {
		j := selects(names, k, exact)
		if j < 0 {
			ok = ok && !strict
			continue
		}
		n, isInt := smallInt(v.e[i].s)
		if v.e[i].kind == 'n' {
			continue
		}
		if v.e[i].kind != '0' || !isInt {
			ok = false
			continue
		}
		*w[fields[j]] = n
	}
	err := cfg.Unmarshal(b, &x)
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "a member is rejected or accepted against the options")
	if ok {
		g := x.all()
		for i := range g {
			vrt.Assert(*g[i] == *w[i], "a member goes to another field than the options say")
		}
		vrt.Cover("read")
	}
}

// H_tagEnc: the members written under the options.
func H_tagEnc() {
	o := param("o")
	tag, xx := "", o&1 == 1
	if xx {
		tag = "xx"
	}
	only, html := o&2 != 0, o&4 != 0
	cfg := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: tag, OnlyTaggedField: only, EscapeHTML: html})
	var x tagS
	a := x.all()
	for i := range a {
		*a[i] = i + 1
	}
	*a[param("f")] = gInt()
	names, fields, omit := tagNames(xx, only)
	want := []byte{'{'}
	for i, n := range names {
		if omit[i] && *a[fields[i]] == 0 {
			continue
		}
		if len(want) > 1 {
			want = append(want, ',')
		}
		want = append(append(append(want, '"'), n...), '"', ':')
		want = refEnc(want, tInt, ofInt(*a[fields[i]]), false)
	}
	want = append(want, '}')
	got, err := cfg.Marshal(&x)
	vrt.ObserveBytes("out", got)
	vrt.Assert(err == nil && string(got) == string(want), "other members are written than the options say")
	// escaping
	s := string([]byte{vrt.Byte(), vrt.Byte()})
	got, err = cfg.Marshal([]string{s})
	want = quoteRef([]byte(s))
	if !html {
		want = quotePlain([]byte(s))
	}
	want = append(append([]byte{'['}, want...), ']')
	vrt.ObserveBytes("esc", got)
	vrt.Assert(err == nil && string(got) == string(want), "HTML is escaped against the options")
	vrt.Cover("done")
}

func quotePlain(b []byte) []byte {
	out := []byte{}
	for _, c := range b {
		if c == '<' || c == '>' || c == '&' {
			out = append(out, 'x') // its place
		} else {
			out = append(out, c)
		}
	}
	q := quoteRef(out)
	// the characters go back to their places
	j := 1
	for i := 0; i < len(b); {
		n := runeLen(b, i)
		if n == 0 {
			j += 6
			i++
			continue
		}
		l := len(quoteRef(out[i:i+n])) - 2
		if l == 1 {
			q[j] = b[i]
		}
		j += l
		i += n
	}
	return q
}

// H_over: what a Decoder or Encoder is told acts within it alone.
func H_over() {
	o := param("o")
	cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: o&1 != 0, DisallowUnknownFields: o&2 != 0})
	ecfg := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: o&4 != 0})
	type one struct{ A interface{} }
	d := byte('7')
	for i := 0; i < 3; i++ {
		num, strict, html := o&1 != 0, o&2 != 0, o&4 != 0
		in := []byte{'{', '"', 'A', '"', ':', d, '}'}
		unknown := vrt.Choose(2) == 1
		if unknown {
			in[2] = 'b'
		}
		x := one{}
		var err error
		if i == param("i") {
			dec := cfg.NewDecoder(newReader(1, in))
			if vrt.Choose(2) == 1 {
				dec.UseNumber()
				num = true
			}
			if vrt.Choose(2) == 1 {
				dec.DisallowUnknownFields()
				strict = true
			}
			err = dec.Decode(&x)
			dec.Release()
		} else if i == 1 {
			it := cfg.NewIterator()
			it.ResetBytes(in)
			err = it.ReadVal(&x)
			it.Release()
		} else {
			err = cfg.Unmarshal(in, &x)
		}
		vrt.ObserveInt("err", b2i(err != nil))
		vrt.Assert((err == nil) == !(strict && unknown), "unknown fields are handled against the options")
		if !unknown {
			n, isNum := x.A.(json.Number)
			f, isF := x.A.(float64)
			vrt.Assert(isNum == num && isF == !num, "numbers are decoded against the options")
			vrt.Assert(!isNum || string(n) == string(d), "a number has another text")
			vrt.Assert(!isF || f == float64(d-'0'), "a number has another value")
		}
		var out []byte
		if i == param("i") {
			w := &flaky{part: -1}
			e := ecfg.NewEncoder(w)
			switch vrt.Choose(3) {
			case 0:
				e.SetEscapeHTML(true)
				html = true
			case 1:
				e.SetEscapeHTML(false)
				html = false
			}
			err = e.Encode("<")
			e.Release()
			vrt.Assert(len(w.b) > 0 && w.b[len(w.b)-1] == '\n', "no line break behind a value")
			out = w.b[:len(w.b)-1]
		} else {
			out, err = ecfg.Marshal("<")
		}
		want := `"<"`
		if html {
			want = `"\u003c"`
		}
		vrt.Assert(err == nil && string(out) == want, "HTML is escaped against the options")
	}
	vrt.Cover("done")
}

// ---- types defined from basic ones

// cuG serves T: any string stands for v, which is written as "cu".
type cuG[T any] struct{ v T }

func (g *cuG[T]) Decode(p unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	s, err := it.ReadString()
	if err == nil && len(s) != 1 {
		err = errCu
	}
	if err == nil {
		*(*T)(p) = g.v
	}
	return err
}
func (g *cuG[T]) IsEmpty(p unsafe.Pointer) bool { return false }
func (g *cuG[T]) Encode(p unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	if p == nil {
		s.Null()
		return
	}
	s.String("cu")
}

type (
	nBool  bool
	nInt   int
	nInt8  int8
	nInt16 int16
	nInt32 int32
	nInt64 int64
	nUint  uint
	nUint8 uint8
	nU16   uint16
	nU32   uint32
	nU64   uint64
	nUptr  uintptr
	nF32   float32
	nF64   float64
	nStr   string
)

type namedS[N any] struct {
	X N
	Y []*N
	Z N `json:",omitempty"`
}
type namedR[N any] struct {
	R *namedR[N]
	M map[string][]namedR[N]
	X N
}

func namedIn[T any, N comparable](t T, n N, sh, dir, prior int) {
	// all the others are registered too when the last bit is set
	g := &cuG[T]{t}
	dec := jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{reflect.TypeOf(t): g}})
	enc := jzon.NewEncoderConfig(&jzon.EncoderOption{ValEncoders: map[reflect.Type]jzon.ValEncoder{reflect.TypeOf(t): g}})
	c := string([]byte{vrt.ByteIn('a', 'z')})
	switch prior {
	case 1: // the basic type itself
		var x T
		dec.Unmarshal([]byte(`"x"`), &x)
		enc.Marshal(x)
	case 2: // another container of the defined one
		var x []map[string]*N
		dec.Unmarshal([]byte(`[{"a":"x"}]`), &x)
		enc.Marshal(x)
	case 3: // other types
		var x namedR[bool]
		dec.Unmarshal([]byte(`{}`), &x)
		enc.Marshal(x)
	}
	var (
		doc  string
		x    interface{}
		made interface{}
		ok   func() bool
	)
	is := func(ps ...*N) bool {
		for _, p := range ps {
			if p == nil || *p != n {
				return false
			}
		}
		return true
	}
	v := `"` + c + `"`
	switch sh {
	case 0:
		y := new(N)
		doc, x, made = v, y, n
		ok = func() bool { return is(y) }
	case 1:
		y := new(*N)
		doc, x, made = v, y, &n
		ok = func() bool { return is(*y) }
	case 2:
		y := new([]N)
		doc, x, made = `[`+v+`,`+v+`]`, y, []N{n, n}
		ok = func() bool { return len(*y) == 2 && is(&(*y)[0], &(*y)[1]) }
	case 3:
		y := new([][]*N)
		doc, x, made = `[[`+v+`]]`, y, [][]*N{{&n}}
		ok = func() bool { return len(*y) == 1 && is((*y)[0]...) }
	case 4:
		y := new(map[string][]N)
		doc, x, made = `{"k":[`+v+`]}`, y, map[string][]N{"k": {n}}
		ok = func() bool { z := (*y)["k"]; return len(z) == 1 && is(&z[0]) }
	case 5:
		y := new([2]N)
		doc, x, made = `[`+v+`,`+v+`]`, y, [2]N{n, n}
		ok = func() bool { return is(&y[0], &y[1]) }
	case 6:
		y := new(namedS[N])
		doc, x, made = `{"X":`+v+`,"Y":[`+v+`],"Z":`+v+`}`, y, namedS[N]{n, []*N{&n}, n}
		ok = func() bool { return len(y.Y) == 1 && is(&y.X, y.Y[0], &y.Z) }
	case 7:
		y := new([][][]N)
		doc, x, made = `[[[`+v+`]]]`, y, [][][]N{{{n}}}
		ok = func() bool { return is(&(*y)[0][0][0]) }
	case 8:
		y := new(map[string]*[]*N)
		doc, x, made = `{"k":[`+v+`]}`, y, map[string]*[]*N{"k": {&n}}
		ok = func() bool { return is(*(*y)["k"]...) }
	case 9:
		y := new(namedR[N])
		doc, x = `{"R":{"R":null,"M":null,"X":`+v+`},"M":{"k":[{"R":null,"M":null,"X":`+v+`}]},"X":`+v+`}`, y
		made = &namedR[N]{&namedR[N]{nil, nil, n}, map[string][]namedR[N]{"k": {{nil, nil, n}}}, n}
		ok = func() bool { return is(&y.X, &y.R.X, &y.M["k"][0].X) }
	case 10:
		var i interface{} = new([]*N)
		y := i.(*[]*N)
		doc, x, made = `[`+v+`]`, &i, []interface{}{&n}
		ok = func() bool { return len(*y) == 1 && is(*y...) }
	}
	if dir == 0 {
		err := dec.Unmarshal([]byte(doc), x)
		vrt.ObserveInt("err", b2i(err != nil))
		vrt.Assert(err == nil && ok(), "a decoder of a basic type does not serve a type defined from it")
	} else {
		b, err := enc.Marshal(made)
		want := ""
		for i := 0; i < len(doc); i++ {
			if i > 0 && i+1 < len(doc) && doc[i-1] == '"' && doc[i+1] == '"' && doc[i] == c[0] && (i+2 == len(doc) || doc[i+2] != ':') {
				want += "cu"
				continue
			}
			want += doc[i : i+1]
		}
		vrt.ObserveBytes("out", b)
		vrt.Assert(err == nil && string(b) == want, "an encoder of a basic type does not serve a type defined from it")
	}
	vrt.Cover("done")
}

func H_cfgNamed() {
	sh, dir, p := param("sh"), param("dir"), param("p")
	switch param("k") {
	case 0:
		namedIn(true, nBool(true), sh, dir, p)
	case 1:
		namedIn(int(1<<40), nInt(1<<40), sh, dir, p)
	case 2:
		namedIn(int8(-3), nInt8(-3), sh, dir, p)
	case 3:
		namedIn(int16(-3), nInt16(-3), sh, dir, p)
	case 4:
		namedIn(int32(-3), nInt32(-3), sh, dir, p)
	case 5:
		namedIn(int64(-3), nInt64(-3), sh, dir, p)
	case 6:
		namedIn(uint(1<<40), nUint(1<<40), sh, dir, p)
	case 7:
		namedIn(uint8(3), nUint8(3), sh, dir, p)
	case 8:
		namedIn(uint16(3), nU16(3), sh, dir, p)
	case 9:
		namedIn(uint32(3), nU32(3), sh, dir, p)
	case 10:
		namedIn(uint64(3), nU64(3), sh, dir, p)
	case 11:
		namedIn(uintptr(3), nUptr(3), sh, dir, p)
	case 12:
		namedIn(float32(1.5), nF32(1.5), sh, dir, p)
	case 13:
		namedIn(1.5, nF64(1.5), sh, dir, p)
	case 14:
		namedIn("abc", nStr("abc"), sh, dir, p)
	}
}
