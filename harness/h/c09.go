package h

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// eqAny compares two decoded values.
func eqAny(x, y interface{}) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case string:
		b, ok := y.(string)
		return ok && a == b
	case json.Number:
		b, ok := y.(json.Number)
		return ok && a == b
	case float64:
		b, ok := y.(float64)
		return ok && math.Float64bits(a) == math.Float64bits(b)
	case []interface{}:
		b, ok := y.([]interface{})
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		for i := range a {
			if !eqAny(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := y.(map[string]interface{})
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !eqAny(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

type streamS struct {
	A int               `json:"a"`
	B string            `json:"b"`
	C []bool            `json:"c"`
	D *streamS          `json:"d"`
	E map[string]string `json:"e"`
	F float32           `json:"f"`
	R json.RawMessage   `json:"r"`
	U uint8             `json:"u,string"`
}

func eqStreamS(x, y *streamS) bool {
	if x == nil || y == nil {
		return x == y
	}
	if x.A != y.A || x.B != y.B || len(x.C) != len(y.C) || len(x.E) != len(y.E) || math.Float32bits(x.F) != math.Float32bits(y.F) || string(x.R) != string(y.R) || x.U != y.U {
		return false
	}
	for i := range x.C {
		if x.C[i] != y.C[i] {
			return false
		}
	}
	for k, v := range x.E {
		if y.E[k] != v {
			return false
		}
	}
	return eqStreamS(x.D, y.D)
}

// outcome of one read
type outcome struct {
	x    interface{}
	b    []byte
	n    int64
	s    *streamS
	ok   bool
	err  error
	rest []byte
}

const streamOps = 20

// streamOp does read m on the iterator.
func streamOp(it *jzon.Iterator, m int) (o outcome) {
	switch m {
	case 0:
		o.x, o.err = it.Read()
	case 1:
		o.err = it.Skip()
	case 2:
		var s streamS
		o.err = it.ReadVal(&s)
		o.s = &s
	case 3:
		var a []int16
		o.err = it.ReadVal(&a)
		for _, v := range a {
			o.b = append(o.b, byte(v>>8), byte(v))
		}
	case 4:
		var s string
		s, o.err = it.ReadString()
		o.b = []byte(s)
	case 5:
		o.n, o.err = it.ReadInt64()
	case 6:
		var f float64
		f, o.err = it.ReadFloat64()
		o.n = int64(math.Float64bits(f))
	case 7:
		var n json.Number
		n, o.err = it.ReadNumber()
		o.b = []byte(n)
	case 8:
		o.err = it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
			o.b = append(append(o.b, field...), 0)
			r, err := it.SkipRaw()
			o.b = append(append(o.b, r...), 0)
			return err
		})
	case 9:
		var vt jzon.ValueType
		vt, o.err = it.NextValueType()
		o.n = int64(vt)
	case 10:
		var r []byte
		r, o.err = it.SkipRaw()
		o.b = append([]byte{}, r...)
	case 11:
		o.ok, o.err = it.ReadBool()
	case 12:
		o.err = it.ReadNull()
	case 13:
		var m map[string]int8
		o.err = it.ReadVal(&m)
		if o.err == nil {
			o.x = map[string]interface{}{}
			for k, v := range m {
				o.x.(map[string]interface{})[k] = string([]byte{byte(v)})
			}
		}
	case 14:
		var f float32
		f, o.err = it.ReadFloat32()
		o.n = int64(math.Float32bits(f))
	case 15:
		var more bool
		for more, o.err = it.ReadArrayBegin(); more && o.err == nil; more, o.err = it.ReadArrayMore() {
			var u uint16
			if u, o.err = it.ReadUint16(); o.err != nil {
				break
			}
			o.b = append(o.b, byte(u>>8), byte(u))
		}
	case 16:
		o.b, o.err = it.ReadStringAsSlice()
		o.b = append([]byte{}, o.b...)
	case 17:
		var more bool
		var f string
		for more, f, o.err = it.ReadObjectBegin(); more && o.err == nil; more, f, o.err = it.ReadObjectMore() {
			o.b = append(append(o.b, f...), 0)
			if o.err = it.Skip(); o.err != nil {
				break
			}
		}
	case 18:
		var by []byte
		o.err = it.ReadVal(&by)
		o.b = by
	case 19:
		var a [2]*string
		o.err = it.ReadVal(&a)
		for _, s := range a {
			if s != nil {
				o.b = append(append(o.b, *s...), 0)
			}
		}
	}
	return o
}

func sameOutcome(p, q *outcome) bool {
	return eqAny(p.x, q.x) && eqB(p.b, q.b) && p.n == q.n && p.ok == q.ok && eqStreamS(p.s, q.s)
}

// streamAgrees reads b at once and through a reader: nothing differs.
func streamAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	it.ResetBytes(b)
	p := streamOp(it, m)
	p.rest = rest(it, nil)
	it.Release()
	it = jzon.NewIterator()
	rd := srcR(it, r, b)
	q := streamOp(it, m)
	q.rest = rest(it, rd)
	it.Release()
	vrt.ObserveInt("err", b2i(p.err != nil))
	vrt.Assert((p.err == nil) == (q.err == nil), "whether a read succeeds depends on how the bytes arrive")
	if p.err != nil {
		vrt.Cover("rejected")
		vrt.Assert(reflect.TypeOf(p.err) == reflect.TypeOf(q.err), "the kind of error depends on how the bytes arrive")
		vrt.Assert((p.err == io.EOF) == (q.err == io.EOF), "whether the end of the input is reported depends on how the bytes arrive")
		return
	}
	vrt.Cover("read")
	vrt.Assert(sameOutcome(&p, &q), "what is read depends on how the bytes arrive")
	vrt.Assert(eqB(p.rest, q.rest), "where a read stops depends on how the bytes arrive")
}

func H_stream() { streamAgrees(bytesN(param("n")), param("m"), param("r")) }
func S_stream() {
	it := jzon.NewIterator()
	for m := 0; m < streamOps; m++ {
		it.ResetBytes([]byte(`?`))
		streamOp(it, m)
		it.ResetBytes([]byte(`{"d":{},"e":{"a":"b"}}`))
		streamOp(it, m)
	}
	it.Release()
}

var streamTpl = []string{
	/*0*/ ` {"a":-#?,"b":"^?^","c":[true,?alse],"d":{"a":##}}#`,
	/*1*/ `{"e":{"^":"\u~~~~","?":""},"f":#.#e#,"x":[?]} `,
	/*2*/ `[#,-##,?###,0] ?`,
	/*3*/ `"^\n\ud83d\ude~~?"?`,
	/*4*/ `-#######?####.`,
	/*5*/ `-#.##?e-#`,
	/*6*/ ` fals? `,
	/*7*/ `nul?true`,
	/*8*/ `{"k1":##,"k^":-#?,"k3":[]}`,
	/*9*/ `{"r":[{"?":1},"]^"],"u":"#?#"}`,
	/*10*/ `"AAEC/~?="?`,
	/*11*/ `[ "a^" , null , "?"]`,
	/*12*/ `[[[{"^":[]}]]]?`,
	/*13*/ `"` + pad(60) + `\"^?` + pad(66) + `"1`,
	/*14*/ `{"` + pad(62) + `^":"` + pad(60) + `\t?","b":"` + pad(70) + `^"}`,
	/*15*/ ` ` + rep(" ", 62) + `[` + rep("1,", 40) + `#,?` + rep(",22", 20) + `]`,
	/*16*/ `{"r":"` + pad(70) + `^","b":"x","r":[` + rep("11,", 30) + `?]}1`,
	/*17*/ `[ #,##,?###,0] ?`,
	/*18*/ `-#.##e##`,
	/*19*/ `[true,null,"^",-##e-##`,
	/*20*/ `{"^":##.##E+##`,
}

// H_streamT: texts shaped like a template.
func H_streamT() { streamAgrees(tpl(streamTpl[param("t")]), param("m"), param("r")) }
func S_streamT() { S_stream() }

// H_streamW: a document with arbitrary bytes in it at any position.
func H_streamW() {
	streamAgrees(splice(bigDocs[param("t")], param("w"), param("x")), param("m"), param("r"))
}
func S_streamW() { S_stream() }

// H_streamB: a token at any distance from the ends of the reader's buffer of 64 and 512 bytes.
func H_streamB() {
	toks := []string{`"^\u~~~~"`, `-##.#e+#`, `true`, `null`, `{"^":#}`, `[?]`, `"\ud83d\ude00^"`, `###`, `false?`, `"^"`}
	tok := tpl(toks[param("t")])
	size := param("s")
	p := vrt.Choose(len(tok) + 3)
	lead := size - p - 4 // the text begins with [" and the token is preceded by ",
	if lead < 0 {
		lead = 0
	}
	b := append([]byte(`["`+rep("x", lead)+`",`), tok...)
	b = append(b, ` , 1]2`...)
	streamAgrees(b, param("m"), param("r"))
}
func S_streamB() { S_stream() }

// ---- reader failures ----

// H_streamFail: the reader fails behind any prefix of the text.
func H_streamFail() {
	t := tpl(streamTpl[param("t")])
	k := vrt.Choose(len(t) + 1)
	streamFails(t[:k], param("m"), param("r"))
}
func S_streamFail() { S_stream() }

func H_streamFailN() { streamFails(bytesN(param("n")), param("m"), param("r")) }
func S_streamFailN() { S_stream() }

// the errors a reader may fail with
var failErrs = []error{errBroken, io.ErrUnexpectedEOF, io.ErrNoProgress, &brokenErr{}}

type brokenErr struct{ n int }

func (*brokenErr) Error() string { return "EOF" }

func streamFails(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	it.ResetBytes(b)
	p := streamOp(it, m)
	p.rest = rest(it, nil)
	it.Release()
	it = jzon.NewIterator()
	rd := newReader(r, b)
	broken := failErrs[param("f")]
	rd.fail = broken
	rd.eofIn = false
	it.Reset(rd)
	q := streamOp(it, m)
	q.rest = rest(it, rd)
	it.Release()
	vrt.ObserveInt("err", b2i(q.err != nil))
	if q.err == nil {
		vrt.Cover("read")
		vrt.Assert(p.err == nil, "a read succeeds although the reader failed inside the value")
		vrt.Assert(sameOutcome(&p, &q), "what is read before the reader failed is wrong")
		vrt.Assert(eqB(p.rest, q.rest), "where a read stops before the reader failed is wrong")
		return
	}
	if p.err == nil {
		vrt.Cover("broken")
		vrt.Assert(q.err == broken, "the reader's error is not reported")
		vrt.Assert(len(p.rest) == 0, "a value is not read although all of it has arrived")
		return
	}
	if p.err == io.EOF {
		vrt.Cover("broken")
		vrt.Assert(q.err == broken, "the reader's error is not reported")
		return
	}
	vrt.Assert(q.err != io.EOF, "the end of the input is reported although the reader failed")
}

// ---- Decoder ----

// decAgrees decodes the stream value by value.
func decAgrees(b []byte, r, typ, mo int) {
	vrt.ObserveBytes("in", b)
	rd := newReader(r, b)
	d := jzon.NewDecoder(rd)
	if typ == 1 {
		d.UseNumber()
	}
	pos := 0
	at := func(msg string) {
		off := int(d.InputOffset())
		vrt.Assert(off >= pos && off <= len(b), "InputOffset is before the end of the last value or behind the input")
		for i := pos; i < off; i++ {
			vrt.Assert(isWS(b[i]), "InputOffset is behind something that has not been decoded")
		}
		buf := make([]byte, len(b)+8)
		br := d.Buffered()
		n := 0
		for {
			k, err := br.Read(buf[n:])
			n += k
			if err != nil {
				break
			}
		}
		vrt.Assert(off+n == rd.pos, "Buffered does not hold what was read and not decoded")
		vrt.Assert(eqB(buf[:n], b[off:off+n]), msg)
	}
	for i := 0; i <= len(b)+1; i++ {
		if mo == 1 || mo == 2 && vrt.Choose(2) == 1 || mo == 3 && i%2 == 1 {
			more := d.More()
			vrt.Assert(more == (skipWS(b, pos) < len(b)), "More does not tell whether anything is left")
			at("Buffered does not hold the bytes behind InputOffset after More")
		}
		v, j, ok := refValue(b, pos)
		if ok && (typ == 0 || typ == 3 && i%2 == 1) {
			ok = inRange(v)
		}
		var x interface{}
		var raw json.RawMessage
		var err error
		asRaw := typ == 2 || typ == 3 && i%2 == 0
		if asRaw {
			err = d.Decode(&raw)
		} else {
			err = d.Decode(&x)
		}
		vrt.Assert((err == nil) == ok, "Decode does not give the values in the stream")
		if !ok {
			if skipWS(b, pos) == len(b) {
				vrt.Assert(err == io.EOF, "the end of the stream is not reported as io.EOF")
				vrt.Cover("end")
			}
			vrt.Assert(!d.More(), "More reports a value after an error")
			var y interface{}
			vrt.Assert(d.Decode(&y) == err && y == nil, "an error of Decode does not stay")
			break
		}
		vrt.Cover("decoded")
		if asRaw {
			vrt.Assert(eqB(raw, b[skipWS(b, pos):j]), "Decode gives another raw value than the stream holds")
		} else {
			vrt.Assert(eqVal(x, v, typ == 1), "Decode gives another value than the stream holds")
		}
		vrt.Assert(d.InputOffset() == int64(j), "InputOffset is not right behind the value")
		pos = j
		at("Buffered does not hold the bytes behind the value")
	}
	d.Release()
}

func H_dec() { decAgrees(bytesN(param("n")), param("r"), param("typ"), param("mo")) }
func S_dec() { S_generic() }

var decTpl = []string{
	/*0*/ `#_#_"^" [#]{"^":#}?`,
	/*1*/ ` true_null_-#.5_"\u~~~~" `,
	/*2*/ `[1,2]{"a":"` + pad(64) + `"}_## ?`,
	/*3*/ `#` + rep(" ", 70) + `"^"` + rep("\n", 10) + `[?]`,
	/*4*/ `{}[]""##?[]`,
	/*5*/ `{"a":#,"b":[null,"^"]} {"a":#}_`,
	/*6*/ `["` + pad(150) + `^"]_## ?{"a":"` + pad(400) + `^"}#`,
	/*7*/ `[` + rep("11,", 60) + `#]` + rep(" ", 80) + `[` + rep("22,", 60) + `#]_?`,
}

func H_decT() { decAgrees(tpl(decTpl[param("t")]), param("r"), param("typ"), param("mo")) }
func S_decT() { S_generic() }

// H_decMany: n documents in one stream, arbitrary bytes among the first and last of them.
func H_decMany() {
	s := `#?`
	for i := 0; i < param("n"); i++ {
		s += []string{" 12", `"abc"`, "[1,2]", `{"a":[]}`, "null\n"}[i%5]
	}
	s += `?#?`
	decAgrees(tpl(s), param("r"), param("typ"), param("mo"))
}
func S_decMany() { S_generic() }

// H_decFail: the reader of a Decoder fails behind any prefix of the text.
func H_decFail() {
	t := tpl(decTpl[param("t")])
	b := t[:vrt.Choose(len(t)+1)]
	vrt.ObserveBytes("in", b)
	rd := newReader(param("r"), b)
	broken := failErrs[param("f")]
	rd.fail = broken
	rd.eofIn = false
	d := jzon.NewDecoder(rd)
	pos := 0
	for i := 0; i <= len(b)+1; i++ {
		if param("mo") == 1 || param("mo") == 2 && i%2 == 1 {
			left := skipWS(b, pos) < len(b)
			vrt.Assert(d.More() == left, "More does not tell whether anything is left before the reader fails")
		}
		v, j, ok := refValue(b, pos)
		if ok && v.kind == '0' && j == len(b) {
			ok = false // more digits could have come
		}
		var raw json.RawMessage
		var err error
		var x interface{}
		if param("typ") == 0 {
			if ok && !inRange(v) {
				ok = false
			}
			err = d.Decode(&x)
		} else {
			err = d.Decode(&raw)
		}
		vrt.Assert((err == nil) == ok, "Decode does not give the values that arrived before the reader failed")
		if !ok {
			vrt.Assert(err != io.EOF, "the end of the stream is reported although the reader failed")
			if skipWS(b, pos) == len(b) {
				vrt.Assert(err == broken, "the error of the reader is not reported")
				vrt.Cover("broken")
			}
			vrt.Assert(!d.More(), "More reports a value after an error")
			var y interface{}
			vrt.Assert(d.Decode(&y) == err && y == nil, "an error of Decode does not stay")
			break
		}
		vrt.Cover("decoded")
		if param("typ") == 0 {
			vrt.Assert(eqVal(x, v, false), "Decode gives another value than the stream holds")
		} else {
			vrt.Assert(eqB(raw, b[skipWS(b, pos):j]), "Decode gives another raw value than the stream holds")
		}
		vrt.Assert(d.InputOffset() == int64(j), "InputOffset is not right behind the value")
		pos = j
	}
	d.Release()
}
func S_decFail() { S_generic() }

// H_stdReader: the readers of the standard library, some of them read in part before.
func H_stdReader() {
	l := param("l")
	b := tpl([]string{`#?`, `"^?"_#`, `[#,"^"]?{"a":?}`, `nul?[]`}[param("t")])
	if l > 0 {
		b = append(append([]byte(`["`+rep("x", l)+`"] `), b...), ` "`+rep("y", l)+`" `...)
	}
	vrt.ObserveBytes("in", b)
	used := vrt.Choose(3)
	in := append([]byte("[?}")[:used], b...)
	if param("e") == 2 && used > 0 {
		return
	}
	skip := make([]byte, used)
	var rd io.Reader
	switch param("q") {
	case 0:
		rd = bytes.NewBuffer(in)
	case 1:
		rd = bytes.NewReader(in)
	case 2:
		rd = strings.NewReader(string(in))
	case 3:
		rd = io.MultiReader(bytes.NewReader(in[:len(in)/2]), bytes.NewBuffer(in[len(in)/2:]))
	case 4:
		rd = io.LimitReader(strings.NewReader(string(in)+`"more"`), int64(len(in)))
	}
	if used > 0 {
		n, err := io.ReadFull(rd, skip)
		if n != used || err != nil {
			return
		}
	}
	raws := param("m") == 1
	var d *jzon.Decoder
	var it *jzon.Iterator
	switch param("e") {
	case 0:
		d = jzon.NewDecoder(rd)
	case 1:
		it = jzon.NewIterator()
		it.Reset(rd)
	case 2:
		var x interface{}
		err := jzon.UnmarshalFromReader(rd, &x)
		v, ok := refDoc(b)
		ok = ok && inRange(v)
		vrt.Assert((err == nil) == ok, "UnmarshalFromReader accepts something else than the text that is left")
		if ok {
			vrt.Assert(eqVal(x, v, false), "UnmarshalFromReader gives another value than the reader holds")
		}
		return
	}
	pos := 0
	for i := 0; i < len(b)+2; i++ {
		v, j, ok := refValue(b, pos)
		var x interface{}
		var raw json.RawMessage
		var err error
		switch {
		case raws && d != nil:
			err = d.Decode(&raw)
		case raws:
			raw, err = it.ReadRaw()
		case d != nil:
			err = d.Decode(&x)
		default:
			x, err = it.Read()
		}
		if ok && !raws {
			ok = inRange(v)
		}
		vrt.Assert((err == nil) == ok, "reading gives other values than the reader holds")
		if !ok {
			if skipWS(b, pos) == len(b) {
				vrt.Cover("end")
				vrt.Assert(err == io.EOF, "the end of the reader is not reported as io.EOF")
			}
			break
		}
		vrt.Cover("decoded")
		if raws {
			vrt.Assert(eqB(raw, b[skipWS(b, pos):j]), "a raw read gives other bytes than the reader holds")
		} else {
			vrt.Assert(eqVal(x, v, false), "reading gives another value than the reader holds")
		}
		if d != nil {
			vrt.Assert(d.InputOffset() == int64(j), "InputOffset is not right behind the value")
		}
		pos = j
	}
}
func S_stdReader() { S_generic() }
