package h

import (
	"encoding/json"
	"errors"
	"math"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// parT is met for the first time by two threads at once.
type parT struct {
	A int              `json:"a"`
	B string           `json:"b"`
	C []parT           `json:"c"`
	D map[string]*parT `json:"d"`
	E interface{}      `json:"e"`
	F *parT            `json:"f"`
}

// parU has too many fields for the small struct decoder.
type parU struct {
	A, B, C, D, E, F, G, H, I, J, K int
	T                               [2]parT
	X                               parV
}

// parV's methods use the package again, with the same configs.
type parV struct {
	env *parEnv
	b   []byte
}

type parEnv struct {
	dec *jzon.DecoderConfig
	enc *jzon.EncoderConfig
	// used by both threads at once
	v  *parT
	in []byte
}

var parE *parEnv

func (v parV) MarshalJSON() ([]byte, error) {
	if v.env == nil {
		return nil, errors.New("parV")
	}
	return v.env.enc.Marshal(map[string][]parT{"k": {{A: 7}}})
}

func (v *parV) UnmarshalJSON(b []byte) error {
	var x []parT
	if err := parE.dec.Unmarshal(b, &x); err != nil {
		return err
	}
	v.b = digest(nil, x...)
	return nil
}

func newParEnv(d []byte) *parEnv {
	return &parEnv{jzon.NewDecoderConfig(nil), jzon.NewEncoderConfig(nil),
		&parT{A: int(d[0]), B: string(d), C: []parT{{B: "<"}, {}}, D: map[string]*parT{"y": {}}, E: map[string]interface{}{"a": []interface{}{nil, d}}, F: &parT{}},
		[]byte(`{"b":"\u00e9\n` + string(d) + `","D":{"x":{"b":"\t"}},"e":["\ud83d\ude00",{"a":"` + string(d) + `"}],"C":[{"A":` + string(d) + `}]}`)}
}

// digest writes a value down in a way that tells different ones apart.
func digest(b []byte, xs ...parT) []byte {
	for i := range xs {
		x := &xs[i]
		b = append(b, '(', byte(x.A>>8), byte(x.A), byte(len(x.B)))
		b = append(b, x.B...)
		b = digest(append(b, byte(len(x.C))), x.C...)
		b = append(b, byte(len(x.D)))
		for _, k := range []string{"x", "y"} {
			if v := x.D[k]; v != nil {
				b = digest(append(b, k...), *v)
			}
		}
		b = digestAny(b, x.E)
		if x.F != nil {
			b = digest(b, *x.F)
		}
		b = append(b, ')')
	}
	return b
}

func digestAny(b []byte, x interface{}) []byte {
	switch v := x.(type) {
	case nil:
		return append(b, 'n')
	case bool:
		return append(b, 'b', byte(b2i(v)))
	case float64:
		u := math.Float64bits(v)
		return append(b, 'f', byte(u>>56), byte(u>>48), byte(u>>40), byte(u))
	case string:
		return append(append(append(b, 's'), v...), 0)
	case []interface{}:
		b = append(b, 'a', byte(len(v)))
		for _, e := range v {
			b = digestAny(b, e)
		}
		return b
	case map[string]interface{}:
		b = append(b, 'o', byte(len(v)))
		for _, k := range []string{"a", "b", "c"} {
			if e, ok := v[k]; ok {
				b = digestAny(append(b, k...), e)
			}
		}
		return b
	}
	return append(b, '?')
}

// parAll has a field of every kind that has a codec of its own.
type parAll struct {
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	S   string
	B   []byte
	Z   bool `json:",omitempty"`
	N   json.Number
	R   json.RawMessage
	M   map[int16]string
	MT  map[parText]*parText
	T   parText
	Q   int8 `json:",string"`
	A   [2]parB
	P   **int
	W   interface{ M() }
	E   struct{}
	O   struct{ X []uint8 }
	L   []parB
}

// parB is no byte to be written in base64.
type parB uint8

func (b parB) MarshalJSON() ([]byte, error) { return []byte{'0' + byte(b)}, nil }

func (b *parB) UnmarshalJSON(p []byte) error { *b = parB(p[0] - '0'); return nil }

type parText string

func (t parText) MarshalText() ([]byte, error) { return []byte(t + "<"), nil }

func (t *parText) UnmarshalText(b []byte) error { *t = parText(b); return nil }

func (parText) M() {}

func digestAll(b []byte, x *parAll) []byte {
	for _, u := range []uint64{uint64(x.I8), uint64(x.I16), uint64(x.I32), uint64(x.I64), uint64(x.U8), uint64(x.U16), uint64(x.U32), x.U64, math.Float64bits(x.F64), uint64(math.Float32bits(x.F32)), uint64(x.Q)} {
		b = append(b, byte(u>>56), byte(u>>48), byte(u>>40), byte(u>>32), byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
	}
	b = append(append(append(append(b, x.S...), 0), x.B...), byte(b2i(x.Z)))
	b = append(append(append(append(b, x.N...), 0), x.R...), 0)
	b = append(append(b, x.M[1]...), 0)
	if v := x.MT["k"]; v != nil {
		b = append(append(b, *v...), 0)
	}
	b = append(append(append(b, x.T...), 0), byte(x.A[0]), byte(x.A[1]))
	if x.P != nil {
		b = append(b, byte(**x.P))
	}
	b = append(append(b, x.O.X...), byte(len(x.L)))
	for _, v := range x.L {
		b = append(b, byte(v))
	}
	return b
}

type parW struct{ b []byte }

func (w *parW) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

const parOps = 21

// parOp does one thing a user may do at any time. What it returns must not
// depend on what happens at the same time.
// The digits in its input are db.
func parOp(e *parEnv, k int, db []byte) (out []byte, failed bool) {
	d := string(db)
	var err error
	switch k {
	case 0:
		var x parT
		err = e.dec.Unmarshal([]byte(`{"a":`+d+`,"b":"\t`+d+`","c":[{"a":1},{}],"d":{"x":{"f":{"a":2}},"y":null},"e":[`+d+`]}`), &x)
		out = digest(nil, x)
	case 1:
		out, err = e.enc.Marshal(parT{A: int(db[0]), B: d, C: []parT{{}}, D: map[string]*parT{"x": {A: 1}}, E: d, F: &parT{}})
	case 2:
		var x interface{}
		err = e.dec.Unmarshal([]byte(`{"a":[[{"b":"`+d+`"}],[]],"b":{"c":[{}]}}`), &x)
		out = digestAny(nil, x)
	case 3:
		it := e.dec.NewIterator()
		out = []byte{byte(b2i(it.Valid([]byte(`[[{"a":[` + d + `]}],{"b":[[]]}]`)))), byte(b2i(it.Valid([]byte(`[[{"a":[` + d + `}]]`))))}
		it.Release()
	case 4:
		var x []parT
		err = e.dec.Unmarshal([]byte(`[{"a":`+d+`},{"f":{"b":"`+d+`"}}]`), &x)
		out = digest(nil, x...)
	case 5:
		out, err = e.enc.Marshal(map[string][]parT{"m": {{A: int(db[0])}}})
	case 6:
		var x *parT
		err = e.dec.Unmarshal([]byte(`{"a":`+d+`,"c":[{"b":}]}`), &x)
	case 7:
		out, err = e.enc.Marshal([]interface{}{parV{env: e}, d, &parT{E: d}})
	case 8:
		rd := newReader(rdOne, []byte(`{"b":"`+d+`\n"}[`+d+`,{"a":`+d+`}]`))
		dec := e.dec.NewDecoder(rd)
		var x parT
		var r json.RawMessage
		if err = dec.Decode(&x); err == nil {
			err = dec.Decode(&r)
		}
		dec.Release()
		out = append(digest(nil, x), r...)
	case 9:
		w := &parW{}
		enc := e.enc.NewEncoder(w)
		if err = enc.Encode(&parT{B: d}); err == nil {
			err = enc.Encode([]string{d, "<"})
		}
		enc.Release()
		out = w.b
	case 10:
		it := e.dec.NewIterator()
		it.ResetBytes([]byte(`[true,"` + d + `\"",[["1"]]]`))
		var x []interface{}
		err = it.ReadVal(&x)
		it.Release()
		s := e.enc.NewStreamer()
		s.ArrayStart().String(d).Value(x).Value(parT{A: 3}).ArrayEnd()
		if err == nil {
			err = s.Error
		}
		w := &parW{}
		s.Reset(w)
		s.Value(d)
		s.Flush()
		s.Release()
		out = append(digestAny(nil, x), w.b...)
	case 11:
		var x parU
		err = e.dec.Unmarshal([]byte(`{"A":`+d+`,"K":`+d+`,"T":[{"a":1},{"b":"`+d+`"}],"X":[{"a":`+d+`}],"z":[[]]}`), &x)
		out = append(digest([]byte{byte(x.A), byte(x.K)}, x.T[:]...), x.X.b...)
	case 12:
		_, err = e.enc.Marshal([]interface{}{parT{A: 1}, parV{}})
	case 13:
		out, err = e.enc.Marshal(parU{A: int(db[0]), X: parV{env: e}})
	case 14: // a value both threads have
		out, err = e.enc.Marshal(e.v)
	case 15: // bytes both threads have
		var x parT
		err = e.dec.Unmarshal(e.in, &x)
		out = digest(nil, x)
	case 16:
		var x []json.RawMessage
		err = e.dec.Unmarshal([]byte(`[[`+d+`],{"a":[`+d+`]}]`), &x)
		if len(x) == 2 {
			out = append(append(out, x[0]...), x[1]...)
		}
	case 17:
		it := e.dec.NewIterator()
		it.ResetBytes(e.in)
		err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			out = append(out, f...)
			r, err := it.SkipRaw()
			out = append(out, r...)
			return err
		})
		it.Release()
	case 18, 19:
		n := int(db[0] - '0')
		p := &n
		x := parAll{I8: -int8(n), I16: -300, I32: -int32(n), I64: -1 << 40, U8: uint8(n), U16: 300, U32: 70000, U64: 1 << 40, F32: 1.5, F64: -2.25,
			S: "\u2028" + d, B: db, Z: true, N: json.Number(d), R: json.RawMessage("[" + d + "]"), M: map[int16]string{int16(n): "<"},
			MT: map[parText]*parText{"k": nil}, T: "t", Q: int8(n), A: [2]parB{1, parB(n)}, P: &p, W: parText("w"), L: []parB{parB(n)}}
		x.O.X = db
		if k == 19 {
			x.P, x.W, x.B, x.M, x.MT = nil, nil, nil, nil, nil
			out, err = e.enc.Marshal([]*parAll{&x, nil})
		} else {
			out, err = e.enc.Marshal(x)
		}
	case 20:
		var x parAll
		err = e.dec.Unmarshal([]byte(`{"i8":-1,"I16":`+d+`,"I32":-70000,"i64":`+d+`,"U8":200,"U16":300,"U32":70000,"U64":`+d+`00,"F32":`+d+`.5,"F64":-1e2,"S":"\u00e9`+d+
			`","B":"AQID`+d+d+d+d+`","Z":true,"N":`+d+`,"R":[{"a":`+d+`}],"M":{"1":"`+d+`"},"MT":{"k":"`+d+`\n"},"T":"\t","Q":"`+d[:1]+`","A":[1,`+d+`],"P":`+d+`,"W":null,"E":{"a":1},"O":{"X":"`+d+d+d+d+`"},"L":[`+d+`,2]}`), &x)
		out = digestAll(nil, &x)
	}
	return out, err != nil
}

// parFail leaves behind what failing calls leave behind.
func parFail(e *parEnv) {
	for _, t := range []string{`[[1,]]`, `[{"a"}]`, `{"a":[}`, `{"a":{"b":[,`, `[[[]`, `[{"a":{}}`, `{"a":[[]]`} {
		var x interface{}
		vrt.Assert(e.dec.Unmarshal([]byte(t), &x) != nil, "malformed text accepted")
		var r json.RawMessage
		vrt.Assert(e.dec.Unmarshal([]byte(t), &r) != nil, "malformed text accepted")
		var p parT
		vrt.Assert(e.dec.Unmarshal([]byte(`{"z":`+t), &p) != nil, "malformed text accepted")
		dec := e.dec.NewDecoder(newReader(rdOne, []byte(t)))
		vrt.Assert(dec.Decode(&x) != nil, "malformed text accepted")
		dec.Release()
	}
	for k := 0; k < 2; k++ {
		_, err := e.enc.Marshal([]interface{}{map[string]interface{}{"a": []interface{}{parV{}}}})
		vrt.Assert(err != nil, "error of a method lost")
		enc := e.enc.NewEncoder(failW{})
		vrt.Assert(enc.Encode([]int{1}) != nil, "error of the writer lost")
		enc.Release()
	}
}

type failW struct{}

func (failW) Write(p []byte) (int, error) { return 0, errors.New("failW") }

// parIs compares with what the digits say.
func parIs(k int, out, d []byte) bool {
	n := 0
	for _, c := range d {
		n = n*10 + int(c-'0')
	}
	a, b := byte(n>>8), byte(n)
	switch k {
	case 0, 4:
		return len(out) > 2 && vrt.And(out[1] == a, out[2] == b)
	case 5:
		want := append([]byte(`{"m":[{"a":`), '0'+d[0]/10, '0'+d[0]%10)
		return len(out) > len(want) && eqB(out[:len(want)], want)
	case 11:
		return len(out) > 2 && vrt.And(out[0] == b, out[1] == b)
	}
	return true
}

// H_par: two threads use the same configs, for the first time or not.
func H_par() {
	a, b := param("a"), param("b")
	d := make([]byte, 2*param("n"))
	for i := range d {
		if i == 0 && param("x") == 1 {
			d[i] = vrt.Byte() // whatever follows may fail
			continue
		}
		d[i] = vrt.ByteIn('1', '9')
	}
	vrt.ObserveBytes("in", d)
	d1, d2 := d[:len(d)/2], d[len(d)/2:]
	parE = newParEnv(d1)
	want1, bad1 := parOp(parE, a, d1)
	parE = newParEnv(d1)
	want2, bad2 := parOp(parE, b, d2)
	parE = newParEnv(d1)
	if param("w")&2 != 0 {
		parFail(parE)
	}
	if param("w")&1 != 0 {
		// the types are known already
		parOp(parE, a, d2)
		parOp(parE, b, d1)
	}
	var got1, got2 []byte
	var f1, f2 bool
	vrt.Par(param("p"), func() {
		got1, f1 = parOp(parE, a, d1)
	}, func() {
		got2, f2 = parOp(parE, b, d2)
	})
	vrt.Cover("ran")
	if f1 {
		vrt.Cover("failed")
	}
	vrt.ObserveBytes("a", got1)
	vrt.ObserveBytes("b", got2)
	vrt.Assert(f1 == bad1 && f2 == bad2, "whether a call succeeds depends on what runs at the same time")
	vrt.Assert((param("x") == 1 || parIs(a, got1, d1)) && parIs(b, got2, d2), "what a call gives is not what its input says")
	vrt.Assert(eqB(got1, want1) && eqB(got2, want2), "what a call gives depends on what runs at the same time")
	// whatever is cached and pooled is in order
	x, f := parOp(parE, a, d1)
	vrt.Assert(f == bad1 && eqB(x, want1), "what a call gives depends on what ran at the same time before")
	x, f = parOp(parE, b, d2)
	vrt.Assert(f == bad2 && eqB(x, want2), "what a call gives depends on what ran at the same time before")
	vrt.Assert(eqB(got1, want1) && eqB(got2, want2), "what a call gave changes later")
}
func S_par() {
	parE = newParEnv([]byte("1"))
	for k := 0; k < parOps; k++ {
		parOp(parE, k, []byte("1"))
	}
}
