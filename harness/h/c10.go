package h

import (
	"encoding/json"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// rawU keeps a copy of what UnmarshalJSON was given.
type rawU struct {
	b     []byte
	calls int
}

func (u *rawU) UnmarshalJSON(b []byte) error {
	u.calls++
	u.b = append([]byte{}, b...)
	return nil
}

type rawT struct {
	A int             `json:"a"`
	R json.RawMessage `json:"r"`
	U rawU            `json:"u"`
	B string          `json:"b"`
}

// scramble makes the iterator read other things through its buffers.
// The caller uses the input's memory for something else.
func scramble(it *jzon.Iterator, in []byte) {
	for i := 0; i < 3; i++ {
		if it.Skip() != nil {
			break
		}
	}
	for i := range in {
		in[i] = '#'
	}
	it.Reset(newReader(rdWhole, []byte(`["`+rep("Z", 300)+`\t",{"`+rep("Y", 90)+`\n":"XXXX"}]`)))
	it.Read()
	it.Reset(newReader(rdOne, []byte(`{"`+rep("W", 70)+`":[12345678,"`+rep("V", 70)+`"]}`)))
	it.SkipRaw()
}

func rawAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	in := append([]byte{}, b...)
	rd := srcR(it, r, in)
	var (
		got  []byte
		err  error
		left []byte
		lead int
	)
	switch m {
	case 0:
		got, err = it.SkipRaw()
		got = append([]byte{}, got...)
		left = rest(it, rd)
	case 1:
		room := make([]byte, 3+vrt.Choose(2)*200)
		copy(room, "pre+")
		pre := [][]byte{room[:3], room[:0], room[:0:0], nil}[vrt.Choose(4)]
		lead = len(pre)
		got, err = it.AppendRaw(pre)
		vrt.Assert(string(got[:lead]) == string("pre"[:lead]), "AppendRaw does not keep what it appends to")
		left = rest(it, rd)
	case 2:
		got, err = it.ReadRaw()
		left = rest(it, rd)
	case 3:
		var x json.RawMessage
		err = it.ReadVal(&x)
		got = x
		left = rest(it, rd)
	case 4:
		var u rawU
		err = it.ReadVal(&u)
		got = u.b
		left = rest(it, rd)
		vrt.Assert((u.calls == 1) == (err == nil) && u.calls <= 1, "UnmarshalJSON is not called once")
	case 5: // over an earlier value
		x := json.RawMessage(`"0123456789"`)
		err = it.ReadVal(&x)
		got = x
		left = rest(it, rd)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	v, j, ok := refValue(b, 0)
	vrt.Assert((err == nil) == ok, "a raw read accepts something that is not a value, or rejects one")
	if !ok {
		vrt.Cover("rejected")
		it.Release()
		return
	}
	vrt.Cover("read")
	vrt.Assert(eqB(got[lead:], b[v.beg:j]), "a raw read does not give exactly the bytes of the value")
	vrt.Assert(eqB(left, b[j:]), "a raw read does not stop right behind the value")
	scramble(it, in)
	it.Release()
	vrt.Assert(eqB(got[lead:], b[v.beg:j]), "what a raw read gave changes later")
}

func H_raw() { rawAgrees(bytesN(param("n")), param("m"), param("r")) }
func S_raw() {
	for _, x := range []interface{}{new(json.RawMessage), new(rawU), new(rawT), new([]json.RawMessage), new(map[string]json.RawMessage), new([]rawU), new(map[string]*rawU)} {
		jzon.Unmarshal([]byte("?"), x)
		jzon.Unmarshal([]byte("[]"), x)
		jzon.Unmarshal([]byte("{}"), x)
	}
}

var rawTpl = []string{
	/*0*/ `  {"a" : [#, "^?" ]} ,`,
	/*1*/ `-#?.#e+##?`,
	/*2*/ `"^\u~~~~\\?" "`,
	/*3*/ rep(" ", 61) + `[1,{"^":"?"},-##]]`,
	/*4*/ `[` + rep("[10 ,\t\"x\"],", 14) + `?,"^"],"next"`,
	/*5*/ `"` + rep("abcdefghi\\n", 58) + `^?","` + pad(30) + `"`,
	/*6*/ `{"k":"` + pad(120) + `^","l":[` + rep("123456789,", 60) + `?]}[` + rep("0,", 40) + `0]`,
	/*7*/ rep("9", 62) + `.#?5e#,`,
	/*8*/ `tru?`,
	/*9*/ ` nul?,`,
	/*10*/ `[` + rep("[", 65) + `"?"` + rep("]", 66) + `,`,
}

func H_rawT() { rawAgrees(tpl(rawTpl[param("t")]), param("m"), param("r")) }
func S_rawT() { S_raw() }

// H_rawLong: a value of about size bytes with an arbitrary byte anywhere in it.
func H_rawLong() {
	s := param("s")
	doc := `{"k":[1, "` + pad(s/3) + `\"", true ],"l":{"` + pad(s/3) + `":-1.5e3,"m":"` + pad(s/3) + `\u00e9"}}`
	p := vrt.Choose(8)
	at := []int{0, 5, len(doc) / 3, 63, 64, len(doc) - 2, len(doc) - 1, len(doc) / 2}[p]
	b := []byte(rep(" ", param("l")) + doc + `,"` + pad(40) + `"`)
	if at < len(b) {
		b[at] = vrt.Byte()
	}
	rawAgrees(b, param("m"), param("r"))
}
func S_rawLong() { S_raw() }

// rawInAgrees decodes containers of raw values.
func rawInAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	in := append([]byte{}, b...)
	srcR(it, r, in)
	v, _, ok := refValue(b, 0)
	var err error
	check := func(got []byte, e *val) {
		vrt.Assert(eqB(got, b[e.beg:e.end]), "a raw value inside a container is not exactly its bytes")
	}
	last := func(k string) *val {
		var e *val
		for i := range v.k {
			if string(v.k[i]) == k {
				e = v.e[i]
			}
		}
		return e
	}
	switch m {
	case 0:
		var x []json.RawMessage
		err = it.ReadVal(&x)
		scramble(it, in)
		if err == nil && ok && v.kind == 'a' {
			vrt.Cover("read")
			vrt.Assert(len(x) == len(v.e), "an array of raw values has another length")
			for i := range x {
				check(x[i], v.e[i])
			}
		}
	case 1:
		var x map[string]json.RawMessage
		err = it.ReadVal(&x)
		scramble(it, in)
		if err == nil && ok && v.kind == 'o' {
			vrt.Cover("read")
			for i := range v.k {
				k := string(v.k[i])
				check(x[k], last(k))
			}
		}
	case 2:
		var x rawT
		err = it.ReadVal(&x)
		scramble(it, in)
		if err == nil && ok && v.kind == 'o' {
			vrt.Cover("read")
			if e := last("r"); e != nil {
				check(x.R, e)
			}
			if e := last("u"); e != nil {
				check(x.U.b, e)
			}
			if e := last("b"); e != nil && e.kind == 's' {
				vrt.Assert(x.B == string(e.s), "a field next to a raw one is wrong")
			}
		}
	case 3:
		var x []rawU
		err = it.ReadVal(&x)
		scramble(it, in)
		if err == nil && ok && v.kind == 'a' {
			vrt.Cover("read")
			vrt.Assert(len(x) == len(v.e), "an array of raw values has another length")
			for i := range x {
				check(x[i].b, v.e[i])
			}
		}
	case 4:
		var x map[string]*rawU
		err = it.ReadVal(&x)
		scramble(it, in)
		if err == nil && ok && v.kind == 'o' {
			vrt.Cover("read")
			for i := range v.k {
				k := string(v.k[i])
				if e := last(k); e.kind != 'n' {
					check(x[k].b, e)
				}
			}
		}
	case 5:
		n := 0
		err = it.ReadArrayCB(func(it *jzon.Iterator) error {
			g, err := it.ReadRaw()
			if err == nil && ok && n < len(v.e) {
				check(g, v.e[n])
			}
			n++
			return err
		})
		if err == nil && ok {
			vrt.Cover("read")
			vrt.Assert(n == len(v.e), "an array of raw values has another length")
		}
	}
	if m != 2 {
		want := ok && (v.kind == 'n' && m != 5 || v.kind == 'a' == (m == 0 || m == 3 || m == 5) && (v.kind == 'a' || v.kind == 'o'))
		vrt.Assert((err == nil) == want, "decoding raw values accepts something else, or rejects them")
	} else if err == nil {
		vrt.Assert(ok, "decoding raw fields accepts a text that is no value")
	}
	it.Release()
}

var rawInTpl = []string{
	/*0*/ `[ #? , "^" ,[ ?],{"^":1} ]`,
	/*1*/ `{"r": [1, {"?" : null}] ,"u" : -#.?e#,"b":"^","a":1,"r":tru?}`,
	/*2*/ `["` + pad(60) + `", [` + rep("1 ,", 30) + `#],"^?",` + rep(" ", 50) + `{"x":{}}]`,
	/*3*/ `{"` + pad(50) + `":{"y" : ?},"r":"` + pad(66) + `^","u":[` + rep("true,", 20) + `#]}`,
	/*4*/ `nul?`,
	/*5*/ `{"u":{"` + pad(300) + `":[` + rep("12345,", 60) + `#?]},"b":"` + pad(60) + `^","r" : "` + pad(500) + `^"}`,
}

func H_rawIn() { rawInAgrees(tpl(rawInTpl[param("t")]), param("m"), param("r")) }
func S_rawIn() { S_raw() }
