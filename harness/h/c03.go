package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// shapes of string literals
var strs = []string{
	/* 0*/ `"????"`,
	/* 1*/ `"\u????"`,
	/* 2*/ `"\u~~~~"`,
	/* 3*/ `"\u~~~~\u~~~~"`,
	/* 4*/ `"\ud8~~\u~~~~\ud~~~"`,
	/* 5*/ `"\ud~~~??"`,
	/* 6*/ `"\ud83d\????"`,
	/* 7*/ `"a\?b\?c\?"`,
	/* 8*/ `"` + pad(60) + `????` + pad(5) + `"`,
	/* 9*/ `"` + pad(61) + `\u~~~~\u~~~~` + pad(3) + `"`,
	/*10*/ `"` + pad(500) + `??` + pad(20) + `\?` + pad(70) + `?"`,
	/*11*/ `"\ud~~~` + pad(3) + `\ud~~~"`,
	/*12*/ `"\\\"?\/\b\f\n\r\t?"`,
	/*13*/ `"^^^^^^^^^^"`,
	/*14*/ `"` + pad(64) + `^^^^` + pad(64) + `^^^^"`,
	/*15*/ `"\uD~~~\uD~~~\uD~~~"`,
	/*16*/ `   "?"  `,
	/*17*/ `"?\u00~~?"`,
	/*18*/ `"` + pad(127) + `\?` + pad(127) + `?"`,
}

type keyed struct{ V int }

// stringAgrees reads the literal through entry point m from source kind r.
func stringAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	var (
		got   []byte
		err   error
		whole bool
		key   bool
	)
	switch m {
	case 0:
		src(it, r, b)
		var s string
		s, err = it.ReadString()
		got = []byte(s)
	case 1:
		src(it, r, b)
		got, err = it.ReadStringAsSlice()
		got = append([]byte{}, got...)
	case 2:
		src(it, r, b)
		got, err = it.ReadStringAndAppend([]byte("<>"))
		if err == nil {
			vrt.Assert(len(got) >= 2 && string(got[:2]) == "<>", "ReadStringAndAppend loses the prefix")
			got = got[2:]
		}
	case 3:
		src(it, r, b)
		var x interface{}
		x, err = it.Read()
		if s, ok := x.(string); ok && err == nil {
			got = []byte(s)
		} else {
			_, _, isStr := refString(b, skipWS(b, 0))
			vrt.Assert(!isStr, "Read does not give a string for a string")
			return
		}
	case 4:
		src(it, r, b)
		var s string
		err = it.ReadVal(&s)
		got = []byte(s)
		if err == nil && b[skipWS(b, 0)] == 'n' {
			vrt.Assert(s == "", "null changes the string")
			return
		}
	case 5:
		var s string
		err = jzon.Unmarshal(b, &s)
		got = []byte(s)
		whole = true
		if err == nil && b[skipWS(b, 0)] == 'n' {
			vrt.Assert(s == "", "null changes the string")
			return
		}
	case 6, 7, 8: // as the name of a member
		o := append(append([]byte{'{'}, b...), ":1}"...)
		src(it, r, o)
		key = true
		switch m {
		case 6:
			var s string
			var more bool
			more, s, err = it.ReadObjectBegin()
			got = []byte(s)
			if !more && err == nil {
				vrt.Assert(b[skipWS(b, 0)] == '}', "an object with a member is taken for an empty one")
				return
			}
		case 7:
			n := 0
			err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
				n++
				if n > 1 {
					vrt.Assume(false)
				}
				got = []byte(f)
				return it.Skip()
			})
			if n == 0 && err == nil {
				vrt.Assert(b[skipWS(b, 0)] == '}', "an object with a member is taken for an empty one")
				return
			}
		case 8:
			mp := map[string]int{}
			err = it.ReadVal(&mp)
			if len(mp) == 0 && err == nil {
				vrt.Assert(b[skipWS(b, 0)] == '}', "an object with a member is taken for an empty one")
				return
			}
			if len(mp) > 1 {
				vrt.Assume(false)
			}
			for k := range mp {
				got = []byte(k)
			}
		}
	case 9:
		src(it, r, b)
		err = it.SkipString()
	}
	want, j, ok := refString(b, skipWS(b, 0))
	if ok && whole {
		ok = skipWS(b, j) == len(b)
	}
	if ok && key && skipWS(b, j) != len(b) {
		vrt.Assume(false) // b itself goes on with the object
	}
	if !ok && key && m != 6 {
		// the bytes may still make up some other object
		vrt.Assume(err != nil)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "a string literal is accepted though malformed, or rejected though well-formed")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	if m != 9 {
		vrt.ObserveBytes("got", got)
		vrt.Assert(eqB(got, want), "the string read is not the one the literal denotes")
	}
	if !whole && !key && r < 0 {
		vrt.Assert(eqB(it.Buffer(), b[j:]), "the reader does not stop right behind the string")
	}
	it.Release()
}

// H_str: every literal '"' + n arbitrary bytes.
func H_str() {
	b := append([]byte{'"'}, bytesN(param("n"))...)
	stringAgrees(b, param("m"), param("r"))
}
func S_str() {
	var s string
	jzon.Unmarshal([]byte("1"), &s)
	m := map[string]int{}
	jzon.Unmarshal([]byte("1"), &m)
}

// H_strT: literals shaped like strs[t].
func H_strT() { stringAgrees(tpl(strs[param("t")]), param("m"), param("r")) }
func S_strT() { S_str() }

// H_strAny: n arbitrary bytes where a string is expected.
func H_strAny() { stringAgrees(bytesN(param("n")), param("m"), param("r")) }
func S_strAny() { S_str() }

// H_strLong: a string of length up to n with w arbitrary characters at any place
// and an escape of any kind right behind them.
func H_strLong() {
	n := param("n")
	p := vrt.Choose(n + 1)
	b := append([]byte{'"'}, pad(p)...)
	for i := 0; i < param("w"); i++ {
		b = append(b, vrt.Byte())
	}
	b = append(b, tpl(`\u~~~~?`)...)
	b = append(b, pad(n-p)...)
	b = append(b, '"')
	stringAgrees(b, param("m"), param("r"))
}
func S_strLong() { S_str() }
