package h

import (
	"encoding/json"
	"math"
	"strconv"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

type (
	fStruct struct {
		A int
		F float64
		G float32
		N json.Number
		B int
	}
	myFloat float64
)

// floatAgrees reads a number from b as k (0 float32, 1 float64, 2 json.Number).
// m: 0 pull API, 1 ReadVal, 2 Unmarshal, 3 element of a slice, 4 field of a struct,
// 5 value of a map, 6 quoted (json.Number only), 7 named type (float64) behind a pointer
func floatAgrees(b []byte, k, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	var (
		bits  uint64
		num   string
		err   error
		rd    *reader
		whole = true // b has to be the literal and white space
		f32   float32
		f64   float64
		n     json.Number
	)
	f32, f64, n = 7, 7, "7"
	switch m {
	case 0:
		rd = srcR(it, r, b)
		switch k {
		case 0:
			f32, err = it.ReadFloat32()
		case 1:
			f64, err = it.ReadFloat64()
		case 2:
			n, err = it.ReadNumber()
		}
		whole = false
	case 1, 2:
		var p interface{}
		switch k {
		case 0:
			p = &f32
		case 1:
			p = &f64
		case 2:
			p = &n
		}
		if m == 1 {
			rd = srcR(it, r, b)
			err = it.ReadVal(p)
			whole = false
		} else {
			err = jzon.Unmarshal(b, p)
		}
	case 3:
		doc := append(append([]byte(`[1,`), b...), `,2]`...)
		src(it, r, doc)
		switch k {
		case 0:
			x := []float32{}
			if err = it.ReadVal(&x); err == nil && len(x) == 3 {
				f32 = x[1]
			}
		case 1:
			x := [3]float64{}
			if err = it.ReadVal(&x); err == nil {
				f64 = x[1]
			}
		case 2:
			x := []json.Number{}
			if err = it.ReadVal(&x); err == nil && len(x) == 3 {
				n = x[1]
			}
		}
	case 4:
		x := fStruct{F: 7, G: 7, N: "7"}
		doc := append(append([]byte(`{"A":1,"`+"GFN"[k:k+1]+`":`), b...), `,"B":2}`...)
		src(it, r, doc)
		err = it.ReadVal(&x)
		f32, f64, n = x.G, x.F, x.N
		if _, ok := refNumber(b, skipWS(b, 0)); ok && err == nil {
			vrt.Assert(x.A == 1, "the neighbours of a number change")
		}
	case 5:
		doc := append(append([]byte(`{"a":1,"x":`), b...), `}`...)
		src(it, r, doc)
		switch k {
		case 0:
			x := map[string]float32{}
			err = it.ReadVal(&x)
			f32 = x["x"]
		case 1:
			x := map[string]float64{}
			err = it.ReadVal(&x)
			f64 = x["x"]
		case 2:
			x := map[string]json.Number{}
			err = it.ReadVal(&x)
			n = x["x"]
		}
	case 6:
		doc := append(append([]byte(`"`), b...), '"')
		src(it, r, doc)
		err = it.ReadVal(&n)
	case 7:
		x := new(myFloat)
		*x = 7
		src(it, r, b)
		err = it.ReadVal(&x)
		if x != nil {
			f64 = float64(*x)
		}
		whole = false
	}
	i := skipWS(b, 0)
	if m == 6 {
		i = 0
	}
	j, ok := refNumber(b, i)
	null := false
	if m != 0 && m != 6 {
		if e, isNull := lit(b, i, "null"); isNull {
			null, j, ok = true, e, true
		}
	}
	if k == 2 && m != 0 && m != 6 && i < len(b) && b[i] == '"' {
		return // the quoted form is m == 6
	}
	if whole {
		if m == 6 {
			ok = ok && j == len(b)
		} else {
			ok = ok && skipWS(b, j) == len(b)
		}
	}
	if !ok && m >= 3 && m <= 6 {
		// b may hold text that changes the structure of what is around it
		for _, c := range b {
			if c == ',' || c == '}' || c == ']' || c == '"' || c == '\\' {
				return
			}
		}
	}
	var want uint64
	if ok && !null {
		if k < 2 {
			bs := 32 + 32*k
			w, e := strconv.ParseFloat(string(b[i:j]), bs)
			ok = e == nil
			if k == 0 {
				want = uint64(math.Float32bits(float32(w)))
			} else {
				want = math.Float64bits(w)
			}
		}
	}
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "a number is accepted though malformed or out of range, or rejected though it is fine")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	if rd != nil || m < 2 && r < 0 {
		vrt.Assert(eqB(rest(it, rd), b[j:]), "the reader does not stop right behind the number")
	}
	if null {
		vrt.Cover("null")
		if m == 3 || m == 5 {
			return
		}
		if m == 7 {
			return
		}
		vrt.Assert(k != 0 || f32 == 7, "null changes the float32")
		vrt.Assert(k != 1 || f64 == 7, "null changes the float64")
		vrt.Assert(k != 2 || n == "7", "null changes the number")
		return
	}
	vrt.Cover("read")
	switch k {
	case 0:
		bits = uint64(math.Float32bits(f32))
	case 1:
		bits = math.Float64bits(f64)
	case 2:
		num = string(n)
	}
	if k < 2 {
		vrt.Assert(bits == want, "the float read is not the value of the literal")
	} else {
		vrt.Assert(num == string(b[i:j]), "the number read is not the literal")
	}
	it.Release()
}

// H_float: every text of n bytes.
func H_float() { floatAgrees(bytesN(param("n")), param("k"), param("m"), param("r")) }
func S_float() {
	b := []byte("1")
	var (
		f32 float32
		f64 float64
		n   json.Number
		a   []float32
		c   [3]float64
		d   []json.Number
		e   map[string]float32
		f   map[string]float64
		g   map[string]json.Number
		x   fStruct
		y   *myFloat
	)
	for _, p := range []interface{}{&f32, &f64, &n, &a, &c, &d, &e, &f, &g, &x, &y} {
		jzon.Unmarshal(b, p)
	}
}

// number literals with arbitrary bytes
var numTpl = []string{
	/* 0*/ `#`,
	/* 1*/ `?#?`,
	/* 2*/ `-0?#`,
	/* 3*/ `#?#?#`,
	/* 4*/ `###.##?`,
	/* 5*/ `-#.#e?#`,
	/* 6*/ `#.##E-#?`,
	/* 7*/ `1e##?`,
	/* 8*/ `#e+###`,
	/* 9*/ `-####################?`,
	/*10*/ `0.00000##############?`,
	/*11*/ `3.4028234#E38`,
	/*12*/ `1.797693134862315#e308`,
	/*13*/ `4.9#e-324`,
	/*14*/ `340282356779733661637539395458142568447.###`,
	/*15*/ `123456789012345678901234567890123456789012345678901234567890123?#?##`,
	/*16*/ `0.1234567890123456789012345678901234567890123456789012345678901?#?##`,
	/*17*/ `1234567890123456789012345678901234567890123456789012345678901e?#?##`,
	/*18*/ ` ?0.?5`,
	/*19*/ `null?`,
	/*20*/ `16777217.000000000#`,
	/*21*/ `.#`,
	/*22*/ `+#`,
	/*23*/ `1.#e#.#`,
	/*24*/ `--#`,
	/*25*/ `-?#e#`,
	/*26*/ `0#`,
	/*27*/ `##e##?##`,
	/*28*/ `9007199254740993.000000000#`,
	/*29*/ "1.00000000000000011102230246251565404236316680908203125#", // halfway between float64s
	/*30*/ "1.0000001788139343261718749#", // below the middle of float32s, at it for float64
	/*31*/ "9007199254740993.000000000000000000000000000000000000#",
	/*32*/ "3.40282356779733661637539395458142568447999#e38",
	/*33*/ "2.4703282292062327208299439634110864561#e-324",
}

// H_floatT: texts shaped like numTpl[t].
func H_floatT() { floatAgrees(tpl(numTpl[param("t")]), param("k"), param("m"), param("r")) }
func S_floatT() { S_float() }

// H_floatTail: a number far behind other text, so that the buffer of a reader ends inside it.
func H_floatTail() {
	b := append([]byte(rep(" ", vrt.Choose(param("n")))), tpl("-#.##e-#,?")...)
	floatAgrees(b, param("k"), param("m"), param("r"))
}
func S_floatTail() { S_float() }
