package h

import (
	"encoding/json"
	"math"
	"strconv"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// inRange tells whether every number of the value fits a float64.
func inRange(v *val) bool {
	if v.kind == '0' {
		_, err := strconv.ParseFloat(string(v.s), 64)
		return err == nil
	}
	for _, e := range v.e {
		if !inRange(e) {
			return false
		}
	}
	return true
}

// eqVal tells whether x is what the text's value denotes: nil, bool, string,
// float64 (or the literal as json.Number), []interface{} and
// map[string]interface{}, the last of equal keys winning.
func eqVal(x interface{}, v *val, num bool) bool {
	switch v.kind {
	case 'n':
		return x == nil
	case 't', 'f':
		b, ok := x.(bool)
		return ok && b == (v.kind == 't')
	case 's':
		s, ok := x.(string)
		return ok && s == string(v.s)
	case '0':
		if num {
			n, ok := x.(json.Number)
			return ok && string(n) == string(v.s)
		}
		f, ok := x.(float64)
		w, _ := strconv.ParseFloat(string(v.s), 64)
		return ok && math.Float64bits(f) == math.Float64bits(w)
	case 'a':
		a, ok := x.([]interface{})
		if !ok || a == nil || len(a) != len(v.e) {
			return false
		}
		for i := range a {
			if !eqVal(a[i], v.e[i], num) {
				return false
			}
		}
		return true
	}
	m, ok := x.(map[string]interface{})
	if !ok || m == nil {
		return false
	}
	n := 0
	for i := range v.k {
		last := true
		for j := i + 1; j < len(v.k); j++ {
			if string(v.k[j]) == string(v.k[i]) {
				last = false
			}
		}
		if !last {
			continue
		}
		n++
		e, ok := m[string(v.k[i])]
		if !ok || !eqVal(e, v.e[i], num) {
			return false
		}
	}
	return n == len(m)
}

var (
	numCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})
)

// genericAgrees decodes b without a target type through entry point m.
func genericAgrees(b []byte, m int) {
	vrt.ObserveBytes("in", b)
	var (
		x    interface{}
		err  error
		num  bool
		left []byte
		all  = true // the whole text must be one value
	)
	switch m {
	case 0, 1: // pull API
		c := jzon.DefaultDecoderConfig
		if m == 1 {
			c, num = numCfg, true
		}
		it := c.NewIterator()
		it.ResetBytes(b)
		x, err = it.Read()
		left = append(left, it.Buffer()...)
		all = false
		it.Release()
	case 2:
		err = jzon.Unmarshal(b, &x)
	case 3:
		num = true
		err = numCfg.Unmarshal(b, &x)
	case 4:
		num = true
		d := jzon.NewDecoder(newReader(rdOne, b))
		d.UseNumber()
		err = d.Decode(&x)
		all = false
		d.Release()
	case 5:
		err = jzon.UnmarshalFromString(string(b), &x)
	case 6:
		err = jzon.UnmarshalFromReader(newReader(rdWhole, b), &x)
	case 7: // a previous value in the interface does not matter
		x = "previous"
		err = jzon.Unmarshal(b, &x)
	case 8: // typed containers of interface{}
		s := []interface{}{}
		it := jzon.NewIterator()
		err = it.Unmarshal(b, &s)
		it.Release()
		x = s
	case 9:
		s := map[string]interface{}{}
		err = jzon.Unmarshal(b, &s)
		x = s
	}
	vrt.ObserveInt("err", b2i(err != nil))
	v, j, ok := refValue(b, 0)
	if ok && all {
		ok = skipWS(b, j) == len(b)
	}
	if ok && m == 8 {
		ok = v.kind == 'a' || v.kind == 'n'
	}
	if ok && m == 9 {
		ok = v.kind == 'o' || v.kind == 'n'
	}
	if ok && !num {
		ok = inRange(v)
	}
	vrt.Assert((err == nil) == ok, "decoding without a type accepts something that is not a value, or rejects one")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("decoded")
	if m >= 8 && v.kind == 'n' {
		if m == 8 {
			vrt.Assert(x.([]interface{}) == nil, "null does not give a nil slice")
		} else {
			vrt.Assert(x.(map[string]interface{}) == nil, "null does not give a nil map")
		}
		return
	}
	vrt.Assert(eqVal(x, v, num), "decoding without a type gives another value than the text denotes")
	if m < 2 {
		vrt.Assert(eqB(left, b[j:]), "Read does not stop right behind the value")
	}
}

// H_generic: every text of n bytes, entry point m.
func H_generic() { genericAgrees(bytesN(param("n")), param("m")) }
func S_generic() {
	var x interface{}
	jzon.Unmarshal([]byte("1"), &x)
	var s []interface{}
	jzon.Unmarshal([]byte("1"), &s)
	var o map[string]interface{}
	jzon.Unmarshal([]byte("1"), &o)
	numCfg.Unmarshal([]byte("1"), &x)
}

func H_genericT() { genericAgrees(tpl(docs[param("t")]), param("m")) }
func S_genericT() { S_generic() }

func H_genericW() { genericAgrees(splice(bigDocs[param("t")], param("w"), param("x")), param("m")) }
func S_genericW() { S_generic() }

// H_genericDeep: nesting of depth d in both kinds of container.
func H_genericDeep() {
	genericAgrees(nest(param("d"), vrt.Param("pat"), param("w"), true, `0`), param("m"))
}
func S_genericDeep() { S_generic() }

// H_genericWide: an array and an object of n members, among containers.
func H_genericWide() {
	n := param("n")
	s := `[[],`
	for i := 0; i < n; i++ {
		s += strconv.Itoa(i%10) + `,`
	}
	s += `{"x":[],`
	for i := 0; i < n; i++ {
		s += `"k` + strconv.Itoa(i) + `":` + strconv.Itoa(i%7) + `,`
	}
	s += `"?":?}?]`
	genericAgrees(tpl(s), param("m"))
}
func S_genericWide() { S_generic() }

// H_genericGen: every document of at most n values, with repeated member names.
func H_genericGen() { genericAgrees(genDoc(param("n")), param("m")) }
func S_genericGen() { S_generic() }
