package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

func validAgrees(b []byte) {
	vrt.ObserveBytes("in", b)
	got := jzon.Valid(b)
	_, want := refDoc(b)
	vrt.ObserveInt("ok", b2i(got))
	if want {
		vrt.Cover("valid")
	} else {
		vrt.Cover("invalid")
	}
	vrt.Assert(got == want, "Valid disagrees with RFC 8259")
}

// H_valid: Valid accepts exactly the JSON texts, for every text of n bytes.
func H_valid() { validAgrees(bytesN(param("n"))) }

// the texts around which the longer checks vary bytes
var docs = []string{
	/* 0*/ `???null????`,
	/* 1*/ `[true,?alse?]`,
	/* 2*/ `{"a":1,"b":[2,{"c":???}]}`,
	/* 3*/ `"\u????\u????"`,
	/* 4*/ `-1?.?e??5`,
	/* 5*/ `[[1,?],{"?":{}}?]`,
	/* 6*/ `{"k":{"x":[]},"?"?"v"?}`,
	/* 7*/ `[0???,1.5E?7]`,
	/* 8*/ `{"a":{"b":{"c":?}?}?}?`,
	/* 9*/ `[[[[?]?]?]?]`,
	/*10*/ `{"a?` + "`" + `":?"?"}  ?`,
	/*11*/ `"??\??\u00??"`,
	/*12*/ `[{"a":[1,2,3,{"b":"c"}],"d":{}},-0.0e-0,?,"?"]`,
	/*13*/ `[1,2,3?4,5?6]`,
	/*14*/ `{"a":null,"b":true?"c":false?"d":"?"}`,
	/*15*/ `{"a":[],"b":{}?"c":[{}]?[}`,
	/*16*/ `[false,nul?,tr?e,[null,f?lse],{"":tru?}]`,
	/*17*/ `  ?1234567890123456789012345678901234567890?0?1  `,
}

// H_validT: the same for texts shaped like docs[t].
func H_validT() { validAgrees(tpl(docs[param("t")])) }

// skipAgrees: Skip and its relatives consume exactly the next value.
func skipAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	rd := srcR(it, r, b)
	var err error
	var raw []byte
	switch m {
	case 0:
		err = it.Skip()
	case 1:
		err = it.SkipArray()
	case 2:
		err = it.SkipObject()
	case 3:
		err = it.SkipNumber()
	case 4:
		err = it.SkipString()
	case 5:
		raw, err = it.SkipRaw()
	case 6:
		raw, err = it.ReadRaw()
	case 7:
		raw, err = it.AppendRaw([]byte("xy"))
	}
	v, j, ok := refValue(b, 0)
	if ok && m > 0 && m < 5 {
		ok = v.kind == " ao0s"[m]
	}
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "Skip accepts something that is not a value of its kind, or rejects one that is")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("skipped")
	vrt.Assert(eqB(rest(it, rd), b[j:]), "Skip does not stop right behind the value")
	if m == 5 || m == 6 {
		vrt.Assert(eqB(raw, b[v.beg:v.end]), "the raw value is not the text of the value")
	}
	if m == 7 {
		vrt.Assert(eqB(raw, append([]byte("xy"), b[v.beg:v.end]...)), "AppendRaw is not the prefix and the text of the value")
	}
	it.Release()
}

// H_skip: for every text of n bytes and every member m of the Skip family.
func H_skip() { skipAgrees(bytesN(param("n")), param("m"), param("r")) }

// H_skipT: for texts shaped like docs[t].
func H_skipT() { skipAgrees(tpl(docs[param("t")]), param("m"), param("r")) }

// nest builds a text nested d deep whose openers are given by the bits of the
// pattern (repeated) and whose closers are symbolic.
func nest(d int, pat int64, width int, closers bool, leaf string) []byte {
	var b []byte
	open := make([]bool, d) // array?
	for i := 0; i < d; i++ {
		arr := pat>>(uint(i)%uint(width))&1 == 1
		open[i] = arr
		if arr {
			b = append(b, '[')
		} else {
			b = append(b, `{"":`...)
		}
	}
	b = append(b, tpl(leaf)...)
	for i := d - 1; i >= 0; i-- {
		if closers {
			b = append(b, vrt.IteU8(vrt.Bool(), ']', '}'))
		} else if open[i] {
			b = append(b, ']')
		} else {
			b = append(b, '}')
		}
	}
	return b
}

// H_deep: nesting of depth d with opener pattern pat, every closer free to be ] or }.
func H_deep() {
	b := nest(param("d"), vrt.Param("pat"), param("w"), true, `0`)
	validAgrees(b)
}

// H_deepMid: nesting of depth d, correctly closed, with three arbitrary bytes
// after the innermost value and after the closer at depth k.
func H_deepMid() {
	d, k := param("d"), param("k")
	b := nest(d, vrt.Param("pat"), param("w"), false, `1??`)
	i := len(b) - (d - k)
	b = append(append(append([]byte{}, b[:i]...), vrt.Byte(), vrt.Byte(), vrt.Byte()), b[i:]...)
	validAgrees(b)
}

// H_validW: the text bigDocs[t] with x bytes at any position replaced by w arbitrary ones.
func H_validW() { validAgrees(splice(bigDocs[param("t")], param("w"), param("x"))) }

// H_skipW: the same for the Skip family.
func H_skipW() {
	skipAgrees(splice(bigDocs[param("t")], param("w"), param("x")), param("m"), param("r"))
}

// H_skipGen: every document of n values with one arbitrary byte put in anywhere.
func H_skipGen() {
	b := genDoc(param("n"))
	skipAgrees(splice(string(b), param("w"), param("x")), param("m"), param("r"))
}
func H_validGen() {
	validAgrees(splice(string(genDoc(param("n"))), param("w"), param("x")))
}
