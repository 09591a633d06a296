package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// hugeText: a text of kind k whose size grows with l, with arbitrary bytes in it.
func hugeText(k, l int) []byte {
	switch k {
	case 0:
		return tpl(`["` + rep("a", l) + `?^"]?`)
	case 1:
		return tpl("-#" + rep("1", l) + `?#`)
	case 2:
		return tpl(rep(" ", l) + `?` + rep(" ", l) + `?`)
	case 3:
		return tpl(`[` + rep("1,", l) + `?]`)
	case 4:
		return tpl(`{` + rep(`"a":1,`, l) + `"?":?}`)
	case 5:
		return tpl(rep("[", l) + `?` + rep("]", l-1) + `?`)
	case 6:
		return tpl(rep(`{"a":`, l) + `#` + rep("}", l-1) + `?`)
	case 7:
		return tpl(`{"` + rep("k", l) + `?":1}?`)
	case 8:
		return tpl(`[` + rep(`"\n",`, l) + `"\?"]`)
	case 9:
		return tpl(`"` + rep(`\u0041`, l) + `\u00~~"?`)
	case 10:
		return tpl(rep(`[{"a":`, l) + `"^"` + rep("}]", l-1) + `}?`)
	case 11:
		return tpl(`"` + rep("b", l) + `\?^"`)
	case 12:
		return tpl(`[` + rep(`[],{},`, l) + `?]`)
	case 13:
		return tpl(`#.` + rep("0", l) + `?e-#`)
	}
	panic("hugeText")
}

func hugeIn() []byte { return hugeText(param("k"), param("l")) }

func H_validHuge()   { validAgrees(hugeIn()) }
func H_skipHuge()    { skipAgrees(hugeIn(), param("m"), param("r")) }
func H_genericHuge() { genericAgrees(hugeIn(), param("m")) }
func S_genericHuge() { S_generic() }
func H_strHuge()     { stringAgrees(hugeIn(), param("m"), param("r")) }
func S_strHuge()     { S_str() }
func H_streamHuge()  { streamAgrees(hugeIn(), param("m"), param("r")) }
func S_streamHuge()  { S_stream() }
func H_rawHuge()     { rawAgrees(hugeIn(), param("m"), param("r")) }
func S_rawHuge()     { S_raw() }
func H_walkHuge()    { walkAgrees(hugeIn(), param("m"), param("r")) }
func H_contHuge()    { contAgrees(hugeIn(), param("k2"), param("r")) }
func S_contHuge()    { S_cont() }

// H_strEncHuge: a string of l bytes and some arbitrary ones.
func H_strEncHuge() {
	l := param("l")
	b := append([]byte(rep("a", l)), tpl("?")...)
	strEncAgrees(append(b, rep("b", param("t"))...), param("m"), param("html"))
}
func S_strEncHuge() { S_strEnc() }

// H_wide: a struct of 300 fields takes an object of all of their names, two of them arbitrary.
func H_wide() {
	t := &wide{}
	fs := t.fields()
	for i, p := range fs {
		*p = -i - 1
	}
	name := func(i int) []byte { return []byte{'F', '0' + byte(i/100), '0' + byte(i/10%10), '0' + byte(i%10)} }
	b := []byte{'{'}
	at := []int{0, 1, 63, 64, 127, 128, 200, 255, 256, 257, 299}[vrt.Choose(11)]
	key := name(at)
	key[param("p")] = stChar()
	b = append(append(append(b, '"'), key...), `":`...)
	b = append(b, vrt.ByteIn('0', '9'))
	b = append(b, `,"F299":7}`...)
	vrt.ObserveBytes("in", b)
	c := param("c")
	err := structCfg[c].Unmarshal(b, t)
	d := int(b[8] - '0')
	sel := -1
	for i := range fs {
		if selects([]string{string(name(i))}, key, c&1 == 1) == 0 {
			sel = i
		}
	}
	if sel < 0 && c >= 2 {
		vrt.Assert(err != nil, "an unknown member is accepted")
		vrt.Cover("rejected")
		return
	}
	vrt.Assert(err == nil, "a member of a wide struct is rejected")
	for i, p := range fs {
		want := -i - 1
		if i == sel {
			want = d
		}
		if i == 299 {
			want = 7
		}
		vrt.Assert(*p == want, "a member of a wide struct is stored elsewhere")
	}
	vrt.Cover("read")
}

// H_wideEnc: all of its members are written, in order.
func H_wideEnc() {
	t := &wide{}
	fs := t.fields()
	at := []int{0, 1, 63, 64, 127, 128, 200, 255, 256, 257, 299}[vrt.Choose(11)]
	*fs[at] = gInt()
	w := []byte{'{'}
	for i, p := range fs {
		if i > 0 {
			w = append(w, ',')
		}
		w = append(w, '"', 'F', '0'+byte(i/100), '0'+byte(i/10%10), '0'+byte(i%10), '"', ':')
		if i == at {
			w = append(w, refEnc(nil, tInt, ofInt(*p), false)...)
		} else {
			w = append(w, '0')
		}
	}
	w = append(w, '}')
	b, err := jzon.Marshal(t)
	vrt.Assert(err == nil && string(b) == string(w), "a wide struct is written otherwise")
	vrt.Cover("done")
}
