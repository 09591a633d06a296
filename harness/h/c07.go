package h

import (
	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// runeLen is the number of bytes of the well-formed UTF-8 sequence at b[i], 0 if there is none.
func runeLen(b []byte, i int) int {
	c := b[i]
	in := func(j int, lo, hi byte) bool { return j < len(b) && b[j] >= lo && b[j] <= hi }
	switch {
	case c < 0x80:
		return 1
	case c < 0xC2:
		return 0
	case c < 0xE0:
		if in(i+1, 0x80, 0xBF) {
			return 2
		}
	case c < 0xF0:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
		if in(i+1, lo, hi) && in(i+2, 0x80, 0xBF) {
			return 3
		}
	case c < 0xF5:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
		if in(i+1, lo, hi) && in(i+2, 0x80, 0xBF) && in(i+3, 0x80, 0xBF) {
			return 4
		}
	}
	return 0
}

// sanitized is the string with each byte that is not part of UTF-8 replaced.
func sanitized(b []byte) []byte {
	out := []byte{}
	for i := 0; i < len(b); {
		n := runeLen(b, i)
		if n == 0 {
			out = append(out, 0xEF, 0xBF, 0xBD)
			i++
			continue
		}
		out = append(out, b[i:i+n]...)
		i += n
	}
	return out
}

// litAgrees checks the string literal at out[i:]: it denotes the text b, and what
// has to be escaped is. It returns the place behind the literal.
func litAgrees(out []byte, i int, b []byte, html bool) int {
	s, j, ok := refString(out, i)
	vrt.Assert(ok, "what is written is not a string literal")
	if !ok {
		return len(out)
	}
	vrt.Assert(eqB(s, sanitized(b)), "the literal written denotes other characters than the string has")
	for p := i; p < j; p++ {
		c := out[p]
		if html {
			vrt.Assert(vrt.And(c != '<', vrt.And(c != '>', c != '&')), "<, > or & is written unescaped with HTML escaping on")
		}
		if p+2 < j {
			vrt.Assert(!vrt.And(vrt.And(c == 0xE2, out[p+1] == 0x80), vrt.Or(out[p+2] == 0xA8, out[p+2] == 0xA9)), "U+2028 or U+2029 is written unescaped")
		}
	}
	if !html {
		// no other way to write < > & than as they are
		n, k := 0, 0
		for _, c := range b {
			if c == '<' || c == '>' || c == '&' {
				n++
			}
		}
		for p := i; p < j; p++ {
			if c := out[p]; c == '<' || c == '>' || c == '&' {
				k++
			}
		}
		vrt.Assert(n == k, "<, > or & is escaped with HTML escaping off")
	}
	return j
}

type (
	textM string
	textP struct{ s []byte }
	sFld  struct {
		A int
		S string
		B int
	}
	qFld struct {
		S string `json:"s,string"`
	}
	mFld struct {
		T textM
	}
	myString string
	nFld     struct {
		S string `json:"a<&>b"`
		T int    `json:"<"`
	}
)

func (t textM) MarshalText() ([]byte, error)  { return []byte(t), nil }
func (t *textP) MarshalText() ([]byte, error) { return t.s, nil }

type textKey struct{ S string }

func (t textKey) MarshalText() ([]byte, error) { return []byte(t.S), nil }

var plainCfg = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: false})

// strEncAgrees writes the string b in mode m, with HTML escaping as html says.
func strEncAgrees(b []byte, m, html int) {
	vrt.ObserveBytes("in", b)
	str := string(b)
	cfg := jzon.DefaultEncoderConfig
	if html == 0 {
		cfg = plainCfg
	}
	var (
		out       []byte
		err       error
		pre, post string
		quoted    bool
	)
	w := &sink{}
	stream := func(f func(s *jzon.Streamer)) {
		s := cfg.NewStreamer()
		s.Reset(w)
		f(s)
		err = s.Flush()
		s.Release()
		out = w.b
	}
	switch m {
	case 0:
		stream(func(s *jzon.Streamer) { s.String(str) })
	case 1:
		stream(func(s *jzon.Streamer) { s.ObjectStart().Field("a").Int(1).Field(str).Int(2).ObjectEnd() })
		pre, post = `{"a":1,`, `:2}`
	case 2:
		out, err = cfg.Marshal(str)
	case 3:
		out, err = cfg.Marshal(map[string]int{str: 5})
		pre, post = `{`, `:5}`
	case 4:
		out, err = cfg.Marshal(&sFld{A: 1, S: str, B: 2})
		pre, post = `{"A":1,"S":`, `,"B":2}`
	case 5:
		out, err = cfg.Marshal(textM(str))
	case 6:
		out, err = cfg.Marshal([]*textP{{b}})
		pre, post = `[`, `]`
	case 7:
		out, err = cfg.Marshal(map[textKey]bool{{str}: true})
		pre, post = `{`, `:true}`
	case 8:
		out, err = cfg.Marshal([]interface{}{nil, myString(str)})
		pre, post = `[null,`, `]`
	case 9, 10: // overridden at run time
		html = 1 - html
		e := cfg.NewEncoder(w)
		e.SetEscapeHTML(html == 1)
		if m == 9 {
			err = e.Encode([]string{"x", str})
			pre, post = `["x",`, "]\n"
		} else {
			err = e.Encode(qFld{str})
			pre, post = `{"s":`, "}\n"
			quoted = true
		}
		e.Release()
		out = w.b
	case 11:
		out, err = cfg.Marshal(qFld{str})
		pre, post = `{"s":`, `}`
		quoted = true
	case 12:
		out, err = cfg.Marshal(mFld{textM(str)})
		pre, post = `{"T":`, `}`
	case 13:
		out, err = cfg.Marshal(struct{ P *string }{&str})
		pre, post = `{"P":`, `}`
	case 14, 15: // the names of struct fields, with a string as value
		if m == 15 {
			html = 1 - html
		}
		e := cfg.NewEncoder(w)
		e.SetEscapeHTML(html == 1)
		err = e.Encode(&nFld{S: str, T: 1})
		e.Release()
		out = w.b
		vrt.Assert(err == nil && len(out) > 1 && out[0] == '{', "writing a struct fails")
		j := litAgrees(out, 1, []byte("a<&>b"), html == 1)
		vrt.Assert(j < len(out) && out[j] == ':', "no colon behind a name")
		j = litAgrees(out, j+1, b, html == 1)
		vrt.Assert(j < len(out) && out[j] == ',', "no comma between members")
		j = litAgrees(out, j+1, []byte("<"), html == 1)
		vrt.Assert(string(out[j:]) == ":1}\n", "what is written behind the last name is wrong")
		vrt.Cover("written")
		return
	}
	vrt.ObserveBytes("out", out)
	vrt.Assert(err == nil, "writing a string fails")
	vrt.Cover("written")
	n := len(pre)
	vrt.Assert(len(out) >= n && string(out[:n]) == pre, "what is written in front of a string is wrong")
	if quoted {
		// a string that holds a literal that denotes the string
		s, j, ok := refString(out, n)
		vrt.Assert(ok && string(out[j:]) == post, "what is written is not a string literal, or something follows it")
		if ok {
			j = litAgrees(s, 0, b, html == 1)
			vrt.Assert(j == len(s), "something follows the quoted literal")
		}
		return
	}
	j := litAgrees(out, n, b, html == 1)
	vrt.Assert(string(out[j:]) == post, "what is written behind a string is wrong")
}

// H_strEnc: every string of n bytes.
func H_strEnc() { strEncAgrees(bytesN(param("n")), param("m"), param("html")) }
func S_strEnc() {
	for _, c := range []*jzon.EncoderConfig{jzon.DefaultEncoderConfig, plainCfg} {
		s := ""
		for _, x := range []interface{}{"", map[string]int{}, &sFld{}, textM(""), []*textP{{}}, map[textKey]bool{}, []interface{}{nil, myString("")}, []string{""}, qFld{}, mFld{}, nFld{}, &nFld{}, struct{ P *string }{&s}} {
			c.Marshal(x)
		}
	}
}

var strEncTpl = []string{
	/*0*/ "a????b",
	/*1*/ "\xe2?\xa8?\xe2\x80?",
	/*2*/ "<?>\xe2\x80?&",
	/*3*/ "\xf0?\x9f?x\xed?",
	/*4*/ "\"?\\?",
	/*5*/ "\xe2\x80\xa8\xe2\x80\xa9?\xff?",
	/*6*/ "\xf4??\x80",
	/*7*/ "\xed??\xe0\x80?",
	/*8*/ "\xc3?\xc1?\xdf?",
}

// H_strEncT: strings shaped like a template, at any offset inside a longer one.
func H_strEncT() {
	t := tpl(strEncTpl[param("t")])
	n := param("n")
	p := vrt.Choose(n + 1)
	strEncAgrees(append(append([]byte(pad(p)), t...), pad(n-p)...), param("m"), param("html"))
}
func S_strEncT() { S_strEnc() }

// H_strRound: what was written reads back as the same characters.
func H_strRound() {
	b := bytesN(param("n"))
	vrt.ObserveBytes("in", b)
	out, err := jzon.Marshal(string(b))
	vrt.Assert(err == nil, "writing a string fails")
	var s string
	err = jzon.Unmarshal(out, &s)
	vrt.Assert(err == nil, "reading back a string fails")
	vrt.Cover("written")
	vrt.Assert(s == string(sanitized(b)), "a string changes when it is written and read back")
}
func S_strRound() { S_strEnc(); var s string; jzon.Unmarshal([]byte(`""`), &s) }
