package h

// The reference semantics the properties are stated against: RFC 8259 and, for
// what the RFC leaves open, the documented behaviour of encoding/json. None of
// it shares code with the implementation under test.

import "vharness/vrt"

// bytesN returns n arbitrary bytes.
func bytesN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.Byte()
	}
	return b
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// eqB compares without branching on the content.
func eqB(a, b []byte) bool { return string(a) == string(b) }

// val is a JSON value as the text denotes it.
type val struct {
	kind byte // n t f s 0 a o
	s    []byte
	e    []*val
	k    [][]byte
	beg  int
	end  int
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func skipWS(b []byte, i int) int {
	for i < len(b) && isWS(b[i]) {
		i++
	}
	return i
}

func lit(b []byte, i int, s string) (int, bool) {
	if len(b)-i < len(s) {
		return i, false
	}
	for j := 0; j < len(s); j++ {
		if b[i+j] != s[j] {
			return i, false
		}
	}
	return i + len(s), true
}

func digits(b []byte, i int) int {
	for i < len(b) && isDigit(b[i]) {
		i++
	}
	return i
}

// refNumber finds the end of the number starting at i.
func refNumber(b []byte, i int) (int, bool) {
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i >= len(b) || !isDigit(b[i]) {
		return i, false
	}
	if b[i] == '0' {
		i++
	} else {
		i = digits(b, i)
	}
	if i < len(b) && b[i] == '.' {
		j := digits(b, i+1)
		if j == i+1 {
			return i, false
		}
		i = j
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		j := digits(b, i)
		if j == i {
			return i, false
		}
		i = j
	}
	return i, true
}

// hexTab holds the value of each hex digit and 16 for everything else.
var hexTab = func() (t [256]byte) {
	for i := range t {
		t[i] = 16
	}
	for i, c := range []byte("0123456789") {
		t[c] = byte(i)
	}
	for i := 0; i < 6; i++ {
		t["abcdef"[i]] = byte(10 + i)
		t["ABCDEF"[i]] = byte(10 + i)
	}
	return
}()

func hexVal(c byte) (uint32, bool) {
	v := hexTab[c]
	return uint32(v), v < 16
}

func hex4(b []byte, i int) (uint32, bool) {
	if len(b)-i < 4 {
		return 0, false
	}
	r := uint32(0)
	for j := 0; j < 4; j++ {
		h, ok := hexVal(b[i+j])
		if !ok {
			return 0, false
		}
		r = r*16 + h
	}
	return r, true
}

// utf8Of appends the UTF-8 encoding of a scalar value.
func utf8Of(out []byte, r uint32) []byte {
	if r < 0x80 {
		return append(out, byte(r))
	}
	if r < 0x800 {
		return append(out, byte(0xC0|r>>6), byte(0x80|r&0x3F))
	}
	if r < 0x10000 {
		return append(out, byte(0xE0|r>>12), byte(0x80|(r>>6)&0x3F), byte(0x80|r&0x3F))
	}
	return append(out, byte(0xF0|r>>18), byte(0x80|(r>>12)&0x3F), byte(0x80|(r>>6)&0x3F), byte(0x80|r&0x3F))
}

const replacement = 0xFFFD

// refString reads the string literal whose opening quote is at i.
func refString(b []byte, i int) (out []byte, j int, ok bool) {
	if i >= len(b) || b[i] != '"' {
		return nil, i, false
	}
	i++
	out = []byte{}
	for i < len(b) {
		c := b[i]
		if c == '"' {
			return out, i + 1, true
		}
		if c < 0x20 {
			return nil, i, false
		}
		if c != '\\' {
			out = append(out, c)
			i++
			continue
		}
		if i+1 >= len(b) {
			return nil, i, false
		}
		switch b[i+1] {
		case '"':
			out = append(out, '"')
		case '\\':
			out = append(out, '\\')
		case '/':
			out = append(out, '/')
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'u':
			r, ok := hex4(b, i+2)
			if !ok {
				return nil, i, false
			}
			i += 6
			if r >= 0xD800 && r <= 0xDBFF && i+6 <= len(b) && b[i] == '\\' && b[i+1] == 'u' {
				r2, ok := hex4(b, i+2)
				if !ok {
					return nil, i, false
				}
				if r2 >= 0xDC00 && r2 <= 0xDFFF {
					out = utf8Of(out, 0x10000+(r-0xD800)<<10+(r2-0xDC00))
					i += 6
					continue
				}
			}
			if r >= 0xD800 && r <= 0xDFFF {
				r = replacement
			}
			out = utf8Of(out, r)
			continue
		default:
			return nil, i, false
		}
		i += 2
	}
	return nil, i, false
}

// refValue parses one value after optional whitespace.
func refValue(b []byte, i int) (v *val, j int, ok bool) {
	i = skipWS(b, i)
	if i >= len(b) {
		return nil, i, false
	}
	beg := i
	switch c := b[i]; {
	case c == 'n':
		j, ok = lit(b, i, "null")
		return &val{kind: 'n', beg: beg, end: j}, j, ok
	case c == 't':
		j, ok = lit(b, i, "true")
		return &val{kind: 't', beg: beg, end: j}, j, ok
	case c == 'f':
		j, ok = lit(b, i, "false")
		return &val{kind: 'f', beg: beg, end: j}, j, ok
	case c == '"':
		s, j, ok := refString(b, i)
		return &val{kind: 's', s: s, beg: beg, end: j}, j, ok
	case c == '-' || isDigit(c):
		j, ok = refNumber(b, i)
		return &val{kind: '0', s: b[i:j], beg: beg, end: j}, j, ok
	case c == '[':
		v = &val{kind: 'a', beg: beg}
		i = skipWS(b, i+1)
		if i < len(b) && b[i] == ']' {
			v.end = i + 1
			return v, i + 1, true
		}
		for {
			e, j, ok := refValue(b, i)
			if !ok {
				return nil, j, false
			}
			v.e = append(v.e, e)
			i = skipWS(b, j)
			if i >= len(b) {
				return nil, i, false
			}
			if b[i] == ']' {
				v.end = i + 1
				return v, i + 1, true
			}
			if b[i] != ',' {
				return nil, i, false
			}
			i++
		}
	case c == '{':
		v = &val{kind: 'o', beg: beg}
		i = skipWS(b, i+1)
		if i < len(b) && b[i] == '}' {
			v.end = i + 1
			return v, i + 1, true
		}
		for {
			i = skipWS(b, i)
			k, j, ok := refString(b, i)
			if !ok {
				return nil, j, false
			}
			i = skipWS(b, j)
			if i >= len(b) || b[i] != ':' {
				return nil, i, false
			}
			e, j, ok := refValue(b, i+1)
			if !ok {
				return nil, j, false
			}
			v.k = append(v.k, k)
			v.e = append(v.e, e)
			i = skipWS(b, j)
			if i >= len(b) {
				return nil, i, false
			}
			if b[i] == '}' {
				v.end = i + 1
				return v, i + 1, true
			}
			if b[i] != ',' {
				return nil, i, false
			}
			i++
		}
	}
	return nil, i, false
}

// refDoc parses a whole text: one value and optional whitespace.
func refDoc(b []byte) (*val, bool) {
	v, j, ok := refValue(b, 0)
	if !ok {
		return nil, false
	}
	return v, skipWS(b, j) == len(b)
}
