package h

import (
	"errors"
	"io"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

var errBroken = errors.New("broken pipe")

// reader hands out data in pieces the harness decides.
type reader struct {
	data  []byte
	pos   int
	cuts  []int // piece ends; after the last one everything that is left
	one   bool  // single bytes
	zero  bool  // an empty read before each piece
	flip  bool
	eofIn bool  // the last piece comes together with io.EOF
	fail  error // instead of io.EOF
	calls int
}

func (r *reader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero && !r.flip {
		r.flip = true
		return 0, nil
	}
	r.flip = false
	end := r.fail
	if end == nil {
		end = io.EOF
	}
	if r.pos >= len(r.data) {
		return 0, end
	}
	n := len(r.data) - r.pos
	if r.one {
		n = 1
	}
	for _, c := range r.cuts {
		if r.pos < c && c-r.pos < n {
			n = c - r.pos
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eofIn && r.pos == len(r.data) {
		return n, end
	}
	return n, nil
}

const (
	rdWhole = iota // everything the buffer takes
	rdOne          // single bytes
	rdZero         // single bytes, empty reads in between, io.EOF with the last byte
	rdCut          // one cut at any position
	rdCut2         // two cuts at any positions
	rdEOF          // everything, together with io.EOF
	rdKinds
)

func newReader(kind int, data []byte) *reader {
	r := &reader{data: data}
	switch kind {
	case rdOne:
		r.one = true
	case rdZero:
		r.one, r.zero, r.eofIn = true, true, true
	case rdCut:
		r.cuts = []int{vrt.Choose(len(data) + 1)}
	case rdCut2:
		a := vrt.Choose(len(data) + 1)
		b := vrt.Choose(len(data) + 1 - a)
		r.cuts = []int{a, a + b}
	case rdEOF:
		r.eofIn = true
	}
	return r
}

// src resets it to the data: kind -1 is the byte slice itself, the others are readers.
func src(it *jzon.Iterator, kind int, data []byte) {
	if kind < 0 {
		it.ResetBytes(data)
	} else {
		it.Reset(newReader(kind, data))
	}
}

// srcR is src; rest then gives what has not been consumed yet.
func srcR(it *jzon.Iterator, kind int, data []byte) *reader {
	if kind < 0 {
		it.ResetBytes(data)
		return nil
	}
	rd := newReader(kind, data)
	it.Reset(rd)
	return rd
}

func rest(it *jzon.Iterator, rd *reader) []byte {
	b := append([]byte{}, it.Buffer()...)
	if rd != nil {
		b = append(b, rd.data[rd.pos:]...)
	}
	return b
}

// tpl expands a template: ? any byte, # a digit, ~ a hex digit, ^ any byte
// that may stand unescaped in a string, _ white space; the rest stands for itself.
func tpl(s string) []byte {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '?':
			b[i] = vrt.Byte()
		case '#':
			b[i] = vrt.ByteIn('0', '9')
		case '~':
			c := vrt.Byte()
			_, ok := hexVal(c)
			vrt.Assume(ok)
			b[i] = c
		case '^':
			c := vrt.ByteIn(0x20, 0xff)
			vrt.Assume(vrt.And(c != '"', c != '\\'))
			b[i] = c
		case '_':
			c := vrt.Byte()
			vrt.Assume(isWS(c))
			b[i] = c
		default:
			b[i] = s[i]
		}
	}
	return b
}

func pad(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return string(b)
}

func rep(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

func param(s string) int { return int(vrt.Param(s)) }

type sink struct {
	b     []byte
	calls int
	fail  int // fails from this call on (0: never)
	short bool
}

func (w *sink) Write(p []byte) (int, error) {
	w.calls++
	if w.fail != 0 && w.calls >= w.fail {
		if w.short && len(p) > 0 {
			w.b = append(w.b, p[:len(p)-1]...)
			return len(p) - 1, errBroken
		}
		return 0, errBroken
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

// bigDocs are the texts over which the window checks slide.
var bigDocs = []string{
	/*0*/ ` {"a" : [1, -2.5e+3, true ,{"b":null}], "c\n\u0041":"x\"y\\z", "d":{"e":[[],{}],"f":false}} `,
	/*1*/ `[{"k1":"` + pad(58) + `","k2":[0,10,-0.1E-2]},"` + pad(62) + `\u00e9\ud83d\ude00end",[[[1],2],{"":{}}]]`,
	/*2*/ `{"a":1,"a":{"a":[1,2,{"a":3}]},"b":"` + pad(70) + `","c":12345678901234567890123456789012345678901234567890123456789012345678901234567890.5}`,
	/*3*/ `[[[[[[{"x":{"y":[{"z":[{}]}]}}],true],false],null],"s"],-1]`,
}

// window replaces w consecutive bytes of the text, at any position, by arbitrary ones.
func window(doc string, w int) []byte {
	b := []byte(doc)
	if w == 0 {
		return b
	}
	p := vrt.Choose(len(b) - w + 1)
	for i := 0; i < w; i++ {
		b[p+i] = vrt.Byte()
	}
	return b
}

// splice inserts w arbitrary bytes at any position of the text, dropping x bytes there.
func splice(doc string, w, x int) []byte {
	if w == 0 && x == 0 {
		return []byte(doc)
	}
	p := vrt.Choose(len(doc) - x + 1)
	b := append([]byte{}, doc[:p]...)
	for i := 0; i < w; i++ {
		b = append(b, vrt.Byte())
	}
	return append(b, doc[p+x:]...)
}

// genDoc builds every JSON text of at most n values, with arbitrary digits,
// string characters and member names from a small set (so that they repeat).
func genDoc(n int) []byte { return genVal(nil, &n) }

func genVal(b []byte, n *int) []byte {
	*n--
	k := vrt.Choose(4)
	switch k {
	case 0:
		return append(b, vrt.ByteIn('0', '9'))
	case 1:
		return append(b, '"', vrt.ByteIn('0', '9'), '"')
	}
	open, shut := byte('['), byte(']')
	if k == 3 {
		open, shut = '{', '}'
	}
	b = append(b, open)
	for i := 0; *n > 0 && vrt.Choose(2) == 1; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if k == 3 {
			b = append(b, '"', vrt.ByteIn('a', 'b'), '"', ':')
		}
		b = genVal(b, n)
	}
	return append(b, shut)
}
