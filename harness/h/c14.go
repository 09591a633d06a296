package h

import (
	"errors"
	"math"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// out is the reference of a streamer: it writes the text a sequence of calls describes.
type out struct {
	b     []byte
	stack []byte // a, o (a name is due), v (the member's value is due)
	n     []int
}

func (o *out) sep() {
	d := len(o.stack) - 1
	if d < 0 {
		if len(o.n) == 0 {
			o.n = []int{0}
		}
		d = 0
	} else {
		d++
		if o.stack[d-1] == 'v' {
			o.stack[d-1] = 'o'
			o.n[d]++
			return
		}
	}
	if o.n[d] > 0 {
		o.b = append(o.b, ',')
	}
	o.n[d]++
}

func (o *out) leaf(s []byte) {
	o.sep()
	o.b = append(o.b, s...)
}

func (o *out) open(c byte) {
	o.sep()
	o.b = append(o.b, c)
	if c == '[' {
		o.stack = append(o.stack, 'a')
	} else {
		o.stack = append(o.stack, 'o')
	}
	o.n = append(o.n[:len(o.stack)], 0)
}

func (o *out) field(s []byte) {
	d := len(o.stack)
	if o.n[d] > 0 {
		o.b = append(o.b, ',')
	}
	o.b = append(o.b, s...)
	o.b = append(o.b, ':')
	o.stack[d-1] = 'v'
}

func (o *out) shut() {
	d := len(o.stack) - 1
	if o.stack[d] == 'a' {
		o.b = append(o.b, ']')
	} else {
		o.b = append(o.b, '}')
	}
	o.stack = o.stack[:d]
	o.n = o.n[:d+1]
}

const leafKinds = 27

type leafS struct {
	A int         `json:"a"`
	B []string    `json:"b"`
	C interface{} `json:"c,omitempty"`
}

// leaf writes a value of kind k and gives its text.
func leaf(s *jzon.Streamer, k int) (*jzon.Streamer, []byte) {
	d := vrt.ByteIn('0', '9')
	x := d - '0'
	num := []byte{d}
	switch k {
	case 0:
		return s.Null(), []byte("null")
	case 1:
		return s.True(), []byte("true")
	case 2:
		return s.False(), []byte("false")
	case 3:
		if x < 5 {
			return s.Bool(true), []byte("true")
		}
		return s.Bool(false), []byte("false")
	case 4:
		return s.Int8(int8(x)), num
	case 5:
		return s.Uint8(x), num
	case 6:
		return s.Int16(int16(x)), num
	case 7:
		return s.Uint16(uint16(x)), num
	case 8:
		return s.Int32(int32(x)), num
	case 9:
		return s.Uint32(uint32(x)), num
	case 10:
		return s.Int64(int64(x)), num
	case 11:
		return s.Uint64(uint64(x)), num
	case 12:
		return s.Int(-1), []byte("-1")
	case 13:
		return s.Uint(uint(x)), num
	case 14:
		return s.Float32(0.5), []byte("0.5")
	case 15:
		return s.Float64(-1e21), []byte("-1e+21")
	case 16:
		return s.String(string([]byte{d, 'x'})), []byte{'"', d, 'x', '"'}
	case 17:
		return s.RawString(string(num)), num
	case 18:
		return s.Raw([]byte{'[', d, ']'}), []byte{'[', d, ']'}
	case 19:
		return s.Value(nil), []byte("null")
	case 20:
		return s.Value([]int{int(x), 12}), []byte{'[', d, ',', '1', '2', ']'}
	case 21:
		return s.Value(leafS{A: 1, B: []string{"q", ""}}), []byte(`{"a":1,"b":["q",""]}`)
	case 22:
		return s.Value(map[string]interface{}{"m": []interface{}{}}), []byte(`{"m":[]}`)
	case 23:
		return s.Value(&[2]leafS{{C: true}, {}}), []byte(`[{"a":0,"b":null,"c":true},{"a":0,"b":null}]`)
	case 24:
		return s.RawString("{}"), []byte("{}")
	case 25:
		return s.Raw([]byte("[]")), []byte("[]")
	case 26:
		return s.String(""), []byte(`""`)
	}
	panic("leaf")
}

// flaky is a writer that takes only part of some writes.
type flaky struct {
	b    []byte
	part int // of writes: -1 everything, else that many bytes and an error
}

func (w *flaky) Write(p []byte) (int, error) {
	if w.part < 0 || w.part >= len(p) {
		w.b = append(w.b, p...)
		return len(p), nil
	}
	w.b = append(w.b, p[:w.part]...)
	return w.part, errBroken
}

// step makes one of the calls that may stand next; false: none chosen.
func (o *out) step(s *jzon.Streamer, k int, w *flaky) {
	d := len(o.stack) - 1
	n := 4
	if d >= 0 && o.stack[d] == 'o' {
		n = 3
	} else if d >= 0 && o.stack[d] == 'a' {
		n = 5
	}
	var r *jzon.Streamer
	switch c := vrt.Choose(n); {
	case c == 0: // flush, completely or partly
		part := -1
		if w.part >= 0 {
			part = vrt.Choose(3) - 1
		}
		keep := w.part
		w.part = part
		err := s.Flush()
		w.part = keep
		if part < 0 {
			vrt.Assert(err == nil, "Flush reports an error nothing caused")
			vrt.Assert(string(w.b) == string(o.b), "after a flush the writer has not received exactly what was written")
		} else if err != nil {
			vrt.Assert(errors.Is(err, errBroken), "Flush hides the writer's error")
		}
		vrt.Assert(len(w.b) <= len(o.b) && string(w.b) == string(o.b[:len(w.b)]), "the writer has received something else than the beginning of what was written")
		return
	case d >= 0 && o.stack[d] == 'o':
		if c == 1 {
			x := vrt.ByteIn('a', 'z')
			if k%2 == 0 {
				r = s.Field(string([]byte{x}))
			} else {
				r = s.RawField([]byte{'"', x, '"'})
			}
			o.field([]byte{'"', x, '"'})
		} else {
			r = s.ObjectEnd()
			o.shut()
		}
	case c == 1:
		var t []byte
		r, t = leaf(s, k)
		o.leaf(t)
	case c == 2:
		r = s.ArrayStart()
		o.open('[')
	case c == 3:
		r = s.ObjectStart()
		o.open('{')
	default:
		r = s.ArrayEnd()
		o.shut()
	}
	vrt.Assert(r == s, "a call does not return its streamer")
}

func S_ops() {
	s := jzon.NewStreamer()
	defer s.Release()
	s.Value([]int{1})
	s.Value(leafS{})
	s.Value(map[string]interface{}{"a": []interface{}{1.0, true}})
	s.Value(&[2]leafS{{C: true}})
	s.Value((chan int)(nil))
}

// H_ops: every sequence of n calls with leaves of kind k, k+1, ...; then a flush
// and, when everything is closed, the whole text.
func H_ops() { opsOn(jzon.NewStreamer()) }

func opsOn(s *jzon.Streamer) {
	n, k, part := param("n"), param("k"), param("part")
	w := &flaky{part: part}
	defer s.Release()
	s.Reset(w)
	o := &out{}
	for i := 0; i < n; i++ {
		o.step(s, (k+i)%leafKinds, w)
	}
	w.part = -1
	vrt.Assert(s.Error == nil, "a correct sequence of calls ends with an error")
	vrt.Assert(s.Flush() == nil, "Flush reports an error nothing caused")
	vrt.ObserveBytes("out", w.b)
	vrt.Assert(string(w.b) == string(o.b), "the writer has not received exactly what was written")
	if len(o.stack) == 0 && len(o.n) > 0 && o.n[0] == 1 {
		_, ok := refDoc(w.b)
		vrt.Assert(ok, "a correct sequence of calls writes malformed text")
		vrt.Cover("text")
	}
	vrt.Assert(s.Flush() == nil && string(w.b) == string(o.b), "a flush of nothing writes something")
}

type failing struct{ err error }

func (f failing) MarshalJSON() ([]byte, error) { return nil, f.err }

// any writes anything at all, whatever may stand there.
func (o *out) any(s *jzon.Streamer, k int) {
	switch vrt.Choose(5) {
	case 0:
		leaf(s, k)
	case 1:
		s.ArrayStart()
	case 2:
		s.ObjectStart().Field("a")
	case 3:
		s.ArrayEnd().ObjectEnd()
	default:
		s.RawField([]byte(`"x"`)).Value(failing{errors.New("other")})
	}
}

// H_err: n calls, an error of kind e, then m calls of any kind.
func H_err() {
	n, m, k, e := param("n"), param("m"), param("k"), param("e")
	w := &flaky{part: -1}
	s := jzon.NewStreamer()
	defer s.Release()
	s.Reset(w)
	o := &out{}
	for i := 0; i < n; i++ {
		o.step(s, (k+i)%leafKinds, w)
	}
	before := len(w.b)
	switch e {
	case 0:
		s.Float64(math.NaN())
	case 1:
		s.Float32(float32(math.Inf(-1)))
	case 2:
		s.Value((chan int)(nil))
	case 3:
		s.Value(failing{errBroken})
		vrt.Assert(errors.Is(s.Error, errBroken), "the error of a marshaler is lost")
	case 4:
		s.Value([]interface{}{1, math.Inf(1), 2})
	case 5:
		s.Error = errBroken
	case 6:
		s.Value(map[string]interface{}{"a": failing{errBroken}})
	case 7:
		s.Value(struct {
			A int
			F func()
		}{})
	}
	first := s.Error
	vrt.Assert(first != nil, "a value that cannot be written is no error")
	for i := 0; i < m; i++ {
		o.any(s, (k+n+i)%leafKinds)
	}
	vrt.Assert(s.Error == first, "the first error does not stay")
	err := s.Flush()
	vrt.Assert(err == first, "Flush does not report the first error")
	vrt.Assert(len(w.b) == before, "something is written after an error")
	vrt.Cover("error")
	// the streamer is good again after a reset
	w2 := &flaky{part: -1}
	s.Reset(w2)
	s.ArrayStart().Int(1).ArrayEnd()
	vrt.Assert(s.Flush() == nil && string(w2.b) == "[1]" && len(w.b) == before, "a reset does not clear the error or what was written before")
}
func S_err() {
	S_ops()
	s := jzon.NewStreamer()
	defer s.Release()
	for _, x := range []interface{}{failing{}, map[string]interface{}{"a": 1}, []interface{}{1, 2.5, failing{errBroken}}, math.NaN(), struct {
		A int
		F func()
	}{}} {
		s.Reset(nil)
		s.Value(x)
	}
}

// limited takes only so many bytes in all.
type limited struct {
	b    []byte
	room int
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) <= w.room {
		w.b = append(w.b, p...)
		w.room -= len(p)
		return len(p), nil
	}
	n := w.room
	w.b = append(w.b, p[:n]...)
	w.room = 0
	return n, errBroken
}

// H_enc: an Encoder writes each value and a newline, in order, until the writer fails for good.
func H_enc() {
	n, at := param("n"), param("at")
	w := &limited{room: at}
	e := jzon.NewEncoder(w)
	defer e.Release()
	want := []byte{}
	for i := 0; i < n; i++ {
		d := vrt.ByteIn('0', '9')
		var err error
		switch vrt.Choose(3) {
		case 0:
			err = e.Encode([]int{int(d - '0')})
			want = append(want, '[', d, ']', '\n')
		case 1:
			err = e.Encode(string([]byte{d}))
			want = append(want, '"', d, '"', '\n')
		default:
			err = e.Encode(nil)
			want = append(want, "null\n"...)
		}
		broken := len(want) > at
		vrt.Assert((err != nil) == broken, "Encode does not report the writer's failure, or reports one that is none")
		if !broken {
			vrt.Assert(string(w.b) == string(want), "Encode does not write the value and a newline")
		} else {
			vrt.Assert(errors.Is(err, errBroken), "Encode hides the writer's error")
			vrt.Assert(len(w.b) <= len(want) && string(w.b) == string(want[:len(w.b)]), "after a failure Encode writes something out of order")
		}
	}
	vrt.ObserveBytes("out", w.b)
	vrt.Cover("done")
}
func S_enc() { S_ops(); jzon.Marshal("") }

// H_long: a text far longer than the buffer, flushed at one place.
func H_long() {
	n, k := param("n"), param("k")
	w := &flaky{part: -1}
	s := jzon.NewStreamer()
	defer s.Release()
	s.Reset(w)
	o := &out{}
	p := 0
	if n > 500 {
		p = []int{0, 511, 512, n - 2, n - 1}[vrt.Choose(5)]
	} else {
		p = vrt.Choose(n)
	}
	s.ArrayStart()
	o.open('[')
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			s.ObjectStart().Field("a")
			o.open('{')
			o.field([]byte(`"a"`))
		}
		if i == p {
			_, t := leaf(s, k)
			o.leaf(t)
		} else {
			s.String("str")
			o.leaf([]byte(`"str"`))
		}
		if i%3 == 2 {
			s.ObjectEnd()
			o.shut()
		}
		if i == p {
			vrt.Assert(s.Flush() == nil, "Flush reports an error nothing caused")
		}
	}
	s.ArrayEnd()
	o.shut()
	vrt.Assert(s.Flush() == nil, "Flush reports an error nothing caused")
	vrt.ObserveBytes("out", w.b)
	vrt.Assert(string(w.b) == string(o.b), "the writer has not received exactly what was written")
	vrt.Cover("done")
}
func S_long() { S_ops() }
