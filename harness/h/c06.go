package h

import (
	"math"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// anyInt is any integer of kind k with n decimal digits (n counts from 1), as
// its digits and its value: every such integer is covered, each exactly once.
func anyInt(k, n int, neg bool) (digs []byte, bits uint64, ok bool) {
	limit := ^uint64(0) >> (64 - intWidth[k])
	if intSigned[k] {
		limit >>= 1
		if neg {
			limit++
		}
	}
	var max []byte
	for x := limit; x > 0; x /= 10 {
		max = append([]byte{byte(x % 10)}, max...)
	}
	if n > len(max) || neg && !intSigned[k] {
		return nil, 0, false
	}
	d := make([]byte, n)
	lo := byte(1)
	if n == 1 && !neg {
		lo = 0
	}
	if n < len(max) {
		d[0] = vrt.ByteIn(lo, 9)
		for i := 1; i < n; i++ {
			d[i] = vrt.ByteIn(0, 9)
		}
	} else {
		// the largest numbers: equal to the limit up to digit j, smaller there, then free
		j := vrt.Choose(n + 1)
		copy(d, max[:j])
		if j < n {
			if j > 0 {
				lo = 0
			}
			if max[j] <= lo {
				return nil, 0, false
			}
			d[j] = vrt.ByteIn(lo, max[j]-1)
			for i := j + 1; i < n; i++ {
				d[i] = vrt.ByteIn(0, 9)
			}
		}
	}
	for _, x := range d {
		bits = bits*10 + uint64(x)
		digs = append(digs, '0'+x)
	}
	if neg {
		bits = -bits
		digs = append([]byte{'-'}, digs...)
	}
	return digs, bits, true
}

type (
	qInts struct {
		A int8    `json:",string"`
		B int16   `json:",string"`
		C int32   `json:",string"`
		D int64   `json:",string"`
		E int     `json:",string"`
		F uint8   `json:",string"`
		G uint16  `json:",string"`
		H uint32  `json:",string"`
		I uint64  `json:",string"`
		J uint    `json:",string"`
		K uintptr `json:",string"`
	}
	pInts struct {
		A int8
		B int16
		C int32
		D int64
		E int
		F uint8
		G uint16
		H uint32
		I uint64
		J uint
		K uintptr
	}
)

func streamInt(s *jzon.Streamer, k int, v uint64) {
	switch k {
	case kInt8:
		s.Int8(int8(v))
	case kInt16:
		s.Int16(int16(v))
	case kInt32:
		s.Int32(int32(v))
	case kInt64:
		s.Int64(int64(v))
	case kInt:
		s.Int(int(v))
	case kUint8:
		s.Uint8(uint8(v))
	case kUint16:
		s.Uint16(uint16(v))
	case kUint32:
		s.Uint32(uint32(v))
	case kUint64:
		s.Uint64(v)
	default:
		s.Uint(uint(v))
	}
}

func intOf(k int, v uint64) interface{} {
	switch k {
	case kInt8:
		return int8(v)
	case kInt16:
		return int16(v)
	case kInt32:
		return int32(v)
	case kInt64:
		return int64(v)
	case kInt:
		return int(v)
	case kUint8:
		return uint8(v)
	case kUint16:
		return uint16(v)
	case kUint32:
		return uint32(v)
	case kUint64:
		return v
	case kUint:
		return uint(v)
	}
	return uintptr(v)
}

func mapOf(k int, v uint64) interface{} {
	switch k {
	case kInt8:
		return map[int8]bool{int8(v): true}
	case kInt16:
		return map[int16]bool{int16(v): true}
	case kInt32:
		return map[int32]bool{int32(v): true}
	case kInt64:
		return map[int64]bool{int64(v): true}
	case kInt:
		return map[int]bool{int(v): true}
	case kUint8:
		return map[uint8]bool{uint8(v): true}
	case kUint16:
		return map[uint16]bool{uint16(v): true}
	case kUint32:
		return map[uint32]bool{uint32(v): true}
	case kUint64:
		return map[uint64]bool{v: true}
	case kUint:
		return map[uint]bool{uint(v): true}
	}
	return map[uintptr]bool{uintptr(v): true}
}

func qOf(k int, v uint64) interface{} {
	q := qInts{}
	switch k {
	case kInt8:
		q.A = int8(v)
	case kInt16:
		q.B = int16(v)
	case kInt32:
		q.C = int32(v)
	case kInt64:
		q.D = int64(v)
	case kInt:
		q.E = int(v)
	case kUint8:
		q.F = uint8(v)
	case kUint16:
		q.G = uint16(v)
	case kUint32:
		q.H = uint32(v)
	case kUint64:
		q.I = v
	case kUint:
		q.J = uint(v)
	default:
		q.K = uintptr(v)
	}
	return q
}

func pOf(k int, v uint64) interface{} { q := qOf(k, v).(qInts); p := pInts(q); return &p }

func sliceOf(k int, v uint64) interface{} {
	switch k {
	case kInt8:
		return []int8{-1, int8(v), 1}
	case kInt16:
		return []int16{-1, int16(v), 1}
	case kInt32:
		return [3]int32{-1, int32(v), 1}
	case kInt64:
		return []int64{-1, int64(v), 1}
	case kInt:
		return [3]int{-1, int(v), 1}
	case kUint16:
		return []uint16{1, uint16(v), 1}
	case kUint32:
		return []uint32{1, uint32(v), 1}
	case kUint64:
		return []uint64{1, v, 1}
	case kUint:
		return []uint{1, uint(v), 1}
	case kUint8:
		return [3]uint8{1, uint8(v), 1}
	}
	return []uintptr{1, uintptr(v), 1}
}

// fields gives the text of a struct whose field k has the value x and whose others are 0.
func fields(k int, x string, q string) string {
	s := "{"
	for i := 0; i < 11; i++ {
		if i > 0 {
			s += ","
		}
		v := "0"
		if i == k {
			v = x
		}
		s += `"` + "ABCDEFGHIJK"[i:i+1] + `":` + q + v + q
	}
	return s + "}"
}

// H_intEnc: every integer of kind k with n digits (neg: negative), written as
// m: 0 by the streamer, 1 Marshal, 2 a ,string field, 3 a map key, 4 a plain field
// behind a pointer, 5 an element, 6 after another value of an array by the streamer
func H_intEnc() {
	k, n, m := param("k"), param("n"), param("m")
	neg := param("neg") == 1
	digs, v, ok := anyInt(k, n, neg)
	if !ok {
		return
	}
	var out []byte
	var err error
	want := string(digs)
	switch m {
	case 0, 6:
		w := &sink{}
		s := jzon.NewStreamer()
		s.Reset(w)
		if m == 6 {
			s.ArrayStart().Null()
		}
		streamInt(s, k, v)
		if m == 6 {
			s.True().ArrayEnd()
			want = "[null," + want + ",true]"
		}
		err = s.Flush()
		out = w.b
		s.Release()
	case 1:
		out, err = jzon.Marshal(intOf(k, v))
	case 2:
		out, err = jzon.Marshal(qOf(k, v))
		want = fields(k, want, `"`)
	case 3:
		out, err = jzon.Marshal(mapOf(k, v))
		want = `{"` + want + `":true}`
	case 4:
		out, err = jzon.Marshal(pOf(k, v))
		want = fields(k, want, ``)
	case 5:
		out, err = jzon.Marshal(sliceOf(k, v))
		if intSigned[k] {
			want = "[-1," + want + ",1]"
		} else {
			want = "[1," + want + ",1]"
		}
	case 7:
		out, err = jzon.Marshal(quotedPtrOf(k, v))
		want = `{"P":"` + want + `","q":"` + want + `","n":null}`
	case 8:
		out, err = jzon.Marshal(namedOf(k, v))
		want = `{"V":` + want + `,"Q":"` + want + `","M":{"` + want + `":true},"L":[0,` + want + `],"P":` + want + `}`
	}
	vrt.Cover("written")
	vrt.ObserveBytes("out", out)
	vrt.Assert(err == nil, "writing an integer fails")
	vrt.Assert(string(out) == want, "the integer written is not the decimal form of the value")
}
func S_intEnc() {
	for k := kInt8; k <= kUintptr; k++ {
		jzon.Marshal(intOf(k, 1))
		jzon.Marshal(qOf(k, 1))
		jzon.Marshal(pOf(k, 1))
		jzon.Marshal(mapOf(k, 1))
		jzon.Marshal(sliceOf(k, 1))
		jzon.Marshal(quotedPtrOf(k, 1))
		jzon.Marshal(namedOf(k, 1))
	}
}

// H_intRound: what was written reads back as the same number (any value of n digits).
func H_intRound() {
	k, n := param("k"), param("n")
	_, v, ok := anyInt(k, n, param("neg") == 1)
	if !ok {
		return
	}
	b, err := jzon.Marshal(intOf(k, v))
	vrt.Assert(err == nil, "writing an integer fails")
	p, f := intPtr(k)
	err = jzon.Unmarshal(b, p)
	vrt.Cover("written")
	vrt.Assert(err == nil, "reading back an integer fails")
	vrt.Assert(f() == v, "an integer changes when it is written and read back")
	_ = math.MaxInt8
}
func S_intRound() { S_intEnc(); S_int() }

// integers behind pointers with the string option, and of defined types
type qPtr[T any] struct {
	P *T `json:",string"`
	Q *T `json:"q,string,omitempty"`
	N *T `json:"n,string"`
	O *T `json:"o,string,omitempty"`
}

func qPtrOf[T any](x T) interface{} { return qPtr[T]{P: &x, Q: &x} }

type nmS[T comparable] struct {
	V T
	Q T `json:",string"`
	M map[T]bool
	L [2]T
	P *T
}

func nmOf[T comparable](x T) interface{} {
	return &nmS[T]{V: x, Q: x, M: map[T]bool{x: true}, L: [2]T{1: x}, P: &x}
}

type (
	nmInt8    int8
	nmInt16   int16
	nmInt32   int32
	nmInt64   int64
	nmInt     int
	nmUint8   uint8
	nmUint16  uint16
	nmUint32  uint32
	nmUint64  uint64
	nmUint    uint
	nmUintptr uintptr
)

func quotedPtrOf(k int, v uint64) interface{} {
	switch k {
	case kInt8:
		return qPtrOf(int8(v))
	case kInt16:
		return qPtrOf(int16(v))
	case kInt32:
		return qPtrOf(int32(v))
	case kInt64:
		return qPtrOf(int64(v))
	case kInt:
		return qPtrOf(int(v))
	case kUint8:
		return qPtrOf(uint8(v))
	case kUint16:
		return qPtrOf(uint16(v))
	case kUint32:
		return qPtrOf(uint32(v))
	case kUint64:
		return qPtrOf(uint64(v))
	case kUint:
		return qPtrOf(uint(v))
	}
	return qPtrOf(uintptr(v))
}

func namedOf(k int, v uint64) interface{} {
	switch k {
	case kInt8:
		return nmOf(nmInt8(v))
	case kInt16:
		return nmOf(nmInt16(v))
	case kInt32:
		return nmOf(nmInt32(v))
	case kInt64:
		return nmOf(nmInt64(v))
	case kInt:
		return nmOf(nmInt(v))
	case kUint8:
		return nmOf(nmUint8(v))
	case kUint16:
		return nmOf(nmUint16(v))
	case kUint32:
		return nmOf(nmUint32(v))
	case kUint64:
		return nmOf(nmUint64(v))
	case kUint:
		return nmOf(nmUint(v))
	}
	return nmOf(nmUintptr(v))
}
