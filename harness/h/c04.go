package h

import (
	"strconv"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// the integer types, in the order of parameter k
const (
	kInt8 = iota
	kInt16
	kInt32
	kInt64
	kInt
	kUint8
	kUint16
	kUint32
	kUint64
	kUint
	kUintptr
)

var (
	intWidth  = []uint{8, 16, 32, 64, 64, 8, 16, 32, 64, 64, 64}
	intSigned = []bool{true, true, true, true, true, false, false, false, false, false, false}
)

// refInt reads the longest prefix -?(0|[1-9][0-9]*) of b[i:] as an integer of kind k;
// ok is false where there is none or it does not fit.
func refInt(b []byte, i, k int) (bits uint64, j int, ok bool) {
	neg := false
	if i < len(b) && b[i] == '-' {
		if !intSigned[k] {
			return 0, i, false
		}
		neg = true
		i++
	}
	if i >= len(b) || !isDigit(b[i]) {
		return 0, i, false
	}
	if b[i] == '0' {
		return 0, i + 1, true
	}
	limit := ^uint64(0) >> (64 - intWidth[k])
	if intSigned[k] {
		limit >>= 1
		if neg {
			limit++
		}
	}
	over := false
	j = digits(b, i)
	v := uint64(0)
	for p := i; p < j; p++ {
		d := uint64(b[p] - '0')
		if p-i == 19 {
			over = vrt.Or(v > 1844674407370955161, vrt.And(v == 1844674407370955161, d > 5))
		}
		v = v*10 + d
	}
	if j-i > 20 || over || v > limit {
		return 0, j, false
	}
	if neg {
		v = -v
	}
	return v, j, true
}

// readInt calls the pull API's reader of kind k; signed values are sign-extended.
func readInt(it *jzon.Iterator, k int) (uint64, error) {
	switch k {
	case kInt8:
		v, err := it.ReadInt8()
		return uint64(v), err
	case kInt16:
		v, err := it.ReadInt16()
		return uint64(v), err
	case kInt32:
		v, err := it.ReadInt32()
		return uint64(v), err
	case kInt64:
		v, err := it.ReadInt64()
		return uint64(v), err
	case kInt:
		v, err := it.ReadInt()
		return uint64(v), err
	case kUint8:
		v, err := it.ReadUint8()
		return uint64(v), err
	case kUint16:
		v, err := it.ReadUint16()
		return uint64(v), err
	case kUint32:
		v, err := it.ReadUint32()
		return uint64(v), err
	case kUint64:
		v, err := it.ReadUint64()
		return v, err
	}
	v, err := it.ReadUint()
	return uint64(v), err
}

type (
	myInt8   int8
	myUint64 uint64
)

// intPtr makes a target of kind k and a function that reads it.
func intPtr(k int) (interface{}, func() uint64) {
	switch k {
	case kInt8:
		v := new(int8)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kInt16:
		v := new(int16)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kInt32:
		v := new(int32)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kInt64:
		v := new(int64)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kInt:
		v := new(int)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kUint8:
		v := new(uint8)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kUint16:
		v := new(uint16)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kUint32:
		v := new(uint32)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	case kUint64:
		v := new(uint64)
		*v = 77
		return v, func() uint64 { return *v }
	case kUint:
		v := new(uint)
		*v = 77
		return v, func() uint64 { return uint64(*v) }
	}
	v := new(uintptr)
	*v = 77
	return v, func() uint64 { return uint64(*v) }
}

// quotedPtr makes a struct with a ",string" field of kind k.
func quotedPtr(k int) (interface{}, func() uint64) {
	switch k {
	case kInt8:
		v := &struct {
			F int8 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kInt16:
		v := &struct {
			F int16 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kInt32:
		v := &struct {
			F int32 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kInt64:
		v := &struct {
			F int64 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kInt:
		v := &struct {
			F int `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kUint8:
		v := &struct {
			F uint8 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kUint16:
		v := &struct {
			F uint16 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kUint32:
		v := &struct {
			F uint32 `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	case kUint64:
		v := &struct {
			F uint64 `json:",string"`
		}{77}
		return v, func() uint64 { return v.F }
	case kUint:
		v := &struct {
			F uint `json:",string"`
		}{77}
		return v, func() uint64 { return uint64(v.F) }
	}
	v := &struct {
		F uintptr `json:",string"`
	}{77}
	return v, func() uint64 { return uint64(v.F) }
}

// keyPtr makes a map with keys of kind k; the function gives the number of
// keys and the one that is not there at first.
func keyPtr(k int) (interface{}, func() (int, uint64)) {
	switch k {
	case kInt8:
		v := map[int8]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kInt16:
		v := map[int16]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kInt32:
		v := map[int32]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kInt64:
		v := map[int64]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kInt:
		v := map[int]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kUint8:
		v := map[uint8]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kUint16:
		v := map[uint16]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kUint32:
		v := map[uint32]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	case kUint64:
		v := map[uint64]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), x
			}
			return 0, 0
		}
	case kUint:
		v := map[uint]bool{}
		return &v, func() (int, uint64) {
			for x := range v {
				return len(v), uint64(x)
			}
			return 0, 0
		}
	}
	v := map[uintptr]bool{}
	return &v, func() (int, uint64) {
		for x := range v {
			return len(v), uint64(x)
		}
		return 0, 0
	}
}

// intAgrees reads an integer of kind k from b (mode m, source r).
//
//	0 Read* of the pull API  1 ReadVal  2 Unmarshal  3 a ",string" field  4 a map key
//	5 an element of a slice, between two others
func intAgrees(b []byte, k, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	var got uint64
	var err error
	var rest []byte
	i := skipWS(b, 0)
	want, j, ok := refInt(b, i, k)
	null := false
	old := uint64(77)
	switch m {
	case 0, 1:
		src(it, r, b)
		if m == 0 {
			got, err = readInt(it, k)
		} else {
			p, f := intPtr(k)
			err = it.ReadVal(p)
			got = f()
			if e, isNull := lit(b, i, "null"); isNull {
				null, j, ok, want = true, e, true, old
			}
		}
		rest = it.Buffer()
		if j < len(b) && ok && !null {
			// not a number as a whole: how much of it is taken is not specified
			c := b[j]
			if isDigit(c) || c == '.' || c == 'e' || c == 'E' {
				vrt.Cover("unspecified")
				return
			}
		}
	case 2:
		p, f := intPtr(k)
		err = jzon.Unmarshal(b, p)
		got = f()
		if e, isNull := lit(b, i, "null"); isNull {
			null, j, ok, want = true, e, true, old
		}
		if !ok && err != nil {
			vrt.Assert(got == old, "a failed decode changes the integer")
		}
		ok = ok && skipWS(b, j) == len(b)
	case 3:
		p, f := quotedPtr(k)
		doc := append(append([]byte(`{"F":"`), b...), `"}`...)
		src(it, r, doc)
		err = it.ReadVal(p)
		got = f()
		want, j, ok = refInt(b, 0, k)
		ok = ok && j == len(b)
		if !ok {
			// a quote in b changes the structure of the text
			for _, c := range b {
				if c == '"' {
					return
				}
			}
			if string(b) == "null" {
				return
			}
		}
	case 4:
		p, f := keyPtr(k)
		doc := append(append([]byte(`{"`), b...), `":true}`...)
		src(it, r, doc)
		err = it.ReadVal(p)
		var n int
		n, got = f()
		want, j, ok = refInt(b, 0, k)
		ok = ok && j == len(b)
		if !ok {
			for _, c := range b {
				if c == '"' {
					return
				}
			}
		} else {
			vrt.Assert(n == 1, "a map key is lost")
		}
	case 6: // a pointer with the string option, nil before
		p, f := quotedPtrTo(k)
		doc := append(append([]byte(`{"P":"`), b...), `","n":null}`...)
		src(it, r, doc)
		err = it.ReadVal(p)
		set := false
		got, set = f()
		want, j, ok = refInt(b, 0, k)
		ok = ok && j == len(b)
		if !ok {
			for _, c := range b {
				if c == '"' {
					return
				}
			}
			if string(b) == "null" {
				return
			}
		} else {
			vrt.Assert(set, "a nil pointer is not set")
		}
	case 7: // a defined type: value, quoted, key, element, behind a pointer
		doc := []byte{'{'}
		for i, name := range []string{`"V":`, `"Q":"`, `"M":{"`, `"L":[1,`, `"P":`} {
			if i > 0 {
				doc = append(doc, ',')
			}
			doc = append(append(append(doc, name...), b...), []string{``, `"`, `":true}`, `]`, ``}[i]...)
		}
		src(it, r, append(doc, '}'))
		p, f := namedTo(k)
		err = it.ReadVal(p)
		want, j, ok = refInt(b, 0, k)
		ok = ok && j == len(b)
		if !ok {
			return
		}
		good := true
		got, good = f(want)
		vrt.Assert(err != nil || good, "an integer of a defined type is not read everywhere alike")
	case 5:
		var x []int
		doc := append(append([]byte(`[1,`), b...), `,-2]`...)
		src(it, r, doc)
		err = it.ReadVal(&x)
		want, j, ok = refInt(b, i, kInt)
		j = skipWS(b, j)
		ok = ok && j == len(b)
		if !ok {
			vrt.Assume(err != nil) // b may hold commas
			return
		}
		if err == nil {
			vrt.Assert(len(x) == 3 && x[0] == 1 && x[2] == -2, "the neighbours of an integer change")
			got = uint64(x[1])
		}
	}
	vrt.ObserveInt("err", b2i(err != nil))
	vrt.Assert((err == nil) == ok, "an integer is accepted though malformed or out of range, or rejected though it fits")
	if !ok {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.ObserveInt("got", int64(got))
	if null {
		vrt.Assert(got == old, "null changes the integer")
	} else {
		vrt.Assert(got == want, "the integer read is not the one the text denotes")
	}
	if m < 2 && r < 0 {
		vrt.Assert(eqB(rest, b[j:]), "the reader does not stop right behind the integer")
	}
	it.Release()
}

// H_int: every text of n bytes.
func H_int() { intAgrees(bytesN(param("n")), param("k"), param("m"), param("r")) }
func S_int() {
	for k := kInt8; k <= kUintptr; k++ {
		p, _ := intPtr(k)
		jzon.Unmarshal([]byte(`{}`), p)
		p, _ = quotedPtr(k)
		jzon.Unmarshal([]byte(`{}`), p)
		p, _ = keyPtr(k)
		jzon.Unmarshal([]byte(`{}`), p)
		p, _ = quotedPtrTo(k)
		jzon.Unmarshal([]byte(`{}`), p)
		p, _ = namedTo(k)
		jzon.Unmarshal([]byte(`{}`), p)
	}
	var x []int
	jzon.Unmarshal([]byte(`{}`), &x)
}

// H_intD: s (0: none, 1: a minus sign), then n arbitrary digits, then e arbitrary bytes.
func H_intD() {
	t := ""
	if param("s") == 1 {
		t = "-"
	}
	b := tpl(t + rep("#", param("n")) + rep("?", param("e")))
	intAgrees(b, param("k"), param("m"), param("r"))
}
func S_intD() { S_int() }

// H_intL: the literals around the limits of the type with w arbitrary bytes at any place.
// l: 0 the maximum, 1 the minimum, 2 the maximum with one more digit, 3 maximum+1
func H_intL() {
	k, w := param("k"), param("w")
	max := ^uint64(0) >> (64 - intWidth[k])
	if intSigned[k] {
		max >>= 1
	}
	s := strconv.FormatUint(max, 10)
	switch param("l") {
	case 1:
		if intSigned[k] {
			s = "-" + strconv.FormatUint(max+1, 10)
		} else {
			s = "0"
		}
	case 2:
		s += "0"
	case 3:
		b := []byte(s)
		b[len(b)-1]++
		s = string(b)
	}
	if w > len(s) {
		w = len(s)
	}
	b := window(s, w)
	if param("e") > 0 {
		b = append(b, bytesN(param("e"))...)
	}
	intAgrees(b, k, param("m"), param("r"))
}
func S_intL() { S_int() }

// H_intTail: an integer far behind other text, so that the buffer of a reader ends inside it.
func H_intTail() {
	n := param("n")
	b := append([]byte(rep(" ", vrt.Choose(n))), tpl("-#####?")...)
	intAgrees(b, kInt32, 0, param("r"))
}
func S_intTail() { S_int() }

type anyInteger interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint | ~uintptr
}

func qPtrTo[T anyInteger]() (interface{}, func() (uint64, bool)) {
	x := &qPtr[T]{}
	return x, func() (uint64, bool) {
		if x.P == nil {
			return 0, false
		}
		return uint64(*x.P), x.N == nil
	}
}

func nmTo[T anyInteger]() (interface{}, func(uint64) (uint64, bool)) {
	x := &nmS[T]{}
	return x, func(w uint64) (uint64, bool) {
		v := x.V
		if x.P == nil {
			return uint64(v), false
		}
		return uint64(v), len(x.M) == 1 && x.M[v] && x.Q == v && x.L[0] == 1 && x.L[1] == v && *x.P == v
	}
}

func quotedPtrTo(k int) (interface{}, func() (uint64, bool)) {
	switch k {
	case kInt8:
		return qPtrTo[int8]()
	case kInt16:
		return qPtrTo[int16]()
	case kInt32:
		return qPtrTo[int32]()
	case kInt64:
		return qPtrTo[int64]()
	case kInt:
		return qPtrTo[int]()
	case kUint8:
		return qPtrTo[uint8]()
	case kUint16:
		return qPtrTo[uint16]()
	case kUint32:
		return qPtrTo[uint32]()
	case kUint64:
		return qPtrTo[uint64]()
	case kUint:
		return qPtrTo[uint]()
	}
	return qPtrTo[uintptr]()
}

func namedTo(k int) (interface{}, func(uint64) (uint64, bool)) {
	switch k {
	case kInt8:
		return nmTo[nmInt8]()
	case kInt16:
		return nmTo[nmInt16]()
	case kInt32:
		return nmTo[nmInt32]()
	case kInt64:
		return nmTo[nmInt64]()
	case kInt:
		return nmTo[nmInt]()
	case kUint8:
		return nmTo[nmUint8]()
	case kUint16:
		return nmTo[nmUint16]()
	case kUint32:
		return nmTo[nmUint32]()
	case kUint64:
		return nmTo[nmUint64]()
	case kUint:
		return nmTo[nmUint]()
	}
	return nmTo[nmUintptr]()
}
