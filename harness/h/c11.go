package h

import (
	"errors"
	"io"
	"strconv"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

var errKind = errors.New("no value here")
var errStop = errors.New("stop")

// walk reads the next value piece by piece, in the given style, as a tree.
func walk(it *jzon.Iterator, style int) (*val, error) {
	vt, err := it.NextValueType()
	if err != nil {
		return nil, err
	}
	if v2, err2 := it.NextValueType(); err2 != nil || v2 != vt {
		vrt.Assert(false, "NextValueType consumes something")
	}
	v := &val{}
	switch vt {
	case jzon.NullValue:
		v.kind = 'n'
		return v, it.ReadNull()
	case jzon.BoolValue:
		b, err := it.ReadBool()
		v.kind = 'f'
		if b {
			v.kind = 't'
		}
		return v, err
	case jzon.StringValue:
		v.kind = 's'
		s := ""
		switch style {
		case 1:
			var b []byte
			b, err = it.ReadStringAsSlice()
			s = string(b)
		case 2:
			var b []byte
			b, err = it.ReadStringAndAppend(nil)
			s = string(b)
		default:
			s, err = it.ReadString()
		}
		v.s = []byte(s)
		return v, err
	case jzon.NumberValue:
		v.kind = '0'
		if style == 1 {
			b, err := it.ReadRaw()
			v.s = b
			return v, err
		}
		n, err := it.ReadNumber()
		v.s = []byte(n)
		return v, err
	case jzon.ArrayValue:
		v.kind = 'a'
		one := func(it *jzon.Iterator) error {
			e, err := walk(it, style)
			v.e = append(v.e, e)
			return err
		}
		if style == 1 {
			return v, it.ReadArrayCB(one)
		}
		more, err := it.ReadArrayBegin()
		for ; more && err == nil; more, err = it.ReadArrayMore() {
			if err := one(it); err != nil {
				return v, err
			}
		}
		vrt.Assert(err == nil || !more, "an error together with more")
		return v, err
	case jzon.ObjectValue:
		v.kind = 'o'
		one := func(it *jzon.Iterator, name string) error {
			v.k = append(v.k, []byte(name))
			e, err := walk(it, style)
			v.e = append(v.e, e)
			return err
		}
		if style == 1 {
			return v, it.ReadObjectCB(one)
		}
		more, name, err := it.ReadObjectBegin()
		for ; more && err == nil; more, name, err = it.ReadObjectMore() {
			if err := one(it, name); err != nil {
				return v, err
			}
		}
		vrt.Assert(err == nil || !more, "an error together with more")
		return v, err
	}
	vrt.Assert(vt == jzon.InvalidValue, "NextValueType tells a kind that does not exist")
	return nil, errKind
}

// flat walks the outermost container only, skipping what is in it.
func flat(it *jzon.Iterator, style int, b []byte) (*val, error) {
	v := &val{}
	vt, err := it.NextValueType()
	if err != nil {
		return nil, err
	}
	skip := func(it *jzon.Iterator) error {
		switch style {
		case 4:
			return it.Skip()
		case 5:
			_, err := it.SkipRaw()
			return err
		}
		t, err := it.NextValueType()
		if err != nil {
			return err
		}
		switch t {
		case jzon.ArrayValue:
			return it.SkipArray()
		case jzon.ObjectValue:
			return it.SkipObject()
		case jzon.StringValue:
			return it.SkipString()
		case jzon.NumberValue:
			return it.SkipNumber()
		}
		return it.Skip()
	}
	switch vt {
	case jzon.ArrayValue:
		v.kind = 'a'
		if style == 5 {
			return v, it.ReadArrayCB(func(it *jzon.Iterator) error {
				v.e = append(v.e, nil)
				return skip(it)
			})
		}
		more, err := it.ReadArrayBegin()
		for ; more && err == nil; more, err = it.ReadArrayMore() {
			v.e = append(v.e, nil)
			if err := skip(it); err != nil {
				return v, err
			}
		}
		return v, err
	case jzon.ObjectValue:
		v.kind = 'o'
		if style == 5 {
			return v, it.ReadObjectCB(func(it *jzon.Iterator, n string) error {
				v.k = append(v.k, []byte(n))
				v.e = append(v.e, nil)
				return skip(it)
			})
		}
		more, n, err := it.ReadObjectBegin()
		for ; more && err == nil; more, n, err = it.ReadObjectMore() {
			v.k = append(v.k, []byte(n))
			v.e = append(v.e, nil)
			if err := skip(it); err != nil {
				return v, err
			}
		}
		return v, err
	}
	return nil, it.Skip()
}

func sameTree(x, y *val) bool {
	if x.kind != y.kind || !eqB(x.s, y.s) && (x.kind == 's' || x.kind == '0') || len(x.e) != len(y.e) || len(x.k) != len(y.k) {
		return false
	}
	for i := range x.k {
		if !eqB(x.k[i], y.k[i]) {
			return false
		}
	}
	for i := range x.e {
		if !sameTree(x.e[i], y.e[i]) {
			return false
		}
	}
	return true
}

func walkAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	rd := srcR(it, r, b)
	var (
		x   *val
		err error
	)
	if m < 4 {
		x, err = walk(it, m)
	} else {
		x, err = flat(it, m, b)
	}
	left := rest(it, rd)
	it.Release()
	vrt.ObserveInt("err", b2i(err != nil))
	v, j, ok := refValue(b, 0)
	vrt.Assert((err == nil) == ok, "walking a text accepts something that is not a value, or rejects one")
	if !ok {
		if skipWS(b, 0) == len(b) {
			vrt.Assert(err == io.EOF, "the end of the input is not reported as io.EOF")
		}
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.Assert(eqB(left, b[j:]), "walking a value does not stop right behind it")
	if m < 4 {
		vrt.Assert(sameTree(x, v), "walking a text gives another value than it denotes")
		return
	}
	if v.kind == 'a' || v.kind == 'o' {
		vrt.Assert(x.kind == v.kind && len(x.e) == len(v.e) && len(x.k) == len(v.k), "walking a container finds another number of members")
		for i := range x.k {
			vrt.Assert(eqB(x.k[i], v.k[i]), "walking an object finds another name")
		}
	}
}

func H_walk()  { walkAgrees(bytesN(param("n")), param("m"), param("r")) }
func H_walkT() { walkAgrees(tpl(docs[param("t")]), param("m"), param("r")) }
func H_walkW() {
	walkAgrees(splice(bigDocs[param("t")], param("w"), param("x")), param("m"), param("r"))
}
func H_walkGen() { walkAgrees(genDoc(param("n")), param("m"), param("r")) }

// kindAgrees: the reader for one kind of value takes exactly that kind.
func kindAgrees(b []byte, m, r int) {
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	rd := srcR(it, r, b)
	v, j, ok := refValue(b, 0)
	var (
		err  error
		kind string
		good = true
	)
	switch m {
	case 0:
		err, kind = it.ReadNull(), "n"
	case 1:
		var x bool
		x, err = it.ReadBool()
		kind = "tf"
		good = ok && x == (v.kind == 't')
	case 2:
		var x bool
		err = it.ReadVal(&x)
		kind = "tf"
		good = ok && x == (v.kind == 't')
		if ok && v.kind == 'n' {
			ok, good = err == nil, !x // null leaves a bool unchanged
			kind = "n"
		}
	case 3:
		var s string
		s, err = it.ReadString()
		kind = "s"
		good = ok && s == string(v.s)
	case 4:
		var vt jzon.ValueType
		vt, err = it.NextValueType()
		left := rest(it, rd)
		i := skipWS(b, 0)
		vrt.Assert((err != nil) == (i == len(b)), "NextValueType fails although something is left, or not at the end")
		if err == nil {
			vrt.Assert(eqB(left, b[i:]), "NextValueType consumes more than white space")
			want := jzon.InvalidValue
			switch c := b[i]; {
			case c == '"':
				want = jzon.StringValue
			case c == '{':
				want = jzon.ObjectValue
			case c == '[':
				want = jzon.ArrayValue
			case c == 't' || c == 'f':
				want = jzon.BoolValue
			case c == 'n':
				want = jzon.NullValue
			case c == '-' || isDigit(c):
				want = jzon.NumberValue
			}
			vrt.Assert(vt == want, "NextValueType tells another kind")
			vrt.Cover("read")
		} else {
			vrt.Assert(err == io.EOF, "the end of the input is not reported as io.EOF")
			vrt.Cover("rejected")
		}
		it.Release()
		return
	case 5:
		_, err = it.ReadArrayBegin()
		i := skipWS(b, 0)
		ok, kind, good = i < len(b) && b[i] == '[' && skipWS(b, i+1) < len(b), "", true
		vrt.Assert((err == nil) == ok, "ReadArrayBegin accepts something else than an array, or not every one")
		it.Release()
		return
	}
	left := rest(it, rd)
	it.Release()
	is := false
	for i := 0; i < len(kind); i++ {
		is = is || ok && v.kind == kind[i]
	}
	vrt.Assert((err == nil) == is, "the reader for a kind of value accepts another kind, or not every value of it")
	if !is {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("read")
	vrt.Assert(good, "the reader for a kind of value gives another value")
	vrt.Assert(eqB(left, b[j:]), "the reader for a kind of value does not stop right behind it")
}

func H_kind() { kindAgrees(bytesN(param("n")), param("m"), param("r")) }
func H_kindT() {
	kindAgrees(tpl([]string{` _true?`, `?fals??`, `_nul??`, `?"^"_?`, `tru`, `falsee?`, `_[_]`, `_[?`}[param("t")]), param("m"), param("r"))
}

// H_cbStop: the callback's error comes back as it is and nothing more is read.
func H_cbStop() {
	n := param("n")
	obj := param("o") == 1
	stop := vrt.Choose(n + 1)
	b := []byte("[")
	if obj {
		b = []byte("{")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if obj {
			b = append(b, '"', vrt.ByteIn('a', 'z'), '"', ':')
		}
		b = append(b, vrt.ByteIn('0', '9'))
	}
	if obj {
		b = append(b, '}')
	} else {
		b = append(b, ']')
	}
	vrt.ObserveBytes("in", b)
	it := jzon.NewIterator()
	src(it, param("r"), b)
	calls := 0
	one := func(it *jzon.Iterator) error {
		if calls == stop {
			calls++
			return errStop
		}
		calls++
		v, err := it.ReadUint8()
		k := 1 + 2*(calls-1)
		if obj {
			k = 5 + 6*(calls-1)
		}
		vrt.Assert(err == nil && v == b[k]-'0', "a callback reads another element")
		return err
	}
	var err error
	if obj {
		err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			vrt.Assert(len(f) == 1 && f[0] == b[2+6*calls], "a callback gets another name")
			return one(it)
		})
	} else {
		err = it.ReadArrayCB(one)
	}
	it.Release()
	if stop < n {
		vrt.Cover("stopped")
		vrt.Assert(err == errStop, "the callback's error is not returned")
		vrt.Assert(calls == stop+1, "the callback is called again after its error")
		return
	}
	vrt.Cover("all")
	vrt.Assert(err == nil && calls == n, "the callback is not called for every member")
}

// H_walkLong: an object of n members and an array of n elements; names and strings of
// l bytes whose last ones are arbitrary; the last member's value is cut open.
func H_walkLong() {
	n, l := param("n"), param("l")
	s := `{"` + rep("n", l) + `?\u00~~":[`
	for i := 0; i < n; i++ {
		s += "12,"
	}
	s += `#],`
	for i := 0; i < n; i++ {
		s += `"` + rep("k", l) + strconv.Itoa(i) + `":"` + rep("v", i%40) + `",`
	}
	s += `"` + rep("m", l) + `?":0,"` + rep("m", l) + `\u00~~":?{}}?`
	walkAgrees(tpl(s), param("m"), param("r"))
}
