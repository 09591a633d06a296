package h

import (
	"encoding/json"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

const pulls = 41

// pull makes one call of the iterator.
func pull(it *jzon.Iterator, m int) (err error) {
	switch m {
	case 0:
		_, err = it.Read()
	case 1:
		err = it.Skip()
	case 2:
		_, err = it.ReadString()
	case 3:
		_, err = it.ReadStringAsSlice()
	case 4:
		_, err = it.ReadStringAndAppend(make([]byte, 1, 3))
	case 5:
		_, err = it.ReadInt8()
	case 6:
		_, err = it.ReadInt16()
	case 7:
		_, err = it.ReadInt32()
	case 8:
		_, err = it.ReadInt64()
	case 9:
		_, err = it.ReadUint8()
	case 10:
		_, err = it.ReadUint16()
	case 11:
		_, err = it.ReadUint32()
	case 12:
		_, err = it.ReadUint64()
	case 13:
		_, err = it.ReadFloat32()
	case 14:
		_, err = it.ReadFloat64()
	case 15:
		_, err = it.ReadNumber()
	case 16:
		_, err = it.ReadBool()
	case 17:
		err = it.ReadNull()
	case 18:
		_, err = it.ReadArrayBegin()
	case 19:
		_, err = it.ReadArrayMore()
	case 20:
		_, _, err = it.ReadObjectBegin()
	case 21:
		_, _, err = it.ReadObjectMore()
	case 22:
		err = it.ReadArrayCB(func(it *jzon.Iterator) error { _, err := it.ReadInt8(); return err })
	case 23:
		err = it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return it.Skip() })
	case 24:
		_, err = it.ReadRaw()
	case 25:
		_, err = it.SkipRaw()
	case 26:
		_, err = it.AppendRaw([]byte("x"))
	case 27:
		err = it.SkipArray()
	case 28:
		err = it.SkipObject()
	case 29:
		err = it.SkipString()
	case 30:
		err = it.SkipNumber()
	case 31:
		_, err = it.NextValueType()
	case 32:
		x := contS{}
		err = it.ReadVal(&x)
	case 33:
		var x interface{}
		err = it.ReadVal(&x)
	case 34:
		x := json.RawMessage{}
		err = it.ReadVal(&x)
	case 35:
		x := ujVal{}
		err = it.ReadVal(&x)
	case 36:
		x := utVal{}
		err = it.ReadVal(&x)
	case 37:
		x := []byte{}
		err = it.ReadVal(&x)
	case 38:
		x := map[string]nestM{}
		err = it.ReadVal(&x)
	case 39:
		err = it.ReadArrayCB(func(it *jzon.Iterator) error { return nil })
	case 40:
		err = it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return errStop })
	}
	return
}

var pullSome = []int{0, 1, 3, 7, 14, 18, 19, 20, 21, 25, 31, 32}

// pullAll makes calls, whatever they report.
func pullAll(b []byte, r, fail, n int, op func(i int) int) {
	hookErr, hookGot = nil, nil
	vrt.ObserveBytes("in", b)
	keep := append([]byte{}, b...)
	it := jzon.NewIterator()
	rd := srcR(it, r, b)
	if rd != nil && fail == 1 {
		rd.fail = errBroken
	}
	left := len(b)
	for i := 0; i < n; i++ {
		err := pull(it, op(i))
		l := len(it.Buffer())
		if rd != nil {
			l += len(rd.data) - rd.pos
		}
		vrt.Assert(l <= left, "a read gives bytes back")
		left = l
		if err != nil {
			e := it.WrapError(err)
			vrt.Assert(e != nil && e.Error() != "", "an error has no text")
			vrt.Assert(it.WrapError(e) == e, "an error is wrapped twice")
			vrt.Cover("error")
		} else {
			vrt.Cover("read")
		}
	}
	it.Release()
	vrt.Assert(string(b) == string(keep), "reading changes the input")
	vrt.Cover("end")
}

// H_pull: n bytes, calls m, then l more of any kind, from source r (failing: f).
func H_pull() {
	m := param("m")
	pullAll(bytesN(param("n")), param("r"), param("f"), 1+param("l"), func(i int) int {
		if i == 0 {
			return m
		}
		return pullSome[vrt.Choose(len(pullSome))]
	})
}

// H_pull2: the same call again and again.
func H_pull2() {
	m := param("m")
	pullAll(bytesN(param("n")), param("r"), 0, 1+param("l"), func(i int) int { return m })
}

var pullTpl = []string{
	/*0*/ `{"a":[?,?],"b":{"c":`,
	/*1*/ `"\u?~~?`,
	/*2*/ `"\ud?00\u?c0?"`,
	/*3*/ `-0.?e??`,
	/*4*/ `[[[[{"":{"":[?`,
	/*5*/ `nul?,tru?`,
	/*6*/ `"` + pad(63) + `?\`,
	/*7*/ `{"a":1,"a":{"b":[]},"?":`,
	/*8*/ `184467440737095516??`,
	/*9*/ `_[_?`,
}

func H_pullT() {
	m := param("m")
	pullAll(tpl(pullTpl[param("t")]), param("r"), param("f"), 1+param("l"), func(i int) int {
		if i == 0 {
			return m
		}
		return pullSome[vrt.Choose(len(pullSome))]
	})
}

// ---- targets of every kind

type (
	inner  struct{ X int }
	Outer  struct{ Y int }
	selfE  struct{ *selfE }
	zooEmb struct {
		*inner
		*Outer
		Z int
	}
	zooBad struct {
		C chan int
		F func()
		K complex64
		M map[inner]int
		P *zooBad
		I interface{ Foo() }
		U uintptr
		A [2]zooLeaf
	}
	zooLeaf struct {
		B bool    `json:"b,string"`
		N int8    `json:"n,string"`
		F float32 `json:"f,string"`
		S string  `json:"s,string"`
		P *uint16 `json:"p,string"`
	}
)

const zoo = 38

// zooTarget gives a target; good says that it is one at all.
func zooTarget(k int) (t interface{}, good bool) {
	switch k {
	case 0:
		return new(chan int), true
	case 1:
		return new(func()), true
	case 2:
		return new(complex128), true
	case 3:
		return new(map[inner]int), true
	case 4:
		return new(map[bool]int), true
	case 5:
		return new(zooEmb), true
	case 6:
		return new(zooBad), true
	case 7:
		return new(selfE), true
	case 8:
		return new(zooLeaf), true
	case 9:
		return nil, false
	case 10:
		return 5, false
	case 11:
		return (*int)(nil), false
	case 12:
		return zooLeaf{}, false
	case 13:
		return map[string]int{}, false
	case 14:
		var x interface{}
		x = &x
		return x, true
	case 15:
		var x, y interface{}
		x, y = &y, &x
		return &x, true
	case 16:
		var x interface{ Foo() }
		return &x, true
	case 17:
		return new([0]int), true
	case 18:
		return new([]struct{}), true
	case 19:
		return new([3][2]bool), true
	case 20:
		return new(map[int8][]string), true
	case 21:
		return new(map[uint64]json.Number), true
	case 22:
		return new(json.Number), true
	case 23:
		return new(json.RawMessage), true
	case 24:
		return new([]json.RawMessage), true
	case 25:
		return new(***int), true
	case 26:
		return new([]*[]*[]byte), true
	case 27:
		return new(nestL), true
	case 28:
		return new(nestM), true
	case 29:
		return new(tree), true
	case 30:
		return new(float32), true
	case 31:
		return new(uintptr), true
	case 32:
		return new([]float64), true
	case 33:
		return new(map[string]interface{}), true
	case 34:
		return new(map[utKey]utVal), true
	case 35:
		return new([2]ujVal), true
	case 36:
		return new(bool), true
	case 37:
		return new(string), true
	}
	panic("zoo")
}

// zooAgrees: whatever the target, only a JSON text is decoded.
func zooAgrees(b []byte, k, r int) {
	hookErr, hookGot = nil, nil
	vrt.ObserveBytes("in", b)
	keep := append([]byte{}, b...)
	t, good := zooTarget(k)
	var err error
	if r < 0 {
		err = jzon.Unmarshal(b, t)
	} else {
		err = jzon.UnmarshalFromReader(newReader(r, b), t)
	}
	vrt.ObserveInt("err", b2i(err != nil))
	if err == nil {
		vrt.Assert(good, "something that is no target is decoded into")
		_, ok := refDoc(b)
		vrt.Assert(ok, "a text that is not JSON is decoded without an error")
		vrt.Cover("read")
	} else {
		vrt.Assert(err.Error() != "", "an error has no text")
		vrt.Cover("error")
	}
	vrt.Assert(string(b) == string(keep), "decoding changes the input")
	vrt.Cover("end")
}

func H_zoo()  { zooAgrees(bytesN(param("n")), param("k"), param("r")) }
func H_zooT() { zooAgrees(tpl(zooTpl[param("t")]), param("k"), param("r")) }
func S_zoo() {
	for k := 0; k < zoo; k++ {
		t, _ := zooTarget(k)
		jzon.Unmarshal([]byte("null"), t)
		t, _ = zooTarget(k)
		jzon.Unmarshal([]byte("{}"), t)
		t, _ = zooTarget(k)
		jzon.Unmarshal([]byte("[]"), t)
	}
}
func S_zooT() { S_zoo() }
func S_cut()  { S_zoo() }

var zooTpl = []string{
	/*0*/ `{"X":#,"Y":?,"Z":#}`,
	/*1*/ `{"P":{"P":{"A":[{},{"b":"?rue"}]}},"?":null}`,
	/*2*/ `{"b":"tru?","n":"-12?","f":1.?,"s":"\"?\"","p":"6553?"}`,
	/*3*/ `{"b":?,"n":?,"f":?,"s":?,"p":?}`,
	/*4*/ `[[?,[#]],[[],[]]?`,
	/*5*/ `{"?#":["?"],"-1":[]}`,
	/*6*/ `-#.#?-#`,
	/*7*/ `"??????"`,
	/*8*/ `{"a":{"b":{"c":{"d":{?`,
	/*9*/ `{"v":#,"l":{"R":{"l":null,"v":#}?},"R":null}`,
	/*10*/ `[1,2,?`,
	/*11*/ `{"C":?,"F":null,"K":?,"M":{},"I":null,"U":?}`,
	/*12*/ `[null,nul?]`,
}

// texts cut off at every place
var cutDocs = []string{
	/*0*/ `{"X":12,"Y":-3,"Z":4}`,
	/*1*/ `{"b":"true","n":"-12","f":1.5,"s":"\"x\"","p":"65"}`,
	/*2*/ `[[true,false],[null],[true]]`,
	/*3*/ `{"1":["x\u00e9"],"-1":[]}`,
	/*4*/ `[1.5e3,-2,0.25]`,
	/*5*/ `{"v":1,"l":{"v":2,"R":{"v":3}},"R":null}`,
	/*6*/ `{"a":{"b":{},"c":null},"d":{}}`,
	/*7*/ `[[],[[],[]]]`,
	/*8*/ `["QUJD",null,[1,2]]`,
	/*9*/ `"\ud83d\ude00 \\\" text"`,
	/*10*/ `{"k":{"x":[1,"two",{"y":false}]},"":""}`,
}

// H_cut: the text is cut off at any place and at most one byte is replaced.
func H_cut() {
	s := cutDocs[param("t")]
	p := vrt.Choose(len(s) + 1)
	b := []byte(s[:p])
	if x := param("x"); x >= 0 && x < p {
		b[x] = vrt.Byte()
	} else if x >= 0 {
		vrt.Assume(false)
	}
	zooAgrees(b, param("k"), param("r"))
}
