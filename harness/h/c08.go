package h

import (
	"math"
	"strconv"

	"github.com/zerosnake0/jzon"
	"vharness/vrt"
)

// refFloat is the literal encoding/json documents: the shortest that reads back
// the same, with an exponent below 1e-6 and from 1e21 on (as in ES6), whose
// single digits are not padded.
func refFloat(f float64, bits int) []byte {
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	b := strconv.AppendFloat(nil, f, fm, -1, bits)
	if n := len(b); fm == 'e' && n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
		b = append(b[:n-2], b[n-1])
	}
	return b
}

type (
	f64s struct {
		A int
		F float64
		B string
	}
	f32s struct {
		A int
		F float32
		B string
	}
	myF64 float64
	myF32 float32
)

// floatEncAgrees writes the float with the given bits (k 0: float64, 1: float32) in mode m.
func floatEncAgrees(x uint64, k, m int) {
	vrt.ObserveInt("bits", int64(x))
	f := math.Float64frombits(x)
	g := math.Float32frombits(uint32(x))
	bits := 64
	if k == 1 {
		bits = 32
		f = float64(g)
	}
	var (
		out       []byte
		err       error
		pre, post string
	)
	is32 := k == 1
	any2 := func() interface{} {
		if is32 {
			return g
		}
		return f
	}
	w := &sink{}
	switch m {
	case 0:
		s := jzon.NewStreamer()
		s.Reset(w)
		if is32 {
			s.Float32(g)
		} else {
			s.Float64(f)
		}
		err = s.Error
		if err == nil {
			err = s.Flush()
		} else {
			s.Flush()
		}
		s.Release()
		out = w.b
	case 1:
		out, err = jzon.Marshal(any2())
	case 2:
		if is32 {
			out, err = jzon.Marshal(&f32s{1, g, "x"})
		} else {
			out, err = jzon.Marshal(&f64s{1, f, "x"})
		}
		pre, post = `{"A":1,"F":`, `,"B":"x"}`
	case 3:
		if is32 {
			out, err = jzon.Marshal([]float32{1, g, 2})
		} else {
			out, err = jzon.Marshal([]float64{1, f, 2})
		}
		pre, post = `[1,`, `,2]`
	case 4:
		if is32 {
			h := myF32(g)
			out, err = jzon.Marshal([]interface{}{&h})
		} else {
			h := myF64(f)
			out, err = jzon.Marshal([]interface{}{&h})
		}
		pre, post = `[`, `]`
	case 5:
		out, err = jzon.Marshal(map[string]interface{}{"k": any2()})
		pre, post = `{"k":`, `}`
	case 6:
		s := jzon.NewStreamer()
		s.Reset(w)
		s.ObjectStart().Field("x").ArrayStart().Int(7)
		if is32 {
			s.Float32(g)
		} else {
			s.Float64(f)
		}
		s.Bool(true).ArrayEnd().ObjectEnd()
		err = s.Error
		if err == nil {
			err = s.Flush()
		} else {
			s.Flush()
		}
		s.Release()
		out = w.b
		pre, post = `{"x":[7,`, `,true]}`
	case 7:
		e := jzon.NewEncoder(w)
		err = e.Encode(any2())
		e.Release()
		out = w.b
		post = "\n"
	}
	vrt.ObserveBytes("out", out)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		vrt.Assert(err != nil, "writing NaN or an infinity is no error")
		vrt.Assert(len(out) == 0, "something is written for NaN or an infinity")
		vrt.Cover("refused")
		return
	}
	vrt.Assert(err == nil, "writing a finite float fails")
	want := refFloat(f, bits)
	n := len(pre)
	vrt.Assert(len(out) == n+len(want)+len(post), "a float is written as a literal of another length than encoding/json's")
	if len(out) == n+len(want)+len(post) {
		vrt.Assert(string(out[:n]) == pre && string(out[n+len(want):]) == post, "what is written around a float is wrong")
		vrt.Assert(eqB(out[n:n+len(want)], want), "a float is written as another literal than encoding/json's")
	}
	vrt.Cover("written")
}

// H_floatEnc: every float.
func H_floatEnc() {
	k := param("k")
	var x uint64
	if k == 1 {
		x = uint64(vrt.U32())
	} else {
		x = vrt.U64()
	}
	floatEncAgrees(x, k, param("m"))
}
func S_floatEnc() {
	f := myF64(1)
	g := myF32(1)
	for _, x := range []interface{}{1.5, float32(1.5), &f32s{}, &f64s{}, []float32{1}, []float64{1}, []interface{}{&f}, []interface{}{&g}, map[string]interface{}{"k": 1.5}} {
		jzon.Marshal(x)
	}
}

// H_floatEncR: every float64 whose size is near the limits where the form changes
// (r 0: from 1e-12 to 1e-4, 1: from 1e18 to 1e24, 2: from 1 to 1000, 3: below 1e-300,
// 4: NaN, the infinities and all above 1e300), of either sign.
func H_floatEncR() {
	lim := [][2]float64{{1e-12, 1e-4}, {1e18, 1e24}, {1, 1000}, {0, 1e-300}, {1e300, math.Inf(1)}}[param("r")]
	hi := math.Float64bits(lim[1])
	if param("r") == 4 {
		hi = 1<<63 - 1
	}
	x := vrt.U64In(math.Float64bits(lim[0]), hi)
	if vrt.Choose(2) == 1 {
		x |= 1 << 63
	}
	floatEncAgrees(x, 0, param("m"))
}
func S_floatEncR() { S_floatEnc() }
