// Package vrt is the interface between a harness and whatever runs it: the
// symbolic engine intercepts every exported function without a comment saying
// otherwise; compiled natively the functions below replay recorded inputs.
package vrt

import "fmt"

type Failure struct{ Kind, Msg string }

var (
	in     []uint64
	pos    int
	params map[string]int64
	Obs    []string
)

func Reset(inputs []uint64, ps map[string]int64) {
	in, pos, params, Obs = inputs, 0, ps, nil
}

func next() uint64 {
	if pos >= len(in) {
		panic(Failure{"input", "replay ran out of inputs"})
	}
	v := in[pos]
	pos++
	return v
}

// Symbolic reports whether the harness runs in the engine.
func Symbolic() bool { return false }

func Byte() byte                { return byte(next()) }
func ByteIn(lo, hi byte) byte   { return byte(next()) }
func U16() uint16               { return uint16(next()) }
func U32() uint32               { return uint32(next()) }
func U64() uint64               { return next() }
func U64In(lo, hi uint64) uint64 { return next() }
func Bool() bool                { return next() != 0 }
func Choose(n int) int          { return int(next()) }

func Assume(c bool) {
	if !c {
		panic(Failure{"assume", "assumption does not hold"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{"assert", msg})
	}
}

// And and Or do not branch.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

func IteU8(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Concretize splits the path on the value.
func Concretize(v uint64) uint64 { return v }

func Cover(tag string) {}

func Param(name string) int64 {
	v, ok := params[name]
	if !ok {
		panic(Failure{"param", "missing parameter " + name})
	}
	return v
}

func ObserveBytes(tag string, b []byte) {
	s := tag + "="
	for i, c := range b {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(c)
	}
	Obs = append(Obs, s)
}

func ObserveInt(tag string, v int64) { Obs = append(Obs, fmt.Sprintf("%s=%d", tag, uint64(v))) }
