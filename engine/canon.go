package main

import (
	"crypto/sha256"
	"encoding/binary"
	"sync"
)

// A query that differs from an earlier one only in the names of its variables
// has the same answer: the canonical form numbers variables by their place in
// vars and subterms by first occurrence.
func canonKey(cs []*Term, vars []*Term) [32]byte {
	buf := make([]byte, 0, 4096)
	u := func(x uint64) { buf = binary.AppendUvarint(buf, x) }
	num := map[*Term]uint64{}
	vn := map[uint64]uint64{}
	vt := func(v *Term) { // the variable as the solver sees it
		if v.orig != nil {
			v = v.orig
		}
		u(uint64(v.w))
		u(v.lo)
		u(v.hi)
	}
	for i, v := range vars {
		vn[v.k] = uint64(i)
		vt(v)
	}
	var walk func(t *Term) uint64
	walk = func(t *Term) uint64 {
		if n, ok := num[t]; ok {
			return n
		}
		var kids []uint64
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				kids = append(kids, walk(x)+1)
			} else {
				kids = append(kids, 0)
			}
		}
		for _, x := range t.ts {
			kids = append(kids, walk(x)+1)
		}
		n := uint64(len(num))
		num[t] = n
		u(uint64(t.op))
		u(uint64(t.w))
		if t.op == OVar {
			k, ok := vn[t.k]
			if !ok {
				k = 1<<32 + t.k // not among vars: keep its identity
			}
			u(k)
			vt(t)
		} else {
			u(t.k)
		}
		u(t.lo)
		u(t.hi)
		u(uint64(len(kids)))
		for _, k := range kids {
			u(k)
		}
		for _, k := range t.ks {
			u(k)
		}
		u(uint64(len(t.name)))
		buf = append(buf, t.name...)
		if t.op == OInSet {
			for _, x := range t.set {
				u(x)
			}
		}
		if t.tbl != nil {
			u(uint64(len(t.tbl.vals)))
			for _, x := range t.tbl.vals {
				u(x)
			}
		}
		return n
	}
	for _, c := range cs {
		n := walk(c)
		buf = append(buf, 0xff)
		u(n)
	}
	return sha256.Sum256(buf)
}

var (
	canonMu sync.Mutex
	canon   = map[[32]byte]qres{}
)

func canonGet(k [32]byte) (qres, bool) {
	canonMu.Lock()
	r, ok := canon[k]
	canonMu.Unlock()
	return r, ok
}

func canonPut(k [32]byte, r qres) {
	canonMu.Lock()
	canon[k] = r
	canonMu.Unlock()
}
