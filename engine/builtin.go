package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (cp *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []argDesc) func(fr *Frame) {
	m := cp.m
	one := func(f func(fr *Frame, a []W)) func(fr *Frame) {
		return func(fr *Frame) { f(fr, fr.getN(&args[0].o, args[0].n)) }
	}
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type().Underlying()
		isCap := b.Name() == "cap"
		switch u := t.(type) {
		case *types.Basic:
			return one(func(fr *Frame, a []W) { fr.m.setRet(a[1]) })
		case *types.Slice:
			return one(func(fr *Frame, a []W) {
				if isCap {
					fr.m.setRet(a[2])
				} else {
					fr.m.setRet(a[1])
				}
			})
		case *types.Array:
			n := uint64(u.Len())
			return func(fr *Frame) { fr.m.setRet(W{u: n}) }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) { fr.m.setRet(W{u: n}) }
		case *types.Map:
			return one(func(fr *Frame, a []W) {
				n := 0
				if a[0].o != nil {
					fr.m.trackMap(a[0].o, false)
					n = a[0].o.mp.n
				}
				fr.m.setRet(W{u: uint64(n)})
			})
		}
	case "append":
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			break
		}
		et := st.Elem()
		lay := m.layout(et)
		es := uint64(m.p.sizes.Sizeof(et))
		_, fromStr := cc.Args[1].Type().Underlying().(*types.Basic)
		return func(fr *Frame) {
			m := fr.m
			s := fr.getN(&args[0].o, 3)
			q := fr.getN(&args[1].o, args[1].n)
			if s[1].t != nil || q[1].t != nil {
				m.unsup("append with symbolic length")
			}
			_ = fromStr
			n := q[1].u
			if n == 0 {
				m.setRet(s[0], s[1], s[2])
				return
			}
			qp := q[0]
			r := m.growSlice(s[0], s[1].u, s[2].u, n, lay, et)
			m.copyElems(m.ptrAdd(r[0], s[1].u*es), qp, n, lay)
			m.setRet(r[0], r[1], r[2])
		}
	case "copy":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		lay := m.layout(et)
		return func(fr *Frame) {
			m := fr.m
			d := fr.getN(&args[0].o, 3)
			s := fr.getN(&args[1].o, args[1].n)
			if d[1].t != nil || s[1].t != nil {
				m.unsup("copy with symbolic length")
			}
			n := d[1].u
			if s[1].u < n {
				n = s[1].u
			}
			m.copyElems(d[0], s[0], n, lay)
			m.setRet(W{u: n})
		}
	case "delete":
		return func(fr *Frame) {
			mo := fr.get(&args[0].o).o
			fr.m.mapDelete(mo, fr.getN(&args[1].o, args[1].n))
			fr.m.ret = fr.m.ret[:0]
		}
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) {
				mo := fr.get(&args[0].o).o
				if mo != nil {
					d := fr.m.mapOwn(mo)
					d.ents, d.index, d.n, d.nsym = nil, map[string]*MapEnt{}, 0, 0
				}
				fr.m.ret = fr.m.ret[:0]
			}
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		lay := m.layout(et)
		return func(fr *Frame) {
			s := fr.getN(&args[0].o, 3)
			z := make([]W, len(lay.leaves))
			for i := uint64(0); i < s[1].u; i++ {
				fr.m.store(W{o: s[0].o, u: s[0].u + i*lay.size}, lay, z)
			}
			fr.m.ret = fr.m.ret[:0]
		}
	case "print", "println":
		return func(fr *Frame) { fr.m.ret = fr.m.ret[:0] }
	case "recover":
		return func(fr *Frame) { fr.m.doRecover() }
	case "ssa:wrapnilchk":
		return func(fr *Frame) {
			p := fr.get(&args[0].o)
			if p.o == nil {
				fr.m.goPanicMsg("value method called using nil pointer")
			}
			fr.m.setRet(p)
		}
	case "min", "max":
		t := cc.Args[0].Type()
		w, sg, fl, _ := typeWidth(m, t)
		mx := b.Name() == "max"
		if fl {
			break
		}
		return func(fr *Frame) {
			m := fr.m
			r := fr.get(&args[0].o)
			for i := 1; i < len(args); i++ {
				q := fr.get(&args[i].o)
				if r.t == nil && q.t == nil {
					less := r.u < q.u
					if sg {
						less = sext64(r.u, w) < sext64(q.u, w)
					}
					if less == mx {
						r = q
					}
					continue
				}
				x, y := m.toTerm(r, w), m.toTerm(q, w)
				var c *Term
				if sg {
					c = m.tb.Slt(x, y)
				} else {
					c = m.tb.Ult(x, y)
				}
				if mx {
					r = m.fromTerm(m.tb.Ite(c, y, x))
				} else {
					r = m.fromTerm(m.tb.Ite(c, x, y))
				}
			}
			m.setRet(r)
		}
	case "String": // unsafe.String
		return func(fr *Frame) {
			n := fr.m.concretize(fr.get(&args[1].o), 64)
			fr.m.setRet(fr.get(&args[0].o), W{u: n})
		}
	case "StringData", "SliceData":
		return one(func(fr *Frame, a []W) { fr.m.setRet(a[0]) })
	case "Slice":
		return func(fr *Frame) {
			n := fr.m.concretize(fr.get(&args[1].o), 64)
			fr.m.setRet(fr.get(&args[0].o), W{u: n}, W{u: n})
		}
	case "Add":
		return func(fr *Frame) {
			n := fr.m.concretize(fr.get(&args[1].o), 64)
			fr.m.setRet(fr.m.ptrAdd(fr.get(&args[0].o), n))
		}
	}
	name := b.Name()
	return func(fr *Frame) { fr.m.unsup("builtin %s", name) }
}
