package main

import (
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packages whose initialisers are interpreted
func initOK(path string) bool {
	switch path {
	case "errors", "io", "unicode", "unicode/utf8", "unicode/utf16", "strconv", "bytes", "strings", "math", "math/bits",
		"encoding/base64", "encoding/binary", "encoding/json", "encoding", "sort", "slices", "cmp", "internal/stringslite",
		"internal/byteorder", "iter", "maps", "internal/itoa", "unsafe":
		return true
	}
	return strings.HasPrefix(path, "github.com/zerosnake0/jzon") || strings.HasPrefix(path, "vharness")
}

type intrFn = func(fr *Frame, a []W)

func (m *Machine) intrinsic(fn *ssa.Function) intrFn {
	name := fn.String()
	if fn.Blocks == nil && fn.Pkg != nil {
		if t, ok := m.p.link[fn.Pkg.Pkg.Path()+"."+fn.Name()]; ok {
			name = t
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if o.String() == "reflect.TypeFor" {
			t := fn.TypeArgs()[0]
			return func(fr *Frame, a []W) { r := fr.m.reflectType(t); fr.m.setRet(r[0], r[1]) }
		}
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	if strings.HasPrefix(name, "(*vharness/vrt.") || strings.HasPrefix(name, "vharness/vrt.") {
		if f := m.vrt(fn); f != nil {
			return f
		}
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Pkg.Func("init") == fn && !initOK(fn.Pkg.Pkg.Path()) {
		return func(fr *Frame, a []W) {}
	}
	if strings.HasPrefix(name, "fmt.") && fn.Signature.Recv() == nil {
		return fmtIntrinsic(fn.Name())
	}
	return nil
}

func fmtIntrinsic(name string) intrFn {
	switch name {
	case "Sprintf", "Sprint", "Sprintln":
		return func(fr *Frame, a []W) { s := fr.m.strW("<fmt>"); fr.m.setRet(s[0], s[1]) }
	case "Errorf":
		return func(fr *Frame, a []W) {
			m := fr.m
			s := m.strW("<fmt error>")
			code := m.codeOf(m.p.byPath["errors"].Func("New"))
			m.call(code, s[:], nil)
		}
	}
	return nil
}

func conc(m *Machine, w W) uint64 { return m.concretize(w, 64) }

func (m *Machine) typArg(w W) types.Type {
	d := dynType(w)
	if d == nil || d.kind != KType {
		m.unsup("not a type word")
	}
	return d.typ
}

// reflectType builds a reflect.Type interface value for t.
func (m *Machine) reflectType(t types.Type) [2]W {
	rt := m.p.byPath["reflect"].Type("rtype")
	ptr := types.NewPointer(rt.Type())
	return [2]W{{o: m.typeOf(ptr).other}, {o: m.typeOf(t)}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func rtMethod(f func(m *Machine, t types.Type, a []W)) intrFn {
	return func(fr *Frame, a []W) { f(fr.m, fr.m.typArg(a[0]), a[1:]) }
}

func elemOf(m *Machine, t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	m.goPanicMsg("reflect: Elem of invalid type " + t.String())
	return nil
}

var intrinsics map[string]intrFn

func init() {
	nop := func(fr *Frame, a []W) {}
	intrinsics = map[string]intrFn{
		"runtime.Gosched":   nop,
		"runtime.GC":        nop,
		"runtime.KeepAlive": nop,

		// ---- sync ----
		"(*sync.Mutex).Lock":      func(fr *Frame, a []W) { fr.m.lock(poolKey{a[0].o, a[0].u}, false) },
		"(*sync.Mutex).Unlock":    func(fr *Frame, a []W) { fr.m.unlock(poolKey{a[0].o, a[0].u}) },
		"(*sync.RWMutex).Lock":    func(fr *Frame, a []W) { fr.m.lock(poolKey{a[0].o, a[0].u}, true) },
		"(*sync.RWMutex).Unlock":  func(fr *Frame, a []W) { fr.m.unlock(poolKey{a[0].o, a[0].u}) },
		"(*sync.RWMutex).RLock":   func(fr *Frame, a []W) { fr.m.rlock(poolKey{a[0].o, a[0].u}) },
		"(*sync.RWMutex).RUnlock": func(fr *Frame, a []W) { fr.m.runlock(poolKey{a[0].o, a[0].u}) },
		"(*sync.Pool).Put": func(fr *Frame, a []W) {
			m := fr.m
			if a[1].o == nil {
				return
			}
			m.yield()
			k := poolKey{a[0].o, a[0].u}
			m.pools[k] = append(m.pools[k], [2]W{a[1], a[2]})
			if a[2].o != nil {
				m.release(poolKey{a[2].o, a[2].u})
			}
		},
		"(*sync.Pool).Get": func(fr *Frame, a []W) {
			m := fr.m
			if a[0].o == nil {
				m.nilDeref()
			}
			m.yield()
			k := poolKey{a[0].o, a[0].u}
			if l := m.pools[k]; len(l) > 0 {
				v := l[len(l)-1]
				if v[1].o != nil {
					m.acquire(poolKey{v[1].o, v[1].u})
				}
				m.pools[k] = l[: len(l)-1 : len(l)-1]
				m.setRet(v[0], v[1])
				return
			}
			// the New field
			st := m.p.byPath["sync"].Type("Pool").Type().Underlying().(*types.Struct)
			fs := make([]*types.Var, st.NumFields())
			at := -1
			for i := range fs {
				fs[i] = st.Field(i)
				if fs[i].Name() == "New" {
					at = i
				}
			}
			off := uint64(m.p.sizes.Offsetsof(fs)[at])
			var f [1]W
			m.load(W{o: a[0].o, u: a[0].u + off}, m.layout(types.Typ[types.Uintptr]), f[:])
			if f[0].o == nil {
				m.setRet(W{}, W{})
				return
			}
			m.callFunc(f[0], nil)
		},
		"(*sync/atomic.Value).Load": func(fr *Frame, a []W) {
			var v [2]W
			fr.m.yield()
			fr.m.acquire(poolKey{a[0].o, a[0].u})
			fr.m.unchecked(func() { fr.m.load(a[0], fr.m.layout(emptyIface), v[:]) })
			fr.m.setRet(v[0], v[1])
		},
		"(*sync/atomic.Value).Store": func(fr *Frame, a []W) {
			if a[1].o == nil {
				fr.m.goPanicMsg("sync/atomic: store of nil value into Value")
			}
			var v [2]W
			fr.m.yield()
			fr.m.unchecked(func() { fr.m.load(a[0], fr.m.layout(emptyIface), v[:]) })
			if v[0].o != nil && v[0].o != a[1].o {
				fr.m.goPanicMsg("sync/atomic: store of inconsistently typed value into Value")
			}
			fr.m.unchecked(func() { fr.m.store(a[0], fr.m.layout(emptyIface), a[1:3]) })
			fr.m.release(poolKey{a[0].o, a[0].u})
		},
		"(*sync.Once).Do": func(fr *Frame, a []W) {
			m := fr.m
			var v [1]W
			l := m.layout(types.Typ[types.Uint32])
			k := poolKey{a[0].o, a[0].u}
			m.yield()
			if m.par != nil {
				// wait for a call under way
				m.block(func() bool { return m.locks[k] == 0 })
			}
			m.unchecked(func() { m.load(a[0], l, v[:]) })
			if v[0].u == 0 {
				m.locks[k] = 1
				m.callFunc(a[1], nil)
				m.locks[k] = 0
				m.unchecked(func() { m.store(a[0], l, []W{{u: 1}}) })
				m.release(k)
			} else {
				m.acquire(k)
			}
			m.ret = m.ret[:0]
		},

		// ---- bytes ----
		"internal/bytealg.IndexByte":       func(fr *Frame, a []W) { fr.m.indexByte(a[0], a[1], a[3]) },
		"internal/bytealg.IndexByteString": func(fr *Frame, a []W) { fr.m.indexByte(a[0], a[1], a[2]) },
		"internal/bytealg.Equal": func(fr *Frame, a []W) {
			m := fr.m
			if a[1].u != a[4].u {
				m.setRet(W{})
				return
			}
			m.setRet(m.fromTerm(m.bytesEq(a[0], a[3], a[1].u)))
		},
		"bytes.Equal": func(fr *Frame, a []W) {
			m := fr.m
			if a[1].u != a[4].u {
				m.setRet(W{})
				return
			}
			m.setRet(m.fromTerm(m.bytesEq(a[0], a[3], a[1].u)))
		},
		"internal/bytealg.Compare": func(fr *Frame, a []W) {
			m := fr.m
			m.setRet(W{u: uint64(int64(m.cmpBytes(a[0], a[1].u, a[3], a[4].u)))})
		},
		"internal/bytealg.CompareString": func(fr *Frame, a []W) {
			m := fr.m
			m.setRet(W{u: uint64(int64(m.cmpBytes(a[0], a[1].u, a[2], a[3].u)))})
		},
		"internal/bytealg.Count":       func(fr *Frame, a []W) { fr.m.countByte(a[0], a[1], a[3]) },
		"internal/bytealg.CountString": func(fr *Frame, a []W) { fr.m.countByte(a[0], a[1], a[2]) },
		"internal/bytealg.MakeNoZero": func(fr *Frame, a []W) {
			m := fr.m
			n := conc(m, a[0])
			c := roundupsize(n)
			o := m.newObjN(m.byteLay, int(c))
			m.setRet(W{o: o}, W{u: n}, W{u: c})
		},
		"internal/bytealg.Index":       func(fr *Frame, a []W) { fr.m.indexBytes(a[0], a[1].u, a[3], a[4].u) },
		"internal/bytealg.IndexString": func(fr *Frame, a []W) { fr.m.indexBytes(a[0], a[1].u, a[2], a[3].u) },
		"strings.Index":                func(fr *Frame, a []W) { fr.m.indexBytes(a[0], a[1].u, a[2], a[3].u) },
		"bytes.Index":                  func(fr *Frame, a []W) { fr.m.indexBytes(a[0], a[1].u, a[3], a[4].u) },
		"strings.Clone": func(fr *Frame, a []W) {
			m := fr.m
			o := m.newObjN(m.byteLay, int(a[1].u))
			for i := range o.cells {
				o.cells[i] = m.byteAt(a[0], uint64(i))
			}
			m.setRet(W{o: o}, a[1])
		},

		// ---- strconv ----
		"strconv.ParseFloat": func(fr *Frame, a []W) { fr.m.parseFloat(a) },
		"strconv.AppendFloat": func(fr *Frame, a []W) {
			m := fr.m
			fm, prec, bs := a[4], int(int64(conc(m, a[5]))), int(conc(m, a[6]))
			if a[3].t != nil {
				// opaque digits: the formatted number is a function of (bits, format)
				m.appendFloatSym(a, conc(m, fm), prec, bs)
				return
			}
			f := math.Float64frombits(a[3].u)
			m.appendTo(a[:3], strconv.AppendFloat(nil, f, byte(conc(m, fm)), prec, bs))
		},
		"strconv.FormatFloat": func(fr *Frame, a []W) {
			m := fr.m
			if a[0].t != nil {
				m.unsup("FormatFloat of symbolic value")
			}
			s := m.strW(strconv.FormatFloat(math.Float64frombits(a[0].u), byte(conc(m, a[1])), int(int64(conc(m, a[2]))), int(conc(m, a[3]))))
			m.setRet(s[0], s[1])
		},
		"strconv.FormatUint": func(fr *Frame, a []W) {
			m := fr.m
			if a[0].t != nil {
				s := m.strW("<number>") // only used in error messages
				m.setRet(s[0], s[1])
				return
			}
			s := m.strW(strconv.FormatUint(a[0].u, int(conc(m, a[1]))))
			m.setRet(s[0], s[1])
		},

		// ---- sort ----
		"sort.Slice":       func(fr *Frame, a []W) { fr.m.sortSlice(a) },
		"sort.SliceStable": func(fr *Frame, a []W) { fr.m.sortSlice(a) },

		// ---- reflect ----
		"reflect.TypeOf": func(fr *Frame, a []W) {
			d := dynType(a[0])
			if d == nil {
				fr.m.setRet(W{}, W{})
				return
			}
			r := fr.m.reflectType(d.typ)
			fr.m.setRet(r[0], r[1])
		},
		"reflect.PtrTo": func(fr *Frame, a []W) {
			r := fr.m.reflectType(types.NewPointer(fr.m.typArg(a[1])))
			fr.m.setRet(r[0], r[1])
		},
		"reflect.PointerTo": func(fr *Frame, a []W) {
			r := fr.m.reflectType(types.NewPointer(fr.m.typArg(a[1])))
			fr.m.setRet(r[0], r[1])
		},
		"reflect.SliceOf": func(fr *Frame, a []W) {
			r := fr.m.reflectType(types.NewSlice(fr.m.typArg(a[1])))
			fr.m.setRet(r[0], r[1])
		},
		"reflect.TypeFor": func(fr *Frame, a []W) {
			fr.m.unsup("reflect.TypeFor")
		},
		"reflect.New": func(fr *Frame, a []W) {
			m := fr.m
			t := m.typArg(a[1])
			m.setRet(W{o: m.typeOf(types.NewPointer(t))}, W{o: m.newObj(t)}, W{u: uint64(reflect.Ptr)})
		},
		"(reflect.Value).Interface": func(fr *Frame, a []W) {
			m := fr.m
			t := m.typArg(a[0])
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				m.unsup("Value.Interface of %v", t)
			}
			m.setRet(a[0], a[1])
		},
		"(*reflect.rtype).Kind": rtMethod(func(m *Machine, t types.Type, a []W) { m.setRet(W{u: uint64(kindOf(t))}) }),
		"(*reflect.rtype).Elem": rtMethod(func(m *Machine, t types.Type, a []W) {
			r := m.reflectType(elemOf(m, t))
			m.setRet(r[0], r[1])
		}),
		"(*reflect.rtype).Key": rtMethod(func(m *Machine, t types.Type, a []W) {
			r := m.reflectType(t.Underlying().(*types.Map).Key())
			m.setRet(r[0], r[1])
		}),
		"(*reflect.rtype).Len": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: uint64(t.Underlying().(*types.Array).Len())})
		}),
		"(*reflect.rtype).Size":  rtMethod(func(m *Machine, t types.Type, a []W) { m.setRet(W{u: uint64(m.p.sizes.Sizeof(t))}) }),
		"(*reflect.rtype).Align": rtMethod(func(m *Machine, t types.Type, a []W) { m.setRet(W{u: uint64(m.p.sizes.Alignof(t))}) }),
		"(*reflect.rtype).Name": rtMethod(func(m *Machine, t types.Type, a []W) {
			s := m.strW(typeName(t))
			m.setRet(s[0], s[1])
		}),
		"(*reflect.rtype).PkgPath": rtMethod(func(m *Machine, t types.Type, a []W) {
			p := ""
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Path()
			}
			s := m.strW(p)
			m.setRet(s[0], s[1])
		}),
		"(*reflect.rtype).String": rtMethod(func(m *Machine, t types.Type, a []W) {
			s := m.strW(typeString(t))
			m.setRet(s[0], s[1])
		}),
		"(*reflect.rtype).NumField": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: uint64(t.Underlying().(*types.Struct).NumFields())})
		}),
		"(*reflect.rtype).NumMethod": rtMethod(func(m *Machine, t types.Type, a []W) {
			if i, ok := t.Underlying().(*types.Interface); ok {
				m.setRet(W{u: uint64(i.NumMethods())})
				return
			}
			ms := m.p.prog.MethodSets.MethodSet(t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			m.setRet(W{u: uint64(n)})
		}),
		"(*reflect.rtype).Implements": rtMethod(func(m *Machine, t types.Type, a []W) {
			it := m.typArg(a[1]).Underlying().(*types.Interface)
			m.setRet(W{u: b2u(types.Implements(t, it))})
		}),
		"(*reflect.rtype).AssignableTo": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: b2u(types.AssignableTo(t, m.typArg(a[1])))})
		}),
		"(*reflect.rtype).ConvertibleTo": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: b2u(types.ConvertibleTo(t, m.typArg(a[1])))})
		}),
		"(*reflect.rtype).Comparable": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: b2u(types.Comparable(t))})
		}),
		"(*reflect.rtype).Field": rtMethod(func(m *Machine, t types.Type, a []W) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				m.goPanicMsg("reflect: Field of non-struct type " + t.String())
			}
			i := int(conc(m, a[0]))
			if i < 0 || i >= st.NumFields() {
				m.goPanicMsg("reflect: Field index out of bounds")
			}
			f := st.Field(i)
			fs := make([]*types.Var, st.NumFields())
			for j := range fs {
				fs[j] = st.Field(j)
			}
			off := m.p.sizes.Offsetsof(fs)[i]
			name := m.strW(f.Name())
			pk := [2]W{}
			if !f.Exported() {
				pk = m.strW(f.Pkg().Path())
			}
			rt := m.reflectType(f.Type())
			tag := m.strW(st.Tag(i))
			ix := m.newObjN(m.layout(types.Typ[types.Int]), 1)
			ix.cells[0] = W{u: uint64(i)}
			m.setRet(name[0], name[1], pk[0], pk[1], rt[0], rt[1], tag[0], tag[1], W{u: uint64(off)}, W{o: ix}, W{u: 1}, W{u: 1}, W{u: b2u(f.Anonymous())})
		}),
		"internal/reflectlite.TypeOf": func(fr *Frame, a []W) {
			d := dynType(a[0])
			if d == nil {
				fr.m.setRet(W{}, W{})
				return
			}
			rt := fr.m.p.byPath["internal/reflectlite"].Type("rtype").Type()
			fr.m.setRet(W{o: fr.m.typeOf(rt).other}, W{o: d})
		},
		"(internal/reflectlite.rtype).Elem": rtMethod(func(m *Machine, t types.Type, a []W) {
			rt := m.p.byPath["internal/reflectlite"].Type("rtype").Type()
			m.setRet(W{o: m.typeOf(rt).other}, W{o: m.typeOf(elemOf(m, t))})
		}),
		"(internal/reflectlite.rtype).Comparable": rtMethod(func(m *Machine, t types.Type, a []W) {
			m.setRet(W{u: b2u(types.Comparable(t))})
		}),

		// ---- linknamed runtime entry points ----
		"reflect.unsafe_New": func(fr *Frame, a []W) {
			fr.m.setRet(W{o: fr.m.newObj(fr.m.typArg(a[0]))})
		},
		"reflect.unsafe_NewArray": func(fr *Frame, a []W) {
			m := fr.m
			n := int64(conc(m, a[1]))
			if n < 0 || n > 1<<40 {
				m.goPanicMsg("runtime error: makeslice: len out of range")
			}
			m.setRet(W{o: m.newSliceObj(m.typArg(a[0]), int(n))})
		},
		"reflect.typedmemmove": func(fr *Frame, a []W) {
			m := fr.m
			l := m.layout(m.typArg(a[0]))
			tmp := make([]W, len(l.leaves))
			m.load(a[2], l, tmp)
			m.store(a[1], l, tmp)
		},
		"reflect.typedmemclr": func(fr *Frame, a []W) {
			m := fr.m
			l := m.layout(m.typArg(a[0]))
			m.store(a[1], l, make([]W, len(l.leaves)))
		},
		"reflect.typedmemclrpartial": func(fr *Frame, a []W) {
			m := fr.m
			l := m.layout(m.typArg(a[0]))
			off, size := conc(m, a[2]), conc(m, a[3])
			// ptr already points at the offset
			for _, lf := range l.leaves {
				if uint64(lf.off) >= off && uint64(lf.off) < off+size {
					one := &Layout{size: uint64(lf.size), leaves: []Leaf{{0, lf.size, lf.kind, lf.sig}}}
					m.store(W{o: a[1].o, u: a[1].u + uint64(lf.off) - off}, one, []W{{}})
				}
			}
		},
		"reflect.typedslicecopy": func(fr *Frame, a []W) {
			m := fr.m
			t := m.typArg(a[0])
			n := conc(m, a[2])
			if k := conc(m, a[5]); k < n {
				n = k
			}
			m.copyElems(a[1], a[4], n, m.layout(t))
			m.setRet(W{u: n})
		},
		"reflect.makemap": func(fr *Frame, a []W) {
			mt := fr.m.typArg(a[0]).Underlying().(*types.Map)
			fr.m.setRet(W{o: fr.m.newMap(mt)})
		},
		"reflect.mapassign": func(fr *Frame, a []W) {
			m := fr.m
			mt := m.typArg(a[0]).Underlying().(*types.Map)
			kl, vl := m.layout(mt.Key()), m.layout(mt.Elem())
			k, v := make([]W, len(kl.leaves)), make([]W, len(vl.leaves))
			m.load(a[2], kl, k)
			m.load(a[3], vl, v)
			m.mapSet(a[1].o, k, v)
		},
		"reflect.maplen": func(fr *Frame, a []W) {
			n := 0
			if a[0].o != nil {
				fr.m.trackMap(a[0].o, false)
				n = a[0].o.mp.n
			}
			fr.m.setRet(W{u: uint64(n)})
		},
		"reflect.ifaceIndir": func(fr *Frame, a []W) {
			fr.m.setRet(W{u: b2u(!directIface(fr.m.typArg(a[0])))})
		},
		"reflect.mapiterinit": func(fr *Frame, a []W) {
			m := fr.m
			it := m.newKind(KIter)
			it.it = &iterState{ents: m.mapSnapshot(a[1].o), mo: a[1].o}
			// hide the iterator in the hiter's third word (t)
			pl := m.layout(types.Typ[types.Uintptr])
			m.store(W{o: a[2].o, u: a[2].u + 16}, pl, []W{{o: it}})
			m.mapIterNext(a[2])
		},
		"reflect.mapiternext": func(fr *Frame, a []W) { fr.m.mapIterNext(a[0]) },
	}
	for _, w := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.Uintptr]}} {
		t := w.t
		atom := func(acq, rel bool, f func(fr *Frame, a []W)) intrFn {
			return func(fr *Frame, a []W) {
				m := fr.m
				k := poolKey{a[0].o, a[0].u}
				m.yield()
				if acq {
					m.acquire(k)
				}
				m.unchecked(func() { f(fr, a) })
				if rel {
					m.release(k)
				}
			}
		}
		intrinsics["sync/atomic.Load"+w.n] = atom(true, false, func(fr *Frame, a []W) {
			var v [1]W
			fr.m.load(a[0], fr.m.layout(t), v[:])
			fr.m.setRet(v[0])
		})
		intrinsics["sync/atomic.Store"+w.n] = atom(false, true, func(fr *Frame, a []W) { fr.m.store(a[0], fr.m.layout(t), a[1:2]) })
		intrinsics["sync/atomic.Swap"+w.n] = atom(true, true, func(fr *Frame, a []W) {
			var v [1]W
			fr.m.load(a[0], fr.m.layout(t), v[:])
			fr.m.store(a[0], fr.m.layout(t), a[1:2])
			fr.m.setRet(v[0])
		})
		intrinsics["sync/atomic.Add"+w.n] = atom(true, true, func(fr *Frame, a []W) {
			var v [1]W
			l := fr.m.layout(t)
			fr.m.load(a[0], l, v[:])
			v[0].u = (v[0].u + a[1].u) & mask(uint8(l.size)*8)
			fr.m.store(a[0], l, v[:])
			fr.m.setRet(v[0])
		})
		intrinsics["sync/atomic.CompareAndSwap"+w.n] = atom(true, true, func(fr *Frame, a []W) {
			var v [1]W
			l := fr.m.layout(t)
			fr.m.load(a[0], l, v[:])
			if v[0] == a[1] {
				fr.m.store(a[0], l, a[2:3])
				fr.m.setRet(W{u: 1})
			} else {
				fr.m.setRet(W{})
			}
		})
	}
}

var emptyIface = types.NewInterfaceType(nil, nil).Complete()

func (m *Machine) mapIterNext(h W) {
	pl := m.layout(types.Typ[types.Uintptr])
	var w [1]W
	m.load(W{o: h.o, u: h.u + 16}, pl, w[:])
	it := w[0].o.it
	var k, v W
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		k, v = W{o: e.k}, W{o: e.v}
		break
	}
	m.store(W{o: h.o, u: h.u}, pl, []W{k})
	m.store(W{o: h.o, u: h.u + 8}, pl, []W{v})
	m.ret = m.ret[:0]
}

func (m *Machine) resetPools() {
	for k := range m.pools {
		delete(m.pools, k)
	}
	for k, v := range m.basePools {
		m.pools[k] = append([][2]W(nil), v...)
	}
}

func (m *Machine) indexByte(p, n, c W) {
	if n.t != nil {
		m.unsup("symbolic length")
	}
	for i := uint64(0); i < n.u; i++ {
		b := m.byteAt(p, i)
		if b.t == nil && c.t == nil {
			if b.u == c.u {
				m.setRet(W{u: i})
				return
			}
			continue
		}
		if m.branch(m.tb.Eq(m.toTerm(b, 8), m.toTerm(c, 8))) {
			m.setRet(W{u: i})
			return
		}
	}
	m.setRet(W{u: math.MaxUint64})
}

func (m *Machine) countByte(p, n, c W) {
	k := uint64(0)
	for i := uint64(0); i < n.u; i++ {
		b := m.byteAt(p, i)
		if m.branch(m.tb.Eq(m.toTerm(b, 8), m.toTerm(c, 8))) {
			k++
		}
	}
	m.setRet(W{u: k})
}

func (m *Machine) indexBytes(p W, n uint64, q W, k uint64) {
	for i := uint64(0); i+k <= n; i++ {
		if m.branch(m.bytesEq(W{o: p.o, u: p.u + i}, q, k)) {
			m.setRet(W{u: i})
			return
		}
	}
	m.setRet(W{u: math.MaxUint64})
}

func (m *Machine) copyElems(dst, src W, n uint64, l *Layout) {
	if n == 0 || len(l.leaves) == 0 {
		return
	}
	w := len(l.leaves)
	tmp := make([]W, int(n)*w)
	for i := uint64(0); i < n; i++ {
		m.load(W{o: src.o, u: src.u + i*l.size}, l, tmp[int(i)*w:])
	}
	for i := uint64(0); i < n; i++ {
		m.store(W{o: dst.o, u: dst.u + i*l.size}, l, tmp[int(i)*w:int(i)*w+w])
	}
}

func (m *Machine) appendTo(s []W, b []byte) {
	ws := make([]W, len(b))
	for i := range b {
		ws[i].u = uint64(b[i])
	}
	m.appendWords(s, ws)
}

// appendWords appends byte words to a byte slice, leaving the slice in m.ret.
func (m *Machine) appendWords(s []W, ws []W) {
	r := m.growSlice(s[0], s[1].u, s[2].u, uint64(len(ws)), m.byteLay, types.Typ[types.Uint8])
	for i := range ws {
		m.store(W{o: r[0].o, u: r[0].u + s[1].u + uint64(i)}, m.byteLay, ws[i:i+1])
	}
	m.setRet(r[0], r[1], r[2])
}

// growSlice returns a slice with room for add more elements and its length extended.
func (m *Machine) growSlice(p W, ln, cp, add uint64, l *Layout, et types.Type) [3]W {
	if ln+add <= cp {
		return [3]W{p, {u: ln + add}, {u: cp}}
	}
	nc := nextslicecap(ln+add, cp)
	es := uint64(m.p.sizes.Sizeof(et))
	if es > 0 {
		nc = roundupsize(nc*es) / es
	}
	o := m.newSliceObj(et, int(nc))
	np := W{o: o}
	m.copyElems(np, p, ln, l)
	return [3]W{np, {u: ln + add}, {u: nc}}
}

func nextslicecap(newLen, oldCap uint64) uint64 {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		return newLen
	}
	if oldCap < 256 {
		return dbl
	}
	for {
		nc += (nc + 3*256) >> 2
		if nc >= newLen {
			return nc
		}
	}
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64) uint64 {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

// parseFloat models strconv.ParseFloat: concrete text is parsed by the real
// function; a text with symbolic bytes gives an uninterpreted function of its
// bytes (the same text always gives the same result).
func (m *Machine) parseFloat(a []W) {
	bs := conc(m, a[2])
	if s, ok := m.concreteString(a[0], a[1]); ok {
		f, err := strconv.ParseFloat(s, int(bs))
		m.pfConcrete(int(bs), s)
		r := W{u: math.Float64bits(f)}
		if err != nil {
			e := m.numError()
			m.setRet(r, e[0], e[1])
			return
		}
		m.setRet(r, W{}, W{})
		return
	}
	n := a[1].u
	p := a[0]
	neg := false
	if n > 0 {
		// the sign is handled exactly: ParseFloat(-x) = -ParseFloat(x)
		c := m.byteAt(p, 0)
		if c.t == nil && c.u == '-' || c.t != nil && m.branch(m.tb.Eq(c.t, m.tb.Const(8, '-'))) {
			neg = true
			p.u++
			n--
		}
	}
	args := make([]*Term, n)
	allc := true
	for i := range args {
		t := m.toTerm(m.byteAt(p, uint64(i)), 8)
		if t.op == OVar && m.path != nil {
			if d := m.path.doms[t.k]; d.count() == 1 {
				t = m.tb.Const(8, d.first())
			}
		}
		// E and e are the same to ParseFloat
		if t.op == OVar && m.path != nil && m.path.doms[t.k].subsetOf2('e', 'E') {
			t = m.tb.Const(8, 'e')
		}
		if !t.isConst() {
			allc = false
		}
		args[i] = m.tb.Ite(m.tb.Eq(t, m.tb.Const(8, 'E')), m.tb.Const(8, 'e'), t)
	}
	if allc {
		b := make([]byte, n)
		for i, t := range args {
			b[i] = byte(t.k)
		}
		f, err := strconv.ParseFloat(string(b), int(bs))
		m.pfConcrete(int(bs), string(b))
		if neg {
			f = -f
		}
		r := W{u: math.Float64bits(f)}
		if err != nil {
			er := m.numError()
			m.setRet(r, er[0], er[1])
			return
		}
		m.setRet(r, W{}, W{})
		return
	}
	nm := "parsefloat" + strconv.Itoa(int(bs))
	e := m.tb.UF(nm+"_err", 0, args)
	v := m.tb.UF(nm, uint8(bs), args)
	m.pfSymbolic(pfApp{int(bs), args, e, v})
	if neg {
		v = m.tb.bin(OXor, v, m.tb.Const(uint8(bs), 1<<(bs-1)))
	}
	if bs == 32 {
		v = m.tb.FP("ext", 64, v) // and float32() of it is v again
	}
	if m.floatSyntax(args) {
		// a JSON number without exponent and shorter than 30 bytes: no error possible
		m.setRet(m.fromTerm(v), W{}, W{})
		return
	}
	if m.branch(e) {
		er := m.numError()
		m.setRet(m.fromTerm(v), er[0], er[1])
		return
	}
	m.setRet(m.fromTerm(v), W{}, W{})
}

// Applications to concrete and to symbolic texts on the same path are tied
// together: where the symbolic text is the concrete one, so is the result.
type pfApp struct {
	bs   int
	args []*Term
	e, v *Term
}

type pfFact struct {
	bs int
	s  string
}

func (m *Machine) pfConcrete(bs int, s string) {
	if m.path == nil {
		return
	}
	if s != "" && s[0] == '-' {
		s = s[1:]
	}
	b := []byte(s)
	for i := range b {
		if b[i] == 'E' {
			b[i] = 'e'
		}
	}
	f := pfFact{bs, string(b)}
	for _, g := range m.path.pfFacts {
		if f == g {
			return
		}
	}
	m.path.pfFacts = append(m.path.pfFacts, f)
	for _, a := range m.path.pfApps {
		m.pfTie(a, f)
	}
}

func (m *Machine) pfSymbolic(a pfApp) {
	for _, b := range m.path.pfApps {
		if a.v == b.v {
			return
		}
	}
	m.path.pfApps = append(m.path.pfApps, a)
	for _, f := range m.path.pfFacts {
		m.pfTie(a, f)
	}
}

func (m *Machine) pfTie(a pfApp, f pfFact) {
	if a.bs != f.bs || len(a.args) != len(f.s) {
		return
	}
	eq := m.tb.tt
	for i, t := range a.args {
		eq = m.tb.And(eq, m.tb.Eq(t, m.tb.Const(8, uint64(f.s[i]))))
		if eq == m.tb.ff {
			return
		}
	}
	x, err := strconv.ParseFloat(f.s, f.bs)
	var c *Term
	if a.bs == 32 {
		c = m.tb.Eq(a.v, m.tb.Const(32, uint64(math.Float32bits(float32(x)))))
	} else {
		c = m.tb.Eq(a.v, m.tb.Const(64, math.Float64bits(x)))
	}
	if err != nil {
		c = m.tb.And(c, a.e)
	} else {
		c = m.tb.And(c, m.tb.Not(a.e))
	}
	m.assume(m.tb.Or(m.tb.Not(eq), c))
}

// floatSyntax reports whether, on this path, every byte is certainly a digit, a
// leading minus or a single dot, in JSON number form (the domains decide it).
func (m *Machine) floatSyntax(args []*Term) bool {
	if len(args) == 0 || len(args) > 30 {
		return false
	}
	digits := func(t *Term) bool {
		if t.isConst() {
			return t.k >= '0' && t.k <= '9'
		}
		if t.single && t.sv.w == 8 && !t.uf {
			vec := m.tb.vecOf(t)
			d := m.path.doms[t.sv.k]
			for i := uint64(0); i < uint64(len(vec)); i++ {
				if d.has(i) && (vec[i] < '0' || vec[i] > '9') {
					return false
				}
			}
			return true
		}
		return false
	}
	is := func(t *Term, c uint64) bool {
		if t.isConst() {
			return t.k == c
		}
		if t.single && t.sv.w == 8 && !t.uf {
			vec := m.tb.vecOf(t)
			d := m.path.doms[t.sv.k]
			for i := uint64(0); i < uint64(len(vec)); i++ {
				if d.has(i) && vec[i] != c {
					return false
				}
			}
			return true
		}
		return false
	}
	i := 0
	if is(args[0], '-') {
		i++
	}
	nd := 0
	for i < len(args) && digits(args[i]) {
		i++
		nd++
	}
	if nd == 0 {
		return false
	}
	if i == len(args) {
		return true
	}
	if !is(args[i], '.') {
		return false
	}
	i++
	nd = 0
	for i < len(args) && digits(args[i]) {
		i++
		nd++
	}
	return nd > 0 && i == len(args)
}

func (m *Machine) numError() [2]W {
	pkg := m.p.byPath["strconv"]
	t := types.NewPointer(pkg.Type("NumError").Type())
	o := m.newObj(pkg.Type("NumError").Type())
	s := m.strW("ParseFloat")
	copy(o.cells, s[:])
	// Err field: errors are only propagated; use strconv.ErrSyntax/ErrRange's type
	g := m.global(pkg.Members["ErrRange"].(*ssa.Global))
	copy(o.cells[4:6], g.cells[:2])
	return [2]W{{o: m.typeOf(t).other}, {o: o}}
}

func (m *Machine) sortSlice(a []W) {
	d := dynType(a[0])
	sl, ok := d.typ.Underlying().(*types.Slice)
	if !ok {
		m.unsup("sort.Slice of %v", d.typ)
	}
	var s [3]W
	m.unbox(d.typ, a[1], s[:])
	l := m.layout(sl.Elem())
	n := s[1].u
	at := func(i uint64) W { return W{o: s[0].o, u: s[0].u + i*l.size} }
	x, y := make([]W, len(l.leaves)), make([]W, len(l.leaves))
	for i := uint64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			m.callFunc(a[2], []W{{u: j}, {u: j - 1}})
			r := m.ret[0]
			if r.t != nil {
				if !m.branch(r.t) {
					break
				}
			} else if r.u == 0 {
				break
			}
			m.load(at(j), l, x)
			m.load(at(j-1), l, y)
			m.store(at(j), l, y)
			m.store(at(j-1), l, x)
		}
	}
	m.ret = m.ret[:0]
}

// ---- the harness runtime ----

func (m *Machine) vrt(fn *ssa.Function) intrFn {
	str := func(m *Machine, a []W) string {
		s, ok := m.concreteString(a[0], a[1])
		if !ok {
			m.unsup("symbolic tag")
		}
		return s
	}
	switch fn.Name() {
	case "Byte":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(8, 0, 255)) }
	case "ByteIn":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(8, a[0].u, a[1].u)) }
	case "U16":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(16, 0, 0xffff)) }
	case "U32":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(32, 0, 0xffffffff)) }
	case "U64":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(64, 0, math.MaxUint64)) }
	case "U64In":
		return func(fr *Frame, a []W) { fr.m.setRet(fr.m.newVar(64, a[0].u, a[1].u)) }
	case "Bool":
		return func(fr *Frame, a []W) {
			v := fr.m.newVar(1, 0, 1)
			fr.m.setRet(fr.m.fromTerm(fr.m.tb.Eq(v.t, fr.m.tb.Const(1, 1))))
		}
	case "Par":
		return func(fr *Frame, a []W) { fr.m.doPar(a[1], a[2], int(conc(fr.m, a[0]))); fr.m.ret = fr.m.ret[:0] }
	case "Choose":
		return func(fr *Frame, a []W) {
			n := conc(fr.m, a[0])
			fr.m.setRet(W{u: uint64(fr.m.choose(int(n)))})
		}
	case "Assume":
		return func(fr *Frame, a []W) { fr.m.doAssume(a[0]); fr.m.ret = fr.m.ret[:0] }
	case "Assert":
		return func(fr *Frame, a []W) { fr.m.doAssert(a[0], str(fr.m, a[1:3])); fr.m.ret = fr.m.ret[:0] }
	case "And":
		return func(fr *Frame, a []W) {
			m := fr.m
			m.setRet(m.fromTerm(m.tb.And(m.toTerm(a[0], 0), m.toTerm(a[1], 0))))
		}
	case "Or":
		return func(fr *Frame, a []W) {
			m := fr.m
			m.setRet(m.fromTerm(m.tb.Or(m.toTerm(a[0], 0), m.toTerm(a[1], 0))))
		}
	case "IteU8":
		return func(fr *Frame, a []W) {
			m := fr.m
			m.setRet(m.fromTerm(m.tb.Ite(m.toTerm(a[0], 0), m.toTerm(a[1], 8), m.toTerm(a[2], 8))))
		}
	case "Concretize":
		return func(fr *Frame, a []W) { fr.m.setRet(W{u: fr.m.concretize(a[0], 64)}) }
	case "Cover":
		return func(fr *Frame, a []W) { fr.m.cover[str(fr.m, a)] = true; fr.m.ret = fr.m.ret[:0] }
	case "Param":
		return func(fr *Frame, a []W) {
			n := str(fr.m, a)
			v, ok := fr.m.params[n]
			if !ok {
				fr.m.unsup("missing parameter %s", n)
			}
			fr.m.setRet(W{u: uint64(v)})
		}
	case "ObserveBytes":
		return func(fr *Frame, a []W) {
			m := fr.m
			if m.path == nil {
				return
			}
			o := obsRec{tag: str(m, a[0:2])}
			for i := uint64(0); i < a[3].u; i++ {
				o.ws = append(o.ws, m.byteAt(a[2], i))
			}
			m.path.obs = append(m.path.obs, o)
			m.ret = m.ret[:0]
		}
	case "ObserveInt":
		return func(fr *Frame, a []W) {
			m := fr.m
			if m.path == nil {
				return
			}
			m.path.obs = append(m.path.obs, obsRec{tag: str(m, a[0:2]), ws: []W{a[2]}})
			m.ret = m.ret[:0]
		}
	case "Symbolic":
		return func(fr *Frame, a []W) { fr.m.setRet(W{u: 1}) }
	}
	return nil
}
