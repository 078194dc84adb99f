package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// stand-ins for reflect.Type and reflect.Value

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindOf(t types.Type) int {
	if t == nil {
		return kInvalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool
		case types.Int, types.UntypedInt:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32, types.UntypedRune:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64, types.UntypedFloat:
			return kFloat64
		case types.Complex64:
			return kComplex64
		case types.Complex128:
			return kComplex128
		case types.String, types.UntypedString:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	panic(ctl{ctlUnsupported, "kind of " + t.String()})
}

func (w *Worker) mkType(t types.Type) iface {
	if t == nil {
		return iface{}
	}
	return iface{t: w.prog.rtypeT, v: rtype{w.canon(t)}}
}

func rtypeArg(v value) types.Type {
	i := v.(iface)
	if i.t == nil {
		return nil
	}
	return i.v.(rtype).t
}

func (w *Worker) strPanic(format string, a ...any) {
	panic(targetPanic{v: iface{t: w.canon(types.Typ[types.String]), v: fmt.Sprintf(format, a...)}})
}

func sigOf(t types.Type) *types.Signature {
	s, _ := t.Underlying().(*types.Signature)
	return s
}

func (w *Worker) rtypeMethod(name string, t types.Type, args []value) value {
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return typeStr(t)
	case "Name":
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return typeStr(n)[len(pkgPrefix(n)):]
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "NumIn":
		s := sigOf(t)
		if s == nil {
			w.strPanic("reflect: NumIn of non-func type %s", typeStr(t))
		}
		return uint64(s.Params().Len())
	case "NumOut":
		s := sigOf(t)
		if s == nil {
			w.strPanic("reflect: NumOut of non-func type %s", typeStr(t))
		}
		return uint64(s.Results().Len())
	case "In":
		i := int(w.concInt(args[0], 64, true, "In"))
		s := sigOf(t)
		if s == nil {
			w.strPanic("reflect: In of non-func type %s", typeStr(t))
		}
		if i < 0 || i >= s.Params().Len() {
			w.boundsPanic(i, s.Params().Len())
		}
		return w.mkType(s.Params().At(i).Type())
	case "Out":
		i := int(w.concInt(args[0], 64, true, "Out"))
		s := sigOf(t)
		if s == nil {
			w.strPanic("reflect: Out of non-func type %s", typeStr(t))
		}
		if i < 0 || i >= s.Results().Len() {
			w.boundsPanic(i, s.Results().Len())
		}
		return w.mkType(s.Results().At(i).Type())
	case "IsVariadic":
		s := sigOf(t)
		if s == nil {
			w.strPanic("reflect: IsVariadic of non-func type %s", typeStr(t))
		}
		return s.Variadic()
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.mkType(u.Elem())
		case *types.Slice:
			return w.mkType(u.Elem())
		case *types.Array:
			return w.mkType(u.Elem())
		case *types.Map:
			return w.mkType(u.Elem())
		case *types.Chan:
			return w.mkType(u.Elem())
		}
		w.strPanic("reflect: Elem of invalid type %s", typeStr(t))
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return w.mkType(u.Key())
		}
		w.strPanic("reflect: Key of non-map type %s", typeStr(t))
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return uint64(u.Len())
		}
		w.strPanic("reflect: Len of non-array type %s", typeStr(t))
	case "Comparable":
		return types.Comparable(t)
	case "Implements":
		u := rtypeArg(args[0])
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			w.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return types.Implements(t, it)
	case "AssignableTo":
		return types.AssignableTo(t, rtypeArg(args[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, rtypeArg(args[0]))
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		ms := w.prog.prog.MethodSets.MethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return uint64(u.NumFields())
		}
	case "Size":
		return uint64(w.prog.sizes.Sizeof(t))
	case "Bits":
		return uint64(8 * w.prog.sizes.Sizeof(t))
	}
	return w.unsupported("reflect.Type.%s", name)
}

func pkgPrefix(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Name() + "."
}

// ifaceVal wraps v of static type t into an interface value.
func (w *Worker) ifaceVal(t types.Type, v value) iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(iface)
	}
	return iface{w.canon(t), v}
}

func (w *Worker) valueErr(method string, k int) {
	// reflect.ValueError: modelled as a string panic with the same text
	if k == kInvalid {
		w.strPanic("reflect: call of %s on zero Value", method)
	}
	w.strPanic("reflect: call of %s on %s Value", method, kindNames[k])
}

func (w *Worker) rget(r rval) value {
	if r.addr != nil {
		return w.load(r.addr)
	}
	return r.v
}

func (w *Worker) mustValid(r rval, m string) {
	if r.t == nil {
		w.valueErr("reflect.Value."+m, kInvalid)
	}
}

func (w *Worker) assignTo(r rval, t types.Type, ctx string) value {
	v := w.rget(r)
	if types.Identical(r.t, t) {
		return v
	}
	if _, ok := t.Underlying().(*types.Interface); ok && types.AssignableTo(r.t, t) {
		return w.ifaceVal(r.t, v)
	}
	if types.AssignableTo(r.t, t) {
		return v
	}
	w.strPanic("%s using %s as type %s", ctx, typeStr(r.t), typeStr(t))
	return nil
}

func isIntKind(k int) bool  { return k >= kInt && k <= kInt64 }
func isUintKind(k int) bool { return k >= kUint && k <= kUintptr }

func registerReflect(m map[string]intrinsic) {
	tv := func(w *Worker, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		if _, ok := i.v.(rtype); ok {
			return w.mkType(i.t)
		}
		return w.mkType(i.t)
	}
	m["reflect.TypeOf"] = tv
	m["internal/reflectlite.TypeOf"] = tv
	m["reflect.ValueOf"] = func(w *Worker, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return rval{}
		}
		return rval{t: i.t, v: i.v}
	}
	m["reflect.Zero"] = func(w *Worker, fr *frame, a []value) value {
		t := rtypeArg(a[0])
		if t == nil {
			w.strPanic("reflect: Zero(nil)")
		}
		return rval{t: t, v: w.zero(t)}
	}
	m["reflect.New"] = func(w *Worker, fr *frame, a []value) value {
		t := rtypeArg(a[0])
		p := new(value)
		*p = w.zero(t)
		return rval{t: w.canon(types.NewPointer(t)), v: p}
	}
	m["reflect.Indirect"] = func(w *Worker, fr *frame, a []value) value {
		r := a[0].(rval)
		if r.t == nil || kindOf(r.t) != kPointer {
			return r
		}
		return w.relem(r)
	}
	m["reflect.PointerTo"] = func(w *Worker, fr *frame, a []value) value {
		return w.mkType(types.NewPointer(rtypeArg(a[0])))
	}
	m["reflect.PtrTo"] = m["reflect.PointerTo"]
	m["reflect.SliceOf"] = func(w *Worker, fr *frame, a []value) value {
		return w.mkType(types.NewSlice(rtypeArg(a[0])))
	}
	m["reflect.DeepEqual"] = func(w *Worker, fr *frame, a []value) value {
		return w.deepEqual(a[0].(iface), a[1].(iface))
	}
	m["(reflect.Kind).String"] = func(w *Worker, fr *frame, a []value) value {
		k := w.concInt(a[0], 64, false, "kind")
		if k >= 0 && int(k) < len(kindNames) {
			return kindNames[k]
		}
		return fmt.Sprintf("kind%d", k)
	}
	vm := func(name string, f func(w *Worker, fr *frame, r rval, a []value) value) {
		m["(reflect.Value)."+name] = func(w *Worker, fr *frame, a []value) value {
			r, ok := a[0].(rval)
			if !ok {
				w.unsupported("reflect.Value of %T", a[0])
			}
			return f(w, fr, r, a[1:])
		}
	}
	vm("IsValid", func(w *Worker, fr *frame, r rval, a []value) value { return r.t != nil })
	vm("Kind", func(w *Worker, fr *frame, r rval, a []value) value { return uint64(kindOf(r.t)) })
	vm("Type", func(w *Worker, fr *frame, r rval, a []value) value {
		w.mustValid(r, "Type")
		return w.mkType(r.t)
	})
	vm("CanInterface", func(w *Worker, fr *frame, r rval, a []value) value {
		w.mustValid(r, "CanInterface")
		return true
	})
	vm("CanAddr", func(w *Worker, fr *frame, r rval, a []value) value { return r.addr != nil })
	vm("CanSet", func(w *Worker, fr *frame, r rval, a []value) value { return r.addr != nil })
	vm("Interface", func(w *Worker, fr *frame, r rval, a []value) value {
		w.mustValid(r, "Interface")
		return w.ifaceVal(r.t, w.rget(r))
	})
	vm("Elem", func(w *Worker, fr *frame, r rval, a []value) value { return w.relem(r) })
	vm("Addr", func(w *Worker, fr *frame, r rval, a []value) value {
		if r.addr == nil {
			w.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return rval{t: w.canon(types.NewPointer(r.t)), v: r.addr}
	})
	vm("IsNil", func(w *Worker, fr *frame, r rval, a []value) value {
		switch kindOf(r.t) {
		case kChan, kFunc, kMap, kPointer, kUnsafePointer, kInterface, kSlice:
		default:
			w.valueErr("reflect.Value.IsNil", kindOf(r.t))
		}
		return w.isNilVal(w.rget(r))
	})
	vm("IsZero", func(w *Worker, fr *frame, r rval, a []value) value {
		w.mustValid(r, "IsZero")
		v := w.rget(r)
		switch kindOf(r.t) {
		case kChan, kFunc, kMap, kPointer, kUnsafePointer, kInterface, kSlice:
			return w.isNilVal(v)
		}
		return w.eqVal(r.t, v, w.zero(r.t))
	})
	vm("Len", func(w *Worker, fr *frame, r rval, a []value) value {
		switch v := w.force(w.rget(r)).(type) {
		case []value:
			return uint64(len(v))
		case array:
			return uint64(len(v))
		case string, *symStr:
			return uint64(w.strLen(v))
		case *mapObj:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case *chanObj:
			return uint64(len(v.buf))
		}
		w.valueErr("reflect.Value.Len", kindOf(r.t))
		return nil
	})
	vm("Cap", func(w *Worker, fr *frame, r rval, a []value) value {
		switch v := w.rget(r).(type) {
		case []value:
			return uint64(cap(v))
		case array:
			return uint64(len(v))
		}
		w.valueErr("reflect.Value.Cap", kindOf(r.t))
		return nil
	})
	vm("Index", func(w *Worker, fr *frame, r rval, a []value) value {
		i := int(w.concInt(a[0], 64, true, "reflect index"))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := w.rget(r).([]value)
			if i < 0 || i >= len(s) {
				w.strPanic("reflect: slice index out of range")
			}
			return rval{t: w.canon(u.Elem()), addr: &s[i]}
		case *types.Array:
			if r.addr != nil {
				s := (*r.addr).(array)
				if i < 0 || i >= len(s) {
					w.strPanic("reflect: array index out of range")
				}
				return rval{t: w.canon(u.Elem()), addr: &s[i]}
			}
			s := r.v.(array)
			if i < 0 || i >= len(s) {
				w.strPanic("reflect: array index out of range")
			}
			return rval{t: w.canon(u.Elem()), v: copyVal(s[i])}
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				v := w.rget(r)
				if i < 0 || i >= w.strLen(v) {
					w.strPanic("reflect: string index out of range")
				}
				return rval{t: w.canon(types.Typ[types.Uint8]), v: w.strAt(w.force(v), i)}
			}
		}
		w.valueErr("reflect.Value.Index", kindOf(r.t))
		return nil
	})
	vm("Slice", func(w *Worker, fr *frame, r rval, a []value) value {
		lo := int(w.concInt(a[0], 64, true, "reflect slice"))
		hi := int(w.concInt(a[1], 64, true, "reflect slice"))
		if s, ok := w.rget(r).([]value); ok {
			if lo < 0 || hi < lo || hi > cap(s) {
				w.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rval{t: r.t, v: s[lo:hi]}
		}
		return w.unsupported("reflect Slice of %s", r.t)
	})
	vm("Field", func(w *Worker, fr *frame, r rval, a []value) value {
		i := int(w.concInt(a[0], 64, true, "field"))
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.valueErr("reflect.Value.Field", kindOf(r.t))
		}
		ft := w.canon(st.Field(i).Type())
		if r.addr != nil {
			return rval{t: ft, addr: &(*r.addr).(structure)[i]}
		}
		return rval{t: ft, v: r.v.(structure)[i]}
	})
	vm("Bool", func(w *Worker, fr *frame, r rval, a []value) value {
		if kindOf(r.t) != kBool {
			w.valueErr("reflect.Value.Bool", kindOf(r.t))
		}
		return w.rget(r)
	})
	vm("Int", func(w *Worker, fr *frame, r rval, a []value) value {
		k := kindOf(r.t)
		if !isIntKind(k) {
			w.valueErr("reflect.Value.Int", k)
		}
		ww, s, _ := intInfo(r.t)
		return w.intConv(w.rget(r), ww, s, 64)
	})
	vm("Uint", func(w *Worker, fr *frame, r rval, a []value) value {
		k := kindOf(r.t)
		if !isUintKind(k) {
			w.valueErr("reflect.Value.Uint", k)
		}
		ww, s, _ := intInfo(r.t)
		return w.intConv(w.rget(r), ww, s, 64)
	})
	vm("Float", func(w *Worker, fr *frame, r rval, a []value) value {
		switch v := w.rget(r).(type) {
		case float32:
			return float64(v)
		case float64, *Term:
			if kindOf(r.t) == kFloat64 {
				return v
			}
		}
		w.valueErr("reflect.Value.Float", kindOf(r.t))
		return nil
	})
	vm("String", func(w *Worker, fr *frame, r rval, a []value) value {
		k := kindOf(r.t)
		if k == kString {
			return w.rget(r)
		}
		if k == kInvalid {
			return "<invalid Value>"
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	vm("Bytes", func(w *Worker, fr *frame, r rval, a []value) value {
		if s, ok := w.rget(r).([]value); ok {
			return s
		}
		return w.unsupported("reflect Bytes")
	})
	vm("CanConvert", func(w *Worker, fr *frame, r rval, a []value) value {
		return types.ConvertibleTo(r.t, rtypeArg(a[0]))
	})
	vm("CanInt", func(w *Worker, fr *frame, r rval, a []value) value { return isIntKind(kindOf(r.t)) })
	vm("CanUint", func(w *Worker, fr *frame, r rval, a []value) value { return isUintKind(kindOf(r.t)) })
	vm("CanFloat", func(w *Worker, fr *frame, r rval, a []value) value {
		k := kindOf(r.t)
		return k == kFloat32 || k == kFloat64
	})
	vm("Comparable", func(w *Worker, fr *frame, r rval, a []value) value {
		if r.t == nil {
			return true
		}
		return w.dynComparable(r.t, w.rget(r))
	})
	vm("Convert", func(w *Worker, fr *frame, r rval, a []value) value {
		t := rtypeArg(a[0])
		w.mustValid(r, "Convert")
		v := w.rget(r)
		sk, dk := kindOf(r.t), kindOf(t)
		ok := types.ConvertibleTo(r.t, t)
		if (sk == kFloat32 || sk == kFloat64) && dk == kString {
			ok = false
		}
		if !ok {
			w.strPanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", typeStr(r.t), typeStr(t))
		}
		if dk == kInterface {
			return rval{t: t, v: w.ifaceVal(r.t, v)}
		}
		if sk == kFloat32 && (isIntKind(dk) || isUintKind(dk)) { // reflect converts through float64
			if f, ok := v.(float32); ok {
				return rval{t: t, v: w.convert(t, types.Typ[types.Float64], float64(f))}
			}
		}
		return rval{t: t, v: w.convert(t, r.t, v)}
	})
	vm("Set", func(w *Worker, fr *frame, r rval, a []value) value {
		if r.addr == nil {
			w.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		w.store(r.t, r.addr, copyVal(w.assignTo(a[0].(rval), r.t, "reflect.Set: value of type")))
		return nil
	})
	vm("SetZero", func(w *Worker, fr *frame, r rval, a []value) value {
		if r.addr == nil {
			w.strPanic("reflect: reflect.Value.SetZero using unaddressable value")
		}
		w.store(r.t, r.addr, w.zero(r.t))
		return nil
	})
	vm("SetUint", func(w *Worker, fr *frame, r rval, a []value) value {
		ww, _, _ := intInfo(r.t)
		w.store(r.t, r.addr, w.intConv(a[0], 64, false, ww))
		return nil
	})
	vm("SetBool", func(w *Worker, fr *frame, r rval, a []value) value {
		w.store(r.t, r.addr, a[0])
		return nil
	})
	vm("SetInt", func(w *Worker, fr *frame, r rval, a []value) value {
		ww, _, _ := intInfo(r.t)
		w.store(r.t, r.addr, w.intConv(a[0], 64, true, ww))
		return nil
	})
	vm("SetString", func(w *Worker, fr *frame, r rval, a []value) value {
		w.store(r.t, r.addr, a[0])
		return nil
	})
	vm("Call", func(w *Worker, fr *frame, r rval, a []value) value {
		if kindOf(r.t) != kFunc {
			w.valueErr("reflect.Value.Call", kindOf(r.t))
		}
		fn := w.rget(r)
		if isNilFunc(fn) {
			w.strPanic("reflect: call of nil function")
		}
		sig := sigOf(r.t)
		in := a[0].([]value)
		n := sig.Params().Len()
		if sig.Variadic() {
			if len(in) < n-1 {
				w.strPanic("reflect: Call with too few input arguments")
			}
		} else if len(in) < n {
			w.strPanic("reflect: Call with too few input arguments")
		} else if len(in) > n {
			w.strPanic("reflect: Call with too many input arguments")
		}
		for _, x := range in {
			if x.(rval).t == nil {
				w.strPanic("reflect: Call using zero Value argument")
			}
		}
		var args []value
		fixed := n
		if sig.Variadic() {
			fixed--
		}
		for i := 0; i < fixed; i++ {
			args = append(args, copyVal(w.assignTo(in[i].(rval), sig.Params().At(i).Type(), "reflect: Call")))
		}
		if sig.Variadic() {
			et := sig.Params().At(n - 1).Type().Underlying().(*types.Slice).Elem()
			var rest []value
			if len(in) > fixed {
				rest = make([]value, 0, len(in)-fixed)
			} else {
				rest = []value{}
			}
			for _, x := range in[fixed:] {
				rest = append(rest, copyVal(w.assignTo(x.(rval), et, "reflect: cannot use")))
			}
			args = append(args, rest)
		}
		res := w.call(fr, fn, args)
		rt := sig.Results()
		switch rt.Len() {
		case 0:
			return []value(nil)
		case 1:
			return []value{rval{t: w.canon(rt.At(0).Type()), v: res}}
		}
		out := make([]value, rt.Len())
		for i := range out {
			out[i] = rval{t: w.canon(rt.At(i).Type()), v: res.(tuple)[i]}
		}
		return out
	})
}

func (w *Worker) isNilVal(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *mapObj:
		return v == nil
	case *chanObj:
		return v == nil
	case iface:
		return v.t == nil
	case *ssa.Function, *closure, *ssa.Builtin:
		return isNilFunc(v)
	case *symPtr, *dataPtr:
		return false
	}
	return false
}

func (w *Worker) relem(r rval) rval {
	switch kindOf(r.t) {
	case kInterface:
		i := w.rget(r).(iface)
		if i.t == nil {
			return rval{}
		}
		return rval{t: i.t, v: i.v}
	case kPointer:
		p, ok := w.rget(r).(*value)
		if !ok {
			w.unsupported("reflect Elem of %T", w.rget(r))
		}
		if p == nil {
			return rval{}
		}
		return rval{t: w.canon(r.t.Underlying().(*types.Pointer).Elem()), addr: p}
	}
	w.valueErr("reflect.Value.Elem", kindOf(r.t))
	return rval{}
}

// dynComparable reports whether comparing the value panics.
func (w *Worker) dynComparable(t types.Type, v value) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(iface)
		return i.t == nil || w.dynComparable(i.t, i.v)
	case *types.Array:
		for _, x := range v.(array) {
			if !w.dynComparable(u.Elem(), x) {
				return false
			}
		}
		return types.Comparable(t)
	case *types.Struct:
		if !types.Comparable(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if !w.dynComparable(u.Field(i).Type(), v.(structure)[i]) {
				return false
			}
		}
		return true
	}
	return types.Comparable(t)
}

func (w *Worker) deepEqual(a, b iface) value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if w.canon(a.t) != w.canon(b.t) {
		return false
	}
	return w.deepEq(a.t, a.v, b.v)
}

func (w *Worker) deepEq(t types.Type, a, b value) value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			r = w.and(r, w.deepEq(u.Elem(), x[i], y[i]))
		}
		return r
	case *types.Interface:
		return w.deepEqual(a.(iface), b.(iface))
	case *types.Struct:
		var r value = true
		for i := 0; i < u.NumFields(); i++ {
			r = w.and(r, w.deepEq(u.Field(i).Type(), a.(structure)[i], b.(structure)[i]))
		}
		return r
	case *types.Array:
		var r value = true
		for i := range a.(array) {
			r = w.and(r, w.deepEq(u.Elem(), a.(array)[i], b.(array)[i]))
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if !ok1 || !ok2 {
			return w.ptrEq(a, b)
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return w.deepEq(u.Elem(), *x, *y)
	case *types.Map:
		x, y := a.(*mapObj), b.(*mapObj)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r value = true
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := w.mapLookup(y, x.keys[i])
			if !ok {
				return false
			}
			r = w.and(r, w.deepEq(u.Elem(), *x.vals[i], v))
		}
		return r
	}
	return w.eqVal(t, a, b)
}
