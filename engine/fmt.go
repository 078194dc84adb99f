package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// A model of the parts of package fmt that produce text.

func registerFmt(m map[string]intrinsic) {
	m["fmt.Sprintf"] = func(w *Worker, fr *frame, a []value) value {
		s, _ := w.sprintf(fr, a[0], a[1].([]value))
		return s
	}
	m["fmt.Sprint"] = func(w *Worker, fr *frame, a []value) value { return w.sprint(fr, a[0].([]value), false) }
	m["fmt.Sprintln"] = func(w *Worker, fr *frame, a []value) value { return w.sprint(fr, a[0].([]value), true) }
	for _, n := range []string{"Printf", "Println", "Print"} {
		m["fmt."+n] = func(w *Worker, fr *frame, a []value) value { return tuple{uint64(0), iface{}} }
	}
	m["fmt.Fprintf"] = func(w *Worker, fr *frame, a []value) value {
		s, _ := w.sprintf(fr, a[1], a[2].([]value))
		return w.fwrite(fr, a[0].(iface), s)
	}
	m["fmt.Fprint"] = func(w *Worker, fr *frame, a []value) value {
		return w.fwrite(fr, a[0].(iface), w.sprint(fr, a[1].([]value), false))
	}
	m["fmt.Fprintln"] = func(w *Worker, fr *frame, a []value) value {
		return w.fwrite(fr, a[0].(iface), w.sprint(fr, a[1].([]value), true))
	}
	m["fmt.Appendf"] = func(w *Worker, fr *frame, a []value) value {
		s, _ := w.sprintf(fr, a[1], a[2].([]value))
		return w.appendVals(types.Typ[types.Uint8], a[0].([]value), w.strBytes(s))
	}
	m["fmt.Errorf"] = func(w *Worker, fr *frame, a []value) value {
		args := a[1].([]value)
		wrapped := w.wrapVerbs(a[0])
		saved := append([]value(nil), args...)
		format := a[0]
		msg := &lazyStr{f: func() value {
			s, _ := w.sprintf(nil, format, saved)
			return s
		}}
		var errs []value
		for _, i := range wrapped {
			if i < len(args) {
				e := args[i].(iface)
				if e.t != nil && w.method1(e, "Error") != nil {
					errs = append(errs, e)
				}
			}
		}
		fp := w.prog.pkgs["fmt"]
		switch len(wrapped) {
		case 0:
			t := w.prog.pkgs["errors"].Type("errorString").Type()
			p := new(value)
			*p = structure{msg}
			return iface{w.canon(types.NewPointer(t)), p}
		case 1:
			t := fp.Type("wrapError").Type()
			p := new(value)
			var e value = iface{}
			if len(errs) > 0 {
				e = errs[0]
			}
			*p = structure{msg, e}
			return iface{w.canon(types.NewPointer(t)), p}
		}
		t := fp.Type("wrapErrors").Type()
		p := new(value)
		*p = structure{msg, errs}
		return iface{w.canon(types.NewPointer(t)), p}
	}
}

func (w *Worker) fwrite(fr *frame, wr iface, s value) value {
	if wr.t == nil {
		w.runtimePanic(errNilDeref)
	}
	f := w.method1(wr, "Write")
	if f == nil {
		w.unsupported("Fprintf to %s", wr.t)
	}
	b := append([]value(nil), w.strBytes(s)...)
	return w.call(fr, f, []value{wr.v, b})
}

// wrapVerbs finds the operands of %w.
func (w *Worker) wrapVerbs(f value) []int {
	f = w.force(f)
	s, ok := f.(string)
	if !ok {
		// only the marks matter
		b := make([]byte, w.strLen(f))
		for i := range b {
			c := w.strAt(f, i)
			if x, ok := c.(uint64); ok {
				b[i] = byte(x)
				continue
			}
			for _, m := range []byte("%w+-# .*[]0123456789") {
				if w.isTrue(w.eqByte(c, uint64(m))) {
					b[i] = m
					break
				}
			}
		}
		s = string(b)
	}
	var r []int
	arg := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && (s[i] == '+' || s[i] == '-' || s[i] == '#' || s[i] == ' ' || s[i] == '.' || (s[i] >= '0' && s[i] <= '9')) {
			i++
		}
		if i < len(s) && s[i] == '[' { // %[2]w
			n := 0
			for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
				n = n*10 + int(s[i]-'0')
			}
			if i < len(s) && s[i] == ']' && n > 0 {
				i++
				arg = n - 1
			}
		}
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			continue
		}
		if s[i] == 'w' {
			r = append(r, arg)
		}
		arg++
	}
	return r
}

func (w *Worker) sprintf(fr *frame, format value, args []value) (value, bool) {
	var out value = ""
	f := w.force(format)
	n := w.strLen(f)
	arg := 0
	lit := 0
	isPct := func(i int) bool { return w.isTrue(w.eqByte(w.strAt(f, i), uint64('%'))) }
	for i := 0; i < n; i++ {
		if !isPct(i) {
			continue
		}
		out = w.concat(out, w.strSlice(f, lit, i))
		start := i
		i++
		var spec []byte
		var verb byte
		done := false
		for ; i < n; i++ {
			bb := w.strAt(f, i)
			var c byte
			if x, ok := bb.(uint64); ok {
				c = byte(x)
			} else {
				c = byte(w.concretize(bb.(*Term), "format verb"))
			}
			if c == '+' || c == '-' || c == '#' || c == ' ' || c == '.' || (c >= '0' && c <= '9') {
				spec = append(spec, c)
				continue
			}
			if c == '*' || c == '[' || c >= 0x80 {
				w.unsupported("format directive %q", c)
			}
			verb = c
			done = true
			break
		}
		_ = start
		lit = i + 1
		if !done {
			out = w.concat(out, "%!(NOVERB)")
			lit = n
			break
		}
		if verb == '%' {
			out = w.concat(out, "%")
			continue
		}
		if arg >= len(args) {
			out = w.concat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = w.concat(out, w.fmtVerb(fr, string(spec), verb, args[arg].(iface), 0))
		arg++
	}
	if lit < n {
		out = w.concat(out, w.strSlice(f, lit, n))
	}
	if arg < len(args) {
		out = w.concat(out, "%!(EXTRA ")
		for k, a := range args[arg:] {
			if k > 0 {
				out = w.concat(out, ", ")
			}
			i := a.(iface)
			if i.t == nil {
				out = w.concat(out, "<nil>")
			} else {
				out = w.concat(out, typeStr(i.t)+"=")
				out = w.concat(out, w.fmtVerb(fr, "", 'v', i, 0))
			}
		}
		out = w.concat(out, ")")
	}
	return out, true
}

func (w *Worker) sprint(fr *frame, args []value, ln bool) value {
	var out value = ""
	prevStr := false
	for k, a := range args {
		i := a.(iface)
		isStr := i.t != nil && kindOf(i.t) == kString
		if k > 0 && (ln || (!isStr && !prevStr)) {
			out = w.concat(out, " ")
		}
		out = w.concat(out, w.fmtVerb(fr, "", 'v', i, 0))
		prevStr = isStr
	}
	if ln {
		out = w.concat(out, "\n")
	}
	return out
}

func native(t types.Type, v value) (any, bool) {
	switch kindOf(t) {
	case kBool:
		x, ok := v.(bool)
		return x, ok
	case kString:
		x, ok := isConcStr(v)
		return x, ok
	case kFloat64:
		x, ok := v.(float64)
		return x, ok
	case kFloat32:
		x, ok := v.(float32)
		return x, ok
	case kUint8:
		x, ok := v.(uint64)
		return uint8(x), ok
	case kUint16:
		x, ok := v.(uint64)
		return uint16(x), ok
	case kUint32:
		x, ok := v.(uint64)
		return uint32(x), ok
	case kUint64, kUint, kUintptr:
		x, ok := v.(uint64)
		return x, ok
	case kInt8:
		x, ok := v.(uint64)
		return int8(x), ok
	case kInt16:
		x, ok := v.(uint64)
		return int16(x), ok
	case kInt32:
		x, ok := v.(uint64)
		return int32(x), ok
	case kInt64, kInt:
		x, ok := v.(uint64)
		return int64(x), ok
	}
	return nil, false
}

// fmtVerb renders one operand.
func (w *Worker) fmtVerb(fr *frame, spec string, verb byte, x iface, depth int) value {
	if depth > 4 {
		w.unsupported("deep formatting")
	}
	if x.t == nil {
		if verb == 'w' {
			verb = 'v'
			return "%!w(<nil>)"
		}
		return fmt.Sprintf("%"+spec+string(verb), nil)
	}
	if verb == 'T' {
		if rt, ok := x.v.(rtype); ok {
			_ = rt
			return "*reflect.rtype"
		}
		return typeStr(x.t)
	}
	if verb == 'p' {
		w.unsupported("%%p")
	}
	if rt, ok := x.v.(rtype); ok {
		return typeStr(rt.t)
	}
	if rv, ok := x.v.(rval); ok {
		if rv.t == nil {
			return "<invalid reflect.Value>"
		}
		return w.fmtVerb(fr, spec, verb, w.ifaceVal(rv.t, w.rget(rv)), depth+1)
	}
	isErr := w.method1(x, "Error")
	if verb == 'w' {
		if isErr == nil {
			w.unsupported("%%w of a non-error")
		}
		verb = 'v'
	}
	sharp := false
	for _, c := range spec {
		if c == '#' {
			sharp = true
		}
	}
	if sharp && verb == 'v' {
		nv, ok := native(x.t, x.v)
		if _, named := types.Unalias(x.t).(*types.Named); ok && !named {
			return fmt.Sprintf("%#v", nv)
		}
		w.unsupported("%%#v of %s", x.t)
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
		f := isErr
		if f == nil {
			f = w.method1(x, "String")
			if f != nil && (f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type())) {
				f = nil
			}
		}
		if f != nil {
			if p, ok := x.v.(*value); ok && p == nil {
				// fmt prints <nil> when the method panics on a nil receiver
				return w.fmtNilRecv(fr, f, x, spec, verb)
			}
			s := w.call(fr, f, []value{copyVal(x.v)})
			if spec == "" && (verb == 'v' || verb == 's') {
				return s
			}
			if verb == 'q' && spec == "" {
				return w.call(fr, w.prog.fn("strconv", "Quote"), []value{w.force(s)})
			}
			return fmt.Sprintf("%"+spec+string(verb), w.concStr(s))
		}
	}
	if nv, ok := native(x.t, x.v); ok {
		return fmt.Sprintf("%"+spec+string(verb), nv)
	}
	k := kindOf(x.t)
	switch {
	case k == kString:
		if spec == "" {
			switch verb {
			case 'v', 's':
				return x.v
			case 'q':
				return w.call(fr, w.prog.fn("strconv", "Quote"), []value{w.force(x.v)})
			}
		}
		return fmt.Sprintf("%"+spec+string(verb), w.concStr(x.v))
	case isIntKind(k) && spec == "" && (verb == 'd' || verb == 'v'):
		ww, s, _ := intInfo(x.t)
		return w.call(fr, w.prog.fn("strconv", "FormatInt"), []value{w.intConv(x.v, ww, s, 64), uint64(10)})
	case isUintKind(k) && spec == "" && (verb == 'd' || verb == 'v'):
		ww, s, _ := intInfo(x.t)
		return w.call(fr, w.prog.fn("strconv", "FormatUint"), []value{w.intConv(x.v, ww, s, 64), uint64(10)})
	case isIntKind(k) || isUintKind(k):
		ww, _, _ := intInfo(x.t)
		c := w.concretize(x.v.(*Term), "formatted integer")
		nv, _ := native(x.t, c&mask(ww))
		return fmt.Sprintf("%"+spec+string(verb), nv)
	case k == kBool:
		return fmt.Sprintf("%"+spec+string(verb), w.isTrue(x.v))
	case k == kFloat64 && symFloat(x.v) && (spec == "" || spec[0] == '.') && strings.IndexByte("fFeEgGv", verb) >= 0:
		prec := uint64(6)
		if verb == 'F' {
			verb = 'f'
		}
		if verb == 'g' || verb == 'G' || verb == 'v' {
			prec = ^uint64(0)
			verb = map[byte]byte{'g': 'g', 'G': 'G', 'v': 'g'}[verb]
		}
		if spec != "" {
			n, err := strconv.Atoi(spec[1:])
			if err != nil && spec != "." {
				return w.unsupported("formatting %%%s%c of %s", spec, verb, x.t)
			}
			prec = uint64(n)
		}
		return w.call(fr, w.prog.fn("strconv", "FormatFloat"), []value{x.v, uint64(verb), prec, uint64(64)})
	case k == kFloat64:
		return fmt.Sprintf("%"+spec+string(verb), w.concFloat(x.v))
	case k == kPointer:
		p, ok := x.v.(*value)
		if ok && p == nil {
			if verb == 'v' || verb == 's' {
				if verb == 's' {
					return "%!s(" + typeStr(x.t) + "=<nil>)"
				}
				return "<nil>"
			}
		}
		if ok && p != nil && depth == 0 && verb == 'v' {
			et := x.t.Underlying().(*types.Pointer).Elem()
			switch kindOf(et) {
			case kStruct, kSlice, kArray:
				return w.concat("&", w.fmtVerb(fr, spec, verb, iface{w.canon(et), *p}, depth+1))
			}
		}
	case k == kSlice || k == kArray:
		var el []value
		var et types.Type
		if s, ok := x.v.([]value); ok {
			el = s
			et = x.t.Underlying().(*types.Slice).Elem()
		} else {
			el = x.v.(array)
			et = x.t.Underlying().(*types.Array).Elem()
		}
		if kindOf(et) == kUint8 && (verb == 's') {
			return w.mkStr(el)
		}
		var out value = "["
		for i, e := range el {
			if i > 0 {
				out = w.concat(out, " ")
			}
			out = w.concat(out, w.fmtVerb(fr, spec, verb, w.ifaceVal(w.canon(et), e), depth+1))
		}
		return w.concat(out, "]")
	case k == kStruct && (verb == 'v' || verb == 's') && spec == "":
		st := x.t.Underlying().(*types.Struct)
		var out value = "{"
		for i := 0; i < st.NumFields(); i++ {
			if i > 0 {
				out = w.concat(out, " ")
			}
			out = w.concat(out, w.fmtVerb(fr, spec, verb, w.ifaceVal(w.canon(st.Field(i).Type()), x.v.(structure)[i]), depth+1))
		}
		return w.concat(out, "}")
	case k == kMap && verb == 'v' && spec == "":
		mo := x.v.(*mapObj)
		if mo == nil {
			return "map[]"
		}
		mt := x.t.Underlying().(*types.Map)
		type kv struct {
			k string
			v value
		}
		var kvs []kv
		for i := range mo.keys {
			if mo.live[i] {
				ks := w.concStr(w.fmtVerb(fr, "", 'v', w.ifaceVal(w.canon(mt.Key()), mo.keys[i]), depth+1))
				kvs = append(kvs, kv{ks, w.fmtVerb(fr, "", 'v', w.ifaceVal(w.canon(mt.Elem()), *mo.vals[i]), depth+1)})
			}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		var out value = "map["
		for i, e := range kvs {
			if i > 0 {
				out = w.concat(out, " ")
			}
			out = w.concat(w.concat(out, e.k+":"), e.v)
		}
		return w.concat(out, "]")
	}
	return w.unsupported("formatting %%%s%c of %s", spec, verb, x.t)
}

func (w *Worker) fmtNilRecv(fr *frame, f value, x iface, spec string, verb byte) (res value) {
	depth := w.depth
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(targetPanic); ok {
				w.depth = depth
				res = "<nil>"
				return
			}
			panic(r)
		}
	}()
	s := w.call(fr, f, []value{x.v})
	return s
}

// symFloat tells if v is a symbolic double given by its bits.
func symFloat(v value) bool {
	t, ok := v.(*Term)
	return ok && (t.op == OB2F || t.op == OFNeg && t.a.op == OB2F)
}
