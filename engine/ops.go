package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) unop(fr *frame, c *cinstr) value {
	x := fr.get(&c.ops[0])
	switch c.tok {
	case token.MUL: // load
		switch p := x.(type) {
		case *value:
			if p == nil {
				w.runtimePanic(errNilDeref)
			}
			switch v := (*p).(type) {
			case opaque:
				w.unsupported("read of %s in %s", v.what, fr.cf.fn)
			case structure, array:
				return copyVal(v)
			default:
				return v
			}
		case *symPtr:
			return w.loadSym(p)
		case *dataPtr:
			if len(p.s) > 0 {
				return p.s[0]
			}
		}
		return w.unsupported("load through %T in %s", x, fr.cf.fn)
	case token.NOT:
		return w.not(x)
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			return (-x) & mask(c.w)
		case float64:
			return -x
		case float32:
			return -x
		case *Term:
			if x.w == wFP {
				return w.bv(w.ts.App(OFNeg, wFP, x, nil, nil))
			}
			return w.bv(w.ts.App(ONeg, x.w, x, nil, nil))
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			return ^x & mask(c.w)
		case *Term:
			return w.bv(w.ts.App(ONot, x.w, x, nil, nil))
		}
	case token.ARROW:
		ch := x.(*chanObj)
		if ch == nil {
			w.unsupported("receive from nil channel")
		}
		var v value
		ok := true
		if len(ch.buf) > 0 {
			old := ch.buf
			v = ch.buf[0]
			ch.buf = append([]value(nil), ch.buf[1:]...)
			w.onUndo(func() { ch.buf = old })
		} else if ch.closed {
			v, ok = w.zero(c.t2.Underlying().(*types.Chan).Elem()), false
		} else {
			w.unsupported("blocking receive")
		}
		if c.flag {
			return tuple{v, ok}
		}
		return v
	}
	return w.unsupported("unop %s on %T", c.tok, x)
}

func (w *Worker) binop(tok token.Token, t types.Type, width uint8, sgn bool, x, y value, c *cinstr) value {
	switch a := x.(type) {
	case uint64:
		if b, ok := y.(uint64); ok {
			return w.intOp(tok, t, width, sgn, a, b, c)
		}
	case string:
		if b, ok := y.(string); ok {
			switch tok {
			case token.ADD:
				return a + b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch tok {
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	}
	switch tok {
	case token.EQL:
		return w.eqVal(t, x, w.coerceNil(t, x, y))
	case token.NEQ:
		return w.not(w.eqVal(t, x, w.coerceNil(t, x, y)))
	}
	if isString(t) {
		switch tok {
		case token.ADD:
			return w.concat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	}
	if bits, ok := isFloat(t); ok {
		return w.floatOp(tok, bits, x, y)
	}
	if width > 0 {
		return w.symIntOp(tok, width, sgn, x, y, c)
	}
	return w.unsupported("binop %s on %s (%T,%T)", tok, t, x, y)
}

// coerceNil adapts untyped nil operands.
func (w *Worker) coerceNil(t types.Type, x, y value) value {
	if y == nil {
		return w.zero(t)
	}
	return y
}

func (w *Worker) intOp(tok token.Token, t types.Type, width uint8, sgn bool, a, b uint64, c *cinstr) value {
	m := mask(width)
	switch tok {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO:
		if b == 0 {
			w.runtimePanic("integer divide by zero")
		}
		if sgn {
			return evalOp(OSDiv, width, width, a, b, 0)
		}
		return a / b
	case token.REM:
		if b == 0 {
			w.runtimePanic("integer divide by zero")
		}
		if sgn {
			return evalOp(OSRem, width, width, a, b, 0)
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		// shift count type may differ
		if c != nil {
			_, ysgn, _ := intInfo(c.in.(*ssa.BinOp).Y.Type())
			yw, _, _ := intInfo(c.in.(*ssa.BinOp).Y.Type())
			if ysgn && sx(b, yw) < 0 {
				w.runtimePanic("negative shift amount")
			}
		}
		if tok == token.SHL {
			if b >= uint64(width) {
				return uint64(0)
			}
			return (a << b) & m
		}
		if sgn {
			if b >= uint64(width) {
				b = uint64(width) - 1
			}
			return uint64(sx(a, width)>>b) & m
		}
		if b >= uint64(width) {
			return uint64(0)
		}
		return a >> b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		if sgn {
			return sx(a, width) < sx(b, width)
		}
		return a < b
	case token.LEQ:
		if sgn {
			return sx(a, width) <= sx(b, width)
		}
		return a <= b
	case token.GTR:
		if sgn {
			return sx(a, width) > sx(b, width)
		}
		return a > b
	case token.GEQ:
		if sgn {
			return sx(a, width) >= sx(b, width)
		}
		return a >= b
	}
	return w.unsupported("int op %s", tok)
}

func (w *Worker) symIntOp(tok token.Token, width uint8, sgn bool, x, y value, c *cinstr) value {
	if tok == token.SHL || tok == token.SHR {
		if c == nil {
			w.unsupported("shift")
		}
		yt := c.in.(*ssa.BinOp).Y.Type()
		yw, ysgn, _ := intInfo(yt)
		n := uint64(0)
		if u, ok := y.(uint64); ok {
			n = u
			if ysgn && sx(n, yw) < 0 {
				w.runtimePanic("negative shift amount")
			}
		} else {
			n = w.concretize(y.(*Term), "shift amount")
			if ysgn && sx(n, yw) < 0 {
				w.runtimePanic("negative shift amount")
			}
		}
		xt := w.ti(x, width)
		if n >= uint64(width) {
			if tok == token.SHL || !sgn {
				return uint64(0)
			}
			n = uint64(width) - 1
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if sgn {
				op = OAshr
				if xt.ub <= mask(width)>>1 {
					op = OLshr
				}
			}
		}
		return w.bv(w.ts.App(op, width, xt, w.ts.Const(width, n), nil))
	}
	a, b := w.ti(x, width), w.ti(y, width)
	var op Op
	switch tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.QUO, token.REM:
		if w.isTrue(w.bv(w.ts.Eq(b, w.ts.Const(width, 0)))) {
			w.runtimePanic("integer divide by zero")
		}
		switch {
		case tok == token.QUO && sgn:
			op = OSDiv
		case tok == token.QUO:
			op = OUDiv
		case sgn:
			op = OSRem
		default:
			op = OURem
		}
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		b = w.ts.App(ONot, width, b, nil, nil)
		op = OAnd
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if tok == token.GTR || tok == token.GEQ {
			a, b = b, a
		}
		op = OUlt
		if tok == token.LEQ || tok == token.GEQ {
			op = OUle
		}
		if sgn {
			if op == OUlt {
				op = OSlt
			} else {
				op = OSle
			}
		}
		return w.bv(w.ts.App(op, 0, a, b, nil))
	default:
		w.unsupported("symbolic op %s", tok)
	}
	return w.bv(w.ts.App(op, width, a, b, nil))
}

func (w *Worker) floatOp(tok token.Token, bits int, x, y value) value {
	if bits == 32 {
		a, ok1 := x.(float32)
		b, ok2 := y.(float32)
		if !ok1 || !ok2 {
			w.unsupported("symbolic float32")
		}
		switch tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		switch tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	ta, tb := w.tf(x), w.tf(y)
	switch tok {
	case token.LSS:
		return w.bv(w.ts.App(OFLt, 0, ta, tb, nil))
	case token.LEQ:
		return w.bv(w.ts.App(OFLe, 0, ta, tb, nil))
	case token.GTR:
		return w.bv(w.ts.App(OFLt, 0, tb, ta, nil))
	case token.GEQ:
		return w.bv(w.ts.App(OFLe, 0, tb, ta, nil))
	}
	// arithmetic on symbolic doubles: enumerate the (few) values
	return w.floatOp(tok, bits, w.concFloat(x), w.concFloat(y))
}

func (w *Worker) concFloat(x value) value {
	t, ok := x.(*Term)
	if !ok {
		return x
	}
	switch t.op {
	case OU2F:
		return float64(w.concretize(t.a, "float operand"))
	case OS2F:
		return float64(int64(w.concretize(t.a, "float operand")))
	case OFNeg:
		return -w.concFloat(w.bv(t.a)).(float64)
	}
	return math.Float64frombits(w.concretize(t, "float operand"))
}

func (w *Worker) convert(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if pd, ok := ud.(*types.Pointer); ok { // unsafe.Pointer -> *T
		_ = pd
		return x
	}
	if sd, ok := ud.(*types.Slice); ok {
		switch v := w.force(x).(type) {
		case string, *symStr:
			eb := sd.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				b := w.strBytes(v)
				n := make([]value, len(b))
				copy(n, b)
				return n
			}
			if eb.Kind() == types.Int32 {
				var r []value
				it := &strIter{s: v}
				for {
					t := w.next(nil, it, nil).(tuple)
					if t[0] == false {
						break
					}
					r = append(r, t[2])
				}
				return r
			}
		case []value:
			return x
		}
		return w.unsupported("convert %s to %s", src, dst)
	}
	if isString(dst) {
		switch v := x.(type) {
		case string, *symStr, *lazyStr:
			return x
		case []value:
			et := us.(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return w.mkStr(v)
			}
			var out value = ""
			for _, r := range v {
				out = w.concat(out, w.runeStr(r, 32))
			}
			return out
		case uint64, *Term:
			sw, ss, _ := intInfo(src)
			if ss && sw < 32 {
				x = w.intConv(x, sw, ss, 32)
				sw = 32
			}
			return w.runeStr(x, sw)
		}
		return w.unsupported("convert %s to %s", src, dst)
	}
	dw, dsgn, dint := intInfo(dst)
	sw, ssgn, sint := intInfo(src)
	if dint && sint {
		return w.intConv(x, sw, ssgn, dw)
	}
	dfb, dfl := isFloat(dst)
	_, sfl := isFloat(src)
	switch {
	case dfl && sint:
		switch v := x.(type) {
		case uint64:
			var f float64
			if ssgn {
				if dfb == 32 {
					return float32(sx(v, sw))
				}
				f = float64(sx(v, sw))
			} else {
				if dfb == 32 {
					return float32(v)
				}
				f = float64(v)
			}
			return f
		case *Term:
			t := w.intConvT(v, sw, ssgn, 64)
			if dfb == 32 {
				v := w.concretize(t, "float32 conversion")
				if ssgn {
					return float32(int64(v))
				}
				return float32(v)
			}
			op := OU2F
			if ssgn {
				op = OS2F
			}
			return w.bv(w.ts.App(op, wFP, t, nil, nil))
		}
	case dfl && sfl:
		switch v := x.(type) {
		case float64:
			if dfb == 32 {
				return float32(v)
			}
			return v
		case float32:
			if dfb == 64 {
				return float64(v)
			}
			return v
		case *Term:
			if dfb == 64 {
				return v
			}
			return float32(w.concFloat(v).(float64))
		}
	case dint && sfl:
		return w.floatToInt(x, dw, dsgn)
	}
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if types.Identical(ud, us) {
		return x
	}
	return w.unsupported("convert %s to %s", src, dst)
}

// floatToInt follows gc on amd64: conversion through int64 (uint64 for large unsigned).
func (w *Worker) floatToInt(x value, dw uint8, dsgn bool) value {
	switch v := x.(type) {
	case float64:
		if !dsgn && dw == 64 {
			return uint64(v)
		}
		return uint64(int64(v)) & mask(dw)
	case float32:
		if !dsgn && dw == 64 {
			return uint64(v)
		}
		return uint64(int64(v)) & mask(dw)
	case *Term:
		r := w.ts.App(OF2S, 64, v, nil, nil)
		if r.op == OF2S {
			return w.floatToInt(w.concFloat(v), dw, dsgn)
		}
		return w.bv(w.ts.App(OExtract, dw, r, nil, nil))
	}
	return w.unsupported("float %T", x)
}

func (w *Worker) intConvT(t *Term, sw uint8, ssgn bool, dw uint8) *Term {
	switch {
	case dw == sw:
		return t
	case dw < sw:
		return w.ts.App(OExtract, dw, t, nil, nil)
	case ssgn && t.ub > mask(sw)>>1:
		return w.ts.App(OSext, dw, t, nil, nil)
	default:
		return w.ts.App(OZext, dw, t, nil, nil)
	}
}

func (w *Worker) intConv(x value, sw uint8, ssgn bool, dw uint8) value {
	switch v := x.(type) {
	case uint64:
		if ssgn {
			return uint64(sx(v, sw)) & mask(dw)
		}
		return v & mask(dw)
	case *Term:
		return w.bv(w.intConvT(v, sw, ssgn, dw))
	}
	return w.unsupported("int conversion of %T", x)
}

// runeStr converts a rune to its UTF-8 string.
func (w *Worker) runeStr(x value, width uint8) value {
	if v, ok := x.(uint64); ok {
		return string(rune(sx(v, width)))
	}
	t := x.(*Term)
	if w.branch(w.ts.App(OUlt, 0, t, w.ts.Const(t.w, 0x80), nil)) {
		return w.mkStr([]value{w.bv(w.ts.App(OExtract, 8, t, nil, nil))})
	}
	if t.w > 32 {
		if w.branch(w.ts.App(OUlt, 0, w.ts.Const(t.w, 0x10FFFF), t, nil)) {
			return "\uFFFD"
		}
		t = w.ts.App(OExtract, 32, t, nil, nil)
	}
	b := w.callSSA(&frame{w: w}, w.prog.fn("unicode/utf8", "AppendRune"), []value{[]value(nil), w.bv(t)}, nil)
	return w.mkStr(b.([]value))
}

var _ = fmt.Sprint
