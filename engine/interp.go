package main

// A symbolic interpreter for go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("ENGINE_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, "[engine] "+f+"\n", a...)
	}
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v       value // iface
	runtime bool
}

type storeRec struct {
	p   *value
	old value
}

type Worker struct {
	id         int
	prog       *Program
	ts         *TermStore
	p          *Path
	h          *Harness
	solver     *Solver
	inInit     int
	canonCache map[types.Type]types.Type
	funcs      map[*ssa.Function]*cfunc
	globals    map[*ssa.Global]*value
	inited     map[*ssa.Package]bool
	initErr    map[*ssa.Package]string
	thorough   bool
	stores     []storeRec
	undos      []func()
	undoAt     []int // store-log positions of undos
	depth      int
	maxSteps   int64
	maxDepth   int
	deadline   time.Time
	initSteps  int64
	native     map[string]any
	unary      map[unaryKey]int8
	unaryHits  int
}

type opnd struct {
	k uint8 // 0 reg, 1 const
	i int32
	v value
}

const (
	iAlloc = iota
	iUnOp
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iSliceToArrayPointer
	iMakeClosure
	iMakeInterface
	iMakeChan
	iMakeMap
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iSend
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iDefer
	iStore
	iMapUpdate
	iNop
	iUnsupported
)

type cinstr struct {
	op   uint8
	tok  token.Token
	w    uint8
	sgn  bool
	flag bool
	dst  int32
	n    int32
	ops  []opnd
	t    types.Type
	t2   types.Type
	in   ssa.Instruction
	fn   *ssa.Function
	intr intrinsic
}

type cphi struct {
	dst int32
	ops []opnd
}

type cblock struct {
	phis  []cphi
	ins   []cinstr
	preds []*ssa.BasicBlock
	succ0 int
	succ1 int
}

type cfunc struct {
	fn      *ssa.Function
	nregs   int
	blocks  []cblock
	recover int
	defers  bool
	nfree   int
	results *types.Tuple
}

type deferred struct {
	fn   value
	args []value
	in   *ssa.Defer
	intr intrinsic
}

type frame struct {
	w         *Worker
	cf        *cfunc
	regs      []value
	caller    *frame
	defers    []deferred
	block     int
	prev      int
	result    value
	panicking bool
	panicV    any
	recovered bool
}

type intrinsic func(w *Worker, fr *frame, args []value) value

func (w *Worker) onUndo(f func()) {
	if w.inInit > 0 {
		return
	}
	w.undos = append(w.undos, f)
	w.undoAt = append(w.undoAt, len(w.stores))
}

func (w *Worker) rollback() {
	n := len(w.stores)
	for i := len(w.undos) - 1; i >= 0; i-- {
		for n > w.undoAt[i] {
			n--
			*w.stores[n].p = w.stores[n].old
		}
		w.undos[i]()
		w.undos[i] = nil
	}
	for n > 0 {
		n--
		*w.stores[n].p = w.stores[n].old
	}
	if cap(w.stores) > 1<<20 {
		w.stores = nil
	}
	clear(w.stores)
	w.stores = w.stores[:0]
	w.undos = w.undos[:0]
	w.undoAt = w.undoAt[:0]
}

// set is the only way interpreted code changes a memory cell.
func (w *Worker) set(p *value, v value) {
	if w.inInit == 0 {
		if w.p.frozen != nil {
			if what, ok := w.p.frozen[p]; ok {
				w.sharedWrite(what)
				w.freeze(v, what) // published
			}
		}
		w.stores = append(w.stores, storeRec{p, *p})
	}
	*p = v
}

func (w *Worker) sharedWrite(what string) {
	if w.p.locks > 0 {
		return
	}
	w.violation(nil, "write to shared "+what)
}

func (w *Worker) mapWrite(m *mapObj) {
	if w.inInit == 0 && w.p.frozenMaps != nil {
		if what, ok := w.p.frozenMaps[m]; ok {
			w.sharedWrite(what)
		}
	}
}

func (w *Worker) store(t types.Type, p *value, v value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if lhs, ok := (*p).(structure); ok {
			rhs := v.(structure)
			for i := range lhs {
				w.store(u.Field(i).Type(), &lhs[i], rhs[i])
			}
			return
		}
	case *types.Array:
		lhs := (*p).(array)
		rhs := v.(array)
		for i := range lhs {
			w.store(u.Elem(), &lhs[i], rhs[i])
		}
		return
	}
	w.set(p, v)
}

func (w *Worker) load(p *value) value { return copyVal(*p) }

func (w *Worker) unsupported(f string, a ...any) value {
	panic(ctl{ctlUnsupported, fmt.Sprintf(f, a...)})
}

// runtimePanic raises a runtime.Error panic.
func (w *Worker) runtimePanic(msg string) {
	panic(targetPanic{v: w.mkRuntimeError(msg), runtime: true})
}
func (w *Worker) plainPanic(msg string) { // plainError panics are runtime.Errors, too
	panic(targetPanic{v: w.mkRuntimeError(msg), runtime: true})
}

func (w *Worker) mkRuntimeError(msg string) iface {
	t := w.prog.runtimeError()
	if t == nil {
		panic(ctl{ctlUnsupported, "runtime error: " + msg})
	}
	return iface{t: t, v: msg}
}

// ---- constants ----

func (w *Worker) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		panic(ctl{ctlUnsupported, "const of type param " + tp.String()})
	}
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		width, _, _ := intInfo(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(width)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(width)
	case b.Kind() == types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return f
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(ctl{ctlUnsupported, "constant " + c.String()})
}

// ---- compilation of functions ----

func (w *Worker) compile(fn *ssa.Function) *cfunc {
	if cf, ok := w.funcs[fn]; ok {
		return cf
	}
	if fn.Blocks == nil {
		panic(ctl{ctlUnsupported, "no code for " + fn.String()})
	}
	cf := &cfunc{fn: fn, recover: -1, nfree: len(fn.FreeVars), results: fn.Signature.Results()}
	w.funcs[fn] = cf
	idx := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.defers = true
			}
		}
	}
	cf.nregs = int(n)
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: 1}
		case *ssa.Const:
			return opnd{k: 1, v: w.constValue(v)}
		case *ssa.Function:
			return opnd{k: 1, v: v}
		case *ssa.Builtin:
			return opnd{k: 1, v: v}
		case *ssa.Global:
			return opnd{k: 1, v: w.global(v)}
		}
		i, ok := idx[v]
		if !ok {
			panic(ctl{ctlUnsupported, fmt.Sprintf("operand %T in %s", v, fn)})
		}
		return opnd{i: i}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		cb.preds = b.Preds
		if len(b.Succs) > 0 {
			cb.succ0 = b.Succs[0].Index
		}
		if len(b.Succs) > 1 {
			cb.succ1 = b.Succs[1].Index
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				c := cphi{dst: idx[phi]}
				for _, e := range phi.Edges {
					c.ops = append(c.ops, op(e))
				}
				cb.phis = append(cb.phis, c)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = idx[v]
				c.t = v.Type()
			}
			add := func(vs ...ssa.Value) {
				for _, v := range vs {
					c.ops = append(c.ops, op(v))
				}
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				c.op = iAlloc
				c.t = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.UnOp:
				c.op, c.tok = iUnOp, in.Op
				add(in.X)
				c.t2 = in.X.Type()
				c.w, c.sgn, _ = intInfo(in.X.Type())
				c.flag = in.CommaOk
			case *ssa.BinOp:
				c.op, c.tok = iBinOp, in.Op
				add(in.X, in.Y)
				c.t2 = in.X.Type()
				c.w, c.sgn, _ = intInfo(in.X.Type())
			case *ssa.Call:
				c.op = iCall
				w.compileCall(&c, &in.Call, add)
			case *ssa.Defer:
				c.op = iDefer
				w.compileCall(&c, &in.Call, add)
				if in.DeferStack != nil {
					c.op = iUnsupported
				}
			case *ssa.ChangeInterface:
				c.op = iChangeInterface
				add(in.X)
			case *ssa.ChangeType:
				c.op = iChangeType
				add(in.X)
			case *ssa.Convert:
				c.op = iConvert
				add(in.X)
				c.t2 = in.X.Type()
			case *ssa.SliceToArrayPointer:
				c.op = iSliceToArrayPointer
				add(in.X)
			case *ssa.MakeClosure:
				c.op = iMakeClosure
				c.fn = in.Fn.(*ssa.Function)
				add(in.Bindings...)
			case *ssa.MakeInterface:
				c.op = iMakeInterface
				add(in.X)
				c.t2 = w.canon(in.X.Type())
			case *ssa.MakeChan:
				c.op = iMakeChan
				add(in.Size)
			case *ssa.MakeMap:
				c.op = iMakeMap
			case *ssa.MakeSlice:
				c.op = iMakeSlice
				add(in.Len, in.Cap)
			case *ssa.Slice:
				c.op = iSlice
				add(in.X, in.Low, in.High, in.Max)
				c.t2 = in.X.Type()
				if in.Low != nil {
					c.n |= 1
				}
				if in.High != nil {
					c.n |= 2
				}
				if in.Max != nil {
					c.n |= 4
				}
			case *ssa.FieldAddr:
				c.op, c.n = iFieldAddr, int32(in.Field)
				add(in.X)
			case *ssa.Field:
				c.op, c.n = iField, int32(in.Field)
				add(in.X)
			case *ssa.IndexAddr:
				c.op = iIndexAddr
				add(in.X, in.Index)
				c.t2 = in.X.Type()
				c.w, c.sgn, _ = intInfo(in.Index.Type())
			case *ssa.Index:
				c.op = iIndex
				add(in.X, in.Index)
				c.w, c.sgn, _ = intInfo(in.Index.Type())
			case *ssa.Lookup:
				c.op = iLookup
				add(in.X, in.Index)
				c.t2 = in.X.Type()
				c.w, c.sgn, _ = intInfo(in.Index.Type())
				c.flag = in.CommaOk
			case *ssa.Send:
				c.op = iSend
				add(in.Chan, in.X)
			case *ssa.Range:
				c.op = iRange
				add(in.X)
				c.t2 = in.X.Type()
			case *ssa.Next:
				c.op = iNext
				add(in.Iter)
				c.flag = in.IsString
			case *ssa.TypeAssert:
				c.op = iTypeAssert
				add(in.X)
				c.t2 = w.canon(in.AssertedType)
				c.flag = in.CommaOk
			case *ssa.Extract:
				c.op, c.n = iExtract, int32(in.Index)
				add(in.Tuple)
			case *ssa.Jump:
				c.op = iJump
			case *ssa.If:
				c.op = iIf
				add(in.Cond)
			case *ssa.Return:
				c.op = iReturn
				add(in.Results...)
			case *ssa.RunDefers:
				c.op = iRunDefers
			case *ssa.Panic:
				c.op = iPanic
				add(in.X)
			case *ssa.Store:
				c.op = iStore
				add(in.Addr, in.Val)
				c.t = in.Val.Type()
			case *ssa.MapUpdate:
				c.op = iMapUpdate
				add(in.Map, in.Key, in.Value)
			default:
				c.op = iUnsupported
			}
			cb.ins = append(cb.ins, c)
		}
	}
	w.prog.encoded(fn)
	return cf
}

func (w *Worker) compileCall(c *cinstr, call *ssa.CallCommon, add func(...ssa.Value)) {
	add(call.Value)
	add(call.Args...)
	if !call.IsInvoke() {
		if fn, ok := call.Value.(*ssa.Function); ok {
			c.fn = fn
			c.intr = w.lookupIntrinsic(fn)
		}
	}
}

// global returns the cell of a package variable, initialising its package first.
func (w *Worker) global(g *ssa.Global) *value {
	if p, ok := w.globals[g]; ok {
		if g.Pkg != nil {
			w.ensureInit(g.Pkg)
		}
		return p
	}
	p := new(value)
	if w.prog.opaquePkg(g.Pkg) && !w.prog.allowGlobal(g) {
		// package state we do not model: reading it must not go unnoticed
		*p = opaque{g.String()}
		if strings.HasPrefix(g.Name(), "init$guard") {
			*p = true
		}
	} else {
		*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
	}
	w.globals[g] = p
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "time" {
		// what its initialisation does; the local zone itself stays unread
		switch g.Name() {
		case "UTC":
			*p = w.global(g.Pkg.Var("utcLoc"))
		case "Local":
			*p = w.global(g.Pkg.Var("localLoc"))
		case "utcLoc":
			(*p).(structure)[0] = "UTC"
		case "std0x":
			for i, n := range []string{"stdZeroMonth", "stdZeroDay", "stdZeroHour12", "stdZeroMinute", "stdZeroSecond", "stdYear"} {
				k, _ := constant.Int64Val(g.Pkg.Const(n).Value.Value)
				(*p).(array)[i] = uint64(k)
			}
		}
	}
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
	}
	return p
}

// opaque is the value of unmodelled package state.
type opaque struct{ what string }

func (w *Worker) ensureInit(pkg *ssa.Package) {
	if w.inited[pkg] {
		if m, bad := w.initErr[pkg]; bad {
			panic(ctl{ctlUnsupported, m})
		}
		return
	}
	w.inited[pkg] = true
	if w.prog.opaquePkg(pkg) {
		return
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// make sure all cells exist before running
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			w.global(g)
		}
	}
	w.inInit++
	defer func() { w.inInit-- }()
	savedDepth := w.depth
	defer func() { w.depth = savedDepth }()
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(ctl); ok {
				w.initErr[pkg] = "init of " + pkg.Pkg.Path() + ": " + c.msg
				panic(ctl{ctlUnsupported, w.initErr[pkg]})
			}
			w.initErr[pkg] = fmt.Sprintf("init of %s panicked: %v", pkg.Pkg.Path(), r)
			if os.Getenv("ENGDBG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
			panic(r)
		}
	}()
	w.call(nil, init, nil)
}

// ---- calls ----

func (w *Worker) call(caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if in := w.lookupIntrinsic(fn); in != nil {
			return in(w, caller, args)
		}
		return w.callSSA(caller, fn, args, nil)
	case *closure:
		if fn.fn == nil {
			w.unsupported("native closure")
		}
		return w.callSSA(caller, fn.fn, args, fn.env)
	case nativeFn:
		return fn.f(w, caller, args)
	case nil:
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return w.unsupported("call of %T", fn)
}

type nativeFn struct {
	f func(w *Worker, fr *frame, args []value) value
}

func (w *Worker) callSSA(caller *frame, fn *ssa.Function, args, env []value) value {
	if fn.Blocks == nil {
		w.unsupported("external function %s", fn)
	}
	if caller != nil && fn.Name() == "init" && fn.Pkg != nil && fn.Parent() == nil && fn == fn.Pkg.Func("init") {
		return nil // packages are initialised lazily
	}
	cf := w.funcs[fn]
	if cf == nil {
		cf = w.compile(fn)
	}
	w.depth++
	if w.depth > w.maxDepth {
		w.depth = 0
		panic(ctl{ctlSteps, "call depth exceeded in " + fn.String()})
	}
	fr := &frame{w: w, cf: cf, caller: caller}
	fr.regs = make([]value, cf.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if cf.defers || cf.recover >= 0 {
		fr.runWithDefers()
	} else {
		fr.run()
	}
	w.depth--
	return fr.result
}

// runWithDefers executes a function that may defer and recover.
func (fr *frame) runWithDefers() {
	depth := fr.w.depth
	for {
		again := func() (again bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.w.depth = depth
				fr.panicking = true
				fr.panicV = tp
				fr.runDefers() // re-panics if not recovered
				// recovered
				if fr.cf.recover < 0 {
					fr.result = fr.w.zero(fr.cf.results)
					if fr.cf.results.Len() == 0 {
						fr.result = nil
					}
					return
				}
				fr.block = fr.cf.recover
				fr.prev = -1
				again = true
			}()
			fr.run()
			return false
		}()
		if !again {
			return
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	depth := fr.w.depth
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.w.depth = depth
			fr.panicking = true
			fr.panicV = tp
		}
	}()
	if d.intr != nil {
		d.intr(fr.w, fr, d.args)
	} else if b, is := d.fn.(*ssa.Builtin); is {
		fr.w.builtin(fr, b, d.args, &d.in.Call)
	} else {
		fr.w.call(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *frame) get(o *opnd) value {
	if o.k == 0 {
		return fr.regs[o.i]
	}
	return o.v
}

var errNilDeref = "invalid memory address or nil pointer dereference"

func (fr *frame) run() {
	w := fr.w
	cf := fr.cf
	p := w.p
	var phiTmp [16]value
	for {
		b := &cf.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := 0
			for i, pr := range b.preds {
				if pr.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) <= len(phiTmp) {
				for i := range b.phis {
					phiTmp[i] = fr.get(&b.phis[i].ops[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = phiTmp[i]
				}
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].ops[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		if w.inInit == 0 {
			p.steps += int64(len(b.ins))
			if p.steps > w.maxSteps {
				panic(ctl{ctlSteps, "step budget exceeded in " + cf.fn.String()})
			}
			if p.steps&0xfff < int64(len(b.ins)) && time.Now().After(w.deadline) {
				panic(ctl{ctlTimeout, "time budget exceeded"})
			}
		} else {
			w.initSteps += int64(len(b.ins))
			if w.initSteps > 200_000_000 {
				panic(ctl{ctlUnsupported, "package initialisation too long"})
			}
		}
		next := -1
		for ii := range b.ins {
			c := &b.ins[ii]
			switch c.op {
			case iAlloc:
				q := new(value)
				*q = w.zero(c.t)
				fr.regs[c.dst] = q
			case iUnOp:
				fr.regs[c.dst] = w.unop(fr, c)
			case iBinOp:
				x, y := fr.get(&c.ops[0]), fr.get(&c.ops[1])
				fr.regs[c.dst] = w.binop(c.tok, c.t2, c.w, c.sgn, x, y, c)
			case iCall:
				fr.regs[c.dst] = fr.doCall(c)
			case iDefer:
				call := &c.in.(*ssa.Defer).Call
				fn, args, intr := fr.prepCall(c, call)
				fr.defers = append(fr.defers, deferred{fn: fn, args: args, in: c.in.(*ssa.Defer), intr: intr})
			case iChangeInterface, iChangeType:
				fr.regs[c.dst] = fr.get(&c.ops[0])
			case iConvert:
				fr.regs[c.dst] = w.convert(c.t, c.t2, fr.get(&c.ops[0]))
			case iSliceToArrayPointer:
				s := fr.get(&c.ops[0]).([]value)
				n := int(c.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					w.runtimePanic("cannot convert slice to array pointer: length mismatch")
				}
				if s == nil {
					fr.regs[c.dst] = (*value)(nil)
				} else {
					q := new(value)
					*q = array(s[:n:n])
					fr.regs[c.dst] = q
				}
			case iMakeClosure:
				env := make([]value, len(c.ops))
				for i := range c.ops {
					env[i] = fr.get(&c.ops[i])
				}
				fr.regs[c.dst] = &closure{c.fn, env}
			case iMakeInterface:
				v := fr.get(&c.ops[0])
				fr.regs[c.dst] = iface{c.t2, v}
			case iMakeChan:
				n := w.concInt(fr.get(&c.ops[0]), 64, true, "chan size")
				fr.regs[c.dst] = &chanObj{cap: int(n)}
			case iMakeMap:
				fr.regs[c.dst] = &mapObj{kt: c.t.Underlying().(*types.Map).Key()}
			case iMakeSlice:
				ms := c.in.(*ssa.MakeSlice)
				lw, ls, _ := intInfo(ms.Len.Type())
				cw, cs, _ := intInfo(ms.Cap.Type())
				n := w.concInt(fr.get(&c.ops[0]), lw, ls, "make length")
				m := w.concInt(fr.get(&c.ops[1]), cw, cs, "make capacity")
				if n < 0 || n > 1<<40 {
					w.runtimePanic("makeslice: len out of range")
				}
				if m < n || m > 1<<40 {
					w.runtimePanic("makeslice: cap out of range")
				}
				if m > 1<<24 {
					panic(ctl{ctlSteps, fmt.Sprintf("make of %d elements in %s", m, cf.fn)})
				}
				et := c.t.Underlying().(*types.Slice).Elem()
				fr.regs[c.dst] = w.makeSlice(et, int(n), int(m))
			case iSlice:
				fr.regs[c.dst] = w.slice(fr, c)
			case iFieldAddr:
				x := fr.get(&c.ops[0])
				q, ok := x.(*value)
				if !ok {
					if sp, ok2 := x.(*symPtr); ok2 {
						q = w.resolvePtr(sp)
					} else {
						w.unsupported("field address of %T in %s", x, cf.fn)
					}
				}
				if q == nil {
					w.runtimePanic(errNilDeref)
				}
				s, ok := (*q).(structure)
				if !ok {
					w.unsupported("field of %T (%v) in %s", *q, *q, cf.fn)
				}
				fr.regs[c.dst] = &s[c.n]
			case iField:
				s, ok := fr.get(&c.ops[0]).(structure)
				if !ok {
					w.unsupported("field of %T in %s", fr.get(&c.ops[0]), cf.fn)
				}
				fr.regs[c.dst] = copyVal(s[c.n])
			case iIndexAddr:
				fr.regs[c.dst] = w.indexAddr(fr.get(&c.ops[0]), fr.get(&c.ops[1]), c)
			case iIndex:
				fr.regs[c.dst] = w.index(fr.get(&c.ops[0]), fr.get(&c.ops[1]), c)
			case iLookup:
				fr.regs[c.dst] = w.lookup(fr.get(&c.ops[0]), fr.get(&c.ops[1]), c)
			case iSend:
				ch := fr.get(&c.ops[0]).(*chanObj)
				w.send(ch, fr.get(&c.ops[1]))
			case iRange:
				fr.regs[c.dst] = w.rangeIter(fr.get(&c.ops[0]), c.t2)
			case iNext:
				fr.regs[c.dst] = w.next(fr, fr.get(&c.ops[0]), c)
			case iTypeAssert:
				fr.regs[c.dst] = w.typeAssert(fr.get(&c.ops[0]).(iface), c)
			case iExtract:
				fr.regs[c.dst] = fr.get(&c.ops[0]).(tuple)[c.n]
			case iJump:
				next = b.succ0
			case iIf:
				if w.isTrue(fr.get(&c.ops[0])) {
					next = b.succ0
				} else {
					next = b.succ1
				}
			case iReturn:
				switch len(c.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&c.ops[0])
				default:
					r := make(tuple, len(c.ops))
					for i := range c.ops {
						r[i] = fr.get(&c.ops[i])
					}
					fr.result = r
				}
				return
			case iRunDefers:
				fr.runDefers()
			case iPanic:
				v := fr.get(&c.ops[0]).(iface)
				if v.t == nil {
					panic(targetPanic{v: w.mkRuntimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)"), runtime: true})
				}
				panic(targetPanic{v: v})
			case iStore:
				w.doStore(c.t, fr.get(&c.ops[0]), fr.get(&c.ops[1]))
			case iMapUpdate:
				m, ok := fr.get(&c.ops[0]).(*mapObj)
				if !ok {
					w.unsupported("map update of %T", fr.get(&c.ops[0]))
				}
				w.mapUpdate(m, fr.get(&c.ops[1]), copyVal(fr.get(&c.ops[2])))
			default:
				w.unsupported("instruction %T in %s", c.in, cf.fn)
			}
		}
		if next < 0 {
			w.unsupported("fallthrough block in %s", cf.fn)
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (w *Worker) doStore(t types.Type, addr, v value) {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			w.runtimePanic(errNilDeref)
		}
		w.store(t, a, copyVal(v))
	case *symPtr:
		w.store(t, w.resolvePtr(a), copyVal(v))
	default:
		w.unsupported("store through %T", addr)
	}
}

func (fr *frame) prepCall(c *cinstr, call *ssa.CallCommon) (value, []value, intrinsic) {
	w := fr.w
	if call.IsInvoke() {
		recv := fr.get(&c.ops[0]).(iface)
		args := make([]value, 0, len(c.ops))
		fn := w.findMethod(recv, call.Method)
		if nf, ok := fn.(nativeFn); ok {
			args = append(args, recv.v)
			for i := range c.ops[1:] {
				args = append(args, copyVal(fr.get(&c.ops[i+1])))
			}
			return nf, args, nil
		}
		args = append(args, copyVal(recv.v))
		for i := range c.ops[1:] {
			args = append(args, copyVal(fr.get(&c.ops[i+1])))
		}
		return fn, args, nil
	}
	args := make([]value, len(c.ops)-1)
	for i := range args {
		args[i] = copyVal(fr.get(&c.ops[i+1]))
	}
	return fr.get(&c.ops[0]), args, c.intr
}

// findMethod resolves an interface method call.
func (w *Worker) findMethod(recv iface, m *types.Func) value {
	if recv.t == nil {
		w.runtimePanic(errNilDeref)
	}
	switch recv.v.(type) {
	case rtype:
		name := m.Name()
		return nativeFn{func(w *Worker, fr *frame, args []value) value {
			return w.rtypeMethod(name, args[0].(rtype).t, args[1:])
		}}
	}
	fn := w.prog.method(recv.t, m.Pkg(), m.Name())
	if fn == nil {
		w.unsupported("method %s of %s", m.Name(), recv.t)
	}
	return fn
}

func (fr *frame) doCall(c *cinstr) value {
	w := fr.w
	call := &c.in.(*ssa.Call).Call
	fn, args, intr := fr.prepCall(c, call)
	if intr != nil {
		return intr(w, fr, args)
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		return w.builtin(fr, b, args, call)
	}
	return w.call(fr, fn, args)
}

// ---- slices and indexing ----

func (w *Worker) makeSlice(et types.Type, n, m int) []value {
	s := make([]value, m)
	z := w.zero(et)
	switch z.(type) {
	case structure, array:
		for i := range s {
			s[i] = w.zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n:m]
}

// concInt makes an integer concrete, forking over its values.
func (w *Worker) concInt(v value, width uint8, signed bool, what string) int64 {
	switch v := v.(type) {
	case uint64:
		if signed {
			return sx(v, width)
		}
		return int64(v)
	case *Term:
		x := w.concretize(v, what)
		if signed {
			return sx(x, width)
		}
		return int64(x)
	}
	w.unsupported("integer %T", v)
	return 0
}

// inRange checks 0 <= idx < n, forking if undecided.
func (w *Worker) inRange(idx *Term, width uint8, signed bool, n int) bool {
	if idx.ub < uint64(n) && (!signed || idx.ub <= mask(width)>>1) {
		return true
	}
	if width < 64 && uint64(n) > mask(width) {
		if !signed {
			return true
		}
		z := w.ts.Const(width, 0)
		return w.branch(w.ts.App(OSle, 0, z, idx, nil))
	}
	// as unsigned comparison: negative values are huge
	return w.branch(w.ts.App(OUlt, 0, idx, w.ts.Const(width, uint64(n)), nil))
}

func (w *Worker) boundsPanic(i any, n int) {
	w.runtimePanic(fmt.Sprintf("index out of range [%v] with length %d", i, n))
}

func (w *Worker) indexAddr(x, idx value, c *cinstr) value {
	var s []value
	switch x := x.(type) {
	case []value:
		s = x
	case *value:
		if x == nil {
			w.runtimePanic(errNilDeref)
		}
		a, ok := (*x).(array)
		if !ok {
			w.unsupported("index of %T %v", *x, *x)
		}
		s = a
	default:
		w.unsupported("index address of %T", x)
	}
	switch i := idx.(type) {
	case uint64:
		n := int64(i)
		if c.sgn {
			n = sx(i, c.w)
		}
		if n < 0 || n >= int64(len(s)) {
			w.boundsPanic(n, len(s))
		}
		return &s[n]
	case *Term:
		if !w.inRange(i, c.w, c.sgn, len(s)) {
			w.boundsPanic("?", len(s))
		}
		if len(s) == 1 {
			return &s[0]
		}
		ew := uint8(0)
		if pt, ok := c.t.Underlying().(*types.Pointer); ok {
			ew, _, _ = intInfo(pt.Elem())
		}
		return &symPtr{s, i, ew}
	}
	return w.unsupported("index %T", idx)
}

func (w *Worker) index(x, idx value, c *cinstr) value {
	var s []value
	switch x := x.(type) {
	case array:
		s = x
	case []value:
		s = x
	case string, *symStr, *lazyStr:
		return w.strIndex(x, idx, c.w, c.sgn)
	default:
		w.unsupported("index of %T", x)
	}
	switch i := idx.(type) {
	case uint64:
		n := int64(i)
		if c.sgn {
			n = sx(i, c.w)
		}
		if n < 0 || n >= int64(len(s)) {
			w.boundsPanic(n, len(s))
		}
		return copyVal(s[n])
	case *Term:
		if !w.inRange(i, c.w, c.sgn, len(s)) {
			w.boundsPanic("?", len(s))
		}
		ew, _, _ := intInfo(c.t)
		return w.loadSym(&symPtr{s, i, ew})
	}
	return w.unsupported("index %T", idx)
}

func (w *Worker) strIndex(x, idx value, width uint8, sgn bool) value {
	x = w.force(x)
	n := w.strLen(x)
	switch i := idx.(type) {
	case uint64:
		k := int64(i)
		if sgn {
			k = sx(i, width)
		}
		if k < 0 || k >= int64(n) {
			w.boundsPanic(k, n)
		}
		return w.strAt(x, int(k))
	case *Term:
		if !w.inRange(i, width, sgn, n) {
			w.boundsPanic("?", n)
		}
		return w.loadSym(&symPtr{w.strBytes(x), i, 8})
	}
	return w.unsupported("string index %T", idx)
}

// loadSym reads a slice at a symbolic (in-range) index.
func (w *Worker) loadSym(p *symPtr) value {
	scalar := true
	for _, e := range p.s {
		switch e.(type) {
		case uint64, bool, *Term:
		default:
			scalar = false
		}
	}
	if !scalar {
		return w.load(w.resolvePtr(p))
	}
	type run struct {
		lo, hi int
		v      value
	}
	var runs []run
	lim := len(p.s)
	if p.idx.ub < uint64(lim) {
		lim = int(p.idx.ub) + 1
	}
	for i := 0; i < lim; i++ {
		e := p.s[i]
		if n := len(runs); n > 0 && runs[n-1].v == e {
			runs[n-1].hi = i
			continue
		}
		runs = append(runs, run{i, i, e})
	}
	if len(runs) == 1 {
		return runs[0].v
	}
	// decide each distinct run by ITE
	mk := func(e value) *Term {
		switch e := e.(type) {
		case bool:
			return w.ts.Bool(e)
		case uint64:
			return w.ts.Const(p.elemWidth(w), e)
		case *Term:
			return e
		}
		panic("mk")
	}
	r := mk(runs[len(runs)-1].v)
	iw := p.idx.w
	for k := len(runs) - 2; k >= 0; k-- {
		cond := w.ts.App(OUle, 0, p.idx, w.ts.Const(iw, uint64(runs[k].hi)), nil)
		r = w.ts.Ite(cond, mk(runs[k].v), r)
	}
	return w.bv(r)
}

func (p *symPtr) elemWidth(w *Worker) uint8 {
	if p.w != 0 {
		return p.w
	}
	for _, e := range p.s {
		if t, ok := e.(*Term); ok {
			return t.w
		}
	}
	panic(ctl{ctlUnsupported, "symbolic index into table of unknown width"})
}

func (w *Worker) slice(fr *frame, c *cinstr) value {
	x := fr.get(&c.ops[0])
	in := c.in.(*ssa.Slice)
	conc := func(i int, bit int32, def int64, t func() types.Type) int64 {
		if c.n&bit == 0 {
			return def
		}
		ww, ss, _ := intInfo(t())
		return w.concInt(fr.get(&c.ops[i]), ww, ss, "slice bound")
	}
	switch x := w.force(x).(type) {
	case string, *symStr:
		n := w.strLen(x)
		lo := conc(1, 1, 0, func() types.Type { return in.Low.Type() })
		hi := conc(2, 2, int64(n), func() types.Type { return in.High.Type() })
		if hi < 0 || hi > int64(n) {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return w.strSlice(x, int(lo), int(hi))
	case []value:
		return w.sliceOf(x, conc, in)
	case *value:
		if x == nil {
			w.runtimePanic(errNilDeref)
		}
		a, ok := (*x).(array)
		if !ok {
			w.unsupported("slice of %T", *x)
		}
		return w.sliceOf([]value(a), conc, in)
	default:
		return w.unsupported("slice of %T", x)
	}
}

func (w *Worker) sliceOf(s []value, conc func(int, int32, int64, func() types.Type) int64, in *ssa.Slice) value {
	lo := conc(1, 1, 0, func() types.Type { return in.Low.Type() })
	hi := conc(2, 2, int64(len(s)), func() types.Type { return in.High.Type() })
	mx := conc(3, 4, int64(cap(s)), func() types.Type { return in.Max.Type() })
	if mx < 0 || mx > int64(cap(s)) {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(s)))
	}
	if hi < 0 || hi > mx {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if s == nil {
		return s
	}
	return s[lo:hi:mx]
}

func (w *Worker) lookup(x, k value, c *cinstr) value {
	switch x := x.(type) {
	case string, *symStr, *lazyStr:
		return w.strIndex(x, k, c.w, c.sgn)
	case *mapObj:
		var v value
		var ok bool
		if x == nil { // still panics for unhashable keys
			w.concKey(c.t2.Underlying().(*types.Map).Key(), k)
		} else {
			v, ok = w.mapLookup(x, k)
		}
		if !ok {
			v = w.zero(c.t2.Underlying().(*types.Map).Elem())
		} else {
			v = copyVal(v)
		}
		if c.flag {
			return tuple{v, ok}
		}
		return v
	}
	return w.unsupported("lookup in %T", x)
}

func (w *Worker) rangeIter(x value, t types.Type) value {
	switch x := w.force(x).(type) {
	case *mapObj:
		it := &mapIter{m: x}
		if x == nil {
			return it
		}
		for i := range x.keys {
			if x.live[i] {
				it.ord = append(it.ord, i)
			}
		}
		if len(it.ord) > 1 && w.inInit == 0 && w.p.mapOrder > 0 {
			w.p.usedMapOrder = true
			if w.p.mapOrder == 1 {
				w.p.mapOrder = int8(2 + w.choose(2))
			}
			if w.p.mapOrder == 3 {
				for i, j := 0, len(it.ord)-1; i < j; i, j = i+1, j-1 {
					it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
				}
			}
		}
		return it
	case string, *symStr:
		return &strIter{s: x}
	}
	return w.unsupported("range over %T", x)
}

func (w *Worker) next(fr *frame, it value, c *cinstr) value {
	switch it := it.(type) {
	case *mapIter:
		for it.m != nil && it.pos < len(it.ord) {
			i := it.ord[it.pos]
			it.pos++
			if i < len(it.m.live) && it.m.live[i] {
				return tuple{true, copyVal(it.m.keys[i]), copyVal(*it.m.vals[i])}
			}
		}
		// entries added during iteration are not visited (allowed by the language)
		tt := c.t.(*types.Tuple)
		z := tuple{false, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				z[i] = w.zero(tt.At(i).Type())
			}
		}
		return z
	case *strIter:
		n := w.strLen(it.s)
		if it.pos >= n {
			return tuple{false, uint64(0), uint64(0)}
		}
		pos := it.pos
		b := w.strAt(it.s, pos)
		if x, ok := b.(uint64); ok && x < 0x80 {
			it.pos++
			return tuple{true, uint64(pos), x}
		}
		if t, ok := b.(*Term); ok {
			if w.branch(w.ts.App(OUlt, 0, t, w.ts.Const(8, 0x80), nil)) {
				it.pos++
				return tuple{true, uint64(pos), w.bv(w.ts.App(OZext, 32, t, nil, nil))}
			}
		}
		r := w.callSSA(fr, w.prog.fn("unicode/utf8", "DecodeRuneInString"), []value{w.strSlice(it.s, pos, n)}, nil).(tuple)
		it.pos += int(w.concInt(r[1], 64, true, "rune width"))
		return tuple{true, uint64(pos), r[0]}
	}
	return w.unsupported("next on %T", it)
}

func (w *Worker) send(ch *chanObj, v value) {
	if ch == nil {
		w.unsupported("send on nil channel")
	}
	if ch.closed {
		w.plainPanic("send on closed channel")
	}
	if len(ch.buf) >= ch.cap {
		w.unsupported("blocking send")
	}
	old := ch.buf
	ch.buf = append(append([]value(nil), ch.buf...), v)
	w.onUndo(func() { ch.buf = old })
}

func (w *Worker) typeAssert(x iface, c *cinstr) value {
	ok := false
	var v value
	var msg string
	if it, isI := c.t2.Underlying().(*types.Interface); isI {
		if x.t != nil && w.implements(x, it) {
			ok, v = true, x
		} else {
			v = iface{}
			if x.t == nil {
				msg = "interface conversion: interface is nil, not " + typeStr(c.t2)
			} else {
				msg = "interface conversion: " + typeStr(x.t) + " is not " + typeStr(c.t2) + ": missing method"
			}
		}
	} else {
		if x.t != nil && w.canon(x.t) == c.t2 {
			ok, v = true, copyVal(x.v)
		} else {
			msg = "interface conversion: interface {} is "
			if x.t == nil {
				msg += "nil"
			} else {
				msg += typeStr(x.t)
			}
			msg += ", not " + typeStr(c.t2)
			if c.flag {
				v = w.zero(c.t2)
			}
		}
	}
	if c.flag {
		return tuple{v, ok}
	}
	if !ok {
		w.runtimePanic(msg)
	}
	return v
}

func (w *Worker) implements(x iface, it *types.Interface) bool {
	if _, ok := x.v.(rtype); ok {
		return true // reflect.Type: asserted only to reflect.Type-like interfaces
	}
	return w.prog.implements(x.t, it)
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, size int) int {
	nc := oldCap
	if newLen > 2*nc {
		nc = newLen
	} else if nc < 256 {
		nc = 2 * nc
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if size <= 0 {
		return nc
	}
	mem := nc * size
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem {
				mem = c
				break
			}
		}
	} else {
		mem = (mem + 8191) &^ 8191
	}
	return mem / size
}

func (w *Worker) appendVals(et types.Type, s []value, more []value) []value {
	if len(more) == 0 {
		return s
	}
	n := len(s) + len(more)
	if n <= cap(s) {
		full := s[:n]
		for i, m := range more {
			w.set(&full[len(s)+i], copyVal(m))
		}
		return full
	}
	nc := growCap(cap(s), n, int(w.prog.sizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	r := make([]value, n, nc)
	copy(r, s)
	for i, m := range more {
		r[len(s)+i] = copyVal(m)
	}
	if nc > n {
		z := w.zero(et)
		rest := r[n:nc]
		for i := range rest {
			switch z.(type) {
			case structure, array:
				rest[i] = w.zero(et)
			default:
				rest[i] = z
			}
		}
	}
	// struct elements of the old array stay owned by it: copy them
	for i := range s {
		switch s[i].(type) {
		case structure, array:
			r[i] = copyVal(s[i])
		}
	}
	return r
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		et := call.Args[0].Type().Underlying()
		var elem types.Type
		if sl, ok := et.(*types.Slice); ok {
			elem = sl.Elem()
		} else {
			w.unsupported("append to %s", et)
		}
		s := args[0].([]value)
		switch more := w.force(args[1]).(type) {
		case []value:
			return w.appendVals(elem, s, more)
		case string, *symStr:
			return w.appendVals(elem, s, w.strBytes(more))
		}
		w.unsupported("append of %T", args[1])
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch x := w.force(args[1]).(type) {
		case []value:
			src = x
		case string, *symStr:
			src = w.strBytes(x)
		}
		n := min(len(dst), len(src))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.set(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := w.force(args[0]).(type) {
		case string, *symStr:
			return uint64(w.strLen(x))
		case []value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *mapObj:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *chanObj:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *chanObj:
			return uint64(x.cap)
		}
	case "delete":
		w.mapDelete(args[0].(*mapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapObj:
			if x != nil {
				for i := range x.keys {
					if x.live[i] {
						w.mapDelete(x, x.keys[i])
					}
				}
			}
			return nil
		case []value:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(et, &x[i], w.zero(et))
			}
			return nil
		}
	case "close":
		ch := args[0].(*chanObj)
		ch.closed = true
		w.onUndo(func() { ch.closed = false })
		return nil
	case "print", "println":
		return nil
	case "recover":
		return w.doRecover(fr)
	case "panic":
		v := args[0].(iface)
		panic(targetPanic{v: v})
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		width, sgn, isInt := intInfo(t)
		for _, a := range args[1:] {
			if !isInt {
				if _, ok := isFloat(t); ok {
					w.unsupported("float min/max")
				}
				lt := w.strLess(a, r)
				if b.Name() == "max" {
					lt = w.strLess(r, a)
				}
				if w.isTrue(lt) {
					r = a
				}
				continue
			}
			tok := token.LSS
			if b.Name() == "max" {
				tok = token.GTR
			}
			lt := w.binop(tok, t, width, sgn, a, r, nil)
			switch lt := lt.(type) {
			case bool:
				if lt {
					r = a
				}
			case *Term:
				r = w.bv(w.ts.Ite(lt, w.ti(a, width), w.ti(r, width)))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*value); ok && q == nil {
			w.runtimePanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return w.unsupported("defer stack")
	case "String": // unsafe.String
		n := int(w.concInt(args[1], 64, true, "unsafe.String length"))
		switch p := args[0].(type) {
		case *dataPtr:
			return w.mkStr(p.s[:n])
		case *value:
			if n == 0 {
				return ""
			}
		}
		return w.unsupported("unsafe.String of %T", args[0])
	case "StringData":
		return &dataPtr{w.strBytes(args[0])}
	case "SliceData":
		return &dataPtr{args[0].([]value)}
	case "Slice":
		n := int(w.concInt(args[1], 64, true, "unsafe.Slice length"))
		switch p := args[0].(type) {
		case *dataPtr:
			return p.s[:n]
		case *value:
			if n == 0 {
				return []value(nil)
			}
		}
		return w.unsupported("unsafe.Slice of %T", args[0])
	case "real", "imag", "complex":
		return w.unsupported("complex")
	}
	return w.unsupported("builtin %s of %T", b.Name(), args[0])
}

type dataPtr struct{ s []value }

// doRecover implements recover() called from a deferred function.
func (w *Worker) doRecover(fr *frame) value {
	// fr is the deferred function's frame; its caller is the panicking frame
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		c := fr.caller
		c.panicking = false
		tp := c.panicV.(targetPanic)
		c.panicV = nil
		return tp.v
	}
	return iface{}
}

// guard against Go runtime errors inside the engine itself
func engineErr(r any) string {
	return fmt.Sprintf("engine error: %v\n%s", r, strings.Join(strings.Split(string(debug.Stack()), "\n")[:40], "\n"))
}

var _ = math.MaxInt64
