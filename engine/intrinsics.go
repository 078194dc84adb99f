package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}
var redirects = map[string]string{}

func (w *Worker) lookupIntrinsic(fn *ssa.Function) intrinsic {
	if v, ok := w.prog.intrCache.Load(fn); ok {
		return v.(intrinsic)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	in := intrinsics[name]
	if in == nil {
		if to, ok := redirects[name]; ok {
			target := w.prog.fn(harnessMod+"/v", to)
			in = func(w *Worker, fr *frame, args []value) value {
				return w.callSSA(fr, target, args, nil)
			}
		}
	}
	if name == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
		t := fn.TypeArgs()[0]
		in = func(w *Worker, fr *frame, args []value) value { return w.mkType(t) }
	}
	if in == nil && fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "log":
			if fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "Print") {
				in = func(w *Worker, fr *frame, args []value) value { return nil }
			}
		}
	}
	w.prog.intrCache.Store(fn, in)
	return in
}

func nop(w *Worker, fr *frame, args []value) value { return nil }

func conc(vs ...value) bool {
	for _, v := range vs {
		switch v := v.(type) {
		case *Term, *symStr, *lazyStr:
			return false
		case []value:
			if !conc(v...) {
				return false
			}
		}
	}
	return true
}

// regFast registers a native shortcut for concrete arguments.
func regFast(pkg, name string, f func(a []value) (value, bool)) {
	full := pkg + "." + name
	intrinsics[full] = func(w *Worker, fr *frame, args []value) value {
		if conc(args...) {
			if r, ok := f(args); ok {
				return r
			}
		}
		for i := range args {
			args[i] = w.force(args[i])
		}
		if conc(args...) {
			if r, ok := f(args); ok {
				return r
			}
		}
		return w.callSSA(fr, w.prog.fn(pkg, name), args, nil)
	}
}

func st(v value) string { return v.(string) }
func iv(n int) value    { return uint64(int64(n)) }
func in64(v value) int  { return int(int64(v.(uint64))) }
func strs(v value) []string {
	s := v.([]value)
	r := make([]string, len(s))
	for i := range s {
		r[i] = s[i].(string)
	}
	return r
}
func fromStrs(s []string) value {
	if s == nil {
		return []value(nil)
	}
	r := make([]value, len(s))
	for i := range s {
		r[i] = s[i]
	}
	return r
}

func (w *Worker) byteIndex(b []value, c value) value {
	for i := range b {
		if w.isTrue(w.eqByte(b[i], c)) {
			return iv(i)
		}
	}
	return iv(-1)
}

func (w *Worker) bytesIndex(a, b []value) value {
	for i := 0; i+len(b) <= len(a); i++ {
		var r value = true
		for j := range b {
			r = w.and(r, w.eqByte(a[i+j], b[j]))
			if r == false {
				break
			}
		}
		if w.isTrue(r) {
			return iv(i)
		}
	}
	return iv(-1)
}

// runePred builds a predicate term for a symbolic rune.
func runePred(name string, f func(rune) bool) {
	intrinsics["unicode."+name] = func(w *Worker, fr *frame, args []value) value {
		switch r := args[0].(type) {
		case uint64:
			return f(rune(int32(uint32(r))))
		case *Term:
			return w.runePredTerm(name, f, r)
		}
		return w.unsupported("unicode.%s", name)
	}
}

type rrange struct{ lo, hi rune }

var predRanges = map[string][]rrange{}

func init() {
	for name, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct, "IsNumber": unicode.IsNumber,
		"IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsMark": unicode.IsMark, "IsSymbol": unicode.IsSymbol, "IsTitle": unicode.IsTitle} {
		runePred(name, f)
		var rs []rrange
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if f(r) {
				if n := len(rs); n > 0 && rs[n-1].hi == r-1 {
					rs[n-1].hi = r
				} else {
					rs = append(rs, rrange{r, r})
				}
			}
		}
		predRanges[name] = rs
	}
}

func (w *Worker) runePredTerm(name string, f func(rune) bool, t *Term) value {
	var r value = false
	ub := t.ub
	for _, x := range predRanges[name] {
		if uint64(x.lo) > ub {
			break
		}
		var c value
		if x.lo == x.hi {
			c = w.bv(w.ts.Eq(t, w.ts.Const(t.w, uint64(x.lo))))
		} else {
			lo := w.ts.App(OUle, 0, w.ts.Const(t.w, uint64(x.lo)), t, nil)
			hi := w.ts.App(OUle, 0, t, w.ts.Const(t.w, uint64(x.hi)), nil)
			c = w.bv(w.ts.And(lo, hi))
		}
		r = w.or(r, c)
	}
	return r
}

func (w *Worker) method1(i iface, name string) *ssa.Function {
	if i.t == nil {
		return nil
	}
	return w.prog.method(i.t, nil, name)
}

// mkSlice returns the bytes of a []byte value.
func bs(v value) []value { return v.([]value) }

func init() {
	m := intrinsics
	registerReflect(m)
	registerFmt(m)
	registerHarness(m)

	// ---- bytealg ----
	m["internal/bytealg.IndexByteString"] = func(w *Worker, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return iv(strings.IndexByte(s, byte(c)))
			}
		}
		return w.byteIndex(w.strBytes(a[0]), a[1])
	}
	m["internal/bytealg.IndexByte"] = func(w *Worker, fr *frame, a []value) value { return w.byteIndex(bs(a[0]), a[1]) }
	lastIdx := func(w *Worker, b []value, c value) value {
		for i := len(b) - 1; i >= 0; i-- {
			if w.isTrue(w.eqByte(b[i], c)) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	m["internal/bytealg.LastIndexByteString"] = func(w *Worker, fr *frame, a []value) value { return lastIdx(w, w.strBytes(a[0]), a[1]) }
	m["internal/bytealg.LastIndexByte"] = func(w *Worker, fr *frame, a []value) value { return lastIdx(w, bs(a[0]), a[1]) }
	m["internal/bytealg.IndexString"] = func(w *Worker, fr *frame, a []value) value {
		if conc(a...) {
			return iv(strings.Index(st(a[0]), st(a[1])))
		}
		return w.bytesIndex(w.strBytes(a[0]), w.strBytes(a[1]))
	}
	m["internal/bytealg.Index"] = func(w *Worker, fr *frame, a []value) value { return w.bytesIndex(bs(a[0]), bs(a[1])) }
	count := func(w *Worker, b []value, c value) value {
		n := 0
		for i := range b {
			if w.isTrue(w.eqByte(b[i], c)) {
				n++
			}
		}
		return iv(n)
	}
	m["internal/bytealg.CountString"] = func(w *Worker, fr *frame, a []value) value { return count(w, w.strBytes(a[0]), a[1]) }
	m["internal/bytealg.Count"] = func(w *Worker, fr *frame, a []value) value { return count(w, bs(a[0]), a[1]) }
	m["internal/bytealg.Equal"] = func(w *Worker, fr *frame, a []value) value {
		return w.strEq(w.mkStr(bs(a[0])), w.mkStr(bs(a[1])))
	}
	cmp := func(w *Worker, x, y value) value {
		if w.isTrue(w.strLess(x, y)) {
			return iv(-1)
		}
		if w.isTrue(w.strEq(x, y)) {
			return iv(0)
		}
		return iv(1)
	}
	m["internal/bytealg.Compare"] = func(w *Worker, fr *frame, a []value) value { return cmp(w, w.mkStr(bs(a[0])), w.mkStr(bs(a[1]))) }
	m["internal/bytealg.CompareString"] = func(w *Worker, fr *frame, a []value) value { return cmp(w, a[0], a[1]) }
	m["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *frame, a []value) value {
		n := int(w.concInt(a[0], 64, true, "buffer size"))
		if n < 0 || n > 1<<40 {
			w.runtimePanic("makeslice: len out of range")
		}
		if n > 1<<24 {
			panic(ctl{ctlSteps, fmt.Sprintf("buffer of %d bytes", n)})
		}
		c := growCap(0, n, 1)
		if n == 0 {
			c = 0
		}
		return w.makeSlice(types.Typ[types.Uint8], n, max(n, c))
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["strings.Index"] = m["internal/bytealg.IndexString"]
	m["internal/stringslite.Index"] = m["internal/bytealg.IndexString"]
	m["bytes.Index"] = m["internal/bytealg.Index"]
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["strings.Clone"] = func(w *Worker, fr *frame, a []value) value { return a[0] }
	m["internal/stringslite.Clone"] = m["strings.Clone"]

	// ---- strings.Builder ----
	m["(*strings.Builder).copyCheck"] = nop
	m["internal/abi.NoEscape"] = func(w *Worker, fr *frame, a []value) value { return a[0] }
	m["internal/abi.Escape"] = func(w *Worker, fr *frame, a []value) value { return a[0] }

	// ---- shortcuts on concrete arguments ----
	regFast("strings", "TrimSpace", func(a []value) (value, bool) { return strings.TrimSpace(st(a[0])), true })
	regFast("strings", "ReplaceAll", func(a []value) (value, bool) { return strings.ReplaceAll(st(a[0]), st(a[1]), st(a[2])), true })
	regFast("strings", "Replace", func(a []value) (value, bool) { return strings.Replace(st(a[0]), st(a[1]), st(a[2]), in64(a[3])), true })
	regFast("strings", "Join", func(a []value) (value, bool) { return strings.Join(strs(a[0]), st(a[1])), true })
	regFast("strings", "Split", func(a []value) (value, bool) { return fromStrs(strings.Split(st(a[0]), st(a[1]))), true })
	regFast("strings", "Fields", func(a []value) (value, bool) { return fromStrs(strings.Fields(st(a[0]))), true })
	regFast("strings", "Repeat", func(a []value) (value, bool) {
		if n := in64(a[1]); n >= 0 {
			return strings.Repeat(st(a[0]), n), true
		}
		return nil, false
	})
	regFast("strings", "Contains", func(a []value) (value, bool) { return strings.Contains(st(a[0]), st(a[1])), true })
	regFast("strings", "HasPrefix", func(a []value) (value, bool) { return strings.HasPrefix(st(a[0]), st(a[1])), true })
	regFast("strings", "HasSuffix", func(a []value) (value, bool) { return strings.HasSuffix(st(a[0]), st(a[1])), true })
	regFast("strings", "ToLower", func(a []value) (value, bool) { return strings.ToLower(st(a[0])), true })
	regFast("strings", "ToUpper", func(a []value) (value, bool) { return strings.ToUpper(st(a[0])), true })
	regFast("strings", "Count", func(a []value) (value, bool) { return iv(strings.Count(st(a[0]), st(a[1]))), true })
	regFast("strings", "LastIndex", func(a []value) (value, bool) { return iv(strings.LastIndex(st(a[0]), st(a[1]))), true })
	regFast("strings", "TrimLeft", func(a []value) (value, bool) { return strings.TrimLeft(st(a[0]), st(a[1])), true })
	regFast("strings", "TrimRight", func(a []value) (value, bool) { return strings.TrimRight(st(a[0]), st(a[1])), true })
	regFast("strings", "Trim", func(a []value) (value, bool) { return strings.Trim(st(a[0]), st(a[1])), true })
	regFast("strings", "EqualFold", func(a []value) (value, bool) { return strings.EqualFold(st(a[0]), st(a[1])), true })
	regFast("strconv", "Itoa", func(a []value) (value, bool) { return strconv.Itoa(in64(a[0])), true })
	regFast("strconv", "Quote", func(a []value) (value, bool) { return strconv.Quote(st(a[0])), true })
	regFast("strconv", "FormatInt", func(a []value) (value, bool) {
		if b := in64(a[1]); b >= 2 && b <= 36 {
			return strconv.FormatInt(int64(a[0].(uint64)), b), true
		}
		return nil, false
	})
	regFast("strconv", "FormatUint", func(a []value) (value, bool) {
		if b := in64(a[1]); b >= 2 && b <= 36 {
			return strconv.FormatUint(a[0].(uint64), b), true
		}
		return nil, false
	})
	regFast("strconv", "FormatFloat", func(a []value) (value, bool) {
		return strconv.FormatFloat(a[0].(float64), byte(a[1].(uint64)), in64(a[2]), in64(a[3])), true
	})
	regFast("strconv", "ParseFloat", func(a []value) (value, bool) {
		f, err := strconv.ParseFloat(st(a[0]), in64(a[1]))
		return tuple{f, iface{}}, err == nil
	})
	regFast("strconv", "ParseUint", func(a []value) (value, bool) {
		f, err := strconv.ParseUint(st(a[0]), in64(a[1]), in64(a[2]))
		return tuple{f, iface{}}, err == nil
	})
	regFast("strconv", "ParseInt", func(a []value) (value, bool) {
		f, err := strconv.ParseInt(st(a[0]), in64(a[1]), in64(a[2]))
		return tuple{uint64(f), iface{}}, err == nil
	})
	regFast("strconv", "Atoi", func(a []value) (value, bool) {
		f, err := strconv.Atoi(st(a[0]))
		return tuple{uint64(f), iface{}}, err == nil
	})
	regFast("unicode/utf8", "DecodeRuneInString", func(a []value) (value, bool) {
		r, n := utf8.DecodeRuneInString(st(a[0]))
		return tuple{uint64(uint32(r)), iv(n)}, true
	})
	regFast("unicode/utf8", "RuneLen", func(a []value) (value, bool) { return iv(utf8.RuneLen(rune(int32(a[0].(uint64))))), true })
	regFast("unicode/utf8", "RuneCountInString", func(a []value) (value, bool) { return iv(utf8.RuneCountInString(st(a[0]))), true })
	regFast("unicode/utf8", "ValidString", func(a []value) (value, bool) { return utf8.ValidString(st(a[0])), true })

	// ---- math ----
	m["math.Float64bits"] = func(w *Worker, fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			switch {
			case t.op == OB2F:
				return w.bv(t.a)
			case t.op == OFNeg && t.a.op == OB2F:
				return w.bv(w.ts.App(OXor, 64, t.a.a, w.ts.Const(64, 1<<63), nil))
			}
		}
		return math.Float64bits(w.concFloat(a[0]).(float64))
	}
	m["math.Float64frombits"] = func(w *Worker, fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			return w.bv(w.ts.App(OB2F, wFP, t, nil, nil))
		}
		return math.Float64frombits(a[0].(uint64))
	}
	m["internal/strconv.float64bits"] = m["math.Float64bits"]
	m["internal/strconv.float64frombits"] = m["math.Float64frombits"]
	m["math.Float32bits"] = func(w *Worker, fr *frame, a []value) value { return uint64(math.Float32bits(a[0].(float32))) }
	m["math.Float32frombits"] = func(w *Worker, fr *frame, a []value) value {
		return math.Float32frombits(uint32(w.concInt(a[0], 32, false, "float bits")))
	}
	m["internal/strconv.float32bits"] = m["math.Float32bits"]
	m["internal/strconv.float32frombits"] = m["math.Float32frombits"]
	m["math.IsNaN"] = func(w *Worker, fr *frame, a []value) value {
		if f, ok := a[0].(float64); ok {
			return f != f
		}
		return w.bv(w.ts.App(OFIsNaN, 0, w.tf(a[0]), nil, nil))
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Abs": math.Abs, "Sqrt": math.Sqrt} {
		f, n := f, n
		g := func(w *Worker, fr *frame, a []value) value {
			if t, ok := a[0].(*Term); ok && t.op == OU2F && n != "Sqrt" { // integral and non-negative
				return t
			}
			return f(w.concFloat(a[0]).(float64))
		}
		m["math."+n] = g
		m["math."+strings.ToLower(n)] = g
	}
	m["math/bits.Mul64"] = func(w *Worker, fr *frame, a []value) value {
		hi, lo := bits.Mul64(uint64(w.concInt(a[0], 64, false, "mul64")), uint64(w.concInt(a[1], 64, false, "mul64")))
		return tuple{hi, lo}
	}
	m["math/bits.Len64"] = func(w *Worker, fr *frame, a []value) value {
		return iv(bits.Len64(uint64(w.concInt(a[0], 64, false, "len64"))))
	}
	m["math/bits.TrailingZeros64"] = func(w *Worker, fr *frame, a []value) value {
		return iv(bits.TrailingZeros64(uint64(w.concInt(a[0], 64, false, "tz64"))))
	}
	m["math/bits.LeadingZeros64"] = func(w *Worker, fr *frame, a []value) value {
		return iv(bits.LeadingZeros64(uint64(w.concInt(a[0], 64, false, "lz64"))))
	}
	m["internal/strconv.bits_Mul64"] = m["math/bits.Mul64"]

	// ---- errors ----
	m["errors.As"] = func(w *Worker, fr *frame, a []value) value {
		err, target := a[0].(iface), a[1].(iface)
		if err.t == nil {
			return false
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			w.strPanic("errors: target must be a non-nil pointer")
		}
		return w.errorsAs(fr, err, target, pt.Elem())
	}
	m["errors.AsType"] = nil
	delete(m, "errors.AsType")

	// ---- sync ----
	lock := func(w *Worker, fr *frame, a []value) value {
		if w.inInit == 0 {
			w.p.locks++
		}
		return nil
	}
	unlock := func(w *Worker, fr *frame, a []value) value {
		if w.inInit == 0 && w.p.locks > 0 {
			w.p.locks--
		}
		return nil
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock"} {
		m[n] = lock
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock"} {
		m[n] = unlock
	}
	m["(*sync.RWMutex).RLock"] = nop // a read lock does not protect writes
	m["(*sync.RWMutex).RUnlock"] = nop
	m["(*sync.Mutex).TryLock"] = func(w *Worker, fr *frame, a []value) value { lock(w, fr, a); return true }
	m["(*sync.Once).Do"] = func(w *Worker, fr *frame, a []value) value {
		p := a[0].(*value)
		key := fmt.Sprintf("once%p", p)
		if w.side(key) != nil {
			return nil
		}
		w.setSide(key, true)
		if w.inInit == 0 {
			w.p.locks++
			defer func() { w.p.locks-- }()
		}
		w.call(fr, a[1], nil)
		return nil
	}
	smap := func(w *Worker, p value) *mapObj {
		key := fmt.Sprintf("syncmap%p", p)
		if x := w.side(key); x != nil {
			return x.(*mapObj)
		}
		mo := &mapObj{kt: types.NewInterfaceType(nil, nil)}
		w.setSide(key, mo)
		return mo
	}
	m["(*sync.Map).Load"] = func(w *Worker, fr *frame, a []value) value {
		v, ok := w.mapLookup(smap(w, a[0]), a[1])
		if !ok {
			return tuple{iface{}, false}
		}
		return tuple{v, true}
	}
	m["(*sync.Map).Store"] = func(w *Worker, fr *frame, a []value) value {
		if w.p.frozen != nil {
			w.freeze(a[1], "sync.Map")
			w.freeze(a[2], "sync.Map")
		}
		w.mapUpdate(smap(w, a[0]), a[1], a[2])
		return nil
	}
	m["(*sync.Map).LoadOrStore"] = func(w *Worker, fr *frame, a []value) value {
		mo := smap(w, a[0])
		if v, ok := w.mapLookup(mo, a[1]); ok {
			return tuple{v, true}
		}
		if w.p.frozen != nil {
			w.freeze(a[1], "sync.Map")
			w.freeze(a[2], "sync.Map")
		}
		w.mapUpdate(mo, a[1], a[2])
		return tuple{a[2], false}
	}
	m["(*sync.Map).Delete"] = func(w *Worker, fr *frame, a []value) value {
		w.mapDelete(smap(w, a[0]), a[1])
		return nil
	}
	m["(*sync.Pool).Get"] = func(w *Worker, fr *frame, a []value) value {
		p := a[0].(*value)
		key := fmt.Sprintf("pool%p", p)
		if x, ok := w.side(key).([]value); ok && len(x) > 0 {
			w.setSide(key, append([]value(nil), x[:len(x)-1]...))
			return x[len(x)-1]
		}
		s := (*p).(structure)
		newFn := s[len(s)-1]
		if isNilFunc(newFn) {
			return iface{}
		}
		return w.call(fr, newFn, nil)
	}
	m["(*sync.Pool).Put"] = func(w *Worker, fr *frame, a []value) value {
		if a[1].(iface).t == nil {
			return nil
		}
		key := fmt.Sprintf("pool%p", a[0].(*value))
		x, _ := w.side(key).([]value)
		w.setSide(key, append(append([]value(nil), x...), a[1]))
		return nil
	}
	// atomics on typed cells: sequential semantics, not counted as shared writes
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Uintptr"} {
		n := n
		cell := func(a value) *value {
			s := (*a.(*value)).(structure)
			return &s[len(s)-1]
		}
		pre := "(*sync/atomic." + n + ")."
		m[pre+"Load"] = func(w *Worker, fr *frame, a []value) value {
			v := *cell(a[0])
			if n == "Bool" {
				return v.(uint64) != 0
			}
			return v
		}
		conv := func(v value) value {
			if b, ok := v.(bool); ok {
				if b {
					return uint64(1)
				}
				return uint64(0)
			}
			return v
		}
		m[pre+"Store"] = func(w *Worker, fr *frame, a []value) value { w.setAtomic(cell(a[0]), conv(a[1])); return nil }
		m[pre+"Swap"] = func(w *Worker, fr *frame, a []value) value {
			c := cell(a[0])
			old := *c
			w.setAtomic(c, conv(a[1]))
			if n == "Bool" {
				return old.(uint64) != 0
			}
			return old
		}
		m[pre+"CompareAndSwap"] = func(w *Worker, fr *frame, a []value) value {
			c := cell(a[0])
			if *c == conv(a[1]) {
				w.setAtomic(c, conv(a[2]))
				return true
			}
			return false
		}
		width := uint8(64)
		if strings.HasSuffix(n, "32") {
			width = 32
		}
		m[pre+"Add"] = func(w *Worker, fr *frame, a []value) value {
			c := cell(a[0])
			nv := ((*c).(uint64) + a[1].(uint64)) & mask(width)
			w.setAtomic(c, nv)
			return nv
		}
	}
	m["(*sync/atomic.Value).Load"] = func(w *Worker, fr *frame, a []value) value { return (*a[0].(*value)).(structure)[0] }
	m["(*sync/atomic.Value).Store"] = func(w *Worker, fr *frame, a []value) value {
		w.setAtomic(&(*a[0].(*value)).(structure)[0], a[1])
		return nil
	}
	for _, n := range []string{"Pointer"} {
		cell := func(a value) *value {
			s := (*a.(*value)).(structure)
			return &s[len(s)-1]
		}
		pre := "(*sync/atomic." + n + "[T])."
		m[pre+"Load"] = func(w *Worker, fr *frame, a []value) value { return *cell(a[0]) }
		m[pre+"Store"] = func(w *Worker, fr *frame, a []value) value { w.setAtomic(cell(a[0]), a[1]); return nil }
		m[pre+"Swap"] = func(w *Worker, fr *frame, a []value) value {
			old := *cell(a[0])
			w.setAtomic(cell(a[0]), a[1])
			return old
		}
		m[pre+"CompareAndSwap"] = func(w *Worker, fr *frame, a []value) value {
			c := cell(a[0])
			if w.ptrEq(*c, a[1]) == true {
				w.setAtomic(c, a[2])
				return true
			}
			return false
		}
	}
	for _, k := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		k := k
		m["sync/atomic.Add"+k.n] = func(w *Worker, fr *frame, a []value) value {
			p := a[0].(*value)
			nv := ((*p).(uint64) + a[1].(uint64)) & mask(k.w)
			w.setAtomic(p, nv)
			return nv
		}
		m["sync/atomic.Load"+k.n] = func(w *Worker, fr *frame, a []value) value { return *a[0].(*value) }
		m["sync/atomic.Store"+k.n] = func(w *Worker, fr *frame, a []value) value { w.setAtomic(a[0].(*value), a[1]); return nil }
		m["sync/atomic.CompareAndSwap"+k.n] = func(w *Worker, fr *frame, a []value) value {
			p := a[0].(*value)
			if *p == a[1] {
				w.setAtomic(p, a[2])
				return true
			}
			return false
		}
	}
	m["runtime.KeepAlive"] = nop
	m["runtime.GC"] = nop
	m["runtime.Gosched"] = nop
	m["internal/race.Acquire"] = nop
	m["internal/race.Release"] = nop
	m["runtime.SetFinalizer"] = nop

	// sort.Slice via reflectlite swapper
	m["internal/reflectlite.Swapper"] = func(w *Worker, fr *frame, a []value) value {
		s, ok := a[0].(iface).v.([]value)
		if !ok {
			w.unsupported("swapper of %T", a[0].(iface).v)
		}
		return nativeFn{func(w *Worker, fr *frame, a []value) value {
			i, j := in64(a[0]), in64(a[1])
			x, y := s[i], s[j]
			w.set(&s[i], y)
			w.set(&s[j], x)
			return nil
		}}
	}
	m["internal/reflectlite.ValueOf"] = m["reflect.ValueOf"]
	m["(internal/reflectlite.Value).Len"] = m["(reflect.Value).Len"]

	// model of sql rows lives in the harness library
	m[harnessMod+"/v.ConvertAssign"] = func(w *Worker, fr *frame, a []value) value {
		return w.callSSA(fr, w.prog.fn("database/sql", "convertAssign"), a, nil)
	}
	for k, v := range map[string]string{
		"(*database/sql.Rows).Next":          "ModelRowsNext",
		"(*database/sql.Rows).Scan":          "ModelRowsScan",
		"(*database/sql.Rows).Close":         "ModelRowsClose",
		"(*database/sql.Rows).Err":           "ModelRowsErr",
		"(*database/sql.Rows).Columns":       "ModelRowsColumns",
		"(*database/sql.Rows).NextResultSet": "ModelRowsNextResultSet",
		"(*database/sql.Row).Scan":           "ModelRowScan",
		"(*database/sql.Row).Err":            "ModelRowErr",
	} {
		redirects[k] = v
	}
}

func (w *Worker) setAtomic(p *value, v value) {
	if w.inInit == 0 {
		w.stores = append(w.stores, storeRec{p, *p})
		if w.p.frozen != nil {
			if what, ok := w.p.frozen[p]; ok {
				w.freeze(v, what) // published
			}
		}
	}
	*p = v
}

// side tables for modelled library objects
func (w *Worker) side(k string) any {
	return w.native[k]
}
func (w *Worker) setSide(k string, v any) {
	old, had := w.native[k]
	w.native[k] = v
	w.onUndo(func() {
		if had {
			w.native[k] = old
		} else {
			delete(w.native, k)
		}
	})
}

func (w *Worker) errorsAs(fr *frame, err, target iface, et types.Type) value {
	for err.t != nil {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.implements(err, it) {
				w.doStore(et, target.v, err)
				return true
			}
		} else if w.canon(err.t) == w.canon(et) {
			w.doStore(et, target.v, err.v)
			return true
		}
		if f := w.method1(err, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if w.isTrue(w.call(fr, f, []value{copyVal(err.v), target})) {
				return true
			}
		}
		f := w.method1(err, "Unwrap")
		if f == nil {
			return false
		}
		r := w.call(fr, f, []value{copyVal(err.v)})
		switch r := r.(type) {
		case iface:
			err = r
		case []value:
			for _, e := range r {
				if w.isTrue(w.errorsAs(fr, e.(iface), target, et)) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
