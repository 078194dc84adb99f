package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// value representation (see DESIGN.md):
//
//	bool | *Term(w=0)              booleans
//	uint64 | *Term(w=1..64)        integers, zero-extended from their width
//	float64 | float32 | *Term(65)  floats
//	string | *symStr | *lazyStr    strings
//	[]value                        slices          array     arrays
//	structure                      structs         *value    pointers
//	*symPtr                        pointer to slice element with symbolic index
//	*mapObj, iface, tuple, *ssa.Function, *closure, *ssa.Builtin
//	rtype, rval                    reflect.Type / reflect.Value stand-ins
type value = any

type tuple []value
type structure []value
type array []value

type iface struct {
	t types.Type // canonical; nil for nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type symStr struct{ b []value } // each uint64 or *Term(8)

type lazyStr struct {
	f func() value
	v value
}

type symPtr struct {
	s   []value
	idx *Term
	w   uint8 // element width
}

type mapObj struct {
	keys []value
	vals []*value
	idx  map[string]int // concrete keys
	live []bool
	n    int
	sym  bool // has symbolic keys
	kt   types.Type
}

type rtype struct{ t types.Type }
type rval struct {
	t    types.Type
	v    value
	addr *value
}

type mapIter struct {
	m   *mapObj
	ord []int
	pos int
}
type strIter struct {
	s   value
	pos int
}

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
)

func canonGlobal(t types.Type) types.Type {
	canonMu.Lock()
	defer canonMu.Unlock()
	if c := canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

func (w *Worker) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := w.canonCache[t]; ok {
		return c
	}
	c := canonGlobal(types.Unalias(t))
	w.canonCache[t] = c
	return c
}

// intInfo reports width and signedness of an integer type.
func intInfo(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (bits int, ok bool) {
	b, ok2 := t.Underlying().(*types.Basic)
	if !ok2 {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// zero returns the zero value of t.
func (w *Worker) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
		if u.Info()&types.IsInteger != 0 {
			return uint64(0)
		}
		if u.Kind() == types.Float32 {
			return float32(0)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapObj)(nil)
	case *types.Chan:
		return (*chanObj)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		if isNamed(t, "reflect", "Value") {
			return rval{}
		}
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = w.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	}
	panic(ctl{ctlUnsupported, "zero of " + t.String()})
}

type chanObj struct {
	buf    []value
	cap    int
	closed bool
}

// copyVal copies value types (structs, arrays).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

// ---- booleans ----

func (w *Worker) bv(t *Term) value {
	if t.isConst() {
		if t.w == 0 {
			return t.val == 1
		}
		if t.w == wFP {
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

func (w *Worker) tb(v value) *Term {
	switch v := v.(type) {
	case bool:
		return w.ts.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("tb %T", v))
}

func (w *Worker) ti(v value, width uint8) *Term {
	switch v := v.(type) {
	case uint64:
		return w.ts.Const(width, v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("ti %T", v))
}

func (w *Worker) tf(v value) *Term {
	switch v := v.(type) {
	case float64:
		return w.ts.Const(wFP, math.Float64bits(v))
	case float32:
		return w.ts.Const(wFP, math.Float64bits(float64(v)))
	case *Term:
		return v
	}
	panic(fmt.Sprintf("tf %T", v))
}

// isTrue forks if needed.
func (w *Worker) isTrue(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.branch(v)
	}
	panic(fmt.Sprintf("isTrue %T", v))
}

func (w *Worker) and(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return w.bv(w.ts.And(a.(*Term), b.(*Term)))
}

func (w *Worker) or(a, b value) value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if x {
			return true
		}
		return a
	}
	return w.bv(w.ts.Or(a.(*Term), b.(*Term)))
}

func (w *Worker) not(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return w.bv(w.ts.Not(a.(*Term)))
}

// ---- strings ----

func (w *Worker) force(v value) value {
	if l, ok := v.(*lazyStr); ok {
		if l.v == nil {
			l.v = w.force(l.f())
		}
		return l.v
	}
	return v
}

func (w *Worker) strLen(v value) int {
	switch v := w.force(v).(type) {
	case string:
		return len(v)
	case *symStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// strBytes returns the bytes of a string as values.
func (w *Worker) strBytes(v value) []value {
	switch v := w.force(v).(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *symStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func (w *Worker) strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *symStr:
		return v.b[i]
	}
	panic("strAt")
}

// mkStr builds a string from bytes (not retained).
func (w *Worker) mkStr(b []value) value {
	sym := false
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			sym = true
			break
		}
	}
	if !sym {
		buf := make([]byte, len(b))
		for i, x := range b {
			buf[i] = byte(x.(uint64))
		}
		return string(buf)
	}
	n := make([]value, len(b))
	copy(n, b)
	return &symStr{n}
}

func (w *Worker) strSlice(v value, lo, hi int) value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *symStr:
		return w.mkStr(v.b[lo:hi])
	}
	panic("strSlice")
}

func (w *Worker) concat(a, b value) value {
	la, ok1 := a.(*lazyStr)
	lb, ok2 := b.(*lazyStr)
	if (ok1 && la.v == nil) || (ok2 && lb.v == nil) {
		return &lazyStr{f: func() value { return w.concat(w.force(a), w.force(b)) }}
	}
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := w.strBytes(a), w.strBytes(b)
	n := make([]value, 0, len(x)+len(y))
	n = append(n, x...)
	n = append(n, y...)
	return &symStr{n}
}

func (w *Worker) eqByte(a, b value) value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return w.bv(w.ts.Eq(w.ti(a, 8), w.ti(b, 8)))
}

func (w *Worker) strEq(a, b value) value {
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if w.strLen(a) != w.strLen(b) {
		return false
	}
	n := w.strLen(a)
	var r value = true
	for i := 0; i < n; i++ {
		r = w.and(r, w.eqByte(w.strAt(a, i), w.strAt(b, i)))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) strLess(a, b value) value {
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := w.strLen(a), w.strLen(b)
	var r value = na < nb
	for i := min(na, nb) - 1; i >= 0; i-- {
		x, y := w.strAt(a, i), w.strAt(b, i)
		lt := w.bv(w.ts.App(OUlt, 0, w.ti(x, 8), w.ti(y, 8), nil))
		r = w.or(lt, w.and(w.eqByte(x, y), r))
	}
	return r
}

func isConcStr(v value) (string, bool) {
	if l, ok := v.(*lazyStr); ok && l.v != nil {
		v = l.v
	}
	s, ok := v.(string)
	return s, ok
}

// concStr forks until the string is concrete.
func (w *Worker) concStr(v value) string {
	v = w.force(v)
	if s, ok := v.(string); ok {
		return s
	}
	b := v.(*symStr).b
	out := make([]byte, len(b))
	for i, x := range b {
		if c, ok := x.(uint64); ok {
			out[i] = byte(c)
		} else {
			out[i] = byte(w.concretize(x.(*Term), "string byte"))
		}
	}
	return string(out)
}

// ---- equality ----

func (w *Worker) eqVal(t types.Type, a, b value) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.strEq(a, b)
		}
		switch x := a.(type) {
		case bool:
			if y, ok := b.(bool); ok {
				return x == y
			}
		case uint64:
			if y, ok := b.(uint64); ok {
				return x == y
			}
		case float64:
			if y, ok := b.(float64); ok {
				return x == y
			}
		case float32:
			if y, ok := b.(float32); ok {
				return x == y
			}
		case complex128:
			return x == b.(complex128)
		case *value: // unsafe.Pointer
			return x == b.(*value)
		}
		if u.Info()&types.IsBoolean != 0 {
			return w.bv(w.ts.Eq(w.tb(a), w.tb(b)))
		}
		if u.Info()&types.IsFloat != 0 {
			return w.bv(w.ts.App(OFEq, 0, w.tf(a), w.tf(b), nil))
		}
		width, _, _ := intInfo(t)
		return w.bv(w.ts.Eq(w.ti(a, width), w.ti(b, width)))
	case *types.Pointer:
		return w.ptrEq(a, b)
	case *types.Interface:
		return w.ifaceEq(a.(iface), b.(iface))
	case *types.Struct:
		if isNamed(t, "reflect", "Value") {
			panic(ctl{ctlUnsupported, "comparison of reflect.Value"})
		}
		var r value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.and(r, w.eqVal(u.Field(i).Type(), a.(structure)[i], b.(structure)[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		var r value = true
		for i := range a.(array) {
			r = w.and(r, w.eqVal(u.Elem(), a.(array)[i], b.(array)[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		return a.(*mapObj) == b.(*mapObj)
	case *types.Chan:
		return a.(*chanObj) == b.(*chanObj)
	case *types.Slice: // only comparison with nil
		return a.([]value) == nil && b.([]value) == nil
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	panic(ctl{ctlUnsupported, "comparison of " + t.String()})
}

func (w *Worker) ptrEq(a, b value) value {
	if r, ok := a.(rtype); ok {
		s, ok := b.(rtype)
		return ok && w.canon(r.t) == w.canon(s.t)
	}
	if s, ok := a.(*symPtr); ok {
		a = w.resolvePtr(s)
	}
	if s, ok := b.(*symPtr); ok {
		b = w.resolvePtr(s)
	}
	x, ok1 := a.(*value)
	y, ok2 := b.(*value)
	if ok1 && ok2 {
		return x == y
	}
	return a == b
}

func (w *Worker) resolvePtr(p *symPtr) *value {
	i := w.concretize(p.idx, "slice index")
	return &p.s[i]
}

func isNilFunc(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return v == nil
	case *closure:
		return v == nil
	case *ssa.Builtin:
		return v == nil
	}
	return false
}

func (w *Worker) ifaceEq(a, b iface) value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if w.canon(a.t) != w.canon(b.t) {
		return false
	}
	if r, ok := a.v.(rtype); ok {
		return w.canon(r.t) == w.canon(b.v.(rtype).t)
	}
	if !types.Comparable(a.t) {
		w.runtimePanic("comparing uncomparable type " + typeStr(a.t))
	}
	return w.eqVal(a.t, a.v, b.v)
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- maps ----

// concKey encodes a concrete key; ok=false if it contains symbolic parts.
func (w *Worker) concKey(t types.Type, v value) (string, bool) {
	var b strings.Builder
	ok := w.writeKey(&b, t, v)
	return b.String(), ok
}

func (w *Worker) writeKey(b *strings.Builder, t types.Type, v value) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			b.WriteString("nil;")
			return true
		}
		if r, ok := i.v.(rtype); ok {
			fmt.Fprintf(b, "rt%p;", w.canon(r.t))
			return true
		}
		if !w.hashable(i.t, i.v) {
			w.runtimePanic("hash of unhashable type " + typeStr(i.t))
		}
		fmt.Fprintf(b, "T%p:", w.canon(i.t))
		return w.writeKey(b, i.t, i.v)
	case *types.Struct:
		ok := true
		for i := 0; i < u.NumFields(); i++ {
			ok = w.writeKey(b, u.Field(i).Type(), v.(structure)[i]) && ok
		}
		return ok
	case *types.Array:
		ok := true
		for _, x := range v.(array) {
			ok = w.writeKey(b, u.Elem(), x) && ok
		}
		return ok
	}
	switch v := w.force(v).(type) {
	case bool:
		fmt.Fprintf(b, "%v;", v)
	case uint64:
		fmt.Fprintf(b, "%d;", v)
	case float64:
		if v != v {
			return false
		}
		if v == 0 {
			v = 0
		}
		fmt.Fprintf(b, "f%x;", math.Float64bits(v+0))
	case float32:
		if v != v {
			return false
		}
		fmt.Fprintf(b, "g%x;", math.Float32bits(v+0))
	case string:
		fmt.Fprintf(b, "s%d:%s;", len(v), v)
	case *value:
		fmt.Fprintf(b, "p%p;", v)
	case *mapObj:
		fmt.Fprintf(b, "p%p;", v)
	case *chanObj:
		fmt.Fprintf(b, "p%p;", v)
	case rtype:
		fmt.Fprintf(b, "rt%p;", w.canon(v.t))
	case *Term, *symStr:
		return false
	default:
		return false
	}
	return true
}

func (w *Worker) hashable(t types.Type, v value) bool {
	if !types.Comparable(t) {
		return false
	}
	return true
}

func (m *mapObj) find(w *Worker, k value) int {
	if m == nil {
		return -1
	}
	key, conc := w.concKey(m.kt, k)
	if conc && !m.sym {
		if i, ok := m.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if w.isTrue(w.eqVal(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapLookup(m *mapObj, k value) (value, bool) {
	if m == nil {
		return nil, false
	}
	i := m.find(w, k)
	if i < 0 {
		return nil, false
	}
	return *m.vals[i], true
}

func (w *Worker) mapUpdate(m *mapObj, k, v value) {
	if m == nil {
		w.plainPanic("assignment to entry in nil map")
	}
	w.mapWrite(m)
	if w.inInit == 0 && w.p.frozenMaps != nil {
		if what, ok := w.p.frozenMaps[m]; ok {
			w.freeze(k, what)
			w.freeze(v, what)
			defer func() {
				if i := m.find(w, k); i >= 0 {
					w.freezeCell(m.vals[i], what)
				}
			}()
		}
	}
	i := m.find(w, k)
	if i >= 0 {
		p := m.vals[i]
		old := *p
		*p = v
		w.onUndo(func() { *p = old })
		return
	}
	key, conc := w.concKey(m.kt, k)
	oldSym := m.sym
	p := new(value)
	*p = v
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, p)
	m.live = append(m.live, true)
	m.n++
	n := len(m.keys)
	if conc {
		if m.idx == nil {
			m.idx = map[string]int{}
		}
		m.idx[key] = n - 1
	} else {
		m.sym = true
	}
	w.onUndo(func() {
		m.keys = m.keys[:n-1]
		m.vals = m.vals[:n-1]
		m.live = m.live[:n-1]
		m.n--
		if conc {
			delete(m.idx, key)
		}
		m.sym = oldSym
	})
}

func (w *Worker) mapDelete(m *mapObj, k value) {
	if m == nil {
		return
	}
	i := m.find(w, k)
	if i < 0 {
		return
	}
	w.mapWrite(m)
	m.live[i] = false
	m.n--
	key, conc := w.concKey(m.kt, m.keys[i])
	if conc {
		delete(m.idx, key)
	}
	w.onUndo(func() {
		m.live[i] = true
		m.n++
		if conc {
			m.idx[key] = i
		}
	})
}
