package main

// Terms: hash-consed bit-vector / boolean / float64 expressions over symbolic
// input variables. Width 0 = Bool, 1..64 = bit-vector, 65 = IEEE double.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot // bv not
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low w bits (lo=0 only) -> truncation
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
	OU2F // uint64 -> double (RNE)
	OS2F // int64 -> double
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OF2S // double -> int64 (RTZ), callers guard range
	OFIsNaN
	OB2F // IEEE bits -> double
)

const wFP = 65

type Term struct {
	op      Op
	w       uint8
	val     uint64 // const value / var index / FP bits
	a, b, c *Term
	id      int32
	vars    []int32 // sorted support (var indexes)
	tab     []uint64
	ub      uint64 // unsigned upper bound
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

// VarInfo describes a symbolic input variable.
type VarInfo struct {
	w    uint8
	name string
}

type TermStore struct {
	tab  map[termKey]*Term
	n    int32
	vars []VarInfo // per-store variables, index = creation order on the path
}

func newTermStore() *TermStore {
	return &TermStore{tab: make(map[termKey]*Term, 1<<12)}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	out := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || (i < len(x) && x[i] < y[j]):
			out = append(out, x[i])
			i++
		case i >= len(x) || y[j] < x[i]:
			out = append(out, y[j])
			j++
		default:
			out = append(out, x[i])
			i++
			j++
		}
	}
	return out
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (s *TermStore) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: s.n}
	s.n++
	switch op {
	case OConst:
	case OVar:
		t.vars = []int32{int32(val)}
	default:
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = mergeVars(t.vars, c.vars)
		}
	}
	t.ub = ubound(t)
	s.tab[k] = t
	return t
}

// ubound is a syntactic upper bound of a bit-vector term read as unsigned.
func ubound(t *Term) uint64 {
	if t.w == 0 {
		return 1
	}
	m := ^uint64(0)
	if t.w <= 64 {
		m = mask(t.w)
	}
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return t.a.ub
	case OAdd:
		if s := t.a.ub + t.b.ub; s >= t.a.ub && s <= m {
			return s
		}
	case OMul:
		if hi, lo := bits.Mul64(t.a.ub, t.b.ub); hi == 0 && lo <= m {
			return lo
		}
	case OUDiv:
		if t.b.isConst() && t.b.val != 0 {
			return t.a.ub / t.b.val
		}
	case OURem:
		if t.b.isConst() && t.b.val != 0 {
			return min(t.a.ub, t.b.val-1)
		}
	case OAnd:
		return min(t.a.ub, t.b.ub)
	case OOr, OXor:
		n := bits.Len64(t.a.ub | t.b.ub)
		return min(m, mask(uint8(max(n, 1))))
	case OLshr:
		if t.b.isConst() && t.b.val < 64 {
			return t.a.ub >> t.b.val
		}
		return t.a.ub
	case OShl:
		if t.b.isConst() && t.b.val < 64 && t.a.ub<<t.b.val>>t.b.val == t.a.ub {
			return min(m, t.a.ub<<t.b.val)
		}
	case OIte:
		return max(t.b.ub, t.c.ub)
	case OExtract:
		if t.a.ub <= m {
			return t.a.ub
		}
	}
	return m
}

func (s *TermStore) Const(w uint8, v uint64) *Term {
	if w != wFP {
		v &= mask(max(w, 1))
	}
	return s.mk(OConst, w, v, nil, nil, nil)
}
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.Const(0, 1)
	}
	return s.Const(0, 0)
}
func (s *TermStore) Var(idx int, w uint8, name string) *Term {
	for len(s.vars) <= idx {
		s.vars = append(s.vars, VarInfo{})
	}
	s.vars[idx] = VarInfo{w, name}
	return s.mk(OVar, w, uint64(idx), nil, nil, nil)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

// evalOp computes op on constant operands.
func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := mask(max(w, 1))
	am := mask(max(aw, 1))
	bb := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case ONeg:
		return (-a) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & m
	case OExtract:
		return a & m
	case OEq:
		return bb(a == b)
	case OUlt:
		return bb(a < b)
	case OUle:
		return bb(a <= b)
	case OSlt:
		return bb(sx(a&am, aw) < sx(b&am, aw))
	case OSle:
		return bb(sx(a&am, aw) <= sx(b&am, aw))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OIte:
		if a == 1 {
			return b
		}
		return c
	case OU2F:
		return math.Float64bits(float64(a))
	case OS2F:
		return math.Float64bits(float64(int64(a)))
	case OFAdd:
		return math.Float64bits(math.Float64frombits(a) + math.Float64frombits(b))
	case OFSub:
		return math.Float64bits(math.Float64frombits(a) - math.Float64frombits(b))
	case OFMul:
		return math.Float64bits(math.Float64frombits(a) * math.Float64frombits(b))
	case OFDiv:
		return math.Float64bits(math.Float64frombits(a) / math.Float64frombits(b))
	case OB2F:
		return a
	case OFNeg:
		return a ^ (1 << 63)
	case OFEq:
		return bb(math.Float64frombits(a) == math.Float64frombits(b))
	case OFLt:
		return bb(math.Float64frombits(a) < math.Float64frombits(b))
	case OFLe:
		return bb(math.Float64frombits(a) <= math.Float64frombits(b))
	case OF2S:
		return uint64(int64(math.Float64frombits(a)))
	case OFIsNaN:
		f := math.Float64frombits(a)
		return bb(f != f)
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func commutes(op Op) bool {
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor, OEq, OBAnd, OBOr, OFEq:
		return true
	}
	return false
}

// App builds an operator application with simplification.
func (s *TermStore) App(op Op, w uint8, a, b, c *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) && (c == nil || c.isConst()) {
		var bv, cv uint64
		if b != nil {
			bv = b.val
		}
		if c != nil {
			cv = c.val
		}
		return s.Const(w, evalOp(op, w, a.w, a.val, bv, cv))
	}
	if b != nil && commutes(op) && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a // constant second
	}
	switch op {
	case OAdd:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return s.App(OAdd, w, a.a, s.Const(w, a.b.val+b.val), nil)
			}
		}
	case OSub:
		if a == b {
			return s.Const(w, 0)
		}
		if b.isConst() {
			return s.App(OAdd, w, a, s.Const(w, -b.val), nil)
		}
	case OMul:
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if n := bits.Len64(a.ub); n < 64 && b.val&(1<<n-1) == 1<<n-1 {
				return a
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
	case OXor:
		if a == b {
			return s.Const(w, 0)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if op == OLshr && b.isConst() && (b.val >= 64 || a.ub>>b.val == 0) {
			return s.Const(w, 0)
		}
	case OURem:
		if b.isConst() && b.val != 0 && a.ub < b.val {
			return a
		}
	case OSRem, OSDiv:
		if hm := mask(w) >> 1; a.ub <= hm && b.ub <= hm && b.isConst() && b.val != 0 {
			if op == OSRem {
				return s.App(OURem, w, a, b, nil)
			}
			return s.App(OUDiv, w, a, b, nil)
		}
	case OF2S:
		if (a.op == OU2F || a.op == OS2F) && a.a.ub <= 1<<53 {
			return a.a
		}
	case OS2F:
		if a.ub <= mask(63) {
			return s.App(OU2F, w, a, nil, nil)
		}
	case OFEq, OFLt, OFLe:
		if a.op == OU2F && b.op == OU2F && a.a.ub <= 1<<53 && b.a.ub <= 1<<53 {
			return s.App(map[Op]Op{OFEq: OEq, OFLt: OUlt, OFLe: OUle}[op], 0, a.a, b.a, nil)
		}
		if a.op == OU2F && b.isConst() && a.a.ub <= 1<<53 {
			if f := math.Float64frombits(b.val); f >= 0 && f <= 1<<53 && f == math.Trunc(f) {
				return s.App(map[Op]Op{OFEq: OEq, OFLt: OUlt, OFLe: OUle}[op], 0, a.a, s.Const(64, uint64(f)), nil)
			}
		}
		if b.op == OU2F && a.isConst() && b.a.ub <= 1<<53 {
			if f := math.Float64frombits(a.val); f >= 0 && f <= 1<<53 && f == math.Trunc(f) {
				return s.App(map[Op]Op{OFEq: OEq, OFLt: OUlt, OFLe: OUle}[op], 0, s.Const(64, uint64(f)), b.a, nil)
			}
		}
	case OFIsNaN:
		if a.op == OU2F || a.op == OS2F {
			return s.Bool(false)
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OZext:
		if a.w == w {
			return a
		}
		if a.op == OZext {
			return s.App(OZext, w, a.a, nil, nil)
		}
	case OSext:
		if a.w == w {
			return a
		}
		if a.op == OZext { // strictly wider, so sign bit is 0
			return s.App(OZext, w, a.a, nil, nil)
		}
		if a.op == OSext {
			return s.App(OSext, w, a.a, nil, nil)
		}
	case OExtract:
		if a.w == w {
			return a
		}
		if a.op == OZext || a.op == OSext {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return s.App(OExtract, w, a.a, nil, nil)
			}
			return s.App(a.op, w, a.a, nil, nil)
		}
		if a.op == OExtract {
			return s.App(OExtract, w, a.a, nil, nil)
		}
	case OEq:
		if a == b {
			return s.Bool(true)
		}
		if a.w == 0 && b.isConst() {
			if b.val == 1 {
				return a
			}
			return s.App(OBNot, 0, a, nil, nil)
		}
		if b.isConst() {
			if a.w <= 64 && b.val > a.ub {
				return s.Bool(false)
			}
			switch a.op {
			case OZext:
				if b.val > mask(a.a.w) {
					return s.Bool(false)
				}
				return s.App(OEq, 0, a.a, s.Const(a.a.w, b.val), nil)
			case OSext:
				v := b.val & mask(a.a.w)
				if uint64(sx(v, a.a.w))&mask(a.w) != b.val {
					return s.Bool(false)
				}
				return s.App(OEq, 0, a.a, s.Const(a.a.w, v), nil)
			case OAdd:
				if a.b.isConst() {
					return s.App(OEq, 0, a.a, s.Const(a.w, b.val-a.b.val), nil)
				}
			case OXor:
				if a.b.isConst() {
					return s.App(OEq, 0, a.a, s.Const(a.w, b.val^a.b.val), nil)
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return s.App(OEq, 0, a.a, b.a, nil)
		}
	case OUlt:
		if a == b {
			return s.Bool(false)
		}
		if b.isConst() && a.ub < b.val {
			return s.Bool(true)
		}
		if a.isConst() && a.val >= b.ub {
			return s.Bool(false)
		}
		if b.isConst() && b.val == 0 {
			return s.Bool(false)
		}
		if a.op == OZext && b.isConst() {
			if b.val > mask(a.a.w) {
				return s.Bool(true)
			}
			return s.App(OUlt, 0, a.a, s.Const(a.a.w, b.val), nil)
		}
		if b.op == OZext && a.isConst() {
			if a.val >= mask(b.a.w) {
				return s.Bool(false)
			}
			return s.App(OUlt, 0, s.Const(b.a.w, a.val), b.a, nil)
		}
	case OUle:
		if a == b {
			return s.Bool(true)
		}
		return s.Not(s.App(OUlt, 0, b, a, nil))
	case OSlt:
		if a == b {
			return s.Bool(false)
		}
		if hm := mask(a.w) >> 1; a.ub <= hm && b.ub <= hm {
			return s.App(OUlt, 0, a, b, nil)
		}
		if a.op == OZext && b.op == OZext {
			return s.App(OUlt, 0, a, b, nil)
		}
		if a.op == OZext && b.isConst() {
			if sx(b.val, b.w) <= 0 {
				return s.Bool(false)
			}
			return s.App(OUlt, 0, a, b, nil)
		}
		if b.op == OZext && a.isConst() {
			if sx(a.val, a.w) < 0 {
				return s.Bool(true)
			}
			return s.App(OUlt, 0, a, b, nil)
		}
	case OSle:
		if a == b {
			return s.Bool(true)
		}
		return s.Not(s.App(OSlt, 0, b, a, nil))
	case OBNot:
		if a.op == OBNot {
			return a.a
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return b
		}
		if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
			return s.Bool(false)
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			return b
		}
		if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
			return s.Bool(true)
		}
	case OIte:
		if a.isConst() {
			if a.val == 1 {
				return b
			}
			return c
		}
		if b == c {
			return b
		}
		if w == 0 && b.isConst() && c.isConst() {
			if b.val == 1 {
				return a
			}
			return s.Not(a)
		}
	}
	t := s.mk(op, w, 0, a, b, c)
	if w == 0 && len(t.vars) == 1 && s.vars[t.vars[0]].w <= 8 {
		// decide unary predicates that are constant over the whole byte
		tab := s.table(t)
		n := uint64(0)
		for _, v := range tab {
			n += v
		}
		if n == 0 {
			return s.Bool(false)
		}
		if n == uint64(len(tab)) {
			return s.Bool(true)
		}
	}
	if w >= 32 && len(t.vars) == 1 && s.vars[t.vars[0]].w <= 8 {
		switch op {
		case OUDiv, OSDiv, OLshr, OAshr, OExtract:
			if r := s.runs(t); r != nil {
				return r
			}
		case OURem, OSRem:
			if r := s.runs(t); r != nil {
				return r
			}
			if b.isConst() {
				q := OUDiv
				if op == OSRem {
					q = OSDiv
				}
				if d := s.App(q, w, a, b, nil); d.op == OIte || d.isConst() {
					return s.App(OSub, w, a, s.App(OMul, w, d, b, nil), nil)
				}
			}
		}
	}
	return t
}

// runs rewrites a wide term of one small variable that takes few values, each
// on an interval of the variable, to a choice by comparisons.
func (s *TermStore) runs(t *Term) *Term {
	tab := s.table(t)
	var at []int
	for i := 1; i < len(tab); i++ {
		if tab[i] != tab[i-1] {
			if at = append(at, i); len(at) > 4 {
				return nil
			}
		}
	}
	xw := s.vars[t.vars[0]].w
	x := s.mk(OVar, xw, uint64(t.vars[0]), nil, nil, nil)
	r := s.Const(t.w, tab[len(tab)-1])
	for k := len(at) - 1; k >= 0; k-- {
		r = s.App(OIte, t.w, s.App(OUlt, 0, x, s.Const(xw, uint64(at[k])), nil), s.Const(t.w, tab[at[k]-1]), r)
	}
	return r
}

func (s *TermStore) Not(a *Term) *Term    { return s.App(OBNot, 0, a, nil, nil) }
func (s *TermStore) And(a, b *Term) *Term { return s.App(OBAnd, 0, a, b, nil) }
func (s *TermStore) Or(a, b *Term) *Term  { return s.App(OBOr, 0, a, b, nil) }
func (s *TermStore) Eq(a, b *Term) *Term  { return s.App(OEq, 0, a, b, nil) }
func (s *TermStore) Ite(c, a, b *Term) *Term {
	return s.App(OIte, a.w, c, a, b)
}

// table returns the values of a term with exactly one variable of width <= 8.
func (s *TermStore) table(t *Term) []uint64 {
	if t.tab != nil {
		return t.tab
	}
	n := 1 << s.vars[t.vars[0]].w
	out := make([]uint64, n)
	if t.op == OVar {
		for i := range out {
			out[i] = uint64(i)
		}
		t.tab = out
		return out
	}
	get := func(x *Term) ([]uint64, uint64) {
		if x == nil {
			return nil, 0
		}
		if x.isConst() {
			return nil, x.val
		}
		return s.table(x), 0
	}
	at, av := get(t.a)
	bt, bv := get(t.b)
	ct, cv := get(t.c)
	for i := range out {
		if at != nil {
			av = at[i]
		}
		if bt != nil {
			bv = bt[i]
		}
		if ct != nil {
			cv = ct[i]
		}
		out[i] = evalOp(t.op, t.w, t.a.w, av, bv, cv)
	}
	t.tab = out
	return out
}

// Eval evaluates t under a full assignment of variables.
func (t *Term) Eval(asg []uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return asg[t.val]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var b, c uint64
	a := t.a.Eval(asg, memo)
	if t.b != nil {
		b = t.b.Eval(asg, memo)
	}
	if t.c != nil {
		c = t.c.Eval(asg, memo)
	}
	v := evalOp(t.op, t.w, t.a.w, a, b, c)
	memo[t] = v
	return v
}

// ---- SMT-LIB printing ----

func bvLit(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w == wFP {
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq",
	OFIsNaN: "fp.isNaN", OF2S: "(_ fp.to_sbv 64) RTZ", OU2F: "(_ to_fp_unsigned 11 53) RNE", OS2F: "(_ to_fp 11 53) RNE", OB2F: "(_ to_fp 11 53)",
}

func varName(i int, w uint8) string { return fmt.Sprintf("x%d_%d", i, w) }

// smt prints assertions with shared subterms as nested lets.
func smt(vars []VarInfo, t *Term) string {
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(x *Term)
	visit = func(x *Term) {
		if x == nil || x.op == OConst || x.op == OVar {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		visit(x.a)
		visit(x.b)
		visit(x.c)
		order = append(order, x)
	}
	visit(t)
	named := map[*Term]string{}
	var expr func(x *Term, top bool) string
	expr = func(x *Term, top bool) string {
		if x.op == OConst {
			return bvLit(x.w, x.val)
		}
		if x.op == OVar {
			return varName(int(x.val), vars[x.val].w)
		}
		if !top {
			if n, ok := named[x]; ok {
				return n
			}
		}
		switch x.op {
		case OZext:
			return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, expr(x.a, false))
		case OSext:
			return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, expr(x.a, false))
		case OExtract:
			return fmt.Sprintf("((_ extract %d 0) %s)", x.w-1, expr(x.a, false))
		}
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(opNames[x.op])
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil {
				b.WriteByte(' ')
				b.WriteString(expr(y, false))
			}
		}
		b.WriteByte(')')
		return b.String()
	}
	var out strings.Builder
	n := 0
	for _, x := range order {
		if cnt[x] > 1 && x != t {
			e := expr(x, true)
			name := fmt.Sprintf("t%d", n)
			n++
			fmt.Fprintf(&out, "(let ((%s %s)) ", name, e)
			named[x] = name
		}
	}
	out.WriteString(expr(t, true))
	out.WriteString(strings.Repeat(")", n))
	return out.String()
}

// ---- value ranges ----

type domain [4]uint64

func fullDomain(w uint8) domain {
	var d domain
	n := 1 << w
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}
func (d domain) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d domain) has(i int) bool { return d[i>>6]>>(i&63)&1 == 1 }
func (d *domain) set(i int)     { d[i>>6] |= 1 << (i & 63) }
func (d domain) and(e domain) domain {
	return domain{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]}
}
func (d domain) andNot(e domain) domain {
	return domain{d[0] &^ e[0], d[1] &^ e[1], d[2] &^ e[2], d[3] &^ e[3]}
}
func (d domain) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d domain) first() int {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return i*64 + bits.TrailingZeros64(d[i])
		}
	}
	return -1
}

// smtDomain prints membership of v in d as a disjunction of ranges.
func smtDomain(v string, w uint8, d domain) string {
	n := 1 << w
	var parts []string
	for i := 0; i < n; {
		if !d.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && d.has(j+1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s %s)", v, bvLit(w, uint64(i))))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", v, bvLit(w, uint64(i)), v, bvLit(w, uint64(j))))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func sortedI32(m map[int32]bool) []int32 {
	r := make([]int32, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
