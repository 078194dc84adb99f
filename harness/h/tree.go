package h

import (
	"encoding/json"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// A model of fragments, with its own evaluation: what a tree of fragments
// means according to the documentation, independent of the code under test.

type segKind int

const (
	sText segKind = iota
	sQ
	sDollar
	sArgN
	sArgCall
	sFN
	sFCall
	sFragN
	sFragCall
	sJoin
	sDynArg // function values, in join templates only
	sDynF
	sDynFrag
	sBad // text that is an error
)

type seg struct {
	kind   segKind
	text   string
	idx    int
	tmpl   []seg
	sep    string
	bounds []int
}

type node struct {
	segs           []seg
	args           []any
	kids           []*node
	prefix, suffix string

	frag *sqlf.Fragment
}

func txt(s string) seg         { return seg{kind: sText, text: s} }
func ref(k segKind, i int) seg { return seg{kind: k, idx: i} }
func join(tmpl []seg, sep string, bounds ...int) seg {
	return seg{kind: sJoin, tmpl: tmpl, sep: sep, bounds: bounds}
}

func quoted(s string) string {
	b := []byte{'\''}
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			b = append(b, '\'')
		}
		b = append(b, s[i])
	}
	return string(append(b, '\''))
}

func rawOf(segs []seg) string {
	r := ""
	for _, s := range segs {
		switch s.kind {
		case sText:
			r += s.text
		case sQ:
			r += "?"
		case sDollar:
			r += "$" + v.Itoa(s.idx)
		case sArgN:
			r += "#arg" + v.Itoa(s.idx)
		case sArgCall:
			r += "#arg(" + v.Itoa(s.idx) + ")"
		case sFN:
			r += "#f" + v.Itoa(s.idx)
		case sFCall:
			r += "#f(" + v.Itoa(s.idx) + ")"
		case sFragN:
			r += "#fragment" + v.Itoa(s.idx)
		case sFragCall:
			r += "#fragment(" + v.Itoa(s.idx) + ")"
		case sBad:
			r += s.text
		case sDynArg:
			r += "#arg"
		case sDynF:
			r += "#f"
		case sDynFrag:
			r += "#fragment"
		case sJoin:
			r += "#join(" + quoted(rawOf(s.tmpl)) + "," + quoted(s.sep)
			for _, b := range s.bounds {
				r += ", " + v.Itoa(b)
			}
			r += ")"
		}
	}
	return r
}

// fragment builds the real fragment of n; nodes are built once, so that shared
// nodes are shared fragments.
func (n *node) fragment() *sqlf.Fragment {
	if n == nil {
		return nil
	}
	if n.frag != nil {
		return n.frag
	}
	f := &sqlf.Fragment{Raw: rawOf(n.segs), Prefix: n.prefix, Suffix: n.suffix}
	if len(n.args) > 0 {
		f.Args = n.args
	}
	for _, k := range n.kids {
		f.Fragments = append(f.Fragments, k.fragment())
	}
	n.frag = f
	return f
}

// tok is a piece of expected output: literal text, or the value of an argument.
type tok struct {
	isArg bool
	text  string
	arg   any
}

type evalState struct {
	n     *node
	usedA []bool
	usedF []bool
	out   []tok
}

// what an evaluation ends with
type evErr int

const (
	evOK  evErr = iota
	evEnd       // a function value of a join template is out of range
	evBad       // error
)

func (n *node) eval() ([]tok, evErr) {
	if n == nil {
		return nil, evOK
	}
	st := &evalState{n: n, usedA: make([]bool, len(n.args)), usedF: make([]bool, len(n.kids))}
	if e := st.run(n.segs, 0); e != evOK {
		return nil, evBad
	}
	for _, u := range st.usedA {
		if !u {
			return nil, evBad
		}
	}
	for _, u := range st.usedF {
		if !u {
			return nil, evBad
		}
	}
	body := trimToks(st.out)
	if len(body) == 0 {
		return nil, evOK
	}
	if n.prefix != "" {
		body = append([]tok{{text: n.prefix + " "}}, body...)
	}
	if n.suffix != "" {
		body = append(body, tok{text: " " + n.suffix})
	}
	return body, evOK
}

func (st *evalState) run(segs []seg, dyn int) evErr {
	q := 0
	bind := sText
	for i := range segs {
		if k := segs[i].kind; k == sQ || k == sDollar {
			if bind != sText && bind != k {
				return evBad // mixed
			}
			bind = k
		}
	}
	for i := range segs {
		s := &segs[i]
		e := evOK
		switch s.kind {
		case sBad:
			return evBad
		case sText:
			if s.text != "" {
				st.out = append(st.out, tok{text: s.text})
			}
		case sQ:
			q++
			e = st.argRef(q, evBad)
		case sDollar, sArgN, sArgCall:
			e = st.argRef(s.idx, evBad)
		case sFN, sFCall, sFragN, sFragCall:
			e = st.fragRef(s.idx, evBad)
		case sDynArg:
			e = st.argRef(dyn, evEnd)
		case sDynF, sDynFrag:
			e = st.fragRef(dyn, evEnd)
		case sJoin:
			e = st.join(s)
		}
		if e != evOK {
			return e
		}
	}
	return evOK
}

func (st *evalState) argRef(i int, miss evErr) evErr {
	if i < 1 || i > len(st.n.args) {
		return miss
	}
	st.usedA[i-1] = true
	st.out = append(st.out, tok{isArg: true, arg: st.n.args[i-1]})
	return evOK
}

func (st *evalState) fragRef(i int, miss evErr) evErr {
	if i < 1 || i > len(st.n.kids) {
		return miss
	}
	st.usedF[i-1] = true
	ts, e := st.n.kids[i-1].eval()
	if e != evOK {
		return evBad
	}
	st.out = append(st.out, ts...)
	return evOK
}

func (st *evalState) join(s *seg) evErr {
	from, to := 0, 0
	if len(s.bounds) > 2 {
		return evBad
	}
	if len(s.bounds) > 0 {
		from = s.bounds[0]
	}
	if len(s.bounds) > 1 {
		to = s.bounds[1]
	}
	if to > 0 && from > to {
		return evBad
	}
	dynamic := false
	for i := range s.tmpl {
		if s.tmpl[i].kind == sBad {
			return evBad
		}
		switch s.tmpl[i].kind {
		case sDynArg, sDynF, sDynFrag:
			dynamic = true
		}
	}
	if !dynamic {
		return evBad
	}
	start := from
	if start < 1 {
		start = 1
	}
	before := st.out
	var items [][]tok
	for i := start; to <= 0 || i <= to; i++ {
		ua := append([]bool{}, st.usedA...)
		uf := append([]bool{}, st.usedF...)
		st.out = nil
		e := st.run(s.tmpl, i)
		if e == evEnd {
			if to > 0 || (from > 0 && i == from) {
				return evBad
			}
			st.usedA, st.usedF = ua, uf
			break
		}
		if e != evOK {
			return e
		}
		if len(st.out) > 0 {
			items = append(items, st.out)
		}
	}
	st.out = before
	for i, it := range items {
		if i > 0 && s.sep != "" {
			st.out = append(st.out, tok{text: s.sep})
		}
		st.out = append(st.out, it...)
	}
	return evOK
}

func spaceAt(s string, front bool) int {
	if front {
		return len(s) - len(trim(s+"x")) + 1
	}
	return len(s) - len(trim("x"+s)) + 1
}

// trimToks removes white space around the text of ts.
func trimToks(ts []tok) []tok {
	r := append([]tok{}, ts...)
	for len(r) > 0 && !r[0].isArg {
		r[0].text = r[0].text[spaceAt(r[0].text, true):]
		if r[0].text != "" {
			break
		}
		r = r[1:]
	}
	for len(r) > 0 && !r[len(r)-1].isArg {
		t := r[len(r)-1].text
		r[len(r)-1].text = t[:len(t)-spaceAt(t, false)]
		if r[len(r)-1].text != "" {
			break
		}
		r = r[:len(r)-1]
	}
	return r
}

// same reports whether two argument values are the same value.
func same(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int:
		y, ok := b.(int)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case uint8:
		y, ok := b.(uint8)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case namedInt:
		y, ok := b.(namedInt)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case []int:
		y, ok := b.([]int)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case *int:
		y, ok := b.(*int)
		return ok && x == y
	case pair:
		y, ok := b.(pair)
		return ok && x == y
	case holder:
		y, ok := b.(holder)
		return ok && same(x.v, y.v)
	case map[string]int:
		y, ok := b.(map[string]int)
		return ok && len(x) == len(y)
	case []string:
		y, ok := b.([]string)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case json.RawMessage:
		y, ok := b.(json.RawMessage)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return a == b
}

type namedInt int
type pair struct {
	a int
	b string
}
type holder struct{ v any } // comparable or not depending on v

// equalKey reports whether two arguments share a $ number: equal under == with
// identical types, never for values that cannot be compared.
func equalKey(a, b any) bool {
	switch x := a.(type) {
	case []byte, []int, map[string]int, []string, json.RawMessage:
		return false
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case holder:
		y, ok := b.(holder)
		return ok && equalKey(x.v, y.v)
	}
	return same(a, b)
}

// readRef reads a decimal number at s[p:].
func readRef(s string, p int) (n, end int) {
	for p < len(s) && isDigit(s[p]) && n < 100000 {
		n = n*10 + int(s[p]-'0')
		p++
	}
	return n, p
}

// checkDenotes asserts that query with args denotes ts.
func checkDenotes(query string, args []any, ts []tok, style syntax.BindVarStyle, what string) {
	p, k := 0, 0
	for _, t := range ts {
		if !t.isArg {
			v.Assert(p+len(t.text) <= len(query) && query[p:p+len(t.text)] == t.text, what+": text differs from what the fragments say")
			p += len(t.text)
			continue
		}
		if style == syntax.Dollar {
			v.Assert(p < len(query) && query[p] == '$', what+": a reference is not a placeholder")
			k, p = readRef(query, p+1)
		} else {
			v.Assert(p < len(query) && query[p] == '?', what+": a reference is not a placeholder")
			p++
			k++
		}
		v.Assert(k >= 1 && k <= len(args), what+": a placeholder has no argument")
		v.Assert(same(args[k-1], t.arg), what+": a placeholder denotes another argument than its fragment supplied")
	}
	v.Assert(p == len(query), what+": text after the expected end")
}

// checkExact asserts that args and the numbering in query are exactly those of
// the references of ts, in order.
func checkExact(query string, args []any, ts []tok, style syntax.BindVarStyle, what string) {
	var want []any
	p := 0
	for _, t := range ts {
		if !t.isArg {
			p += len(t.text)
			continue
		}
		if style != syntax.Dollar {
			want = append(want, t.arg)
			p++
			continue
		}
		k := 0
		for i := range want {
			if equalKey(want[i], t.arg) {
				k = i + 1
				break
			}
		}
		if k == 0 {
			want = append(want, t.arg)
			k = len(want)
		}
		v.Assert(p < len(query) && query[p] == '$', what+": a reference is not a placeholder")
		n := 0
		n, p = readRef(query, p+1)
		v.Assert(n == k, what+": a placeholder has a number other than the one its value calls for")
	}
	v.Assert(len(args) == len(want), what+": number of arguments")
	for i := range want {
		v.Assert(same(args[i], want[i]), what+": argument list differs")
	}
}

func observeBuild(q string, args []any, err error) {
	if err != nil {
		v.Observe("err", "yes")
		return
	}
	v.Observe("query", q)
	v.Observe("nargs", v.Itoa(len(args)))
}

// needRefs appends references to what n does not reference yet.
func (n *node) needRefs() {
	ua, uf := n.refs()
	bind := 0 // style that the text uses
	for _, s := range n.segs {
		if s.kind == sQ {
			bind = 1
		}
	}
	for i, u := range ua {
		if !u {
			k := sDollar
			if bind == 1 {
				k = sArgN
			}
			n.segs = append(n.segs, txt("+"), ref(k, i+1))
		}
	}
	for i, u := range uf {
		if !u {
			n.segs = append(n.segs, txt("+"), ref(sFN, i+1))
		}
	}
}

func (n *node) refs() (ua, uf []bool) {
	st := &evalState{n: &node{args: n.args, kids: make([]*node, len(n.kids))}, usedA: make([]bool, len(n.args)), usedF: make([]bool, len(n.kids))}
	st.run(n.segs, 0)
	return st.usedA, st.usedF
}
