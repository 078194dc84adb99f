package h

import (
	"errors"
	"fmt"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// ---- C07 ----

// checkOutcome asserts that n builds or fails as the model says, repeatedly.
func checkOutcome(n *node, style syntax.BindVarStyle, times int, what string) {
	_, e := n.eval()
	for i := 0; i < times; i++ {
		q, args, err := n.fragment().BuildQuery(style)
		if i == 0 {
			observeBuild(q, args, err)
		}
		v.Assert(err != nil || e == evOK, what+": a dangling reference or an unused part is not reported")
		v.Assert(err == nil || e != evOK, what+": fails although all references are in range and everything is used")
	}
	if e == evOK {
		v.Cover("valid")
	} else {
		v.Cover("invalid")
	}
}

// freeRefs are references with indexes 0..beyond+2, in range or not.
func freeRefs(count, nargs, nkids int) []seg {
	bind := v.Choice(2)
	var r []seg
	for i := 0; i < count; i++ {
		k := v.Choice(6)
		switch k {
		case 0:
			if bind == 0 {
				r = append(r, ref(sQ, 0))
			} else {
				r = append(r, ref(sDollar, v.Int(1, nargs+1)))
			}
		case 1:
			r = append(r, ref(sArgN, v.Int(0, nargs+1)))
		case 2:
			r = append(r, ref(sArgCall, v.Int(0, nargs+1)))
		case 3:
			r = append(r, ref(sFN, v.Int(0, nkids+1)))
		case 4:
			r = append(r, ref(sFragN, v.Int(0, nkids+1)))
		case 5:
			v.Assume(nkids > 0)
			r = append(r, ref(sFragCall, nkids))
		}
		r = append(r, txt(" "))
	}
	return r
}

func C07_refs() {
	m := v.Pick(2, 3)
	v.Bound("fragment with 0..2 args and 0..2 fragments (of which the second may be nil) and 0.." + v.Itoa(m) + " references of any kind with indexes 0..n+1; built twice")
	n := &node{args: intArgs(v.Choice(3), 0)}
	for i := v.Choice(3); i > 0; i-- {
		if len(n.kids) == 1 && v.Bool() {
			n.kids = append(n.kids, nil)
			continue
		}
		n.kids = append(n.kids, &node{segs: []seg{txt("x")}})
	}
	n.segs = freeRefs(v.Choice(m+1), len(n.args), len(n.kids))
	checkOutcome(n, styleOf(v.Choice(2)), 2, "references")
}

// validity of fragments inside fragments inside fragments
func C07_nested() {
	v.Bound("three levels of fragments, any of them with 0..1 args and 0..1 references of any kind with index 0..n+1, used 0..2 times by its parent; built twice")
	leaf := &node{args: intArgs(v.Choice(2), 0)}
	leaf.segs = freeRefs(v.Choice(2), len(leaf.args), 0)
	mid := &node{args: intArgs(v.Choice(2), 0), kids: []*node{leaf}}
	mid.segs = freeRefs(v.Choice(2), len(mid.args), 1)
	root := &node{kids: []*node{mid}}
	if v.Bool() {
		mid.segs = append(mid.segs, ref(sFN, 1))
	}
	switch v.Choice(4) {
	case 0:
		root.segs = []seg{txt("SELECT "), ref(sFN, 1)}
	case 1:
		root.segs = []seg{ref(sFN, 1), txt(" "), ref(sFragCall, 1)}
	case 2:
		root.segs = []seg{join([]seg{ref(sDynF, 0)}, ",")}
	case 3:
		root.segs = []seg{txt("SELECT 1")}
	}
	checkOutcome(root, styleOf(v.Choice(2)), 2, "nested")
}

// fragments that are built, changed and built again
func C07_again() {
	v.Bound("a fragment of one of 5 texts with one of 6 lists of args and fragments, valid or not, alone or included in another, built in either style and context, then 1..2 times changed (text, AppendArgs, AppendFragments, WithArgs, WithFragments, a field, a setter of its only nested fragment) and built again")
	raws := [][]seg{
		{txt("a "), ref(sQ, 0)},
		{txt("a "), ref(sDollar, 1), txt(" "), ref(sDollar, 2)},
		{txt("a "), ref(sFN, 1)},
		{txt("a "), ref(sDollar, 1), ref(sFN, 1), txt(" "), ref(sFN, 2)},
		{txt("a "), join([]seg{ref(sDynArg, 0)}, ","), join([]seg{ref(sDynF, 0)}, ",")},
	}
	kid := func() *node { return &node{segs: []seg{txt("k")}} }
	kk := &node{segs: []seg{txt("n "), ref(sQ, 0)}, args: []any{7}}
	n := &node{segs: raws[v.Choice(len(raws))]}
	switch v.Choice(6) {
	case 1:
		n.args = intArgs(1, 1)
	case 2:
		n.args = intArgs(2, 1)
	case 3:
		n.kids = []*node{kk}
	case 4:
		n.args = intArgs(1, 1)
		n.kids = []*node{kid(), kk}
	case 5:
		n.args = intArgs(2, 1)
		n.kids = []*node{kk}
	}
	f := n.fragment()
	top, topf := n, f
	if v.Bool() {
		top = &node{segs: []seg{ref(sFN, 1)}, kids: []*node{n}}
		topf = sqlf.Ff("#f1", f)
	}
	kf := kk.fragment()
	style := styleOf(v.Choice(2))
	outcome := func(f *sqlf.Fragment, n *node) {
		ts, e := n.eval()
		q, args, err := f.BuildQuery(style)
		observeBuild(q, args, err)
		v.Assert(err != nil || e == evOK, "again: a dangling reference or an unused part is not reported")
		v.Assert(err == nil || e != evOK, "again: fails although all references are in range and everything is used")
		if e == evOK {
			checkDenotes(q, args, ts, style, "again")
			v.Cover("valid")
		} else {
			v.Cover("invalid")
		}
	}
	outcome(topf, top)
	for i := v.Choice(2) + 1; i > 0; i-- {
		switch v.Choice(8) {
		case 0:
			n.segs = raws[v.Choice(len(raws))]
			f.Raw = rawOf(n.segs)
		case 1:
			f.AppendArgs(5)
			n.args = append(n.args[:len(n.args):len(n.args)], 5)
		case 2:
			k := kid()
			f.AppendFragments(k.fragment())
			n.kids = append(n.kids, k)
		case 3:
			f.WithArgs()
			n.args = nil
		case 4:
			f.WithArgs(8, 9)
			n.args = []any{8, 9}
		case 5:
			f.WithFragments()
			n.kids = nil
		case 6:
			f.Args = append(f.Args, 3)
			n.args = append(n.args[:len(n.args):len(n.args)], 3)
		case 7:
			kf.AppendArgs(4)
			kk.args = append(kk.args[:len(kk.args):len(kk.args)], 4)
		}
		outcome(topf, top)
	}
}

func C07_join() {
	v.Bound("#join with 8 forms of template and 0..2 bounds over 0..2 args and 0..2 fragments, with and without other references")
	n := joined(2, 2, true)
	if v.Bool() {
		// drop what completes the references
		for i := range n.segs {
			if n.segs[i].kind == sJoin {
				n.segs = n.segs[:i+1]
				break
			}
		}
	}
	checkOutcome(n, styleOf(v.Choice(2)), 1, "join")
}

// one reference out of range, or one part unused, among many
func C07_sizes() {
	ks := []int{9, 10, 11, 33, 64, 65, 100, 101, 130, 257}
	m := v.Pick(8, len(ks))
	n := ks[v.Choice(m)]
	v.Bound("n args or fragments with n up to " + v.Itoa(ks[m-1]) + ": all but one (any of 10) referenced, one reference to an index 1..n+2 (any of 10)")
	r := &node{}
	frags := v.Bool()
	kind := []segKind{sDollar, sArgN, sArgCall}[v.Choice(3)]
	x := &node{segs: []seg{txt("x")}}
	for i := 0; i < n; i++ {
		if frags {
			r.kids = append(r.kids, x)
		} else {
			r.args = append(r.args, i)
		}
	}
	if frags {
		kind = []segKind{sFN, sFragN, sFCall}[v.Choice(1)]
	}
	some := []int{1, 2, n / 2, n/2 + 1, n - 1, n, n + 1, n + 2, 64, 65}
	skip := some[v.Choice(10)] - 1
	last := some[v.Choice(10)]
	v.Assume(skip < n && last <= n+2)
	for i := 0; i < n; i++ {
		if i != skip {
			r.segs = append(r.segs, ref(kind, i+1), txt(" "))
		}
	}
	r.segs = append(r.segs, ref(kind, last))
	checkOutcome(r, styleOf(v.Choice(2)), 1, "many references")
}

// ? counts against args
func C07_question() {
	v.Bound("0..6 placeholders against 0..6 args, in the fragment or in a #join template")
	n := &node{args: intArgs(v.Choice(7), 0)}
	k := v.Choice(7)
	for i := 0; i < k; i++ {
		n.segs = append(n.segs, ref(sQ, 0), txt(" "))
	}
	if v.Bool() {
		n.kids = []*node{{segs: []seg{txt("x")}}, {segs: []seg{txt("y")}}}
		n.segs = []seg{join(append([]seg{ref(sDynF, 0)}, n.segs...), ",")}
	}
	checkOutcome(n, styleOf(v.Choice(2)), 2, "placeholders")
}

// ---- C09 ----

func C09_range() {
	n := joined(2, 2, true)
	v.Bound("#join with 8 forms of template and 0..2 bounds -1..3 over 0..2 args and 0..2 fragments (with an arg, without, empty)")
	buildBoth(n, styleOf(v.Choice(2)), true, false, "join")
}

// any subset of empty elements, any bounds, any separator
func C09_empty() {
	k := v.Choice(v.Pick(5, 6))
	v.Bound("#join('#f',sep[,from[,to]]) of 0.." + v.Itoa(v.Pick(4, 5)) + " fragments, any of them empty (or nil), bounds -1..k+2 or absent, separators of 0..1 bytes")
	n := &node{}
	for i := 0; i < k; i++ {
		switch v.Choice(3) {
		case 0:
			n.kids = append(n.kids, &node{segs: []seg{txt("f" + v.Itoa(i))}})
		case 1:
			n.kids = append(n.kids, &node{segs: []seg{txt(" ")}, prefix: "P"})
		case 2:
			v.Assume(i == 1)
			n.kids = append(n.kids, nil)
		}
	}
	var bs []int
	for b := v.Choice(3); b > 0; b-- {
		bs = append(bs, v.Int(-1, k+2))
	}
	sep := v.Str(0, 1, ",'? \x00")
	t := []seg{ref(sDynF, 0)}
	n.segs = []seg{txt("["), join(t, sep, bs...), txt("]")}
	for i := range n.kids {
		n.segs = append(n.segs, ref(sFN, i+1))
	}
	buildBoth(n, syntax.Question, true, false, "join of fragments")
}

// literal text of the template and of the separator
func C09_text() {
	m := v.Pick(2, 3)
	v.Bound("#join('<t>#arg<u>#f', '<sep>') with t, sep 0.." + v.Itoa(m) + " and u 0..1 bytes over an alphabet with quotes, marks and white space")
	t := v.Str(0, m, "a,') \n\x80")
	u := v.Str(0, 1, ",' \x80")
	sep := v.Str(0, m, "a,'#?$) \n\x80")
	// quotes in the template quote: keep them paired
	v.Assume(quotesClosed(t) && quotesClosed(u))
	n := &node{args: []any{1, 2}, kids: []*node{{segs: []seg{txt("x")}}, {segs: []seg{txt("y")}}}}
	n.segs = []seg{txt("["), join([]seg{txt(t), ref(sDynArg, 0), txt(u + ";"), ref(sDynF, 0)}, sep), txt("]")}
	buildBoth(n, styleOf(v.Choice(2)), true, false, "join texts")
}

func quotesClosed(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			n++
		}
	}
	return n%2 == 0
}

func C09_sizes() {
	ks := []int{9, 10, 33, 65, 101, 130, 257}
	m := v.Pick(5, len(ks))
	k := ks[v.Choice(m)]
	near := func() int { return []int{0, 1, 2, k / 2, k - 1, k, k + 1, -1}[v.Choice(8)] }
	from, to := near(), near()
	v.Bound("#join over k elements, k up to " + v.Itoa(ks[m-1]) + ", with bounds near 0, k/2 and k")
	n := &node{}
	x := &node{segs: []seg{txt("x"), ref(sQ, 0)}, args: []any{7}}
	for i := 0; i < k; i++ {
		n.args = append(n.args, i)
		n.kids = append(n.kids, x)
	}
	n.segs = []seg{join([]seg{ref(sDynArg, 0)}, ","), txt(";"), join([]seg{ref(sDynF, 0)}, ";"), txt("="), join([]seg{ref(sDynArg, 0), txt(":"), ref(sDynF, 0)}, " ", from, to)}
	buildBoth(n, styleOf(v.Choice(2)), true, true, "long join")
}

// custom functions in templates, compatible and not; wrong calls
func C09_functions() {
	style := styleOf(v.Choice(2))
	top := v.Int(0, 3) // the last index #num accepts
	num := func(i int) (string, error) {
		if i < 1 || i > top {
			return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, i)
		}
		return "n" + v.Itoa(i), nil
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{
		"num":      num,
		"ctxnum":   func(ctx *sqlf.Context, i int64) (string, error) { return num(int(i)) },
		"varnum":   func(i ...uint8) (string, error) { return num(int(i[0])) },
		"float":    func(i float64) (string, error) { return num(int(i)) },
		"noerr":    func(i int) string { return "x" },
		"nothing":  func(i int) {},
		"str":      func(s string) (string, error) { return "", sqlf.ErrInvalidIndex },
		"two":      func(a, b int) (string, error) { return "", sqlf.ErrInvalidIndex },
		"three":    func(ctx *sqlf.Context, a, b int) (string, error) { return "", sqlf.ErrInvalidIndex },
		"ctxonly":  func(ctx *sqlf.Context) (string, error) { return "", sqlf.ErrInvalidIndex },
		"ctxstr":   func(ctx *sqlf.Context, s string) (string, error) { return "", sqlf.ErrInvalidIndex },
		"zero":     func(i int) (string, error) { return "z", nil },
		"othererr": func(i int) (string, error) { return "", errPlain },
		"none":     func() (string, error) { return "", sqlf.ErrInvalidIndex },
	})
	v.Assert(err == nil, "functions are not accepted")
	good := []string{"num", "ctxnum", "varnum", "float"}
	bad := []string{"noerr", "nothing", "str", "two", "three", "ctxonly", "ctxstr", "zero", "othererr", "none", "undefined", "Num", "join"}
	v.Bound("#join with a custom function that accepts 1..k (k 0..3) in 4 signatures, with 13 unsuitable functions, with 0..3 bounds -1..4, without function values, with wrong argument kinds")
	form := v.Choice(4)
	raw, want, fails := "", "", false
	switch form {
	case 0, 1:
		name := good[v.Choice(len(good))]
		var bs []int
		nb := v.Choice(4)
		if nb == 3 {
			bs = []int{1, 1, 1}
		}
		for b := nb; b > 0 && nb < 3; b-- {
			bs = append(bs, v.Int(-1, 4))
		}
		raw = "#join('<#" + name + ">','-'"
		for _, b := range bs {
			raw += "," + v.Itoa(b)
		}
		raw += ")"
		if form == 1 {
			raw = "#join('<#" + name + ">','-'"
			for _, b := range bs {
				raw += ",\t " + v.Itoa(b)
			}
			raw += ")"
			v.Assume(nb == 2)
		}
		from, to := 0, 0
		if nb > 0 {
			from = bs[0]
		}
		if nb > 1 {
			to = bs[1]
		}
		fails = nb == 3 || to > 0 && from > to || from > top || to > top
		if !fails {
			if from < 1 {
				from = 1
			}
			if to < 1 {
				to = top
			}
			for i := from; i <= to; i++ {
				if i > from {
					want += "-"
				}
				want += "<n" + v.Itoa(i) + ">"
			}
		}
	case 2:
		raw, fails = "#join('#"+bad[v.Choice(len(bad))]+"',',')", true
	case 3:
		raw, fails = []string{
			"#join('x',',')", "#join('',',')", "#join('#num1',',')", "#join('#num(1)',',')",
			"#join('#num')", "#join()", "#join('#num',1)", "#join(1,',')", "#join('#num',',','1')", "#join('#num',',',true)",
			"#join('#num',nil)", "#join('#num #undefined',',')", "#join('#num#noerr',',')", "#join('?',',')", "#join('#num ?',',')", "#join('#num $1',',')", "#join('#num #arg1',',')", "#join('#num #f1',',')",
			"#join('#num(',',')", "#join('#num(x)',',')", "#join", "#join1",
		}[v.Choice(22)], true
		v.Assume(top > 0)
	}
	q, err := sqlf.F(raw).BuildFragment(ctx)
	v.Observe("q", q)
	v.Observe("failed", fmt.Sprint(err != nil))
	v.Assert(!fails || err != nil, "join functions: an invalid call is not reported")
	v.Assert(fails || err == nil, "join functions: a valid call fails")
	v.Assert(fails || q == want, "join functions: expansion differs")
	v.Cover("functions")
}

// ---- C10 ----

var errPlain = errors.New("plain")

type errTyped struct{ n int }

func (e *errTyped) Error() string { return "typed" }

var errPtr = &errTyped{1}

// sentinels: what fails, as it fails
func failure(i int) (is error, ret error) {
	switch i {
	case 0:
		return errPlain, errPlain
	case 1:
		return errPtr, errPtr
	case 2:
		return errPlain, fmt.Errorf("wrapped: %w", errPlain)
	case 3:
		return sqlf.ErrInvalidIndex, sqlf.ErrInvalidIndex
	case 4:
		return errPlain, &both{errPlain}
	}
	return sqlf.ErrInvalidIndex, fmt.Errorf("x: %w", sqlf.ErrInvalidIndex)
}

// both matches two errors
type both struct{ e error }

func (b *both) Error() string        { return "both" }
func (b *both) Unwrap() error        { return b.e }
func (b *both) Is(target error) bool { return target == sqlf.ErrInvalidIndex }

type failing struct{ err error }

func (f *failing) BuildFragment(ctx *sqlf.Context) (string, error) { return "half", f.err }

// wrapIn puts b at some place of a fragment.
func wrapIn(b sqlf.FragmentBuilder) *sqlf.Fragment {
	ok := sqlf.Fa("ok ?", 1)
	empty := sqlf.F("")
	switch v.Choice(12) {
	case 0:
		return sqlf.Ff("a #f1", b)
	case 1:
		return sqlf.Ff("#fragment(2) #f1 x", b, ok)
	case 2:
		return sqlf.Ff("#join('#f',',')", b)
	case 3:
		return sqlf.Ff("#join('#f',',')", ok, b)
	case 4:
		return sqlf.Ff("#join('#fragment',',')", ok, b, ok)
	case 5:
		return sqlf.Ff("#join('#f #arg',',',1)", ok, b).WithArgs(1, 2)
	case 6:
		return sqlf.Ff("#join('#arg#f',',',1,2) #f3", ok, b, ok).WithArgs(1, 2)
	case 7:
		return sqlf.Ff("#join('#f#f2',',')", ok, b).WithPrefix("P")
	case 8:
		return sqlf.Ff("#join('#f',',',2) #f1", empty, b)
	case 9:
		return sqlf.Ff("#join('#f',',',0,1)", b)
	case 10:
		return sqlf.Ff("#join('#f',',') #f2", ok, b)
	}
	return sqlf.Ff("#join('#f',',',1,1)#f1#f2", ok, b)
}

func checkFailed(q string, args []any, err, is error) {
	v.Observe("failed", fmt.Sprint(err != nil))
	v.Assert(err != nil, "a failure of a part is swallowed")
	v.Assert(errors.Is(err, is), "the error does not match the original error")
	v.Assert(q == "", "a query is returned together with an error")
	v.Assert(len(args) == 0 && args == nil, "args are returned together with an error")
	v.Cover("failed")
}

// faults is a fault schedule: one of the calls fails.
type faults struct {
	at, n int
	err   error
	fired bool
}

func (f *faults) call() error {
	f.n++
	if f.n == f.at {
		f.fired = true
		return f.err
	}
	return nil
}

type maybe struct {
	f *faults
	s string
}

func (m *maybe) BuildFragment(ctx *sqlf.Context) (string, error) {
	return m.s + ctx.CommitArg(1), m.f.call()
}

func (f *faults) leaf(i int) sqlf.FragmentBuilder {
	switch v.Choice(3) {
	case 0:
		return &maybe{f, ""}
	case 1:
		return &maybe{f, "x"}
	}
	return sqlf.F("lit")
}

// check: the build failed exactly when the schedule says so.
func (f *faults) check(q string, args []any, err, is error) {
	if !f.fired {
		v.Assert(err == nil, "a build without failure returns an error")
		v.Cover("no fault")
		return
	}
	checkFailed(q, args, err, is)
}

// one call of many fails, wherever it is
func C10_schedule() {
	m := v.Pick(2, 3)
	v.Bound("trees of 2 levels with 1.." + v.Itoa(m) + " parts per fragment, parts being literals, fragments or user-written builders; parts referenced one by one, by #join, or both; any one call of a user-written builder fails (6 ways)")
	is, ret := failure(v.Choice(6))
	f := &faults{at: v.Int(1, 1<<30), err: ret}
	part := func() sqlf.FragmentBuilder {
		n := v.Choice(m) + 1
		in := sqlf.F([]string{"#join('#f',',')", "#f1 #join('#fragment',' ',1)", "#join('#f',',',1,1) #join('#f #f1',';')"}[v.Choice(3)])
		for i := 0; i < n; i++ {
			in.AppendFragments(f.leaf(i))
		}
		return in
	}
	root := sqlf.F([]string{"a #f1 #join('#f',',')", "#join('#f',',')"}[v.Choice(2)])
	root.AppendFragments(part())
	if v.Bool() {
		root.AppendFragments(f.leaf(0))
	}
	if v.Thorough() && v.Bool() {
		root.AppendFragments(part())
	}
	q, args, err := root.BuildQuery(styleOf(v.Choice(2)))
	f.check(q, args, err, is)
}

func C10_nested() {
	d := v.Pick(2, 3)
	v.Bound("a builder failing in 6 ways (also with ErrInvalidIndex) at depth 1.." + v.Itoa(d) + ", at each level in 12 kinds of place, at its first, second ... or no call")
	is, ret := failure(v.Choice(6))
	fs := &faults{at: v.Int(1, 1<<30), err: ret}
	var f sqlf.FragmentBuilder = &maybe{fs, "m"}
	for k := v.Choice(d) + 1; k > 0; k-- {
		f = wrapIn(f)
	}
	q, args, err := f.(*sqlf.Fragment).BuildQuery(styleOf(v.Choice(2)))
	fs.check(q, args, err, is)
}

// functions and properties that fail
func C10_functions() {
	v.Bound("custom functions failing by an error (6 ways) or a panic, called directly, from a #join, through properties, at depth 0..1")
	style := styleOf(v.Choice(2))
	kind := v.Choice(6)
	is, ret := failure(kind)
	at := v.Int(1, 3)
	invalid := kind >= 3
	props := sqlf.NewFragmentProperties(sqlf.F("a"), &failing{ret}, sqlf.F("c"))
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{
		"fail": func() (string, error) { return "half", ret },
		"failat": func(ctx *sqlf.Context, i int) (string, error) {
			if i == 0 || i > 3 {
				return "", sqlf.ErrInvalidIndex
			}
			if i == at {
				return "half", ret
			}
			return "ok", nil
		},
		"props": func(ctx *sqlf.Context, i int) (string, error) { return props.Build(ctx, i) },
		"boom":  func(i int) string { panic(ret) },
		"empty": func() (string, error) { return "", ret },
	})
	v.Assert(err == nil, "functions are not accepted")
	raws := []string{"x #fail() y", "#failat(" + v.Itoa(at) + ")", "#empty()", "#props2", "#join('#props',',')", "#boom(1)", "#join('#failat',',')", "#join('#props #failat','-',1,3)", "#join('#f #props',',')"}
	k := v.Choice(len(raws))
	// an ErrInvalidIndex of the function itself is how it ends a #join
	v.Assume(!(invalid || kind == 4) || k != 6)
	f := sqlf.F(raws[k])
	if k == 8 {
		f.WithFragments(sqlf.F("1"), sqlf.F("2"), sqlf.F("3"))
	}
	if v.Bool() {
		f = wrapIn(f)
	}
	q, err := f.BuildFragment(ctx)
	if k == 7 && at == 1 {
		is = ret
	}
	checkFailed(q, nil, err, is)
}

// parts of the query builder that fail
func C10_sqlb() {
	v.Bound("a fragment or builder failing in 6 ways (or by a syntax error, a dangling reference) in each of the clauses of the query builder, and in builders nested in it")
	kind := v.Choice(8)
	var bad sqlf.FragmentBuilder
	var badf *sqlf.Fragment
	sqlbFaults = nil
	var is error
	if kind < 6 {
		var ret error
		is, ret = failure(kind)
		fs := &faults{at: v.Int(1, 1<<30), err: ret}
		bad = &maybe{fs, "m"}
		badf = sqlf.Ff("1 = #f1", bad)
		sqlbFaults = fs
	} else {
		badf = sqlf.F([]string{"x $1", "#unknown()"}[kind-6])
		bad = badf
	}
	tbl, o := sqlb.NewTableAliased("t", "a"), sqlb.NewTableAliased("o", "b")
	b := sqlb.NewQueryBuilder().With(sqlb.Table("cte"), sqlf.F("SELECT 1"))
	b.From(tbl).Where2(tbl.Column("x"), "=", 1)
	switch v.Choice(10) {
	case 0:
		b.Select(tbl.Column("x")).Where(badf)
	case 1:
		b.Select(tbl.Column("x"), expr("#f1", badf))
	case 2:
		b.Select(tbl.Column("x")).InnerJoin(o, badf)
	case 3:
		b.Select(o.Column("x")).LeftJoin(o, badf)
	case 4:
		b.Select(tbl.Column("x")).GroupBy(expr("#f1", badf))
	case 5:
		b.Select(tbl.Column("x")).OrderBy(expr("#f1", badf), sqlb.Asc)
	case 6:
		b.Select(tbl.Column("x")).Union(bad)
	case 7:
		b.Select(o.Column("x")).With(sqlb.Table("o"), bad)
		b.LeftJoin(sqlb.NewTableAliased("o", "b"), sqlf.F("1=1"))
	case 8:
		in := sqlb.NewQueryBuilder().From(tbl).Select(tbl.Column("y")).Where(badf)
		b.Select(tbl.Column("x")).Where(sqlf.Ff("EXISTS (#f1)", in))
	case 9:
		in := sqlb.NewQueryBuilder().From(tbl).Select(tbl.Column("y")).Where(badf)
		b.Select(tbl.Column("x")).Union(sqlf.F("SELECT 1"), in)
	}
	if v.Bool() {
		b.Distinct()
	}
	q, args, err := b.BuildQuery(styleOf(v.Choice(2)))
	if sqlbFaults != nil {
		sqlbFaults.check(q, args, err, is)
		return
	}
	checkFailed(q, args, err, err)
}

var sqlbFaults *faults

// ---- C11 ----

const alphaSpace = " \t\nx(\xc2\xa0\x85\xe3\x80"

// a part between other text, alone and included
func C11_trim() {
	m := v.Pick(3, 4)
	v.Bound("part <t1>?<t2> or <t1> with t1 0.." + v.Itoa(m) + " and t2 0..2 bytes (ASCII and other white space, invalid UTF-8), prefix and suffix of 0..1 bytes, included twice in <[#f1]#fragment(1)>")
	t1 := v.Str(0, m, alphaSpace)
	k := &node{segs: []seg{txt(t1)}}
	if v.Bool() {
		k.args = []any{5}
		k.segs = append(k.segs, ref(sArgN, 1), txt(v.Str(0, v.Pick(1, 2), " \nx\xa0")))
	}
	k.prefix, k.suffix = v.Str(0, 1, " P?"), v.Str(0, 1, " S#")
	n := &node{kids: []*node{k}, segs: []seg{txt("<["), ref(sFN, 1), txt("]"), ref(sFragCall, 1), txt(">")}}
	buildBoth(n, syntax.Question, true, false, "included part")
	// the part on its own
	q, _, err := k.fragment().BuildQuery(syntax.Question)
	v.Assert(err == nil, "the part alone fails to build")
	all, _, err := n.fragment().BuildQuery(syntax.Question)
	v.Assert(err == nil && all == "<["+q+"]"+q+">", "the included part differs from the part alone")
}

// chains of parts with prefixes and suffixes, empty or not
func C11_chain() {
	d := v.Pick(3, 4)
	v.Bound("chains of 1.." + v.Itoa(d) + " fragments, each with or without own arg, own text, prefix, suffix, white space around the reference")
	var n *node
	for k := v.Choice(d) + 1; k > 0; k-- {
		p := &node{}
		if v.Bool() {
			p.prefix = "P" + v.Itoa(k)
		}
		if v.Bool() {
			p.suffix = "S" + v.Itoa(k)
		}
		if n != nil {
			p.kids = []*node{n}
		}
		switch v.Choice(3) {
		case 0:
			p.segs = []seg{txt(" ")}
		case 1:
			p.segs = []seg{txt("\nt")}
		case 2:
			p.args = []any{k}
			p.segs = []seg{ref(sQ, 0)}
		}
		if n != nil {
			p.segs = append(p.segs, ref(sFN, 1), txt(" "))
		}
		n = p
	}
	buildBoth(n, styleOf(v.Choice(2)), true, false, "chain")
}

// own indexes, whatever surrounds
func C11_index() {
	v.Bound("the same references #arg1 #arg(2) $2 #f1 #join('#arg',';') #join('#f',';') at three levels whose args and fragments differ")
	pick := func(d int) []seg {
		switch v.Choice(5) {
		case 0:
			return []seg{ref(sArgN, 1), txt("'"), txt("q'"), ref(sArgCall, 2)}
		case 1:
			return []seg{ref(sDollar, 2), txt("/"), ref(sDollar, 1)}
		case 2:
			return []seg{join([]seg{ref(sDynArg, 0)}, ";")}
		case 3:
			return []seg{join([]seg{ref(sDynArg, 0), txt("="), ref(sDynF, 0)}, ";", 0, 1), ref(sArgN, 2)}
		}
		return []seg{ref(sQ, 0), txt("/"), ref(sQ, 0)}
	}
	leaf := &node{args: []any{11, 12}, segs: pick(0)}
	v.Assume(leaf.segs[0].kind != sJoin || len(leaf.segs) == 1)
	mid := &node{args: []any{21, 22}, kids: []*node{leaf}, segs: append(append(pick(1), txt(" ")), ref(sFN, 1), txt(" "), join([]seg{ref(sDynF, 0)}, ";"))}
	root := &node{args: []any{31, 32}, kids: []*node{mid, leaf}, segs: append(append([]seg{ref(sFN, 1), txt(" ")}, pick(2)...), txt(" "), join([]seg{ref(sDynF, 0)}, ";"))}
	root.needRefs()
	buildBoth(root, styleOf(v.Choice(2)), true, false, "own indexes")
}

func expr(raw string, fs ...sqlf.FragmentBuilder) *sqlb.Column {
	return sqlb.ExprColumn(sqlf.Ff(raw, fs...))
}
