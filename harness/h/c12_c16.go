package h

import (
	"errors"
	"fmt"
	"sync"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// ---- C12 ----

// snap is what a fragment looked like.
type snap struct {
	f              *sqlf.Fragment
	raw, pre, suf  string
	args           []any
	frags          []sqlf.FragmentBuilder
	nilArgs, nilFr bool
}

func snapshot(f *sqlf.Fragment, to *[]*snap) {
	if f == nil {
		return
	}
	for _, s := range *to {
		if s.f == f {
			return
		}
	}
	// the whole backing arrays: builds must not write behind the end either
	s := &snap{f: f, raw: f.Raw, pre: f.Prefix, suf: f.Suffix, nilArgs: f.Args == nil, nilFr: f.Fragments == nil}
	s.args = append([]any{}, f.Args[:cap(f.Args)]...)
	s.frags = append([]sqlf.FragmentBuilder{}, f.Fragments[:cap(f.Fragments)]...)
	*to = append(*to, s)
	for _, k := range f.Fragments {
		if kf, ok := k.(*sqlf.Fragment); ok {
			snapshot(kf, to)
		}
	}
}

func unchanged(snaps []*snap) {
	for _, s := range snaps {
		f := s.f
		v.Assert(f.Raw == s.raw && f.Prefix == s.pre && f.Suffix == s.suf, "building changes the text, prefix or suffix of a fragment")
		v.Assert((f.Args == nil) == s.nilArgs && cap(f.Args) == len(s.args) && (f.Fragments == nil) == s.nilFr && cap(f.Fragments) == len(s.frags), "building changes the lists of a fragment")
		for i, a := range f.Args[:cap(f.Args)] {
			v.Assert(same(a, s.args[i]), "building changes the args of a fragment")
		}
		for i, k := range f.Fragments[:cap(f.Fragments)] {
			v.Assert(k == s.frags[i], "building changes the fragments of a fragment")
		}
	}
}

type result struct {
	q    string
	args []any
	fail bool
	msg  string
}

func build(f sqlf.QueryBuilder, style syntax.BindVarStyle) result {
	q, args, err := f.BuildQuery(style)
	r := result{q: q, args: append([]any{}, args...), fail: err != nil}
	if err != nil {
		r.msg = err.Error()
	}
	// what is returned belongs to the caller
	for i := range args {
		args[i] = "scribble"
	}
	return r
}

func (r result) equals(o result) bool {
	if r.fail != o.fail || r.q != o.q || len(r.args) != len(o.args) {
		return false
	}
	for i := range r.args {
		if !same(r.args[i], o.args[i]) {
			return false
		}
	}
	return true
}

// repeat builds the fragment of n several times in any order of styles.
func repeat(f sqlf.QueryBuilder, snaps []*snap, others ...sqlf.QueryBuilder) {
	first := styleOf(v.Choice(2))
	a := build(f, first)
	v.Observe("q", a.q)
	unchanged(snaps)
	for i, o := range others {
		build(o, styleOf(i%2))
	}
	b := build(f, styleOf(v.Choice(2)))
	unchanged(snaps)
	c := build(f, first)
	v.Assert(a.equals(c), "building again gives another result")
	if first == syntax.Dollar {
		first = syntax.Question
	} else {
		first = syntax.Dollar
	}
	d := build(f, first)
	v.Assert(a.fail == d.fail, "the style decides whether a fragment builds")
	v.Assert(b.equals(c) || b.equals(d), "building again gives another result")
	unchanged(snaps)
	v.Cover("repeated")
}

func C12_refs() {
	m := v.Pick(2, 3)
	v.Bound("fragments with 0..2 args and 0..2 fragments and 0.." + v.Itoa(m) + " references, valid or not, and with spare capacity in the lists; built 4 times in any order of styles, with failing and other builds between")
	n := &node{args: make([]any, 0, 4)}
	for _, a := range intArgs(v.Choice(3), 1) {
		n.args = append(n.args, a)
	}
	k := v.Choice(3)
	for i := 0; i < k; i++ {
		n.kids = append(n.kids, &node{segs: []seg{txt("x"), ref(sQ, 0)}, args: []any{i}, prefix: "P"})
	}
	n.segs = freeRefs(v.Choice(m+1), len(n.args), len(n.kids))
	f := n.fragment()
	if k > 0 {
		f.Fragments = append(make([]sqlf.FragmentBuilder, 0, 5), f.Fragments...)
	}
	var snaps []*snap
	snapshot(f, &snaps)
	var others []sqlf.QueryBuilder
	if k > 0 {
		others = append(others, sqlf.Ff("#f1 $9", f.Fragments[0]), sqlf.Ff("#join('#f',';')", f.Fragments...).WithPrefix("Q"))
	}
	repeat(f, snaps, others...)
}

func C12_join() {
	v.Bound("#join with 8 forms of template (thorough: and 0..2 bounds) over 0..2 args and 0..1 fragments; built 4 times in any order of styles, with failing and other builds between")
	n := joined(2, v.Pick(1, 2), v.Thorough())
	f := n.fragment()
	var snaps []*snap
	snapshot(f, &snaps)
	repeat(f, snaps, sqlf.Ff("#join('#f',',') #f9", f), sqlf.Ff("#f1", f))
}

// everything the API offers, at the same time
func C12_concurrent() {
	v.Bound("one build (of 9 kinds of fragments and builders, both styles, valid or failing) that must not write to anything it shares; natively 4 goroutines under the race detector")
	style := styleOf(v.Choice(2))
	leaf := sqlf.Fa("l = ? OR l IN (#join('#arg',', ',2))", v.Int(0, 1), 2, 3)
	var f sqlf.QueryBuilder
	t := sqlb.NewTableAliased("tab", "t")
	o := sqlb.NewTableAliased("oth", "")
	switch v.Choice(9) {
	case 0:
		f = sqlf.Ff("SELECT #f1 AND #f2", leaf, leaf).WithPrefix("P").WithSuffix("S")
	case 1:
		f = sqlf.Ff("#join('#f #arg', ',') #f(1) $1", leaf, sqlf.F("x")).WithArgs(1, "a")
	case 2:
		f = sqlf.Ff("#join('#fragment', ',', 1, 2) #f3", leaf, leaf) // fails
	case 3:
		f = sqlf.Ff("'quoted ? #f1' #f1 #arg1", leaf).WithArgs([]byte("x"))
	case 4:
		f = sqlf.F("#nothing() '")
	case 5:
		b := sqlb.NewQueryBuilder().With(sqlb.Table("c"), leaf, "d").With(sqlb.Table("d"), leaf).
			From(t).LeftJoin(o, sqlf.Ff("#f1=#f2", t.Column("id"), o.Column("id"))).LeftJoinOptional(sqlb.NewTableAliased("c", "cc"), nil).
			Select(t.Columns("a", "b")...).Where(leaf).Where2(o.Column("x"), "=", 1).WhereIn(t.Column("y"), []int{1, 2}).
			GroupBy(t.Column("a")).OrderBy(o.Column("b"), sqlb.Desc).OrderBy(t.Column("b"), sqlb.Asc).Limit(1).Offset(2).Union(leaf)
		if v.Bool() {
			b.Distinct()
		}
		f = b
	case 6:
		b := sqlb.NewQueryBuilder().From(o).Select(expr("#f1 + #f2", o.Column("a"), leaf)).OrderBy(expr("#join('#f','')", o.Column("a")), sqlb.Asc).Distinct()
		f = sqlf.Ff("(#f1) UNION (#f2)", b, b)
	case 7:
		f = sqlb.NewQueryBuilder().From(o).Select(t.Column("x")) // fails
	case 8:
		f = sqlf.Ff("#f1", &committer{args: []any{1}, f: leaf})
	}
	var fs sqlf.FuncMap
	mode := v.Choice(2)
	if mode == 1 {
		fs = sqlf.FuncMap{"num": func(i int) (string, error) {
			if i != 1 {
				return "", sqlf.ErrInvalidIndex
			}
			return "n", nil
		}}
	}
	run := func() result {
		if mode == 0 {
			return build(f, style)
		}
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), fs)
		if err != nil {
			return result{fail: true}
		}
		q, err := sqlf.Ff("#join('#num','') #f1", f.(sqlf.FragmentBuilder)).BuildFragment(ctx)
		return result{q: q, args: ctx.Args(), fail: err != nil}
	}
	if v.Bool() {
		// nothing was built before
		var mu sync.Mutex
		var rs []result
		v.Concurrent([]any{f, fs, leaf, t, o}, func() {
			r := run()
			mu.Lock()
			rs = append(rs, r)
			mu.Unlock()
		})
		want := run()
		v.Observe("q", want.q)
		for _, r := range rs {
			v.Assert(r.equals(want), "a build at the same time as others gives another result")
		}
		v.Cover("cold")
		return
	}
	want := run()
	v.Observe("q", want.q)
	v.Concurrent([]any{f, fs, leaf, t, o}, func() {
		r := run()
		v.Assert(r.equals(want), "a build at the same time as others gives another result")
	})
	v.Cover("concurrent")
}

// the other packages keep no state either
func C12_helpers() {
	v.Bound("Parse, Interpolate, ArgsFlatted, table and column constructors on fixed inputs, all at the same time")
	k := v.Choice(4)
	args := []any{1, "it's", nil, true, []int{1, 2}, &num1}
	t := sqlb.NewTableAliased("tab", "t")
	run := func() string {
		switch k {
		case 0:
			c, err := syntax.Parse("a $1 #f1 #join('#f', ', ') ''")
			if err != nil || len(c.ExprList) != 6 {
				return "bad"
			}
			return "ok"
		case 1:
			s, err := util.Interpolate("a $1 $2 $3 $4", args[:4])
			return s + fmt.Sprint(err != nil)
		case 2:
			s, err := util.Interpolate("a ? ? ?", args[:3])
			return s + fmt.Sprint(err != nil, len(util.ArgsFlatted(args...)))
		}
		q, _, err := sqlf.Ff("#join('#f',',')", t.Column("a"), t, t.AppliedName(), t.AnonymousColumn("b")).BuildQuery(syntax.Dollar)
		return q + fmt.Sprint(err != nil)
	}
	want := run()
	v.Observe("r", want)
	v.Concurrent([]any{args, t}, func() { v.Assert(run() == want, "a call at the same time as others gives another result") })
	v.Cover("helpers")
}

// ---- C13 ----

func C13_builds() {
	nb := v.Pick(2, 3)
	v.Bound("2.." + v.Itoa(nb) + " builds into one context (or contexts derived from it) of fragments with 0..1 args (values 0..1) and 0..1 children with an arg, in both orders, an incomplete #join, or a #join of 2 args")
	style := styleOf(v.Choice(2))
	root := sqlf.NewContext(style)
	derived, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"fn": func(ctx *sqlf.Context) string { return ctx.CommitArg(1) }})
	v.Assert(err == nil, "functions are not accepted")
	var all []tok
	text := ""
	var lists, copies [][]any
	for k := v.Choice(nb-1) + 2; k > 0; k-- {
		ctx := root
		if v.Bool() {
			ctx = derived
		}
		var n *node
		switch v.Choice(3) {
		case 0:
			n = &node{args: intArgs(v.Choice(2), 1), segs: []seg{txt("t ")}}
			if v.Bool() {
				n.kids = []*node{{args: intArgs(1, 1), segs: []seg{txt("k"), ref(sQ, 0)}}}
				if len(n.args) > 0 && v.Bool() {
					n.segs = append(n.segs, ref(sFCall, 1), txt(","))
				}
			}
			n.needRefs()
		case 1:
			// an item of the #join is taken back: f4 needs an argument 4
			n = &node{args: intArgs(1, 1), segs: []seg{join([]seg{ref(sDynF, 0), txt("="), ref(sArgN, 1), ref(sDynArg, 0)}, ",")}}
			n.kids = []*node{{args: intArgs(1, 1), segs: []seg{ref(sQ, 0)}}, {args: intArgs(1, 1), segs: []seg{ref(sQ, 0)}}}
			n.segs = append(n.segs, ref(sFN, 2))
		case 2:
			n = &node{args: []any{v.Int(0, 1), []byte("x")}, segs: []seg{join([]seg{ref(sDynArg, 0)}, ",")}}
		}
		ts, e := n.eval()
		q, err := n.fragment().BuildFragment(ctx)
		v.Assert((err == nil) == (e == evOK), "a build into a used context fails or not, other than into a new one")
		if err != nil {
			v.Assume(false)
		}
		text += q + ";"
		all = append(append(all, ts...), tok{text: ";"})
		if ctx == derived && v.Bool() {
			q, err = sqlf.F("#fn()").BuildFragment(ctx)
			v.Assert(err == nil, "a function of the derived context fails")
			text += q + ";"
			all = append(all, tok{isArg: true, arg: 1}, tok{text: ";"})
		}
		// what was committed keeps its position, also in lists taken before
		lists = append(lists, root.Args())
		copies = append(copies, append([]any{}, root.Args()...))
		for i, l := range lists {
			v.Assert(len(l) <= len(root.Args()), "a list of arguments shrinks")
			for j := range l {
				v.Assert(same(l[j], copies[i][j]) && same(root.Args()[j], copies[i][j]), "a committed argument changes")
			}
		}
		v.Assert(len(derived.Args()) == len(root.Args()), "a derived context has another list")
	}
	v.Observe("text", text)
	checkDenotes(text, root.Args(), all, style, "builds into one context")
	checkExact(text, root.Args(), all, style, "builds into one context")
	v.Cover("accumulated")
}

// a failed build leaves what was built before intact
func C13_failed() {
	v.Bound("a build, a failing build that commits 0..3 args, and a further build, into one context, values 0..1")
	style := styleOf(v.Choice(2))
	ctx := sqlf.NewContext(style)
	a := intArgs(3, 1)
	one := &node{args: a[:2], segs: []seg{ref(sQ, 0), txt(","), ref(sQ, 0)}}
	q1, err := one.fragment().BuildFragment(ctx)
	v.Assert(err == nil, "fails")
	bad := sqlf.Fa([]string{"$1 $2 $3", "#join('#arg',',',1,9)", "#f1", "#join('#arg #f',',') #f1", "$1 '"}[v.Choice(5)], intArgs(2, 1)...)
	if v.Bool() {
		bad = sqlf.Ff("#f1 #join('#f',',')", sqlf.Fa("?", v.Int(0, 1)), bad)
	}
	_, err = bad.BuildFragment(ctx)
	v.Assert(err != nil, "an invalid fragment builds")
	two := &node{args: a[1:], segs: []seg{ref(sDollar, 2), txt(","), ref(sDollar, 1)}}
	q2, err := two.fragment().BuildFragment(ctx)
	v.Assert(err == nil, "fails after a failed build")
	v.Observe("q", q1+q2)
	if style == syntax.Dollar {
		t1, _ := one.eval()
		t2, _ := two.eval()
		checkDenotes(q1+q2, ctx.Args(), append(t1, t2...), style, "after a failed build")
	}
	args := ctx.Args()
	v.Assert(len(args) >= 1 && same(args[0], a[0]), "a committed argument changes")
	v.Cover("failed")
}

// ---- C14 ----

func C14_names() {
	n := v.Pick(3, 4)
	v.Bound("names of 0.." + v.Itoa(n) + " arbitrary bytes, and of 0..3 over an alphabet of parts of multi-byte characters")
	name := ""
	if v.Bool() {
		name = v.Str(0, n, "")
	} else {
		name = v.Str(0, 3, "a_\xc3\xa9\xd7\xb7\x80\xe4\xb8\xad")
	}
	ok := len(name) > 0
	for _, r := range name {
		if r != '_' && !isLetter(r) {
			ok = false
		}
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{name: func() string { return "called" }})
	v.Observe("ok", fmt.Sprint(err == nil))
	v.Assert((err == nil) == ok, "a name is accepted or rejected other than documented")
	ascii := ok
	for i := 0; i < len(name); i++ {
		if name[i] >= 0x80 {
			ascii = false
		}
	}
	if ascii {
		q, err := sqlf.F("#" + name + "()").BuildFragment(ctx)
		v.Assert(err == nil && q == "called", "a registered function is not found")
	}
	v.Cover("names")
}

type (
	namedString string
	namedBool   bool
	namedFloat  float32
	iface       interface{ M() }
)

type ownErr struct{}

func (ownErr) Error() string { return "" }

func signatures() (good, bad []any) {
	good = []any{
		func() {}, func() string { return "" }, func() (string, error) { return "", nil },
		func(int) {}, func(int8, int16, int32, int64) {}, func(uint, uint8, uint16, uint32, uint64) string { return "" },
		func(float32, float64) {}, func(string, bool) (string, error) { return "", nil },
		func(*sqlf.Context) {}, func(*sqlf.Context, int) (string, error) { return "", nil }, func(*sqlf.Context, ...string) string { return "" },
		func(...int) {}, func(string, ...bool) (string, error) { return "", nil },
		func(namedInt, namedString, namedBool, namedFloat) string { return "" }, func(rune, byte) string { return "" },
	}
	bad = []any{
		nil, 1, "f", struct{}{}, &num1, []int{}, errPlain,
		func() int { return 0 }, func() error { return nil }, func() namedString { return "" }, func() (string, string) { return "", "" },
		func() (error, string) { return nil, "" }, func() (string, error, int) { return "", nil, 0 }, func() (string, ownErr) { return "", ownErr{} }, func() any { return nil }, func() []byte { return nil },
		func(any) {}, func(error) {}, func(iface) {}, func([]int) {}, func(*int) {}, func(map[string]int) {}, func(struct{}) {}, func(complex128) {}, func(uintptr) {}, func(func()) {}, func(chan int) {}, func([2]int) {},
		func(int, *sqlf.Context) {}, func(*sqlf.Context, *sqlf.Context) {}, func(sqlf.Context) {}, func(...*sqlf.Context) {}, func(...any) {}, func(...[]string) {}, func(string, ...any) string { return "" },
	}
	return
}

func C14_signatures() {
	good, bad := signatures()
	v.Bound(v.Itoa(len(good)) + " accepted and " + v.Itoa(len(bad)) + " unaccepted kinds of values, alone and together with another, with any iteration order")
	v.MapOrder()
	k := v.Choice(len(good) + len(bad))
	var f any
	if k < len(good) {
		f = good[k]
	} else {
		f = bad[k-len(good)]
	}
	m := sqlf.FuncMap{"fn": f}
	ok := k < len(good)
	j := v.Choice(5)
	switch j {
	case 1:
		m["other"] = func() string { return "o" }
	case 2:
		m["other"] = 5
		ok = false
	case 3:
		m["not valid"] = func() {}
		ok = false
	case 4:
		m["join"] = func() string { return "j" }
	}
	base := sqlf.NewContext(syntax.Dollar)
	ctx, err := sqlf.ContextWithFuncs(base, m)
	v.Observe("ok", fmt.Sprint(err == nil))
	v.Assert((err == nil) == ok, "a function is accepted or rejected other than documented")
	if j == 1 {
		q, berr := "", error(nil)
		panicked, _ := v.Catch(func() { q, berr = sqlf.F("#other()").BuildFragment(ctx) })
		v.Assert(!panicked, "building panics")
		v.Assert(ok == (berr == nil), "a part of the functions is registered")
		v.Assert(!ok || q == "o", "a registered function is not called")
	}
	if j == 4 && ok {
		q, err := sqlf.F("#join()").BuildFragment(ctx)
		v.Assert(err == nil && q == "j", "a function of a derived context does not win")
	}
	_, err = sqlf.F("#fn()").BuildFragment(base)
	v.Assert(err != nil, "a function is added to the context that another was derived from")
	v.Cover("signatures")
}

// two functions, either of which is bad: never half
func C14_order() {
	v.Bound("maps of 2..3 functions with one invalid entry, any iteration order")
	v.MapOrder()
	m := sqlf.FuncMap{"a": func() string { return "a" }, "b": func() string { return "b" }}
	switch v.Choice(3) {
	case 0:
		m["c"] = 1
	case 1:
		m["c1"] = func() {}
	case 2:
		m["c"] = func(any) {}
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), m)
	v.Assert(err != nil, "an invalid function is accepted")
	name := []string{"a", "b"}[v.Choice(2)]
	var berr error
	panicked, _ := v.Catch(func() { _, berr = sqlf.F("#" + name + "()").BuildFragment(ctx) })
	v.Assert(!panicked, "building panics")
	v.Assert(berr != nil, "a part of the functions is registered")
	v.Cover("order")
}

// ---- C15 ----

// number arguments arrive as the parameter's type
func C15_numbers() {
	v.Bound("a call with a number of 1..4 digits, of which the last is symbolic, with an optional sign, for each numeric parameter type that can hold it")
	neg := v.Bool()
	heads := []string{"", "1", "12", "25", "9", "409", "1000"}
	digits := heads[v.Choice(v.Pick(5, 7))] + v.Str(1, 1, "0123456789")
	val := 0
	for i := 0; i < len(digits); i++ {
		val = val*10 + int(digits[i]-'0')
	}
	s := digits
	if neg {
		s = "-" + s
		val = -val
	}
	var got []any
	add := func(x any) string { got = append(got, x); return "r" }
	k := v.Choice(14)
	fs := []any{
		func(x int) string { return add(int64(x)) }, func(x int8) string { return add(int64(x)) }, func(x int16) string { return add(int64(x)) },
		func(x int32) string { return add(int64(x)) }, func(x int64) string { return add(x) }, func(x uint) string { return add(int64(x)) },
		func(x uint8) string { return add(int64(x)) }, func(x uint16) string { return add(int64(x)) }, func(x uint32) string { return add(int64(x)) },
		func(x uint64) string { return add(int64(x)) }, func(x float32) string { return add(int64(x)) }, func(x float64) string { return add(int64(x)) },
		func(x namedInt) string { return add(int64(x)) }, func(x ...int16) string {
			if len(x) != 1 {
				return "len"
			}
			return add(int64(x[0]))
		},
	}
	if k >= 5 && k <= 9 {
		v.Assume(val >= 0)
	}
	if k == 1 {
		v.Assume(val >= -128 && val <= 127)
	}
	if k == 6 {
		v.Assume(val <= 255)
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": fs[k]})
	v.Assert(err == nil, "function not accepted")
	raw := "#fn(" + s + ")"
	if !neg && v.Bool() {
		raw = "#fn" + s
	}
	q, err := sqlf.F(raw).BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert(err == nil && q == "r" && len(got) == 1, "a call with a number fails")
	v.Assert(got[0].(int64) == int64(val), "a number arrives as another")
	v.Cover("numbers")
}

// each type of parameter takes its kind of argument, and no other
func C15_params() {
	v.Bound("functions with one parameter (or variadic, or after the context) of any of 19 types, called with an argument of any of 4 kinds in one of 12 spellings: accepted exactly when the kinds match, and the value arrives")
	args := []string{"true", "false", "nil", "null", "''", "'1'", "'true'", "0", "1", "7", "100", "-1"}
	kinds := "bbzzsssnnnnn"
	vals := []any{true, false, nil, nil, "", "1", "true", 0, 1, 7, 100, -1}
	var got []any
	add := func(x any) string { got = append(got, x); return "r" }
	types := "nnnnnnnnnnnnnsssbbb"
	fs := []any{
		func(x int) string { return add(x) }, func(x int8) string { return add(int(x)) }, func(x int16) string { return add(int(x)) },
		func(x int32) string { return add(int(x)) }, func(c *sqlf.Context, x int64) string { return add(int(x)) }, func(x uint) string { return add(int(x)) },
		func(x uint8) string { return add(int(x)) }, func(x uint16) string { return add(int(x)) }, func(x uint32) string { return add(int(x)) },
		func(x uint64) string { return add(int(x)) }, func(x float32) string { return add(int(x)) }, func(c *sqlf.Context, x ...float64) string { return add(int(x[0])) },
		func(x namedInt) string { return add(int(x)) },
		func(x string) string { return add(x) }, func(x namedString) string { return add(string(x)) }, func(x ...string) string { return add(x[0]) },
		func(x bool) string { return add(x) }, func(x namedBool) (string, error) { return add(bool(x)), nil }, func(c *sqlf.Context, x ...bool) string { return add(x[0]) },
	}
	k, a := v.Choice(len(fs)), v.Choice(len(args))
	v.Assume(args[a] != "-1" || k < 5 || k > 9) // not into unsigned
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": fs[k]})
	v.Assert(err == nil, "function not accepted")
	raw := "#fn(" + args[a] + ")"
	if args[a] == "7" && v.Bool() {
		raw = "#fn7"
	}
	q, err := sqlf.F(raw).BuildFragment(ctx)
	v.Observe("q", q)
	ok := types[k] == kinds[a]
	v.Assert((err == nil) == ok, "a call is accepted or rejected other than its argument calls for")
	if ok {
		v.Assert(q == "r" && len(got) == 1 && got[0] == vals[a], "an argument arrives as another")
	} else {
		v.Assert(len(got) == 0, "a function is called with a wrong argument")
	}
	v.Cover("params")
}

// fractions arrive as they are, wherever they are
func C15_floats() {
	v.Bound("calls with 1..3 fractional numbers (6 spellings; one of them with a symbolic digit) to functions with 6 lists of float32, float64 and named float parameters, variadic or not")
	raws := []string{"0.5", "-2.25", "1.5", "100.125", "3", "0.0"}
	vals := []float64{0.5, -2.25, 1.5, 100.125, 3, 0}
	var got []float64
	add := func(x ...float64) string { got = append(got, x...); return "r" }
	fs := []any{
		func(x float64) string { return add(x) },
		func(x float32) string { return add(float64(x)) },
		func(x namedFloat) string { return add(float64(x)) },
		func(x float32, y float64) string { return add(float64(x), y) },
		func(x ...float32) string {
			for _, x := range x {
				add(float64(x))
			}
			return "r"
		},
		func(c *sqlf.Context, x float64, y ...namedFloat) string {
			add(x)
			for _, y := range y {
				add(float64(y))
			}
			return "r"
		},
	}
	k := v.Choice(len(fs))
	n := 1
	switch k {
	case 3:
		n = 2
	case 4, 5:
		n = v.Choice(3) + 1
	}
	raw := "#fn("
	var want []float64
	for i := 0; i < n; i++ {
		if i > 0 {
			raw += ","
		}
		if i == n-1 && v.Bool() {
			d := v.Str(1, 1, "0123456789")
			raw += d + ".5"
			want = append(want, float64(d[0]-'0')+0.5)
			continue
		}
		j := v.Choice(len(raws))
		raw += raws[j]
		want = append(want, vals[j])
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": fs[k]})
	v.Assert(err == nil, "function not accepted")
	q, err := sqlf.F(raw + ")").BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert(err == nil && q == "r" && len(got) == len(want), "a call with fractions fails")
	for i := range want {
		v.Assert(got[i] == want[i], "a fraction arrives as another number")
	}
	v.Cover("floats")
}

// many arguments
func C15_many() {
	v.Bound("calls with 4, 5, 8, 9 or 17 arguments of one kind, one of them (any) with another value (strings: empty or 1 arbitrary byte; numbers; bools), to variadic functions with 0..2 fixed parameters before, after the context or not")
	n := []int{4, 5, 8, 9, 17}[v.Choice(5)]
	kind := v.Choice(3)
	odd := v.Choice(n)
	var got []string
	str := func(s string) { got = append(got, s) }
	num := func(i int) { str(v.Itoa(i)) }
	bol := func(b bool) { str(fmt.Sprint(b)) }
	var fs []any
	switch kind {
	case 0:
		all := func(x []string) string {
			for _, x := range x {
				str(x)
			}
			return "r"
		}
		fs = []any{func(x ...string) string { return all(x) }, func(a string, x ...string) string { str(a); return all(x) },
			func(c *sqlf.Context, a namedString, b string, x ...string) string {
				str(string(a))
				str(b)
				return all(x)
			}}
	case 1:
		all := func(x []int8) string {
			for _, x := range x {
				num(int(x))
			}
			return "r"
		}
		fs = []any{func(x ...int8) string { return all(x) }, func(a float64, x ...int8) string { num(int(a)); return all(x) },
			func(c *sqlf.Context, a uint, b namedInt, x ...int8) string { num(int(a)); num(int(b)); return all(x) }}
	case 2:
		all := func(x []bool) string {
			for _, x := range x {
				bol(x)
			}
			return "r"
		}
		fs = []any{func(x ...bool) string { return all(x) }, func(a bool, x ...bool) string { bol(a); return all(x) },
			func(c *sqlf.Context, a namedBool, b bool, x ...bool) string { bol(bool(a)); bol(b); return all(x) }}
	}
	raw := "#fn("
	var want []string
	for i := 0; i < n; i++ {
		if i > 0 {
			raw += ","
		}
		switch kind {
		case 0:
			s := "k" + v.Itoa(i)
			if i == odd {
				s = v.Str(0, 1, "")
			}
			raw += quoted(s)
			want = append(want, s)
		case 1:
			x := i
			if i == odd {
				x = v.Int(0, 9)
			}
			raw += v.Itoa(x)
			want = append(want, v.Itoa(x))
		case 2:
			s := fmt.Sprint(i%2 == 0 != (i == odd))
			raw += s
			want = append(want, s)
		}
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": fs[v.Choice(3)]})
	v.Assert(err == nil, "function not accepted")
	q, err := sqlf.F(raw + ")").BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert(err == nil && q == "r" && len(got) == len(want), "a call with many arguments fails")
	for i := range want {
		v.Assert(got[i] == want[i], "an argument arrives as another")
	}
	v.Cover("many")
}

// numbers at the limits of the types
func C15_limits() {
	v.Bound("13 numbers at the limits of what the numeric types and their common representations hold (symbolic last digit for some)")
	var got any
	d := v.Str(1, 1, "0123456789")
	n := int64(d[0] - '0')
	type tc struct {
		raw  string
		f    any
		want any
	}
	cs := []tc{
		{"127", func(x int8) { got = x }, int8(127)},
		{"-128", func(x int8) { got = x }, int8(-128)},
		{"255", func(x uint8) { got = x }, uint8(255)},
		{"32767", func(x int16) { got = x }, int16(32767)},
		{"65535", func(x uint16) { got = x }, uint16(65535)},
		{"2147483647", func(x int32) { got = x }, int32(2147483647)},
		{"4294967295", func(x uint32) { got = x }, uint32(4294967295)},
		{"1677721" + d, func(x int) { got = int64(x) }, 16777210 + n},
		{"1677721" + d, func(x float64) { got = int64(x) }, 16777210 + n},
		{"900719925474098" + d, func(x int64) { got = x }, 9007199254740980 + n},
		{"-429496729" + d, func(x ...int) { got = int64(x[0]) }, -4294967290 - n},
		{"429496729" + d, func(c *sqlf.Context, x uint64) { got = int64(x) }, 4294967290 + n},
		{"900719925474098" + d, func(x float64) { got = int64(x) }, 9007199254740980 + n},
	}
	c := cs[v.Choice(len(cs))]
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": c.f})
	v.Assert(err == nil, "function not accepted")
	_, err = sqlf.F("#fn(" + c.raw + ")").BuildFragment(ctx)
	v.Assert(err == nil && got == c.want, "a number arrives as another")
	v.Cover("limits")
}

// strings arrive decoded, results become the text
func C15_strings() {
	n := v.Pick(3, 4)
	v.Bound("string arguments of 0.." + v.Itoa(n) + " arbitrary bytes, results of 0..2 arbitrary bytes")
	arg := v.Str(0, n, "")
	res := v.Str(0, 2, "")
	var got []string
	kind := v.Choice(4)
	fs := []any{
		func(s string, b bool) string { got = append(got, s); return res },
		func(s namedString, b namedBool) (string, error) { got = append(got, string(s)); return res, nil },
		func(ctx *sqlf.Context, s ...string) string { got = append(got, s...); return res },
		func(ctx *sqlf.Context, s string, i ...float64) (string, error) { got = append(got, s); return res, nil },
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": fs[kind]})
	v.Assert(err == nil, "function not accepted")
	raw := "[#fn(" + quoted(arg)
	switch kind {
	case 0, 1:
		raw += ", true"
	case 2:
		raw += ",'x', 'y'"
	case 3:
		raw += ", 1,2.5"
	}
	q, err := sqlf.F(raw + ")]").BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert(err == nil, "a call with a string fails")
	v.Assert(q == "["+res+"]", "the result of a function does not become the text")
	v.Assert(len(got) > 0 && got[0] == arg, "a string arrives as another")
	v.Assert(kind != 2 || len(got) == 3 && got[1] == "x" && got[2] == "y", "further arguments do not arrive in order")
	v.Cover("strings")
}

// arguments in order, wrong kinds and numbers of arguments
func C15_kinds() {
	m := v.Pick(3, 4)
	v.Bound("calls with 0.." + v.Itoa(m) + " arguments of any of 4 kinds (number, string, bool, nil) to functions with 9 parameter lists")
	var got []string
	num := func(i int) { got = append(got, "n"+v.Itoa(i)) }
	str := func(s string) { got = append(got, "s"+s) }
	bol := func(b bool) { got = append(got, "b"+fmt.Sprint(b)) }
	type sig struct {
		f     any
		fixed string
		varia byte
	}
	sigs := []sig{
		{func() string { return "r" }, "", 0},
		{func(a int) string { num(a); return "r" }, "n", 0},
		{func(a string) string { str(a); return "r" }, "s", 0},
		{func(c *sqlf.Context, a bool, b int8) string { bol(a); num(int(b)); return "r" }, "bn", 0},
		{func(a, b float32, s string) (string, error) { num(int(a)); num(int(b)); str(s); return "r", nil }, "nns", 0},
		{func(a ...int) string {
			for _, x := range a {
				num(x)
			}
			return "r"
		}, "", 'n'},
		{func(c *sqlf.Context, s string, a ...uint) string {
			str(s)
			for _, x := range a {
				num(int(x))
			}
			return "r"
		}, "s", 'n'},
		{func(i int, a ...string) string {
			num(i)
			for _, x := range a {
				str(x)
			}
			return "r"
		}, "n", 's'},
		{func(c *sqlf.Context, a ...bool) string {
			for _, x := range a {
				bol(x)
			}
			return "r"
		}, "", 'b'},
	}
	s := sigs[v.Choice(len(sigs))]
	kinds := ""
	var want []string
	raw := "#fn("
	for i, n := 0, v.Choice(m+1); i < n; i++ {
		if i > 0 {
			raw += ", "
		}
		switch v.Choice(4) {
		case 0:
			d := v.Int(0, 9)
			raw += v.Itoa(d)
			want = append(want, "n"+v.Itoa(d))
			kinds += "n"
		case 1:
			t := v.Str(1, 1, "")
			raw += quoted(t)
			want = append(want, "s"+t)
			kinds += "s"
		case 2:
			if v.Bool() {
				raw += "true"
				want = append(want, "btrue")
			} else {
				raw += "false"
				want = append(want, "bfalse")
			}
			kinds += "b"
		case 3:
			raw += []string{"nil", "null"}[i%2]
			kinds += "z"
		}
	}
	ok := len(kinds) >= len(s.fixed) && (s.varia != 0 || len(kinds) == len(s.fixed))
	for i := 0; ok && i < len(kinds); i++ {
		if i < len(s.fixed) {
			ok = kinds[i] == s.fixed[i]
		} else {
			ok = kinds[i] == s.varia
		}
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": s.f})
	v.Assert(err == nil, "function not accepted")
	q, err := sqlf.F(raw + ")").BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert((err == nil) == ok, "a call is accepted or rejected other than its arguments call for")
	if ok {
		v.Assert(q == "r" && len(got) == len(want), "a function is not called once with all arguments")
		for i := range want {
			v.Assert(got[i] == want[i], "an argument arrives as another")
		}
	} else {
		v.Assert(len(got) == 0, "a function is called with wrong arguments")
	}
	v.Cover("kinds")
}

// chains of contexts: the nearest function wins, outer ones are not changed
func C15_chain() {
	d := v.Pick(3, 4)
	v.Bound("chains of 1.." + v.Itoa(d) + " derived contexts, each defining any of 3 names (one of them that of a built-in function), called at each of the contexts, directly or from a fragment in a fragment or in a #join")
	names := []string{"one", "two", "f"}
	ctxs := []*sqlf.Context{sqlf.NewContext(syntax.Question)}
	defs := [][]bool{{false, false, false}}
	n := v.Choice(d) + 1
	for i := 1; i <= n; i++ {
		m := sqlf.FuncMap{}
		def := []bool{false, false, false}
		for j, name := range names {
			if v.Bool() {
				def[j] = true
				r := name + "@" + v.Itoa(i)
				m[name] = func(k int) (string, error) {
					if k != 1 {
						return "", sqlf.ErrInvalidIndex
					}
					return r, nil
				}
			}
		}
		c, err := sqlf.ContextWithFuncs(ctxs[i-1], m)
		v.Assert(err == nil, "functions are not accepted")
		ctxs = append(ctxs, c)
		defs = append(defs, def)
	}
	at := v.Choice(n + 1)
	which := v.Choice(3)
	want := ""
	for i := at; i > 0 && want == ""; i-- {
		if defs[i][which] {
			want = names[which] + "@" + v.Itoa(i)
		}
	}
	call := "#" + names[which] + "1"
	var f *sqlf.Fragment
	form := v.Choice(3)
	leaf := sqlf.F("leaf")
	switch form {
	case 0:
		f = sqlf.F(call)
	case 1:
		f = sqlf.F(call)
		if which == 2 && want == "" {
			f.WithFragments(leaf)
		}
		f = sqlf.Ff("#fragment1", f)
	case 2:
		f = sqlf.F("#join('#" + names[which] + "','')")
	}
	if which == 2 && want == "" {
		if form != 1 {
			f.WithFragments(leaf)
		}
		want = "leaf"
	}
	q, err := f.BuildFragment(ctxs[at])
	v.Observe("q", q)
	v.Assert((err == nil) == (want != ""), "a function is found or not, other than it is defined")
	v.Assert(want == "" || q == want, "not the nearest function is called")
	v.Cover("chain")
}

// within builds the part f with a context of its own, with the functions m added
type within struct {
	m sqlf.FuncMap
	f sqlf.FragmentBuilder
}

func (w *within) BuildFragment(ctx *sqlf.Context) (string, error) {
	ctx, err := sqlf.ContextWithFuncs(ctx, w.m)
	if err != nil {
		return "", err
	}
	return w.f.BuildFragment(ctx)
}

// contexts derived from the same one do not see the functions of each other, whatever was called before
func C15_siblings() {
	m := v.Pick(2, 3)
	v.Bound("sequences of 1.." + v.Itoa(m) + " calls of a function (directly, in a #join, in a nested fragment) in any of 5 contexts of a tree (a name is defined in all, some or none of them), each context on its own or entered within one build")
	def := make([]bool, 5)
	maps := make([]sqlf.FuncMap, 5)
	result := []string{"r0", "r1", "r2", "r3", "r4"}
	for i := range def {
		def[i] = v.Bool()
		maps[i] = sqlf.FuncMap{}
		if def[i] {
			r := result[i]
			maps[i]["fn"] = func(k int) (string, error) {
				if k != 1 {
					return "", sqlf.ErrInvalidIndex
				}
				return r, nil
			}
		}
	}
	// 0 is the parent of 1 and 2, 1 is the parent of 3 and 4
	parent := []int{-1, 0, 0, 1, 1}
	ctxs := make([]*sqlf.Context, 5)
	for i := range ctxs {
		base := sqlf.NewContext(syntax.Question)
		if i > 0 {
			base = ctxs[parent[i]]
		}
		c, err := sqlf.ContextWithFuncs(base, maps[i])
		v.Assert(err == nil, "functions are not accepted")
		ctxs[i] = c
	}
	one := v.Bool()
	forms := []*sqlf.Fragment{sqlf.F("#fn1"), sqlf.F("#join('#fn','')"), sqlf.Ff("#f1", sqlf.F("#fn(1)"))}
	form := forms[v.Choice(3)]
	var parts []sqlf.FragmentBuilder
	want, fails := "", false
	for k := v.Choice(m) + 1; k > 0; k-- {
		at := v.Choice(5)
		r := ""
		for i := at; i >= 0 && r == ""; i = parent[i] {
			if def[i] {
				r = result[i]
			}
		}
		if one {
			var p sqlf.FragmentBuilder = form
			for i := at; i > 0; i = parent[i] {
				p = &within{maps[i], p}
			}
			parts = append(parts, p)
			want += r
			fails = fails || r == ""
			continue
		}
		q, err := form.BuildFragment(ctxs[at])
		v.Observe("q", q)
		v.Assert((err == nil) == (r != ""), "a function is found or not, other than it is defined in the context and those it is derived from")
		v.Assert(r == "" || q == r, "a function of another context is called")
	}
	if one {
		q, err := sqlf.F("#join('#f','')").WithFragments(parts...).BuildFragment(ctxs[0])
		v.Observe("q", q)
		v.Assert((err == nil) == !fails, "a function is found or not within a build, other than it is defined in the context and those it is derived from")
		v.Assert(fails || q == want, "a function of another context is called within a build")
	}
	v.Cover("siblings")
}

// a function that takes the context gets that of the calling fragment, errors and panics fail
func C15_context() {
	v.Bound("functions that build other fragments with their context (with functions of inner and outer contexts), that fail or panic with values of 4 kinds")
	style := styleOf(v.Choice(2))
	a := v.Int(0, 3)
	inner := sqlf.Fa("in #who() ?", a)
	outer, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{
		"who":  func() string { return "outer" },
		"call": func(ctx *sqlf.Context) (string, error) { return inner.BuildFragment(ctx) },
		"bad": func(ctx *sqlf.Context, k int) string {
			switch k {
			case 1:
				panic("text")
			case 2:
				panic(errPlain)
			case 3:
				panic(5)
			case 4:
				var p *pair
				return p.b
			case 5:
				var m []int
				return v.Itoa(m[k])
			}
			return "fine"
		},
	})
	v.Assert(err == nil, "functions are not accepted")
	ctx := outer
	who := "outer"
	if v.Bool() {
		who = "inner"
		ctx, err = sqlf.ContextWithFuncs(outer, sqlf.FuncMap{"who": func() (string, error) { return "inner", nil }})
		v.Assert(err == nil, "functions are not accepted")
	}
	f := sqlf.Ff("#arg1 #call() #f1", sqlf.F("#call()")).WithArgs(7)
	ph := func(n int) string {
		if style == syntax.Dollar {
			return "$" + v.Itoa(n)
		}
		return "?"
	}
	q, err := f.BuildFragment(ctx)
	v.Observe("q", q)
	v.Assert(err == nil, "a call of a function that builds fragments fails")
	v.Assert(q == ph(1)+" in "+who+" "+ph(2)+" in "+who+" "+ph(2), "a function does not get the context of the caller")
	v.Assert(ctx.Args()[1] == a, "an argument committed by a function is another")
	k := v.Int(0, 5)
	q, err = sqlf.F("x#bad(" + v.Itoa(k) + ")").BuildFragment(ctx)
	v.Assert((err != nil) == (k > 0), "a panic of a function is not an error")
	v.Assert(k > 0 || q == "xfine", "the result of a function does not become the text")
	v.Assert(k != 2 || errors.Is(err, errPlain), "the error of a panic does not match")
	_, err = sqlf.F("#inneronly()").BuildFragment(ctx)
	v.Assert(err != nil, "an unknown function is not an error")
	v.Cover("context")
}

// ---- C16 ----

// any sequence of setters on two fragments made from the same slices
func C16_setters() {
	m := v.Pick(3, 4)
	v.Bound("sequences of 0.." + v.Itoa(m) + " setter calls on two fragments created from the same slices of 0..2 elements with 0..3 spare capacity")
	n := v.Choice(3)
	sp := v.Choice(4)
	base := make([]any, n, n+sp)
	fbase := make([]sqlf.FragmentBuilder, n, n+sp)
	x := []*sqlf.Fragment{sqlf.F("0"), sqlf.F("1"), sqlf.F("2"), sqlf.F("3")}
	for i := 0; i < n; i++ {
		base[i], fbase[i] = i, x[i]
	}
	mk := func() *sqlf.Fragment {
		return sqlf.Fa("r", base...).WithFragments(fbase...)
	}
	fs := []*sqlf.Fragment{mk(), {Raw: "r", Args: base, Fragments: fbase}}
	type model struct {
		args     []any
		frags    []sqlf.FragmentBuilder
		pre, suf string
	}
	ms := []*model{{args: append([]any{}, base...), frags: append([]sqlf.FragmentBuilder{}, fbase...)}, {args: append([]any{}, base...), frags: append([]sqlf.FragmentBuilder{}, fbase...)}}
	for k := v.Choice(m + 1); k > 0; k-- {
		i := v.Choice(2)
		f, md := fs[i], ms[i]
		val := v.Int(10, 20)
		var r *sqlf.Fragment
		switch v.Choice(8) {
		case 0:
			r = f.AppendArgs(val)
			md.args = append(md.args, val)
		case 1:
			r = f.AppendArgs(val, nil)
			md.args = append(md.args, val, nil)
		case 2:
			r = f.AppendFragments(x[3])
			md.frags = append(md.frags, x[3])
		case 3:
			r = f.AppendFragments(x[2], x[3])
			md.frags = append(md.frags, x[2], x[3])
		case 4:
			r = f.WithArgs(val, "b")
			md.args = []any{val, "b"}
		case 5:
			r = f.WithFragments(x[1])
			md.frags = []sqlf.FragmentBuilder{x[1]}
		case 6:
			p := v.Str(0, 1, "")
			r = f.WithPrefix(p)
			md.pre = p
		case 7:
			r = f.WithSuffix("S")
			md.suf = "S"
		}
		v.Assert(r == f, "a setter returns another fragment")
	}
	for i, f := range fs {
		md := ms[i]
		v.Assert(f.Raw == "r" && f.Prefix == md.pre && f.Suffix == md.suf, "a setter changes something else")
		v.Assert(len(f.Args) == len(md.args), "args: another number than set")
		for j := range md.args {
			v.Assert(same(f.Args[j], md.args[j]), "args: others than set")
		}
		v.Assert(len(f.Fragments) == len(md.frags), "fragments: another number than set")
		for j := range md.frags {
			v.Assert(f.Fragments[j] == md.frags[j], "fragments: others than set")
		}
	}
	for i := 0; i < n+sp; i++ {
		a, g := base[:n+sp][i], fbase[:n+sp][i]
		if i < n {
			v.Assert(same(a, i) && g == sqlf.FragmentBuilder(x[i]), "a setter writes into the caller's slice")
		} else {
			v.Assert(a == nil && g == nil, "a setter writes behind the caller's slice")
		}
	}
	v.Cover("setters")
}

// constructors set just what they are given
func C16_constructors() {
	n := v.Choice(4)
	raw := v.Str(0, 2, "")
	args := intArgs(n, 3)
	var fr []sqlf.FragmentBuilder
	for i := 0; i < n; i++ {
		fr = append(fr, sqlf.F("x"))
	}
	v.Bound("F, Fa, Ff with texts of 0..2 bytes and 0..3 elements, and any split of appends of 0..3 elements")
	a, b, c := sqlf.F(raw), sqlf.Fa(raw, args...), sqlf.Ff(raw, fr...)
	d := sqlf.F(raw)
	cut := v.Choice(n + 1)
	d.AppendArgs(args[:cut]...).AppendFragments(fr[:cut]...).AppendArgs(args[cut:]...).AppendFragments(fr[cut:]...)
	for i, f := range []*sqlf.Fragment{a, b, c, d} {
		v.Assert(f.Raw == raw && f.Prefix == "" && f.Suffix == "", "a constructor changes the text")
		na, nf := 0, 0
		if i == 1 || i == 3 {
			na = n
		}
		if i == 2 || i == 3 {
			nf = n
		}
		v.Assert(len(f.Args) == na && len(f.Fragments) == nf, "a constructor sets another number of elements")
		for j := 0; j < na; j++ {
			v.Assert(same(f.Args[j], args[j]), "a constructor sets other args")
		}
		for j := 0; j < nf; j++ {
			v.Assert(f.Fragments[j] == fr[j], "a constructor sets other fragments")
		}
	}
	// slices handed to appends stay the caller's
	e := sqlf.F(raw).AppendArgs(args...)
	e.AppendArgs(99)
	e.AppendArgs(98)
	for j := range args {
		v.Assert(same(args[j], b.Args[j]), "an append writes into the caller's slice")
	}
	v.Assert(len(e.Args) == n+2 && same(e.Args[n], 99) && same(e.Args[n+1], 98), "appends in sequence lose elements")
	v.Cover("constructors")
}

// functions named without being called
func C15_uncalled() {
	v.Bound("a function (of 8 signatures, or a built-in one) named without being called, with up to 2 bytes of any text before and after, in a fragment with or without args and fragments, or nested: an error, and no call")
	called := false
	call := func() string { called = true; return "r" }
	fs := []any{
		func() { call() }, func() string { return call() }, func() (string, error) { return call(), nil },
		func(...int) string { return call() }, func(*sqlf.Context) string { return call() }, func(c *sqlf.Context, x ...string) string { return call() },
		func(int) (string, error) { return call(), nil }, func(c *sqlf.Context, x ...int) (string, error) { return call(), nil },
	}
	k := v.Choice(len(fs) + 3)
	name := "fn"
	if k >= len(fs) {
		name = []string{"f", "arg", "join"}[k-len(fs)]
		k = 0
	}
	pre, post := v.Str(0, 1, ""), v.Str(0, v.Pick(1, 2), "")
	if len(pre) > 0 {
		c := pre[0]
		v.Assume(c != '\'' && c != '"' && c != '`' && c != '#' && c != '$' && c != '?')
	}
	if len(post) > 0 {
		c := post[0]
		v.Assume(c != '(' && c != '_' && !isDigit(c) && !(c|32 >= 'a' && c|32 <= 'z'))
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(styleOf(v.Choice(2))), sqlf.FuncMap{"fn": fs[k]})
	v.Assert(err == nil, "function not accepted")
	f := sqlf.F(pre + "#" + name + post)
	switch v.Choice(4) {
	case 1:
		f = sqlf.F("?#f1" + pre + "#" + name + post).WithArgs(1).WithFragments(sqlf.F("x"))
	case 2:
		f = sqlf.Ff("a#f1", f)
	case 3:
		f = sqlf.Ff("a#join('#f','')", sqlf.F("b"), f)
	}
	_, err = f.BuildFragment(ctx)
	v.Assert(err != nil, "a function named without a call is accepted")
	v.Assert(!called, "a function is called without a call")
	v.Cover("uncalled")
}
