package h

import (
	"errors"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// Larger inputs: sizes around powers of two and ten, with something symbolic
// at the first, a middle or the last place.

var larger = []int{3, 4, 5, 8, 9, 10, 16, 17, 33, 65, 100, 129, 256, 257, 300, 600, 1025}

// size is one of the first q (thorough: t) of larger.
func size(q, t int) (n int, upTo string) {
	k := v.Pick(q, t)
	return larger[v.Choice(k)], v.Itoa(larger[k-1])
}

func place(n int) int { return []int{0, n / 2, n - 1}[v.Choice(3)] }

// ends is near 0 or n.
func ends(n int) int { return v.Int(-1, 1) + (n-1)*v.Choice(2) }

func rep(s string, n int) string {
	r := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		r = append(r, s...)
	}
	return string(r)
}

// positions far from the start
func C05_far() {
	ns := []int{9, 10, 17, 33, 64, 65, 128, 129, 255, 256, 257, 512, 1024}
	k := v.Pick(12, len(ns))
	u := v.Choice(11)
	if u > 6 {
		k = v.Pick(6, 8) // each is a reference
	}
	n := ns[v.Choice(k)]
	v.Bound("up to " + v.Itoa(ns[k-1]) + " lines, characters (of 1..4 bytes), quoted lines, calls or doubled marks, then any byte or two, before references")
	unit := []string{"\n", "x", "\xc3\xa9", "\xe4\xb8\xad\n", "\xf0\x9f\x98\x80", "\r\n", "\t", "'\n'", "#f1\n", "??", "#f('\n',1)"}[u]
	b := v.Str(1, v.Pick(1, 2), "\nx\xc3\xa9\r")
	checkParse(rep(unit, n)+b+"#f2"+b+"?", false, false, false, true)
	v.Cover("far")
}

// long strings and names in calls
func C04_long() {
	n, up := size(15, 16)
	v.Bound("up to 100 references, or up to " + up + " for the length of a string argument, of a name or the number of arguments, with any byte (string, name) or kind (arguments) at the first, a middle or the last place")
	s := ""
	switch v.Choice(4) {
	case 0:
		v.Assume(n <= 100)
		at := place(n)
		for i := 0; i < n; i++ {
			if i == at {
				s += "#g" + v.Str(1, 1, "123 (a") + ","
			}
			s += "#f" + v.Itoa(i+1) + ","
		}
	case 1:
		at := place(n)
		s = "#f('" + rep("p", at) + v.Str(1, 1, "") + rep("q", n-at) + "', 1)"
	case 2:
		at := place(n)
		s = "#n" + rep("p", at) + v.Str(1, 1, "") + rep("q", n-at) + "(1)"
	case 3:
		at := place(n)
		s = "#f("
		for i := 0; i < n; i++ {
			a := v.Itoa(i)
			if i == at {
				a = []string{"'s'", "true", "nil", "-1", "null", "1 2", ""}[v.Choice(7)]
			}
			if i > 0 {
				s += ", "
			}
			s += a
		}
		s += ") #f9"
	}
	checkParse(s, true, true, true, true)
	v.Cover("long")
}

// one reference of the other style among many
func C06_many() {
	n, up := size(15, 16)
	v.Bound("up to " + up + " references of one style, and one of either at any of 4 places, in a text or a #join template")
	ref := []string{"$1", "?"}
	a, b := v.Choice(2), v.Choice(2)
	at := []int{0, n / 2, n - 1, n}[v.Choice(4)]
	s := ""
	for i := 0; i < n; i++ {
		if i == at {
			s += ref[b] + " "
		}
		s += ref[a] + " "
	}
	if at == n {
		s += ref[b] + " "
	}
	if v.Bool() {
		_, err := syntax.Parse(s)
		v.Assert((err != nil) == (a != b), "a text is accepted or rejected other than its references' styles tell")
		v.Cover("text")
		return
	}
	var args []any
	for i := 0; i < n+1 && a+b > 0; i++ {
		args = append(args, i)
	}
	if a+b == 0 {
		args = []any{1}
	}
	_, _, err := sqlf.Ff("#join('"+s+"#f', ';')", sqlf.F("x")).WithArgs(args...).BuildQuery(styleOf(v.Choice(2)))
	v.Assert((err != nil) == (a != b), "a template is accepted or rejected other than its references' styles tell")
	v.Cover("template")
}

// one of many parts fails
func C10_wide() {
	n, up := size(11, 13)
	v.Bound("up to " + up + " parts (fragments with an arg), side by side, in a #join or in one another, of which the one at any of 3 places fails in 6 ways at any of its calls")
	is, ret := failure(v.Choice(6))
	fs := &faults{at: v.Int(1, 1<<30), err: ret}
	at := place(n)
	part := func(i int) sqlf.FragmentBuilder {
		if i == at {
			return &maybe{fs, "m"}
		}
		return sqlf.Fa("p=?", i)
	}
	f := &sqlf.Fragment{}
	switch v.Choice(3) {
	case 0:
		for i := 0; i < n; i++ {
			f.AppendFragments(part(i))
			f.Raw += "#f" + v.Itoa(i+1) + ";"
		}
	case 1:
		for i := 0; i < n; i++ {
			f.AppendFragments(part(i))
		}
		f.Raw = "#join('#f',' AND ')"
	case 2:
		var in sqlf.FragmentBuilder = sqlf.F("end")
		for i := n - 1; i >= 0; i-- {
			in = sqlf.Ff("#f1(#f2)", part(i), in)
		}
		f = sqlf.Ff("#f1", in).WithSuffix("S")
	}
	q, args, err := f.BuildQuery(styleOf(v.Choice(2)))
	fs.check(q, args, err, is)
}

// chains of many fragments
func C11_deep() {
	n, up := size(11, 13)
	v.Bound("chains of up to " + up + " fragments, each with its own arg, of which the one at any of 3 places is special (8 ways), the innermost arg symbolic, equal to one of the first or last two or none")
	at := place(n)
	how := v.Choice(8)
	in := &node{segs: []seg{txt("end "), ref(sQ, 0)}, args: []any{ends(n)}}
	for i := n - 1; i >= 0; i-- {
		x := &node{args: []any{i}, kids: []*node{in}, segs: []seg{ref(sArgN, 1), txt("("), ref(sF(i), 1), txt(")")}}
		if i == at {
			switch how {
			case 0:
				x.prefix = "PRE"
			case 1:
				x.suffix = "SUF"
			case 2:
				x.prefix, x.segs = " PRE\t", []seg{txt(" \n"), ref(sFN, 1), txt(" ")}
				x.args = nil
			case 3:
				x.segs, x.args = []seg{join([]seg{ref(sDynF, 0)}, ",")}, nil
			case 4:
				x.kids = append(x.kids, &node{prefix: "no"}, &node{segs: []seg{ref(sQ, 0)}, args: []any{n}, prefix: "yes"})
				x.segs = append(x.segs, ref(sFragN, 2), txt(","), ref(sFragCall, 3))
			case 5:
				x.args = append(x.args, "second")
				x.segs = append(x.segs, ref(sArgCall, 2), ref(sArgN, 1))
			case 6:
				x.segs = append(x.segs, txt(" "), ref(sFCall, 1))
			case 7:
				x.segs = append(x.segs, ref(sArgN, 2))
			}
		}
		in = x
	}
	buildBoth(in, styleOf(v.Choice(2)), true, true, "a chain of fragments")
}

func sF(i int) segKind { return []segKind{sFN, sFCall, sFragN, sFragCall}[i%4] }

// many builds into one context
func C13_many() {
	n, up := size(14, 16)
	v.Bound("up to " + up + " builds into one context or contexts derived from it, one of them (at any of 3 places) with another fragment or an arg of symbolic value, equal to that of the first, the second, the last two or none")
	style := styleOf(v.Choice(2))
	ctx := sqlf.NewContext(style)
	root := ctx
	at, how := place(n), v.Choice(4)
	text := ""
	var want []tok
	var first []any
	for i := 0; i < n; i++ {
		x := &node{args: []any{i}, segs: []seg{txt("a="), ref(sQ, 0)}}
		if i == at {
			switch how {
			case 0:
				x.args[0] = ends(n)
			case 1:
				x = &node{args: []any{0, n, ends(n)}, segs: []seg{join([]seg{ref(sDynArg, 0)}, ",")}}
			case 2:
				x = &node{kids: []*node{x, {args: []any{ends(n)}, segs: []seg{ref(sDollar, 1)}}}, segs: []seg{ref(sFN, 2), txt(","), ref(sFN, 1)}}
			case 3:
				x.args[0] = []byte{1}
			}
		}
		if i%3 == 1 {
			c, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"fn" + rep("n", i): func() string { return "" }})
			v.Assert(err == nil, "functions are not accepted")
			ctx = c
		} else if i%3 == 2 {
			ctx = root
		}
		q, err := x.fragment().BuildFragment(ctx)
		v.Assert(err == nil, "a build into a used context fails")
		ts, _ := x.eval()
		text += q + ";"
		want = append(append(want, ts...), tok{text: ";"})
		if i == 0 {
			first = ctx.Args()
		}
	}
	v.Observe("text", text)
	v.Assert(len(first) >= 1 && len(ctx.Args()) == len(root.Args()) && same(first[0], root.Args()[0]), "what was committed first changes")
	checkDenotes(text, root.Args(), want, style, "many builds into one context")
	checkExact(text, root.Args(), want, style, "many builds into one context")
	v.Cover("many")
}

// long names, many functions
func C14_large() {
	n, up := size(15, 16)
	v.Bound("names of up to " + up + " letters, and any byte or none at any of 3 places; maps of so many functions of which one has any one-byte name or is no function")
	at := place(n)
	if v.Bool() {
		b := v.Str(0, 1, "")
		name := rep("a", at) + b + rep("Z", n-at)
		ok := true
		for i := 0; i < len(b); i++ {
			ok = b[i] == '_' || b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' // no UTF-8 character either
		}
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{name: func() string { return "called" }})
		v.Assert((err == nil) == ok, "a name is accepted or rejected other than documented")
		if ok {
			q, err := sqlf.F("#" + name + "()").BuildFragment(ctx)
			v.Assert(err == nil && q == "called", "a registered function is not found")
		}
		v.Cover("name")
		return
	}
	fs := sqlf.FuncMap{}
	for i := 0; i < n; i++ {
		s := "r" + v.Itoa(i)
		fs["n"+rep("x", i)] = func() string { return s }
	}
	bad := false
	name := "m" + v.Str(1, 1, "")
	b := name[1]
	bad = !(b == '_' || b|0x20 >= 'a' && b|0x20 <= 'z')
	fs[name] = func() string { return "m" }
	if v.Bool() {
		bad, fs[name] = true, 1
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), fs)
	v.Assert((err != nil) == bad, "many functions are accepted or rejected other than each of them")
	if err == nil {
		q, err := sqlf.F("#n" + rep("x", at) + "()#" + name + "()").BuildFragment(ctx)
		v.Assert(err == nil && q == "r"+v.Itoa(at)+"m", "one of many functions is not found")
	}
	v.Cover("many")
}

// long strings reach functions
func C15_long() {
	n, up := size(15, 16)
	v.Bound("a string argument of up to " + up + " bytes with 1 (thorough: 2) arbitrary bytes at any of 3 places, a result of the same kind")
	at := place(n)
	b := v.Str(1, v.Pick(1, 2), "")
	arg := rep("p", at) + b + rep("'", 2) + rep("q", n-at)
	got := ""
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"fn": func(s string) string { got = s; return "r" + s }})
	v.Assert(err == nil, "function not accepted")
	q, err := sqlf.F("[#fn(" + quoted(arg) + ")]").BuildFragment(ctx)
	v.Assert(err == nil, "a call with a long string fails")
	v.Assert(got == arg, "a long string arrives as another")
	v.Assert(q == "[r"+arg+"]", "a long result does not become the text")
	v.Cover("long")
}

// fragments with many elements keep theirs
func C16_large() {
	n, up := size(14, 16)
	spare := []int{0, 1, n}[v.Choice(3)]
	m := []int{1, 2, 5}[v.Choice(3)]
	v.Bound("two fragments from slices of up to " + up + " elements with spare capacity, appended 1..5 elements to, one by one or at once, in turn; the elements symbolic at one of 3 places")
	at := place(n)
	args := make([]any, n, n+spare)
	frs := make([]sqlf.FragmentBuilder, n, n+spare)
	for i := range args {
		args[i], frs[i] = i, sqlf.F("x"+v.Itoa(i))
	}
	x := v.Int(-3, 3)
	args[at] = x
	var a, b *sqlf.Fragment
	switch v.Choice(3) {
	case 0:
		a, b = sqlf.F("a").WithArgs(args...).WithFragments(frs...), sqlf.F("b").WithArgs(args...).WithFragments(frs...)
	case 1:
		a, b = sqlf.F("a").AppendArgs(args...).AppendFragments(frs...), sqlf.Fa("b", args...).AppendFragments(frs...)
	case 2:
		a, b = sqlf.Ff("a", frs...).AppendArgs(args...), sqlf.Ff("b", frs...).WithArgs(args...)
	}
	once := v.Bool()
	for k, f := range []*sqlf.Fragment{a, b} {
		var more []any
		var moref []sqlf.FragmentBuilder
		for i := 0; i < m; i++ {
			more, moref = append(more, 1000*(k+1)+i), append(moref, sqlf.F(""))
		}
		if once {
			f.AppendArgs(more...).AppendFragments(moref...)
		} else {
			for i := range more {
				f.AppendArgs(more[i])
				f.AppendFragments(moref[i])
			}
		}
	}
	for k, f := range []*sqlf.Fragment{a, b} {
		v.Assert(len(f.Args) == n+m && len(f.Fragments) == n+m, "elements are lost or added")
		for i := 0; i < n; i++ {
			v.Assert((i == at && same(f.Args[i], x)) || (i != at && same(f.Args[i], i)), "an element changes")
			v.Assert(f.Fragments[i] == frs[i], "a fragment changes")
		}
		for i := 0; i < m; i++ {
			v.Assert(same(f.Args[n+i], 1000*(k+1)+i), "appended elements are others")
			for j := 0; j < i; j++ {
				v.Assert(f.Fragments[n+i] != f.Fragments[n+j], "appended fragments are others")
			}
		}
	}
	for i, y := range args[:n:n] {
		v.Assert((i == at && same(y, x)) || (i != at && same(y, i)), "the caller's slice changes")
	}
	for _, y := range args[n : n+spare] {
		v.Assert(y == nil, "the caller's spare capacity is written to")
	}
	for _, y := range frs[n : n+spare] {
		v.Assert(y == nil, "the caller's spare capacity is written to")
	}
	v.Cover("large")
}

// args in many parts of a query
func C18_many() {
	n, up := size(11, 13)
	v.Bound("up to " + up + " columns, conditions, groupings, orderings, joins, unions, CTEs or members of WhereIn with an arg each, that at one of 3 places of symbolic value (equal to one of the first or last two or none), after other args, in either style, DISTINCT or not")
	q := newQuery()
	q.from("tab", "t")
	q.sel(exprCol("t", 1))
	if v.Bool() {
		q.setDistinct()
	}
	k := v.Choice(7)
	at := place(n)
	for i := 0; i < n; i++ {
		var a any = i
		if i == at {
			a = ends(n)
		}
		switch k {
		case 0:
			q.sel(exprCol("t", a))
		case 1:
			q.where(cond("t", a))
		case 2:
			q.group(exprCol("t", a))
		case 3:
			q.order(exprCol("t", a), sqlb.Order(i%6))
		case 4:
			nm := "j" + v.Itoa(i)
			q.join(i%5, nm, "", cond(nm, a))
		case 5:
			q.union(sub("SELECT", a))
		case 6:
			nm := "c" + v.Itoa(i)
			q.with(nm, sub("SELECT", a))
			q.join(i%5, nm, "", cond(nm, 2))
		}
	}
	q.where(cond("t", 3))
	q.check(styleOf(v.Choice(2)), true, "many args")
}

// one mistake among many calls
func C21_long() {
	n, up := size(11, 13)
	v.Bound("up to " + up + " calls of one of 6 kinds, and one of 7 mistakes, or none, at any of 3 places; built three times")
	b := sqlb.NewQueryBuilder()
	t := tbl("tab", "t")
	b.From(t).Select(t.Column("x"))
	if v.Bool() {
		b.Distinct()
	}
	k, m, at := v.Choice(6), v.Choice(8), place(n)
	for i := 0; i < n; i++ {
		if i == at {
			switch m {
			case 1:
				b.Where(sqlf.Ff("#f1", sqlb.Table("un").Column("x")))
			case 2:
				b.OrderBy(t.Column("x"), sqlb.Order(6))
			case 3:
				b.InnerJoin(tbl("", "j"), nil)
			case 4:
				b.GroupBy(sqlb.Table("un").Column("x"))
			case 5:
				b.Where(sqlf.Fa("#arg2 #arg1", 1))
			case 6:
				b.Select(sqlb.Table("un").Column("x"))
			case 7:
				b.From(tbl("", "t"))
			}
		}
		c := t.Column("c" + v.Itoa(i))
		switch k {
		case 0:
			b.Where(sqlf.Ff("#f1=$1", c).WithArgs(i))
		case 1:
			b.OrderBy(c, sqlb.Desc)
		case 2:
			b.GroupBy(c)
		case 3:
			b.InnerJoin(tbl("j"+v.Itoa(i), ""), nil)
		case 4:
			b.With(sqlb.Table("c"+v.Itoa(i)), sqlf.F("SELECT 1"))
		case 5:
			b.Union(sqlf.Fa("SELECT ?", i))
		}
	}
	style := styleOf(v.Choice(2))
	first := build(b, style)
	v.Assert(first.fail == (m != 0), "one mistake among many calls is not reported, or there is none")
	for i := 0; i < 2; i++ {
		v.Assert(build(b, style).equals(first), "building again gives another result")
	}
	v.Cover("long")
}

// long strings stay literals
func C23_long() {
	n, up := size(15, 16)
	v.Bound("a string of up to " + up + " bytes with 1..2 arbitrary bytes at any of 3 places and a quote every 8 bytes; a text of so many bytes (or quoted ones, or placeholders) around the placeholder")
	if v.Bool() {
		at := place(n)
		b := v.Str(1, 2, "")
		s := rep("pqrstuv'", n)[:at] + b + rep("'qrstuvw", n)[:n-at]
		var a any = s
		if v.Bool() {
			a = strStringer{s}
		}
		got, err := util.Interpolate("x=? ", []any{a})
		v.Assert(err == nil, "a long string fails")
		v.Assert(got == "x="+sqlQuote(s)+" ", "a long string does not become its literal")
		v.Cover("string")
		return
	}
	unit := []string{"x", "\xc3\xa9", "'?'", "??", "$$", "\"$1\" "}[v.Choice(6)]
	out := unit
	switch unit {
	case "??":
		out = "?"
	case "$$":
		out = "$"
	}
	d := v.Str(1, 1, "ab'?") // inside quotes
	mark := []string{"?", "$1"}[v.Choice(2)]
	v.Assume(d != "'")
	got, err := util.Interpolate(rep(unit, n)+" "+mark+" '"+d+"' "+rep(unit, n/2), []any{7})
	v.Assert(err == nil, "a long query fails")
	if unit == out {
		v.Assert(got == rep(out, n)+" 7 '"+d+"' "+rep(out, n/2), "the text around a placeholder changes")
	} else {
		// doubled marks are kept or undoubled, all alike
		v.Assert(got == rep(out, n)+" 7 '"+d+"' "+rep(out, n/2) || got == rep(unit, n)+" 7 '"+d+"' "+rep(unit, n/2), "the text around a placeholder changes")
	}
	v.Cover("text")
}

// many rows and columns
func C24_many() {
	n, up := size(14, 16)
	v.Bound("up to " + up + " rows of 1..17 columns with a symbolic value in a row at one of 3 places, that cannot be scanned or before which the iteration fails, or none")
	nc := []int{1, 2, 5, 9, 17}[v.Choice(5)]
	at := place(n)
	d := v.Str(1, 1, "0129a")
	how := v.Choice(3)
	p := &v.Plan{FailAt: -1}
	if how == 1 {
		p.FailAt, p.IterErr = at, errIter
	}
	for c := 0; c < nc; c++ {
		p.Cols = append(p.Cols, "c"+v.Itoa(c))
	}
	for i := 0; i < n; i++ {
		var row []any
		for c := 0; c < nc; c++ {
			var x any = int64(i*100 + c)
			if i == at && c == nc-1 && how == 0 {
				x = d
			}
			row = append(row, x)
		}
		p.Rows = append(p.Rows, row)
	}
	nd := []int{nc, (nc + 1) / 2}[v.Choice(2)]
	res, err := util.Scan(v.DB{p}, "q", nil, func() ([]*int64, []any) {
		var r []*int64
		var fs []any
		for c := 0; c < nd; c++ {
			x := new(int64)
			r, fs = append(r, x), append(fs, x)
		}
		return r, fs
	})
	v.Assert(p.Opened == 1 && p.Closed == 1, "the rows are not closed")
	if how == 1 || how == 0 && d == "a" && nd == nc {
		v.Assert(err != nil && len(res) == 0, "a failure is not reported")
		v.Assert(how == 0 || errors.Is(err, errIter), "another error is reported")
		v.Cover("fails")
		return
	}
	v.Assert(err == nil && len(res) == n, "another number of results than rows")
	for i := range res {
		v.Assert(len(res[i]) == nd, "another result")
		for c := 0; c < nd; c++ {
			want := int64(i*100 + c)
			if i == at && c == nc-1 && how == 0 {
				want = int64(d[0] - '0')
			}
			v.Assert(*res[i][c] == want, "a result is of another row or column")
		}
	}
	v.Cover("scanned")
}

// long queries, many args
func C25_long() {
	n, up := size(15, 16)
	v.Bound("a query of up to " + up + " bytes, any byte at one of 3 places, as many args; counts at the borders of int64; counted, or scanned from a builder")
	at := place(n)
	q := rep("s", at) + v.Str(1, 1, "") + rep("t", n-at)
	var args []any
	for i := 0; i < n; i++ {
		args = append(args, i)
	}
	args[at] = v.Int(0, 3)
	c := []int64{0, 1, 9, 10, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1, -1}[v.Choice(12)]
	p := &v.Plan{FailAt: -1, Cols: []string{"count"}, Rows: [][]any{{c}}}
	var style syntax.BindVarStyle
	fb := fixedBuilder{q: q, args: args, style: &style}
	var got int64
	var err error
	want := "SELECT COUNT(1) FROM (" + q + ") list"
	switch v.Choice(3) {
	case 0:
		got, err = util.Count(v.DB{p}, q, args)
	case 1:
		got, err = util.CountBuilder(v.DB{p}, fb, syntax.Dollar)
	case 2:
		var r []*int64
		r, err = util.ScanBuilder(v.DB{p}, fb, syntax.Dollar, func() (*int64, []any) { x := new(int64); return x, []any{x} })
		v.Assert(len(r) == 1, "another number of results")
		got, want = *r[0], q
	}
	v.Assert(err == nil && got == c, "another number")
	v.Assert(len(p.Queries) == 1 && p.Queries[0] == want, "another query is run")
	v.Assert(len(p.Args[0]) == n, "other args are passed")
	for i := range args {
		v.Assert(same(p.Args[0][i], args[i]), "other args are passed")
	}
	v.Cover("run")
}

// long names, many columns
func C26_large() {
	n, up := size(14, 16)
	v.Bound("up to " + up + " columns of a table (with or without an alias, also of that length), any byte at one of 3 places")
	at := place(n)
	b := v.Str(1, 1, "")
	v.Assume(b[0] > ' ' && b[0] < 0x80)
	app := "tab"
	if v.Bool() {
		app = rep("t", at) + b + rep("u", n-at)
	}
	t := sqlb.NewTableAliased("tab", sqlb.Table(app))
	v.Assert(buildFrag(t, "a table") == app && buildFrag(sqlb.Table(app), "a table") == app, "a table renders as something else")
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "c"+v.Itoa(i%13))
	}
	names[at] = b
	for k, cs := range [][]*sqlb.Column{t.Columns(names...), t.AnonymousColumns(names...), sqlb.Table(app).Columns(names...), sqlb.Table(app).AnonymousColumns(names...)} {
		v.Assert(len(cs) == n, "another number of columns")
		for _, i := range []int{0, n / 2, n - 1} {
			want := names[i]
			if k%2 == 0 {
				want = app + "." + want
			}
			v.Assert(buildFrag(cs[i], "a column") == want, "a column of a list renders as something else")
		}
	}
	v.Cover("large")
}

// many properties
func C30_large() {
	n, up := size(8, 12)
	v.Bound("a list of up to " + up + " properties of args or fragments, of which the one at one of 3 places has a symbolic value; built at any index of -1..n+2, then all of them by #join but for those before any of 3 places")
	at := place(n)
	var args []any
	var fs []sqlf.FragmentBuilder
	var ts [][]tok
	ofArgs := v.Bool()
	for i := 0; i < n; i++ {
		x := i
		if i == at {
			x = v.Int(0, n)
		}
		args = append(args, x)
		fs = append(fs, sqlf.Fa("f?", x))
		if ofArgs {
			ts = append(ts, []tok{{isArg: true, arg: x}})
		} else {
			ts = append(ts, []tok{{text: "f"}, {isArg: true, arg: x}})
		}
	}
	p := sqlf.NewArgsProperties(args...)
	if !ofArgs {
		p = sqlf.NewFragmentProperties(fs...)
	}
	style := styleOf(v.Choice(2))
	ctx := propsCtx(style, p)
	i := v.Int(-1, n+2)
	q, err := p.Build(ctx, i)
	v.Assert((err != nil) == (i < 1 || i > n), "an index in range fails or one out of range does not")
	var want []tok
	if err == nil {
		for k := range p {
			v.Assert(p[k].Used() == (k+1 == i), "another property counts as used")
			if k+1 == i {
				want = append(want, ts[k]...)
			}
		}
	} else {
		v.Assert(errors.Is(err, sqlf.ErrInvalidIndex), "an index out of range is not reported as such")
	}
	from := place(n) + 1
	r, err := sqlf.F("[#join('#p',','," + v.Itoa(from) + ")]").BuildFragment(ctx)
	v.Assert(err == nil, "joining properties fails")
	want = append(want, tok{text: ";["})
	for k := from; k <= n; k++ {
		if k > from {
			want = append(want, tok{text: ","})
		}
		want = append(want, ts[k-1]...)
		v.Assert(p[k-1].Used(), "a used property does not count as used")
	}
	want = append(want, tok{text: "]"})
	checkDenotes(q+";"+r, ctx.Args(), want, style, "properties")
	checkExact(q+";"+r, ctx.Args(), want, style, "properties")
	v.Cover("large")
}

// prefixes and suffixes are any text, verbatim
func C11_affixes() {
	n := v.Pick(3, 4)
	v.Bound("prefixes and suffixes of 0.." + v.Itoa(n) + " arbitrary bytes (one of them of 0..1) of a part that is empty or not, on its own or in another")
	k := &node{}
	if v.Bool() {
		k.prefix, k.suffix = v.Str(0, n, ""), v.Str(0, 1, "")
	} else {
		k.prefix, k.suffix = v.Str(0, 1, ""), v.Str(0, n, "")
	}
	switch v.Choice(3) {
	case 1:
		k.segs = []seg{txt("x")}
	case 2:
		k.args = []any{5}
		k.segs = []seg{ref(sQ, 0)}
	}
	if v.Bool() {
		k = &node{kids: []*node{k}, segs: []seg{txt("["), ref(sFN, 1), txt("]")}}
	}
	buildBoth(k, syntax.Question, true, false, "affixes")
}

// Where2 puts its operator verbatim
func C17_where2() {
	n := v.Pick(3, 4)
	v.Bound("Where2 with an operator of 0.." + v.Itoa(n) + " bytes over \" <=>!~Lki\\n\", after another condition or not, DISTINCT or not, in either style")
	q := newQuery()
	q.from("tab", "t")
	q.sel(col("t", "x"))
	if v.Bool() {
		q.setDistinct()
	}
	if v.Bool() {
		q.where(cond("t", 1))
	}
	q.where2(col("t", "y"), v.Str(0, n, " <=>!~Lki\n"), v.Int(0, 1))
	q.check(styleOf(v.Choice(2)), true, "operators")
}

// names are not syntax
func C26_marks() {
	n := v.Pick(2, 3)
	v.Bound("a name of a table, an alias, a joined table, a column, an anonymous column or a CTE of 1.." + v.Itoa(n) + " ASCII bytes without white space, in a query; DISTINCT or not")
	s := v.Str(1, n, "")
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] > ' ' && s[i] < 0x7f)
	}
	names := []string{"tab", "tt", "joined", "column", "anonymous", "common"}
	k := v.Choice(6)
	for i := range names {
		v.Assume(names[i] != s)
	}
	names[k] = s
	q := newQuery()
	if v.Bool() {
		q.setDistinct()
	}
	q.with(names[5], sub("SELECT c", 7))
	q.from(names[0], names[1])
	q.join(1, names[2], "", cond(names[2], 8))
	q.join(2, names[5], "", nil)
	q.sel(col(names[1], names[3]), anon(names[2], names[4]))
	q.where(cond(names[1], 9))
	q.check(syntax.Dollar, false, "names")
}

// long args differ wherever they differ
func C02_long() {
	n, up := size(15, 16)
	v.Bound("three args of up to " + up + " bytes (strings, named strings, arrays or structs of a string), each with an arbitrary byte at the first, a middle or the last place, referenced in 3 ways, in either style")
	at := place(n)
	k := v.Choice(4)
	s := func() any {
		x := rep("p", at) + v.Str(1, 1, "pq") + rep("p", n-at-1)
		switch k {
		case 1:
			return namedStr(x)
		case 2:
			return [2]string{"a", x}
		case 3:
			return long{x, 1}
		}
		return x
	}
	args := []any{s(), s(), s()}
	x := &node{args: args, segs: []seg{ref(sQ, 0), txt(","), ref(sQ, 0), txt(","), ref(sQ, 0)}}
	switch v.Choice(3) {
	case 1:
		x.segs = []seg{join([]seg{ref(sDynArg, 0)}, ",")}
	case 2:
		x = &node{args: args[:1], kids: []*node{{args: args[1:], segs: []seg{ref(sDollar, 2), txt("="), ref(sDollar, 1)}}}, segs: []seg{ref(sArgN, 1), txt("<>"), ref(sFN, 1)}}
	}
	buildBoth(x, styleOf(v.Choice(2)), true, true, "long args")
}

type long struct {
	s string
	n int
}

type namedStr string

// marker stands for a part: one arg, or nothing, or a failure.
type marker struct{ how int }

type markArg struct{}

var errMark = errors.New("mark")

func (m *marker) BuildFragment(ctx *sqlf.Context) (string, error) {
	switch m.how {
	case 1:
		return "", nil
	case 2:
		return "", errMark
	}
	return ctx.CommitArg(markArg{}), nil
}

type embedder struct {
	*sqlb.QueryBuilder
	more int
}

type valueBuilder struct{ f *sqlf.Fragment }

func (b valueBuilder) BuildFragment(ctx *sqlf.Context) (string, error) {
	s, err := b.f.BuildFragment(ctx)
	if err != nil || s == "" {
		return "", err
	}
	t, err := b.f.BuildFragment(ctx)
	return s + "~" + t, err
}

func toksOf(query string, args []any) []tok {
	var ts []tok
	k, from := 0, 0
	for i := 0; i < len(query); i++ {
		if query[i] == '?' {
			ts = append(ts, tok{text: query[from:i]}, tok{isArg: true, arg: args[k]})
			k, from = k+1, i+1
		}
	}
	v.Assert(k == len(args), "another number of args than placeholders")
	return append(ts, tok{text: query[from:]})
}

// what a builder builds does not depend on where it is
func C11_builders() {
	v.Bound("11 builders (query builders with up to all clauses, CTEs, unions, nil or failing ones, types that embed or wrap them, fragments) in 14 places (fragments, templates, properties, CTEs, unions, columns, conditions, ON, orderings, other builders), before and after args; some symbolic; once or twice, both styles")
	a := func() any { return v.Int(0, 1) }
	in := tbl("in", "i")
	simple := func() *sqlb.QueryBuilder {
		return sqlb.NewQueryBuilder().Select(in.Column("x")).From(in).Where2(in.Column("y"), "=", a())
	}
	var x, y sqlf.FragmentBuilder
	switch v.Choice(11) {
	case 0:
		x = simple()
	case 1:
		q := simple().With(sqlb.Table("c"), simple()).InnerJoin(tbl("c", ""), sqlf.Fa("?", a())).GroupBy(in.Columns("g")...)
		q.Limit(3).Offset(4).OrderBy(in.Column("o"), sqlb.Desc).Distinct()
		x = q
	case 2:
		x = simple().Union(simple(), (*sqlb.QueryBuilder)(nil), sqlf.Fa("SELECT $1", a()))
	case 3:
		x = (*sqlb.QueryBuilder)(nil)
	case 4:
		x = sqlb.NewQueryBuilder().From(in).Where(sqlf.Fa("?", 1))
	case 5:
		q := simple()
		q.Debug()
		x = q
	case 6:
		x = embedder{simple(), 1}
	case 7:
		x = valueBuilder{sqlf.Ff("#f1 $1", simple()).WithArgs(a()).WithPrefix("P").WithSuffix("S")}
	case 8:
		x = &node1{simple(), a()}
	case 9:
		x = sqlf.Fa("#join('#arg', ', ')", a(), 5, a()).WithPrefix("P")
	case 10:
		x = simple().OrderBy(sqlb.Table("unknown").Column("o"), sqlb.Asc)
	}
	own, ownArgs, ownErr := fragmentOf(x).BuildQuery(syntax.Question)
	m := &marker{}
	if ownErr != nil {
		m.how = 2
	} else if own == "" {
		m.how = 1
	}
	place, twice := v.Choice(14), v.Bool()
	host := func(x sqlf.FragmentBuilder) sqlf.QueryBuilder {
		y = sqlf.F("")
		if twice {
			y = x
		}
		t := tbl("tab", "t")
		q := sqlb.NewQueryBuilder().From(t).Select(t.Column("x")).Where2(t.Column("k"), "=", 1)
		w := sqlf.Ff("$1 #f1 #f2 $2", x, y).WithArgs(0, 1)
		switch place {
		case 0:
			return sqlf.Ff("$1 (#f1) $2 #f2", x, y).WithArgs(1, 0)
		case 1:
			return sqlf.Ff("#join('#f', '; ')", sqlf.Fa("?", 0), x, sqlf.Fa("?", 1), y)
		case 2:
			return sqlf.Ff("#f1 $1", sqlf.Ff("#f2 #f1 $1", x, y).WithArgs(0).WithPrefix("IN")).WithArgs(1)
		case 3:
			return sqlf.Ff("#join('#f(#f)', ', ', 1, 2)", x, y)
		case 4:
			return q.With(sqlb.Table("c"), x).With(sqlb.Table("d"), y).InnerJoin(tbl("c", ""), nil).InnerJoin(tbl("d", ""), nil)
		case 5:
			return q.Union(sqlf.Fa("SELECT ?", 0), x, y)
		case 6:
			return q.Select(sqlb.ExprColumn(w))
		case 7:
			return q.Where(w)
		case 8:
			return q.LeftJoin(tbl("j", ""), w)
		case 9:
			return q.OrderBy(sqlb.ExprColumn(w), sqlb.Asc)
		case 10:
			return q.Distinct().OrderBy(sqlb.ExprColumn(w), sqlb.Asc)
		case 11:
			return q.GroupBy(sqlb.ExprColumn(w))
		case 12:
			return sqlb.NewQueryBuilder().From(t).Select(t.Column("z")).Where(sqlf.Ff("k IN (#f1)", q.Where(w))).Union(q)
		}
		return sqlf.Ff("#f1 #f2", propOf(w), propOf(y))
	}
	h0 := host(m)
	q0, a0, err0 := h0.BuildQuery(syntax.Question)
	style := styleOf(v.Choice(2))
	h1 := host(x)
	q1, a1, err1 := h1.BuildQuery(style)
	v.Assert((err0 != nil) == (err1 != nil), "a builder fails where it does not on its own, or does not where it does")
	if err1 != nil {
		v.Cover("fails")
		return
	}
	var want []tok
	for _, t := range toksOf(q0, a0) {
		if _, ok := t.arg.(markArg); t.isArg && ok {
			want = append(want, toksOf(own, ownArgs)...)
		} else {
			want = append(want, t)
		}
	}
	checkDenotes(q1, a1, want, style, "a builder in a place")
	checkExact(q1, a1, want, style, "a builder in a place")
	v.Cover("builds")
}

// node1 is a builder of its own.
type node1 struct {
	q   *sqlb.QueryBuilder
	arg any
}

func (n *node1) BuildFragment(ctx *sqlf.Context) (string, error) {
	s := ctx.CommitArg(n.arg)
	t, err := n.q.BuildFragment(ctx)
	return s + " " + t, err
}

func fragmentOf(x sqlf.FragmentBuilder) *sqlf.Fragment { return sqlf.Ff("#f1", x) }

// propOf builds x as a property.
type prop struct{ p sqlf.Properties }

func (p *prop) BuildFragment(ctx *sqlf.Context) (string, error) { return p.p.Build(ctx, 1) }

func propOf(x sqlf.FragmentBuilder) *prop { return &prop{sqlf.NewFragmentProperties(x)} }

// long joins
func C09_large() {
	ks := []int{16, 64, 128, 129, 256, 257, 300, 512, 1001}
	m := v.Pick(7, len(ks))
	k := ks[v.Choice(m)]
	v.Bound("#join over up to " + v.Itoa(ks[m-1]) + " args or fragments, from 1 or k/2, to the end or k-1, of which one at any of 3 places has a symbolic value")
	x := v.Int(-1, 1)
	at := place(k)
	n := &node{}
	what := v.Choice(2)
	for i := 0; i < k; i++ {
		var a any = i
		if i == at {
			a = x
		}
		if what == 0 {
			n.args = append(n.args, a)
		} else {
			n.kids = append(n.kids, &node{args: []any{a}, segs: []seg{txt("x"), ref(sQ, 0)}})
		}
	}
	each := []seg{ref([]segKind{sDynArg, sDynF}[what], 0)}
	switch v.Choice(3) {
	case 0:
		n.segs = []seg{join(each, ",")}
	case 1:
		n.segs = []seg{join(each, ",", 1, k-1), txt(";"), join(each, ",", k)}
	case 2:
		n.segs = []seg{join(each, ",", k/2), txt(";"), join(each, ",", 1, k/2-1)}
	}
	buildBoth(n, styleOf(v.Choice(2)), true, true, "long join")
}

// references deep inside
func C19_deep() {
	n, up := size(14, 16)
	v.Bound("a reference to one of two optional joins, or none, up to " + up + " fragments or expression columns deep, next to others, in a column, condition, ON, grouping or ordering; the joins refer to one another or not")
	which := v.Choice(3)
	name := []string{"a", "b", "t"}[which]
	mix := v.Choice(3)
	c := col(name, "deep")
	p := part{b: c.b, c: c.c, toks: c.toks, tables: c.tables}
	var in sqlf.FragmentBuilder = c.c
	toks := c.toks
	for i := 0; i < n; i++ {
		f := sqlf.Ff("(#f1)", in)
		if mix == 2 && i == n/2 {
			f = sqlf.Ff("#join('#f', '+')", sqlf.F("0"), in)
			toks = cat([]tok{{text: "0+"}}, toks)
		} else {
			toks = cat([]tok{{text: "("}}, toks, []tok{{text: ")"}})
		}
		in = f
		if mix == 1 && i%2 == 1 {
			in = sqlb.ExprColumn(f)
		}
	}
	f := sqlf.Ff("#f1", in)
	p = part{f: f, b: f, c: sqlb.ExprColumn(f), toks: toks, tables: []string{name}}
	q := newQuery()
	q.from("tab", "t")
	q.setDistinct()
	q.sel(col("t", "x"))
	on := cond("b", 1)
	if v.Bool() {
		on = eqCond("b", "a")
	}
	where := v.Choice(5)
	q.join(1, "a", "", cond("a", 1))
	if where == 2 {
		on = &p
	}
	q.join(1, "b", "", on)
	switch where {
	case 0:
		q.sel(col("t", "x"), p)
	case 1:
		q.where(&p)
	case 2:
		q.where(cond("b", 7))
	case 3:
		q.group(p)
	case 4:
		q.order(p, sqlb.Asc)
	}
	q.check(syntax.Dollar, true, "deep reference")
}
