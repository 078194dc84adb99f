package h

import (
	"errors"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// ---- C29 ----

// builtAlike asserts that b builds or fails in both styles, and that the
// results differ in nothing but the placeholders.
func builtAlike(build func(syntax.BindVarStyle) (string, []any, error), interpolate bool, what string) {
	qd, ad, ed := build(syntax.Dollar)
	qq, aq, eq := build(syntax.Question)
	observeBuild(qd, ad, ed)
	observeBuild(qq, aq, eq)
	v.Assert((ed == nil) == (eq == nil), what+": builds in one style but not in the other")
	if ed != nil {
		v.Cover("~error")
		return
	}
	j, k := 0, 0
	for i := 0; i < len(qq); i++ {
		v.Assert(j < len(qd), what+": the texts of the two styles differ")
		if qq[i] != '?' || qd[j] != '$' {
			v.Assert(qq[i] == qd[j], what+": the texts of the two styles differ")
			j++
			continue
		}
		v.Assert(j+1 < len(qd), what+": a $ placeholder has no number")
		n := 0
		if len(ad) < 10 {
			// what follows may be a digit
			n, j = int(qd[j+1]-'0'), j+2
		} else {
			n, j = readRef(qd, j+1)
		}
		v.Assert(n >= 1 && n <= len(ad), what+": a $ placeholder has no argument")
		v.Assert(k < len(aq), what+": a ? placeholder has no argument")
		v.Assert(same(ad[n-1], aq[k]), what+": the styles bind different arguments to one reference")
		k++
	}
	v.Assert(j == len(qd), what+": the texts of the two styles differ")
	v.Assert(k == len(aq), what+": arguments without placeholder")
	v.Cover("built")
	if !interpolate {
		return
	}
	id, ed := util.Interpolate(qd, ad)
	iq, eq := util.Interpolate(qq, aq)
	v.Assert((ed == nil) == (eq == nil), what+": interpolates in one style but not in the other")
	v.Assert(ed != nil || id == iq, what+": the two styles interpolate to different texts")
	if ed == nil {
		v.Cover("~interpolated")
	}
}

// twoOfEach is a fragment of any text with two arguments and two fragments,
// which are all used by what follows the text.
func twoOfEach(raw string) *sqlf.Fragment {
	f := sqlf.F(raw + "#join('#arg','')#join('#f','')")
	x := v.Int(0, 1)
	f.Args = []any{x, "a"}
	f.Fragments = []sqlf.FragmentBuilder{sqlf.F("x"), sqlf.Fa("y?;?", v.Int(0, 1), []byte("a")).WithPrefix("P")}
	return f
}

// any text
func C29_any_bytes() {
	v.Bound("a fragment whose text begins with up to 3 (thorough 4) arbitrary bytes, with two arguments and two fragments, equal or not")
	builtAlike(twoOfEach(anyText(0, v.Pick(3, 4), "")).BuildQuery, false, "any text")
}

func C29_marks() {
	builtAlike(twoOfEach(anyText(0, v.Pick(5, 6), "$?#1f '(")).BuildQuery, false, "marks")
}

// any template
func C29_templates() {
	n := v.Pick(3, 4)
	v.Bound("#join with a template #arg or #f and before or after it 0.." + v.Itoa(n) + " bytes over #f$?1 a2_ and a separator of 0..1 of them")
	t := v.Str(0, n, "#f$?1 a2_")
	m := []string{"#arg", "#f"}[v.Choice(2)]
	if v.Bool() {
		t = m + t
	} else {
		t += m
	}
	sep := v.Str(0, 1, "$?,1#")
	f := twoOfEach("#join('" + t + "','" + sep + "')-")
	builtAlike(f.BuildQuery, false, "templates")
}

// trees of fragments
func C29_mixed() {
	n := mixedTree(1, usual{})
	builtAlike(func(s syntax.BindVarStyle) (string, []any, error) { return n.fragment().BuildQuery(s) }, false, "trees")
}

// queries of the query builder, also interpolated
func C29_queries() {
	m := mixedQuery(v.Pick(2, 3), usualq{distinct: 1, join1: 3, wheres: 1})
	builtAlike(m.q.b.BuildQuery, true, "queries")
}

// lists whose elements are equal or not
func C29_sizes() {
	n := []int{1, 2, 9, 10, 11, 17, 33, 100}[v.Choice(v.Pick(6, 8))]
	v.Bound("1, 2, 9, 10, 11 or 17 (thorough 33, 100) arguments, two of which are symbolic and may equal others, by index, question mark or #join, also interpolated")
	f := sqlf.F("")
	k := v.Choice(3)
	at := []int{0, n / 2, n - 1}[v.Choice(3)]
	for i := 0; i < n; i++ {
		var x any = i
		if i == at {
			x = v.Int(0, n)
		}
		f.Args = append(f.Args, x)
		switch k {
		case 0:
			f.Raw += "$" + v.Itoa(i+1) + ","
		case 1:
			f.Raw += "?,"
		}
	}
	if k == 2 {
		f.Raw = "(#join('#arg',', '))"
	}
	if v.Bool() {
		f = sqlf.Ff("#f1 UNION #f1 #f2", f, sqlf.Fa("?", v.Int(0, n)))
	}
	builtAlike(f.BuildQuery, true, "sizes")
}

// ---- C30 ----

// a user of a list of properties
func propsCtx(style syntax.BindVarStyle, p sqlf.Properties) *sqlf.Context {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{
		"p": func(ctx *sqlf.Context, i int) (string, error) { return p.Build(ctx, i) },
	})
	v.Assert(err == nil, "functions are not accepted")
	return ctx
}

// anyProps is a list of n properties and what they denote.
func anyProps(n int) (sqlf.Properties, [][]tok) {
	var ts [][]tok
	if v.Bool() {
		var args []any
		for i := 0; i < n; i++ {
			var x any = v.Int(0, 2)
			if i == 2 {
				x = []byte("b")
			}
			args = append(args, x)
			ts = append(ts, []tok{{isArg: true, arg: x}})
		}
		p := sqlf.NewArgsProperties(args...)
		for i := range args {
			args[i] = "changed"
		}
		return p, ts
	}
	var fs []sqlf.FragmentBuilder
	for i := 0; i < n; i++ {
		switch v.Choice(3) {
		case 0:
			x := v.Int(0, 2)
			fs = append(fs, sqlf.Fa("a?", x).WithPrefix("P"))
			ts = append(ts, []tok{{text: "P a"}, {isArg: true, arg: x}})
		case 1:
			fs = append(fs, (*sqlf.Fragment)(nil))
			ts = append(ts, nil)
		case 2:
			fs = append(fs, &committer{pre: "c", args: []any{i, 1}, f: sqlf.F("")})
			ts = append(ts, []tok{{text: "c"}, {isArg: true, arg: i}, {text: ","}, {isArg: true, arg: 1}, {text: ","}})
		}
	}
	p := sqlf.NewFragmentProperties(fs...)
	for i := range fs {
		fs[i] = sqlf.F("changed")
	}
	return p, ts
}

// a list of properties built by index
func C30_build() {
	v.Bound("a list of 0..3 properties of arguments (ints of 0..2, []byte) or of fragments (with argument, nil, user-written), built 1..2 (thorough 3) times at any index of -2^31..2^31 or marked as used, in either style")
	n := v.Choice(4)
	p, ts := anyProps(n)
	v.Assert(len(p) == n, "another number of properties")
	style := styleOf(v.Choice(2))
	ctx := sqlf.NewContext(style)
	used := make([]bool, n)
	text := ""
	var want []tok
	for s := v.Choice(v.Pick(2, 3)) + 1; s > 0; s-- {
		i := v.Int(-1<<31, 1<<31)
		if v.Bool() {
			v.Assume(i >= 1 && i <= n)
			p[i-1].ReportUsed()
			for k := range used {
				used[k] = used[k] || k+1 == i
			}
		} else {
			before := len(ctx.Args())
			q, err := p.Build(ctx, i)
			if i < 1 || i > n {
				v.Assert(err != nil && errors.Is(err, sqlf.ErrInvalidIndex), "an index out of range is not reported")
				v.Assert(q == "" && len(ctx.Args()) == before, "something is built for an index out of range")
				v.Cover("~out of range")
			} else {
				v.Assert(err == nil, "a valid index fails")
				text += q + ";"
				for k := range used {
					if k+1 == i {
						used[k] = true
						want = append(append(want, ts[k]...), tok{text: ";"})
					}
				}
			}
		}
		for k := range used {
			v.Assert(p[k].Used() == used[k], "another property counts as used")
		}
	}
	checkDenotes(text, ctx.Args(), want, style, "properties")
	checkExact(text, ctx.Args(), want, style, "properties")
	v.Cover("built")
}

// a list of properties shared by fragments
func C30_shared() {
	v.Bound("a list of 0..3 properties used by a custom function in two fragments: by two calls with any index of -10..10 each, or by #join with any bounds of 0..4")
	n := v.Choice(4)
	p, ts := anyProps(n)
	style := styleOf(v.Choice(2))
	ctx := propsCtx(style, p)
	i, j := v.Choice(6)-1, v.Choice(5)
	var want []tok
	raw, bad := "", false
	if v.Bool() {
		raw = "#p(" + v.Itoa(i) + ")/#f1"
		for k, x := range []int{i, j} {
			if x < 1 || x > n {
				bad = true
				break
			}
			want = append(want, ts[x-1]...)
			if k == 0 {
				want = append(want, tok{text: "/"})
			}
		}
		f := sqlf.Ff(raw, sqlf.F("#p"+v.Itoa(j)))
		propsBuild(f, ctx, want, bad, style)
		return
	}
	// #join over the list, in a nested fragment too
	if i < 0 {
		i = 0
	}
	bounds := ""
	from, to := i, j
	switch v.Choice(3) {
	case 0:
		from, to = 0, 0
	case 1:
		bounds, to = ","+v.Itoa(from), 0
	case 2:
		bounds = "," + v.Itoa(from) + "," + v.Itoa(to)
	}
	bad = to > 0 && from > to || from > n || to > n
	if !bad {
		lo, hi := from, to
		if lo == 0 {
			lo = 1
		}
		if hi == 0 {
			hi = n
		}
		var item []tok
		first := true
		for x := lo; x <= hi; x++ {
			if len(ts[x-1]) == 0 {
				continue
			}
			if !first {
				item = append(item, tok{text: "+"})
			}
			first = false
			item = append(item, ts[x-1]...)
		}
		want = cat([]tok{{text: "["}}, item, []tok{{text: "] ["}}, item, []tok{{text: "]"}})
	}
	f := sqlf.Ff("[#join('#p','+'"+bounds+")] #f1", sqlf.F("[#join('#p','+'"+bounds+")]"))
	propsBuild(f, ctx, want, bad, style)
}

func propsBuild(f *sqlf.Fragment, ctx *sqlf.Context, want []tok, bad bool, style syntax.BindVarStyle) {
	q, err := f.BuildFragment(ctx)
	observeBuild(q, ctx.Args(), err)
	v.Assert((err != nil) == bad, "a shared list builds or fails other than it should")
	if bad {
		v.Assert(q == "", "text besides an error")
		v.Cover("~bad")
		return
	}
	checkDenotes(q, ctx.Args(), trimToks(want), style, "shared properties")
	checkExact(q, ctx.Args(), trimToks(want), style, "shared properties")
	v.Cover("shared")
}
