package h

import (
	"errors"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// ---- C31 ----

type call struct {
	class int
	do    func(b *sqlb.QueryBuilder)
}

// independent returns calls of query builders by class, the first of a class
// is the one to fill with; x is an arg, n a limit.
func independent(x int, n int64) []call {
	t, j := sqlb.Table("t"), sqlb.Table("j")
	c1, c2 := sqlb.Table("c1"), sqlb.Table("c2")
	arg := func(c *sqlb.Column, a any) *sqlf.Fragment { return sqlf.Ff("#f1=$1", c).WithArgs(a) }
	// columns and fragments that clauses share
	tx, jy, te := t.Column("x"), j.Column("y"), sqlb.ExprColumn(arg(t.Column("e"), x))
	tw := arg(t.Column("w"), x)
	return []call{
		{0, func(b *sqlb.QueryBuilder) { b.Distinct() }},
		{1, func(b *sqlb.QueryBuilder) { b.With(c1, sqlf.Fa("SELECT ?", x)) }},
		{1, func(b *sqlb.QueryBuilder) { b.With(c2, sqlf.Fa("SELECT ?", 2), c1) }},
		{2, func(b *sqlb.QueryBuilder) { b.Select(te, tx) }},
		{2, func(b *sqlb.QueryBuilder) { b.Select(jy) }},
		{3, func(b *sqlb.QueryBuilder) { b.From(tbl("t", "")) }},
		{3, func(b *sqlb.QueryBuilder) { b.From(tbl("u", "t")) }},
		{4, func(b *sqlb.QueryBuilder) { b.LeftJoinOptional(tbl("jj", "j"), arg(j.Column("k"), x)) }},
		{4, func(b *sqlb.QueryBuilder) { b.InnerJoin(tbl("c1", ""), nil) }},
		{4, func(b *sqlb.QueryBuilder) { b.LeftJoinOptional(tbl("c2", ""), arg(j.Column("l"), 3)) }},
		{5, func(b *sqlb.QueryBuilder) { b.Where(tw) }},
		{5, func(b *sqlb.QueryBuilder) { b.WhereIn(t.Column("i"), []any{4, x}) }},
		{6, func(b *sqlb.QueryBuilder) { b.GroupBy(tx, sqlb.ExprColumn(arg(t.Column("h"), 5))) }},
		{7, func(b *sqlb.QueryBuilder) { b.OrderBy(te, sqlb.Desc) }},
		{7, func(b *sqlb.QueryBuilder) { b.OrderBy(jy, sqlb.AscNullsLast) }},
		{7, func(b *sqlb.QueryBuilder) { b.OrderBy(t.Column("o"), sqlb.Order(6)) }},
		{8, func(b *sqlb.QueryBuilder) { b.Limit(n) }},
		{8, func(b *sqlb.QueryBuilder) { b.Limit(3) }},
		{9, func(b *sqlb.QueryBuilder) { b.Offset(n + 1) }},
		{10, func(b *sqlb.QueryBuilder) { b.Union(tw) }},
		{11, func(b *sqlb.QueryBuilder) { b.Debug() }},
	}
}

// calls for different clauses commute
func C31_calls() {
	v.Bound("1..2 of 21 calls (every method of the query builder) in any order, before or after either FROM and SELECT only or one call for every clause they leave out, against the same in the order of the clauses; an arg and LIMIT symbolic, both styles")
	commute(1+v.Choice(2), v.Int(0, 2), v.Int(-1, 1), v.Bool(), styleOf(v.Choice(2)))
}

// the same with more calls
func C31_more() {
	n := v.Pick(3, 4)
	v.Bound(v.Itoa(n) + " of 21 calls in any order, before or after one call for every clause they leave out, against the same in the order of the clauses")
	commute(n, 5, 1, true, syntax.Dollar)
}

// calls that decide on the tables of the query
func C31_tables() {
	n := v.Pick(2, 3)
	v.Bound("FROM, SELECT, DISTINCT or GROUP BY or neither, and " + v.Itoa(n) + " joins (inner, left, optional; ON a table that is joined before or not), in all orders that keep that of the joins, against the order of the clauses")
	t := sqlb.Table("t")
	names := []string{"j1", "j2", "j3"}[:n]
	var joins []func(b *sqlb.QueryBuilder)
	for i, name := range names {
		var on *sqlf.Fragment
		if i > 0 && v.Bool() {
			on = sqlf.Ff("#f1=?", sqlb.Table(names[0]).Column("k")).WithArgs(i)
		}
		name := name
		joins = append(joins, []func(b *sqlb.QueryBuilder){
			func(b *sqlb.QueryBuilder) { b.InnerJoin(tbl(name, ""), on) },
			func(b *sqlb.QueryBuilder) { b.LeftJoin(tbl(name, ""), on) },
			func(b *sqlb.QueryBuilder) { b.LeftJoinOptional(tbl(name, ""), on) },
		}[v.Choice(3)])
	}
	col := []*sqlb.Column{t.Column("x"), sqlb.Table(names[1]).Column("x")}[v.Choice(2)]
	others := []func(b *sqlb.QueryBuilder){
		func(b *sqlb.QueryBuilder) { b.Select(col) },
		func(b *sqlb.QueryBuilder) { b.From(tbl("t", "")) },
		nil,
	}
	switch v.Choice(3) {
	case 0:
		others[2] = func(b *sqlb.QueryBuilder) { b.Distinct() }
	case 1:
		others[2] = func(b *sqlb.QueryBuilder) { b.GroupBy(col) }
	case 2:
		others = others[:2]
	}
	b, ordered := sqlb.NewQueryBuilder(), sqlb.NewQueryBuilder()
	for _, do := range others {
		do(ordered)
	}
	for _, do := range joins {
		do(ordered)
	}
	for len(others)+len(joins) > 0 {
		k := 0
		if len(joins) > 0 {
			k = v.Choice(len(others) + 1)
		} else {
			k = v.Choice(len(others)) + 1
		}
		if k == 0 {
			joins[0](b)
			joins = joins[1:]
			continue
		}
		others[k-1](b)
		others = append(append([]func(*sqlb.QueryBuilder){}, others[:k-1]...), others[k:]...)
	}
	r, o := build(b, syntax.Dollar), build(ordered, syntax.Dollar)
	v.Observe("query", r.q)
	v.Assert(!r.fail && !o.fail, "a query fails to build")
	v.Assert(r.equals(o), "the order of calls for different clauses changes the query")
	v.Cover("tables")
}

func commute(n int, x, limit int, all bool, style syntax.BindVarStyle) {
	calls := independent(x, int64(limit))
	var seq []call
	used := [12]bool{}
	for ; n > 0; n-- {
		c := calls[v.Choice(len(calls))]
		seq = append(seq, c)
		used[c.class] = true
	}
	front := v.Bool()
	var fill []call
	for i := len(calls) - 1; i >= 0; i-- { // from the last clause to the first
		c := calls[i]
		if (all || c.class == 2 || c.class == 3) && !used[c.class] && c.class != 0 && c.class != 11 && (i == 0 || calls[i-1].class != c.class) {
			fill = append(fill, c)
		}
	}
	if front {
		seq = append(fill, seq...)
	} else {
		seq = append(seq, fill...)
	}
	b, ordered := sqlb.NewQueryBuilder(), sqlb.NewQueryBuilder()
	for _, c := range seq {
		c.do(b)
	}
	for k := range used {
		for _, c := range seq {
			if c.class == k {
				c.do(ordered)
			}
		}
	}
	r, o := build(b, style), build(ordered, style)
	v.Observe("query", r.q)
	v.Assert(r.fail == o.fail, "calls for different clauses fail in one order only")
	v.Assert(r.equals(o), "the order of calls for different clauses changes the query")
	if r.fail {
		v.Cover("fails")
	} else {
		v.Cover("builds")
	}
}

// ---- C32 ----

func sameBuild(f, g sqlf.QueryBuilder, style syntax.BindVarStyle, what string) {
	a, b := build(f, style), build(g, style)
	v.Observe("query", a.q)
	v.Assert(a.fail == b.fail, what+": one of two equivalent notations fails")
	v.Assert(a.equals(b), what+": two equivalent notations build different queries")
	if a.fail {
		v.Cover("~fails")
	} else {
		v.Cover("builds")
	}
}

func someArgs(n int) []any {
	var r []any
	for i := 0; i < n; i++ {
		r = append(r, v.Int(0, 1))
	}
	return r
}

// spaced builds a text that starts or ends with any byte
type spaced struct{ text string }

func (s spaced) BuildFragment(*sqlf.Context) (string, error) { return s.text, nil }

func someParts(n int) []sqlf.FragmentBuilder {
	var r []sqlf.FragmentBuilder
	for i := 0; i < n; i++ {
		switch v.Choice(3) {
		case 0:
			r = append(r, spaced{v.Str(1, 1, "") + "z" + v.Str(1, 1, "")})
		case 1:
			r = append(r, sqlf.Fa("y?", v.Int(0, 1)))
		case 2:
			r = append(r, sqlb.Table("t").Column("c"))
		}
	}
	return r
}

// references by any of their spellings
func C32_refs() {
	m := v.Pick(2, 3)
	v.Bound("1.." + v.Itoa(m) + " references to 0..2 args and 0..2 fragments with any index 0..3, each in any of its 3..4 spellings, against $n and #fn")
	na, nf := v.Choice(3), v.Choice(3)
	args, fs := someArgs(na), someParts(nf)
	raw, plain := "", ""
	for i := 1 + v.Choice(m); i > 0; i-- {
		k := v.Itoa(v.Choice(4))
		if v.Bool() {
			plain += "#arg" + k + " ; "
			raw += []string{"$" + k, "#arg(" + k + ")", "#arg( " + k + ")", "#arg" + k}[v.Choice(4)] + " ; "
		} else {
			plain += "#f" + k + " ; "
			raw += []string{"#fragment" + k, "#f(" + k + ")", "#fragment( " + k + ")", "#f" + k}[v.Choice(4)] + " ; "
		}
	}
	sameBuild(sqlf.Fa(raw, args...).WithFragments(fs...), sqlf.Ff(plain, fs...).WithArgs(args...), styleOf(v.Choice(2)), "references")
}

// ? and #join against the list of references they stand for
func C32_lists() {
	m := v.Pick(4, 6)
	v.Bound("0.." + v.Itoa(m) + " args or fragments, by ? or #join (template of one or two references, any range) against $n or #fn")
	k := v.Choice(m + 1)
	style := styleOf(v.Choice(2))
	sep := []string{", ", " AND ", ""}[v.Choice(3)]
	args := someArgs(k)
	list := func(from, to int, f func(string) string) string {
		s := ""
		for i := from; i <= to; i++ {
			if i > from {
				s += sep
			}
			s += f(v.Itoa(i))
		}
		return s
	}
	plain := func(i string) string { return "(" + "$" + i + ")" }
	if v.Bool() {
		s := list(1, k, func(string) string { return "(?)" })
		sameBuild(sqlf.Fa(s, args...), sqlf.Fa(list(1, k, plain), args...), style, "?")
		return
	}
	from, to := 1, k
	bounds := ""
	if k > 0 && v.Bool() {
		from = 1 + v.Choice(k)
		bounds = "," + v.Itoa(from)
		if v.Bool() {
			to = from + v.Choice(k-from+1)
			bounds += ", " + v.Itoa(to)
		}
		// use all of them
		args = args[:to]
	}
	name := []string{"#arg", "#f", "#fragment"}[v.Choice(3)]
	tmpl, each := "("+name+")", func(i string) string { return "(" + name + i + ")" }
	if v.Bool() {
		tmpl, each = name+"="+name, func(i string) string { return name + i + "=" + name + i }
	}
	pre := ""
	for i := 1; i < from; i++ {
		pre += name + v.Itoa(i) + ";"
	}
	f, g := sqlf.F(pre+"#join('"+tmpl+"', '"+sep+"'"+bounds+")"), sqlf.F(pre+list(from, to, each))
	if name == "#arg" {
		f.WithArgs(args...)
		g.WithArgs(args...)
	} else {
		for _, a := range args {
			f.AppendFragments(sqlf.Fa("x?", a))
			g.AppendFragments(sqlf.Fa("x?", a))
		}
	}
	sameBuild(f, g, style, "#join")
}

// constructors and setters
func C32_made() {
	v.Bound("a fragment of 6 texts with 0..2 args (the first nil or not) and 0..2 fragments, prefix or suffix or neither, made by 7 ways of constructors, setters and literals, built alone or in another, by BuildQuery or BuildFragment")
	raw := []string{"", "a", "$1 #f1", "#f1", "#join('#arg',',') #join('#f',',')", "?"}[v.Choice(6)]
	args, fs := someArgs(v.Choice(3)), someParts(v.Choice(3))
	if len(args) > 0 && v.Bool() {
		args[0] = nil
	}
	pre, suf := []string{"", "P"}[v.Choice(2)], []string{"", "S"}[v.Choice(2)]
	f := &sqlf.Fragment{Raw: raw, Args: args, Fragments: fs, Prefix: pre, Suffix: suf}
	var g *sqlf.Fragment
	switch v.Choice(7) {
	case 0:
		g = sqlf.F(raw).WithArgs(args...).WithFragments(fs...).WithPrefix(pre).WithSuffix(suf)
	case 1:
		g = sqlf.Fa(raw, args...).WithSuffix(suf).WithPrefix(pre).AppendFragments(fs...)
	case 2:
		g = sqlf.Ff(raw, fs...).AppendArgs(args...).WithPrefix(pre).WithSuffix(suf)
	case 3:
		g = sqlf.Fa(raw, "other").WithPrefix("other").WithFragments(sqlf.F("other")).WithArgs(args...).WithFragments(fs...).WithPrefix(pre).WithSuffix(suf)
	case 4:
		g = sqlf.F(raw).WithPrefix(pre).WithSuffix(suf)
		for _, a := range args {
			g.AppendArgs(a)
		}
		for _, p := range fs {
			g.AppendFragments(p)
		}
	case 5:
		g = sqlf.F("")
		g.Raw = raw
		g.AppendArgs(args...).AppendArgs().AppendFragments().AppendFragments(fs...).WithPrefix(pre).WithSuffix(suf)
	case 6:
		c := *f
		g = &c
	}
	style := styleOf(v.Choice(2))
	if v.Bool() {
		sameBuild(f, g, style, "constructors")
		return
	}
	ctx := sqlf.NewContext(style)
	q, err := g.BuildFragment(ctx)
	r := build(f, style)
	v.Assert((err != nil) == r.fail, "BuildFragment and BuildQuery do not fail alike")
	if err == nil {
		v.Assert(r.equals(result{q: q, args: ctx.Args()}), "BuildFragment and BuildQuery build different queries")
	}
}

// calls of the query builder that stand for others
func C32_calls() {
	v.Bound("16 pairs of calls of the query builder (helpers against what they stand for, one call for many against many, lists in 4 kinds), with symbolic args, DISTINCT or not, after other clauses or before; by BuildQuery or BuildFragment; both styles")
	t := tbl("tab", "t")
	a, b := v.Int(0, 1), v.Int(0, 1)
	x, y := t.Column("x"), sqlb.ExprColumn(sqlf.Ff("#f1+$1", sqlb.Table("j").Column("y")).WithArgs(a))
	on := func() *sqlf.Fragment { return sqlf.Ff("#f1=$1", sqlb.Table("j").Column("k")).WithArgs(b) }
	distinct := v.Bool()
	op := []string{"=", " <> ", " IS ", ">="}[v.Choice(4)]
	var f, g func(q *sqlb.QueryBuilder)
	switch v.Choice(16) {
	case 0:
		f = func(q *sqlb.QueryBuilder) { q.Where2(x, op, a) }
		g = func(q *sqlb.QueryBuilder) { q.Where(sqlf.F("#f1" + op + "$1").WithFragments(x).WithArgs(a)) }
	case 1:
		f = func(q *sqlb.QueryBuilder) { q.WhereIn(x, []int{a, b}) }
		g = func(q *sqlb.QueryBuilder) { q.Where(sqlf.Ff("#f1 IN ($1, $2)", x).WithArgs(a, b)) }
	case 2:
		f = func(q *sqlb.QueryBuilder) { q.WhereNotIn(x, &[]int{a, b}) }
		g = func(q *sqlb.QueryBuilder) { q.Where(sqlf.Ff("#f1 NOT IN (?, ?)", x).WithArgs(a, b)) }
	case 3:
		f = func(q *sqlb.QueryBuilder) { q.WhereIn(x, [2]int{a, b}) }
		g = func(q *sqlb.QueryBuilder) { q.WhereIn(x, []any{a, b}) }
	case 4:
		f = func(q *sqlb.QueryBuilder) { q.WhereIn(x, a) }
		g = func(q *sqlb.QueryBuilder) { q.WhereIn(x, []int{a}) }
	case 5:
		f = func(q *sqlb.QueryBuilder) { q.GroupBy(x, y) }
		g = func(q *sqlb.QueryBuilder) { q.GroupBy(x).GroupBy().GroupBy(y) }
	case 6:
		f = func(q *sqlb.QueryBuilder) { q.Union(sqlf.Fa("SELECT ?", a), sqlf.Fa("SELECT ?", b)) }
		g = func(q *sqlb.QueryBuilder) { q.Union(sqlf.Fa("SELECT ?", a)).Union().Union(sqlf.Fa("SELECT ?", b)) }
	case 7:
		f = func(q *sqlb.QueryBuilder) { q.LeftJoin(tbl("k", ""), on()).Where(on()) }
		g = func(q *sqlb.QueryBuilder) {
			if distinct {
				q.LeftJoinOptional(tbl("k", ""), on()).Where(on()).Where(sqlf.Ff("", sqlb.Table("k")))
				q.LeftJoin(tbl("k", ""), on())
				return
			}
			q.LeftJoinOptional(tbl("k", ""), on()).Where(on())
		}
		v.Assume(!distinct)
	case 8:
		f = func(q *sqlb.QueryBuilder) { q.Select(y, x) }
		g = func(q *sqlb.QueryBuilder) { q.Select(x).Select().Select([]*sqlb.Column{y, x}...).Select() }
	case 9:
		f = func(q *sqlb.QueryBuilder) { q.Select(t.Columns("a", "b")...) }
		g = func(q *sqlb.QueryBuilder) { q.Select(sqlb.Table("t").Column("a"), t.Column("b")) }
	case 10:
		f = func(q *sqlb.QueryBuilder) { q.Select(t.AnonymousColumns("a", "b")...) }
		g = func(q *sqlb.QueryBuilder) { q.Select(sqlb.Table("t").AnonymousColumn("a"), t.AnonymousColumn("b")) }
	case 11:
		f = func(q *sqlb.QueryBuilder) { q.Select(sqlb.ExprColumns(sqlf.Fa("?", a), sqlf.Fa("?", b))...) }
		g = func(q *sqlb.QueryBuilder) {
			q.Select(sqlb.ExprColumn(sqlf.Fa("?", a)), sqlb.ExprColumn(sqlf.Fa("?", b)))
		}
	case 12:
		f = func(q *sqlb.QueryBuilder) { q.From(t.WithAlias("t")) }
		g = func(q *sqlb.QueryBuilder) { q.From(sqlb.TableAliased{Name: "tab", Alias: "t"}) }
	case 13:
		f = func(q *sqlb.QueryBuilder) { q.Where(nil).Limit(int64(a)).Limit(0).Offset(-1) }
		g = func(q *sqlb.QueryBuilder) {
			if a > 0 {
				q.Limit(1)
			}
		}
	case 14:
		f = func(q *sqlb.QueryBuilder) { q.CrossJoin(tbl("k", "")).Distinct().Distinct() }
		g = func(q *sqlb.QueryBuilder) { q.InnerJoin(tbl("k", ""), on()).CrossJoin(tbl("k", "")).Distinct() }
	case 15:
		f = func(q *sqlb.QueryBuilder) {
			q.With(sqlb.Table("k"), sqlf.Fa("SELECT ?", a)).InnerJoin(tbl("k", ""), nil).Debug()
		}
		g = func(q *sqlb.QueryBuilder) {
			q.With(sqlb.Table("k"), sqlf.Fa("SELECT ?", a), []sqlb.Table{}...).InnerJoin(tbl("k", ""), nil)
		}
	}
	before := v.Bool()
	made := func(do func(*sqlb.QueryBuilder)) *sqlb.QueryBuilder {
		q := sqlb.NewQueryBuilder()
		if before {
			do(q)
		}
		q.From(t).Where(sqlf.Fa("?", 7)).LeftJoinOptional(tbl("j", ""), on()).OrderBy(x, sqlb.Desc)
		if distinct {
			q.Distinct()
		}
		if !before {
			q.Select(x)
			do(q)
		} else if len(made2(q)) > 0 {
			q.Select(x)
		}
		return q
	}
	style := styleOf(v.Choice(2))
	qf, qg := made(f), made(g)
	if v.Bool() {
		sameBuild(qf, qg, style, "calls")
		return
	}
	ctx := sqlf.NewContext(style)
	q, err := qg.BuildFragment(ctx)
	r := build(qf, style)
	v.Assert((err != nil) == r.fail, "BuildFragment and BuildQuery of equivalent builders do not fail alike")
	if err == nil {
		v.Assert(r.equals(result{q: q, args: ctx.Args()}), "BuildFragment and BuildQuery of equivalent builders build different queries")
	}
	v.Cover("fragment")
}

// made2 tells by its error that q selects nothing yet.
func made2(q *sqlb.QueryBuilder) string {
	if _, _, err := q.BuildQuery(syntax.Question); err != nil {
		return err.Error()
	}
	return ""
}

// helpers that build and run against building and running
func C32_run() {
	v.Bound("ScanBuilder and CountBuilder against BuildQuery with Scan and Count: 4 builders (one fails), 0..2 rows, of which one fails or cannot be scanned, both styles")
	style := styleOf(v.Choice(2))
	a := v.Int(0, 1)
	var b sqlf.QueryBuilder
	switch v.Choice(4) {
	case 0:
		b = sqlf.Fa("SELECT ?, ?", a, 1)
	case 1:
		b = sqlb.NewQueryBuilder().From(tbl("t", "")).Select(sqlb.Table("t").Column("x")).Where2(sqlb.Table("t").Column("x"), "=", a)
	case 2:
		b = sqlb.NewQueryBuilder()
	case 3:
		b = sqlf.F("SELECT ??, '%d'")
	}
	n, how := v.Choice(3), v.Choice(4)
	plan := func() *v.Plan {
		p := &v.Plan{FailAt: -1, Cols: []string{"n"}}
		for i := 0; i < n; i++ {
			p.Rows = append(p.Rows, []any{int64(i + a)})
		}
		switch how {
		case 1:
			p.FailAt, p.IterErr = n/2, errIter
		case 2:
			p.QueryErr = errIter
		case 3:
			if n > 0 {
				p.Rows[n-1][0] = "word"
			}
		}
		return p
	}
	p1, p2 := plan(), plan()
	var r1, r2 []*int64
	var err1, err2 error
	query, args, err := b.BuildQuery(style)
	if v.Bool() {
		dest := func() (*int64, []any) { x := new(int64); return x, []any{x} }
		r1, err1 = util.ScanBuilder(v.DB{p1}, b, style, dest)
		if err2 = err; err == nil {
			r2, err2 = util.Scan(v.DB{p2}, query, args, dest)
		}
	} else {
		var c1, c2 int64
		c1, err1 = util.CountBuilder(v.DB{p1}, b, style)
		if err2 = err; err == nil {
			c2, err2 = util.Count(v.DB{p2}, query, args)
		}
		r1, r2 = []*int64{&c1}, []*int64{&c2}
	}
	v.Assert((err1 != nil) == (err2 != nil), "a helper and what it stands for do not fail alike")
	v.Assert(errors.Is(err1, errIter) == errors.Is(err2, errIter), "a helper and what it stands for fail with different errors")
	v.Assert(len(r1) == len(r2), "a helper and what it stands for have different results")
	for i := range r1 {
		v.Assert(*r1[i] == *r2[i], "a helper and what it stands for have different results")
	}
	v.Assert(len(p1.Queries) == len(p2.Queries) && p1.Opened == p2.Opened && p1.Closed == p2.Closed, "a helper and what it stands for use the database differently")
	for i := range p1.Queries {
		v.Assert(p1.Queries[i] == p2.Queries[i] && len(p1.Args[i]) == len(p2.Args[i]), "a helper and what it stands for run different queries")
		for k := range p1.Args[i] {
			v.Assert(same(p1.Args[i][k], p2.Args[i][k]), "a helper and what it stands for pass different args")
		}
	}
	v.Cover("run")
}
