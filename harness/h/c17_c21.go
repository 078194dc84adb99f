package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// ---- C17 ----

// each clause absent, with one or with two items
func C17_clauses() {
	v.Bound("every combination of: DISTINCT, select list of 0..2 (possibly replaced), 0..2 conditions (one call of which is nil), 0..2 groupings, 0..2 orderings, limit, offset, 0..2 unions (one of them empty)")
	q := newQuery()
	q.from("tab", "t")
	if v.Bool() {
		q.setDistinct()
	}
	x, y := col("t", "x"), exprCol("t", 5)
	switch v.Choice(4) {
	case 1:
		q.sel(x)
	case 2:
		q.sel(y, x)
	case 3:
		q.sel(x, y)
		q.sel()
		q.sel(anon("t", "n"))
	}
	n := v.Choice(3)
	for i := 0; i < n; i++ {
		if i == 1 {
			q.where(nil)
		}
		q.where(cond("t", i))
	}
	switch v.Choice(4) {
	case 1:
		q.group(x)
	case 2:
		q.group(x, y)
	case 3:
		q.group(y)
		q.group()
		q.group(x)
	}
	n = v.Choice(3)
	for i := 0; i < n; i++ {
		q.order([]part{y, x}[i], sqlb.Order(i*4))
	}
	switch v.Choice(3) {
	case 1:
		q.b.Limit(7)
		q.limit = 7
	case 2:
		q.b.Limit(3)
		q.b.Offset(12)
		q.limit, q.off = 3, 12
	}
	switch v.Choice(4) {
	case 1:
		q.union(sub("SELECT", 1))
	case 2:
		q.union(sub("SELECT", 1), part{b: sqlf.F(" ")}, sub("SELECT 2 +", 2))
	case 3:
		q.union(part{b: (*sqlb.QueryBuilder)(nil)})
		q.union(sub("(a)", 3))
	}
	q.check(syntax.Question, false, "clauses")
}

// limits and offsets of any value
func C17_limits() {
	lim := []int64{0, -1, 1, 9, 10, 2147483648, 9223372036854775807, -9223372036854775808}
	v.Bound("limit and offset -3..12 and at the borders of the integer types, set once or twice")
	q := newQuery()
	q.from("tab", "")
	q.sel(col("tab", "x"))
	set := func() int64 {
		if v.Bool() {
			return lim[v.Choice(len(lim))]
		}
		return int64(v.Int(-3, 12))
	}
	l, o := set(), int64(0)
	q.b.Limit(l)
	if l > 0 {
		q.limit = l
	}
	if v.Bool() {
		o = set()
		q.b.Offset(o)
		if o > 0 {
			q.off = o
		}
	} else if v.Bool() {
		// a later positive value replaces
		m := int64(v.Int(1, 12))
		q.b.Limit(m)
		q.limit = m
	}
	q.check(syntax.Dollar, false, "limits")
}

// any sequence of joins, with From anywhere
func C17_joins() {
	n := v.Pick(2, 3)
	v.Bound("0.." + v.Itoa(n) + " joins of any of 6 kinds (quick: the second of 3 kinds) over 4 tables (with alias, without, with one table under two names), re-joins included, ON conditions nil or with args, From before, between or after them, once or twice, DISTINCT or not")
	q := newQuery()
	names := [][]string{{"o", ""}, {"o", "p"}, {"r", "p"}, {"long_name", "l"}}
	k := v.Choice(n + 1)
	at := v.Choice(k + 1)
	twice := v.Bool()
	for i := 0; i < k; i++ {
		if i == at {
			q.from("tab", "t")
		}
		nm := names[v.Choice(len(names))]
		var on *part
		switch v.Choice(3) {
		case 1:
			on = cond(applied(nm[0], nm[1]), i)
		case 2:
			on = eqCond("t", applied(nm[0], nm[1]))
		}
		kind := []int{0, 2, 5, 1, 3, 4}[v.Choice(6-3*i*v.Pick(1, 0))]
		q.join(kind, nm[0], nm[1], on)
		if i == 0 && twice {
			q.from("first", "f")
		}
	}
	if at == k {
		q.from("tab", "t")
	} else if twice {
		q.from("tab", "t")
	}
	q.sel(col("t", "x"))
	if v.Bool() {
		q.setDistinct()
	}
	q.check(styleOf(v.Choice(2)), false, "joins")
}

// two builders fed from the same slices
func C17_slices() {
	v.Bound("two builders given the same slices (of columns to select, to group by, unions, CTE dependencies; 0..3 elements, 0..2 spare capacity), each then given more of one or two of these, in turn")
	n, sp := v.Choice(4), v.Choice(3)
	cs := make([]*sqlb.Column, n, n+sp)
	us := make([]sqlf.FragmentBuilder, n, n+sp)
	ds := make([]sqlb.Table, n, n+sp)
	var cp, up []part
	var dn []string
	for i := 0; i < n; i++ {
		c, u := col("t", "c"+v.Itoa(i)), sub("SELECT "+v.Itoa(i), v.Int(1, 3))
		cs[i], us[i], ds[i] = c.c, u.b, sqlb.Table("d"+v.Itoa(i))
		cp, up, dn = append(cp, c), append(up, u), append(dn, "d"+v.Itoa(i))
	}
	qs := []*query{newQuery(), newQuery()}
	for _, q := range qs {
		q.b.With("c", sqlf.F("SELECT 1"), ds...)
		q.ctes = append(q.ctes, mcte{"c", part{toks: []tok{{text: "SELECT 1"}}}, dn})
		for i := 0; i < 4; i++ {
			q.with("d"+v.Itoa(i), sub("SELECT d", i))
		}
		q.from("c", "t")
		q.b.Select(cs...)
		q.selects = cp
		if n == 0 {
			q.sel(col("t", "x"))
		}
		q.b.GroupBy(cs...)
		q.groups = append([]part{}, cp...)
		q.b.Union(us...)
		q.unions = append([]part{}, up...)
	}
	a := v.Choice(4)
	b := v.Choice(4)
	for k, q := range qs {
		for _, what := range []int{a, b} {
			nm := "n" + v.Itoa(k) + v.Itoa(what)
			switch what {
			case 0:
				q.group(col("t", nm))
			case 1:
				q.union(sub("SELECT "+nm, k))
			case 2:
				q.group(col("t", nm), col("t", nm+"b"))
			case 3:
				q.union(sub("SELECT "+nm, k), sub("SELECT b"+nm, k))
			}
		}
	}
	style := styleOf(v.Choice(2))
	qs[0].check(style, false, "first of two builders")
	qs[1].check(style, false, "second of two builders")
}

// re-joins replace in place
func C17_rejoins() {
	v.Bound("3 joined tables (the last two optional, or not), then a re-join of any applied name by any of 5 kinds of join, as the same or another table, ON nil, with an arg or referring to another join, and possibly another without ON; DISTINCT or not, one of the tables selected")
	q := newQuery()
	q.from("tab", "t")
	names := []string{"o", "p", "r"}
	opt := v.Choice(2)
	q.join(0, "tab_o", "o", cond("o", v.Int(1, 3)))
	q.join(opt, "tab_p", "p", cond("p", v.Int(1, 3)))
	q.join(opt, "r", "", eqCond("r", "p"))
	for i, n := 0, v.Choice(2)+1; i < n; i++ {
		k := v.Choice(3)
		nm, al := "tab_"+names[k], names[k]
		if k == 2 {
			nm, al = "r", ""
		}
		how := 0
		if i == 0 {
			how = v.Choice(3)
		}
		if how == 2 {
			nm, al = "other", names[k]
		}
		var on *part
		switch {
		case how == 1 && i == 0:
			on = eqCond(names[k], names[(k+1)%3])
		case how != 0:
			on = cond("t", v.Int(1, 3))
		}
		kind := v.Choice(5)
		if i > 0 {
			kind = v.Choice(2)
		}
		q.join(kind, nm, al, on)
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(col("t", "x"), col(names[v.Choice(3)], "y"))
	q.check(styleOf(1-v.Choice(v.Pick(1, 2))), false, "re-joins")
}

// order keywords, aliases of ordered expressions
func C17_orders() {
	v.Bound("0..3 orderings with any of the 6 keywords over 3 kinds of columns, DISTINCT or not (called before or after)")
	q := newQuery()
	q.from("tab", "t")
	q.join(0, "o", "", eqCond("t", "o"))
	d := v.Choice(3)
	if d == 1 {
		q.setDistinct()
	}
	q.sel(col("t", "x"), col("o", "y"))
	n := v.Choice(4)
	for i := 0; i < n; i++ {
		o := sqlb.Order(v.Int(0, 5))
		var p part
		switch (i + v.Choice(2)) % 3 {
		case 0:
			p = col("o", "c"+v.Itoa(i))
		case 1:
			p = exprCol("t", i)
		case 2:
			p = anon("t", "a")
		}
		q.order(p, o)
	}
	if d == 2 {
		q.setDistinct()
	}
	q.check(styleOf(v.Choice(2)), false, "orders")
}

// many items
func C17_sizes() {
	n := []int{9, 10, 11, 33, 65, 100, 129, 257}[v.Choice(v.Pick(6, 8))]
	v.Bound("n columns, conditions, groupings, orderings, joins or unions, n up to 100 (thorough: 257)")
	q := newQuery()
	q.from("tab", "t")
	k := v.Choice(7)
	if k != 0 {
		q.sel(col("t", "x"))
	}
	if k == 6 {
		q.setDistinct()
	}
	var ps []part
	for i := 0; i < n; i++ {
		c := col("t", "c"+v.Itoa(i))
		switch k {
		case 0:
			ps = append(ps, c)
		case 1:
			q.where(cond("t", i))
		case 2:
			q.group(c)
		case 3, 6:
			q.order(c, sqlb.Order(i%6))
		case 4:
			nm := "j" + v.Itoa(i)
			q.join(i%6, nm, "", cond(nm, i))
		case 5:
			q.union(sub("SELECT", i))
		}
	}
	if k == 0 {
		q.sel(ps...)
	}
	q.check(styleOf(v.Choice(2)), true, "many items")
}

// ---- C18 ----

// args in every clause
func C18_clauses() {
	v.Bound("args with symbolic values 0..1 in any subset of: two CTEs (one unused), select, join ON, WHERE (3 forms), GROUP BY, ORDER BY, UNION; DISTINCT or not, both styles")
	a := func() any { return v.Int(0, 1) }
	q := newQuery()
	q.from("tab", "t")
	if v.Bool() {
		q.with("c", sub("SELECT c", 7))
		q.with("unused", sub("SELECT u", 9))
		q.join(2, "c", "", cond("t", 8))
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(exprCol("t", a()))
	if v.Bool() {
		q.join(1, "o", "p", cond("p", a()))
	}
	switch v.Choice(4) {
	case 1:
		q.where(cond("t", a()))
	case 2:
		q.where2(exprCol("t", a()), "<>", 3)
	case 3:
		q.whereIn(exprCol("t", 4), v.Bool(), []int{1, 5, 1}, 1, 5, 1)
	}
	if v.Bool() {
		q.group(exprCol("t", a()))
	}
	if v.Bool() {
		q.order(exprCol("t", a()), sqlb.Desc)
		q.order(exprCol("t", 6), sqlb.Asc)
	}
	if v.Bool() {
		q.union(sub("SELECT", a()))
	}
	q.check(styleOf(v.Choice(2)), true, "args")
}

// builders in builders
func C18_nested() {
	v.Bound("a builder with args in its clauses used as sub-query in 7 clauses of another, as CTE or union part, twice, or inside a fragment with its own args; both styles, DISTINCT or not")
	a := func() any { return v.Int(0, 1) }
	in := newQuery()
	in.from("in", "")
	if v.Bool() {
		in.setDistinct()
	}
	in.sel(exprCol("in", a()))
	in.where(cond("in", a()))
	in.order(exprCol("in", 2), sqlb.Asc)
	its, ok := in.eval()
	v.Assume(ok)
	inner := part{b: in.b, toks: its}
	wrap := func(pre, post string, arg any) part {
		f := sqlf.Ff(pre+"#f1"+post+"$1", in.b).WithArgs(arg)
		return part{f: f, b: f, c: sqlb.ExprColumn(f), toks: cat([]tok{{text: pre}}, its, []tok{{text: post}, {isArg: true, arg: arg}})}
	}
	q := newQuery()
	q.from("tab", "t")
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(exprCol("t", a()))
	for i := v.Pick(1, 2); i > 0; i-- {
		switch v.Choice(9) {
		case 0:
			w := wrap("EXISTS (", ") AND 1=", a())
			q.where(&w)
		case 1:
			q.sel(exprCol("t", a()), wrap("(", ")+", a()))
		case 2:
			w := wrap("(", ")=", a())
			q.join(0, "o", "", &w)
		case 3:
			q.group(wrap("(", ")+", a()))
		case 4:
			q.order(wrap("(", ")+", a()), sqlb.Desc)
		case 5:
			q.union(inner, sub("x", a()), inner)
		case 6:
			q.with("c", inner)
			q.join(0, "c", "d", cond("d", a()))
		case 7:
			w := wrap("(", ") UNION ", a())
			q.with("c", w)
			q.with("e", inner, "c")
			q.join(0, "e", "", nil)
		case 8:
			x := a()
			q.whereIn(wrap("(", ")*", a()), true, []any{x, "s"}, x, "s")
		}
	}
	q.where(cond("t", a()))
	q.check(styleOf(v.Choice(2)), true, "nested builders")
}

// lists of WhereIn
func C18_in() {
	v.Bound("WhereIn/WhereNotIn with lists of 0..3 ints of symbolic value, of strings, of any, an array, a pointer to a slice, a scalar, sizes 10, 33, 65; beside another condition")
	q := newQuery()
	q.from("tab", "t")
	q.sel(col("t", "x"))
	if v.Bool() {
		q.where(cond("t", v.Int(0, 1)))
	}
	not := v.Bool()
	c := col("t", "y")
	switch v.Choice(7) {
	case 0:
		n := v.Choice(4)
		l, e := []int{}, []any{}
		for i := 0; i < n; i++ {
			x := v.Int(0, 2)
			l, e = append(l, x), append(e, x)
		}
		q.whereIn(c, not, l, e...)
	case 1:
		s := v.Str(0, 2, "")
		q.whereIn(c, not, []string{s, "b"}, s, "b")
	case 2:
		q.whereIn(c, not, []any{1, "1", nil, int64(1)}, 1, "1", nil, int64(1))
	case 3:
		q.whereIn(c, not, [2]bool{true, false}, true, false)
	case 4:
		q.whereIn(c, not, &[]int64{7, 8}, int64(7), int64(8))
	case 5:
		q.whereIn(c, not, 5, 5)
	case 6:
		n := []int{10, 33, 65}[v.Choice(3)]
		var l []int
		var e []any
		for i := 0; i < n; i++ {
			l, e = append(l, i), append(e, i)
		}
		q.whereIn(c, not, l, e...)
	}
	q.where(cond("t", 1))
	q.check(styleOf(v.Choice(2)), true, "lists")
}

// ---- C19 ----

// refPart refers to a table in one of many ways.
func refPart(t string, how int) part {
	c := sqlb.Table(t).Column("k")
	f := part{tables: []string{t}}
	switch how {
	case 0:
		f.f = sqlf.Ff("#f1 > 0", c)
		f.toks = []tok{{text: t + ".k > 0"}}
	case 1:
		f.f = sqlf.Ff("(#f1)", sqlf.Ff("(#join('#f','+'))", sqlf.F("1"), c))
		f.toks = []tok{{text: "((1+" + t + ".k))"}}
	case 2:
		f.f = sqlf.Ff("#f1.*", sqlb.Table(t))
		f.toks = []tok{{text: t + ".*"}}
	case 3:
		f.f = sqlf.Ff("#f1.*", tbl("whatever", t))
		f.toks = []tok{{text: t + ".*"}}
	case 4:
		f.f = sqlf.Ff("#f1", sqlb.ExprColumn(sqlf.Ff("g(#f1)", sqlb.ExprColumn(sqlf.Ff("h(#f1)", c)))))
		f.toks = []tok{{text: "g(h(" + t + ".k))"}}
	case 5:
		f.f = sqlf.Ff("#f1=1", sqlb.Table(t).AnonymousColumn("only"))
		f.toks = []tok{{text: "only=1"}}
	}
	f.c = sqlb.ExprColumn(f.f)
	if how == 5 {
		f.c = sqlb.Table(t).AnonymousColumn("only")
		f.toks = []tok{{text: "only=1"}}
		f.c = sqlb.ExprColumn(f.f)
	}
	return f
}

// any graph of joins
func C19_graph() {
	n := v.Pick(3, 3)
	v.Bound(v.Itoa(n) + " joins, each optional or not, the ON of each nil or referring to itself and any (one) of the tables, declared before or after it; one reference in WHERE to any table or an undeclared one; DISTINCT or not")
	q := newQuery()
	q.from("tab", "t")
	names := []string{"t", "a", "b", "c"}[:n+1]
	for i := 1; i <= n; i++ {
		var on *part
		if k := v.Choice(n + 2); k <= n {
			on = eqCond(names[i], names[k])
		}
		opt := 0
		if v.Bool() {
			opt = 1
		}
		q.join(opt, "table"+v.Itoa(i), names[i], on)
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(col("t", "x"))
	// which table: decided by the solver
	t := v.Str(1, 1, "tabcu")
	q.where(&part{f: sqlf.Ff("#f1=1", sqlb.Table(t).Column("id")), toks: []tok{{text: t + ".id=1"}}, tables: []string{t}})
	q.check(syntax.Question, false, "join graph")
}

// any place and form of reference
func C19_places() {
	v.Bound("a chain of 3 optional joins (each needing the previous one or none), one reference of 6 forms in each of 4 clauses, to any of the tables (with or without alias) or an undeclared one")
	q := newQuery()
	q.from("tab", "")
	chain := v.Choice(4)
	on := func(i int, a, b string) *part {
		if chain > i {
			return eqCond(a, b)
		}
		return cond(a, 1)
	}
	q.join(1, "aa", "a", on(0, "a", "tab"))
	q.join(1, "b", "", on(1, "b", "a"))
	q.join(1, "aa", "c", on(2, "c", "b"))
	q.setDistinct()
	t := []string{"tab", "a", "b", "c", "aa", "x"}[v.Choice(6)]
	p := refPart(t, v.Choice(6))
	q.sel(col("tab", "x"))
	switch v.Choice(4) {
	case 0:
		q.sel(col("tab", "x"), p)
	case 1:
		q.where(cond("tab", 1))
		q.where(&p)
	case 2:
		q.group(p)
	case 3:
		q.order(p, sqlb.Asc)
	}
	q.check(styleOf(v.Choice(2)), false, "references")
}

// re-joined tables, tables of equal name
func C19_rejoin() {
	v.Bound("up to 3 joins (optional or not) over two applied names of tables with equal names, re-joins changing whether a join is optional and what its ON needs; one reference to any; DISTINCT or not")
	q := newQuery()
	q.from("x", "t")
	for i := v.Choice(3) + 1; i > 0; i-- {
		al := []string{"", "y"}[v.Choice(2)]
		nm := applied("x", al)
		var on *part
		switch v.Choice(3) {
		case 1:
			on = eqCond(nm, "x")
		case 2:
			on = eqCond(nm, "y")
		}
		q.join(v.Choice(2), "x", al, on)
	}
	if v.Bool() {
		q.setDistinct()
	}
	r := []string{"t", "x", "y"}[v.Choice(3)]
	q.sel(col(r, "c"))
	q.check(syntax.Dollar, false, "re-joins")
}

// many references, one of them to the table in question
func C19_counts() {
	v.Bound("1, 2, 3, 4, 5, 8, 9 or 17 selected columns, conditions, groupings, orderings, or unions' and CTEs' neighbours, of which any one refers to an optional join (whose ON needs another), or none; DISTINCT, with or without a GROUP BY or LIMIT besides")
	n := []int{1, 2, 3, 4, 5, 8, 9, 17}[v.Choice(v.Pick(7, 8))]
	at := v.Choice(n + 1)
	q := newQuery()
	q.from("m", "t")
	q.join(1, "a", "", eqCond("a", "t"))
	q.join(1, "b", "", eqCond("b", "a"))
	q.join(1, "c", "", eqCond("c", "t"))
	q.setDistinct()
	tab := func(i int) string {
		if i == at {
			return "b"
		}
		return "t"
	}
	place := v.Choice(5)
	if place != 0 {
		q.sel(col("t", "x"))
	}
	if place != 2 && v.Bool() {
		q.group(col("t", "g"))
	}
	for i := 0; i < n; i++ {
		switch place {
		case 0:
			q.sel(col(tab(i), "x"+v.Itoa(i)))
		case 1:
			q.where(cond(tab(i), i))
		case 2:
			q.group(col(tab(i), "x"+v.Itoa(i)))
		case 3:
			q.order(col(tab(i), "x"+v.Itoa(i)), sqlb.Desc)
		case 4:
			q.where(refsPart(n, at))
		}
		if place == 4 {
			break
		}
	}
	q.check(styleOf(v.Choice(2)), false, "number of references")
}

// refsPart is one condition with n references, the one at `at` to the table b
func refsPart(n, at int) *part {
	p := &part{toks: []tok{{text: "1"}}}
	raw := "1"
	var fs []sqlf.FragmentBuilder
	for i := 0; i < n; i++ {
		t := "t"
		if i == at {
			t = "b"
		}
		raw += " AND #f" + v.Itoa(i+1)
		fs = append(fs, sqlb.Table(t).Column("c"))
		p.toks = append(p.toks, tok{text: " AND " + t + ".c"})
		p.tables = append(p.tables, t)
	}
	p.f = sqlf.Ff(raw, fs...)
	return p
}

// many joins
func C19_sizes() {
	n := []int{4, 5, 6, 8, 9, 10, 17, 33, 65}[v.Choice(v.Pick(7, 9))]
	v.Bound("4..17 (thorough: ..65) joins, optional or every third not, whose conditions refer to one another in 8 ways (chains in either direction, trees, stars, cycles, several at once); any of 5 of them and the main table referenced, in one of 4 clauses")
	q := newQuery()
	q.from("m", "")
	name := func(i int) string {
		if i < 0 || i >= n {
			return "m"
		}
		return "j" + v.Itoa(i)
	}
	shape, some := v.Choice(8), v.Bool()
	for i := 0; i < n; i++ {
		var to []int
		switch shape {
		case 0:
			to = []int{i - 1}
		case 1:
			to = []int{i + 1}
		case 2:
			to = []int{(i - 1) / 2}
		case 3:
			to = []int{2*i + 1, 2*i + 2}
		case 4:
			if i == n/2 {
				for j := n - 1; j >= 0; j-- {
					to = append(to, j)
				}
			}
		case 5:
			to = []int{n - 1, i - 2}
		case 6:
			to = []int{(i + 1) % n}
		}
		var fs []sqlf.FragmentBuilder
		p := &part{}
		raw := "1"
		for k, j := range to {
			raw += " AND #f" + v.Itoa(k+1)
			fs = append(fs, sqlb.Table(name(j)).Column("c"))
			p.toks = append(p.toks, tok{text: " AND " + name(j) + ".c"})
			p.tables = append(p.tables, name(j))
		}
		p.toks = append([]tok{{text: "1"}}, p.toks...)
		p.f = sqlf.Ff(raw, fs...)
		kind := 1
		if some && i%3 == 2 {
			kind = 2
		}
		q.join(kind, name(i), "", p)
	}
	q.setDistinct()
	r := name([]int{0, 1, n / 2, n - 2, n - 1, n}[v.Choice(6)])
	switch v.Choice(4) {
	case 0:
		q.sel(col(r, "x"))
	case 1:
		q.sel(col("m", "x"))
		q.where(cond(r, 1))
	case 2:
		q.sel(col("m", "x"))
		q.group(col(r, "x"))
	case 3:
		q.sel(col("m", "x"))
		q.order(col(r, "x"), sqlb.Asc)
	}
	q.check(syntax.Question, false, "many joins")
}

// ---- C20 ----

// any dependencies between CTEs
func C20_deps() {
	n := 3
	v.Bound("3 CTEs, each with 0..1 (thorough: 0..2) dependencies, symbolic: any CTE (also itself), the alias, or an unknown name; main table one of the CTEs (under an alias that is the name of another) or none; declared before or after From")
	q := newQuery()
	names := []string{"a", "b", "c"}
	before := v.Bool()
	main := v.Str(1, 1, "abcz")
	alias := []string{"", "m", "c", "a"}[v.Choice(4)]
	if before {
		q.from(main, alias)
	}
	for i := 0; i < n; i++ {
		var deps []string
		for k := v.Choice(v.Pick(2, 3)); k > 0; k-- {
			deps = append(deps, v.Str(1, 1, "abcm"))
		}
		q.with(names[i], sub("SELECT "+names[i], i), deps...)
	}
	if !before {
		q.from(main, alias)
	}
	q.sel(col(applied(main, alias), "x"))
	q.check(syntax.Question, false, "CTEs")
}

// many CTEs
func C20_sizes() {
	sizes := []int{4, 5, 6, 8, 9, 10, 11, 16, 17, 33, 65}
	n := sizes[v.Choice(v.Pick(9, len(sizes)))]
	v.Bound("n CTEs with n in sizes up to " + v.Itoa(sizes[v.Pick(9, len(sizes))-1]) + ", depending on one another in 9 ways (chains, stars, trees, cycles, everything on everything, none); main table any of 5 of them or none, another one joined or not, in an optional join or not, referenced or not")
	q := newQuery()
	name := func(i int) string { return "c" + v.Itoa((i+n)%n) }
	shape := v.Choice(9)
	for i := 0; i < n; i++ {
		var deps []string
		switch shape {
		case 0:
			deps = []string{name(i + 1)}
		case 1:
			if i > 0 {
				deps = []string{name(i - 1)}
			}
		case 2:
			if i == n/2 {
				for j := n - 1; j >= 0; j-- {
					deps = append(deps, name(j))
				}
			}
		case 3:
			for j := 0; j < n; j++ {
				deps = append(deps, name(j))
			}
		case 4:
			if 2*i+2 < n {
				deps = []string{name(2*i + 1), name(2*i + 2)}
			}
		case 5:
			if i > 0 {
				deps = []string{name((i - 1) / 2)}
			}
		case 6:
			deps = []string{"x", name(i + 2), name(i + 2), "y"}
		case 7:
			if i < n-2 {
				deps = []string{name(n - 1)}
			}
		}
		q.with(name(i), sub("SELECT ", i), deps...)
	}
	main := "m"
	if k := v.Choice(6); k > 0 {
		main = name([]int{0, 1, n / 2, n - 2, n - 1}[k-1])
	}
	q.from(main, "t")
	q.sel(col("t", "x"))
	if k := v.Choice(4); k > 0 {
		q.join(k&1, name([]int{0, n / 2, n - 1}[k-1]), "j", nil)
		if v.Bool() {
			q.setDistinct()
			if v.Bool() {
				q.where(cond("j", 1))
			}
		}
	}
	if v.Bool() { // all of them
		for i := 0; i < n; i++ {
			q.join(1, name(i), "", nil)
		}
	}
	q.check(syntax.Question, false, "CTEs")
}

// CTEs needed by joins that stay or go
func C20_joins() {
	v.Bound("2 CTEs, one depending on the other or not, used by 0..2 joins with or without alias, optional or not, referenced or not; DISTINCT or not")
	q := newQuery()
	if v.Bool() {
		q.with("a", sub("SELECT a", 1), "b")
	} else {
		q.with("a", sub("SELECT a", 1))
	}
	q.with("b", sub("SELECT b", 2))
	if v.Bool() {
		q.setDistinct()
	}
	q.from("m", "")
	q.sel(col("m", "x"))
	k := v.Choice(3)
	for i := 0; i < k; i++ {
		nm := []string{"a", "b", "z"}[v.Choice(3)]
		al := []string{"", "a", "b", "q"}[v.Choice(4)]
		for _, j := range q.joins {
			// one applied name, one join
			v.Assume(applied(j.name, j.alias) != applied(nm, al))
		}
		q.join(v.Choice(2), nm, al, nil)
		if v.Bool() {
			q.where(cond(applied(nm, al), i))
		}
	}
	q.check(syntax.Question, false, "CTEs of joins")
}

// tables without alias, main table not a CTE's alias, sub-queries of their own
func C20_nested() {
	v.Bound("a builder with CTEs as CTE body, union part or sub-query of a builder with CTEs, names equal or not")
	in := newQuery()
	in.with("a", sub("SELECT ia", 1))
	in.with("u", sub("SELECT iu", 2))
	nm := []string{"a", "u", "b"}[v.Choice(3)]
	in.from(nm, "i")
	in.sel(col("i", "x"))
	its, _ := in.eval()
	q := newQuery()
	q.with("b", sub("SELECT b", 3))
	p := part{b: in.b, toks: its}
	switch v.Choice(3) {
	case 0:
		q.with("a", p, "b")
		q.from("a", "")
	case 1:
		q.from("a", "")
		q.union(p)
	case 2:
		q.from("b", "a")
		q.with("a", sub("SELECT a", 4))
		q.where(&part{f: sqlf.Ff("EXISTS (#f1)", in.b), toks: cat([]tok{{text: "EXISTS ("}}, its, []tok{{text: ")"}})})
	}
	q.sel(col("a", "x"))
	q.check(styleOf(v.Choice(2)), true, "nested CTEs")
}

// ---- C21 ----

// any short sequence of calls builds or fails, the same every time
func C21_calls() {
	n := v.Pick(3, 4)
	v.Bound("sequences of 0.." + v.Itoa(n) + " of 18 calls (nil conditions, nil fragments, empty names, undeclared tables, invalid orders, self-references among them); built in both styles, again, and in debug mode")
	q := newQuery()
	nilf := (*sqlf.Fragment)(nil)
	bad := false // a call after which every build must fail
	for k := v.Choice(n + 1); k > 0; k-- {
		switch v.Choice(18) {
		case 0:
			q.from("tab", "t")
		case 1:
			q.sel(col("t", "x"))
		case 2:
			q.where(nil)
		case 3:
			q.where(&part{f: sqlf.Ff("a #f1 b", nilf), toks: []tok{{text: "a  b"}}})
		case 4:
			q.setDistinct()
		case 5:
			q.join(0, "o", "", nil)
		case 6:
			q.join(1, "o", "", eqCond("o", "t"))
		case 7:
			q.order(col("t", "y"), sqlb.Order(v.Int(0, 7)))
		case 8:
			q.group(exprCol("o", 1))
		case 9:
			q.b.From(tbl("", "x"))
			bad = true
		case 10:
			q.b.LeftJoin(tbl("", "x"), nil)
			bad = true
		case 11:
			q.union(part{b: (*sqlb.QueryBuilder)(nil)}, part{b: nilf})
		case 12:
			q.with("o", sub("SELECT", 1), "o", "nope")
		case 13:
			q.sel(part{c: sqlb.ExprColumn(nil)}, col("t", "z"))
			v.Assume(false) // see C21_nil
		case 14:
			q.join(5, "cr", "c", nil)
		case 15:
			q.whereIn(col("t", "i"), false, []int{1, 2}, 1, 2)
		case 16:
			q.sel(col("o", "z"), col("t", "w"))
		case 17:
			q.where(&part{f: sqlf.Ff("#join('#f',' OR ')", nilf, sqlf.F("c")), toks: []tok{{text: "c"}}})
		}
	}
	q.checkTwice(bad)
}

// checkTwice builds repeatedly and compares with the model and with itself.
func (q *query) checkTwice(bad bool) { q.checkRepeat(bad, true) }

func (q *query) checkRepeat(bad, full bool) {
	ts, ok := q.eval()
	if bad {
		ok = false
	}
	style := syntax.Dollar
	a := build(q.b, style)
	v.Observe("q", a.q)
	v.Assert(ok || a.fail, "misuse is not reported")
	v.Assert(!ok || !a.fail, "a valid query fails")
	b := build(q.b, syntax.Question)
	if full {
		c := build(q.b, style)
		v.Assert(a.equals(c), "building again gives another result")
	}
	v.Assert(b.fail == a.fail, "the style decides whether a query builds")
	q.b.Debug()
	d := build(q.b, style)
	v.Assert(a.equals(d), "building again in debug mode gives another result")
	if ok {
		checkDenotes(squeeze(a.q), a.args, squeezeToks(ts), style, "sequence of calls")
		v.Cover("built")
	} else {
		v.Cover("error")
	}
}

// further calls after a build have the effect they have before
func C21_later() {
	v.Bound("1..2 of 9 calls before and 1 (thorough: 1..2) after a build: as if all had come before it")
	mk := func(q *query, i int) {
		switch i {
		case 0:
			q.order(exprCol("t", 1), sqlb.Desc)
		case 1:
			q.setDistinct()
		case 2:
			q.where(cond("o", 2))
		case 3:
			q.sel(col("t", "y"))
		case 4:
			q.join(1, "o", "", eqCond("o", "t"))
		case 5:
			q.group(col("t", "g"))
		case 6:
			q.union(sub("SELECT", 3))
		case 7:
			q.with("o", sub("SELECT o", 4))
		case 8:
			q.join(0, "o", "", cond("o", 5))
		}
	}
	q := newQuery()
	q.from("tab", "t")
	q.sel(col("t", "x"))
	for k := v.Choice(2) + 1; k > 0; k-- {
		mk(q, v.Choice(9))
	}
	build(q.b, styleOf(v.Choice(2)))
	for k := v.Choice(v.Pick(1, 2)) + 1; k > 0; k-- {
		mk(q, v.Choice(9))
	}
	q.checkTwice(false)
}

// nil values where fragments or columns go
func C21_nil() {
	v.Bound("nil columns, columns of nil fragments, nil fragments, nil builders in each clause that takes them, with and without DISTINCT: no panic, the same outcome every time")
	b := sqlb.NewQueryBuilder()
	t := tbl("tab", "t")
	nilf := (*sqlf.Fragment)(nil)
	var nilc *sqlb.Column
	if v.Bool() {
		b.From(t)
	}
	if v.Bool() {
		b.Select(t.Column("x"))
	}
	if v.Bool() {
		b.Distinct()
	}
	c := []*sqlb.Column{nilc, sqlb.ExprColumn(nil), expr("#f1", nil), expr("#f1", nilf), expr(""), expr("#f1", nilc), t.Column("")}[v.Choice(7)]
	switch v.Choice(10) {
	case 0:
		b.Select(c)
	case 1:
		b.Select(c, t.Column("y"))
	case 2:
		b.GroupBy(c)
	case 3:
		b.OrderBy(c, sqlb.Asc)
	case 4:
		b.Where2(c, "=", nil)
	case 5:
		b.WhereIn(c, nil)
	case 6:
		b.Where(sqlf.Ff("#f1 #f2", c, nil))
	case 7:
		b.LeftJoin(tbl("o", ""), sqlf.Ff("#f1", c))
	case 8:
		b.Union(c, nilf, (*sqlb.QueryBuilder)(nil))
		v.Assume(c != nil)
	case 9:
		b.With("t", c).With("tab", nilf)
		v.Assume(c != nil)
	}
	a := build(b, syntax.Dollar)
	v.Observe("fail", a.msg[:0])
	e := build(b, syntax.Question)
	v.Assert(a.fail == e.fail, "the style decides whether a query builds")
	b.Debug()
	v.Assert(build(b, syntax.Dollar).equals(a), "building again gives another result")
	var none *sqlb.QueryBuilder
	q, err := none.BuildFragment(sqlf.NewContext(syntax.Dollar))
	v.Assert(q == "" && err == nil, "a nil builder is not empty")
	v.Cover("nil")
}

// misuse fails every build
func C21_misuse() {
	v.Bound("an empty or missing table, no columns, an undeclared table in any of 6 places, an invalid order (6 values), alone and followed by valid calls; every one of 3 builds fails")
	b := sqlb.NewQueryBuilder()
	t, u := tbl("tab", "t"), tbl("un", "")
	from, sel := true, true
	k := v.Choice(12)
	switch k {
	case 0:
		from = false
	case 1:
		sel = false
	case 2:
		b.From(tbl("", ""))
	case 3:
		b.InnerJoin(tbl("", "j"), sqlf.F("1=1"))
	case 4:
		b.OrderBy(t.Column("x"), sqlb.Order([]int{6, 7, 255, 256, 1 << 31, 1 << 62}[v.Choice(6)]))
	case 5:
		b.Where(sqlf.Ff("#f1", u.Column("x")))
	case 6:
		b.GroupBy(u.Column("x"))
	case 7:
		b.OrderBy(u.Column("x"), sqlb.Asc)
	case 8:
		b.LeftJoin(tbl("o", ""), sqlf.Ff("#f1", u.Column("x")))
	case 9:
		b.WhereIn(u.Column("x"), []int{1})
	case 10:
		b.CrossJoin(tbl("", ""))
	case 11:
		b.Select(u.Column("x"))
		sel = false
	}
	if from {
		b.From(t)
	}
	if sel {
		b.Select(t.Column("x"))
	}
	if v.Bool() {
		b.Distinct()
	}
	if v.Bool() {
		b.LeftJoin(tbl("oo", ""), nil).OrderBy(t.Column("z"), sqlb.Desc)
	}
	for i := 0; i < 3; i++ {
		q, args, err := b.BuildQuery(styleOf(i % 2))
		v.Assert(err != nil && q == "" && args == nil, "misuse is not reported")
	}
	_, err := b.BuildFragment(sqlf.NewContext(syntax.Dollar))
	v.Assert(err != nil, "misuse is not reported")
	v.Cover("misuse")
}

// conditions over trees of fragments
func C19_trees() {
	v.Bound("a condition (in WHERE or ON) 2 levels of fragments above a column, each level with 1..3 (thorough 5) fragments (the others with arguments) by #f or #join, with or without arguments of its own, as a fragment or an expression column; two joins, one optional or not")
	treeQuery(3 + v.Choice(2))
}
