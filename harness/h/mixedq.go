package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// Queries that deviate from a usual one in a few ways at once, see mixed.go.

// usual ways of a mixed query
type usualq struct {
	distinct, from, sels, join1, join2, wheres, groups, orders, limits, unions, ctes int
}

const (
	nDistinct = 4
	nFrom     = 9
	nSels     = 15
	nJoin1    = 20
	nJoin2    = 18
	nWheres   = 22
	nGroups   = 10
	nOrders   = 16
	nLimits   = 10
	nUnions   = 14
	nCTEs     = 20
)

// mixer holds what the clauses of a mixed query share.
type mixer struct {
	q      *query
	col    part  // the same *Column wherever used
	cnd    *part // the same *Fragment wherever used
	inner  part  // the same *QueryBuilder
	a, b   any
	bytes  []byte
	failed bool // a call was made after which builds fail
}

func (m *mixer) wrap(pre, post string, arg any) part {
	f := sqlf.Ff(pre+"#f1"+post+"$1", m.inner.b).WithArgs(arg)
	return part{f: f, b: f, c: sqlb.ExprColumn(f), toks: cat([]tok{{text: pre}}, m.inner.toks, []tok{{text: post}, {isArg: true, arg: arg}})}
}

func empty() part {
	f := sqlf.F(" ").WithPrefix("P")
	return part{f: f, b: f, c: sqlb.ExprColumn(f)}
}

// afterNil refers to a table after a nil fragment.
func afterNil(t string) part {
	f := sqlf.Ff("#join('#f',' ') #f1 #f3 #f2=0", (*sqlf.Fragment)(nil), sqlb.Table(t).Column("n"), (*sqlf.Fragment)(nil))
	return part{f: f, c: sqlb.ExprColumn(f), toks: []tok{{text: t + ".n " + t + ".n=0"}}, tables: []string{t}}
}

func deepRef(t string) part {
	f := sqlf.Ff("f(#f1)", sqlf.Ff("g(#join('#f', ''))", sqlf.F("1+"), sqlf.Ff("#f1", sqlb.ExprColumn(sqlf.Ff("#fragment1", sqlb.Table(t).Column("d"))))))
	return part{f: f, b: f, c: sqlb.ExprColumn(f), toks: []tok{{text: "f(g(1+" + t + ".d))"}}, tables: []string{t}}
}

func (m *mixer) distinct(k int, last bool) {
	if k == 1 && !last || k == 2 && last || k == 3 {
		m.q.setDistinct()
	}
}

func (m *mixer) from(k int, late bool) {
	q := m.q
	if late != (k == 3 || k == 4) {
		return
	}
	switch k {
	case 0, 3:
		q.from("tab", "t")
	case 1:
		q.from("t", "")
	case 2, 4:
		q.from("first", "f")
		q.from("tab", "t")
	case 5:
		q.from("c", "t")
	case 6:
		q.from("tab", "t")
		q.from("tab", "t")
	case 7:
		q.from("tab", "c")
	case 8:
		q.b.From(tbl("", "t"))
		m.failed = true
		q.main = []string{"", "t"}
	}
}

func (m *mixer) sels(k int) {
	q := m.q
	x := col("t", "x")
	switch k {
	case 0:
		q.sel(x)
	case 1:
		q.sel(m.col)
	case 2:
		q.sel(m.col, x, m.col)
	case 3:
		q.sel(x, x)
	case 4:
		q.sel(x, col("o", "y"))
	case 5:
		q.sel(col("p", "y"))
		q.sel(x)
		q.sel()
	case 6:
		q.sel(x, m.wrap("(", ")+", m.a))
	case 7: // none
	case 8:
		q.sel(empty(), x, empty())
	case 9:
		q.sel(anon("p", "n"), exprCol("t", m.b), x)
	case 10:
		q.sel(afterNil("o"), x)
	case 11:
		q.sel(part{c: sqlb.Table("").Column("bare"), toks: []tok{{text: "bare"}}}, x)
	case 12:
		q.sel(empty())
	case 13:
		q.sel(x, anon("t", "t.x AS _order_1"))
	case 14:
		q.sel(anon("o", "_order_1"), anon("t", "*"), col("t", "*"))
	}
}

func (m *mixer) join1(k int) {
	q := m.q
	switch k {
	case 1:
		q.join(1, "oth", "o", eqCond("o", "t"))
	case 2:
		q.join(1, "o", "", eqCond("t", "o"))
	case 3:
		q.join(0, "oth", "o", cond("o", m.a))
	case 4:
		q.join(2, "o", "", nil)
	case 5:
		q.join(5, "oth", "o", nil)
	case 6:
		q.join(1, "oth", "o", eqCond("o", "p"))
	case 7:
		q.join(1, "tab", "o", m.cnd)
	case 8:
		q.join(0, "c", "o", eqCond("o", "t"))
	case 9:
		q.join(1, "c", "o", nil)
	case 10:
		q.join(1, "o", "", m.cnd)
	case 11:
		w := m.wrap("(", ")=", m.b)
		q.join(3, "oth", "o", &w)
	case 12:
		p := afterNil("p")
		q.join(1, "oth", "o", &p)
	case 13:
		q.join(0, "oth", "o", eqCond("p", "o"))
	case 14:
		p := deepRef("p")
		q.join(4, "d", "o", &p)
	case 15:
		q.join(1, "oth", "o", eqCond("o", "o"))
	case 16:
		q.join(1, "oth", "o", eqCond("u", "o"))
	case 17:
		q.b.LeftJoin(tbl("", "o"), nil)
		m.failed = true
	case 18, 19: // the main table's name once more
		if q.main != nil && applied(q.main[0], q.main[1]) == "t" {
			on := sqlf.F("1=1")
			if k == 18 {
				q.b.InnerJoin(tbl("t", ""), on)
			} else {
				q.b.LeftJoinOptional(tbl("oth", "t"), on)
			}
			m.failed = true
		} else {
			q.join(2, "oth", "o", nil)
		}
	}
}

func (m *mixer) join2(k int) {
	q := m.q
	switch k {
	case 1:
		q.join(1, "pp", "p", eqCond("p", "o"))
	case 2:
		q.join(0, "p", "", nil)
	case 3:
		q.join(1, "oth", "o", cond("o", m.b))
	case 4:
		q.join(0, "oth", "o", nil)
	case 5:
		q.join(2, "other", "o", eqCond("t", "o"))
	case 6:
		q.join(1, "tab", "p", eqCond("p", "t"))
	case 7:
		q.join(1, "pp", "p", eqCond("p", "p"))
	case 8:
		q.join(0, "pp", "p", eqCond("o", "t"))
	case 9:
		q.join(1, "oth", "p", eqCond("p", "o"))
		q.join(1, "oth", "r", eqCond("r", "p"))
	case 10:
		q.join(1, "d", "p", m.cnd)
	case 11:
		q.join(0, "pp", "p", eqCond("p", "o"))
		q.join(1, "pp", "p", nil)
	case 12:
		q.join(5, "c", "p", nil)
	case 13:
		q.join(1, "pp", "p", eqCond("p", "o"))
		q.join(1, "pp", "p", eqCond("p", "t"))
	case 14:
		q.join(1, "pp", "p", eqCond("r", "o"))
		q.join(1, "rr", "r", eqCond("p", "r"))
	case 15:
		q.join(1, "p", "", nil)
		q.join(2, "o", "", m.cnd)
	case 16:
		q.join(0, "pp", "p", eqCond("p", "t"))
		q.join(1, "oth", "o", cond("o", m.b))
	case 17:
		q.join(1, "pp", "p", eqCond("p", "o"))
		q.join(3, "oth", "o", eqCond("o", "t"))
	}
}

func (m *mixer) wheres(k int) {
	q := m.q
	switch k {
	case 1:
		q.where(cond("t", m.a))
	case 2:
		q.where(cond("o", m.b))
	case 3:
		q.where(m.cnd)
		q.where(m.cnd)
	case 4:
		q.where(nil)
		p := afterNil("p")
		q.where(&p)
	case 5:
		q.where2(col("o", "k"), "=", nil)
	case 6:
		q.whereIn(m.col, v.Bool(), []int{})
	case 7:
		q.whereIn(col("t", "i"), true, []any{m.a, 1, m.b, 1}, m.a, 1, m.b, 1)
	case 8:
		q.where2(m.col, "<>", m.a)
		q.where2(m.col, "<>", m.a)
	case 9:
		p := deepRef("p")
		q.where(&p)
	case 10:
		w := m.wrap("EXISTS (", ") AND 1=", m.b)
		q.where(&w)
	case 11:
		q.where(cond("u", 1))
	case 12:
		e := empty()
		q.where(&e)
	case 13:
		e := empty()
		q.where(cond("t", m.a))
		q.where(&e)
		q.where(cond("t", m.a))
	case 14:
		q.where(cond("t", m.bytes))
	case 15:
		f := sqlf.Ff("t.z IN (#join('#arg', ',')) #f1", sqlf.Fa("? $?", 1)).WithArgs(1) // fails
		f.Fragments[0] = sqlf.Fa("OR ?", m.b)
		q.where(&part{f: f, toks: []tok{{text: "t.z IN ("}, {isArg: true, arg: 1}, {text: ") OR "}, {isArg: true, arg: m.b}}})
	case 16:
		q.where(&part{f: sqlf.F("bad $1")})
		m.failed = true
	case 17:
		q.where(&part{f: sqlf.F("a = '$1' OR b = '#f1'"), toks: []tok{{text: "a = '$1' OR b = '#f1'"}}})
	case 18:
		q.whereIn(col("p", "i"), false, "s", "s")
	case 19:
		q.where(&part{f: sqlf.Ff("#f1.x=#f2.x", tbl("z", "o"), sqlb.Table("p")), toks: []tok{{text: "o.x=p.x"}}, tables: []string{"o", "p"}})
	case 20:
		q.where(&part{f: sqlf.Ff("#f1", m.inner.b), toks: m.inner.toks})
		q.where(&part{f: sqlf.Ff("#f1", m.inner.b), toks: m.inner.toks})
	case 21:
		// any table
		t := v.Str(1, 1, "toprcuf")
		q.where(&part{f: sqlf.Ff("#f1=1", sqlb.Table(t).Column("id")), toks: []tok{{text: t + ".id=1"}}, tables: []string{t}})
	}
}

func (m *mixer) groups(k int) {
	q := m.q
	x := col("t", "x")
	switch k {
	case 1:
		q.group(x)
	case 2:
		q.group(x, x)
	case 3:
		q.group(m.col)
		q.group()
		q.group(x)
	case 4:
		q.group(exprCol("o", m.a))
	case 5:
		q.group(x, m.col, x, m.col)
	case 6:
		q.group(anon("p", "n"))
	case 7:
		q.group(empty(), x)
	case 8:
		q.group(afterNil("p"), m.wrap("(", ")*", m.b))
	case 9:
		q.group(empty())
	}
}

func (m *mixer) orders(k int) {
	q := m.q
	x := col("t", "x")
	switch k {
	case 1:
		q.order(x, sqlb.Asc)
	case 2:
		q.order(x, sqlb.Asc)
		q.order(x, sqlb.Desc)
	case 3:
		q.order(m.col, sqlb.Desc)
		q.order(exprCol("t", m.b), sqlb.Desc)
	case 4:
		q.order(col("o", "y"), sqlb.Desc)
		q.order(col("p", "y"), sqlb.Desc)
	case 5:
		q.order(x, 6)
	case 6:
		q.order(m.col, sqlb.DescNullsLast)
		q.order(x, sqlb.AscNullsFirst)
		q.order(m.col, sqlb.DescNullsFirst)
	case 7:
		q.order(m.wrap("(", ")-", m.a), sqlb.AscNullsLast)
	case 8:
		q.order(anon("p", "y"), sqlb.Asc)
	case 9:
		q.order(afterNil("o"), sqlb.Order(v.Int(0, 6)))
	case 10:
		q.order(x, sqlb.Asc)
		q.order(exprCol("t", m.bytes), sqlb.Asc)
		q.order(col("u", "x"), sqlb.Asc)
	case 11:
		q.order(x, sqlb.Desc)
		q.order(x, sqlb.Order(-1&7))
	case 12:
		for i := 0; i < 11; i++ {
			q.order(x, sqlb.Order(i%6))
		}
	case 13:
		q.order(exprCol("t", m.a), sqlb.Asc)
		q.order(exprCol("o", m.a), sqlb.Asc)
	case 14:
		q.order(x, sqlb.DescNullsFirst)
		q.order(anon("t", "z"), sqlb.DescNullsFirst)
	case 15:
		q.order(part{c: sqlb.Table("").Column("bare"), toks: []tok{{text: "bare"}}}, sqlb.Asc)
	}
}

func (m *mixer) limits(k int) {
	q := m.q
	l := func(n int64) {
		q.b.Limit(n)
		if n > 0 {
			q.limit = n
		}
	}
	o := func(n int64) {
		q.b.Offset(n)
		if n > 0 {
			q.off = n
		}
	}
	switch k {
	case 1:
		l(5)
		o(5)
	case 2:
		o(1)
	case 3:
		l(-1)
		o(0)
	case 4:
		l(1)
		l(2)
		o(3)
		o(4)
	case 5:
		o(9223372036854775807)
		l(4294967296)
	case 6:
		l(5)
		l(0)
		o(6)
		o(-2)
	case 7:
		n := int64(v.Int(-1, 2))
		l(n)
		o(n)
	case 8:
		l(3)
		o(1)
		l(2)
	case 9:
		o(20)
		o(10)
		l(20)
		l(10)
	}
}

func (m *mixer) unions(k int) {
	q := m.q
	nilq := part{b: (*sqlb.QueryBuilder)(nil)}
	s, u := sub("SELECT", m.a), sub("SELECT 1+", m.b)
	switch k {
	case 1:
		q.union(s)
	case 2:
		q.union(s, u)
	case 3:
		q.union(s, s)
	case 4:
		q.union(nilq, s)
	case 5:
		q.union(u, empty(), s, nilq)
	case 6:
		q.union(m.inner)
		q.union(u)
	case 7:
		q.union(empty())
	case 8:
		q.union()
		q.union(m.inner, m.inner)
	case 9:
		q.union(s, m.wrap("(", ") UNION ", m.a), u)
	case 10:
		q.union(s, part{b: sqlf.F("bad $1")})
		m.failed = true
	case 11:
		q.union(sub("SELECT", m.bytes), sub("SELECT", m.bytes))
	case 12:
		q.union(u)
		q.union(s)
		q.union(u)
	case 13:
		q.union(deepRef("zz"), part{b: (*sqlf.Fragment)(nil)})
	}
}

func (m *mixer) ctes(k int) {
	q := m.q
	c, d, e, x := sub("SELECT c", m.b), sub("SELECT d", m.a), sub("SELECT e", 3), sub("SELECT x", 4)
	switch k {
	case 1:
		q.with("c", c)
	case 2:
		q.with("c", c, "d")
		q.with("d", d)
	case 3:
		q.with("d", d)
		q.with("c", c, "d")
	case 4:
		q.with("c", c, "zz", "d", "yy")
		q.with("x", x)
		q.with("d", d)
	case 5:
		q.with("c", c, "d")
		q.with("d", d, "c")
	case 6:
		q.with("c", empty(), "d")
		q.with("d", d)
	case 7:
		q.with("c", c)
		q.with("c", x)
	case 8:
		q.with("o", c)
		q.with("t", d)
	case 9:
		q.with("tab", c, "t", "o")
		q.with("p", d)
	case 10:
		q.with("e", e)
		q.with("d", d, "e")
		q.with("c", c, "d")
	case 11:
		q.with("c", c, "d", "e")
		q.with("d", d, "e")
		q.with("e", e, "d")
		q.with("x", x, "c")
	case 12:
		q.with("c", c, "c")
		q.with("x", x)
	case 13:
		q.with("c", m.inner)
		q.with("d", m.inner)
		q.with("oth", m.inner)
	case 14:
		q.with("c", part{b: sqlf.F("bad #f1")})
	case 15:
		q.with("d", part{b: sqlf.F("bad #f1")})
	case 16:
		q.with("x", x, "c")
		q.with("e", e, "x")
	case 17:
		q.with("c", c, "d")
		q.with("d", empty(), "e")
		q.with("e", e)
	case 18:
		q.with("c", sub("SELECT", m.bytes), "d", "d", "e")
		q.with("d", sub("SELECT", m.bytes))
		q.with("e", e)
	case 19:
		q.with("c", c, "d")
		q.with("d", d, "e")
		q.with("e", e, "oth")
		q.with("oth", x, "pp")
	}
}

func (m *mixer) badCTE(k int, keep []bool) bool {
	need := m.q.neededCTEs(keep)
	return k == 14 && need[0] || k == 15 && need[0]
}

// mixedQuery is a query with up to k deviations.
func mixedQuery(k int, u usualq) *mixer {
	v.Bound("queries that deviate from a usual one in any " + v.Itoa(k) + " of: 4 ways of DISTINCT, 9 of From, 15 lists of columns, 20 first and 18 second joins (re-joins, self joins, cyclic and undeclared references), 22 conditions, 10 groupings, 16 orderings, 10 limits, 14 unions, 20 sets of CTEs; shared columns, fragments and sub-queries, args of two symbolic values 0..1")
	d := &devs{k}
	m := &mixer{q: newQuery(), a: v.Int(0, 1), b: v.Int(0, 1), bytes: []byte("x")}
	m.col = exprCol("t", m.a)
	m.cnd = cond("t", m.b)
	in := newQuery()
	in.with("c", sub("SELECT i", 5))
	in.from("c", "")
	in.join(1, "in", "j", nil)
	in.setDistinct()
	in.sel(exprCol("c", m.b))
	in.order(exprCol("c", 6), sqlb.Asc)
	its, _ := in.eval()
	m.inner = part{b: in.b, toks: its}

	kd, kf := d.from(u.distinct, nDistinct), d.from(u.from, nFrom)
	m.distinct(kd, false)
	m.from(kf, false)
	kc := d.from(u.ctes, nCTEs)
	m.ctes(kc)
	m.sels(d.from(u.sels, nSels))
	m.join1(d.from(u.join1, nJoin1))
	m.join2(d.from(u.join2, nJoin2))
	m.wheres(d.from(u.wheres, nWheres))
	m.groups(d.from(u.groups, nGroups))
	m.orders(d.from(u.orders, nOrders))
	m.limits(d.from(u.limits, nLimits))
	m.unions(d.from(u.unions, nUnions))
	m.from(kf, true)
	m.distinct(kd, true)
	if keep, ok := m.q.kept(); !ok || m.badCTE(kc, keep) {
		m.failed = true
	}
	return m
}

func (m *mixer) check(style syntax.BindVarStyle, exact bool) {
	if m.failed {
		q, args, err := m.q.b.BuildQuery(style)
		observeBuild(q, args, err)
		v.Assert(err != nil && q == "" && args == nil, "mixed: a query that must fail is built")
		v.Cover("~error")
		return
	}
	m.q.check(style, exact, "mixed")
}

func C17_mixed() {
	mixedQuery(v.Pick(2, 3), usualq{}).check(styleOf(v.Choice(2)), false)
}
func C18_mixed() {
	u := usualq{from: 5, sels: 1, join1: 3, wheres: 1, groups: 1, orders: 3, unions: 2, ctes: 2}
	mixedQuery(v.Pick(2, 3), u).check(styleOf(v.Choice(2)), true)
}
func C19_mixed() {
	u := usualq{distinct: 1, join1: 1, join2: 1}
	mixedQuery(v.Pick(2, 3), u).check(styleOf(v.Choice(2)), false)
}
func C20_mixed() {
	u := usualq{distinct: 1, from: 5, join1: 9, ctes: 10}
	mixedQuery(v.Pick(2, 3), u).check(styleOf(v.Choice(2)), false)
}
func C21_mixed() {
	u := usualq{distinct: 1, join1: 3}
	m := mixedQuery(v.Pick(2, 3), u)
	m.q.checkRepeat(m.failed, v.Thorough())
}
