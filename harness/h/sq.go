package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// A model of the query builder: the calls that were made, and what the built
// query must be according to the documentation.

// part is a piece of SQL with what it says and which tables it refers to.
type part struct {
	f      *sqlf.Fragment
	c      *sqlb.Column
	b      sqlf.FragmentBuilder
	toks   []tok
	tables []string
}

type mjoin struct {
	kind        string // LEFT JOIN ...
	name, alias string
	on          *part
	optional    bool
}

type mcte struct {
	name string
	body part
	deps []string
}

type morder struct {
	p     part
	order sqlb.Order
}

type query struct {
	ctes       []mcte
	main       []string // name, alias; nil if missing
	joins      []mjoin
	selects    []part
	wheres     []part
	groups     []part
	orders     []morder
	distinct   bool
	limit, off int64
	unions     []part

	b *sqlb.QueryBuilder
}

func newQuery() *query { return &query{b: sqlb.NewQueryBuilder()} }

var orderNames = []string{"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST"}

func tbl(name, alias string) sqlb.TableAliased {
	return sqlb.NewTableAliased(sqlb.Table(name), sqlb.Table(alias))
}

func applied(name, alias string) string {
	if alias != "" {
		return alias
	}
	return name
}

// parts

func col(table, name string) part {
	return part{c: sqlb.Table(table).Column(name), toks: []tok{{text: table + "." + name}}, tables: []string{table}}
}

func anon(table, name string) part {
	return part{c: sqlb.Table(table).AnonymousColumn(name), toks: []tok{{text: name}}, tables: []string{table}}
}

// exprCol is a column like coalesce(t.x, arg)
func exprCol(table string, arg any) part {
	return part{
		c:      sqlb.ExprColumn(sqlf.Ff("coalesce(#f1, $1)", sqlb.Table(table).Column("x")).WithArgs(arg)),
		toks:   []tok{{text: "coalesce(" + table + ".x, "}, {isArg: true, arg: arg}, {text: ")"}},
		tables: []string{table},
	}
}

// cond is a condition like t.x=arg
func cond(table string, arg any) *part {
	return &part{
		f:      sqlf.Ff("#f1=$1", sqlb.Table(table).Column("x")).WithArgs(arg),
		toks:   []tok{{text: table + ".x="}, {isArg: true, arg: arg}},
		tables: []string{table},
	}
}

// eqCond is a.id=b.id
func eqCond(a, b string) *part {
	return &part{
		f:      sqlf.Ff("#f1=#f2", sqlb.Table(a).Column("id"), sqlb.Table(b).Column("id")),
		toks:   []tok{{text: a + ".id=" + b + ".id"}},
		tables: []string{a, b},
	}
}

// sub is a full query with an arg
func sub(text string, arg any) part {
	return part{b: sqlf.Fa(text+" ?", arg), toks: []tok{{text: text + " "}, {isArg: true, arg: arg}}}
}

// calls

func (q *query) with(name string, body part, deps ...string) {
	var ds []sqlb.Table
	for _, d := range deps {
		ds = append(ds, sqlb.Table(d))
	}
	q.b.With(sqlb.Table(name), body.b, ds...)
	q.ctes = append(q.ctes, mcte{name, body, deps})
}

func (q *query) from(name, alias string) {
	q.b.From(tbl(name, alias))
	q.main = []string{name, alias}
}

func (q *query) join(kind int, name, alias string, on *part) {
	var f *sqlf.Fragment
	if on != nil {
		f = on.f
	}
	j := mjoin{name: name, alias: alias, on: on}
	t := tbl(name, alias)
	switch kind {
	case 0:
		q.b.LeftJoin(t, f)
		j.kind = "LEFT JOIN"
	case 1:
		q.b.LeftJoinOptional(t, f)
		j.kind, j.optional = "LEFT JOIN", true
	case 2:
		q.b.InnerJoin(t, f)
		j.kind = "INNER JOIN"
	case 3:
		q.b.RightJoin(t, f)
		j.kind = "RIGHT JOIN"
	case 4:
		q.b.FullJoin(t, f)
		j.kind = "FULL JOIN"
	case 5:
		q.b.CrossJoin(t)
		j.kind, j.on = "CROSS JOIN", nil
	}
	for i := range q.joins {
		if applied(q.joins[i].name, q.joins[i].alias) == applied(name, alias) {
			q.joins[i] = j
			return
		}
	}
	q.joins = append(q.joins, j)
}

func (q *query) sel(ps ...part) {
	var cs []*sqlb.Column
	for _, p := range ps {
		cs = append(cs, p.c)
	}
	q.b.Select(cs...)
	if len(ps) > 0 {
		q.selects = ps
	}
}

func (q *query) where(p *part) {
	if p == nil {
		q.b.Where(nil)
		return
	}
	q.b.Where(p.f)
	q.wheres = append(q.wheres, *p)
}

func (q *query) where2(c part, op string, arg any) {
	q.b.Where2(c.c, op, arg)
	q.wheres = append(q.wheres, part{toks: cat(c.toks, []tok{{text: op}, {isArg: true, arg: arg}}), tables: c.tables})
}

func (q *query) whereIn(c part, not bool, list any, elems ...any) {
	op := " IN ("
	if not {
		op = " NOT IN ("
		q.b.WhereNotIn(c.c, list)
	} else {
		q.b.WhereIn(c.c, list)
	}
	p := part{toks: cat(c.toks, []tok{{text: op}}), tables: c.tables}
	for i, e := range elems {
		if i > 0 {
			p.toks = append(p.toks, tok{text: ", "})
		}
		p.toks = append(p.toks, tok{isArg: true, arg: e})
	}
	p.toks = append(p.toks, tok{text: ")"})
	q.wheres = append(q.wheres, p)
}

func (q *query) group(ps ...part) {
	var cs []*sqlb.Column
	for _, p := range ps {
		cs = append(cs, p.c)
	}
	q.b.GroupBy(cs...)
	q.groups = append(q.groups, ps...)
}

func (q *query) order(p part, o sqlb.Order) {
	q.b.OrderBy(p.c, o)
	q.orders = append(q.orders, morder{p, o})
}

func (q *query) union(ps ...part) {
	var bs []sqlf.FragmentBuilder
	for _, p := range ps {
		bs = append(bs, p.b)
	}
	q.b.Union(bs...)
	q.unions = append(q.unions, ps...)
}

func (q *query) setDistinct() {
	q.b.Distinct()
	q.distinct = true
}

func cat(ts ...[]tok) []tok {
	var r []tok
	for _, t := range ts {
		r = append(r, t...)
	}
	return r
}

// eval is what the query must be; false if building must fail.
func (q *query) eval() ([]tok, bool) {
	if q.main == nil || q.main[0] == "" || len(list(q.selects, "")) == 0 {
		return nil, false
	}
	for _, o := range q.orders {
		if o.order > sqlb.DescNullsLast {
			return nil, false
		}
	}
	keep, ok := q.kept()
	if !ok {
		return nil, false
	}
	var r []tok
	// CTEs
	need := q.neededCTEs(keep)
	first := true
	for i, c := range q.ctes {
		if !need[i] || len(c.body.toks) == 0 {
			continue
		}
		if first {
			r = append(r, tok{text: "With "})
		} else {
			r = append(r, tok{text: ", "})
		}
		first = false
		r = append(r, tok{text: c.name + " AS ("})
		r = append(r, c.body.toks...)
		r = append(r, tok{text: ")"})
	}
	if !first {
		r = append(r, tok{text: " "})
	}
	r = append(r, tok{text: "SELECT "})
	if q.distinct {
		r = append(r, tok{text: "DISTINCT "})
	}
	r = append(r, list(q.selects, ", ")...)
	if q.distinct {
		for i, o := range q.orders {
			r = append(r, tok{text: ", "})
			r = append(r, o.p.toks...)
			r = append(r, tok{text: " AS _order_" + v.Itoa(i+1)})
		}
	}
	r = append(r, tok{text: " FROM " + aliased(q.main[0], q.main[1])})
	for i, j := range q.joins {
		if !keep[i] {
			continue
		}
		r = append(r, tok{text: " " + j.kind + " " + aliased(j.name, j.alias)})
		if j.on == nil {
			// nothing follows; the builder leaves the separating space
			r = append(r, tok{text: " "})
			continue
		}
		r = append(r, tok{text: " ON "})
		r = append(r, j.on.toks...)
	}
	if ts := list(q.wheres, " AND "); len(ts) > 0 {
		r = append(r, tok{text: " WHERE "})
		r = append(r, ts...)
	}
	if ts := list(q.groups, ", "); len(ts) > 0 {
		r = append(r, tok{text: " GROUP BY "})
		r = append(r, ts...)
	}
	if len(q.orders) > 0 {
		r = append(r, tok{text: " ORDER BY "})
		for i, o := range q.orders {
			if i > 0 {
				r = append(r, tok{text: ", "})
			}
			if q.distinct {
				r = append(r, tok{text: "_order_" + v.Itoa(i+1)})
			} else {
				r = append(r, o.p.toks...)
			}
			r = append(r, tok{text: " " + orderNames[o.order]})
		}
	}
	if q.limit > 0 {
		r = append(r, tok{text: " LIMIT " + v.Itoa(int(q.limit))})
	}
	if q.off > 0 {
		r = append(r, tok{text: " OFFSET " + v.Itoa(int(q.off))})
	}
	n := 0
	for _, u := range q.unions {
		if len(u.toks) == 0 {
			continue
		}
		n++
		r = append(r, tok{text: " UNION ("})
		r = append(r, u.toks...)
		r = append(r, tok{text: ")"})
	}
	return r, true
}

func aliased(name, alias string) string {
	if alias != "" {
		return name + " AS " + alias
	}
	return name
}

func list(ps []part, sep string) []tok {
	var r []tok
	for _, p := range ps {
		if len(p.toks) == 0 {
			continue // empty items take no part
		}
		if len(r) > 0 {
			r = append(r, tok{text: sep})
		}
		r = append(r, p.toks...)
	}
	return r
}

// kept says which joins stay; false if an undeclared table is referred to.
func (q *query) kept() ([]bool, bool) {
	keep := make([]bool, len(q.joins))
	if q.main == nil || q.main[0] == "" {
		return nil, false
	}
	var refs []string
	for i, j := range q.joins {
		if !q.distinct || !j.optional {
			keep[i] = true
			if j.on != nil {
				refs = append(refs, j.on.tables...)
			}
		}
	}
	for _, ps := range [][]part{q.selects, q.wheres, q.groups} {
		for _, p := range ps {
			refs = append(refs, p.tables...)
		}
	}
	for _, o := range q.orders {
		refs = append(refs, o.p.tables...)
	}
	main := applied(q.main[0], q.main[1])
	for k := 0; k < len(refs); k++ {
		t := refs[k]
		if t == main {
			continue
		}
		found := false
		for i, j := range q.joins {
			if applied(j.name, j.alias) != t {
				continue
			}
			found = true
			if !keep[i] {
				keep[i] = true
				if j.on != nil {
					refs = append(refs, j.on.tables...)
				}
			}
		}
		if !found {
			return nil, false
		}
	}
	return keep, true
}

func (q *query) neededCTEs(keep []bool) []bool {
	need := make([]bool, len(q.ctes))
	names := []string{q.main[0]}
	for i, j := range q.joins {
		if keep[i] {
			names = append(names, j.name)
		}
	}
	for k := 0; k < len(names); k++ {
		for i, c := range q.ctes {
			if c.name == names[k] && !need[i] {
				need[i] = true
				names = append(names, c.deps...)
			}
		}
	}
	return need
}

// squeeze removes white space around commas, parentheses and at the ends, and
// repeated white space: layout that the properties say nothing about.
func squeeze(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ' ' && (len(b) == 0 || b[len(b)-1] == ' ') {
			continue
		}
		b = append(b, c)
	}
	for len(b) > 0 && b[len(b)-1] == ' ' {
		b = b[:len(b)-1]
	}
	return string(b)
}

func squeezeToks(ts []tok) []tok {
	var r []tok
	space := true // nothing or a space before
	for _, t := range ts {
		if t.isArg {
			r = append(r, t)
			space = false
			continue
		}
		s := ""
		for i := 0; i < len(t.text); i++ {
			if t.text[i] == ' ' {
				if space {
					continue
				}
				space = true
			} else {
				space = false
			}
			s += t.text[i : i+1]
		}
		if s != "" {
			r = append(r, tok{text: s})
		}
	}
	for len(r) > 0 && !r[len(r)-1].isArg && r[len(r)-1].text[len(r[len(r)-1].text)-1] == ' ' {
		t := r[len(r)-1].text
		r = r[:len(r)-1]
		if len(t) > 1 {
			r = append(r, tok{text: t[:len(t)-1]})
		}
	}
	return r
}

// check builds the query and compares.
func (q *query) check(style syntax.BindVarStyle, exact bool, what string) {
	ts, ok := q.eval()
	got, args, err := q.b.BuildQuery(style)
	observeBuild(got, args, err)
	v.Assert(ok || err != nil, what+": a query that must fail is built")
	v.Assert(!ok || err == nil, what+": a valid query fails")
	if err != nil {
		v.Cover("~error")
		return
	}
	ts = squeezeToks(ts)
	got = squeeze(got)
	checkDenotes(got, args, ts, style, what)
	if exact {
		checkExact(got, args, ts, style, what)
	}
	v.Cover("built")
}
