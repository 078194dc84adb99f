package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// Names left to the solver: which tables, aliases and references coincide is
// not enumerated, it is whatever the conditions of the code distinguish.

const letters = "abcdefghijklmnopqrstuvwxyz_"

func symName(min int) string { return v.Str(min, v.Pick(1, 2), letters) }

// joins with any names
func C19_names() {
	n := 2
	v.Bound("2 joins, optional or not, name and alias (or none; quick: of one of them) symbolic, ON nil or referring to a symbolic name, one reference in WHERE and one in SELECT to symbolic names; names of 1 (thorough: 1..2) bytes over 27 letters; DISTINCT or not")
	q := newQuery()
	q.from(symName(1), symName(0))
	main := applied(q.main[0], q.main[1])
	for i := 0; i < n; i++ {
		name, alias := symName(1), ""
		if (i == 0 || v.Thorough()) && v.Bool() {
			alias = symName(1)
		}
		ap := applied(name, alias)
		v.Assume(ap != main)
		var on *part
		if v.Bool() {
			on = eqCond(ap, symName(1))
		}
		q.join(v.Choice(2), name, alias, on)
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(col(symName(1), "x"))
	q.where(cond(symName(1), 1))
	q.check(syntax.Question, false, "joins of any names")
}

// CTEs with any names
func C20_names() {
	v.Bound("2 CTEs of different symbolic names with 0..1 symbolic dependencies, main table and 1 join (optional or not) with symbolic names and aliases (or none), reference to a symbolic name; names of 1 (thorough: 1..2) bytes over 27 letters; DISTINCT or not")
	q := newQuery()
	a, b := symName(1), symName(1)
	v.Assume(a != b)
	for i, c := range []string{a, b} {
		var deps []string
		if v.Bool() {
			deps = append(deps, symName(1))
		}
		q.with(c, sub("SELECT", i), deps...)
	}
	q.from(symName(1), symName(0))
	if v.Bool() {
		name, alias := symName(1), symName(0)
		v.Assume(applied(name, alias) != applied(q.main[0], q.main[1]))
		q.join(v.Choice(2), name, alias, nil)
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(col(applied(q.main[0], q.main[1]), "x"))
	q.where(cond(symName(1), 9))
	q.check(syntax.Question, false, "CTEs of any names")
}

// all clauses with any names
func C17_names() {
	v.Bound("tables, aliases, columns of symbolic names of 0..2 letters, a join re-declared under symbolic names, 2 orderings with symbolic keywords, DISTINCT or not")
	q := newQuery()
	q.from(symName(1), v.Str(0, 2, letters))
	main := applied(q.main[0], q.main[1])
	n1, a1, n2, a2 := symName(1), symName(0), symName(1), symName(0)
	v.Assume(applied(n1, a1) != main)
	v.Assume(applied(n2, a2) != main)
	q.join(2, n1, a1, cond(applied(n1, a1), 1))
	q.join(3, n2, a2, nil)
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(col(main, v.Str(1, 2, letters)))
	q.group(col(applied(n1, a1), symName(1)))
	q.order(col(main, "o"), sqlb.Order(v.Int(0, 5)))
	q.order(anon(main, symName(1)), sqlb.Order(v.Int(0, 5)))
	q.check(styleOf(v.Choice(2)), false, "clauses of any names")
}

// misuse with any names: a join under the name of the main table, references
// to undeclared tables, repeated builds
func C21_names() {
	v.Bound("main table, join and references with symbolic names and aliases, also equal ones, also empty ones; built twice")
	q := newQuery()
	name, alias := symName(0), symName(0)
	q.from(name, alias)
	jn, ja := symName(0), symName(0)
	q.join(v.Choice(2), jn, ja, nil)
	ref := symName(1)
	q.sel(col(ref, "x"))
	if v.Bool() {
		q.setDistinct()
	}
	must := name == "" || jn == "" || applied(jn, ja) == applied(name, alias) || ref != applied(name, alias) && ref != applied(jn, ja)
	s1, a1, e1 := q.b.BuildQuery(syntax.Dollar)
	s2, a2, e2 := q.b.BuildQuery(syntax.Dollar)
	v.Assert((e1 == nil) == !must, "misuse: another verdict than the documented one")
	v.Assert((e1 == nil) == (e2 == nil) && s1 == s2 && len(a1) == len(a2), "misuse: the second build differs")
	v.Assert(e1 == nil || s1 == "" && len(a1) == 0, "misuse: a query beside an error")
	_, _, e3 := sqlf.Ff("#f1", q.b).BuildQuery(syntax.Question)
	v.Assert((e3 == nil) == !must, "misuse: another verdict when used as a sub-query")
	v.Cover("done")
}
