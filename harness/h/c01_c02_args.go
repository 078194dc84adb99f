package h

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// intArgs are n arguments with symbolic values of a small range, so that equal
// and different ones are both covered.
func intArgs(n, hi int) []any {
	r := make([]any, n)
	for i := range r {
		r[i] = v.Int(0, hi)
	}
	return r
}

// argSegs chooses how a fragment with n args and m kids refers to them: count
// references, each to anything in range.
func anyRefs(count, nargs, nkids int) []seg {
	var r []seg
	bind := v.Choice(3)
	if bind == 1 && nargs == 0 {
		bind = 0
	}
	nq := 0
	marks := []string{"<", "|", ">", "~"}
	for i := 0; i < count; i++ {
		r = append(r, txt(marks[i%4]))
		k := v.Choice(nargs + nkids)
		if k >= nargs {
			r = append(r, ref([]segKind{sFN, sFCall, sFragN, sFragCall}[(k+i)%4], k-nargs+1))
			continue
		}
		switch bind {
		case 0:
			r = append(r, ref([]segKind{sArgN, sArgCall}[i%2], k+1))
		case 1:
			// positional: refers to the next one, whatever k is
			v.Assume(k == nq)
			nq++
			r = append(r, ref(sQ, 0))
		case 2:
			r = append(r, ref(sDollar, k+1))
		}
	}
	return append(r, txt("."))
}

// level bounds the fragments of one depth of a tree.
type level struct{ args, kids, refs int }

// tree is a fragment with children of every shape within the bounds.
func tree(ls []level, hi int) *node {
	l := ls[0]
	n := &node{args: intArgs(v.Choice(l.args+1), hi)}
	if len(ls) > 1 {
		nk := v.Choice(l.kids + 1)
		for i := 0; i < nk; i++ {
			if i == 1 && v.Bool() {
				n.kids = append(n.kids, n.kids[0])
				continue
			}
			n.kids = append(n.kids, tree(ls[1:], hi))
		}
	}
	refs := 0
	if len(n.args)+len(n.kids) > 0 {
		refs = v.Choice(l.refs + 1)
	}
	n.segs = anyRefs(refs, len(n.args), len(n.kids))
	n.needRefs()
	return n
}

func boundTree(ls []level, hi int) {
	s := "tree of fragments, per depth"
	for i, l := range ls {
		s += " [0.." + v.Itoa(l.args) + " args"
		if i < len(ls)-1 {
			s += ", 0.." + v.Itoa(l.kids) + " children (the second possibly the first again)"
		}
		s += ", 0.." + v.Itoa(l.refs) + " chosen references and those that complete it]"
	}
	v.Bound(s + ", argument values 0.." + v.Itoa(hi) + ", both styles")
}

func buildBoth(n *node, style syntax.BindVarStyle, denotes, exact bool, what string) {
	ts, e := n.eval()
	q, args, err := n.fragment().BuildQuery(style)
	observeBuild(q, args, err)
	v.Assert((err == nil) == (e == evOK), what+": builds or fails other than it should")
	if err != nil {
		return
	}
	if denotes {
		checkDenotes(q, args, ts, style, what)
	}
	if exact {
		checkExact(q, args, ts, style, what)
	}
	v.Cover("built")
}

func C01_wide() {
	ls := []level{{2, 2, 2}, {1, 0, v.Pick(1, 2)}}
	if v.Thorough() {
		ls[0].refs = 3
	}
	boundTree(ls, 1)
	buildBoth(tree(ls, 1), styleOf(v.Choice(2)), true, false, "tree")
}

func C01_deep() {
	ls := []level{{1, 1, 1}, {1, 2, 1}, {1, 0, 0}}
	if v.Thorough() {
		ls = []level{{1, 1, 2}, {1, 2, 1}, {1, 1, 1}, {1, 0, 1}}
	}
	boundTree(ls, 1)
	buildBoth(tree(ls, 1), styleOf(v.Choice(2)), true, false, "tree")
}

// marksAround are texts put around and between references.
func around(s seg, i int) []seg {
	return []seg{txt([]string{"<", "(", "["}[i%3]), s, txt([]string{">", ")", "]"}[i%3])}
}

// joinTemplates are templates over function values, calls and placeholders.
func joinTemplates(nargs, nkids int) []seg {
	var r []seg
	switch v.Choice(8) {
	case 0:
		r = []seg{ref(sDynArg, 0)}
	case 1:
		r = []seg{ref(sDynF, 0)}
	case 2:
		r = []seg{txt("a="), ref(sDynArg, 0), txt("/"), ref(sDynFrag, 0), txt(";")}
	case 3:
		r = []seg{ref(sDynF, 0), txt("="), ref(sDynArg, 0)}
	case 4:
		r = []seg{ref(sDynArg, 0), txt(":"), ref(sDynArg, 0)}
	case 5:
		v.Assume(nargs > 0)
		r = []seg{ref(sDollar, nargs), txt("-"), ref(sDynF, 0)}
	case 6:
		v.Assume(nargs > 0)
		r = []seg{ref(sDynF, 0), txt("-"), ref(sQ, 0)}
	case 7:
		v.Assume(nkids > 0)
		r = []seg{ref(sDynArg, 0), txt("-"), ref(sFN, nkids), ref(sArgN, nargs)}
		if nargs == 0 {
			r = r[:3]
		}
	}
	return r
}

// joined is a fragment with a #join between other references.
func joined(maxArgs, maxKids int, bounds bool) *node {
	n := &node{args: intArgs(v.Choice(maxArgs+1), 1)}
	nk := v.Choice(maxKids + 1)
	for i := 0; i < nk; i++ {
		k := &node{}
		switch v.Choice(3) {
		case 0:
			k.segs = []seg{txt("x")}
		case 1:
			k.args = intArgs(1, 1)
			k.segs = []seg{txt("y"), ref(sQ, 0)}
		case 2:
			// builds to nothing
		}
		n.kids = append(n.kids, k)
	}
	n.segs = []seg{txt("j ")}
	if v.Bool() && len(n.args) > 0 {
		n.segs = append(n.segs, ref(sArgN, len(n.args)), txt(" "))
	}
	var bs []int
	if !bounds {
		if k := v.Choice(3); k > 0 {
			bs = []int{k}
		}
	} else {
		hi := maxArgs
		if maxKids > hi {
			hi = maxKids
		}
		switch v.Choice(3) {
		case 1:
			bs = []int{v.Int(-1, hi+1)}
		case 2:
			bs = []int{v.Int(-1, hi+1), v.Int(-1, hi+1)}
		}
	}
	n.segs = append(n.segs, join(joinTemplates(len(n.args), len(n.kids)), ", ", bs...), txt(" "))
	n.needRefs()
	n.segs = append(n.segs, txt(" end"))
	return n
}

func C01_join() {
	v.Bound("#join with 8 forms of template over 0..2 args and 0..2 fragments (with an arg, without, empty), before and after other references; from the default, 1 or 2 on")
	buildBoth(joined(2, v.Pick(2, 3), false), styleOf(v.Choice(2)), true, false, "join")
}

// text directly after a placeholder
func C01_adjacent() {
	v.Bound("a placeholder ($n, #argN, #arg(N), the end of a nested fragment, an element of a #join, a second placeholder in between or not) directly followed by text of a fragment, a #join separator or the text itself, beginning with any byte of 30")
	t := v.Str(1, 1, "0123456789abzAZ_-+*/ .,;:()%\xff\x00")
	k := &node{segs: []seg{txt(t + "x")}}
	n := &node{args: intArgs(2, 1), kids: []*node{k}}
	switch v.Choice(7) {
	case 0:
		n.segs = []seg{ref(sDollar, 2), txt("+"), ref(sDollar, 1), ref(sFN, 1)}
	case 1:
		n.segs = []seg{ref(sArgN, 1), ref(sArgCall, 2), ref(sFragCall, 1)}
	case 2:
		n.segs = []seg{ref(sDollar, 1), ref(sArgCall, 2), txt(t)}
		n.kids = nil
	case 3:
		n.kids = append(n.kids, &node{segs: []seg{txt("y"), ref(sQ, 0)}, args: []any{3}})
		n.segs = []seg{ref(sDollar, 1), txt("="), ref(sDollar, 2), txt(";"), ref(sFN, 2), ref(sFN, 1)}
	case 4:
		n.segs = []seg{join([]seg{ref(sDynArg, 0)}, t), txt(";"), ref(sFN, 1)}
	case 5:
		n.segs = []seg{ref(sDollar, 2), txt(";"), join([]seg{ref(sArgCall, 1), ref(sDynF, 0)}, ",")}
	case 6:
		n.kids = []*node{{segs: []seg{ref(sQ, 0)}, args: []any{3}}, k}
		n.segs = []seg{ref(sQ, 0), txt(" "), ref(sQ, 0), join([]seg{ref(sDynF, 0)}, "")}
	}
	style := styleOf(v.Choice(2))
	if style == syntax.Dollar && isDigit(t[0]) {
		ts, _ := n.eval()
		q, args, err := n.fragment().BuildQuery(style)
		observeBuild(q, args, err)
		v.Assert(err != nil || denotes(q, args, ts), "a digit directly after a $ placeholder becomes part of its number")
		return
	}
	buildBoth(n, style, true, false, "adjacent")
}

// denotes tells if a $ style query denotes ts.
func denotes(q string, args []any, ts []tok) bool {
	p, k := 0, 0
	for _, t := range ts {
		if !t.isArg {
			if p+len(t.text) > len(q) || q[p:p+len(t.text)] != t.text {
				return false
			}
			p += len(t.text)
			continue
		}
		if p >= len(q) || q[p] != '$' {
			return false
		}
		k, p = readRef(q, p+1)
		if k < 1 || k > len(args) || !same(args[k-1], t.arg) {
			return false
		}
	}
	return p == len(q)
}

// sizes around powers of ten and two: positions and numbers of more digits
var sizes = []int{8, 9, 10, 11, 12, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 999, 1000, 1001}

// manyRefs refers to n distinct args in several ways; one of them, at a
// symbolic place, has the same value as another.
func manyRefs(n int) *node {
	r := &node{}
	for i := 0; i < n; i++ {
		r.args = append(r.args, 1000+i)
	}
	r.args[n-1] = v.Int(1000, 1000+n) // equal to any earlier one, or to none
	switch v.Choice(5) {
	case 0:
		for range r.args {
			r.segs = append(r.segs, ref(sQ, 0), txt(","))
		}
	case 1:
		for i := range r.args {
			r.segs = append(r.segs, ref(sDollar, n-i), txt(","))
		}
	case 2:
		for i := range r.args {
			r.segs = append(r.segs, ref(sArgN, i+1), txt(","))
		}
	case 3:
		r.segs = []seg{txt("IN ("), join([]seg{ref(sDynArg, 0)}, ", "), txt(")")}
	case 4:
		// one fragment per arg
		p := &node{}
		for i := range r.args {
			p.kids = append(p.kids, &node{segs: []seg{txt("c="), ref(sQ, 0)}, args: r.args[i : i+1]})
		}
		p.segs = []seg{join([]seg{ref(sDynF, 0)}, " AND ")}
		return p
	}
	return r
}

func C01_sizes() {
	m := v.Pick(14, len(sizes))
	n := sizes[v.Choice(m)]
	v.Bound("n references to n args with n in sizes up to " + v.Itoa(sizes[m-1]) + ", in 5 forms, the last value symbolic")
	buildBoth(manyRefs(n), styleOf(v.Choice(2)), true, false, "many references")
}

// committer is a user-written FragmentBuilder.
type committer struct {
	pre  string
	args []any
	f    sqlf.FragmentBuilder
}

func (c *committer) BuildFragment(ctx *sqlf.Context) (string, error) {
	s := c.pre
	for _, a := range c.args {
		s += ctx.CommitArg(a) + ","
	}
	if c.f != nil {
		q, err := c.f.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		s += q
	}
	return s, nil
}

// user-written builders and functions that commit arguments themselves
func C01_builders() {
	style := styleOf(v.Choice(2))
	a := intArgs(5, 1)
	ctx := sqlf.NewContext(style)
	shared := sqlf.NewArgsProperties(a[3], a[4])
	ctx, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{
		"global": func(ctx *sqlf.Context, i int) (string, error) { return shared.Build(ctx, i) },
		"own":    func(ctx *sqlf.Context) string { return ctx.CommitArg(a[1]) },
	})
	v.Assert(err == nil, "functions are not accepted")
	leaf := sqlf.Fa("leaf ?", a[2])
	c := &committer{pre: "c:", args: []any{a[1], a[2]}, f: leaf}
	f := &sqlf.Fragment{Args: []any{a[0]}, Fragments: []sqlf.FragmentBuilder{c, leaf}}
	parts := []seg{{text: "?"}, {text: "#f1"}, {text: "#fragment(2)"}, {text: "#global1"}, {text: "#global(2)"}, {text: "#own()"}, {text: "#join('#global','+')"}}
	toks := [][]tok{
		{{isArg: true, arg: a[0]}},
		{{text: "c:"}, {isArg: true, arg: a[1]}, {text: ","}, {isArg: true, arg: a[2]}, {text: ",leaf "}, {isArg: true, arg: a[2]}},
		{{text: "leaf "}, {isArg: true, arg: a[2]}},
		{{isArg: true, arg: a[3]}},
		{{isArg: true, arg: a[4]}},
		{{isArg: true, arg: a[1]}},
		{{isArg: true, arg: a[3]}, {text: "+"}, {isArg: true, arg: a[4]}},
	}
	var want []tok
	// the three obligatory references in any rotation, others between them
	rot := v.Choice(3)
	for i := 0; i < 3; i++ {
		k := (i + rot) % 3
		f.Raw += parts[k].text
		want = append(want, toks[k]...)
		if o := v.Choice(5); o > 0 {
			f.Raw += ";" + parts[o+2].text
			want = append(append(want, tok{text: ";"}), toks[o+2]...)
		}
		f.Raw += "/"
		want = append(want, tok{text: "/"})
	}
	v.Bound("a fragment with a user-written builder, global properties and functions that commit args, in 3*5^3 orders")
	q, err := f.BuildFragment(ctx)
	v.Assert(err == nil, "fails to build")
	observeBuild(q, ctx.Args(), err)
	checkDenotes(q, ctx.Args(), want, style, "builders")
	v.Cover("built")
}

// ---- C02 ----

var buf1, buf2 = []byte("x"), []byte("x")
var num1, num2 = 1, 1
var str1, str2 = "1", "1"

// anyArg is an argument of any kind; several kinds print alike.
func anyArg() any {
	switch v.Choice(v.Pick(14, 20)) {
	case 0:
		return v.Int(0, 1)
	case 1:
		return int64(v.Int(0, 1))
	case 2:
		return namedInt(1)
	case 3:
		return "1"
	case 4:
		return v.Str(1, 1, "1x")
	case 5:
		return v.Bool()
	case 6:
		return nil
	case 7:
		return buf1
	case 8:
		return buf2
	case 9:
		return float64(1)
	case 10:
		return zero / zero // NaN
	case 11:
		return pair{v.Int(0, 1), "a"}
	case 12:
		return holder{[]int{1}}
	case 13:
		return &num1
	case 14:
		return &num2
	case 15:
		return holder{1}
	case 16:
		return uint8(1)
	case 17:
		return []int(nil)
	case 18:
		return map[string]int{}
	case 19:
		return ""
	}
	return nil
}

// twins are arguments that are easily confused with one another.
func twins() []any {
	time1, time2 := time.Time{}.Add(time.Second), time.Time{}.Add(time.Second)
	return []any{
		&str1, &str2, "1", namedString("1"), []string{"1"}, sql.NullString{String: "1", Valid: true}, sql.NullString{String: "1"}, sql.NullString{},
		&num1, &num2, 1, namedInt(1), uint64(1), float32(1), complex(1, 0), sql.NullInt64{Int64: 1, Valid: true},
		true, namedBool(true), &truth, [1]int{1}, [1]any{1}, pair{1, "1"}, &pair{1, "1"}, struct{ A any }{1}, struct{ B any }{1},
		time1, time2, &time1, time1.Add(0), time.Duration(1), nil, (*int)(nil), (*string)(nil), error(nil), "", "nil", "<nil>", "true",
		json1, string(json1), fmt.Stringer(named{"1"}), driver.Valuer(named{"1"}), &named{"1"},
	}
}

type named struct{ s string }

func (n named) String() string               { return n.s }
func (n named) Value() (driver.Value, error) { return n.s, nil }

var truth = true
var json1 = json.RawMessage("1")

func C02_twins() {
	ts := twins()
	n := len(ts)
	v.Bound("any pair of " + v.Itoa(n) + " args that print alike, point to equal values, convert to equal values or are equal: in one fragment and in two")
	a, b := ts[v.Choice(n)], ts[v.Choice(n)]
	r := &node{args: []any{a, b}, kids: []*node{{args: []any{b, a}, segs: []seg{ref(sDollar, 1), txt(" "), ref(sDollar, 2)}}}}
	r.segs = []seg{ref(sQ, 0), txt(","), ref(sQ, 0), txt(","), ref(sFN, 1)}
	buildBoth(r, styleOf(v.Choice(2)), false, true, "args")
}

var zero float64

func C02_kinds() {
	n := v.Pick(2, 3)
	v.Bound(v.Itoa(n) + " args of any of " + v.Itoa(v.Pick(14, 20)) + " kinds, each referenced once and one twice, one of them in another fragment")
	r := &node{}
	for i := 0; i < n; i++ {
		r.args = append(r.args, anyArg())
	}
	again := v.Choice(n)
	r.kids = []*node{{args: []any{r.args[again]}, segs: []seg{txt("k"), ref(sQ, 0)}}}
	for i := range r.args {
		if i == again && v.Bool() {
			r.segs = append(r.segs, ref(sFN, 1), txt(","))
		}
		r.segs = append(r.segs, ref(sArgN, i+1), txt(","))
	}
	r.segs = append(r.segs, ref(sFN, 1), txt("="), ref(sArgCall, again+1))
	buildBoth(r, styleOf(v.Choice(2)), false, true, "args")
}

func C02_wide() {
	ls := []level{{2, 2, 2}, {1, 0, v.Pick(1, 2)}}
	boundTree(ls, 1)
	buildBoth(tree(ls, 1), styleOf(v.Choice(2)), false, true, "tree")
}

func C02_deep() {
	ls := []level{{1, 1, 1}, {1, v.Pick(1, 2), 1}, {1, 0, 1}}
	boundTree(ls, 2)
	buildBoth(tree(ls, 2), styleOf(v.Choice(2)), false, true, "tree")
}

func C02_join() {
	v.Bound("#join with 8 forms of template over 0..2 args and 0..2 fragments (with an arg, without, empty), before and after other references; from the default, 1 or 2 on")
	buildBoth(joined(2, v.Pick(2, 3), false), styleOf(v.Choice(2)), false, true, "join")
}

func C02_sizes() {
	m := v.Pick(12, len(sizes))
	n := sizes[v.Choice(m)]
	v.Bound("n references to n args with n in sizes up to " + v.Itoa(sizes[m-1]) + ", in 5 forms, the last value symbolic")
	buildBoth(manyRefs(n), styleOf(v.Choice(2)), false, true, "many references")
}

// the store itself: any sequence of commits
func C02_commit() {
	n := v.Pick(4, 5)
	v.Bound("any sequence of 0.." + v.Itoa(n) + " commits of int args 0..2 (or of 2 kinds) into one context")
	style := styleOf(v.Choice(2))
	ctx := sqlf.NewContext(style)
	var ts []tok
	q := ""
	for k := v.Choice(n + 1); k > 0; k-- {
		var a any = v.Int(0, 2)
		if v.Bool() {
			a = []any{buf1, "x", nil}[v.Choice(3)]
		}
		q += ctx.CommitArg(a) + " "
		ts = append(ts, tok{isArg: true, arg: a}, tok{text: " "})
	}
	v.Observe("q", q)
	checkDenotes(q, ctx.Args(), ts, style, "commits")
	checkExact(q, ctx.Args(), ts, style, "commits")
	v.Cover("commits")
}
