package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// A panic or a run that exceeds the step budget is a violation by itself;
// these harnesses only have to reach the code with everything symbolic.

// usual parts of a fragment whose text is arbitrary
func dress(raw string) *sqlf.Fragment {
	f := sqlf.F(raw)
	switch v.Choice(3) {
	case 1:
		f.Args = []any{v.Int(0, 9), nil}
		f.Fragments = []sqlf.FragmentBuilder{sqlf.F("x"), (*sqlf.Fragment)(nil)}
	case 2:
		f.Args = []any{[]byte("a")}
		f.Fragments = []sqlf.FragmentBuilder{nil}
		f.Prefix, f.Suffix = "P", "S"
	}
	return f
}

func buildAny(f *sqlf.Fragment) {
	q, args, err := f.BuildQuery(styleOf(v.Choice(2)))
	observeBuild(q, args, err)
	if err != nil {
		v.Assert(q == "" && args == nil, "a query is returned together with an error")
		v.Cover("error")
	} else {
		v.Cover("query")
	}
}

func C08_raw() { buildAny(dress(anyText(0, v.Pick(3, 4), ""))) }

func C08_marks() { buildAny(dress(anyText(0, v.Pick(5, 6), "$?#1f('"))) }

// calls of the built-in functions with any arguments
func C08_calls() {
	name := []string{"#join(", "#f(", "#arg(", "#fragment(", "#join('#f',", "#join('#arg',',',"}[v.Choice(6)]
	buildAny(dress("a " + name + anyText(0, v.Pick(3, 4), "),'1-#.n") + "z"))
}

// any template, any separator
func C08_templates() {
	n := v.Pick(4, 5)
	v.Bound("#join with a template of 0.." + v.Itoa(n) + " arbitrary bytes over #f$?1(' a_ and with #f and #arg before or after 0..2 of them")
	t := v.Str(0, n, "#f$?1(' a_")
	switch v.Choice(3) {
	case 1:
		t = "#f" + t
		v.Assume(len(t) < 5)
	case 2:
		t += "#arg"
		v.Assume(len(t) < 7)
	}
	buildAny(dress("#join(" + quoted(t) + ",',')#join('#f','')"))
}

// numbers at the borders of the integer types
func C08_numbers() {
	nums := []string{"2147483647", "2147483648", "4294967295", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551617", "99999999999999999999999", "1e3", "1e400", "-1e400", "0.1", "1.5", "-1", "-9223372036854775809", "340282366920938463463374607431768211457"}
	v.Bound("references and #join bounds that are numbers at the borders of the integer types, with one symbolic digit or sign more; such references are errors")
	num := nums[v.Choice(len(nums))]
	num += v.Str(0, 1, "0123456789.e+-")
	k := v.Choice(8)
	raw := []string{"$", "#f", "#arg", "#f(", "#arg(", "#join('#arg',',',", "#join('#f',',',1,", "#join('#f',',',0,"}[k] + num
	if k > 2 {
		raw += ")"
	}
	f := dress(raw + "#join('#f','')#join('#arg','')")
	if k < 5 && num[0] != '-' && num[0] != '0' && num[:2] != "1." && num[:2] != "1e" {
		_, _, err := f.BuildQuery(syntax.Dollar)
		v.Assert(err != nil, "a reference to a huge index is accepted")
		v.Cover("huge")
	}
	buildAny(f)
}

// nil and odd values everywhere
func C08_values() {
	v.Bound("args and fragments of nil, typed nil, uncomparable and self-typed values, nil contexts, nil fragments, in both styles")
	args := []any{nil, []int(nil), map[string]int(nil), func() {}, (*int)(nil), holder{[]int{1}}, [1]any{[]int{}}, struct{}{}, (error)(nil), (*sqlf.Fragment)(nil), sqlf.F("x"), "s"}
	frags := []sqlf.FragmentBuilder{nil, (*sqlf.Fragment)(nil), (*node2)(nil), sqlf.F(""), &committer{args: []any{[]int{}}}, &sqlf.Fragment{Raw: "?"}, &sqlf.Fragment{Raw: "#f1", Fragments: []sqlf.FragmentBuilder{nil}}}
	f := sqlf.F([]string{"#arg1 #arg2 #f1 #f2", "#join('#arg #f','-')", "#join('#f',',',2)#f1#arg1#arg2", "?,?#f(1)#f(2)", "$1$2$1 #join('#fragment', ', ')"}[v.Choice(5)])
	f.Args = []any{args[v.Choice(len(args))], args[v.Choice(3)]}
	f.Fragments = []sqlf.FragmentBuilder{frags[v.Choice(len(frags))], sqlf.F("y")}
	if v.Bool() {
		f = sqlf.Ff("a #join('#f','')", nil2(v.Choice(2)), f).WithPrefix("P")
	}
	switch v.Choice(4) {
	case 0:
		_, err := f.BuildFragment(nil)
		v.Assert(err != nil, "building without a context succeeds")
		var none *sqlf.Fragment
		q, err := none.BuildFragment(nil)
		v.Assert(q == "" && err == nil, "a nil fragment is not empty")
		q, a, err := none.BuildQuery(syntax.Dollar)
		v.Assert(q == "" && len(a) == 0 && err == nil, "a nil fragment is not empty")
	case 1:
		f.AppendFragments().AppendArgs().WithPrefix("").WithSuffix("")
	}
	buildAny(f)
}

func nil2(i int) sqlf.FragmentBuilder {
	if i == 0 {
		return sqlf.F("")
	}
	return (*sqlf.Fragment)(nil)
}

type node2 struct{ x string }

func (n *node2) BuildFragment(ctx *sqlf.Context) (string, error) { return n.x, nil } // panics if nil

// depth and size
func C08_large() {
	n := []int{1, 10, 100, 200}[v.Choice(v.Pick(3, 4))]
	v.Bound("fragments nested, parenthesised or repeated up to 100 (thorough: 200) times")
	var f *sqlf.Fragment
	switch v.Choice(4) {
	case 0:
		f = sqlf.Fa("?", 1)
		for i := 0; i < n; i++ {
			f = sqlf.Ff("(#f1)", f)
		}
	case 1:
		raw := "x"
		for i := 0; i < n && i < 7; i++ {
			raw = "#join(" + quoted(raw) + ",'')"
		}
		f = sqlf.F(raw)
	case 2:
		raw := "'"
		for i := 0; i < n; i++ {
			raw += "''?"
		}
		f = sqlf.F(raw + "'")
	case 3:
		f = sqlf.F("#join('#f','')")
		for i := 0; i < n; i++ {
			f.AppendFragments(f2(i))
			f.AppendArgs(i)
		}
	}
	buildAny(f)
}

func f2(i int) *sqlf.Fragment {
	if i%2 == 0 {
		return nil
	}
	return sqlf.Fa("#join('#arg','')", i)
}

// parsing alone
func C08_parse() {
	s := anyText(0, v.Pick(4, 5), "")
	c, err := syntax.Parse(s)
	v.Assert((c == nil) == (err != nil), "parsing returns neither or both of a clause and an error")
	v.Cover("parsed")
}
