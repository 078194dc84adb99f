package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// Fragments that deviate from a usual one in a few ways at once: every set of
// up to k deviations (odd arguments, odd children, odd texts, every way of
// referring, prefixes, mistakes) at any level. What the fragment means is up to
// the model; what is left symbolic are argument values.

type devs struct{ left int }

// of chooses one of n; 0 is the usual, others count as deviations.
func (d *devs) of(n int) int { return d.from(0, n) }

// from is of with another usual.
func (d *devs) from(usual, n int) int {
	if d.left == 0 {
		return usual
	}
	c := v.Choice(n)
	if c > 0 {
		d.left--
	}
	return (usual + c) % n
}

// usual ways of a mixed fragment
type usual struct{ args, kids, argRefs, fragRefs int }

const nArgLists = 18

func argList(k, depth int, parent *node) []any {
	x := 100 * (depth + 1)
	switch k {
	case 1:
		return nil
	case 2:
		return []any{x, x + 1}
	case 3:
		return []any{x, nil}
	case 4:
		return []any{""}
	case 5:
		return []any{"a", "", ""}
	case 6:
		return []any{buf1, x}
	case 7:
		return []any{zero / zero, x}
	case 8:
		if parent != nil && len(parent.args) > 0 {
			return []any{parent.args[0], x}
		}
		return []any{v.Int(99, 101), 100}
	case 9:
		return []any{(*int)(nil)}
	case 10:
		return []any{true, false, true}
	case 11:
		return []any{x, x + 1, x + 2}
	case 12:
		return []any{v.Int(-1<<31, 1<<31), v.Int(-1<<31, 1<<31)}
	case 13:
		return []any{[]byte(nil)}
	case 14:
		return []any{int64(1), 1, "1", uint8(1)}
	case 15:
		return []any{holder{[]int{1}}, v.Int(0, 1), v.Int(0, 1)}
	case 16:
		return []any{nil, nil}
	case 17:
		return []any{"$1", "?", "#f1", "'"}
	}
	return []any{x}
}

const nKidLists = 13

func kidList(k, depth int, gen func() *node) []*node {
	x := &node{segs: []seg{txt("x")}}
	empty := &node{}
	emptyp := &node{segs: []seg{txt(" ")}, prefix: "P", suffix: "S"}
	argkid := func(a any) *node { return &node{segs: []seg{txt("k"), ref(sQ, 0)}, args: []any{a}, prefix: "K"} }
	if depth == 0 {
		return [][]*node{nil, {x}, {nil}, {argkid(1)}, {x, x}, {empty}, {argkid("a"), x}, {emptyp}, {nil, nil}, {x, empty, x}, {x, nil, x}, {empty, empty}, {argkid(1), argkid(1)}}[k]
	}
	switch k {
	case 1:
		return nil
	case 2:
		return []*node{gen(), x}
	case 3:
		return []*node{nil, gen()}
	case 4:
		return []*node{gen(), empty}
	case 5:
		g := gen()
		return []*node{g, g}
	case 6:
		return []*node{emptyp, gen()}
	case 7:
		return []*node{empty, x, gen()}
	case 8:
		return []*node{x, nil, gen()}
	case 9:
		return []*node{gen(), argkid(1)}
	case 10:
		return []*node{argkid(1), gen(), argkid(1)}
	case 11:
		return []*node{gen(), gen()}
	case 12:
		g := gen()
		return []*node{g, argkid(2), g}
	}
	return []*node{gen()}
}

const nArgRefs = 22

func argRefsOf(k, n int) []seg {
	dyn, one := ref(sDynArg, 0), []seg{ref(sDynArg, 0)}
	var r []seg
	each := func(kind segKind, sep string) {
		for i := 1; i <= n; i++ {
			if i > 1 {
				r = append(r, txt(sep))
			}
			r = append(r, ref(kind, i))
		}
	}
	switch k {
	case 0:
		each(sQ, ",")
	case 1:
		for i := n; i > 0; i-- {
			r = append(r, ref(sDollar, i), txt(" "))
		}
	case 2:
		each(sDollar, "+")
		r = append(r, txt(";"))
		each(sDollar, "")
	case 3:
		each(sArgN, ",")
	case 4:
		each(sArgCall, "")
	case 5:
		r = append(r, join(one, ", "))
	case 6:
		r = append(r, join([]seg{dyn, txt(":"), dyn, txt("-"), dyn}, "|"))
	case 7:
		r = append(r, join([]seg{txt(" "), dyn, txt(" ")}, ","))
	case 8:
		r = append(r, join(one, ",", 1, n))
	case 9:
		r = append(r, ref(sArgN, 1), txt("="), join(one, " ", 2))
	case 10:
		r = append(r, join([]seg{dyn, txt("="), ref(sQ, 0)}, ","))
	case 11:
		r = append(r, join([]seg{ref(sDollar, n), txt("="), dyn}, ","))
	case 12:
		each(sQ, ",")
		r = append(r, txt(" "), join(one, ","))
	case 13:
		r = append(r, join(one, ""))
	case 14:
		r = append(r, join([]seg{txt("x'#arg?'"), dyn, txt("\"?\"")}, "'?#$1"))
	case 15:
		r = append(r, join(one, ",", n+1))
	case 16:
		r = append(r, join(one, ",", 1, n+1))
	case 17:
		r = append(r, join(one, ",", 2, 1))
	case 18:
		r = append(r, join(one, ",", -1, 0))
	case 19:
		each(sQ, "/")
		r = append(r, txt(" "), join([]seg{ref(sDollar, 1), txt("-"), dyn}, ";"))
	case 20:
		r = append(r, join(one, ",", 1, 1))
		for i := 2; i <= n; i++ {
			r = append(r, txt(","), ref(sDollar, i))
		}
	case 21:
		r = append(r, join(one, ","), txt(" "), join(one, ";"), txt(" "))
		each(sArgN, " ")
	}
	return r
}

const nFragRefs = 20

func fragRefsOf(k, n, nargs int) []seg {
	dyn, one := ref(sDynF, 0), []seg{ref(sDynF, 0)}
	var r []seg
	each := func(kind segKind, sep string) {
		for i := 1; i <= n; i++ {
			if i > 1 {
				r = append(r, txt(sep))
			}
			r = append(r, ref(kind, i))
		}
	}
	switch k {
	case 0:
		each(sFN, " ")
	case 1:
		each(sFCall, "")
	case 2:
		each(sFragN, ",")
	case 3:
		each(sFN, " ")
		r = append(r, txt(";"))
		each(sFragCall, " ")
	case 4:
		for i := n; i > 0; i-- {
			r = append(r, ref(sFCall, i), txt(" "))
		}
	case 5:
		r = append(r, join(one, ", "))
	case 6:
		r = append(r, join([]seg{txt(" "), dyn}, "-"))
	case 7:
		r = append(r, join([]seg{dyn, dyn, ref(sDynFrag, 0)}, ","))
	case 8:
		r = append(r, join([]seg{txt("("), dyn, txt(")")}, " AND ", 1, n))
	case 9:
		r = append(r, join([]seg{dyn, txt("="), ref(sDynArg, 0)}, ","))
	case 10:
		r = append(r, join(one, ""))
	case 11:
		r = append(r, ref(sFN, 1), txt(" "), join([]seg{ref(sDynFrag, 0)}, ", ", 2))
	case 12:
		r = append(r, join([]seg{dyn, txt(" "), ref(sFN, 1)}, ","))
	case 13:
		r = append(r, join(one, " ", 1, 1))
		for i := 2; i <= n; i++ {
			r = append(r, txt(","), ref(sFN, i))
		}
	case 14:
		r = append(r, join(one, ","), txt(";"), join(one, "/"))
	case 15:
		r = append(r, ref(sFCall, n+1))
	case 16:
		r = append(r, ref(sFCall, 0))
	case 17:
		r = append(r, join(one, ",", n+1, n+1))
	case 18:
		r = append(r, join([]seg{dyn, txt("\n")}, ","))
	case 19:
		r = append(r, join([]seg{dyn, txt(" "), ref(sArgN, nargs)}, ","))
	}
	return r
}

var headTexts = []string{"a ", "", " ", "'?' ", "$$ ", "?? ", "\n", "é", "\xff", "\x00", "`a\\`", "\t ", "\"#f9\" ", "\u00a0", "'it''s ?' ", "P a "}
var tailTexts = []string{" c", "", " ", " '?'", " $$", " ??", "\r\n", "é", "\xc3", "\x00", "`a\\` b", "\v", " \"#f9\"", "\u2003", " '' ", " c S"}
var prefixes = []string{"", "P", "a", "?", "#f1 $2", " ", "'"}
var suffixes = []string{"", "S", "c", "?", "1 #", " ", "\""}

const nMutations = 16

// mixed is a fragment of the given depth that deviates.
func mixed(d *devs, depth int, parent *node, u usual) *node {
	n := &node{}
	n.args = argList(d.from(u.args, nArgLists), depth, parent)
	n.kids = kidList(d.from(u.kids, nKidLists), depth, func() *node { return mixed(d, depth-1, n, u) })
	n.segs = append(n.segs, txt(headTexts[d.of(len(headTexts))]))
	n.segs = append(n.segs, argRefsOf(d.from(u.argRefs, nArgRefs), len(n.args))...)
	n.segs = append(n.segs, txt(" b "))
	n.segs = append(n.segs, fragRefsOf(d.from(u.fragRefs, nFragRefs), len(n.kids), len(n.args))...)
	n.segs = append(n.segs, txt(tailTexts[d.of(len(tailTexts))]))
	n.prefix = prefixes[d.of(len(prefixes))]
	n.suffix = suffixes[d.of(len(suffixes))]
	end := func(s ...seg) { n.segs = append(append(n.segs, txt(" ")), s...) }
	switch d.of(nMutations) {
	case 1: // nothing is referenced
		n.segs = []seg{txt(" ")}
	case 2:
		end(ref(sDollar, len(n.args)+1))
	case 3:
		end(ref(sArgCall, len(n.args)+1))
	case 4:
		end(ref(sFN, len(n.kids)+1))
	case 5:
		end(ref(sArgCall, 0))
	case 6:
		end(seg{kind: sBad, text: "#"})
	case 7:
		end(seg{kind: sBad, text: "#zz()"})
	case 8:
		end(ref(sDollar, 1))
	case 9:
		end(ref(sQ, 0))
	case 10:
		end(seg{kind: sBad, text: "#arg"})
	case 12: // dangling references in templates, everything else is fine
		end(join([]seg{ref(sDynArg, 0), txt(" "), ref(sArgN, len(n.args)+1)}, ","))
	case 13:
		end(join([]seg{ref(sFN, len(n.kids)+1), ref(sDynF, 0)}, ","))
	case 14:
		end(join([]seg{ref(sDynF, 0), ref(sArgCall, 0)}, "", 1))
	case 15:
		end(join([]seg{ref(sDollar, len(n.args)+1), ref(sDynFrag, 0)}, " "))
	case 11: // the last reference is missing
		for i := len(n.segs) - 1; i >= 0; i-- {
			if n.segs[i].kind != sText {
				n.segs = append(n.segs[:i:i], n.segs[i+1:]...)
				break
			}
		}
	}
	return n
}

// mixedTree is a fragment with up to k deviations in it or its children.
func mixedTree(depth int, u usual) *node {
	k := v.Pick(2, 3)
	if v.Thorough() {
		depth = 1
	}
	v.Bound("fragments of depth 0.." + v.Itoa(depth) + " that deviate from a usual one in any " + v.Itoa(k) + " of: 18 argument lists (nil, uncomparable, equal, wide symbolic ints, ...), 13 lists of children (nil, empty, shared, ...), 16 texts before and 16 after the references, 22 ways of referring to arguments and 20 to children (all forms, #join with templates and bounds), 7 prefixes, 7 suffixes, 15 mistakes; at each of its levels")
	return mixed(&devs{k}, depth, nil, u)
}

func C01_mixed() {
	buildBoth(mixedTree(1, usual{}), styleOf(v.Choice(2)), true, false, "mixed")
}
func C02_mixed() {
	buildBoth(mixedTree(1, usual{args: 14}), styleOf(v.Choice(2)), false, true, "mixed")
}
func C03_mixed() {
	buildBoth(mixedTree(1, usual{args: 1, fragRefs: 1}), styleOf(v.Choice(2)), true, false, "mixed")
}
func C07_mixed() {
	n := mixedTree(1, usual{args: 2, kids: 2})
	checkOutcome(n, styleOf(v.Choice(2)), 2, "mixed")
}
func C08_mixed() {
	buildAny(mixedTree(2, usual{}).fragment())
}
func C09_mixed() {
	buildBoth(mixedTree(1, usual{args: 2, kids: 9, argRefs: 5, fragRefs: 5}), styleOf(v.Choice(2)), true, false, "mixed")
}
func C11_mixed() {
	buildBoth(mixedTree(2, usual{argRefs: 3}), styleOf(v.Choice(2)), true, false, "mixed")
}
func C12_mixed() {
	f := mixedTree(1, usual{args: 2}).fragment()
	var snaps []*snap
	snapshot(f, &snaps)
	style := styleOf(v.Choice(2))
	r := build(f, style)
	build(sqlf.Ff("#join('#f',',') $9", f), styleOf(0))
	unchanged(snaps)
	v.Assert(build(f, style).equals(r), "building again gives another result")
	unchanged(snaps)
	v.Cover("repeated")
}

// two deviating fragments in one context
func C13_mixed() {
	v.Bound("two fragments, with 1 deviation each of those listed for C01, and the first again, built into one context")
	style := styleOf(v.Choice(2))
	ctx := sqlf.NewContext(style)
	a := mixed(&devs{1}, 1, nil, usual{args: 2})
	b := mixed(&devs{v.Pick(1, 2)}, v.Pick(0, 1), a, usual{args: 8})
	var all []tok
	text := ""
	var lists, copies [][]any
	for _, n := range []*node{a, b, a} {
		ts, e := n.eval()
		v.Assume(e == evOK)
		q, err := n.fragment().BuildFragment(ctx)
		v.Assert(err == nil, "a build into a used context fails")
		text += q + ";"
		all = append(append(all, ts...), tok{text: ";"})
		lists = append(lists, ctx.Args())
		copies = append(copies, append([]any{}, ctx.Args()...))
	}
	for i, l := range lists {
		for j := range l {
			v.Assert(same(l[j], copies[i][j]) && same(ctx.Args()[j], copies[i][j]), "a committed argument changes")
		}
	}
	v.Observe("text", text)
	checkDenotes(text, ctx.Args(), all, style, "builds into one context")
	checkExact(text, ctx.Args(), all, style, "builds into one context")
	v.Cover("accumulated")
}

var _ = syntax.Dollar
