package h

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// ---- C22 ----

type myList []int
type myInt int
type myStr string

// flatItem is an argument and what it contributes.
func flatItem(how int) (any, []any) {
	x, y := v.Int(-1, 1), v.Str(0, 1, "")
	switch how {
	case 0:
		return x, []any{x}
	case 1:
		return y, []any{y}
	case 2:
		return nil, []any{nil}
	case 3:
		return []int{x, 7}, []any{x, 7}
	case 4:
		return []string{y}, []any{y}
	case 5:
		in := []int{x}
		return []any{in, nil, y, int8(3)}, []any{in, nil, y, int8(3)}
	case 6:
		return [2]int{x, 2}, []any{x, 2}
	case 7:
		return &[]string{y, "z"}, []any{y, "z"}
	case 8:
		return &[2]int{1, x}, []any{1, x}
	case 9:
		in := []any{[]int{1}, x}
		return &in, []any{in[0], x}
	case 10:
		return (*[]int)(nil), nil
	case 11:
		return []int(nil), nil
	case 12:
		return []string{}, nil
	case 13:
		return [0]int{}, nil
	case 14:
		return myList{x, x}, []any{x, x}
	case 15:
		return []myStr{myStr(y)}, []any{myStr(y)}
	case 16:
		a, b := []int{x}, []int(nil)
		return [][]int{a, b}, []any{a, b}
	case 17:
		p := &x
		return p, []any{p}
	case 18:
		p := &x
		return []*int{p, nil}, []any{p, (*int)(nil)}
	case 19:
		return (*int)(nil), []any{(*int)(nil)}
	case 20:
		return []byte{byte(x), 5}, []any{byte(x), byte(5)}
	case 21:
		return struct{ A []int }{[]int{1}}, []any{nil}[:0:0]
	case 22:
		return map[string]int{"a": 1}, nil
	case 23:
		return myInt(x), []any{myInt(x)}
	case 24:
		return []error{nil}, []any{nil}
	case 25:
		return (*[3]string)(nil), nil
	case 26:
		return []float64{1.5, 0}, []any{1.5, 0.0}
	case 27:
		return []bool{x == 1}, []any{x == 1}
	case 28:
		return [][2]int{{x, 1}}, []any{[2]int{x, 1}}
	case 29:
		return &[]any{}, nil
	case 30:
		return []any(nil), nil
	case 31:
		n := v.Str(0, 0, "")
		return []any{n, &n}[:1], []any{""}
	case 32:
		return []int32{int32(x)}, []any{int32(x)}
	case 33:
		return []uint{uint(x)}, []any{uint(x)}
	case 34:
		return &[]int64{int64(x), 2}, []any{int64(x), int64(2)}
	case 35:
		return []float32{2}, []any{float32(2)}
	case 36:
		return &[]bool{true, x == 1}, []any{true, x == 1}
	case 37:
		return []uint64{uint64(x)}, []any{uint64(x)}
	case 38:
		return &[]uint32{uint32(x)}, []any{uint32(x)}
	case 39:
		return []int64{int64(x), 3}, []any{int64(x), int64(3)}
	case 40:
		return []uint32{9, uint32(x)}, []any{uint32(9), uint32(x)}
	case 41:
		return &[]int{x, 1, 2}, []any{x, 1, 2}
	case 42:
		return &[]int32{int32(x)}, []any{int32(x)}
	case 43:
		return &[]uint64{uint64(x), 1}, []any{uint64(x), uint64(1)}
	case 44:
		return &[]uint{uint(x), 1}, []any{uint(x), uint(1)}
	case 45:
		return &[]float64{2.5}, []any{2.5}
	case 46:
		return &[]float32{2.5}, []any{float32(2.5)}
	case 47:
		return []int16{int16(x)}, []any{int16(x)}
	case 48: // a pointer to a pointer is a value
		p := &[]int{x, 1}
		return &p, []any{&p}
	case 49:
		p := (*[]int)(nil)
		return &p, []any{&p}
	case 50:
		var l any = []int{x}
		return &l, []any{&l}
	case 51:
		p := &[1]string{y}
		return &p, []any{&p}
	case 52:
		p := &struct{ L []int }{[]int{x}}
		return p, []any{p}
	case 53:
		l := []*[]int{{x}, nil}
		return l, []any{l[0], l[1]}
	case 54:
		l := [2]any{[]int{x}, y}
		return l, []any{l[0], y}
	case 55:
		c := make(chan int)
		return c, []any{c}
	case 56:
		l := []struct{}{{}, {}}
		return l, []any{struct{}{}, struct{}{}}
	case 57:
		n := sql.NullString{String: y, Valid: true}
		return n, []any{n}
	case 58:
		m := &map[string]int{"a": 1}
		return m, []any{m}
	}
	return nil, nil
}

const nFlatItems = 59

// deepSame compares elements, lists by content.
func deepSame(a, b any) bool {
	switch x := a.(type) {
	case []int:
		y, ok := b.([]int)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case map[string]int:
		y, ok := b.(map[string]int)
		return ok && len(x) == len(y) && x["a"] == y["a"]
	case struct{ A []int }:
		y, ok := b.(struct{ A []int })
		return ok && deepSame(x.A, y.A)
	}
	switch x := a.(type) {
	case *[]any, **[]int, *any, **[1]string, *struct{ L []int }, *[]int, chan int, struct{}, sql.NullString, *map[string]int:
		return a == b
	case [2]int:
		y, ok := b.([2]int)
		return ok && x == y
	case *string:
		y, ok := b.(*string)
		return ok && x == y
	case myInt:
		y, ok := b.(myInt)
		return ok && x == y
	case myStr:
		y, ok := b.(myStr)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case int8:
		y, ok := b.(int8)
		return ok && x == y
	case int16:
		y, ok := b.(int16)
		return ok && x == y
	case int32:
		y, ok := b.(int32)
		return ok && x == y
	case uint:
		y, ok := b.(uint)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	}
	return same(a, b)
}

func C22_mix() {
	m := v.Pick(2, 3)
	v.Bound("0.." + v.Itoa(m) + " args of 59 kinds (scalars, slices, arrays, pointers to them and to pointers, nil, empty, nested, named types; values and contents symbolic)")
	n := v.Choice(m + 1)
	var args, want []any
	for i := 0; i < n; i++ {
		h := 0
		if i < 2 {
			h = v.Choice(nFlatItems)
		} else {
			h = []int{0, 3, 5, 12}[v.Choice(4)]
		}
		a, w := flatItem(h)
		if h == 21 || h == 22 {
			w = []any{a}
		}
		args, want = append(args, a), append(want, w...)
	}
	keep := append([]any{}, args...)
	got := util.ArgsFlatted(args...)
	v.Assert(len(got) == len(want), "another number of args")
	for i := range want {
		v.Assert(deepSame(got[i], want[i]), "other args")
	}
	for i := range keep {
		switch keep[i].(type) {
		case int, string, nil, []int:
			v.Assert(deepSame(keep[i], args[i]), "the list of args is modified")
		}
	}
	v.Cover("flat")
}

// inputs are not modified, also not by using the result
func C22_inputs() {
	v.Bound("a list of 0..3 ints of symbolic value with 0..2 spare capacity, as []any, []int or *[]any, before and after other args")
	n, sp := v.Choice(4), v.Choice(3)
	l, li := make([]any, n, n+sp), make([]int, n, n+sp)
	var vals []int
	for i := range l {
		x := v.Int(0, 1)
		l[i], li[i] = x, x
		vals = append(vals, x)
	}
	var arg any
	switch v.Choice(4) {
	case 0:
		arg = l
	case 1:
		arg = li
	case 2:
		arg = &l
	case 3:
		arg = &li
	}
	var got []any
	k := 0
	switch v.Choice(3) {
	case 0:
		got = util.ArgsFlatted(arg)
	case 1:
		got = util.ArgsFlatted(arg, 8, []int{9})
	case 2:
		got, k = util.ArgsFlatted("x", arg, arg), 1
	}
	for i := range vals {
		v.Assert(same(got[k+i], vals[i]), "other args")
	}
	for i := range got {
		got[i] = "overwritten"
	}
	got = append(got, "more")
	for i := 0; i < n+sp; i++ {
		a, b := l[:n+sp][i], li[:n+sp][i]
		if i < n {
			v.Assert(same(a, vals[i]) && b == vals[i], "an input is modified")
		} else {
			v.Assert(a == nil && b == 0, "the memory behind an input is modified")
		}
	}
	v.Cover("inputs")
}

// many elements, several growths of the result
func C22_sizes() {
	n := []int{9, 10, 11, 17, 33, 100, 129, 257, 1001, 2049}[v.Choice(v.Pick(9, 10))]
	v.Bound("lists of 9..1001 (thorough: 2049) elements and as many scalars")
	var want, scal []any
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, v.Itoa(i))
		scal = append(scal, i)
	}
	var got []any
	switch v.Choice(3) {
	case 0:
		got = util.ArgsFlatted(append([]any{l}, scal...)...)
		for _, s := range l {
			want = append(want, s)
		}
		want = append(want, scal...)
	case 1:
		got = util.ArgsFlatted(append(append([]any{}, scal...), l, scal)...)
		want = append(want, scal...)
		for _, s := range l {
			want = append(want, s)
		}
		want = append(want, scal...)
	case 2:
		got, want = util.ArgsFlatted(&scal), scal
	}
	v.Assert(len(got) == len(want), "another number of args")
	for i := range want {
		v.Assert(same(got[i], want[i]), "other args")
	}
}

// ---- C23 ----

type strStringer struct{ s string }

func (s strStringer) String() string { return s.s }

type strVal struct {
	v   any
	err error
}

func (s strVal) Value() (driver.Value, error) { return s.v, s.err }

type ptrVal struct{ v any }

func (s *ptrVal) Value() (driver.Value, error) {
	if s == nil {
		return "nil ptrVal", nil
	}
	return s.v, nil
}

type bothVal struct{ s string }

func (s bothVal) Value() (driver.Value, error) { return "v" + s.s, nil }
func (s bothVal) String() string               { return "s" + s.s }

type mapStringer map[string]int

func (m mapStringer) String() string { return "a'map" }

func sqlQuote(s string) string {
	r := "'"
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			r += "''"
			continue
		}
		r += s[i : i+1]
	}
	return r + "'"
}

// litArg is an argument and its literal.
func litArg(how int) (arg any, lit string, ok bool) {
	switch how {
	case 0:
		s := v.Str(0, 1, "")
		return s, sqlQuote(s), true
	case 1:
		s := v.Str(0, 1, "'a")
		return myStr(s), sqlQuote(s), true
	case 2:
		s := v.Str(0, 1, "'\\")
		return strStringer{s}, sqlQuote(s), true
	case 3:
		s := v.Str(0, 1, "'?")
		return &strStringer{s}, sqlQuote(s), true
	case 4:
		s := v.Str(0, 1, "'$")
		return strVal{v: s}, sqlQuote(s), true
	case 5:
		return strVal{v: int64(3)}, "3", true
	case 6:
		return strVal{}, "NULL", true
	case 7:
		return strVal{err: errors.New("x"), v: "y"}, "", false
	case 8:
		return &ptrVal{true}, "TRUE", true
	case 9:
		return (*ptrVal)(nil), "'nil ptrVal'", true
	case 10:
		return (*strVal)(nil), "NULL", true
	case 11:
		return (*strStringer)(nil), "NULL", true
	case 12:
		return nil, "NULL", true
	case 13:
		b := v.Bool()
		if b {
			return b, "TRUE", true
		}
		return b, "FALSE", true
	case 14:
		i := v.Int(-12, 12)
		return i, v.Itoa(i), true
	case 15:
		return []byte("x"), "", false
	case 16:
		return struct{}{}, "", false
	case 17:
		return []int{1}, "", false
	case 18:
		x := 1
		return &x, "", false
	case 19:
		return (*int)(nil), "", false
	case 20:
		return strVal{v: strVal{v: "n'"}}, "'n'''", true
	case 21:
		return strVal{v: []byte("x")}, "", false
	case 22:
		return bothVal{"'"}, "'v'''", true
	case 23:
		return mapStringer(nil), "'a''map'", true
	case 24:
		return func() {}, "", false
	case 25:
		return strVal{v: (*strVal)(nil)}, "NULL", true
	case 26:
		return errors.New("e"), "", false
	case 27:
		return make(chan int), "", false
	case 28:
		return map[string]int{}, "", false
	case 29:
		b := v.Bool()
		if b {
			return namedBool(b), "TRUE", true
		}
		return namedBool(b), "FALSE", true
	case 30:
		i := v.Int(-12, 12)
		return namedInt(i), v.Itoa(i), true
	case 31:
		i := v.Int(0, 12)
		return []any{uint(i), uint8(i), uint16(i), uint32(i), uint64(i), namedUint(i), int8(i), int16(i), int32(i), int64(i)}[v.Choice(10)], v.Itoa(i), true
	case 32:
		return strVal{v: namedBool(true)}, "TRUE", true
	case 33:
		return strVal{v: myStr("b")}, "'b'", true
	case 34:
		return uintptr(1), "", false
	case 35:
		return complex(1, 2), "", false
	}
	return nil, "", false
}

type namedUint uint16

const nLitArgs = 36

// one arg of any kind, beside another
func C23_kinds() {
	v.Bound("two args of 36 kinds (strings, Stringers, Valuers, pointers, nil, bools, all integer types, named types, unsupported; contents symbolic) into a text with 1..3 placeholders of either style")
	a, la, oka := litArg(v.Choice(nLitArgs))
	b, lb, okb := litArg([]int{0, 4, 12, 14, 15, 7}[v.Choice(6)])
	var q, want string
	use := true // of b
	switch v.Choice(5) {
	case 0:
		q, want = "a=? AND b=? --", "a="+la+" AND b="+lb+" --"
	case 1:
		q, want = "($2,$1,$2)", "("+lb+","+la+","+lb+")"
	case 2:
		q, want, use = "?", la, false
	case 3:
		q, want, use = "$1 '?' $1", la+" '?' "+la, false
	case 4:
		q, want = "IN (?, ?)", "IN ("+la+", "+lb+")"
	}
	checkInterpolate(q, []any{a, b}, want, oka && (okb || !use))
}

func checkInterpolate(q string, args []any, want string, ok bool) {
	got, err := util.Interpolate(q, args)
	es := ""
	if err != nil {
		es = "error"
	}
	v.Observe("got", got)
	v.Observe("err", es)
	v.Assert(ok || err != nil, "interpolate: what must fail does not")
	v.Assert(!ok || err == nil, "interpolate: a valid query fails")
	if ok {
		v.Assert(got == want, "interpolate: another result")
		v.Cover("ok")
	} else {
		v.Cover("~error")
	}
}

// strings stay literals
func C23_strings() {
	m := v.Pick(4, 6)
	v.Bound("a string of 0.." + v.Itoa(m) + " arbitrary bytes, given as string, named string, Stringer, Valuer or pointer to one, in either style")
	s := v.Str(0, m, "")
	var a any
	switch v.Choice(5) {
	case 0:
		a = s
	case 1:
		a = myStr(s)
	case 2:
		a = strStringer{s}
	case 3:
		a = strVal{v: s}
	case 4:
		a = &ptrVal{s}
	}
	q := "x=? "
	if v.Bool() {
		q = "x=$1 "
	}
	got, err := util.Interpolate(q, []any{a})
	v.Observe("got", got)
	v.Assert(err == nil, "interpolate: a string fails")
	// decode the literal
	v.Assert(len(got) >= 5 && got[:2] == "x=", "interpolate: the text before changed")
	v.Assert(got[2] == '\'', "interpolate: not a quoted literal")
	k, i := 3, 0
	for ; k < len(got); k++ {
		if got[k] == '\'' {
			if k+1 < len(got) && got[k+1] == '\'' {
				k++
			} else {
				break
			}
		}
		v.Assert(i < len(s) && s[i] == got[k], "interpolate: the literal decodes to another string")
		i++
	}
	v.Assert(i == len(s), "interpolate: the literal decodes to another string")
	v.Assert(k < len(got) && got[k:] == "' ", "interpolate: the text behind changed")
	v.Cover("literal")
}

func intOf(t, x int) any {
	switch t {
	case 0:
		return x
	case 1:
		return int16(x)
	case 2:
		return int32(x)
	case 3:
		return int64(x)
	case 4:
		return myInt(x)
	case 5:
		return uint(x)
	case 6:
		return uint8(x)
	case 7:
		return uint16(x)
	case 8:
		return uint32(x)
	case 9:
		return uint64(x)
	}
	return strVal{v: int64(x)}
}

// integers of all types
func C23_ints() {
	v.Bound("integers of 10 types and a named one, -12..12 (thorough: -130..130), and the borders of each type")
	type c struct {
		a any
		s string
	}
	if v.Bool() {
		m := v.Pick(12, 130)
		x := v.Int(-m, m)
		t := v.Choice(11)
		if t >= 5 && t < 10 {
			v.Assume(x >= 0)
		}
		checkInterpolate("(?)", []any{intOf(t, x)}, "("+v.Itoa(x)+")", true)
		return
	}
	cs := []c{{int8(-128), "-128"}, {int8(127), "127"}, {int16(-32768), "-32768"}, {int32(2147483647), "2147483647"}, {int64(-9223372036854775808), "-9223372036854775808"},
		{int64(9223372036854775807), "9223372036854775807"}, {uint64(18446744073709551615), "18446744073709551615"}, {uint8(255), "255"}, {uint16(65535), "65535"}, {uint32(4294967295), "4294967295"}, {uint(18446744073709551615), "18446744073709551615"}}
	k := cs[v.Choice(len(cs))]
	checkInterpolate("(?)", []any{k.a}, "("+k.s+")", true)
}

// any text
func C23_text() {
	m := v.Pick(5, 6)
	n := v.Choice(3)
	v.Bound("any text of 0.." + v.Itoa(m) + " bytes over ?$'\"12#a( and space, 0..2 args")
	q := v.Str(0, m, "?$'\"12#a( ")
	args := []any{"'", 5}[:n]
	lits := []string{"''''", "5"}
	r := refParse(q)
	v.Assume(!r.unspec)
	want, ok := "", r.ok && !r.mixed
	if ok {
		for _, e := range r.exprs {
			switch e.kind {
			case kPlain:
				want += e.text
			case kRef:
				if e.idx < 1 || e.idx > n {
					ok = false
					continue
				}
				want += lits[e.idx-1]
			default:
				ok = false
			}
		}
	}
	checkInterpolate(q, args, want, ok)
}

// placeholders with any number
func C23_index() {
	v.Bound("$ placeholders with numbers 0..30 and beyond the integer types, 0..12 args; 1..33 ? placeholders with as many, one less or one more args")
	if v.Bool() {
		n := v.Choice(13)
		var args []any
		for i := 0; i < n; i++ {
			args = append(args, 100+i)
		}
		var d string
		i := 0
		if v.Bool() {
			d = v.Str(1, 2, "0123456789")
			v.Assume(len(d) == 1 || d[0] != '0')
			for k := 0; k < len(d); k++ {
				i = i*10 + int(d[k]-'0')
			}
			v.Assume(i <= 30)
		} else {
			d = []string{"18446744073709551617", "4294967297", "2147483648", "9223372036854775808"}[v.Choice(4)]
			i = 1 << 40
		}
		want := ""
		ok := i >= 1 && i <= n
		if ok {
			want = "<" + v.Itoa(99+i) + ">"
		}
		checkInterpolate("<$"+d+">", args, want, ok)
		return
	}
	n := []int{1, 2, 9, 10, 11, 33}[v.Choice(6)]
	d := v.Choice(3) - 1
	q, want := "", ""
	var args []any
	for i := 0; i < n; i++ {
		q, want = q+"?,", want+v.Itoa(i)+","
		if i < n+d {
			args = append(args, i)
		}
	}
	if d == 1 {
		args = append(args, "surplus")
	}
	checkInterpolate(q, args, want, d >= 0)
}

// ---- C24 ----

type rec struct {
	id   int64
	name string
	x    any
}

var (
	errQ    = errors.New("query")
	errIter = errors.New("iteration")
	errCls  = errors.New("close")
	errScan = errors.New("scanner")
)

type badScanner struct{ fail int }

var scans int

func (b *badScanner) Scan(any) error {
	scans++
	if scans-1 == b.fail {
		return errScan
	}
	return nil
}

func planErr() *v.Plan {
	p := &v.Plan{FailAt: -1}
	switch v.Choice(3) {
	case 1:
		p.QueryErr = errQ
	case 2:
		p.FailAt = v.Int(0, 4)
		p.IterErr = errIter
	}
	if v.Bool() {
		p.CloseErr = errCls
	}
	return p
}

// any fault schedule
func C24_faults() {
	m := v.Pick(3, 4)
	v.Bound("0.." + v.Itoa(m) + " rows; the query fails, or the iteration before a row of symbolic number, or the scan of any row (by the destination or by the value: symbolic digits into an integer), or closing; 1..3 columns for 0..3 destinations")
	p := planErr()
	nc := v.Choice(3) + 1
	p.Cols = []string{"id", "name", "x"}[:nc]
	n := v.Choice(m + 1)
	var ids []string
	for i := 0; i < n; i++ {
		// numbers are digits; others cannot be scanned
		d := "7"
		if i < 2 {
			d = v.Str(1, 1, "019a")
		}
		ids = append(ids, d)
		p.Rows = append(p.Rows, []any{d, "name" + v.Itoa(i), int64(i)}[:nc])
	}
	nd := v.Choice(4)
	bad := -1
	if nd >= 2 && v.Bool() {
		bad = v.Choice(n + 1)
	}
	scans = 0
	fn := func() (*rec, []any) {
		r := &rec{}
		fs := []any{&r.id, &r.name, &r.x}[:nd]
		if bad >= 0 {
			fs[1] = &badScanner{bad}
		}
		return r, fs
	}
	res, err := util.Scan[*rec](v.DB{p}, "q", []any{1, "a"}, fn)
	es := "ok"
	if err != nil {
		es = err.Error()
	}
	v.Observe("err", es)
	v.Observe("n", v.Itoa(len(res)))
	// the model
	fails, failure := false, error(nil)
	if p.QueryErr != nil {
		fails, failure = true, errQ
	}
	for i := 0; i <= n && !fails; i++ {
		if p.FailAt == i {
			fails, failure = true, errIter
			break
		}
		if i == n {
			// an error of closing at the end is one of the iteration
			if p.CloseErr != nil {
				fails, failure = true, errCls
			}
			break
		}
		switch {
		case nd > nc:
			fails = true
		case nd >= 1 && ids[i] == "a":
			fails = true
		case bad == i:
			fails, failure = true, errScan
		}
	}
	v.Assert(p.Opened == p.Closed, "the rows are not closed")
	v.Assert(len(p.Queries) == 1 && p.Queries[0] == "q" && len(p.Args[0]) == 2 && same(p.Args[0][0], 1) && same(p.Args[0][1], "a"), "another query or other args are run")
	if fails {
		v.Assert(err != nil, "a failure is not reported")
		v.Assert(failure == nil || errors.Is(err, failure), "another error is reported")
		v.Assert(len(res) == 0, "results beside an error")
		v.Cover("fails")
		return
	}
	v.Assert(err == nil, "an error without a failure")
	v.Assert(len(res) == n, "another number of results than rows")
	for i, r := range res {
		if nd >= 1 {
			v.Assert(ids[i] == v.Itoa(int(r.id)), "a result is of another row")
		}
		if nd >= 2 && bad < 0 {
			v.Assert(r.name == "name"+v.Itoa(i), "a result is of another row")
		}
		if nd >= 3 {
			v.Assert(same(r.x, int64(i)), "a result is of another row")
		}
	}
	v.Cover("scanned")
}

// results by value, destinations shared
func C24_values() {
	v.Bound("0..3 rows of 1..4 columns with symbolic values, results by value, destinations for the first or none of the columns; via ScanBuilder too, ScanRow directly")
	n := v.Choice(4)
	nc := v.Choice(4) + 1
	p := &v.Plan{FailAt: -1, Cols: []string{"a", "b", "c", "d"}[:nc]}
	var want []int64
	for i := 0; i < n; i++ {
		x := int64(v.Int(0, 3))
		want = append(want, x)
		p.Rows = append(p.Rows, []any{x, nil, "s", true}[:nc])
	}
	i := 0
	fn := func() (int, []any) {
		i++
		var f int64
		k := i
		return k, []any{&f}
	}
	var got []int
	var err error
	var fields []*int64
	fn2 := func() (*int64, []any) {
		f := new(int64)
		fields = append(fields, f)
		return f, []any{f}
	}
	switch v.Choice(4) {
	case 0:
		got, err = util.Scan[int](v.DB{p}, "q", nil, fn)
	case 1:
		got, err = util.ScanBuilder[int](v.DB{p}, sqlf.F("q"), syntax.Dollar, fn)
	case 2:
		var g []*int64
		g, err = util.Scan[*int64](v.DB{p}, "q", nil, fn2)
		v.Assert(len(g) == n && len(fields) == n, "another number of results than rows")
		for j := range g {
			v.Assert(g[j] == fields[j] && *g[j] == want[j], "a result is of another row")
			got = append(got, j+1)
		}
	case 3:
		rows, _ := v.DB{p}.Query("q")
		for rows.Next() {
			var f int64
			e := util.ScanRow(rows, &f)
			v.Assert(e == nil && len(got) < n && f == want[len(got)], "a row is scanned wrongly")
			got = append(got, len(got)+1)
		}
	}
	v.Assert(err == nil, "an error without a failure")
	v.Assert(len(got) == n, "another number of results than rows")
	for j, g := range got {
		v.Assert(g == j+1, "results are not in row order")
	}
	v.Assert(p.Opened == 1 && p.Closed == 1, "the rows are not closed")
	v.Cover("values")
}

// ---- C25 ----

type fixedBuilder struct {
	q     string
	args  []any
	err   error
	style *syntax.BindVarStyle
}

func (f fixedBuilder) BuildQuery(s syntax.BindVarStyle) (string, []any, error) {
	*f.style = s
	return f.q, f.args, f.err
}

var errBuild = errors.New("build")

// weirdArgs are args of all kinds
func weirdArgs() []any {
	switch v.Choice(8) {
	case 0:
		return nil
	case 1:
		return []any{v.Str(0, 1, "")}
	case 2:
		return []any{(*strVal)(nil), (*strStringer)(nil), nil}
	case 3:
		return []any{[]byte("x"), struct{}{}, (*int)(nil)}
	case 4:
		return []any{strVal{err: errScan}}
	case 5:
		return []any{1, 2, 3, 4, 5}
	case 6:
		return []any{(*ptrVal)(nil), mapStringer(nil)}
	}
	return []any{func() {}, map[string]int(nil)}
}

func passedSame(a, b any) bool {
	switch x := b.(type) {
	case []byte:
		y, ok := a.([]byte)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case func():
		_, ok := a.(func())
		return ok
	case map[string]int:
		y, ok := a.(map[string]int)
		return ok && (x == nil) == (y == nil)
	case mapStringer:
		y, ok := a.(mapStringer)
		return ok && (x == nil) == (y == nil)
	}
	return a == b
}

// Count and what the database answers
func C25_count() {
	m := v.Pick(3, 4)
	v.Bound("any query text of 0.." + v.Itoa(m) + " bytes over ?$1'#a%, args of 8 kinds; the database fails, answers no row, a number (symbolic), digits, something else, NULL, two rows, an error instead of the row, or fails to close")
	q := v.Str(0, m, "?$1'#a%")
	args := weirdArgs()
	p := &v.Plan{FailAt: -1, Cols: []string{"count"}}
	want, fails, failure := int64(0), false, error(nil)
	switch v.Choice(9) {
	case 0:
		p.QueryErr, fails, failure = errQ, true, errQ
	case 1:
	case 2:
		want = int64(v.Int(0, 9))
		p.Rows = [][]any{{want}}
	case 3:
		d := v.Str(1, 1, "059x")
		p.Rows = [][]any{{d}}
		if d == "x" {
			fails = true
		} else {
			want = int64(d[0] - '0')
		}
	case 4:
		p.Rows, fails = [][]any{{nil}}, true
	case 5:
		p.Rows, want = [][]any{{int64(3)}, {int64(4)}}, 3
	case 6:
		p.FailAt, p.IterErr, fails, failure = 0, errIter, true, errIter
	case 7:
		p.Rows, p.CloseErr, fails, failure = [][]any{{int64(3)}}, errCls, true, errCls
	case 8:
		p.QueryErr, fails, failure = context.Canceled, true, context.Canceled
	}
	n, err := util.Count(v.DB{p}, q, args)
	es := "ok"
	if err != nil {
		es = "error"
	}
	v.Observe("err", es)
	v.Assert(len(p.Queries) == 1 && p.Queries[0] == "SELECT COUNT(1) FROM ("+q+") list", "another query is run")
	v.Assert(len(p.Args[0]) == len(args), "other args are passed")
	for i := range args {
		v.Assert(passedSame(p.Args[0][i], args[i]), "other args are passed")
	}
	v.Assert(p.Opened == p.Closed, "the rows are not closed")
	if fails {
		v.Assert(err != nil, "a failure is not reported")
		v.Assert(failure == nil || errors.Is(err, failure), "the error does not match the one of the database")
		v.Cover("fails")
		return
	}
	v.Assert(err == nil, "an error without a failure")
	v.Assert(n == want, "another number")
	v.Cover("counted")
}

// errors that Count reports keep the error of the database
func C25_norows() {
	v.Bound("sql.ErrNoRows as the error of the query or of the iteration: no row")
	p := &v.Plan{FailAt: -1, Cols: []string{"count"}}
	if v.Bool() {
		p.QueryErr = sql.ErrNoRows
	} else {
		p.FailAt, p.IterErr = 0, sql.ErrNoRows
	}
	n, err := util.Count(v.DB{p}, "q", nil)
	v.Assert(n == 0 && err == nil, "no row is not 0")
}

// builders
func C25_builders() {
	m := v.Pick(2, 3)
	v.Bound("CountBuilder and ScanBuilder, query text of 0.." + v.Itoa(m) + " arbitrary bytes, args of 8 kinds, building fails or not, both styles, real fragments and query builders too")
	style := styleOf(v.Choice(2))
	var got syntax.BindVarStyle = 99
	fb := fixedBuilder{q: v.Str(0, m, ""), args: weirdArgs(), style: &got}
	bad := v.Bool()
	if bad {
		fb.err = errBuild
	}
	p := &v.Plan{FailAt: -1, Cols: []string{"count"}, Rows: [][]any{{int64(v.Int(0, 3))}}}
	var err error
	want := fb.q
	if v.Bool() {
		var n int64
		n, err = util.CountBuilder(v.DB{p}, fb, style)
		want = "SELECT COUNT(1) FROM (" + fb.q + ") list"
		v.Assert(bad || same(p.Rows[0][0], n), "another number")
	} else {
		var r []*int64
		r, err = util.ScanBuilder[*int64](v.DB{p}, fb, style, func() (*int64, []any) {
			x := new(int64)
			return x, []any{x}
		})
		v.Assert(bad && len(r) == 0 || len(r) == 1 && same(p.Rows[0][0], *r[0]), "another result")
	}
	v.Assert(got == style, "built in another style")
	if bad {
		v.Assert(errors.Is(err, errBuild), "the error of building is not returned")
		v.Assert(len(p.Queries) == 0, "a query is run though building failed")
		v.Cover("build fails")
		return
	}
	v.Assert(err == nil, "an error without a failure")
	v.Assert(len(p.Queries) == 1 && p.Queries[0] == want, "another query is run")
	v.Assert(len(p.Args[0]) == len(fb.args), "other args are passed")
	for i := range fb.args {
		v.Assert(passedSame(p.Args[0][i], fb.args[i]), "other args are passed")
	}
	v.Assert(p.Opened == p.Closed, "the rows are not closed")
	v.Cover("run")
}

// real builders
func C25_real() {
	v.Bound("CountBuilder and ScanBuilder with fragments and query builders with args, valid or not, both styles")
	style := styleOf(v.Choice(2))
	q := newQuery()
	if v.Bool() {
		q.from("tab", "t")
	}
	if v.Bool() {
		q.setDistinct()
	}
	q.sel(exprCol("t", v.Int(0, 1)))
	q.where(cond("t", v.Int(0, 1)))
	q.order(exprCol("t", 2), sqlb.Desc)
	ts, ok := q.eval()
	var b sqlf.QueryBuilder = q.b
	switch v.Choice(3) {
	case 1:
		f := sqlf.Ff("(#f1)#arg1", q.b).WithArgs(5)
		b, ts = f, cat([]tok{{text: "("}}, ts, []tok{{text: ")"}, {isArg: true, arg: 5}})
	case 2:
		b, ts, ok = sqlf.Fa("? ?", 1), nil, false
	}
	p := &v.Plan{FailAt: -1, Cols: []string{"count"}}
	var err error
	count := v.Bool()
	if count {
		_, err = util.CountBuilder(v.DB{p}, b, style)
	} else {
		_, err = util.ScanBuilder[int](v.DB{p}, b, style, func() (int, []any) { return 0, nil })
	}
	v.Assert((err == nil) == ok, "fails or not, other than the builder")
	if !ok {
		v.Assert(len(p.Queries) == 0, "a query is run though building failed")
		return
	}
	v.Assert(len(p.Queries) == 1, "not one query is run")
	got := p.Queries[0]
	if count {
		pre, post := "SELECT COUNT(1) FROM (", ") list"
		v.Assert(len(got) > len(pre)+len(post) && got[:len(pre)] == pre && got[len(got)-len(post):] == post, "not wrapped as a count")
		got = got[len(pre) : len(got)-len(post)]
	}
	checkDenotes(squeeze(got), p.Args[0], squeezeToks(ts), style, "query run")
	v.Cover("run")
}

// ---- C26 ----

func buildFrag(b sqlf.FragmentBuilder, what string) string {
	s, args, err := sqlf.Ff("#f1", b).BuildQuery(syntax.Dollar)
	v.Assert(err == nil, what+" fails")
	v.Assert(len(args) == 0, what+" has args")
	return s
}

const nameBytes = "abC_0.\"[] -*#$?'"

// tables and columns of any name
func C26_names() {
	v.Bound("table names and aliases of 0..2, column names of 0..3 bytes over " + nameBytes + ", through Table and TableAliased, Column, Columns, AnonymousColumn(s)")
	name := v.Str(0, 2, nameBytes)
	alias := v.Str(0, 1, nameBytes)
	c := v.Str(0, 2, nameBytes)
	app := name
	if alias != "" {
		app = alias
	}
	t := sqlb.NewTableAliased(sqlb.Table(name), sqlb.Table(alias))
	v.Assert(string(t.AppliedName()) == app, "applied name")
	v.Assert(string(t.Name) == name && string(t.Alias) == alias, "names of a table")
	ns := t.Names()
	v.Assert(len(ns) == 2 && string(ns[0]) == name && string(ns[1]) == alias, "names of a table")
	v.Assert(buildFrag(t, "a table") == trim(app), "a table renders as something else")
	v.Assert(buildFrag(sqlb.Table(name), "a table") == trim(name), "a table name renders as something else")
	want := app + "." + c
	if app == "" {
		want = c
	}
	if c == "" {
		want = ""
	}
	want = trim(want)
	v.Assert(buildFrag(t.Column(c), "a column") == want, "a column renders as something else")
	v.Assert(buildFrag(sqlb.Table(app).Column(c), "a column") == want, "a column renders as something else")
	v.Assert(buildFrag(t.AnonymousColumn(c), "a column") == trim(c), "an anonymous column renders as something else")
	v.Assert(buildFrag(sqlb.Table(app).AnonymousColumn(c), "a column") == trim(c), "an anonymous column renders as something else")
	v.Cover("names")
}

// lists of columns
func C26_lists() {
	// names may repeat
	v.Bound("Columns and AnonymousColumns of 0..3 names of 0..1 bytes of a table with or without alias; WithAlias with aliases of 0..1 bytes, once or twice")
	t := sqlb.NewTableAliased("tab", sqlb.Table(v.Str(0, 1, "tx")))
	a1, a2 := v.Str(0, 1, "tyz"), v.Str(0, 1, "tyz")
	old := t
	u := t.WithAlias(sqlb.Table(a1))
	w := u.WithAlias(sqlb.Table(a2))
	v.Assert(t == old, "WithAlias changes the table itself")
	v.Assert(u.Name == "tab" && string(u.Alias) == a1 && w.Name == "tab" && string(w.Alias) == a2, "WithAlias changes something else than the alias")
	n := v.Choice(4)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, v.Str(0, 1, "ab"))
	}
	app := string(w.AppliedName())
	for k, cs := range [][]*sqlb.Column{w.Columns(names...), w.AnonymousColumns(names...), sqlb.Table(app).Columns(names...), sqlb.Table(app).AnonymousColumns(names...)} {
		v.Assert(len(cs) == n, "another number of columns")
		for i, c := range cs {
			want := names[i]
			if k%2 == 0 && want != "" {
				want = app + "." + want
			}
			v.Assert(buildFrag(c, "a column") == want, "a column of a list renders as something else")
		}
	}
	v.Cover("lists")
}

// column i of the table (or none), by any constructor, and the tables it needs
func anyCol(t sqlb.TableAliased, how int) (*sqlb.Column, string, []string) {
	app := string(t.AppliedName())
	switch how {
	case 0:
		return t.Column("c"), app + ".c", []string{app}
	case 1:
		return t.AnonymousColumn("c"), "c", []string{app}
	case 2:
		return t.Columns("b", "c")[1], app + ".c", []string{app}
	case 3:
		return t.AnonymousColumns("b", "c")[1], "c", []string{app}
	case 4:
		return sqlb.Table(app).Column("c"), app + ".c", []string{app}
	case 5:
		return sqlb.ExprColumn(sqlf.Ff("f(#f1)", t)), "f(" + app + ")", []string{app}
	case 6:
		return sqlb.ExprColumn(sqlf.F("now()")), "now()", nil
	case 7:
		return sqlb.ExprColumn(sqlf.Ff("#join('#f',' ')", t.Column("c"), t.AnonymousColumn("d"))), app + ".c d", []string{app}
	case 8:
		return sqlb.ExprColumn(sqlf.Ff("#f1", t.Column("c"))), app + ".c", []string{app}
	case 9:
		return sqlb.ExprColumn(sqlf.Ff("#f1", t.AnonymousColumn("c"))), "c", []string{app}
	case 10:
		return sqlb.ExprColumn(sqlf.Ff("#f1", sqlb.Table(app))), app, []string{app}
	case 11:
		return sqlb.ExprColumn(sqlf.Ff("x #f1", sqlf.Ff("y #f1", sqlb.ExprColumn(sqlf.Ff("#f1", t.AnonymousColumn("c")))))), "x y c", []string{app}
	case 12:
		return sqlb.Table("").Column("c"), "c", nil
	case 13:
		return sqlb.ExprColumn(sqlf.Fa("?", 1)), "", nil
	}
	return nil, "", nil
}

// which tables a column needs, seen by which optional joins stay
func C26_depends() {
	v.Bound("a column of 13 forms of a table with a symbolic applied name of 1..2 bytes, one of 3 optional joins or the main table, in one of 4 clauses")
	name := v.Str(1, 2, "jk")
	q := newQuery()
	q.from("m", "")
	for _, j := range []string{"j", "k", "jk"} {
		q.join(1, "t_"+j, j, cond(j, 1))
	}
	q.setDistinct()
	q.sel(col("m", "x"))
	c, text, tables := anyCol(tbl("any", name), v.Choice(13))
	p := part{c: c, toks: []tok{{text: text}}, tables: tables, f: sqlf.Ff("#f1", c)}
	switch v.Choice(4) {
	case 0:
		q.sel(col("m", "x"), p)
	case 1:
		q.where(&p)
	case 2:
		q.group(p)
	case 3:
		q.order(p, sqlb.Asc)
	}
	q.check(syntax.Dollar, false, "column")
}

// expressions over several fragments
func C26_exprs() {
	v.Bound("an expression column over 1..3 of 11 kinds of fragments (tables, columns, nil, nested, the same twice), of ExprColumn or at any place in a list of ExprColumns; with 3 optional joins")
	q := newQuery()
	q.from("m", "")
	for _, j := range []string{"j", "k", "l"} {
		q.join(1, "t_"+j, j, cond(j, 1))
	}
	q.setDistinct()
	q.sel(col("m", "x"))
	f := sqlf.F("")
	p := part{f: f}
	text := ""
	var last sqlf.FragmentBuilder
	n := v.Choice(3) + 1
	for i := 1; i <= n; i++ {
		var b sqlf.FragmentBuilder
		t, ts := "", []string(nil)
		switch v.Choice(11) {
		case 0:
			b, t, ts = sqlb.Table("j").Column("a"), "j.a", []string{"j"}
		case 1:
			b, t, ts = sqlb.Table("k").AnonymousColumn("b"), "b", []string{"k"}
		case 2:
			b, t, ts = sqlb.Table("l"), "l", []string{"l"}
		case 3:
			b, t, ts = tbl("whatever", "k"), "k", []string{"k"}
		case 4:
			b = (*sqlf.Fragment)(nil)
		case 5:
			b, t, ts = sqlf.Ff("[#f1 #join('#f','')]", (*sqlf.Fragment)(nil), sqlb.Table("l").Column("d")), "[ l.d]", []string{"l"}
		case 6:
			b, t = sqlb.ExprColumn(sqlf.F("1")), "1"
		case 7:
			b, t, ts = sqlb.ExprColumn(sqlf.Ff("#f1-#f2", tbl("j", ""), sqlb.ExprColumn(sqlf.Ff("#f1", sqlb.Table("k").Column("e"))))), "j-k.e", []string{"j", "k"}
		case 8:
			b, t = sqlb.Table("").Column("bare"), "bare"
		case 9:
			v.Assume(last != nil) // the same again
			b, t, ts = last, text, nil
		case 10:
			b, t, ts = sqlf.F("z"), "z", nil
		}
		last, text = b, t
		f.AppendFragments(b)
		f.Raw += "(#f" + v.Itoa(i) + ")"
		p.toks = append(p.toks, tok{text: "(" + t + ")"})
		p.tables = append(p.tables, ts...)
	}
	k := v.Choice(4)
	if k == 0 {
		p.c = sqlb.ExprColumn(f)
		q.sel(col("m", "x"), p)
	} else {
		// the same and other fragments before and after it
		o := sqlf.F("o")
		fs := []*sqlf.Fragment{o, nil, f, f}
		fs[k-1], fs[2] = fs[2], fs[k-1]
		cs := sqlb.ExprColumns(fs...)
		v.Assert(len(cs) == len(fs), "another number of columns")
		var ps []part
		for i := range fs {
			x := part{c: cs[i]}
			switch fs[i] {
			case f:
				x.toks, x.tables = p.toks, p.tables
			case o:
				x.toks = []tok{{text: "o"}}
			}
			ps = append(ps, x)
		}
		switch v.Choice(2) {
		case 0:
			q.sel(ps...)
		case 1:
			q.group(ps...)
		}
	}
	q.check(syntax.Dollar, false, "expression")
}

// refTree is a condition or expression with one reference to the column
// t.c, d levels of fragments down, each with other fragments and arguments
// around it.
func refTree(d int, t string) part {
	p := part{toks: []tok{{text: t + ".c"}}, tables: []string{t}}
	var b sqlf.FragmentBuilder = sqlb.Table(t).Column("c")
	for ; d > 0; d-- {
		shape := v.Choice(v.Pick(4, 6))
		n := []int{1, 2, 2, 3, 3, 5}[shape]
		at := []int{0, 0, 1, 1, 2, 4}[shape]
		args, join, wrap := v.Bool(), v.Bool(), v.Bool()
		f := sqlf.F("")
		var ts []tok
		for i := 0; i < n; i++ {
			if join && i > 0 {
				ts = append(ts, tok{text: ","})
			}
			if !join {
				f.Raw += " #f" + v.Itoa(i+1)
				ts = append(ts, tok{text: " "})
			}
			if i == at {
				f.AppendFragments(b)
				ts = append(ts, p.toks...)
				continue
			}
			f.AppendFragments(sqlf.Fa("o?", i))
			ts = append(ts, tok{text: "o"}, tok{isArg: true, arg: i})
		}
		if join {
			f.Raw += "#join('#f',',')"
		}
		if args {
			f.Raw += "=$1-$2"
			f.AppendArgs(7+d, "a")
			ts = append(ts, tok{text: "="}, tok{isArg: true, arg: 7 + d}, tok{text: "-"}, tok{isArg: true, arg: "a"})
		}
		if !join && len(ts) > 0 && ts[0].text == " " {
			ts = ts[1:]
		}
		p.toks, p.f, b = ts, f, f
		if wrap {
			p.c = sqlb.ExprColumn(f)
			b = p.c
		}
	}
	p.f = sqlf.Ff("#f1", b)
	p.c = sqlb.ExprColumn(p.f)
	return p
}

// references deep in fragments with arguments and other fragments
func treeQuery(place int) {
	q := newQuery()
	q.from("m", "t")
	p := refTree(2, v.Str(1, 1, "btau")) // which table: decided by the solver
	q.join(1, "b", "", eqCond("b", "t"))
	on := cond("a", v.Int(0, 9))
	if place == 3 {
		on = &p
	}
	q.join(v.Choice(2), "a", "", on)
	q.setDistinct()
	q.sel(col("t", "x"))
	switch place {
	case 0:
		q.sel(col("t", "x"), p)
	case 1:
		q.group(p)
	case 2:
		q.order(p, sqlb.Asc)
	case 4:
		q.where(&p)
	}
	q.check(styleOf(place%2), false, "deep reference")
}

// expression columns over trees of fragments
func C26_trees() {
	v.Bound("an expression column 2 levels of fragments above a column, each level with 1..3 (thorough 5) fragments (the others with arguments) by #f or #join, with or without arguments of its own, as a fragment or an expression column; selected, grouped or ordered by; two optional joins")
	treeQuery(v.Choice(3))
}
