package h

import (
	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// Alphabets that reach the interesting lexical situations quickly.
const (
	alphaQuote = "'\"`?$#a1 "
	alphaArgs  = "(),'1-.a \n"
	alphaMixed = "?$1'#j "
	alphaPos   = "\n\xc3\xa9'?#f1("
)

func anyText(min, max int, alphabet string) string {
	v.Bound("texts of " + v.Itoa(min) + ".." + v.Itoa(max) + " bytes over the alphabet " + alphabet + " (empty: all 256)")
	return v.Str(min, max, alphabet)
}

// ---- C03 ----

func C03_any_bytes() { checkParse(anyText(0, v.Pick(4, 5), ""), true, false, false, false) }

func C03_quotes() {
	checkParse(anyText(0, v.Pick(6, 8), "'\"`?x"), true, false, false, false)
}

// literal text between and around references, through a full build
func C03_built() {
	n := v.Pick(2, 3)
	v.Bound("built text: <t1>$1<t2>#f1<t3> with one t 0.." + v.Itoa(n) + " and the others 0..1 arbitrary bytes that are not marks")
	ns := [3]int{1, 1, 1}
	ns[v.Choice(3)] = n
	t1, t2, t3 := litText(ns[0]), litText(ns[1]), litText(ns[2])
	v.Assume(len(t2) == 0 || !isDigit(t2[0]))
	v.Assume(len(t3) == 0 || !isDigit(t3[0]))
	f := sqlf.Ff(t1+"$1"+t2+"#f1"+t3, sqlf.F("(x)")).WithArgs(7)
	q, _, err := f.BuildQuery(syntax.Dollar)
	v.Assert(err == nil, "a text with literal parts fails to build")
	want := trim(t1 + "$1" + t2 + "(x)" + t3)
	v.Observe("query", q)
	v.Assert(q == want, "literal text around references differs in the built query")
	v.Cover("built")
}

// doubled marks and quoted text stay as they are in a built query
func C03_built_quoted() {
	n := v.Pick(3, 4)
	v.Bound("built text: x<quote><t><quote>y$$??z with t 0.." + v.Itoa(n) + " arbitrary bytes, all three quotes")
	q := "'\"`"[v.Choice(3)]
	t := v.Str(0, n, "")
	in := []byte{}
	for i := 0; i < len(t); i++ {
		if t[i] == q {
			v.Assume(q == '\'')
			in = append(in, q)
		}
		in = append(in, t[i])
	}
	raw := "x" + string(q) + string(in) + string(q) + "y$$??z"
	style := styleOf(v.Choice(2))
	got, args, err := sqlf.F(raw).BuildQuery(style)
	v.Assert(err == nil, "quoted text fails to build")
	v.Observe("query", got)
	v.Assert(got == raw, "quoted text or doubled marks changed")
	v.Assert(len(args) == 0, "arguments appeared from quoted text")
	v.Cover("quoted")
}

// long texts, multi-byte characters at every alignment
func C03_long() {
	ks := []int{0, 1, 7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300, 1023}
	k := ks[v.Choice(v.Pick(11, len(ks)))]
	b := v.Str(1, v.Pick(2, 3), "")
	pad := make([]byte, 0, 1100)
	for i := 0; i < k; i++ {
		pad = append(pad, 'p')
	}
	s := string(pad) + b + string(pad[:k/2]) + b
	v.Bound("text p^k b p^(k/2) b with k around powers of two up to " + v.Itoa(v.Pick(65, 1023)) + " and b of 1.." + v.Itoa(v.Pick(2, 3)) + " arbitrary bytes")
	checkParse(s, true, false, false, false)
}

// litText is arbitrary text without quotes and marks.
func litText(n int) string {
	t := v.Str(0, n, "")
	for i := 0; i < len(t); i++ {
		c := t[i]
		v.Assume(c != '\'' && c != '"' && c != '`' && c != '$' && c != '?' && c != '#')
	}
	return t
}

// ---- C04 ----

func C04_any_bytes() { checkParse(anyText(0, v.Pick(4, 5), ""), false, true, false, false) }

func C04_marks() {
	checkParse(anyText(0, v.Pick(6, 7), "?$#a1'("), false, true, false, false)
}

func C04_call_args() {
	n := v.Pick(5, 6)
	v.Bound("#f(<t> with t of 0.." + v.Itoa(n) + " bytes over the alphabet " + alphaArgs)
	checkParse("#f("+v.Str(0, n, alphaArgs), false, true, false, false)
}

func C04_call_any_bytes() {
	n := v.Pick(3, 4)
	v.Bound("#f(<t>) with t of 0.." + v.Itoa(n) + " arbitrary bytes")
	checkParse("#f("+v.Str(0, n, "")+")", false, true, false, false)
}

// calls with well-formed arguments of every kind, white space between

// long numbers and fractions
func C04_call_numbers() {
	v.Bound("a call with a number of up to 17 digits, of which the last is symbolic, with sign; one of 12 fractions and exponents (decoded to the nearest value, if accepted at all)")
	raw, want, may := "", 0.0, false
	if v.Bool() {
		digits := []string{"", "1", "99", "16777", "2147483", "900719925474098", "12345678901", "9999999", "104857", "33554433", "4294967295"}[v.Choice(11)] + v.Str(1, 1, "0123456789")
		raw = digits
		n := 0
		for i := 0; i < len(digits); i++ {
			n = n*10 + int(digits[i]-'0')
		}
		v.Assume(n < 1<<53)
		want = float64(n)
		if v.Bool() {
			raw, want = "-"+raw, -want
		}
	} else {
		may = true
		fs := []string{"0.1", "3.141592653589793", "1e3", "2.5e-3", "-0.7", "1.5", "16777217.5", "1e300", "123456789.125", "-1e-7", "0.30000000000000004", "2.2250738585072014e-308"}
		ns := []float64{0.1, 3.141592653589793, 1e3, 2.5e-3, -0.7, 1.5, 16777217.5, 1e300, 123456789.125, -1e-7, 0.30000000000000004, 2.2250738585072014e-308}
		i := v.Choice(len(fs))
		raw, want = fs[i], ns[i]
	}
	c, err := syntax.Parse("#f(1," + raw + ")")
	v.Assert(may || err == nil, "a well-formed call is rejected")
	if err != nil {
		return
	}
	got, _ := normalise(c)
	v.Assert(len(got) == 1 && got[0].kind == kCall && len(got[0].args) == 2 && sameArg(got[0].args[1], want), "call argument differs")
	v.Cover("number")
}

// what merely resembles a keyword
func C04_call_keywords() {
	v.Bound("a call with true, false, nil, null, in any case of its letters, with any one byte (not a comma, parenthesis or quote) inserted at any place, or without any one of its letters: only the exact keywords are accepted")
	kws := []string{"true", "false", "nil", "null"}
	vals := []any{true, false, nil, nil}
	k := v.Choice(len(kws))
	kw := kws[k]
	b := make([]byte, 0, 8)
	switch v.Choice(3) {
	case 0:
		for i := 0; i < len(kw); i++ {
			b = append(b, v.ByteOf(string([]byte{kw[i], kw[i] - 32})))
		}
	case 1:
		at := v.Choice(len(kw) + 1)
		c := v.Byte()
		v.Assume(c != ',' && c != ')' && c != '\'')
		v.Assume(at > 0 || c != ' ' && (c < 9 || c > 13))
		b = append(append(append(b, kw[:at]...), c), kw[at:]...)
	case 2:
		at := v.Choice(len(kw))
		b = append(append(b, kw[:at]...), kw[at+1:]...)
	}
	c, err := syntax.Parse("#f(1," + string(b) + ")")
	if string(b) == kw {
		v.Assert(err == nil, "a well-formed call is rejected")
		got, _ := normalise(c)
		v.Assert(len(got) == 1 && got[0].kind == kCall && len(got[0].args) == 2 && sameArg(got[0].args[1], vals[k]) && sameKind(got[0].args[1], vals[k]), "call argument differs")
		v.Cover("keyword")
		return
	}
	v.Assert(err != nil, "a misspelt keyword is accepted")
	v.Cover("misspelt")
}
func C04_call_wellformed() {
	n := v.Pick(2, 3)
	v.Bound("calls with 0.." + v.Itoa(n) + " arguments: numbers up to 2 symbolic digits, negative numbers, true/false/nil/null, strings of 0..2 arbitrary bytes; optional white space before each")
	k := v.Choice(n + 1)
	raw := "#fn_A("
	want := []any{}
	for i := 0; i < k; i++ {
		if i > 0 {
			raw += ","
		}
		if v.Bool() {
			raw += string(v.ByteOf(" \t\n"))
		}
		switch v.Choice(7) {
		case 0:
			a, t := symNum(2)
			raw += t
			want = append(want, float64(a))
		case 1:
			a, t := symNum(1)
			raw += "-" + t
			want = append(want, -float64(a))
		case 2:
			raw += "true"
			want = append(want, true)
		case 3:
			raw += "false"
			want = append(want, false)
		case 4:
			raw += "nil"
			want = append(want, nil)
		case 5:
			raw += "null"
			want = append(want, nil)
		case 6:
			t := v.Str(0, 2, "")
			raw += "'"
			for j := 0; j < len(t); j++ {
				if t[j] == '\'' {
					raw += "'"
				}
				raw += string(t[j : j+1])
			}
			raw += "'"
			want = append(want, t)
		}
	}
	raw += ")tail"
	c, err := syntax.Parse(raw)
	v.Assert(err == nil, "a well-formed call is rejected")
	got, _ := normalise(c)
	v.Assert(len(got) == 2 && got[0].kind == kCall && got[0].text == "fn_A" && got[1].text == "tail", "a well-formed call is not recognised")
	v.Assert(len(got[0].args) == len(want), "number of call arguments differs")
	for i := range want {
		v.Assert(sameArg(got[0].args[i], want[i]), "call argument differs")
		v.Assert(sameKind(got[0].args[i], want[i]), "kind of call argument differs")
	}
	v.Cover("call")
}

func sameKind(a, b any) bool {
	switch b.(type) {
	case string:
		_, ok := a.(string)
		return ok
	case bool:
		_, ok := a.(bool)
		return ok
	case nil:
		return a == nil
	}
	_, ok := toFloat(a)
	return ok
}

// symNum is a number of up to n symbolic digits and its text.
func symNum(n int) (int, string) {
	t := v.Str(1, n, "0123456789")
	x := 0
	for i := 0; i < len(t); i++ {
		x = x*10 + int(t[i]-'0')
	}
	return x, t
}

// indexes with several symbolic digits
func C04_indexes() {
	n := v.Pick(4, 6)
	v.Bound("$N, #fN, with N of 1.." + v.Itoa(n) + " symbolic digits followed by 0..2 arbitrary bytes; ? repeated up to 12 times")
	digits := v.Str(1, n, "0123456789")
	tail := v.Str(0, 2, "")
	switch v.Choice(3) {
	case 0:
		checkParse("a$"+digits+tail, false, true, false, false)
	case 1:
		checkParse("a#f"+digits+tail, false, true, false, false)
	case 2:
		k := v.Choice(13)
		s := ""
		for i := 0; i < k; i++ {
			s += "?,"
		}
		checkParse(s+tail, false, true, false, false)
	}
}

// ---- C05 ----

func C05_any_bytes() { checkParse(anyText(0, v.Pick(4, 5), ""), false, false, false, true) }

func C05_lines() {
	checkParse(anyText(0, v.Pick(6, 7), "\n\xc3\xa9'?x"), false, false, false, true)
}

func C05_calls() {
	n := v.Pick(3, 4)
	v.Bound("<t>#f(1,'<u>')<w>#g2?#h with t,u,w of 0.." + v.Itoa(n) + " bytes incl. newlines and multi-byte characters")
	t := v.Str(0, n, "\n\xc3\xa9x`")
	u := v.Str(0, 2, "\n\xc3\xa9x")
	w := v.Str(0, 2, "\n\xe4\xb8\xadx")
	checkParse(t+"#f(1,'"+u+"')"+w+"#g2?#h", false, false, false, true)
}

func C05_long() {
	k := v.Int(0, v.Pick(40, 300))
	nl := v.ByteOf("\nx")
	s := ""
	for i := 0; i < k; i++ {
		s += "\xc3\xa9"
	}
	v.Bound("multi-byte runs up to " + v.Itoa(v.Pick(40, 300)) + " characters, then newline or not, before references")
	checkParse(s+"?"+string(nl)+s+"'"+s+string(nl)+"'#f1?", false, false, false, true)
	v.Cover("long")
}

// ---- C06 ----

func C06_any_bytes() { checkParse(anyText(0, v.Pick(4, 5), ""), false, false, true, false) }

func C06_marks() {
	checkParse(anyText(0, v.Pick(6, 8), "?$1',"), false, false, true, false)
}

// references of both kinds with symbolic text between them
func C06_sequences() {
	n := v.Pick(4, 6)
	v.Bound("1.." + v.Itoa(n) + " references, each $ or ?, separated by quoted text, calls or one arbitrary literal byte")
	k := 1 + v.Choice(n)
	s := ""
	dollar, question := 0, 0
	for i := 0; i < k; i++ {
		if v.Bool() {
			s += "$1"
			dollar++
		} else {
			s += "?"
			question++
		}
		switch v.Choice(4) {
		case 0:
			s += " '?$1' "
		case 1:
			s += " #f1 "
		case 2:
			s += " ??$$ "
		case 3:
			b := v.Byte()
			v.Assume(b != '\'' && b != '"' && b != '`' && b != '$' && b != '?' && b != '#' && !isDigit(b))
			s += string([]byte{b})
		}
	}
	_, err := syntax.Parse(s)
	if dollar > 0 && question > 0 {
		v.Cover("mixed")
		v.Assert(err != nil, "a text mixing $n and ? is accepted")
	} else {
		v.Cover("one style")
		v.Assert(err == nil, "a text of one style is rejected")
	}
}

// mixing inside a #join template, and different styles in different fragments
func C06_build() {
	v.Bound("#join template with references of both styles in both orders; parent and child fragment of any styles")
	style := styleOf(v.Choice(2))
	refs := [2]string{"$1", "?"}
	a, b := v.Choice(2), v.Choice(2)
	sep := v.Str(1, 1, " ,x\n")
	tmpl := refs[a] + sep + refs[b] + "#f"
	n := 1
	if a == 1 && b == 1 {
		n = 2
	}
	args := []any{1, 2}[:n]
	_, _, err := sqlf.F("#join('" + tmpl + "', ',')").WithArgs(args...).WithFragments(sqlf.F("x")).BuildQuery(style)
	if a != b {
		v.Cover("template mixed")
		v.Assert(err != nil, "a #join template mixing $n and ? is accepted")
	} else {
		v.Cover("template one style")
		v.Assert(err == nil, "a #join template of one style is rejected")
	}
	_, _, err = sqlf.F(refs[a] + sep + "#f1").WithArgs(1).WithFragments(sqlf.Fa(refs[b], 2)).BuildQuery(style)
	v.Assert(err == nil, "fragments of different styles cannot be combined")
}
