package h

import (
	"unicode"
	"unicode/utf8"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/harness/v"
)

// Reference grammar, written from the documented language only.

const (
	kPlain = iota
	kRef
	kCall
	kFunc
)

type rexpr struct {
	kind  int
	text  string // plain text or function name
	style syntax.BindVarStyle
	idx   int
	args  []any
	off   int // offset of its first byte
}

type rparse struct {
	exprs   []rexpr
	ok      bool
	mixed   bool // rejected only because styles are mixed
	unspec  bool // outside the documented language, nothing claimed
	sawFunc bool
}

func isName(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}
func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// number decodes digits. ok is false when it does not fit the harness's needs.
func number(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if n > 1<<52 {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, true
}

func spaceLen(s string) int {
	n := 0
	for n < len(s) {
		r, w := utf8.DecodeRuneInString(s[n:])
		if !unicode.IsSpace(r) {
			break
		}
		n += w
	}
	return n
}

// decNumber recognises [+-]digits[.digits][e[+-]digits]; form says how much is claimed about it.
func decNumber(s string) (f float64, isNum, unspec bool) {
	if len(s) == 0 {
		return 0, false, false
	}
	all := true
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			all = false
			break
		}
	}
	if all {
		n, ok := number(s)
		return float64(n), true, !ok
	}
	// other spellings that Go accepts as a number (signs, fractions, exponents,
	// inf, nan, hexadecimal) are not claimed here, except plain negatives
	if s[0] == '-' && len(s) > 1 {
		neg := true
		for i := 1; i < len(s); i++ {
			if !isDigit(s[i]) {
				neg = false
				break
			}
		}
		if neg {
			n, ok := number(s[1:])
			return -float64(n), true, !ok
		}
	}
	// a number always has a digit or is spelled inf/nan
	for i := 0; i < len(s); i++ {
		if isDigit(s[i]) || s[i] == 'i' || s[i] == 'I' || s[i] == 'n' || s[i] == 'N' {
			return 0, false, true
		}
	}
	return 0, false, false
}

// refParse parses s by the documented grammar.
func refParse(s string) (res rparse) {
	var plain []byte
	plainOff := 0
	add := func(b string, off int) {
		if len(plain) == 0 {
			plainOff = off
		}
		plain = append(plain, b...)
	}
	flush := func() {
		if len(plain) > 0 {
			res.exprs = append(res.exprs, rexpr{kind: kPlain, text: string(plain), off: plainOff})
			plain = nil
		}
	}
	bad := func() rparse { return rparse{ok: false} }
	nq, nd := 0, 0
	mixedAt := -1
	i := 0
	for i < len(s) {
		c := s[i]
		switch c {
		case '\'', '"', '`':
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if c == '\'' && j+1 < len(s) && s[j+1] == '\'' {
						j += 2
						continue
					}
					j++
					break
				}
				j++
			}
			add(s[i:j], i)
			i = j
		case '$':
			if i+1 < len(s) && s[i+1] == '$' {
				add("$$", i)
				i += 2
				continue
			}
			j := i + 1
			for j < len(s) && isDigit(s[j]) {
				if j == i+1 && s[j] == '0' {
					return bad()
				}
				j++
			}
			if j == i+1 {
				return bad()
			}
			n, ok := number(s[i+1 : j])
			if !ok {
				res.unspec = true
				return
			}
			flush()
			nd++
			if nq > 0 && mixedAt < 0 {
				mixedAt = i
			}
			res.exprs = append(res.exprs, rexpr{kind: kRef, style: syntax.Dollar, idx: n, off: i})
			i = j
		case '?':
			if i+1 < len(s) && s[i+1] == '?' {
				add("??", i)
				i += 2
				continue
			}
			if i+1 < len(s) && isDigit(s[i+1]) { // ?1 is not described
				res.unspec = true
				return
			}
			flush()
			if nd > 0 && mixedAt < 0 {
				mixedAt = i
			}
			nq++
			res.exprs = append(res.exprs, rexpr{kind: kRef, style: syntax.Question, idx: nq, off: i})
			i++
		case '#':
			j := i + 1
			for j < len(s) && isName(s[j]) {
				j++
			}
			if j == i+1 {
				return bad()
			}
			flush()
			e := rexpr{text: s[i+1 : j], off: i}
			switch {
			case j < len(s) && isDigit(s[j]):
				k := j
				for k < len(s) && isDigit(s[k]) {
					k++
				}
				n, ok := number(s[j:k])
				if !ok {
					res.unspec = true
					return
				}
				e.kind, e.args = kCall, []any{float64(n)}
				i = k
			case j < len(s) && s[j] == '(':
				args, end, ok, unspec := refArgs(s, j+1)
				if unspec {
					res.unspec = true
					return
				}
				if !ok {
					return bad()
				}
				e.kind, e.args = kCall, args
				i = end
			default:
				e.kind = kFunc
				res.sawFunc = true
				i = j
			}
			res.exprs = append(res.exprs, e)
		default:
			add(s[i:i+1], i)
			i++
		}
	}
	flush()
	if mixedAt >= 0 {
		return rparse{mixed: true}
	}
	res.ok = true
	return
}

// refArgs parses an argument list after its opening parenthesis.
func refArgs(s string, i int) (args []any, end int, ok, unspec bool) {
	args = []any{}
	i += spaceLen(s[i:])
	if i < len(s) && s[i] == ')' {
		return args, i + 1, true, false
	}
	for {
		i += spaceLen(s[i:])
		if i >= len(s) {
			return nil, 0, false, false
		}
		if s[i] == ')' { // only after a comma: trailing commas are not described
			return nil, 0, false, true
		}
		if s[i] == ',' {
			return nil, 0, false, false
		}
		if s[i] == '\'' {
			var b []byte
			j := i + 1
			closed := false
			for j < len(s) {
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						b = append(b, '\'')
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				b = append(b, s[j])
				j++
			}
			if !closed {
				return nil, 0, false, false
			}
			args = append(args, string(b))
			i = j
		} else {
			j := i
			for j < len(s) && s[j] != ',' && s[j] != ')' {
				j++
			}
			w := s[i:j]
			switch w {
			case "true":
				args = append(args, true)
			case "false":
				args = append(args, false)
			case "nil", "null":
				args = append(args, nil)
			default:
				f, num, un := decNumber(w)
				if un {
					return nil, 0, false, true
				}
				if !num {
					return nil, 0, false, false
				}
				args = append(args, f)
			}
			i = j
		}
		i += spaceLen(s[i:])
		if i >= len(s) {
			return nil, 0, false, false
		}
		switch s[i] {
		case ',':
			i++
		case ')':
			return args, i + 1, true, false
		default:
			return nil, 0, false, false
		}
	}
}

// posAt is the position of the character that starts at offset off.
func posAt(s string, off int) (line, col uint) {
	line = 1
	for i := 0; i <= off; {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		if w == 0 {
			w = 1
		}
		i += w
	}
	return
}

// normalise turns a parse result into the reference form: adjacent texts are one text.
func normalise(c *syntax.Clause) (out []rexpr, pos []syntax.Pos) {
	for _, e := range c.ExprList {
		switch e := e.(type) {
		case *syntax.PlainExpr:
			if e.Text == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].kind == kPlain {
				out[n-1].text += e.Text
				continue
			}
			out = append(out, rexpr{kind: kPlain, text: e.Text})
			pos = append(pos, e.Pos())
		case *syntax.BindVarExpr:
			out = append(out, rexpr{kind: kRef, style: e.Type, idx: e.Index})
			pos = append(pos, e.Pos())
		case *syntax.FuncCallExpr:
			out = append(out, rexpr{kind: kCall, text: e.Name, args: e.Args})
			pos = append(pos, e.Pos())
		case *syntax.FuncExpr:
			out = append(out, rexpr{kind: kFunc, text: e.Name})
			pos = append(pos, e.Pos())
		default:
			v.Fail("unknown expression type in parse result")
		}
	}
	return
}

// checkParse compares the real parse of s with the reference; what selects the aspects compared.
func checkParse(s string, text, decode, mixed, position bool) {
	want := refParse(s)
	if want.unspec {
		return
	}
	c, err := syntax.Parse(s)
	if want.mixed {
		if mixed {
			v.Cover("~mixed styles")
			v.Assert(err != nil, "a text mixing $n and ? is accepted")
		}
		return
	}
	if !want.ok {
		v.Cover("~syntax error")
		if decode {
			v.Assert(err != nil, "a text that is not in the language is accepted")
		}
		return
	}
	if decode || mixed {
		v.Assert(err == nil, "a valid text is rejected")
	} else if err != nil {
		return
	}
	v.Cover("~valid text")
	got, pos := normalise(c)
	if text {
		g, w := "", ""
		for _, e := range got {
			if e.kind == kPlain {
				g += e.text
			} else {
				g += "\x00|\x00"
			}
		}
		for _, e := range want.exprs {
			if e.kind == kPlain {
				w += e.text
			} else {
				w += "\x00|\x00"
			}
		}
		v.Assert(g == w, "literal text differs")
	}
	if decode {
		v.Assert(len(got) == len(want.exprs), "number of expressions differs")
		for i := range got {
			g, w := got[i], want.exprs[i]
			v.Assert(g.kind == w.kind, "kind of expression differs")
			v.Assert(g.text == w.text, "text or name differs")
			if g.kind == kRef {
				v.Assert(g.style == w.style, "placeholder style differs")
				v.Assert(g.idx == w.idx, "placeholder index differs")
			}
			if g.kind == kCall {
				v.Assert(len(g.args) == len(w.args), "number of call arguments differs")
				for k := range g.args {
					v.Assert(sameArg(g.args[k], w.args[k]), "call argument differs")
				}
			}
		}
	}
	if position && len(got) == len(want.exprs) {
		for i := range got {
			l, c := posAt(s, want.exprs[i].off)
			v.Assert(pos[i].Line() == l, "line of an expression differs")
			v.Assert(pos[i].Col() == c, "column of an expression differs")
		}
	}
}

// sameArg compares two decoded call arguments; numbers of any Go type by value.
func sameArg(a, b any) bool {
	fa, oka := toFloat(a)
	fb, okb := toFloat(b)
	if oka && okb {
		return fa == fb
	}
	if oka != okb {
		return false
	}
	return a == b
}

func toFloat(a any) (float64, bool) {
	switch x := a.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	case int32:
		return float64(x), true
	case uint:
		return float64(x), true
	case uint64:
		return float64(x), true
	case uint32:
		return float64(x), true
	}
	return 0, false
}
