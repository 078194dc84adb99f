package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver wraps one interactive z3 process.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	bin      string

	Queries, Sat, Unsat, Unknown, Errors int
	Time                                 time.Duration
	cache                                map[string]satRes
	CacheHits                            int
}

type satRes struct {
	res   int8 // 1 sat, 0 unsat, -1 unknown
	model map[string]uint64
}

func newSolver(bin string) (*Solver, error) {
	s := &Solver{bin: bin, cache: map[string]satRes{}}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "-q"}
	} else {
		args = []string{"-in"}
	}
	s.cmd = exec.Command(s.bin, args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.declared = map[string]bool{}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.bin, "cvc5") {
		fmt.Fprint(s.in, "(set-logic ALL)\n")
	} else {
		fmt.Fprint(s.in, "(set-option :produce-models true)\n(set-option :timeout 20000)\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) declare(name string, w uint8) {
	if s.declared[name] {
		return
	}
	s.declared[name] = true
	sort := fmt.Sprintf("(_ BitVec %d)", w)
	if w == 0 {
		sort = "Bool"
	}
	fmt.Fprintf(s.in, "(declare-const %s %s)\n", name, sort)
}

// Check decides the conjunction of asserts; names are the variables to read back when sat.
func (s *Solver) Check(asserts []string, names []string, widths []uint8) satRes {
	key := strings.Join(asserts, "\n")
	if r, ok := s.cache[key]; ok {
		s.CacheHits++
		return r
	}
	t0 := time.Now()
	r := s.check(asserts, names, widths)
	s.Time += time.Since(t0)
	s.Queries++
	switch r.res {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	if len(s.cache) > 200000 {
		s.cache = map[string]satRes{}
	}
	s.cache[key] = r
	return r
}

func (s *Solver) check(asserts []string, names []string, widths []uint8) satRes {
	var b strings.Builder
	for i, n := range names {
		s.declare(n, widths[i])
	}
	b.WriteString("(push 1)\n")
	for _, a := range asserts {
		b.WriteString("(assert ")
		b.WriteString(a)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		return s.fail(err.Error())
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return s.fail(err.Error())
	}
	line = strings.TrimSpace(line)
	res := satRes{res: -1}
	switch line {
	case "sat":
		res.res = 1
		res.model = map[string]uint64{}
		if len(names) > 0 {
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(names, " "))
			txt, err := s.readSexp()
			if err != nil {
				return s.fail(err.Error())
			}
			parseModel(txt, res.model)
		}
	case "unsat":
		res.res = 0
	case "unknown", "timeout":
	default:
		return s.fail("solver said: " + line + "\n" + b.String())
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res
}

func (s *Solver) fail(msg string) satRes {
	s.Errors++
	debugf("solver failure: %s", msg)
	s.close()
	s.start()
	return satRes{res: -1}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return b.String(), nil
			}
		}
	}
}

func parseModel(txt string, out map[string]uint64) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i+1 < len(toks); i++ {
		if len(toks[i]) > 1 && toks[i][0] == 'x' && strings.Contains(toks[i], "_") {
			v := toks[i+1]
			switch {
			case v == "true":
				out[toks[i]] = 1
			case v == "false":
				out[toks[i]] = 0
			case strings.HasPrefix(v, "#x"):
				n, _ := strconv.ParseUint(v[2:], 16, 64)
				out[toks[i]] = n
			case strings.HasPrefix(v, "#b"):
				n, _ := strconv.ParseUint(v[2:], 2, 64)
				out[toks[i]] = n
			case v == "(" && i+3 < len(toks) && toks[i+2] == "_":
				n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
				out[toks[i]] = n
			}
		}
	}
}
