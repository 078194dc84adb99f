package main

// Path exploration by re-execution: a path is a list of decisions; every run
// starts from the harness entry and replays its prefix, then extends it.

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// decision codes: for a symbolic branch 0=false,1=true (both were possible),
// 2=forced false, 3=forced true; for a choice the chosen alternative (>=0).
type decision int32

// control-flow panics of the engine itself
type ctlKind int

const (
	ctlInfeasible  ctlKind = iota // assumption cannot hold
	ctlUnsupported                // engine cannot model something
	ctlViolation                  // assertion violated / uncaught panic
	ctlSteps                      // step budget exceeded
	ctlUnknown                    // solver gave up
	ctlTimeout
)

type ctl struct {
	kind ctlKind
	msg  string
}

type nondetRec struct {
	name string
	term *Term // nil if concrete
	conc int64 // chosen value for structural choices
	off  int64 // value = off + zext(term)
	w    uint8
}

type Path struct {
	prefix []decision
	pos    int
	trail  []decision
	base   int // variables created so far

	dom     []domain // per var (only w<=8)
	hasDom  []bool
	multi   []*Term // constraints over several or wide variables
	inMulti map[int32]bool

	nondets       []nondetRec
	steps         int64
	obs           []value // observed strings
	obsKeys       []string
	covers        []string
	asserts       int
	mapOrder      int8 // 0 off, 1 on undecided, 2 forward, 3 reverse
	usedMapOrder  bool
	branches      int
	frozen        map[*value]string
	frozenMaps    map[*mapObj]string
	locks         int
	frozenGlobals bool
	sharedWrites  map[string]bool
}

func (w *Worker) newVar(width uint8, name string) *Term {
	p := w.p
	idx := p.base
	p.base++
	t := w.ts.Var(idx, width, name)
	d := domain{}
	if width >= 1 && width <= 8 {
		d = fullDomain(width)
	}
	p.dom = append(p.dom, d)
	p.hasDom = append(p.hasDom, width >= 1 && width <= 8)
	return t
}

// unaryDomain returns the set of values of the single (<=8 bit) variable of t satisfying t.
func (w *Worker) unaryDomain(t *Term) (v int32, d domain, ok bool) {
	if len(t.vars) != 1 || !w.p.hasDom[t.vars[0]] {
		return 0, d, false
	}
	tab := w.ts.table(t)
	for i, x := range tab {
		if x == 1 {
			d.set(i)
		}
	}
	return t.vars[0], d, true
}

// addConstraint adds a constraint already known to be satisfiable with the path condition.
func (w *Worker) addConstraint(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			panic(ctl{ctlInfeasible, ""})
		}
		return
	}
	if t.op == OBAnd {
		w.addConstraint(t.a)
		w.addConstraint(t.b)
		return
	}
	if v, d, ok := w.unaryDomain(t); ok {
		w.p.dom[v] = w.p.dom[v].and(d)
		return
	}
	w.p.multi = append(w.p.multi, t)
	for _, v := range t.vars {
		w.p.inMulti[v] = true
	}
}

// component collects all multi-constraints connected with the given variables.
func (w *Worker) component(vars []int32) ([]*Term, map[int32]bool) {
	set := map[int32]bool{}
	for _, v := range vars {
		set[v] = true
	}
	used := make([]bool, len(w.p.multi))
	for changed := true; changed; {
		changed = false
		for i, c := range w.p.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if set[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range c.vars {
					set[v] = true
				}
			}
		}
	}
	var cs []*Term
	for i, c := range w.p.multi {
		if used[i] {
			cs = append(cs, c)
		}
	}
	return cs, set
}

// query asks the solver whether path condition AND extra is satisfiable.
func (w *Worker) query(extra *Term, all bool) satRes {
	var vars []int32
	if extra != nil {
		vars = extra.vars
	}
	var cs []*Term
	var set map[int32]bool
	if all {
		cs = w.p.multi
		set = map[int32]bool{}
		for i := 0; i < w.p.base; i++ {
			set[int32(i)] = true
		}
	} else {
		cs, set = w.component(vars)
	}
	var asserts, names []string
	var widths []uint8
	for _, v := range sortedI32(set) {
		vw := w.ts.vars[v].w
		n := varName(int(v), vw)
		names = append(names, n)
		widths = append(widths, vw)
		if w.p.hasDom[v] && w.p.dom[v] != fullDomain(vw) {
			asserts = append(asserts, smtDomain(n, vw, w.p.dom[v]))
		}
	}
	for _, c := range cs {
		asserts = append(asserts, smt(w.ts.vars, c))
	}
	if extra != nil {
		asserts = append(asserts, smt(w.ts.vars, extra))
	}
	return w.solver.Check(asserts, names, widths)
}

// possible reports whether t can be true on this path (1 yes, 0 no, -1 unknown).
func (w *Worker) possible(t *Term) int8 {
	if t.isConst() {
		return int8(t.val)
	}
	if v, d, ok := w.unaryDomain(t); ok {
		if w.p.dom[v].and(d).empty() {
			return w.confirmed(t, v, 0)
		}
		if !w.p.inMulti[v] {
			return w.confirmed(t, v, 1)
		}
	}
	return w.query(t, false).res
}

// A condition on a single small variable is decided by the solver once per
// condition and set of remaining values, whichever variable and path it is.
var (
	unaryVerdicts sync.Map // smt text -> int8
)

type unaryKey struct {
	t *Term
	d domain
}

func (w *Worker) confirmed(t *Term, v int32, want int8) int8 {
	k := unaryKey{t, w.p.dom[v]}
	if r, ok := w.unary[k]; ok {
		w.unaryHits++
		return r
	}
	vw := w.ts.vars[v].w
	n, u := varName(int(v), vw), varName(0, vw)+"u"
	text := strings.ReplaceAll(smt(w.ts.vars, t), n, u)
	dom := ""
	if k.d != fullDomain(vw) {
		dom = smtDomain(u, vw, k.d)
	}
	key := dom + "|" + text
	var r int8
	if x, ok := unaryVerdicts.Load(key); ok {
		r = x.(int8)
		w.unaryHits++
	} else {
		as := []string{text}
		if dom != "" {
			as = append(as, dom)
		}
		r = w.solver.Check(as, []string{u}, []uint8{vw}).res
		unaryVerdicts.Store(key, r)
	}
	if r != want {
		w.h.note("solver and enumeration of the values disagree: " + clipStr(key))
		if r < 0 {
			r = want
		} else {
			panic(ctl{ctlUnsupported, "solver and enumeration of the values disagree"})
		}
	}
	if w.unary == nil || len(w.unary) > 1_000_000 {
		w.unary = map[unaryKey]int8{}
	}
	w.unary[k] = r
	return r
}

func clipStr(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// branch decides a symbolic condition, forking when both outcomes are possible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	p := w.p
	p.branches++
	if w.inInit > 0 {
		panic(ctl{ctlUnsupported, "symbolic branch during package initialisation"})
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		switch d {
		case 0:
			w.addConstraint(w.ts.Not(c))
			return false
		case 1:
			w.addConstraint(c)
			return true
		case 2:
			return false
		default:
			return true
		}
	}
	// implied by what is known?
	pt := w.possible(c)
	nc := w.ts.Not(c)
	if pt == 0 {
		w.record(2)
		return false
	}
	pf := w.possible(nc)
	if pf == 0 {
		w.record(3)
		return true
	}
	if pt < 0 || pf < 0 {
		w.h.note("unknown branch feasibility")
	}
	w.pushAlt(0)
	w.record(1)
	w.addConstraint(c)
	return true
}

func (w *Worker) record(d decision) {
	w.p.pos++
	w.p.trail = append(w.p.trail, d)
	w.p.prefix = w.p.trail
}

func (w *Worker) pushAlt(d decision) {
	np := make([]decision, len(w.p.trail)+1)
	copy(np, w.p.trail)
	np[len(np)-1] = d
	w.h.push(np)
}

// choose makes an n-way structural decision (all alternatives are feasible).
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.inInit > 0 {
		panic(ctl{ctlUnsupported, "choice during package initialisation"})
	}
	p := w.p
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(decision(i))
	}
	w.record(0)
	return 0
}

// concretize forks over all feasible values of t and returns the one of this path.
func (w *Worker) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(ctl{ctlUnsupported, "too many values for " + what})
		}
		v, ok := w.someValue(t)
		if !ok {
			panic(ctl{ctlUnknown, "concretize " + what})
		}
		if w.branch(w.ts.Eq(t, w.ts.Const(t.w, v))) {
			return v
		}
	}
}

// someValue returns a feasible value of t. It must be deterministic for the replayed prefix.
func (w *Worker) someValue(t *Term) (uint64, bool) {
	p := w.p
	if p.pos < len(p.prefix) {
		// replay: the value is stored as two decisions
		lo := uint64(uint32(p.prefix[p.pos]))
		hi := uint64(uint32(p.prefix[p.pos+1]))
		p.pos += 2
		p.trail = append(p.trail, decision(int32(uint32(lo))), decision(int32(uint32(hi))))
		return lo | hi<<32, true
	}
	var val uint64
	found := false
	if len(t.vars) == 1 && p.hasDom[t.vars[0]] && !p.inMulti[t.vars[0]] {
		tab := w.ts.table(t)
		d := p.dom[t.vars[0]]
		for i := range tab {
			if d.has(i) {
				val, found = tab[i], true
				break
			}
		}
	} else {
		r := w.query(w.ts.Eq(t, t), false) // vars of t
		if len(t.vars) > 0 {
			cs, set := w.component(t.vars)
			_ = cs
			r = w.queryVars(set, cs)
		}
		if r.res == 1 {
			asg := w.assignment(r.model)
			val, found = t.Eval(asg, map[*Term]uint64{}), true
		}
	}
	if !found {
		return 0, false
	}
	w.record(decision(int32(uint32(val))))
	w.record(decision(int32(uint32(val >> 32))))
	return val, true
}

func (w *Worker) queryVars(set map[int32]bool, cs []*Term) satRes {
	var asserts, names []string
	var widths []uint8
	for _, v := range sortedI32(set) {
		vw := w.ts.vars[v].w
		n := varName(int(v), vw)
		names = append(names, n)
		widths = append(widths, vw)
		if w.p.hasDom[v] && w.p.dom[v] != fullDomain(vw) {
			asserts = append(asserts, smtDomain(n, vw, w.p.dom[v]))
		}
	}
	for _, c := range cs {
		asserts = append(asserts, smt(w.ts.vars, c))
	}
	return w.solver.Check(asserts, names, widths)
}

// assignment completes a solver model to all variables of the path.
func (w *Worker) assignment(m map[string]uint64) []uint64 {
	asg := make([]uint64, w.p.base)
	for i := range asg {
		vw := w.ts.vars[i].w
		if v, ok := m[varName(i, vw)]; ok {
			asg[i] = v
		} else if w.p.hasDom[i] {
			asg[i] = uint64(w.p.dom[i].first())
		}
	}
	return asg
}

// assume restricts the path.
func (w *Worker) assume(c value) {
	switch c := c.(type) {
	case bool:
		if !c {
			panic(ctl{ctlInfeasible, ""})
		}
	case *Term:
		if w.p.pos < len(w.p.prefix) {
			w.p.trail = append(w.p.trail, w.p.prefix[w.p.pos])
			w.p.pos++
			w.addConstraint(c)
			return
		}
		switch w.possible(c) {
		case 0:
			panic(ctl{ctlInfeasible, ""})
		case -1:
			w.h.note("unknown assumption feasibility")
		}
		w.record(3)
		w.addConstraint(c)
	}
}

// assertTrue discharges an assertion on this path.
func (w *Worker) assertTrue(c value, msg string) {
	w.p.asserts++
	switch c := c.(type) {
	case bool:
		w.h.count(&w.h.folded)
		if !c {
			w.violation(nil, msg)
		}
	case *Term:
		if c.isConst() {
			w.assertTrue(c.val == 1, msg)
			return
		}
		if w.p.pos < len(w.p.prefix) { // already discharged by the parent path
			w.p.trail = append(w.p.trail, w.p.prefix[w.p.pos])
			w.p.pos++
			w.addConstraint(c)
			return
		}
		w.h.count(&w.h.assertQueries)
		nc := w.ts.Not(c)
		r := w.query(nc, false)
		switch r.res {
		case 1:
			w.violation(nc, msg)
			// the violating part is reported; continue with the part that holds, if any
			if w.possible(c) == 0 {
				panic(ctl{ctlInfeasible, ""})
			}
		case -1:
			w.h.note("unknown assertion: " + msg)
		}
		w.record(3)
		w.addConstraint(c)
	}
}

// violation extracts a full model and queues it for native replay.
func (w *Worker) violation(extra *Term, msg string) {
	m, ok := w.model(extra)
	if !ok {
		w.h.note("violation without model: " + msg)
		return
	}
	w.h.addCandidate(candidate{inputs: m, msg: msg, mapOrder: w.p.usedMapOrder})
	if extra == nil {
		panic(ctl{ctlViolation, msg})
	}
}

func (h *Harness) bound(s string) {
	h.mu.Lock()
	h.bounds[s] = true
	h.mu.Unlock()
}

// sample returns inputs of this (completed) path together with the values observed on it.
func (w *Worker) sample(rnd func(n int) int) (candidate, bool) {
	var asg []uint64
	if len(w.p.multi) == 0 {
		asg = make([]uint64, w.p.base)
		for i := range asg {
			if w.p.hasDom[i] {
				d := w.p.dom[i]
				k := rnd(d.count())
				for b := 0; b < 256; b++ {
					if d.has(b) {
						if k == 0 {
							asg[i] = uint64(b)
							break
						}
						k--
					}
				}
			}
		}
	} else {
		r := w.query(nil, true)
		if r.res != 1 {
			return candidate{}, false
		}
		asg = w.assignment(r.model)
	}
	memo := map[*Term]uint64{}
	c := candidate{inputs: make([]int64, len(w.p.nondets)), mapOrder: w.p.usedMapOrder}
	for i, n := range w.p.nondets {
		if n.term == nil {
			c.inputs[i] = n.conc
		} else {
			c.inputs[i] = n.off + int64(n.term.Eval(asg, memo))
		}
	}
	for i, o := range w.p.obs {
		b := w.strBytes(o)
		out := make([]byte, len(b))
		for j, x := range b {
			switch x := x.(type) {
			case uint64:
				out[j] = byte(x)
			case *Term:
				out[j] = byte(x.Eval(asg, memo))
			}
		}
		c.obs = append(c.obs, w.p.obsKeys[i]+"="+string(out))
	}
	return c, true
}

// model returns concrete values for all nondeterministic inputs of this path.
func (w *Worker) model(extra *Term) ([]int64, bool) {
	var r satRes
	if len(w.p.multi) == 0 && extra == nil {
		r = w.query(nil, true)
	} else {
		r = w.query(extra, true)
	}
	if r.res != 1 {
		return nil, false
	}
	asg := w.assignment(r.model)
	memo := map[*Term]uint64{}
	out := make([]int64, len(w.p.nondets))
	for i, n := range w.p.nondets {
		if n.term == nil {
			out[i] = n.conc
		} else {
			out[i] = n.off + int64(n.term.Eval(asg, memo))
		}
	}
	return out, true
}

// ---- harness-wide state shared by workers ----

type candidate struct {
	inputs   []int64
	msg      string
	mapOrder bool
	obs      []string
}

type Harness struct {
	mu       sync.Mutex
	cond     *sync.Cond
	name     string
	stack    [][]decision
	active   int
	stop     bool
	paths    int
	done     map[ctlKind]int
	complete int
	notes    map[string]int
	cands    []candidate
	candMsgs map[string]int
	known    map[string]int // messages of known findings: how many were kept
	full     bool           // enough candidates for now
	samples  []candidate
	covers   map[string]int

	folded, assertQueries int64
	steps, branches       int64
	assertsSeen           int64
	maxPaths              int
	bounds                map[string]bool
	samplesSeen           int
	deadline              time.Time
	timedOut              bool
	funcs                 map[string]bool
	sampleEvery           int
	maxSamples            int
	rng                   uint64
}

func newHarness(name string) *Harness {
	h := &Harness{name: name, done: map[ctlKind]int{}, notes: map[string]int{}, candMsgs: map[string]int{},
		covers: map[string]int{}, bounds: map[string]bool{}, funcs: map[string]bool{}, rng: 0x9E3779B97F4A7C15}
	h.cond = sync.NewCond(&h.mu)
	h.stack = [][]decision{nil}
	return h
}

func (h *Harness) note(s string) {
	h.mu.Lock()
	if len(s) > 300 {
		s = s[:300]
	}
	h.notes[s]++
	h.mu.Unlock()
}
func (h *Harness) count(p *int64) {
	h.mu.Lock()
	*p++
	h.mu.Unlock()
}
func (h *Harness) push(p []decision) {
	h.mu.Lock()
	h.stack = append(h.stack, p)
	h.cond.Signal()
	h.mu.Unlock()
}
func (h *Harness) pop() ([]decision, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.stop {
			return nil, false
		}
		if n := len(h.stack); n > 0 {
			h.rng ^= h.rng << 13
			h.rng ^= h.rng >> 7
			h.rng ^= h.rng << 17
			if h.rng%4 == 0 { // spread the exploration in case the budget runs out
				i := int(h.rng>>8) % n
				if i < 0 {
					i = -i
				}
				h.stack[i], h.stack[n-1] = h.stack[n-1], h.stack[i]
			}
			p := h.stack[n-1]
			h.stack[n-1] = nil
			h.stack = h.stack[:n-1]
			h.active++
			return p, true
		}
		if h.active == 0 {
			h.cond.Broadcast()
			return nil, false
		}
		h.cond.Wait()
	}
}
func (h *Harness) finish() {
	h.mu.Lock()
	h.active--
	h.paths++
	if h.maxPaths > 0 && h.paths >= h.maxPaths {
		h.stop = true
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}
func (h *Harness) addCandidate(c candidate) {
	h.mu.Lock()
	if n, ok := h.known[c.msg]; ok {
		// a few are enough, they must not crowd out others
		if n < 2 {
			h.known[c.msg]++
			h.cands = append(h.cands, c)
		}
		h.mu.Unlock()
		return
	}
	h.candMsgs[c.msg]++
	max := 24
	if c.reps() > 1 {
		max = 6
	}
	if h.candMsgs[c.msg] <= max {
		h.cands = append(h.cands, c)
	}
	h.mu.Unlock()
}

func (d decision) String() string { return fmt.Sprint(int32(d)) }
