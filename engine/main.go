package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	prop, tier, verif, repo, only string
	budget                        time.Duration
	workers                       int
	seed                          int64
	verbose                       bool
	solver                        string
	samples                       int
}

func main() {
	var o options
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.verif, "verif", "/verif", "")
	flag.StringVar(&o.repo, "repo", "/repo", "")
	flag.StringVar(&o.only, "only", "", "run only harnesses containing this")
	flag.DurationVar(&o.budget, "budget", 0, "exploration time")
	flag.IntVar(&o.workers, "workers", runtime.NumCPU(), "")
	flag.BoolVar(&o.verbose, "verbose", false, "")
	flag.StringVar(&o.solver, "solver", "z3", "")
	flag.IntVar(&o.samples, "samples", 0, "native validations per harness")
	flag.Parse()
	o.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		o.seed = s
	}
	if o.budget == 0 {
		o.budget = 240 * time.Second
		if o.tier == "thorough" {
			o.budget = 600 * time.Second
		}
	}
	if o.samples == 0 {
		o.samples = 150
		if o.tier == "thorough" {
			o.samples = 600
		}
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	os.Exit(run(o))
}

type harnessReport struct {
	Name          string         `json:"harness"`
	Paths         int            `json:"paths"`
	Completed     int            `json:"completed"`
	Infeasible    int            `json:"discarded_by_assumption"`
	Branches      int64          `json:"symbolic_branches"`
	Steps         int64          `json:"ssa_instructions"`
	AssertQueries int64          `json:"assertions_decided_by_solver"`
	Folded        int64          `json:"assertions_concrete_on_their_path"`
	Exhaustive    bool           `json:"all_paths_within_bounds"`
	Pending       int            `json:"unexplored_prefixes,omitempty"`
	Bounds        []string       `json:"bounds"`
	Covers        map[string]int `json:"reached"`
	NotReached    []string       `json:"not_reached,omitempty"`
	Notes         map[string]int `json:"notes,omitempty"`
	Validated     int            `json:"native_runs_agreeing"`
	Mismatch      []string       `json:"native_runs_disagreeing,omitempty"`
	Unconfirmed   []string       `json:"counterexamples_not_reproduced,omitempty"`
	Wall          float64        `json:"wall_s"`
}

type violation struct {
	harness string
	msg     string
	inputs  []int64
	native  string
}

func run(o options) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// native replay binaries, built from /repo's current tree
	hdir := filepath.Join(o.verif, "harness")
	replay := filepath.Join(tmp, "replay")
	buildErr := make(chan error, 1)
	race := o.prop == "C12"
	go func() {
		args := []string{"build", "-o", replay}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./cmd/replay")...)
		cmd.Dir = hdir
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		buildErr <- err
	}()
	prog, err := load(hdir, "./h", "./v", "runtime", "reflect", "errors", "fmt", "database/sql", "io", "sync", "sync/atomic", "strings", "bytes", "strconv", "unicode/utf8", "sort", "slices", "maps")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if err := <-buildErr; err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 2
	}
	tLoad := time.Since(t0)

	hp := prog.pkgs[harnessMod+"/h"]
	var names []string
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, o.prop+"_") && len(f.Params) == 0 {
			if o.only == "" || strings.Contains(n, o.only) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", o.prop)
		return 2
	}

	workers := make([]*Worker, o.workers)
	for i := range workers {
		s, err := newSolver(o.solver)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		workers[i] = newWorker(i, prog, s, o.tier == "thorough")
		defer s.close()
	}

	known := loadKnown(filepath.Join(o.verif, "known_findings.txt"), o.prop)
	var reports []*harnessReport
	var viols []violation
	var samples []any
	validated := 0
	explEnd := time.Now().Add(o.budget)
	for i, n := range names {
		left := time.Until(explEnd)
		share := left / time.Duration(len(names)-i)
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		if share*2 < left && len(names)-i > 1 {
			share = share * 2 // unused time of others is passed on
		}
		h := newHarness(n)
		h.rng = uint64(o.seed)*0x9E3779B97F4A7C15 + 12345
		h.deadline = time.Now().Add(share)
		h.maxSamples = o.samples
		h.known = known.messages(n)
		fn := hp.Func(n)
		ht := time.Now()
		// candidates against the real code; those that it does not confirm make
		// room for others
		var vs []violation
		var unconf []string
		nCands := 0
		for wave := 0; wave < 12; wave++ {
			h.stop, h.full, h.cands, h.candMsgs = false, false, nil, map[string]int{}
			var wg sync.WaitGroup
			for _, w := range workers {
				wg.Add(1)
				go func(w *Worker) {
					defer wg.Done()
					w.loop(h, fn)
				}(w)
			}
			wg.Wait()
			nCands += len(h.cands)
			var un []string
			var ws []violation
			ws, un = confirm(o, replay, tmp, n, h.cands)
			vs = append(vs, ws...)
			if len(unconf) < 8 {
				unconf = append(unconf, un...)
			}
			if len(known.fresh(vs)) > 0 || !h.full || time.Now().After(h.deadline) {
				break
			}
		}
		rep := &harnessReport{Name: n, Paths: h.paths, Completed: h.complete, Infeasible: h.done[ctlInfeasible],
			Branches: h.branches, Steps: h.steps, AssertQueries: h.assertQueries, Folded: h.folded,
			Covers: h.covers, Notes: h.notes, Pending: len(h.stack)}
		for b := range h.bounds {
			rep.Bounds = append(rep.Bounds, b)
		}
		sort.Strings(rep.Bounds)
		rep.Exhaustive = len(h.stack) == 0 && !h.timedOut && h.done[ctlUnsupported]+h.done[ctlUnknown]+h.done[ctlTimeout]+h.done[ctlSteps] == 0
		for l := range coverLabels(fn) {
			if h.covers[l] == 0 && !strings.HasPrefix(l, "~") {
				rep.NotReached = append(rep.NotReached, l)
			}
		}
		sort.Strings(rep.NotReached)
		viols = append(viols, vs...)
		rep.Unconfirmed = unconf
		// sampled paths against the real code
		ok, mis, svs := validate(o, replay, tmp, n, h.samples)
		rep.Validated, rep.Mismatch = ok, mis
		validated += ok
		if len(known.fresh(vs)) == 0 {
			viols = append(viols, svs...)
		}
		for k, s := range h.samples {
			if k < 2 {
				samples = append(samples, map[string]any{"harness": n, "inputs": s.inputs, "observed": clip(s.obs)})
			}
		}
		rep.Wall = time.Since(ht).Seconds()
		reports = append(reports, rep)
		fmt.Fprintf(os.Stderr, "%-28s paths=%d completed=%d infeasible=%d branches=%d asserts=%d+%d exhaustive=%v pending=%d validated=%d cands=%d viol=%d %.1fs\n", n, rep.Paths, rep.Completed, rep.Infeasible, rep.Branches, rep.AssertQueries, rep.Folded, rep.Exhaustive, rep.Pending, rep.Validated, nCands, len(vs)+len(svs), rep.Wall)
		if len(rep.NotReached) > 0 {
			fmt.Fprintf(os.Stderr, "   NOT REACHED: %v\n", rep.NotReached)
		}
		for m, c := range rep.Notes {
			fmt.Fprintf(os.Stderr, "   note x%d: %s\n", c, m)
		}
		for _, m := range rep.Mismatch {
			fmt.Fprintf(os.Stderr, "   MISMATCH: %s\n", m)
		}
		for _, m := range rep.Unconfirmed {
			fmt.Fprintf(os.Stderr, "   UNCONFIRMED: %s\n", m)
		}
		for _, m := range vs {
			fmt.Fprintf(os.Stderr, "   VIOL: %s | %s | %v\n", m.msg, m.native, m.inputs)
		}
		for _, m := range svs {
			fmt.Fprintf(os.Stderr, "   VIOL(sample): %s | %s | %v\n", m.msg, m.native, m.inputs)
		}
		if len(known.fresh(viols)) > 0 && !o.verbose {
			break
		}
	}

	// known findings
	var fresh []violation
	printed := map[string]bool{}
	for _, v := range viols {
		if k := known.match(v); k != "" {
			if !printed[k] {
				printed[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	ev := map[string]any{"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": len(fresh)}
	var states, trans, aq, fold int64
	exhaustive := true
	for _, r := range reports {
		states += int64(r.Completed)
		trans += r.Branches
		aq += r.AssertQueries
		fold += r.Folded
		exhaustive = exhaustive && r.Exhaustive
	}
	var q, sat, unsat, unk, hits int
	var st time.Duration
	for _, w := range workers {
		q += w.solver.Queries
		sat += w.solver.Sat
		unsat += w.solver.Unsat
		unk += w.solver.Unknown
		hits += w.solver.CacheHits + w.unaryHits
		st += w.solver.Time
	}
	var encRepo []string
	encOther := 0
	prog.encFuncs.Range(func(k, _ any) bool {
		s := k.(string)
		if strings.Contains(s, repoMod) {
			encRepo = append(encRepo, strings.ReplaceAll(s, repoMod, "sqlf"))
		} else if !strings.Contains(s, harnessMod) {
			encOther++
		}
		return true
	})
	sort.Strings(encRepo)
	ev["coverage"] = map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"meaning":                     "states: completed symbolic paths (each stands for all inputs satisfying its path condition); transitions: symbolic branch decisions taken; traces_validated_against_impl: models of sampled paths replayed on the compiled code with equal observations",
		"all_paths_within_bounds":     exhaustive,
		"harnesses":                   reports,
		"functions_encoded":           encRepo,
		"library_functions_encoded":   encOther,
		"assertions_decided_symbolic": aq,
		"assertions_decided_on_path":  fold,
		"solver":                      o.solver,
		"solver_queries":              q,
		"solver_sat":                  sat,
		"solver_unsat":                unsat,
		"solver_unknown":              unk,
		"solver_verdicts_reused":      hits,
		"solver_time_s":               st.Seconds(),
		"encoding_time_s":             tLoad.Seconds(),
		"encoding_source":             o.repo + " (go/ssa, rebuilt on this run)",
	}
	ev["assumptions"] = []string{
		"Go standard library functions without Go source, reflect, fmt, unicode predicates, sync and database/sql.Rows are modelled by the engine (engine/*.go, harness/v/rows.go); agreement with the real ones is checked on the replayed samples",
		"sizes are bounded as listed per harness; go/ssa and the SMT solver are trusted",
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	evPath := filepath.Join(o.verif, "evidence", o.prop+".json")

	code := 0
	if len(fresh) > 0 {
		code = 1
		v := fresh[0]
		rp := filepath.Join(o.verif, "evidence", "replay-"+o.prop+".json")
		data, _ := json.MarshalIndent([]map[string]any{{"harness": v.harness, "inputs": v.inputs, "reps": 200, "tier": o.tier, "violation": v.msg, "native_result": v.native}}, "", " ")
		os.WriteFile(rp, data, 0o644)
		fmt.Printf("harness %s: %s\nnative replay: %s\nreplay with: (cd %s && go run ./cmd/replay -batch %s)\n", v.harness, v.msg, v.native, hdir, rp)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, rp)
		ev["counterexample"] = map[string]any{"harness": v.harness, "message": v.msg, "native": v.native, "inputs": v.inputs}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evPath, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d branches, %d+%d assertions, %d solver queries (%.1fs), %d native validations, exhaustive within bounds: %v, wall %.1fs (load %.1fs)\n",
		o.prop, o.tier, states, trans, aq, fold, q, st.Seconds(), validated, exhaustive, time.Since(t0).Seconds(), tLoad.Seconds())
	return code
}

func clip(s []string) []string {
	var r []string
	for _, x := range s {
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		r = append(r, strings.ToValidUTF8(x, "\uFFFD"))
	}
	return r
}

func newWorker(i int, prog *Program, s *Solver, thorough bool) *Worker {
	w := &Worker{id: i, prog: prog, solver: s, thorough: thorough, ts: newTermStore(), maxDepth: 2500, maxSteps: 6_000_000}
	w.reset()
	return w
}

func (w *Worker) reset() {

	w.canonCache = map[types.Type]types.Type{}
	w.funcs = map[*ssa.Function]*cfunc{}
	w.globals = map[*ssa.Global]*value{}
	w.inited = map[*ssa.Package]bool{}
	w.initErr = map[*ssa.Package]string{}
	w.native = map[string]any{}
	w.stores, w.undos, w.undoAt = nil, nil, nil
}

func (w *Worker) loop(h *Harness, fn *ssa.Function) {
	w.h = h
	w.deadline = h.deadline
	for {
		prefix, ok := h.pop()
		if !ok {
			return
		}
		w.runPath(prefix, fn)
		if w.ts.n > 1_500_000 {
			w.ts = newTermStore()
			w.unary = nil
			if len(w.stores) != 0 {
				panic("store log not empty")
			}
		}
		h.finish()
	}
}

func (w *Worker) runPath(prefix []decision, fn *ssa.Function) {
	h := w.h
	w.p = &Path{prefix: prefix, inMulti: map[int32]bool{}}
	w.depth = 0
	w.inInit = 0
	kind := ctlKind(-1)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case ctl:
				kind = r.kind
				switch kind {
				case ctlUnsupported:
					h.note("unsupported: " + r.msg)
				case ctlUnknown:
					h.note("unknown: " + r.msg)
				case ctlSteps:
					// possibly does not terminate, or exhausts the memory: let the real code decide
					if m, ok := w.model(nil); ok {
						h.addCandidate(candidate{inputs: m, msg: "does not terminate, or needs too much memory (" + r.msg + ")", mapOrder: w.p.usedMapOrder})
					}
					h.note("step budget: " + r.msg)
				}
			case targetPanic:
				kind = ctlViolation
				msg := w.panicText(r)
				if m, ok := w.model(nil); ok {
					h.addCandidate(candidate{inputs: m, msg: "panic: " + msg, mapOrder: w.p.usedMapOrder})
				}
			default:
				kind = ctlUnsupported
				if w.inInit > 0 {
					w.inInit = 0
				}
				e := engineErr(r)
				debugf("%s", e)
				h.note("unsupported: " + strings.SplitN(e, "\n", 2)[0])
			}
		}()
		w.call(nil, fn, nil)
	}()
	var smp candidate
	haveSample := false
	if kind == -1 {
		h.mu.Lock()
		h.samplesSeen++
		n := h.samplesSeen
		take := len(h.samples) < h.maxSamples
		slot := -1
		if !take {
			if k := rand.New(rand.NewSource(int64(h.rng) + int64(n))).Intn(n); k < h.maxSamples {
				slot = k
			}
		}
		h.mu.Unlock()
		if take || slot >= 0 {
			rng := rand.New(rand.NewSource(int64(n)*7919 + 17))
			func() {
				defer func() {
					if r := recover(); r != nil {
						h.note(fmt.Sprint("sample: ", r))
					}
				}()
				smp, haveSample = w.sample(func(k int) int {
					if k <= 1 {
						return 0
					}
					return rng.Intn(k)
				})
			}()
			if haveSample {
				h.mu.Lock()
				if slot >= 0 && slot < len(h.samples) {
					h.samples[slot] = smp
				} else if len(h.samples) < h.maxSamples {
					h.samples = append(h.samples, smp)
				}
				h.mu.Unlock()
			}
		}
	}
	w.rollback()
	h.mu.Lock()
	h.steps += w.p.steps
	h.branches += int64(w.p.branches)
	if kind == -1 {
		h.complete++
		for _, c := range w.p.covers {
			h.covers[c]++
		}
	} else {
		h.done[kind]++
		if kind == ctlTimeout {
			h.timedOut = true
			h.stop = true
		}
	}
	if time.Now().After(h.deadline) {
		h.stop = true
		h.timedOut = h.timedOut || len(h.stack) > 0 || h.active > 1
	}
	if len(h.cands) >= 24 {
		h.stop, h.full = true, true
	}
	h.mu.Unlock()
}

func (w *Worker) panicText(tp targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("%T", tp.v)
		}
	}()
	v := tp.v
	if i, ok := v.(iface); ok {
		if str, ok := w.force(i.v).(string); ok {
			return str
		}
		if i.t == nil {
			return "nil"
		}
		return i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

// coverLabels collects the labels of v.Cover calls reachable from the harness by static calls.
func coverLabels(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Pkg == nil || f.Pkg.Pkg.Path() != harnessMod+"/h" {
			if f.Origin() == nil {
				return
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.String() == harnessMod+"/v.Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						out[constant.StringVal(k.Value)] = true
					}
				}
				visit(callee)
			}
		}
	}
	visit(fn)
	return out
}

// ---- native runs ----

type nativeEntry struct {
	Harness string  `json:"harness"`
	Inputs  []int64 `json:"inputs"`
	Reps    int     `json:"reps"`
	Tier    string  `json:"tier"`
}
type nativeResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Used   int      `json:"used"`
}

// nativeRuns executes the entries on the compiled code, surviving crashes and hangs.
func nativeRuns(o options, replay, tmp string, es []nativeEntry) []nativeResult {
	out := make([]nativeResult, len(es))
	if len(es) == 0 {
		return out
	}
	data, _ := json.Marshal(es)
	f := filepath.Join(tmp, "batch.json")
	os.WriteFile(f, data, 0o644)
	from := 0
	for from < len(es) {
		cmd := exec.Command(replay, "-batch", f, "-from", strconv.Itoa(from))
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		pipe, _ := cmd.StdoutPipe()
		var errb strings.Builder
		cmd.Stderr = &limited{b: &errb}
		if err := cmd.Start(); err != nil {
			return out
		}
		lines := make(chan string)
		go func() {
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		cur := from
		status := ""
	read:
		for {
			select {
			case l, ok := <-lines:
				if !ok {
					status = "crash"
					break read
				}
				if strings.HasPrefix(l, "start ") {
					cur, _ = strconv.Atoi(l[6:])
					continue
				}
				if l == "memory exhausted" {
					status = "memory"
					break read
				}
				var r nativeResult
				if json.Unmarshal([]byte(l), &r) == nil {
					out[cur] = r
					cur++
					if cur == len(es) {
						status = "done"
						break read
					}
				}
			case <-time.After(12 * time.Second):
				status = "timeout"
				break read
			}
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
		if status == "done" {
			break
		}
		e := errb.String()
		if i := strings.Index(e, "\ngoroutine"); i > 0 && i < 400 {
			e = e[:i]
		}
		if len(e) > 1500 {
			e = e[:1500]
		}
		if cur < len(es) {
			out[cur] = nativeResult{Status: status, Msg: strings.TrimSpace(e)}
		}
		from = cur + 1
	}
	return out
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func bad(r nativeResult) bool {
	switch r.Status {
	case "fail", "panic", "crash", "timeout", "memory":
		return true
	}
	return false
}

// reps is how often a candidate is run natively: some show only with luck.
func (c candidate) reps() int {
	if c.mapOrder || strings.Contains(c.msg, "shared") {
		return 200
	}
	return 1
}

func confirm(o options, replay, tmp, name string, cands []candidate) (vs []violation, unconf []string) {
	var es []nativeEntry
	for _, c := range cands {
		es = append(es, nativeEntry{name, c.inputs, c.reps(), o.tier})
	}
	var rs []nativeResult
	for _, e := range es {
		if e.Reps > 1 {
			rs = append(rs, nativeRuns(o, replay, tmp, []nativeEntry{e})...) // in a new process each: what is initialised once is not yet
		}
	}
	if len(rs) < len(es) {
		rs = nativeRuns(o, replay, tmp, es)
	}
	for i, r := range rs {
		if bad(r) {
			vs = append(vs, violation{name, cands[i].msg, cands[i].inputs, r.Status + ": " + r.Msg})
		} else if len(unconf) < 8 {
			unconf = append(unconf, fmt.Sprintf("%s -> native %s %s %v", cands[i].msg, r.Status, r.Msg, cands[i].inputs))
		}
	}
	return
}

func validate(o options, replay, tmp, name string, smps []candidate) (ok int, mis []string, vs []violation) {
	var es []nativeEntry
	for _, c := range smps {
		es = append(es, nativeEntry{name, c.inputs, 1, o.tier})
	}
	for i, r := range nativeRuns(o, replay, tmp, es) {
		c := smps[i]
		if bad(r) {
			vs = append(vs, violation{name, "native run of a sampled path: " + r.Msg, c.inputs, r.Status + ": " + r.Msg})
			continue
		}
		same := r.Status == "ok" && r.Used == len(c.inputs) && len(r.Obs) == len(c.obs)
		if same && !c.mapOrder {
			for j := range r.Obs {
				if r.Obs[j] != strings.ToValidUTF8(c.obs[j], "\uFFFD") && r.Obs[j] != jsonRT(c.obs[j]) {
					same = false
				}
			}
		}
		if same {
			ok++
		} else if len(mis) < 5 {
			mis = append(mis, fmt.Sprintf("inputs %v: status %s used %d/%d observed %q expected %q", c.inputs, r.Status, r.Used, len(c.inputs), clip(r.Obs), clip(c.obs)))
		}
	}
	return
}

// jsonRT maps a string the way a JSON round trip does (invalid UTF-8 replaced).
func jsonRT(s string) string {
	b, _ := json.Marshal(s)
	var t string
	json.Unmarshal(b, &t)
	return t
}

// ---- known findings ----

type knownFinding struct{ harness, msg, text string }
type knownList []knownFinding

// Lines: "finding: property=ID harness=NAME msg=<exact message> | description"
func loadKnown(path, prop string) knownList {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l knownList
	for _, line := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(line, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+prop+" ")
		parts := strings.SplitN(rest, " | ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "harness=") {
			continue
		}
		hm := strings.SplitN(strings.TrimPrefix(parts[0], "harness="), " msg=", 2)
		if len(hm) != 2 {
			continue
		}
		l = append(l, knownFinding{hm[0], hm[1], parts[1]})
	}
	return l
}

// fresh are the violations that are not known.
func (l knownList) fresh(vs []violation) (r []violation) {
	for _, v := range vs {
		if l.match(v) == "" {
			r = append(r, v)
		}
	}
	return
}

func (l knownList) messages(harness string) map[string]int {
	m := map[string]int{}
	for _, k := range l {
		if k.harness == harness {
			m[k.msg] = 0
		}
	}
	return m
}

func (l knownList) match(v violation) string {
	for _, k := range l {
		if k.harness == v.harness && k.msg == v.msg && strings.HasSuffix(v.native, ": "+k.msg) {
			return k.text
		}
	}
	return ""
}
