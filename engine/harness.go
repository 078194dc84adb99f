package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics of the harness library (package v).

func (w *Worker) addNondet(name string, t *Term, conc int64, off int64) {
	w.p.nondets = append(w.p.nondets, nondetRec{name: name, term: t, conc: conc, off: off})
}

// symInt returns a fresh value in [lo,hi] as a 64-bit term.
func (w *Worker) symInt(name string, lo, hi int64) value {
	if hi < lo {
		panic(ctl{ctlInfeasible, "empty range"})
	}
	if lo == hi {
		w.addNondet(name, nil, lo, 0)
		return uint64(lo)
	}
	n := uint64(hi) - uint64(lo)
	var wd uint8 = 64
	if n < 256 {
		wd = 8
	}
	t := w.newVar(wd, name)
	if n < mask(wd) {
		w.addConstraint(w.ts.App(OUle, 0, t, w.ts.Const(wd, n), nil))
	}
	w.addNondet(name, t, 0, lo)
	x := w.ts.App(OZext, 64, t, nil, nil)
	return w.bv(w.ts.App(OAdd, 64, x, w.ts.Const(64, uint64(lo)), nil))
}

func (w *Worker) symByte(name string, alphabet string) value {
	t := w.newVar(8, name)
	if alphabet != "" {
		var d domain
		for i := 0; i < len(alphabet); i++ {
			d.set(int(alphabet[i]))
		}
		w.p.dom[len(w.p.dom)-1] = d
		if len(alphabet) == 1 {
			w.addNondet(name, nil, int64(alphabet[0]), 0)
			return uint64(alphabet[0])
		}
	}
	w.addNondet(name, t, 0, 0)
	return t
}

func (w *Worker) pick(name string, n int) int {
	i := w.choose(n)
	w.addNondet(name, nil, int64(i), 0)
	return i
}

func registerHarness(m map[string]intrinsic) {
	reg := func(name string, f intrinsic) { m[harnessMod+"/v."+name] = f }
	reg("Byte", func(w *Worker, fr *frame, a []value) value { return w.symByte("byte", "") })
	reg("ByteOf", func(w *Worker, fr *frame, a []value) value { return w.symByte("byte", w.concStr(a[0])) })
	reg("Int", func(w *Worker, fr *frame, a []value) value {
		return w.symInt("int", w.concInt(a[0], 64, true, "lo"), w.concInt(a[1], 64, true, "hi"))
	})
	reg("Choice", func(w *Worker, fr *frame, a []value) value {
		n := int(w.concInt(a[0], 64, true, "choice"))
		if n <= 0 {
			panic(ctl{ctlInfeasible, ""})
		}
		return iv(w.pick("choice", n))
	})
	reg("Str", func(w *Worker, fr *frame, a []value) value {
		return w.symString(int(w.concInt(a[0], 64, true, "")), int(w.concInt(a[1], 64, true, "")), w.concStr(a[2]))
	})
	reg("Assume", func(w *Worker, fr *frame, a []value) value { w.assume(a[0]); return nil })
	reg("Assert", func(w *Worker, fr *frame, a []value) value {
		w.assertTrue(a[0], w.concStr(a[1]))
		return nil
	})
	reg("Fail", func(w *Worker, fr *frame, a []value) value {
		w.assertTrue(false, w.concStr(a[0]))
		return nil
	})
	reg("Cover", func(w *Worker, fr *frame, a []value) value {
		w.p.covers = append(w.p.covers, w.concStr(a[0]))
		return nil
	})
	reg("Bound", func(w *Worker, fr *frame, a []value) value {
		w.h.bound(w.concStr(a[0]))
		return nil
	})
	reg("Observe", func(w *Worker, fr *frame, a []value) value {
		w.p.obsKeys = append(w.p.obsKeys, w.concStr(a[0]))
		w.p.obs = append(w.p.obs, w.force(a[1]))
		return nil
	})
	reg("Thorough", func(w *Worker, fr *frame, a []value) value { return w.thorough })
	reg("MapOrder", func(w *Worker, fr *frame, a []value) value {
		if w.p.mapOrder == 0 {
			w.p.mapOrder = 1
		}
		return nil
	})
	reg("Symbolic", func(w *Worker, fr *frame, a []value) value { return true })
	reg("Concurrent", func(w *Worker, fr *frame, a []value) value {
		// freeze everything reachable from the roots and from the package
		// variables of the code under test; one run of f must not write to it
		p := w.p
		for _, sp := range w.prog.prog.AllPackages() {
			if !isRepo(sp.Pkg.Path()) {
				continue
			}
			for _, mb := range sp.Members {
				if g, ok := mb.(*ssa.Global); ok {
					w.global(g)
				}
			}
		}
		p.frozen = map[*value]string{}
		p.frozenMaps = map[*mapObj]string{}
		for _, r := range a[0].([]value) {
			w.freeze(r, "argument")
		}
		for g, c := range w.globals {
			if g.Pkg != nil && isRepo(g.Pkg.Pkg.Path()) {
				w.freezeCell(c, "package variable "+g.Name())
			}
		}
		p.frozenGlobals = true
		p.covers = append(p.covers, "concurrent")
		w.call(fr, a[1], nil)
		p.frozen, p.frozenMaps = nil, nil
		p.frozenGlobals = false
		return nil
	})
}

func isRepo(path string) bool {
	return len(path) >= len(repoMod) && path[:len(repoMod)] == repoMod
}

func (w *Worker) symString(min, max int, alphabet string) value {
	n := min
	if max > min {
		n = min + w.choose(max-min+1)
	}
	w.addNondet("len", nil, int64(n), 0)
	b := make([]value, n)
	for i := range b {
		b[i] = w.symByte("byte", alphabet)
	}
	return w.mkStr(b)
}

func (w *Worker) freezeCell(p *value, what string) {
	if p == nil {
		return
	}
	if _, ok := w.p.frozen[p]; ok {
		return
	}
	w.p.frozen[p] = what
	w.freeze(*p, what)
}

func (w *Worker) freeze(v value, what string) {
	switch v := v.(type) {
	case *value:
		w.freezeCell(v, what)
	case structure:
		for i := range v {
			w.freezeCell(&v[i], what)
		}
	case array:
		for i := range v {
			w.freezeCell(&v[i], what)
		}
	case []value:
		v = v[:cap(v)]
		for i := range v {
			w.freezeCell(&v[i], what)
		}
	case iface:
		w.freeze(v.v, what)
	case *mapObj:
		if v == nil {
			return
		}
		if _, ok := w.p.frozenMaps[v]; ok {
			return
		}
		w.p.frozenMaps[v] = what
		for i := range v.keys {
			w.freeze(v.keys[i], what)
			w.freezeCell(v.vals[i], what)
		}
	case *closure:
		if v != nil {
			for _, e := range v.env {
				w.freeze(e, what)
			}
		}
	case rval:
		w.freeze(v.v, what)
		w.freezeCell(v.addr, what)
	}
}

var _ = fmt.Sprint
var _ types.Type
