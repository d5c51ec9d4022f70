package main

import (
	"encoding/json"
	"os"
	"sort"
	"time"
)

func writeResult(path string, pd *PropDef, pr *PropResult, err string, wall time.Duration) {
	m := map[string]any{"error": err, "wall": wall.Seconds()}
	if pr != nil {
		var fns []map[string]any
		total, ok := 0, 0
		for _, u := range pr.units {
			o := 0
			for _, b := range u.obls {
				total++
				if b.res.ok {
					ok++
					o++
				}
			}
			fns = append(fns, map[string]any{"function": u.unit.label, "obligations": len(u.obls), "discharged": o, "wall_s": u.wall.Seconds(), "error": u.err})
		}
		for _, l := range pr.lemmas {
			total++
			if l.res.ok {
				ok++
			}
		}
		m["functions"] = fns
		m["obligations"] = total
		m["discharged"] = ok
		var failed []map[string]any
		for _, o := range pr.failed {
			failed = append(failed, map[string]any{"function": o.fn, "obligation": o.label, "answer": o.res.answer, "path": o.path})
		}
		m["failed"] = failed
		m["errors"] = pr.errs
		m["by_solver"] = stats.bySolver
		m["second_solver"] = stats.second
		m["queries"] = stats.queries
		m["solver_s"] = float64(stats.nanos) / 1e9
		m["mode"] = pd.mode
		m["trusted"] = trustedList(pd.mode)
		m["assumptions"] = spec.assumptions(pd.id)
		if pd.frames {
			m["assumptions"] = append(spec.assumptions(pd.id), "of functions below the listed ones only the frames are checked here; their other postconditions are what the checks of the other properties establish")
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, b, 0o644)
}

// trustedList: everything that is used without being proved
func trustedList(mode string) []string {
	r := []string{
		"gover: the translation of Go's SSA form into verification conditions (golang.org/x/tools/go/ssa builds the form)",
		"the solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 where they answer unsat",
	}
	for _, a := range spec.axioms {
		if inMode(a.mode, mode) {
			r = append(r, "axiom: "+a.text)
		}
	}
	for n, c := range spec.funcs {
		if c.flags["trusted"] {
			r = append(r, "contract assumed of "+n)
		}
	}
	r = append(r, spec.trusted...)
	sort.Strings(r[2:])
	return r
}

func (s *Spec) assumptions(prop string) (r []string) {
	for _, a := range s.assume {
		if len(a.props) == 0 {
			r = append(r, a.text)
		}
		for _, p := range a.props {
			if p == prop {
				r = append(r, a.text)
			}
		}
	}
	return
}
