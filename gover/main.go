package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	contracts := flag.String("contracts", "/verif/contracts", "directory of the contracts")
	prop := flag.String("prop", "", "property to check")
	unit := flag.String("unit", "", "verify one function or family method")
	tag := flag.String("tag", "", "clause tag for -unit")
	mode := flag.String("mode", "generic", "element theory for -unit")
	only := flag.String("only", "", "with -unit: only functions whose label contains this")
	quiet := flag.Bool("q", false, "report failures only")
	verbose := flag.Bool("v", false, "list every obligation")
	dump := flag.String("dump", "", "directory for the queries of failed obligations")
	out := flag.String("out", "", "write the result as JSON")
	lemmas := flag.Bool("lemmas", false, "prove the lemmas only")
	flag.BoolVar(&thorough, "thorough", false, "longer solver limits, and every obligation by a second solver where it can")
	flag.StringVar(&repoDir, "repo", "/repo", "the code")
	flag.Parse()
	t0 := time.Now()
	if err := loadSpecs(*contracts); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *lemmas {
		for _, o := range proveLemmas(*mode) {
			fmt.Printf("%-6v %s %s %s\n", o.res.ok, o.label, o.res.answer, o.res.solver)
		}
		return
	}
	if err := loadRepo(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if *prop != "" && *out != "" {
			writeResult(*out, nil, nil, err.Error(), time.Since(t0))
		}
		os.Exit(2)
	}
	if *unit != "" {
		bad := false
		for _, l := range strings.Split(*unit, ",") {
			us, missing := unitsFor(l)
			for _, m := range missing {
				fmt.Println("MISSING", m)
			}
			for _, u := range us {
				if *only != "" && !strings.Contains(u.label, *only) {
					continue
				}
				r := verifyUnit(u, *tag, *mode, false)
				if *quiet && r.ok() {
					continue
				}
				report(r, *verbose, *dump)
				if r.err != "" {
					bad = true
				}
			}
		}
		fmt.Printf("queries %d, cache hits %d, solver time %.1fs, wall %.1fs\n", stats.queries, stats.cacheHits, float64(stats.nanos)/1e9, time.Since(t0).Seconds())
		if bad {
			os.Exit(1)
		}
		return
	}
	pd := spec.props[*prop]
	if pd == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", *prop)
		os.Exit(2)
	}
	pr := verifyProp(pd)
	for _, u := range pr.units {
		report(u, *verbose, *dump)
	}
	for _, e := range pr.errs {
		fmt.Println("ERROR", e)
	}
	n := len(pr.lemmas)
	for _, u := range pr.units {
		n += len(u.obls)
	}
	fmt.Printf("%s: %d functions, %d obligations, %d failed, %d errors; queries %d, solver %.1fs, wall %.1fs\n", *prop, len(pr.units), n, len(pr.failed), len(pr.errs), stats.queries, float64(stats.nanos)/1e9, time.Since(t0).Seconds())
	if *out != "" {
		writeResult(*out, pd, pr, "", time.Since(t0))
	}
	if len(pr.failed)+len(pr.errs) > 0 {
		os.Exit(1)
	}
}

func (r *UnitResult) ok() bool {
	for _, o := range r.obls {
		if !o.res.ok {
			return false
		}
	}
	return r.err == ""
}

func report(r *UnitResult, verbose bool, dump string) {
	n, bad := 0, 0
	for _, o := range r.obls {
		n++
		if !o.res.ok {
			bad++
		}
	}
	st := "ok"
	if bad > 0 || r.err != "" {
		st = "FAIL"
	}
	fmt.Printf("%-4s %-45s %d obligations, %d failed (%.1fs)\n", st, r.unit.label, n, bad, r.wall.Seconds())
	if r.err != "" {
		fmt.Println("     ", r.err)
	}
	count := map[string]int{}
	for _, o := range r.obls {
		if verbose || !o.res.ok {
			s := "ok  "
			if !o.res.ok {
				s = "FAIL"
			}
			key := s + o.label
			count[key]++
			if count[key] > 3 && !verbose {
				continue
			}
			fmt.Printf("      %s %s [%s %s %.2fs]\n", s, o.label, o.res.answer, o.res.solver, o.res.dur.Seconds())
		}
		if (!o.res.ok || verbose) && dump != "" {
			os.MkdirAll(dump, 0o755)
			k := count["FAIL"+o.label]
			fn := fmt.Sprintf("%s/%s-%s-%d.smt2", dump, smtSafe(r.unit.label), smtSafe(o.label), k)
			if len(fn) > 180 {
				fn = fn[:170] + fmt.Sprint(k) + ".smt2"
			}
			os.WriteFile(fn, []byte("; path "+o.path+"\n"+buildQuery(o.mode, o.assumps, o.goal)), 0o644)
		}
	}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
