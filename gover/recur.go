package main

import (
	"sort"
	"strings"
)

func unitKey(u *Unit) string { return u.label + "|" + u.con.family + "." + u.con.key }

// checkRecursion: a function's contract may be used in its own proof, directly or through other
// contracts, only where something decreases.
func checkRecursion(pr *PropResult) {
	edges := map[string]map[string]bool{}
	for _, r := range pr.units {
		m := map[string]bool{}
		for _, l := range r.used {
			us, _ := unitsFor(l)
			for _, u := range us {
				m[unitKey(u)] = true
			}
		}
		edges[unitKey(r.unit)] = m
	}
	idx, low := map[string]int{}, map[string]int{}
	on := map[string]bool{}
	var stack []string
	n := 0
	var groups [][]string
	var visit func(v string)
	visit = func(v string) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, w := range sortedKeys(edges[v]) {
			if edges[w] == nil {
				continue
			}
			if idx[w] == 0 {
				visit(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], idx[w])
			}
		}
		if low[v] == idx[v] {
			var g []string
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				g = append(g, w)
				if w == v {
					break
				}
			}
			if len(g) > 1 || edges[v][v] {
				sort.Strings(g)
				groups = append(groups, g)
			}
		}
	}
	for _, r := range pr.units {
		if k := unitKey(r.unit); idx[k] == 0 {
			visit(k)
		}
	}
	for _, g := range groups {
		var names []string
		for _, k := range g {
			names = append(names, k[:strings.IndexByte(k, '|')])
		}
		if len(g) == 1 {
			// a measure: checked where the function is called
			ok := false
			for _, r := range pr.units {
				if unitKey(r.unit) == g[0] {
					ok = len(r.unit.con.of("variant", pr.prop.id)) > 0
				}
			}
			if ok {
				continue
			}
		}
		pr.failed = append(pr.failed, &Obl{fn: names[0], label: "no endless recursion: " + strings.Join(names, ", ") + " call each other", goal: False, mode: pr.prop.mode, res: Result{answer: "no decreasing measure"}})
	}
}
