package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A declared logical function with the axioms that define it.
type FnDecl struct {
	name   string
	args   []Sort
	res    Sort
	axioms []*Axiom
	lemmas []*Axiom
	def    string // define-fun text, if built in for the mode
}

type Axiom struct {
	idx  int
	name string
	term *Term
	mode string // "" any
}

type Theory struct {
	fns map[string]*FnDecl
}

var theory = &Theory{fns: map[string]*FnDecl{}}

type Result struct {
	ok     bool
	answer string // unsat sat unknown timeout error
	solver string
	dur    time.Duration
	size   int
}

type solverStats struct {
	queries   int64
	cacheHits int64
	nanos     int64
	mu        sync.Mutex
	bySolver  map[string]int
	second    map[string]int
}

var stats = solverStats{bySolver: map[string]int{}, second: map[string]int{}}

var solverSem = make(chan struct{}, max(2, runtime.NumCPU()))

type cacheEnt struct {
	once sync.Once
	res  Result
}

var cacheMu sync.Mutex
var cache = map[[32]byte]*cacheEnt{}

var tMode = "generic" // generic | ring | field

func preludeFor(mode string) string {
	switch mode {
	case "arith":
		return "(declare-sort T 0)\n(declare-fun tzero () T)\n(declare-fun tone () T)\n(define-fun imul ((a Int) (b Int)) Int (* a b))\n"
	case "ring":
		return "(define-sort T () Int)\n(define-fun tzero () T 0)\n(define-fun tone () T 1)\n" +
			"(define-fun tadd ((a T) (b T)) T (+ a b))\n(define-fun tsub ((a T) (b T)) T (- a b))\n(define-fun tneg ((a T)) T (- a))\n" +
			"(define-fun isnan ((a T)) Bool false)\n(define-fun tlt ((a T) (b T)) Bool (< a b))\n"
	case "field", "fieldx":
		return "(define-sort T () Real)\n(define-fun tzero () T 0.0)\n(define-fun tone () T 1.0)\n" +
			"(define-fun tadd ((a T) (b T)) T (+ a b))\n(define-fun tsub ((a T) (b T)) T (- a b))\n(define-fun tneg ((a T)) T (- a))\n" +
			"(define-fun isnan ((a T)) Bool false)\n(define-fun tlt ((a T) (b T)) Bool (< a b))\n"
	case "fieldmul": // the field with its own multiplication, instead of what the theory says of it
		return preludeFor("field") + "(define-fun tmul ((a T) (b T)) T (* a b))\n"
	}
	return "(declare-sort T 0)\n(declare-fun tzero () T)\n(declare-fun tone () T)\n"
}

// inMode: whether an axiom or lemma for the modes given is in force
func inMode(modes, mode string) bool {
	if modes == "" {
		return true
	}
	for _, m := range strings.Split(modes, ",") {
		if m == mode || mode == "semiring" && m == "generic" || mode == "fieldx" && m == "field" {
			return true
		}
	}
	return false
}

func builtinInMode(mode, fn string) bool {
	if mode == "semiring" {
		mode = "generic"
	}
	switch fn {
	case "tzero", "tone":
		return true
	case "tmul":
		return mode == "fieldmul"
	case "imul":
		return mode == "arith"
	case "tadd", "tsub", "tneg", "isnan", "tlt":
		return mode != "generic"
	}
	return false
}

// buildQuery renders the query text: prelude, declarations, axioms, assumptions, negated goal.
func buildQuery(mode string, assumps []*Term, goal *Term) string {
	var asserts []*Term
	for _, a := range assumps {
		if a != True {
			asserts = append(asserts, a)
		}
	}
	// a lemma is proved from the lemmas before it
	lemLim := 1 << 30
	if i := strings.IndexByte(mode, '@'); i >= 0 {
		fmt.Sscan(mode[i+1:], &lemLim)
		mode = mode[:i]
	}
	// functions whose definitions, and lemmas, are left out
	opaque := map[string]bool{}
	if i := strings.IndexByte(mode, '#'); i >= 0 {
		for _, n := range strings.Split(mode[i+1:], ",") {
			opaque[n] = true
		}
		mode = mode[:i]
	}
	ng := Not(goal)
	asserts = append(asserts, ng)
	syms := map[*Term]bool{}
	apps := map[string]*Term{}
	seen := map[*Term]bool{}
	for _, a := range asserts {
		symsOf(a, syms, apps, seen)
	}
	// close over axioms
	var axs []*Axiom
	done := map[string]bool{}
	for {
		var todo []string
		for n := range apps {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Strings(todo)
		for _, n := range todo {
			done[n] = true
			d := theory.fns[n]
			if d == nil || mode == "arith" {
				continue
			}
			for _, lx := range d.lemmas {
				if !opaque[lx.name] && lx.idx < lemLim && (inMode(lx.mode, mode) || mode == "fieldmul" && inMode(lx.mode, "field")) {
					axs = append(axs, lx)
					symsOf(lx.term, syms, apps, seen)
				}
			}
			if opaque[n] {
				continue
			}
			for _, ax := range d.axioms {
				if !inMode(ax.mode, mode) {
					continue
				}
				axs = append(axs, ax)
				symsOf(ax.term, syms, apps, seen)
			}
		}
	}
	var b strings.Builder
	b.WriteString(preludeFor(mode))
	b.WriteString("(declare-sort Str 0)\n")
	if apps["snone"] != nil || apps["shas"] != nil || apps["sadd"] != nil || anySSet(syms) {
		b.WriteString("(declare-sort SSet 0)\n")
	}
	var names []string
	for n := range apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasPrefix(n, "constzero") || builtinInMode(mode, n) {
			continue
		}
		t := apps[n]
		var as []string
		res := t.sort
		if d := theory.fns[n]; d != nil {
			for _, s := range d.args {
				as = append(as, string(s))
			}
			res = d.res
		} else {
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(n), strings.Join(as, " "), res)
	}
	// numbered symbols are numbered anew in the order they occur, so that the same question asked again
	// about a body executed again is the same text
	canon := map[*Term]string{}
	{
		ord := map[*Term]bool{}
		n := 0
		var rec func(t *Term)
		rec = func(t *Term) {
			if ord[t] {
				return
			}
			ord[t] = true
			if t.op == "sym" {
				if i := strings.LastIndexByte(t.name, '!'); i >= 0 && i+1 < len(t.name) && strings.Trim(t.name[i+1:], "0123456789") == "" {
					n++
					canon[t] = smtName(fmt.Sprintf("%s!%d", t.name[:i], n))
				}
			}
			for _, a := range t.args {
				rec(a)
			}
			for _, p := range t.pats {
				for _, q := range p {
					rec(q)
				}
			}
		}
		for _, a := range asserts {
			rec(a)
		}
	}
	nameOf := func(s *Term) string {
		if c, ok := canon[s]; ok {
			return c
		}
		return smtName(s.name)
	}
	var ss []*Term
	for s := range syms {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return nameOf(ss[i]) < nameOf(ss[j]) })
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", nameOf(s), s.sort)
	}
	var lits []string
	for _, n := range names {
		if strings.HasPrefix(n, "sconst.") || n == "sempty" {
			lits = append(lits, smtName(n))
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, ax := range axs {
		b.WriteString("(assert ")
		writeTerm(&b, ax.term, nil)
		b.WriteString(")\n")
	}
	// share sub-terms
	uses := map[*Term]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		for _, a := range t.args {
			cnt(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				cnt(q)
			}
		}
	}
	for _, a := range asserts {
		cnt(a)
	}
	named := map[*Term]string{}
	for s, c := range canon {
		named[s] = c
	}
	n := 0
	var emit func(t *Term)
	visited := map[*Term]bool{}
	emit = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.args {
			emit(a)
		}
		for _, p := range t.pats {
			for _, q := range p {
				emit(q)
			}
		}
		if uses[t] > 1 && !t.bound && len(t.args) > 0 && t.sort != SBool && t.op != "+" {
			n++
			nm := fmt.Sprintf("$%d", n)
			fmt.Fprintf(&b, "(define-fun %s () %s ", nm, t.sort)
			writeTermBody(&b, t, named)
			b.WriteString(")\n")
			named[t] = nm
		}
	}
	for _, a := range asserts {
		emit(a)
		b.WriteString("(assert ")
		writeTerm(&b, a, named)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type strategy struct {
	name    string
	cmd     []string
	header  string
	timeout time.Duration
}

func strategies(level int) []strategy {
	em := "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.relevancy 2)\n"
	// resource limits instead of time limits, so that the outcome does not depend on the load
	q := strategy{"z3-ematch", []string{"z3-new", "-in"}, em + "(set-option :rlimit 2000000)\n", 20 * time.Second}
	q1 := strategy{"z3-ematch", q.cmd, em + "(set-option :rlimit 5000000)\n", 30 * time.Second}
	q2 := strategy{"z3-ematch", q.cmd, em + "(set-option :rlimit 20000000)\n", 60 * time.Second}
	z := strategy{"z3", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :rlimit 20000000)\n", 60 * time.Second}
	o := strategy{"z3-4.8", []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 20000000)\n", 60 * time.Second}
	c := strategy{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant", "--decision=internal"}, "(set-logic ALL)\n", 15 * time.Second}
	switch level {
	case -1: // is a path worth following
		return []strategy{{"z3-ematch", q.cmd, em + "(set-option :rlimit 400000)\n", 20 * time.Second}}
	case 0: // pruning and candidate filtering
		return []strategy{q}
	case 1:
		return []strategy{q1}
	}
	return []strategy{q2, o, z, c}
}

func runSolver(s strategy, text string) (string, time.Duration) {
	if s.name == "cvc5" && strings.Contains(text, "((as const (Array Int T)) tzero)") && strings.Contains(text, "(declare-sort T 0)") {
		// cvc5 has constant arrays of values only
		text = strings.ReplaceAll(text, "((as const (Array Int T)) tzero)", "cz!T")
		text = strings.Replace(text, "(declare-fun tone () T)\n", "(declare-fun tone () T)\n(declare-fun cz!T () (Array Int T))\n(assert (forall ((i Int)) (! (= (select cz!T i) tzero) :pattern ((select cz!T i)))))\n", 1)
		text = regexp.MustCompile(`\(\(as const \(Array Int \(Array Int T\)\)\) cz!T\)`).ReplaceAllString(text, "cz!TT")
		if strings.Contains(text, "cz!TT") {
			text = strings.Replace(text, "(declare-fun tone () T)\n", "(declare-fun tone () T)\n(declare-fun cz!TT () (Array Int (Array Int T)))\n", 1)
			text = strings.Replace(text, "(declare-sort Str 0)\n", "(declare-sort Str 0)\n(assert (forall ((i Int)) (! (= (select cz!TT i) cz!T) :pattern ((select cz!TT i)))))\n", 1)
		}
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	t0 := time.Now()
	var o string
	timedOut := false
	if s.cmd[0] == "cvc5" {
		ctx, cancel := context.WithTimeout(context.Background(), s.timeout+time.Second)
		defer cancel()
		args := append(append([]string{}, s.cmd[1:]...), fmt.Sprintf("--tlimit=%d", s.timeout.Milliseconds()))
		cmd := exec.CommandContext(ctx, s.cmd[0], args...)
		cmd.Stdin = strings.NewReader(s.header + text)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		cmd.Run()
		o = strings.TrimSpace(out.String())
		timedOut = ctx.Err() != nil
	} else {
		o, timedOut = askWorker(s, text)
	}
	d := time.Since(t0)
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(d))
	line := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		line = o[:i]
	}
	switch line {
	case "unsat", "sat", "unknown":
		return line, d
	case "timeout":
		return "timeout", d
	}
	if timedOut || strings.Contains(o, "timeout") || strings.Contains(o, "interrupted") {
		return "timeout", d
	}
	if dbgSMT != "" {
		f, _ := os.CreateTemp(dbgSMT, "err*.smt2")
		f.WriteString(s.header + text + "\n; " + o)
		f.Close()
	}
	return "error: " + line, d
}

var slowLog = os.Getenv("GOVER_SLOW") != ""
var slowMin = func() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("GOVER_SLOW"))
	return time.Duration(n) * time.Millisecond
}()
var dbgSMT = os.Getenv("GOVER_DEBUG_SMT")

// prove decides whether the assumptions entail the goal.
func prove(mode string, assumps []*Term, goal *Term, level int) Result {
	if goal == True {
		return Result{ok: true, answer: "unsat", solver: "simplifier"}
	}
	for _, a := range assumps {
		if a == False || a == goal {
			return Result{ok: true, answer: "unsat", solver: "simplifier"}
		}
	}
	goal = pointwise(goal)
	text := buildQuery(mode, assumps, goal)
	key := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", level, text)))
	cacheMu.Lock()
	e, ok := cache[key]
	if !ok {
		e = &cacheEnt{}
		cache[key] = e
	}
	cacheMu.Unlock()
	if ok {
		atomic.AddInt64(&stats.cacheHits, 1)
	}
	e.once.Do(func() {
		var r Result
		r.size = len(text)
		ss := strategies(level)
		if mode == "arith" {
			ss = []strategy{{"z3", []string{"z3-new", "-in"}, "", 20 * time.Second}, {"cvc5", []string{"cvc5", "--lang=smt2"}, "(set-logic ALL)\n", 20 * time.Second}}
		}
		for _, s := range ss {
			a, d := runSolver(s, text)
			r.dur += d
			r.answer = a
			r.solver = s.name
			if slowLog && d > slowMin {
				g := goal.String()
				if len(g) > 300 {
					g = g[:300]
				}
				os.MkdirAll("/tmp/slow", 0o755)
				os.WriteFile(fmt.Sprintf("/tmp/slow/%x.smt2", key[:4]), []byte(text), 0o644)
				fmt.Fprintf(os.Stderr, "SLOW %x %.1fs %s level %d %s: %s\n", key[:4], d.Seconds(), s.name, level, a, g)
			}
			if a == "unsat" {
				r.ok = true
				if thorough && level >= 2 && s.name != "cvc5" {
					c := strategy{"cvc5", []string{"cvc5", "--lang=smt2"}, "(set-logic ALL)\n", 4 * time.Second}
					a2, _ := runSolver(c, text)
					stats.mu.Lock()
					stats.second[a2]++
					stats.mu.Unlock()
					if a2 == "sat" {
						r.ok = false
						r.answer = "the solvers disagree"
						break
					}
				}
				stats.mu.Lock()
				stats.bySolver[s.name]++
				stats.mu.Unlock()
				break
			}
		}
		e.res = r
	})
	return e.res
}

// pointwise: equality of arrays is proved element by element (the indices stand for arbitrary ones)
func pointwise(g *Term) *Term {
	n := 0
	var rec func(t *Term, pos bool) *Term
	rec = func(t *Term, pos bool) *Term {
		if !pos || t.bound {
			return t
		}
		switch t.op {
		case "=":
			a, b := t.args[0], t.args[1]
			if !strings.HasPrefix(string(a.sort), "(Array") {
				return t
			}
			n++
			i := Sym(fmt.Sprintf("sk!ext%d", n), SInt)
			return rec(Eq(Select(a, i), Select(b, i)), true)
		case "and":
			var as []*Term
			for _, x := range t.args {
				as = append(as, rec(x, true))
			}
			return And(as...)
		case "or":
			var as []*Term
			for _, x := range t.args {
				as = append(as, rec(x, true))
			}
			return Or(as...)
		case "=>":
			return Implies(t.args[0], rec(t.args[1], true))
		}
		return t
	}
	return rec(g, true)
}

// thorough: a second solver looks at every obligation too. It may give up, but an answer "sat" to a query
// the first one refuted shows that one of the two is wrong.
var thorough bool

// worker: a z3 that is asked one question after another, reset in between
type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

var workers = map[string]chan *worker{}
var workersMu sync.Mutex

func workerPool(cmd string) chan *worker {
	workersMu.Lock()
	defer workersMu.Unlock()
	p := workers[cmd]
	if p == nil {
		p = make(chan *worker, 64)
		workers[cmd] = p
	}
	return p
}

func askWorker(s strategy, text string) (out string, timedOut bool) {
	pool := workerPool(s.cmd[0])
	var w *worker
	select {
	case w = <-pool:
	default:
		w = &worker{cmd: exec.Command(s.cmd[0], "-in", "-memory:3000")}
		in, e1 := w.cmd.StdinPipe()
		o, e2 := w.cmd.StdoutPipe()
		w.cmd.Stderr = nil
		if e1 != nil || e2 != nil || w.cmd.Start() != nil {
			return "error: cannot start " + s.cmd[0], false
		}
		w.in, w.out = in, bufio.NewReader(o)
	}
	w.used++
	kill := func() {
		w.cmd.Process.Kill()
		w.in.Close()
		w.cmd.Wait()
	}
	timer := time.AfterFunc(s.timeout+2*time.Second, func() { w.cmd.Process.Kill() })
	go io.WriteString(w.in, fmt.Sprintf("(set-option :timeout %d)\n", s.timeout.Milliseconds())+s.header+text+"(reset)\n(echo \"<<done>>\")\n")
	var b strings.Builder
	for {
		l, err := w.out.ReadString('\n')
		if strings.TrimSpace(l) == "<<done>>" {
			break
		}
		b.WriteString(l)
		if err != nil {
			timedOut = !timer.Stop()
			kill()
			if !timedOut {
				return "error: " + s.cmd[0] + " ended: " + b.String(), false
			}
			return b.String(), timedOut
		}
	}
	if !timer.Stop() || w.used > 300 {
		kill()
	} else {
		pool <- w
	}
	return strings.TrimSpace(b.String()), false
}

func anySSet(syms map[*Term]bool) bool {
	for s := range syms {
		if strings.Contains(string(s.sort), "SSet") {
			return true
		}
	}
	return false
}
