package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------- expressions ----------

type Expr struct {
	kind string // num, name, meta, call, field, index, un, bin, quant, old, pre, ite
	name string
	num  int64
	args []*Expr
	vars []VarDecl
	pats [][]*Expr
}

type VarDecl struct {
	name string
	sort Sort
}

type lexer struct {
	toks  []string
	pos   int
	src   string
	where string
}

func specErr(where, f string, a ...any) error {
	return fmt.Errorf("contract error at %s: %s", where, fmt.Sprintf(f, a...))
}

func lex(s, where string) *lexer {
	l := &lexer{src: s, where: where}
	i := 0
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			l.toks = append(l.toks, s[i:j])
			i = j
		case c == '?':
			j := i + 1
			for j < len(s) && isId(s[j]) {
				j++
			}
			l.toks = append(l.toks, s[i:j])
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "->"} {
				if strings.HasPrefix(s[i:], op) {
					l.toks = append(l.toks, op)
					i += len(op)
					goto next
				}
			}
			l.toks = append(l.toks, string(c))
			i++
		next:
		}
	}
	return l
}

func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string {
	t := l.peek()
	l.pos++
	return t
}
func (l *lexer) expect(t string) {
	if g := l.next(); g != t {
		panic(specErr(l.where, "expected %q, got %q in %q", t, g, l.src))
	}
}

func sortNamed(n, where string) Sort {
	switch n {
	case "Int", "int", "Ref", "ref":
		return SInt
	case "Bool", "bool":
		return SBool
	case "T":
		return ST
	case "Ints":
		return SInts
	case "Ts":
		return STs
	case "Mat":
		return SMat
	case "BMat":
		return SBMat
	case "Bs":
		return SBs
	case "Str":
		return SStr
	case "SSet":
		return SSet
	}
	panic(specErr(where, "unknown sort %q", n))
}

func (l *lexer) expr() *Expr { return l.iff() }

func (l *lexer) iff() *Expr {
	e := l.imp()
	for l.peek() == "<==>" {
		l.next()
		r := l.imp()
		e = &Expr{kind: "bin", name: "<==>", args: []*Expr{e, r}}
	}
	return e
}
func (l *lexer) imp() *Expr {
	e := l.or()
	if l.peek() == "==>" {
		l.next()
		r := l.imp()
		return &Expr{kind: "bin", name: "==>", args: []*Expr{e, r}}
	}
	return e
}
func (l *lexer) or() *Expr {
	e := l.and()
	for l.peek() == "||" {
		l.next()
		e = &Expr{kind: "bin", name: "||", args: []*Expr{e, l.and()}}
	}
	return e
}
func (l *lexer) and() *Expr {
	e := l.cmp()
	for l.peek() == "&&" {
		l.next()
		e = &Expr{kind: "bin", name: "&&", args: []*Expr{e, l.cmp()}}
	}
	return e
}
func (l *lexer) cmp() *Expr {
	e := l.sum()
	var res *Expr
	for {
		switch op := l.peek(); op {
		case "==", "!=", "<=", "<", ">=", ">":
			l.next()
			r := l.sum()
			c := &Expr{kind: "bin", name: op, args: []*Expr{e, r}}
			if res == nil {
				res = c
			} else {
				res = &Expr{kind: "bin", name: "&&", args: []*Expr{res, c}}
			}
			e = r
		default:
			if res != nil {
				return res
			}
			return e
		}
	}
}
func (l *lexer) sum() *Expr {
	e := l.prod()
	for {
		switch op := l.peek(); op {
		case "+", "-":
			l.next()
			e = &Expr{kind: "bin", name: op, args: []*Expr{e, l.prod()}}
		default:
			return e
		}
	}
}
func (l *lexer) prod() *Expr {
	e := l.unary()
	for l.peek() == "*" {
		l.next()
		e = &Expr{kind: "bin", name: "*", args: []*Expr{e, l.unary()}}
	}
	return e
}
func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "!":
		l.next()
		return &Expr{kind: "un", name: "!", args: []*Expr{l.unary()}}
	case "-":
		l.next()
		return &Expr{kind: "un", name: "-", args: []*Expr{l.unary()}}
	}
	return l.postfix()
}
func (l *lexer) postfix() *Expr {
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Expr{kind: "field", name: l.next(), args: []*Expr{e}}
		case "[":
			l.next()
			i := l.expr()
			l.expect("]")
			e = &Expr{kind: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}
func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr()
		l.expect(")")
		return e
	case t == "forall" || t == "exists":
		q := &Expr{kind: "quant", name: t}
		for {
			n := l.next()
			v := VarDecl{n, SInt}
			if l.peek() == ":" {
				l.next()
				v.sort = sortNamed(l.next(), l.where)
			}
			q.vars = append(q.vars, v)
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		l.expect("::")
		for l.peek() == "{" {
			l.next()
			var p []*Expr
			for {
				p = append(p, l.expr())
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			q.pats = append(q.pats, p)
		}
		q.args = []*Expr{l.expr()}
		return q
	case t != "" && t[0] == '?':
		return &Expr{kind: "meta", name: t[1:]}
	case t != "" && t[0] >= '0' && t[0] <= '9':
		var n int64
		fmt.Sscan(t, &n)
		return &Expr{kind: "num", num: n}
	case t == "":
		panic(specErr(l.where, "unexpected end of %q", l.src))
	}
	if l.peek() == "(" {
		l.next()
		e := &Expr{kind: "call", name: t}
		if l.peek() != ")" {
			for {
				e.args = append(e.args, l.expr())
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
		}
		l.expect(")")
		return e
	}
	return &Expr{kind: "name", name: t}
}

func parseExpr(s, where string) *Expr {
	l := lex(s, where)
	e := l.expr()
	if l.peek() != "" {
		panic(specErr(where, "trailing %q in %q", l.peek(), s))
	}
	return e
}

func (e *Expr) metas(m map[string]bool) {
	if e.kind == "meta" {
		m[e.name] = true
	}
	for _, a := range e.args {
		a.metas(m)
	}
	for _, p := range e.pats {
		for _, q := range p {
			q.metas(m)
		}
	}
}

func (e *Expr) subst(m map[string]*Expr) *Expr {
	if e.kind == "name" {
		if r, ok := m[e.name]; ok {
			return r
		}
		return e
	}
	if len(e.args) == 0 && len(e.pats) == 0 {
		return e
	}
	n := *e
	if e.kind == "quant" {
		m2 := map[string]*Expr{}
		for k, v := range m {
			m2[k] = v
		}
		for _, v := range e.vars {
			delete(m2, v.name)
		}
		m = m2
	}
	n.args = make([]*Expr, len(e.args))
	for i, a := range e.args {
		n.args[i] = a.subst(m)
	}
	n.pats = make([][]*Expr, len(e.pats))
	for i, p := range e.pats {
		for _, q := range p {
			n.pats[i] = append(n.pats[i], q.subst(m))
		}
	}
	return &n
}

// ---------- contracts ----------

type Clause struct {
	everywhere bool
	kind       string // requires ensures panics modifies calls loop decreases lemma note
	tags       []string
	text       string
	expr       *Expr
	exprs      []*Expr
	// calls f(args) -> y  [with names where e]
	fname string
	outs  []string
	outS  []Sort
	metaT map[string]string
	where string
	idx   int
	off   bool // an invariant that does not hold (of a private class, whose invariants may be chosen)
	dead  bool // an invariant about a field that is gone
	alt   bool // an invariant to be tried when others do not hold
	scope int  // of a loop: 1 those with no loop inside, 2 those with one or that write no matrix
}

func (c *Clause) active(tag string) bool {
	if c.off || c.dead {
		return false
	}
	if len(c.tags) == 0 || tag == "" {
		return true
	}
	not := false
	for _, t := range c.tags {
		if t == tag {
			return true
		}
		if t == "!"+tag {
			return false
		}
		not = not || t[0] == '!'
	}
	return not
}

type Contract struct {
	key     string
	params  []string
	results []string
	clauses []*Clause
	class   *Class // receiver class, for methods
	family  string
	flags   map[string]bool
	where   string
}

func (c *Contract) of(kind, tag string) []*Clause {
	var r []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind && cl.active(tag) {
			r = append(r, cl)
		}
	}
	return r
}

type View struct {
	name   string
	params []string
	expr   *Expr
	tags   []string
}

type Class struct {
	name     string
	families []string
	attrs    map[string]*Expr
	attrOrd  []string
	invs     []*Clause
	views    []*View
	private  bool                 // not reachable from user callbacks
	methods  map[string]*Contract // class-specific contracts
	extra    map[string][]*Clause // extra clauses for a family method (lemmas, loops)
	owns     []*Expr
	locks    []*Expr // objects to be used only while the object's lock is held
	guards   []*Clause
	layout   []string // the fields the contracts speak of, in the order of the declaration
}

type Family struct {
	name    string
	methods map[string]*Contract
	order   []string
	wf      []*Clause
}

type MacroDef struct {
	params []string
	body   *Expr
}

type LemmaDef struct {
	idx    int
	on     string
	text   string
	name   string
	vars   []VarDecl
	mode   string
	req    []*Expr
	ens    *Expr
	pats   [][]*Expr
	induct string
	tags   []string
	where  string
}

type Spec struct {
	macros   map[string]*MacroDef
	classes  map[string]*Class
	families map[string]*Family
	funcs    map[string]*Contract
	famOf    map[string]string // Go interface name -> family
	ghosts   map[string]Sort   // ghost state components keyed by reference
	aux      map[string]bool   // those that describe the execution, not objects
	props    map[string]*PropDef
	lemmas   []*LemmaDef
	loops    []*Clause // templates tried for every loop
	trusted  []string
	axioms   []axText
	arith    []axText
	assume   []assumption
	groups   map[string][]string
}

type assumption struct {
	text  string
	props []string
}

type axText struct{ text, mode, where string }

type PropDef struct {
	frames bool
	id     string
	roots  []string
	mode   string
}

var spec = &Spec{macros: map[string]*MacroDef{}, classes: map[string]*Class{}, families: map[string]*Family{},
	funcs: map[string]*Contract{}, famOf: map[string]string{}, ghosts: map[string]Sort{}, aux: map[string]bool{}, props: map[string]*PropDef{}, groups: map[string][]string{}}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "panics": true, "modifies": true, "calls": true,
	"loop": true, "decreases": true, "lemma": true, "inv": true, "view": true, "attr": true, "owns": true, "locks": true, "private": true,
	"method": true, "func": true, "class": true, "iface": true, "def": true, "fn": true, "axiom": true, "ghost": true,
	"family": true, "wf": true, "prop": true, "extra": true, "flags": true, "where": true, "oncall": true, "prooflemma": true, "trusted": true, "choose": true, "assert": true, "group": true, "guard": true, "hint": true, "arith": true, "assume": true, "aux": true, "known": true, "innerloop": true, "outerloop": true, "folds": true, "visits": true, "variant": true, "layout": true, "altinv": true}

func splitKw(line string) (kw string, tags []string, rest string, ok bool) {
	i := 0
	for i < len(line) && (line[i] >= 'a' && line[i] <= 'z') {
		i++
	}
	kw = line[:i]
	if !clauseKw[kw] {
		return "", nil, "", false
	}
	rest = line[i:]
	if strings.HasPrefix(rest, "[") {
		j := strings.IndexByte(rest, ']')
		for _, t := range strings.Split(rest[1:j], ",") {
			tags = append(tags, strings.TrimSpace(t))
		}
		rest = rest[j+1:]
	}
	if rest != "" && rest[0] != ' ' && rest[0] != '\t' {
		return "", nil, "", false
	}
	return kw, tags, strings.TrimSpace(rest), true
}

func parseSig(s, where string) (name string, params, results []string) {
	i := strings.IndexByte(s, '(')
	// method keys may start with "(*X)."
	if strings.HasPrefix(s, "(*") {
		j := strings.IndexByte(s, ')')
		i = j + strings.IndexByte(s[j+1:], '(') + 1
	}
	if i < 0 {
		panic(specErr(where, "signature %q", s))
	}
	name = strings.TrimSpace(s[:i])
	j := i + strings.IndexByte(s[i:], ')')
	for _, p := range strings.Split(s[i+1:j], ",") {
		if p = strings.TrimSpace(p); p != "" {
			params = append(params, p)
		}
	}
	rest := strings.TrimSpace(s[j+1:])
	rest = strings.Trim(rest, "()")
	for _, p := range strings.Split(rest, ",") {
		if p = strings.TrimSpace(p); p != "" {
			results = append(results, p)
		}
	}
	return
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func mkClause(kw string, tags []string, rest, where string) *Clause {
	c := &Clause{kind: kw, tags: tags, text: strings.Join(strings.Fields(rest), " "), where: where}
	switch kw {
	case "innerloop":
		c.kind, c.scope = "loop", 1
	case "outerloop":
		c.kind, c.scope = "loop", 2
	}
	switch kw {
	case "folds":
		// folds in until done into out by f from z
		f := strings.Fields(rest)
		if len(f) < 9 || f[1] != "until" || f[3] != "into" || f[5] != "by" {
			panic(specErr(where, "folds <in> until <done> into <out> by <f> from <z>"))
		}
		c.outs = []string{f[0], f[2], f[4]}
		tail := strings.SplitN(strings.SplitN(rest, " by ", 2)[1], " from ", 2)
		c.exprs = append(c.exprs, parseExpr(tail[0], where), parseExpr(tail[1], where))
	case "visits":
		// visits f(v) where e: at every call of the function argument f with argument v
		head, whereE := rest, "true"
		if i := strings.Index(rest, " where "); i >= 0 {
			head, whereE = rest[:i], rest[i+7:]
		}
		e := parseExpr(strings.TrimSpace(head), where)
		c.fname = e.name
		for _, a := range e.args {
			c.outs = append(c.outs, a.name)
		}
		c.expr = parseExpr(whereE, where)
	case "modifies":
		for _, p := range splitTop(rest) {
			c.exprs = append(c.exprs, parseExpr(p, where))
		}
	case "panics":
		rest = strings.TrimPrefix(rest, "when ")
		c.expr = parseExpr(rest, where)
	case "calls":
		// calls f(a, b, c) -> y with r, c, x:T where e
		head := rest
		whereE := ""
		if i := strings.Index(rest, " where "); i >= 0 {
			head, whereE = rest[:i], rest[i+7:]
		}
		if i := strings.Index(head, " with "); i >= 0 {
			for _, o := range strings.Split(head[i+6:], ",") {
				o = strings.TrimSpace(o)
				srt := SInt
				if k := strings.IndexByte(o, ':'); k >= 0 {
					srt = sortNamed(strings.TrimSpace(o[k+1:]), where)
					o = strings.TrimSpace(o[:k])
				}
				c.outs = append(c.outs, o)
				c.outS = append(c.outS, srt)
			}
			head = head[:i]
		}
		k := strings.Index(head, "->")
		if k < 0 {
			panic(specErr(where, "calls needs ->"))
		}
		e := parseExpr(strings.TrimSpace(head[:k]), where)
		c.fname = e.name
		c.exprs = e.args
		c.text = rest
		c.metaT = map[string]string{"y": strings.TrimSpace(head[k+2:])}
		if whereE != "" {
			c.expr = parseExpr(whereE, where)
		} else {
			c.expr = parseExpr("true", where)
		}
	case "flags":
	case "choose":
		// choose ghost(ref) := e
		h := strings.SplitN(rest, ":=", 2)
		if len(h) != 2 {
			panic(specErr(where, "choose needs :="))
		}
		c.exprs = []*Expr{parseExpr(h[0], where)}
		c.expr = parseExpr(h[1], where)
	case "loop", "decreases":
		c.expr = parseExpr(rest, where)
	default:
		c.expr = parseExpr(rest, where)
	}
	return c
}

func loadSpecs(dir string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	type item struct {
		kw    string
		tags  []string
		rest  string
		where string
	}
	var items []item
	for _, f := range files {
		data, e := os.ReadFile(f)
		if e != nil {
			return e
		}
		for n, line := range strings.Split(string(data), "\n") {
			if i := strings.Index(line, "//"); i >= 0 {
				line = line[:i]
			}
			line = strings.TrimSpace(line)
			if line == "" {
				continue
			}
			where := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
			if kw, tags, rest, ok := splitKw(line); ok {
				items = append(items, item{kw, tags, rest, where})
			} else {
				if len(items) == 0 {
					return specErr(where, "text before any clause")
				}
				items[len(items)-1].rest += " " + line
			}
		}
	}
	var cls *Class
	var fam *Family
	var con *Contract
	var fn *FnDecl
	var extra string
	nidx := 0
	for _, it := range items {
		nidx++
		switch it.kw {
		case "def":
			k := strings.Index(it.rest, "=")
			// first '=' after the parameter list
			cl := strings.IndexByte(it.rest, ')')
			k = cl + strings.Index(it.rest[cl:], "=")
			name, params, _ := parseSig(it.rest[:k], it.where)
			if spec.macros[name] != nil {
				panic(fmt.Sprintf("%s: %s is defined twice", it.where, name))
			}
			spec.macros[name] = &MacroDef{params, parseExpr(it.rest[k+1:], it.where)}
		case "ghost", "aux":
			f := strings.Fields(it.rest)
			if it.kw == "aux" {
				spec.aux[f[0]] = true
			}
			spec.ghosts[strings.TrimSuffix(f[0], ":")] = sortNamed(f[1], it.where)
		case "fn":
			k := strings.IndexByte(it.rest, '(')
			j := strings.LastIndexByte(it.rest, ')')
			fn = &FnDecl{name: strings.TrimSpace(it.rest[:k])}
			for _, s := range strings.Split(it.rest[k+1:j], ",") {
				if s = strings.TrimSpace(s); s != "" {
					fn.args = append(fn.args, sortNamed(s, it.where))
				}
			}
			fn.res = sortNamed(strings.TrimSpace(strings.TrimLeft(it.rest[j+1:], " :")), it.where)
			theory.fns[fn.name] = fn
		case "axiom":
			pendingAxioms = append(pendingAxioms, pendAx{fn, it.rest, strings.Join(it.tags, ","), it.where})
			spec.axioms = append(spec.axioms, axText{it.rest, strings.Join(it.tags, ","), it.where})
		case "arith":
			// a fact about products of integers: used as an axiom, proved for the product itself
			pendingAxioms = append(pendingAxioms, pendAx{fn, it.rest, strings.Join(it.tags, ","), it.where})
			spec.arith = append(spec.arith, axText{it.rest, "", it.where})
		case "family":
			// family Name = GoIface, GoIface...
			p := strings.SplitN(it.rest, "=", 2)
			n := strings.TrimSpace(p[0])
			for _, g := range strings.Split(p[1], ",") {
				spec.famOf[strings.TrimSpace(g)] = n
			}
			spec.families[n] = &Family{name: n, methods: map[string]*Contract{}}
		case "iface":
			fam = spec.families[it.rest]
			if fam == nil {
				return specErr(it.where, "unknown family %q", it.rest)
			}
			cls, con, extra = nil, nil, ""
		case "class":
			p := strings.SplitN(it.rest, " implements ", 2)
			cls = &Class{name: strings.TrimSpace(p[0]), attrs: map[string]*Expr{}, methods: map[string]*Contract{}, extra: map[string][]*Clause{}}
			if len(p) > 1 {
				for _, f := range strings.Split(p[1], ",") {
					cls.families = append(cls.families, strings.TrimSpace(f))
				}
			}
			spec.classes[cls.name] = cls
			fam, con, extra = nil, nil, ""
		case "wf":
			fam.wf = append(fam.wf, mkClause("wf", it.tags, it.rest, it.where))
		case "attr":
			p := strings.SplitN(it.rest, "=", 2)
			n := strings.TrimSpace(p[0])
			cls.attrs[n] = parseExpr(p[1], it.where)
			cls.attrOrd = append(cls.attrOrd, n)
		case "inv", "altinv":
			c := mkClause("inv", it.tags, it.rest, it.where)
			c.idx = len(cls.invs) + 1
			c.alt = it.kw == "altinv"
			c.off = c.alt
			cls.invs = append(cls.invs, c)
		case "group":
			spec.addGroup(it.rest)
		case "guard":
			c := mkClause("guard", it.tags, it.rest, it.where)
			c.idx = len(cls.guards) + 1
			cls.guards = append(cls.guards, c)
		case "owns":
			cls.owns = append(cls.owns, parseExpr(it.rest, it.where))
		case "locks":
			cls.locks = append(cls.locks, parseExpr(it.rest, it.where))
		case "private":
			cls.private = true
		case "layout":
			cls.layout = strings.Fields(it.rest)
		case "view":
			p := strings.SplitN(it.rest, ":=", 2)
			h := strings.TrimSpace(p[0])
			v := &View{tags: it.tags}
			if strings.Contains(h, "(") {
				v.name, v.params, _ = parseSig(h, it.where)
			} else {
				v.name = h
			}
			v.expr = parseExpr(p[1], it.where)
			cls.views = append(cls.views, v)
		case "method":
			name, params, results := parseSig(it.rest, it.where)
			con = &Contract{key: name, params: params, results: results, flags: map[string]bool{}, where: it.where}
			extra = ""
			if fam != nil {
				con.family = fam.name
				fam.methods[name] = con
				fam.order = append(fam.order, name)
			} else {
				con.class = cls
				cls.methods[name] = con
			}
		case "extra":
			extra = it.rest
		case "func":
			name, params, results := parseSig(it.rest, it.where)
			con = &Contract{key: name, params: params, results: results, flags: map[string]bool{}, where: it.where}
			spec.funcs[name] = con
			fam, cls, extra = nil, nil, ""
		case "flags":
			for _, f := range strings.Fields(it.rest) {
				con.flags[f] = true
			}
		case "prop":
			// prop C01 mode roots...
			f := strings.Fields(it.rest)
			pd := &PropDef{id: f[0], mode: f[1], roots: f[2:]}
			if f[2] == "+frames" {
				// below the functions listed only frames are checked, the rest is what other properties establish
				pd.frames, pd.roots = true, f[3:]
			}
			for i, r := range pd.roots {
				if r[0] == '@' {
					pd.roots[i] = "var " + r[1:]
				}
			}
			spec.props[f[0]] = pd
		case "prooflemma":
			// prooflemma[mode] name by k :: forall ... :: body     (body may be A ==> B)
			h := strings.SplitN(it.rest, "::", 2)
			f := strings.Fields(h[0])
			q := parseExpr(h[1], it.where)
			if q.kind != "quant" {
				return specErr(it.where, "lemma must be a forall")
			}
			ld := &LemmaDef{name: f[0], vars: q.vars, ens: q.args[0], pats: q.pats, mode: strings.Join(it.tags, ","), where: it.where}
			for i := 1; i+1 < len(f); i += 2 {
				switch f[i] {
				case "by":
					ld.induct = f[i+1]
				case "on":
					ld.on = f[i+1]
				}
			}
			ld.idx = len(spec.lemmas)
			ld.text = h[1]
			if ld.on != "" {
				fd := theory.fns[ld.on]
				if fd == nil {
					return specErr(it.where, "no function %s", ld.on)
				}
				ev := &Eval{}
				ax := &Axiom{idx: ld.idx, term: ev.boolTerm(q), mode: ld.mode, name: ld.name}
				fd.lemmas = append(fd.lemmas, ax)
			}
			spec.lemmas = append(spec.lemmas, ld)
		case "assume":
			spec.assume = append(spec.assume, assumption{it.rest, it.tags})
		case "trusted":
			spec.trusted = append(spec.trusted, it.rest)
		default:
			c := mkClause(it.kw, it.tags, it.rest, it.where)
			if extra != "" {
				for _, m := range strings.Fields(extra) {
					c.everywhere = m == "*"
					cls.extra[m] = append(cls.extra[m], c)
				}
				continue
			}
			if con == nil && cls == nil && fam == nil && (it.kw == "loop" || it.kw == "decreases") {
				spec.loops = append(spec.loops, c)
				continue
			}
			if con == nil {
				return specErr(it.where, "clause outside a contract")
			}
			con.clauses = append(con.clauses, c)
			n := 0
			for _, k := range con.clauses {
				if k.kind == c.kind {
					n++
				}
			}
			c.idx = n
		}
	}
	for _, p := range pendingAxioms {
		ev := &Eval{}
		t := ev.boolTerm(parseExpr(p.text, p.where))
		p.fn.axioms = append(p.fn.axioms, &Axiom{term: t, mode: p.mode, name: p.where})
	}
	return nil
}

type pendAx struct {
	fn    *FnDecl
	text  string
	mode  string
	where string
}

var pendingAxioms []pendAx

func (s *Spec) addGroup(rest string) {
	p := strings.SplitN(rest, "=", 2)
	for _, n := range strings.Split(p[1], ",") {
		s.groups[strings.TrimSpace(p[0])] = append(s.groups[strings.TrimSpace(p[0])], strings.TrimSpace(n))
	}
}
