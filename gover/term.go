package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed SMT terms with light, sound simplification on construction.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	ST    Sort = "T"
	SInts Sort = "(Array Int Int)"
	STs   Sort = "(Array Int T)"
	SMat  Sort = "(Array Int (Array Int T))"
	SBMat Sort = "(Array Int (Array Int Bool))"
	SBs   Sort = "(Array Int Bool)"
	SStr  Sort = "Str"
)

func arrOf(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }
func elemOf(s Sort) Sort {
	t := string(s)
	if !strings.HasPrefix(t, "(Array Int ") {
		panic(unsupported("not an array sort: " + t))
	}
	return Sort(t[len("(Array Int ") : len(t)-1])
}

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string { return e.msg }
func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

type Term struct {
	op    string // "sym","int","bool","+","*","<=","<","=","and","or","not","=>","ite","select","store","forall","exists","app","bvar"
	name  string
	ival  int64
	args  []*Term
	sort  Sort
	id    int
	bound bool // contains bound variables that are free in it
	vars  []*Term
	pats  [][]*Term
}

var (
	termMu   sync.Mutex
	termTab  = map[string]*Term{}
	termNext int
)

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.op == "int" || t.op == "*" || t.op == "+" || t.op == "bool" {
		b.WriteString(strconv.FormatInt(t.ival, 10))
	}
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	if len(t.vars) > 0 {
		b.WriteByte('@')
		for _, v := range t.vars {
			b.WriteString(strconv.Itoa(v.id))
			b.WriteByte(',')
		}
		for _, p := range t.pats {
			b.WriteByte('{')
			for _, q := range p {
				b.WriteString(strconv.Itoa(q.id))
				b.WriteByte(',')
			}
		}
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termNext++
	t.id = termNext
	if t.op == "bvar" {
		t.bound = true
	} else if t.op == "forall" || t.op == "exists" {
		t.bound = freeBound(t)
	} else {
		for _, a := range t.args {
			if a.bound {
				t.bound = true
			}
		}
	}
	termTab[k] = t
	return t
}

func freeBound(t *Term) bool {
	// conservative: does the body have bound variables other than its own
	own := map[*Term]bool{}
	for _, v := range t.vars {
		own[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if !x.bound || seen[x] {
			return false
		}
		seen[x] = true
		if x.op == "bvar" {
			return !own[x]
		}
		if x.op == "forall" || x.op == "exists" {
			// its free ones
			for _, v := range x.vars {
				own[v] = true
			}
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t.args[0])
}

var True = mk(&Term{op: "bool", ival: 1, sort: SBool})
var False = mk(&Term{op: "bool", ival: 0, sort: SBool})
var TZero = mk(&Term{op: "app", name: "tzero", sort: ST})
var TOne = mk(&Term{op: "app", name: "tone", sort: ST})

func Int(n int64) *Term             { return mk(&Term{op: "int", ival: n, sort: SInt}) }
func Sym(name string, s Sort) *Term { return mk(&Term{op: "sym", name: name, sort: s}) }
func BVar(name string, s Sort) *Term {
	return mk(&Term{op: "bvar", name: name, sort: s})
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshMu sync.Mutex
var freshCnt = map[string]int{}

// linear form
type lin struct {
	c  int64
	at map[*Term]int64
}

func linOf(t *Term) lin {
	l := lin{at: map[*Term]int64{}}
	l.add(t, 1)
	return l
}
func (l *lin) add(t *Term, k int64) {
	switch t.op {
	case "int":
		l.c += k * t.ival
	case "+":
		l.c += k * t.ival
		for _, a := range t.args {
			l.add(a, k)
		}
	case "*":
		l.add(t.args[0], k*t.ival)
	default:
		l.at[t] += k
		if l.at[t] == 0 {
			delete(l.at, t)
		}
	}
}
func (l lin) term() *Term {
	var ks []*Term
	for a := range l.at {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, a := range ks {
		k := l.at[a]
		if k == 1 {
			args = append(args, a)
		} else {
			args = append(args, mk(&Term{op: "*", ival: k, args: []*Term{a}, sort: SInt}))
		}
	}
	if len(args) == 0 {
		return Int(l.c)
	}
	if l.c == 0 && len(args) == 1 {
		return args[0]
	}
	return mk(&Term{op: "+", ival: l.c, args: args, sort: SInt})
}

func Add(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, 1)
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, -1)
	return l.term()
}
func MulK(k int64, a *Term) *Term {
	l := lin{at: map[*Term]int64{}}
	l.add(a, k)
	return l.term()
}

// constant difference
func diffConst(a, b *Term) (int64, bool) {
	if a == b {
		return 0, true
	}
	if a.sort != SInt || b.sort != SInt {
		return 0, false
	}
	l := linOf(a)
	l.add(b, -1)
	if len(l.at) == 0 {
		return l.c, true
	}
	return 0, false
}

func Le(a, b *Term) *Term {
	if d, ok := diffConst(a, b); ok {
		return Bool(d <= 0)
	}
	return mk(&Term{op: "<=", args: []*Term{a, b}, sort: SBool})
}
func Lt(a, b *Term) *Term {
	if d, ok := diffConst(a, b); ok {
		return Bool(d < 0)
	}
	return mk(&Term{op: "<", args: []*Term{a, b}, sort: SBool})
}
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(unsupported("equality between %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SInt {
		if d, ok := diffConst(a, b); ok {
			return Bool(d == 0)
		}
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
}
func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	case a.op == "<=":
		return Lt(a.args[1], a.args[0])
	case a.op == "<":
		return Le(a.args[1], a.args[0])
	}
	return mk(&Term{op: "not", args: []*Term{a}, sort: SBool})
}
func And(xs ...*Term) *Term {
	var args []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == True || seen[x] {
			return true
		}
		if x == False {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		args = append(args, x)
		return true
	}
	for _, x := range xs {
		if !rec(x) {
			return False
		}
	}
	for _, a := range args {
		if seen[Not(a)] {
			return False
		}
	}
	if len(args) == 0 {
		return True
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(&Term{op: "and", args: args, sort: SBool})
}
func Or(xs ...*Term) *Term {
	var args []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == True {
			return True
		}
		if x == False || seen[x] {
			continue
		}
		if x.op == "or" {
			for _, a := range x.args {
				if !seen[a] {
					seen[a] = true
					args = append(args, a)
				}
			}
			continue
		}
		seen[x] = true
		args = append(args, x)
	}
	for _, a := range args {
		if seen[Not(a)] {
			return True
		}
	}
	if len(args) == 0 {
		return False
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(&Term{op: "or", args: args, sort: SBool})
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk(&Term{op: "=>", args: []*Term{a, b}, sort: SBool})
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(unsupported("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return mk(&Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}
func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if d, ok := diffConst(a.args[1], i); ok && d != 0 {
			a = a.args[0]
			continue
		}
		if distinctRefs(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constzero" {
		return zeroOf(elemOf(a.sort))
	}
	return mk(&Term{op: "select", args: []*Term{a, i}, sort: elemOf(a.sort)})
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if elemOf(a.sort) != v.sort {
		panic(unsupported("store of %s into %s", v.sort, a.sort))
	}
	return mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}

func zeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case ST:
		return TZero
	}
	if strings.HasPrefix(string(s), "(Array") {
		return App("constzero", s)
	}
	panic(unsupported("zero of sort %s", s))
}

// references allocated by the execution itself carry the name prefix "new!";
// parameters "p!": two different allocations never coincide, nor does an allocation with a parameter.
var refClass sync.Map // references whose static type is a pointer to a struct: its class

func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	if ca, ok := refClass.Load(a); ok {
		if cb, ok := refClass.Load(b); ok && ca != cb {
			return true
		}
	}
	if olderField(a, b) || olderField(b, a) {
		return true
	}
	if a.op != "sym" || b.op != "sym" || a == b {
		return false
	}
	an, bn := strings.HasPrefix(a.name, "new!"), strings.HasPrefix(b.name, "new!")
	if an && bn {
		return true
	}
	if an && strings.HasPrefix(b.name, "p!") || bn && strings.HasPrefix(a.name, "p!") {
		return true
	}
	return false
}

// olderField: a is a new object and b the value of a field from before that
func olderField(a, b *Term) bool {
	if a.op != "sym" || !strings.HasPrefix(a.name, "new!") || b.op != "app" || !strings.HasPrefix(b.name, "F.") {
		return false
	}
	return maxSeq(b) < symSeq(a)
}

func App(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{op: "app", name: name, args: args, sort: s})
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}
func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	if !body.bound {
		return body
	}
	return mk(&Term{op: op, vars: vars, pats: pats, args: []*Term{body}, sort: SBool})
}

// substitution of symbols / bound variables
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if r, ok := memo[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, args, rec)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func rebuild(x *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch x.op {
	case "+":
		l := lin{c: x.ival, at: map[*Term]int64{}}
		for _, a := range args {
			l.add(a, 1)
		}
		return l.term()
	case "*":
		return MulK(x.ival, args[0])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "forall", "exists":
		pats := make([][]*Term, len(x.pats))
		for i, p := range x.pats {
			for _, q := range p {
				pats[i] = append(pats[i], rec(q))
			}
		}
		return quant(x.op, x.vars, args[0], pats)
	case "app":
		return App(x.name, x.sort, args...)
	}
	panic("rebuild " + x.op)
}

// symbols occurring in a term
func symsOf(t *Term, syms map[*Term]bool, apps map[string]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "sym" {
		syms[t] = true
	}
	if t.op == "app" {
		if _, ok := apps[t.name]; !ok {
			apps[t.name] = t
		}
		if t.name == "constzero" {
			apps["constzero"+string(t.sort)] = t
		}
	}
	for _, a := range t.args {
		symsOf(a, syms, apps, seen)
	}
	for _, p := range t.pats {
		for _, q := range p {
			symsOf(q, syms, apps, seen)
		}
	}
}

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, nil)
	return b.String()
}

func smtName(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("!_.$", c) >= 0) {
			return "|" + s + "|"
		}
	}
	return s
}

func writeTerm(b *strings.Builder, t *Term, named map[*Term]string) {
	if n, ok := named[t]; ok {
		b.WriteString(n)
		return
	}
	writeTermBody(b, t, named)
}

func writeTermBody(b *strings.Builder, t *Term, named map[*Term]string) {
	w := func(op string, args []*Term) {
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			writeTerm(b, a, named)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case "sym", "bvar":
		b.WriteString(smtName(t.name))
	case "int":
		if t.ival < 0 {
			fmt.Fprintf(b, "(- %d)", -t.ival)
		} else {
			fmt.Fprintf(b, "%d", t.ival)
		}
	case "bool":
		if t.ival == 1 {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case "+":
		if len(t.args) == 1 && t.ival == 0 {
			writeTerm(b, t.args[0], named)
			return
		}
		b.WriteString("(+")
		for _, a := range t.args {
			b.WriteByte(' ')
			writeTerm(b, a, named)
		}
		if t.ival != 0 {
			b.WriteByte(' ')
			writeTerm(b, Int(t.ival), named)
		}
		b.WriteByte(')')
	case "*":
		b.WriteString("(* ")
		writeTerm(b, Int(t.ival), named)
		b.WriteByte(' ')
		writeTerm(b, t.args[0], named)
		b.WriteByte(')')
	case "forall", "exists":
		b.WriteByte('(')
		b.WriteString(t.op)
		b.WriteString(" (")
		for _, v := range t.vars {
			fmt.Fprintf(b, "(%s %s)", smtName(v.name), v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.args[0], named)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					writeTerm(b, q, named)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
	case "app":
		if t.name == "constzero" {
			fmt.Fprintf(b, "((as const %s) ", t.sort)
			writeTerm(b, zeroOf(elemOf(t.sort)), named)
			b.WriteByte(')')
			return
		}
		if len(t.args) == 0 {
			b.WriteString(smtName(t.name))
		} else {
			w(smtName(t.name), t.args)
		}
	default:
		w(t.op, t.args)
	}
}
