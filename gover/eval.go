package main

import (
	"fmt"
	"go/constant"
	"go/types"
)

// SV is a value in a specification: a term, with its Go type when it is a reference, or a slice
type SV struct {
	t   *Term
	typ types.Type
	sl  *specSlice
	v   Val
}

type specSlice struct {
	content *Term
	off     *Term
	len     *Term
	rowlen  *Term
	elem    types.Type
	row     bool
	sv      *SliceVal
}

type Eval struct {
	x    *Exec
	st   *State
	old  *State
	pre  *State
	env  map[string]SV
	preE map[string]SV // values of metavariables at the loop entry
	meta map[string]SV
	// evaluating for an obligation (true) or an assumption (false): only matters for fresh(slice)
	proving bool
	depth   int // bound variables around
}

func (x *Exec) evalFor(st, old, pre *State) *Eval {
	return &Eval{x: x, st: st, old: old, pre: pre, env: map[string]SV{}}
}

func (e *Eval) push(n string, v SV) {
	if e.env == nil {
		e.env = map[string]SV{}
	}
	e.env[n] = v
}
func (e *Eval) pop(n string) { delete(e.env, n) }

func (e *Eval) term(x *Expr) *Term {
	v := e.eval(x)
	if v.t == nil {
		if v.v != nil {
			switch q := v.v.(type) {
			case *Term:
				return q
			case *UnkFn:
				return q.term
			}
		}
		panic(unsupported("specification expression %s is not a term", exprStr(x)))
	}
	return v.t
}

func (e *Eval) boolTerm(x *Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		panic(unsupported("specification expression %s is not boolean", exprStr(x)))
	}
	return t
}

func exprStr(e *Expr) string {
	if e == nil {
		return "?"
	}
	s := e.kind + ":" + e.name
	if e.kind == "num" {
		return Int(e.num).String()
	}
	if len(e.args) > 0 {
		s += "("
		for i, a := range e.args {
			if i > 0 {
				s += ","
			}
			s += exprStr(a)
		}
		s += ")"
	}
	return s
}

func (e *Eval) valSV(v Val, typ types.Type) SV {
	switch q := v.(type) {
	case *Term:
		return SV{t: q, typ: typ, v: v}
	case *SliceVal:
		return SV{sl: e.specSl(q), typ: typ, v: v}
	case *UnkFn:
		return SV{t: q.term, typ: typ, v: v}
	case *Closure:
		if e.x != nil && e.st != nil {
			return SV{t: e.x.closureTerm(e.st, q), typ: typ, v: v}
		}
	case *ChanVal:
		return SV{t: q.ref, v: v, typ: typ}
	case Ptr:
		return SV{v: v, typ: typ}
	}
	return SV{v: v, typ: typ}
}

func (e *Eval) specSl(s *SliceVal) *specSlice {
	r := &specSlice{off: s.off, len: s.len, elem: s.elem, sv: s}
	if s.arr == 0 {
		if inner, ok := isSlice(s.elem); ok {
			r.content = App("constzero", arrOf(arrOf(e.x.sortOf(inner))))
			r.rowlen = App("constzero", SInts)
		} else {
			r.content = App("constzero", arrOf(e.x.elemSort(s.elem)))
		}
		return r
	}
	st := e.st
	if st.arrs[s.arr] == nil {
		panic(unsupported("slice does not exist in that state"))
	}
	a, _, row := e.x.arrOfSlice(st, s)
	if row != nil {
		r.content = Select(a.content, row)
		r.row = true
	} else {
		r.content = a.content
		r.rowlen = a.rowlen
	}
	return r
}

func (e *Eval) inState(st *State, x *Expr) SV {
	if st == nil {
		panic(unsupported("no such state here: %s", exprStr(x)))
	}
	// re-evaluate slices of the environment in that state
	n := &Eval{x: e.x, st: st, old: e.old, pre: e.pre, env: map[string]SV{}, meta: e.meta, proving: e.proving, depth: e.depth}
	for k, v := range e.env {
		if s, ok := v.v.(*SliceVal); ok {
			if st.arrs[s.arr] != nil || s.arr == 0 {
				v.sl = n.specSl(s)
			}
		}
		n.env[k] = v
	}
	if e.meta != nil {
		n.meta = map[string]SV{}
		for k, v := range e.meta {
			if s, ok := v.v.(*SliceVal); ok && (st.arrs[s.arr] != nil || s.arr == 0) {
				v.sl = n.specSl(s)
			}
			n.meta[k] = v
		}
	}
	if st == e.pre && e.preE != nil {
		n.meta = e.preE
	}
	return n.eval(x)
}

func (e *Eval) ghost(name string, ref *Term) *Term {
	if e.st == nil {
		panic(unsupported("ghost %s in an axiom", name))
	}
	g := e.st.g[name]
	if g == nil {
		panic(unsupported("unknown ghost %s", name))
	}
	return Select(g, ref)
}

// fieldNamed: the field, or one of another name in the same place
func fieldNamed(class string, s *types.Struct, name string) *types.Var {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	if c := spec.classes[class]; c != nil && len(c.layout) == s.NumFields() {
		known := map[string]bool{}
		for _, l := range c.layout {
			known[l] = true
		}
		for i, l := range c.layout {
			if l == name && !known[s.Field(i).Name()] {
				return s.Field(i)
			}
		}
	}
	return nil
}

func (e *Eval) field(o SV, name string) SV {
	if o.typ == nil {
		panic(unsupported("field %s of an untyped value", name))
	}
	class, s := repClass(o.typ)
	if s == nil {
		panic(unsupported("field %s of %s", name, o.typ))
	}
	fv := fieldNamed(class, s, name)
	if fv == nil {
		panic(unsupported("no field %s in %s", name, class))
	}
	name = fv.Name()
	if rec := e.st.open[o.t]; rec != nil && rec.class == class {
		return e.valSV(rec.fields[name], fv.Type())
	}
	ver := Select(e.st.g["ver"], o.t)
	t := types.Unalias(fv.Type())
	if elem, ok := isSlice(t); ok {
		sl := &specSlice{off: Int(0), len: App(fieldFn(class, name, "#len"), SInt, o.t, ver), elem: elem}
		if inner, ok := isSlice(elem); ok {
			sl.content = App(fieldFn(class, name, ""), arrOf(arrOf(e.x.sortOf(inner))), o.t, ver)
			sl.rowlen = App(fieldFn(class, name, "#rl"), SInts, o.t, ver)
		} else {
			sl.content = App(fieldFn(class, name, ""), arrOf(e.x.elemSort(elem)), o.t, ver)
		}
		return SV{sl: sl, typ: t}
	}
	return SV{t: App(fieldFn(class, name, ""), e.x.sortOf(t), o.t, ver), typ: t}
}

func toSort(t *Term, s Sort) *Term { return t }

func (e *Eval) eval(x *Expr) SV {
	switch x.kind {
	case "num":
		return SV{t: Int(x.num)}
	case "meta":
		if v, ok := e.meta[x.name]; ok {
			return v
		}
		panic(unsupported("unbound metavariable ?%s", x.name))
	case "name":
		if v, ok := e.env[x.name]; ok {
			return v
		}
		switch x.name {
		case "true":
			return SV{t: True}
		case "false":
			return SV{t: False}
		case "nil":
			return SV{t: Int(0)}
		case "tzero":
			return SV{t: TZero}
		case "tone":
			return SV{t: TOne}
		}
		if m, ok := spec.macros[x.name]; ok && len(m.params) == 0 {
			return e.eval(m.body)
		}
		if f := theory.fns[x.name]; f != nil && len(f.args) == 0 {
			return SV{t: App(f.name, f.res)}
		}
		if len(x.name) > 6 && x.name[:6] == "class_" {
			return SV{t: Int(classID(x.name[6:]))}
		}
		if v, ok := goConst(x.name); ok {
			return SV{t: Int(v)}
		}
		panic(unsupported("unknown name %q in a specification", x.name))
	case "field":
		o := e.eval(x.args[0])
		if o.t == nil {
			if sv, ok := o.v.(*StructVal); ok {
				if fv, ok := sv.f[x.name]; ok {
					return e.valSV(fv, nil)
				}
			}
			panic(unsupported("field of a non-reference: %s", exprStr(x)))
		}
		return e.field(o, x.name)
	case "index":
		b := e.eval(x.args[0])
		i := e.term(x.args[1])
		if b.sl != nil {
			s := b.sl
			if !s.row {
				if inner, ok := isSlice(s.elem); ok {
					return SV{sl: &specSlice{content: Select(s.content, Add(s.off, i)), off: Int(0), len: Select(s.rowlen, Add(s.off, i)), elem: inner, row: true}}
				}
			}
			return SV{t: Select(s.content, Add(s.off, i))}
		}
		if b.t == nil {
			panic(unsupported("index of a non-array %s", exprStr(x)))
		}
		return SV{t: Select(b.t, i)}
	case "un":
		if x.name == "!" {
			return SV{t: Not(e.boolTerm(x.args[0]))}
		}
		a := e.term(x.args[0])
		if a.sort == ST {
			return SV{t: App("tneg", ST, a)}
		}
		return SV{t: MulK(-1, a)}
	case "bin":
		return SV{t: e.bin(x)}
	case "quant":
		var vars []*Term
		saved := map[string]SV{}
		had := map[string]bool{}
		for _, v := range x.vars {
			if o, ok := e.env[v.name]; ok {
				saved[v.name] = o
				had[v.name] = true
			}
			bv := BVar(fmt.Sprintf("%s?%d", v.name, e.depth), v.sort)
			e.depth++
			vars = append(vars, bv)
			e.push(v.name, SV{t: bv})
		}
		body := e.boolTerm(x.args[0])
		var pats [][]*Term
		for _, p := range x.pats {
			var ts []*Term
			ok := true
			for _, q := range p {
				t := e.term(q)
				ts = append(ts, t)
			}
			ok = validPattern(ts, vars)
			if ok {
				pats = append(pats, ts)
			}
		}
		e.depth -= len(x.vars)
		for _, v := range x.vars {
			if had[v.name] {
				e.env[v.name] = saved[v.name]
			} else {
				e.pop(v.name)
			}
		}
		if x.name == "forall" {
			return SV{t: Forall(vars, body, pats...)}
		}
		return SV{t: Exists(vars, body, pats...)}
	case "call":
		return e.call(x)
	}
	panic(unsupported("specification expression %s", exprStr(x)))
}

// a usable trigger mentions every variable and no interpreted operator at its head
func validPattern(ts []*Term, vars []*Term) bool {
	got := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
			return false
		case "bvar":
			got[t] = true
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	for _, t := range ts {
		if t.op != "select" && t.op != "app" && t.op != "store" {
			return false
		}
		if !rec(t) {
			return false
		}
	}
	for _, v := range vars {
		if !got[v] {
			return false
		}
	}
	return true
}

func (e *Eval) bin(x *Expr) *Term {
	switch x.name {
	case "&&":
		return And(e.boolTerm(x.args[0]), e.boolTerm(x.args[1]))
	case "||":
		return Or(e.boolTerm(x.args[0]), e.boolTerm(x.args[1]))
	case "==>":
		return Implies(e.boolTerm(x.args[0]), e.boolTerm(x.args[1]))
	case "<==>":
		return Eq(e.boolTerm(x.args[0]), e.boolTerm(x.args[1]))
	}
	av, bv := e.eval(x.args[0]), e.eval(x.args[1])
	if x.name == "==" || x.name == "!=" {
		var r *Term
		if av.sl != nil || bv.sl != nil {
			// only comparison with nil
			panic(unsupported("comparison of slices %s", exprStr(x)))
		}
		a, b := e.valTerm(av, x.args[0]), e.valTerm(bv, x.args[1])
		a, b = coerce(a, b)
		r = Eq(a, b)
		if x.name == "!=" {
			r = Not(r)
		}
		return r
	}
	a, b := e.valTerm(av, x.args[0]), e.valTerm(bv, x.args[1])
	a, b = coerce(a, b)
	if a.sort == ST {
		switch x.name {
		case "+":
			return App("tadd", ST, a, b)
		case "-":
			return App("tsub", ST, a, b)
		case "*":
			return App("tmul", ST, a, b)
		case "<":
			return App("tlt", SBool, a, b)
		case ">":
			return App("tlt", SBool, b, a)
		}
		panic(unsupported("operator %s on values", x.name))
	}
	switch x.name {
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return mulInt(a, b)
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	}
	panic(unsupported("operator %s", x.name))
}

func mulInt(a, b *Term) *Term {
	if a.op == "int" {
		return MulK(a.ival, b)
	}
	if b.op == "int" {
		return MulK(b.ival, a)
	}
	return App("imul", SInt, a, b)
}

func coerce(a, b *Term) (*Term, *Term) {
	if a.sort == ST && b.sort == SInt && b.op == "int" {
		return a, tconst(b.ival)
	}
	if b.sort == ST && a.sort == SInt && a.op == "int" {
		return tconst(a.ival), b
	}
	return a, b
}

func tconst(n int64) *Term {
	switch n {
	case 0:
		return TZero
	case 1:
		return TOne
	case -1:
		return App("tneg", ST, TOne)
	}
	if n < 0 {
		return App("tneg", ST, tconst(-n))
	}
	return App("tnum", ST, Int(n))
}

func (e *Eval) valTerm(v SV, x *Expr) *Term {
	if v.t != nil {
		return v.t
	}
	switch q := v.v.(type) {
	case *Term:
		return q
	case NilFn:
		return Int(0)
	}
	panic(unsupported("specification expression %s is not a term", exprStr(x)))
}

var classIDs = map[string]int64{}

func classID(n string) int64 {
	termMu.Lock()
	defer termMu.Unlock()
	if v, ok := classIDs[n]; ok {
		return v
	}
	// stable: hash of the name
	var h int64 = 7
	for i := 0; i < len(n); i++ {
		h = (h*131 + int64(n[i])) % 1000003
	}
	classIDs[n] = h
	return h
}

func (e *Eval) call(x *Expr) SV {
	n := x.name
	switch n {
	case "old":
		return e.inState(e.old, x.args[0])
	case "pre":
		return e.inState(e.pre, x.args[0])
	case "len":
		v := e.eval(x.args[0])
		if v.sl == nil {
			panic(unsupported("len of %s", exprStr(x.args[0])))
		}
		return SV{t: v.sl.len}
	case "content":
		v := e.eval(x.args[0])
		if v.sl == nil {
			panic(unsupported("content of %s", exprStr(x.args[0])))
		}
		if v.sl.off != Int(0) {
			panic(unsupported("content of a slice with an offset"))
		}
		return SV{t: v.sl.content}
	case "rowlens":
		v := e.eval(x.args[0])
		return SV{t: v.sl.rowlen}
	case "isnil":
		v := e.eval(x.args[0])
		if s, ok := v.v.(*SliceVal); ok {
			return SV{t: Bool(s.arr == 0)}
		}
		return SV{t: Eq(e.term(x.args[0]), Int(0))}
	case "upd":
		m, r, c, v := e.term(x.args[0]), e.term(x.args[1]), e.term(x.args[2]), e.term(x.args[3])
		return SV{t: Store(m, r, Store(Select(m, r), c, v))}
	case "set":
		return SV{t: Store(e.term(x.args[0]), e.term(x.args[1]), e.term(x.args[2]))}
	case "ite":
		a, b := e.term(x.args[1]), e.term(x.args[2])
		a, b = coerce(a, b)
		return SV{t: Ite(e.boolTerm(x.args[0]), a, b)}
	case "teq":
		return SV{t: tEq(e.term(x.args[0]), e.term(x.args[1]))}
	case "fresh":
		v := e.eval(x.args[0])
		if v.sl != nil {
			if !e.proving {
				return SV{t: True}
			}
			s, ok := v.v.(*SliceVal)
			if !ok {
				return SV{t: False}
			}
			if s.arr == 0 {
				return SV{t: True}
			}
			a, _, row := e.x.arrOfSlice(e.st, s)
			return SV{t: Bool(row == nil && a.owner == nil && a.param == "" && a.dead == "" && !a.poisoned)}
		}
		return SV{t: Lt(e.old.alloc, v.t)}
	case "emptymat":
		return SV{t: App("constzero", SMat)}
	case "emptyset":
		return SV{t: App("constzero", SBMat)}
	case "fst":
		return SV{t: e.term(x.args[0])}
	case "typed":
		// typed(ref, Class)
		t := e.x.classType(x.args[1].name)
		return SV{t: e.term(x.args[0]), typ: t}
	case "isa":
		// isa(ref, Class): the dynamic type
		return SV{t: Eq(App("dyn", SInt, e.term(x.args[0])), Int(classID(x.args[1].name)))}
	case "registry":
		return SV{t: e.x.registry(e.st)}
	case "bracket":
		return SV{t: strLit("[")}
	case "text":
		// text(Name): the text constant "Name"
		return SV{t: strLit(x.args[0].name)}
	case "dyn":
		return SV{t: App("dyn", SInt, e.term(x.args[0]))}
	case "unchanged":
		// all ghost state of a reference (content) as in the old state
		ref := e.term(x.args[0])
		var cs []*Term
		for _, g := range spec.groups["content"] {
			cs = append(cs, Eq(Select(e.st.g[g], ref), Select(e.old.g[g], ref)))
		}
		return SV{t: And(cs...)}
	}
	if _, ok := spec.ghosts[n]; ok {
		return SV{t: e.ghost(n, e.term(x.args[0]))}
	}
	if m, ok := spec.macros[n]; ok {
		if len(m.params) != len(x.args) {
			panic(unsupported("macro %s takes %d arguments", n, len(m.params)))
		}
		in := &Eval{x: e.x, st: e.st, old: e.old, pre: e.pre, env: map[string]SV{}, meta: e.meta, preE: e.preE, proving: e.proving, depth: e.depth}
		for i, p := range m.params {
			in.env[p] = e.eval(x.args[i])
		}
		return in.eval(m.body)
	}
	if f := theory.fns[n]; f != nil {
		var as []*Term
		for i, a := range x.args {
			v := e.eval(a)
			t := v.t
			if t == nil && v.sl != nil {
				if v.sl.off != Int(0) {
					panic(unsupported("slice with an offset as an argument of %s", n))
				}
				t = v.sl.content
			}
			if t == nil {
				t = e.valTerm(v, a)
			}
			if i < len(f.args) && f.args[i] == ST && t.sort == SInt && t.op == "int" {
				t = tconst(t.ival)
			}
			if i >= len(f.args) || t.sort != f.args[i] {
				panic(unsupported("argument %d of %s: %s", i, n, exprStr(a)))
			}
			as = append(as, t)
		}
		if len(as) != len(f.args) {
			panic(unsupported("%s takes %d arguments", n, len(f.args)))
		}
		if n == "imul" {
			return SV{t: mulInt(as[0], as[1])}
		}
		return SV{t: App(n, f.res, as...)}
	}
	for _, c := range spec.classes {
		if _, ok := c.attrs[n]; ok {
			return SV{t: App(n, SBool, e.term(x.args[0]))}
		}
	}
	panic(unsupported("unknown function %s in a specification", n))
}

// Go equality of element values
func tEq(a, b *Term) *Term {
	if a == TZero || b == TZero || a == TOne || b == TOne {
		return Eq(a, b)
	}
	return And(Eq(a, b), Not(App("isnan", SBool, a)))
}

// goConst: an exported integer constant of the code
func goConst(name string) (int64, bool) {
	for _, p := range pkgs {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				return v, true
			}
		}
	}
	return 0, false
}
