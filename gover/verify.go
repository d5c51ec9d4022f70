package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir    = "/repo"
	modPath    = "github.com/rossmerr/graphblas"
	prog       *ssa.Program
	pkgs       []*ssa.Package
	classTypes = map[string]types.Type{}
	allFuncs   = map[string]*ssa.Function{} // label -> origin function
)

func loadRepo() error {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	if n := packages.PrintErrors(initial); n > 0 {
		return fmt.Errorf("the code does not compile (%d errors)", n)
	}
	p, ps := ssautil.Packages(initial, ssa.BuilderMode(0))
	prog = p
	for _, q := range ps {
		if q != nil {
			pkgs = append(pkgs, q)
		}
	}
	prog.Build()
	for _, q := range pkgs {
		for _, m := range q.Members {
			switch v := m.(type) {
			case *ssa.Function:
				_, k := fnKey(v)
				allFuncs[k] = v
			case *ssa.Type:
				n, ok := types.Unalias(v.Type()).(*types.Named)
				if !ok {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); ok {
					if _, dup := classTypes[n.Obj().Name()]; !dup {
						classTypes[n.Obj().Name()] = n
					}
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil {
						allFuncs[n.Obj().Name()+"."+f.Name()] = origin(f)
					}
				}
			}
		}
	}
	matchMethods()
	return nil
}

// fieldGone: the expression is about a field of self that does not exist
func fieldGone(e *Expr, class string) bool {
	if e.kind == "field" && e.args[0].kind == "name" && e.args[0].name == "self" {
		rc, st := repClass(classTypes[class])
		if st != nil && fieldNamed(rc, st, e.name) == nil {
			return true
		}
	}
	for _, a := range e.args {
		if fieldGone(a, class) {
			return true
		}
	}
	return false
}

// matchMethods: contracts of unexported methods go by the names of the methods. One that has been renamed keeps its
// contract if no other unexported method without a contract has as many parameters and results; one whose parameters
// have been exchanged keeps it by their names; one that is gone or takes something else loses it (its callers are then
// verified with its body).
func matchMethods() {
	for cn, c := range spec.classes {
		n, ok := classTypes[cn].(*types.Named)
		if !ok {
			continue
		}
		if c.private {
			for _, inv := range c.invs {
				inv.dead = fieldGone(inv.expr, cn)
			}
		}
		own := map[string]*types.Signature{}
		for i := 0; i < n.NumMethods(); i++ {
			if m := n.Method(i); !m.Exported() {
				own[m.Name()] = m.Type().(*types.Signature)
			}
		}
		fits := func(con *Contract, sig *types.Signature) bool {
			return sig.Params().Len() == len(con.params) && (len(con.results) == 0 || sig.Results().Len() == len(con.results))
		}
		var lost []string
		for m, con := range c.methods {
			if con.family != "" || token.IsExported(m) {
				continue
			}
			sig := own[m]
			if sig == nil || !fits(con, sig) {
				lost = append(lost, m)
				continue
			}
			names := map[string]bool{}
			var order []string
			for i := 0; i < sig.Params().Len(); i++ {
				names[sig.Params().At(i).Name()] = true
				order = append(order, sig.Params().At(i).Name())
			}
			all := len(names) == len(con.params)
			for _, p := range con.params {
				all = all && names[p]
			}
			if all {
				con.params = order
			}
		}
		sort.Strings(lost)
		found := map[string]*Contract{}
		for _, m := range lost {
			con := c.methods[m]
			delete(c.methods, m)
			cand := ""
			for o, sig := range own {
				if c.methods[o] != nil || !fits(con, sig) {
					continue
				}
				if cand != "" {
					cand = ""
					break
				}
				cand = o
			}
			if cand != "" && found[cand] == nil {
				found[cand] = con
				c.extra[cand] = c.extra[m]
			}
		}
		for o, con := range found {
			c.methods[o] = con
		}
	}
}

// method finds a method of a class, following embedded structs
func methodOf(class, name string) *ssa.Function {
	if f := allFuncs[class+"."+name]; f != nil {
		return f
	}
	t := classTypes[class]
	if t == nil {
		return nil
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if n := structName(s.Field(i).Type()); n != "" && classTypes[n] != nil {
				if f := methodOf(n, name); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// A unit is a function together with a contract it has to meet
type Unit struct {
	label  string
	fn     *ssa.Function
	con    *Contract
	cls    *Class
	extra  []*Clause
	initOf string
	wf     *Family // instead: the class invariant implies what the family promises of every object
}

// wfUnits: every class of a family keeps the family's well-formedness promise
func wfUnits(fam *Family) (us []*Unit) {
	if len(fam.wf) == 0 {
		return
	}
	for _, cn := range classNames() {
		if c := spec.classes[cn]; hasFamily(c, fam.name) && classTypes[cn] != nil {
			us = append(us, &Unit{label: cn + " (as a " + fam.name + ")", con: &Contract{key: "wf", family: fam.name}, cls: c, extra: c.extraFor("wf"), wf: fam})
		}
	}
	return
}

func fieldsOf(class string) (r []*types.Var) {
	_, s := repClass(types.NewPointer(classTypes[class]))
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return
}

func (x *Exec) rootWf(fam *Family) {
	st := newState()
	for n, s := range spec.ghosts {
		st.g[n] = Sym("p!g!"+n, arrOf(s))
	}
	st.alloc = Sym("p!alloc", SInt)
	st.assume(Le(Int(0), st.alloc))
	self := Sym("p!"+x.name+"!self", SInt)
	st.assume(Lt(Int(0), self))
	st.assume(Le(self, st.alloc))
	ct := x.classType(x.cls.name)
	st.assume(Eq(App("dyn", SInt, self), Int(classID(x.cls.name))))
	ev := x.evalFor(st, nil, nil)
	ev.env["self"] = SV{t: self, typ: ct}
	guard := True
	for _, g := range x.cls.guards {
		guard = And(guard, ev.boolTerm(g.expr))
	}
	st.assume(guard)
	x.entry = st
	o := x.openObj(st, self, ct)
	for _, f := range fieldsOf(x.cls.name) {
		if tm, ok := o.fields[f.Name()].(*Term); ok && spec.classes[structName(f.Type())] != nil && x.valid(st, Not(Eq(tm, Int(0)))) {
			x.openObj(st, tm, f.Type())
		}
	}
	for _, e := range x.cls.owns {
		sv := ev.eval(e)
		x.wfFacts(st, sv.t, sv.typ)
	}
	if !x.feasible(st) {
		x.record(&Obl{fn: x.name, label: "the class invariant is satisfiable", goal: False, mode: x.mode, res: Result{answer: "contradictory"}})
		return
	}
	for _, c := range x.extra {
		if c.kind == "assert" && c.active(x.tag) {
			g := ev.boolTerm(c.expr)
			x.emit(st, "assertion: "+c.text, g)
			st.assume(g)
		}
	}
	for i, w := range fam.wf {
		if w.active(x.tag) {
			// without the guard a promise has to be empty
			x.emit(st, fmt.Sprintf("promise #%d of every %s: %s", i+1, fam.name, w.text), ev.boolTerm(w.expr))
			if guard != True {
				st2 := newState()
				for n := range spec.ghosts {
					st2.g[n] = st.g[n]
				}
				st2.assume(Not(guard))
				ev2 := x.evalFor(st2, nil, nil)
				ev2.env["self"] = SV{t: self, typ: ct}
				x.emit(st2, fmt.Sprintf("promise #%d of every %s, out of date: %s", i+1, fam.name, w.text), ev2.boolTerm(w.expr))
			}
		}
	}
}

// unitsFor lists what has to be verified so that a contract may be relied on
func unitsFor(label string) (us []*Unit, missing []string) {
	if strings.HasPrefix(label, "var ") {
		con := spec.funcs[label]
		if con == nil {
			return nil, []string{label + " (no contract)"}
		}
		if con.flags["trusted"] {
			return nil, nil
		}
		v := realVar(label[4:])
		if v == "" {
			return nil, []string{label}
		}
		fn := allFuncs[v[:strings.IndexByte(v, '.')]+".init"]
		if v[:strings.IndexByte(v, '.')] == "graphblas" {
			fn = allFuncs["init"]
		}
		if fn == nil || fn.Pkg.Members[v[strings.IndexByte(v, '.')+1:]] == nil {
			return nil, []string{label}
		}
		return []*Unit{{label: label, fn: fn, con: con, initOf: v}}, nil
	}
	if i := strings.IndexByte(label, '^'); i >= 0 {
		// the method is the one of the embedded object
		if allFuncs[label[:i]+"."+label[i+1:]] != nil {
			return nil, []string{"the inherited method " + label[i+1:] + " of " + label[:i]}
		}
		return nil, nil
	}
	if i := strings.IndexByte(label, '.'); i >= 0 {
		head, m := label[:i], label[i+1:]
		if fam := spec.families[head]; fam != nil {
			us = append(us, wfUnits(fam)...)
			con := fam.methods[m]
			if con == nil {
				return us, nil
			}
			for _, cn := range classNames() {
				c := spec.classes[cn]
				for _, f := range c.families {
					if f != head {
						continue
					}
					if classTypes[cn] == nil {
						missing = append(missing, "type "+cn)
						continue
					}
					if !hasMethod(cn, m) {
						continue
					}
					fn := methodOf(cn, m)
					own := structName(fn.Signature.Recv().Type())
					if own != cn && spec.classes[own] != nil && hasFamily(spec.classes[own], head) {
						continue // promoted from a class of its own
					}
					us = append(us, &Unit{label: cn + "." + m, fn: fn, con: con, cls: c, extra: c.extraFor(m)})
				}
			}
			return
		}
		if c := spec.classes[head]; c != nil {
			fn := methodOf(head, m)
			if fn == nil {
				return nil, []string{label}
			}
			con := spec.contractFor(head, m)
			if con == nil {
				return nil, []string{label + " (no contract)"}
			}
			if con.family != "" {
				return unitsFor(con.family + "." + m)
			}
			us = append(us, &Unit{label: label, fn: fn, con: con, cls: c, extra: c.extraFor(m)})
			for _, f := range c.families {
				if spec.families[f].methods[m] != nil {
					us2, m2 := unitsFor(f + "." + m)
					us = append(us, us2...)
					missing = append(missing, m2...)
				}
			}
			return
		}
	}
	con := spec.funcs[label]
	if con == nil {
		return nil, []string{label + " (no contract)"}
	}
	if con.flags["trusted"] {
		return nil, nil
	}
	fn := allFuncs[label]
	if fn == nil {
		return nil, []string{label}
	}
	return []*Unit{{label: label, fn: fn, con: con}}, nil
}

func hasFamily(c *Class, f string) bool {
	for _, g := range c.families {
		if g == f {
			return true
		}
	}
	return false
}

func hasMethod(class, m string) bool { return methodOf(class, m) != nil }

func classNames() []string {
	var r []string
	for n := range spec.classes {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

type UnitResult struct {
	unit  *Unit
	obls  []*Obl
	used  []string
	err   string
	rets  int
	wall  time.Duration
	steps int
}

func verifyUnit(u *Unit, tag, mode string, frames bool) (res *UnitResult) {
	t0 := time.Now()
	x := &Exec{fn: u.fn, name: u.label, con: u.con, cls: u.cls, tag: tag, mode: mode, initOf: u.initOf, frames: frames, used: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{},
		surv: map[string]map[string]bool{}, extra: u.extra, params: map[string]SV{}}
	if u.con != nil {
		for _, m := range []string{"ring", "field"} {
			if u.con.flags[m] {
				x.mode = m
			}
		}
		var op []string
		for f := range u.con.flags {
			if n, ok := strings.CutPrefix(f, "opaque:"); ok {
				op = append(op, n)
			}
		}
		if sort.Strings(op); len(op) > 0 {
			x.mode += "#" + strings.Join(op, ",")
		}
	}
	res = &UnitResult{unit: u}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupportedErr:
					res.err = "outside the verifier's reach: " + e.msg
				default:
					res.err = fmt.Sprintf("verifier failure: %v", r)
					if os.Getenv("GOVER_TRACE") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		if u.wf != nil {
			x.rootWf(u.wf)
			return
		}
		x.root()
	}()
	x.wg.Wait()
	res.obls = x.obls
	res.rets = x.rets
	res.steps = x.steps
	for n := range x.used {
		res.used = append(res.used, n)
	}
	sort.Strings(res.used)
	res.wall = time.Since(t0)
	return res
}

func (x *Exec) root() {
	st := newState()
	for n, s := range spec.ghosts {
		st.g[n] = Sym("p!g!"+n, arrOf(s))
	}
	st.alloc = Sym("p!alloc", SInt)
	st.assume(Le(Int(0), st.alloc))
	sig := x.fn.Signature
	f := x.fn
	var args []Val
	ev := x.evalFor(st, nil, nil)
	addParam := func(name string, p *ssa.Parameter, recv bool) {
		t := types.Unalias(p.Type())
		var v Val
		if elem, ok := isSlice(t); ok {
			n := Sym("p!"+name+".len", SInt)
			st.assume(Le(Int(0), n))
			sl := x.newArr(st, elem, n, false)
			a := st.arrs[sl.arr]
			a.param = name
			a.content = Sym("p!"+name, a.content.sort)
			if a.nested {
				a.rowlen = Sym("p!"+name+".rl", SInts)
				bv := x.bvar("i", SInt)
				st.assume(Forall([]*Term{bv}, Le(Int(0), Select(a.rowlen, bv)), []*Term{Select(a.rowlen, bv)}))
			}
			v = sl
		} else if _, isTP := t.(*types.TypeParam); isTP {
			v = Sym("p!"+name, ST)
		} else {
			switch u := t.Underlying().(type) {
			case *types.Signature:
				v = &UnkFn{name: name, term: Sym("p!"+name, SInt), sig: u}
			case *types.Chan:
				v = &ChanVal{kind: "chan", ref: Sym("p!"+name, SInt)}
			case *types.Struct:
				sv := x.havocVal(st, t, "p."+name)
				v = sv
			default:
				s := Sym("p!"+name, x.sortOf(t))
				if s.sort == SInt && isRefType(t) {
					s = Sym("p!"+x.name+"!"+name, SInt)
				}
				x.refFact(st, t, s)
				v = s
			}
		}
		args = append(args, v)
		sv := ev.valSV(v, p.Type())
		if recv {
			st.assume(Lt(Int(0), v.(*Term)))
			if x.cls != nil {
				// the receiver is an object of this class
				ct := x.classType(x.cls.name)
				if structName(p.Type()) == x.cls.name {
					st.assume(dynFact(v.(*Term), x.cls.name))
				}
				_ = ct
				for _, n := range x.cls.attrOrd {
					if e := x.cls.attrs[n]; e.kind == "name" {
						st.assume(Eq(App(n, SBool, v.(*Term)), Bool(e.name == "true")))
					}
				}
			}
		}
		x.params[name] = sv
		x.pnames = append(x.pnames, name)
		ev.env[name] = sv
		if tm, ok := v.(*Term); ok {
			x.wfFacts(st, tm, p.Type())
		}
	}
	ps := f.Params
	if sig.Recv() != nil {
		addParam("self", ps[0], true)
		ps = ps[1:]
	}
	names := x.paramNames(x.con, sig)
	for i, p := range ps {
		addParam(names[i], p, false)
	}
	ev.old = st
	for _, c := range x.con.of("requires", x.tag) {
		st.assume(ev.boolTerm(c.expr))
	}
	// the precondition must be satisfiable as far as the solver can tell
	if !x.feasible(st) {
		x.record(&Obl{fn: x.name, label: "the precondition is satisfiable", goal: False, mode: x.mode, res: Result{answer: "contradictory"}})
		return
	}
	x.entry = st.clone()
	if sig.Recv() != nil && x.cls != nil {
		if rt := f.Params[0].Type(); structName(rt) != "" {
			if c, _ := repClass(rt); spec.classes[c] != nil {
				x.openObj(st, args[0].(*Term), rt)
				for _, e := range x.cls.owns {
					sv := x.entryEnv(nil).eval(e)
					x.openObj(st, sv.t, sv.typ)
				}
			}
		}
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	fr.ret = func(st *State, v Val) {
		x.rets++
		if !x.live && x.muted == 0 {
			x.live = x.feasible(st)
		}
		q := x.quiet
		x.quiet = 0
		x.checkPost(st, v)
		x.quiet = q
	}
	fr.kpanic = func(st *State) { x.checkPanic(st) }
	st.frames = append(st.frames, fr)
	x.jump(st, f.Blocks[0], nil)
	if !x.live && x.muted == 0 {
		x.record(&Obl{fn: x.name, label: "some path returns", goal: False, mode: x.mode, res: Result{answer: "no path returns"}})
	}
}

// refold: what an object says of the objects it owns is brought up to date
func (x *Exec) refold(st *State) {
	if x.cls == nil || len(x.cls.owns) == 0 || x.params["self"].t == nil {
		return
	}
	self := x.params["self"]
	changed := st.g["ver"] != x.entry.g["ver"]
	for _, o := range st.open {
		changed = changed || o.dirty
	}
	if !changed {
		return
	}
	for _, e := range x.cls.owns {
		ev := x.entryEnv(nil)
		sv := ev.eval(e)
		if classTypes[structName(sv.typ)] != nil {
			x.openObj(st, sv.t, sv.typ).dirty = true
		}
	}
	x.openObj(st, self.t, self.typ).dirty = true
}

func (x *Exec) postEnv(st *State) *Eval {
	ev := x.evalFor(st, x.entry, nil)
	for n, v := range x.params {
		if s, ok := v.v.(*SliceVal); ok {
			ev.env[n] = ev.valSV(s, v.typ)
			continue
		}
		ev.env[n] = v
	}
	return ev
}

func (x *Exec) panicCond() *Term {
	ev := x.evalFor(x.entry, x.entry, nil)
	for n, v := range x.params {
		ev.env[n] = v
	}
	p := False
	for _, c := range x.con.of("panics", x.tag) {
		p = Or(p, ev.boolTerm(c.expr))
	}
	return p
}

func (x *Exec) checkPanic(st *State) {
	if st.contradictory() {
		return
	}
	x.emit(st, "panics only when its contract says so", x.panicCond())
	// and then nothing has been changed
	for r, o := range st.open {
		if o.dirty && !o.stack && !(r.op == "sym" && strings.HasPrefix(r.name, "new!")) {
			x.emit(st, "nothing is changed before a panic", False)
		}
	}
	x.checkFrame(st, nil, nil, "nothing is changed before a panic")
}

// assignedElsewhere: a function other than the initialisation stores into the variable
func assignedElsewhere(v string) string {
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg.Pkg.Name()+"."+g.Name() == v {
						if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
							return f.String()
						}
					}
				}
			}
		}
	}
	return ""
}

func (x *Exec) checkPost(st *State, v Val) {
	if st.contradictory() {
		return
	}
	if x.initOf != "" {
		t := st.ghostT["G."+x.initOf]
		if t == nil {
			panic(unsupported("the variable %s is not set by its package's initialisation", x.initOf))
		}
		if f := assignedElsewhere(x.initOf); f != "" {
			panic(unsupported("the variable %s is used in another way in %s", x.initOf, f))
		}
		x.foldAll(st)
		ev := x.postEnv(st)
		ev.env["it"] = SV{t: t, typ: types.Unalias(prog.ImportedPackage(x.fn.Pkg.Pkg.Path()).Var(x.initOf[strings.IndexByte(x.initOf, '.')+1:]).Type()).(*types.Pointer).Elem()}
		for _, c := range x.con.of("ensures", x.tag) {
			x.emit(st, fmt.Sprintf("initial value #%d: %s", c.idx, c.text), ev.boolTerm(c.expr))
		}
		return
	}
	sig := x.fn.Signature
	n := sig.Results().Len()
	names := resultNames(x.con, n)
	var vals []Val
	switch n {
	case 0:
	case 1:
		vals = []Val{v}
	default:
		vals = []Val(v.(Tuple))
	}
	pcnd := x.panicCond()
	x.emit(st, "panics whenever its contract says so", Not(pcnd))
	// the calls of function arguments
	outs := map[string]SV{}
	cs := x.con.of("calls", x.tag)
	if x.con.flags["purefn"] {
		cs = nil
	}
	if len(cs) != len(st.calls) && !x.con.flags["anycalls"] {
		x.emit(st, fmt.Sprintf("the function argument is called exactly once (called %d times)", len(st.calls)), False)
		return
	}
	for i, c := range cs {
		if i >= len(st.calls) {
			break
		}
		r := st.calls[i]
		ev := x.evalFor(x.entry, x.entry, nil)
		for n, v := range x.params {
			ev.env[n] = v
		}
		for n, v := range outs {
			ev.env[n] = v
		}
		isOut := map[string]bool{}
		for _, o := range c.outs {
			isOut[o] = true
		}
		for j, a := range c.exprs {
			if a.kind == "name" && isOut[a.name] && ev.env[a.name].t == nil {
				ev.env[a.name] = SV{t: r.args[j].(*Term)}
				outs[a.name] = ev.env[a.name]
				continue
			}
			x.emit(st, fmt.Sprintf("argument %d of the function argument", j+1), Eq(r.args[j].(*Term), ev.term(a)))
		}
		x.emit(st, "arguments of the function argument: "+exprText(c), ev.boolTerm(c.expr))
		if t, ok := r.res.(*Term); ok {
			outs[c.metaT["y"]] = SV{t: t}
		}
	}
	// ghost choices that depend on the results come before objects are closed
	x.foldMost(st)
	ev := x.postEnv(st)
	for n, v := range outs {
		ev.env[n] = v
	}
	for i, val := range vals {
		ev.env[names[i]] = ev.valSV(val, sig.Results().At(i).Type())
	}
	for _, c := range x.allOf("choose") {
		ref := ev.term(c.exprs[0].args[0])
		g := c.exprs[0].name
		st.g[g] = Store(st.g[g], ref, ev.term(c.expr))
		if sv := ev.eval(c.exprs[0].args[0]); classTypes[structName(sv.typ)] != nil {
			x.openObj(st, ref, sv.typ).dirty = true
		}
	}
	x.refold(st)
	x.foldAll(st)
	for i, val := range vals {
		ev.env[names[i]] = ev.valSV(val, sig.Results().At(i).Type())
	}
	for n, v := range x.params {
		if s, ok := v.v.(*SliceVal); ok {
			ev.env[n] = ev.valSV(s, v.typ)
		}
	}
	// what is known of the objects involved
	for n, v := range ev.env {
		if v.t != nil && v.typ != nil && n != "" {
			x.wfFacts(st, v.t, v.typ)
		}
	}
	ev.proving = true
	for _, c := range x.allOf("assert") {
		x.emit(st, fmt.Sprintf("assertion: %s", c.text), ev.boolTerm(c.expr))
	}
	for _, c := range x.con.of("ensures", x.tag) {
		x.emit(st, fmt.Sprintf("postcondition #%d: %s", c.idx, c.text), ev.boolTerm(c.expr))
	}
	x.checkFolds(st, ev, func(st *State) {
		x.foldAll(st)
		mods, mp := x.modifies(x.con, x.entryEnv(outs), x.tag)
		x.checkFrame(st, mods, mp, "changes only what its contract allows")
	})
}

func exprText(c *Clause) string { return c.text }

func (x *Exec) allOf(kind string) []*Clause {
	r := append([]*Clause(nil), x.con.of(kind, x.tag)...)
	for _, c := range x.extra {
		if c.kind == kind && c.active(x.tag) {
			r = append(r, c)
		}
	}
	return r
}

func (x *Exec) entryEnv(outs map[string]SV) *Eval {
	ev := x.evalFor(x.entry, x.entry, nil)
	for n, v := range x.params {
		ev.env[n] = v
	}
	for n, v := range outs {
		ev.env[n] = v
	}
	return ev
}

// foldMost folds the objects other than iterators
func (x *Exec) foldMost(st *State) {
	for {
		var pick *ObjRec
		for _, o := range st.open {
			c := strings.ToLower(o.class)
			if o.dirty && !o.stack && !strings.Contains(c, "iterator") && !strings.Contains(c, "map") && (pick == nil || lessRef(o, pick)) {
				pick = o
			}
		}
		if pick == nil {
			return
		}
		x.foldObj(st, pick)
	}
}

func (x *Exec) checkFrame(st *State, mods []modTarget, mparams map[string]bool, label string) {
	owned := map[*Term]bool{}
	if x.cls != nil && x.params["self"].t != nil {
		for _, e := range x.cls.owns {
			ev := x.entryEnv(nil)
			owned[ev.term(e)] = true
		}
	}
	var names []string
	for n := range st.g {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if spec.aux[n] {
			continue
		}
		t := st.g[n]
		e := x.entry.g[n]
		seen := map[*Term]bool{}
		for t != e {
			if t.op != "store" {
				panic(unsupported("ghost state %s has an unknown form", n))
			}
			r := t.args[1]
			t = t.args[0]
			if seen[r] {
				continue
			}
			seen[r] = true
			if r.op == "sym" && strings.HasPrefix(r.name, "new!") || owned[r] {
				continue
			}
			ok := False
			allowed := false
			for _, m := range mods {
				if m.ghost == n {
					if m.ref == r {
						allowed = true
					}
					ok = Or(ok, Eq(m.ref, r))
				}
			}
			if allowed {
				continue
			}
			ok = Or(ok, Lt(x.entry.alloc, r), Eq(Select(st.g[n], r), Select(e, r)))
			for o := range owned {
				ok = Or(ok, Eq(o, r))
			}
			x.emit(st, label+" ("+n+")", ok)
		}
	}
	for k := range st.valid {
		if strings.HasPrefix(k, "pw ") && !mparams[k[3:]] {
			x.emit(st, label+" (elements of "+k[3:]+")", False)
		}
	}
}

// ---- a whole property ----

type PropResult struct {
	prop    *PropDef
	units   []*UnitResult
	lemmas  []*Obl
	failed  []*Obl
	errs    []string
	missing []string
}

// verifyProp: the invariants of a private class (an iterator) are not what is promised, but a means of proof. Where
// some of them do not hold of the code as it is now, those that do are looked for among them and their alternatives.
func verifyProp(p *PropDef) *PropResult {
	t0 := time.Now()
	first := verifyPropOnce(p)
	classes := map[string]bool{}
	concerned := func(pr *PropResult) (dropped bool) {
		for _, o := range pr.failed {
			var cn string
			var idx int
			if f := strings.TrimPrefix(o.label, "invariant "); f != o.label {
				if i := strings.IndexByte(f, '#'); i > 0 {
					cn = f[:i]
					fmt.Sscanf(f[i+1:], "%d", &idx)
				}
			} else if i := strings.IndexByte(o.fn, '.'); i > 0 {
				cn = o.fn[:i]
			}
			c := spec.classes[cn]
			if c == nil || !c.private || len(c.invs) == 0 {
				continue
			}
			classes[cn] = true
			for _, inv := range c.invs {
				if idx > 0 && inv.idx == idx && !inv.off {
					inv.off = true
					dropped = true
				}
			}
		}
		return
	}
	if len(first.errs) > 0 {
		return first
	}
	concerned(first)
	if len(classes) == 0 {
		return first
	}
	for cn := range classes {
		for _, inv := range spec.classes[cn].invs {
			inv.off = false
		}
	}
	for n := 0; n < 8 && time.Since(t0) < 6*time.Minute; n++ {
		pr := verifyPropOnce(p)
		if len(pr.failed) == 0 && len(pr.errs) == 0 {
			return pr
		}
		if os.Getenv("GOVER_ROUNDS") != "" {
			for _, o := range pr.failed {
				fmt.Fprintln(os.Stderr, "round", n+2, o.fn, o.label, o.res.answer)
			}
			fmt.Fprintln(os.Stderr, "round", n+2, pr.errs)
		}
		if len(pr.errs) > 0 || !concerned(pr) {
			break
		}
	}
	return first
}

func verifyPropOnce(p *PropDef) *PropResult {
	pr := &PropResult{prop: p}
	done := map[string]bool{}
	doneUnit := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	lemmaDone := map[string]bool{}
	roots := map[string]bool{}
	for _, r := range p.roots {
		roots[r] = true
	}
	var add func(label string)
	add = func(label string) {
		mu.Lock()
		if done[label] {
			mu.Unlock()
			return
		}
		done[label] = true
		us, missing := unitsFor(label)
		for _, m := range missing {
			pr.missing = append(pr.missing, m)
		}
		var todo []*Unit
		for _, u := range us {
			k := u.label + "|" + u.con.family + "." + u.con.key
			if !doneUnit[k] {
				doneUnit[k] = true
				todo = append(todo, u)
			}
		}
		mu.Unlock()
		for _, u := range todo {
			u := u
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				r := verifyUnit(u, p.id, p.mode, p.frames && !roots[u.label])
				<-sem
				mu.Lock()
				pr.units = append(pr.units, r)
				mu.Unlock()
				for _, l := range r.used {
					add(l)
				}
			}()
		}
	}
	for _, r := range p.roots {
		add(r)
	}
	wg.Wait()
	_ = lemmaDone
	pr.lemmas = proveLemmas(p.mode)
	for _, m := range []string{"ring", "field"} {
		for _, u := range pr.units {
			if u.unit.con != nil && u.unit.con.flags[m] && p.mode != m {
				pr.lemmas = append(pr.lemmas, proveLemmas(m)...)
				break
			}
		}
	}
	sort.Slice(pr.units, func(i, j int) bool { return pr.units[i].unit.label < pr.units[j].unit.label })
	for _, o := range pr.lemmas {
		if !o.res.ok {
			pr.failed = append(pr.failed, o)
		}
	}
	checkRecursion(pr)
	for _, u := range pr.units {
		if u.err != "" {
			pr.errs = append(pr.errs, u.unit.label+": "+u.err)
		}
		for _, o := range u.obls {
			if !o.res.ok {
				pr.failed = append(pr.failed, o)
			}
		}
	}
	for _, m := range pr.missing {
		pr.errs = append(pr.errs, "not in the code any more: "+m)
	}
	return pr
}

// lemmas about the theory are proved on every run, by induction where needed
func proveLemmas(mode string) []*Obl {
	var out []*Obl
	var wg sync.WaitGroup
	for _, l := range spec.lemmas {
		if !inMode(l.mode, mode) {
			continue
		}
		l := l
		o := &Obl{fn: "lemma " + l.name, label: "lemma " + l.name, mode: mode}
		out = append(out, o)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if mode == "field" { // with more of the theory than the code's own obligations get
				o.res = proveLemma(l, "fieldx")
				if !o.res.ok {
					o.res = proveLemma(l, "fieldmul")
				}
				return
			}
			o.res = proveLemma(l, mode)
		}()
	}
	for _, a := range spec.arith {
		a := a
		o := &Obl{fn: "arithmetic", label: "arithmetic: " + a.text, mode: "arith"}
		out = append(out, o)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					o.res = Result{answer: fmt.Sprint(r)}
				}
			}()
			q := parseExpr(a.text, a.where)
			x := &Exec{name: "arithmetic", mode: "arith", used: map[string]bool{}}
			ev := &Eval{x: x, env: map[string]SV{}}
			for _, v := range q.vars {
				ev.env[v.name] = SV{t: Sym("sk!"+v.name, v.sort)}
			}
			o.res = prove("arith", nil, ev.boolTerm(q.args[0]), 2)
		}()
	}
	wg.Wait()
	return out
}

func proveLemma(l *LemmaDef, mode string) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			res = Result{answer: fmt.Sprint(r)}
		}
	}()
	mode = fmt.Sprintf("%s@%d", mode, l.idx)
	x := &Exec{name: l.name, mode: mode, used: map[string]bool{}}
	ev := &Eval{x: x, env: map[string]SV{}}
	sk := map[string]*Term{}
	for _, v := range l.vars {
		t := Sym("sk!"+v.name, v.sort)
		sk[v.name] = t
		ev.env[v.name] = SV{t: t}
	}
	goal := ev.boolTerm(l.ens)
	if l.induct == "" {
		return prove(mode, nil, goal, 2)
	}
	// induction on an integer: base k <= 0 (all of it), step from k-1 to k, other variables general
	k := sk[l.induct]
	r1 := prove(mode, []*Term{Le(k, Int(0))}, goal, 2)
	if !r1.ok {
		r1.answer = "base case: " + r1.answer
		return r1
	}
	ev2 := &Eval{x: x, env: map[string]SV{}}
	var bvs []*Term
	for _, v := range l.vars {
		if v.name == l.induct {
			ev2.env[v.name] = SV{t: Sub(k, Int(1))}
			continue
		}
		b := BVar(v.name+"?ih", v.sort)
		bvs = append(bvs, b)
		ev2.env[v.name] = SV{t: b}
	}
	ih := ev2.boolTerm(l.ens)
	var pats [][]*Term
	for _, p := range l.pats {
		var ts []*Term
		for _, q := range p {
			ts = append(ts, ev2.term(q))
		}
		if validPattern(ts, bvs) {
			pats = append(pats, ts)
		}
	}
	var as []*Term
	as = append(as, Lt(Int(0), k))
	as = append(as, Forall(bvs, ih, pats...))
	// the induction hypothesis for the same values
	ev3 := &Eval{x: x, env: map[string]SV{}}
	for _, v := range l.vars {
		ev3.env[v.name] = SV{t: sk[v.name]}
	}
	ev3.env[l.induct] = SV{t: Sub(k, Int(1))}
	as = append(as, ev3.boolTerm(l.ens))
	r2 := prove(mode, as, goal, 2)
	r2.dur += r1.dur
	if !r2.ok {
		r2.answer = "induction step: " + r2.answer
	}
	return r2
}

func (c *Class) extraFor(m string) []*Clause {
	return append(append([]*Clause(nil), c.extra[m]...), c.extra["*"]...)
}
