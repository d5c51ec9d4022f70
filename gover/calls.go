package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(st, a))
	}
	if c.IsInvoke() {
		return x.get(st, c.Value), args
	}
	return x.get(st, c.Value), args
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// fnKey names a function the way contracts do
func fnKey(fn *ssa.Function) (class, key string) {
	fn = origin(fn)
	if r := fn.Signature.Recv(); r != nil {
		return structName(r.Type()), fn.Name()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "graphblas" {
		return "", fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return "", fn.Name()
}

func (s *Spec) contractFor(class, name string) *Contract {
	if class == "" {
		return s.funcs[name]
	}
	c := s.classes[class]
	if c == nil {
		return nil
	}
	if m, ok := c.methods[name]; ok {
		return m
	}
	for _, f := range c.families {
		if m, ok := s.families[f].methods[name]; ok {
			return m
		}
	}
	return nil
}

// small straight-line functions are entered, not summarised
func simpleFn(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 || len(fn.Blocks[0].Instrs) > 14 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch q := in.(type) {
		case *ssa.Call:
			if q.Call.IsInvoke() {
				return false
			}
			if f, ok := q.Call.Value.(*ssa.Function); ok {
				if !simpleFn(origin(f)) {
					return false
				}
			} else if _, ok := q.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.MakeSlice:
			return false
		}
	}
	return true
}

func (x *Exec) use(name string) {
	x.mu.Lock()
	x.used[name] = true
	x.mu.Unlock()
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fv Val, args []Val, k func(*State, Val), where string) {
	sig := c.Signature()
	if c.IsInvoke() {
		recv, ok := fv.(*Term)
		if !ok {
			panic(unsupported("method %s of a %T", c.Method.Name(), fv))
		}
		in := isIfaceNamed(c.Value.Type())
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && in == "Type" {
			k(st, x.typeMethod(st, c.Method.Name(), recv, where))
			return
		}
		if in == "" || types.Unalias(c.Value.Type()).(*types.Named).Obj().Pkg().Path() == "context" || in == "Context" {
			x.ctxMethod(st, c, recv, args, k, where)
			return
		}
		x.nonNil(st, recv, "method "+c.Method.Name()+" at "+where)
		fam := spec.famOf[in]
		if fam == "" {
			panic(unsupported("interface %s has no contract", in))
		}
		con := spec.families[fam].methods[c.Method.Name()]
		if con == nil {
			panic(unsupported("method %s.%s has no contract", in, c.Method.Name()))
		}
		x.applyContract(st, con, SV{t: recv, typ: c.Value.Type(), v: recv}, args, sig, k, where, fam+"."+con.key)
		return
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		x.builtin(st, f.Name(), c, args, k, where)
		return
	case *Closure:
		x.callFn(st, f, args, sig, k, where)
		return
	case *UnkFn:
		x.callUnknown(st, f, args, k, where)
		return
	case NilFn:
		x.emit(st, "no call of a nil function at "+where, False)
		return
	}
	panic(unsupported("call of a %T at %s", fv, where))
}

func (x *Exec) callFn(st *State, f *Closure, args []Val, sig *types.Signature, k func(*State, Val), where string) {
	fn := f.fn
	inst := fn
	fn = origin(fn)
	if len(f.binds) == 0 && fn.Parent() == nil {
		if x.external(st, fn, inst, args, sig, k, where) {
			return
		}
		class, name := fnKey(fn)
		if fn.Synthetic != "" && fn.Signature.Recv() != nil && fn.Blocks != nil && strings.Contains(fn.Synthetic, "wrapper") {
			x.call(st, fn, args, nil, k, where)
			return
		}
		con := spec.contractFor(class, name)
		if con != nil && !simpleFn(fn) {
			label := name
			var self SV
			a := args
			if class != "" {
				label = class + "." + name
				recv, ok := args[0].(*Term)
				if !ok {
					panic(unsupported("receiver of %s is a %T", label, args[0]))
				}
				self = SV{t: recv, typ: fn.Signature.Recv().Type(), v: recv}
				a = args[1:]
				x.nonNil(st, recv, "method "+label+" at "+where)
			}
			x.applyContract(st, con, self, a, fn.Signature, k, where, label)
			return
		}
	}
	x.call(st, fn, args, f.binds, k, where)
}

func sortsKey(args []*Term) string {
	s := ""
	for _, a := range args {
		s += sortKey(a.sort)
	}
	return s
}
func sortKey(s Sort) string {
	switch s {
	case SInt:
		return "I"
	case SBool:
		return "B"
	case ST:
		return "T"
	case SStr:
		return "S"
	}
	return "A"
}

func (x *Exec) callUnknown(st *State, f *UnkFn, args []Val, k func(*State, Val), where string) {
	if strings.HasPrefix(f.name, "field:") || x.pureParam(f.name) {
		x.nonNilFn(st, f, where)
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				panic(unsupported("function value called with a %T", a))
			}
			ts = append(ts, t)
		}
		if f.sig.Results().Len() != 1 {
			panic(unsupported("function value without one result"))
		}
		rs := x.sortOf(f.sig.Results().At(0).Type())
		name := "fap_" + sortsKey(ts) + "_" + sortKey(rs)
		k(st, App(name, rs, append([]*Term{f.term}, ts...)...))
		return
	}
	if x.visit(st, f, args, k, where) {
		return
	}
	if x.mark != nil || x.worker != nil {
		panic(unsupported("a parameter function is called while goroutines run"))
	}
	x.nonNilFn(st, f, where)
	var res Val
	switch f.sig.Results().Len() {
	case 0:
	case 1:
		res = x.havocVal(st, f.sig.Results().At(0).Type(), "called."+f.name)
	default:
		panic(unsupported("parameter function with several results"))
	}
	g := map[string]*Term{}
	for n, t := range st.g {
		g[n] = t
	}
	st.calls = append(st.calls[:len(st.calls):len(st.calls)], CallRec{args: args, res: res, g: g, fn: f.name})
	k(st, res)
}

func (x *Exec) pureParam(n string) bool {
	return x.con != nil && x.con.flags["purefn"]
}

func (x *Exec) nonNilFn(st *State, f *UnkFn, where string) {}

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, k func(*State, Val), where string) {
	switch name {
	case "len":
		switch s := args[0].(type) {
		case *SliceVal:
			k(st, s.len)
			return
		case *Term:
			if s.sort == SStr {
				k(st, App("slen", SInt, s))
				return
			}
		}
	case "cap":
		if s, ok := args[0].(*SliceVal); ok {
			n := x.fresh("cap", SInt)
			st.assume(Le(s.len, n))
			k(st, n)
			return
		}
	case "append":
		if s, ok := args[0].(*SliceVal); ok {
			if t, ok := args[1].(*SliceVal); ok {
				k(st, x.appendVal(st, s, t, where))
				return
			}
		}
	case "delete":
		if m, ok := args[0].(*Term); ok && isRegistryType(c.Args[0].Type()) {
			x.mapDelete(st, m, args[1].(*Term))
			k(st, nil)
			return
		}
	case "copy":
		if d, ok := args[0].(*SliceVal); ok {
			if s, ok := args[1].(*SliceVal); ok {
				k(st, x.copyVal(st, d, s))
				return
			}
		}
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0].(*Term), args[1].(*Term)
			if a.sort == SInt {
				if name == "min" {
					k(st, Ite(Le(a, b), a, b))
				} else {
					k(st, Ite(Le(a, b), b, a))
				}
				return
			}
			if a.sort == ST {
				k(st, App("t"+name, ST, a, b))
				return
			}
		}
	case "close":
		x.closeChan(st, args[0])
		k(st, nil)
		return
	case "panic":
		x.doPanic(st, where)
		return
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	}
	panic(unsupported("builtin %s at %s", name, where))
}

// append returns a slice over a new array; the array of the first operand may have been written
func (x *Exec) appendVal(st *State, s, t *SliceVal, where string) Val {
	if _, nested := isSlice(s.elem); nested {
		panic(unsupported("append to a slice of slices"))
	}
	sc, tc := x.sliceContent(st, s), x.sliceContent(st, t)
	n := Add(s.len, t.len)
	res := x.newArr(st, s.elem, n, false)
	K := st.arrs[res.arr].content
	small := func(l *Term) (int64, bool) {
		if l.op == "int" && l.ival <= 4 {
			return l.ival, true
		}
		return 0, false
	}
	if sn, ok := small(s.len); ok {
		if tn, ok := small(t.len); ok {
			c := App("constzero", K.sort)
			for i := int64(0); i < sn; i++ {
				c = Store(c, Int(i), Select(sc, Add(s.off, Int(i))))
			}
			for i := int64(0); i < tn; i++ {
				c = Store(c, Int(sn+i), Select(tc, Add(t.off, Int(i))))
			}
			st.arrs[res.arr].content = c
			goto poison
		}
	}
	{
		seg := func(src, off, base, l *Term) {
			if ln, ok := small(l); ok {
				for i := int64(0); i < ln; i++ {
					st.assume(Eq(Select(K, Add(base, Int(i))), Select(src, Add(off, Int(i)))))
				}
				return
			}
			i := x.bvar("i", SInt)
			in := And(Le(base, i), Lt(i, Add(base, l)))
			rhs := Select(src, Add(Sub(i, base), off))
			st.assume(Forall([]*Term{i}, Implies(in, Eq(Select(K, i), rhs)), []*Term{Select(K, i)}))
			if src.op == "sym" || src.op == "app" || src.op == "select" {
				j := x.bvar("j", SInt)
				in2 := And(Le(off, j), Lt(j, Add(off, l)))
				st.assume(Forall([]*Term{j}, Implies(in2, Eq(Select(K, Add(Sub(j, off), base)), Select(src, j))), []*Term{Select(src, j)}))
			}
		}
		seg(sc, s.off, Int(0), s.len)
		seg(tc, t.off, s.len, t.len)
	}
poison:
	if s.arr != 0 {
		a, id, row := x.arrOfSlice(st, s)
		x.logArr(id)
		if row != nil {
			// appending to a row may write behind it
			a.poisoned = true
		} else if a.param != "" {
			a.poisoned = true
			st.valid["pw "+a.param] = true
		} else {
			a.poisoned = true
		}
	}
	return res
}

func (x *Exec) copyVal(st *State, d, s *SliceVal) Val {
	n := Ite(Le(d.len, s.len), d.len, s.len)
	if d.arr == 0 || s.arr == 0 {
		return n
	}
	if _, nested := isSlice(d.elem); nested {
		panic(unsupported("copy of a slice of slices"))
	}
	sc := x.sliceContent(st, s)
	a, id, row := x.useArr(st, d, "write")
	x.logArr(id)
	if a.owner != nil {
		if o := st.open[a.owner]; o != nil {
			o.dirty = true
			x.logTouch(a.owner)
		}
	} else if a.param != "" {
		x.logParamWrite(st, a.param)
	}
	oldc := a.content
	if row != nil {
		oldc = Select(a.content, row)
	}
	K := x.fresh("copied", oldc.sort)
	i := x.bvar("i", SInt)
	in := And(Le(d.off, i), Lt(i, Add(d.off, n)))
	st.assume(Forall([]*Term{i}, Eq(Select(K, i), Ite(in, Select(sc, Add(Sub(i, d.off), s.off)), Select(oldc, i))), []*Term{Select(K, i)}))
	// the same, from the positions the elements are taken from
	simple := func(t *Term) bool { return t.op == "sym" || t.op == "app" || t.op == "select" }
	if simple(sc) {
		j := x.bvar("j", SInt)
		from := And(Le(s.off, j), Lt(j, Add(s.off, n)))
		st.assume(Forall([]*Term{j}, Implies(from, Eq(Select(K, Add(Sub(j, s.off), d.off)), Select(sc, j))), []*Term{Select(sc, j)}))
	}
	if simple(oldc) {
		j := x.bvar("j", SInt)
		out := Or(Lt(j, d.off), Le(Add(d.off, n), j))
		st.assume(Forall([]*Term{j}, Implies(out, Eq(Select(K, j), Select(oldc, j))), []*Term{Select(oldc, j)}))
	}
	if row != nil {
		a.content = Store(a.content, row, K)
	} else {
		a.content = K
	}
	return n
}

// external models the few functions of other packages the code uses
func (x *Exec) external(st *State, fn, inst *ssa.Function, args []Val, sig *types.Signature, k func(*State, Val), where string) bool {
	if fn.Pkg == nil && fn.Object() == nil {
		return false
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if strings.HasPrefix(path, modPath) {
		return false
	}
	name := path + "." + fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		name = path + "." + structName(r.Type()) + "." + fn.Name()
	}
	switch name {
	case "log.Panicf", "log.Panic", "log.Panicln", "log.Fatalf":
		x.doPanic(st, where)
		return true
	case "context.Background", "context.TODO":
		r := Sym("p!background", SInt)
		st.assume(Lt(Int(0), r))
		st.assume(Le(r, x.alloc0()))
		st.assume(App("live", SBool, r))
		k(st, r)
		return true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf":
		k(st, x.havocVal(st, sig.Results().At(0).Type(), "text"))
		return true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Printf", "log.Println", "runtime.KeepAlive", "runtime.Gosched":
		k(st, Tuple{Int(0), Int(0)})
		return true
	case "reflect.TypeOf":
		k(st, x.reflectType(st, args[0]))
		return true
	case "strings.Cut":
		s, sep := args[0].(*Term), args[1].(*Term)
		found := x.fresh("found", SBool)
		c := App("cut", SStr, s, sep)
		st.assume(Implies(Not(found), Eq(c, s)))
		st.assume(Implies(found, Not(Eq(c, s))))
		k(st, Tuple{c, x.fresh("after", SStr), found})
		return true
	case "strings.Index":
		s, sep := args[0].(*Term), args[1].(*Term)
		i := App("sindex", SInt, s, sep)
		st.assume(Le(Int(-1), i))
		st.assume(Le(i, App("slen", SInt, s)))
		st.assume(Implies(Eq(i, Int(-1)), Eq(App("cut", SStr, s, sep), s)))
		st.assume(Implies(Le(Int(0), i), And(Eq(App("cut", SStr, s, sep), App("ssub", SStr, s, Int(0), i)), Not(Eq(App("cut", SStr, s, sep), s)))))
		k(st, i)
		return true
	case "strings.Builder.Grow":
		n := args[1].(*Term)
		x.emit(st, "Builder.Grow length not negative at "+where, Le(Int(0), n))
		k(st, nil)
		return true
	case "strings.Builder.WriteRune":
		p := args[0].(Ptr)
		x.logCell(p.cell)
		st.cells[p.cell] = App("sapp", SStr, st.cells[p.cell].(*Term), args[1].(*Term))
		k(st, Tuple{x.fresh("n", SInt), Int(0)})
		return true
	case "strings.Builder.String":
		p := args[0].(Ptr)
		k(st, st.cells[p.cell])
		return true
	case "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "sync.Mutex.Lock", "sync.Mutex.Unlock":
		p, ok := args[0].(Ptr)
		if !ok || p.kind != "field" {
			panic(unsupported("a lock that is not a field of an object"))
		}
		x.lockOp(st, p, fn.Name(), where)
		k(st, nil)
		return true
	}
	if x.stdlib(st, name, args, sig, k, where) {
		return true
	}
	if fn.Name() == "init" {
		k(st, nil)
		return true
	}
	panic(unsupported("call of %s at %s", name, where))
}

func (x *Exec) alloc0() *Term {
	if x.entry != nil {
		return x.entry.alloc
	}
	return Sym("p!alloc", SInt)
}

// lk(o): 0 free, -1 held for writing, n>0 held n times for reading, by the running goroutine
func (x *Exec) lockOp(st *State, p Ptr, op, where string) {
	l := Select(st.g["lk"], p.ref)
	set := func(v *Term) {
		st.g["lk"] = Store(st.g["lk"], p.ref, v)
		x.logGhost(st, "lk", p.ref)
	}
	if op == "Lock" || op == "RLock" {
		// from the second time on others may have changed what the lock protects
		if st.valid["acquired"] {
			for _, g := range x.lockedRefs() {
				for _, n := range spec.groups["content"] {
					st.g[n] = Store(st.g[n], g, x.fresh(n, spec.ghosts[n]))
					x.logGhost(st, n, g)
				}
				x.dropObj(st, g)
			}
		}
		st.valid["acquired"] = true
	}
	switch op {
	case "Lock":
		x.emit(st, "lock: Lock while already holding the lock at "+where, Eq(l, Int(0)))
		set(Int(-1))
	case "RLock":
		x.emit(st, "lock: RLock while already holding the lock at "+where, Eq(l, Int(0)))
		set(Int(1))
	case "Unlock":
		x.emit(st, "lock: Unlock without holding the lock for writing at "+where, Eq(l, Int(-1)))
		set(Int(0))
	case "RUnlock":
		x.emit(st, "lock: RUnlock without holding the lock for reading at "+where, Eq(l, Int(1)))
		set(Int(0))
	}
}

// lockedRefs: the objects a lock of the receiver protects
func (x *Exec) lockedRefs() (r []*Term) {
	if x.cls == nil || len(x.cls.locks) == 0 || x.params["self"].t == nil || x.entry == nil {
		return nil
	}
	ev := x.entryEnv(nil)
	for _, e := range x.cls.locks {
		r = append(r, ev.term(e))
	}
	return r
}

// guarded: an object protected by the receiver's lock is used only while that is held
func (x *Exec) guarded(st *State, con *Contract, ev *Eval, self SV, args []Val, sig *types.Signature, where string) {
	refs := x.lockedRefs()
	if refs == nil || con.flags["constant"] {
		return
	}
	l := Select(st.g["lk"], x.params["self"].t)
	var used []*Term
	if self.t != nil {
		used = append(used, self.t)
	}
	for i, a := range args {
		if t, ok := a.(*Term); ok && t.sort == SInt && isRefType(sig.Params().At(i).Type()) {
			used = append(used, t)
		}
	}
	mods, _ := x.modifies(con, ev, x.tag)
	for _, g := range refs {
		for _, a := range used {
			x.emit(st.clone(), "lock: the lock is held at "+where, Implies(Eq(a, g), Not(Eq(l, Int(0)))))
		}
		for _, m := range mods {
			x.emit(st.clone(), "lock: the lock is held for writing at "+where, Implies(Eq(m.ref, g), Eq(l, Int(-1))))
		}
	}
}

func (x *Exec) ctxMethod(st *State, c *ssa.CallCommon, recv *Term, args []Val, k func(*State, Val), where string) {
	switch c.Method.Name() {
	case "Done":
		x.nonNil(st, recv, "ctx.Done at "+where)
		k(st, &ChanVal{kind: "ctxdone", ctx: recv})
		return
	case "Err":
		e := x.fresh("err", SInt)
		st.assume(Le(Int(0), e))
		st.assume(Implies(App("live", SBool, recv), Eq(e, Int(0))))
		k(st, e)
		return
	}
	panic(unsupported("method %s of a context at %s", c.Method.Name(), where))
}

// ---- contracts ----

func familyOfType(t types.Type) []string {
	if t == nil {
		return nil
	}
	if n := isIfaceNamed(t); n != "" {
		if f := spec.famOf[n]; f != "" {
			return []string{f}
		}
		return nil
	}
	if _, ok := types.Unalias(t).(*types.Pointer); ok {
		if n := structName(t); n != "" {
			if c := spec.classes[n]; c != nil {
				return c.families
			}
		}
	}
	return nil
}

// wfFacts: what holds of every object of the family, at any time
func (x *Exec) wfFacts(st *State, ref *Term, t types.Type) {
	for _, f := range familyOfType(t) {
		fam := spec.families[f]
		for _, w := range fam.wf {
			if !w.active(x.tag) {
				continue
			}
			ev := x.evalFor(st, nil, nil)
			ev.env["self"] = SV{t: ref, typ: t}
			st.assume(Implies(Not(Eq(ref, Int(0))), ev.boolTerm(w.expr)))
		}
	}
	if n := structName(t); n != "" {
		if _, isPtr := types.Unalias(t).(*types.Pointer); isPtr {
			if c := spec.classes[n]; c != nil {
				st.assume(Implies(Not(Eq(ref, Int(0))), dynFact(ref, n)))
				for _, a := range c.attrOrd {
					if e := c.attrs[a]; e.kind == "name" {
						st.assume(Implies(Not(Eq(ref, Int(0))), Eq(App(a, SBool, ref), Bool(e.name == "true"))))
					}
				}
			}
		}
	}
}

type modTarget struct {
	ghost string
	ref   *Term
}

func (x *Exec) modifies(con *Contract, ev *Eval, tag string) (ts []modTarget, params map[string]bool) {
	params = map[string]bool{}
	for _, c := range con.of("modifies", tag) {
		for _, e := range c.exprs {
			switch e.kind {
			case "call":
				ref := ev.term(e.args[0])
				if g, ok := spec.groups[e.name]; ok {
					for _, n := range g {
						ts = append(ts, modTarget{n, ref})
					}
				} else if _, ok := spec.ghosts[e.name]; ok {
					ts = append(ts, modTarget{e.name, ref})
				} else {
					panic(unsupported("modifies %s", e.name))
				}
			case "name":
				params[e.name] = true
			default:
				panic(unsupported("modifies clause %s", c.text))
			}
		}
	}
	return
}

func (x *Exec) paramNames(con *Contract, sig *types.Signature) []string {
	n := sig.Params().Len()
	if len(con.params) == n {
		return con.params
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, sig.Params().At(i).Name())
	}
	if len(con.params) != 0 {
		panic(unsupported("contract %s has %d parameters, the function %d", con.key, len(con.params), n))
	}
	return ps
}

func resultNames(con *Contract, n int) []string {
	if len(con.results) >= n && n > 0 {
		return con.results[:n]
	}
	if n == 1 {
		return []string{"res"}
	}
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("res%d", i))
	}
	return r
}

func (x *Exec) applyContract(st *State, con *Contract, self SV, args []Val, sig *types.Signature, k func(*State, Val), where, label string) {
	x.use(label)
	x.foldFor(st, self, args)
	ev := x.evalFor(st, nil, nil)
	if self.t != nil {
		ev.env["self"] = self
		x.wfFacts(st, self.t, self.typ)
	}
	names := x.paramNames(con, sig)
	fnArgs := map[string]Val{}
	for i, n := range names {
		t := sig.Params().At(i).Type()
		v := args[i]
		switch q := v.(type) {
		case *Closure, *UnkFn, NilFn:
			fnArgs[n] = v
			_ = q
			if u, ok := v.(*UnkFn); ok {
				ev.env[n] = SV{t: u.term, v: v}
			} else if _, ok := v.(NilFn); ok {
				ev.env[n] = SV{t: Int(0), v: v}
			} else if con.flags["fnvalue"] {
				ev.env[n] = SV{t: x.closureTerm(st, v.(*Closure)), v: v}
			}
			continue
		case *Opaque:
			continue
		}
		ev.env[n] = ev.valSV(v, t)
		if tm, ok := v.(*Term); ok {
			x.wfFacts(st, tm, t)
		}
	}
	ev.old = st
	for _, c := range con.of("requires", x.tag) {
		x.emit(st, fmt.Sprintf("precondition #%d of %s at %s", c.idx, label, where), ev.boolTerm(c.expr))
	}
	if con == x.con {
		for _, c := range con.of("variant", x.tag) {
			m0 := x.entryEnv(nil).term(c.expr)
			m1 := ev.term(c.expr)
			x.emit(st, "the recursion at "+where+" ends", And(Le(Int(0), m1), Lt(m1, m0)))
		}
	}
	x.guarded(st, con, ev, self, args, sig, where)
	// panics
	var pc *Term = False
	for _, c := range con.of("panics", x.tag) {
		pc = Or(pc, ev.boolTerm(c.expr))
	}
	if pc != False {
		p := st.clone()
		p.assume(pc)
		if x.feasibleBranch(p) {
			x.doPanic(p, where)
		}
		st.assume(Not(pc))
		if st.contradictory() {
			return
		}
	}
	calls := con.of("calls", x.tag)
	old := st.clone()
	ev.st, ev.old = st, old
	x.runCalls(st, con, ev, calls, 0, fnArgs, func(st *State, outs map[string]SV) {
		x.finishContract(st, old, con, self, ev, outs, args, sig, k, where, label)
	}, where)
}

func (x *Exec) runCalls(st *State, con *Contract, ev *Eval, calls []*Clause, i int, fnArgs map[string]Val, k func(*State, map[string]SV), where string) {
	outs := map[string]SV{}
	var step func(st *State, i int, outs map[string]SV)
	step = func(st *State, i int, outs map[string]SV) {
		if i == len(calls) {
			k(st, outs)
			return
		}
		c := calls[i]
		e2 := x.evalFor(st, ev.old, nil)
		for n, v := range ev.env {
			e2.env[n] = v
		}
		o2 := map[string]SV{}
		for n, v := range outs {
			e2.env[n] = v
			o2[n] = v
		}
		for j, n := range c.outs {
			s := x.fresh("out."+n, c.outS[j])
			o2[n] = SV{t: s}
			e2.env[n] = o2[n]
		}
		st.assume(e2.boolTerm(c.expr))
		if st.contradictory() {
			return
		}
		var as []Val
		for _, a := range c.exprs {
			as = append(as, e2.term(a))
		}
		y := c.metaT["y"]
		ver0 := st.g["ver"]
		fin := func(st *State, v Val) {
			if t, ok := v.(*Term); ok {
				o2[y] = SV{t: t}
			}
			if self, ok := ev.env["self"]; ok && st.g["ver"] != ver0 {
				x.emit(st, "the function argument leaves the object alone at "+where, Eq(Select(st.g["ver"], self.t), Select(ver0, self.t)))
			}
			o3 := map[string]SV{}
			for n, v := range o2 {
				o3[n] = v
			}
			step(st, i+1, o3)
		}
		switch f := fnArgs[c.fname].(type) {
		case *Closure:
			x.callFn(st, f, as, f.fn.Signature, fin, where)
		case *UnkFn:
			x.callUnknown(st, f, as, fin, where)
		case NilFn:
			x.emit(st, "no call of a nil function at "+where, False)
		default:
			panic(unsupported("function argument %s is a %T", c.fname, fnArgs[c.fname]))
		}
	}
	step(st, i, outs)
}

func (x *Exec) finishContract(st, old *State, con *Contract, self SV, ev0 *Eval, outs map[string]SV, args []Val, sig *types.Signature, k func(*State, Val), where, label string) {
	x.foldFor(st, self, args)
	ev := x.evalFor(st, old, nil)
	for n, v := range ev0.env {
		ev.env[n] = v
	}
	for n, v := range outs {
		ev.env[n] = v
	}
	mods, mparams := x.modifies(con, ev, x.tag)
	for p := range mparams {
		// the elements of a slice argument may change
		if s, ok := ev.env[p].v.(*SliceVal); ok && s.arr != 0 {
			x.havocSlice(st, s)
			ev.env[p] = ev.valSV(s, ev.env[p].typ)
		}
	}
	for _, m := range mods {
		st.g[m.ghost] = Store(st.g[m.ghost], m.ref, x.fresh(m.ghost, spec.ghosts[m.ghost]))
		x.logGhost(st, m.ghost, m.ref)
		if m.ghost == "ver" {
			x.dropObj(st, m.ref)
		}
	}
	// results
	nres := sig.Results().Len()
	names := resultNames(con, nres)
	var vals []Val
	freshRes := map[string]bool{}
	for _, c := range con.of("ensures", x.tag) {
		markFresh(c.expr, freshRes)
	}
	for i := 0; i < nres; i++ {
		t := sig.Results().At(i).Type()
		var v Val
		if freshRes[names[i]] && isRefType(t) {
			r := x.newRef(st, con.key)
			v = r
		} else {
			v = x.havocVal(st, t, "ret."+con.key)
		}
		vals = append(vals, v)
		ev.env[names[i]] = ev.valSV(v, t)
	}
	for i, v := range vals {
		if tm, ok := v.(*Term); ok {
			x.wfFacts(st, tm, sig.Results().At(i).Type())
		}
	}
	for _, c := range con.of("ensures", x.tag) {
		if !strings.HasPrefix(x.mode, "generic") || !c.hasFlag("generic") {
			st.assume(ev.boolTerm(c.expr))
		}
	}
	for _, c := range con.of("known", x.tag) {
		st.assume(ev.boolTerm(c.expr))
	}
	x.registerFold(st, con, ev, where)
	if self.t != nil {
		x.wfFacts(st, self.t, self.typ)
	}
	if st.contradictory() {
		return
	}
	switch len(vals) {
	case 0:
		k(st, nil)
	case 1:
		k(st, vals[0])
	default:
		k(st, Tuple(vals))
	}
}

func (c *Clause) hasFlag(f string) bool { return false }

func (x *Exec) havocSlice(st *State, s *SliceVal) {
	a, id, row := x.useArr(st, s, "write")
	x.logArr(id)
	if row != nil {
		a.content = Store(a.content, row, x.fresh("row", elemOf(a.content.sort)))
	} else {
		a.content = x.fresh("content", a.content.sort)
	}
	if a.param != "" {
		x.logParamWrite(st, a.param)
	}
	if a.owner != nil {
		x.emit(st, "ownership: an array of an object is handed out for writing", False)
	}
}

func isRefType(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func markFresh(e *Expr, m map[string]bool) {
	if e.kind == "call" && e.name == "fresh" && e.args[0].kind == "name" {
		m[e.args[0].name] = true
	}
	if e.kind == "bin" && e.name == "&&" {
		markFresh(e.args[0], m)
		markFresh(e.args[1], m)
	}
	if e.kind == "call" {
		if md, ok := spec.macros[e.name]; ok {
			sub := map[string]bool{}
			markFresh(md.body, sub)
			for i, p := range md.params {
				if sub[p] && i < len(e.args) && e.args[i].kind == "name" {
					m[e.args[i].name] = true
				}
			}
		}
	}
}

// closureTerm gives a function value an identity; what it computes is found by executing it
func (x *Exec) closureTerm(st *State, c *Closure) *Term {
	n := atomic.AddInt64(&x.seq, 1)
	id := Sym(fmt.Sprintf("new!fn!%d", n), SInt)
	st.assume(Lt(Int(0), id))
	sig := c.fn.Signature
	if sig.Results().Len() != 1 {
		return id
	}
	var syms, bvs []*Term
	var args []Val
	sub := map[*Term]*Term{}
	for i := 0; i < sig.Params().Len(); i++ {
		s := x.sortOf(sig.Params().At(i).Type())
		y := x.fresh("carg", s)
		b := x.bvar(fmt.Sprintf("a%d", i), s)
		syms = append(syms, y)
		bvs = append(bvs, b)
		sub[y] = b
		args = append(args, y)
	}
	rs := x.sortOf(sig.Results().At(0).Type())
	name := "fap_" + sortsKey(syms) + "_" + sortKey(rs)
	lhs := App(name, rs, append([]*Term{id}, bvs...)...)
	sc := st.clone()
	base := len(sc.pc)
	g0 := fmt.Sprint(st.g)
	x.muted++
	var facts []*Term
	x.callFn(sc, c, args, sig, func(r *State, v Val) {
		if fmt.Sprint(r.g) != g0 || len(r.calls) != len(st.calls) {
			panic(unsupported("a stored function with side effects"))
		}
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported("a stored function returning a %T", v))
		}
		cond := And(r.pc[base:]...)
		if maxSeq(Subst(t, sub)) > n {
			panic(unsupported("a stored function that is not a function of its arguments"))
		}
		facts = append(facts, Implies(Subst(cond, sub), Eq(lhs, Subst(t, sub))))
	}, "stored function")
	x.muted--
	for _, f := range facts {
		st.assume(Forall(bvs, f, []*Term{lhs}))
	}
	return id
}

func (x *Exec) ownsParam(p string) bool {
	return x.con != nil && x.con.flags["owns:"+p]
}

func (x *Exec) classType(class string) types.Type {
	if t := classTypes[class]; t != nil {
		return types.NewPointer(t)
	}
	panic(unsupported("no struct type %s in the code", class))
}

// visit: a call of a function argument that the contract describes as one of many. The ghost
// state counts the calls (asked) and keeps the last argument (shown) and answer (told).
func (x *Exec) visit(st *State, f *UnkFn, args []Val, k func(*State, Val), where string) bool {
	if x.con == nil {
		return false
	}
	hit := false
	for _, c := range x.con.of("visits", x.tag) {
		sv, ok := x.params[c.fname]
		if !ok || sv.t != f.term || len(args) != len(c.outs) || len(args) != 1 || f.sig.Results().Len() != 1 {
			continue
		}
		if x.inGo > 0 || x.quiet > 0 {
			panic(unsupported("a parameter function is called in a goroutine"))
		}
		hit = true
		x.foldMost(st)
		ev := x.postEnv(st)
		ev.env[c.outs[0]] = ev.valSV(args[0], f.sig.Params().At(0).Type())
		x.emit(st, "what the function argument is called with: "+exprText(c), ev.boolTerm(c.expr))
	}
	if !hit {
		return false
	}
	n := Select(st.g["asked"], f.term)
	x.setGhost(st, "asked", f.term, Add(n, Int(1)))
	x.setGhost(st, "shown", f.term, args[0].(*Term))
	res := x.fresh("called."+f.name, SBool)
	x.setGhost(st, "told", f.term, res)
	k(st, res)
	return true
}
