package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	fn      string
	label   string
	where   string
	assumps []*Term
	goal    *Term
	mode    string
	res     Result
	path    string
}

// Exec verifies one function against one contract
type Exec struct {
	fn     *ssa.Function
	name   string
	con    *Contract
	cls    *Class
	tag    string
	mode   string
	initOf string // the variable whose initial value is checked
	frames bool   // only what the function leaves alone
	seq    int64
	arrSeq int64

	entry  *State
	params map[string]SV
	pnames []string
	extra  []*Clause // loop templates, choices, lemmas of the class for this method

	mu       sync.Mutex
	obls     []*Obl
	wg       sync.WaitGroup
	used     map[string]bool // contracts relied on
	muted    int
	log      *writeLog
	loops    map[*ssa.Function]*loopInfo
	scouting int                        // finding what a loop body writes
	surv     map[string]map[string]bool // candidates given up per loop and path
	deps     map[string]bool
	rets     int
	live     bool // some path returns, on assumptions that do not contradict each other
	depth    int
	steps    int
	self     *selfProc    // the process being checked against its contract
	inGo     int          // inside a goroutine
	quiet    int          // another goroutine may be running: nothing may be written
	mark     *mark        // goroutines are running: only what is newer than the last of them may be written
	priv     map[int]bool // cells and arrays of variables that no goroutine can refer to
	worker   *int         // inside a goroutine: number of messages sent
}

type writeLog struct {
	cells  map[int]bool
	arrs   map[int]bool
	rls    map[int]bool // whose row lengths change
	fields map[string]fieldRef
	ghost  map[string]map[*Term]bool
	folds  map[*Term]bool
	opens  map[*Term]bool
	params map[string]bool
	touch  map[*Term]bool
	chans  bool
	nested bool // there is a loop inside
	n      int
}

type fieldRef struct {
	ref   *Term
	class string
	field string
}

func newLog() *writeLog {
	return &writeLog{cells: map[int]bool{}, arrs: map[int]bool{}, rls: map[int]bool{}, fields: map[string]fieldRef{}, ghost: map[string]map[*Term]bool{}, folds: map[*Term]bool{}, opens: map[*Term]bool{}, params: map[string]bool{}, touch: map[*Term]bool{}}
}

func (l *writeLog) size() int {
	n := len(l.cells) + len(l.rls) + len(l.arrs) + len(l.fields) + len(l.folds) + len(l.params) + len(l.touch)
	for _, m := range l.ghost {
		n += len(m)
	}
	return n
}

func (l *writeLog) merge(o *writeLog) {
	l.nested = l.nested || o.nested
	for k := range o.cells {
		l.cells[k] = true
	}
	for k := range o.arrs {
		l.arrs[k] = true
	}
	for k := range o.rls {
		l.rls[k] = true
	}
	for k, v := range o.fields {
		l.fields[k] = v
	}
	for k, m := range o.ghost {
		for r := range m {
			l.addGhost(k, r)
		}
	}
	for k := range o.folds {
		l.folds[k] = true
	}
	for k := range o.opens {
		l.opens[k] = true
	}
	for k := range o.params {
		l.params[k] = true
	}
	for k := range o.touch {
		l.touch[k] = true
	}
}

func (l *writeLog) addGhost(n string, r *Term) {
	if l.ghost[n] == nil {
		l.ghost[n] = map[*Term]bool{}
	}
	l.ghost[n][r] = true
}

type mark struct{ seq, arr int64 }

// loud: something is written, and created when the counters stood at what is given
func (x *Exec) loud(seq, arr int64) {
	if x.quiet > 0 && !x.priv[int(arr)] && !(x.mark != nil && (seq > x.mark.seq || arr > x.mark.arr)) {
		panic(unsupported("an access that another goroutine may observe"))
	}
}

// born: the counter when an object was created; 0 if that is not known
func born(ref *Term) int64 {
	if ref.op == "sym" && strings.HasPrefix(ref.name, "new!") {
		return symSeq(ref)
	}
	return 0
}

func (x *Exec) logArr(id int) {
	x.loud(0, int64(id))
	if x.log != nil {
		x.log.arrs[id] = true
	}
}
func (x *Exec) logCell(id int) {
	x.loud(0, int64(id))
	if x.log != nil {
		x.log.cells[id] = true
	}
}
func (x *Exec) logField(ref *Term, class, field string) {
	x.loud(born(ref), 0)
	if x.log != nil {
		x.log.fields[ref.String()+"."+field] = fieldRef{ref, class, field}
	}
}
func (x *Exec) logTouch(ref *Term) {
	if x.log != nil {
		x.log.touch[ref] = true
	}
}
func (x *Exec) logOpen(ref *Term) {
	if x.log != nil {
		x.log.opens[ref] = true
	}
}
func (x *Exec) logFold(ref *Term) {
	if x.log != nil {
		x.log.folds[ref] = true
	}
}
func (x *Exec) logGhost(st *State, n string, ref *Term) {
	x.loud(born(ref), 0)
	if x.log != nil {
		x.log.addGhost(n, ref)
	}
}
func (x *Exec) logParamWrite(st *State, p string) {
	x.loud(0, 0)
	if x.log != nil {
		x.log.params[p] = true
	}
	st.valid["pw "+p] = true
}

// ---- obligations ----

var oblSem = make(chan struct{}, 16)

func (x *Exec) emit(st *State, label string, goal *Term) {
	if x.muted > 0 || st.contradictory() {
		if goal != False {
			st.assume(goal)
		}
		return
	}
	if x.frames && !frameLabel(label) {
		st.assume(goal)
		return
	}
	if v, ok := st.known(goal); ok && v {
		x.record(&Obl{fn: x.name, label: label, goal: goal, mode: x.mode, res: Result{ok: true, answer: "unsat", solver: "simplifier"}})
		return
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			x.emit(st, label, g)
		}
		return
	}
	o := &Obl{fn: x.name, label: label, assumps: st.pc[:len(st.pc):len(st.pc)], goal: goal, mode: x.mode, path: st.path}
	x.record(o)
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		oblSem <- struct{}{}
		defer func() { <-oblSem }()
		o.res = prove(x.mode, o.assumps, o.goal, 2)
	}()
	st.assume(goal)
}

// frameLabel: obligations about what a function leaves alone
func frameLabel(l string) bool {
	for _, p := range []string{"changes only", "nothing is changed", "ownership", "loop invariant", "lock"} {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return strings.HasPrefix(l, "postcondition") && strings.Contains(l, "fresh(")
}

func (x *Exec) record(o *Obl) {
	x.mu.Lock()
	x.obls = append(x.obls, o)
	x.mu.Unlock()
}

// feasible: is the state possibly reachable (quick check)
func (x *Exec) feasible(st *State) bool {
	if st.contradictory() {
		return false
	}
	r := prove(x.mode, st.pc, False, -1)
	return !r.ok
}

func (x *Exec) valid(st *State, goal *Term) bool {
	if v, ok := st.known(goal); ok {
		return v
	}
	return prove(x.mode, st.pc, goal, 0).ok
}

// ---- running ----

const maxSteps = 400000

func (x *Exec) call(st *State, fn *ssa.Function, args []Val, binds []Val, ret func(st *State, v Val), what string) {
	if fn.Blocks == nil {
		panic(unsupported("call of %s, which has no body here", fn))
	}
	for _, f := range st.frames {
		if f.fn == fn {
			panic(unsupported("recursive call of %s, which has no contract", fn))
		}
	}
	if len(st.frames) > 24 {
		panic(unsupported("calls nested too deeply at %s", fn))
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	f.ret = ret
	f.kpanic = func(st *State) { x.unwind(st) }
	st.frames = append(st.frames, f)
	x.jump(st, fn.Blocks[0], nil)
}

func (x *Exec) unwind(st *State) {
	if len(st.frames) == 0 {
		return
	}
	f := st.top()
	if len(f.defers) > 0 {
		x.runDefers(st, func(st *State) { x.unwind(st) })
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	f.kpanic(st)
}

func (x *Exec) runDefers(st *State, k func(st *State)) {
	f := st.top()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	x.invoke(st, d.call, d.fn, d.args, func(st *State, v Val) { x.runDefers(st, k) }, "deferred call")
}

func (x *Exec) info(fn *ssa.Function) *loopInfo {
	x.mu.Lock()
	defer x.mu.Unlock()
	if l, ok := x.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	x.loops[fn] = l
	return l
}

// jump transfers control to a block
func (x *Exec) jump(st *State, b, from *ssa.BasicBlock) {
	f := st.top()
	li := x.info(f.fn)
	for n := len(f.loops); n > 0; n-- {
		al := f.loops[n-1]
		if al.header == b {
			f.loops = f.loops[:n]
			if al.unroll {
				break
			}
			al.onBack(st, from)
			return
		}
		if !al.body[b] {
			f.loops = f.loops[: n-1 : n-1]
			if al.onExit != nil && !al.onExit(st) {
				return
			}
			if st.contradictory() {
				return
			}
			continue
		}
		break
	}
	if body := li.loops[b]; body != nil {
		x.enterLoop(st, b, from, body)
		return
	}
	x.phis(st, b, from)
	x.run(st, b, 0)
}

func (x *Exec) phis(st *State, b, from *ssa.BasicBlock) {
	f := st.top()
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range b.Preds {
			if e == from {
				vals = append(vals, x.get(st, p.Edges[i]))
				break
			}
		}
		ps = append(ps, p)
	}
	for i, p := range ps {
		f.env[p] = vals[i]
	}
}

func (x *Exec) get(st *State, v ssa.Value) Val {
	f := st.top()
	if r, ok := f.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(st, c)
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Global:
		return Ptr{kind: "global", glob: c, typ: c.Type()}
	case *ssa.Builtin:
		return c
	}
	panic(unsupported("value %s (%T) in %s", v.Name(), v, f.fn))
}

func (x *Exec) constant(st *State, c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return x.zeroVal(st, t)
	}
	var s Sort
	if _, ok := t.(*types.TypeParam); ok {
		s = ST
	} else if _, ok := t.Underlying().(*types.Basic); ok {
		s = x.sortOf(t)
	} else {
		return &Opaque{"constant"}
	}
	switch s {
	case SBool:
		return Bool(constant.BoolVal(c.Value))
	case SInt:
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			panic(unsupported("constant %s", c.Value))
		}
		return Int(n)
	case ST:
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			if n, ok := constant.Int64Val(iv); ok {
				return tconst(n)
			}
		}
		return App("tconst."+smtSafe(c.Value.ExactString()), ST)
	case SStr:
		return strLit(constant.StringVal(c.Value))
	}
	panic(unsupported("constant %s", c))
}

func smtSafe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "_%x_", r)
		}
	}
	return b.String()
}

func (x *Exec) trm(st *State, v ssa.Value) *Term {
	switch q := x.get(st, v).(type) {
	case *Term:
		return q
	case NilFn:
		return Int(0)
	case *UnkFn:
		return q.term
	default:
		panic(unsupported("%s in %s is a %T where a plain value is needed", v.Name(), st.top().fn, q))
	}
}

func posOf(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		return in.Parent().Name()
	}
	ps := prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
}

func shortFile(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if strings.HasPrefix(s, repoDir+"/") {
		return s[len(repoDir)+1:]
	}
	return s
}

func (x *Exec) branch(st *State, c *Term, k func(st *State, taken bool)) {
	if v, ok := st.known(c); ok {
		k(st, v)
		return
	}
	a := st.clone()
	a.assume(c)
	b := st
	b.assume(Not(c))
	fa, fb := x.feasibleBranch(a), x.feasibleBranch(b)
	if fa && fb {
		a.path += "1"
		b.path += "0"
	}
	if fa {
		k(a, true)
	}
	if fb {
		k(b, false)
	}
}

// pruning of infeasible branches; during invariant inference the quick syntactic check suffices
func (x *Exec) feasibleBranch(st *State) bool {
	if st.contradictory() {
		return false
	}
	return x.feasible(st)
}

func (x *Exec) run(st *State, b *ssa.BasicBlock, i int) {
	st.top().at = b
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			panic(unsupported("too many execution steps in %s", x.name))
		}
		if st.contradictory() {
			return
		}
		in := b.Instrs[i]
		f := st.top()
		next := func(st *State, v Val) {
			if val, ok := in.(ssa.Value); ok {
				st.top().env[val] = v
			}
			x.run(st, b, i+1)
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.jump(st, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.trm(st, in.Cond)
			x.branch(st, c, func(st *State, t bool) {
				if t {
					x.jump(st, b.Succs[0], b)
				} else {
					x.jump(st, b.Succs[1], b)
				}
			})
			return
		case *ssa.Return:
			var v Val
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.get(st, in.Results[0])
			default:
				var t Tuple
				for _, r := range in.Results {
					t = append(t, x.get(st, r))
				}
				v = t
			}
			// leaves the loops of this frame
			for n := len(f.loops); n > 0; n-- {
				al := f.loops[n-1]
				f.loops = f.loops[: n-1 : n-1]
				if al.onExit != nil && !al.onExit(st) {
					return
				}
			}
			st.frames = st.frames[:len(st.frames)-1]
			f.ret(st, v)
			return
		case *ssa.Panic:
			x.doPanic(st, posOf(in))
			return
		case *ssa.RunDefers:
			x.runDefers(st, func(st *State) { x.run(st, b, i+1) })
			return
		case *ssa.Defer:
			fv, args := x.callee(st, &in.Call)
			f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{&in.Call, fv, args})
		case *ssa.Go:
			fv, args := x.callee(st, &in.Call)
			x.goStmt(st, &in.Call, fv, args, func(st *State) { x.run(st, b, i+1) })
			return
		case *ssa.Call:
			fv, args := x.callee(st, &in.Call)
			x.invoke(st, &in.Call, fv, args, next, posOf(in))
			return
		case *ssa.Select:
			x.selectStmt(st, in, next)
			return
		case *ssa.Send:
			x.send(st, x.get(st, in.Chan), x.get(st, in.X), func(st *State) { x.run(st, b, i+1) })
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				x.recv(st, x.get(st, in.X), in.CommaOk, next)
				return
			}
			f.env[in] = x.unop(st, in)
		case *ssa.Store:
			x.store(st, x.get(st, in.Addr), x.get(st, in.Val), posOf(in))
		case *ssa.MapUpdate:
			x.mapUpdate(st, in)
		case *ssa.TypeAssert:
			if x.typeAssert(st, in, next) {
				return
			}
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				panic(unsupported("instruction %T in %s", in, f.fn))
			}
			f.env[v] = x.value(st, v)
		}
	}
}

func (x *Exec) doPanic(st *State, where string) {
	st.path += " panic@" + where
	// the loops of this frame are left
	f := st.top()
	f.loops = nil
	x.unwind(st)
}

func (x *Exec) value(st *State, v ssa.Value) Val {
	switch in := v.(type) {
	case *ssa.Alloc:
		return x.alloc(st, in)
	case *ssa.BinOp:
		return x.binop(st, in)
	case *ssa.ChangeInterface:
		return x.get(st, in.X)
	case *ssa.ChangeType:
		return x.get(st, in.X)
	case *ssa.Convert:
		return x.convert(st, in.X, in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, in.X, in.Type())
	case *ssa.Extract:
		t, ok := x.get(st, in.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract from %T", x.get(st, in.Tuple)))
		}
		return t[in.Index]
	case *ssa.Field:
		switch sv := x.get(st, in.X).(type) {
		case *StructVal:
			s := structOf(in.X.Type())
			n := s.Field(in.Field).Name()
			if r, ok := sv.f[n]; ok {
				return r
			}
			return sv // embedded
		}
		panic(unsupported("field of %T", x.get(st, in.X)))
	case *ssa.FieldAddr:
		return x.fieldAddr(st, in)
	case *ssa.IndexAddr:
		i := x.trm(st, in.Index)
		switch s := x.get(st, in.X).(type) {
		case *SliceVal:
			x.emit(st, "index in range at "+posOf(in), And(Le(Int(0), i), Lt(i, s.len)))
			return Ptr{kind: "elem", sl: s, idx: i, typ: in.Type()}
		case Ptr:
			if s.kind == "arr" {
				x.emit(st, "index in range at "+posOf(in), And(Le(Int(0), i), Lt(i, s.sl.len)))
				return Ptr{kind: "elem", sl: s.sl, idx: i, typ: in.Type()}
			}
			if s.kind == "opaque" {
				return s
			}
		}
		panic(unsupported("indexing %T", x.get(st, in.X)))
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.get(st, b))
		}
		return c
	case *ssa.MakeInterface:
		q := x.get(st, in.X)
		if c, ok := in.X.(*ssa.Const); ok && c.Value == nil && in.Type().Underlying().(*types.Interface).NumMethods() == 0 {
			return &typedNil{in.X.Type()}
		}
		switch r := q.(type) {
		case *Term:
			if types.IsInterface(in.Type()) && r.sort == SInt {
				if _, ok := types.Unalias(in.X.Type()).(*types.Pointer); ok {
					return r
				}
			}
			return &Opaque{"boxed value"}
		case *StructVal:
			return &Opaque{"boxed struct"}
		}
		return &Opaque{"boxed value"}
	case *ssa.MakeSlice:
		n := x.trm(st, in.Len)
		x.emit(st, "make length not negative at "+posOf(in), Le(Int(0), n))
		e, _ := isSlice(in.Type())
		return x.newArr(st, e, n, true)
	case *ssa.MakeChan:
		return x.makeChan(st, in)
	case *ssa.MakeMap:
		return x.makeMap(st, in)
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.Lookup:
		return x.lookup(st, in)
	}
	panic(unsupported("instruction %T in %s", v, st.top().fn))
}

func (x *Exec) newCell(st *State, v Val) int {
	id := int(atomic.AddInt64(&x.arrSeq, 1))
	st.cells[id] = v
	return id
}

func (x *Exec) alloc(st *State, in *ssa.Alloc) Val {
	t := types.Unalias(in.Type()).(*types.Pointer).Elem()
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		if _, isTP := types.Unalias(t).(*types.TypeParam); !isTP {
			if _, isI := a.Elem().Underlying().(*types.Interface); isI && a.Elem().String() == "any" || a.Elem().String() == "interface{}" {
				return Ptr{kind: "opaque"}
			}
			s := x.newArr(st, a.Elem(), Int(a.Len()), true)
			x.isPriv(s.arr, in)
			return Ptr{kind: "arr", sl: s, typ: in.Type()}
		}
	}
	if isStructVal(t) {
		if n := types.Unalias(t).String(); n == "strings.Builder" {
			return Ptr{kind: "cell", cell: x.newCell(st, App("sempty", SStr)), typ: in.Type()}
		}
		class, _ := repClass(t)
		if class == "" {
			class = "struct"
		}
		ref := x.newRef(st, class)
		z := x.zeroVal(st, t).(*StructVal)
		o := &ObjRec{ref: ref, class: class, fields: z.f, dirty: true, isnew: true, stack: !in.Heap}
		st.open[ref] = o
		st.assume(Eq(App("dyn", SInt, ref), Int(classID(structName(t)))))
		if c := spec.classes[class]; c != nil && (hasFamily(c, "Enumerate") || hasFamily(c, "Map")) {
			// a new iterator has been nowhere
			st.g["done"] = Store(st.g["done"], ref, App("constzero", SBMat))
		}
		x.logOpen(ref)
		return ref
	}
	p := Ptr{kind: "cell", cell: x.newCell(st, x.zeroVal(st, t)), typ: in.Type()}
	x.isPriv(p.cell, in)
	return p
}

func (x *Exec) isPriv(id int, in *ssa.Alloc) {
	if !in.Heap {
		if x.priv == nil {
			x.priv = map[int]bool{}
		}
		x.priv[id] = true
	}
}

func (x *Exec) fieldAddr(st *State, in *ssa.FieldAddr) Val {
	q := x.get(st, in.X)
	s := structOf(in.X.Type())
	f := s.Field(in.Field)
	switch r := q.(type) {
	case *Term:
		x.nonNil(st, r, "field "+f.Name()+" at "+posOf(in))
		class, rs := repClass(in.X.Type())
		if rs != s && structName(in.X.Type()) != class {
			// a struct of just an embedded struct: same object
			return r
		}
		if isStructVal(f.Type()) {
			return Ptr{kind: "field", ref: r, class: class, field: f.Name(), fty: f.Type(), typ: in.X.Type()}
		}
		return Ptr{kind: "field", ref: r, class: class, field: f.Name(), fty: f.Type(), typ: in.X.Type()}
	case Ptr:
		if r.kind == "opaque" {
			return r
		}
	}
	panic(unsupported("field address of %T", q))
}

func (x *Exec) load(st *State, p Val, t types.Type, where string) Val {
	switch q := p.(type) {
	case Ptr:
		switch q.kind {
		case "cell":
			return st.cells[q.cell]
		case "field":
			return x.loadField(st, q.ref, q.typ, q.field)
		case "elem":
			return x.resolve(st, x.loadElem(st, q.sl, q.idx))
		case "arr":
			return q
		case "global":
			return x.loadGlobal(st, q.glob)
		case "opaque":
			return &Opaque{"value"}
		}
	case *Term:
		// a struct
		o := x.openObj(st, q, t)
		st0 := types.Unalias(t)
		if p, ok := st0.(*types.Pointer); ok {
			st0 = types.Unalias(p.Elem())
		}
		sv := &StructVal{typ: st0, f: map[string]Val{}}
		for k, v := range o.fields {
			sv.f[k] = v
			if s, ok := v.(*SliceVal); ok && s.arr != 0 && !o.stack {
				panic(unsupported("copying a struct with slices at %s", where))
			}
		}
		return sv
	}
	panic(unsupported("load through %T", p))
}

func (x *Exec) store(st *State, p Val, v Val, where string) {
	switch q := p.(type) {
	case Ptr:
		switch q.kind {
		case "cell":
			x.logCell(q.cell)
			st.cells[q.cell] = v
			return
		case "field":
			if sv, ok := v.(*StructVal); ok {
				_ = sv
				panic(unsupported("store of a struct field at %s", where))
			}
			x.storeField(st, q.ref, q.typ, q.field, v)
			return
		case "elem":
			x.storeElem(st, q.sl, q.idx, v)
			return
		case "opaque":
			return
		case "arr":
			z, ok := v.(*SliceVal)
			if !ok || z.arr == 0 || z.row != nil || z.off != Int(0) {
				panic(unsupported("copy of an array at %s", where))
			}
			x.logArr(q.sl.arr)
			st.arrs[q.sl.arr].content = st.arrs[z.arr].content
			return
		case "global":
			x.storeGlobal(st, q.glob, v)
			return
		}
	case *Term:
		sv, ok := v.(*StructVal)
		if !ok {
			panic(unsupported("store of %T through a reference", v))
		}
		t := sv.typ
		o := x.openObj(st, q, types.NewPointer(t))
		for k, fv := range sv.f {
			o.fields[k] = fv
			x.logField(q, o.class, k)
		}
		o.dirty = true
		return
	}
	panic(unsupported("store through %T at %s", p, where))
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		p := x.get(st, in.X)
		return x.load(st, p, in.X.Type(), posOf(in))
	case token.NOT:
		return Not(x.trm(st, in.X))
	case token.SUB:
		a := x.trm(st, in.X)
		if a.sort == ST {
			return App("tneg", ST, a)
		}
		return MulK(-1, a)
	}
	panic(unsupported("operator %s", in.Op))
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	av, bv := x.get(st, in.X), x.get(st, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		r := x.equalVals(st, av, bv, in)
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operator %s on %T and %T", in.Op, av, bv))
	}
	switch a.sort {
	case SInt:
		switch in.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return mulInt(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO, token.REM, token.SHR:
			if in.Op == token.SHR && b.op == "int" && b.ival >= 0 && b.ival < 30 {
				b = Int(1 << b.ival)
			} else if in.Op == token.SHR {
				break
			}
			if b.op == "int" && b.ival > 0 {
				k := b.ival
				q := App(fmt.Sprintf("idiv%d", k), SInt, a)
				st.assume(Implies(Le(Int(0), a), And(Le(MulK(k, q), a), Le(a, Add(MulK(k, q), Int(k-1))))))
				if in.Op == token.SHR {
					st.assume(And(Le(MulK(k, q), a), Le(a, Add(MulK(k, q), Int(k-1)))))
				} else {
					st.assume(Implies(Lt(a, Int(0)), And(Le(a, MulK(k, q)), Le(MulK(k, q), Add(a, Int(k-1))))))
				}
				if in.Op == token.REM {
					return Sub(a, MulK(k, q))
				}
				return q
			}
			x.emit(st, "divisor not zero at "+posOf(in), Not(Eq(b, Int(0))))
			return x.fresh("div", SInt)
		}
	case SBool:
		switch in.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	case ST:
		switch in.Op {
		case token.ADD:
			return App("tadd", ST, a, b)
		case token.SUB:
			return App("tsub", ST, a, b)
		case token.MUL:
			return App("tmul", ST, a, b)
		case token.QUO:
			x.tdivCheck(st, b, in)
			return App("tdiv", ST, a, b)
		case token.LSS:
			return App("tlt", SBool, a, b)
		case token.GTR:
			return App("tlt", SBool, b, a)
		case token.LEQ:
			return Or(App("tlt", SBool, a, b), tEq(a, b))
		case token.GEQ:
			return Or(App("tlt", SBool, b, a), tEq(a, b))
		}
	case SStr:
		switch in.Op {
		case token.LSS:
			return App("slt", SBool, a, b)
		case token.GTR:
			return App("slt", SBool, b, a)
		case token.LEQ:
			return Not(App("slt", SBool, b, a))
		case token.GEQ:
			return Not(App("slt", SBool, a, b))
		case token.ADD:
			return App("scat", SStr, a, b)
		}
	}
	panic(unsupported("operator %s on %s", in.Op, a.sort))
}

func (x *Exec) tdivCheck(st *State, b *Term, in *ssa.BinOp) {
	// integer instantiations panic when dividing by zero
	if x.con != nil && x.con.flags["fieldonly"] {
		x.emit(st, "divisor not zero at "+posOf(in), Not(Eq(b, TZero)))
	}
}

func (x *Exec) equalVals(st *State, av, bv Val, in *ssa.BinOp) *Term {
	switch a := av.(type) {
	case *Term:
		switch b := bv.(type) {
		case *Term:
			if a.sort == ST {
				return tEq(a, b)
			}
			return Eq(a, b)
		case *UnkFn:
			return Eq(a, b.term)
		}
	case NilFn:
		switch b := bv.(type) {
		case NilFn:
			return True
		case *Closure:
			return False
		case *UnkFn:
			return Eq(b.term, Int(0))
		}
	case *Closure:
		if _, ok := bv.(NilFn); ok {
			return False
		}
	case *UnkFn:
		if _, ok := bv.(NilFn); ok {
			return Eq(a.term, Int(0))
		}
	case *SliceVal:
		// comparison with nil
		other, ok := bv.(*SliceVal)
		if ok && other.arr == 0 {
			if a.arr == 0 {
				return True
			}
			// a non-nil slice may still be empty; of parameters and fields nilness is not tracked
			if a.len == Int(0) {
				return x.fresh("isnil", SBool)
			}
			arr, _, _ := x.arrOfSlice(st, a)
			if arr.param == "" && arr.owner == nil {
				return False
			}
			n := x.fresh("isnil", SBool)
			st.assume(Implies(n, Eq(a.len, Int(0))))
			return n
		}
		if a.arr == 0 && ok {
			return x.equalVals(st, bv, av, in)
		}
	case *Opaque:
		return x.fresh("cmp", SBool)
	}
	if _, ok := bv.(NilFn); ok {
		return x.equalVals(st, bv, av, in)
	}
	panic(unsupported("comparison of %T and %T at %s", av, bv, posOf(in)))
}

func (x *Exec) convert(st *State, v ssa.Value, to types.Type) Val {
	q := x.get(st, v)
	t, ok := q.(*Term)
	if !ok {
		return &Opaque{"conversion"}
	}
	to = types.Unalias(to)
	var s Sort
	if _, ok := to.(*types.TypeParam); ok {
		s = ST
	} else {
		s = x.sortOf(to)
	}
	if s == t.sort {
		ft, tt := types.Unalias(v.Type()), to
		if s == ST && !types.Identical(ft, tt) {
			return App("tconv."+smtSafe(ft.String())+"."+smtSafe(tt.String()), ST, t)
		}
		return t
	}
	if t.sort == SInt && s == ST {
		if t.op == "int" {
			return tconst(t.ival)
		}
		return App("tofint", ST, t)
	}
	if t.sort == ST && s == SInt {
		return App("ttoint", SInt, t)
	}
	panic(unsupported("conversion from %s to %s", t.sort, to))
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	q := x.get(st, in.X)
	if p, ok := q.(Ptr); ok {
		if p.kind == "opaque" {
			return &Opaque{"arguments"}
		}
		if p.kind == "arr" {
			q = p.sl
		}
	}
	s, ok := q.(*SliceVal)
	if t, isT := q.(*Term); isT && t.sort == SStr {
		lo, hi := Int(0), App("slen", SInt, t)
		if in.Low != nil {
			lo = x.trm(st, in.Low)
		}
		if in.High != nil {
			hi = x.trm(st, in.High)
		}
		x.emit(st, "slice bounds at "+posOf(in), And(Le(Int(0), lo), Le(lo, hi), Le(hi, App("slen", SInt, t))))
		return App("ssub", SStr, t, lo, hi)
	}
	if !ok {
		if _, op := q.(*Opaque); op {
			return q
		}
		panic(unsupported("slicing %T", q))
	}
	lo, hi := Int(0), s.len
	if in.Low != nil {
		lo = x.trm(st, in.Low)
	}
	if in.High != nil {
		hi = x.trm(st, in.High)
	}
	if in.Max != nil {
		panic(unsupported("three-index slice"))
	}
	if s.arr == 0 {
		x.emit(st, "slice bounds at "+posOf(in), And(Eq(lo, Int(0)), Eq(hi, Int(0))))
		return s
	}
	// the capacity is not tracked: a slice may only be cut, not extended
	x.emit(st, "slice bounds at "+posOf(in), And(Le(Int(0), lo), Le(lo, hi), Le(hi, s.len)))
	return &SliceVal{arr: s.arr, row: s.row, off: Add(s.off, lo), len: Sub(hi, lo), elem: s.elem}
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	t := types.Unalias(g.Type()).(*types.Pointer).Elem()
	key := "G." + g.Pkg.Pkg.Name() + "." + g.Name()
	if x.initOf != "" {
		// initialisation: each variable is what has been stored
		if g.Name() == "init$guard" {
			return False
		}
		if v := st.ghostT[key]; v != nil {
			return v
		}
	}
	if isRegistryType(t) && "G."+registryVar() == key {
		if x.initOf != "" {
			return Int(0)
		}
		r := x.registry(st)
		if con := spec.funcs["var graphblas.registry"]; con != nil && !(x.con != nil && x.con.flags["registers"]) {
			ev := x.evalFor(st, st, nil)
			ev.env["it"] = SV{t: r, typ: t}
			for _, c := range con.of("ensures", x.tag) {
				st.assume(ev.boolTerm(c.expr))
			}
			x.use("var graphblas.registry")
		}
		return r
	}
	if con := spec.funcs["var "+g.Pkg.Pkg.Name()+"."+g.Name()]; con != nil {
		s := Sym("p!"+key, x.sortOf(t))
		st.assume(Le(Int(0), s))
		ev := x.evalFor(st, st, nil)
		ev.env["it"] = SV{t: s, typ: t}
		for _, c := range con.of("ensures", x.tag) {
			st.assume(ev.boolTerm(c.expr))
		}
		x.use("var " + g.Pkg.Pkg.Name() + "." + g.Name())
		return s
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Map:
		return &Opaque{"map " + key}
	}
	panic(unsupported("global variable %s", key))
}

func (x *Exec) storeGlobal(st *State, g *ssa.Global, v Val) {
	if x.initOf != "" {
		if t, ok := v.(*Term); ok {
			st.ghostT["G."+g.Pkg.Pkg.Name()+"."+g.Name()] = t
			return
		}
		if st.top().fn.Name() == "init" {
			return
		}
	}
	panic(unsupported("assignment to global %s", g.Name()))
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, next func(*State, Val)) bool {
	q := x.get(st, in.X)
	t, ok := q.(*Term)
	if !ok {
		panic(unsupported("type assertion on %T", q))
	}
	if types.IsInterface(in.AssertedType) {
		// decided for the types under contract, left open for others
		is := App("impl!"+types.TypeString(types.Unalias(in.AssertedType).(*types.Named).Origin(), func(p *types.Package) string { return p.Name() }), SBool, App("dyn", SInt, t))
		for _, n := range sortedKeys(classTypes) {
			if im, ok := implementsIface(classTypes[n], in.AssertedType); ok {
				is2 := App(is.name, SBool, Int(classID(n)))
				if im {
					st.assume(is2)
				} else {
					st.assume(Not(is2))
				}
			} else {
				panic(unsupported("type assertion to %s", in.AssertedType))
			}
		}
		x.branch(st, And(Not(Eq(t, Int(0))), is), func(st *State, y bool) {
			switch {
			case in.CommaOk && y:
				next(st, Tuple{t, True})
			case in.CommaOk:
				next(st, Tuple{Int(0), False})
			case y:
				next(st, t)
			default:
				x.doPanic(st, posOf(in))
			}
		})
		return true
	}
	n := structName(in.AssertedType)
	if _, isPtr := types.Unalias(in.AssertedType).(*types.Pointer); !isPtr || n == "" {
		panic(unsupported("type assertion to %s", in.AssertedType))
	}
	is := And(Not(Eq(t, Int(0))), Eq(App("dyn", SInt, t), Int(classID(n))))
	if !in.CommaOk {
		x.branch(st, is, func(st *State, y bool) {
			if y {
				next(st, t)
			} else {
				x.doPanic(st, posOf(in))
			}
		})
		return true
	}
	x.branch(st, is, func(st *State, y bool) {
		if y {
			next(st, Tuple{t, True})
		} else {
			next(st, Tuple{Int(0), False})
		}
	})
	return true
}

// implementsIface: whether pointers to the type implement the interface, for one element type
func implementsIface(t types.Type, iface types.Type) (im, ok bool) {
	inst := func(t types.Type) types.Type {
		n, isN := types.Unalias(t).(*types.Named)
		if !isN {
			return nil
		}
		n = n.Origin()
		k := n.TypeParams().Len()
		if k == 0 {
			return n
		}
		var as []types.Type
		for i := 0; i < k; i++ {
			as = append(as, types.Typ[types.Float64])
		}
		r, err := types.Instantiate(nil, n, as, false)
		if err != nil {
			return nil
		}
		return r
	}
	a, b := inst(t), inst(iface)
	if a == nil || b == nil {
		return false, false
	}
	i, isI := b.Underlying().(*types.Interface)
	if !isI {
		return false, false
	}
	return types.Implements(types.NewPointer(a), i), true
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
