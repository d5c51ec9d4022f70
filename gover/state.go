package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceVal struct {
	arr  int // 0: nil slice
	row  *Term
	off  *Term
	len  *Term
	elem types.Type
}

type StructVal struct {
	typ types.Type
	f   map[string]Val
}

type Tuple []Val

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type UnkFn struct {
	name string
	term *Term
	sig  *types.Signature
}

type NilFn struct{}

type Ptr struct {
	kind  string // cell field elem arr global opaque
	cell  int
	ref   *Term
	class string
	field string
	fty   types.Type
	sl    *SliceVal
	idx   *Term
	glob  *ssa.Global
	typ   types.Type
}

type ChanVal struct {
	kind     string // ctxdone, chan
	ctx      *Term
	ref      *Term
	buffered bool
}

type Opaque struct{ what string }

// an array of the program (backing store of slices), identified by the execution
type Arr struct {
	nested   bool
	content  *Term
	rowlen   *Term
	length   *Term
	elem     types.Type
	owner    *Term // object whose field holds it
	ofield   string
	param    string // parameter it came from
	poisoned bool
	dead     string
	fwdArr   int // content has been moved into row fwdRow of that array
	fwdRow   *Term
}

type ObjRec struct {
	ref    *Term
	class  string
	fields map[string]Val
	dirty  bool
	isnew  bool // never folded yet
	stack  bool // does not escape
	ver    *Term
}

type CallRec struct {
	args []Val
	res  Val
	g    map[string]*Term // ghost state at the time
	fn   string
}

type activeLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State, from *ssa.BasicBlock)
	onExit func(st *State) bool
	vars   []LoopVar
	unroll bool
}

type LoopVar struct {
	name string
	val  Val
	phi  *ssa.Phi
	typ  types.Type
	cell int
	off  int64
	rng  bool
}

type Frame struct {
	fn      *ssa.Function
	at      *ssa.BasicBlock // being run
	env     map[ssa.Value]Val
	loops   []*activeLoop
	defers  []deferred
	ret     func(st *State, v Val)
	kpanic  func(st *State)
	allocs  []*Term // non-escaping struct allocations
	depth   int
	barrier bool // panics do not go further up
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	pc      []*Term
	pcset   map[*Term]bool
	g       map[string]*Term
	open    map[*Term]*ObjRec
	arrs    map[int]*Arr
	cells   map[int]Val
	alloc   *Term
	calls   []CallRec
	frames  []*Frame
	wr      map[string]map[*Term]bool
	valid   map[string]bool // instantiated wf / unfold facts
	path    string
	panicV  bool
	ver     int
	mark    int64
	folds   []*proc
	pending []pendingGo
	msgs    []*message
	recvs   int
	polls   map[*Term]bool
	ghostT  map[string]*Term // named ghost terms (e.g. from protocols)
	unroll  map[*ssa.BasicBlock]int
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, path: s.path, ver: s.ver, mark: s.mark, panicV: s.panicV, folds: s.folds, pending: s.pending, msgs: s.msgs, recvs: s.recvs}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset)+8)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.g = make(map[string]*Term, len(s.g))
	for k, v := range s.g {
		n.g[k] = v
	}
	n.open = make(map[*Term]*ObjRec, len(s.open))
	for k, v := range s.open {
		c := *v
		c.fields = make(map[string]Val, len(v.fields))
		for a, b := range v.fields {
			c.fields[a] = b
		}
		n.open[k] = &c
	}
	n.arrs = make(map[int]*Arr, len(s.arrs))
	for k, v := range s.arrs {
		c := *v
		n.arrs[k] = &c
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.calls = s.calls[:len(s.calls):len(s.calls)]
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c := *f
		c.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			c.env[k] = v
		}
		c.loops = f.loops[:len(f.loops):len(f.loops)]
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		c.allocs = f.allocs[:len(f.allocs):len(f.allocs)]
		n.frames[i] = &c
	}
	n.wr = make(map[string]map[*Term]bool, len(s.wr))
	for k, v := range s.wr {
		m := make(map[*Term]bool, len(v))
		for a := range v {
			m[a] = true
		}
		n.wr[k] = m
	}
	n.valid = make(map[string]bool, len(s.valid))
	for k := range s.valid {
		n.valid[k] = true
	}
	n.polls = make(map[*Term]bool)
	for k := range s.polls {
		n.polls[k] = true
	}
	n.ghostT = map[string]*Term{}
	for k, v := range s.ghostT {
		n.ghostT[k] = v
	}
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range s.unroll {
		n.unroll[k] = v
	}
	return n
}

func newState() *State {
	return &State{pcset: map[*Term]bool{}, g: map[string]*Term{}, open: map[*Term]*ObjRec{}, arrs: map[int]*Arr{}, cells: map[int]Val{},
		wr: map[string]map[*Term]bool{}, valid: map[string]bool{}, polls: map[*Term]bool{}, ghostT: map[string]*Term{}, unroll: map[*ssa.BasicBlock]int{}}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.pcset[t] {
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}

func (s *State) contradictory() bool {
	return s.pcset[False]
}

// known decides a condition by looking it up among the assumptions
func (s *State) known(t *Term) (val, ok bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	if s.pcset[t] {
		return true, true
	}
	if s.pcset[Not(t)] {
		return false, true
	}
	return false, false
}

// ---- symbols ----

func (x *Exec) fresh(name string, s Sort) *Term {
	n := atomic.AddInt64(&x.seq, 1)
	return Sym(name+"!"+strconv.FormatInt(n, 10), s)
}

// sequence number of a symbol; entry symbols (p!..) have 0
func symSeq(t *Term) int64 {
	i := strings.LastIndexByte(t.name, '!')
	if i < 0 || strings.HasPrefix(t.name, "p!") {
		return 0
	}
	n, err := strconv.ParseInt(t.name[i+1:], 10, 64)
	if err != nil {
		return 0
	}
	return n
}

var maxSeqMemo = map[*Term]int64{}

func maxSeq(t *Term) int64 {
	termMu.Lock()
	if v, ok := maxSeqMemo[t]; ok {
		termMu.Unlock()
		return v
	}
	termMu.Unlock()
	var m int64
	if t.op == "sym" {
		m = symSeq(t)
	}
	for _, a := range t.args {
		if v := maxSeq(a); v > m {
			m = v
		}
	}
	termMu.Lock()
	maxSeqMemo[t] = m
	termMu.Unlock()
	return m
}

func (x *Exec) newRef(st *State, what string) *Term {
	n := atomic.AddInt64(&x.seq, 1)
	r := Sym(fmt.Sprintf("new!%s!%d", what, n), SInt)
	st.assume(Lt(st.alloc, r))
	st.assume(Lt(Int(0), r))
	st.alloc = r
	return r
}

// ---- Go types to sorts ----

func (x *Exec) sortOf(t types.Type) Sort {
	switch u := t.(type) {
	case *types.TypeParam:
		return ST
	case *types.Alias:
		return x.sortOf(types.Unalias(t))
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.UntypedInt:
			return SInt
		case types.Bool, types.UntypedBool:
			return SBool
		case types.Int32, types.UntypedRune, types.Float64, types.Float32, types.Int8, types.Int16, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return ST
		case types.String, types.UntypedString:
			return SStr
		case types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Interface, *types.Chan, *types.Signature, *types.Map:
		return SInt
	case *types.Named:
		return x.sortOf(u.Underlying())
	}
	panic(unsupported("no sort for type %s", t))
}

func structName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// the class that carries the fields: a struct consisting of just an embedded struct stands for that one
func repClass(t types.Type) (string, *types.Struct) {
	for {
		n := structName(t)
		s := structOf(t)
		if s == nil {
			return n, nil
		}
		if s.NumFields() == 1 && s.Field(0).Embedded() {
			if es := structOf(s.Field(0).Type()); es != nil {
				if _, isPtr := types.Unalias(s.Field(0).Type()).(*types.Pointer); !isPtr {
					t = s.Field(0).Type()
					continue
				}
			}
		}
		return n, s
	}
}

// dynFact: what the type *C says of an object: it is a C, or what embeds a C and nothing else
func dynFact(ref *Term, class string) *Term {
	var names []string
	for n, t := range classTypes {
		u := t
		for {
			if structName(u) == class {
				names = append(names, n)
				break
			}
			s := structOf(u)
			if s == nil || s.NumFields() != 1 || !s.Field(0).Embedded() {
				break
			}
			if _, isPtr := types.Unalias(s.Field(0).Type()).(*types.Pointer); isPtr || structOf(s.Field(0).Type()) == nil {
				break
			}
			u = s.Field(0).Type()
		}
	}
	sort.Strings(names)
	var or []*Term
	for _, n := range names {
		or = append(or, Eq(App("dyn", SInt, ref), Int(classID(n))))
	}
	if len(or) == 0 {
		or = append(or, Eq(App("dyn", SInt, ref), Int(classID(class))))
	}
	return Or(or...)
}

func isStructVal(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isIfaceNamed(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Interface); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

// ---- values ----

func (x *Exec) zeroVal(st *State, t types.Type) Val {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return TZero
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceVal{arr: 0, off: Int(0), len: Int(0), elem: u.Elem()}
	case *types.Signature:
		return NilFn{}
	case *types.Struct:
		sv := &StructVal{typ: t, f: map[string]Val{}}
		_, s := repClass(t)
		for i := 0; i < s.NumFields(); i++ {
			sv.f[s.Field(i).Name()] = x.zeroVal(st, s.Field(i).Type())
		}
		return sv
	case *types.Basic:
		switch x.sortOf(t) {
		case SInt:
			return Int(0)
		case SBool:
			return False
		case ST:
			return TZero
		case SStr:
			return App("sempty", SStr)
		}
	case *types.Pointer, *types.Interface, *types.Chan, *types.Map:
		return Int(0)
	case *types.Array:
		return x.newArr(st, u.Elem(), Int(u.Len()), true)
	}
	panic(unsupported("zero value of %s", t))
}

func isSlice(t types.Type) (types.Type, bool) {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}

func (x *Exec) newArr(st *State, elem types.Type, n *Term, zero bool) *SliceVal {
	id := int(atomic.AddInt64(&x.arrSeq, 1))
	a := &Arr{elem: elem, length: n}
	if inner, ok := isSlice(elem); ok {
		a.nested = true
		is := x.sortOf(inner)
		if zero {
			a.content = App("constzero", arrOf(arrOf(is)))
			a.rowlen = App("constzero", SInts)
		} else {
			a.content = x.fresh("nested", arrOf(arrOf(is)))
			a.rowlen = x.fresh("rowlen", SInts)
		}
	} else {
		es := x.elemSort(elem)
		if zero {
			a.content = App("constzero", arrOf(es))
		} else {
			a.content = x.fresh("arr", arrOf(es))
		}
	}
	st.arrs[id] = a
	return &SliceVal{arr: id, off: Int(0), len: n, elem: elem}
}

func (x *Exec) elemSort(t types.Type) Sort { return x.sortOf(t) }

// havocVal makes an unconstrained value of a Go type
func (x *Exec) havocVal(st *State, t types.Type, name string) Val {
	t = types.Unalias(t)
	if elem, ok := isSlice(t); ok {
		n := x.fresh(name+".len", SInt)
		st.assume(Le(Int(0), n))
		return x.newArr(st, elem, n, false)
	}
	if _, ok := t.(*types.TypeParam); !ok {
		switch u := t.Underlying().(type) {
		case *types.Signature:
			return &UnkFn{name: name, term: x.fresh(name, SInt), sig: u}
		case *types.Struct:
			sv := &StructVal{typ: t, f: map[string]Val{}}
			_, s := repClass(t)
			for i := 0; i < s.NumFields(); i++ {
				sv.f[s.Field(i).Name()] = x.havocVal(st, s.Field(i).Type(), name+"."+s.Field(i).Name())
			}
			return sv
		case *types.Chan:
			return &ChanVal{kind: "chan", ref: x.newRef(st, "chan")}
		case *types.Tuple:
			var tp Tuple
			for i := 0; i < u.Len(); i++ {
				tp = append(tp, x.havocVal(st, u.At(i).Type(), name))
			}
			return tp
		}
	}
	v := x.fresh(name, x.sortOf(t))
	x.refFact(st, t, v)
	return v
}

func (x *Exec) refFact(st *State, t types.Type, v *Term) {
	if _, ok := t.(*types.TypeParam); ok {
		return
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Interface:
		st.assume(Le(Int(0), v))
		st.assume(Le(v, st.alloc))
	}
}

// ---- array content access ----

func (x *Exec) arrOfSlice(st *State, s *SliceVal) (*Arr, int, *Term) {
	id, row := s.arr, s.row
	a := st.arrs[id]
	if a == nil {
		panic(unsupported("slice without backing array"))
	}
	for a.fwdArr != 0 {
		if row != nil {
			panic(unsupported("row of a moved array"))
		}
		id, row = a.fwdArr, a.fwdRow
		a = st.arrs[id]
	}
	return a, id, row
}

func (x *Exec) useArr(st *State, s *SliceVal, what string) (*Arr, int, *Term) {
	a, id, row := x.arrOfSlice(st, s)
	if a.dead != "" {
		x.emit(st, "ownership: "+what+" through a stale alias ("+a.dead+")", False)
	}
	if a.poisoned {
		x.emit(st, "ownership: "+what+" through a slice whose array an append may have reused", False)
	}
	return a, id, row
}

// content of the (one-level) slice as an array term indexed from s.off
func (x *Exec) sliceContent(st *State, s *SliceVal) *Term {
	if s.arr == 0 {
		if inner, ok := isSlice(s.elem); ok {
			return App("constzero", arrOf(arrOf(x.sortOf(inner))))
		}
		return App("constzero", arrOf(x.elemSort(s.elem)))
	}
	a, _, row := x.useArr(st, s, "access")
	if row != nil {
		return Select(a.content, row)
	}
	return a.content
}

func (x *Exec) loadElem(st *State, s *SliceVal, i *Term) Val {
	a, id, row := x.useArr(st, s, "read")
	at := Add(s.off, i)
	if row != nil {
		return Select(Select(a.content, row), at)
	}
	if a.nested {
		inner, _ := isSlice(a.elem)
		return &SliceVal{arr: id, row: at, off: Int(0), len: Select(a.rowlen, at), elem: inner}
	}
	return Select(a.content, at)
}

func (x *Exec) storeElem(st *State, s *SliceVal, i *Term, v Val) {
	a, id, row := x.useArr(st, s, "write")
	at := Add(s.off, i)
	x.logArr(id)
	if a.owner != nil {
		o := st.open[a.owner]
		if o == nil {
			x.emit(st, "ownership: write to an array of an object that is not being updated", False)
		} else {
			o.dirty = true
			x.logTouch(a.owner)
		}
	} else if a.param != "" {
		x.logParamWrite(st, a.param)
	}
	if row != nil {
		a.content = Store(a.content, row, Store(Select(a.content, row), at, v.(*Term)))
		return
	}
	if a.nested {
		if x.log != nil {
			x.log.rls[id] = true
		}
		sv, ok := v.(*SliceVal)
		if !ok {
			panic(unsupported("storing %T into a slice of slices", v))
		}
		// rows that were moved here before and are overwritten now
		for _, o := range st.arrs {
			if o.fwdArr == id {
				if d, ok := diffConst(o.fwdRow, at); ok && d != 0 {
					continue
				}
				o.dead = "its row was replaced"
			}
		}
		if sv.arr == 0 {
			a.rowlen = Store(a.rowlen, at, Int(0))
			a.content = Store(a.content, at, zeroOf(elemOf(a.content.sort)))
			return
		}
		src, sid, srow := x.useArr(st, sv, "read")
		if srow != nil || src.owner != nil || src.param != "" || sv.off != Int(0) || sid == id {
			x.emit(st, "ownership: a row that belongs to something else is stored", False)
			a.content = Store(a.content, at, x.fresh("row", elemOf(a.content.sort)))
			a.rowlen = Store(a.rowlen, at, sv.len)
			return
		}
		a.content = Store(a.content, at, src.content)
		a.rowlen = Store(a.rowlen, at, sv.len)
		src.fwdArr, src.fwdRow = id, at
		return
	}
	t, ok := v.(*Term)
	if !ok {
		if _, op := v.(*Opaque); op {
			return
		}
		panic(unsupported("storing %T into a slice", v))
	}
	a.content = Store(a.content, at, t)
}

// ---- objects ----

func fieldFn(class, field, part string) string { return "F." + class + "." + field + part }

// fieldVal builds the value of a field of a valid (folded) object at a version
func (x *Exec) closedField(st *State, class string, f *types.Var, ref, ver *Term, mkArr bool) Val {
	t := types.Unalias(f.Type())
	if elem, ok := isSlice(t); ok {
		n := App(fieldFn(class, f.Name(), "#len"), SInt, ref, ver)
		id := int(atomic.AddInt64(&x.arrSeq, 1))
		a := &Arr{elem: elem, length: n, owner: ref, ofield: f.Name()}
		if inner, ok := isSlice(elem); ok {
			a.nested = true
			a.content = App(fieldFn(class, f.Name(), ""), arrOf(arrOf(x.sortOf(inner))), ref, ver)
			a.rowlen = App(fieldFn(class, f.Name(), "#rl"), SInts, ref, ver)
		} else {
			a.content = App(fieldFn(class, f.Name(), ""), arrOf(x.elemSort(elem)), ref, ver)
		}
		st.arrs[id] = a
		if !st.valid["len "+n.String()] {
			st.valid["len "+n.String()] = true
			st.assume(Le(Int(0), n))
		}
		return &SliceVal{arr: id, off: Int(0), len: n, elem: elem}
	}
	if isStructVal(t) {
		return &Opaque{"embedded " + f.Name()}
	}
	v := App(fieldFn(class, f.Name(), ""), x.sortOf(t), ref, ver)
	if _, ok := t.(*types.TypeParam); !ok {
		switch u := t.Underlying().(type) {
		case *types.Signature:
			return &UnkFn{name: "field:" + f.Name(), term: v, sig: u}
		case *types.Pointer, *types.Interface:
			st.assume(Le(Int(0), v))
			st.assume(Le(v, st.alloc))
		}
	}
	return v
}

func (x *Exec) openObj(st *State, ref *Term, t types.Type) *ObjRec {
	class, s := repClass(t)
	if o := st.open[ref]; o != nil {
		if o.class != class && o.class != "" {
			panic(unsupported("object %s opened both as %s and %s", ref, o.class, class))
		}
		return o
	}
	x.nonNil(st, ref, "use of "+class)
	// the object must be valid, that is, not another name of one that is being updated
	for r, o := range st.open {
		if o.class == class && o.dirty && !distinctRefs(r, ref) {
			x.emit(st, "ownership: two names for one "+class+" while it is being updated", Not(Eq(r, ref)))
		}
	}
	if !strings.HasPrefix(ref.name, "new!") {
		refClass.LoadOrStore(ref, class)
	}
	o := &ObjRec{ref: ref, class: class, fields: map[string]Val{}, ver: Select(st.g["ver"], ref)}
	for i := 0; i < s.NumFields(); i++ {
		o.fields[s.Field(i).Name()] = x.closedField(st, class, s.Field(i), ref, o.ver, true)
	}
	if c := spec.classes[class]; c != nil {
		for _, g := range c.guards {
			ev := x.evalFor(st, nil, nil)
			ev.env["self"] = SV{t: ref, typ: t}
			if !x.valid(st, ev.boolTerm(g.expr)) {
				// its invariant may not hold any more: it has to be proved again before anything else may use the object
				o.dirty = true
			}
		}
	}
	st.open[ref] = o
	x.logOpen(ref)
	if o.dirty {
		x.logTouch(ref)
		return o
	}
	x.assumeInv(st, o, t)
	return o
}

// assumeInv adds the class invariant and the definition of the abstract views for a valid object
func (x *Exec) assumeInv(st *State, o *ObjRec, t types.Type) {
	key := "inv " + o.class + " " + o.ref.String() + " " + o.ver.String()
	if st.valid[key] {
		return
	}
	st.valid[key] = true
	c := spec.classes[o.class]
	if c == nil {
		return
	}
	ev := x.evalFor(st, nil, nil)
	ev.env["self"] = SV{t: o.ref, typ: t}
	for _, inv := range c.invs {
		if inv.active(x.tag) {
			st.assume(ev.boolTerm(inv.expr))
		}
	}
	for _, v := range c.views {
		if len(v.tags) > 0 && !tagActive(v.tags, x.tag) {
			continue
		}
		st.assume(x.viewDef(ev, v, o.ref, st))
	}
	for _, n := range c.attrOrd {
		st.assume(Eq(App(n, SBool, o.ref), ev.boolTerm(c.attrs[n])))
	}
}

func tagActive(tags []string, tag string) bool {
	if tag == "" || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == tag {
			return true
		}
	}
	return false
}

// viewDef: the abstract component equals its definition over the fields
func (x *Exec) viewDef(ev *Eval, v *View, ref *Term, st *State) *Term {
	if len(v.params) == 0 {
		lhs := Select(st.g[v.name], ref)
		return Eq(lhs, ev.term(v.expr))
	}
	var vars []*Term
	lhs := Select(st.g[v.name], ref)
	for _, p := range v.params {
		bv := BVar(fmt.Sprintf("%s?%d", p, ev.depth), SInt)
		ev.depth++
		vars = append(vars, bv)
		ev.push(p, SV{t: bv})
		lhs = Select(lhs, bv)
	}
	body := Eq(lhs, ev.term(v.expr))
	for _, p := range v.params {
		ev.pop(p)
	}
	ev.depth -= len(v.params)
	return Forall(vars, body, []*Term{lhs})
}

func (x *Exec) bvar(n string, s Sort) *Term {
	return BVar(n+"?x", s)
}

func (x *Exec) nonNil(st *State, ref *Term, what string) {
	if ref.op == "sym" && (strings.HasPrefix(ref.name, "new!")) {
		return
	}
	if v, ok := st.known(Eq(ref, Int(0))); ok && !v {
		return
	}
	if v, ok := st.known(Lt(Int(0), ref)); ok && v {
		return
	}
	x.emit(st, "no nil dereference: "+what, Not(Eq(ref, Int(0))))
}

// foldObj closes an object that was being updated: its invariant is proved and its views are redefined
func (x *Exec) foldObj(st *State, o *ObjRec) {
	if !o.dirty {
		return
	}
	x.logFold(o.ref)
	t := x.classType(o.class)
	_, s := repClass(t)
	c := spec.classes[o.class]
	nver := x.fresh("ver", SInt)
	used := map[int]string{}
	facts := []*Term{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := o.fields[f.Name()]
		switch v := v.(type) {
		case *SliceVal:
			n := App(fieldFn(o.class, f.Name(), "#len"), SInt, o.ref, nver)
			elem, _ := isSlice(f.Type())
			nested := false
			var is Sort
			if inner, ok := isSlice(elem); ok {
				nested = true
				is = x.sortOf(inner)
			}
			if v.arr == 0 {
				facts = append(facts, Eq(n, Int(0)))
				break
			}
			a, id, row := x.arrOfSlice(st, v)
			label := "ownership: field " + o.class + "." + f.Name() + " holds an array of its own"
			switch {
			case row != nil:
				x.emit(st, label, False)
				continue
			case a.dead != "" || a.poisoned:
				x.emit(st, label, False)
			case a.owner != nil && !(a.owner == o.ref && a.ofield == f.Name()):
				x.emit(st, label, False)
			case a.param != "" && !x.ownsParam(a.param):
				x.emit(st, label, False)
			case used[id] != "":
				x.emit(st, label+" (shared with "+used[id]+")", False)
			default:
				x.emit(st, label, True)
			}
			used[id] = f.Name()
			a.owner, a.ofield = o.ref, f.Name()
			facts = append(facts, Eq(n, v.len))
			if nested {
				if v.off != Int(0) {
					panic(unsupported("offset in a field of slices"))
				}
				facts = append(facts, Eq(App(fieldFn(o.class, f.Name(), ""), arrOf(arrOf(is)), o.ref, nver), a.content))
				facts = append(facts, Eq(App(fieldFn(o.class, f.Name(), "#rl"), SInts, o.ref, nver), a.rowlen))
			} else {
				fc := App(fieldFn(o.class, f.Name(), ""), a.content.sort, o.ref, nver)
				if v.off == Int(0) {
					facts = append(facts, Eq(fc, a.content))
				} else {
					bv := x.bvar("i", SInt)
					facts = append(facts, Forall([]*Term{bv}, Eq(Select(fc, bv), Select(a.content, Add(v.off, bv))), []*Term{Select(fc, bv)}))
				}
			}
		case *Term:
			facts = append(facts, Eq(App(fieldFn(o.class, f.Name(), ""), v.sort, o.ref, nver), v))
		case *UnkFn:
			facts = append(facts, Eq(App(fieldFn(o.class, f.Name(), ""), SInt, o.ref, nver), v.term))
		case *Closure:
			id := x.closureTerm(st, v)
			facts = append(facts, Eq(App(fieldFn(o.class, f.Name(), ""), SInt, o.ref, nver), id))
		case NilFn, *Opaque, *StructVal:
		default:
			panic(unsupported("field %s.%s holds a %T", o.class, f.Name(), v))
		}
	}
	for _, f := range facts {
		st.assume(f)
	}
	st.g["ver"] = Store(st.g["ver"], o.ref, nver)
	x.logGhost(st, "ver", o.ref)
	o.ver = nver
	if c != nil {
		// what is known of the objects it refers to
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fc := spec.classes[structName(f.Type())]
			if tm, ok := o.fields[f.Name()].(*Term); ok && fc != nil && len(fc.guards) == 0 && tm != Int(0) && st.open[tm] == nil {
				if _, isp := types.Unalias(f.Type()).(*types.Pointer); isp && x.valid(st, Not(Eq(tm, Int(0)))) {
					x.openObj(st, tm, f.Type())
				}
			}
		}
		// the invariant is proved over the closed fields
		o.dirty = false
		ev := x.evalFor(st, nil, nil)
		ev.env["self"] = SV{t: o.ref, typ: t}
		if o.isnew {
			for _, n := range c.attrOrd {
				st.assume(Eq(App(n, SBool, o.ref), ev.boolTerm(c.attrs[n])))
			}
		}
		// new views
		for _, v := range c.views {
			if len(v.tags) > 0 && !tagActive(v.tags, x.tag) {
				continue
			}
			var nv *Term
			if len(v.params) == 0 {
				nv = ev.term(v.expr)
			} else {
				nv = x.fresh(v.name, spec.ghosts[v.name])
			}
			was := Select(st.g[v.name], o.ref)
			st.g[v.name] = Store(st.g[v.name], o.ref, nv)
			x.logGhost(st, v.name, o.ref)
			if len(v.params) > 0 {
				st.assume(x.viewDef(ev, v, o.ref, st))
			}
			if len(v.params) == 2 && v.name == "mat" && !o.isnew {
				// whoever looks at an element looks at what it was
				r, c := x.bvar("r", SInt), x.bvar("c", SInt)
				st.assume(Forall([]*Term{r, c}, App("seen", SBool, Select(Select(was, r), c)), []*Term{Select(Select(nv, r), c)}))
			}
		}
		for _, inv := range c.invs {
			if inv.active(x.tag) {
				x.emit(st, fmt.Sprintf("invariant %s#%d", o.class, inv.idx), ev.boolTerm(inv.expr))
			}
		}
		st.valid["inv "+o.class+" "+o.ref.String()+" "+o.ver.String()] = true
	}
	o.dirty = false
	o.isnew = false
}

func (x *Exec) foldAll(st *State) {
	for {
		var pick *ObjRec
		for _, o := range st.open {
			if o.dirty && !o.stack && (pick == nil || lessRef(o, pick)) {
				pick = o
			}
		}
		if pick == nil {
			return
		}
		x.foldObj(st, pick)
	}
}

// foldFor closes the objects a called function may look at: all but those of private classes
// that are neither passed to it nor owned by one that is (nothing else refers to such objects)
func (x *Exec) foldFor(st *State, self SV, args []Val) {
	reach := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		if o := st.open[t]; o != nil {
			for _, v := range o.fields {
				if f, ok := v.(*Term); ok && f.sort == SInt {
					add(f)
				}
			}
		}
	}
	if self.t != nil {
		add(self.t)
	}
	for _, a := range args {
		if t, ok := a.(*Term); ok {
			add(t)
		}
	}
	var keep []*ObjRec
	for _, o := range st.open {
		c := spec.classes[o.class]
		if o.dirty && !o.stack && c != nil && c.private && !reach[o.ref] {
			o.stack = true
			keep = append(keep, o)
		}
	}
	x.foldAll(st)
	for _, o := range keep {
		o.stack = false
	}
}

// fold matrices before the objects that refer to them
func lessRef(a, b *ObjRec) bool {
	pa, pb := strings.Contains(a.class, "terator") || strings.Contains(a.class, "Map"), strings.Contains(b.class, "terator") || strings.Contains(b.class, "Map")
	if pa != pb {
		return !pa
	}
	if ma, mb := strings.Contains(a.class, "Map"), strings.Contains(b.class, "Map"); ma != mb {
		return !ma
	}
	return a.ref.id < b.ref.id
}

// drop the fields of an object whose state was changed through its contract
func (x *Exec) dropObj(st *State, ref *Term) {
	for r, o := range st.open {
		if r != ref && distinctRefs(r, ref) {
			continue
		}
		if r == ref || !o.dirty {
			for _, v := range o.fields {
				if s, ok := v.(*SliceVal); ok && s.arr != 0 {
					if a, _, _ := x.arrOfSlice(st, s); a != nil {
						a.dead = "its owner was updated"
					}
				}
			}
			delete(st.open, r)
		}
	}
}

func (x *Exec) loadField(st *State, ref *Term, t types.Type, field string) Val {
	o := x.openObj(st, ref, t)
	v, ok := o.fields[field]
	if !ok {
		panic(unsupported("no field %s in %s", field, o.class))
	}
	return v
}

func (x *Exec) storeField(st *State, ref *Term, t types.Type, field string, v Val) {
	o := x.openObj(st, ref, t)
	o.fields[field] = v
	o.dirty = true
	x.logField(ref, o.class, field)
}
