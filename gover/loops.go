package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.loops[s] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return li
}

// a candidate invariant: an expression with its metavariables bound to loop variables
type cand struct {
	text string
	eval func(st *State, vals map[string]Val) *Term // vals: current values of the loop variables
	key  string
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	vars   []LoopVar
	entry  *State
	init   map[string]Val
	fixed  map[string]SV
	phis   []*ssa.Phi
	wl     *writeLog
}

func (x *Exec) phiVals(st *State, b, from *ssa.BasicBlock) map[*ssa.Phi]Val {
	r := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range b.Preds {
			if e == from {
				r[p] = x.get(st, p.Edges[i])
				break
			}
		}
	}
	return r
}

// steadyPhi: the rounds of the loop leave the value as it is
func steadyPhi(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	same := map[ssa.Value]bool{p: true}
	for again := true; again; {
		again = false
		for b := range body {
			for _, in := range b.Instrs {
				q, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if same[q] || b == p.Block() {
					continue
				}
				all := true
				for _, e := range q.Edges {
					all = all && same[e]
				}
				if all {
					same[q], again = true, true
				}
			}
		}
	}
	back := false
	for i, e := range p.Edges {
		if body[p.Block().Preds[i]] {
			back = true
			if !same[e] {
				return false
			}
		}
	}
	return back
}

// rangeIndex: the hidden counter of a range loop starts at -1 and is incremented before it is tested
func isRangePhi(p *ssa.Phi) bool { return p.Comment == "rangeindex" }

var dbgLoops = os.Getenv("GOVER_DEBUG_LOOPS") != ""

// constTrip: the loop condition is decided by constants at this point
func (x *Exec) constTrip(st *State, b, from *ssa.BasicBlock) (bool, bool) {
	f := st.top()
	saved := map[ssa.Value]Val{}
	set := func(v ssa.Value, val Val) {
		if o, ok := f.env[v]; ok {
			saved[v] = o
		} else {
			saved[v] = nil
		}
		f.env[v] = val
	}
	defer func() {
		for v, o := range saved {
			if o == nil {
				delete(f.env, v)
			} else {
				f.env[v] = o
			}
		}
	}()
	pv := x.phiVals(st, b, from)
	for p, v := range pv {
		set(p, v)
	}
	for _, in := range b.Instrs {
		switch q := in.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			a, ok1 := x.tryTerm(st, q.X)
			c, ok2 := x.tryTerm(st, q.Y)
			if !ok1 || !ok2 || a.sort != SInt || c.sort != SInt {
				return false, false
			}
			switch q.Op {
			case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				set(q, x.binop(st, q))
			default:
				return false, false
			}
		case *ssa.Call:
			if bi, ok := q.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if v, ok := f.env[q.Call.Args[0]]; ok {
					if s, ok := v.(*SliceVal); ok {
						set(q, s.len)
						continue
					}
				}
			}
			return false, false
		case *ssa.If:
			if _, flag := q.Cond.(*ssa.Phi); flag {
				return false, false // a flag, not a count
			}
			c, ok := x.tryTerm(st, q.Cond)
			if !ok {
				return false, false
			}
			if c == True {
				return true, true
			}
			if c == False {
				return false, true
			}
			return false, false
		default:
			return false, false
		}
	}
	return false, false
}

func (x *Exec) tryTerm(st *State, v ssa.Value) (t *Term, ok bool) {
	switch v.(type) {
	case *ssa.Const:
		q, isT := x.get(st, v).(*Term)
		return q, isT
	}
	if q, has := st.top().env[v]; has {
		t, ok = q.(*Term)
		return
	}
	return nil, false
}

func (x *Exec) enterLoop(st *State, b, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	f := st.top()
	// loops whose trip count is a small constant are run as they are
	if more, ok := x.constTrip(st, b, from); ok && st.unroll[b] < 12 {
		st.unroll[b]++
		if !more {
			delete(st.unroll, b)
		}
		al := &activeLoop{header: b, body: body, unroll: true}
		f.loops = append(f.loops[:len(f.loops):len(f.loops)], al)
		x.phis(st, b, from)
		// the header becomes "not active" so that its next visit decides again
		f.loops = f.loops[:len(f.loops)-1]
		x.run(st, b, 0)
		return
	}
	delete(st.unroll, b)
	key := fmt.Sprintf("%s:%d:%s", f.fn.Name(), b.Index, st.path)
	lc := &loopCtx{header: b, body: body, init: map[string]Val{}, fixed: map[string]SV{}}
	pv := x.phiVals(st, b, from)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if steadyPhi(p, body) {
			st.top().env[p] = pv[p] // the same in every round
			continue
		}
		lc.phis = append(lc.phis, p)
		lv := LoopVar{name: p.Name(), phi: p, typ: p.Type()}
		if isRangePhi(p) {
			lv.rng, lv.off = true, 1
		}
		lc.vars = append(lc.vars, lv)
		lc.init[lv.name] = pv[p]
	}
	outer := x.log
	// what the body writes
	wl := newLog()
	heads := 0
	var head *State
	for {
		heads++
		if heads > 12 {
			panic(unsupported("the writes of the loop at %s do not stabilise", b))
		}
		for _, o := range openObjs(st) {
			if wl.folds[o.ref] && o.dirty {
				x.foldObj(st, o)
				wl = newLog() // what the body writes is another matter now
			}
		}
		lc.entry = st
		h := x.havocLoop(st, lc, wl)
		n := wl.size()
		run := newLog()
		x.scouting++
		x.runBody(h, lc, run, func(back *State, from *ssa.BasicBlock) {
			// objects brought up to date at the back edge
			x.foldNew(back, h)
		})
		x.scouting--
		// keep only what exists at the loop entry
		x.restrict(st, run)
		wl.merge(run)
		if wl.size() == n {
			break
		}
	}
	if outer != nil {
		outer.nested = true
		outer.merge(wl)
		x.restrict(st, outer)
	}
	for id := range wl.cells {
		if v, ok := st.cells[id]; ok {
			n := fmt.Sprintf("cell%d", id)
			lc.vars = append(lc.vars, LoopVar{name: n, cell: id, typ: x.valType(v)})
			lc.init[n] = v
		}
	}
	sort.Slice(lc.vars, func(i, j int) bool { return lc.vars[i].name < lc.vars[j].name })
	lc.entry = st.clone()
	head = x.havocLoop(st, lc, wl)
	for _, v := range lc.vars {
		if v.cell != 0 {
			// value in the head state
		}
	}
	lc.wl = wl
	cands := x.candidates(lc, head, st)
	// what the loop may write but leaves as it is
	for _, n := range sortedKeys(wl.ghost) {
		if s := spec.ghosts[n]; n == "ver" || n == "rem" || n == "iver" || s != SInt && s != SBool {
			continue
		}
		var rs []*Term
		for r := range wl.ghost[n] {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			n, r := n, r
			text := fmt.Sprintf("%s of %s as before the loop", n, r)
			was := Select(st.g[n], r)
			cands = append(cands, &cand{text: text, key: text, eval: func(st *State, _ map[string]Val) *Term { return Eq(Select(st.g[n], r), was) }})
		}
	}
	if x.scouting > 0 {
		cands = nil // only what the body writes is of interest
	}
	cands = x.houdini(key, lc, st, head, wl, cands)
	if dbgLoops && x.muted == 0 {
		fmt.Fprintf(os.Stderr, "LOOP %s %s: writes cells=%v arrs=%v fields=%v ghost=%v\n", x.name, key, len(wl.cells), len(wl.arrs), sortedKeys(wl.fields), ghostNames(wl))
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.key)
		}
	}
	// the real run
	for _, c := range cands {
		g := c.eval(st, lc.init)
		x.emit(st, "loop invariant on entry: "+c.text, g)
	}
	hs := head
	hv := x.headVals(hs, lc)
	for _, c := range cands {
		hs.assume(c.eval(hs, hv))
	}
	if hs.contradictory() {
		return
	}
	meas := x.measures(lc, hs, hv)
	h0 := hs.clone()
	al := &activeLoop{header: b, body: body}
	var backs []*State
	var backVals []map[string]Val
	var bmu sync.Mutex
	al.onBack = func(back *State, from *ssa.BasicBlock) {
		bv := x.backVals(back, lc, from)
		x.foldNew(back, h0)
		x.checkBack(back, h0, lc)
		for _, c := range cands {
			x.emit(back, "loop invariant preserved: "+c.text, c.eval(back, bv))
		}
		bmu.Lock()
		backs = append(backs, back)
		backVals = append(backVals, bv)
		bmu.Unlock()
	}
	hf := hs.top()
	hf.loops = append(hf.loops[:len(hf.loops):len(hf.loops)], al)
	x.run(hs, b, 0)
	if x.muted == 0 {
		x.termination(lc, h0, meas, backs, backVals)
	}
}

func ghostNames(wl *writeLog) []string {
	var r []string
	for n, m := range wl.ghost {
		for t := range m {
			r = append(r, n+"("+t.String()+")")
		}
	}
	sort.Strings(r)
	return r
}

func (x *Exec) valType(v Val) types.Type {
	switch q := v.(type) {
	case *SliceVal:
		return types.NewSlice(q.elem)
	}
	return nil
}

// runBody executes the loop body once, silently
func (x *Exec) runBody(h *State, lc *loopCtx, log *writeLog, onBack func(back *State, from *ssa.BasicBlock)) {
	s := h.clone()
	saved := x.log
	x.log = log
	x.muted++
	defer func() { x.log = saved; x.muted-- }()
	f := s.top()
	f.kpanic = func(*State) {}
	al := &activeLoop{header: lc.header, body: lc.body}
	al.onBack = func(b *State, from *ssa.BasicBlock) { onBack(b, from) }
	al.onExit = func(*State) bool { return false }
	// enclosing loops and callers play no part
	f.loops = []*activeLoop{al}
	f.ret = func(*State, Val) {}
	x.run(s, lc.header, 0)
}

// foldNew folds the objects that were not open and dirty at the loop head
func (x *Exec) foldNew(back, head *State) {
	for {
		var pick *ObjRec
		for r, o := range back.open {
			if !o.dirty || o.stack {
				continue
			}
			if head.open[r] != nil {
				continue
			}
			if pick == nil || lessRef(o, pick) {
				pick = o
			}
		}
		if pick == nil {
			return
		}
		x.foldObj(back, pick)
	}
}

func (x *Exec) checkBack(back, head *State, lc *loopCtx) {
	for r, o := range head.open {
		if o.dirty && !o.stack {
			if b := back.open[r]; b == nil {
				panic(unsupported("an object being updated before a loop is closed inside it"))
			}
		}
	}
	if len(back.calls) != len(head.calls) {
		panic(unsupported("a parameter function is called inside a loop"))
	}
}

// restrict a log to things that exist in st
func (x *Exec) restrict(st *State, l *writeLog) {
	for id := range l.cells {
		if _, ok := st.cells[id]; !ok {
			delete(l.cells, id)
		}
	}
	for id := range l.arrs {
		if st.arrs[id] == nil {
			delete(l.arrs, id)
		}
	}
	lim := x.seqAt(st)
	for k, v := range l.fields {
		if o := st.open[v.ref]; o == nil {
			delete(l.fields, k)
		}
	}
	for _, m := range l.ghost {
		for r := range m {
			if !known(r, lim, st) {
				if strings.HasPrefix(r.name, "new!") && r.op == "sym" {
					delete(m, r)
					continue
				}
				panic(unsupported("a loop changes an object that is chosen inside it: %s", r))
			}
		}
	}
	for r := range l.folds {
		if maxSeq(r) > lim {
			delete(l.folds, r)
		}
	}
}

func known(r *Term, lim int64, st *State) bool { return maxSeq(r) <= lim }

// the last symbol number that may occur in the state
func (x *Exec) seqAt(st *State) int64 { return st.mark }

// havocLoop makes the state at the head of an arbitrary iteration
func (x *Exec) havocLoop(st *State, lc *loopCtx, wl *writeLog) *State {
	st.mark = x.seq
	h := st.clone()
	f := h.top()
	f.allocs = nil
	for id := range wl.cells {
		v := h.cells[id]
		h.cells[id] = x.havocLike(h, v, fmt.Sprintf("c%d", id))
	}
	for id := range wl.arrs {
		a := h.arrs[id]
		if a == nil {
			continue
		}
		a.content = x.fresh("lc", a.content.sort)
		if a.nested && wl.rls[id] {
			a.rowlen = x.fresh("lrl", SInts)
		}
	}
	for _, fr := range sortedFields(wl.fields) {
		o := h.open[fr.ref]
		if o == nil {
			continue
		}
		if wl.folds[fr.ref] {
			continue
		}
		v := o.fields[fr.field]
		o.dirty = true
		switch q := v.(type) {
		case *SliceVal:
			nv := x.fieldHavoc(h, o, fr.field, q, wl)
			o.fields[fr.field] = nv
		default:
			o.fields[fr.field] = x.havocLike(h, v, fr.field)
		}
	}
	for r := range wl.touch {
		if o := h.open[r]; o != nil && !wl.folds[r] {
			o.dirty = true
		}
	}
	var gn []string
	for n := range wl.ghost {
		gn = append(gn, n)
	}
	sort.Strings(gn)
	for _, n := range gn {
		var rs []*Term
		for r := range wl.ghost[n] {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			h.g[n] = Store(h.g[n], r, x.fresh("l."+n, spec.ghosts[n]))
			if n == "ver" {
				x.dropObj(h, r)
			}
		}
	}
	na := x.fresh("lalloc", SInt)
	h.assume(Le(h.alloc, na))
	h.alloc = na
	for _, p := range lc.phis {
		f.env[p] = x.havocLike2(h, lc.init[p.Name()], p.Type(), p.Comment)
	}
	for p := range wl.params {
		h.valid["pw "+p] = true
	}
	// what is always true of the objects concerned
	for _, n := range gn {
		for r := range wl.ghost[n] {
			if t := x.refType(st, r); t != nil {
				x.wfFacts(h, r, t)
			}
		}
	}
	return h
}

func sortedFields(m map[string]fieldRef) []fieldRef {
	var r []fieldRef
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

func (x *Exec) fieldHavoc(h *State, o *ObjRec, field string, q *SliceVal, wl *writeLog) Val {
	n := x.fresh(field+".len", SInt)
	h.assume(Le(Int(0), n))
	s := x.newArr(h, q.elem, n, false)
	a := h.arrs[s.arr]
	a.owner, a.ofield = o.ref, field
	return s
}

// refType finds the static type a reference is known by
func (x *Exec) refType(st *State, r *Term) types.Type {
	for _, f := range st.frames {
		for v, val := range f.env {
			if val == Val(r) {
				if len(familyOfType(v.Type())) > 0 {
					return v.Type()
				}
			}
		}
	}
	if o := st.open[r]; o != nil && classTypes[o.class] != nil {
		return x.classType(o.class)
	}
	return nil
}

func (x *Exec) havocLike(h *State, v Val, name string) Val {
	switch q := v.(type) {
	case *Term:
		n := x.fresh(name, q.sort)
		return n
	case *SliceVal:
		n := x.fresh(name+".len", SInt)
		h.assume(Le(Int(0), n))
		return x.newArr(h, q.elem, n, false)
	case *StructVal:
		r := &StructVal{typ: q.typ, f: map[string]Val{}}
		for k, fv := range q.f {
			r.f[k] = x.havocLike(h, fv, name+"."+k)
		}
		return r
	case *Closure, NilFn, *UnkFn:
		panic(unsupported("a function variable changes in a loop"))
	case *Opaque:
		return v
	}
	panic(unsupported("a %T changes in a loop", v))
}

func (x *Exec) havocLike2(h *State, v Val, t types.Type, name string) Val {
	if name == "" {
		name = "phi"
	}
	if _, ok := isSlice(t); ok {
		r := x.havocLike(h, v, name)
		if s, ok := r.(*SliceVal); ok {
			// may be any of the arrays the body knows: not followed
			h.arrs[s.arr].poisoned = true
		}
		return r
	}
	r := x.havocLike(h, v, name)
	if tm, ok := r.(*Term); ok {
		x.refFact(h, t, tm)
		x.wfFacts(h, tm, t)
	}
	return r
}

func (x *Exec) headVals(h *State, lc *loopCtx) map[string]Val {
	r := map[string]Val{}
	for _, v := range lc.vars {
		if v.phi != nil {
			r[v.name] = h.top().env[v.phi]
		} else {
			r[v.name] = h.cells[v.cell]
		}
	}
	return r
}

func (x *Exec) backVals(b *State, lc *loopCtx, from *ssa.BasicBlock) map[string]Val {
	r := map[string]Val{}
	pv := x.phiVals(b, lc.header, from)
	for _, v := range lc.vars {
		if v.phi != nil {
			r[v.name] = pv[v.phi]
		} else {
			r[v.name] = b.cells[v.cell]
		}
	}
	return r
}

func (v LoopVar) adj(val Val) Val {
	if v.rng {
		return Add(val.(*Term), Int(1))
	}
	return val
}

// ---- candidates ----

func (x *Exec) loopTemplates() []*Clause {
	var r []*Clause
	if x.con != nil {
		r = append(r, x.con.of("loop", x.tag)...)
	}
	for _, c := range x.extra {
		if c.kind == "loop" && c.active(x.tag) && !c.everywhere {
			r = append(r, c)
		}
	}
	for _, c := range spec.loops {
		if c.active(x.tag) {
			r = append(r, c)
		}
	}
	return r
}

type binding struct {
	name string
	lv   *LoopVar // varies
	fix  SV       // or fixed
	lab  string
	fref *Term // or a field of an object
	ftyp types.Type
	fnam string
}

func (x *Exec) bindings(lc *loopCtx, head, entry *State, meta string) []binding {
	var r []binding
	seen := map[string]bool{}
	addVar := func(want func(Val, types.Type) bool) {
		for i := range lc.vars {
			v := &lc.vars[i]
			if want(lc.init[v.name], v.typ) {
				r = append(r, binding{name: meta, lv: v, lab: v.name})
			}
		}
	}
	addFixed := func(want func(ssa.Value, Val) bool) {
		f := entry.top()
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			val := f.env[v]
			if _, isPhi := v.(*ssa.Phi); isPhi && lc.isPhi(v) {
				continue
			}
			if !want(v, val) {
				continue
			}
			var id string
			switch q := val.(type) {
			case *Term:
				id = q.String()
			case *SliceVal:
				id = fmt.Sprintf("slice%d/%v/%s/%s", q.arr, q.row, q.off, q.len)
			}
			if seen[id] {
				continue
			}
			seen[id] = true
			ev := x.evalFor(entry, nil, nil)
			r = append(r, binding{name: meta, fix: ev.valSV(val, v.Type()), lab: v.Name()})
		}
		// a loop of a helper: where the loops around the call stand, and what they work on
		for d := len(entry.frames) - 2; d >= 0; d-- {
			f := entry.frames[d]
			var vs []ssa.Value
			for v := range f.env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				t, ok := f.env[v].(*Term)
				ph, isPhi := v.(*ssa.Phi)
				if !ok || !isPhi && meta[0] != 'o' && meta[0] != 'w' && meta[0] != 't' || meta[0] == 'p' || !want(v, t) {
					continue
				}
				if isPhi && isRangePhi(ph) {
					t = Add(t, Int(1))
				}
				if id := t.String(); !seen[id] {
					seen[id] = true
					ev := x.evalFor(entry, nil, nil)
					r = append(r, binding{name: meta, fix: ev.valSV(t, v.Type()), lab: fmt.Sprintf("%s@%d", v.Name(), d)})
				}
			}
		}
	}
	switch meta[0] {
	case 'i':
		addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == SInt && !isRefV(lc, v) })
	case 'k', 'p':
		addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == SInt && !isRefV(lc, v) })
		addFixed(func(sv ssa.Value, v Val) bool {
			if _, isCall := sv.(*ssa.Call); isCall && meta[0] == 'k' {
				return false // results of calls: ?p
			}
			t, ok := v.(*Term)
			return ok && t.sort == SInt && isIntType(sv.Type())
		})
	case 'n':
		// where the loops stand, from the outside in: ?n the outermost, ?n2 the one within it; 0 for
		// loops further in than this one
		lvl := 1
		if len(meta) > 1 {
			lvl = int(meta[1] - '0')
		}
		type at struct {
			f *Frame
			b *ssa.BasicBlock
		}
		var nest []at
		for k, f := range entry.frames {
			blk := f.at
			if k == len(entry.frames)-1 {
				blk = lc.header
			}
			if blk == nil {
				continue
			}
			li := x.info(f.fn)
			var hs []*ssa.BasicBlock
			for h, body := range li.loops {
				if body[blk] && h != lc.header {
					hs = append(hs, h)
				}
			}
			sort.Slice(hs, func(i, j int) bool { return len(li.loops[hs[i]]) > len(li.loops[hs[j]]) })
			for _, h := range hs {
				nest = append(nest, at{f, h})
			}
		}
		switch {
		case lvl == len(nest)+1:
			addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == SInt && !isRefV(lc, v) })
		case lvl > len(nest):
			r = append(r, binding{name: meta, fix: SV{t: Int(0)}, lab: meta + "0"})
		default:
			n := nest[lvl-1]
			for _, in := range n.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				t, ok := n.f.env[p].(*Term)
				if !ok || t.sort != SInt || !isIntType(p.Type()) {
					continue
				}
				if isRangePhi(p) {
					t = Add(t, Int(1))
				}
				ev := x.evalFor(entry, nil, nil)
				r = append(r, binding{name: meta, fix: ev.valSV(t, p.Type()), lab: p.Name()})
			}
		}
	case 'v':
		addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == ST })
	case 'f':
		// values of the element type that the loop does not change
		addFixed(func(sv ssa.Value, v Val) bool { t, ok := v.(*Term); return ok && t.sort == ST })
		var ids []int
		for id := range entry.cells {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if t, ok := entry.cells[id].(*Term); ok && t.sort == ST && (lc.wl == nil || !lc.wl.cells[id]) && !seen[t.String()] {
				seen[t.String()] = true
				r = append(r, binding{name: meta, fix: SV{t: t}, lab: fmt.Sprintf("cell%d", id)})
			}
		}
	case 'c':
		// processes that the loop feeds
		if lc.wl != nil {
			var rs []*Term
			for t := range lc.wl.ghost["acc"] {
				rs = append(rs, t)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			for _, t := range rs {
				r = append(r, binding{name: meta, fix: SV{t: t}, lab: t.String()})
			}
		}
	case 's':
		addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == SStr })
	case 'b':
		addVar(func(v Val, _ types.Type) bool { t, ok := v.(*Term); return ok && t.sort == SBool })
	case 't':
		addFixed(func(sv ssa.Value, v Val) bool {
			fs := familyOfType(sv.Type())
			return len(fs) > 0 && (fs[0] == "Enumerate" || fs[0] == "Map")
		})
	case 'w':
		// matrices whose elements the loop writes
		wr := func(v Val) bool {
			t, ok := v.(*Term)
			return ok && lc.wl != nil && lc.wl.ghost["mat"][t]
		}
		addFixed(func(sv ssa.Value, v Val) bool { return isMatrixType(sv.Type()) && wr(v) })
		for _, n := range sortedKeys(x.params) {
			if sv := x.params[n]; sv.t != nil && sv.t.sort == SInt && sv.typ != nil && isMatrixType(sv.typ) && !seen[sv.t.String()] && wr(sv.t) {
				seen[sv.t.String()] = true
				r = append(r, binding{name: meta, fix: sv, lab: n})
			}
		}
	case 'm':
		// matrices the loop uses and does not write
		addFixed(func(sv ssa.Value, v Val) bool {
			t, ok := v.(*Term)
			if !ok || !isMatrixType(sv.Type()) || sv.Referrers() == nil || lc.wl != nil && lc.wl.ghost["mat"][t] {
				return false
			}
			for _, u := range *sv.Referrers() {
				if lc.body[u.Block()] {
					return true
				}
			}
			return false
		})
	case 'o':
		addVar(func(v Val, t types.Type) bool { _, ok := v.(*Term); return ok && t != nil && isMatrixType(t) })
		addFixed(func(sv ssa.Value, v Val) bool { _, ok := v.(*Term); return ok && isMatrixType(sv.Type()) })
		for _, n := range sortedKeys(x.params) {
			// the function under verification may have called the one with the loop
			if sv := x.params[n]; sv.t != nil && sv.t.sort == SInt && sv.typ != nil && isMatrixType(sv.typ) && !seen[sv.t.String()] {
				seen[sv.t.String()] = true
				r = append(r, binding{name: meta, fix: sv, lab: n})
			}
		}
	case 'x':
		addVar(func(v Val, _ types.Type) bool { _, ok := v.(*SliceVal); return ok })
		addFixed(func(sv ssa.Value, v Val) bool {
			s, ok := v.(*SliceVal)
			return ok && s.arr != 0 && s.row == nil && s.off == Int(0)
		})
		// variables shared with a closure
		var ids []int
		for id := range entry.cells {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			s, ok := entry.cells[id].(*SliceVal)
			if !ok || s.arr == 0 || s.row != nil || s.off != Int(0) || lc.wl != nil && lc.wl.cells[id] {
				continue
			}
			if k := fmt.Sprintf("slice%d/%v/%s/%s", s.arr, s.row, s.off, s.len); !seen[k] {
				seen[k] = true
				r = append(r, binding{name: meta, fix: x.evalFor(entry, nil, nil).valSV(s, types.NewSlice(s.elem)), lab: fmt.Sprintf("cell%d", id)})
			}
		}
		for _, o := range openObjs(entry) {
			for _, fn := range sortedKeys(o.fields) {
				if s, ok := o.fields[fn].(*SliceVal); ok && s.row == nil {
					ct := x.classType(o.class)
					r = append(r, binding{name: meta, lab: o.ref.String() + "." + fn, fref: o.ref, ftyp: ct, fnam: fn})
				}
			}
		}
	case 'y':
		// slices of slices that are not (yet) part of an object
		addFixed(func(sv ssa.Value, v Val) bool {
			s, ok := v.(*SliceVal)
			if !ok || s.arr == 0 || s.row != nil || s.off != Int(0) || entry.arrs[s.arr] == nil || entry.arrs[s.arr].owner != nil {
				return false
			}
			_, nested := isSlice(s.elem)
			return nested
		})
	default:
		panic(unsupported("metavariable ?%s", meta))
	}
	return r
}

func (x *Exec) openAndSelf(st *State) []*ObjRec {
	r := openObjs(st)
	if s := x.params["self"]; x.cls != nil && s.t != nil {
		for _, o := range r {
			if o.ref == s.t {
				return r
			}
		}
		r = append(r, &ObjRec{ref: s.t, class: x.cls.name})
	}
	return r
}

func openObjs(st *State) []*ObjRec {
	var r []*ObjRec
	for _, o := range st.open {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ref.id < r[j].ref.id })
	return r
}

func isIntType(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func isMatrixType(t types.Type) bool {
	fs := familyOfType(t)
	return len(fs) > 0 && fs[0] == "Matrix"
}

func isRefV(lc *loopCtx, v Val) bool { return false }

func (lc *loopCtx) isPhi(v ssa.Value) bool {
	for _, p := range lc.phis {
		if ssa.Value(p) == v {
			return true
		}
	}
	return false
}

func (x *Exec) rootEnv(ev *Eval) {
	for n, v := range x.params {
		if s, ok := v.v.(*SliceVal); ok && ev.st.arrs[s.arr] != nil {
			ev.env[n] = ev.valSV(s, v.typ)
			continue
		}
		ev.env[n] = v
	}
}

func (x *Exec) candidates(lc *loopCtx, head, entry *State) []*cand {
	var out []*cand
	seen := map[string]bool{}
	add := func(c *cand) {
		if !seen[c.key] {
			seen[c.key] = true
			out = append(out, c)
		}
	}
	pre := lc.entry
	type tmpl struct {
		*Clause
		self SV
	}
	var tmpls []tmpl
	for _, cl := range x.loopTemplates() {
		if cl.scope == 1 && lc.wl.nested || cl.scope == 2 && !lc.wl.nested && len(lc.wl.ghost["mat"]) > 0 {
			continue
		}
		tmpls = append(tmpls, tmpl{cl, SV{}})
	}
	for _, o := range x.openAndSelf(head) {
		if c := spec.classes[o.class]; c != nil {
			for _, cl := range c.extra["*"] {
				if cl.kind == "loop" && cl.active(x.tag) {
					tmpls = append(tmpls, tmpl{cl, SV{t: o.ref, typ: x.classType(o.class)}})
				}
			}
		}
	}
	for _, cl := range tmpls {
		ms := map[string]bool{}
		cl.expr.metas(ms)
		names := sortedKeys(ms)
		var rec func(i int, bs []binding)
		rec = func(i int, bs []binding) {
			if i == len(names) {
				bs := append([]binding(nil), bs...)
				lab := ""
				for _, b := range bs {
					lab += " ?" + b.name + "=" + b.lab
				}
				if cl.self.t != nil {
					lab += " self=" + cl.self.t.String()
				}
				cl := cl
				add(&cand{text: cl.text, key: cl.text + lab, eval: func(st *State, vals map[string]Val) *Term {
					ev := x.evalFor(st, x.entry, pre)
					x.rootEnv(ev)
					if cl.self.t != nil {
						ev.env["self"] = cl.self
					}
					ev.meta = map[string]SV{}
					ev.preE = map[string]SV{}
					for _, b := range bs {
						if b.fref != nil {
							ev.meta[b.name] = ev.field(SV{t: b.fref, typ: b.ftyp}, b.fnam)
							pe := x.evalFor(pre, x.entry, pre)
							ev.preE[b.name] = pe.field(SV{t: b.fref, typ: b.ftyp}, b.fnam)
						} else if b.lv != nil {
							ev.meta[b.name] = ev.valSV(b.lv.adj(vals[b.lv.name]), b.lv.typ)
							pe := x.evalFor(pre, x.entry, pre)
							ev.preE[b.name] = pe.valSV(b.lv.adj(lc.init[b.lv.name]), b.lv.typ)
						} else {
							sv := b.fix
							if s, ok := sv.v.(*SliceVal); ok {
								sv = ev.valSV(s, sv.typ)
							}
							ev.meta[b.name] = sv
							ev.preE[b.name] = b.fix
						}
					}
					return ev.boolTerm(cl.expr)
				}})
				return
			}
		next:
			for _, b := range x.bindings(lc, head, entry, names[i]) {
				for _, o := range bs {
					if o.name[0] == b.name[0] && o.lab == b.lab {
						continue next
					}
				}
				rec(i+1, append(bs, b))
			}
		}
		rec(0, nil)
	}
	// the invariants of the objects that are open
	for _, o := range openObjs(head) {
		c := spec.classes[o.class]
		if c == nil || !o.dirty {
			continue
		}
		ref, ct := o.ref, x.classType(o.class)
		for _, inv := range c.invs {
			if !inv.active(x.tag) {
				continue
			}
			inv := inv
			key := "inv " + o.class + " " + ref.String() + " " + inv.text
			add(&cand{text: inv.text, key: key, eval: func(st *State, vals map[string]Val) *Term {
				ev := x.evalFor(st, x.entry, pre)
				ev.env["self"] = SV{t: ref, typ: ct}
				return ev.boolTerm(inv.expr)
			}})
		}
	}
	// bounds
	for i := range lc.vars {
		v := &lc.vars[i]
		iv, ok := lc.init[v.name].(*Term)
		if !ok || iv.sort != SInt || (v.typ != nil && !isIntType(v.typ)) {
			continue
		}
		v0 := *v
		mkb := func(text string, f func(a *Term) *Term) {
			add(&cand{text: text, key: text, eval: func(st *State, vals map[string]Val) *Term {
				t, ok := vals[v0.name].(*Term)
				if !ok {
					return True
				}
				return f(t)
			}})
		}
		init := iv
		mkb(fmt.Sprintf("%s >= %s", vname(v0), init), func(a *Term) *Term { return Le(init, a) })
		mkb(fmt.Sprintf("%s <= %s", vname(v0), init), func(a *Term) *Term { return Le(a, init) })
		// bounds found in the conditions of the loop
		hv := head.top().env
		for _, bd := range x.boundsOf(lc, head, v0, hv) {
			bd := bd
			off := Int(0)
			if v0.rng {
				off = Int(-1)
			}
			mkb(fmt.Sprintf("%s <= %s", vname(v0), Add(bd, off)), func(a *Term) *Term { return Le(a, Add(bd, off)) })
			mkb(fmt.Sprintf("%s < %s", vname(v0), bd), func(a *Term) *Term { return Lt(a, bd) })
		}
		for j := range lc.vars {
			w := lc.vars[j]
			if j == i {
				continue
			}
			wv, ok := lc.init[w.name].(*Term)
			if !ok || wv.sort != SInt || (w.typ != nil && !isIntType(w.typ)) {
				continue
			}
			text := fmt.Sprintf("%s <= %s", vname(v0), vname(w))
			add(&cand{text: text, key: text, eval: func(st *State, vals map[string]Val) *Term {
				a, ok1 := vals[v0.name].(*Term)
				b, ok2 := vals[w.name].(*Term)
				if !ok1 || !ok2 {
					return True
				}
				return Le(a, b)
			}})
		}
	}
	return out
}

func vname(v LoopVar) string {
	if v.phi != nil && v.phi.Comment != "" {
		return v.phi.Comment
	}
	return v.name
}

// boundsOf: integer terms, not changing in the loop, that the loop compares something with
func (x *Exec) boundsOf(lc *loopCtx, head *State, v LoopVar, env map[ssa.Value]Val) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && t.sort == SInt && t.op != "int" && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	f := head.top()
	// a reference: known already, or read from a captured variable
	var refOf func(w ssa.Value) (*Term, bool)
	refOf = func(w ssa.Value) (*Term, bool) {
		if fa, ok := w.(*ssa.FieldAddr); ok {
			class, rs := repClass(fa.X.Type())
			if structOf(fa.X.Type()) != rs && structName(fa.X.Type()) != class {
				return refOf(fa.X) // a struct of just an embedded struct: same object
			}
		}
		if v, ok := f.env[w]; ok {
			t, ok := v.(*Term)
			return t, ok
		}
		if q, ok := w.(*ssa.UnOp); ok && q.Op == token.MUL {
			if p, ok := f.env[q.X].(Ptr); ok && p.kind == "cell" {
				t, ok := head.cells[p.cell].(*Term)
				return t, ok
			}
		}
		return nil, false
	}
	var eval func(w ssa.Value, d int) *Term
	eval = func(w ssa.Value, d int) *Term {
		if lc.isPhi(w) {
			return nil
		}
		if val, ok := f.env[w]; ok {
			t, _ := val.(*Term)
			return t
		}
		if c, ok := w.(*ssa.Const); ok {
			if isIntType(c.Type()) {
				t, _ := x.constant(head, c).(*Term)
				return t
			}
			return nil
		}
		if d > 4 {
			return nil
		}
		switch q := w.(type) {
		case *ssa.UnOp:
			if q.Op == token.MUL {
				if fa, ok := q.X.(*ssa.FieldAddr); ok {
					if o, ok := refOf(fa.X); ok && isIntType(q.Type()) {
						if rec := head.open[o]; rec != nil {
							s := structOf(fa.X.Type())
							t, _ := rec.fields[s.Field(fa.Field).Name()].(*Term)
							return t
						}
						ev := x.evalFor(head, nil, nil)
						defer func() { recover() }()
						s := structOf(fa.X.Type())
						return ev.field(SV{t: o, typ: fa.X.Type()}, s.Field(fa.Field).Name()).t
					}
				}
				switch q.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if p, ok := f.env[q.X].(Ptr); ok && p.kind == "cell" {
						t, _ := head.cells[p.cell].(*Term)
						return t
					}
				}
			}
		case *ssa.Call:
			if bi, ok := q.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if s, ok := f.env[q.Call.Args[0]].(*SliceVal); ok {
					return s.len
				}
			}
			if q.Call.IsInvoke() && len(q.Call.Args) == 0 {
				if o, ok := refOf(q.Call.Value); ok {
					switch q.Call.Method.Name() {
					case "Rows", "Length":
						return Select(head.g["rows"], o)
					case "Columns":
						return Select(head.g["cols"], o)
					}
				}
			}
			if fn, ok := q.Call.Value.(*ssa.Function); ok && len(q.Call.Args) == 1 && fn.Signature.Recv() != nil {
				if o, ok := refOf(q.Call.Args[0]); ok {
					switch fn.Name() {
					case "Rows", "Length":
						return Select(head.g["rows"], o)
					case "Columns":
						return Select(head.g["cols"], o)
					}
				}
			}
		case *ssa.BinOp:
			a, b := eval(q.X, d+1), eval(q.Y, d+1)
			if a != nil && b != nil && a.sort == SInt && b.sort == SInt {
				switch q.Op {
				case token.ADD:
					return Add(a, b)
				case token.SUB:
					return Sub(a, b)
				}
			}
		}
		return nil
	}
	for blk := range lc.body {
		for _, in := range blk.Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				if isIntType(b.X.Type()) {
					add(eval(b.X, 0))
					add(eval(b.Y, 0))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ---- inference ----

func (x *Exec) houdini(key string, lc *loopCtx, st, head *State, wl *writeLog, cands []*cand) []*cand {
	hv := x.headVals(head, lc)
	filter := func(cs []*cand, ok []bool) []*cand {
		var r []*cand
		for i, c := range cs {
			if ok[i] {
				r = append(r, c)
			}
		}
		return r
	}
	// those that cannot be evaluated are no candidates
	okc := make([]bool, len(cands))
	for i, c := range cands {
		okc[i] = evaluable(func() { c.eval(st, lc.init); c.eval(head, hv) })
	}
	cands = filter(cands, okc)
	// on entry
	ok := parallel(len(cands), func(i int) bool {
		g := cands[i].eval(st, lc.init)
		return x.valid(st, g)
	})
	if dbgLoops && x.muted == 0 {
		for i, c := range cands {
			if !ok[i] {
				fmt.Fprintf(os.Stderr, "   [%s] not on entry: %s\n", key, c.key)
			}
		}
	}
	cands = filter(cands, ok)
	x.mu.Lock()
	rej := x.surv[key]
	if rej == nil {
		rej = map[string]bool{}
		x.surv[key] = rej
	}
	x.mu.Unlock()
	{
		var r []*cand
		for _, c := range cands {
			if !rej[c.key] {
				r = append(r, c)
			}
		}
		cands = r
	}
	for round := 0; ; round++ {
		if len(cands) == 0 {
			break
		}
		h := head.clone()
		for _, c := range cands {
			h.assume(c.eval(h, hv))
		}
		if h.contradictory() {
			break
		}
		type bk struct {
			st *State
			v  map[string]Val
		}
		var backs []bk
		x.runBody(h, lc, newLog(), func(b *State, from *ssa.BasicBlock) {
			v := x.backVals(b, lc, from)
			x.foldNew(b, h)
			backs = append(backs, bk{b, v})
		})
		okb := parallel(len(cands), func(i int) bool {
			for _, b := range backs {
				var g *Term
				if !evaluable(func() { g = cands[i].eval(b.st, b.v) }) {
					return false
				}
				if !x.valid(b.st, g) {
					if q := os.Getenv("GOVER_DROP"); q != "" && strings.Contains(cands[i].key, q) {
						os.WriteFile(fmt.Sprintf("/tmp/drop-%d-%d.smt2", round, i), []byte(buildQuery(x.mode, b.st.pc, g)), 0o644)
					}
					return false
				}
			}
			return true
		})
		n := filter(cands, okb)
		if dbgLoops && len(n) != len(cands) {
			for i, c := range cands {
				if !okb[i] {
					fmt.Fprintf(os.Stderr, "   [%s] round %d drops: %s\n", key, round, c.key)
				}
			}
		}
		if len(n) == len(cands) {
			break
		}
		for i, c := range cands {
			if !okb[i] {
				rej[c.key] = true
			}
		}
		cands = n
	}
	return cands
}

func evaluable(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupportedErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func parallel(n int, f func(i int) bool) []bool {
	out := make([]bool, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var perr any
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					perr = r
					mu.Unlock()
				}
			}()
			out[i] = f(i)
		}(i)
	}
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
	return out
}

// ---- termination ----

type measure struct {
	text string
	eval func(st *State, vals map[string]Val) *Term
}

func (x *Exec) measures(lc *loopCtx, h *State, hv map[string]Val) []measure {
	var ms []measure
	var decl []*Clause
	if x.con != nil {
		decl = x.con.of("decreases", x.tag)
	}
	for _, c := range x.extra {
		if c.kind == "decreases" && c.active(x.tag) && !c.everywhere {
			decl = append(decl, c)
		}
	}
	entry := lc.entry
	type tmpl struct {
		*Clause
		self SV
	}
	var tmpls []tmpl
	for _, cl := range decl {
		tmpls = append(tmpls, tmpl{cl, SV{}})
	}
	for _, o := range x.openAndSelf(h) {
		if c := spec.classes[o.class]; c != nil {
			for _, cl := range c.extra["*"] {
				if cl.kind == "decreases" && cl.active(x.tag) {
					tmpls = append(tmpls, tmpl{cl, SV{t: o.ref, typ: x.classType(o.class)}})
				}
			}
		}
	}
	for _, cl := range tmpls {
		cl := cl
		msn := map[string]bool{}
		cl.expr.metas(msn)
		names := sortedKeys(msn)
		var rec func(i int, bs []binding)
		rec = func(i int, bs []binding) {
			if i == len(names) {
				bs := append([]binding(nil), bs...)
				ms = append(ms, measure{cl.text, func(st *State, vals map[string]Val) *Term {
					ev := x.evalFor(st, x.entry, entry)
					x.rootEnv(ev)
					if cl.self.t != nil {
						ev.env["self"] = cl.self
					}
					ev.meta = map[string]SV{}
					for _, b := range bs {
						if b.fref != nil {
							ev.meta[b.name] = ev.field(SV{t: b.fref, typ: b.ftyp}, b.fnam)
						} else if b.lv != nil {
							ev.meta[b.name] = ev.valSV(b.lv.adj(vals[b.lv.name]), b.lv.typ)
						} else {
							ev.meta[b.name] = b.fix
						}
					}
					return ev.term(cl.expr)
				}})
				return
			}
			for _, b := range x.bindings(lc, h, entry, names[i]) {
				rec(i+1, append(bs, b))
			}
		}
		rec(0, nil)
	}
	for i := range lc.vars {
		v := lc.vars[i]
		iv, ok := lc.init[v.name].(*Term)
		if !ok || iv.sort != SInt || (v.typ != nil && !isIntType(v.typ)) {
			continue
		}
		for _, bd := range x.boundsOf(lc, h, v, h.top().env) {
			bd := bd
			ms = append(ms, measure{bd.String() + " - " + vname(v), func(st *State, vals map[string]Val) *Term {
				return Sub(bd, vals[v.name].(*Term))
			}})
		}
		ms = append(ms, measure{vname(v), func(st *State, vals map[string]Val) *Term { return vals[v.name].(*Term) }})
		for j := range lc.vars {
			w := lc.vars[j]
			if wv, ok := lc.init[w.name].(*Term); ok && j != i && wv.sort == SInt && (w.typ == nil || isIntType(w.typ)) {
				ms = append(ms, measure{vname(w) + " - " + vname(v), func(st *State, vals map[string]Val) *Term {
					return Sub(vals[w.name].(*Term), vals[v.name].(*Term))
				}})
			}
		}
	}
	// iterators
	for _, b := range x.bindings(lc, h, entry, "t") {
		b := b
		ms = append(ms, measure{"rem(" + b.lab + ")", func(st *State, vals map[string]Val) *Term {
			return Select(st.g["rem"], b.fix.t)
		}})
	}
	return ms
}

// termination: one measure decreases and stays bounded on every way back to the loop head,
// or a lexicographic pair does
func (x *Exec) termination(lc *loopCtx, h *State, ms []measure, backs []*State, bvs []map[string]Val) {
	if len(backs) == 0 {
		return
	}
	if x.self != nil {
		// a process goes on for as long as its user wants it to
		all := true
		for _, b := range backs {
			all = all && b.recvs > h.recvs
		}
		if all {
			return
		}
	}
	hv := x.headVals(h, lc)
	label := "loop terminates"
	type dec struct{ strict, weak []bool }
	var ds []dec
	try := func(m measure) (d dec, err bool) {
		d.strict = make([]bool, len(backs))
		d.weak = make([]bool, len(backs))
		if !evaluable(func() {
			m0 := m.eval(h, hv)
			res := parallel(len(backs), func(i int) bool {
				m1 := m.eval(backs[i], bvs[i])
				if x.validT(backs[i], And(Lt(m1, m0), Le(Int(-1), m0))) {
					d.strict[i] = true
					d.weak[i] = true
				} else if x.validT(backs[i], Le(m1, m0)) {
					d.weak[i] = true
				}
				return true
			})
			_ = res
		}) {
			return d, true
		}
		return d, false
	}
	all := func(b []bool) bool {
		for _, v := range b {
			if !v {
				return false
			}
		}
		return true
	}
	var names []string
	for _, m := range ms {
		d, bad := try(m)
		if bad {
			continue
		}
		if all(d.strict) {
			x.record(&Obl{fn: x.name, label: label + ": " + m.text, goal: True, mode: x.mode, res: Result{ok: true, answer: "unsat", solver: "z3-ematch"}})
			return
		}
		ds = append(ds, d)
		names = append(names, m.text)
	}
	for i, a := range ds {
		if !all(a.weak) {
			continue
		}
		for j, b := range ds {
			if i == j {
				continue
			}
			ok := true
			for k := range backs {
				if !a.strict[k] && !b.strict[k] {
					ok = false
				}
			}
			if ok {
				x.record(&Obl{fn: x.name, label: label + ": (" + names[i] + ", " + names[j] + ")", goal: True, mode: x.mode, res: Result{ok: true, answer: "unsat", solver: "z3-ematch"}})
				return
			}
		}
	}
	x.record(&Obl{fn: x.name, label: label, goal: False, mode: x.mode, res: Result{ok: false, answer: "no decreasing measure found"}})
}

func (x *Exec) validT(st *State, goal *Term) bool {
	if v, ok := st.known(goal); ok && v {
		return true
	}
	return prove(x.mode, st.pc, goal, 1).ok
}
