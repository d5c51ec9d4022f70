package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels that feed a folding process (contract clause "folds"), and the process itself.
//
// A caller of such a function is given the process by its contract: while it has not been told to
// end, it accepts every element sent to it and applies the operation to what it has and the element;
// told to end it hands over the result, once. All the channels are unbuffered, so a send has taken
// effect when the sender goes on. A goroutine started in between is run to its end where it is
// started; until its starter has received the result it may do nothing that could be observed, which
// makes every other schedule equivalent.

// proc: a folding process known from its contract
type proc struct {
	in, done, out *Term
	op            *Term // function applied
}

type pendingGo struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
}

func (x *Exec) procOf(st *State, ch *Term) (p *proc, role string) {
	for _, p := range st.folds {
		switch ch {
		case p.in:
			return p, "in"
		case p.done:
			return p, "done"
		case p.out:
			return p, "out"
		}
	}
	return nil, ""
}

func (x *Exec) setGhost(st *State, n string, ref, v *Term) {
	st.g[n] = Store(st.g[n], ref, v)
	x.logGhost(st, n, ref)
}

func (x *Exec) chanOf(v Val, st *State) *ChanVal {
	c, ok := v.(*ChanVal)
	if !ok {
		panic(unsupported("a channel that is not known in %s", st.top().fn))
	}
	return c
}

// ---- what a client's actions do to the process ----

// feed: the process takes an element
func (x *Exec) feed(st *State, p *proc, v *Term) {
	acc := Select(st.g["acc"], p.out)
	x.setGhost(st, "acc", p.out, App("fap_TT_T", ST, p.op, acc, v))
}

func (x *Exec) fired(st *State, p *proc) *Term { return Select(st.g["fired"], p.out) }

// sendReady: the condition for a send to go through now (the process takes it)
func (x *Exec) sendReady(st *State, ch *ChanVal) *Term {
	if ch.kind != "chan" {
		panic(unsupported("channel send in %s", st.top().fn))
	}
	x.emit(st, "nothing is sent on a closed channel", Not(Select(st.g["closed"], ch.ref)))
	if x.self != nil && x.self.proc.out == ch.ref {
		return x.fired(st, x.self.proc)
	}
	p, role := x.procOf(st, ch.ref)
	if p == nil || role == "out" {
		return False
	}
	return Not(x.fired(st, p))
}

func (x *Exec) doSend(st *State, ch *ChanVal, v Val, k func(*State)) {
	if x.self != nil && x.self.proc.out == ch.ref {
		p := x.self.proc
		x.emit(st, "the result is handed over once", Not(Select(st.g["taken"], p.out)))
		x.emit(st, "the result is the fold of the elements received", Eq(v.(*Term), Select(st.g["acc"], p.out)))
		x.setGhost(st, "taken", p.out, True)
		k(st)
		return
	}
	p, role := x.procOf(st, ch.ref)
	switch role {
	case "in":
		x.feed(st, p, v.(*Term))
		k(st)
	case "done":
		x.setGhost(st, "fired", p.out, True)
		if x.inGo == 0 {
			k(st)
			return
		}
		// the starter may go on from here: whatever this goroutine still does must not matter
		x.quiet++
		k(st)
		x.quiet--
	default:
		k(st)
	}
}

func (x *Exec) send(st *State, chv, v Val, k func(*State)) {
	ch := x.chanOf(chv, st)
	if x.worker != nil && ch.kind == "chan" {
		x.hand(st, ch, v, k)
		return
	}
	x.emit(st, "the send does not block forever", x.sendReady(st, ch))
	if st.contradictory() {
		return
	}
	x.doSend(st, ch, v, k)
}

func (x *Exec) recv(st *State, chv Val, commaOk bool, k func(*State, Val)) {
	ch := x.chanOf(chv, st)
	if ch.kind == "ctxdone" {
		// only returns once the context is cancelled
		live := App("live", SBool, ch.ctx)
		st.assume(Not(live))
		if x.feasibleBranch(st) {
			k(st, Int(0))
		}
		return
	}
	if x.self != nil && ch.kind == "chan" {
		switch ch.ref {
		case x.self.proc.in, x.self.proc.done:
			x.emit(st, "the process waits for elements and for the end at once", False)
			return
		}
	}
	if ch.kind == "chan" && x.worker == nil && x.inGo == 0 && len(st.msgs) > 0 {
		x.take(st, ch, commaOk, k)
		return
	}
	p, role := x.procOf(st, ch.ref)
	if ch.kind != "chan" || p == nil || role != "out" {
		x.emit(st, "the receive does not block forever", False)
		return
	}
	x.emit(st, "the receive does not block forever", x.fired(st, p))
	x.emit(st, "the result is received once", Not(Select(st.g["taken"], p.out)))
	if st.contradictory() {
		return
	}
	q, g := x.quiet, x.inGo
	if g > 0 {
		panic(unsupported("a goroutine that receives the result in %s", st.top().fn))
	}
	x.quiet = 0
	x.setGhost(st, "taken", p.out, True)
	var v Val = Select(st.g["acc"], p.out)
	if commaOk {
		v = Tuple{v, True}
	}
	k(st, v)
	x.quiet = q
}

func (x *Exec) selectStmt(st *State, in *ssa.Select, next func(*State, Val)) {
	elems := []types.Type{}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			elems = append(elems, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	// the result: the case taken, whether the channel was open, one value per receive
	result := func(st *State, i int64, ok *Term, at int, v Val) Val {
		t := Tuple{Int(i), ok}
		for j, e := range elems {
			if j == at && v != nil {
				t = append(t, v)
			} else if st2, isT := e.Underlying().(*types.Struct); isT && st2.NumFields() == 0 {
				t = append(t, Int(0))
			} else if p, isI := e.Underlying().(*types.Struct); isI && p != nil {
				panic(unsupported("select statement in %s", st.top().fn))
			} else {
				t = append(t, x.zeroVal(st, e))
			}
		}
		return t
	}
	var ready = False
	nr := -1
	// in the process itself: both kinds of requests have to be accepted
	if x.self != nil && !x.started(st, in) {
		x.emit(st, "the process waits for elements and for the end at once", False)
		return
	}
	for i, s := range in.States {
		i, s := i, s
		ch := x.chanOf(x.get(st, s.Chan), st)
		at := -1
		if s.Dir == types.RecvOnly {
			nr++
			at = nr
		}
		b := st.clone()
		b.path += "s" + string(rune('0'+i%10))
		switch {
		case ch.kind == "ctxdone" && s.Dir == types.RecvOnly:
			live := App("live", SBool, ch.ctx)
			if v, ok := st.known(live); ok && v {
				continue
			}
			ready = Or(ready, Not(live))
			b.assume(Not(live))
			if x.feasibleBranch(b) {
				next(b, result(b, int64(i), False, at, nil))
			}
		case s.Dir == types.SendOnly:
			c := x.sendReady(st, ch)
			ready = Or(ready, c)
			b.assume(c)
			if x.feasibleBranch(b) {
				x.doSend(b, ch, x.get(b, s.Send), func(st *State) { next(st, result(st, int64(i), False, -1, nil)) })
			}
		case x.self != nil && ch.kind == "chan" && ch.ref == x.self.proc.in:
			p := x.self.proc
			b.assume(Not(x.fired(b, p)))
			ready = True
			if x.feasibleBranch(b) {
				v := x.fresh("msg", ST)
				b.recvs++
				x.feed(b, p, v)
				next(b, result(b, int64(i), True, at, v))
			}
		case x.self != nil && ch.kind == "chan" && ch.ref == x.self.proc.done:
			p := x.self.proc
			b.assume(Not(x.fired(b, p)))
			ready = True
			if x.feasibleBranch(b) {
				b.recvs++
				x.setGhost(b, "fired", p.out, True)
				next(b, result(b, int64(i), x.fresh("ok", SBool), at, nil))
			}
		default:
			p, role := x.procOf(st, ch.ref)
			if p == nil || role != "out" {
				continue // never ready
			}
			panic(unsupported("select statement in %s", st.top().fn))
		}
	}
	if in.Blocking {
		if x.self != nil {
			x.emit(st, "the process ends after it has been told to", Not(x.fired(st, x.self.proc)))
			return
		}
		x.emit(st, "the select does not block forever", ready)
		return
	}
	d := st
	d.path += "sd"
	next(d, result(d, -1, False, -1, nil))
}

// started: a select of the process has a case for elements and one for the end
func (x *Exec) started(st *State, in *ssa.Select) bool {
	var a, b bool
	for _, s := range in.States {
		ch := x.chanOf(x.get(st, s.Chan), st)
		if ch.kind == "chan" && s.Dir == types.RecvOnly {
			a = a || ch.ref == x.self.proc.in
			b = b || ch.ref == x.self.proc.done
		}
	}
	return in.Blocking && a && b
}

func (x *Exec) goStmt(st *State, c *ssa.CallCommon, fv Val, args []Val, k func(*State)) {
	if len(st.folds) == 0 && !(x.con != nil && len(x.con.of("folds", x.tag)) > 0) {
		x.goWorker(st, c, fv, args, k)
		return
	}
	if x.inGo > 0 || x.quiet > 0 {
		panic(unsupported("go statement in %s", st.top().fn))
	}
	if x.con != nil && len(x.con.of("folds", x.tag)) > 0 {
		// run when the function has returned
		for _, l := range st.top().loops {
			if !l.unroll {
				panic(unsupported("go statement in a loop in %s", st.top().fn))
			}
		}
		st.pending = append(st.pending[:len(st.pending):len(st.pending)], pendingGo{c, fv, args})
		x.quiet++
		k(st)
		x.quiet--
		return
	}
	if len(st.folds) == 0 {
		panic(unsupported("go statement in %s", st.top().fn))
	}
	for _, fr := range st.frames {
		for _, l := range fr.loops {
			if !l.unroll {
				panic(unsupported("go statement in a loop in %s", st.top().fn))
			}
		}
	}
	x.inGo++
	n := len(st.frames)
	x.barrier(st, func(st *State) {
		x.emit(st, "a goroutine does not panic", False)
	})
	x.invoke(st, c, fv, args, func(st *State, _ Val) {
		st.frames = st.frames[:n:n]
		g, q := x.inGo, x.quiet
		x.inGo = 0
		if x.quiet == 0 {
			x.quiet = 1
		}
		k(st)
		x.inGo, x.quiet = g, q
	}, "go statement")
	x.inGo--
}

// barrier pushes a frame at which panics end
func (x *Exec) barrier(st *State, f func(*State)) {
	fr := &Frame{fn: st.top().fn, env: map[ssa.Value]Val{}}
	fr.kpanic = f
	fr.barrier = true
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
}

func (x *Exec) makeChan(st *State, in *ssa.MakeChan) Val {
	c, ok := in.Size.(*ssa.Const)
	buffered := true
	if ok && c.Value != nil {
		if n, exact := constant.Int64Val(constant.ToInt(c.Value)); exact && n == 0 {
			buffered = false
		}
	}
	ref := x.newRef(st, "chan")
	for _, n := range []string{"fired", "taken", "closed"} {
		if st.g[n] != nil {
			st.g[n] = Store(st.g[n], ref, False)
		}
	}
	return &ChanVal{kind: "chan", ref: ref, buffered: buffered}
}

func (x *Exec) closeChan(st *State, v Val) {
	ch := x.chanOf(v, st)
	if ch.kind != "chan" {
		panic(unsupported("close"))
	}
	x.emit(st, "a channel is closed once", Not(Select(st.g["closed"], ch.ref)))
	if p, role := x.procOf(st, ch.ref); p != nil {
		switch role {
		case "in":
			x.emit(st, "the elements are not closed before the end", x.fired(st, p))
		case "done":
			x.setGhost(st, "fired", p.out, True)
		default:
			x.emit(st, "the result's channel is closed by the process", False)
		}
	}
	if x.self != nil {
		switch ch.ref {
		case x.self.proc.in, x.self.proc.done:
			x.emit(st, "the process closes no channel of its user", False)
		case x.self.proc.out:
			x.emit(st, "the result is handed over before its channel is closed", Select(st.g["taken"], ch.ref))
		}
	}
	x.setGhost(st, "closed", ch.ref, True)
}

// registerFold: the contract called says that a process has been started
func (x *Exec) registerFold(st *State, con *Contract, ev *Eval, where string) {
	for _, c := range con.of("folds", x.tag) {
		in, ok1 := ev.env[c.outs[0]].v.(*ChanVal)
		done, ok2 := ev.env[c.outs[1]].v.(*ChanVal)
		out, ok3 := ev.env[c.outs[2]].v.(*ChanVal)
		if !ok1 || !ok2 || !ok3 || in.kind != "chan" || done.kind != "chan" || in.ref == done.ref {
			panic(unsupported("channels that are not known at %s", where))
		}
		x.emit(st, "the channels of "+con.key+" are not buffered at "+where, Bool(!in.buffered && !done.buffered))
		for _, ch := range []*ChanVal{in, done} {
			x.emit(st, "the channels of "+con.key+" are open and not in use at "+where, Not(Select(st.g["closed"], ch.ref)))
			if p, _ := x.procOf(st, ch.ref); p != nil {
				x.emit(st, "the channels of "+con.key+" are open and not in use at "+where, False)
			}
		}
		p := &proc{in: in.ref, done: done.ref, out: out.ref, op: ev.term(c.exprs[0])}
		x.setGhost(st, "acc", p.out, ev.term(c.exprs[1]))
		x.setGhost(st, "fired", p.out, False)
		x.setGhost(st, "taken", p.out, False)
		st.folds = append(st.folds[:len(st.folds):len(st.folds)], p)
	}
}

// selfProc: the process a function under verification has started
type selfProc struct{ proc *proc }

// checkFolds runs the goroutine the function has left behind and checks that it is the process the
// contract promises
func (x *Exec) checkFolds(st *State, ev *Eval, k func(*State)) {
	cs := x.con.of("folds", x.tag)
	if len(cs) == 0 {
		if len(st.pending) > 0 {
			panic(unsupported("a goroutine is left behind"))
		}
		for _, m := range st.msgs {
			x.emit(st, "every goroutine started has ended", Bool(m.got))
		}
		k(st)
		return
	}
	if len(cs) != 1 || len(st.pending) != 1 {
		x.emit(st, "one process is started", False)
		return
	}
	c := cs[0]
	in, done := ev.env[c.outs[0]].v.(*ChanVal), ev.env[c.outs[1]].v.(*ChanVal)
	out, ok := ev.env[c.outs[2]].v.(*ChanVal)
	if !ok || out.kind != "chan" || out.buffered {
		x.emit(st, "the result's channel is a new one that is not buffered", False)
		return
	}
	x.emit(st, "the result's channel is open", Not(Select(st.g["closed"], out.ref)))
	p := &proc{in: in.ref, done: done.ref, out: out.ref, op: ev.term(c.exprs[0])}
	st.g["acc"] = Store(st.g["acc"], p.out, ev.term(c.exprs[1]))
	st.g["fired"] = Store(st.g["fired"], p.out, False)
	st.g["taken"] = Store(st.g["taken"], p.out, False)
	pg := st.pending[0]
	st.pending = nil
	x.self = &selfProc{p}
	q := x.quiet
	x.quiet = 0
	x.inGo++
	st.frames = []*Frame{{fn: x.fn, env: map[ssa.Value]Val{}, barrier: true, kpanic: func(st *State) { x.emit(st, "a goroutine does not panic", False) }}}
	x.invoke(st, pg.call, pg.fv, pg.args, func(st *State, _ Val) {
		x.emit(st, "the process hands over its result before it ends", Select(st.g["taken"], p.out))
		s := x.self
		x.self = nil
		k(st)
		x.self = s
	}, "go statement")
	x.inGo--
	x.quiet = q
	x.self = nil
}
