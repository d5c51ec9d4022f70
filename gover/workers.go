package main

import (
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Goroutines that each compute something and hand it over on a channel.
//
// Such a goroutine is run to its end where it is started. Every other schedule is equivalent because
// of what is required of everybody: while it runs, until its message is received, nothing is written
// except objects created after the latest goroutine was started, which it can get hold of in no way;
// it writes only objects it has created itself; it sends one message, with which it ends. Which of
// the outstanding messages a receive gets is left open: an unknown number picks it, different from
// those picked before.

type message struct {
	ch    *Term
	val   Val
	got   bool
	batch *batch
}

// batch: the messages outstanding when the first of several is received
type batch struct {
	msgs  []*message
	picks []*Term
	facts []*Term
}

func (x *Exec) noLoops(st *State, what string) {
	for _, fr := range st.frames {
		for _, l := range fr.loops {
			if !l.unroll {
				panic(unsupported("%s in a loop in %s", what, st.top().fn))
			}
		}
	}
}

func outstanding(st *State) (n int) {
	for _, m := range st.msgs {
		if !m.got {
			n++
		}
	}
	return
}

func (x *Exec) goWorker(st *State, c *ssa.CallCommon, fv Val, args []Val, k func(*State)) {
	if x.worker != nil || x.inGo > 0 || x.quiet > 0 && x.mark == nil || x.con == nil || len(st.calls) > 0 {
		panic(unsupported("go statement in %s", st.top().fn))
	}
	x.noLoops(st, "go statement")
	for _, m := range st.msgs {
		if m.batch != nil && !m.got {
			panic(unsupported("go statement in %s while some of several messages have been received", st.top().fn))
		}
	}
	x.foldMost(st)
	q0, m0 := x.quiet, x.mark
	sent := 0
	x.quiet, x.worker = 1, &sent
	x.mark = &mark{atomic.LoadInt64(&x.seq), atomic.LoadInt64(&x.arrSeq)}
	mk := x.mark
	n := len(st.frames)
	nm := len(st.msgs)
	x.barrier(st, func(st *State) {
		x.emit(st, "a goroutine does not panic", False)
	})
	x.invoke(st, c, fv, args, func(st *State, _ Val) {
		st.frames = st.frames[:n:n]
		x.emit(st, "a goroutine hands over one result", Bool(len(st.msgs) == nm+1))
		if st.contradictory() {
			return
		}
		q, w, m := x.quiet, x.worker, x.mark
		x.quiet, x.worker, x.mark = 1, nil, mk
		k(st)
		x.quiet, x.worker, x.mark = q, w, m
	}, "go statement")
	x.quiet, x.worker, x.mark = q0, nil, m0
}

// hand: a goroutine sends what it has computed
func (x *Exec) hand(st *State, ch *ChanVal, v Val, k func(*State)) {
	x.emit(st, "nothing is sent on a closed channel", Not(Select(st.g["closed"], ch.ref)))
	if p, _ := x.procOf(st, ch.ref); p != nil || len(st.frames) == 0 {
		panic(unsupported("channel send in %s", st.top().fn))
	}
	x.noLoops(st, "channel send")
	switch q := v.(type) {
	case *Term:
		if o := st.open[q]; o != nil && spec.classes[o.class] == nil {
			// a message of several parts
			if born(q) <= x.mark.seq {
				panic(unsupported("a goroutine sends an object it has not created"))
			}
			o.stack = true
		}
	case *StructVal:
	default:
		panic(unsupported("channel send of a %T in %s", v, st.top().fn))
	}
	st.msgs = append(st.msgs[:len(st.msgs):len(st.msgs)], &message{ch: ch.ref, val: v})
	// from here on it may write nothing at all
	m := x.mark
	x.mark = nil
	k(st)
	x.mark = m
}

// take: a receive gets one of the messages outstanding
func (x *Exec) take(st *State, ch *ChanVal, commaOk bool, k func(*State, Val)) {
	x.noLoops(st, "channel receive")
	var idx []int
	var b *batch
	for i, m := range st.msgs {
		if m.ch == ch.ref && m.batch != nil && !m.got {
			b = m.batch
		}
		if m.ch == ch.ref && !m.got {
			idx = append(idx, i)
		}
		// channels have to be known apart
		if m.ch != ch.ref && !distinctRefs(m.ch, ch.ref) {
			panic(unsupported("channels that are not known apart in %s", st.top().fn))
		}
	}
	x.emit(st, "the receive does not block forever", Bool(len(idx) > 0))
	if st.contradictory() || len(idx) == 0 {
		return
	}
	st.msgs = append([]*message(nil), st.msgs...)
	var v Val
	if b == nil && len(idx) == 1 {
		m := *st.msgs[idx[0]]
		m.got = true
		st.msgs[idx[0]] = &m
		v = m.val
	} else {
		nb := &batch{}
		if b != nil {
			*nb = *b
		} else {
			for _, i := range idx {
				nb.msgs = append(nb.msgs, st.msgs[i])
			}
		}
		n := int64(len(nb.msgs))
		q := x.fresh("pick", SInt)
		fs := []*Term{Le(Int(0), q), Lt(q, Int(n))}
		for _, p := range nb.picks {
			fs = append(fs, Not(Eq(p, q)))
		}
		nb.picks = append(nb.picks[:len(nb.picks):len(nb.picks)], q)
		if len(nb.picks) == len(nb.msgs) {
			for i := range nb.msgs {
				var or []*Term
				for _, p := range nb.picks {
					or = append(or, Eq(p, Int(int64(i))))
				}
				fs = append(fs, Or(or...))
			}
		}
		nb.facts = append(nb.facts[:len(nb.facts):len(nb.facts)], fs...)
		for _, f := range fs {
			st.assume(f)
		}
		v = x.picked(st, nb, q)
		// as many are marked as received as have been; which ones does not matter
		done := len(nb.picks)
		cnt := 0
		for i, m := range st.msgs {
			if m.ch == ch.ref && (m.batch != nil && b != nil && m.batch == b || b == nil && !m.got) {
				c := *m
				c.batch = nb
				c.got = cnt < done
				cnt++
				st.msgs[i] = &c
			}
		}
	}
	if commaOk {
		v = Tuple{v, True}
	}
	q, m := x.quiet, x.mark
	if outstanding(st) == 0 {
		x.quiet, x.mark = 0, nil
	}
	k(st, v)
	x.quiet, x.mark = q, m
}

// picked: the message with the number given
func (x *Exec) picked(st *State, b *batch, q *Term) Val {
	switch v := b.msgs[0].val.(type) {
	case *Term:
		o := st.open[v]
		if o == nil || spec.classes[o.class] != nil {
			var vs []Val
			for _, m := range b.msgs {
				vs = append(vs, m.val)
			}
			return x.pickVal(st, vs, q)
		}
		ref := x.newRef(st, "msg")
		n := &ObjRec{ref: ref, class: o.class, fields: map[string]Val{}, dirty: true, isnew: true, stack: true}
		for _, f := range sortedKeys(o.fields) {
			var vs []Val
			for _, m := range b.msgs {
				t, ok := m.val.(*Term)
				if !ok || st.open[t] == nil || st.open[t].class != o.class {
					panic(unsupported("messages of different kinds"))
				}
				vs = append(vs, st.open[t].fields[f])
			}
			n.fields[f] = x.pickVal(st, vs, q)
		}
		st.open[ref] = n
		return ref
	case *StructVal:
		r := &StructVal{typ: v.typ, f: map[string]Val{}}
		for _, f := range sortedKeys(v.f) {
			var vs []Val
			for _, m := range b.msgs {
				s, ok := m.val.(*StructVal)
				if !ok {
					panic(unsupported("messages of different kinds"))
				}
				vs = append(vs, s.f[f])
			}
			r.f[f] = x.pickVal(st, vs, q)
		}
		return r
	}
	panic(unsupported("a message that is a %T", b.msgs[0].val))
}

func (x *Exec) pickVal(st *State, vs []Val, q *Term) Val {
	var r *Term
	for i := len(vs) - 1; i >= 0; i-- {
		t, ok := vs[i].(*Term)
		if !ok {
			panic(unsupported("a message with a %T", vs[i]))
		}
		if r == nil {
			r = t
		} else {
			r = Ite(Eq(q, Int(int64(i))), t, r)
		}
	}
	return r
}

// resolve finds out which of the objects received a reference is
func (x *Exec) resolve(st *State, v Val) Val {
	t, ok := v.(*Term)
	if !ok || len(st.msgs) == 0 || t.sort != SInt || t.op == "sym" || t.op == "int" {
		return v
	}
	var facts []*Term
	seen := map[*batch]bool{}
	for _, m := range st.msgs {
		if m.batch != nil && !seen[m.batch] {
			seen[m.batch] = true
			facts = append(facts, m.batch.facts...)
		}
	}
	if len(facts) == 0 {
		return v
	}
	try := func(c Val) bool {
		r, ok := c.(*Term)
		if !ok || r.sort != SInt || born(r) == 0 {
			return false
		}
		return prove(x.mode, facts, Eq(t, r), 0).ok
	}
	for _, m := range st.msgs {
		switch q := m.val.(type) {
		case *Term:
			if o := st.open[q]; o != nil && spec.classes[o.class] == nil {
				for _, f := range sortedKeys(o.fields) {
					if try(o.fields[f]) {
						return o.fields[f]
					}
				}
			} else if try(q) {
				return q
			}
		case *StructVal:
			for _, f := range sortedKeys(q.f) {
				if try(q.f[f]) {
					return q.f[f]
				}
			}
		}
	}
	return v
}
