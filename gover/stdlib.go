package main

import (
	"go/types"
)

// A few functions of the standard library that work on slices and are often used instead of a loop.

// searchFacts: what a binary search for v in s returns, whether s is sorted or not
func (x *Exec) searchFacts(st *State, s *SliceVal, v *Term, less func(a, b *Term) *Term) *Term {
	p := x.fresh("pos", SInt)
	st.assume(Le(Int(0), p))
	st.assume(Le(p, s.len))
	sc := x.sliceContent(st, s)
	at := func(i *Term) *Term { return Select(sc, Add(s.off, i)) }
	st.assume(Implies(Lt(Int(0), p), less(at(Sub(p, Int(1))), v)))
	st.assume(Implies(Lt(p, s.len), Not(less(at(p), v))))
	return p
}

// quietly runs f, in which nothing may be written that existed before
func (x *Exec) quietly(st *State, f func()) {
	saved := x.log
	log := newLog()
	x.log = log
	f()
	x.log = saved
	for id := range log.cells {
		if _, ok := st.cells[id]; ok {
			panic(unsupported("a function argument of the standard library writes a variable"))
		}
	}
	for id := range log.arrs {
		if st.arrs[id] != nil {
			panic(unsupported("a function argument of the standard library writes a slice"))
		}
	}
	if len(log.fields) > 0 || len(log.ghost) > 0 || len(log.params) > 0 {
		panic(unsupported("a function argument of the standard library writes an object"))
	}
	if saved != nil {
		saved.merge(log)
	}
}

// search is sort.Search: the predicate may be asked about any place, and the result is one before which it fails and
// at which it holds
func (x *Exec) search(st *State, n *Term, f *Closure, k func(*State, Val), where string) {
	sig := f.fn.Signature
	i := x.fresh("probe", SInt)
	probe := st.clone()
	probe.assume(Le(Int(0), i))
	probe.assume(Lt(i, n))
	x.quietly(st, func() {
		if !probe.contradictory() {
			x.callFn(probe, f, []Val{i}, sig, func(*State, Val) {}, where)
		}
	})
	p := x.fresh("pos", SInt)
	st.assume(Le(Int(0), p))
	st.assume(Or(Le(p, n), Eq(p, Int(0))))
	x.branch(st, Lt(Int(0), p), func(st *State, after bool) {
		rest := func(st *State) {
			x.branch(st, Lt(p, n), func(st *State, before bool) {
				if !before {
					k(st, p)
					return
				}
				x.callFn(st, f, []Val{p}, sig, func(st *State, v Val) {
					st.assume(v.(*Term))
					if !st.contradictory() {
						k(st, p)
					}
				}, where)
			})
		}
		if !after {
			rest(st)
			return
		}
		x.callFn(st, f, []Val{Sub(p, Int(1))}, sig, func(st *State, v Val) {
			st.assume(Not(v.(*Term)))
			if !st.contradictory() {
				rest(st)
			}
		}, where)
	})
}

func (x *Exec) stdlib(st *State, name string, args []Val, sig *types.Signature, k func(*State, Val), where string) bool {
	slice := func(i int) *SliceVal {
		if i < len(args) {
			if s, ok := args[i].(*SliceVal); ok {
				if _, nested := isSlice(s.elem); !nested {
					return s
				}
			}
		}
		panic(unsupported("call of %s at %s", name, where))
	}
	sub := func(s *SliceVal, lo, hi *Term) *SliceVal {
		return &SliceVal{arr: s.arr, row: s.row, off: Add(s.off, lo), len: Sub(hi, lo), elem: s.elem}
	}
	less := func(s *SliceVal) func(a, b *Term) *Term {
		switch x.elemSort(s.elem) {
		case SInt:
			return func(a, b *Term) *Term { return Lt(a, b) }
		}
		panic(unsupported("call of %s at %s", name, where))
	}
	switch name {
	case "sort.SearchInts":
		s := slice(0)
		k(st, x.searchFacts(st, s, args[1].(*Term), less(s)))
		return true
	case "sort.Search":
		f, ok := args[1].(*Closure)
		if !ok {
			panic(unsupported("call of %s at %s", name, where))
		}
		x.search(st, args[0].(*Term), f, k, where)
		return true
	case "slices.BinarySearch":
		s := slice(0)
		v := args[1].(*Term)
		p := x.searchFacts(st, s, v, less(s))
		k(st, Tuple{p, And(Lt(p, s.len), Eq(Select(x.sliceContent(st, s), Add(s.off, p)), v))})
		return true
	case "slices.Clone":
		s := slice(0)
		e := &SliceVal{off: Int(0), len: Int(0), elem: s.elem}
		k(st, x.appendVal(st, e, s, where))
		return true
	case "slices.Insert":
		s, i, v := slice(0), args[1].(*Term), slice(2)
		x.emit(st, "index in range of Insert at "+where, And(Le(Int(0), i), Le(i, s.len)))
		tail := x.appendVal(st, &SliceVal{off: Int(0), len: Int(0), elem: s.elem}, sub(s, i, s.len), where).(*SliceVal)
		mid := x.appendVal(st, &SliceVal{off: Int(0), len: Int(0), elem: s.elem}, v, where).(*SliceVal)
		both := x.appendVal(st, mid, tail, where).(*SliceVal)
		k(st, x.appendVal(st, sub(s, Int(0), i), both, where))
		return true
	case "slices.Delete":
		s, i, j := slice(0), args[1].(*Term), args[2].(*Term)
		x.emit(st, "range of Delete at "+where, And(Le(Int(0), i), Le(i, j), Le(j, s.len)))
		k(st, x.appendVal(st, sub(s, Int(0), i), sub(s, j, s.len), where))
		return true
	}
	return false
}
