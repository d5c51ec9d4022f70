package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The registry: a map of package graphblas from names, of which the set of keys is followed. Types at run time:
// rtypeof(d, i) is the type of a pointer to struct class d with type arguments i; relem its element; rname its name.

const SSet Sort = "SSet"

// typedNil: an interface value without methods that holds a nil pointer
type typedNil struct{ typ types.Type }

func isRegistryType(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// registryVar: the one package-level map with text keys of package graphblas
func registryVar() string {
	p := prog.ImportedPackage(modPath)
	if p == nil {
		return ""
	}
	n := ""
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !isRegistryType(types.Unalias(g.Type()).(*types.Pointer).Elem()) {
			continue
		}
		if n != "" {
			panic(unsupported("more than one map of names in package graphblas"))
		}
		n = "graphblas." + g.Name()
	}
	return n
}

func realVar(v string) string {
	if v == "graphblas.registry" {
		return registryVar()
	}
	return v
}

func (x *Exec) registry(st *State) *Term {
	if x.initOf != "" {
		if r := st.ghostT["G."+registryVar()]; r != nil {
			return r
		}
		return Int(0)
	}
	r := Sym("p!registry", SInt)
	st.assume(Lt(Int(0), r))
	st.assume(Le(r, x.alloc0()))
	return r
}

func (x *Exec) makeMap(st *State, in *ssa.MakeMap) Val {
	if !isRegistryType(in.Type()) {
		return &Opaque{"map"}
	}
	r := x.newRef(st, "map")
	st.g["keys"] = Store(st.g["keys"], r, App("snone", SSet))
	return r
}

func (x *Exec) keys(st *State, m *Term) *Term { return Select(st.g["keys"], m) }

func (x *Exec) lookup(st *State, in *ssa.Lookup) Val {
	m, ok := x.get(st, in.X).(*Term)
	if !ok || !isRegistryType(in.X.Type()) {
		if in.CommaOk {
			return Tuple{&Opaque{"map value"}, x.fresh("found", SBool)}
		}
		panic(unsupported("map or string lookup at %s", posOf(in)))
	}
	found := And(Not(Eq(m, Int(0))), App("shas", SBool, x.keys(st, m), x.trm(st, in.Index)))
	var v Val = &Opaque{"map value"}
	e := types.Unalias(in.X.Type()).Underlying().(*types.Map).Elem()
	if _, isI := types.Unalias(e).Underlying().(*types.Interface); isI {
		f := x.fresh("mapvalue", SInt)
		st.assume(Le(Int(0), f))
		st.assume(Eq(found, Not(Eq(f, Int(0)))))
		v = f
	} else if b, isB := types.Unalias(e).Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
		v = found
	} else if !in.CommaOk {
		panic(unsupported("map lookup at %s", posOf(in)))
	}
	if in.CommaOk {
		return Tuple{v, found}
	}
	return v
}

func (x *Exec) mapUpdate(st *State, in *ssa.MapUpdate) {
	m, ok := x.get(st, in.Map).(*Term)
	if !ok || !isRegistryType(in.Map.Type()) {
		panic(unsupported("map update at %s", posOf(in)))
	}
	x.nonNil(st, m, "map update at "+posOf(in))
	if v, ok := x.get(st, in.Value).(*Term); ok {
		switch v.sort {
		case SInt:
			x.emit(st, "the value stored in the registry is not nil at "+posOf(in), Not(Eq(v, Int(0))))
		case SBool:
			x.emit(st, "the value stored in the registry is true at "+posOf(in), v)
		}
	}
	st.g["keys"] = Store(st.g["keys"], m, App("sadd", SSet, x.keys(st, m), x.trm(st, in.Key)))
	x.logGhost(st, "keys", m)
}

func (x *Exec) mapDelete(st *State, m, k *Term) {
	st.g["keys"] = Store(st.g["keys"], m, App("sdel", SSet, x.keys(st, m), k))
	x.logGhost(st, "keys", m)
}

// reflectType is what reflect.TypeOf returns
func (x *Exec) reflectType(st *State, v Val) Val {
	open := strLit("[")
	switch q := v.(type) {
	case *typedNil:
		n := structName(q.typ)
		if _, ok := types.Unalias(q.typ).(*types.Pointer); !ok || n == "" {
			break
		}
		r := App("rtypeof", SInt, Int(classID(n)), App("targs."+smtSafe(q.typ.String()), SInt))
		el := App("relem", SInt, r)
		st.assume(Lt(Int(0), r))
		st.assume(Lt(Int(0), el))
		st.assume(Eq(App("cut", SStr, App("rname", SStr, el), open), strLit(n)))
		if named, ok := types.Unalias(types.Unalias(q.typ).(*types.Pointer).Elem()).(*types.Named); ok {
			if named.TypeArgs().Len() == 0 {
				st.assume(Eq(App("rname", SStr, el), strLit(n)))
			} else {
				for c := range spec.classes {
					st.assume(Not(Eq(App("rname", SStr, el), strLit(c))))
				}
			}
		}
		return r
	case *Term:
		d := App("dyn", SInt, q)
		r := App("rtypeof", SInt, d, App("targs", SInt))
		el := App("relem", SInt, r)
		st.assume(Lt(Int(0), r))
		st.assume(Lt(Int(0), el))
		cn := App("cname", SStr, d)
		st.assume(Eq(App("cut", SStr, App("rname", SStr, el), open), cn))
		var known []*Term
		for _, n := range sortedKeys(spec.classes) {
			c := spec.classes[n]
			if !hasFamily(c, "Matrix") {
				continue
			}
			is := Eq(d, Int(classID(n)))
			known = append(known, is)
			st.assume(Implies(is, Eq(cn, strLit(n))))
			st.assume(Implies(is, Not(Eq(App("rname", SStr, el), cn))))
			for _, a := range c.attrOrd {
				if e := c.attrs[a]; e.kind == "name" {
					st.assume(Implies(is, Eq(App(a, SBool, q), Bool(e.name == "true"))))
				}
			}
		}
		// the sparse classes of a user are the ones registered
		st.assume(Or(append(known, Eq(App("sparse", SBool, q), App("shas", SBool, x.keys(st, x.registry(st)), cn)))...))
		return r
	}
	panic(unsupported("reflect.TypeOf of %T", v))
}

func strLit(s string) *Term {
	if s == "" {
		return App("sempty", SStr)
	}
	return App("sconst."+smtSafe(s), SStr)
}

// typeMethod: the methods of reflect.Type
func (x *Exec) typeMethod(st *State, name string, t *Term, where string) Val {
	x.nonNil(st, t, "method "+name+" of a type at "+where)
	switch name {
	case "Elem":
		return App("relem", SInt, t)
	case "Name":
		return App("rname", SStr, t)
	case "String":
		return App("rstring", SStr, t)
	case "PkgPath":
		return App("rpkg", SStr, t)
	}
	panic(unsupported("method %s of a reflect.Type at %s", name, where))
}
