//go:build go1.22

package main

import (
	"context"
	"fmt"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/unaryop"
)

const (
	oMxm = iota
	oMxv
	oVxm
	oEwAdd
	oEwvAdd
	oEwMul
	oEwvMul
	oAdd
	oSub
	oApply
	oNeg
	oTrans
	oN
)

var oName = []string{"MatrixMatrixMultiply", "MatrixVectorMultiply", "VectorMatrixMultiply", "ElementWiseMatrixAdd", "ElementWiseVectorAdd",
	"ElementWiseMatrixMultiply", "ElementWiseVectorMultiply", "Add", "Subtract", "Apply", "Negative", "Transpose"}

func init() {
	for id, kinds := range map[string][]int{
		"C11": {oMxm, oMxv, oVxm}, "C12": {oAdd, oSub}, "C13": {oEwAdd, oEwvAdd, oEwMul, oEwvMul},
		"C14": {oNeg}, "C15": {oApply}, "C10": {oTrans},
		"C16": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11},
		"C18": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11},
		"C28": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11},
	} {
		eachType(id, "operation", operation[int](id, kinds), operation[uint8](id, kinds), operation[float64](id, kinds), operation[int32](id, kinds))
	}
	for _, id := range []string{"C10", "C11", "C12", "C14", "C28", "C09"} {
		eachType(id, "method", methods[int](id), methods[uint8](id), methods[float64](id), methods[int32](id))
	}
	eachType("C14", "scalar", scalar[int]("C14"), scalar[uint8]("C14"), scalar[float64]("C14"), scalar[int32]("C14"))
	eachType("C18", "scalar", scalar[int]("C18"), scalar[uint8]("C18"), scalar[float64]("C18"), scalar[int32]("C18"))
	eachType("C10", "transposeTo", transposeTo[int]("C10"), transposeTo[uint8]("C10"), transposeTo[float64]("C10"), transposeTo[int32]("C10"))
	eachType("C18", "transposeTo", transposeTo[int]("C18"), transposeTo[uint8]("C18"), transposeTo[float64]("C18"), transposeTo[int32]("C18"))
	eachType("C09", "equal", equality[int]("C09"), equality[uint8]("C09"), equality[float64]("C09"), equality[int32]("C09"))
	eachType("C18", "equal", equality[int]("C18"), equality[uint8]("C18"), equality[float64]("C18"), equality[int32]("C18"))
	eachType("C29", "mismatch", mismatch[int], mismatch[uint8], mismatch[float64], mismatch[int32])
	eachType("C16", "element", maskElement[int], maskElement[uint8], maskElement[float64], maskElement[int32])
}

func anyVec[T constraints.Number](g *G, m *model[T]) (gb.Matrix[T], int) {
	f := fSVec
	if g.coin() {
		f = fDVec
	}
	return build(g, f, m), f
}

type operand[T constraints.Number] struct {
	name string
	x    gb.Matrix[T]
	m    *model[T]
}

func vec[T constraints.Number](x gb.Matrix[T]) gb.Vector[T] { return x.(gb.Vector[T]) }

// invoke calls an operation
func invoke[T constraints.Number](ctx context.Context, kind int, s, m gb.Matrix[T], mask gb.Mask, u unaryop.UnaryOp[T], out gb.Matrix[T]) {
	switch kind {
	case oMxm:
		gb.MatrixMatrixMultiply(ctx, s, m, mask, out)
	case oMxv:
		gb.MatrixVectorMultiply(ctx, s, vec(m), mask, vec(out))
	case oVxm:
		gb.VectorMatrixMultiply(ctx, vec(s), m, mask, vec(out))
	case oEwAdd:
		gb.ElementWiseMatrixAdd(ctx, s, m, mask, out)
	case oEwvAdd:
		gb.ElementWiseVectorAdd(ctx, vec(s), vec(m), mask, vec(out))
	case oEwMul:
		gb.ElementWiseMatrixMultiply(ctx, s, m, mask, out)
	case oEwvMul:
		gb.ElementWiseVectorMultiply(ctx, vec(s), vec(m), mask, vec(out))
	case oAdd:
		gb.Add(ctx, s, m, mask, out)
	case oSub:
		gb.Subtract(ctx, s, m, mask, out)
	case oApply:
		gb.Apply(ctx, s, mask, u, out)
	case oNeg:
		gb.Negative(ctx, s, mask, out)
	case oTrans:
		gb.Transpose[T](ctx, s, mask, out)
	}
}

func product[T constraints.Number](a, b *model[T]) *model[T] {
	p := newModel[T](a.r, b.c)
	for i := 0; i < a.r; i++ {
		for j := 0; j < b.c; j++ {
			var sum T
			for l := 0; l < a.c; l++ {
				sum += a.a[i][l] * b.a[l][j]
			}
			p.a[i][j] = sum
		}
	}
	return p
}

func operation[T constraints.Number](id string, kinds []int) func(g *G) error {
	return func(g *G) error {
		kind := kinds[g.Intn(len(kinds))]
		r, c := g.dim(), g.dim()
		if kind == oEwvAdd || kind == oEwvMul {
			c = 1
		}
		or, oc := r, c
		var ms, mm *model[T]
		var s, m gb.Matrix[T]
		vout := false
		two := true
		switch kind {
		case oMxm:
			k := g.dim()
			ms, mm = anyModel[T](g, r, k), anyModel[T](g, k, c)
			s, m = build(g, anyFormat(g, k), ms), build(g, anyFormat(g, c), mm)
		case oMxv:
			k := g.dim()
			ms, mm = anyModel[T](g, r, k), anyModel[T](g, k, 1)
			s = build(g, anyFormat(g, k), ms)
			m, _ = anyVec(g, mm)
			or, oc, vout = r, 1, true
		case oVxm:
			k := g.dim()
			ms, mm = anyModel[T](g, k, 1), anyModel[T](g, r, k)
			s, _ = anyVec(g, ms)
			m = build(g, anyFormat(g, k), mm)
			or, oc, vout = r, 1, true
		case oEwvAdd, oEwvMul:
			ms, mm = anyModel[T](g, r, 1), anyModel[T](g, r, 1)
			s, _ = anyVec(g, ms)
			m, _ = anyVec(g, mm)
			vout = true
		case oApply, oNeg:
			ms = anyModel[T](g, r, c)
			s = build(g, anyFormat(g, c), ms)
			two = false
		case oTrans:
			ms = anyModel[T](g, r, c)
			s = build(g, anyFormat(g, c), ms)
			or, oc = c, r
			two = false
		default:
			ms, mm = anyModel[T](g, r, c), anyModel[T](g, r, c)
			s, m = build(g, anyFormat(g, c), ms), build(g, anyFormat(g, c), mm)
		}
		if two && g.one(8) && ms.r == mm.r && ms.c == mm.c && (kind != oMxv || s.Columns() == 1) && (kind != oVxm || m.Columns() == 1) {
			if kind == oMxm || kind > oVxm {
				m, mm = s, ms
			}
		}
		var out gb.Matrix[T]
		var mo *model[T]
		alias := 0
		canAlias := kind > oVxm && kind != oTrans
		if canAlias && g.one(3) {
			alias = 1
			if two && g.coin() {
				alias = 2
			}
		}
		switch alias {
		case 0:
			mo = newModel[T](or, oc)
			if g.one(3) {
				mo = anyModel[T](g, or, oc)
			}
			if vout {
				out, _ = anyVec(g, mo)
			} else {
				out = build(g, anyFormat(g, oc), mo)
			}
		case 1:
			out, mo = s, ms
		case 2:
			out, mo = m, mm
		}
		mo = mo.copy()
		var mask gb.Mask
		mk := newModel[T](or, oc)
		var maskM gb.Matrix[T]
		switch {
		case g.one(4):
			if g.coin() {
				mask = gb.NewEmptyMask(or, oc)
			}
		default:
			mk = anyModel[T](g, or, oc)
			maskM = build(g, anyFormat(g, oc), mk)
			mask = maskM
			if alias != 1 && or == ms.r && oc == ms.c && g.one(8) {
				maskM, mk = s, ms
				mask = s
			}
		}
		mk, sBefore := mk.copy(), ms.copy()
		var mBefore *model[T]
		if two {
			mBefore = mm.copy()
		}
		mul := T(g.Intn(3))
		add := T(g.Intn(3))
		u := unaryop.NewUnaryOp(func(in T) T { return in*mul + add })
		if g.one(4) {
			mul, add = 1, 0
			u = unaryop.NewUnaryOp(func(in T) T { return in })
		}
		var ctx context.Context = context.Background()
		live := true
		cancel := -1
		if id == "C18" || id == "C28" && g.one(3) {
			cancel = g.Intn(30)
			if g.coin() {
				cancel = g.Intn(6)
			}
			ctx = newStep(cancel)
			live = false
		}
		trace := fmt.Sprintf("%s(s = %s %v", oName[kind], tname(s), sBefore)
		if two {
			trace += fmt.Sprintf(", m = %s %v", tname(m), mBefore)
		}
		if mask != nil {
			trace += fmt.Sprintf(", mask = %s %v", tname(mask), mk)
		}
		trace += fmt.Sprintf(", output = %s %v, aliased %d", tname(out), mo, alias)
		if kind == oApply {
			trace += fmt.Sprintf(", v -> v*%v+%v", mul, add)
		}
		if cancel >= 0 {
			trace += fmt.Sprintf(", cancelled after %d looks at the context", cancel)
		}
		trace += ")"
		if p, v := panics(func() { invoke(ctx, kind, s, m, mask, u, out) }); p {
			return fail("%s panicked: %v", trace, v)
		}
		// the operands and the mask
		if s != out {
			if err := same("first operand afterwards", s, sBefore); err != nil {
				return fail("%s: %v", trace, err)
			}
		}
		if two && m != out {
			if err := same("second operand afterwards", m, mBefore); err != nil {
				return fail("%s: %v", trace, err)
			}
		}
		if maskM != nil && maskM != out {
			if err := same("mask afterwards", maskM, mk); err != nil {
				return fail("%s: %v", trace, err)
			}
		}
		if id == "C28" {
			return nil
		}
		if out.Rows() != or || out.Columns() != oc {
			return fail("%s: shape of the output is %dx%d", trace, out.Rows(), out.Columns())
		}
		var prod *model[T]
		switch kind {
		case oMxm, oMxv:
			prod = product(sBefore, mBefore)
		case oVxm:
			prod = product(mBefore, sBefore)
		}
		var zero T
		for i := 0; i < or; i++ {
			for j := 0; j < oc; j++ {
				got := out.At(i, j)
				before := mo.a[i][j]
				if mk.a[i][j] != zero {
					if got != before {
						return fail("%s: protected position (%d,%d) is now %v", trace, i, j, got)
					}
					continue
				}
				want := []T{}
				keep := false // the previous value is as good
				switch kind {
				case oMxm, oMxv, oVxm:
					want = append(want, prod.a[i][j])
				case oEwAdd, oEwvAdd:
					if a := sBefore.a[i][j]; a != zero {
						want = append(want, a)
					}
					if b := mBefore.a[i][j]; b != zero {
						want = append(want, b)
					}
					keep = len(want) == 0
				case oEwMul, oEwvMul:
					a, b := sBefore.a[i][j], mBefore.a[i][j]
					if a == b {
						want = append(want, a)
						keep = a == zero
					} else {
						keep = alias == 0
						if alias > 0 {
							want = append(want, zero)
						}
					}
				case oAdd:
					want = append(want, sBefore.a[i][j]+mBefore.a[i][j])
					keep = sBefore.a[i][j] == zero && mBefore.a[i][j] == zero
				case oSub:
					want = append(want, sBefore.a[i][j]-mBefore.a[i][j])
					keep = sBefore.a[i][j] == zero && mBefore.a[i][j] == zero
				case oApply:
					a := sBefore.a[i][j]
					want = append(want, a*mul+add)
					if a == zero {
						keep = isSparseM(s)
						if keep {
							want = nil
						}
					}
				case oNeg:
					want = append(want, -sBefore.a[i][j])
					keep = sBefore.a[i][j] == zero
				case oTrans:
					want = append(want, sBefore.a[j][i])
					keep = sBefore.a[j][i] == zero
				}
				ok := (keep || !live) && got == before
				for _, w := range want {
					ok = ok || got == w
				}
				if !ok {
					return fail("%s: position (%d,%d) is %v, was %v, want one of %v", trace, i, j, got, before, want)
				}
			}
		}
		return nil
	}
}

// isSparseM looks at the storage class itself
func isSparseM[T constraints.Number](x gb.Matrix[T]) bool {
	switch x.(type) {
	case *gb.CSRMatrix[T], *gb.CSCMatrix[T], *gb.SparseVector[T]:
		return true
	}
	return false
}

// methods runs the methods that give new matrices
func methods[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		ms := anyModel[T](g, r, c)
		f := anyFormat(g, c)
		s := build(g, f, ms)
		k := map[string]int{"C10": 0, "C11": 1, "C12": 2 + g.Intn(2), "C14": 4 + g.Intn(2), "C28": g.Intn(7), "C09": 6}[id]
		var m gb.Matrix[T]
		var mm, want *model[T]
		switch k {
		case 1:
			w := g.dim()
			mm = anyModel[T](g, c, w)
			m = build(g, anyFormat(g, w), mm)
			want = product(ms, mm)
		case 2, 3, 6:
			mm = anyModel[T](g, r, c)
			if k == 6 && g.coin() {
				mm = ms.copy()
			}
			m = build(g, anyFormat(g, c), mm)
		}
		trace := fmt.Sprintf("%s %v", tname(s), ms)
		if m != nil {
			trace += fmt.Sprintf(" with %s %v", tname(m), mm)
		}
		var res gb.MatrixLogical[T]
		switch k {
		case 0:
			trace += ": Transpose"
			want = newModel[T](c, r)
			for i := range ms.a {
				for j := range ms.a[i] {
					want.a[j][i] = ms.a[i][j]
				}
			}
			res = s.Transpose()
		case 1:
			trace += ": Multiply"
			res = s.Multiply(m)
		case 2, 3:
			want = newModel[T](r, c)
			for i := range ms.a {
				for j := range ms.a[i] {
					if k == 2 {
						want.a[i][j] = ms.a[i][j] + mm.a[i][j]
					} else {
						want.a[i][j] = ms.a[i][j] - mm.a[i][j]
					}
				}
			}
			if k == 2 {
				trace += ": Add"
				res = s.Add(m)
			} else {
				trace += ": Subtract"
				res = s.Subtract(m)
			}
		case 4, 5:
			alpha := val[T](g)
			want = newModel[T](r, c)
			for i := range ms.a {
				for j := range ms.a[i] {
					if k == 4 {
						want.a[i][j] = alpha * ms.a[i][j]
					} else {
						want.a[i][j] = -ms.a[i][j]
					}
				}
			}
			if k == 4 {
				trace += fmt.Sprintf(": Scalar(%v)", alpha)
				res = s.Scalar(alpha)
			} else {
				trace += ": Negative"
				res = s.Negative()
			}
		case 6:
			eq := true
			for i := range ms.a {
				for j := range ms.a[i] {
					eq = eq && ms.a[i][j] == mm.a[i][j]
				}
			}
			if s.Equal(m) != eq || s.NotEqual(m) == eq || m.Equal(s) != eq || m.NotEqual(s) == eq {
				return fail("%s: Equal should be %v", trace, eq)
			}
		}
		if err := same("receiver afterwards", s, ms); err != nil {
			return fail("%s: %v", trace, err)
		}
		if m != nil {
			if err := same("argument afterwards", m, mm); err != nil {
				return fail("%s: %v", trace, err)
			}
		}
		if res == nil {
			return nil
		}
		if err := same("result", res, want); err != nil {
			return fail("%s: %v", trace, err)
		}
		if r > 0 && c > 0 && want.r > 0 && want.c > 0 {
			i, j := g.Intn(want.r), g.Intn(want.c)
			res.Set(i, j, 9)
			if err := same("receiver after a write to the result", s, ms); err != nil {
				return fail("%s: %v", trace, err)
			}
			if m != nil {
				if err := same("argument after a write to the result", m, mm); err != nil {
					return fail("%s: %v", trace, err)
				}
			}
		}
		return nil
	}
}

func stepOrNot(g *G, id string) (context.Context, int) {
	if id != "C18" {
		return context.Background(), -1
	}
	n := g.Intn(12)
	return newStep(n), n
}

func scalar[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		s, ms, _ := anyMatrix[T](g, g.dim(), g.dim())
		alpha := val[T](g)
		ctx, n := stepOrNot(g, id)
		res := gb.Scalar(ctx, s, alpha)
		trace := fmt.Sprintf("Scalar(%s %v, %v), cancelled %d", tname(s), ms, alpha, n)
		if err := same("operand", s, ms); err != nil {
			return fail("%s: %v", trace, err)
		}
		if res.Rows() != ms.r || res.Columns() != ms.c {
			return fail("%s: shape is %dx%d", trace, res.Rows(), res.Columns())
		}
		for i := range ms.a {
			for j, v := range ms.a[i] {
				got := res.At(i, j)
				if got != alpha*v && (n < 0 || got != v) {
					return fail("%s: (%d,%d) is %v", trace, i, j, got)
				}
			}
		}
		return nil
	}
}

func transposeTo[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		s, ms, _ := anyMatrix[T](g, g.dim(), g.dim())
		ctx, n := stepOrNot(g, id)
		var res gb.Matrix[T]
		if g.coin() {
			res = gb.TransposeToCSR(ctx, s)
		} else {
			res = gb.TransposeToCSC(ctx, s)
		}
		trace := fmt.Sprintf("transposing %s %v to %s, cancelled %d", tname(s), ms, tname(res), n)
		if err := same("operand", s, ms); err != nil {
			return fail("%s: %v", trace, err)
		}
		if res.Rows() != ms.c || res.Columns() != ms.r {
			return fail("%s: shape is %dx%d", trace, res.Rows(), res.Columns())
		}
		for i := range ms.a {
			for j, v := range ms.a[i] {
				got := res.At(j, i)
				if got != v && (n < 0 || got != 0) {
					return fail("%s: (%d,%d) is %v", trace, j, i, got)
				}
			}
		}
		return nil
	}
}

func equality[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		a, ma, _ := anyMatrix[T](g, r, c)
		mb := ma.copy()
		switch g.Intn(3) {
		case 0:
			if r > 0 && c > 0 {
				mb.a[g.Intn(r)][g.Intn(c)] = val[T](g)
			}
		case 1:
			if r > 0 && c > 0 {
				// as many elements, one at another place
				i, j, k, l := g.Intn(r), g.Intn(c), g.Intn(r), g.Intn(c)
				mb.a[i][j], mb.a[k][l] = mb.a[k][l], mb.a[i][j]
			}
		}
		if g.one(6) {
			mb = anyModel[T](g, g.dim(), g.dim())
		}
		b := build(g, anyFormat(g, mb.c), mb)
		want := ma.r == mb.r && ma.c == mb.c
		for i := 0; want && i < ma.r; i++ {
			for j := range ma.a[i] {
				want = want && ma.a[i][j] == mb.a[i][j]
			}
		}
		ctx, n := stepOrNot(g, id)
		got := gb.Equal[T](ctx, a, b)
		trace := fmt.Sprintf("comparing %s %v and %s %v, cancelled %d", tname(a), ma, tname(b), mb, n)
		if got != want && (n < 0 || got) {
			return fail("%s: Equal is %v", trace, got)
		}
		if n < 0 && gb.NotEqual[T](ctx, a, b) == want {
			return fail("%s: NotEqual is %v", trace, want)
		}
		if err := same("first operand", a, ma); err != nil {
			return fail("%s: %v", trace, err)
		}
		if err := same("second operand", b, mb); err != nil {
			return fail("%s: %v", trace, err)
		}
		return nil
	}
}

// mismatch gives operations shapes they have to reject
func mismatch[T constraints.Number](g *G) error {
	kind := g.Intn(oApply)
	method := g.one(4)
	shape := func() (int, int) { return g.dim(), g.dim() }
	r1, c1 := shape()
	r2, c2 := shape()
	switch kind {
	case oMxv:
		c2 = 1
	case oVxm:
		c1 = 1
	case oEwvAdd, oEwvMul:
		c1, c2 = 1, 1
	}
	bad := false
	or, oc := g.dim(), g.dim()
	switch kind {
	case oMxm:
		bad = c1 != r2
		if g.coin() {
			or, oc = r1, c2
		}
	case oMxv:
		bad = c1 != r2
		oc = 1
		if g.coin() {
			or = r1
		}
	case oVxm:
		bad = c2 != r1
		oc = 1
		if g.coin() {
			or = r2
		}
	default:
		bad = r1 != r2 || c1 != c2
		if g.coin() {
			or, oc = r1, c1
		}
		if kind == oEwvAdd || kind == oEwvMul {
			oc = 1
		}
	}
	if !bad {
		return nil
	}
	isVec := func(which int) bool {
		return kind == oEwvAdd || kind == oEwvMul || kind == oMxv && which != 0 || kind == oVxm && which != 1
	}
	mk := func(which int, m *model[T]) gb.Matrix[T] {
		if isVec(which) {
			x, _ := anyVec(g, m)
			return x
		}
		return build(g, anyFormat(g, m.c), m)
	}
	ms, mm, mo := anyModel[T](g, r1, c1), anyModel[T](g, r2, c2), anyModel[T](g, or, oc)
	s, m, out := mk(0, ms), mk(1, mm), mk(2, mo)
	trace := fmt.Sprintf("%s(%s %v, %s %v, output %s %v)", oName[kind], tname(s), ms, tname(m), mm, tname(out), mo)
	var p bool
	if method && (kind == oMxm || kind == oAdd || kind == oSub) {
		trace = "method " + trace
		p, _ = panics(func() {
			switch kind {
			case oMxm:
				s.Multiply(m)
			case oAdd:
				s.Add(m)
			case oSub:
				s.Subtract(m)
			}
		})
	} else {
		p, _ = panics(func() { invoke(context.Background(), kind, s, m, nil, nil, out) })
	}
	if !p {
		return fail("%s did not panic", trace)
	}
	for _, o := range []operand[T]{{"first operand", s, ms}, {"second operand", m, mm}, {"output", out, mo}} {
		if err := same(o.name, o.x, o.m); err != nil {
			return fail("%s: after the panic: %v", trace, err)
		}
	}
	return nil
}

func maskElement[T constraints.Number](g *G) error {
	x, m, _ := anyMatrix[T](g, g.dim(), g.dim())
	for i := range m.a {
		for j, v := range m.a[i] {
			if x.Element(i, j) != (v != 0) {
				return fail("%s %v: Element(%d,%d) is %v", tname(x), m, i, j, v == 0)
			}
		}
	}
	e := gb.NewEmptyMask(m.r, m.c)
	if e.Rows() != m.r || e.Columns() != m.c {
		return fail("empty mask has shape %dx%d", e.Rows(), e.Columns())
	}
	for i := range m.a {
		for j := range m.a[i] {
			if e.Element(i, j) {
				return fail("empty mask is true at (%d,%d)", i, j)
			}
		}
	}
	// a mask of another shape
	r, c := g.dim(), g.dim()
	if r == m.r && c == m.c {
		return nil
	}
	mo := anyModel[T](g, m.r, m.c)
	out := build(g, anyFormat(g, m.c), mo)
	mk, km, _ := anyMatrix[T](g, r, c)
	k := []int{oMxm, oEwAdd, oEwMul, oAdd, oSub, oApply, oNeg, oTrans}[g.Intn(8)]
	var a, b gb.Matrix[T]
	switch k {
	case oMxm:
		w := g.dim()
		a, _, _ = anyMatrix[T](g, m.r, w)
		b, _, _ = anyMatrix[T](g, w, m.c)
	case oTrans:
		a, _, _ = anyMatrix[T](g, m.c, m.r)
	default:
		a, _, _ = anyMatrix[T](g, m.r, m.c)
		b, _, _ = anyMatrix[T](g, m.r, m.c)
	}
	p, _ := panics(func() { invoke(context.Background(), k, a, b, mk, unaryop.NewUnaryOp(func(in T) T { return in }), out) })
	if !p {
		return fail("%s accepted a mask of %v for an output of %v", oName[k], km, mo)
	}
	return same("output after the mask was rejected", out, mo)
}
