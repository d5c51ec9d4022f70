//go:build go1.22

package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/operators"
	gbsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	eachType("C22", "symmetry", symmetry[int], symmetry[uint8], symmetry[float64], symmetry[int32])
	eachType("C25", "locking", locking[int], locking[uint8], locking[float64], locking[int32])
	eachType("C25", "schedule", schedule[int], schedule[uint8], schedule[float64], schedule[int32])
	eachType("C27", "operator", operator[int], operator[uint8], operator[float64], operator[int32])
	reg("C27", "logical", logicOps)
	reg("C27", "string", built)
	reg("C30", "mode", mode)
	eachType("C17", "reduce", reduction[int]("C17"), reduction[uint8]("C17"), reduction[float64]("C17"), reduction[int32]("C17"))
	eachType("C18", "reduce", reduction[int]("C18"), reduction[uint8]("C18"), reduction[float64]("C18"), reduction[int32]("C18"))
	eachType("C20", "product", strassenProduct[int](false), strassenProduct[uint8](false), strassenProduct[float64](false), strassenProduct[int32](false))
	eachType("C18", "strassen", strassenProduct[int](true), strassenProduct[uint8](true), strassenProduct[float64](true), strassenProduct[int32](true))
	reg("C19", "search[int]", search[int](false))
	reg("C19", "search[float64]", search[float64](false))
	reg("C18", "search[int]", search[int](true))
	reg("C21", "reduced", rref)
	reg("C23", "rows", sorting(true, false))
	reg("C23", "columns", sorting(false, false))
	reg("C18", "rows", sorting(true, true))
	reg("C18", "columns", sorting(false, true))
	reg("C24", "compare", comparing)
	eachType("C31", "sparse", sparseTest[int], sparseTest[uint8], sparseTest[float64], sparseTest[int32])
	reg("C31", "register", registering)
}

// C22
func symmetry[T constraints.Number](g *G) error {
	r, c := g.dim(), g.dim()
	if g.Intn(4) > 0 {
		c = r
	}
	m := anyModel[T](g, r, c)
	kind := g.Intn(4) // 0: as it is, 1: symmetric, 2: skew-symmetric, 3: one off
	if r == c {
		for i := 0; i < r; i++ {
			for j := 0; j <= i; j++ {
				switch {
				case kind == 1, kind == 3 && r%2 == 0:
					m.a[i][j] = m.a[j][i]
				case kind >= 2:
					if i == j {
						m.a[i][i] = 0
					} else {
						m.a[i][j] = 0 - m.a[j][i]
					}
				}
			}
		}
		if kind == 3 && r > 0 {
			m.a[g.Intn(r)][g.Intn(r)] = val[T](g)
		}
	}
	sym, skew := r == c, r == c
	for i := 0; i < r && r == c; i++ {
		for j := 0; j < c; j++ {
			sym = sym && m.a[i][j] == m.a[j][i]
			skew = skew && m.a[i][j] == 0-m.a[j][i]
		}
	}
	x := build(g, anyFormat(g, c), m)
	if got := symmetric.Symmetric[T](x); got != sym {
		return fail("Symmetric(%s %v) is %v", tname(x), m, got)
	}
	if got := skewsymmetric.SkewSymmetric[T](x); got != skew {
		return fail("SkewSymmetric(%s %v) is %v", tname(x), m, got)
	}
	return same("the operand", x, m)
}

// C25: watched notes how the lock is held at each access to the wrapped matrix
type watched[T constraints.Number] struct {
	gb.Matrix[T]
	lock  *sync.RWMutex
	calls []string
	bomb  string
}

func (w *watched[T]) note(name string, write bool) {
	if w.lock != nil {
		if w.lock.TryLock() {
			w.lock.Unlock()
			w.calls = append(w.calls, name+" without the lock")
		} else if write && w.lock.TryRLock() {
			w.lock.RUnlock()
			w.calls = append(w.calls, name+" under the shared lock")
		} else {
			w.calls = append(w.calls, "")
		}
	}
	if w.bomb == name {
		panic("bomb")
	}
}

func (w *watched[T]) At(r, c int) T                { w.note("At", false); return w.Matrix.At(r, c) }
func (w *watched[T]) Element(r, c int) bool        { w.note("Element", false); return w.Matrix.Element(r, c) }
func (w *watched[T]) Set(r, c int, v T)            { w.note("Set", true); w.Matrix.Set(r, c, v) }
func (w *watched[T]) Update(r, c int, f func(T) T) { w.note("Update", true); w.Matrix.Update(r, c, f) }
func (w *watched[T]) Clear()                       { w.note("Clear", true); w.Matrix.Clear() }
func (w *watched[T]) Values() int                  { w.note("Values", false); return w.Matrix.Values() }
func (w *watched[T]) Copy() gb.Matrix[T]           { w.note("Copy", false); return w.Matrix.Copy() }
func (w *watched[T]) Scalar(a T) gb.Matrix[T]      { w.note("Scalar", false); return w.Matrix.Scalar(a) }
func (w *watched[T]) Negative() gb.MatrixLogical[T] {
	w.note("Negative", false)
	return w.Matrix.Negative()
}
func (w *watched[T]) Transpose() gb.MatrixLogical[T] {
	w.note("Transpose", false)
	return w.Matrix.Transpose()
}
func (w *watched[T]) Enumerate() gb.Enumerate[T] {
	w.note("Enumerate", false)
	return w.Matrix.Enumerate()
}
func (w *watched[T]) Add(m gb.Matrix[T]) gb.Matrix[T] {
	w.note("Add", false)
	return w.Matrix.Add(m)
}
func (w *watched[T]) Subtract(m gb.Matrix[T]) gb.Matrix[T] {
	w.note("Subtract", false)
	return w.Matrix.Subtract(m)
}
func (w *watched[T]) Multiply(m gb.Matrix[T]) gb.Matrix[T] {
	w.note("Multiply", false)
	return w.Matrix.Multiply(m)
}
func (w *watched[T]) Equal(m gb.MatrixLogical[T]) bool {
	w.note("Equal", false)
	return w.Matrix.Equal(m)
}
func (w *watched[T]) NotEqual(m gb.MatrixLogical[T]) bool {
	w.note("NotEqual", false)
	return w.Matrix.NotEqual(m)
}
func (w *watched[T]) ColumnsAt(c int) gb.VectorLogial[T] {
	w.note("ColumnsAt", false)
	return w.Matrix.ColumnsAt(c)
}
func (w *watched[T]) RowsAt(r int) gb.VectorLogial[T] {
	w.note("RowsAt", false)
	return w.Matrix.RowsAt(r)
}
func (w *watched[T]) RowsAtToArray(r int) []T {
	w.note("RowsAtToArray", false)
	return w.Matrix.RowsAtToArray(r)
}

func locking[T constraints.Number](g *G) error {
	r := g.dim()
	c := r
	m, f := anyModel[T](g, r, c), anyFormat(g, c)
	w := &watched[T]{Matrix: build(g, f, m)}
	x := gb.NewMutexMatrix[T](w)
	w.lock = &x.RWMutex
	twin := build(g, f, m) // what the unlocked operation gives
	other, _, _ := anyMatrix[T](g, r, c)
	cmp := func(a, b gb.MatrixLogical[T]) error { return same("the result", a, read[T](b)) }
	for step := 0; step < 12; step++ {
		i, j, v := g.Intn(r+1), g.Intn(c+1), val[T](g)
		var name string
		var err error
		op := func() {}
		twinOp := func() {}
		switch g.Intn(20) {
		case 0:
			var a, b T
			name, op, twinOp = "At", func() { a = x.At(i, j) }, func() {
				if b = twin.At(i, j); a != b {
					err = fail("At gives %v, want %v", a, b)
				}
			}
		case 1:
			var a bool
			name, op, twinOp = "Element", func() { a = x.Element(i, j) }, func() {
				if a != twin.Element(i, j) {
					err = fail("Element gives %v", a)
				}
			}
		case 2, 3:
			name, op, twinOp = "Set", func() { x.Set(i, j, v) }, func() { twin.Set(i, j, v) }
		case 4:
			name, op, twinOp = "Update", func() { x.Update(i, j, func(o T) T { return o + v }) }, func() { twin.Update(i, j, func(o T) T { return o + v }) }
		case 5:
			name, op, twinOp = "Clear", func() { x.Clear() }, func() { twin.Clear() }
		case 6:
			var a int
			name, op, twinOp = "Values", func() { a = x.Values() }, func() {
				if a != twin.Values() {
					err = fail("Values gives %v", a)
				}
			}
		case 7:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Copy", func() { a = x.Copy() }, func() { err = cmp(a, twin.Copy()) }
		case 8:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Scalar", func() { a = x.Scalar(v) }, func() { err = cmp(a, twin.Scalar(v)) }
		case 9:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Negative", func() { a = x.Negative() }, func() { err = cmp(a, twin.Negative()) }
		case 10:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Transpose", func() { a = x.Transpose() }, func() { err = cmp(a, twin.Transpose()) }
		case 11:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Add", func() { a = x.Add(other) }, func() { err = cmp(a, twin.Add(other)) }
		case 12:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Subtract", func() { a = x.Subtract(other) }, func() { err = cmp(a, twin.Subtract(other)) }
		case 13:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "Multiply", func() { a = x.Multiply(other) }, func() { err = cmp(a, twin.Multiply(other)) }
		case 14:
			var a bool
			name, op, twinOp = "Equal", func() { a = x.Equal(other) }, func() {
				if a != twin.Equal(other) {
					err = fail("Equal gives %v", a)
				}
			}
		case 15:
			var a bool
			name, op, twinOp = "NotEqual", func() { a = x.NotEqual(other) }, func() {
				if a != twin.NotEqual(other) {
					err = fail("NotEqual gives %v", a)
				}
			}
		case 16:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "ColumnsAt", func() { a = x.ColumnsAt(j) }, func() { err = cmp(a, twin.ColumnsAt(j)) }
		case 17:
			var a gb.MatrixLogical[T]
			name, op, twinOp = "RowsAt", func() { a = x.RowsAt(i) }, func() { err = cmp(a, twin.RowsAt(i)) }
		case 18:
			var a []T
			name, op, twinOp = "RowsAtToArray", func() { a = x.RowsAtToArray(i) }, func() {
				if !reflect.DeepEqual(a, twin.RowsAtToArray(i)) {
					err = fail("RowsAtToArray gives %v", a)
				}
			}
		case 19:
			name, op, twinOp = "Enumerate", func() {
				for it := x.Enumerate(); it.HasNext(); {
					if a, b, e := it.Next(); twin.At(a, b) != e {
						err = fail("Enumerate yields %v at (%d,%d)", e, a, b)
					}
				}
			}, func() {}
		}
		w.calls, w.bomb = nil, ""
		if g.one(8) && name != "Enumerate" {
			w.bomb = name
		}
		p, what := panics(op)
		for _, s := range w.calls {
			if s != "" {
				return fail("MutexMatrix over %s, %s: %s", fName[f], name, s)
			}
		}
		if !x.TryLock() {
			return fail("MutexMatrix over %s: the lock is still held after %s (panic: %v)", fName[f], name, what)
		}
		x.Unlock()
		if w.bomb != "" {
			if !p {
				return fail("MutexMatrix over %s: %s did not do the wrapped operation", fName[f], name)
			}
			continue
		}
		var q bool
		if !p || name == "Set" || name == "Update" {
			q, _ = panics(twinOp)
		} else {
			switch name {
			case "At", "Element", "ColumnsAt", "RowsAt", "RowsAtToArray":
				q = i >= r || j >= c
			}
		}
		if p != q {
			return fail("MutexMatrix over %s, %s(%d,%d) of %dx%d: panic %v (%v), the wrapped operation: %v", fName[f], name, i, j, r, c, p, what, q)
		}
		if err != nil {
			return fail("MutexMatrix over %s, %s: %v", fName[f], name, err)
		}
		if x.Rows() != r || x.Columns() != c || x.Size() != r*c && f < fSVec {
			return fail("MutexMatrix over %s has shape %dx%d", fName[f], x.Rows(), x.Columns())
		}
		if err := same("the wrapped matrix after "+name, w.Matrix, read[T](twin)); err != nil {
			return err
		}
	}
	return nil
}

// schedule lets goroutines use one wrapper; each update must count
func schedule[T constraints.Number](g *G) error {
	if !g.one(10) {
		return nil
	}
	f := g.Intn(3)
	x := gb.NewMutexMatrix[T](empty[T](f, 3, 3))
	var wg sync.WaitGroup
	const n = 4
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 9; i++ {
				x.Update(i/3, i%3, func(v T) T { return v + 1 })
				x.Values()
				x.RowsAt(i / 3)
				for it := x.Enumerate(); it.HasNext(); {
					it.Next()
				}
			}
		}()
	}
	wg.Wait()
	for i := 0; i < 9; i++ {
		if x.At(i/3, i%3) != n {
			return fail("MutexMatrix over %s: %d goroutines each added one, element (%d,%d) is %v", fName[f], n, i/3, i%3, x.At(i/3, i%3))
		}
	}
	return nil
}

// C27
func operator[T constraints.Number](g *G) error {
	a, b := val[T](g), val[T](g)
	if g.coin() {
		a, b = T(g.Intn(250)), T(g.Intn(250))
	}
	if x, ok := any(&a).(*float64); ok && g.one(4) {
		*x = []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1e308}[g.Intn(4)]
	}
	if x, ok := any(&b).(*float64); ok && g.one(4) {
		*x = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e308}[g.Intn(4)]
	}
	mn, mx := a, a
	if b < a {
		mn = b
	} else {
		mx = b
	}
	nan := a != a || b != b
	differ := func(x, y T) bool { return x != y && (x == x || y == y) }
	two := []struct {
		name string
		x, y binaryop.BinaryOp[T]
		want T
		skip bool
	}{
		{"FirstArgument", operators.FirstArgument[T](), binaryop.FirstArgument[T](), a, false},
		{"SecondArgument", operators.SecondArgument[T](), binaryop.SecondArgument[T](), b, false},
		{"Minimum", operators.Minimum[T](), binaryop.Minimum[T](), mn, nan},
		{"Maximum", operators.Maximum[T](), binaryop.Maximum[T](), mx, nan},
		{"Addition", operators.Addition[T](), binaryop.Addition[T](), a + b, false},
		{"Subtraction", operators.Subtraction[T](), binaryop.Subtraction[T](), a - b, false},
		{"Multiplication", operators.Multiplication[T](), binaryop.Multiplication[T](), a * b, false},
	}
	if b != 0 {
		two = append(two, struct {
			name string
			x, y binaryop.BinaryOp[T]
			want T
			skip bool
		}{"Division", operators.Division[T](), binaryop.Division[T](), a / b, false})
	}
	for _, o := range two {
		if got := o.x.Apply(a, b); differ(got, o.want) && !o.skip {
			return fail("operators.%s(%v,%v) is %v", o.name, a, b, got)
		}
		if got := o.y.Apply(a, b); differ(got, o.want) && !o.skip {
			return fail("binaryop.%s(%v,%v) is %v", o.name, a, b, got)
		}
	}
	for _, o := range []struct {
		name string
		x    binaryop.BinaryOpToBool[T]
		want bool
	}{
		{"Equal", operators.Equal[T](), a == b}, {"NotEqual", operators.NotEqual[T](), a != b},
		{"GreaterThan", operators.GreaterThan[T](), a > b}, {"LessThan", operators.LessThan[T](), a < b},
		{"GreaterThanOrEqual", operators.GreaterThanOrEqual[T](), a >= b}, {"LessThanOrEqual", operators.LessThanOrEqual[T](), a <= b},
	} {
		if got := o.x.Apply(a, b); got != o.want {
			return fail("operators.%s(%v,%v) is %v", o.name, a, b, got)
		}
	}
	var n1, n2 int
	u := unaryop.NewUnaryOp(func(x T) T { n1++; return x*a + b })
	if got := u.Apply(b); differ(got, b*a+b) || n1 != 1 {
		return fail("NewUnaryOp(x*%v+%v).Apply(%v) is %v after %d calls", a, b, b, got, n1)
	}
	v := binaryop.NewBinaryOp(func(x, y T) T { n2++; return x - y*a })
	if got := v.Apply(a, b); differ(got, a-b*a) || n2 != 1 {
		return fail("NewBinaryOp(x-y*%v).Apply(%v,%v) is %v after %d calls", a, a, b, got, n2)
	}
	w := binaryop.NewBinaryOpToBool(func(x, y T) bool { return x < y+a })
	if got := w.Apply(a, b); got != (a < b+a) {
		return fail("NewBinaryOpToBool(x<y+%v).Apply(%v,%v) is %v", a, a, b, got)
	}
	if got := binaryop.NewMonoID(a, v).Zero(); differ(got, a) {
		return fail("NewMonoID(%v).Zero() is %v", a, got)
	}
	if got := gb.DefaultMonoIDAddition[T]().Zero(); got != 0 {
		return fail("DefaultMonoIDAddition().Zero() is %v", got)
	}
	if got := gb.DefaultMonoIDMaximum[T]().Zero(); got != 0 {
		return fail("DefaultMonoIDMaximum().Zero() is %v", got)
	}
	return nil
}

func logicOps(g *G) error {
	a, b := g.coin(), g.coin()
	if operators.LOR.Apply(a, b) != (a || b) || operators.LAND.Apply(a, b) != (a && b) || operators.LXOR.Apply(a, b) != (a != b) || operators.LogicalInverse.Apply(a) != !a {
		return fail("a logical operator is wrong on %v, %v", a, b)
	}
	return nil
}

func built(g *G) error {
	x := g.coin()
	if binaryop.NewMonoID(x, operators.LOR).Zero() != x {
		return fail("NewMonoID(%v).Zero() is %v", x, !x)
	}
	return nil
}

// C30
type ctxKey struct{}

type otherMode struct{ context.Context }

func (otherMode) Mode() gb.Mode { return gb.NonBlocking }

func mode(g *G) error {
	base := context.WithValue(context.Background(), ctxKey{}, g.Intn(9))
	var cancel context.CancelFunc = func() {}
	switch g.Intn(3) {
	case 0:
		base, cancel = context.WithCancel(base)
	case 1:
		base, cancel = context.WithDeadline(base, time.Now().Add(time.Hour))
	}
	defer cancel()
	if m, ok := gb.BlockingMode(base); m != gb.Blocking || ok {
		return fail("a plain context reports mode %v, %v", m, ok)
	}
	want := g.Intn(5) - 1
	x := gb.NewContext(base, want)
	for k := 0; k < 2; k++ {
		if m, ok := gb.BlockingMode(x); m != want || !ok {
			return fail("a context of mode %v reports %v, %v", want, m, ok)
		}
		d1, o1 := base.Deadline()
		d2, o2 := x.Deadline()
		if x.Done() != base.Done() || x.Err() != base.Err() || !d1.Equal(d2) || o1 != o2 || x.Value(ctxKey{}) != base.Value(ctxKey{}) || x.Value(1) != nil {
			return fail("a context with a mode does not behave as its parent (cancelled: %v)", k == 1)
		}
		cancel()
	}
	if m, ok := gb.BlockingMode(context.WithValue(x, 1, 2)); m != gb.Blocking || ok {
		return fail("a context derived from one with a mode reports mode %v, %v", m, ok)
	}
	if m, ok := gb.BlockingMode(otherMode{base}); m != gb.Blocking || ok {
		return fail("a context of another type reports mode %v, %v", m, ok)
	}
	if m, ok := gb.BlockingMode(otherMode{x}); m != gb.Blocking || ok {
		return fail("a context of another type around one with a mode reports mode %v, %v", m, ok)
	}
	y := gb.NewContext(x, 1-want)
	if m, ok := gb.BlockingMode(y); m != 1-want || !ok {
		return fail("a context of mode %v around one of mode %v reports %v, %v", 1-want, want, m, ok)
	}
	if m, ok := gb.BlockingMode(x); m != want || !ok {
		return fail("a context of mode %v reports %v, %v after another was made from it", want, m, ok)
	}
	return nil
}

// C17
func reduction[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		if g.one(3) {
			c = 1
		}
		m := anyModel[T](g, r, c)
		f := anyFormat(g, c)
		x := build(g, f, m)
		var ctx context.Context = context.Background()
		live := true
		if id == "C18" {
			n := g.Intn(2 * (r*c + 2))
			ctx, live = newStep(n), n > 100000
		}
		var mask gb.Mask
		prot := newModel[T](r, c)
		name := "no mask"
		if g.coin() {
			prot = anyModel[T](g, r, c)
			mask = build(g, anyFormat(g, c), prot).(gb.Mask)
			name = fmt.Sprintf("mask %v", prot)
		}
		unit, k := val[T](g), T(g.Intn(3))
		calls := 0
		op := func(a, b T) T { calls++; return a*k + b }
		which := g.Intn(3)
		var mono binaryop.MonoID[T]
		switch which {
		case 0:
			mono = binaryop.NewMonoID(unit, binaryop.NewBinaryOp(op))
		case 1:
			unit, op = 0, func(a, b T) T { return a + b }
		case 2:
			unit, op = 0, func(a, b T) T {
				if a > b {
					return a
				}
				return b
			}
		}
		fold := func(y gb.MatrixLogical[T], p *model[T]) T {
			acc := unit
			for it := y.Enumerate(); it.HasNext(); {
				i, j, v := it.Next()
				if !(p.a[i][j] > 0 || p.a[i][j] < 0) {
					acc = op(acc, v)
				}
			}
			return acc
		}
		trace := fmt.Sprintf("%s %v, %s, unit %v, a*%v+b", tname(x), m, name, unit, k)
		switch which {
		case 0, 1:
			var got T
			if which == 0 {
				got = gb.ReduceMatrixToScalarWithMonoID[T](ctx, x, mono, mask)
			} else {
				got = gb.ReduceMatrixToScalar[T](ctx, x, mask)
			}
			if want := fold(x, prot); live && got != want {
				return fail("reducing %s to a scalar (kind %d) gives %v, want %v", trace, which, got, want)
			}
			if v, ok := any(x).(gb.VectorLogial[T]); ok {
				if which == 0 {
					got = gb.ReduceVectorToScalarWithMonoID[T](ctx, v, mono, mask)
				} else {
					got = gb.ReduceVectorToScalar[T](ctx, v, mask)
				}
				if want := fold(x, prot); live && got != want {
					return fail("reducing the vector %s to a scalar gives %v, want %v", trace, got, want)
				}
			}
			if g.one(4) {
				bad := gb.NewEmptyMask(r+1, c)
				if g.coin() {
					bad = gb.NewEmptyMask(r, c+1)
				}
				if p, _ := panics(func() { gb.ReduceMatrixToScalar[T](ctx, x, bad) }); !p {
					return fail("reducing %s: a mask of another shape is accepted", trace)
				}
			}
			// a second round: the reduction itself
			if which == 0 && live {
				done, in := make(chan struct{}), make(chan T)
				out := mono.Reduce(done, in)
				acc := unit
				for n := g.Intn(4); n > 0; n-- {
					v := val[T](g)
					in <- v
					acc = op(acc, v)
				}
				if g.coin() {
					close(done)
				} else {
					done <- struct{}{}
				}
				if got := <-out; got != acc {
					return fail("MonoID.Reduce gives %v, want %v", got, acc)
				}
				if _, more := <-out; more {
					return fail("MonoID.Reduce sends two results")
				}
			}
		case 2:
			var got gb.Vector[T]
			colMask := newModel[T](r, 1)
			var cm gb.Mask
			if g.coin() {
				got = gb.ReduceMatrixToVector[T](ctx, x)
			} else {
				if g.coin() {
					colMask = anyModel[T](g, r, 1)
					cm = build(g, anyFormat(g, 1), colMask).(gb.Mask)
				}
				got = gb.ReduceMatrixToVectorWithMonoID[T](ctx, x, gb.DefaultMonoIDMaximum[T](), cm)
			}
			if got.Rows() != c || got.Columns() != 1 || got.Length() != c {
				return fail("reducing %s to a vector gives %dx%d", trace, got.Rows(), got.Columns())
			}
			for j := 0; j < c && live; j++ {
				if want := fold(x.ColumnsAt(j), colMask); got.AtVec(j) != want {
					return fail("reducing %s to a vector (mask %v) gives %v at %d, want %v", trace, colMask, got.AtVec(j), j, want)
				}
			}
		}
		return same("the operand", x, m)
	}
}

// C20
func strassenProduct[T constraints.Number](cancel bool) func(g *G) error {
	return func(g *G) error {
		r, n, c := g.dim(), g.dim(), g.dim()
		if g.Intn(3) > 0 {
			r, c = n, n
			if g.one(3) {
				n = []int{4, 6, 8, 12, 16}[g.Intn(5)]
				r, c = n, n
			}
		}
		a, b := anyModel[T](g, r, n), anyModel[T](g, n, c)
		x, y := build(g, anyFormat(g, n), a), build(g, anyFormat(g, c), b)
		cross := g.Intn(5)
		trace := fmt.Sprintf("%s %v * %s %v, crossover %d", tname(x), a, tname(y), b, cross)
		var ctx context.Context = context.Background()
		if cancel {
			ctx = newStep(g.Intn(2*r*c + 3))
		}
		if g.one(8) && !cancel {
			z := empty[T](fDense, n+1, c)
			if p, _ := panics(func() { strassen.MultiplyCrossoverPoint[T](ctx, x, z, cross) }); !p {
				return fail("%s: a right operand of %d rows is accepted", trace, n+1)
			}
		}
		var got gb.Matrix[T]
		if g.one(5) {
			got = strassen.Multiply[T](ctx, x, y)
		} else {
			got = strassen.MultiplyCrossoverPoint[T](ctx, x, y, cross)
		}
		if !cancel {
			if err := same(trace, got, product(a, b)); err != nil {
				return err
			}
		}
		if err := same("the left operand", x, a); err != nil {
			return err
		}
		return same("the right operand", y, b)
	}
}

// C19
func search[T constraints.Number](cancel bool) func(g *G) error {
	return func(g *G) error {
		n := 1 + g.Intn(6)
		m := newModel[T](n, n)
		p := 1 + g.Intn(4)
		for i := range m.a {
			for j := range m.a[i] {
				if g.one(p + 1) {
					m.a[i][j] = T(1 + g.Intn(3))
				}
			}
		}
		x := build(g, anyFormat(g, n), m)
		s := g.Intn(n)
		dist := make([]int, n)
		for i := range dist {
			dist[i] = -1
		}
		dist[s] = 0
		for q := []int{s}; len(q) > 0; q = q[1:] {
			for v := 0; v < n; v++ {
				if m.a[v][q[0]] != 0 && dist[v] < 0 {
					dist[v] = dist[q[0]] + 1
					q = append(q, v)
				}
			}
		}
		stop, d := 1+g.Intn(n+2), 0
		var err error
		level := func(v gb.Vector[T], d int, what string) {
			if v.Length() != n {
				err = fail("%s has length %d", what, v.Length())
				return
			}
			for i := 0; i < n; i++ {
				if (v.AtVec(i) != 0) != (d > 0 && dist[i] == d) && err == nil {
					err = fail("search of %s %v from %d: %s is %v at vertex %d, which has distance %d", tname(x), m, s, what, v.AtVec(i), i, dist[i])
				}
			}
		}
		var ctx context.Context = context.Background()
		if cancel {
			ctx = newStep(g.Intn(4 * n * n))
		}
		var last gb.Vector[T]
		res := breadthfirst.Search[T](ctx, x, s, func(v gb.Vector[T]) bool {
			d++
			if !cancel {
				level(v, d, fmt.Sprintf("level %d", d))
			}
			last = v
			return d == stop
		})
		if err != nil {
			return err
		}
		if !cancel {
			if stop <= n && d != stop || stop > n && d != n {
				return fail("search of %s %v: %d calls, the callback wants to stop after %d", tname(x), m, d, stop)
			}
			if d == stop {
				level(res, d, "the result")
				_ = last
			} else {
				level(res, 0, "the result")
			}
			if err != nil {
				return err
			}
		} else if d > n {
			return fail("%d calls for %d vertices", d, n)
		}
		return same("the graph", x, m)
	}
}

// C21
func rref(g *G) error {
	r, c := g.dim(), g.dim()
	if r > 6 || c > 6 {
		r, c = 3, 5
	}
	var m *model[float64]
	var want [][]*big.Rat
	for try := 0; ; try++ {
		m = newModel[float64](r, c)
		for i := range m.a {
			for j := range m.a[i] {
				m.a[i][j] = []float64{0, 0, 0, 1, 1, -1, 2, -2, 0.5}[g.Intn(9)]
			}
			if i > 0 && g.one(4) {
				k := g.Intn(i)
				for j := range m.a[i] {
					m.a[i][j] = 2 * m.a[k][j]
				}
			}
		}
		if g.one(4) && c > 0 {
			j := g.Intn(c)
			for i := range m.a {
				m.a[i][j] = 0
			}
		}
		var exact bool
		if want, exact = rationalRREF(m); exact {
			break
		}
	}
	x := build(g, anyFormat(g, c), m)
	got := reduced.Reduced[float64](x)
	if got.Rows() != r || got.Columns() != c {
		return fail("Reduced(%s %v) has shape %dx%d", tname(x), m, got.Rows(), got.Columns())
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			w, _ := want[i][j].Float64()
			if math.Abs(got.At(i, j)-w) > 1e-9 {
				return fail("Reduced(%s %v) is %v at (%d,%d), want %v", tname(x), m, got.At(i, j), i, j, w)
			}
		}
	}
	return same("the operand", x, m)
}

// rationalRREF gives the reduced row echelon form, and whether floating point numbers get it exactly
func rationalRREF(m *model[float64]) ([][]*big.Rat, bool) {
	a := make([][]*big.Rat, m.r)
	for i := range a {
		a[i] = make([]*big.Rat, m.c)
		for j := range a[i] {
			a[i][j] = new(big.Rat).SetFloat64(m.a[i][j])
		}
	}
	exact := true
	row := 0
	for col := 0; col < m.c && row < m.r; col++ {
		p := row
		for p < m.r && a[p][col].Sign() == 0 {
			p++
		}
		if p == m.r {
			continue
		}
		a[p], a[row] = a[row], a[p]
		// a pivot in any row below must be a power of two: then each order of elimination is exact
		for i := row; i < m.r; i++ {
			if a[i][col].Sign() != 0 {
				n := new(big.Int).Abs(a[i][col].Num())
				if n.BitLen() != int(n.TrailingZeroBits())+1 {
					exact = false
				}
			}
		}
		inv := new(big.Rat).Inv(a[row][col])
		for j := range a[row] {
			a[row][j] = new(big.Rat).Mul(a[row][j], inv)
		}
		for i := range a {
			if i == row {
				continue
			}
			f := a[i][col]
			for j := range a[i] {
				a[i][j] = new(big.Rat).Sub(a[i][j], new(big.Rat).Mul(f, a[row][j]))
			}
		}
		row++
	}
	return a, exact
}

// C23, C24
func anyRune(g *G) rune {
	return []rune{0, 0, 'a', 'b', 'c', 'z', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff}[g.Intn(17)]
}

func runeModel(g *G, r, c int) *model[rune] {
	m := newModel[rune](r, c)
	few := g.coin()
	for i := range m.a {
		for j := range m.a[i] {
			if few {
				m.a[i][j] = rune(g.Intn(2)) * 'a'
			} else {
				m.a[i][j] = anyRune(g)
			}
		}
		if i > 0 && g.one(4) {
			copy(m.a[i], m.a[g.Intn(i)])
		}
	}
	return m
}

func buildRune(g *G, m *model[rune]) gb.MatrixRune {
	f := anyFormat(g, m.c)
	if f == fDense && g.coin() {
		if m.r > 0 && g.coin() {
			return gb.NewDenseMatrixFromArray(m.array())
		}
		x := gb.NewDenseMatrix[rune](m.r, m.c)
		for i := range m.a {
			for j := range m.a[i] {
				x.Set(i, j, m.a[i][j])
			}
		}
		return x
	}
	if f == fDVec && g.coin() {
		x := gb.NewDenseVector[rune](m.r)
		for i := range m.a {
			x.SetVec(i, m.a[i][0])
		}
		return x
	}
	return build(g, f, m)
}

func lexical(a, b []rune) int {
	for k := range a {
		if a[k] != b[k] {
			if a[k] < b[k] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (m *model[T]) flat() []T {
	var r []T
	for _, x := range m.a {
		r = append(r, x...)
	}
	return r
}

func comparing(g *G) error {
	r, c := g.dim(), g.dim()
	a := runeModel(g, r, c)
	b := runeModel(g, r, c)
	if g.coin() {
		b = a.copy()
		if r*c > 0 && g.coin() {
			b.a[g.Intn(r)][g.Intn(c)] = anyRune(g)
		}
	}
	x, y := buildRune(g, a), buildRune(g, b)
	want := lexical(a.flat(), b.flat())
	ctx := context.Background()
	trace := fmt.Sprintf("%s %v and %s %v", tname(x), a, tname(y), b)
	if got := gb.Compare(ctx, x, y); got != want {
		return fail("Compare of %s is %d, want %d", trace, got, want)
	}
	if got := gb.Less(ctx, x, y); got != (want < 0) {
		return fail("Less of %s is %v", trace, got)
	}
	if got := gb.Greater(ctx, x, y); got != (want > 0) {
		return fail("Greater of %s is %v", trace, got)
	}
	return nil
}

func transposed[T comparable](m *model[T]) *model[T] {
	n := newModel[T](m.c, m.r)
	for i := range m.a {
		for j := range m.a[i] {
			n.a[j][i] = m.a[i][j]
		}
	}
	return n
}

func sorting(rows, cancel bool) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		m := runeModel(g, r, c)
		x := buildRune(g, m)
		var ctx context.Context = context.Background()
		if cancel {
			ctx = newStep(g.Intn(4*r*c + 2))
		}
		var y gb.MatrixRune
		if rows {
			y = gbsort.BubbleRow(ctx, x)
		} else {
			y = gbsort.BubbleColumns(ctx, x)
		}
		want := m.copy()
		if !rows {
			want = transposed(want)
		}
		sort.SliceStable(want.a, func(i, j int) bool { return lexical(want.a[i], want.a[j]) < 0 })
		if !rows {
			want = transposed(want)
			if r == 0 {
				want = newModel[rune](r, c)
			}
		}
		if !cancel {
			if err := same(fmt.Sprintf("the sorted %s %v", tname(x), m), y, want); err != nil {
				return err
			}
		}
		return same("the operand", x, m)
	}
}

// C31
func sparseTest[T constraints.Number](g *G) error {
	r := g.dim()
	for f := fCSR; f <= fDVec; f++ {
		c := 1
		if f < fSVec {
			c = g.dim()
		}
		x := build(g, f, anyModel[T](g, r, c))
		if got := gb.IsSparseMatrix[T](x); got != isSparse(f) {
			return fail("IsSparseMatrix(%s) is %v", tname(x), got)
		}
	}
	if gb.IsSparseMatrix[T](gb.NewDenseMatrix[T](r, r)) || gb.IsSparseMatrix[T](gb.NewDenseVector[T](r)) {
		return fail("IsSparseMatrix is true of a dense %v matrix or vector", reflect.TypeFor[T]())
	}
	if r > 0 && (gb.IsSparseMatrix[bool](gb.NewDenseMatrix[bool](r, r))) {
		return fail("IsSparseMatrix is true of a dense matrix or vector")
	}
	return nil
}

type userA[T constraints.Number] struct{ gb.Matrix[T] }
type userB struct{ gb.Matrix[int] }
type userC[T constraints.Number] struct{ gb.Matrix[T] }

var registered sync.Once

func registering(g *G) (err error) {
	registered.Do(func() {
		a := &userA[int]{gb.NewDenseMatrixN[int](1, 1)}
		b := &userB{a}
		if gb.IsSparseMatrix[int](a) || gb.IsSparseMatrix[int](b) {
			err = fail("a type that is not registered counts as sparse")
			return
		}
		gb.RegisterMatrix(reflect.TypeOf(*a))
		if !gb.IsSparseMatrix[int](a) || !gb.IsSparseMatrix[uint8](&userA[uint8]{gb.NewDenseMatrixN[uint8](1, 1)}) {
			err = fail("a registered type does not count as sparse")
			return
		}
		if gb.IsSparseMatrix[int](b) {
			err = fail("registering one type made another sparse")
			return
		}
		gb.RegisterMatrix(reflect.TypeOf(*b))
		if !gb.IsSparseMatrix[int](b) {
			err = fail("a registered type does not count as sparse")
		}
	})
	if err != nil {
		return err
	}
	if gb.IsSparseMatrix[int](&userC[int]{gb.NewCSRMatrix[int](1, 1)}) {
		return fail("a type that is not registered counts as sparse")
	}
	again := []reflect.Type{reflect.TypeOf(userA[int]{}), reflect.TypeOf(userB{}), reflect.TypeOf(gb.CSRMatrix[float64]{}), reflect.TypeOf(gb.CSCMatrix[float64]{}), reflect.TypeOf(gb.SparseVector[float64]{})}
	for _, t := range again {
		if p, _ := panics(func() { gb.RegisterMatrix(t) }); !p {
			return fail("registering %s twice is accepted", strings.ReplaceAll(t.Name(), "\n", ""))
		}
	}
	return nil
}
