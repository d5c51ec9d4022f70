//go:build go1.22

package main

import (
	"context"
	"fmt"
	"reflect"
	"sync"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// model: what the elements should be
type model[T comparable] struct {
	r, c int
	a    [][]T
}

func newModel[T comparable](r, c int) *model[T] {
	m := &model[T]{r: r, c: c, a: make([][]T, r)}
	for i := range m.a {
		m.a[i] = make([]T, c)
	}
	return m
}

func (m *model[T]) copy() *model[T] {
	n := newModel[T](m.r, m.c)
	for i := range m.a {
		copy(n.a[i], m.a[i])
	}
	return n
}

func (m *model[T]) array() [][]T { return m.copy().a }

func (m *model[T]) nnz() (n int) {
	var z T
	for _, row := range m.a {
		for _, v := range row {
			if v != z {
				n++
			}
		}
	}
	return
}

func (m *model[T]) String() string { return fmt.Sprintf("%dx%d%v", m.r, m.c, m.a) }

func val[T constraints.Number](g *G) T {
	if g.Intn(5) < 2 {
		return 0
	}
	switch g.Intn(8) {
	case 0, 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	case 4:
		return T(0) - 1
	case 5:
		return T(0) - 2
	case 6:
		return 7
	}
	return T(100)
}

func anyModel[T constraints.Number](g *G, r, c int) *model[T] {
	m := newModel[T](r, c)
	dense := g.Intn(4)
	for i := range m.a {
		for j := range m.a[i] {
			if dense == 0 || g.Intn(4) < 3 {
				m.a[i][j] = val[T](g)
			}
		}
	}
	return m
}

const (
	fCSR = iota
	fCSC
	fDense
	fSVec
	fDVec
)

var fName = []string{"CSRMatrix", "CSCMatrix", "DenseMatrixNumber", "SparseVector", "DenseVectorNumber"}

func isSparse(f int) bool { return f == fCSR || f == fCSC || f == fSVec }

func anyFormat(g *G, c int) int {
	if c == 1 {
		return g.Intn(5)
	}
	return g.Intn(3)
}

func empty[T constraints.Number](f, r, c int) gb.Matrix[T] {
	switch f {
	case fCSR:
		return gb.NewCSRMatrix[T](r, c)
	case fCSC:
		return gb.NewCSCMatrix[T](r, c)
	case fDense:
		return gb.NewDenseMatrixN[T](r, c)
	case fSVec:
		return gb.NewSparseVector[T](r)
	}
	return gb.NewDenseVectorN[T](r)
}

func fromArray[T constraints.Number](f int, m *model[T]) gb.Matrix[T] {
	switch f {
	case fCSR:
		return gb.NewCSRMatrixFromArray(m.array())
	case fCSC:
		return gb.NewCSCMatrixFromArray(m.array())
	case fDense:
		return gb.NewDenseMatrixFromArrayN(m.array())
	}
	// some room behind the elements, not zero
	v := make([]T, m.r, m.r+3)
	for i := range v[m.r:cap(v)] {
		v[m.r : m.r+3][i] = 77
	}
	for i := range v {
		v[i] = m.a[i][0]
	}
	if f == fSVec {
		return gb.NewSparseVectorFromArray(v)
	}
	return gb.NewDenseVectorFromArrayN(v)
}

// build makes a matrix with the elements of the model along one of several histories
func build[T constraints.Number](g *G, f int, m *model[T]) gb.Matrix[T] {
	if m.r > 0 && m.c > 0 && g.one(3) {
		return fromArray(f, m)
	}
	x := empty[T](f, m.r, m.c)
	if m.r == 0 || m.c == 0 {
		return x
	}
	// something else was there before
	switch g.Intn(4) {
	case 0:
		for k := g.Intn(6); k > 0; k-- {
			x.Set(g.Intn(m.r), g.Intn(m.c), 1+T(g.Intn(3)))
		}
		if g.coin() {
			x.Clear()
		}
	}
	for _, p := range g.Perm(m.r * m.c) {
		i, j := p/m.c, p%m.c
		v := m.a[i][j]
		switch g.Intn(6) {
		case 0:
			x.Update(i, j, func(T) T { return v })
		case 1:
			x.Set(i, j, 5)
			x.Set(i, j, v)
		default:
			x.Set(i, j, v)
		}
	}
	return x
}

func anyMatrix[T constraints.Number](g *G, r, c int) (gb.Matrix[T], *model[T], int) {
	m := anyModel[T](g, r, c)
	f := anyFormat(g, c)
	return build(g, f, m), m, f
}

// same compares a matrix with the model, position by position
func same[T comparable](what string, x interface {
	Rows() int
	Columns() int
	At(r, c int) T
}, m *model[T]) error {
	if x.Rows() != m.r || x.Columns() != m.c {
		return fail("%s has shape %dx%d, want %dx%d", what, x.Rows(), x.Columns(), m.r, m.c)
	}
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			if v := x.At(i, j); v != m.a[i][j] {
				return fail("%s (%s) at (%d,%d) is %v, want %v; whole contents should be %v", what, tname(x), i, j, v, m.a[i][j], m)
			}
		}
	}
	return nil
}

func tname(x any) string { return reflect.TypeOf(x).String() }

func values[T comparable](what string, x interface{ Values() int }, m *model[T], sparse bool) error {
	want := m.r * m.c
	if sparse {
		want = m.nnz()
	}
	if x.Values() != want {
		return fail("%s (%s) reports %d values, want %d for %v", what, tname(x), x.Values(), want, m)
	}
	return nil
}

// read gives the elements of a matrix as a model
func read[T constraints.Type](x gb.MatrixLogical[T]) *model[T] {
	m := newModel[T](x.Rows(), x.Columns())
	for i := range m.a {
		for j := range m.a[i] {
			m.a[i][j] = x.At(i, j)
		}
	}
	return m
}

// walk enumerates a matrix and compares with the model
func walk[T constraints.Type](what string, x gb.MatrixLogical[T], m *model[T], sparse bool) error {
	seen := map[[2]int]bool{}
	steps := 0
	n := x.Values()
	it := x.Enumerate()
	for it.HasNext() {
		steps++
		if steps > m.r*m.c {
			return fail("%s (%s): enumeration goes on after %d steps over %v", what, tname(x), steps-1, m)
		}
		r, c, v := it.Next()
		if r < 0 || c < 0 || r >= m.r || c >= m.c {
			return fail("%s (%s): enumeration yields (%d,%d) outside %v", what, tname(x), r, c, m)
		}
		if seen[[2]int{r, c}] {
			return fail("%s (%s): enumeration yields (%d,%d) twice, over %v", what, tname(x), r, c, m)
		}
		seen[[2]int{r, c}] = true
		if v != m.a[r][c] {
			return fail("%s (%s): enumeration yields %v at (%d,%d), over %v", what, tname(x), v, r, c, m)
		}
	}
	if steps != n {
		return fail("%s (%s): enumeration of %v took %d steps, %d values are reported", what, tname(x), m, steps, n)
	}
	var z T
	for i := range m.a {
		for j := range m.a[i] {
			if !seen[[2]int{i, j}] && (!sparse || m.a[i][j] != z) {
				return fail("%s (%s): enumeration misses (%d,%d) of %v", what, tname(x), i, j, m)
			}
		}
	}
	return nil
}

// stepCtx becomes cancelled after its Done method was called n times
type stepCtx struct {
	context.Context
	mu   sync.Mutex
	n    int
	used int
	ch   chan struct{}
	shut bool
}

func newStep(n int) *stepCtx {
	return &stepCtx{Context: context.Background(), n: n, ch: make(chan struct{})}
}

func (s *stepCtx) Done() <-chan struct{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.used++
	if s.used > s.n && !s.shut {
		s.shut = true
		close(s.ch)
	}
	return s.ch
}

func (s *stepCtx) Err() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.shut {
		return context.Canceled
	}
	return nil
}

// eachType registers a check for several element types
func eachType(prop, name string, i func(*G) error, u func(*G) error, f func(*G) error, r func(*G) error) {
	reg(prop, name+"[int]", i)
	reg(prop, name+"[uint8]", u)
	reg(prop, name+"[float64]", f)
	reg(prop, name+"[int32]", r)
}
