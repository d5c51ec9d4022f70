package main

import (
	"context"
	"fmt"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	gbsort "github.com/rossmerr/graphblas/sort"
)

func init() {
	eachType("C28", "untouched", untouched[int], untouched[uint8], untouched[float64], untouched[int32])
	reg("C28", "untouched[rune]", untouchedRunes)
	eachType("C29", "strassen", strassenShapes[int], strassenShapes[uint8], strassenShapes[float64], strassenShapes[int32])
}

// C28, for what is built on the operations: operands stay as they are, and what is done to the result
// afterwards does not show in them, nor the other way round
func untouched[T constraints.Number](g *G) error {
	r, n, c := g.dim(), g.dim(), g.dim()
	ctx := context.Background()
	kind := g.Intn(8)
	if kind == 2 || kind == 0 && g.coin() {
		r, c = n, n
	}
	if kind == 0 && g.one(4) {
		n = []int{4, 6, 8}[g.Intn(3)]
		r, c = n, n
	}
	ma, mb, mm := anyModel[T](g, r, n), anyModel[T](g, n, c), anyModel[T](g, r, n)
	fa := anyFormat(g, n)
	if kind == 6 {
		ma, mm = anyModel[T](g, r, 1), anyModel[T](g, r, 1)
		fa = []int{fSVec, fDVec}[g.Intn(2)]
	}
	a, b := build(g, fa, ma), build(g, anyFormat(g, c), mb)
	var mask gb.Mask
	if g.coin() {
		mask = build(g, anyFormat(g, mm.c), mm).(gb.Mask)
	}
	var res gb.Matrix[T]
	what := ""
	switch kind {
	case 0:
		what = "strassen"
		res = strassen.MultiplyCrossoverPoint[T](ctx, a, b, 1+g.Intn(4))
	case 1:
		what = "Reduced"
		var z T = 1
		if z/2 == 0 { // the elements have to be a field
			return nil
		}
		res = reduced.Reduced[T](a)
	case 2:
		if n == 0 {
			return nil
		}
		what = "Search"
		for i := range ma.a {
			for j := range ma.a[i] {
				if ma.a[i][j] < 0 {
					ma.a[i][j] = 1
				}
			}
		}
		a = build(g, fa, ma)
		stop := g.Intn(n + 1)
		res = breadthfirst.Search[T](ctx, a, g.Intn(n), func(gb.Vector[T]) bool { stop--; return stop < 0 })
	case 3:
		what = "Symmetric"
		symmetric.Symmetric[T](a)
		skewsymmetric.SkewSymmetric[T](a)
	case 4:
		what = "ReduceMatrixToScalar"
		gb.ReduceMatrixToScalar[T](ctx, a, mask)
	case 5:
		what = "ReduceMatrixToVector"
		res = gb.ReduceMatrixToVector[T](ctx, a)
	case 6:
		what = "ReduceVectorToScalar"
		gb.ReduceVectorToScalar[T](ctx, a.(gb.VectorLogial[T]), mask)
	case 7:
		what = "Equal"
		gb.Equal[T](ctx, a, b)
		gb.NotEqual[T](ctx, b, a)
	}
	check := func(when string) error {
		t := fmt.Sprintf("%s(%s %v, %s %v): %s, ", what, tname(a), ma, tname(b), mb, when)
		if err := same[T](t+"the first operand", a, ma); err != nil {
			return err
		}
		if mask != nil {
			if err := same[T](t+"the mask", mask.(gb.Matrix[T]), mm); err != nil {
				return err
			}
		}
		return same[T](t+"the second operand", b, mb)
	}
	if err := check("afterwards"); err != nil || res == nil {
		return err
	}
	for i := 0; i < res.Rows(); i++ {
		for j := 0; j < res.Columns(); j++ {
			res.Set(i, j, 9)
		}
	}
	if err := check("the result being written"); err != nil {
		return err
	}
	mr := read[T](res)
	for i := range ma.a {
		for j := range ma.a[i] {
			a.Set(i, j, 7)
		}
	}
	return same[T](what+": the operand being written, the result", res, mr)
}

func untouchedRunes(g *G) error {
	r, c := g.dim(), g.dim()
	ctx := context.Background()
	ma, mb := runeModel(g, r, c), runeModel(g, r, c)
	if g.coin() {
		mb = ma.copy()
	}
	a, b := buildRune(g, ma), buildRune(g, mb)
	var res gb.MatrixRune
	what := ""
	switch g.Intn(4) {
	case 0:
		what, res = "BubbleRow", gbsort.BubbleRow(ctx, a)
	case 1:
		what, res = "BubbleColumns", gbsort.BubbleColumns(ctx, a)
	case 2:
		what = "Compare"
		gb.Compare(ctx, a, b)
		gb.Less(ctx, a, b)
		gb.Greater(ctx, a, b)
	case 3:
		what = "String"
		_ = gb.String(ctx, a)
	}
	check := func(when string) error {
		t := fmt.Sprintf("%s(%s %v, %s %v): %s, ", what, tname(a), ma, tname(b), mb, when)
		if err := same[rune](t+"the first operand", a, ma); err != nil {
			return err
		}
		return same[rune](t+"the second operand", b, mb)
	}
	if err := check("afterwards"); err != nil || res == nil {
		return err
	}
	for i := 0; i < res.Rows(); i++ {
		for j := 0; j < res.Columns(); j++ {
			res.Set(i, j, 'z')
		}
	}
	return check("the result being written")
}

// C29
func strassenShapes[T constraints.Number](g *G) error {
	r, n, k, c := g.dim(), g.dim(), g.dim(), g.dim()
	if g.one(3) {
		n, c = r, r
	}
	ma, mb := anyModel[T](g, r, n), anyModel[T](g, k, c)
	a, b := build(g, anyFormat(g, n), ma), build(g, anyFormat(g, c), mb)
	t := fmt.Sprintf("strassen(%s %dx%d, %s %dx%d)", tname(a), r, n, tname(b), k, c)
	p, _ := panics(func() { strassen.MultiplyCrossoverPoint[T](context.Background(), a, b, g.Intn(4)) })
	if p != (n != k) {
		return fail("%s: panics: %v", t, p)
	}
	if err := same[T](t+": the first operand", a, ma); err != nil {
		return err
	}
	return same[T](t+": the second operand", b, mb)
}
