//go:build go1.22

package main

import (
	"fmt"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

func init() {
	eachType("C01", "history", history[int]("C01"), history[uint8]("C01"), history[float64]("C01"), history[int32]("C01"))
	eachType("C02", "history", history[int]("C02"), history[uint8]("C02"), history[float64]("C02"), history[int32]("C02"))
	eachType("C03", "history", history[int]("C03"), history[uint8]("C03"), history[float64]("C03"), history[int32]("C03"))
	eachType("C04", "history", history[int]("C04"), history[uint8]("C04"), history[float64]("C04"), history[int32]("C04"))
	eachType("C05", "history", history[int]("C05"), history[uint8]("C05"), history[float64]("C05"), history[int32]("C05"))
	eachType("C06", "extract", extract[int], extract[uint8], extract[float64], extract[int32])
	eachType("C07", "copy", copies[int], copies[uint8], copies[float64], copies[int32])
	eachType("C28", "extract", extract[int], extract[uint8], extract[float64], extract[int32])
	eachType("C28", "copy", copies[int], copies[uint8], copies[float64], copies[int32])
	eachType("C08", "construct", construct[int], construct[uint8], construct[float64], construct[int32])
	eachType("C26", "resize", resize[int], resize[uint8], resize[float64], resize[int32])
	reg("C01", "logical[bool]", logical("C01", []bool{false, true}))
	reg("C01", "logical[float32]", logical("C01", []float32{0, 1, 2}))
	reg("C03", "logical[float32]", logical("C03", []float32{0, 1, 2}))
	reg("C04", "logical[float32]", logical("C04", []float32{0, 1, 2}))
	reg("C08", "logical[bool]", logical("C08", []bool{false, true}))
	reg("C06", "logical[float32]", logical("C06", []float32{0, 1, 2}))
	reg("C07", "logical[bool]", logical("C07", []bool{false, true}))
	reg("C26", "resize[float32]", resizeL([]float32{0, 1, 2}))
}

// history runs random operations against the model
func history[T constraints.Number](id string) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		if g.one(3) {
			c = 1
		}
		m := newModel[T](r, c)
		f := anyFormat(g, c)
		var x gb.Matrix[T]
		if r > 0 && c > 0 && g.one(3) {
			m = anyModel[T](g, r, c)
			x = fromArray(f, m)
		} else {
			x = empty[T](f, r, c)
		}
		trace := fmt.Sprintf("%s %v", fName[f], m)
		n := 1 + g.Intn(12)
		if g.one(20) {
			n = 60
		}
		denseRow := g.one(8)
		for k := 0; k < n; k++ {
			op := g.Intn(12)
			i, j := 0, 0
			if r > 0 && c > 0 {
				i, j = g.Intn(r), g.Intn(c)
				if denseRow && g.coin() {
					i = r - 1
				}
			} else if op < 9 {
				op = 9 + g.Intn(3)
			}
			v := val[T](g)
			switch {
			case op <= 2:
				trace += fmt.Sprintf("; Set(%d,%d,%v)", i, j, v)
				x.Set(i, j, v)
				m.a[i][j] = v
			case op == 3:
				trace += fmt.Sprintf("; Update(%d,%d,->%v)", i, j, v)
				calls := 0
				var got T
				x.Update(i, j, func(o T) T { calls++; got = o; return v })
				if calls != 1 || got != m.a[i][j] {
					return fail("%s: the update function was called %d times, last with %v, want once with %v", trace, calls, got, m.a[i][j])
				}
				m.a[i][j] = v
			case op == 4:
				trace += fmt.Sprintf("; Set(%d,%d,0)", i, j)
				x.Set(i, j, 0)
				m.a[i][j] = 0
			case op == 5:
				if vec, ok := x.(gb.Vector[T]); ok {
					trace += fmt.Sprintf("; SetVec(%d,%v)", i, v)
					vec.SetVec(i, v)
					m.a[i][0] = v
					if vec.Length() != r || vec.AtVec(i) != v {
						return fail("%s: AtVec is %v, Length %d", trace, vec.AtVec(i), vec.Length())
					}
				} else if mc, ok := x.(gb.MatrixCompressed[T]); ok {
					if g.coin() {
						trace += fmt.Sprintf("; SetReturnPointer(%d,%d,%v)", i, j, v)
						mc.SetReturnPointer(i, j, v)
					} else {
						trace += fmt.Sprintf("; UpdateReturnPointer(%d,%d,->%v)", i, j, v)
						calls := 0
						var got T
						mc.UpdateReturnPointer(i, j, func(o T) T { calls++; got = o; return v })
						if calls != 1 || got != m.a[i][j] {
							return fail("%s: the update function was called %d times, last with %v, want once with %v", trace, calls, got, m.a[i][j])
						}
					}
					m.a[i][j] = v
				}
			case op == 6 || id == "C05" && op >= 9 && op <= 10:
				mode := g.Intn(4)
				steps := g.Intn(r*c + 2)
				if g.coin() {
					steps = r*c + 1
				}
				trace += fmt.Sprintf("; Map(mode %d, %d steps)", mode, steps)
				if err := mapOver(g, x, m, isSparse(f), mode, steps); err != nil {
					return fail("%s: %v", trace, err)
				}
			case op == 7:
				k := g.Intn(5)
				trace += fmt.Sprintf("; out-of-range access %d", k)
				if err := outOfRange(g, x, m, k); err != nil {
					return fail("%s: %v", trace, err)
				}
			case op == 8:
				if x.At(i, j) != m.a[i][j] || x.Element(i, j) != (m.a[i][j] != 0) {
					return fail("%s: At(%d,%d) is %v, Element %v, contents should be %v", trace, i, j, x.At(i, j), x.Element(i, j), m)
				}
			case op == 9:
				if g.one(3) {
					trace += "; Clear"
					x.Clear()
					m = newModel[T](r, c)
				}
			case op == 10:
				if err := walk("matrix", x, m, isSparse(f)); err != nil {
					return fail("%s: %v", trace, err)
				}
			case op == 11:
				k := g.Intn(5)
				trace += fmt.Sprintf("; out-of-range access %d", k)
				if err := outOfRange(g, x, m, k); err != nil {
					return fail("%s: %v", trace, err)
				}
			}
			if err := same("matrix", x, m); err != nil {
				return fail("%s: %v", trace, err)
			}
			if id == "C02" || id == "C04" {
				if err := values("matrix", x, m, isSparse(f)); err != nil {
					return fail("%s: %v", trace, err)
				}
			}
			if x.Size() != r*c {
				return fail("%s: Size is %d", trace, x.Size())
			}
		}
		if id == "C04" || id == "C02" {
			if err := walk("matrix", x, m, isSparse(f)); err != nil {
				return fail("%s: %v", trace, err)
			}
			return same("matrix", x, m)
		}
		return nil
	}
}

func mapOver[T constraints.Number](g *G, x gb.Matrix[T], m *model[T], sparse bool, mode, limit int) error {
	before := m.copy()
	seen := map[[2]int]bool{}
	n := before.r * before.c
	if sparse {
		n = before.nnz()
	}
	it := x.Map()
	steps := 0
	for it.HasNext() {
		if steps == limit {
			return nil
		}
		if steps++; steps > n {
			return fail("mapping goes on after %d steps", n)
		}
		calls := 0
		var err error
		it.Map(func(r, c int, v T) T {
			calls++
			if r < 0 || c < 0 || r >= m.r || c >= m.c {
				err = fail("mapping visits (%d,%d)", r, c)
				return v
			}
			if seen[[2]int{r, c}] {
				err = fail("mapping visits (%d,%d) twice", r, c)
			}
			seen[[2]int{r, c}] = true
			if v != before.a[r][c] {
				err = fail("mapping passes %v at (%d,%d), want %v", v, r, c, before.a[r][c])
			}
			w := v
			switch mode {
			case 0:
				w = 0
			case 1:
				w = v + 1
			case 2:
				if (r+c)%2 == 0 {
					w = 0
				}
			case 3:
				w = val[T](g)
			}
			m.a[r][c] = w
			return w
		})
		if err != nil {
			return err
		}
		if calls != 1 {
			return fail("one step of mapping calls the function %d times", calls)
		}
		if err := same("matrix during mapping", x, m); err != nil {
			return err
		}
	}
	for i := range before.a {
		for j := range before.a[i] {
			if !seen[[2]int{i, j}] && (!sparse || before.a[i][j] != 0) {
				return fail("mapping misses (%d,%d) of %v", i, j, before)
			}
		}
	}
	if steps != n {
		return fail("mapping of %v took %d steps, want %d", before, steps, n)
	}
	return nil
}

func badPos(g *G, r, c int) (int, int) {
	i, j := 0, 0
	if r > 0 {
		i = g.Intn(r)
	}
	if c > 0 {
		j = g.Intn(c)
	}
	bad := func(n int) int { return []int{-1, n, n + 1, -2, n + 7}[g.Intn(5)] }
	switch g.Intn(3) {
	case 0:
		i = bad(r)
	case 1:
		j = bad(c)
	default:
		i, j = bad(r), bad(c)
	}
	return i, j
}

func outOfRange[T constraints.Number](g *G, x gb.Matrix[T], m *model[T], kind int) error {
	i, j := badPos(g, m.r, m.c)
	what := ""
	var f func()
	switch kind {
	case 0:
		what, f = fmt.Sprintf("At(%d,%d)", i, j), func() { x.At(i, j) }
	case 1:
		what, f = fmt.Sprintf("Set(%d,%d,1)", i, j), func() { x.Set(i, j, 1) }
	case 2:
		what, f = fmt.Sprintf("Update(%d,%d)", i, j), func() { x.Update(i, j, func(T) T { return 1 }) }
	case 3:
		k := []int{-1, m.r, m.r + 2}[g.Intn(3)]
		if g.coin() {
			what, f = fmt.Sprintf("RowsAt(%d)", k), func() { x.RowsAt(k) }
		} else {
			what, f = fmt.Sprintf("RowsAtToArray(%d)", k), func() { x.RowsAtToArray(k) }
		}
	case 4:
		k := []int{-1, m.c, m.c + 2}[g.Intn(3)]
		what, f = fmt.Sprintf("ColumnsAt(%d)", k), func() { x.ColumnsAt(k) }
		if v, ok := x.(gb.Vector[T]); ok && g.coin() {
			k := []int{-1, m.r, m.r + 2}[g.Intn(3)]
			if g.coin() {
				what, f = fmt.Sprintf("AtVec(%d)", k), func() { v.AtVec(k) }
			} else {
				what, f = fmt.Sprintf("SetVec(%d,1)", k), func() { v.SetVec(k, 1) }
			}
		} else if mc, ok := x.(gb.MatrixCompressed[T]); ok && g.coin() {
			what, f = fmt.Sprintf("SetReturnPointer(%d,%d,1)", i, j), func() { mc.SetReturnPointer(i, j, 1) }
		} else if g.coin() {
			what, f = fmt.Sprintf("Element(%d,%d)", i, j), func() { x.Element(i, j) }
		}
	}
	p, _ := panics(f)
	if !p {
		return fail("%s on a %dx%d %s did not panic", what, m.r, m.c, tname(x))
	}
	if err := same("matrix after "+what, x, m); err != nil {
		return err
	}
	return nil
}

// extract checks RowsAt, ColumnsAt and RowsAtToArray
func extract[T constraints.Number](g *G) error {
	r, c := g.pos(), g.pos()
	if g.one(3) {
		c = 1
	}
	x, m, f := anyMatrix[T](g, r, c)
	trace := fmt.Sprintf("%s %v", fName[f], m)
	i, j := g.Intn(r), g.Intn(c)
	row, col, arr := x.RowsAt(i), x.ColumnsAt(j), x.RowsAtToArray(i)
	rm, cm := newModel[T](c, 1), newModel[T](r, 1)
	for k := 0; k < c; k++ {
		rm.a[k][0] = m.a[i][k]
	}
	for k := 0; k < r; k++ {
		cm.a[k][0] = m.a[k][j]
	}
	verify := func(when string) error {
		if err := same(fmt.Sprintf("RowsAt(%d)", i), row, rm); err != nil {
			return fail("%s%s: %v", trace, when, err)
		}
		if err := same(fmt.Sprintf("ColumnsAt(%d)", j), col, cm); err != nil {
			return fail("%s%s: %v", trace, when, err)
		}
		if row.Length() != c || col.Length() != r || len(arr) != c {
			return fail("%s%s: lengths %d %d %d", trace, when, row.Length(), col.Length(), len(arr))
		}
		for k := range arr {
			if arr[k] != rm.a[k][0] {
				return fail("%s%s: RowsAtToArray(%d) is %v", trace, when, i, arr)
			}
			if row.AtVec(k) != rm.a[k][0] {
				return fail("%s%s: RowsAt(%d).AtVec(%d) is %v", trace, when, i, k, row.AtVec(k))
			}
		}
		return same("the matrix", x, m)
	}
	if err := verify(""); err != nil {
		return err
	}
	for k := 0; k < 3; k++ {
		switch g.Intn(5) {
		case 0:
			a, b, v := g.Intn(r), g.Intn(c), val[T](g)
			x.Set(a, b, v)
			m.a[a][b] = v
		case 1:
			a, v := g.Intn(c), val[T](g)
			row.SetVec(a, v)
			rm.a[a][0] = v
			arr[a] = v
		case 2:
			a, v := g.Intn(r), val[T](g)
			col.SetVec(a, v)
			cm.a[a][0] = v
		case 3:
			x.Clear()
			m = newModel[T](r, c)
		case 4:
			row.Clear()
			rm = newModel[T](c, 1)
			for k := range arr {
				arr[k] = 0
			}
		}
		if err := verify(" after a later write"); err != nil {
			return err
		}
	}
	return nil
}

func copies[T constraints.Number](g *G) error {
	r, c := g.dim(), g.dim()
	if g.one(3) {
		c = 1
	}
	x, m, f := anyMatrix[T](g, r, c)
	trace := fmt.Sprintf("%s %v", fName[f], m)
	var y gb.MatrixLogical[T]
	if g.coin() {
		y = x.Copy()
	} else {
		y = x.CopyLogical()
	}
	n := m.copy()
	for k := 0; k < 5; k++ {
		if err := same("copy", y, n); err != nil {
			return fail("%s: %v", trace, err)
		}
		if err := same("original", x, m); err != nil {
			return fail("%s: %v", trace, err)
		}
		if y.Values() != x.Values() && k == 0 {
			return fail("%s: copy has %d values, original %d", trace, y.Values(), x.Values())
		}
		if err := walk("copy", y, n, isSparse(f)); err != nil {
			return fail("%s: %v", trace, err)
		}
		if r == 0 || c == 0 {
			return nil
		}
		var z gb.MatrixLogical[T] = x
		o := m
		if g.coin() {
			z, o = y, n
		}
		a, b, v := g.Intn(r), g.Intn(c), val[T](g)
		switch g.Intn(4) {
		case 0:
			z.Clear()
			for i := range o.a {
				for j := range o.a[i] {
					o.a[i][j] = 0
				}
			}
		case 1:
			z.Update(a, b, func(T) T { return v })
			o.a[a][b] = v
		default:
			z.Set(a, b, v)
			o.a[a][b] = v
		}
	}
	return nil
}

func construct[T constraints.Number](g *G) error {
	r, c := g.dim(), g.dim()
	if g.one(3) {
		c = 1
	}
	f := anyFormat(g, c)
	x := empty[T](f, r, c)
	if err := same("new "+fName[f], x, newModel[T](r, c)); err != nil {
		return err
	}
	if err := values("new "+fName[f], x, newModel[T](r, c), isSparse(f)); err != nil {
		return err
	}
	r, c = g.pos(), g.pos()
	if g.one(3) {
		c = 1
	}
	f = anyFormat(g, c)
	m := anyModel[T](g, r, c)
	x = fromArray(f, m)
	if err := same(fName[f]+" from array", x, m); err != nil {
		return err
	}
	y := gb.NewDenseMatrixFromArray(m.array())
	if err := same("DenseMatrix from array", y, m); err != nil {
		return err
	}
	col := make([]T, r)
	for i := range col {
		col[i] = m.a[i][0]
	}
	cm := newModel[T](r, 1)
	for i := range col {
		cm.a[i][0] = col[i]
	}
	if err := same("DenseVector from array", gb.NewDenseVectorFromArray(col), cm); err != nil {
		return err
	}
	for k := g.Intn(4); k > 0; k-- {
		x.Set(g.Intn(r), g.Intn(c), val[T](g))
	}
	x.Clear()
	y.Clear()
	if err := same("cleared "+fName[f], x, newModel[T](r, c)); err != nil {
		return err
	}
	if err := same("cleared DenseMatrix", y, newModel[T](r, c)); err != nil {
		return err
	}
	if err := values("cleared "+fName[f], x, newModel[T](r, c), isSparse(f)); err != nil {
		return err
	}
	i, j := g.Intn(r), g.Intn(c)
	x.Set(i, j, 3)
	z := newModel[T](r, c)
	z.a[i][j] = 3
	if err := same("cleared and written "+fName[f], x, z); err != nil {
		return err
	}
	e := gb.NewEmptyMask(r, c)
	if e.Rows() != r || e.Columns() != c || e.Element(i, j) {
		return fail("empty mask of %dx%d has shape %dx%d, element %v", r, c, e.Rows(), e.Columns(), e.Element(i, j))
	}
	return nil
}

func resize[T constraints.Number](g *G) error {
	l := g.dim()
	v := gb.NewDenseVectorN[T](l)
	m := newModel[T](l, 1)
	for i := 0; i < l; i++ {
		m.a[i][0] = val[T](g)
		v.SetVec(i, m.a[i][0])
	}
	if g.coin() {
		v = fromArray(fDVec, m).(*gb.DenseVectorNumber[T])
	}
	return resizing[T](g, v, m, v.ReSize, func(g *G) T { return val[T](g) })
}

func resizeL[T constraints.Type](vals []T) func(g *G) error {
	return func(g *G) error {
		l := g.dim()
		v := gb.NewDenseVector[T](l)
		m := newModel[T](l, 1)
		pick := func(g *G) T { return vals[g.Intn(len(vals))] }
		for i := 0; i < l; i++ {
			m.a[i][0] = pick(g)
			v.SetVec(i, m.a[i][0])
		}
		return resizing[T](g, v, m, v.ReSize, pick)
	}
}

func resizing[T constraints.Type](g *G, v gb.VectorLogial[T], m *model[T], re func(int) int, pick func(g *G) T) error {
	trace := fmt.Sprint(m)
	for k := 0; k < 5; k++ {
		n := g.dim()
		if g.one(6) {
			n = 20
		}
		if g.one(3) {
			for i := range m.a {
				m.a[i][0] = pick(g)
				v.SetVec(i, m.a[i][0])
			}
			trace += fmt.Sprintf("; set to %v", m)
		}
		old := v.CopyLogical()
		om := m.copy()
		trace += fmt.Sprintf("; ReSize(%d)", n)
		got := re(n)
		nm := newModel[T](n, 1)
		for i := 0; i < n && i < m.r; i++ {
			nm.a[i][0] = m.a[i][0]
		}
		m = nm
		if got != n || v.Length() != n || v.Size() != n || v.Values() != n {
			return fail("%s: returned %d, length %d, size %d, values %d", trace, got, v.Length(), v.Size(), v.Values())
		}
		if err := same("vector", v, m); err != nil {
			return fail("%s: %v", trace, err)
		}
		if err := same("a copy made before", old, om); err != nil {
			return fail("%s: %v", trace, err)
		}
	}
	return nil
}

// logical: matrices and vectors of element types that are not numbers
func logical[T constraints.Type](id string, vals []T) func(g *G) error {
	return func(g *G) error {
		r, c := g.dim(), g.dim()
		vec := g.one(3)
		if vec {
			c = 1
		}
		m := newModel[T](r, c)
		var x gb.MatrixLogical[T]
		if vec {
			x = gb.NewDenseVector[T](r)
		} else {
			x = gb.NewDenseMatrix[T](r, c)
		}
		var y gb.MatrixLogical[T]
		var ym *model[T]
		trace := fmt.Sprintf("%s %v", tname(x), m)
		for k := 0; k < 8; k++ {
			if r == 0 || c == 0 {
				break
			}
			i, j, v := g.Intn(r), g.Intn(c), vals[g.Intn(len(vals))]
			switch g.Intn(7) {
			case 0, 1, 2:
				trace += fmt.Sprintf("; Set(%d,%d,%v)", i, j, v)
				x.Set(i, j, v)
				m.a[i][j] = v
			case 3:
				trace += fmt.Sprintf("; Update(%d,%d,%v)", i, j, v)
				x.Update(i, j, func(T) T { return v })
				m.a[i][j] = v
			case 4:
				if g.one(3) {
					trace += "; Clear"
					x.Clear()
					m = newModel[T](r, c)
				}
			case 5:
				a, b := badPos(g, r, c)
				trace += fmt.Sprintf("; access to (%d,%d)", a, b)
				p1, _ := panics(func() { x.At(a, b) })
				p2, _ := panics(func() { x.Set(a, b, v) })
				p3, _ := panics(func() { x.Update(a, b, func(T) T { return v }) })
				if !p1 || !p2 || !p3 {
					return fail("%s: no panic (%v %v %v)", trace, p1, p2, p3)
				}
			case 6:
				trace += "; CopyLogical"
				y, ym = x.CopyLogical(), m.copy()
			}
			if err := same("matrix", x, m); err != nil {
				return fail("%s: %v", trace, err)
			}
			if y != nil {
				if err := same("copy", y, ym); err != nil {
					return fail("%s: %v", trace, err)
				}
			}
			row, col := x.RowsAt(i), x.ColumnsAt(j)
			for q := 0; q < c; q++ {
				if row.AtVec(q) != m.a[i][q] || x.RowsAtToArray(i)[q] != m.a[i][q] {
					return fail("%s: RowsAt(%d) holds %v at %d", trace, i, row.AtVec(q), q)
				}
			}
			for q := 0; q < r; q++ {
				if col.AtVec(q) != m.a[q][j] {
					return fail("%s: ColumnsAt(%d) holds %v at %d", trace, j, col.AtVec(q), q)
				}
			}
		}
		if x.Values() != r*c {
			return fail("%s: %d values", trace, x.Values())
		}
		return walk("matrix", x, m, false)
	}
}
