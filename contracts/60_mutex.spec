// The locked wrapper. lk: 0 free, -1 held for writing, 1 held for reading, by the running goroutine.
// Contracts are about one critical section: what the lock protects is taken to have changed
// whenever it is acquired again. Rows, Columns and Size never change and need no lock.
ghost lk Int
ghost wrapped Int
def w(s) = wrapped(s)

func NewMutexMatrix(matrix) res
  requires given(matrix)
  ensures fresh(res) && wrapped(res) == matrix

class MutexMatrix
layout RWMutex matrix
private
locks self.matrix
inv self.matrix != 0
view wrapped := self.matrix

method Columns() n
  requires lk(self) == 0
  ensures n == cols(w(self))
method Rows() n
  requires lk(self) == 0
  ensures n == rows(w(self))
method Size() n
  requires lk(self) == 0
  ensures n == imul(rows(w(self)), cols(w(self)))
method Values() n
  requires lk(self) == 0
  ensures n == vals(w(self))
method At(r, c) v
  requires lk(self) == 0
  panics when !inr(w(self), r, c)
  ensures v == mat(w(self))[r][c]
method Element(r, c) b
  requires lk(self) == 0
  panics when !inr(w(self), r, c)
  ensures b <==> mat(w(self))[r][c] != tzero
method Set(r, c, value)
  requires lk(self) == 0
  panics when !inr(w(self), r, c)
  modifies content(w(self))
  ensures mat(w(self)) == upd(old(mat(w(self))), r, c, value)
method Update(r, c, f)
  requires lk(self) == 0
  panics when !inr(w(self), r, c)
  calls f(mat(w(self))[r][c]) -> y
  modifies content(w(self))
  ensures mat(w(self)) == upd(old(mat(w(self))), r, c, y)
method Clear()
  requires lk(self) == 0
  modifies content(w(self))
  ensures forall i, j :: {mat(w(self))[i][j]} mat(w(self))[i][j] == tzero
method Copy() res
  requires lk(self) == 0
  ensures fresh(res) && same(res, w(self)) && vals(res) == vals(w(self))
method RowsAt(r) res
  requires lk(self) == 0
  panics when !(0 <= r && r < rows(w(self)))
  ensures fresh(res) && rows(res) == cols(w(self)) && cols(res) == 1
  ensures forall i :: {mat(res)[i][0]} mat(res)[i][0] == mat(w(self))[r][i]
method ColumnsAt(c) res
  requires lk(self) == 0
  panics when !(0 <= c && c < cols(w(self)))
  ensures fresh(res) && rows(res) == rows(w(self)) && cols(res) == 1
  ensures forall i :: {mat(res)[i][0]} mat(res)[i][0] == mat(w(self))[i][c]
method RowsAtToArray(r) res
  requires lk(self) == 0
  panics when !(0 <= r && r < rows(w(self)))
  ensures fresh(res) && len(res) == cols(w(self))
  ensures forall i :: {res[i]} 0 <= i && i < cols(w(self)) ==> res[i] == mat(w(self))[r][i]
method Scalar(alpha) res
  requires lk(self) == 0
  ensures fresh(res) && shape(res, rows(w(self)), cols(w(self)))
  ensures forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tmul(alpha, mat(w(self))[i][j]) || mat(w(self))[i][j] == tzero && mat(res)[i][j] == tzero
method Multiply(m) res
  requires lk(self) == 0 && given(m)
  panics when cols(w(self)) != rows(m)
  ensures fresh(res) && shape(res, rows(w(self)), cols(m))
  ensures forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == dot(mat(w(self)), mat(m), i, j, cols(w(self)))
method Add(m) res
  requires lk(self) == 0 && given(m)
  panics when !alike2(w(self), m)
  ensures fresh(res) && alike2(res, w(self))
  ensures forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tadd(mat(w(self))[i][j], mat(m)[i][j])
method Subtract(m) res
  requires lk(self) == 0 && given(m)
  panics when !alike2(w(self), m)
  ensures fresh(res) && alike2(res, w(self))
  ensures forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tsub(mat(w(self))[i][j], mat(m)[i][j])
method Negative() res
  requires lk(self) == 0
  ensures fresh(res) && alike2(res, w(self))
  ensures forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tneg(mat(w(self))[i][j])
method Transpose() res
  requires lk(self) == 0
  ensures fresh(res) && shape(res, cols(w(self)), rows(w(self)))
  ensures transposed(res, w(self))
method Equal(m) b
  requires lk(self) == 0
  ensures b ==> given(m) && alike2(w(self), m) && (forall i, j :: {mat(w(self))[i][j]} {mat(m)[i][j]} inr(w(self), i, j) ==> teq(mat(w(self))[i][j], mat(m)[i][j]))
  ensures given(m) && eqm(w(self), m) ==> b
method NotEqual(m) b
  requires lk(self) == 0
  ensures !b ==> given(m) && alike2(w(self), m) && (forall i, j :: {mat(w(self))[i][j]} {mat(m)[i][j]} inr(w(self), i, j) ==> teq(mat(w(self))[i][j], mat(m)[i][j]))
  ensures given(m) && eqm(w(self), m) ==> !b
// the iterator outlives the critical section: it may not reach the wrapped matrix
method Enumerate() it
  requires lk(self) == 0
  ensures fresh(it) && fresh(src(it)) && iver(it) == ver(src(it)) && rem(it) == vals(src(it))
  ensures same(src(it), w(self))
  ensures forall i, j :: {done(it)[i][j]} !done(it)[i][j]
method Map() it
  requires lk(self) == 0
  ensures fresh(it) && src(it) == w(self) && iver(it) == ver(w(self)) && rem(it) == vals(w(self))
  ensures forall i, j :: {done(it)[i][j]} !done(it)[i][j]
