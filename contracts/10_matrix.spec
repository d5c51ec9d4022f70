// The contract every matrix type has to meet.
family Matrix = Matrix, MatrixLogical, MatrixCompressed, matrix, VectorLogial, Vector, VectorRune, MatrixRune, vector
iface Matrix
wf rows(self) >= 0 && cols(self) >= 0
wf forall r, c :: {mat(self)[r][c]} !inr(self, r, c) ==> mat(self)[r][c] == tzero

wf !sparse(self) ==> vals(self) == imul(rows(self), cols(self))
wf[C02,C09,C22,C23,C24] sparse(self) ==> vals(self) == nnz(mat(self), rows(self), cols(self))

method Columns() n
  flags constant
  ensures n == cols(self)
method Rows() n
  flags constant
  ensures n == rows(self)
method Size() n
  flags constant
  ensures n == imul(rows(self), cols(self))
method Values() n
  ensures n == vals(self)
method At(r, c) v
  panics when !inr(self, r, c)
  ensures v == mat(self)[r][c]
method Element(r, c) b
  panics when !inr(self, r, c)
  ensures b <==> mat(self)[r][c] != tzero
method Set(r, c, value)
  panics when !inr(self, r, c)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, value)
method Update(r, c, f)
  panics when !inr(self, r, c)
  calls f(mat(self)[r][c]) -> y
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, y)
method Clear()
  modifies content(self)
  ensures forall i, j :: {mat(self)[i][j]} mat(self)[i][j] == tzero
method Copy() res
  ensures fresh(res) && same(res, self) && vals(res) == vals(self)
method CopyLogical() res
  ensures fresh(res) && alike(res, self) && vals(res) == vals(self)
method RowsAt(r) res
  panics when !(0 <= r && r < rows(self))
  ensures fresh(res) && rows(res) == cols(self) && cols(res) == 1
  ensures forall i :: {mat(res)[i][0]} mat(res)[i][0] == mat(self)[r][i]
  ensures[C23] colof(mat(res), mat(self)[r], cols(self))
method ColumnsAt(c) res
  panics when !(0 <= c && c < cols(self))
  ensures fresh(res) && rows(res) == rows(self) && cols(res) == 1
  ensures forall i :: {mat(res)[i][0]} mat(res)[i][0] == mat(self)[i][c]
  ensures[C23] colof(mat(res), tr(mat(self))[c], rows(self))
  ensures[C17] sparse(res) <==> sparse(self)
method RowsAtToArray(r) res
  panics when !(0 <= r && r < rows(self))
  ensures fresh(res) && len(res) == cols(self)
  ensures forall i :: {res[i]} 0 <= i && i < cols(self) ==> res[i] == mat(self)[r][i]
method AtVec(i) v
  panics when !(0 <= i && i < rows(self))
  ensures v == mat(self)[i][0]
method SetVec(i, value)
  panics when !(0 <= i && i < rows(self))
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), i, 0, value)
method Length() n
  ensures n == rows(self)
method Enumerate() it
  ensures fresh(it) && src(it) == self && iver(it) == ver(self) && rem(it) == vals(self)
  ensures forall i, j :: {done(it)[i][j]} !done(it)[i][j]
method Map() it
  ensures fresh(it) && src(it) == self && iver(it) == ver(self) && rem(it) == vals(self)
  ensures forall i, j :: {done(it)[i][j]} !done(it)[i][j]

method Scalar(alpha) res
  ensures fresh(res) && shape(res, rows(self), cols(self))
  ensures[!C18,!C28,!C29] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tmul(alpha, mat(self)[i][j]) || mat(self)[i][j] == tzero && mat(res)[i][j] == tzero
method Multiply(m) res
  requires given(m)
  panics when cols(self) != rows(m)
  ensures fresh(res) && shape(res, rows(self), cols(m))
  ensures[!C18,!C28,!C29] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == dot(mat(self), mat(m), i, j, cols(self))
method Add(m) res
  requires given(m)
  panics when !alike2(self, m)
  ensures fresh(res) && alike2(res, self)
  ensures[!C18,!C28,!C29] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tadd(mat(self)[i][j], mat(m)[i][j])
  ensures[C20] issum(mat(res), mat(self), mat(m), rows(res), cols(res))
method Subtract(m) res
  requires given(m)
  panics when !alike2(self, m)
  ensures fresh(res) && alike2(res, self)
  ensures[!C18,!C28,!C29] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tsub(mat(self)[i][j], mat(m)[i][j])
  ensures[C20] isdiff(mat(res), mat(self), mat(m), rows(res), cols(res))
method Negative() res
  ensures fresh(res) && alike2(res, self)
  ensures[!C18,!C28,!C29] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tneg(mat(self)[i][j])
method Transpose() res
  ensures fresh(res) && shape(res, cols(self), rows(self))
  ensures[!C18,!C28,!C29] transposed(res, self)
method Equal(m) b
  ensures[!C18,!C28,!C29] b ==> given(m) && alike2(self, m) && (forall i, j :: {mat(self)[i][j]} {mat(m)[i][j]} inr(self, i, j) ==> teq(mat(self)[i][j], mat(m)[i][j]))
  ensures[!C18,!C28,!C29] given(m) && eqm(self, m) ==> b
method NotEqual(m) b
  ensures[!C18,!C28,!C29] !b ==> given(m) && alike2(self, m) && (forall i, j :: {mat(self)[i][j]} {mat(m)[i][j]} inr(self, i, j) ==> teq(mat(self)[i][j], mat(m)[i][j]))
  ensures[!C18,!C28,!C29] given(m) && eqm(self, m) ==> !b

// the same elements, in a matrix of the same type
def alike(a, b) = rows(a) == rows(b) && cols(a) == cols(b) && mat(a) == mat(b) && sparse(a) == sparse(b)
def same(a, b) = alike(a, b) && dyn(a) == dyn(b)

// a matrix or a mask
family Mask = Mask, MaskLogical
iface Mask
wf rows(self) >= 0 && cols(self) >= 0
method Columns() n
  ensures n == cols(self)
method Rows() n
  ensures n == rows(self)
method Element(r, c) b
  requires inr(self, r, c)
  ensures b <==> mat(self)[r][c] != tzero

class EmptyMask implements Mask
layout r c
private
inv self.r >= 0 && self.c >= 0
view rows := self.r
view cols := self.c
view mat := emptymat()

// ---- iterators ----
group cursor = done, rem, iver, ver
def fits(it) = iver(it) == ver(src(it))
// every position an iterator stops at: the non-zero elements of a sparse matrix, all elements of another
def stop(m, i, j) = inr(m, i, j) && (mat(m)[i][j] != tzero || !sparse(m))

// the order in which an object in a given state is enumerated: the k-th position, and when a
// position comes; fixed by the object's state, otherwise unspecified
fn eor(Int, Int, Int): Int
fn eoc(Int, Int, Int): Int
fn eix(Int, Int, Int, Int): Int

family Enumerate = Enumerate
iface Enumerate
wf fits(self) ==> rem(self) >= 0
wf fits(self) && rem(self) == 0 ==> (forall i, j :: {done(self)[i][j]} {mat(src(self))[i][j]} stop(src(self), i, j) ==> done(self)[i][j])
method HasNext() b
  requires fits(self)
  ensures b <==> rem(self) > 0
method Next() r, c, v
  requires fits(self) && rem(self) > 0
  modifies cursor(self)
  ensures fits(self) && rem(self) == old(rem(self)) - 1
  known r == eor(src(self), iver(self), vals(src(self)) - old(rem(self))) && c == eoc(src(self), iver(self), vals(src(self)) - old(rem(self))) && eix(src(self), iver(self), r, c) == vals(src(self)) - old(rem(self))
  ensures inr(src(self), r, c) && v == mat(src(self))[r][c]
  ensures sparse(src(self)) ==> v != tzero
  ensures !old(done(self))[r][c] && done(self)[r][c]
  ensures forall i, j :: {done(self)[i][j]} {old(done(self))[i][j]} old(done(self))[i][j] ==> done(self)[i][j]
  ensures forall i, j :: {done(self)[i][j]} done(self)[i][j] && !(i == r && j == c) ==> old(done(self))[i][j] || !stop(src(self), i, j)

family Map = Map
iface Map
wf fits(self) ==> rem(self) >= 0
wf fits(self) && rem(self) == 0 ==> (forall i, j :: {done(self)[i][j]} {mat(src(self))[i][j]} stop(src(self), i, j) ==> done(self)[i][j])
method HasNext() b
  requires fits(self)
  ensures b <==> rem(self) > 0
method Map(f)
  requires fits(self) && rem(self) > 0
  calls f(r, c, mat(src(self))[r][c]) -> y with r, c where inr(src(self), r, c) && stop(src(self), r, c) && !done(self)[r][c]
  modifies cursor(self), content(src(self))
  ensures fits(self) && rem(self) == old(rem(self)) - 1
  ensures mat(src(self)) == upd(old(mat(src(self))), r, c, y)
  ensures done(self)[r][c]
  ensures forall i, j :: {done(self)[i][j]} {old(done(self))[i][j]} old(done(self))[i][j] ==> done(self)[i][j]
  ensures forall i, j :: {done(self)[i][j]} done(self)[i][j] && !(i == r && j == c) ==> old(done(self))[i][j] || !stop(src(self), i, j)
