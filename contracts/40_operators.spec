// The operations on matrices. live(ctx): the context is not cancelled during the call.
// A mask is not the output of the same call.
fn live(Int): Bool
def given(m) = !isnil(m)
def bad(k, m) = !isnil(k) && (rows(k) != rows(m) || cols(k) != cols(m))
def prot(k, i, j) = !isnil(k) && mat(k)[i][j] != tzero
def shape(m, r, c) = rows(m) == r && cols(m) == c
def alike2(s, m) = cols(s) == cols(m) && rows(s) == rows(m)
// where an operand holds an element
def held(m, i, j) = old(mat(m))[i][j] != tzero || !sparse(m)

// ---- products ----
// the sum of A[i][l]*B[l][j] over l < k, in index order from zero
fn dot(Mat, Mat, Int, Int, Int): T
axiom forall A:Mat, B:Mat, i, j, k :: {dot(A, B, i, j, k)} k <= 0 ==> dot(A, B, i, j, k) == tzero
axiom forall A:Mat, B:Mat, i, j, k, l :: {dot(A, B, i, j, k), dot(A, B, i, j, l)} 0 <= k && l == k + 1 ==> dot(A, B, i, j, l) == tadd(dot(A, B, i, j, k), tmul(A[i][k], B[k][j]))

def ismul(m, k, A, B, n, i, j) = mat(m)[i][j] == ite(prot(k, i, j), old(mat(m))[i][j], dot(A, B, i, j, n))
def ispmul(m, k, A, B, n, i, j) = mat(m)[i][j] == old(mat(m))[i][j] || ismul(m, k, A, B, n, i, j)

func MatrixMatrixMultiply(ctx, s, m, mask, matrix)
  requires given(ctx) && given(s) && given(m) && given(matrix) && matrix != s && matrix != m && matrix != mask
  requires cols(s) == rows(m) ==> shape(matrix, rows(s), cols(m))
  panics when cols(s) != rows(m) || bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> ismul(matrix, mask, mat(s), mat(m), cols(s), i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> ispmul(matrix, mask, mat(s), mat(m), cols(s), i, j)
  loop ?v == dot(mat(s), mat(m), ?k, ?k2, ?i)
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (i < ?k || i == ?k && j < ?k2) ==> ismul(matrix, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && i < ?k ==> ismul(matrix, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (j < ?k || j == ?k && i < ?k2) ==> ismul(matrix, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && j < ?k ==> ismul(matrix, mask, mat(s), mat(m), cols(s), i, j))
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> ispmul(matrix, mask, mat(s), mat(m), cols(s), i, j)

func MatrixVectorMultiply(ctx, s, m, mask, vector)
  requires given(ctx) && given(s) && given(m) && given(vector) && vector != s && vector != m && vector != mask
  requires cols(s) == rows(m) ==> shape(vector, rows(s), cols(m))
  panics when cols(s) != rows(m) || bad(mask, vector)
  modifies content(vector)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ismul(vector, mask, mat(s), mat(m), cols(s), i, j))
  ensures[C16,C18] forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ispmul(vector, mask, mat(s), mat(m), cols(s), i, j)
  loop ?v == dot(mat(s), mat(m), ?k, ?k2, ?i)
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && (i < ?k || i == ?k && j < ?k2) ==> ismul(vector, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && i < ?k ==> ismul(vector, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && (j < ?k || j == ?k && i < ?k2) ==> ismul(vector, mask, mat(s), mat(m), cols(s), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && j < ?k ==> ismul(vector, mask, mat(s), mat(m), cols(s), i, j))
  loop forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ispmul(vector, mask, mat(s), mat(m), cols(s), i, j)

func VectorMatrixMultiply(ctx, s, m, mask, vector)
  requires given(ctx) && given(s) && given(m) && given(vector) && vector != s && vector != m && vector != mask
  requires cols(m) == rows(s) ==> shape(vector, rows(m), cols(s))
  panics when cols(m) != rows(s) || bad(mask, vector)
  modifies content(vector)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ismul(vector, mask, mat(m), mat(s), cols(m), i, j))
  ensures[C16,C18] forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ispmul(vector, mask, mat(m), mat(s), cols(m), i, j)
  loop ?v == dot(mat(m), mat(s), ?k, ?k2, ?i)
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && (i < ?k || i == ?k && j < ?k2) ==> ismul(vector, mask, mat(m), mat(s), cols(m), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && i < ?k ==> ismul(vector, mask, mat(m), mat(s), cols(m), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && (j < ?k || j == ?k && i < ?k2) ==> ismul(vector, mask, mat(m), mat(s), cols(m), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) && j < ?k ==> ismul(vector, mask, mat(m), mat(s), cols(m), i, j))
  loop forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> ispmul(vector, mask, mat(m), mat(s), cols(m), i, j)

// ---- transposition ----
// the value v arrives; where the source holds nothing (v is zero) the output may keep what it had
def put(m, k, v, i, j) = ite(prot(k, i, j), mat(m)[i][j] == old(mat(m))[i][j], mat(m)[i][j] == v || v == tzero && mat(m)[i][j] == old(mat(m))[i][j])
def maybe(m, k, v, i, j) = mat(m)[i][j] == old(mat(m))[i][j] || !prot(k, i, j) && mat(m)[i][j] == v

func Transpose(ctx, s, mask, matrix)
  requires given(ctx) && given(s) && given(matrix) && matrix != s && matrix != mask
  requires shape(matrix, cols(s), rows(s))
  panics when bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> put(matrix, mask, mat(s)[j][i], i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, mat(s)[j][i], i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, mat(s)[j][i], i, j)
  loop src(?t) == s ==> (forall i, j :: {done(?t)[j][i]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[j][i] && stop(s, j, i) ==> put(matrix, mask, mat(s)[j][i], i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (i < ?k || i == ?k && j < ?k2) ==> put(matrix, mask, mat(s)[j][i], i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && i < ?k ==> put(matrix, mask, mat(s)[j][i], i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (j < ?k || j == ?k && i < ?k2) ==> put(matrix, mask, mat(s)[j][i], i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && j < ?k ==> put(matrix, mask, mat(s)[j][i], i, j))

def transposed(res, s) = rows(res) == cols(s) && cols(res) == rows(s) && (forall i, j :: {mat(res)[i][j]} {mat(s)[j][i]} mat(res)[i][j] == mat(s)[j][i])
func TransposeToCSR(ctx, s) res
  requires given(ctx) && given(s)
  ensures fresh(res) && isa(res, CSRMatrix)
  ensures shape(res, cols(s), rows(s))
  ensures[!C18,!C28,!C29] live(ctx) ==> transposed(res, s)
  ensures[C18] forall i, j :: {mat(res)[i][j]} mat(res)[i][j] == tzero || mat(res)[i][j] == mat(s)[j][i]
func TransposeToCSC(ctx, s) res
  requires given(ctx) && given(s)
  ensures fresh(res) && isa(res, CSCMatrix)
  ensures shape(res, cols(s), rows(s))
  ensures[!C18,!C28,!C29] live(ctx) ==> transposed(res, s)
  ensures[C18] forall i, j :: {mat(res)[i][j]} mat(res)[i][j] == tzero || mat(res)[i][j] == mat(s)[j][i]

// ---- sums and differences ----
def term(s, m, i, j) = tadd(old(mat(s))[i][j], old(mat(m))[i][j])
def diff(s, m, i, j) = tsub(old(mat(s))[i][j], old(mat(m))[i][j])
// complete: where neither operand has an element the output may keep what it had
def put2(x, k, s, m, v, i, j) = ite(prot(k, i, j), mat(x)[i][j] == old(mat(x))[i][j], mat(x)[i][j] == v || old(mat(s))[i][j] == tzero && old(mat(m))[i][j] == tzero && mat(x)[i][j] == old(mat(x))[i][j])

func Add(ctx, s, m, mask, matrix)
  requires given(ctx) && given(s) && given(m) && given(matrix) && matrix != mask
  requires alike2(s, m) ==> shape(matrix, rows(s), cols(s))
  panics when !alike2(s, m) || bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, term(s, m, i, j), i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, term(s, m, i, j), i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j)
  loop live(ctx) && ?i >= 0 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 2 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) && ?k >= 0 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (i < ?k || i == ?k && j < ?k2) ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && i < ?k ==> put2(matrix, mask, s, m, term(s, m, i, j), i, j))


func Subtract(ctx, s, m, mask, matrix)
  requires given(ctx) && given(s) && given(m) && given(matrix) && matrix != mask
  requires alike2(s, m) ==> shape(matrix, rows(s), cols(s))
  panics when !alike2(s, m) || bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, diff(s, m, i, j), i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, diff(s, m, i, j), i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j)
  loop live(ctx) && ?i >= 0 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) && ?i >= 2 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) && ?k >= 0 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(s, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && held(m, i, j) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && (i < ?k || i == ?k && j < ?k2) ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) && i < ?k ==> put2(matrix, mask, s, m, diff(s, m, i, j), i, j))

// ---- element-wise combination ----
// one of the operands' non-zero values
def oneof(x, s, m, i, j) = old(mat(s))[i][j] != tzero && mat(x)[i][j] == old(mat(s))[i][j] || old(mat(m))[i][j] != tzero && mat(x)[i][j] == old(mat(m))[i][j]
def union(x, k, s, m, y, i, j) = !prot(k, i, j) && old(mat(y))[i][j] != tzero ==> oneof(x, s, m, i, j)
def maybeu(x, k, s, m, i, j) = mat(x)[i][j] == old(mat(x))[i][j] || !prot(k, i, j) && oneof(x, s, m, i, j)

func ElementWiseMatrixAdd(ctx, s, m, mask, matrix)
  requires given(ctx) && given(s) && given(m) && given(matrix) && matrix != mask
  requires alike2(s, m) ==> shape(matrix, rows(s), cols(s))
  panics when !alike2(s, m) || bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, s, i, j) && union(matrix, mask, s, m, m, i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybeu(matrix, mask, s, m, i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybeu(matrix, mask, s, m, i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> union(matrix, mask, s, m, src(?t), i, j)
  loop live(ctx) && ?k >= 0 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, s, i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, s, i, j))
  loop live(ctx) && ?k >= 2 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, m, i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, m, i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, s, i, j))
  loop live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> union(matrix, mask, s, m, m, i, j))

func ElementWiseVectorAdd(ctx, s, m, mask, vector)
  requires given(ctx) && given(s) && given(m) && given(vector) && vector != mask
  requires cols(s) == 1 && cols(m) == 1
  requires rows(s) == rows(m) ==> shape(vector, rows(s), 1)
  panics when rows(s) != rows(m) || bad(mask, vector)
  modifies content(vector)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, s, i, j) && union(vector, mask, s, m, m, i, j))
  ensures[C16,C18,C19] forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> maybeu(vector, mask, s, m, i, j)
  loop forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> maybeu(vector, mask, s, m, i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(vector)[i][j]} inr(vector, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> union(vector, mask, s, m, src(?t), i, j)
  loop live(ctx) && ?k >= 0 ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, s, i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, s, i, j))
  loop live(ctx) && ?k >= 2 ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, m, i, j))
  loop live(ctx) && ?k >= 1 ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, m, i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, s, i, j))
  loop live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> union(vector, mask, s, m, m, i, j))

def eqat(s, m, i, j) = teq(old(mat(s))[i][j], old(mat(m))[i][j])
def keeps(x, s, m, i, j) = ite(eqat(s, m, i, j), mat(x)[i][j] == old(mat(s))[i][j] || old(mat(s))[i][j] == tzero && mat(x)[i][j] == old(mat(x))[i][j], mat(x)[i][j] == tzero || x != s && x != m && mat(x)[i][j] == old(mat(x))[i][j])
def meet(x, k, s, m, i, j) = ite(prot(k, i, j), mat(x)[i][j] == old(mat(x))[i][j], keeps(x, s, m, i, j))
def maybem(x, k, s, m, i, j) = mat(x)[i][j] == old(mat(x))[i][j] || !prot(k, i, j) && keeps(x, s, m, i, j)

func ElementWiseMatrixMultiply(ctx, s, m, mask, matrix)
  requires given(ctx) && given(s) && given(m) && given(matrix) && matrix != mask
  requires alike2(s, m) ==> shape(matrix, rows(s), cols(s))
  panics when !alike2(s, m) || bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> meet(matrix, mask, s, m, i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybem(matrix, mask, s, m, i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybem(matrix, mask, s, m, i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && (src(?t) == matrix || stop(src(?t), i, j)) ==> meet(matrix, mask, s, m, i, j)
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && !done(?t)[i][j] ==> mat(matrix)[i][j] == old(mat(matrix))[i][j])
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && stop(matrix, i, j) && !done(?t)[i][j] ==> mat(matrix)[i][j] == old(mat(matrix))[i][j])
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && mat(matrix)[i][j] == tzero && old(mat(matrix))[i][j] != tzero && sparse(matrix) ==> !prot(mask, i, j) && !eqat(s, m, i, j))

func ElementWiseVectorMultiply(ctx, s, m, mask, vector)
  requires given(ctx) && given(s) && given(m) && given(vector) && vector != mask
  requires cols(s) == 1 && cols(m) == 1
  requires rows(s) == rows(m) ==> shape(vector, rows(s), 1)
  panics when rows(s) != rows(m) || bad(mask, vector)
  modifies content(vector)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> meet(vector, mask, s, m, i, j))
  ensures[C16,C18] forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> maybem(vector, mask, s, m, i, j)
  loop forall i, j :: {mat(vector)[i][j]} inr(vector, i, j) ==> maybem(vector, mask, s, m, i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(vector)[i][j]} inr(vector, i, j) && done(?t)[i][j] && (src(?t) == vector || stop(src(?t), i, j)) ==> meet(vector, mask, s, m, i, j)
  loop src(?t) == vector ==> (forall i, j :: {mat(vector)[i][j]} {done(?t)[i][j]} inr(vector, i, j) && !done(?t)[i][j] ==> mat(vector)[i][j] == old(mat(vector))[i][j])
  loop src(?t) == vector ==> (forall i, j :: {mat(vector)[i][j]} {done(?t)[i][j]} inr(vector, i, j) && stop(vector, i, j) && !done(?t)[i][j] ==> mat(vector)[i][j] == old(mat(vector))[i][j])
  loop src(?t) == vector ==> (forall i, j :: {mat(vector)[i][j]} {done(?t)[i][j]} inr(vector, i, j) && mat(vector)[i][j] == tzero && old(mat(vector))[i][j] != tzero && sparse(vector) ==> !prot(mask, i, j) && !eqat(s, m, i, j))

// ---- operators applied to every element ----
ghost ufn Int
fn fap_T_T(Int, T): T
def uapp(u, v) = fap_T_T(ufn(u), v)
family Unary = UnaryOp
iface Unary
method Apply(v) y
  ensures y == uapp(self, v)

class unaryOp implements Unary
view ufn := self.apply

// where the input holds an element, its image; elsewhere nothing changes
def image(x, k, in, v, i, j) = mat(x)[i][j] == ite(!prot(k, i, j) && held(in, i, j), v, old(mat(x))[i][j])

func Apply(ctx, in, mask, u, matrix)
  requires given(ctx) && given(in) && given(matrix) && given(u) && matrix != mask
  requires shape(matrix, rows(in), cols(in))
  panics when bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> image(matrix, mask, in, uapp(u, old(mat(in))[i][j]), i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, uapp(u, old(mat(in))[i][j]), i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, uapp(u, old(mat(in))[i][j]), i, j)
  loop forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && !held(in, i, j) ==> mat(matrix)[i][j] == old(mat(matrix))[i][j]
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] ==> image(matrix, mask, in, uapp(u, old(mat(in))[i][j]), i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> image(matrix, mask, in, uapp(u, old(mat(in))[i][j]), i, j)
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && stop(matrix, i, j) && !done(?t)[i][j] ==> mat(matrix)[i][j] == old(mat(matrix))[i][j])
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && mat(matrix)[i][j] == tzero && sparse(matrix) ==> image(matrix, mask, in, uapp(u, old(mat(in))[i][j]), i, j))

def putn(m, k, s, i, j) = ite(prot(k, i, j), mat(m)[i][j] == old(mat(m))[i][j], mat(m)[i][j] == tneg(old(mat(s))[i][j]) || old(mat(s))[i][j] == tzero && mat(m)[i][j] == old(mat(m))[i][j])
func Negative(ctx, s, mask, matrix)
  requires given(ctx) && given(s) && given(matrix) && matrix != mask
  requires shape(matrix, rows(s), cols(s))
  panics when bad(mask, matrix)
  modifies content(matrix)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> putn(matrix, mask, s, i, j))
  ensures[C16,C18] forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, tneg(old(mat(s))[i][j]), i, j)
  loop forall i, j :: {mat(matrix)[i][j]} inr(matrix, i, j) ==> maybe(matrix, mask, tneg(old(mat(s))[i][j]), i, j)
  loop forall i, j :: {done(?t)[i][j]} {mat(matrix)[i][j]} inr(matrix, i, j) && done(?t)[i][j] && (src(?t) == matrix || stop(src(?t), i, j)) ==> putn(matrix, mask, s, i, j)
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && stop(matrix, i, j) && !done(?t)[i][j] ==> mat(matrix)[i][j] == old(mat(matrix))[i][j])
  loop src(?t) == matrix ==> (forall i, j :: {mat(matrix)[i][j]} {done(?t)[i][j]} inr(matrix, i, j) && mat(matrix)[i][j] == tzero && sparse(matrix) ==> putn(matrix, mask, s, i, j))

func Scalar(ctx, s, alpha) res
  requires given(ctx) && given(s)
  ensures fresh(res) && shape(res, rows(s), cols(s)) && sparse(res) == sparse(s) && dyn(res) == dyn(s)
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tmul(alpha, mat(s)[i][j]) || mat(s)[i][j] == tzero && mat(res)[i][j] == tzero)
  ensures[C18] forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == tmul(alpha, mat(s)[i][j]) || mat(res)[i][j] == mat(s)[i][j]
  loop forall i, j :: {mat(src(?t))[i][j]} mat(src(?t))[i][j] == tmul(alpha, mat(s)[i][j]) || mat(src(?t))[i][j] == mat(s)[i][j]
  loop forall i, j :: {done(?t)[i][j]} {mat(src(?t))[i][j]} done(?t)[i][j] ==> mat(src(?t))[i][j] == tmul(alpha, mat(s)[i][j]) || mat(s)[i][j] == tzero && mat(src(?t))[i][j] == tzero
  loop forall i, j :: {done(?t)[i][j]} {mat(src(?t))[i][j]} mat(src(?t))[i][j] == tzero ==> tzero == tmul(alpha, mat(s)[i][j]) || mat(s)[i][j] == tzero
  loop forall i, j :: {mat(src(?t))[i][j]} {done(?t)[i][j]} stop(src(?t), i, j) && !done(?t)[i][j] ==> mat(src(?t))[i][j] == mat(s)[i][j]

// ---- the registry of sparse classes ----
ghost keys SSet        // a map from names: its keys
fn shas(SSet, Str): Bool
fn snone(): SSet
axiom forall a:Str :: {shas(snone, a)} !shas(snone, a)
fn sadd(SSet, Str): SSet
axiom forall s:SSet, a:Str, b:Str :: {shas(sadd(s, a), b)} shas(sadd(s, a), b) <==> b == a || shas(s, b)
fn sdel(SSet, Str): SSet
axiom forall s:SSet, a:Str, b:Str :: {shas(sdel(s, a), b)} shas(sdel(s, a), b) <==> b != a && shas(s, b)
fn rtypeof(Int, Int): Int    // the type of a pointer to a struct class with type arguments
fn targs(): Int              // the type arguments at hand
fn relem(Int): Int
fn rname(Int): Str
fn cut(Str, Str): Str        // the text before a separator, or all of it
def known(n) = shas(keys(registry()), n)
def typename(s) = cut(rname(relem(rtypeof(dyn(s), targs))), bracket())
trusted a matrix class of a user is sparse if and only if it has been registered; no class is registered under the name of a dense one of this package; two classes do not share a name

func IsSparseMatrix(s) b
  requires given(s)
  ensures[!C31] b <==> sparse(s)
  ensures[C31] b <==> known(typename(s))
  ensures[C31] isa(s, CSRMatrix) || isa(s, CSCMatrix) || isa(s, SparseVector) ==> b
  ensures[C31] isa(s, DenseMatrix) || isa(s, DenseMatrixNumber) || isa(s, DenseVector) || isa(s, DenseVectorNumber) ==> !b

func RegisterMatrix(matrix)
  flags registers
  requires given(matrix)
  panics when known(rname(matrix))
  modifies keys(registry())
  ensures forall n:Str :: {known(n)} known(n) <==> old(known(n)) || n == rname(matrix) || n == cut(rname(matrix), bracket())

func var graphblas.registry()
  ensures shas(keys(it), text(CSRMatrix)) && shas(keys(it), text(CSCMatrix)) && shas(keys(it), text(SparseVector))
  ensures !shas(keys(it), text(DenseMatrix)) && !shas(keys(it), text(DenseVector)) && !shas(keys(it), text(DenseMatrixNumber)) && !shas(keys(it), text(DenseVectorNumber)) && !shas(keys(it), text(MutexMatrix))

// ---- equality ----
def eqm(s, m) = alike2(s, m) && (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) ==> teq(mat(s)[i][j], mat(m)[i][j]))

func Equal(ctx, s, m) b
  requires given(ctx)
  ensures[!C18,!C28,!C29] b ==> (isnil(s) <==> isnil(m)) && (given(s) ==> alike2(s, m) && (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) ==> teq(mat(s)[i][j], mat(m)[i][j])))
  ensures[!C18,!C28,!C29] live(ctx) && isnil(s) && isnil(m) ==> b
  ensures[!C18,!C28,!C29] live(ctx) && given(s) && given(m) && eqm(s, m) ==> b
  loop forall i, j :: {done(?t)[i][j]} {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> teq(mat(s)[i][j], mat(m)[i][j])
  loop forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && (i < ?k || i == ?k && j < ?k2) ==> teq(mat(s)[i][j], mat(m)[i][j])
  loop forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && i < ?k ==> teq(mat(s)[i][j], mat(m)[i][j])

func NotEqual(ctx, s, m) b
  requires given(ctx)
  ensures[!C18,!C28,!C29] !b ==> (isnil(s) <==> isnil(m)) && (given(s) ==> alike2(s, m) && (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) ==> teq(mat(s)[i][j], mat(m)[i][j])))
  ensures[!C18,!C28,!C29] live(ctx) && isnil(s) && isnil(m) ==> !b
  ensures[!C18,!C28,!C29] live(ctx) && given(s) && given(m) && eqm(s, m) ==> !b
  loop forall i, j :: {done(?t)[i][j]} {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && done(?t)[i][j] && stop(src(?t), i, j) ==> teq(mat(s)[i][j], mat(m)[i][j])
