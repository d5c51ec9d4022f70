// Breadth-first search.

// what a function argument has been called with
aux asked Int          // number of calls
aux told Bool          // the last answer
aux shown Int          // the last argument

// vertex i of the graph A can be reached from s along at most d edges
fn wu(Mat, Int, Int, Int, Int): Int
fn within(Mat, Int, Int, Int, Int): Bool
axiom forall A:Mat, n, s, d, i :: {within(A, n, s, d, i)} (d < 0 ==> !within(A, n, s, d, i)) && (d == 0 ==> (within(A, n, s, d, i) <==> i == s))
axiom forall A:Mat, n, s, d, e, i, j :: {within(A, n, s, e, i), within(A, n, s, d, j)} 0 <= d && e == d + 1 && within(A, n, s, e, i) ==> within(A, n, s, d, i) || 0 <= wu(A, n, s, e, i) && wu(A, n, s, e, i) < n && A[i][wu(A, n, s, e, i)] != tzero && within(A, n, s, d, wu(A, n, s, e, i))
axiom forall A:Mat, n, s, d, e, i :: {within(A, n, s, e, i), within(A, n, s, d, i)} 0 <= d && e == d + 1 && within(A, n, s, d, i) ==> within(A, n, s, e, i)
axiom forall A:Mat, n, s, d, e, i, u :: {within(A, n, s, e, i), within(A, n, s, d, u)} 0 <= d && e == d + 1 && 0 <= u && u < n && A[i][u] != tzero && within(A, n, s, d, u) ==> within(A, n, s, e, i)
def level(A, n, s, d, i) = within(A, n, s, d, i) && !within(A, n, s, d - 1, i)

// no element of A is negative (nor a NaN)
fn nnmi(Mat, Int, Int): Int
fn nnmj(Mat, Int, Int): Int
fn nnm(Mat, Int, Int): Bool
axiom forall A:Mat, R, C, i, j :: {nnm(A, R, C), A[i][j]} nnm(A, R, C) && 0 <= i && i < R && 0 <= j && j < C ==> nn(A[i][j])
axiom forall A:Mat, R, C :: {nnm(A, R, C)} !nnm(A, R, C) ==> 0 <= nnmi(A, R, C) && nnmi(A, R, C) < R && 0 <= nnmj(A, R, C) && nnmj(A, R, C) < C && !nn(A[nnmi(A, R, C)][nnmj(A, R, C)])

// some term of the sum of A[i][l]*B[l][0], l < k, is not zero
fn hitl(Mat, Mat, Int, Int): Int
fn hit(Mat, Mat, Int, Int): Bool
axiom forall A:Mat, B:Mat, i, k, l :: {hit(A, B, i, k), A[i][l]} 0 <= l && l < k && A[i][l] != tzero && B[l][0] != tzero ==> hit(A, B, i, k)
axiom forall A:Mat, B:Mat, i, k :: {hit(A, B, i, k)} hit(A, B, i, k) ==> 0 <= hitl(A, B, i, k) && hitl(A, B, i, k) < k && A[i][hitl(A, B, i, k)] != tzero && B[hitl(A, B, i, k)][0] != tzero
prooflemma[semiring] posdot on dot by k :: forall A:Mat, B:Mat, i, k, R, C :: {dot(A, B, i, 0, k), nnm(A, R, C), nnm(B, C, 1)} nnm(A, R, C) && nnm(B, C, 1) && 0 <= i && i < R && k <= C ==> nn(dot(A, B, i, 0, k)) && (dot(A, B, i, 0, k) != tzero <==> hit(A, B, i, k))

// B holds level d of the search
fn islevi(Mat, Mat, Int, Int, Int): Int
fn islev(Mat, Mat, Int, Int, Int): Bool
axiom forall B:Mat, A:Mat, n, s, d, i :: {islev(B, A, n, s, d), B[i][0]} islev(B, A, n, s, d) && 0 <= i && i < n ==> (B[i][0] != tzero <==> level(A, n, s, d, i))
axiom forall B:Mat, A:Mat, n, s, d :: {islev(B, A, n, s, d)} !islev(B, A, n, s, d) ==> 0 <= islevi(B, A, n, s, d) && islevi(B, A, n, s, d) < n && !(B[islevi(B, A, n, s, d)][0] != tzero <==> level(A, n, s, d, islevi(B, A, n, s, d)))
// B holds the vertices of the levels up to d
fn isdisi(Mat, Mat, Int, Int, Int): Int
fn isdis(Mat, Mat, Int, Int, Int): Bool
axiom forall B:Mat, A:Mat, n, s, d, i :: {isdis(B, A, n, s, d), B[i][0]} isdis(B, A, n, s, d) && 0 <= i && i < n ==> (B[i][0] != tzero <==> within(A, n, s, d, i))
axiom forall B:Mat, A:Mat, n, s, d :: {isdis(B, A, n, s, d)} !isdis(B, A, n, s, d) ==> 0 <= isdisi(B, A, n, s, d) && isdisi(B, A, n, s, d) < n && !(B[isdisi(B, A, n, s, d)][0] != tzero <==> within(A, n, s, d, isdisi(B, A, n, s, d)))

func breadthfirst.Search(ctx, a, s, c) res
  requires given(ctx) && given(a)
  requires asked(c) == 0 && !told(c)
  requires[C19] nnm(mat(a), rows(a), rows(a))
  panics when !(0 <= s && s < rows(a)) || cols(a) != rows(a)
  visits c(v) where !told(c) && given(v) && shape(v, rows(a), 1)
  visits[C19] c(v) where live(ctx) ==> islev(mat(v), mat(a), rows(a), s, asked(c) + 1)
  ensures fresh(res) && shape(res, rows(a), 1)
  ensures[C19] live(ctx) && told(c) ==> asked(c) <= rows(a) && shown(c) == res && islev(mat(res), mat(a), rows(a), s, asked(c))
  ensures[C19] live(ctx) && !told(c) ==> asked(c) == rows(a) && (forall i :: {mat(res)[i][0]} 0 <= i && i < rows(a) ==> mat(res)[i][0] == tzero)
  loop 0 <= asked(c)
  loop asked(c) == ?k
  loop asked(c) == ?k - 1
  loop asked(c) == rows(a) - ?k
  loop !told(c)
  loop live(ctx) ==> islev(mat(?o), mat(a), rows(a), s, asked(c))
  loop live(ctx) ==> islev(mat(?o), mat(a), rows(a), s, asked(c) - 1)
  loop live(ctx) ==> isdis(mat(?o), mat(a), rows(a), s, asked(c))
  loop live(ctx) ==> isdis(mat(?o), mat(a), rows(a), s, asked(c) - 1)
  loop live(ctx) ==> nnm(mat(?o), rows(a), 1)
  loop forall i :: {mat(?o)[i][0]} 0 <= i && i < rows(a) ==> mat(?o)[i][0] == tzero
  loop forall i :: {mat(?o)[i][0]} {mat(?o2)[i][0]} 0 <= i && i < ?k ==> mat(?o)[i][0] == mat(?o2)[i][0]
  loop shape(?o, rows(a), 1)
  loop given(?o)
  loop ?o != ?o2
  loop asked(c) > 0 ==> cols(a) == rows(a)
  loop 0 <= ?k
