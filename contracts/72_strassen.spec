// Strassen's product. The elements are integers in its proof: they are only added, subtracted,
// multiplied and moved, and what holds of all integers holds in every ring they map to (wrap-around).
prooflemma[ring] dotnone on dot :: forall A:Mat, B:Mat, i, j, k :: {dot(A, B, i, j, k)} k <= 0 ==> dot(A, B, i, j, k) == tzero
prooflemma[ring] dotsuml on issum by k :: forall S:Mat, X:Mat, Y:Mat, B:Mat, R, C, i, j, k :: {dot(S, B, i, j, k), issum(S, X, Y, R, C)} issum(S, X, Y, R, C) && 0 <= i && i < R && k <= C ==> dot(S, B, i, j, k) == tadd(dot(X, B, i, j, k), dot(Y, B, i, j, k))
prooflemma[ring] dotsumr on issum by k :: forall S:Mat, X:Mat, Y:Mat, A:Mat, R, C, i, j, k :: {dot(A, S, i, j, k), issum(S, X, Y, R, C)} issum(S, X, Y, R, C) && 0 <= j && j < C && k <= R ==> dot(A, S, i, j, k) == tadd(dot(A, X, i, j, k), dot(A, Y, i, j, k))
prooflemma[ring] dotdiffl on isdiff by k :: forall S:Mat, X:Mat, Y:Mat, B:Mat, R, C, i, j, k :: {dot(S, B, i, j, k), isdiff(S, X, Y, R, C)} isdiff(S, X, Y, R, C) && 0 <= i && i < R && k <= C ==> dot(S, B, i, j, k) == tsub(dot(X, B, i, j, k), dot(Y, B, i, j, k))
prooflemma[ring] dotdiffr on isdiff by k :: forall S:Mat, X:Mat, Y:Mat, A:Mat, R, C, i, j, k :: {dot(A, S, i, j, k), isdiff(S, X, Y, R, C)} isdiff(S, X, Y, R, C) && 0 <= j && j < C && k <= R ==> dot(A, S, i, j, k) == tsub(dot(A, X, i, j, k), dot(A, Y, i, j, k))

def upto(i, j, n, m) = i < n || i == n && j < m

// the first n rows of X, and m elements of the next, are those of A from (r, c) on; C columns
fn isblki(Mat, Mat, Int, Int, Int, Int, Int): Int
fn isblkj(Mat, Mat, Int, Int, Int, Int, Int): Int
fn isblk(Mat, Mat, Int, Int, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, r, c, n, m, C, i, j :: {isblk(X, A, r, c, n, m, C), X[i][j]} isblk(X, A, r, c, n, m, C) && 0 <= i && upto(i, j, n, m) && 0 <= j && j < C ==> X[i][j] == A[i + r][j + c]
axiom forall X:Mat, A:Mat, r, c, n, m, C :: {isblk(X, A, r, c, n, m, C)} !isblk(X, A, r, c, n, m, C) ==> 0 <= isblki(X, A, r, c, n, m, C) && upto(isblki(X, A, r, c, n, m, C), isblkj(X, A, r, c, n, m, C), n, m) && 0 <= isblkj(X, A, r, c, n, m, C) && isblkj(X, A, r, c, n, m, C) < C && X[isblki(X, A, r, c, n, m, C)][isblkj(X, A, r, c, n, m, C)] != A[isblki(X, A, r, c, n, m, C) + r][isblkj(X, A, r, c, n, m, C) + c]
prooflemma[ring] dotblk on isblk by k :: forall X:Mat, A:Mat, Y:Mat, B:Mat, r, c, R, C, e, d, S, D, i, j, k :: {dot(X, Y, i, j, k), isblk(X, A, r, c, R, 0, C), isblk(Y, B, e, d, S, 0, D)} isblk(X, A, r, c, R, 0, C) && isblk(Y, B, e, d, S, 0, D) && c == e && 0 <= c && 0 <= i && i < R && 0 <= j && j < D && 0 <= k && k <= C && k <= S ==> dot(A, B, i + r, j + d, c + k) == tadd(dot(A, B, i + r, j + d, c), dot(X, Y, i, j, k))

// the same, read from the other side: A has X at (r, c)
fn hasblki(Mat, Mat, Int, Int, Int, Int, Int): Int
fn hasblkj(Mat, Mat, Int, Int, Int, Int, Int): Int
fn hasblk(Mat, Mat, Int, Int, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, r, c, n, m, C, i, j :: {hasblk(X, A, r, c, n, m, C), A[i][j]} hasblk(X, A, r, c, n, m, C) && r <= i && upto(i - r, j - c, n, m) && c <= j && j < c + C ==> A[i][j] == X[i - r][j - c]
axiom forall X:Mat, A:Mat, r, c, n, m, C :: {hasblk(X, A, r, c, n, m, C)} !hasblk(X, A, r, c, n, m, C) ==> 0 <= hasblki(X, A, r, c, n, m, C) && upto(hasblki(X, A, r, c, n, m, C), hasblkj(X, A, r, c, n, m, C), n, m) && 0 <= hasblkj(X, A, r, c, n, m, C) && hasblkj(X, A, r, c, n, m, C) < C && X[hasblki(X, A, r, c, n, m, C)][hasblkj(X, A, r, c, n, m, C)] != A[hasblki(X, A, r, c, n, m, C) + r][hasblkj(X, A, r, c, n, m, C) + c]

func strassen.MultiplyCrossoverPoint(ctx, a, b, crossover) res
  flags ring opaque:dot
  requires given(ctx) && given(a) && given(b)
  panics when cols(a) != rows(b)
  variant rows(b)
  ensures fresh(res) && shape(res, rows(a), cols(b))
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == dot(mat(a), mat(b), i, j, cols(a)))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?m) == rows(?w) + rows(?w) && isblk(mat(?w), mat(?m), 0, 0, ?n, ?n2, cols(?w))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?m) == rows(?w) + rows(?w) && isblk(mat(?w), mat(?m), 0, cols(?w), ?n, ?n2, cols(?w))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?m) == rows(?w) + rows(?w) && isblk(mat(?w), mat(?m), rows(?w), 0, ?n, ?n2, cols(?w))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?m) == rows(?w) + rows(?w) && isblk(mat(?w), mat(?m), rows(?w), cols(?w), ?n, ?n2, cols(?w))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?w) == rows(?m) + rows(?m) && hasblk(mat(?m), mat(?w), 0, 0, ?n, ?n2, cols(?m))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?w) == rows(?m) + rows(?m) && hasblk(mat(?m), mat(?w), 0, cols(?m), ?n, ?n2, cols(?m))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?w) == rows(?m) + rows(?m) && hasblk(mat(?m), mat(?w), rows(?m), 0, ?n, ?n2, cols(?m))
  loop[!C18,!C28,!C29] live(ctx) ==> rows(?w) == rows(?m) + rows(?m) && hasblk(mat(?m), mat(?w), rows(?m), cols(?m), ?n, ?n2, cols(?m))

func strassen.Multiply(ctx, a, b) res
  requires given(ctx) && given(a) && given(b)
  panics when cols(a) != rows(b)
  ensures fresh(res) && shape(res, rows(a), cols(b))
  ensures[!C18,!C28,!C29] live(ctx) ==> (forall i, j :: {mat(res)[i][j]} inr(res, i, j) ==> mat(res)[i][j] == dot(mat(a), mat(b), i, j, cols(a)))
