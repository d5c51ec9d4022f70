// The number of non-zero elements, and how a sorted segment of positions counts them.
fn rownnz(Ts, Int): Int
axiom forall a:Ts, n :: {rownnz(a, n)} n <= 0 ==> rownnz(a, n) == 0
axiom forall a:Ts, n, m :: {rownnz(a, n), rownnz(a, m)} 0 <= n && m == n + 1 ==> rownnz(a, m) == rownnz(a, n) + ite(a[n] != tzero, 1, 0)
fn nnz(Mat, Int, Int): Int
axiom forall M:Mat, n, C :: {nnz(M, n, C)} n <= 0 ==> nnz(M, n, C) == 0
axiom forall M:Mat, n, m, C :: {nnz(M, n, C), nnz(M, m, C)} 0 <= n && m == n + 1 ==> nnz(M, m, C) == nnz(M, n, C) + rownnz(M[n], C)
fn colnnz(Mat, Int, Int): Int
axiom forall M:Mat, c, n :: {colnnz(M, c, n)} n <= 0 ==> colnnz(M, c, n) == 0
axiom forall M:Mat, c, n, m :: {colnnz(M, c, n), colnnz(M, c, m)} 0 <= n && m == n + 1 ==> colnnz(M, c, m) == colnnz(M, c, n) + ite(M[n][c] != tzero, 1, 0)

// least index in [lo,hi) with a value of at least n, or hi
fn lb(Ints, Int, Int, Int): Int
axiom forall K:Ints, lo, hi, n :: {lb(K, lo, hi, n)} lo <= hi ==> lo <= lb(K, lo, hi, n) && lb(K, lo, hi, n) <= hi
axiom forall K:Ints, lo, hi, n :: {lb(K, lo, hi, n)} lo <= lb(K, lo, hi, n) && lb(K, lo, hi, n) < hi ==> K[lb(K, lo, hi, n)] >= n
axiom forall K:Ints, lo, hi, n :: {lb(K, lo, hi, n)} lo < lb(K, lo, hi, n) && lb(K, lo, hi, n) <= hi ==> K[lb(K, lo, hi, n) - 1] < n
axiom forall K:Ints, lo, hi, n, k :: {lb(K, lo, hi, n), K[k]} lo <= k && k < hi && K[k] >= n ==> lb(K, lo, hi, n) <= k

// the positions of the non-zero elements of a row are K[lo..hi), in order
fn isroww(Ts, Ints, Int, Int, Int): Int
fn isrowv(Ts, Ints, Int, Int, Int): Int
fn isrow(Ts, Ints, Int, Int, Int): Bool
axiom forall a:Ts, K:Ints, lo, hi, C :: {isrow(a, K, lo, hi, C)} isrow(a, K, lo, hi, C) ==> lo <= hi && inc(K, lo, hi)
axiom forall a:Ts, K:Ints, lo, hi, C, k :: {isrow(a, K, lo, hi, C), K[k]} isrow(a, K, lo, hi, C) && lo <= k && k < hi ==> 0 <= K[k] && K[k] < C
axiom forall a:Ts, K:Ints, lo, hi, C, j :: {isrow(a, K, lo, hi, C), a[j]} isrow(a, K, lo, hi, C) && 0 <= j && j < C ==> (a[j] != tzero <==> find(K, lo, hi, j) < hi)
axiom forall a:Ts, K:Ints, lo, hi, C :: {isrow(a, K, lo, hi, C)} !isrow(a, K, lo, hi, C) ==> lo > hi || !inc(K, lo, hi) || lo <= isroww(a, K, lo, hi, C) && isroww(a, K, lo, hi, C) < hi && !(0 <= K[isroww(a, K, lo, hi, C)] && K[isroww(a, K, lo, hi, C)] < C) || 0 <= isrowv(a, K, lo, hi, C) && isrowv(a, K, lo, hi, C) < C && !(a[isrowv(a, K, lo, hi, C)] != tzero <==> find(K, lo, hi, isrowv(a, K, lo, hi, C)) < hi)
prooflemma rowcount on isrow by n :: forall a:Ts, K:Ints, lo, hi, C, n :: {rownnz(a, n), isrow(a, K, lo, hi, C)} isrow(a, K, lo, hi, C) && 0 <= n && n <= C ==> rownnz(a, n) == lb(K, lo, hi, n) - lo
prooflemma rowtotal on isrow :: forall a:Ts, K:Ints, lo, hi, C :: {rownnz(a, C), isrow(a, K, lo, hi, C)} isrow(a, K, lo, hi, C) && 0 <= C ==> rownnz(a, C) == hi - lo

// compressed rows
fn iscsrw(Mat, Ints, Ints, Int, Int): Int
fn iscsr(Mat, Ints, Ints, Int, Int): Bool
axiom forall M:Mat, K:Ints, S:Ints, R, C, i :: {iscsr(M, K, S, R, C), M[i]} iscsr(M, K, S, R, C) && 0 <= i && i < R ==> isrow(M[i], K, S[i], S[i+1], C)
axiom forall M:Mat, K:Ints, S:Ints, R, C :: {iscsr(M, K, S, R, C)} !iscsr(M, K, S, R, C) ==> 0 <= iscsrw(M, K, S, R, C) && iscsrw(M, K, S, R, C) < R && !isrow(M[iscsrw(M, K, S, R, C)], K, S[iscsrw(M, K, S, R, C)], S[iscsrw(M, K, S, R, C) + 1], C)
prooflemma csrcount on iscsr by n :: forall M:Mat, K:Ints, S:Ints, R, C, n :: {nnz(M, n, C), iscsr(M, K, S, R, C)} iscsr(M, K, S, R, C) && 0 <= C && 0 <= n && n <= R ==> nnz(M, n, C) == S[n] - S[0]

// the same by columns
fn iscolw(Mat, Int, Ints, Int, Int, Int): Int
fn iscolv(Mat, Int, Ints, Int, Int, Int): Int
fn iscol(Mat, Int, Ints, Int, Int, Int): Bool
axiom forall M:Mat, c, K:Ints, lo, hi, R :: {iscol(M, c, K, lo, hi, R)} iscol(M, c, K, lo, hi, R) ==> lo <= hi && inc(K, lo, hi)
axiom forall M:Mat, c, K:Ints, lo, hi, R, k :: {iscol(M, c, K, lo, hi, R), K[k]} iscol(M, c, K, lo, hi, R) && lo <= k && k < hi ==> 0 <= K[k] && K[k] < R
axiom forall M:Mat, c, K:Ints, lo, hi, R, i :: {iscol(M, c, K, lo, hi, R), M[i]} iscol(M, c, K, lo, hi, R) && 0 <= i && i < R ==> (M[i][c] != tzero <==> find(K, lo, hi, i) < hi)
axiom forall M:Mat, c, K:Ints, lo, hi, R :: {iscol(M, c, K, lo, hi, R)} !iscol(M, c, K, lo, hi, R) ==> lo > hi || !inc(K, lo, hi) || lo <= iscolw(M, c, K, lo, hi, R) && iscolw(M, c, K, lo, hi, R) < hi && !(0 <= K[iscolw(M, c, K, lo, hi, R)] && K[iscolw(M, c, K, lo, hi, R)] < R) || 0 <= iscolv(M, c, K, lo, hi, R) && iscolv(M, c, K, lo, hi, R) < R && !(M[iscolv(M, c, K, lo, hi, R)][c] != tzero <==> find(K, lo, hi, iscolv(M, c, K, lo, hi, R)) < hi)
prooflemma colcount on iscol by n :: forall M:Mat, c, K:Ints, lo, hi, R, n :: {colnnz(M, c, n), iscol(M, c, K, lo, hi, R)} iscol(M, c, K, lo, hi, R) && 0 <= n && n <= R ==> colnnz(M, c, n) == lb(K, lo, hi, n) - lo
prooflemma coltotal on iscol :: forall M:Mat, c, K:Ints, lo, hi, R :: {colnnz(M, c, R), iscol(M, c, K, lo, hi, R)} iscol(M, c, K, lo, hi, R) && 0 <= R ==> colnnz(M, c, R) == hi - lo

// counting by columns gives the same number
prooflemma nocols on nnz by n :: forall M:Mat, n, C :: {nnz(M, n, C)} C <= 0 ==> nnz(M, n, C) == 0
prooflemma onecol on colnnz by n :: forall M:Mat, n, C, D :: {nnz(M, n, C), nnz(M, n, D), colnnz(M, C, n)} 0 <= C && D == C + 1 ==> nnz(M, n, D) == nnz(M, n, C) + colnnz(M, C, n)

fn iscscw(Mat, Ints, Ints, Int, Int): Int
fn iscsc(Mat, Ints, Ints, Int, Int): Bool
axiom forall M:Mat, K:Ints, S:Ints, R, C, j :: {iscsc(M, K, S, R, C), colnnz(M, j, R)} iscsc(M, K, S, R, C) && 0 <= j && j < C ==> iscol(M, j, K, S[j], S[j+1], R)
axiom forall M:Mat, K:Ints, S:Ints, R, C :: {iscsc(M, K, S, R, C)} !iscsc(M, K, S, R, C) ==> 0 <= iscscw(M, K, S, R, C) && iscscw(M, K, S, R, C) < C && !iscol(M, iscscw(M, K, S, R, C), K, S[iscscw(M, K, S, R, C)], S[iscscw(M, K, S, R, C) + 1], R)
prooflemma csccount on iscsc by n :: forall M:Mat, K:Ints, S:Ints, R, C, n :: {nnz(M, R, n), iscsc(M, K, S, R, C)} iscsc(M, K, S, R, C) && 0 <= R && 0 <= n && n <= C ==> (n <= 0 || colnnz(M, n - 1, R) == S[n] - S[n - 1]) && nnz(M, R, n) == S[n] - S[0]
prooflemma veccount on iscol :: forall M:Mat, K:Ints, lo, hi, R :: {nnz(M, R, 1), iscol(M, 0, K, lo, hi, R)} iscol(M, 0, K, lo, hi, R) && 0 <= R ==> colnnz(M, 0, R) == hi - lo && nnz(M, R, 0) == 0 && nnz(M, R, 1) == hi - lo

// wherever A has an element B has one
fn rsubw(Ts, Ts, Int): Int
fn rsub(Ts, Ts, Int): Bool
axiom forall a:Ts, b:Ts, C, j :: {rsub(a, b, C), a[j]} {rsub(a, b, C), b[j]} rsub(a, b, C) && 0 <= j && j < C && a[j] != tzero ==> b[j] != tzero
axiom forall a:Ts, b:Ts, C :: {rsub(a, b, C)} !rsub(a, b, C) ==> 0 <= rsubw(a, b, C) && rsubw(a, b, C) < C && a[rsubw(a, b, C)] != tzero && b[rsubw(a, b, C)] == tzero
prooflemma rowle on rsub by n :: forall a:Ts, b:Ts, C, n :: {rownnz(a, n), rownnz(b, n), rsub(a, b, C)} rsub(a, b, C) && n <= C ==> rownnz(a, n) <= rownnz(b, n)
prooflemma rowlt on rsub by n :: forall a:Ts, b:Ts, C, n, j :: {rownnz(a, n), rownnz(b, n), rsub(a, b, C), b[j]} rsub(a, b, C) && n <= C && 0 <= j && j < n && b[j] != tzero && a[j] == tzero ==> rownnz(a, n) < rownnz(b, n)
fn subw(Mat, Mat, Int, Int): Int
fn sub(Mat, Mat, Int, Int): Bool
axiom forall A:Mat, B:Mat, R, C, i :: {sub(A, B, R, C), A[i]} {sub(A, B, R, C), B[i]} sub(A, B, R, C) && 0 <= i && i < R ==> rsub(A[i], B[i], C)
axiom forall A:Mat, B:Mat, R, C :: {sub(A, B, R, C)} !sub(A, B, R, C) ==> 0 <= subw(A, B, R, C) && subw(A, B, R, C) < R && !rsub(A[subw(A, B, R, C)], B[subw(A, B, R, C)], C)
prooflemma matle on sub by n :: forall A:Mat, B:Mat, R, C, n :: {nnz(A, n, C), nnz(B, n, C), sub(A, B, R, C)} sub(A, B, R, C) && n <= R ==> nnz(A, n, C) <= nnz(B, n, C)
prooflemma matlt on sub by n :: forall A:Mat, B:Mat, R, C, n, i, j :: {nnz(A, n, C), nnz(B, n, C), sub(A, B, R, C), B[i][j]} sub(A, B, R, C) && n <= R && 0 <= i && i < n && 0 <= j && j < C && B[i][j] != tzero && A[i][j] == tzero ==> nnz(A, n, C) < nnz(B, n, C)
prooflemma eqcount on nnz :: forall A:Mat, B:Mat, R, C, i, j :: {nnz(A, R, C), nnz(B, R, C), B[i][j]} nnz(A, R, C) == nnz(B, R, C) && 0 <= i && i < R && 0 <= j && j < C && B[i][j] != tzero && A[i][j] == tzero ==> !sub(A, B, R, C)
prooflemma samecount on nnz :: forall A:Mat, B:Mat, R, C :: {nnz(A, R, C), nnz(B, R, C)} nnz(A, R, C) < nnz(B, R, C) ==> !sub(B, A, R, C)

// a column matrix, as a row
fn colofw(Mat, Ts, Int): Int
fn colof(Mat, Ts, Int): Bool
axiom forall A:Mat, a:Ts, N, j :: {colof(A, a, N), A[j]} {colof(A, a, N), a[j]} colof(A, a, N) && 0 <= j && j < N ==> A[j][0] == a[j]
axiom forall A:Mat, a:Ts, N :: {colof(A, a, N)} !colof(A, a, N) ==> 0 <= colofw(A, a, N) && colofw(A, a, N) < N && A[colofw(A, a, N)][0] != a[colofw(A, a, N)]
// transposed
fn tr(Mat): Mat
axiom forall A:Mat, i, j :: {tr(A)[i][j]} {tr(A), A[j][i]} tr(A)[i][j] == A[j][i]


// sums and differences, element by element
fn issumi(Mat, Mat, Mat, Int, Int): Int
fn issumj(Mat, Mat, Mat, Int, Int): Int
fn issum(Mat, Mat, Mat, Int, Int): Bool
axiom forall S:Mat, X:Mat, Y:Mat, R, C, i, j :: {issum(S, X, Y, R, C), S[i][j]} issum(S, X, Y, R, C) && 0 <= i && i < R && 0 <= j && j < C ==> S[i][j] == tadd(X[i][j], Y[i][j])
axiom forall S:Mat, X:Mat, Y:Mat, R, C :: {issum(S, X, Y, R, C)} !issum(S, X, Y, R, C) ==> 0 <= issumi(S, X, Y, R, C) && issumi(S, X, Y, R, C) < R && 0 <= issumj(S, X, Y, R, C) && issumj(S, X, Y, R, C) < C && S[issumi(S, X, Y, R, C)][issumj(S, X, Y, R, C)] != tadd(X[issumi(S, X, Y, R, C)][issumj(S, X, Y, R, C)], Y[issumi(S, X, Y, R, C)][issumj(S, X, Y, R, C)])
fn isdiffi(Mat, Mat, Mat, Int, Int): Int
fn isdiffj(Mat, Mat, Mat, Int, Int): Int
fn isdiff(Mat, Mat, Mat, Int, Int): Bool
axiom forall S:Mat, X:Mat, Y:Mat, R, C, i, j :: {isdiff(S, X, Y, R, C), S[i][j]} isdiff(S, X, Y, R, C) && 0 <= i && i < R && 0 <= j && j < C ==> S[i][j] == tsub(X[i][j], Y[i][j])
axiom forall S:Mat, X:Mat, Y:Mat, R, C :: {isdiff(S, X, Y, R, C)} !isdiff(S, X, Y, R, C) ==> 0 <= isdiffi(S, X, Y, R, C) && isdiffi(S, X, Y, R, C) < R && 0 <= isdiffj(S, X, Y, R, C) && isdiffj(S, X, Y, R, C) < C && S[isdiffi(S, X, Y, R, C)][isdiffj(S, X, Y, R, C)] != tsub(X[isdiffi(S, X, Y, R, C)][isdiffj(S, X, Y, R, C)], Y[isdiffi(S, X, Y, R, C)][isdiffj(S, X, Y, R, C)])
