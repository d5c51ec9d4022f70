// Gauss-Jordan elimination, over an exact field. M[i] is row i; R rows, C columns.

// the first column of a row with something in it, or C
fn lead(Ts, Int): Int
axiom forall a:Ts, C :: {lead(a, C)} 0 <= C ==> 0 <= lead(a, C) && lead(a, C) <= C
axiom forall a:Ts, C :: {lead(a, C)} 0 <= C && lead(a, C) < C ==> a[lead(a, C)] != tzero
axiom forall a:Ts, C, j :: {lead(a, C), a[j]} 0 <= j && j < lead(a, C) ==> a[j] == tzero

// reduced row echelon form
def rref(M, R, C) = (forall k, i :: {lead(M[k], C), M[i]} 0 <= k && k < R && lead(M[k], C) < C && 0 <= i && i < R ==> M[i][lead(M[k], C)] == ite(i == k, tone, tzero)) && (forall k, l :: {lead(M[k], C), lead(M[l], C)} 0 <= k && k < l && l < R && lead(M[l], C) < C ==> lead(M[k], C) < lead(M[l], C))

// M[i]*x is zero for every row i, where x is column j of B
fn nullw(Mat, Mat, Int, Int, Int): Int
fn null(Mat, Mat, Int, Int, Int): Bool
axiom forall M:Mat, X:Mat, B:Mat, j, R, C, i :: {null(M, B, j, R, C), dot(X, B, i, j, C)} null(M, B, j, R, C) && 0 <= i && i < R ==> dot(M, B, i, j, C) == tzero
axiom forall M:Mat, B:Mat, j, R, C :: {null(M, B, j, R, C)} !null(M, B, j, R, C) ==> 0 <= nullw(M, B, j, R, C) && nullw(M, B, j, R, C) < R && dot(M, B, nullw(M, B, j, R, C), j, C) != tzero

// the same null space
fn samenullB(Mat, Mat, Int, Int): Mat
fn samenullj(Mat, Mat, Int, Int): Int
fn samenull(Mat, Mat, Int, Int): Bool
axiom forall X:Mat, A:Mat, B:Mat, j, R, C :: {samenull(X, A, R, C), null(X, B, j, R, C)} samenull(X, A, R, C) ==> (null(X, B, j, R, C) <==> null(A, B, j, R, C))
axiom forall X:Mat, A:Mat, B:Mat, j, R, C :: {samenull(X, A, R, C), null(A, B, j, R, C)} samenull(X, A, R, C) ==> (null(X, B, j, R, C) <==> null(A, B, j, R, C))
axiom forall X:Mat, A:Mat, R, C :: {samenull(X, A, R, C)} !samenull(X, A, R, C) ==> !(null(X, samenullB(X, A, R, C), samenullj(X, A, R, C), R, C) <==> null(A, samenullB(X, A, R, C), samenullj(X, A, R, C), R, C))
prooflemma[field] snrefl on samenull :: forall X:Mat, A:Mat, R, C :: {samenull(X, A, R, C)} X == A ==> samenull(X, A, R, C)
prooflemma[field] sntrans on samenull :: forall X:Mat, A:Mat, Z:Mat, R, C :: {samenull(X, A, R, C), samenull(A, Z, R, C)} samenull(X, A, R, C) && samenull(A, Z, R, C) ==> samenull(X, Z, R, C)

// X is A but for the first n elements of row i, which are those of v ...
fn rowsetk(Mat, Mat, Int, Ts, Int, Int, Int): Int
fn rowsetj(Mat, Mat, Int, Ts, Int, Int, Int): Int
fn rowset(Mat, Mat, Int, Ts, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, i, v:Ts, n, R, C, k :: {rowset(X, A, i, v, n, R, C), X[k]} rowset(X, A, i, v, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, v:Ts, n, R, C, k :: {rowset(X, A, i, v, n, R, C), A[k]} rowset(X, A, i, v, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, v:Ts, n, R, C, j :: {rowset(X, A, i, v, n, R, C), X[i][j]} rowset(X, A, i, v, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, v[j], A[i][j])
axiom forall X:Mat, A:Mat, i, v:Ts, n, R, C, j :: {rowset(X, A, i, v, n, R, C), A[i][j]} rowset(X, A, i, v, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, v[j], A[i][j])
axiom forall X:Mat, A:Mat, i, v:Ts, n, R, C :: {rowset(X, A, i, v, n, R, C)} !rowset(X, A, i, v, n, R, C) ==> (rowsetk(X, A, i, v, n, R, C) != i && X[rowsetk(X, A, i, v, n, R, C)] != A[rowsetk(X, A, i, v, n, R, C)]) || (0 <= rowsetj(X, A, i, v, n, R, C) && X[i][rowsetj(X, A, i, v, n, R, C)] != ite(rowsetj(X, A, i, v, n, R, C) < n, v[rowsetj(X, A, i, v, n, R, C)], A[i][rowsetj(X, A, i, v, n, R, C)]))

// ... those of A times f ...
fn rowscalek(Mat, Mat, Int, T, Int, Int, Int): Int
fn rowscalej(Mat, Mat, Int, T, Int, Int, Int): Int
fn rowscale(Mat, Mat, Int, T, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, i, f:T, n, R, C, k :: {rowscale(X, A, i, f, n, R, C), X[k]} rowscale(X, A, i, f, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, f:T, n, R, C, k :: {rowscale(X, A, i, f, n, R, C), A[k]} rowscale(X, A, i, f, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, f:T, n, R, C, j :: {rowscale(X, A, i, f, n, R, C), X[i][j]} rowscale(X, A, i, f, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, tmul(A[i][j], f), A[i][j])
axiom forall X:Mat, A:Mat, i, f:T, n, R, C, j :: {rowscale(X, A, i, f, n, R, C), A[i][j]} rowscale(X, A, i, f, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, tmul(A[i][j], f), A[i][j])
axiom forall X:Mat, A:Mat, i, f:T, n, R, C :: {rowscale(X, A, i, f, n, R, C)} !rowscale(X, A, i, f, n, R, C) ==> (rowscalek(X, A, i, f, n, R, C) != i && X[rowscalek(X, A, i, f, n, R, C)] != A[rowscalek(X, A, i, f, n, R, C)]) || (0 <= rowscalej(X, A, i, f, n, R, C) && X[i][rowscalej(X, A, i, f, n, R, C)] != ite(rowscalej(X, A, i, f, n, R, C) < n, tmul(A[i][rowscalej(X, A, i, f, n, R, C)], f), A[i][rowscalej(X, A, i, f, n, R, C)]))

// ... those of A less g times row p
fn rowelimk(Mat, Mat, Int, Int, T, Int, Int, Int): Int
fn rowelimj(Mat, Mat, Int, Int, T, Int, Int, Int): Int
fn rowelim(Mat, Mat, Int, Int, T, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, i, p, g:T, n, R, C, k :: {rowelim(X, A, i, p, g, n, R, C), X[k]} rowelim(X, A, i, p, g, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, p, g:T, n, R, C, k :: {rowelim(X, A, i, p, g, n, R, C), A[k]} rowelim(X, A, i, p, g, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, p, g:T, n, R, C, j :: {rowelim(X, A, i, p, g, n, R, C), X[i][j]} rowelim(X, A, i, p, g, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, tsub(A[i][j], tmul(A[p][j], g)), A[i][j])
axiom forall X:Mat, A:Mat, i, p, g:T, n, R, C, j :: {rowelim(X, A, i, p, g, n, R, C), A[i][j]} rowelim(X, A, i, p, g, n, R, C) && 0 <= j ==> X[i][j] == ite(j < n, tsub(A[i][j], tmul(A[p][j], g)), A[i][j])
axiom forall X:Mat, A:Mat, i, p, g:T, n, R, C :: {rowelim(X, A, i, p, g, n, R, C)} !rowelim(X, A, i, p, g, n, R, C) ==> (rowelimk(X, A, i, p, g, n, R, C) != i && X[rowelimk(X, A, i, p, g, n, R, C)] != A[rowelimk(X, A, i, p, g, n, R, C)]) || (0 <= rowelimj(X, A, i, p, g, n, R, C) && X[i][rowelimj(X, A, i, p, g, n, R, C)] != ite(rowelimj(X, A, i, p, g, n, R, C) < n, tsub(A[i][rowelimj(X, A, i, p, g, n, R, C)], tmul(A[p][rowelimj(X, A, i, p, g, n, R, C)], g)), A[i][rowelimj(X, A, i, p, g, n, R, C)]))

// the same from element m on
fn rowscalelk(Mat, Mat, Int, T, Int, Int, Int, Int): Int
fn rowscalelj(Mat, Mat, Int, T, Int, Int, Int, Int): Int
fn rowscalel(Mat, Mat, Int, T, Int, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, i, f:T, m, n, R, C, k :: {rowscalel(X, A, i, f, m, n, R, C), X[k]} {rowscalel(X, A, i, f, m, n, R, C), A[k]} rowscalel(X, A, i, f, m, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, f:T, m, n, R, C, j :: {rowscalel(X, A, i, f, m, n, R, C), X[i][j]} {rowscalel(X, A, i, f, m, n, R, C), A[i][j]} rowscalel(X, A, i, f, m, n, R, C) && 0 <= j ==> X[i][j] == ite(m <= j && j < n, tmul(A[i][j], f), A[i][j])
axiom forall X:Mat, A:Mat, i, f:T, m, n, R, C :: {rowscalel(X, A, i, f, m, n, R, C)} !rowscalel(X, A, i, f, m, n, R, C) ==> (rowscalelk(X, A, i, f, m, n, R, C) != i && X[rowscalelk(X, A, i, f, m, n, R, C)] != A[rowscalelk(X, A, i, f, m, n, R, C)]) || (0 <= rowscalelj(X, A, i, f, m, n, R, C) && X[i][rowscalelj(X, A, i, f, m, n, R, C)] != ite(m <= rowscalelj(X, A, i, f, m, n, R, C) && rowscalelj(X, A, i, f, m, n, R, C) < n, tmul(A[i][rowscalelj(X, A, i, f, m, n, R, C)], f), A[i][rowscalelj(X, A, i, f, m, n, R, C)]))

fn rowelimlk(Mat, Mat, Int, Int, T, Int, Int, Int, Int): Int
fn rowelimlj(Mat, Mat, Int, Int, T, Int, Int, Int, Int): Int
fn roweliml(Mat, Mat, Int, Int, T, Int, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, i, p, g:T, m, n, R, C, k :: {roweliml(X, A, i, p, g, m, n, R, C), X[k]} {roweliml(X, A, i, p, g, m, n, R, C), A[k]} roweliml(X, A, i, p, g, m, n, R, C) && k != i ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, i, p, g:T, m, n, R, C, j :: {roweliml(X, A, i, p, g, m, n, R, C), X[i][j]} {roweliml(X, A, i, p, g, m, n, R, C), A[i][j]} roweliml(X, A, i, p, g, m, n, R, C) && 0 <= j ==> X[i][j] == ite(m <= j && j < n, tsub(A[i][j], tmul(A[p][j], g)), A[i][j])
axiom forall X:Mat, A:Mat, i, p, g:T, m, n, R, C :: {roweliml(X, A, i, p, g, m, n, R, C)} !roweliml(X, A, i, p, g, m, n, R, C) ==> (rowelimlk(X, A, i, p, g, m, n, R, C) != i && X[rowelimlk(X, A, i, p, g, m, n, R, C)] != A[rowelimlk(X, A, i, p, g, m, n, R, C)]) || (0 <= rowelimlj(X, A, i, p, g, m, n, R, C) && X[i][rowelimlj(X, A, i, p, g, m, n, R, C)] != ite(m <= rowelimlj(X, A, i, p, g, m, n, R, C) && rowelimlj(X, A, i, p, g, m, n, R, C) < n, tsub(A[i][rowelimlj(X, A, i, p, g, m, n, R, C)], tmul(A[p][rowelimlj(X, A, i, p, g, m, n, R, C)], g)), A[i][rowelimlj(X, A, i, p, g, m, n, R, C)]))


// X is A but for the first n elements of rows p and q, which are exchanged
fn rowswapk(Mat, Mat, Int, Int, Int, Int, Int): Int
fn rowswapj(Mat, Mat, Int, Int, Int, Int, Int): Int
fn rowswap(Mat, Mat, Int, Int, Int, Int, Int): Bool
axiom forall X:Mat, A:Mat, p, q, n, R, C, k :: {rowswap(X, A, p, q, n, R, C), X[k]} rowswap(X, A, p, q, n, R, C) && k != p && k != q ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, p, q, n, R, C, k :: {rowswap(X, A, p, q, n, R, C), A[k]} rowswap(X, A, p, q, n, R, C) && k != p && k != q ==> X[k] == A[k]
axiom forall X:Mat, A:Mat, p, q, n, R, C, j :: {rowswap(X, A, p, q, n, R, C), X[p][j]} {rowswap(X, A, p, q, n, R, C), A[p][j]} {rowswap(X, A, p, q, n, R, C), X[q][j]} {rowswap(X, A, p, q, n, R, C), A[q][j]} rowswap(X, A, p, q, n, R, C) && 0 <= j ==> X[p][j] == ite(j < n, A[q][j], A[p][j]) && X[q][j] == ite(j < n, A[p][j], A[q][j])
axiom forall X:Mat, A:Mat, p, q, n, R, C :: {rowswap(X, A, p, q, n, R, C)} !rowswap(X, A, p, q, n, R, C) ==> (rowswapk(X, A, p, q, n, R, C) != p && rowswapk(X, A, p, q, n, R, C) != q && X[rowswapk(X, A, p, q, n, R, C)] != A[rowswapk(X, A, p, q, n, R, C)]) || (0 <= rowswapj(X, A, p, q, n, R, C) && (X[p][rowswapj(X, A, p, q, n, R, C)] != ite(rowswapj(X, A, p, q, n, R, C) < n, A[q][rowswapj(X, A, p, q, n, R, C)], A[p][rowswapj(X, A, p, q, n, R, C)]) || X[q][rowswapj(X, A, p, q, n, R, C)] != ite(rowswapj(X, A, p, q, n, R, C) < n, A[p][rowswapj(X, A, p, q, n, R, C)], A[q][rowswapj(X, A, p, q, n, R, C)])))

// the null space is not changed by exchanging two rows, scaling a row, and taking a multiple of a row from another
prooflemma[field] dotagree on rowset by n :: forall X:Mat, A:Mat, B:Mat, k, l, j, n :: {dot(X, B, k, j, n), dot(A, B, l, j, n)} (forall c :: {X[k][c]} 0 <= c && c < n ==> X[k][c] == A[l][c]) ==> dot(X, B, k, j, n) == dot(A, B, l, j, n)
prooflemma[field] dotagree2 on rowscale by n :: forall X:Mat, A:Mat, B:Mat, k, l, j, n :: {dot(X, B, k, j, n), dot(A, B, l, j, n)} X[k] == A[l] ==> dot(X, B, k, j, n) == dot(A, B, l, j, n)
prooflemma[field] dotagree3 on rowelim by n :: forall X:Mat, A:Mat, B:Mat, k, l, j, n :: {dot(X, B, k, j, n), dot(A, B, l, j, n)} X[k] == A[l] ==> dot(X, B, k, j, n) == dot(A, B, l, j, n)
prooflemma[field] dotscale on rowscale by m :: forall X:Mat, A:Mat, B:Mat, i, f:T, n, R, C, j, m :: {dot(X, B, i, j, m), rowscale(X, A, i, f, n, R, C)} rowscale(X, A, i, f, n, R, C) && m <= n ==> dot(X, B, i, j, m) == tmul(dot(A, B, i, j, m), f)
fn hint(T): Bool
axiom forall a:T :: {hint(a)} hint(a)
prooflemma[field] dotelim on rowelim by m :: forall X:Mat, A:Mat, B:Mat, i, p, g:T, n, R, C, j, m :: {dot(X, B, i, j, m), rowelim(X, A, i, p, g, n, R, C)} rowelim(X, A, i, p, g, n, R, C) && m <= n ==> hint(tmul(tmul(A[p][m - 1], g), B[m - 1][j])) && dot(X, B, i, j, m) == tsub(dot(A, B, i, j, m), tmul(dot(A, B, p, j, m), g))
prooflemma[field] dothere on rowset :: forall X:Mat, A:Mat, i, v:Ts, n, R, C, M:Mat, B:Mat, j :: {rowset(X, A, i, v, n, R, C), null(M, B, j, R, C)} null(M, B, j, R, C) && 0 <= i && i < R ==> dot(M, B, i, j, C) == tzero
prooflemma[field] snswap on rowset :: forall X:Mat, Y:Mat, A:Mat, q, v:Ts, n, p, u:Ts, m, R, C :: {rowset(X, Y, q, v, n, R, C), rowset(Y, A, p, u, m, R, C)} rowset(X, Y, q, v, n, R, C) && rowset(Y, A, p, u, m, R, C) && p != q && C <= n && C <= m && 0 <= p && p < R && 0 <= q && q < R && (forall c :: {u[c]} 0 <= c && c < C ==> u[c] == A[q][c]) && (forall c :: {v[c]} 0 <= c && c < C ==> v[c] == A[p][c]) ==> samenull(X, A, R, C)
prooflemma[field] dotagree4 on rowswap by n :: forall X:Mat, A:Mat, B:Mat, k, l, j, n :: {dot(X, B, k, j, n), dot(A, B, l, j, n)} (forall c :: {X[k][c]} 0 <= c && c < n ==> X[k][c] == A[l][c]) ==> dot(X, B, k, j, n) == dot(A, B, l, j, n)
prooflemma[field] dothere2 on rowswap :: forall X:Mat, A:Mat, p, q, n, R, C, M:Mat, B:Mat, j :: {rowswap(X, A, p, q, n, R, C), null(M, B, j, R, C)} null(M, B, j, R, C) && 0 <= p && p < R && 0 <= q && q < R ==> dot(M, B, p, j, C) == tzero && dot(M, B, q, j, C) == tzero
prooflemma[field] snswap1 on rowswap :: forall X:Mat, A:Mat, p, q, n, R, C :: {rowswap(X, A, p, q, n, R, C)} rowswap(X, A, p, q, n, R, C) && p != q && C <= n && 0 <= p && p < R && 0 <= q && q < R ==> samenull(X, A, R, C)
prooflemma[field] snscale on rowscale :: forall X:Mat, A:Mat, i, f:T, n, R, C :: {rowscale(X, A, i, f, n, R, C)} rowscale(X, A, i, f, n, R, C) && C <= n && f != tzero ==> samenull(X, A, R, C)
prooflemma[field] snelim on rowelim :: forall X:Mat, A:Mat, i, p, g:T, n, R, C :: {rowelim(X, A, i, p, g, n, R, C)} rowelim(X, A, i, p, g, n, R, C) && C <= n && i != p && 0 <= p && p < R && 0 <= i && i < R ==> samenull(X, A, R, C)

// rows r on are zero in columns below l
fn zcolk(Mat, Int, Int, Int): Int
fn zcol(Mat, Int, Int, Int): Bool
axiom forall M:Mat, l, r, i, k :: {zcol(M, l, r, i), M[k]} zcol(M, l, r, i) && r <= k && k < i ==> M[k][l] == tzero
axiom forall M:Mat, l, r, i :: {zcol(M, l, r, i)} !zcol(M, l, r, i) ==> r <= zcolk(M, l, r, i) && zcolk(M, l, r, i) < i && M[zcolk(M, l, r, i)][l] != tzero
// column l is zero in the rows below i, but for row r
fn clrk(Mat, Int, Int, Int): Int
fn clr(Mat, Int, Int, Int): Bool
axiom forall M:Mat, l, r, i, k :: {clr(M, l, r, i), M[k]} clr(M, l, r, i) && 0 <= k && k < i && k != r ==> M[k][l] == tzero
axiom forall M:Mat, l, r, i :: {clr(M, l, r, i)} !clr(M, l, r, i) ==> 0 <= clrk(M, l, r, i) && clrk(M, l, r, i) < i && clrk(M, l, r, i) != r && M[clrk(M, l, r, i)][l] != tzero

// the first r rows are done, with what leads them in the first l columns; the others are zero there
fn echk(Mat, Int, Int, Int, Int): Int
fn echi(Mat, Int, Int, Int, Int): Int
fn ech(Mat, Int, Int, Int, Int): Bool
axiom forall M:Mat, r, l, R, C :: {ech(M, r, l, R, C)} ech(M, r, l, R, C) ==> 0 <= r && r <= R && 0 <= l && l <= C
axiom forall M:Mat, r, l, R, C, k :: {ech(M, r, l, R, C), lead(M[k], C)} ech(M, r, l, R, C) && 0 <= k && k < r ==> lead(M[k], C) < l && M[k][lead(M[k], C)] == tone
axiom forall M:Mat, r, l, R, C, k, i :: {ech(M, r, l, R, C), lead(M[k], C), M[i]} ech(M, r, l, R, C) && 0 <= k && k < r && 0 <= i && i < R && i != k ==> M[i][lead(M[k], C)] == tzero
axiom forall M:Mat, r, l, R, C, k, i :: {ech(M, r, l, R, C), lead(M[k], C), lead(M[i], C)} ech(M, r, l, R, C) && 0 <= k && k < i && i < r ==> lead(M[k], C) < lead(M[i], C)
axiom forall M:Mat, r, l, R, C, i, j :: {ech(M, r, l, R, C), M[i][j]} ech(M, r, l, R, C) && r <= i && i < R && 0 <= j && j < l ==> M[i][j] == tzero
axiom forall M:Mat, r, l, R, C :: {ech(M, r, l, R, C)} !ech(M, r, l, R, C) && 0 <= r && r <= R && 0 <= l && l <= C ==> (0 <= echk(M, r, l, R, C) && echk(M, r, l, R, C) < r && !(lead(M[echk(M, r, l, R, C)], C) < l && M[echk(M, r, l, R, C)][lead(M[echk(M, r, l, R, C)], C)] == tone)) || (0 <= echk(M, r, l, R, C) && echk(M, r, l, R, C) < r && 0 <= echi(M, r, l, R, C) && echi(M, r, l, R, C) < R && echi(M, r, l, R, C) != echk(M, r, l, R, C) && M[echi(M, r, l, R, C)][lead(M[echk(M, r, l, R, C)], C)] != tzero) || (0 <= echk(M, r, l, R, C) && echk(M, r, l, R, C) < echi(M, r, l, R, C) && echi(M, r, l, R, C) < r && !(lead(M[echk(M, r, l, R, C)], C) < lead(M[echi(M, r, l, R, C)], C))) || (r <= echk(M, r, l, R, C) && echk(M, r, l, R, C) < R && 0 <= echi(M, r, l, R, C) && echi(M, r, l, R, C) < l && M[echk(M, r, l, R, C)][echi(M, r, l, R, C)] != tzero)
prooflemma[field] echstart on ech :: forall M:Mat, r, l, R, C :: {ech(M, r, l, R, C)} r == 0 && l == 0 && 0 <= R && 0 <= C ==> ech(M, r, l, R, C)
prooflemma[field] echskip on zcol :: forall M:Mat, r, l, l2, i, R, C :: {ech(M, r, l2, R, C), zcol(M, l, r, i)} ech(M, r, l, R, C) && l2 == l + 1 && l < C && i + 1 == R && zcol(M, l, r, i) && M[i][l] == tzero ==> ech(M, r, l2, R, C)
prooflemma[field] echswap on rowset :: forall X:Mat, Y:Mat, A:Mat, q, v:Ts, n, p, u:Ts, m, R, C, r, l :: {rowset(X, Y, q, v, n, R, C), rowset(Y, A, p, u, m, R, C), ech(A, r, l, R, C)} rowset(X, Y, q, v, n, R, C) && rowset(Y, A, p, u, m, R, C) && p != q && C <= n && C <= m && r <= p && p < R && r <= q && q < R && (forall c :: {u[c]} 0 <= c && c < C ==> u[c] == A[q][c]) && (forall c :: {v[c]} 0 <= c && c < C ==> v[c] == A[p][c]) && ech(A, r, l, R, C) ==> ech(X, r, l, R, C)
prooflemma[field] echswap1 on rowswap :: forall X:Mat, A:Mat, p, q, n, R, C, r, l :: {rowswap(X, A, p, q, n, R, C), ech(A, r, l, R, C)} rowswap(X, A, p, q, n, R, C) && p != q && C <= n && r <= p && p < R && r <= q && q < R && ech(A, r, l, R, C) ==> ech(X, r, l, R, C)
prooflemma[field] echscale on rowscale :: forall X:Mat, A:Mat, i, f:T, n, R, C, r, l :: {rowscale(X, A, i, f, n, R, C), ech(A, r, l, R, C)} rowscale(X, A, i, f, n, R, C) && ech(A, r, l, R, C) && r <= i && i < R ==> ech(X, r, l, R, C)
prooflemma[field] elimlead on rowelim :: forall X:Mat, A:Mat, i, p, g:T, n, R, C, r, l :: {rowelim(X, A, i, p, g, n, R, C), ech(A, r, l, R, C)} rowelim(X, A, i, p, g, n, R, C) && ech(A, r, l, R, C) && r <= p && p < R && 0 <= i && i < r && C <= n ==> lead(X[i], C) == lead(A[i], C)
prooflemma[field] echelim on rowelim :: forall X:Mat, A:Mat, i, p, g:T, n, R, C, r, l :: {rowelim(X, A, i, p, g, n, R, C), ech(A, r, l, R, C)} rowelim(X, A, i, p, g, n, R, C) && ech(A, r, l, R, C) && r <= p && p < R && 0 <= i && i < R && i != p && C <= n ==> ech(X, r, l, R, C)
prooflemma[field] echnext on clr :: forall M:Mat, r, l, i, R, C :: {clr(M, l, r, i), ech(M, r, l, R, C)} clr(M, l, r, i) && ech(M, r, l, R, C) && R <= i && r < R && l < C && M[r][l] == tone ==> ech(M, r + 1, l + 1, R, C)
prooflemma[field] echend on zcol :: forall M:Mat, r, l, i, R, C :: {ech(M, r, l, R, C), zcol(M, l, r, i)} ech(M, r, l, R, C) && l + 1 == C && i + 1 == R && zcol(M, l, r, i) && M[i][l] == tzero ==> ech(M, r, C, R, C) && rref(M, R, C)
prooflemma[field] fromscale on rowscalel :: forall X:Mat, A:Mat, i, f:T, m, n, R, C, r :: {rowscalel(X, A, i, f, m, n, R, C), ech(A, r, m, R, C)} rowscalel(X, A, i, f, m, n, R, C) && ech(A, r, m, R, C) && m <= n && r <= i && i < R ==> rowscale(X, A, i, f, n, R, C)
prooflemma[field] fromelim on roweliml :: forall X:Mat, A:Mat, i, p, g:T, m, n, R, C, r :: {roweliml(X, A, i, p, g, m, n, R, C), ech(A, r, m, R, C)} roweliml(X, A, i, p, g, m, n, R, C) && ech(A, r, m, R, C) && m <= n && r <= p && p < R ==> rowelim(X, A, i, p, g, n, R, C)
prooflemma[field] echlast on ech :: forall M:Mat, r, l, R, C :: {ech(M, r, l, R, C)} ech(M, r, l, R, C) && (R <= r || C <= l) ==> rref(M, R, C)

func reduced.Reduced(s) res
  flags field opaque:ech opaque:samenull opaque:null opaque:lead opaque:dotagree opaque:dotagree2 opaque:dotagree3 opaque:dotagree4 opaque:dothere2 opaque:dotscale opaque:dotelim opaque:dothere opaque:elimlead opaque:hint
  requires given(s)
  ensures fresh(res) && shape(res, rows(s), cols(s))
  ensures[!C18,!C28] rref(mat(res), rows(s), cols(s))
  ensures[!C18,!C28] samenull(mat(res), mat(s), rows(s), cols(s))
  outerloop[!C18,!C28] ech(mat(?w), ?n, ?k, rows(?w), cols(?w))
  outerloop[!C18,!C28] forall c :: {content(?x)[c]} {mat(?w)[?n][c]} 0 <= c && c < cols(?w) ==> content(?x)[c] == mat(?w)[?n][c]
  outerloop[!C18,!C28] samenull(mat(?w), mat(s), rows(s), cols(s))
  outerloop[!C18,!C28] ech(mat(?m), ?n, ?i, rows(?m), cols(?m))
  outerloop[!C18,!C28] zcol(mat(?m), ?i, ?n, ?i2)
  outerloop[!C18,!C28] mat(?w)[?n][?k] == tone && clr(mat(?w), ?k, ?n, ?n2)
  innerloop[!C18,!C28] rowset(mat(?w), pre(mat(?w)), ?k, content(?x), ?n2, rows(?w), cols(?w))
  innerloop[!C18,!C28] rowswap(mat(?w), pre(mat(?w)), ?n, ?k, ?n2, rows(?w), cols(?w))
  innerloop[!C18,!C28] rowscale(mat(?w), pre(mat(?w)), ?n, ?f, ?n2, rows(?w), cols(?w))
  innerloop[!C18,!C28] rowscale(mat(?w), pre(mat(?w)), ?n, tdiv(tone, ?f), ?n2, rows(?w), cols(?w))
  innerloop[!C18,!C28] rowscalel(mat(?w), pre(mat(?w)), ?n, ?f, ?k, ?n2, rows(?w), cols(?w))
  innerloop[!C18,!C28] roweliml(mat(?w), pre(mat(?w)), ?n2, ?n, ?f, ?k, ?n3, rows(?w), cols(?w))
  innerloop[!C18,!C28] rowelim(mat(?w), pre(mat(?w)), ?n2, ?n, ?f, ?n3, rows(?w), cols(?w))
