// Sorting the rows or the columns of a rune matrix.
prooflemma total on tlt :: forall a:T, b:T :: {tlt(a, b), valid(a), valid(b)} valid(a) && valid(b) && !tlt(a, b) && !tlt(b, a) ==> a == b

// row order: at the first difference
fn rlt(Ts, Ts, Int): Bool
axiom forall a:Ts, b:Ts, C :: {rlt(a, b, C)} rlt(a, b, C) <==> rfd(a, b, C) < C && tlt(a[rfd(a, b, C)], b[rfd(a, b, C)])
prooflemma samecnt on rfd by n :: forall a:Ts, b:Ts, w:Ts, C, n :: {rfd(a, b, C), rfd(a, w, n), rfd(b, w, n)} rfd(a, b, C) == C && n <= C ==> rfd(a, w, n) == rfd(b, w, n)
prooflemma rltcong on rlt :: forall a:Ts, b:Ts, w:Ts, C :: {rfd(a, b, C), rlt(a, w, C), rlt(b, w, C)} {rfd(a, b, C), rlt(w, a, C), rlt(w, b, C)} 0 <= C && rfd(a, b, C) == C ==> (rlt(a, w, C) <==> rlt(b, w, C)) && (rlt(w, a, C) <==> rlt(w, b, C))
prooflemma rltanti on rlt :: forall a:Ts, b:Ts, C :: {rlt(a, b, C), rlt(b, a, C), rvalid(a, C), rvalid(b, C)} 0 <= C && rvalid(a, C) && rvalid(b, C) ==> !(rlt(a, b, C) && rlt(b, a, C)) && (!rlt(a, b, C) && !rlt(b, a, C) ==> rfd(a, b, C) == C)
prooflemma rlttrans on rlt :: forall a:Ts, b:Ts, c:Ts, C :: {rlt(b, a, C), rlt(c, b, C), rlt(c, a, C), rvalid(a, C), rvalid(b, C), rvalid(c, C)} 0 <= C && rvalid(a, C) && rvalid(b, C) && rvalid(c, C) && !rlt(b, a, C) && !rlt(c, b, C) ==> !rlt(c, a, C)

// two columns, as rows
prooflemma colofintro on colof :: forall A:Mat, a:Ts, N :: {colof(A, a, N)} !colof(A, a, N) ==> 0 <= colofw(A, a, N) && colofw(A, a, N) < N && A[colofw(A, a, N)][0] != a[colofw(A, a, N)]
prooflemma unit on rfd :: forall a:Ts, b:Ts, D :: {rfd(a, b, D)} D == 1 ==> (rfd(a, b, D) == 0 <==> a[0] != b[0]) && rfd(a, b, 0) == 0
prooflemma colcmp on mfd by n :: forall A:Mat, B:Mat, a:Ts, b:Ts, D, N, n :: {mfd(A, B, D, n), rfd(a, b, n), colof(A, a, N), colof(B, b, N)} D == 1 && colof(A, a, N) && colof(B, b, N) && n <= N ==> mfd(A, B, D, n) == rfd(a, b, n)
prooflemma colcmp2 on mfd :: forall A:Mat, B:Mat, a:Ts, b:Ts, D, n :: {mfd(A, B, D, n), rfd(a, b, n)} D == 1 && colof(A, a, n) && colof(B, b, n) ==> mfd(A, B, D, n) == rfd(a, b, n)
prooflemma link on mlt :: forall A:Mat, B:Mat, a:Ts, b:Ts, n, D :: {mlt(A, B, n, D), colof(A, a, n), colof(B, b, n)} D == 1 && 0 <= n && colof(A, a, n) && colof(B, b, n) ==> (mlt(A, B, n, D) <==> rlt(a, b, n))
prooflemma mtotal on mlt :: forall A:Mat, B:Mat, R, C :: {mlt(A, B, R, C), mlt(B, A, R, C), mvalid(A, R, C), mvalid(B, R, C)} 0 <= R && 0 <= C && mvalid(A, R, C) && mvalid(B, R, C) ==> !(mlt(A, B, R, C) && mlt(B, A, R, C)) && (mlt(A, B, R, C) || mlt(B, A, R, C) || meq(A, B, R, C)) && !(meq(A, B, R, C) && mlt(A, B, R, C))

// how many of the first n rows agree with w on C places
fn cnt(Mat, Int, Int, Ts): Int
axiom forall A:Mat, C, n, w:Ts :: {cnt(A, C, n, w)} n <= 0 ==> cnt(A, C, n, w) == 0
axiom forall A:Mat, C, n, m, w:Ts :: {cnt(A, C, n, w), cnt(A, C, m, w)} 0 <= n && m == n + 1 ==> cnt(A, C, m, w) == cnt(A, C, n, w) + ite(rfd(A[n], w, C) == C, 1, 0)

// B is A with rows p and q exchanged
def xch(p, q, i) = ite(i == p, q, ite(i == q, p, i))
fn swpi(Mat, Mat, Int, Int, Int, Int): Int
fn swpj(Mat, Mat, Int, Int, Int, Int): Int
fn swp(Mat, Mat, Int, Int, Int, Int): Bool
axiom forall A:Mat, B:Mat, R, C, p, q, i, j :: {swp(A, B, R, C, p, q), B[i][j]} swp(A, B, R, C, p, q) && 0 <= i && i < R && 0 <= j && j < C ==> B[i][j] == A[xch(p, q, i)][j]
axiom forall A:Mat, B:Mat, R, C, p, q :: {swp(A, B, R, C, p, q)} !swp(A, B, R, C, p, q) ==> 0 <= swpi(A, B, R, C, p, q) && swpi(A, B, R, C, p, q) < R && 0 <= swpj(A, B, R, C, p, q) && swpj(A, B, R, C, p, q) < C && B[swpi(A, B, R, C, p, q)][swpj(A, B, R, C, p, q)] != A[xch(p, q, swpi(A, B, R, C, p, q))][swpj(A, B, R, C, p, q)]
prooflemma swpintro on swp :: forall A:Mat, B:Mat, R, C, p, q :: {swp(A, B, R, C, p, q)} !swp(A, B, R, C, p, q) ==> 0 <= swpi(A, B, R, C, p, q) && swpi(A, B, R, C, p, q) < R && 0 <= swpj(A, B, R, C, p, q) && swpj(A, B, R, C, p, q) < C && B[swpi(A, B, R, C, p, q)][swpj(A, B, R, C, p, q)] != A[xch(p, q, swpi(A, B, R, C, p, q))][swpj(A, B, R, C, p, q)]
prooflemma swprow on swp :: forall A:Mat, B:Mat, R, C, p, q, i :: {swp(A, B, R, C, p, q), B[i]} swp(A, B, R, C, p, q) && 0 <= i && i < R && 0 <= C ==> rfd(B[i], A[xch(p, q, i)], C) == C
prooflemma swpcnt on cnt by n :: forall A:Mat, B:Mat, R, C, p, q, n, w:Ts :: {swp(A, B, R, C, p, q), cnt(A, C, n, w), cnt(B, C, n, w)} swp(A, B, R, C, p, q) && 0 <= p && p < q && q < R && 0 <= C && n <= R ==> cnt(B, C, n, w) == cnt(A, C, n, w) + ite(p < n, ite(rfd(A[q], w, C) == C, 1, 0) - ite(rfd(A[p], w, C) == C, 1, 0), 0) + ite(q < n, ite(rfd(A[p], w, C) == C, 1, 0) - ite(rfd(A[q], w, C) == C, 1, 0), 0)
prooflemma swpall on cnt :: forall A:Mat, B:Mat, R, C, p, q, w:Ts :: {swp(A, B, R, C, p, q), cnt(A, C, R, w)} {swp(A, B, R, C, p, q), cnt(B, C, R, w)} swp(A, B, R, C, p, q) && 0 <= p && p < q && q < R && 0 <= C ==> cnt(B, C, R, w) == cnt(A, C, R, w)
prooflemma swplt on swp :: forall A:Mat, B:Mat, R, C, p, q, i, j :: {swp(A, B, R, C, p, q), rlt(B[i], B[j], C)} swp(A, B, R, C, p, q) && 0 <= i && i < R && 0 <= j && j < R && 0 <= C && 0 <= p && p < R && 0 <= q && q < R ==> (rlt(B[i], B[j], C) <==> rlt(A[xch(p, q, i)], A[xch(p, q, j)], C))

prooflemma trvalid on tr :: forall A:Mat, R, C, j :: {mvalid(A, R, C), tr(A)[j]} mvalid(A, R, C) && 0 <= j && j < C ==> rvalid(tr(A)[j], R)

def sorted(A, R, C) = forall p, q :: {A[p], A[q]} 0 <= p && p < q && q < R ==> !rlt(A[q], A[p], C)
def perm(A, B, R, C) = forall w:Ts :: {cnt(A, C, R, w)} cnt(A, C, R, w) == cnt(B, C, R, w)

func sort.BubbleRow(ctx, a) res
  requires given(ctx) && given(a)
  requires[!C18,!C28] okrunes(a)
  flags opaque:swp opaque:colof opaque:rfd opaque:mfd opaque:rlt opaque:mlt opaque:meq opaque:cnt opaque:tlt opaque:rfdin opaque:rfdeq opaque:mfdin opaque:mfdeq opaque:unit opaque:colcmp opaque:colcmp2 opaque:samecnt opaque:rltcong opaque:swprow opaque:swpcnt opaque:total
  ensures fresh(res) && alike2(res, a)
  ensures[!C18,!C28] live(ctx) ==> sorted(mat(res), rows(a), cols(a))
  ensures[!C18,!C28] perm(mat(res), mat(a), rows(a), cols(a))
  loop[!C18,!C28] ?k < ?k2 && (forall p, c :: {mat(?w)[p][c]} mat(?w)[p][c] == ite(0 <= c && c < ?i, pre(mat(?w))[xch(?k, ?k2, p)][c], pre(mat(?w))[p][c])) && (?i >= cols(?w) ==> swp(pre(mat(?w)), mat(?w), rows(?w), cols(?w), ?k, ?k2))
  loop[!C18,!C28] mvalid(mat(?w), rows(?w), cols(?w))
  loop[!C18,!C28] perm(mat(?w), old(mat(a)), rows(a), cols(a))
  loop[!C18,!C28] live(ctx) ==> (forall p, q :: {mat(?w)[p], mat(?w)[q]} 0 <= p && p < ?k && p < q && q < rows(a) ==> !rlt(mat(?w)[q], mat(?w)[p], cols(a)))
  loop[!C18,!C28] live(ctx) ==> (forall q :: {mat(?w)[q]} ?k < q && q < ?i ==> !rlt(mat(?w)[q], mat(?w)[?k], cols(a)))
func sort.BubbleColumns(ctx, a) res
  requires given(ctx) && given(a)
  requires[!C18,!C28] okrunes(a)
  flags opaque:swp opaque:colof opaque:rfd opaque:mfd opaque:rlt opaque:mlt opaque:meq opaque:cnt opaque:tlt opaque:rfdin opaque:rfdeq opaque:mfdin opaque:mfdeq opaque:unit opaque:colcmp opaque:colcmp2 opaque:samecnt opaque:rltcong opaque:swprow opaque:swpcnt opaque:total
  ensures fresh(res) && alike2(res, a)
  ensures[!C18,!C28] live(ctx) ==> sorted(tr(mat(res)), cols(a), rows(a))
  ensures[!C18,!C28] perm(tr(mat(res)), tr(mat(a)), cols(a), rows(a))
  loop[!C18,!C28] ?k < ?k2 && (forall p, c :: {mat(?w)[c][p]} mat(?w)[c][p] == ite(0 <= c && c < ?i, pre(mat(?w))[c][xch(?k, ?k2, p)], pre(mat(?w))[c][p])) && (?i >= rows(?w) ==> swp(tr(pre(mat(?w))), tr(mat(?w)), cols(?w), rows(?w), ?k, ?k2))
  loop[!C18,!C28] mvalid(mat(?w), rows(?w), cols(?w))
  loop[!C18,!C28] perm(tr(mat(?w)), tr(old(mat(a))), cols(a), rows(a))
  loop[!C18,!C28] live(ctx) ==> (forall p, q :: {tr(mat(?w))[p], tr(mat(?w))[q]} 0 <= p && p < ?k && p < q && q < cols(a) ==> !rlt(tr(mat(?w))[q], tr(mat(?w))[p], rows(a)))
  loop[!C18,!C28] live(ctx) ==> (forall q :: {tr(mat(?w))[q]} ?k < q && q < ?i ==> !rlt(tr(mat(?w))[q], tr(mat(?w))[?k], rows(a)))
