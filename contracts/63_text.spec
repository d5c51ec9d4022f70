// Text of a rune matrix, and its order. A text is a sequence of code points; strings.Builder.WriteRune appends one.
// Trusted about Go strings of valid UTF-8: no encoding is a prefix of another one, and byte order is code point order.
fn sempty(): Str
fn sapp(Str, T): Str
fn valid(T): Bool            // a valid code point
axiom[generic] forall a:T :: {valid(a)} valid(a) ==> !isnan(a)
axiom[generic] valid(tzero)
fn slt(Str, Str): Bool
fn scount(Str): Int          // the number of code points
axiom scount(sempty) == 0
axiom forall s:Str, a:T :: {scount(sapp(s, a))} scount(sapp(s, a)) == scount(s) + 1
axiom forall s:Str :: {slt(s, s)} !slt(s, s)
axiom forall s:Str, t:Str, a:T, b:T :: {slt(sapp(s, a), sapp(t, b))} scount(s) == scount(t) && valid(a) && valid(b) ==> (slt(sapp(s, a), sapp(t, b)) <==> slt(s, t) || s == t && tlt(a, b))
axiom forall s:Str, t:Str, a:T, b:T :: {sapp(s, a), sapp(t, b)} scount(s) == scount(t) && valid(a) && valid(b) && sapp(s, a) == sapp(t, b) ==> s == t && a == b

// where two rows first differ, or n
fn rfd(Ts, Ts, Int): Int
axiom forall a:Ts, b:Ts, n :: {rfd(a, b, n)} n <= 0 ==> rfd(a, b, n) == 0
axiom forall a:Ts, b:Ts, n, m :: {rfd(a, b, n), rfd(a, b, m)} 0 <= n && m == n + 1 ==> rfd(a, b, m) == ite(rfd(a, b, n) < n, rfd(a, b, n), ite(a[n] == b[n], m, n))
prooflemma rfdin on rfd by n :: forall a:Ts, b:Ts, n :: {rfd(a, b, n)} 0 <= n ==> 0 <= rfd(a, b, n) && rfd(a, b, n) <= n && rfd(a, b, n) == rfd(b, a, n) && (rfd(a, b, n) < n ==> a[rfd(a, b, n)] != b[rfd(a, b, n)])
prooflemma rfdeq on rfd by n :: forall a:Ts, b:Ts, n, j :: {rfd(a, b, n), a[j]} {rfd(a, b, n), b[j]} 0 <= j && j < rfd(a, b, n) ==> a[j] == b[j]

// the same for whole matrices: the first row that differs
fn mfd(Mat, Mat, Int, Int): Int
axiom forall A:Mat, B:Mat, C, n :: {mfd(A, B, C, n)} n <= 0 ==> mfd(A, B, C, n) == 0
axiom forall A:Mat, B:Mat, C, n, m :: {mfd(A, B, C, n), mfd(A, B, C, m)} 0 <= n && m == n + 1 ==> mfd(A, B, C, m) == ite(mfd(A, B, C, n) < n, mfd(A, B, C, n), ite(rfd(A[n], B[n], C) == C, m, n))
prooflemma mfdin on mfd by n :: forall A:Mat, B:Mat, C, n :: {mfd(A, B, C, n)} 0 <= n && 0 <= C ==> 0 <= mfd(A, B, C, n) && mfd(A, B, C, n) <= n && mfd(A, B, C, n) == mfd(B, A, C, n) && (mfd(A, B, C, n) < n ==> rfd(A[mfd(A, B, C, n)], B[mfd(A, B, C, n)], C) < C)
prooflemma mfdeq on mfd by n :: forall A:Mat, B:Mat, C, n, i :: {mfd(A, B, C, n), A[i]} {mfd(A, B, C, n), B[i]} 0 <= C && 0 <= i && i < mfd(A, B, C, n) ==> rfd(A[i], B[i], C) == C

// the text of a row after another text, and of the first rows of a matrix
fn rt(Str, Ts, Int): Str
axiom forall s:Str, a:Ts, n :: {rt(s, a, n)} n <= 0 ==> rt(s, a, n) == s
axiom forall s:Str, a:Ts, n, m :: {rt(s, a, n), rt(s, a, m)} 0 <= n && m == n + 1 ==> rt(s, a, m) == sapp(rt(s, a, n), a[n])
prooflemma rtcount on rt by n :: forall s:Str, a:Ts, n :: {rt(s, a, n)} 0 <= n ==> scount(rt(s, a, n)) == scount(s) + n
fn tx(Mat, Int, Int): Str
axiom forall A:Mat, C, n :: {tx(A, C, n)} n <= 0 ==> tx(A, C, n) == sempty
axiom forall A:Mat, C, n, m :: {tx(A, C, n), tx(A, C, m)} 0 <= n && m == n + 1 ==> tx(A, C, m) == rt(tx(A, C, n), A[n], C)
prooflemma txcount on tx by n :: forall A:Mat, B:Mat, C, n :: {tx(A, C, n), tx(B, C, n)} 0 <= C ==> scount(tx(A, C, n)) == scount(tx(B, C, n))

// all code points of a row, of a matrix are valid
fn rvalidw(Ts, Int): Int
fn rvalid(Ts, Int): Bool
axiom forall a:Ts, C, j :: {rvalid(a, C), a[j]} rvalid(a, C) && 0 <= j && j < C ==> valid(a[j])
axiom forall a:Ts, C :: {rvalid(a, C)} !rvalid(a, C) ==> 0 <= rvalidw(a, C) && rvalidw(a, C) < C && !valid(a[rvalidw(a, C)])
fn mvalidw(Mat, Int, Int): Int
fn mvalid(Mat, Int, Int): Bool
axiom forall A:Mat, R, C, i :: {mvalid(A, R, C), A[i]} mvalid(A, R, C) && 0 <= i && i < R ==> rvalid(A[i], C)
axiom forall A:Mat, R, C :: {mvalid(A, R, C)} !mvalid(A, R, C) ==> 0 <= mvalidw(A, R, C) && mvalidw(A, R, C) < R && !rvalid(A[mvalidw(A, R, C)], C)

// texts of the same length compare by their first difference
prooflemma rtord on rt by n :: forall s:Str, t:Str, a:Ts, b:Ts, C, n :: {rt(s, a, n), rt(t, b, n), rvalid(a, C), rvalid(b, C)} 0 <= n && n <= C && scount(s) == scount(t) && rvalid(a, C) && rvalid(b, C) ==> (rt(s, a, n) == rt(t, b, n) <==> s == t && rfd(a, b, n) == n) && (slt(rt(s, a, n), rt(t, b, n)) <==> slt(s, t) || s == t && rfd(a, b, n) < n && tlt(a[rfd(a, b, n)], b[rfd(a, b, n)]))
def lexat(A, B, C, i) = tlt(A[i][rfd(A[i], B[i], C)], B[i][rfd(A[i], B[i], C)])
prooflemma txord on tx by n :: forall A:Mat, B:Mat, R, C, n :: {tx(A, C, n), tx(B, C, n), mvalid(A, R, C), mvalid(B, R, C)} 0 <= n && n <= R && 0 <= C && mvalid(A, R, C) && mvalid(B, R, C) ==> (tx(A, C, n) == tx(B, C, n) <==> mfd(A, B, C, n) == n) && (slt(tx(A, C, n), tx(B, C, n)) <==> mfd(A, B, C, n) < n && lexat(A, B, C, mfd(A, B, C, n)))

def okrunes(s) = mvalid(mat(s), rows(s), cols(s))
// one matrix comes before another one: at the first position where they differ
fn mlt(Mat, Mat, Int, Int): Bool
axiom forall A:Mat, B:Mat, R, C :: {mlt(A, B, R, C)} mlt(A, B, R, C) <==> mfd(A, B, C, R) < R && lexat(A, B, C, mfd(A, B, C, R))
fn meq(Mat, Mat, Int, Int): Bool
axiom forall A:Mat, B:Mat, R, C :: {meq(A, B, R, C)} meq(A, B, R, C) <==> mfd(A, B, C, R) == R
def before(s, m) = mlt(mat(s), mat(m), rows(s), cols(s))
def equalm(s, m) = meq(mat(s), mat(m), rows(s), cols(s))

func String(ctx, s) res
  requires given(ctx) && given(s)
  ensures[!C18,!C28] live(ctx) ==> res == tx(mat(s), cols(s), rows(s))
  loop[!C18,!C28] ?s == tx(mat(s), cols(s), ?k)
  loop[!C18,!C28] ?s == rt(tx(mat(s), cols(s), ?k), mat(s)[?k], ?k2)

def cmp2(ctx, s, m) = given(ctx) && given(s) && given(m) && alike2(s, m)
func Less(ctx, s, m) b
  requires cmp2(ctx, s, m)
  requires[!C18,!C28] okrunes(s) && okrunes(m)
  ensures[!C18,!C28] live(ctx) ==> (b <==> before(s, m))
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && (i < ?k || i == ?k && j < ?k2) ==> mat(s)[i][j] == mat(m)[i][j])
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && i < ?k ==> mat(s)[i][j] == mat(m)[i][j])
func Greater(ctx, s, m) b
  requires cmp2(ctx, s, m)
  requires[!C18,!C28] okrunes(s) && okrunes(m)
  ensures[!C18,!C28] live(ctx) ==> (b <==> before(m, s))
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && (i < ?k || i == ?k && j < ?k2) ==> mat(s)[i][j] == mat(m)[i][j])
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && i < ?k ==> mat(s)[i][j] == mat(m)[i][j])
func Compare(ctx, s, m) n
  requires cmp2(ctx, s, m)
  requires[!C18,!C28] okrunes(s) && okrunes(m)
  ensures[!C18,!C28] live(ctx) && equalm(s, m) ==> n == 0
  ensures[!C18,!C28] live(ctx) && before(s, m) ==> n == 0 - 1
  ensures[!C18,!C28] live(ctx) && before(m, s) ==> n == 1
  ensures[!C18,!C28] live(ctx) && n == 0 ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) ==> mat(s)[i][j] == mat(m)[i][j])
  ensures[!C18,!C28] live(ctx) && n == 0 - 1 ==> before(s, m)
  ensures[!C18,!C28] live(ctx) && n == 1 ==> before(m, s)
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && (i < ?k || i == ?k && j < ?k2) ==> mat(s)[i][j] == mat(m)[i][j])
  loop[!C18,!C28] live(ctx) ==> (forall i, j :: {mat(s)[i][j]} {mat(m)[i][j]} inr(s, i, j) && i < ?k ==> mat(s)[i][j] == mat(m)[i][j])
