// Reductions: folds over the unprotected elements in the order of enumeration.

// a folding process: what it has so far; told to end; result taken. A channel: closed.
aux acc T
aux fired Bool
aux taken Bool
aux closed Bool

// the fold of A's first n elements in the order in which object o in state w is enumerated,
// without those M protects
fn rfold(Int, T, Mat, Mat, Int, Int, Int): T
axiom forall f, z:T, A:Mat, M:Mat, o, w, n :: {rfold(f, z, A, M, o, w, n)} n <= 0 ==> rfold(f, z, A, M, o, w, n) == z
axiom forall f, z:T, A:Mat, M:Mat, o, w, n, m :: {rfold(f, z, A, M, o, w, n), rfold(f, z, A, M, o, w, m)} 0 <= n && m == n + 1 ==> rfold(f, z, A, M, o, w, m) == ite(M[eor(o, w, n)][eoc(o, w, n)] != tzero, rfold(f, z, A, M, o, w, n), fap_TT_T(f, rfold(f, z, A, M, o, w, n), A[eor(o, w, n)][eoc(o, w, n)]))

def estop(A, R, C, sp, i, j) = 0 <= i && i < R && 0 <= j && j < C && (A[i][j] != tzero || !sp)
// the first n positions in the order are stops, each once
fn enumk(Mat, Int, Int, Bool, Int, Int, Int): Int
fn enumto(Mat, Int, Int, Bool, Int, Int, Int): Bool
def estep(A, R, C, sp, o, w, k) = estop(A, R, C, sp, eor(o, w, k), eoc(o, w, k)) && eix(o, w, eor(o, w, k), eoc(o, w, k)) == k
axiom forall A:Mat, R, C, sp:Bool, o, w, n, k :: {enumto(A, R, C, sp, o, w, n), eor(o, w, k)} enumto(A, R, C, sp, o, w, n) && 0 <= k && k < n ==> estep(A, R, C, sp, o, w, k)
axiom forall A:Mat, R, C, sp:Bool, o, w, n :: {enumto(A, R, C, sp, o, w, n)} !enumto(A, R, C, sp, o, w, n) ==> 0 <= enumk(A, R, C, sp, o, w, n) && enumk(A, R, C, sp, o, w, n) < n && !estep(A, R, C, sp, o, w, enumk(A, R, C, sp, o, w, n))
prooflemma enumnext on enumto :: forall A:Mat, R, C, sp:Bool, o, w, n, m :: {enumto(A, R, C, sp, o, w, n), enumto(A, R, C, sp, o, w, m)} m == n + 1 && enumto(A, R, C, sp, o, w, n) && estep(A, R, C, sp, o, w, n) ==> enumto(A, R, C, sp, o, w, m)
// all stops are among them
fn enumi(Mat, Int, Int, Bool, Int, Int, Int): Int
fn enumj(Mat, Int, Int, Bool, Int, Int, Int): Int
fn enumall(Mat, Int, Int, Bool, Int, Int, Int): Bool
def eback(o, w, n, i, j) = 0 <= eix(o, w, i, j) && eix(o, w, i, j) < n && eor(o, w, eix(o, w, i, j)) == i && eoc(o, w, eix(o, w, i, j)) == j
axiom forall A:Mat, R, C, sp:Bool, o, w, n, i, j :: {enumall(A, R, C, sp, o, w, n), A[i][j]} enumall(A, R, C, sp, o, w, n) && estop(A, R, C, sp, i, j) ==> eback(o, w, n, i, j)
axiom forall A:Mat, R, C, sp:Bool, o, w, n :: {enumall(A, R, C, sp, o, w, n)} !enumall(A, R, C, sp, o, w, n) ==> estop(A, R, C, sp, enumi(A, R, C, sp, o, w, n), enumj(A, R, C, sp, o, w, n)) && !eback(o, w, n, enumi(A, R, C, sp, o, w, n), enumj(A, R, C, sp, o, w, n))
def enumok(A, R, C, sp, o, w, n) = enumto(A, R, C, sp, o, w, n) && enumall(A, R, C, sp, o, w, n)

def pm(mask) = ite(isnil(mask), emptymat(), mat(mask))
def redof(v, s, f, z, mask) = v == rfold(f, z, mat(s), pm(mask), s, ver(s), vals(s)) && enumok(mat(s), rows(s), cols(s), sparse(s), s, ver(s), vals(s))

func ReduceMatrixToScalarWithMonoID(ctx, s, monoID, mask) v
  requires given(ctx) && given(s) && given(monoID) && given(mop(monoID))
  panics when bad(mask, s)
  ensures[C17] live(ctx) ==> redof(v, s, bfn(mop(monoID)), mzero(monoID), mask)
  loop rem(?t) <= vals(s)
  loop acc(?c) == rfold(bfn(mop(monoID)), mzero(monoID), mat(s), pm(mask), s, ver(s), vals(s) - rem(?t))
  loop enumto(mat(s), rows(s), cols(s), sparse(s), s, ver(s), vals(s) - rem(?t))
  loop forall i, j :: {done(?t)[i][j]} {eix(s, ver(s), i, j)} done(?t)[i][j] && stop(s, i, j) ==> eback(s, ver(s), vals(s) - rem(?t), i, j)

func ReduceVectorToScalarWithMonoID(ctx, s, monoID, mask) v
  requires given(ctx) && given(s) && given(monoID) && given(mop(monoID))
  panics when bad(mask, s)
  ensures[C17] live(ctx) ==> redof(v, s, bfn(mop(monoID)), mzero(monoID), mask)

// the sum of them
fn rsum(Mat, Mat, Int, Int, Int): T
axiom forall A:Mat, M:Mat, o, w, n :: {rsum(A, M, o, w, n)} n <= 0 ==> rsum(A, M, o, w, n) == tzero
axiom forall A:Mat, M:Mat, o, w, n, m :: {rsum(A, M, o, w, n), rsum(A, M, o, w, m)} 0 <= n && m == n + 1 ==> rsum(A, M, o, w, m) == ite(M[eor(o, w, n)][eoc(o, w, n)] != tzero, rsum(A, M, o, w, n), tadd(rsum(A, M, o, w, n), A[eor(o, w, n)][eoc(o, w, n)]))
// operations
fn adda(Int): T
fn addb(Int): T
fn addop(Int): Bool
axiom forall f, a:T, b:T :: {addop(f), fap_TT_T(f, a, b)} addop(f) ==> fap_TT_T(f, a, b) == tadd(a, b)
axiom forall f :: {addop(f)} !addop(f) ==> fap_TT_T(f, adda(f), addb(f)) != tadd(adda(f), addb(f))
fn maxa(Int): T
fn maxb(Int): T
fn maxop(Int): Bool
axiom forall f, a:T, b:T :: {maxop(f), fap_TT_T(f, a, b)} maxop(f) ==> ismax(fap_TT_T(f, a, b), a, b)
axiom forall f :: {maxop(f)} !maxop(f) ==> !ismax(fap_TT_T(f, maxa(f), maxb(f)), maxa(f), maxb(f))

prooflemma foldadd on rsum by n :: forall f, z:T, A:Mat, M:Mat, o, w, n :: {rfold(f, z, A, M, o, w, n), rsum(A, M, o, w, n)} addop(f) && z == tzero ==> rfold(f, z, A, M, o, w, n) == rsum(A, M, o, w, n)

// column c of A, of R elements: none is a NaN; one of them is v
fn nonani(Mat, Int, Int): Int
fn nonan(Mat, Int, Int): Bool
axiom forall A:Mat, c, R, i :: {nonan(A, c, R), A[i]} nonan(A, c, R) && 0 <= i && i < R ==> !isnan(A[i][c])
axiom forall A:Mat, c, R :: {nonan(A, c, R)} !nonan(A, c, R) ==> 0 <= nonani(A, c, R) && nonani(A, c, R) < R && isnan(A[nonani(A, c, R)][c])
fn occi(Mat, Int, Int, T): Int
fn occurs(Mat, Int, Int, T): Bool
axiom forall A:Mat, c, R, v:T, i :: {occurs(A, c, R, v), A[i]} 0 <= i && i < R && A[i][c] == v ==> occurs(A, c, R, v)
axiom forall A:Mat, c, R, v:T :: {occurs(A, c, R, v)} occurs(A, c, R, v) ==> 0 <= occi(A, c, R, v) && occi(A, c, R, v) < R && A[occi(A, c, R, v)][c] == v

prooflemma below on maxop :: forall a:T, b:T, c:T :: {tlt(b, a), tlt(c, a)} !tlt(b, a) && tlt(c, a) && !isnan(b) ==> tlt(c, b)
prooflemma maxpos on maxop by n :: forall f, z:T, B:Mat, M:Mat, o, w, n, N, R, sp:Bool :: {rfold(f, z, B, M, o, w, n), maxop(f), enumto(B, R, 1, sp, o, w, N)} maxop(f) && z == tzero && M == emptymat() && enumto(B, R, 1, sp, o, w, N) && n <= N && nonan(B, 0, R) ==> !isnan(rfold(f, z, B, M, o, w, n)) && (rfold(f, z, B, M, o, w, n) == tzero || tlt(tzero, rfold(f, z, B, M, o, w, n)))
prooflemma maxocc on maxop by n :: forall f, z:T, B:Mat, M:Mat, o, w, n, N, R, sp:Bool :: {rfold(f, z, B, M, o, w, n), maxop(f), enumto(B, R, 1, sp, o, w, N)} maxop(f) && z == tzero && M == emptymat() && enumto(B, R, 1, sp, o, w, N) && n <= N && nonan(B, 0, R) ==> rfold(f, z, B, M, o, w, n) == tzero || occurs(B, 0, R, rfold(f, z, B, M, o, w, n))
prooflemma[generic] maxall on maxop by n :: forall f, z:T, B:Mat, M:Mat, o, w, n, N, R, sp:Bool, k :: {rfold(f, z, B, M, o, w, n), maxop(f), enumto(B, R, 1, sp, o, w, N), eor(o, w, k)} maxop(f) && z == tzero && M == emptymat() && enumto(B, R, 1, sp, o, w, N) && n <= N && nonan(B, 0, R) && 0 <= k && k < n ==> !tlt(rfold(f, z, B, M, o, w, n), B[eor(o, w, k)][eoc(o, w, k)])

// B's only column is column c of A
fn coli(Mat, Mat, Int, Int): Int
fn colis(Mat, Mat, Int, Int): Bool
axiom forall B:Mat, A:Mat, c, R, i :: {colis(B, A, c, R), A[i][c]} {colis(B, A, c, R), B[i][0]} colis(B, A, c, R) && 0 <= i && i < R ==> B[i][0] == A[i][c]
axiom forall B:Mat, A:Mat, c, R :: {colis(B, A, c, R)} !colis(B, A, c, R) ==> 0 <= coli(B, A, c, R) && coli(B, A, c, R) < R && B[coli(B, A, c, R)][0] != A[coli(B, A, c, R)][c]
// v is the fold of column c of A, a vector of R elements, in some order of its stops
fn crB(Int, T, Mat, Mat, Int, Int, Bool, T): Mat
fn cro(Int, T, Mat, Mat, Int, Int, Bool, T): Int
fn crw(Int, T, Mat, Mat, Int, Int, Bool, T): Int
fn crn(Int, T, Mat, Mat, Int, Int, Bool, T): Int
fn colred(Int, T, Mat, Mat, Int, Int, Bool, T): Bool
def colredby(f, z, A, M, c, R, sp, v, B, o, w, n) = v == rfold(f, z, B, M, o, w, n) && enumok(B, R, 1, sp, o, w, n) && colis(B, A, c, R)
axiom forall f, z:T, A:Mat, M:Mat, c, R, sp:Bool, v:T, B:Mat, o, w, n :: {colred(f, z, A, M, c, R, sp, v), rfold(f, z, B, M, o, w, n)} colredby(f, z, A, M, c, R, sp, v, B, o, w, n) ==> colred(f, z, A, M, c, R, sp, v)
axiom forall f, z:T, A:Mat, M:Mat, c, R, sp:Bool, v:T :: {colred(f, z, A, M, c, R, sp, v)} colred(f, z, A, M, c, R, sp, v) ==> colredby(f, z, A, M, c, R, sp, v, crB(f, z, A, M, c, R, sp, v), cro(f, z, A, M, c, R, sp, v), crw(f, z, A, M, c, R, sp, v), crn(f, z, A, M, c, R, sp, v))

func ReduceMatrixToScalar(ctx, s, mask) v
  requires given(ctx) && given(s)
  panics when bad(mask, s)
  ensures[C17] live(ctx) ==> v == rsum(mat(s), pm(mask), s, ver(s), vals(s)) && enumok(mat(s), rows(s), cols(s), sparse(s), s, ver(s), vals(s))
func ReduceVectorToScalar(ctx, s, mask) v
  requires given(ctx) && given(s)
  panics when bad(mask, s)
  ensures[C17] live(ctx) ==> v == rsum(mat(s), pm(mask), s, ver(s), vals(s)) && enumok(mat(s), rows(s), cols(s), sparse(s), s, ver(s), vals(s))

func ReduceMatrixToVectorWithMonoID(ctx, s, monoID, mask) res
  requires given(ctx) && given(s) && given(monoID) && given(mop(monoID))
  panics when !isnil(mask) && cols(s) > 0 && (rows(mask) != rows(s) || cols(mask) != 1)
  ensures fresh(res) && shape(res, cols(s), 1) && !sparse(res)
  ensures[C17] live(ctx) ==> (forall c :: {mat(res)[c][0]} 0 <= c && c < cols(s) ==> colred(bfn(mop(monoID)), mzero(monoID), mat(s), pm(mask), c, rows(s), sparse(s), mat(res)[c][0]))
  loop ?k > 0 ==> isnil(mask) || rows(mask) == rows(s) && cols(mask) == 1
  loop forall c :: {mat(?w)[c][0]} 0 <= c && c < ?k && live(ctx) ==> colred(bfn(mop(monoID)), mzero(monoID), mat(s), pm(mask), c, rows(s), sparse(s), mat(?w)[c][0])
  loop forall c :: {mat(?w)[c][0]} ?k < c && c < cols(s) && live(ctx) ==> colred(bfn(mop(monoID)), mzero(monoID), mat(s), pm(mask), c, rows(s), sparse(s), mat(?w)[c][0])
  loop ?k < cols(s) - 1 ==> isnil(mask) || rows(mask) == rows(s) && cols(mask) == 1

def colmax(v, A, c, R) = nonan(A, c, R) ==> !isnan(v) && !tlt(v, tzero) && (v == tzero || occurs(A, c, R, v)) && (forall i :: {A[i][c]} 0 <= i && i < R ==> !tlt(v, A[i][c]))
func ReduceMatrixToVector(ctx, s) res
  requires given(ctx) && given(s)
  ensures fresh(res) && shape(res, cols(s), 1) && !sparse(res)
  ensures[C17] live(ctx) ==> (forall c :: {mat(res)[c][0]} 0 <= c && c < cols(s) ==> colmax(mat(res)[c][0], mat(s), c, rows(s)))
