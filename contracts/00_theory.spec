// Theory: the values, look-up in a sorted segment, and the number of non-zero elements.

// ---- ghost state, one component per object ----
ghost mat Mat          // the elements: row -> column -> value, zero outside the matrix
ghost rows Int
ghost cols Int
ghost vals Int         // number of stored elements
ghost ver Int          // changes whenever the object does
ghost src Int          // iterator: the matrix it runs over
ghost done BMat        // iterator: the positions already visited
ghost rem Int          // iterator: the number of elements still to come
ghost iver Int         // iterator: the version of the matrix it fits

group content = mat, vals, ver

// ---- values ----
// identified: +0 and -0 of a floating point type, and all its NaNs
fn isnan(T): Bool
axiom[generic] !isnan(tzero)
axiom[generic] !isnan(tone)
fn tadd(T, T): T
axiom[generic] tadd(tzero, tzero) == tzero
axiom[generic] forall a:T, b:T :: {tadd(a, b)} tadd(a, b) == tadd(b, a)
fn tsub(T, T): T
axiom[generic] tsub(tzero, tzero) == tzero
fn tneg(T): T
axiom[generic] tneg(tzero) == tzero
fn tmul(T, T): T
axiom[generic] forall a:T, b:T :: {tmul(a, b)} tmul(a, b) == tmul(b, a)
axiom[ring,fieldx] forall a:T, b:T, c:T, d:T :: {tmul(a, d), tmul(b, d), tmul(c, d)} (a == tadd(b, c) ==> tmul(a, d) == tadd(tmul(b, d), tmul(c, d))) && (a == tsub(b, c) ==> tmul(a, d) == tsub(tmul(b, d), tmul(c, d)))
axiom[ring,fieldx] forall a:T, b:T, c:T, d:T :: {tmul(d, a), tmul(d, b), tmul(d, c)} (a == tadd(b, c) ==> tmul(d, a) == tadd(tmul(d, b), tmul(d, c))) && (a == tsub(b, c) ==> tmul(d, a) == tsub(tmul(d, b), tmul(d, c)))
fn tdiv(T, T): T
// an exact field
axiom[field] forall a:T, b:T :: {tmul(a, b)} tmul(a, b) == tmul(b, a) && (tmul(a, b) == tzero <==> a == tzero || b == tzero) && (a == tone ==> tmul(a, b) == b)
axiom[fieldx] forall a:T, b:T, c:T :: {tmul(tmul(a, b), c)} tmul(tmul(a, b), c) == tmul(tmul(a, c), b)
axiom[field] forall a:T :: {tdiv(tone, a)} a != tzero ==> tmul(a, tdiv(tone, a)) == tone
axiom[field] forall a:T, b:T :: {tdiv(a, b)} b != tzero ==> tdiv(a, b) == tmul(a, tdiv(tone, b))
fn tlt(T, T): Bool
axiom[generic] forall a:T, b:T :: {tlt(a, b)} tlt(a, b) ==> a != b && !isnan(a) && !isnan(b)
axiom[generic] forall a:T, b:T :: {tlt(a, b), tlt(b, a)} tlt(a, b) ==> !tlt(b, a)
axiom[generic] forall a:T, b:T :: {tlt(a, b), tlt(b, a)} !tlt(a, b) && !tlt(b, a) ==> a == b || isnan(a) || isnan(b)
axiom[generic] forall a:T, b:T, c:T :: {tlt(a, b), tlt(b, c)} tlt(a, b) && tlt(b, c) ==> tlt(a, c)
// neither overflow nor underflow: sums and products of what is not negative
def nn(a) = a == tzero || tlt(tzero, a)
axiom[semiring] forall a:T, b:T :: {tmul(a, b)} nn(a) && nn(b) ==> nn(tmul(a, b)) && (tmul(a, b) == tzero <==> a == tzero || b == tzero)
axiom[semiring] forall a:T, b:T :: {tadd(a, b)} nn(a) && nn(b) ==> nn(tadd(a, b)) && (tadd(a, b) == tzero <==> a == tzero && b == tzero)
axiom[semiring] tlt(tzero, tone)
fn tmin(T, T): T
axiom[generic] forall a:T, b:T :: {tmin(a, b)} ismin(tmin(a, b), a, b)
fn tmax(T, T): T
axiom[generic] forall a:T, b:T :: {tmax(a, b)} ismax(tmax(a, b), a, b)
def ismin(v, a, b) = (v == a || v == b) && !tlt(a, v) && !tlt(b, v)
def ismax(v, a, b) = (v == a || v == b) && !tlt(v, a) && !tlt(v, b)
fn tnum(Int): T
fn tone(): T
axiom[generic] tone != tzero

// ---- least index in [lo,hi) that holds c, or hi ----
fn find(Ints, Int, Int, Int): Int
axiom forall a:Ints, lo, hi, c :: {find(a, lo, hi, c)} lo <= hi ==> lo <= find(a, lo, hi, c) && find(a, lo, hi, c) <= hi
axiom forall a:Ints, lo, hi, c :: {find(a, lo, hi, c)} lo <= find(a, lo, hi, c) && find(a, lo, hi, c) < hi ==> a[find(a, lo, hi, c)] == c
axiom forall a:Ints, lo, hi, c, i :: {find(a, lo, hi, c), a[i]} lo <= i && i < hi && a[i] == c ==> find(a, lo, hi, c) <= i

// two segments that hold the same at nearby places
prooflemma near on find :: forall a:Ints, lo, hi, b:Ints, l2, h2, c :: {find(a, lo, hi, c), find(b, l2, h2, c)} (l2 <= find(a, lo, hi, c) && find(a, lo, hi, c) < h2 && b[find(a, lo, hi, c)] == c ==> find(b, l2, h2, c) <= find(a, lo, hi, c)) && (l2 <= find(a, lo, hi, c) + 1 && find(a, lo, hi, c) + 1 < h2 && b[find(a, lo, hi, c) + 1] == c ==> find(b, l2, h2, c) <= find(a, lo, hi, c) + 1)

// ---- strictly increasing on [lo,hi) ----
fn inc(Ints, Int, Int): Bool
axiom forall a:Ints, lo, hi, k, l :: {inc(a, lo, hi), a[k], a[l]} inc(a, lo, hi) && lo <= k && k < l && l < hi ==> a[k] < a[l]
axiom forall a:Ints, lo, hi :: {inc(a, lo, hi)} !inc(a, lo, hi) ==> lo <= incx(a, lo, hi) && incx(a, lo, hi) < incy(a, lo, hi) && incy(a, lo, hi) < hi && a[incx(a, lo, hi)] >= a[incy(a, lo, hi)]
fn incx(Ints, Int, Int): Int
fn incy(Ints, Int, Int): Int

fn imul(Int, Int): Int
arith forall a, b :: {imul(a, b)} a == 0 || b == 0 ==> imul(a, b) == 0
arith forall a, b :: {imul(a, b)} a > 0 && b > 0 ==> imul(a, b) >= a && imul(a, b) >= b

arith forall a, b :: {imul(a, b)} (b == 1 ==> imul(a, b) == a) && (a == 1 ==> imul(a, b) == b)

arith forall a, b, c :: {imul(a, b), imul(c, b)} b >= 0 ==> (c == a + 1 ==> imul(c, b) == imul(a, b) + b) && (a < c ==> imul(a, b) + b <= imul(c, b)) && (a + 1 < c ==> imul(a, b) + b + b <= imul(c, b))

def inr(m, r, c) = 0 <= r && r < rows(m) && 0 <= c && c < cols(m)

// loops that fill one array from another
loop forall q :: {?x[q]} {?x2[q]} 0 <= q && q < ?i ==> ?x[q] == ?x2[q]

// the rows of a matrix that is being put together
loop forall i :: {len(?y[i])} 0 <= i && i < ?k ==> len(?y[i]) == ?p
loop forall i, j :: {?y[i][j]} 0 <= i && i < ?k && 0 <= j && j < ?p ==> ?y[i][j] == tzero
loop forall i, j :: {?y[i][j]} 0 <= i && i < ?k && 0 <= j && j < cols(?o) ==> ?y[i][j] == mat(?o)[i][j]
loop forall j :: {?y[?k][j]} 0 <= j && j < ?i ==> ?y[?k][j] == mat(?o)[?k][j]

// loops over an iterator
loop fits(?t)
decreases rem(?t)
