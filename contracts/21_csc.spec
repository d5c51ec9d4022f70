class CSCMatrix implements Matrix
layout r c values rows colStart
attr sparse = true
inv self.r >= 0 && self.c >= 0
inv len(self.colStart) == self.c + 1
inv len(self.values) == len(self.rows)
inv self.colStart[0] == 0
inv self.colStart[self.c] == len(self.values)
inv forall i, j :: {self.colStart[i], self.colStart[j]} 0 <= i && i < j && j <= self.c ==> self.colStart[i] <= self.colStart[j] && (j == i + 1 ==> inc(content(self.rows), self.colStart[i], self.colStart[j]))
inv forall k :: {self.rows[k]} 0 <= k && k < len(self.values) ==> 0 <= self.rows[k] && self.rows[k] < self.r
inv forall k :: {self.values[k]} 0 <= k && k < len(self.values) ==> self.values[k] != tzero
view rows := self.r
view cols := self.c
view vals := len(self.values)
def cscfind(s, r, c) = find(content(s.rows), s.colStart[c], s.colStart[c+1], r)
view mat(r, c) := ite(0 <= r && r < self.r && 0 <= c && c < self.c && cscfind(self, r, c) < self.colStart[c+1], self.values[cscfind(self, r, c)], tzero)

extra wf
assert[C02,C09,C22,C23,C24] iscsc(mat(self), content(self.rows), content(self.colStart), self.r, self.c)

extra *
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < rows(self) ==> mat(?o)[j][0] == ite(cscfind(self, j, c) < ?i, mat(self)[j][c], tzero)
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < rows(self) ==> mat(?o)[j][0] == ite(cscfind(self, j, c) < self.colStart[c] + ?i, mat(self)[j][c], tzero)
loop self.colStart[c] <= ?i && ?i <= self.colStart[c+1]
decreases self.colStart[c+1] - ?i
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < cols(self) ==> mat(?o)[j][0] == ite(j < ?i, mat(self)[r][j], tzero)
loop forall j :: {?x[j]} 0 <= j && j < cols(self) ==> ?x[j] == ite(j < ?i, mat(self)[r][j], tzero)
loop forall q :: {self.rows[q]} pre(?i) <= q && q < ?i ==> self.rows[q] < ?k
loop forall q :: {self.rows[q]} ?i <= q && q < pre(?i) ==> self.rows[q] > ?k
loop forall q :: {self.rows[q]} ?i <= q && q < pre(?i) ==> self.rows[q] >= ?k
loop forall q :: {self.colStart[q]} self.colStart[q] == pre(self.colStart[q]) + ite(pre(?i) <= q && q < ?i, 1, 0)
loop forall q :: {self.colStart[q]} self.colStart[q] == pre(self.colStart[q]) - ite(pre(?i) <= q && q < ?i, 1, 0)

def cscAt(s, p, r, c) = s.colStart[c] <= p && p <= s.colStart[c+1] && (forall k :: {s.rows[k]} s.colStart[c] <= k && k < p ==> s.rows[k] < r)
def cscAfter(s, p, r, c) = forall k :: {s.rows[k]} p <= k && k < s.colStart[c+1] ==> s.rows[k] > r

method rowIndex(r, c) p, e
  requires 0 <= c && c < self.c
  ensures cscAt(self, p, r, c)
  ensures p <= e && e <= self.colStart[c+1]
  ensures (p < e && self.rows[p] == r) || cscAfter(self, p, r, c)

method insert(pointer, r, c, value) n
  requires inr(self, r, c)
  requires cscAt(self, pointer, r, c) && cscAfter(self, pointer, r, c)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, value)
  assert value != tzero ==> self.rows[pointer] == r && self.values[pointer] == value

method remove(pointer, c)
  requires 0 <= c && c < self.c && self.colStart[c] <= pointer && pointer < self.colStart[c+1]
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), old(self.rows[pointer]), c, tzero)
  ensures len(self.values) == old(len(self.values)) - 1
  ensures forall q :: {self.colStart[q]} 0 <= q && q <= self.c ==> self.colStart[q] == old(self.colStart[q]) - ite(q > c, 1, 0)
  ensures forall k :: {self.rows[k]} 0 <= k && k < len(self.values) ==> self.rows[k] == ite(k < pointer, old(self.rows[k]), old(self.rows[k + 1]))

method UpdateReturnPointer(r, c, f) p, s
  panics when !inr(self, r, c)
  calls f(mat(self)[r][c]) -> y
  modifies content(self)
  assert mat(self)[r][c] == y
  ensures mat(self) == upd(old(mat(self)), r, c, y)
method SetReturnPointer(r, c, value) p, s
  panics when !inr(self, r, c)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, value)

class cSCMatrixIterator implements Enumerate
layout matrix size last c r rIndex index pointerStart pointerEnd
private
guard fits(self)
inv self.matrix != 0
inv -1 <= self.c && self.c < cols(self.matrix)
inv 0 <= self.pointerStart && self.pointerStart <= self.pointerEnd && self.pointerEnd <= len(self.matrix.values)
inv self.c == -1 ==> self.pointerEnd == 0
inv self.c >= 0 ==> self.pointerEnd == self.matrix.colStart[self.c + 1] && self.matrix.colStart[self.c] <= self.pointerStart
inv self.size - self.last == len(self.matrix.values) - self.pointerStart
inv self.c >= 0 ==> (forall k :: {self.matrix.rows[k]} self.matrix.colStart[self.c] <= k && k < self.pointerStart ==> self.matrix.rows[k] <= self.r)
inv self.c >= 0 ==> (forall k :: {self.matrix.rows[k]} self.pointerStart <= k && k < self.pointerEnd ==> self.matrix.rows[k] > self.r)
inv self.pointerStart < self.pointerEnd ==> self.rIndex <= self.matrix.rows[self.pointerStart]
view src := self.matrix
view iver := ver(self.matrix)
view rem := self.size - self.last
extra *
loop self.pointerStart == pre(self.pointerStart)
loop self.last == pre(self.last)
loop self.c >= pre(self.c)
loop self.r == pre(self.r)
decreases self.matrix.c - self.c
decreases self.matrix.rows[self.pointerStart] - self.rIndex
view done(i, j) := inr(self.matrix, i, j) && (j < self.c || j == self.c && i <= self.r)

class cSCMatrixMap implements Map
private
guard fits(self)
owns self.cSCMatrixIterator
inv self.cSCMatrixIterator != 0
view src := src(self.cSCMatrixIterator)
view iver := iver(self.cSCMatrixIterator)
view rem := rem(self.cSCMatrixIterator)
view done := done(self.cSCMatrixIterator)
