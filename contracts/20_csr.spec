class CSRMatrix implements Matrix
layout r c values cols rowStart
attr sparse = true
inv self.r >= 0 && self.c >= 0
inv len(self.rowStart) == self.r + 1
inv len(self.values) == len(self.cols)
inv self.rowStart[0] == 0
inv self.rowStart[self.r] == len(self.values)
inv forall i, j :: {self.rowStart[i], self.rowStart[j]} 0 <= i && i < j && j <= self.r ==> self.rowStart[i] <= self.rowStart[j] && (j == i + 1 ==> inc(content(self.cols), self.rowStart[i], self.rowStart[j]))
inv forall k :: {self.cols[k]} 0 <= k && k < len(self.values) ==> 0 <= self.cols[k] && self.cols[k] < self.c
inv forall k :: {self.values[k]} 0 <= k && k < len(self.values) ==> self.values[k] != tzero
view rows := self.r
view cols := self.c
view vals := len(self.values)
def csrfind(s, r, c) = find(content(s.cols), s.rowStart[r], s.rowStart[r+1], c)
view mat(r, c) := ite(0 <= r && r < self.r && 0 <= c && c < self.c && csrfind(self, r, c) < self.rowStart[r+1], self.values[csrfind(self, r, c)], tzero)


extra wf
assert[C02,C09,C22,C23,C24] iscsr(mat(self), content(self.cols), content(self.rowStart), self.r, self.c)

extra *
loop forall j :: {?x[j]} 0 <= j && j < cols(self) ==> ?x[j] == ite(csrfind(self, r, j) < ?i, mat(self)[r][j], tzero)
loop forall j :: {?x[j]} 0 <= j && j < cols(self) ==> ?x[j] == ite(csrfind(self, r, j) < self.rowStart[r] + ?i, mat(self)[r][j], tzero)
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < cols(self) ==> mat(?o)[j][0] == ite(csrfind(self, r, j) < ?i, mat(self)[r][j], tzero)
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < cols(self) ==> mat(?o)[j][0] == ite(csrfind(self, r, j) < self.rowStart[r] + ?i, mat(self)[r][j], tzero)
loop self.rowStart[r] <= ?i && ?i <= self.rowStart[r+1]
decreases self.rowStart[r+1] - ?i
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < rows(self) ==> mat(?o)[j][0] == ite(j < ?i, mat(self)[j][c], tzero)
loop forall q :: {self.cols[q]} pre(?i) <= q && q < ?i ==> self.cols[q] < ?k
loop forall q :: {self.cols[q]} ?i <= q && q < pre(?i) ==> self.cols[q] > ?k
loop forall q :: {self.cols[q]} ?i <= q && q < pre(?i) ==> self.cols[q] >= ?k
loop forall q :: {self.rowStart[q]} self.rowStart[q] == pre(self.rowStart[q]) + ite(pre(?i) <= q && q < ?i, 1, 0)
loop forall q :: {self.rowStart[q]} self.rowStart[q] == pre(self.rowStart[q]) - ite(pre(?i) <= q && q < ?i, 1, 0)

def csrAt(s, p, r, c) = s.rowStart[r] <= p && p <= s.rowStart[r+1] && (forall k :: {s.cols[k]} s.rowStart[r] <= k && k < p ==> s.cols[k] < c)
def csrAfter(s, p, r, c) = forall k :: {s.cols[k]} p <= k && k < s.rowStart[r+1] ==> s.cols[k] > c

method columnIndex(r, c) p, e
  requires 0 <= r && r < self.r
  ensures csrAt(self, p, r, c)
  ensures p <= e && e <= self.rowStart[r+1]
  ensures (p < e && self.cols[p] == c) || csrAfter(self, p, r, c)

method insert(pointer, r, c, value) n
  requires inr(self, r, c)
  requires csrAt(self, pointer, r, c) && csrAfter(self, pointer, r, c)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, value)
  assert value != tzero ==> self.cols[pointer] == c && self.values[pointer] == value

method remove(pointer, r)
  requires 0 <= r && r < self.r && self.rowStart[r] <= pointer && pointer < self.rowStart[r+1]
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, old(self.cols[pointer]), tzero)
  ensures len(self.values) == old(len(self.values)) - 1
  ensures forall q :: {self.rowStart[q]} 0 <= q && q <= self.r ==> self.rowStart[q] == old(self.rowStart[q]) - ite(q > r, 1, 0)
  ensures forall k :: {self.cols[k]} 0 <= k && k < len(self.values) ==> self.cols[k] == ite(k < pointer, old(self.cols[k]), old(self.cols[k + 1]))

method UpdateReturnPointer(r, c, f) p, s
  panics when !inr(self, r, c)
  calls f(mat(self)[r][c]) -> y
  modifies content(self)
  assert mat(self)[r][c] == y
  ensures mat(self) == upd(old(mat(self)), r, c, y)
method SetReturnPointer(r, c, value) p, s
  panics when !inr(self, r, c)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), r, c, value)

class cSRMatrixIterator implements Enumerate
layout matrix size last c r cIndex index pointerStart pointerEnd
private
guard fits(self)
inv self.matrix != 0
inv -1 <= self.r && self.r < rows(self.matrix)
inv 0 <= self.pointerStart && self.pointerStart <= self.pointerEnd && self.pointerEnd <= len(self.matrix.values)
inv self.r == -1 ==> self.pointerEnd == 0
inv self.r >= 0 ==> self.pointerEnd == self.matrix.rowStart[self.r + 1] && self.matrix.rowStart[self.r] <= self.pointerStart
inv self.size - self.last == len(self.matrix.values) - self.pointerStart
inv self.r >= 0 ==> (forall k :: {self.matrix.cols[k]} self.matrix.rowStart[self.r] <= k && k < self.pointerStart ==> self.matrix.cols[k] <= self.c)
inv self.r >= 0 ==> (forall k :: {self.matrix.cols[k]} self.pointerStart <= k && k < self.pointerEnd ==> self.matrix.cols[k] > self.c)
inv self.pointerStart < self.pointerEnd ==> self.cIndex <= self.matrix.cols[self.pointerStart]
view src := self.matrix
view iver := ver(self.matrix)
view rem := self.size - self.last
extra *
loop self.pointerStart == pre(self.pointerStart)
loop self.last == pre(self.last)
loop self.r >= pre(self.r)
loop self.c == pre(self.c)
decreases self.matrix.r - self.r
decreases self.matrix.cols[self.pointerStart] - self.cIndex
view done(i, j) := inr(self.matrix, i, j) && (i < self.r || i == self.r && j <= self.c)

class cSRMatrixMap implements Map
private
guard fits(self)
owns self.cSRMatrixIterator
inv self.cSRMatrixIterator != 0
view src := src(self.cSRMatrixIterator)
view iver := iver(self.cSRMatrixIterator)
view rem := rem(self.cSRMatrixIterator)
view done := done(self.cSRMatrixIterator)
