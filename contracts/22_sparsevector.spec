class SparseVector implements Matrix
layout l values indices
attr sparse = true
inv self.l >= 0
inv len(self.values) == len(self.indices)
inv inc(content(self.indices), 0, len(self.values))
inv forall k :: {self.indices[k]} 0 <= k && k < len(self.values) ==> 0 <= self.indices[k] && self.indices[k] < self.l
inv forall k :: {self.values[k]} 0 <= k && k < len(self.values) ==> self.values[k] != tzero
view rows := self.l
view cols := 1
view vals := len(self.values)
def vecfind(s, i) = find(content(s.indices), 0, len(s.values), i)
view mat(r, c) := ite(0 <= r && r < self.l && c == 0 && vecfind(self, r) < len(self.values), self.values[vecfind(self, r)], tzero)

extra wf
assert[C02,C09,C22,C23,C24] iscol(mat(self), 0, content(self.indices), 0, len(self.values), self.l)

extra *
loop forall q :: {self.indices[q]} pre(?i) <= q && q < ?i ==> self.indices[q] < ?k
loop forall q :: {self.indices[q]} 0 <= q && q < ?i ==> self.indices[q] != ?k
loop forall q :: {self.indices[q]} ?i <= q && q < pre(?i) ==> self.indices[q] > ?k
loop forall q :: {self.indices[q]} ?i <= q && q < pre(?i) ==> self.indices[q] >= ?k

method index(i) p, n, e
  ensures n == len(self.values) && 0 <= p && p <= n
  ensures forall k :: {self.indices[k]} 0 <= k && k < p ==> self.indices[k] < i
  ensures (p < n && self.indices[p] == i) || (forall k :: {self.indices[k]} p <= k && k < n ==> self.indices[k] > i)

method insert(pointer, i, value)
  requires 0 <= i && i < self.l
  requires 0 <= pointer && pointer <= len(self.values)
  requires forall k :: {self.indices[k]} 0 <= k && k < pointer ==> self.indices[k] < i
  requires forall k :: {self.indices[k]} pointer <= k && k < len(self.values) ==> self.indices[k] > i
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), i, 0, value)

method remove(pointer)
  requires 0 <= pointer && pointer < len(self.values)
  modifies content(self)
  ensures mat(self) == upd(old(mat(self)), old(self.indices[pointer]), 0, tzero)
  ensures len(self.values) == old(len(self.values)) - 1
  ensures forall k :: {self.indices[k]} 0 <= k && k < len(self.values) ==> self.indices[k] == ite(k < pointer, old(self.indices[k]), old(self.indices[k + 1]))

class sparseVectorIterator implements Enumerate
layout matrix size last old
private
guard fits(self)
inv self.matrix != 0
inv 0 <= self.last && self.last <= self.size && self.size == len(self.matrix.values)
inv forall k :: {self.matrix.indices[k]} 0 <= k && k < self.last ==> done(self)[self.matrix.indices[k]][0]
inv forall k :: {self.matrix.indices[k]} self.last <= k && k < self.size ==> !done(self)[self.matrix.indices[k]][0]
view src := self.matrix
view iver := ver(self.matrix)
view rem := self.size - self.last
extra Next
choose done(self) := upd(old(done(self)), r, c, true)

class sparseVectorMap implements Map
private
guard fits(self)
owns self.sparseVectorIterator
inv self.sparseVectorIterator != 0
view src := src(self.sparseVectorIterator)
view iver := iver(self.sparseVectorIterator)
view rem := rem(self.sparseVectorIterator)
view done := done(self.sparseVectorIterator)
extra Map
choose done(self.sparseVectorIterator) := upd(old(done(self.sparseVectorIterator)), r, c, true)
