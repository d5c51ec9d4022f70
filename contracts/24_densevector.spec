class DenseVector implements Matrix
layout l values
attr sparse = false
inv self.l >= 0
inv len(self.values) == self.l
view rows := self.l
view cols := 1
view vals := self.l
view mat(r, c) := ite(0 <= r && r < self.l && c == 0, self.values[r], tzero)

extra *
loop forall j :: {?x[j]} 0 <= j && j < ?i ==> ?x[j] == mat(self)[j][0]
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < ?i ==> mat(?o)[j][0] == mat(self)[j][0]
loop forall j :: {self.values[j]} 0 <= j && j < ?i ==> self.values[j] == mat(?o)[j][0]

method ReSize(size) n
  requires size >= 0
  modifies content(self), rows(self)
  ensures n == size && rows(self) == size
  ensures forall i, j :: {mat(self)[i][j]} mat(self)[i][j] == ite(i < size, old(mat(self)[i][j]), tzero)

class DenseVectorNumber implements Matrix
attr sparse = false

class denseVectorIterator implements Enumerate
layout matrix size last c r rOld
private
guard fits(self)
inv self.matrix != 0
inv 0 <= self.r && self.r <= rows(self.matrix)
inv self.size == vals(self.matrix)
inv self.last == self.r
view src := self.matrix
view iver := ver(self.matrix)
view rem := self.size - self.last
view done(i, j) := inr(self.matrix, i, j) && i < self.r

class denseVectorMap implements Map
private
guard fits(self)
owns self.denseVectorIterator
inv self.denseVectorIterator != 0
view src := src(self.denseVectorIterator)
view iver := iver(self.denseVectorIterator)
view rem := rem(self.denseVectorIterator)
view done := done(self.denseVectorIterator)
