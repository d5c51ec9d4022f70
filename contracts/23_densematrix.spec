class DenseMatrix implements Matrix
layout c r data
attr sparse = false
inv self.r >= 0 && self.c >= 0
inv len(self.data) == self.r
inv forall i :: {len(self.data[i])} 0 <= i && i < self.r ==> len(self.data[i]) == self.c
view rows := self.r
view cols := self.c
view vals := imul(self.r, self.c)
view mat(r, c) := ite(0 <= r && r < self.r && 0 <= c && c < self.c, self.data[r][c], tzero)

extra *
loop forall i :: {len(self.data[i])} 0 <= i && i < ?k ==> len(self.data[i]) == self.c
loop forall j :: {?x[j]} 0 <= j && j < ?i ==> ?x[j] == mat(self)[r][j]
loop forall j :: {?x[j]} 0 <= j && j < ?i ==> ?x[j] == mat(?o)[?k][j]
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < ?i ==> mat(?o)[j][0] == mat(self)[r][j]
loop forall j :: {mat(?o)[j][0]} 0 <= j && j < ?i ==> mat(?o)[j][0] == mat(self)[j][c]
loop forall i, j :: {self.data[i][j]} 0 <= i && i < ?k && 0 <= j && j < self.c ==> self.data[i][j] == tzero
loop forall i, j :: {self.data[i][j]} 0 <= i && i < ?k && 0 <= j && j < self.c ==> self.data[i][j] == mat(?o)[i][j]
loop forall j :: {self.data[?k][j]} 0 <= j && j < ?i ==> self.data[?k][j] == mat(?o)[?k][j]

class DenseMatrixNumber implements Matrix
attr sparse = false

class denseMatrixIterator implements Enumerate
layout matrix size last c r cOld rOld
private
guard fits(self)
inv self.matrix != 0
inv 0 <= self.r && self.r <= rows(self.matrix) && 0 <= self.c && self.c <= cols(self.matrix)
inv !sparse(self.matrix)
inv self.r < rows(self.matrix) || self.r == 0 && self.c == 0 && rows(self.matrix) == 0
inv self.size == vals(self.matrix)
inv self.last == imul(self.r, cols(self.matrix)) + self.c
altinv self.c < cols(self.matrix) || self.c == 0
altinv self.r < rows(self.matrix) || self.c == 0
view src := self.matrix
view iver := ver(self.matrix)
view rem := self.size - self.last
view done(i, j) := inr(self.matrix, i, j) && (i < self.r || i == self.r && j < self.c)

class denseMatrixMap implements Map
private
guard fits(self)
owns self.denseMatrixIterator
inv self.denseMatrixIterator != 0
view src := src(self.denseMatrixIterator)
view iver := iver(self.denseMatrixIterator)
view rem := rem(self.denseMatrixIterator)
view done := done(self.denseMatrixIterator)
