// New matrices and vectors. Sizes are not negative, arrays are rectangular and not empty.
def zeros(m, r, c) = rows(m) == r && cols(m) == c && (forall i, j :: {mat(m)[i][j]} mat(m)[i][j] == tzero)

func NewCSRMatrix(r, c) res
  requires r >= 0 && c >= 0
  ensures fresh(res) && zeros(res, r, c) && isa(res, CSRMatrix)
func NewCSCMatrix(r, c) res
  requires r >= 0 && c >= 0
  ensures fresh(res) && zeros(res, r, c) && isa(res, CSCMatrix)
func NewSparseVector(l) res
  requires l >= 0
  ensures fresh(res) && zeros(res, l, 1) && isa(res, SparseVector)
func NewDenseMatrix(r, c) res
  requires r >= 0 && c >= 0
  ensures fresh(res) && zeros(res, r, c) && isa(res, DenseMatrix)
func NewDenseMatrixN(r, c) res
  requires r >= 0 && c >= 0
  ensures fresh(res) && zeros(res, r, c) && isa(res, DenseMatrixNumber)
func NewDenseVector(l) res
  requires l >= 0
  ensures fresh(res) && zeros(res, l, 1) && isa(res, DenseVector)
func NewDenseVectorN(l) res
  requires l >= 0
  ensures fresh(res) && zeros(res, l, 1) && isa(res, DenseVectorNumber)

def rectangular(a) = len(a) > 0 && (forall i :: {len(a[i])} 0 <= i && i < len(a) ==> len(a[i]) == len(a[0]))
def holds(m, a) = rows(m) == len(a) && cols(m) == len(a[0]) && (forall i, j :: {mat(m)[i][j]} 0 <= i && i < len(a) && 0 <= j && j < len(a[0]) ==> mat(m)[i][j] == a[i][j])
def holdsvec(m, a) = rows(m) == len(a) && cols(m) == 1 && (forall i :: {mat(m)[i][0]} 0 <= i && i < len(a) ==> mat(m)[i][0] == a[i])

func NewCSRMatrixFromArray(data) res
  requires rectangular(data)
  ensures fresh(res) && holds(res, data) && isa(res, CSRMatrix)
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && (i < ?k || i == ?k && j < ?k2) ==> mat(?o)[i][j] == data[i][j]
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && i < ?k ==> mat(?o)[i][j] == data[i][j]
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && (i > ?k || i == ?k && j >= ?k2) ==> mat(?o)[i][j] == tzero
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && i >= ?k ==> mat(?o)[i][j] == tzero
func NewCSCMatrixFromArray(data) res
  requires rectangular(data)
  ensures fresh(res) && holds(res, data) && isa(res, CSCMatrix)
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && (i < ?k || i == ?k && j < ?k2) ==> mat(?o)[i][j] == data[i][j]
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && i < ?k ==> mat(?o)[i][j] == data[i][j]
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && (i > ?k || i == ?k && j >= ?k2) ==> mat(?o)[i][j] == tzero
  loop forall i, j :: {mat(?o)[i][j]} 0 <= i && i < len(data) && 0 <= j && j < len(data[0]) && i >= ?k ==> mat(?o)[i][j] == tzero
func NewSparseVectorFromArray(data) res
  ensures fresh(res) && holdsvec(res, data) && isa(res, SparseVector)
  loop forall i :: {mat(?o)[i][0]} 0 <= i && i < ?k ==> mat(?o)[i][0] == data[i]
func NewDenseMatrixFromArray(data) res
  flags owns:data
  requires rectangular(data)
  ensures fresh(res) && holds(res, data) && isa(res, DenseMatrix)
func NewDenseMatrixFromArrayN(data) res
  flags owns:data
  requires rectangular(data)
  ensures fresh(res) && holds(res, data) && isa(res, DenseMatrixNumber)
func NewDenseVectorFromArray(data) res
  flags owns:data
  ensures fresh(res) && holdsvec(res, data) && isa(res, DenseVector)
func NewDenseVectorFromArrayN(data) res
  flags owns:data
  ensures fresh(res) && holdsvec(res, data) && isa(res, DenseVectorNumber)

func NewEmptyMask(r, c) res
  requires r >= 0 && c >= 0
  ensures fresh(res) && zeros(res, r, c)
