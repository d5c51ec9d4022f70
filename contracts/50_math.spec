// Symmetry. teq is the equality of the element type, which no NaN satisfies.
def symmetric(s) = rows(s) == cols(s) && (forall i, j :: {mat(s)[i][j]} inr(s, i, j) ==> teq(mat(s)[i][j], mat(s)[j][i]))
def skew(s) = rows(s) == cols(s) && (forall i, j :: {mat(s)[i][j]} inr(s, i, j) ==> teq(mat(s)[i][j], tneg(mat(s)[j][i])))

func symmetric.Symmetric(s) b
  requires given(s)
  ensures[!C28] b ==> symmetric(s)
  ensures[!C28] symmetric(s) ==> b
func skewsymmetric.SkewSymmetric(s) b
  requires given(s)
  ensures[!C28] b ==> skew(s)
  ensures[!C28] skew(s) ==> b
