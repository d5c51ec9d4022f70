From e9140e1538649a1d3d7da152f9e072ded4eaa877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 01/23] fix: SparseVector lookup compared the index with the
 number of stored elements

index(i) took the end position whenever i exceeded the number of stored
elements, so SetVec(5, 1); AtVec(5) returned 0 and the indices lost their order.
---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From 1a26adc45e4a9a76375a1537564680f9aefaf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 02/23] fix: Map over sparse storage skipped elements or
 panicked after a removal

When the mapped value is zero the element is removed and the following ones
move down, but the iterator kept its old position (Scalar(0) on a CSR matrix
with two elements in a row panicked).
---
 cscMatrix.go    | 3 +++
 csrMatrix.go    | 3 +++
 sparseVector.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..c8c4a2c 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,9 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		// the elements after the removed one have moved down
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..0c9cdc9 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,9 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		// the elements after the removed one have moved down
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..0997aec 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -362,6 +362,9 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		// the elements after the removed one have moved down
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From af99b3596a63c51b69922e08895e437070dcda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 03/23] fix: At on sparse storage wrote to the matrix

At went through Update, which stores the value back, so concurrent readers
(MutexMatrix.At holds only the read lock) raced with each other.
---
 cscMatrix.go    | 17 +++++++++++++----
 csrMatrix.go    | 17 +++++++++++++----
 sparseVector.go | 13 ++++++++-----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index c8c4a2c..e0a8a89 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 0c9cdc9..75c14a9 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
diff --git a/sparseVector.go b/sparseVector.go
index 0997aec..715a4e9 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 7bbe69394873429a7fca8036bf481001fa91cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 04/23] fix: negative elements did not count as true in a mask

Element is documented as the value cast to Boolean, that is value != 0, but
tested value > 0; on the sparse types it also wrote to the matrix, and on the
vectors it ignored the column.
---
 cscMatrix.go    | 7 +------
 csrMatrix.go    | 7 +------
 denseMatrix.go  | 2 +-
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 5 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index e0a8a89..6bc0dba 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -424,10 +424,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 75c14a9..b71482b 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -414,10 +414,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseMatrix.go b/denseMatrix.go
index 220637f..46f8847 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -362,5 +362,5 @@ func (s *DenseMatrixNumber[T]) Element(r, c int) bool {
 }
 
 func (s *DenseMatrixNumber[T]) element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseVector.go b/denseVector.go
index d68a835..7226504 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -351,5 +351,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 715a4e9..5d1ae83 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -373,5 +373,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
-- 
2.43.0


From 34bd3c10d3b4d0f7aaa860b73cd61f12d2cd935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 05/23] fix: DenseVector.At accepted any column

Every other accessor panics on a column outside the vector.
---
 denseVector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denseVector.go b/denseVector.go
index 7226504..ee0a526 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -130,6 +130,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
-- 
2.43.0


From 86a052d8144d77ddedff7419bbfb2e443cee253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 06/23] fix: DenseVector.ReSize cut to the wrong length

ReSize(1) on a vector of length 5 left 4 elements.
---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index ee0a526..7ec9dcb 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 9eb370b805b9d8a2324295ea80fda3c534afc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 07/23] fix: vector Multiply allocated a result of the wrong
 shape

An l x 1 vector times a 1 x k matrix is l x k; the result was allocated as
1 x 1, so the product panicked.
---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 7ec9dcb..49f6134 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -226,7 +226,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index 5d1ae83..033346c 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -239,7 +239,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 755c3bd3d6f190671728eac6368ae50cf79c9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 08/23] fix: IsSparseMatrix only recognised the float64
 instantiations

The types register as CSRMatrix[float64] and so on, so a CSRMatrix[int] was
taken for a dense matrix.
---
 matrixRegistry.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..0d2ca07 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,6 +8,7 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -20,12 +21,19 @@ func RegisterMatrix(matrix reflect.Type) {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
 	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixRegistry[genericName(matrix)] = matrix
 
 }
 
+// genericName is the name of the type without its type arguments
+func genericName(t reflect.Type) string {
+	name, _, _ := strings.Cut(t.Name(), "[")
+	return name
+}
+
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	_, found := sparseMatrixRegistry[genericName(t)]
 	return found
 }
-- 
2.43.0


From 96c081b64b09cfae430f23c14c39acef83526b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 09/23] fix: Add lost the elements missing from a sparse
 operand

Only the elements stored in one operand were visited, so adding to a CSR or
CSC matrix dropped every element of the other operand at an empty position.
---
 operators.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..3aadf47 100644
--- a/operators.go
+++ b/operators.go
@@ -188,25 +188,25 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
-		iterator = s.Enumerate()
-		source = m
-	} else {
-		iterator = m.Enumerate()
-		source = s
+	// the operands are read while the result is written
+	if s == matrix {
+		s = s.Copy()
 	}
 
-	for iterator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return
-		default:
-			r, c, v := iterator.Next()
-			value := source.At(r, c)
-			if !mask.Element(r, c) {
-				matrix.Set(r, c, value+v)
+	if m == matrix {
+		m = m.Copy()
+	}
+
+	for _, operand := range []Matrix[T]{s, m} {
+		for iterator := operand.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, _ := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, s.At(r, c)+m.At(r, c))
+				}
 			}
 		}
 	}
-- 
2.43.0


From 42b51edb32e426f0d57ae600687bbfb17b62df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 10/23] fix: Subtract took the result matrix for its second
 operand

The difference was computed against whatever the result held and only where
the first operand has an element: SparseVector.Subtract always returned zero
and a sparse matrix minus one with more elements kept their sign.
---
 operators.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/operators.go b/operators.go
index 3aadf47..682bc4d 100644
--- a/operators.go
+++ b/operators.go
@@ -302,16 +302,25 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := s.Enumerate(); iterator.HasNext(); {
-		select {
-		case <-ctx.Done():
-			return
-		default:
-			r, c, value := iterator.Next()
-			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+	// the operands are read while the result is written
+	if s == matrix {
+		s = s.Copy()
+	}
+
+	if m == matrix {
+		m = m.Copy()
+	}
+
+	for _, operand := range []Matrix[T]{s, m} {
+		for iterator := operand.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, _ := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, s.At(r, c)-m.At(r, c))
+				}
 			}
 		}
 	}
-- 
2.43.0


From a7b70de72662e4276eaf9aeb473b72678e86f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 11/23] fix: Equal ignored the elements a sparse matrix does
 not store

An empty CSR matrix was equal to every dense matrix of its shape.
---
 operators.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index 682bc4d..20f07f1 100644
--- a/operators.go
+++ b/operators.go
@@ -533,12 +533,16 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 
 	// Check for a sparse matrix as we want to use its Enumerate operation
 	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// unless the other one is dense, which may have elements the sparse one has not
+	if isSparseMatrixS && isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
-	} else {
+	} else if isSparseMatrixS {
 		iterator = m.Enumerate()
 		matrix = s
+	} else {
+		iterator = s.Enumerate()
+		matrix = m
 	}
 
 	for iterator.HasNext() {
-- 
2.43.0


From 7f4edb86fb7164c490a4628b15e2cab27bd85193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 12/23] fix: Apply stored its results transposed

The image of the element at (r, c) was stored at (c, r), which panics for a
matrix that is not square.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 20f07f1..be66059 100644
--- a/operators.go
+++ b/operators.go
@@ -368,7 +368,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From e53a6e3a37dac9c863063459e14428d0515c4157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 13/23] fix: Apply in place inverted the mask

With no mask nothing was applied; with a mask exactly the elements it protects
were changed.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index be66059..59188b6 100644
--- a/operators.go
+++ b/operators.go
@@ -349,7 +349,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
-- 
2.43.0


From 30652e62067286dd40e93eb343ae496d35abce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 14/23] fix: Negative ignored its source

It negated whatever the result held instead of storing the negative of s.
---
 operators.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 59188b6..0806ee3 100644
--- a/operators.go
+++ b/operators.go
@@ -388,18 +388,34 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := matrix.Map(); iterator.HasNext(); {
+	if s == matrix {
+		for iterator := matrix.Map(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				iterator.Map(func(r, c int, value T) T {
+					if !mask.Element(r, c) {
+						return -value
+					}
+
+					return value
+				})
+			}
+		}
+
+		return
+	}
+
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			iterator.Map(func(r, c int, value T) T {
-				if !mask.Element(r, c) {
-					return -value
-				}
-
-				return value
-			})
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
+			}
 		}
 	}
 }
-- 
2.43.0


From df56bc794f5037ef085054ef195b2d21c8b1f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 15/23] fix: Transpose looked up the mask at the source
 position

The mask has the shape of the result, so it applies at (c, r); for a matrix
that is not square the lookup panicked.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 0806ee3..f416334 100644
--- a/operators.go
+++ b/operators.go
@@ -443,7 +443,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From be02990d3dbb0ef4fb06fcbdfab182de5e0d390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 16/23] fix: the element-wise matrix operations rejected
 matrices that are not square

They required the shapes of a matrix product instead of equal shapes.
---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index f416334..0f3480e 100644
--- a/operators.go
+++ b/operators.go
@@ -148,8 +148,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if s.Columns() != m.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", s.Columns(), m.Columns())
+	}
+
+	if s.Rows() != m.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", s.Rows(), m.Rows())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -262,8 +266,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if s.Columns() != m.Columns() {
+		log.Panicf("Column mismatch %+v, %+v", s.Columns(), m.Columns())
+	}
+
+	if s.Rows() != m.Rows() {
+		log.Panicf("Row mismatch %+v, %+v", s.Rows(), m.Rows())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From d33bad9bae2ebe21f349065537cdada1807d89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 17/23] fix: element-wise multiply in place kept elements the
 other operand lacks

Only the elements stored in the other operand were compared, so with a sparse
one the elements of the target at its empty positions survived.
---
 operators.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/operators.go b/operators.go
index 0f3480e..77d6a69 100644
--- a/operators.go
+++ b/operators.go
@@ -105,27 +105,32 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 		}
 	}
 
-	// when the matrix is the same object of s or m we use the setSource func to self update
-	setSource := func(r, c int, value T) {
-		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+	// when the matrix is the same object of s or m we self update, visiting every
+	// element of the matrix as the other one need not store an element there
+	if m == matrix || s == matrix {
+		source = s
+		if s == matrix {
+			source = m
 		}
+
+		for target := matrix.Map(); target.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				target.Map(func(r, c int, v T) T {
+					if !mask.Element(r, c) && source.At(r, c) != v {
+						return Default[T]()
+					}
+					return v
+				})
+			}
+		}
+
+		return
 	}
 
-	if m == matrix {
-		target = setSource
-		iterator = s.Enumerate()
-		source = m
-	} else if s == matrix {
-		target = setSource
-		iterator = m.Enumerate()
-		source = s
-	} else if IsSparseMatrix[T](s) {
+	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
 	} else {
-- 
2.43.0


From 2535275d65464f1f4c51908795272ffb30412d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 18/23] fix: Scalar never returned once its context was
 cancelled

break only left the select, so the loop spun forever.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 77d6a69..c77b7aa 100644
--- a/operators.go
+++ b/operators.go
@@ -601,7 +601,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From 9ae0bb304d243323391e252b9dbb75271b622a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 19/23] fix: a reduction deadlocked once its context was
 cancelled

The producer returned without telling the monoid that it was done.
---
 operators.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index c77b7aa..c95dd5f 100644
--- a/operators.go
+++ b/operators.go
@@ -669,6 +669,9 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 	}
 
 	go func() {
+		// ends the reduction, also when the context is cancelled
+		defer func() { done <- struct{}{} }()
+
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
@@ -680,7 +683,6 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 				}
 			}
 		}
-		done <- struct{}{}
 	}()
 
 	return <-out
-- 
2.43.0


From ee4a81617141bae6bc9a64847713a8c045061344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 20/23] fix: MutexMatrix cleared under the read lock and read
 without a lock

Clear wrote while readers could hold the lock, Values read without it and
Enumerate returned an iterator over the unlocked matrix.
---
 mutexMatrix.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..288a7cf 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,20 +161,25 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
 
 // Enumerate iterates through all non-zero elements, order is not guaranteed
 func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
-	return s.matrix.Enumerate()
+	s.RLock()
+	defer s.RUnlock()
+	// the iterator outlives the lock, so it walks a copy
+	return s.matrix.Copy().Enumerate()
 }
 
 // Map replace each element with the result of applying a function to its value
-- 
2.43.0


From 7fbfc599b2b8b728302c95602ea8502556f654b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 21/23] fix: Strassen multiplied only square matrices of an
 even size correctly

An odd size lost the last row and column (65 x 65 gave a wrong 64 x 64
product) and matrices that are not square panicked.
---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..abdbbd3 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of an even size can be divided into 4 sub-matrices
+	if n <= crossover || n == 0 || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From 32127f8e980d19f4492a91cb05e13db7e1f35636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 22/23] fix: comparing sparse rune matrices ignored where their
 elements are

String left out the empty positions, so of two different matrices with the
same elements neither was less than the other.
---
 operators.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index c95dd5f..e18310d 100644
--- a/operators.go
+++ b/operators.go
@@ -511,15 +511,15 @@ func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
 func String(ctx context.Context, s MatrixLogical[rune]) string {
 	var b strings.Builder
 	b.Grow(s.Size())
-	enumator := s.Enumerate()
 
-	for enumator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return b.String()
-		default:
-			_, _, r := enumator.Next()
-			b.WriteRune(r)
+	for r := 0; r < s.Rows(); r++ {
+		for c := 0; c < s.Columns(); c++ {
+			select {
+			case <-ctx.Done():
+				return b.String()
+			default:
+				b.WriteRune(s.At(r, c))
+			}
 		}
 	}
 
-- 
2.43.0


From d21b547510d471be67dda671bf672c352dbb033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 23/23] fix: sorting a sparse rune matrix mixed up its rows

The exchange only wrote the stored elements, so those of the other row stayed
at its empty positions.
---
 sort/bubble.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..3ae21d4 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(j, c, vi.AtVec(c))
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(c, j, vi.AtVec(c))
+					result.Set(c, i, vj.AtVec(c))
 				}
 			}
 		}
-- 
2.43.0

