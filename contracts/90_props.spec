// The functions whose contracts make up each property. What they call is verified with them.
prop C01 generic Matrix.At Matrix.AtVec Matrix.Element Matrix.Set Matrix.SetVec Matrix.Update Matrix.SetReturnPointer Matrix.UpdateReturnPointer Matrix.Clear Map.Map
prop C03 generic Matrix.At Matrix.AtVec Matrix.Element Matrix.Set Matrix.SetVec Matrix.Update Matrix.SetReturnPointer Matrix.UpdateReturnPointer Matrix.RowsAt Matrix.ColumnsAt Matrix.RowsAtToArray Matrix.Clear Map.Map
prop C04 generic Matrix.Enumerate Enumerate.HasNext Enumerate.Next Matrix.Set Matrix.Update Matrix.Clear Map.Map
prop C05 generic Matrix.Map Map.HasNext Map.Map Matrix.Set Matrix.Update Matrix.Clear
prop C06 generic Matrix.RowsAt Matrix.ColumnsAt Matrix.RowsAtToArray Matrix.Set Matrix.Update Matrix.Clear Map.Map
prop C07 generic Matrix.Copy Matrix.CopyLogical Matrix.Set Matrix.Update Matrix.Clear Map.Map
prop C08 generic NewCSRMatrix NewCSCMatrix NewSparseVector NewDenseMatrix NewDenseMatrixN NewDenseVector NewDenseVectorN NewCSRMatrixFromArray NewCSCMatrixFromArray NewSparseVectorFromArray NewDenseMatrixFromArray NewDenseMatrixFromArrayN NewDenseVectorFromArray NewDenseVectorFromArrayN Matrix.Clear
prop C26 generic DenseVector.ReSize Matrix.Set Matrix.Update
prop C02 generic Matrix.Values Matrix.Set Matrix.Update Matrix.SetReturnPointer Matrix.UpdateReturnPointer Matrix.SetVec Matrix.Clear Matrix.Copy Matrix.Enumerate Enumerate.HasNext Enumerate.Next Map.Map
prop C09 generic Equal NotEqual Matrix.Equal Matrix.NotEqual
prop C10 generic Transpose TransposeToCSR TransposeToCSC Matrix.Transpose
prop C11 generic MatrixMatrixMultiply MatrixVectorMultiply VectorMatrixMultiply Matrix.Multiply
prop C12 generic Add Subtract Matrix.Add Matrix.Subtract
prop C13 generic ElementWiseMatrixAdd ElementWiseVectorAdd ElementWiseMatrixMultiply ElementWiseVectorMultiply
prop C14 generic Scalar Negative Matrix.Scalar Matrix.Negative
prop C15 generic Apply Unary.Apply
prop C16 generic MatrixMatrixMultiply MatrixVectorMultiply VectorMatrixMultiply ElementWiseMatrixAdd ElementWiseVectorAdd ElementWiseMatrixMultiply ElementWiseVectorMultiply Add Subtract Apply Negative Transpose Matrix.Element Mask.Element
prop C28 generic MatrixMatrixMultiply MatrixVectorMultiply VectorMatrixMultiply ElementWiseMatrixAdd ElementWiseVectorAdd ElementWiseMatrixMultiply ElementWiseVectorMultiply Add Subtract Apply Negative Transpose TransposeToCSR TransposeToCSC Scalar Equal NotEqual Matrix.Scalar Matrix.Multiply Matrix.Add Matrix.Subtract Matrix.Negative Matrix.Transpose Matrix.Equal Matrix.NotEqual Matrix.Copy Matrix.CopyLogical Matrix.RowsAt Matrix.ColumnsAt Matrix.RowsAtToArray Matrix.At Matrix.AtVec Matrix.Element Matrix.Set Matrix.SetVec Matrix.Update Matrix.SetReturnPointer Matrix.UpdateReturnPointer Matrix.Clear Matrix.Enumerate Matrix.Map Matrix.Values Matrix.Size Matrix.Rows Matrix.Columns Enumerate.HasNext Enumerate.Next Map.HasNext Map.Map DenseVector.ReSize ReduceMatrixToScalar ReduceVectorToScalar ReduceMatrixToScalarWithMonoID ReduceVectorToScalarWithMonoID ReduceMatrixToVector ReduceMatrixToVectorWithMonoID Monoid.Reduce breadthfirst.Search String Less Greater Compare sort.BubbleRow sort.BubbleColumns strassen.Multiply strassen.MultiplyCrossoverPoint reduced.Reduced symmetric.Symmetric skewsymmetric.SkewSymmetric
prop C29 generic MatrixMatrixMultiply MatrixVectorMultiply VectorMatrixMultiply ElementWiseMatrixAdd ElementWiseVectorAdd ElementWiseMatrixMultiply ElementWiseVectorMultiply Add Subtract Matrix.Multiply Matrix.Add Matrix.Subtract strassen.Multiply strassen.MultiplyCrossoverPoint
prop C18 generic MatrixMatrixMultiply MatrixVectorMultiply VectorMatrixMultiply ElementWiseMatrixAdd ElementWiseVectorAdd ElementWiseMatrixMultiply ElementWiseVectorMultiply Add Subtract Apply Negative Transpose TransposeToCSR TransposeToCSC Scalar Equal NotEqual ReduceMatrixToScalar ReduceVectorToScalar ReduceMatrixToScalarWithMonoID ReduceVectorToScalarWithMonoID ReduceMatrixToVector ReduceMatrixToVectorWithMonoID Monoid.Reduce breadthfirst.Search String Less Greater Compare sort.BubbleRow sort.BubbleColumns strassen.Multiply strassen.MultiplyCrossoverPoint
prop C22 generic symmetric.Symmetric skewsymmetric.SkewSymmetric
prop C25 generic +frames NewMutexMatrix MutexMatrix.Columns MutexMatrix.Rows MutexMatrix.Size MutexMatrix.Values MutexMatrix.At MutexMatrix.Element MutexMatrix.Set MutexMatrix.Update MutexMatrix.Clear MutexMatrix.Copy MutexMatrix.RowsAt MutexMatrix.ColumnsAt MutexMatrix.RowsAtToArray MutexMatrix.Scalar MutexMatrix.Multiply MutexMatrix.Add MutexMatrix.Subtract MutexMatrix.Negative MutexMatrix.Transpose MutexMatrix.Equal MutexMatrix.NotEqual MutexMatrix.Enumerate MutexMatrix.Map 
prop C30 generic NewContext BlockingMode graphContect.Mode graphContect^Done graphContect^Err graphContect^Deadline graphContect^Value
prop C27 generic Unary.Apply Binary.Apply BinaryBool.Apply Monoid.Zero unaryop.NewUnaryOp binaryop.NewBinaryOp binaryop.NewBinaryOpToBool binaryop.NewMonoID binaryop.FirstArgument binaryop.SecondArgument binaryop.Minimum binaryop.Maximum binaryop.Addition binaryop.Subtraction binaryop.Multiplication binaryop.Division operators.FirstArgument operators.SecondArgument operators.Minimum operators.Maximum operators.Addition operators.Subtraction operators.Multiplication operators.Division operators.Equal operators.NotEqual operators.GreaterThan operators.LessThan operators.GreaterThanOrEqual operators.LessThanOrEqual @operators.LOR @operators.LAND @operators.LXOR @operators.LogicalInverse DefaultMonoIDAddition DefaultMonoIDMaximum
prop C24 generic Compare Less Greater String
prop C23 generic sort.BubbleRow sort.BubbleColumns
prop C31 generic IsSparseMatrix RegisterMatrix @graphblas.registry
prop C17 generic ReduceMatrixToScalar ReduceVectorToScalar ReduceMatrixToScalarWithMonoID ReduceVectorToScalarWithMonoID ReduceMatrixToVector ReduceMatrixToVectorWithMonoID Monoid.Reduce Monoid.Zero binaryop.NewMonoID Matrix.ColumnsAt Enumerate.HasNext Enumerate.Next Matrix.Enumerate
prop C19 semiring breadthfirst.Search
prop C20 generic strassen.Multiply strassen.MultiplyCrossoverPoint
prop C21 generic reduced.Reduced
