From 6413e0067cb6f2eb506db9c275a6705fd8296c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 01/37] fix: do not share the shape slice among matrices

The shape is modified in place by ReshapeInPlace, FlattenInPlace and
TransposeInPlace (also through Softmax): sharing it with other matrices
silently changed their dimensions.
---
 mat/dense.go     | 2 +-
 mat/dense_new.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..c0cb1b5 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: append([]int(nil), shape...), // can be modified in place, must not be shared
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..e0c7586 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,8 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	// The shape can be modified in place, so it must not be shared.
+	return []int{shape[0], shape[1]}
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From 39f05f618f6a278d7c1893eab7a7496307529e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 02/37] fix: give operands gradients of their own shape

Max, Min, ReduceMean, ReduceSum, Concat and Softmax accumulated column
vectors into operands of any other shape, so that the propagation failed
at the next function (or later accumulations did).
---
 mat/gradfn/concat.go     | 2 +-
 mat/gradfn/max.go        | 4 ++--
 mat/gradfn/min.go        | 4 ++--
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 mat/gradfn/softmax.go    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..467ed4c 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x2v.NewMatrix(mat.WithShape(x2v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..7f4feea 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x2v.NewMatrix(mat.WithShape(x2v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..3ffea66 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From d861bc77e7be8a0ba0f7fa9c52a4c7db4f493b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 03/37] fix: AppendRows gives column vectors gradients of their
 own shape

---
 ag/operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ag/operators.go b/ag/operators.go
index 25e4443..0694c07 100644
--- a/ag/operators.go
+++ b/ag/operators.go
@@ -39,7 +39,14 @@ func Affine(b, w1, x1 mat.Tensor, wxPairs ...mat.Tensor) mat.Tensor {
 
 // AppendRows returns a new operator node as a result of the gradfn.AppendRows function.
 func AppendRows(x mat.Tensor, vs ...mat.Tensor) mat.Tensor {
-	return NewOperator(gradfn.NewAppendRows(x, vs...)).Run()
+	rows := make([]mat.Tensor, len(vs))
+	for i, v := range vs {
+		if v.Value().Shape()[0] != 1 {
+			v = T(v) // the gradients of each appended vector are row vectors
+		}
+		rows[i] = v
+	}
+	return NewOperator(gradfn.NewAppendRows(x, rows...)).Run()
 }
 
 // At returns a new operator node as a result of the gradfn.At function.
-- 
2.43.0


From ccb23425cee0405cd6d2f20d4384aa4dad13ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 04/37] fix: ScalarMax with only negative scalars, and its
 gradients of intermediate nodes

The maximum was initialized to zero. Moreover, non-maximum operands which
are intermediate nodes never received gradients, so Backward hung.
---
 mat/gradfn/scalarmax.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..944992f 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -32,8 +32,8 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	if len(r.xs) == 0 {
 		panic("fn: ScalarMax has no operands")
 	}
-	var max float64
-	var argmax int
+	max := r.xs[0].Value().Item().F64()
+	argmax := 0
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
@@ -55,5 +55,12 @@ func (r *ScalarMax[O]) Backward(gy mat.Tensor) error {
 	if target.RequiresGrad() {
 		target.AccGrad(gy)
 	}
+	for i, x := range r.xs {
+		// Intermediate nodes wait for the gradients from all their dependents,
+		// therefore they must be notified even if the gradients are zero.
+		if i != r.argmax && x.RequiresGrad() && mat.Tensor(x) != x.Value() {
+			x.AccGrad(x.Value().(mat.Matrix).ZerosLike())
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 7dda0448b20f5869f0e1e4de05bf95f5b1a91134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 05/37] fix: MaxPooling with non-positive values and non-square
 windows

---
 mat/gradfn/maxpooling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..176c231 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -5,8 +5,6 @@
 package gradfn
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 )
@@ -52,11 +50,13 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := xv.ScalarAt(row*r.rows, col*r.cols).F64()
+			r.argmaxI[row][col] = row * r.rows
+			r.argmaxJ[row][col] = col * r.cols
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 43596ef9ae806906e1873e3ad5866b2bd1b20b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 06/37] fix: SparseMax must not clip the results to the maximum
 input

---
 mat/gradfn/sparsemax.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..854b3c4 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"math"
 	"sort"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -39,7 +40,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, math.Inf(1))
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From 5ea79eef3a37cf4639cbdac87bd03d715db4442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 07/37] fix: RotateR by zero places, and of row vectors

---
 mat/gradfn/rotater.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..ea11988 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -35,7 +35,7 @@ func (r *RotateR[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 	if r.x.RequiresGrad() {
-		gx := rotate(gy.(mat.Matrix), r.i)
+		gx := rotate(gy.(mat.Matrix), r.i).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
@@ -43,7 +43,7 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
-	left := m.Slice(0, 0, i, 1)
-	right := m.Slice(i, 0, size, 1)
+	left := m.Range(0, i)
+	right := m.Range(i, size)
 	return m.NewConcatV(right, left)
 }
-- 
2.43.0


From 22d334caaa8808cf27dd17ded7a3b6b42bc19bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 08/37] fix: numeric overflows of Swish, SwishB, Mish and
 SoftPlus; SwishB beta gradients with matrices

---
 mat/gradfn/misc.go   | 26 +++++++++++++-------------
 mat/gradfn/swish.go  |  5 ++---
 mat/gradfn/swishb.go |  4 ++--
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..08d091c 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -399,7 +399,11 @@ func softPlus(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		return (1 / beta) * math.Log(1+math.Exp(beta*v))
+		prod := beta * v
+		if prod > 0 { // avoid overflows
+			return (1 / beta) * (prod + math.Log1p(math.Exp(-prod)))
+		}
+		return (1 / beta) * math.Log1p(math.Exp(prod))
 	}
 	if v > threshold {
 		return v
@@ -411,8 +415,7 @@ func softPlusDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
 	if v <= threshold {
-		exp := math.Exp(v * beta)
-		return exp / (exp + 1)
+		return 1 / (1 + math.Exp(-v*beta))
 	}
 	if v > threshold {
 		return 1
@@ -471,14 +474,14 @@ func swishB(_, _ int, v float64, beta ...float64) float64 {
 
 func swishBDeriv(_, _ int, v float64, beta ...float64) float64 {
 	prod := v * beta[0]
-	exp := math.Exp(prod)
-	return exp * (exp + prod + 1) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-prod))
+	return s * (1 + prod*(1-s))
 }
 
 func swishBBetaDeriv(v, beta float64) float64 {
 	prod := v * beta
-	exp := math.Exp(-prod)
-	return (v * v * exp) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-prod))
+	return v * v * s * (1 - s)
 }
 
 // Reference: "Mish: A Self Regularized Non-Monotonic Neural Activation Function" by Diganta Misra, 2019.
@@ -488,12 +491,9 @@ func mish(_, _ int, v float64) float64 {
 }
 
 func mishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	exp2 := math.Exp(2 * v)
-	exp3 := math.Exp(3 * v)
-	omega := 4.0*(v+1.0) + 4.0*exp2 + exp3 + exp*(4.0*v+6.0)
-	delta := 2*exp + exp2 + 2.0
-	return exp * (omega / (delta * delta))
+	t := math.Tanh(math.Log(1 + math.Exp(v)))
+	s := 1 / (1 + math.Exp(-v))
+	return t + v*s*(1-t*t)
 }
 
 func gelu(_, _ int, v float64) float64 {
diff --git a/mat/gradfn/swish.go b/mat/gradfn/swish.go
index 46925d6..533d4a7 100644
--- a/mat/gradfn/swish.go
+++ b/mat/gradfn/swish.go
@@ -49,7 +49,6 @@ func (l *Swish[O]) Backward(gy mat.Tensor) error {
 }
 
 func swishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	expPlusOne := exp + 1
-	return exp * (expPlusOne + v) / (expPlusOne * expPlusOne)
+	s := 1 / (1 + math.Exp(-v))
+	return s * (1 + v*(1-s))
 }
diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..aea678b 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -51,10 +51,10 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 	if r.beta.RequiresGrad() {
 		gb := r.beta.Value().(mat.Matrix).ZerosLike()
 		// FIXME: avoid casting to specific type
+		gyData := gy.Data().F64()
 		for i, x := range r.x.Value().Data().F64() {
 			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
+			gb.AddScalarInPlace(deriv * gyData[i])
 		}
 		r.beta.AccGrad(gb)
 	}
-- 
2.43.0


From 5f629a854970028a939bf0600d2e5bf9b8f2247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 09/37] fix: gradients of the scalar operands of CELU, ELU,
 LeakyReLU, SELU, SoftPlus, SoftShrink and Threshold

They never received gradients, hence learnable scalars were not trained and
Backward hung forever if they were intermediate nodes.
---
 mat/gradfn/celu.go       |  3 ++
 mat/gradfn/elu.go        |  3 ++
 mat/gradfn/leakyrelu.go  |  3 ++
 mat/gradfn/misc.go       | 80 ++++++++++++++++++++++++++++++++++++++++
 mat/gradfn/selu.go       |  6 +++
 mat/gradfn/softplus.go   |  6 +++
 mat/gradfn/softshrink.go |  3 ++
 mat/gradfn/threshold.go  |  6 +++
 8 files changed, 110 insertions(+)

diff --git a/mat/gradfn/celu.go b/mat/gradfn/celu.go
index be3fe0e..8c6a24b 100644
--- a/mat/gradfn/celu.go
+++ b/mat/gradfn/celu.go
@@ -45,5 +45,8 @@ func (r *CELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		r.alpha.AccGrad(scalarOperandGrad(r.alpha, r.x, gy, celuAlphaDeriv, r.alpha.Value().Item().F64()))
+	}
 	return nil
 }
diff --git a/mat/gradfn/elu.go b/mat/gradfn/elu.go
index cc38b81..cb4b798 100644
--- a/mat/gradfn/elu.go
+++ b/mat/gradfn/elu.go
@@ -46,5 +46,8 @@ func (r *ELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		r.alpha.AccGrad(scalarOperandGrad(r.alpha, r.x, gy, eluAlphaDeriv, r.alpha.Value().Item().F64()))
+	}
 	return nil
 }
diff --git a/mat/gradfn/leakyrelu.go b/mat/gradfn/leakyrelu.go
index 4899f43..bbe42b7 100644
--- a/mat/gradfn/leakyrelu.go
+++ b/mat/gradfn/leakyrelu.go
@@ -45,5 +45,8 @@ func (r *LeakyReLU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		r.alpha.AccGrad(scalarOperandGrad(r.alpha, r.x, gy, leakyReLUAlphaDeriv, r.alpha.Value().Item().F64()))
+	}
 	return nil
 }
diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 08d091c..9d95a5f 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -239,6 +239,23 @@ func absDeriv(_, _ int, v float64) float64 {
 	return 0 // undefined
 }
 
+// scalarOperandGrad returns the gradients of a scalar operand which
+// contributes to all the elements of the result. The function deriv is the
+// derivative of one element of the result with respect to the operand.
+func scalarOperandGrad(
+	operand, x, gy mat.Tensor,
+	deriv func(_, _ int, v float64, alpha ...float64) float64,
+	alpha ...float64,
+) mat.Matrix {
+	gyData := gy.Data().F64()
+	g := 0.0
+	for i, v := range x.Value().Data().F64() {
+		g += deriv(0, 0, v, alpha...) * gyData[i]
+	}
+	gx := operand.Value().(mat.Matrix).ZerosLike()
+	return gx.AddScalarInPlace(g)
+}
+
 func tan(_, _ int, v float64) float64 {
 	return math.Tan(v)
 }
@@ -329,6 +346,14 @@ func celuDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func celuAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		exp := math.Exp(v / alpha[0])
+		return exp - 1 - exp*v/alpha[0]
+	}
+	return 0
+}
+
 func elu(_, _ int, v float64, alpha ...float64) float64 {
 	if v <= 0 {
 		return alpha[0] * (math.Exp(v) - 1)
@@ -349,6 +374,13 @@ func eluDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func eluAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return math.Exp(v) - 1
+	}
+	return 0
+}
+
 func leakyReLU(_, _ int, v float64, alpha ...float64) float64 {
 	if v <= 0 {
 		return alpha[0] * v // slope * v
@@ -369,6 +401,13 @@ func leakyReLUDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func leakyReLUAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return v
+	}
+	return 0
+}
+
 // alpha[0] is the alpha
 // alpha[1] is the scale
 func selu(_, _ int, v float64, alpha ...float64) float64 {
@@ -395,6 +434,20 @@ func seluDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func seluAlphaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return alpha[1] * (math.Exp(v) - 1)
+	}
+	return 0
+}
+
+func seluScaleDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= 0 {
+		return alpha[0] * (math.Exp(v) - 1)
+	}
+	return v
+}
+
 func softPlus(_, _ int, v float64, alpha ...float64) float64 {
 	threshold := alpha[1]
 	beta := alpha[0]
@@ -423,6 +476,15 @@ func softPlusDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func softPlusBetaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	threshold := alpha[1]
+	beta := alpha[0]
+	if v <= threshold {
+		return (v*softPlusDeriv(0, 0, v, alpha...) - softPlus(0, 0, v, alpha...)) / beta
+	}
+	return 0
+}
+
 func softShrink(_, _ int, v float64, alpha ...float64) float64 {
 	lambda := alpha[0]
 	if v < -lambda {
@@ -445,6 +507,17 @@ func softShrinkDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func softShrinkLambdaDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	lambda := alpha[0]
+	if v < -lambda {
+		return 1
+	}
+	if v > lambda {
+		return -1
+	}
+	return 0
+}
+
 func threshold(_, _ int, v float64, alpha ...float64) float64 {
 	value := alpha[1]
 	t := alpha[0]
@@ -468,6 +541,13 @@ func thresholdDeriv(_, _ int, v float64, alpha ...float64) float64 {
 	return 0
 }
 
+func thresholdKDeriv(_, _ int, v float64, alpha ...float64) float64 {
+	if v <= alpha[0] {
+		return 1
+	}
+	return 0
+}
+
 func swishB(_, _ int, v float64, beta ...float64) float64 {
 	return v * (1.0 / (1 + math.Exp(beta[0]*-v)))
 }
diff --git a/mat/gradfn/selu.go b/mat/gradfn/selu.go
index 27a0555..a4020fd 100644
--- a/mat/gradfn/selu.go
+++ b/mat/gradfn/selu.go
@@ -54,5 +54,11 @@ func (r *SELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.alpha.RequiresGrad() {
+		r.alpha.AccGrad(scalarOperandGrad(r.alpha, r.x, gy, seluAlphaDeriv, r.alpha.Value().Item().F64(), r.scale.Value().Item().F64()))
+	}
+	if r.scale.RequiresGrad() {
+		r.scale.AccGrad(scalarOperandGrad(r.scale, r.x, gy, seluScaleDeriv, r.alpha.Value().Item().F64(), r.scale.Value().Item().F64()))
+	}
 	return nil
 }
diff --git a/mat/gradfn/softplus.go b/mat/gradfn/softplus.go
index 75008f8..95f50cb 100644
--- a/mat/gradfn/softplus.go
+++ b/mat/gradfn/softplus.go
@@ -54,5 +54,11 @@ func (r *SoftPlus[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.beta.RequiresGrad() {
+		r.beta.AccGrad(scalarOperandGrad(r.beta, r.x, gy, softPlusBetaDeriv, r.beta.Value().Item().F64(), r.threshold.Value().Item().F64()))
+	}
+	if r.threshold.RequiresGrad() {
+		r.threshold.AccGrad(r.threshold.Value().(mat.Matrix).ZerosLike())
+	}
 	return nil
 }
diff --git a/mat/gradfn/softshrink.go b/mat/gradfn/softshrink.go
index ebfa3e9..1e1ff15 100644
--- a/mat/gradfn/softshrink.go
+++ b/mat/gradfn/softshrink.go
@@ -44,5 +44,8 @@ func (r *SoftShrink[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.lambda.RequiresGrad() {
+		r.lambda.AccGrad(scalarOperandGrad(r.lambda, r.x, gy, softShrinkLambdaDeriv, r.lambda.Value().Item().F64()))
+	}
 	return nil
 }
diff --git a/mat/gradfn/threshold.go b/mat/gradfn/threshold.go
index 16a42b4..99a51a0 100644
--- a/mat/gradfn/threshold.go
+++ b/mat/gradfn/threshold.go
@@ -55,5 +55,11 @@ func (r *Threshold[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	if r.threshold.RequiresGrad() {
+		r.threshold.AccGrad(r.threshold.Value().(mat.Matrix).ZerosLike())
+	}
+	if r.k.RequiresGrad() {
+		r.k.AccGrad(scalarOperandGrad(r.k, r.x, gy, thresholdKDeriv, r.threshold.Value().Item().F64(), r.k.Value().Item().F64()))
+	}
 	return nil
 }
-- 
2.43.0


From a1365a24efdf3e5af8aa5962284c6bfcda0cf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 10/37] fix: Log of float32 zeros computed by the vectorized
 functions

---
 mat/internal/matfuncs/log_amd64.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..cc45772 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -21,15 +21,13 @@ func Log32(x, y []float32) {
 			LogAVX32(x[i:], y[i:])
 		}
 
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+		mod := len(x) % 8
+		for i, v := range x[:len(x)-mod] {
+			if v == 0.0 {
+				y[i] = float32(math.Inf(-1))
 			}
 		}
 
-		mod := len(x) % 8
 		if mod > 0 {
 			tailStart := len(x) - mod
 			log(x[tailStart:], y[tailStart:])
@@ -43,15 +41,13 @@ func Log32(x, y []float32) {
 		LogSSE32(x[i:], y[i:])
 	}
 
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+	mod := len(x) % 4
+	for i, v := range x[:len(x)-mod] {
+		if v == 0.0 {
+			y[i] = float32(math.Inf(-1))
 		}
 	}
 
-	mod := len(x) % 4
 	if mod > 0 {
 		tailStart := len(x) - mod
 		log(x[tailStart:], y[tailStart:])
-- 
2.43.0


From b7de9063285cd39dee6d0ba865df6ab048a16253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 11/37] fix: UnmarshalBinary must copy the data, and report
 malformed data as errors

---
 mat/dense_marshaling.go | 44 +++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..dfdbec8 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -31,7 +31,14 @@ func (d *Dense[T]) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary unmarshals a binary representation of a Dense matrix.
-func (d *Dense[T]) UnmarshalBinary(data []byte) error {
+func (d *Dense[T]) UnmarshalBinary(data []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil { // the flatbuffers accessors panic on malformed data
+			err = fmt.Errorf("mat: malformed data: %v", r)
+		}
+	}()
+
+	data = data[:len(data):len(data)] // never read past the end
 	switch any(T(0)).(type) {
 	case float32:
 		return d.unmarshalBinaryFloat32(data)
@@ -74,15 +81,7 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresFrad()
-
-	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
-	}
-
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
-	return nil
+	return d.setUnmarshaled(raw.RequiresFrad(), raw.ShapeLength(), raw.Shape, raw.DataBytes(), raw.DataLength())
 }
 
 func (d *Dense[T]) marshalBinaryFloat64() ([]byte, error) {
@@ -117,14 +116,21 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresGrad()
+	return d.setUnmarshaled(raw.RequiresGrad(), raw.ShapeLength(), raw.Shape, raw.DataBytes(), raw.DataLength())
+}
 
-	d.shape = make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
+// setUnmarshaled validates the unmarshaled content, and assigns it to the receiver.
+func (d *Dense[T]) setUnmarshaled(requiresGrad bool, dims int, dim func(int) int32, data []byte, length int) error {
+	shape := make([]int, dims)
+	for i := range shape {
+		shape[i] = int(dim(i))
 	}
-
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+	if dims != 2 || shape[0] < 0 || shape[1] < 0 || shape[0]*shape[1] != length || len(data) != length*int(unsafe.Sizeof(T(0))) {
+		return fmt.Errorf("mat: malformed data: shape %v with %d elements", shape, length)
+	}
+	d.requiresGrad = requiresGrad
+	d.shape = shape
+	d.data = bytesToSlice[T](data, length)
 	return nil
 }
 
@@ -132,5 +138,9 @@ func bytesToSlice[T any](b []byte, length int) []T {
 	if len(b) == 0 {
 		return []T{}
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	// The data must be copied: it can be modified by the caller after
+	// UnmarshalBinary returns, and it might be not aligned.
+	out := make([]T, length)
+	copy(unsafe.Slice((*byte)(unsafe.Pointer(&out[0])), len(b)), b)
+	return out
 }
-- 
2.43.0


From 6b784c6b93762a8044af793905650a2d33744f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 12/37] fix: gradient clippers skip parameters without
 gradients; NormClipper is a GradClipper

---
 optimizers/gradclipper/clipper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..01c0774 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -60,6 +60,11 @@ func (c *NormClipper) calculateTotalNorm(gs []mat.Tensor) float64 {
 	return totalNorm
 }
 
+// ClipGrads clips the gradients in place. It is the same as ClipGradients.
+func (c *NormClipper) ClipGrads(parameters nn.ParamChannelFunc) {
+	c.ClipGradients(parameters)
+}
+
 // ClipGradients clips the gradients, multiplying each parameter by the MaxNorm, divided by n-norm of the overall gradients.
 // NormType is the n-norm. Can be “Double.POSITIVE_INFINITY“ for infinity norm (default 2.0)
 func (c *NormClipper) ClipGradients(parameters nn.ParamChannelFunc) {
@@ -82,6 +87,9 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
+		if !param.HasGrad() {
+			continue
+		}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From 972b1f4a3044f1b3724e44fbe1f4182c669337db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 13/37] fix: Grad returns a nil interface when there are no
 gradients; accumulate gradients of another data type

---
 mat/dense_grad.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 8371618..91c78b0 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -13,6 +13,9 @@ func (d *Dense[T]) Value() Tensor {
 func (d *Dense[T]) Grad() Tensor {
 	d.gradMu.RLock()
 	defer d.gradMu.RUnlock()
+	if d.grad == nil {
+		return nil // not a nil pointer wrapped into a non-nil interface
+	}
 	return d.grad
 }
 
@@ -22,7 +25,8 @@ func (d *Dense[T]) AccGrad(grad Tensor) {
 	d.gradMu.Lock()
 	defer d.gradMu.Unlock()
 	if d.grad == nil {
-		d.grad = grad.(Matrix).Clone().(*Dense[T])
+		// The gradient can be of another data type.
+		d.grad = makeDense[T](copySlice(Data[T](grad)), grad.Shape()...)
 		return
 	}
 	d.grad.AddInPlace(grad.(Matrix))
-- 
2.43.0


From cfaf7dd685893c2ed4cb6d71cd256c5a3a12f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 14/37] fix: Norm of negative values; Range and SplitV must not
 read past the end of the vector

---
 mat/dense.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index c0cb1b5..fbeb850 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1149,6 +1149,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,7 +1172,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
@@ -1294,7 +1297,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0


From ddd50a2509ef976aad9dcdfac82275640d6f5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 15/37] fix: formatting of float64 values, and with large width

---
 mat/dense_formatting.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/dense_formatting.go b/mat/dense_formatting.go
index e8fd840..d71a77a 100644
--- a/mat/dense_formatting.go
+++ b/mat/dense_formatting.go
@@ -132,6 +132,7 @@ func (d *Dense[_]) formattingMaxColumnsWidth(
 					leftSize += minWidth - w
 				}
 				widths[col].left = maxInt(widths[col].left, leftSize)
+				maxWidth = maxInt(maxWidth, leftSize)
 				widths[col].right = maxInt(widths[col].right, w-pi-1)
 			} else {
 				widths[col].left = maxInt(widths[col].left, w)
@@ -143,7 +144,11 @@ func (d *Dense[_]) formattingMaxColumnsWidth(
 }
 
 func formatValue[T float.DType](buf []byte, val T, c rune, precision int) []byte {
-	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, 32)
+	bitSize := 32
+	if _, ok := any(val).(float64); ok {
+		bitSize = 64
+	}
+	return strconv.AppendFloat(buf[:0], float64(val), byte(c), precision, bitSize)
 }
 
 func maxInt(a, b int) int {
-- 
2.43.0


From b72414728a3833b5718b669aee8d192bfa90457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 16/37] fix: the Copy function must not accumulate gradients
 into operands which do not require them

---
 mat/gradfn/identity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/identity.go b/mat/gradfn/identity.go
index 838c5f8..65755b9 100644
--- a/mat/gradfn/identity.go
+++ b/mat/gradfn/identity.go
@@ -38,6 +38,8 @@ func (r *Copy[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x.Value(), gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
-	r.x.AccGrad(gy)
+	if r.x.RequiresGrad() {
+		r.x.AccGrad(gy)
+	}
 	return nil
 }
-- 
2.43.0


From 2d22e61823c5259b37fb650a98b6f4c5bb750605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 17/37] fix: Backward reports missing gradients before changing
 any state

Operators were left in the pending state forever, so that subsequent calls
of Grad, HasGrad and ZeroGrad hung.
---
 ag/backward.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..5e3e7c1 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -5,6 +5,7 @@
 package ag
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -26,6 +27,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Report missing gradients before changing the state of any operator.
+	for _, op := range ops {
+		if op.Value().Size() != 1 && !op.HasGrad() {
+			return fmt.Errorf("ag: missing gradient for %v", op)
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
-- 
2.43.0


From 6ad819d09af49788d2fffa662924980912db1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 18/37] fix: Optimize waits for all updates, and optimizes
 shared parameters once

It returned before the updates were finished, losing their errors or
sending on a closed channel.
---
 optimizers/optimizer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..5306276 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -42,7 +42,14 @@ func (o *Optimizer) Optimize() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
+	visited := make(map[*nn.Param]struct{}) // parameters can be shared by more models
+
 	for param := range o.parameters(ctx) {
+		if _, ok := visited[param]; ok {
+			continue
+		}
+		visited[param] = struct{}{}
+
 		select {
 		case err := <-errCh:
 			cancel()  // As soon as an error occurs, stop the iteration over parameters
@@ -68,6 +75,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for running goroutines to finish
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From f1afb086be9e78a00d16a9a381c9d86803e73bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 19/37] fix: report errors on closing files of DumpToFile and
 LoadFromFile

---
 nn/gob.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nn/gob.go b/nn/gob.go
index de66e13..9c44e6e 100644
--- a/nn/gob.go
+++ b/nn/gob.go
@@ -27,7 +27,7 @@ func Dump(obj any, w io.Writer) error {
 
 // DumpToFile saves a serialized object to a file.
 // See Dump for further details.
-func DumpToFile[T any](obj T, filename string) error {
+func DumpToFile[T any](obj T, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
@@ -54,10 +54,9 @@ func Load[T any](r io.Reader) (T, error) {
 
 // LoadFromFile uses Gob to deserialize objects files to memory.
 // See Load for further details.
-func LoadFromFile[T any](filename string) (T, error) {
+func LoadFromFile[T any](filename string) (obj T, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
-		var obj T
 		return obj, err
 	}
 	defer func() {
-- 
2.43.0


From 07800a0504daae24233f7dfab2d61a8f65469373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 20/37] fix: embeddings model bookkeeping of gradients

Loaded models panicked on the first gradient; embeddings whose gradients
were zeroed by the optimizer were still counted and traversed.
---
 nn/embedding/embedding.go |  3 +++
 nn/embedding/model.go     | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..78a03c6 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // such as a model just loaded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..7d1219b 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -49,11 +49,26 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.indicesWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// indicesWithGrad returns the indices of the embeddings with gradients.
+func (m *Model) indicesWithGrad() []int {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if !m.Weights[idx].HasGrad() { // zeroed directly on the parameter, such as by an optimizer
+			delete(m.embedGradIdx, idx)
+			continue
+		}
+		indices = append(indices, idx)
+	}
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +117,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.indicesWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From e0e14bf48b815a5926005b6bf95d92876ef4690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 21/37] fix: traversal of models

Apply with a custom traverser as root, nil or unsupported elements hiding the
following ones, and sub-models visited by ForEachParamStrict.
---
 nn/traversal.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..a472f56 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
@@ -59,10 +61,14 @@ func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
 			pt.paramsFunc(itemT)
 		}
 	case ParamsTraverser:
+		m, isModel := item.(Model)
+		if isModel && !pt.exploreSubModels {
+			break
+		}
 		if pt.paramsFunc != nil {
 			itemT.TraverseParams(pt.paramsFunc)
 		}
-		if m, ok := item.(Model); ok && pt.modelsFunc != nil {
+		if isModel && pt.modelsFunc != nil {
 			pt.modelsFunc(m)
 		}
 	case Model:
@@ -94,11 +100,7 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch reflect.ValueOf(value).Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
-		default:
-			return false // skip
+			pt.walkStructOrPtr(value, name)
 		}
 		return true
 	})
@@ -110,9 +112,7 @@ func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
 		p := v.Index(i)
 		switch p.Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(p.Interface(), name)
 		default:
 			return // skip
 		}
@@ -135,9 +135,7 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch mapRange.Value().Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
+			pt.walkStructOrPtr(mapRange.Value().Interface(), name)
 		default:
 			return // skip
 		}
-- 
2.43.0


From 5ada8cb3b1e91868034bbee8f6f743f49bc8d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 22/37] fix: the sentence-state LSTM uses the V weights of its
 input activation

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From f9f1a1b83a2bc91dbd3462969d3341cf9dae0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 23/37] fix: overflow of the CRF total score

---
 nn/crf/crf.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/nn/crf/crf.go b/nn/crf/crf.go
index c85258d..4699e38 100644
--- a/nn/crf/crf.go
+++ b/nn/crf/crf.go
@@ -6,6 +6,7 @@ package crf
 
 import (
 	"encoding/gob"
+	"math"
 
 	"github.com/nlpodyssey/spago/ag"
 	"github.com/nlpodyssey/spago/mat"
@@ -65,7 +66,7 @@ func (m *Model) totalScore(predicted []mat.Tensor) mat.Tensor {
 		totalVector = m.totalScoreStep(totalVector, ag.SeparateVec(predicted[i]))
 	}
 	totalVector = m.totalScoreEnd(totalVector)
-	return ag.Log(ag.ReduceSum(ag.Concat(totalVector...)))
+	return logSumExp(totalVector)
 }
 
 func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
@@ -79,24 +80,43 @@ func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
 func (m *Model) totalScoreEnd(stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
 	for i := 0; i < m.Size; i++ {
-		vecTrans := ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
-		scores[i] = ag.Add(scores[i], ag.Exp(vecTrans))
+		scores[i] = ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
 	}
 	return scores
 }
 
 func (m *Model) totalScoreStep(totalVec []mat.Tensor, stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
+	paths := make([][]mat.Tensor, m.Size)
 	for i := 0; i < m.Size; i++ {
 		nodei := totalVec[i]
 		for j := 0; j < m.Size; j++ {
 			vecSum := ag.Add(nodei, stepVec[j])
 			vecTrans := ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
-			scores[j] = ag.Add(scores[j], ag.Exp(vecTrans))
+			paths[j] = append(paths[j], vecTrans)
 		}
 	}
 	for i := 0; i < m.Size; i++ {
-		scores[i] = ag.Log(scores[i])
+		scores[i] = logSumExp(paths[i])
 	}
 	return scores
 }
+
+// logSumExp computes the logarithm of the sum of the exponentials of the given
+// scalars, shifted by their maximum value to prevent overflows and underflows.
+func logSumExp(xs []mat.Tensor) mat.Tensor {
+	max := math.Inf(-1)
+	for _, x := range xs {
+		max = math.Max(max, x.Value().Item().F64())
+	}
+	if math.IsInf(max, 0) {
+		max = 0
+	}
+	shift := xs[0].Value().(mat.Matrix).NewScalar(max)
+
+	var sum mat.Tensor
+	for _, x := range xs {
+		sum = ag.Add(sum, ag.Exp(ag.Sub(x, shift)))
+	}
+	return ag.Add(ag.Log(sum), shift)
+}
-- 
2.43.0


From e7147b7d24208d5a808dc3886fc04e0bc5a556ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 24/37] fix: zero can be selected by GetUniqueRandomInt and
 GetUniqueRandomIndices

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From f9b417c208e46893238e30af077a75f8d52432a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 25/37] fix: WeightedChoice must not select an impossible index
 because of rounding

---
 mat/rand/misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..0336e90 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,17 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0
 	for i, prob := range dist {
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
+		if prob > 0 {
+			last = i
+		}
 	}
-	return 0
+	return last // the sum of the probabilities can be less than one, because of rounding
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0


From 46a755a19df54a2ce893eedcb5ab565e39a250d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 26/37] fix: causal mask of queries which follow cached keys

---
 nn/attention/attention.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..e709643 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -23,6 +23,13 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
 
+	// With more keys than queries, such as when previous keys are cached, the
+	// last query is the one which can attend to all the keys.
+	offset := 0
+	if kRows > len(q) {
+		offset = kRows - len(q)
+	}
+
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
 		kqi[i] = ag.Mul(k, qi)
@@ -32,7 +39,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(offset+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0


From 75a5ebbf701a249b1e1082f68eb46269cc08cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 27/37] fix: gradient clippers clip shared parameters once

---
 optimizers/gradclipper/clipper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 01c0774..3919fea 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -86,7 +86,12 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 	defer cancel()
 
 	var allGrads []mat.Tensor
+	visited := make(map[*nn.Param]struct{}) // parameters can be shared by more models
 	for param := range parameters(ctx) {
+		if _, ok := visited[param]; ok {
+			continue
+		}
+		visited[param] = struct{}{}
 		if !param.HasGrad() {
 			continue
 		}
-- 
2.43.0


From 3b6426ff0fadbd623975deef824e7f10017de23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 28/37] fix: the heads of multi-head attention must not be
 overwritten by their concatenation

---
 nn/attention/multiheadattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..a841a9f 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -96,14 +96,14 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
 	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	concat := make([]mat.Tensor, seqLen) // the operators keep their operands in buf
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
 		for j := 0; j < n; j++ {
 			buf2[j] = heads[j][i]
 		}
-		concat = append(concat, ag.Concat(buf2...))
+		concat[i] = ag.Concat(buf2...)
 	}
 	return m.OutputMerge.Forward(concat...)
 }
-- 
2.43.0


From 9eb6685160faeef1ebdbc71f1ef218059e7b05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 29/37] fix: UnmarshalBinary must not allocate memory for
 malformed dimensions

---
 mat/dense_marshaling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index dfdbec8..169c00d 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -121,11 +121,11 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 
 // setUnmarshaled validates the unmarshaled content, and assigns it to the receiver.
 func (d *Dense[T]) setUnmarshaled(requiresGrad bool, dims int, dim func(int) int32, data []byte, length int) error {
-	shape := make([]int, dims)
-	for i := range shape {
-		shape[i] = int(dim(i))
+	if dims != 2 {
+		return fmt.Errorf("mat: malformed data: %d dimensions", dims)
 	}
-	if dims != 2 || shape[0] < 0 || shape[1] < 0 || shape[0]*shape[1] != length || len(data) != length*int(unsafe.Sizeof(T(0))) {
+	shape := []int{int(dim(0)), int(dim(1))}
+	if shape[0] < 0 || shape[1] < 0 || shape[0]*shape[1] != length || len(data) != length*int(unsafe.Sizeof(T(0))) {
 		return fmt.Errorf("mat: malformed data: shape %v with %d elements", shape, length)
 	}
 	d.requiresGrad = requiresGrad
-- 
2.43.0


From a0e9679af1e551022fedfc838d20932f223681a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 30/37] fix: the derivative of Pow with a null exponent is zero
 everywhere

---
 mat/gradfn/pow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mat/gradfn/pow.go b/mat/gradfn/pow.go
index 0d4ab3b..1bb1a99 100644
--- a/mat/gradfn/pow.go
+++ b/mat/gradfn/pow.go
@@ -40,6 +40,10 @@ func (r *Pow[O]) Backward(gy mat.Tensor) error {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
+		if r.power == 0 { // the derivative of a constant, also where x^-1 is not finite
+			r.x.AccGrad(r.x.Value().(mat.Matrix).ZerosLike())
+			return nil
+		}
 		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
 		gx.ProdScalarInPlace(r.power).ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
-- 
2.43.0


From 51a4c7ac378dd87d987db62475268bb859488c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 31/37] fix: NaN gradients of focal losses with certain
 predictions and gamma less than 1

---
 losses/losses.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/losses/losses.go b/losses/losses.go
index 5ff529c..241b1e1 100644
--- a/losses/losses.go
+++ b/losses/losses.go
@@ -58,10 +58,7 @@ func WeightedCrossEntropy(weights mat.Matrix) func(x mat.Tensor, c int) mat.Tens
 // gamma is the focusing parameter (gamma ≥ 0).
 func FocalLoss(x mat.Tensor, c int, gamma float64) mat.Tensor {
 	ce := CrossEntropy(x, c)
-	p := ag.Exp(ag.Neg(ce))
-	sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1))
-	a := ag.Pow(sub, gamma)
-	return ag.Prod(a, ce)
+	return ag.Prod(focalFactor(ce, gamma), ce)
 }
 
 // WeightedFocalLoss implements a variant of the CrossEntropy loss that reduces
@@ -74,14 +71,23 @@ func FocalLoss(x mat.Tensor, c int, gamma float64) mat.Tensor {
 func WeightedFocalLoss(weights mat.Matrix) func(x mat.Tensor, c int, gamma float64) mat.Tensor {
 	return func(x mat.Tensor, c int, gamma float64) mat.Tensor {
 		ce := CrossEntropy(x, c)
-		p := ag.Exp(ag.Neg(ce))
-		sub := ag.ReverseSub(p, x.Value().(mat.Matrix).NewScalar(1.0))
-		b := ag.Pow(sub, gamma)
-		fl := ag.Prod(b, ce)
+		fl := ag.Prod(focalFactor(ce, gamma), ce)
 		return ag.ProdScalar(fl, weights.At(c))
 	}
 }
 
+// focalFactor returns (1 - p)^gamma, where p is the probability of the gold class.
+func focalFactor(ce mat.Tensor, gamma float64) mat.Tensor {
+	m := ce.Value().(mat.Matrix)
+	sub := ag.ReverseSub(ag.Exp(ag.Neg(ce)), m.NewScalar(1))
+	// The smallest normal number does not affect the result, but it keeps
+	// finite the derivative of the power where p is 1 and gamma is less than 1.
+	return ag.Pow(ag.AddScalar(sub, m.NewScalar(smallestNormal)), gamma)
+}
+
+// smallestNormal is the smallest normal 32-bit floating-point number.
+const smallestNormal = 0x1p-126
+
 // Perplexity computes the perplexity, implemented as exp over the cross-entropy.
 func Perplexity(x mat.Tensor, c int) mat.Tensor {
 	return ag.Exp(CrossEntropy(x, c))
-- 
2.43.0


From ac4d0f44c408aeac9a44ac187a128038d6852777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 32/37] fix: the exponential decay gave NaN or increasing
 learning rates at the end of its steps

---
 optimizers/decay/exponential/exponential.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index 0b6a327..f7c60c7 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -30,6 +30,9 @@ func New(init, final float64, iter int) *Exponential {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Exponential) Decay(lr float64, t int) float64 {
 	if t > 1 && lr > d.final {
+		if t >= d.times {
+			return d.final
+		}
 		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
 	}
 	return lr
-- 
2.43.0


From e9922123e6dcf8b851cd0a03765bd25a93a0d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 33/37] fix: Transpose.Backward accepted gradients of a wrong
 shape when only one dimension matched

---
 mat/gradfn/transpose.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/transpose.go b/mat/gradfn/transpose.go
index 572bd31..bc0b7eb 100644
--- a/mat/gradfn/transpose.go
+++ b/mat/gradfn/transpose.go
@@ -34,7 +34,7 @@ func (r *Transpose[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Transpose[O]) Backward(gy mat.Tensor) error {
-	if r.x.Value().Shape()[1] != gy.Shape()[0] && r.x.Value().Shape()[0] != gy.Shape()[1] {
+	if r.x.Value().Shape()[1] != gy.Shape()[0] || r.x.Value().Shape()[0] != gy.Shape()[1] {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
-- 
2.43.0


From 27537952e3a62261427e43d77f227e61cebb0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 34/37] fix: NaN is not within any delta of a number

---
 mat/float/floatslice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/float/floatslice.go b/mat/float/floatslice.go
index 5ad7118..b641ce5 100644
--- a/mat/float/floatslice.go
+++ b/mat/float/floatslice.go
@@ -106,7 +106,7 @@ func (fs floatSlice[T]) InDelta(other Slice, delta float64) bool {
 	o := SliceValueOf[T](other)
 	_ = o[len(fs)-1]
 	for i, v := range fs {
-		if math.Abs(float64(v-o[i])) > delta {
+		if v != o[i] && !(math.Abs(float64(v-o[i])) <= delta) { // NaN is not within any delta
 			return false
 		}
 	}
-- 
2.43.0


From 8bc544660c3c2e1d7755f7b1f7c515dfdb60a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 35/37] fix: exponential decay must not leave the range of the
 rates by rounding errors

---
 optimizers/decay/exponential/exponential.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index f7c60c7..896c3bb 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -33,7 +33,8 @@ func (d *Exponential) Decay(lr float64, t int) float64 {
 		if t >= d.times {
 			return d.final
 		}
-		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
+		next := math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
+		return math.Min(lr, math.Max(next, d.final)) // rounding errors must not lead outside
 	}
 	return lr
 }
-- 
2.43.0


From 3dbf71ac367004087a232744ac8866414d9e979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 36/37] fix: an AdamW optimizer which is saved and loaded stays
 one

---
 optimizers/adam/adam.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/optimizers/adam/adam.go b/optimizers/adam/adam.go
index 4a494de..045db6b 100644
--- a/optimizers/adam/adam.go
+++ b/optimizers/adam/adam.go
@@ -73,7 +73,6 @@ type Adam struct {
 	Config
 	Alpha    float64
 	TimeStep int
-	adamw    bool
 }
 
 // New returns a new Adam optimizer, initialized according to the given configuration.
@@ -81,7 +80,6 @@ func New(c Config) *Adam {
 	adam := &Adam{
 		Config: c,
 		Alpha:  c.StepSize,
-		adamw:  c.Lambda != 0.0,
 	}
 	adam.IncExample() // initialize 'alpha' coefficient
 	return adam
@@ -172,7 +170,7 @@ func (o *Adam) OptimizeParams(param *nn.Param) error {
 		return fmt.Errorf("unsupported state type: %T, expected %T", param.State, &State{})
 	}
 
-	if o.adamw {
+	if o.Lambda != 0.0 { // AdamW
 		param.SubInPlace(o.calculateParamUpdateW(param.Grad().(mat.Matrix), state, param.Value().(mat.Matrix)))
 		param.ZeroGrad()
 		return nil
-- 
2.43.0


From d9b4050f534ffa48457d760a09fe13117aafd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 37/37] fix: a refused draw must not leave the random generator
 locked forever

---
 mat/rand/lockedrand.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/mat/rand/lockedrand.go b/mat/rand/lockedrand.go
index c51c5f8..ffe042e 100644
--- a/mat/rand/lockedrand.go
+++ b/mat/rand/lockedrand.go
@@ -71,9 +71,8 @@ func (lr *LockedRand) Uint64() (n uint64) {
 // for any n that is not a power of 2.
 func (lr *LockedRand) Uint64n(n uint64) uint64 {
 	lr.lk.Lock()
-	n = lr.r.Uint64n(n)
-	lr.lk.Unlock()
-	return n
+	defer lr.lk.Unlock()
+	return lr.r.Uint64n(n)
 }
 
 // Int31 returns a non-negative pseudo-random 31-bit integer as an int32.
@@ -96,27 +95,24 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
-	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
-	return
+	defer lr.lk.Unlock()
+	return lr.r.Int63n(n)
 }
 
 // Int31n returns, as an int32, a non-negative pseudo-random number in [0,n).
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
-	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
-	return
+	defer lr.lk.Unlock()
+	return lr.r.Int31n(n)
 }
 
 // Intn returns, as an int, a non-negative pseudo-random number in [0,n).
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
-	r = lr.r.Intn(n)
-	lr.lk.Unlock()
-	return
+	defer lr.lk.Unlock()
+	return lr.r.Intn(n)
 }
 
 // NormFloat64 returns a normally distributed value in the range
@@ -149,9 +145,8 @@ func (lr *LockedRand) Float64() (n float64) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
-	r = lr.r.Perm(n)
-	lr.lk.Unlock()
-	return
+	defer lr.lk.Unlock()
+	return lr.r.Perm(n)
 }
 
 // Read generates len(p) random bytes and writes them into p. It
@@ -169,6 +164,6 @@ func (lr *LockedRand) Read(p []byte) (n int, err error) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(i int, swap func(i int, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(i, swap)
-	lr.lk.Unlock()
 }
-- 
2.43.0

