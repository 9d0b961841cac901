From 846f6bfb4f467a770791ccb8016704072e56c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 01/21] fix: transpose the first Jacobian in the diagonal modes
 of AbstractJacobian.jTmjp

---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 7b5ff0948fd212df396ab2b2e1cf3e9431cc2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 02/21] fix: AbstractJacobian products accept None as the
 identity matrix

---
 nnj/abstract_jacobian.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..d0b1809 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -83,6 +83,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # None means identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -121,6 +123,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # None means identity
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -180,6 +185,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # None means identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -218,6 +225,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # None means identity
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
-- 
2.43.0


From 53e4ce3e8f7b605bf1333739ebd9cac8778519ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 03/21] fix: L2Norm.jacobian differentiates the norm itself,
 not norm + eps

---
 nnj/l2norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..fea693e 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,7 +37,9 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
+            # direction of x, which is the derivative of its norm (zero in the origin)
+            direction = torch.einsum("b,bi->bi", 1.0 / torch.where(norm > 0, norm, torch.ones_like(norm)), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, direction)
             jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
-- 
2.43.0


From 343f9097707fca0cb9e72e1c3cab5083d944d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 04/21] fix: Softplus.jacobian honours the threshold of the
 forward pass

---
 nnj/softplus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..e40b708 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,10 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            diag_jacobian = torch.sigmoid(self.beta * x)
+            # above the threshold the forward pass is the identity
+            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)
+            diag_jacobian = diag_jacobian.reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From 92e8fc57704724a0a9ede9a57c07ffddf5453695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 05/21] fix: MaxPool2d backward products accumulate over
 overlapping windows

---
 nnj/maxpool2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..e3b2ca1 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -173,7 +173,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)  # pooling windows can overlap
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -212,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)  # pooling windows can overlap
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -263,7 +263,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                # accumulate, as pooling windows can overlap
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -296,7 +297,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                # accumulate, as pooling windows can overlap
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From 10ee01dbe6be135f49e62b5f9d94c8b0a4d621ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 06/21] fix: MaxPool2d.jmp accepts matrices with any number of
 columns

---
 nnj/maxpool2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index e3b2ca1..f15e361 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -96,10 +96,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
-- 
2.43.0


From 8bd3233773f3748e3a50971ee28d4796592bc5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 07/21] fix: Conv2d, MaxPool2d, Upsample and L2Norm products
 keep the dtype of the input

---
 nnj/conv2d.py    | 10 +++++-----
 nnj/l2norm.py    |  2 +-
 nnj/maxpool2d.py |  8 ++++----
 nnj/upsample.py  | 18 +++++++++++++-----
 4 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..f9387a3 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index fea693e..d8d3ecc 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -40,7 +40,7 @@ class L2Norm(AbstractJacobian, nn.Module):
             # direction of x, which is the derivative of its norm (zero in the origin)
             direction = torch.einsum("b,bi->bi", 1.0 / torch.where(norm > 0, norm, torch.ones_like(norm)), x)
             jacobian = torch.einsum("bi,bj->bij", normalized_x, direction)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index f15e361..600c790 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -44,7 +44,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -172,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)  # pooling windows can overlap
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -211,7 +211,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)  # pooling windows can overlap
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -262,7 +262,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
                 # accumulate, as pooling windows can overlap
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..30ab5a2 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +174,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(
+                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+            )
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +223,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +274,9 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(
+                    1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
+                )
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From 60c93f540b5d7a2ef7e3dde422978d326583af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 08/21] fix: SkipConnection.jacobian passes only the inner part
 of val to the wrapped network

---
 nnj/skipconnection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..f985c19 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -25,7 +25,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         wrt: Literal["input", "weight"] = "input",
     ) -> Tensor:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
-- 
2.43.0


From 20ef1d9bfade591cb9bbbe06866fbe4dbd1b28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 09/21] fix: SkipConnection without parameters returns None for
 products wrt weight

---
 nnj/skipconnection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index f985c19..d9087a1 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -26,6 +26,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
     ) -> Tensor:
         """Returns the Jacobian matrix"""
         jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
+        if jac is None:  # no parametric layers inside
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -55,6 +57,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        if jvp is None:  # no parametric layers inside
+            return None
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -77,6 +81,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         b = x.shape[0]
         l = x[0].numel()
         jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        if jmp is None:  # no parametric layers inside
+            return None
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -111,6 +117,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             to_diag=to_diag,
             diag_backprop=diag_backprop,
         )
+        if jmjTp is None:  # no parametric layers inside
+            return None
         if wrt == "input":
             if to_diag:
                 if from_diag:
-- 
2.43.0


From 48b1f9bc8118e8251a540d056b5ced8de1075c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 10/21] fix: None as identity metric for image-shaped values
 and in SkipConnection.jmjTp

---
 nnj/conv2d.py         | 2 +-
 nnj/sequential.py     | 2 +-
 nnj/skipconnection.py | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index f9387a3..b7692c7 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..0086d27 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -142,7 +142,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
             val = self.forward(x)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index d9087a1..43a1382 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -106,6 +106,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
+        if matrix is None and wrt == "input":
+            matrix = torch.ones_like(x).reshape(x.shape[0], -1)
+            from_diag = True
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
         jmjTp = self._F.jmjTp(
@@ -201,7 +204,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
-- 
2.43.0


From 7c0d4c03d251878bc9efd521fff8ff3384853ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 11/21] fix: accept None as identity metric together with
 diag_backprop

---
 nnj/sequential.py     | 4 ++--
 nnj/skipconnection.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 0086d27..b28be3d 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -135,7 +135,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
 
         # forward pass
         if val is None:
@@ -300,7 +300,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         # forward pass
         if val is None:
             val = self.forward(x)
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 43a1382..e2d2ba2 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -103,7 +103,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None and wrt == "input":
@@ -200,7 +200,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0


From f44c5b5c5fb30a030684211ad2005db3e19a28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 12/21] fix: likelihoods accept their own default
 aggregate_batch="return all"

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..d97f603 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,7 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 30db398f98f55284167745740ac987f15c569c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 13/21] fix: LogBernoulli.ggn handles outputs with several
 softmax dimensions

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index d97f603..6ec6fab 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -225,7 +225,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-- 
2.43.0


From fdf444d2b169c76e3e0035edb8778f92b95ca2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 14/21] fix: likelihood ggn aggregates lists of per-layer
 blocks

---
 nnj/log_likelihoods.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 6ec6fab..f6b2157 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -23,6 +23,16 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate_ggn(self, JtHJ):
+        if isinstance(JtHJ, list):  # one (batch of) block for each layer
+            return [self._aggregate_ggn(block) for block in JtHJ]
+        if self.aggregate_batch == "return all":
+            return JtHJ
+        elif self.aggregate_batch == "sum":
+            return torch.sum(JtHJ, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(JtHJ, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -85,12 +95,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_ggn(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -161,12 +166,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_ggn(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -253,9 +253,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_ggn(JtHJ)
-- 
2.43.0


From f4f5d140e4bc38d9844441780778134a6c3129d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 15/21] fix: invert_block_diagonal factorises before calling
 cholesky_inverse

---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6e0d9c3 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -42,4 +42,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From 5c8b54db8a84e63f685eb87d81ab096d99f80573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 16/21] fix: convert_to_nnj keeps the configuration of the
 converted layers

---
 nnj/utils.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6e0d9c3..01def9d 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -14,21 +14,50 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+                recompute_scale_factor=layer.recompute_scale_factor,
+            )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Flatten":
+            if (layer.start_dim, layer.end_dim) != (1, -1):
+                raise ValueError(f"I can only flatten all the dimensions but the first one, not {layer}")
+            nnj_layer = nnj.Flatten()
+        elif layer.__class__.__name__ == "Sequential":
+            nnj_layer = convert_to_nnj(layer)
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 3cf9976acc8626083b4c5a4d252d12057e59a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 17/21] fix: refuse padding modes and upsampling modes whose
 Jacobian is not implemented

---
 nnj/conv2d.py   | 2 ++
 nnj/upsample.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index b7692c7..9ef4162 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -39,6 +39,8 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
             raise ValueError(
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
+        if self.padding_mode != "zeros":
+            raise ValueError(f"I can't handle padding_mode = {self.padding_mode}, sorry. Only zeros is supported")
 
     @torch.no_grad()
     def jacobian(
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 30ab5a2..48aa5d9 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -11,6 +11,10 @@ class Upsample(nn.Upsample, AbstractJacobian):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._n_params = 0
+        if self.mode not in ("nearest", "nearest-exact"):
+            raise ValueError(f"I can't handle mode = {self.mode}, sorry. Only nearest is supported")
+        if isinstance(self.scale_factor, float) and not self.scale_factor.is_integer():
+            raise ValueError(f"I can't handle scale_factor = {self.scale_factor}, sorry. It has to be an integer")
 
     @torch.no_grad()
     def jacobian(
-- 
2.43.0


From a13bba1ded08a5a2705001b61ce251492f3a7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 18/21] fix: Sequential records its feature maps in forward, so
 copies and repeated layers work

---
 nnj/sequential.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index b28be3d..2b000a6 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,18 +20,14 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
         for module in self._modules.values():
             val = module(x)
+            if self.add_hooks:
+                self.feature_maps.append(val.detach())
             x = val
         return x
 
-- 
2.43.0


From 9c1a3fa19af89ca1efc858c5b74b93a9ab4e3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 19/21] fix: convert_to_nnj refuses
 MaxPool2d(return_indices=True) instead of dropping the indices

---
 nnj/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/utils.py b/nnj/utils.py
index 01def9d..ed88cd6 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -35,6 +35,8 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             if layer.bias is not None:
                 nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
+            if getattr(layer, "return_indices", False):
+                raise ValueError(f"I can't return the indices of the maxima, sorry: {layer}")
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
                 stride=layer.stride,
-- 
2.43.0


From ccd0e78f577cd38c570138258cc6015a7e7ef240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:05 +0000
Subject: [PATCH 20/21] fix: Bernoulli likelihood gradients and ggn do not
 overflow for large outputs

---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index f6b2157..adeeaa5 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -130,7 +130,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -152,7 +152,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -200,9 +200,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -227,9 +225,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From 3cfb6a2f4bed75ee91152b4516aed6b719c5c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 21/21] fix: containers follow layers appended, replaced or
 removed after construction

Sequential kept a second list of its layers and the parameter count of its constructor call, SkipConnection
the parameter count: after append, insert, net[i] = layer or del net[i] the products silently
differentiated the old layers.
---
 nnj/sequential.py     | 16 +++++++++-------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 2b000a6..1d9eb38 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,20 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
 
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    # layers can be appended, inserted, replaced or deleted after construction, as in any nn.Sequential
+    @property
+    def _modules_list(self) -> List[nn.Module]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules_list)
+
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index e2d2ba2..2f927c6 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0

