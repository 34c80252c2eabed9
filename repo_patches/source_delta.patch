From c1e1e4da203b85ac87b1b29721ce3320dae47163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 01/47] fix: aitisa_resolve returns its status

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From 72cde4869c83114edb150ef02b5e11467d85c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 02/47] fix: export the default allocator so that users of the
 shared library can set it

---
 src/core/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/allocator.h b/src/core/allocator.h
index c24140c..b5a168a 100644
--- a/src/core/allocator.h
+++ b/src/core/allocator.h
@@ -16,7 +16,7 @@ typedef struct {
   RawDealloc raw_dealloc; /**< De-allocator functions*/
 } Allocator;
 
-extern Allocator _g_default_cpu_allocator;
+AITISA_API_PUBLIC extern Allocator _g_default_cpu_allocator;
 
 static inline Allocator* aitisa_default_cpu_allocator() {
   return &_g_default_cpu_allocator;
-- 
2.43.0


From da6c38c64943523ec625e82f717a113b974751d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/47] fix: a failing aitisa_create releases what it has
 allocated

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 23 +++++++++++++++++------
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..65d5075 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -6,16 +6,27 @@
 Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim, 
                      void *data, unsigned int len, Tensor *output) {
   Tensor tensor;
+  Status status;
+  int64_t size = size_of_dims(dims, ndim);
+  if(data){
+    if(len/dtype.size != size) return STATUS_INVALID_ARGUMENT;
+  }
   tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
   if (!tensor) return STATUS_ALLOC_FAILED;
-  tensor->size = size_of_dims(dims, ndim);
+  tensor->size = size;
   tensor->offset = 0;
-  if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+  status = aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 350b8f6379aa34e6ebd6003583542caa3ac048f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 04/47] fix: reject negative extents and element counts that
 overflow

---
 src/core/storage.c | 1 +
 src/core/tensor.c  | 1 +
 src/core/utils.h   | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/storage.c b/src/core/storage.c
index e2dd13b..3f073d0 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -4,6 +4,7 @@
 Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
                              void *data, Storage *storage) {
   Storage new_storage;
+  if (size > INT64_MAX / dtype.size) return STATUS_ALLOC_FAILED;
   new_storage =
       aitisa_default_cpu_allocator()->raw_alloc(
           sizeof(*new_storage));
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 65d5075..55f0413 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -8,6 +8,7 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   Tensor tensor;
   Status status;
   int64_t size = size_of_dims(dims, ndim);
+  if (ndim < 0 || size < 0) return STATUS_INVALID_ARGUMENT;
   if(data){
     if(len/dtype.size != size) return STATUS_INVALID_ARGUMENT;
   }
diff --git a/src/core/utils.h b/src/core/utils.h
index 9660f28..7d031bf 100644
--- a/src/core/utils.h
+++ b/src/core/utils.h
@@ -4,11 +4,13 @@
 #include <stdint.h>
 
 /*
- *  Product of all dimensions
+ *  Product of all dimensions, or -1 if a dimension is negative or the product
+ *  does not fit into int64_t
  */
 static inline int64_t size_of_dims(int64_t *dims, int ndim) {
   int64_t r = 1;
   for (int64_t i = 0; i < ndim; ++i) {
+    if (dims[i] < 0 || (dims[i] > 0 && r > INT64_MAX / dims[i])) return -1;
     r *= dims[i];
   }
   return r;
-- 
2.43.0


From 44e2cd91f38eb2bab4b43f3e6624d7fae9aedd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 05/47] fix: cast to the same type returns a tensor instead of
 leaving the output unset

---
 src/basic/cast.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/basic/cast.c b/src/basic/cast.c
index 3811ebf..7604ce1 100644
--- a/src/basic/cast.c
+++ b/src/basic/cast.c
@@ -72,12 +72,6 @@ static Status cast_template(const Tensor input, DataType out_dtype,
 }
 
 Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
-  // If the DataType of input and the DataType to cast to are identical,
-  // then do nothing.
-  DataType in_dtype = aitisa_tensor_data_type(input);
-  if (in_dtype.code == dtype.code) {
-    return STATUS_SUCCESS;
-  }
   // Create output
   Tensor new_tensor;
   Device device = aitisa_tensor_device(input);
-- 
2.43.0


From d73d1ca2419b16dda49ffee9c0f6397dafe6a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 06/47] fix: slice range check cannot overflow any more

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..e24dcc4 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -53,7 +53,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || size[i] > in_dims[i] - begin[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 03637cd7cdbb9791a9e113a003fe8a17d588e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 07/47] fix: slice and duplicate of a rank-0 tensor do not
 write before the index array

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index e24dcc4..921d4c3 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -108,7 +108,7 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) offset_recorder[in_ndim - 1] = 1;
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From 363d82c8c550c41692878fe4979bc05c8710e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 08/47] fix: slice and duplicate check every allocation and
 release everything when one fails

---
 src/basic/duplicate.c | 11 +++++------
 src/basic/slice.c     | 34 +++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..5942a37 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -6,12 +6,13 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   Tensor new_tensor;
   int64_t *dims = aitisa_tensor_dims(input);
   int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
-  int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
-  int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) {
+  int *begin =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim * 3);
+  if (!begin) {
     return STATUS_ALLOC_FAILED;
   }
+  int *size = begin + ndim;
+  int *step = size + ndim;
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = (int)(dims[i]);
@@ -22,7 +23,5 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
     *output = new_tensor;
   }
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
   return status;
 }
diff --git a/src/basic/slice.c b/src/basic/slice.c
index 921d4c3..edc4afe 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -93,17 +99,15 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   // Make an index_recorder which records the index of present input
   // element being processed, then initialize it
   int64_t *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
-      sizeof(*index_recorder) * in_ndim);
+      sizeof(*index_recorder) * in_ndim * 3);
+  if (!index_recorder) {
+    return STATUS_ALLOC_FAILED;
+  }
   // Make a boundary to judge whether the index is out of slice range
-  int64_t *boundary =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*boundary) * in_ndim);
+  int64_t *boundary = index_recorder + in_ndim;
   // Make an offset_recorder which records every linear offset of each
   // dimension
-  int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
-      sizeof(*offset_recorder) * in_ndim);
-  if (!index_recorder || !boundary || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
-  }
+  int64_t *offset_recorder = boundary + in_ndim;
   for (int i = 0; i < in_ndim; i++) {
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
@@ -117,8 +121,6 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, slice_kernel);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(boundary);
-  aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
   return STATUS_SUCCESS;
 }
 
@@ -127,9 +129,15 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Make sure parameters are correct
   CHECK_STATUS(slice_check_parameters(input, begin, size, step));
   // Create output
-  CHECK_STATUS(slice_create_output(input, begin, size, step, output));
+  Tensor new_tensor;
+  CHECK_STATUS(slice_create_output(input, begin, size, step, &new_tensor));
   // Implement slice
   Status status;
-  status = slice_template(input, begin, size, step, output);
+  status = slice_template(input, begin, size, step, &new_tensor);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 7f7cd3d780d39d1b94f026a0bc07a9cb8d722cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 09/47] fix: squeeze rejects axes outside the tensor and
 tolerates repeated ones and zero extents

---
 src/basic/squeeze.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..d9e442f 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
@@ -27,14 +27,14 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+      if (processed_in_dims[axis[i]] == 1) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -46,7 +46,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (!out_dims) return STATUS_ALLOC_FAILED;
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From d026f9438938d1f94cca00d23222da0528f39602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 10/47] fix: squeeze releases its temporary when an allocation
 fails

---
 src/basic/squeeze.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index d9e442f..6e7759b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -43,7 +43,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != -1) {
-- 
2.43.0


From e152c385182f07d104836611ddab498ba64ab754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 11/47] fix: a failing aitisa_sqrt hands out no tensor

---
 src/math/sqrt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math/sqrt.c b/src/math/sqrt.c
index 54737bc..c5fa3c0 100644
--- a/src/math/sqrt.c
+++ b/src/math/sqrt.c
@@ -35,8 +35,14 @@ static Status sqrt_template(const Tensor input, Tensor *output) {
 
 Status aitisa_sqrt(const Tensor input, Tensor *output) {
   // Create output
-  CHECK_STATUS(sqrt_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(sqrt_create_output(input, &new_tensor));
   // Implement square root
-  Status status = sqrt_template(input, output);
+  Status status = sqrt_template(input, &new_tensor);
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 58b1820b049c258b66eca174e3a7bf5ed0c5c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 12/47] fix: sigmoid and tanh of an unsupported type hand out
 no tensor

---
 src/nn/sigmoid.c | 3 +++
 src/nn/tanh.c    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nn/sigmoid.c b/src/nn/sigmoid.c
index e190ba2..36c315b 100644
--- a/src/nn/sigmoid.c
+++ b/src/nn/sigmoid.c
@@ -15,6 +15,9 @@ Status aitisa_sigmoid(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..f88e2ff 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -16,6 +16,9 @@ Status aitisa_tanh(const Tensor input, Tensor *output) {
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
-- 
2.43.0


From e876bfca0120169c95fe9576fd84edfc6afcc27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 13/47] fix: tanh of large values is not NaN

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index f88e2ff..7921b01 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From 07301f58495bd2287fd7e0dd15fc558b6a6c0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 14/47] fix: softmax of large values does not overflow

---
 src/nn/softmax.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..cf9ff77 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -23,8 +23,13 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   /*calculate exp(in_data) and temporarily save them in out_data*/    \
   int64_t size = aitisa_tensor_size(input);                           \
   double total = 0;                                                   \
+  /*subtract the maximum so that exp cannot overflow*/                \
+  double max = size > 0 ? (double)in_data[0] : 0;                     \
+  for(int64_t i=1; i<size; i++){                                      \
+    if(in_data[i] > max) max = in_data[i];                            \
+  }                                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
+    out_data[i] = (typename)exp(in_data[i] - max);                    \
     total += out_data[i];                                             \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
@@ -56,11 +61,17 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     int64_t linear_idx_copy = linear_idx;                       \
     /*implement softmax*/                                       \
     double total = 0;                                           \
+    /*subtract the maximum so that exp cannot overflow*/        \
+    double max = dims[axis] > 0 ? (double)in_data[linear_idx] : 0; \
+    for(int64_t i=1; i<dims[axis]; i++){                        \
+      double value = in_data[linear_idx + i * element_offset];  \
+      if(value > max) max = value;                              \
+    }                                                           \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       /*calculate the exp(in_data) and                          \
         temporarily save them in out_data*/                     \
       out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
+        (typename)exp(in_data[linear_idx] - max);               \
       total += out_data[linear_idx];                            \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
-- 
2.43.0


From edbccfa4007f82b8b3ba42b4aecd3bac942fe8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 15/47] fix: a failing softmax hands out no tensor and releases
 its memory

---
 src/nn/softmax.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index cf9ff77..be01429 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -111,13 +113,12 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   }
   // Make an index-recorder of each sample
   int64_t *index_recorder =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
-  // Make an offset-recorder of each sample
-  int64_t *offset_recorder =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
-  if(!index_recorder || !offset_recorder){
+    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim * 2);
+  if(!index_recorder){
     return STATUS_ALLOC_FAILED;
   }
+  // Make an offset-recorder of each sample
+  int64_t *offset_recorder = index_recorder + ndim;
   for(int64_t i=0; i<ndim; i++){
     index_recorder[i] = 0;
   }
@@ -134,7 +135,6 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, softmax_along_axis_kernel);
 
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
   return STATUS_SUCCESS;
 }
 
@@ -146,17 +146,23 @@ Status aitisa_softmax(const Tensor input, const int axis,
   }
 
   // Create output tensor
-  CHECK_STATUS(softmax_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(softmax_create_output(input, &new_tensor));
 
   Status status;
   switch(axis){
     case -1:{
-      status = softmax_with_all(input, output);
+      status = softmax_with_all(input, &new_tensor);
       break;
     }
     default:{
-      status = softmax_along_axis(input, axis, output);
+      status = softmax_along_axis(input, axis, &new_tensor);
     }
   }
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }else{
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 33a8b5ba8ae9626e7e6a7e67d52b6e0b6bc6b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 16/47] fix: dropout rejects a rate that is not a number

---
 src/nn/dropout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..ea977a1 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -25,7 +25,7 @@ static Status dropout_template(Tensor *tensor, const double rate) {
 
 Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   // Check if rate satisfy 0 <= rate <= 1
-  if (rate < 0 || rate > 1) {
+  if (!(rate >= 0 && rate <= 1)) {
     return STATUS_INVALID_ARGUMENT;
   }
   // Copy input
-- 
2.43.0


From 900aaa751079e3d2f1e6fe62f27d280918e430d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 17/47] fix: product of uint16 elements does not overflow int

---
 src/math/binary_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..0c6eeae 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -68,7 +68,7 @@ void calc_uint16_value(void *a, void *b, OpCode op, void *c) {
       *(uint16_t *)c = (*(uint16_t *)a) - (*(uint16_t *)b);
       break;
     case OP_MUL:
-      *(uint16_t *)c = (*(uint16_t *)a) * (*(uint16_t *)b);
+      *(uint16_t *)c = (uint32_t)(*(uint16_t *)a) * (*(uint16_t *)b);
       break;
     case OP_DIV:
       *(uint16_t *)c = (*(uint16_t *)a) / (*(uint16_t *)b);
-- 
2.43.0


From e99c2eba35329548e2a037f1fbf8945f975519c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 18/47] fix: element-wise operations cannot crash when memory
 runs out

---
 src/math/binary_op.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 0c6eeae..836ff47 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -233,17 +233,15 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // Room for one element of any data type
+  int64_t element[3];
+  void *a = &element[0], *b = &element[1], *c = &element[2];
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -279,17 +277,15 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // Room for one element of any data type
+  int64_t element[3];
+  void *a = &element[0], *b = &element[1], *c = &element[2];
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -325,17 +321,15 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // Room for one element of any data type
+  int64_t element[3];
+  void *a = &element[0], *b = &element[1], *c = &element[2];
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
 
@@ -371,16 +365,14 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
   DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
+  // Room for one element of any data type
+  int64_t element[3];
+  void *a = &element[0], *b = &element[1], *c = &element[2];
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 7ccd1b374bcb7d02a3b277a60d52997c5bbbfc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 19/47] fix: integer division by zero is a math error instead
 of a trap

---
 src/math/binary_op.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 836ff47..3b3ac53 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -333,6 +333,39 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   return STATUS_SUCCESS;
 }
 
+#define DIV_CHECK_SIGNED(type, min)                                        \
+  for (int64_t i = 0; i < size; i++) {                                     \
+    if (((type *)data2)[i] == 0 ||                                         \
+        (((type *)data2)[i] == -1 && ((type *)data1)[i] == min)) {         \
+      return STATUS_MATH_ERROR;                                            \
+    }                                                                      \
+  }                                                                        \
+  break;
+
+#define DIV_CHECK_UNSIGNED(type)                                           \
+  for (int64_t i = 0; i < size; i++) {                                     \
+    if (((type *)data2)[i] == 0) return STATUS_MATH_ERROR;                 \
+  }                                                                        \
+  break;
+
+// Integer division has no result if the divisor is zero or the quotient does
+// not fit into the data type
+static Status div_check_elements(DataType dtype, void *data1, void *data2,
+                                 int64_t size) {
+  switch (dtype.code) {
+    case TYPE_INT8: DIV_CHECK_SIGNED(int8_t, INT8_MIN)
+    case TYPE_UINT8: DIV_CHECK_UNSIGNED(uint8_t)
+    case TYPE_INT16: DIV_CHECK_SIGNED(int16_t, INT16_MIN)
+    case TYPE_UINT16: DIV_CHECK_UNSIGNED(uint16_t)
+    case TYPE_INT32: DIV_CHECK_SIGNED(int32_t, INT32_MIN)
+    case TYPE_UINT32: DIV_CHECK_UNSIGNED(uint32_t)
+    case TYPE_INT64: DIV_CHECK_SIGNED(int64_t, INT64_MIN)
+    case TYPE_UINT64: DIV_CHECK_UNSIGNED(uint64_t)
+    default: break;
+  }
+  return STATUS_SUCCESS;
+}
+
 Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -356,6 +389,9 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  CHECK_STATUS(div_check_elements(
+      aitisa_tensor_data_type(tensor1), aitisa_tensor_data(tensor1),
+      aitisa_tensor_data(tensor2), aitisa_tensor_size(tensor1)));
   // create output
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
-- 
2.43.0


From 16188ed9c2d3ded3b5109f5dd8da5e653560f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 20/47] fix: max pooling of negative and large 64-bit elements

---
 src/nn/pooling.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..5fa7ce2 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,8 +9,9 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
-      temp = ((typename*)in_data)[linear_idx];        \
+    if (max_idx < 0 || ((typename*)in_data)[max_idx] <    \
+                       ((typename*)in_data)[linear_idx]) { \
+      max_idx = linear_idx;                           \
     }                                                 \
   }
 
@@ -19,7 +20,11 @@
     ((typename*)out_data)[out_linear_idx] = (typename)(temp / window_size);   \
   }                                                                           \
   else if (!strcmp(mode, "max")) {                                            \
-    ((typename*)out_data)[out_linear_idx] = (typename)temp;                   \
+    /* padded elements count as zero */                                       \
+    ((typename*)out_data)[out_linear_idx] = 0;                                \
+    if (max_idx >= 0 && (!has_padded || ((typename*)in_data)[max_idx] > 0)) { \
+      ((typename*)out_data)[out_linear_idx] = ((typename*)in_data)[max_idx];  \
+    }                                                                         \
   }
 
 
@@ -109,6 +114,8 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int64_t max_idx = -1;
+        int has_padded = 0;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -118,6 +125,7 @@ static Status pooling_double(const Tensor input, const char *mode,
               linear_idx += index[i] * strides[i];
             }else{
               padded = 1;
+              has_padded = 1;
               break;
             }
           }
-- 
2.43.0


From 03baf78cfebb9c61da1be383fa9403092d380d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 21/47] fix: a failing pooling releases its memory and survives
 a failed allocation

---
 src/nn/pooling.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 5fa7ce2..0721217 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -56,29 +56,29 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
-  int64_t *out_dims =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim);
-  int64_t *index =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index)*ndim);
-  int64_t *strides =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*strides)*ndim);
-  int64_t *out_strides =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides)*ndim);
-  int64_t *k_head =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
-  int64_t *k_tail =
-    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
     if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  int64_t *out_dims =
+    aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim*6);
+  if(!out_dims) return STATUS_ALLOC_FAILED;
+  int64_t *index = out_dims + ndim;
+  int64_t *strides = index + ndim;
+  int64_t *out_strides = strides + ndim;
+  int64_t *k_head = out_strides + ndim;
+  int64_t *k_tail = k_head + ndim;
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  Status status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if(status != STATUS_SUCCESS){
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
@@ -169,11 +169,6 @@ static Status pooling_double(const Tensor input, const char *mode,
   *output = new_tensor;
   // Destroy temporary variables
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(index);
-  aitisa_default_cpu_allocator()->raw_dealloc(k_head);
-  aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
-  aitisa_default_cpu_allocator()->raw_dealloc(strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
 
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From b2f31d19528d8279178b9ef9c7492d148736cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 22/47] fix: pooling rejects unknown modes and invalid window,
 stride, padding or dilation

---
 src/nn/pooling.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 0721217..c848115 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -39,7 +39,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (double)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -56,9 +56,16 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
-  // Check whether the kernel window is larger than a channel
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_INVALID_ARGUMENT;
+  }
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+    // Check whether the kernel window is larger than a channel
+    if((int64_t)(ksize[i]-1)*dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
       return STATUS_INVALID_ARGUMENT;
     }
   }
@@ -104,7 +111,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
       }
       int window_idx = 0;
       int hasWindow = 1;
@@ -152,12 +159,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0


From 6c443c3781210f943689b0e39fac2ac48fef4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 23/47] fix: convolution returns its status

---
 src/nn/conv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..1559599 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -127,6 +127,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
 }
 
 /*
@@ -145,6 +146,7 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
     default:
       return STATUS_NOT_SUPPORTED;
   }
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-- 
2.43.0


From b0d4fcfd382aa0517882a40043de19e6532b62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 24/47] fix: convolution rejects filters, windows and groups
 that do not fit its input

---
 src/nn/conv.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 1559599..f44016d 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,11 +16,49 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + ((int64_t)2 * padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
 
+/*
+ * Check that the filter fits the input and that every window, stride, padding
+ * and dilation is valid.
+ */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (aitisa_tensor_data_type(filter).code !=
+      aitisa_tensor_data_type(input).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  if (ndim < 2 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  if (groups < 1 || in_chan % groups != 0 ||
+      aitisa_tensor_dim(filter, 0) % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (aitisa_tensor_dim(filter, 1) != in_chan / groups) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t fil_dim = aitisa_tensor_dim(filter, d);
+    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1 ||
+        fil_dim < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    int64_t padded =
+        aitisa_tensor_dim(input, d) + (int64_t)2 * padding[d - 2];
+    if (fil_dim > (padded - 1) / dilation[d - 2] + 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -140,6 +178,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
   DataType dtype = aitisa_tensor_data_type(input);
   switch (dtype.code) {
     case TYPE_FLOAT:
+      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
+                                         dilation, groups));
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                      groups, output_ptr));
       break;
-- 
2.43.0


From 5f716c5e2a3eec9a0a89595746e2cc3cae9a93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 25/47] fix: convolution splits its channels into groups

---
 src/nn/conv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index f44016d..8306613 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -107,7 +107,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  // Each group of output channels sees only its own group of input channels.
+  int64_t in_chan = aitisa_tensor_dim(filter, 1);
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
   int64_t sdim = ndim - 2;
 
@@ -125,7 +126,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
 
         float tmp = 0.0;
         for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+          in_coords[1] = oc / (out_chan / groups) * in_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
-- 
2.43.0


From 9e27e4d23e43d2132622ff20ae430d2532b05d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 26/47] fix: convolution survives a failed allocation and
 releases its memory

---
 src/nn/conv.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 8306613..223eb4d 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -84,14 +84,20 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
 
+  Status status = STATUS_SUCCESS;
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
+  }
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  status = aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) goto cleanup;
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
@@ -158,6 +164,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
     }
   }
 
+cleanup:
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
   aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
@@ -166,7 +173,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 /*
-- 
2.43.0


From 1861fd39d64e01483e77861c78d221bf9806df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 27/47] fix: convolution over zero input channels stores its
 (zero) result

---
 src/nn/conv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 223eb4d..2d08ac4 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -156,10 +156,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
               tmp += in_data[in_offset] * fil_data[fil_offset];
             }
           }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
         }
+        int64_t out_offset =
+            aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+        out_data[out_offset] = tmp;
       }
     }
   }
-- 
2.43.0


From f452c5a45823d0e3ee0264dbf77d72385440fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 28/47] fix: matmul rejects operands of different data types

---
 src/math/matmul.c | 4 ++++
 src/math/matmul.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..8fb746d 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
diff --git a/src/math/matmul.h b/src/math/matmul.h
index a2f61ff..2d4b488 100644
--- a/src/math/matmul.h
+++ b/src/math/matmul.h
@@ -28,6 +28,7 @@
  * @return Status.
  * @retval STATUS_SUCCESS Success.
  * @retval STATUS_NOT_SUPPORTED The device type or data type is not supported.
+ * @retval STATUS_TYPE_MISMATCH The data types of inputs are different.
  * @retval STATUS_INVALID_ARGUMENT The dims of inputs are invalid.
  * @retval STATUS_DIMENSIONS_MISMATCH The dims of inputs are mismatched.
  *
-- 
2.43.0


From bf93fc3f844f3321436a9da9e0447890cae8fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 29/47] fix: a failing matmul releases its memory and survives
 a failed allocation

---
 src/math/matmul.c | 111 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 84 insertions(+), 27 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 8fb746d..dd9896b 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -190,12 +190,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -205,9 +211,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      status = STATUS_ALLOC_FAILED;
+      n_batch = 0;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -217,14 +227,21 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    if (status == STATUS_SUCCESS) {
+      status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                                 dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                                 n_batch);
+    }
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status == STATUS_SUCCESS) {
+      *output = new_tensor;
+    } else {
+      aitisa_destroy(&new_tensor);
+    }
   } else if (ndim_tensor1 == 1 && ndim_tensor2 >= 3) {
     // consider tensor1 as a matrix whose dim[0]=1;
     int64_t dim0_tensor1 = 1;
@@ -238,13 +255,19 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -254,9 +277,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      status = STATUS_ALLOC_FAILED;
+      n_batch = 0;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -266,14 +293,21 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    if (status == STATUS_SUCCESS) {
+      status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                                 dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                                 n_batch);
+    }
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status == STATUS_SUCCESS) {
+      *output = new_tensor;
+    } else {
+      aitisa_destroy(&new_tensor);
+    }
   } else if (ndim_tensor1 >= 3 && ndim_tensor2 >= 2 ||
              ndim_tensor1 >= 2 && ndim_tensor2 >= 3) {
     // tensor-tensor => batch matrix-matrix
@@ -288,25 +322,37 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) return STATUS_ALLOC_FAILED;
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
-    batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
-                  ndim_batch);
-    batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
-                  ndim_batch);
+    if (strides_t1 && strides_t2) {
+      batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
+                    ndim_batch);
+      batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
+                    ndim_batch);
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_batch, dims_out, ndim_out);
     void **As =
@@ -315,9 +361,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs || !strides_t1 || !strides_t2) {
+      status = STATUS_ALLOC_FAILED;
+      n_batch = 0;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
@@ -341,9 +391,11 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       Cs[i] = (char *)data_output + i * size_mat3 * size_type;
     }
     // call kernel
-    CHECK_STATUS(batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
-                                   dim0_tensor1, dim1_tensor1, dim1_tensor2,
-                                   n_batch));
+    if (status == STATUS_SUCCESS) {
+      status = batch_mm_template(aitisa_tensor_data_type(tensor1), As, Bs, Cs,
+                                 dim0_tensor1, dim1_tensor1, dim1_tensor2,
+                                 n_batch);
+    }
     // free memory
     aitisa_default_cpu_allocator()->raw_dealloc(Cs);
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
@@ -351,6 +403,11 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    if (status == STATUS_SUCCESS) {
+      *output = new_tensor;
+    } else {
+      aitisa_destroy(&new_tensor);
+    }
   } else {
     status = STATUS_INVALID_ARGUMENT;
   }
-- 
2.43.0


From 9f00827d7ad7071fdfa0bd7434619e9a9108a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 30/47] fix: matmul does not read operands without elements

---
 src/math/matmul.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index dd9896b..3fbff68 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -205,6 +205,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
+    // an empty operand contributes nothing to the sums
+    if (aitisa_tensor_size(tensor1) == 0 || aitisa_tensor_size(tensor2) == 0) {
+      n_batch = 0;
+    }
     void **As =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Bs =
@@ -271,6 +275,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
+    // an empty operand contributes nothing to the sums
+    if (aitisa_tensor_size(tensor1) == 0 || aitisa_tensor_size(tensor2) == 0) {
+      n_batch = 0;
+    }
     void **As =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Bs =
@@ -355,6 +363,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_batch, dims_out, ndim_out);
+    // an empty operand contributes nothing to the sums
+    if (aitisa_tensor_size(tensor1) == 0 || aitisa_tensor_size(tensor2) == 0) {
+      n_batch = 0;
+    }
     void **As =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Bs =
-- 
2.43.0


From 889c686a40abc68696577e705740a965f1d3b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 31/47] fix: aitisa_full fills tensors of more than 2^31
 elements

---
 src/basic/factories.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -7,7 +7,7 @@ Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(new_tensor);
   aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
+  for (int64_t i = 0; i < size; ++i) {
     aitisa_tensor_set_item(new_tensor, i, &value);
   }
   *output = new_tensor;
-- 
2.43.0


From 878967adf6880aeb80fcc7138afee2e5b406b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 32/47] fix: dot with a 64-bit integer scalar keeps its exact
 value

---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..7eb8534 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value = NULL;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  for (int64_t i = 0; i < size; i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 941cc99db4f65453d0751ca5ab46b62406bb2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 33/47] fix: a failing dot releases its memory and hands out no
 tensor

---
 src/math/dot.c | 78 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 7eb8534..92e21af 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -107,11 +107,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (status != STATUS_SUCCESS) {
+    return status;
+  }
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -123,7 +125,8 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
   if (!index_recorder || !size || !step) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder[i] = 0;
@@ -137,11 +140,18 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2 = tensor2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) {
+      goto cleanup;
+    }
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      goto cleanup;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -158,10 +168,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
     aitisa_destroy(&vec1);
     aitisa_destroy(&result);
   }
+cleanup:
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return STATUS_SUCCESS;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
+  return status;
 }
 
 static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
@@ -196,11 +212,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
-  *output = new_tensor;
+  Status status = aitisa_create(dtype, device, out_dims, out_ndim,
+                                NULL, 0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (status != STATUS_SUCCESS) {
+    return status;
+  }
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -219,7 +237,8 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor2);
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder_t1[i] = 0;
@@ -241,15 +260,26 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) {
+      goto cleanup;
+    }
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec1);
+        goto cleanup;
+      }
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec1);
+        aitisa_destroy(&vec2);
+        goto cleanup;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -281,13 +311,19 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
     }
     aitisa_destroy(&vec1);
   }
+cleanup:
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
-  return STATUS_SUCCESS;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
+  return status;
 }
 
 Status aitisa_dot(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
-- 
2.43.0


From b8f729df1685b036704697c241ade79d502edd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 34/47] fix: dot over a contracted extent of zero does not
 divide by zero

---
 src/math/dot.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/dot.c b/src/math/dot.c
index 92e21af..8ee7ec7 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -191,6 +191,9 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   if (tensor1_dims[ndim_tensor1 - 1] != tensor2_dims[ndim_tensor2 - 2]) {
     return STATUS_INVALID_ARGUMENT;
   }
+  if (tensor2_dims[ndim_tensor2 - 2] == 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
   // Create output
   int64_t out_ndim = ndim_tensor1 + ndim_tensor2 - 2;
   int64_t *out_dims =
-- 
2.43.0


From 1043c69be9a98bd10e58702e63cb932d30f808d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 35/47] fix: a failing batch_norm releases its memory and hands
 out no tensor

---
 src/nn/batch_norm.c | 257 ++++++++++++++++++++++++++------------------
 1 file changed, 150 insertions(+), 107 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..fbb1ec3 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -7,6 +7,33 @@
 #include "src/math/binary_op.h"
 #include "src/math/sqrt.h"
 
+// leave a function through its cleanup label if an operation fails
+#define CHECK_STATUS_CLEANUP(expr)               \
+  do {                                           \
+    status = (expr);                             \
+    if (status != STATUS_SUCCESS) goto cleanup;  \
+  } while (0)
+
+// release the tensors of an array and the array itself
+static void batch_norm_destroy_array(Tensor *array, int64_t num) {
+  if (!array) return;
+  for (int64_t i = 0; i < num; i++) {
+    aitisa_destroy(&array[i]);
+  }
+  aitisa_default_cpu_allocator()->raw_dealloc(array);
+}
+
+// create an array of num empty handles
+static Tensor *batch_norm_create_array(int64_t num) {
+  Tensor *array =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*array) * num);
+  if (!array) return NULL;
+  for (int64_t i = 0; i < num; i++) {
+    array[i] = NULL;
+  }
+  return array;
+}
+
 static Status batch_norm_check_parameters(const Tensor input, const int axis,
                                           const Tensor scale, const Tensor bias,
                                           const Tensor mean,
@@ -122,35 +149,38 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
+  if (!begin || !size || !step || !axis) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_slice(input, begin, size, step, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_squeeze(temp0, axis, num_axis, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_sub(temp1, mean, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_div(temp0, denominator, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+    CHECK_STATUS_CLEANUP(aitisa_mul(scale, temp1, &temp0));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_add(temp0, bias, &temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,16 +188,19 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
     // Update begin
     begin[0]++;
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -185,28 +218,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -221,29 +257,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_slice(input, begin, size, step, &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_sub(temp1, mean_array[c], &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_div(temp0, denominator[c], &temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_mul(scale_array[c], temp1, &temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_add(temp0, bias_array[c], &temp1));
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
       // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp0));
+      CHECK_STATUS_CLEANUP(aitisa_destroy(&temp1));
     }
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
@@ -251,7 +289,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -272,16 +310,20 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     *mean_array = NULL;
     // Get epsilon tensor
     Tensor eps_tensor, temp;
+    Status status;
     int64_t *eps_dims = aitisa_tensor_dims(variance);
     int64_t eps_ndim = aitisa_tensor_ndim(variance);
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
-    // Destroy epsilon and temp tensor
+    status = aitisa_add(variance, eps_tensor, &temp);
+    if (status == STATUS_SUCCESS) {
+      status = aitisa_sqrt(temp, *denominator);
+      aitisa_destroy(&temp);
+    }
+    // Destroy epsilon tensor
     aitisa_destroy(&eps_tensor);
-    aitisa_destroy(&temp);
+    CHECK_STATUS(status);
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
@@ -302,38 +344,34 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       }
     }
     // Get epsilon tensor
-    Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    Tensor eps_tensor = NULL;
+    Tensor *var_array = NULL;
+    Tensor temp = NULL;
+    Status status = STATUS_SUCCESS;
+    CHECK_STATUS_CLEANUP(aitisa_full(dtype, device, param_dims, param_ndim,
+                                     epsilon, &eps_tensor));
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
-    *mean_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**mean_array) * num_channels);
-    *scale_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**scale_array) * num_channels);
-    *bias_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**bias_array) * num_channels);
-    *denominator = NULL;
-    *denominator = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**denominator) * num_channels);
-    Tensor *temp = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**temp) * num_channels); 
-    Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(*var_array) * num_channels);
+    *mean_array = batch_norm_create_array(num_channels);
+    *scale_array = batch_norm_create_array(num_channels);
+    *bias_array = batch_norm_create_array(num_channels);
+    *denominator = batch_norm_create_array(num_channels);
+    var_array = batch_norm_create_array(num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
         !*denominator || !var_array) {
-      return STATUS_ALLOC_FAILED;
-    } 
+      status = STATUS_ALLOC_FAILED;
+      goto cleanup;
+    }
     for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*mean_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*scale_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &((*bias_array)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_create(dtype, device, param_dims, param_ndim,
+                                         NULL, 0, &(var_array[c])));
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -354,17 +392,17 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      CHECK_STATUS_CLEANUP(aitisa_add(var_array[c], eps_tensor, &temp));
+      CHECK_STATUS_CLEANUP(aitisa_sqrt(temp, &((*denominator)[c])));
+      aitisa_destroy(&temp);
       aitisa_destroy(&(var_array[c]));
     }
+  cleanup:
+    aitisa_destroy(&temp);
     aitisa_destroy(&eps_tensor);
-    aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
-    }
-    aitisa_default_cpu_allocator()->raw_dealloc(temp);
+    batch_norm_destroy_array(var_array, num_channels);
+    aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+    CHECK_STATUS(status);
   }
   return STATUS_SUCCESS;
 }
@@ -377,40 +415,45 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   CHECK_STATUS(batch_norm_check_parameters(input, axis, scale, bias, mean,
                                            variance, epsilon));
   // Create output
-  CHECK_STATUS(batch_norm_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(batch_norm_create_output(input, &new_tensor));
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-  Tensor *scale_array, *bias_array, *mean_array, *denominators;
+  Tensor *scale_array = NULL, *bias_array = NULL, *mean_array = NULL;
+  Tensor *denominators = NULL;
   if (ndim == 2) {
     // Get denominator which is sqrt(variance+epsilon)
-    Tensor denominator;
+    Tensor denominator = NULL;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          &new_tensor);
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array, bias,
+                                      &bias_array, mean, &mean_array, variance,
+                                      epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, &new_tensor);
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(denominators);
+    int64_t num_channels = aitisa_tensor_dim(input, axis);
+    batch_norm_destroy_array(scale_array, num_channels);
+    batch_norm_destroy_array(bias_array, num_channels);
+    batch_norm_destroy_array(mean_array, num_channels);
+    batch_norm_destroy_array(denominators, num_channels);
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  } else {
+    aitisa_destroy(&new_tensor);
+  }
   return status;
 }
-- 
2.43.0


From 45138b38745ffba01a2dc6c40339568f30eaa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 36/47] fix: conv rejects a dilated window over an empty padded
 extent

---
 src/nn/conv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 2d08ac4..9477c03 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -52,7 +52,7 @@ static Status conv_check_parameters(const Tensor input, const Tensor filter,
     }
     int64_t padded =
         aitisa_tensor_dim(input, d) + (int64_t)2 * padding[d - 2];
-    if (fil_dim > (padded - 1) / dilation[d - 2] + 1) {
+    if (padded < 1 || fil_dim > (padded - 1) / dilation[d - 2] + 1) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
-- 
2.43.0


From 63e74feacd0cd1fa8e8f9e97eec836a81a74b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 37/47] fix: element-wise operations handle more than 2^31
 elements

---
 src/math/binary_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 3b3ac53..293cc28 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -236,7 +236,7 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   // Room for one element of any data type
   int64_t element[3];
   void *a = &element[0], *b = &element[1], *c = &element[2];
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
@@ -280,7 +280,7 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   // Room for one element of any data type
   int64_t element[3];
   void *a = &element[0], *b = &element[1], *c = &element[2];
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
@@ -324,7 +324,7 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   // Room for one element of any data type
   int64_t element[3];
   void *a = &element[0], *b = &element[1], *c = &element[2];
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
@@ -404,7 +404,7 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   // Room for one element of any data type
   int64_t element[3];
   void *a = &element[0], *b = &element[1], *c = &element[2];
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
-- 
2.43.0


From 3a40bff1bfe82b7723f4408ed65a96dc53208c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 38/47] fix: slice handles results of more than 2^31 elements

---
 src/basic/slice.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index edc4afe..aafc246 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -72,7 +72,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
-- 
2.43.0


From c7194b4652af349d6616deff989e0de541ba4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 39/47] fix: dot handles more than 2^31 elements

---
 src/math/dot.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 8ee7ec7..2578e5b 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         ((typename *)data1)[i] * ((typename *)data2)[i];   \
   }
@@ -142,7 +142,7 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
+  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
     status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
     if (status != STATUS_SUCCESS) {
       goto cleanup;
@@ -265,12 +265,12 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
+  for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
     status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
     if (status != STATUS_SUCCESS) {
       goto cleanup;
     }
-    for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
+    for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
       status =
           aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
       if (status != STATUS_SUCCESS) {
-- 
2.43.0


From 4b6efa43792a2dde0d3db66f37c356443f692066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 40/47] fix: matmul handles extents of more than 2^31

---
 src/math/matmul.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 3fbff68..8b9307d 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -24,23 +24,23 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
     }                                                                        \
   }
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
       }                                                              \
-- 
2.43.0


From 8015f08106fbe4ed21812c07c734f3b59babf0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 41/47] fix: duplicate keeps extents beyond the range of int

---
 src/basic/duplicate.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 5942a37..051a4f7 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -1,27 +1,18 @@
 #include "src/basic/duplicate.h"
-#include "src/basic/slice.h"
-#include "src/core/allocator.h"
+#include <string.h>
+#include "src/core/tensor.h"
 
 Status aitisa_duplicate(const Tensor input, Tensor *output) {
   Tensor new_tensor;
-  int64_t *dims = aitisa_tensor_dims(input);
-  int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim * 3);
-  if (!begin) {
-    return STATUS_ALLOC_FAILED;
-  }
-  int *size = begin + ndim;
-  int *step = size + ndim;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    size[i] = (int)(dims[i]);
-    step[i] = 1;
-  }
-  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
+  DataType dtype = aitisa_tensor_data_type(input);
+  Status status = aitisa_create(dtype, aitisa_tensor_device(input),
+                                aitisa_tensor_dims(input),
+                                aitisa_tensor_ndim(input), NULL, 0,
+                                &new_tensor);
   if (status == STATUS_SUCCESS) {
+    memcpy(aitisa_tensor_data(new_tensor), aitisa_tensor_data(input),
+           aitisa_tensor_size(input) * dtype.size);
     *output = new_tensor;
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
   return status;
 }
-- 
2.43.0


From 794b913fbd97a8cd23ae4e1ffd933be47e6e890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 42/47] fix: the strides of an empty tensor do not overflow

---
 src/basic/index_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/basic/index_utils.c b/src/basic/index_utils.c
index a6962cf..5b58acd 100644
--- a/src/basic/index_utils.c
+++ b/src/basic/index_utils.c
@@ -11,7 +11,8 @@ int64_t aitisa_get_stride(const Tensor t, int64_t dimension) {
     if (dim == dimension) {
       break;
     }
-    stride *= dims[dim];
+    // Wraps, rather than overflows, beside an extent of zero
+    stride = (int64_t)((uint64_t)stride * (uint64_t)dims[dim]);
   }
   return stride;
 }
@@ -24,7 +25,8 @@ void aitisa_get_all_strides(const Tensor t, int64_t *strides) {
   for (int d = 0; d < ndim; ++d) {
     int64_t dim = min2maj[d];
     strides[dim] = stride;
-    stride *= dims[dim];
+    // Wraps, rather than overflows, beside an extent of zero
+    stride = (int64_t)((uint64_t)stride * (uint64_t)dims[dim]);
   }
 }
 
-- 
2.43.0


From dfdb46a36ae832651d6a9580e612c6ed00bdad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 43/47] fix: aitisa_create rejects a byte length that is no
 multiple of the element size

---
 src/core/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 55f0413..92bebea 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -10,7 +10,7 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   int64_t size = size_of_dims(dims, ndim);
   if (ndim < 0 || size < 0) return STATUS_INVALID_ARGUMENT;
   if(data){
-    if(len/dtype.size != size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != size || len%dtype.size) return STATUS_INVALID_ARGUMENT;
   }
   tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
   if (!tensor) return STATUS_ALLOC_FAILED;
-- 
2.43.0


From cc653c887821237596e6ae8a2bb72b4027fccb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 44/47] fix: conv2d and conv3d reject parameter arrays of
 another length

---
 src/nn/conv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 9477c03..04c451b 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -205,6 +205,9 @@ Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
   if(ndim != 4){
     return STATUS_DIMENSIONS_MISMATCH;
   }
+  if(stride_len != 2 || padding_len != 2 || dilation_len != 2){
+    return STATUS_INVALID_ARGUMENT;
+  }
 
   return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
 }
@@ -217,6 +220,9 @@ Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
   if(ndim != 5){
     return STATUS_DIMENSIONS_MISMATCH;
   }
+  if(stride_len != 3 || padding_len != 3 || dilation_len != 3){
+    return STATUS_INVALID_ARGUMENT;
+  }
 
   return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
 }
-- 
2.43.0


From 242f31586bd618526e79a4dd9299a23ae3d47b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 45/47] fix: broadcast rejects a result array that is too short

---
 src/basic/broadcast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..29915d3 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -6,6 +6,9 @@
 Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
                               int64_t* dims_in2, int64_t ndim_in2,
                               int64_t* dims_out, int64_t ndim_out) {
+  if (ndim_out < ndim_in1 || ndim_out < ndim_in2) {
+    return STATUS_INVALID_ARGUMENT;
+  }
   int64_t i = 0;
   while (i < ndim_in1 && i < ndim_in2) {
     int64_t d_in1 = dims_in1[ndim_in1 - i - 1];
-- 
2.43.0


From 72e818763ac6d42799882824eafe5334a601c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 46/47] fix: pooling counts the windows of a channel in 64 bits

---
 src/nn/pooling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index c848115..8db710d 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -113,7 +113,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         k_head[i] = 0 - padding[i-c_start];
         k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
       }
-      int window_idx = 0;
+      int64_t window_idx = 0;
       int hasWindow = 1;
       while(hasWindow){
         // set index
-- 
2.43.0


From a144f536bab7c9bd0e2ef25ffea65cc5c7730706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 47/47] fix: aitisa_create rejects a type code that is none of
 the ten types

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 92bebea..d87bf84 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -7,6 +7,7 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
                      void *data, unsigned int len, Tensor *output) {
   Tensor tensor;
   Status status;
+  if (dtype.code >= TYPE_NTYPES) return STATUS_NOT_SUPPORTED;
   int64_t size = size_of_dims(dims, ndim);
   if (ndim < 0 || size < 0) return STATUS_INVALID_ARGUMENT;
   if(data){
-- 
2.43.0

