From 9947c7d07bd407d0c1fe5a23b60bf802198961f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 001/117] fix: strides of a scalar OMTensor created through the
 C++ helper API

---
 src/Runtime/OMTensor.inc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..edde448 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,9 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  /* A scalar has no strides (and there is no dimension to skip below). */
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From ad5b3d2bf75fa5af058bff71533657ecf51972f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 002/117] fix: compare onnx.Unique slices in row-major order

---
 src/Runtime/OMUnique.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..3be29b5 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -168,12 +168,13 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  // Row-major order, so that slices compare lexicographically.
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From 8aea528056f403d354df05388d120d19c67045c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 003/117] fix: onnx.Unique with absent optional outputs

---
 src/Runtime/OMUnique.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 3be29b5..8ba43d0 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -266,8 +266,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -275,11 +275,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -334,6 +329,16 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   }
 }
 
+//
+// An optional output is absent if it is NULL, or if it has no elements: the
+// compiled code passes an empty tensor for an output the model does not use.
+//
+static void *optionalOutputPtr(OMTensor *output) {
+  if (output == NULL || omTensorGetNumElems(output) == 0)
+    return NULL;
+  return omTensorGetDataPtr(output);
+}
+
 //
 // "omTensorUnique" handles two cases, where are (1) case with no axis given
 // (2) case with axis given.
@@ -359,10 +364,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
   void *YPtr = (Y != NULL) ? omTensorGetDataPtr(Y) : NULL;
-  void *indicesPtr = (indices != NULL) ? omTensorGetDataPtr(indices) : NULL;
-  void *inverseIndicesPtr =
-      (inverse_indices != NULL) ? omTensorGetDataPtr(inverse_indices) : NULL;
-  void *countsPtr = (counts != NULL) ? omTensorGetDataPtr(counts) : NULL;
+  void *indicesPtr = optionalOutputPtr(indices);
+  void *inverseIndicesPtr = optionalOutputPtr(inverse_indices);
+  void *countsPtr = optionalOutputPtr(counts);
   uint64_t dataSize = getDataTypeSize(dataType);
   assert(dataSize > 0); // Test for unsupported types.
 
@@ -391,7 +395,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     void *sliceDataPtr =
         (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
                        : YPtr;
-    if ((Y != NULL) && (indices == NULL)) {
+    if ((Y != NULL) && (indicesPtr == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
       indicesPtr = alloca(numOfSlices * sizeof(int64_t));
     }
@@ -407,7 +411,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (const int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 6f4eb8c1f401b9c980022e59ff59b995adfcfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 004/117] fix: onnx.Unique treats 0.0 and -0.0 as the same
 value

---
 src/Runtime/OMUnique.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 8ba43d0..b2f485b 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,6 +119,18 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
+// Check if the arguments have the same value. Identical bits are the same value
+// for all types; +0.0 and -0.0 are too although their bits differ.
+static int isEqualNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
+  if (!memcmp(arg1, arg2, getDataTypeSize(dataType)))
+    return 1;
+  if (dataType == ONNX_TYPE_FLOAT)
+    return *((float *)arg1) == *((float *)arg2);
+  if (dataType == ONNX_TYPE_DOUBLE)
+    return *((double *)arg1) == *((double *)arg2);
+  return 0;
+}
+
 // Check if
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
@@ -128,12 +140,23 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isEqualNum(num1, num2, dataType)) // if num1 != num2
       return isLessNum(num1, num2, dataType);
   }
   return 0;
 }
 
+// Check if two slices have the same values.
+static int isEqualSlice(
+    void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  assert(dataSize > 0); // Test for unsupported types.
+  for (uint64_t off = 0; off < elemSize; off += dataSize)
+    if (!isEqualNum((char *)elem1 + off, (char *)elem2 + off, dataType))
+      return 0;
+  return 1;
+}
+
 //
 // If the axis attr is given in onnx.Unique, it should compare slices
 // according to the specified axis. "getSliceData" is called to get a slice
@@ -218,7 +241,7 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isEqualSlice(sliceInTable, slice, sliceSizeInBytes, table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From 0acf0ce75c2db10173bc9cf9b5d195303d7dbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 005/117] fix: TopK keeps the lower index among equal values

---
 src/Runtime/OMTopK.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..1b4991d 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,24 +53,24 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if left child is "worse" than root
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-    comparison = compare(data, &heap[swap_idx], &heap[child]);
+    comparison = compare(data, &heap[child], &heap[swap_idx]);
 #else
-    comparison = compare(&heap[swap_idx], &heap[child], data);
+    comparison = compare(&heap[child], &heap[swap_idx], data);
 #endif
     if (comparison > 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-      comparison = compare(data, &heap[swap_idx], &heap[child + 1]);
+      comparison = compare(data, &heap[child + 1], &heap[swap_idx]);
 #else
-      comparison = compare(&heap[swap_idx], &heap[child + 1], data);
+      comparison = compare(&heap[child + 1], &heap[swap_idx], data);
 #endif
       if (comparison > 0) {
         swap_idx = child + 1;
@@ -148,9 +148,9 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
   // 1. Get the heap comparator.
   // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
   // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
+  // The heap moves the element that sorts last to the root, so that among
+  // equal values the root is the one with the highest index.
+  compareFunctionType *heapCompare = getCompareFunction(ascending, dataType);
   if (!heapCompare)
     return; // Unsupported data type
 
-- 
2.43.0


From 500b551e25d081fa8191c06de2693bfdc7f14b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 006/117] fix: Resize runtime interpolates over the rank of its
 input

---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From bbbdeadafac389a5c4c0d3328b54f058b4162aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 007/117] fix: RandomNormal of doubles honours its seed

---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From 2f6b8cff1f0702b2c8ebf7657559c40a1ead76df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 008/117] fix: hash all digits of 20-character integers in the
 index lookup

---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..d7168c7 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[21]; // up to 20 characters and the terminating null
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From ba5423e6e24d7f85ff9483cadb7be4bac15c6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 009/117] fix: reject a truncated external constant file
 instead of mapping it

---
 src/Runtime/OMExternalConstant.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..90f4e78 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -259,6 +259,13 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Reading a mapped page past the end of the file raises SIGBUS.
+  struct stat st;
+  if (fstat(fd, &st) != 0 || (int64_t)st.st_size < fileSize) {
+    fprintf(stderr, "Error: constant file is shorter than expected\n");
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 45e85c720f595b96a71ab8bdd38ad62d0e649e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 010/117] fix: forget the address of unloaded external
 constants

---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 90f4e78..5a89038 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,8 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  // The address is no longer valid, and the constants can be loaded again.
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From 4693e778262ee9f4d2afac771543d4095571cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 011/117] fix: perfect hash of keys that collide for every hash
 value

---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 25 +++++++++++++++++------
 src/Conversion/ONNXToKrnl/PerfectHash.hpp |  5 +++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..6602d7c 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -18,6 +18,7 @@
 #include "llvm/Support/Debug.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <map>
 #include <numeric>
 #include <string>
@@ -25,6 +26,9 @@
 
 #define DEBUG_TYPE "perfect_hash"
 
+// Number of hash values to try for a bucket before the tables are enlarged.
+static constexpr int32_t maxHashValue = 1 << 16;
+
 namespace onnx_mlir {
 
 class Utilities {
@@ -111,21 +115,25 @@ template <typename KeyTy, typename ValueTy>
 PerfectHash<KeyTy, ValueTy>::PerfectHash(const std::map<KeyTy, ValueTy> &dict)
     : dict(dict) {
   assert(!dict.empty() && "Dictionary should not be empty");
+  // The hash is minimal, except for the rare dictionaries whose keys collide
+  // in tables of that size whatever the hash value, e.g. {"a", "c"}.
   size_t size = dict.size();
-  G.resize(size, 0);
-  V.resize(size, -1);
-  createPerfectHash();
+  do {
+    G.assign(size, 0);
+    V.assign(size, -1);
+    size++;
+  } while (!createPerfectHash());
 }
 
 // Note: KeyTy is expected to be either a char* or a int64_t.
 // TODO: add a trait to ensure template cannot be instantiated with an
 // unexpected type.
 template <typename KeyTy, typename ValueTy>
-void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
+bool PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
   LLVM_DEBUG({ Utilities::print(dict, "dict", llvm::dbgs()); });
 
   // Step 1: place all of the keys into buckets.
-  size_t size = dict.size();
+  size_t size = G.size();
   llvm::SmallVector<KeyTy> keys = Utilities::extractKeys<KeyTy, ValueTy>(dict);
   LLVM_DEBUG({ Utilities::print(keys, "keys", llvm::dbgs()); });
 
@@ -157,7 +165,8 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
       uint32_t slot = Utilities::hash(hval, bucket[item]) % size;
       if (V[slot] != -1 ||
           std::find(slots.begin(), slots.end(), slot) != slots.end()) {
-        hval++;
+        if (++hval > maxHashValue)
+          return false;
         item = 0;
         slots.clear();
       } else {
@@ -199,6 +208,10 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
     LLVM_DEBUG({ Utilities::print(G, "G", llvm::dbgs()); });
     LLVM_DEBUG({ Utilities::print(V, "V", llvm::dbgs()); });
   }
+
+  // No key is in the remaining slots, any valid index will do.
+  std::replace(V.begin(), V.end(), -1, 0);
+  return true;
 }
 
 template class PerfectHash<int64_t, int32_t>;
diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.hpp b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
index b66339d..6d63eb2 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.hpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
@@ -53,8 +53,9 @@ public:
   const llvm::SmallVector<int32_t> &getV() const { return V; }
 
 private:
-  // Creates a minimal perfect hash for the dictionary.
-  void createPerfectHash();
+  // Creates a perfect hash for the dictionary in tables of the size of G and V.
+  // Returns false if no hash function was found for tables of that size.
+  bool createPerfectHash();
 };
 
 } // namespace onnx_mlir
-- 
2.43.0


From 8d6f6e7925ea75ed411355feb0c288bde06be5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 012/117] fix: Resize runtime picks the neighbours of the exact
 coordinate

---
 src/Runtime/OMResize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 249004d..92ec2e8 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -67,7 +67,7 @@ static void cubic_coeffs(float ratio, float coeffs_buffer[4], int mode) {
       4 * A;
 }
 
-static void get_neighbor(float x, int64_t n, int limit, float *data,
+static void get_neighbor(double x, int64_t n, int limit, float *data,
     float *points, int exclude_outside) {
 
   // inline the python get_neighbor_idx function without real padding
@@ -78,7 +78,7 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
 
   int pad_width = ceil(n / 2);
   x += pad_width;
-  float r = x - floor(x);
+  double r = x - floor(x);
 
   int start, end;
   int c;
-- 
2.43.0


From 32916c1e8040a1950a1325dcb7b67264220de54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 013/117] fix: report the after-op times exactly for the ops
 that recorded them

---
 src/Runtime/OMInstrument.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..adc2b89 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
-- 
2.43.0


From 274d82318bca1eecc28e309c0433a8e1925e134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 014/117] fix: keep every time record of an op that runs
 several times in a row

---
 src/Runtime/OMInstrument.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index adc2b89..93d532a 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -262,8 +262,10 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag) &&
+      !IS_INSTRUMENT_BEFORE_OP(tag)) {
+    // The "after" of the "before" that was just recorded. Can reuse entry, or the tags so we have bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From 0bb5dd46e1c460679d48b53d8c4c1dab9fa82ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 015/117] fix: close the instrumentation file once the report
 is printed

---
 src/Runtime/OMInstrument.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 93d532a..7a71dd9 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -355,6 +355,12 @@ static void startInstrumentation() {
 /// So essentially this call make sure that all of the timeing info is printed.
 void omInstrumentPrint() {
   flushRecordBuffer();
+  // Make sure that the memory info is printed too, and do not accumulate open
+  // files: the next report opens its file again.
+  if (instrumentFout == stdout)
+    fflush(instrumentFout);
+  else if (instrumentFout)
+    fclose(instrumentFout);
   resetLocalState();
 }
 
-- 
2.43.0


From 44e62d0390900f84c2f798580150fcaa45bdb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 016/117] fix: initialize the library handle of an
 ExecutionSession

Destroying a default constructed session, or one whose loadModel threw before
dlopen, closed a garbage handle.
---
 src/Runtime/ExecutionSession.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..cd2c988 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
-- 
2.43.0


From 360465b3c6156e31a8fcd64fccbdb407c1199abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 017/117] fix: restore OM_CONSTANT_PATH when a model cannot be
 loaded

A failing loadModel left the variable pointing to the directory of the failed
model, so that later sessions looked for their constants there.
---
 src/Runtime/ExecutionSession.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..1cf4e88 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -130,13 +130,27 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 #if defined(_WIN32)
   _sharedLibraryHandle =
       llvm::sys::DynamicLibrary::getLibrary(sharedLibPath.c_str());
-  if (!_sharedLibraryHandle.isValid())
-    throw ExecutionSessionException(
-        "Cannot open library: '" + sharedLibPath + "'.");
 #else
   // Copy code from llvm/lib/Support/DynamicLibrary.cpp, especially the flags
   // ToFix: copy the lock related code too.
   _sharedLibraryHandle = dlopen(sharedLibPath.c_str(), RTLD_LAZY | RTLD_GLOBAL);
+#endif
+
+  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model,
+  // whether or not this model could be loaded.
+  if (setOMConstantPath) {
+#if defined(_WIN32)
+    _putenv_s("OM_CONSTANT_PATH", "");
+#else
+    unsetenv("OM_CONSTANT_PATH");
+#endif
+  }
+
+#if defined(_WIN32)
+  if (!_sharedLibraryHandle.isValid())
+    throw ExecutionSessionException(
+        "Cannot open library: '" + sharedLibPath + "'.");
+#else
   if (!_sharedLibraryHandle)
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
@@ -213,15 +227,6 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
-- 
2.43.0


From 42bba314e51e76ffa26b22ed74be600ce45d5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 018/117] fix: close the model library when an ExecutionSession
 fails to load it

The destructor does not run when the constructor throws, and a second
loadModel overwrote the handle of the failed one.
---
 src/Runtime/ExecutionSession.cpp | 18 +++++++++++++++---
 src/Runtime/ExecutionSession.hpp |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 1cf4e88..5dde087 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -61,7 +61,13 @@ void ExecutionSession::signalHandler(int signum) {
 ExecutionSession::ExecutionSession(const std::string &sharedLibPath,
     const std::string &tag, const bool defaultEntryPoint)
     : sharedLibPath(sharedLibPath) {
-  loadModel(sharedLibPath, tag, defaultEntryPoint);
+  try {
+    loadModel(sharedLibPath, tag, defaultEntryPoint);
+  } catch (...) {
+    // The destructor does not run when the constructor throws.
+    closeSharedLibrary();
+    throw;
+  }
 }
 
 // Errors: If dlopen returns null, it means error. Technically, if dlsym returns
@@ -126,7 +132,9 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
     lowDashTag = "_" + tag;
 #endif
 
-  // Init symbols used by execution session.
+  // Init symbols used by execution session. Close the library of an earlier
+  // attempt that failed.
+  closeSharedLibrary();
 #if defined(_WIN32)
   _sharedLibraryHandle =
       llvm::sys::DynamicLibrary::getLibrary(sharedLibPath.c_str());
@@ -234,13 +242,17 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   errno = 0; // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+ExecutionSession::~ExecutionSession() { closeSharedLibrary(); }
+
+void ExecutionSession::closeSharedLibrary() {
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
+  _sharedLibraryHandle = DynamicLibraryHandleType();
 #else
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
+  _sharedLibraryHandle = nullptr;
 #endif
 }
 
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index cd2c988..7fe3858 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -186,6 +186,9 @@ protected:
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
 private:
+  // Close the shared library, if one is open.
+  void closeSharedLibrary();
+
   // Run with without signal handler.
   OMTensorList *runWithoutSignalHandler(OMTensorList *input);
 
-- 
2.43.0


From f4f01508daeac9f105f267d96f01d7390e197d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 019/117] fix: report the library path of a session initialized
 by loadModel

getSharedLibPath returned an empty string unless the path was given to the
constructor.
---
 src/Runtime/ExecutionSession.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 5dde087..2a67976 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -233,6 +233,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   }
 
   // Successful completion of initialization.
+  this->sharedLibPath = sharedLibPath;
   isInitialized = true;
 
   // Set default entry point if requested.
-- 
2.43.0


From e7c8fce0c079924e007a09060b6ebc70afcfb4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 020/117] fix: restore the SIGABRT and SIGILL handlers after a
 guarded run

The old SIGABRT action was saved over the one of SIGILL, and was not restored
when a signal had been caught.
---
 src/Runtime/ExecutionSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 2a67976..453cbb6 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -453,7 +453,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -466,7 +466,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -487,7 +487,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -501,6 +501,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
-- 
2.43.0


From a32171aff59646dd9c660ec9791c04e262f3c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 021/117] fix: unblock the signal caught by a guarded run

longjmp out of the handler left the signal blocked, so that the next fault
of the same kind killed the process instead of being reported.
---
 src/Runtime/ExecutionSession.cpp | 9 +++++----
 src/Runtime/ExecutionSession.hpp | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 453cbb6..04dda36 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -474,8 +474,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
 
   OMTensorList *output = nullptr;
 
-  // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  // Set up the jump point for signal handler, saving the signal mask since the
+  // caught signal is blocked while its handler runs.
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask=*/1);
 
   if (signum == 0) {
     // First time through - run the inference
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 7fe3858..4b13393 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -21,7 +21,7 @@
 #include <string>
 
 #if !defined(_WIN32)
-#include <csetjmp>
+#include <setjmp.h>
 #include <csignal>
 #endif
 
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 4ad6f4a87e21aa526f1b9c01ba5f4b0a5e3fc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 022/117] fix: number the runtime data types as ONNX does

FLOAT8E5M2FNUZ (20) was missing, so that UINT4 and INT4 were off by one with
respect to the ONNX standard and to what the compiler emits.
---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..be4e24f 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -38,10 +38,11 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_BFLOAT16,       16, 2,                "bfloat16",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FN,   17, 1,                "FLOAT8E4M3FN",    "f8e4m3fn",   "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FNUZ, 18, 1,                "FLOAT8E4M3FNUZ",  "f8e4m3fnuz", "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2,     19, 1,                "FLOAT8E5M2",      "f8e5m2",     "")           /* No C/C++ name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          20, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           21, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2FNUZ, 20, 1,                "FLOAT8E5M2FNUZ",  "f8e5m2fnuz", "")           /* No C/C++ name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          21, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           22, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
 
-OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           21, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           22, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
 // clang-format on
 #else
 #error "Must define OM_TYPE_METADATA_DEF macro."
-- 
2.43.0


From 004e86e1085213e1e338c607f9d44c550c472289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 023/117] fix: random uint32 and uint64 data over the full
 range of the type

Bounds above the maximum of the signed type were turned into negative bounds.
---
 src/Runtime/OMTensorHelper.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..4be4c53 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -61,17 +61,13 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
     return;
   }
   if constexpr (std::is_integral<T>::value) {
-    if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    }
+    // Distributions are not defined for 8-bit types and bool. Use a type that
+    // represents all the values of T.
+    using D = std::conditional_t<(sizeof(T) < 4), int32_t, T>;
+    std::uniform_int_distribution<D> dis(
+        static_cast<D>(lbound), static_cast<D>(ubound));
+    std::generate(buf, buf + n,
+        [&]() { return static_cast<T>(dis(omRandomGenerator)); });
   } else {
     std::uniform_real_distribution<T> dis(lbound, ubound);
     std::generate(buf, buf + n, [&]() { return dis(omRandomGenerator); });
-- 
2.43.0


From 91c4eb61f329a9e47c23351404f2fc98d288d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 024/117] fix: sequences of ones in rows without elements

A random count wrote a one past the end of the buffer when the innermost
dimension is 0.
---
 src/Runtime/OMTensorHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 4be4c53..9d551ab 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -242,7 +242,8 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0) ? std::min(dist(omRandomGenerator), innerDim)
+                               : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From b278c0dfa7393ff308d33e77dc6f1d01e2982aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 025/117] fix: sequences of ones for float16

float16 is a numeric type supporting 0 and 1, but was rejected.
---
 src/Runtime/OMTensorHelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 9d551ab..078c241 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -279,6 +279,9 @@ OMTensor *omTensorCreateSozData(
     case ONNX_TYPE_DOUBLE:
       fillOnes((double *)rowPtr, n);
       break;
+    case ONNX_TYPE_FLOAT16:
+      std::fill((uint16_t *)rowPtr, (uint16_t *)rowPtr + n, om_f32_to_f16(1.0f));
+      break;
     default:
       free(buf);
       return nullptr;
-- 
2.43.0


From dc04793597eeac6e3bdc56c95b87409c0479690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 026/117] fix: input data for models without inputs, reject
 truncated signatures

---
 src/Runtime/OMTensorListHelper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..63293a6 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -287,7 +287,9 @@ static bool parseSignatureInfo(
 
   while (true) {
     skipWS(s);
-    if (s.empty() || s[0] == ']')
+    if (s.empty())
+      return false;
+    if (s[0] == ']')
       break;
     if (s[0] == ',') {
       s = s.substr(1);
@@ -351,7 +353,7 @@ static bool parseSignatureInfo(
     }
     entries.push_back(std::move(entry));
   }
-  return !entries.empty();
+  return true;
 }
 
 static const char *omDataTypeToString(OM_DATA_TYPE type) {
@@ -504,8 +506,8 @@ OMTensorList *omTensorListCreateFromInputSignature(
   if (!parseBoundOverrides(defaultUpperBound, ub))
     return nullptr;
 
-  OMTensor **inputTensors =
-      (OMTensor **)malloc((size_t)inputNum * sizeof(OMTensor *));
+  OMTensor **inputTensors = (OMTensor **)malloc(
+      (size_t)(inputNum > 0 ? inputNum : 1) * sizeof(OMTensor *));
   if (!inputTensors)
     return nullptr;
 
-- 
2.43.0


From 46ec8ff64a6af960505e641306b13799676e996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:10 +0000
Subject: [PATCH 027/117] fix: reject signature entries without a type

The type was read uninitialized.
---
 src/Runtime/OMTensorListHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 63293a6..0e50485 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -272,7 +272,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
-- 
2.43.0


From 741f0c15275475839000241940af3f94cf582266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 028/117] fix: pass the strides of the data given to the model
 in PyRuntime

A non-contiguous input is copied into a contiguous buffer, but was described
to the model with the strides of the original array.
---
 src/Runtime/python/PyRuntime.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..00a6581 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,9 +33,13 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            flat = inp.ravel()
+            pyrun_inputs.append(flat)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            # Strides of the contiguous data that is passed, which is a copy
+            # when the input is not contiguous.
+            strides = flat.reshape(inp.shape).strides
+            pyrun_strides.append(np.array(strides, dtype=np.int64))
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
@@ -52,9 +56,13 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            flat = inp.ravel()
+            pyrun_inputs.append(flat)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            # Strides of the contiguous data that is passed, which is a copy
+            # when the input is not contiguous.
+            strides = flat.reshape(inp.shape).strides
+            pyrun_strides.append(np.array(strides, dtype=np.int64))
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
-- 
2.43.0


From 592ae3c4bccfc481b0dfea53587bc5fb6ee86a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 029/117] fix: return string tensors to Python as arrays of
 objects

Pointers to Python strings were written into an array of 1-character unicode
elements, overflowing it, or the raw C pointers were returned as such elements.
---
 src/Runtime/python/PyExecutionSession.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..6b18a44 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -118,6 +118,9 @@ static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
 #include "onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
 #undef OM_TYPE_METADATA_DEF
   };
+  // Strings are elements of type Python object (copyTensorToPyArray).
+  if (type == ONNX_TYPE_STRING)
+    return "object";
   if (type >= 0 && type <= ONNX_TYPE_LAST && names[type][0] != '\0')
     return names[type];
   return nullptr;
@@ -315,6 +318,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
+    bool isString = omTensorGetDataType(omt) == ONNX_TYPE_STRING;
     if (!dtypeName) {
       omTensorListDestroy(wrappedOutput);
       omTensorListDestroy(wrappedInput);
@@ -344,8 +348,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
     if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy) {
-        // force copy of result, leaving ownership on so that it be destroyed at
+      if (forceOutputDataCopy || isString) {
+        // force copy (always for strings, which become Python objects) of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
       } else {
-- 
2.43.0


From 08bfbd7fd29a98cb96bc0b595d5d6f7485c03fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 030/117] fix: free once the data shared by several outputs in
 PyRuntime

Outputs of the same allocation were freed twice when their data was copied, or
when they start at different positions.
---
 src/Runtime/python/PyExecutionSession.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 6b18a44..bc5d9b8 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -13,6 +13,9 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <map>
+#include <set>
+
 #include "PyExecutionSession.hpp"
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
@@ -303,6 +306,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // creating two capsules for the same pointer. Otherwise, it causes double
   // free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
+  // Allocated pointers of the outputs that were copied.
+  std::set<void *> copiedAllocPtrs;
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
@@ -352,12 +357,15 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
         // force copy (always for strings, which become Python objects) of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
+        // Outputs may share their data, which must be freed once.
+        if (!copiedAllocPtrs.insert(omtAllocPtr).second)
+          omTensorSetOwning(omt, false);
       } else {
         // We have a regular tensor which we will need to free at the right
         // time. Create the capsule that points to the data to be freed
         // (allocated pointer).
         py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
+        auto it = mapPtrCapsule.find(omtAllocPtr);
         if (it != mapPtrCapsule.end()) {
           free_data_with_allocate_ptr = it->second;
         } else {
@@ -366,7 +374,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
               [](void *ptr) { /* Lambda function that performs the freeing. */
                 free(ptr);
               });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
+          mapPtrCapsule.try_emplace(omtAllocPtr, free_data_with_allocate_ptr);
         }
         // Set owning to false as we migrate the ownership to python
         omTensorSetOwning(omt, false);
-- 
2.43.0


From 83ecd71e19fda25ccaa398017dcfb3c32ddeca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 031/117] fix: free the inputs and outputs of a failing run in
 PyRuntime

The tensors were leaked when an exception was thrown, e.g. when the inference
fails or when an input has an unsupported type, and so was the copy of
read-only string inputs.
---
 src/Runtime/python/PyExecutionSession.cpp | 49 +++++++++++++----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index bc5d9b8..82badbc 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -153,7 +153,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
-  std::vector<OMTensor *> omts;
+  std::vector<OMTensorUniquePtr> omts;
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -170,16 +170,17 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
           "Expect contiguous python array.");
     void *dataPtr;
     int64_t ownData = 0;
+    std::unique_ptr<void, decltype(&free)> copiedData(nullptr, free);
     if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
     } else {
       // If data is not writable, copy them to a writable buffer.
-      void *copiedData = (void *)malloc(inputPyArray.nbytes());
+      copiedData.reset(malloc(inputPyArray.nbytes()));
       if (!copiedData)
         throw onnx_mlir::ExecutionSessionException(
             "Failed to allocate data buffer for copied data.");
-      memcpy(copiedData, inputPyArray.data(), inputPyArray.nbytes());
-      dataPtr = copiedData;
+      memcpy(copiedData.get(), inputPyArray.data(), inputPyArray.nbytes());
+      dataPtr = copiedData.get();
       // We want OMTensor to free up the memory space upon destruction.
       ownData = 1;
     }
@@ -259,6 +260,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
+      copiedData.release(); // Owned by the tensor.
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, stride);
     } else {
       std::vector<int64_t> safeShape(shape, shape + ndim);
@@ -268,20 +270,31 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
+      copiedData.release(); // Owned by the tensor.
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
     }
-    omts.emplace_back(inputOMTensor);
+    omts.emplace_back(inputOMTensor, omTensorDestroy);
   }
   TIMING_STOP_PRINT(process_input);
 
   // 2. Call entry point: create list.
   TIMING_INIT_START(inference);
-  OMTensorList *wrappedInput = omTensorListCreate(omts.data(), omts.size());
+  // The tensor lists are destroyed on all paths, including exceptions.
+  using OMTensorListUniquePtr =
+      std::unique_ptr<OMTensorList, decltype(&omTensorListDestroy)>;
+  std::vector<OMTensor *> inputOmts;
+  for (const auto &omt : omts)
+    inputOmts.emplace_back(omt.get());
+  OMTensorListUniquePtr wrappedInput(
+      omTensorListCreate(inputOmts.data(), inputOmts.size()),
+      omTensorListDestroy);
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  for (auto &omt : omts)
+    omt.release(); // Owned by the list.
   // Call
-  OMTensorList *wrappedOutput = nullptr;
+  OMTensorListUniquePtr wrappedOutput(nullptr, omTensorListDestroy);
   {
     // TODO: Consider releasing Python's GIL during inference to allow other
     // Python threads to run concurrently. This would improve performance in
@@ -289,15 +302,14 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // code.
     //     py::gil_scoped_release release;  // Release GIL
 
-    wrappedOutput = runImplementation(wrappedInput, useSignalHandler);
+    wrappedOutput.reset(
+        runImplementation(wrappedInput.get(), useSignalHandler));
   } // TODO from above: GIL would automatically be reacquired here.
   TIMING_STOP_PRINT(inference);
 
   // Check if inference succeeded and returned valid output
-  if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
+  if (!wrappedOutput)
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
-  }
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
@@ -308,11 +320,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   std::map<void *, py::capsule> mapPtrCapsule{};
   // Allocated pointers of the outputs that were copied.
   std::set<void *> copiedAllocPtrs;
-  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
-    auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
+  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput.get()); i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput.get(), i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -324,13 +334,10 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
     bool isString = omTensorGetDataType(omt) == ONNX_TYPE_STRING;
-    if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
-    }
     py::dtype dtype(dtypeName);
     TIMING_STOP_PRINT(process_output_types);
 
@@ -393,11 +400,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  wrappedOutput.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  wrappedInput.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
-- 
2.43.0


From ab774c6fa039cfe69c57a512c2fcb799c3d8feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 032/117] fix: take the output name from -o only, not from
 flags starting with it

A flag such as -onnx-op-stats made the next flag the output name.
---
 src/Compiler/CommandUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..1dd400e 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -90,7 +90,7 @@ static std::string getOutputBasenameFromFlags(
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
-- 
2.43.0


From 90381b37e7b63cded656f2bbe9f9d1e402ee39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 033/117] fix: do not take the value of -o for the input model

---
 src/Compiler/CommandUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 1dd400e..07c0434 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -145,6 +145,10 @@ std::string getInputFilename(
     return inputFilename;
   for (size_t i = 0; i < flags.size(); ++i) {
     const std::string &arg = flags[i];
+    if (arg == "-o") {
+      ++i; // Skip the output name.
+      continue;
+    }
     if (!arg.empty() && arg[0] == '-')
       continue;
     // Check if it ends with ".onnx, mlir, or onnxtext".
-- 
2.43.0


From ee66d3829e0cb0d92bb745aa1186ddab6b192b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 034/117] fix: find the model tag given as a separate argument

The compiler accepts --tag <name> as well as --tag=<name>.
---
 src/Compiler/CommandUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 07c0434..415c528 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -209,6 +209,11 @@ std::string getModelTag(const std::vector<std::string> &flagVect) {
       modelTag = flagVect[i].substr(5);
       break;
     }
+    if ((flagVect[i] == "--tag" || flagVect[i] == "-tag") &&
+        i + 1 < (int)flagVect.size()) {
+      modelTag = flagVect[i + 1];
+      break;
+    }
   }
   return modelTag;
 }
-- 
2.43.0


From 5492f1c9a3df99955366ca2a77d1e778a5b33876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 035/117] fix: predict the output of a model given in the flags
 with an output path

---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..a1c80fa 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -765,7 +765,8 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  std::string inputFilename = onnx_mlir::getInputFilename(modelPath, flagVect);
+  onnx_mlir::applyOutputPath(flagVect, outputPath, inputFilename);
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From 842722e959b2162115a418ac6dc3718615fd4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 036/117] fix: look for the constants file next to the compiled
 model

It was searched in the current directory, whatever the output path.
---
 src/Compiler/OMCompile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index a1c80fa..2180aff 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -676,8 +676,9 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  std::string constFilename = fs::path(outputFilename)
+                                  .replace_extension(".constants.bin")
+                                  .string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From c8c8e84303fd93eea99034fc6ba8a7ceb3d43178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 037/117] fix: wait for the command again when interrupted by a
 signal

The status was read uninitialized.
---
 src/Compiler/Command.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..58517e7 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -259,7 +259,13 @@ int Command::exec(const std::string &wdir) {
 
   // Parent process.
   int status;
-  waitpid(pid, &status, 0);
+  while (waitpid(pid, &status, 0) == -1) {
+    if (errno == EINTR)
+      continue; // Interrupted by a signal of the parent.
+    if (requestedNewDir)
+      fs::current_path(curWdir);
+    throw CommandException("Failed to wait for command '" + path + "'");
+  }
 
   // Restore working directory.
   if (requestedNewDir) {
-- 
2.43.0


From 99a44d345bc377a04d9d138c3d31832e570ea086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 038/117] fix: leave a child that failed to execute with _exit

exit runs the exit handlers of the parent and writes its buffered output twice.
---
 src/Compiler/Command.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 58517e7..830f219 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -249,11 +249,11 @@ int Command::exec(const std::string &wdir) {
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
-- 
2.43.0


From 67432582f8d71bdd1ef6f22f35ad59bbfa4180d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 039/117] fix: quote the arguments of the compiler run in a
 container

Flags and paths with spaces were split by the shell of the container.
---
 src/Compiler/OMCompile.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 2180aff..cabac44 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -478,6 +478,18 @@ std::unique_ptr<Command> OMCompile::createLocalCompileCommand(
   return cmd;
 }
 
+// Quote a string for use as one argument in a sh command.
+static std::string quoteForShell(const std::string &str) {
+  std::string quoted = "'";
+  for (char c : str) {
+    if (c == '\'')
+      quoted += "'\\''";
+    else
+      quoted += c;
+  }
+  return quoted + "'";
+}
+
 std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
     const std::vector<std::string> &flagVect, const std::string &inputFilename,
     const std::string &modelDir, const std::string &outputDir) {
@@ -504,21 +516,13 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   cmdStream << compilerPathInContainer;
 
   // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
-    }
-    cmdStream << " " << escapedFlag;
-  }
+  for (const auto &flag : flagVect)
+    cmdStream << " " << quoteForShell(flag);
 
   // Add input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+  cmdStream << " " << quoteForShell(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
-- 
2.43.0


From ff488a559b3cd2a01c61a2133ba71b5a12055f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 040/117] fix: run the compiler in the current directory of the
 container

The output of a relative -o option was written to a directory that is not
mounted, and lost.
---
 src/Compiler/OMCompile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index cabac44..c34f3a5 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -546,6 +546,10 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   cmd->appendStr("--entrypoint");
   cmd->appendStr("sh");
 
+  // Resolve relative paths in the flags as outside of the container.
+  cmd->appendStr("-w");
+  cmd->appendStr(fs::current_path().string());
+
   // Mount model directory (using host path for DinD).
   cmd->appendStr("-v");
   cmd->appendStr(hostModelDir + ":" + modelDir + ":rw");
-- 
2.43.0


From c2b56ee792408e25364824d1a1d7c0af159b329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 041/117] fix: do not pass twice to the container the model
 given in the flags

---
 src/Compiler/OMCompile.cpp | 18 +++++++++++-------
 src/Compiler/OMCompile.hpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index c34f3a5..af00ecf 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -491,8 +491,9 @@ static std::string quoteForShell(const std::string &str) {
 }
 
 std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
-    const std::vector<std::string> &flagVect, const std::string &inputFilename,
-    const std::string &modelDir, const std::string &outputDir) {
+    const std::string &modelPath, const std::vector<std::string> &flagVect,
+    const std::string &inputFilename, const std::string &modelDir,
+    const std::string &outputDir) {
 
   // Container Mode: Docker/Podman run with volume mounts.
   // Note: When running in Docker-in-Docker (DinD), paths are automatically
@@ -519,10 +520,13 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   for (const auto &flag : flagVect)
     cmdStream << " " << quoteForShell(flag);
 
-  // Add input file (using container path - same as modelDir).
-  std::string containerInputPath =
-      (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << quoteForShell(containerInputPath);
+  // Add input file (using container path - same as modelDir), unless the flags
+  // already have it.
+  if (!modelPath.empty()) {
+    std::string containerInputPath =
+        (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
+    cmdStream << " " << quoteForShell(containerInputPath);
+  }
 
   std::string containerCmd = cmdStream.str();
 
@@ -639,7 +643,7 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
     cmd = std::move(localCmd);
   } else {
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        modelPath, flagVect, inputFilename, modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
diff --git a/src/Compiler/OMCompile.hpp b/src/Compiler/OMCompile.hpp
index c1ae2c7..bea1b1f 100644
--- a/src/Compiler/OMCompile.hpp
+++ b/src/Compiler/OMCompile.hpp
@@ -402,7 +402,7 @@ private:
       const std::string &inputFilename);
 
   std::unique_ptr<Command> createContainerCompileCommand(
-      const std::vector<std::string> &flagVect,
+      const std::string &modelPath, const std::vector<std::string> &flagVect,
       const std::string &inputFilename, const std::string &modelDir,
       const std::string &outputDir);
 };
-- 
2.43.0


From 77cbcdf229598c2abc6f361e589a106c0bf399c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 042/117] fix: find the constants file of a model compiled to
 LLVM IR

---
 src/Compiler/OMCompile.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index af00ecf..063ead0 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -688,9 +688,10 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename)
-                                  .replace_extension(".constants.bin")
-                                  .string();
+  fs::path constPath = fs::path(outputFilename).replace_extension();
+  if (fs::path(outputFilename).extension() == ".mlir")
+    constPath.replace_extension(); // The extension is ".onnx.mlir".
+  std::string constFilename = constPath.string() + ".constants.bin";
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 4612da8303378d2a399df7b5b4575760d10617f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 043/117] fix: detect that a container image is missing

---
 src/Compiler/OMCompile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 063ead0..ef73280 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -158,9 +158,11 @@ bool ContainerSupport::isImageAvailable(
     const std::string &engineName, const std::string &imageName) {
   try {
     Command imageCheck(engineName, verbose);
-    imageCheck.appendStr("images");
-    imageCheck.appendStr("-q");
+    // Unlike "images -q", this fails when there is no such image.
+    imageCheck.appendStr("image");
+    imageCheck.appendStr("inspect");
     imageCheck.appendStr(imageName);
+    imageCheck.redirectExecStreams("/dev/null");
     return imageCheck.exec() == 0;
   } catch (...) {
     return false;
-- 
2.43.0


From 562032190589f062aa1e28fac71510cf47aacdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 044/117] fix: do not divide by zero in nonZero of a scalar
 constant

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..916cc30 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1085,32 +1085,34 @@ ElementsAttr ElementsAttrBuilder::range(
 }
 
 namespace {
-// Returns indices with non-zero values. The indices are placed back to back,
-// lexicographically sorted. Can be viewed as a [count, rank] shaped matrix
+// Returns the number of non-zero values and appends their indices to indices.
+// The indices are placed back to back, lexicographically sorted. Can be viewed as a [count, rank] shaped matrix
 // linearized in row-major order, where rank is the rank of elms' shape and
 // count is the number of non-zero values. AP_TYPE should be APFloat or APInt.
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
-  SmallVector<int64_t> indices;
+int64_t nonZeroIndices(ElementsAttr elms, SmallVectorImpl<int64_t> &indices) {
+  int64_t count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count;
+    }
   }
-  return indices;
+  return count;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
-  SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+  SmallVector<int64_t> indices;
+  int64_t count = isa<FloatType>(elms.getElementType())
+                      ? nonZeroIndices<APFloat>(elms, indices)
+                      : nonZeroIndices<APInt>(elms, indices);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
+  assert(static_cast<int64_t>(indices.size()) == rank * count);
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From 6b14f4c7bc7c4b1ed261cb574facf34d333c718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 045/117] fix: truncate a wide integer when it is read as an
 APInt

---
 src/Dialect/ONNX/ElementsAttr/WideNum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
index 7b11568..cbdd00e 100644
--- a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
@@ -43,11 +43,11 @@ APFloat WideNum::toAPFloat(BType tag) const {
 
 APInt WideNum::toAPInt(BType tag) const {
   unsigned bitwidth = bitwidthOfBType(tag);
+  // Wide numbers are truncated when read, not when computed.
   if (isSignedIntBType(tag))
-    // Actually, isSigned flag is ignored because bitwidth <= 64.
-    return APInt(bitwidth, i64, /*isSigned=*/true);
+    return APInt(bitwidth, i64, /*isSigned=*/true, /*implicitTrunc=*/true);
   if (isUnsignedIntBType(tag))
-    return APInt(bitwidth, u64);
+    return APInt(bitwidth, u64, /*isSigned=*/false, /*implicitTrunc=*/true);
   llvm_unreachable("BType must be an integer");
 }
 
-- 
2.43.0


From 3b2d8e15a47742a42ca73d474f19f633116e1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 046/117] fix: do not divide by zero when splitting an empty
 constant

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 916cc30..581c1f3 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -569,8 +569,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
   auto type = elms.getShapedType();
   auto shape = type.getShape();
   assert(axis < shape.size());
-  auto axisSize = shape[axis];
-  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == axisSize);
+  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == shape[axis]);
   if (sizes.empty()) {
     return {};
   }
@@ -583,7 +582,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
-- 
2.43.0


From 393cea0aa067bc0fee33f7e2b5b0c16989407346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 047/117] fix: widen true of a dense bool constant to one

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..746693c 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -22,6 +22,13 @@ using namespace mlir;
 
 namespace onnx_mlir {
 
+namespace {
+// Bools (i1) are signless but their wide type is unsigned.
+bool isWideSigned(IntegerType itype) {
+  return isSignedIntBType(btypeOfMlirType(itype));
+}
+} // namespace
+
 WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<DisposableElementsAttr>(elms))
     return disposable.getSplatValue<WideNum>();
@@ -29,7 +36,8 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(
+        elms.getSplatValue<APInt>(), isWideSigned(itype));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +52,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isWideSigned(itype);
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From b8d3074164298adf0891bd27d3577f9ce100a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 048/117] fix: accept negative indices in scatterND of
 constants

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 581c1f3..779e7ae 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -822,8 +822,11 @@ ElementsAttr ElementsAttrBuilder::scatterND(
     ArrayBuffer<int64_t> indicesBuffer = getElementsArray<int64_t>(indices);
     const int64_t *indicesIter = indicesBuffer.get().begin();
     for (int64_t i = 0; i < n_slices; ++i) {
-      ArrayRef<uint64_t> idxs =
-          castArrayRef<uint64_t>(ArrayRef(indicesIter, indices_nd));
+      SmallVector<uint64_t, 4> idxs;
+      for (int64_t axis = 0; axis < indices_nd; ++axis) {
+        int64_t idx = indicesIter[axis];
+        idxs.push_back(idx < 0 ? idx + inputShape[axis] : idx);
+      }
       int64_t pos = getStridesPosition(idxs, sliceStrides);
       for (int64_t j = 0; j < slice_size; ++j) {
         dst[pos] = updatesData.get()[updatesIter->at(0)];
-- 
2.43.0


From 263a1fea0eb010b124a3749a74491f9509f05a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 049/117] fix: reshape an empty constant whose strides are not
 the default ones

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 779e7ae..04492c2 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -514,9 +514,12 @@ ElementsAttr ElementsAttrBuilder::reshape(
   if (reshapedShape == shape)
     return elms;
 
+  ShapedType reshapedType = type.clone(reshapedShape);
+  if (elms.empty()) // There may be no strides, and there is no data to reuse.
+    return fromWideNums(reshapedType, [](MutableArrayRef<WideNum>) {});
+
   ElementsProperties props = getElementsProperties(elms);
 
-  ShapedType reshapedType = type.clone(reshapedShape);
   if (auto reshapedStrides =
           reshapeStrides(shape, props.strides, reshapedShape))
     return create(reshapedType, props.bufferBType, *reshapedStrides,
-- 
2.43.0


From 801e5986e5d2a9dde88d4222ceee64008ca04bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 050/117] fix: cast a bool constant to a signed integer type

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 04492c2..79cb1e8 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,7 +404,10 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    // The wide type of bool (i1) is unsigned.
+    bool isOldUnsigned =
+        oldElementType.isUnsignedInteger() || oldElementType.isInteger(1);
+    if (newElementType.isUnsigned() != isOldUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From d3bd5895eee4fd422061483c12061415326e3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 051/117] fix: do not step over a batch dimension of one in the
 generic MatMul lowering

---
 src/Conversion/ONNXToKrnl/Math/MatMul.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
index c1965b0..c0789a2 100644
--- a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
@@ -94,12 +94,23 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                     createKrnl);
                 Value k = innerIndex[0];
                 SmallVector<Value, 4> aAccessFct, bAccessFct;
+                // A batch dimension of 1 that is broadcast is always at 0.
+                auto batchIndex = [&](const IndexExpr &dim, int i) -> Value {
+                  if (dim.isLiteralAndIdenticalTo(1) &&
+                      !shapeHelper.getOutputDims()[i].isLiteralAndIdenticalTo(
+                          1))
+                    return create.math.constantIndex(0);
+                  return outerIndices[i];
+                };
                 for (int i = 0; i < aRank; ++i) {
                   // Add index if dim is not a padded dimension.
                   if (!shapeHelper.aPadDims[i]) {
                     // For A, reduction index is last
                     if (i == aRank - 1) {
                       aAccessFct.emplace_back(k);
+                    } else if (i < aRank - 2) {
+                      aAccessFct.emplace_back(
+                          batchIndex(shapeHelper.aDims[i], i));
                     } else {
                       aAccessFct.emplace_back(outerIndices[i]);
                     }
@@ -117,6 +128,9 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                       // output[2] but it does not exist, because we lost a dim
                       // in the output due to 1D A.
                       bAccessFct.emplace_back(outerIndices[i - 1]);
+                    } else if (i < bRank - 2) {
+                      bAccessFct.emplace_back(
+                          batchIndex(shapeHelper.bDims[i], i));
                     } else {
                       bAccessFct.emplace_back(outerIndices[i]);
                     }
-- 
2.43.0


From 7d6c426e235de2a41dace7a4d01f2e1e65ed6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 052/117] fix: pooling window with dilations

---
 src/Conversion/ONNXToKrnl/NN/Pooling.cpp | 15 +++--------
 src/Dialect/ONNX/ONNXOps/OpHelper.cpp    | 33 ++++++++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/NN/Pooling.cpp b/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
index 9e02a2b..e1496f4 100644
--- a/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
+++ b/src/Conversion/ONNXToKrnl/NN/Pooling.cpp
@@ -385,25 +385,18 @@ struct ONNXPoolOpLowering : public OpConversionPattern<PoolOp> {
           }
 
           // Compute the size of the full conv window.
-          //   hDim = round(float(endH - startH) / float(dH))
-          //   wDim = round(float(endW - startW) / float(dW))
+          //   hDim = ceil(float(endH - startH) / float(dH))
+          //   wDim = ceil(float(endW - startW) / float(dW))
           SmallVector<Value, 4> fullWindowSize;
           for (int i = 0; i < kernelShapeSize; ++i) {
             Value dim = create.math.sub(
                 windowEndExprs[i].getValue(), windowStartExprs[i].getValue());
             if (isDilated) {
               Value one = create.math.constantIndex(1);
-              Value numerator = create.math.add(dim, one);
               Value denominator = IVExprs[i][5].getValue(); // dilations[i]
+              Value numerator =
+                  create.math.add(dim, create.math.sub(denominator, one));
               dim = create.math.div(numerator, denominator);
-              if (ceilMode) {
-                auto remainder = arith::RemSIOp::create(
-                    rewriter, loc, numerator, denominator);
-                Value zero = create.math.constantIndex(0);
-                Value isZero = create.math.eq(remainder, zero);
-                Value dimPlusOne = create.math.add(dim, one);
-                dim = create.math.select(isZero, dim, dimPlusOne);
-              }
             }
             fullWindowSize.emplace_back(dim);
           }
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
index 1a2ce9d..5524105 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
@@ -266,12 +266,12 @@ AffineMap getConvDimMap(Builder &builder, bool ceilMode) {
 /// The conv/pooling window can be smaller than the kernel when slicing it
 /// over the border edges. Thus, we will compute the start and end indices for
 /// each window dimension as follows.
-///   firstValidH = ceil(float(ptH / dH)) * dH - ptH
+///   firstValidH = ceil(float((ptH - ho * sH) / dH)) * dH + ho * sH - ptH
 ///   startH = max(firstValidH, ho * sH - ptH)
 ///   endH = min(H, ho * sH + (kH - 1) * dH  + 1 - pbH)
 ///
 /// Full conv/pooling window can be reconstructed by:
-///   hDim = round(float(endH - startH) / float(dH))
+///   hDim = ceil(float(endH - startH) / float(dH))
 //
 /// We also want to compute how the window is smaller than the kernel.
 ///   kernelOffset = min(0, ho * sH - ptH)
@@ -279,13 +279,15 @@ AffineMap getConvDimMap(Builder &builder, bool ceilMode) {
 /// How to derive 'firstValidH':
 ///   When dilation is non-unit, the first valid pixel to apply conv/pooling
 ///   on will not be the 0-th pixel, but rather the smallest integer n to make
-///   '-pH + n * dH' greater than or equal to 0, where pH and dH are pad
-///   and dilation along axis H. We derive what is this smallest n:
-///   -pH + n * dH >= 0
-///         n * dH >= pH
-///              n >= pH/dH
-///   thus n = ceil(pH/dH)
-///   thus the first valid pixel location is 'ceil(pH / dH) * dH- pH'.
+///   'ho * sH - pH + n * dH' greater than or equal to 0, where sH, pH and dH
+///   are stride, pad and dilation along axis H. We derive what is this
+///   smallest n:
+///   ho * sH - pH + n * dH >= 0
+///                  n * dH >= pH - ho * sH
+///                       n >= (pH - ho * sH)/dH
+///   thus n = ceil((pH - ho * sH)/dH)
+///   thus the first valid pixel location is
+///   'ceil((pH - ho * sH) / dH) * dH + ho * sH - pH'.
 ///
 /// This function returns {startH, endH, kernelOffset}.
 
@@ -302,6 +304,9 @@ std::vector<IndexExpr> getIndexExprsForConvWindow(
 
   IndexExpr start1 = (padTopDim).ceilDiv(dilationDim) * dilationDim - padTopDim;
   IndexExpr start2 = outputIndex * strideDim - padTopDim;
+  // With a stride, the first valid pixel depends on the output index.
+  if (isDilated)
+    start1 = start2 + (start2 * -1).ceilDiv(dilationDim) * dilationDim;
   IndexExpr end1 = inputDim;
   IndexExpr end2 =
       outputIndex * strideDim + (kernelDim - 1) * dilationDim + 1 - padTopDim;
@@ -335,6 +340,9 @@ AffineMap getWindowAffineMap(Builder &builder, bool ceilMode, bool isDilated) {
   AffineExpr start1 =
       (padTopDim).ceilDiv(dilationDim) * dilationDim - padTopDim;
   AffineExpr start2 = outputIndex * strideDim - padTopDim;
+  // With a stride, the first valid pixel depends on the output index.
+  if (isDilated)
+    start1 = start2 + (start2 * -1).ceilDiv(dilationDim) * dilationDim;
   AffineExpr end1 = inputDim;
   AffineExpr end2 =
       outputIndex * strideDim + (kernelDim - 1) * dilationDim + 1 - padTopDim;
@@ -352,10 +360,9 @@ AffineMap getWindowAffineMap(Builder &builder, bool ceilMode, bool isDilated) {
   AffineExpr dimExpr3 = end2 - start1;
   AffineExpr dimExpr4 = end2 - start2;
   for (AffineExpr de : {dimExpr1, dimExpr2, dimExpr3, dimExpr4}) {
-    if (isDilated) {
-      de = de + 1;
-      de = (ceilMode) ? de.ceilDiv(dilationDim) : de.floorDiv(dilationDim);
-    }
+    // Every dilationDim-th pixel of [startH, endH), starting with startH.
+    if (isDilated)
+      de = de.ceilDiv(dilationDim);
     dimExpr.emplace_back(de);
   }
   windowDimMap = AffineMap::get(1, 5, dimExpr, builder.getContext());
-- 
2.43.0


From d37f5e2c87886cf2a738d0725435a5830825a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 053/117] fix: shape inference of MatMul with a rank one right
 operand

---
 src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
index cb781e3..9697f65 100644
--- a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
@@ -143,7 +143,7 @@ LogicalResult ONNXGenericMatMulOpShapeHelper<OP_TYPE>::computeShape() {
     // Save aK dims into bK dims, in case bK dims was runtime.
     bDims[bK] = aDims[aK];
     // Update bK dim to the literal aK.
-    this->updateInputDimAt(B, aDims[aK].getLiteral(), -2);
+    this->updateInputDimAt(B, aDims[aK].getLiteral(), bRank == 1 ? -1 : -2);
   } else if (bDims[bK].isLiteral()) {
     // Save bK dims into aK dims, in case aK dims was runtime.
     aDims[aK] = bDims[bK];
-- 
2.43.0


From dbec71f05a285c45ecb8308767e888b8cd2413fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 054/117] fix: constant folding of an integer Clip without a
 limit

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index dfa51dc..2e8d2a9 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -173,7 +173,10 @@ Value createMaximumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, false, llvm::APInt::getMaxValue);
+      llvm::APFloat::getLargest, false,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMaxValue
+          : llvm::APInt::getSignedMaxValue);
 }
 
 Value createMinimumValueForClip(
@@ -184,7 +187,10 @@ Value createMinimumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, true, llvm::APInt::getMinValue);
+      llvm::APFloat::getLargest, true,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMinValue
+          : llvm::APInt::getSignedMinValue);
 }
 
 // Extracts number from a scalar constant value.
-- 
2.43.0


From 615302c2c91e34b04ef6e3e39d8f5c224b915956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 055/117] fix: cumulative sum along an axis of size one

---
 src/Conversion/ONNXToKrnl/Math/CumSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
index 017d4f2..2ab11d1 100644
--- a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
@@ -138,7 +138,9 @@ struct ONNXCumSumOpLowering : public OpConversionPattern<ONNXCumSumOp> {
     IndexExpr numberOfStep;
     if (axisSize.isLiteral()) {
       int64_t n = axisSize.getLiteral();
-      int64_t logN = static_cast<int64_t>(std::ceil(std::log2(n)));
+      // At least one step, as it is the steps that write the result.
+      int64_t logN =
+          n > 1 ? static_cast<int64_t>(std::ceil(std::log2(n))) : 1;
       numberOfStep = LitIE(logN);
     } else {
       Value nos = create.math.cast(f32Ty, axisSize.getValue());
-- 
2.43.0


From 2bbac584961efa66147b9bbfafe49e6a0339e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 056/117] fix: Pow to Mul rewrite for exponent zero with
 dynamic shape and higher rank exponents

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 824da49..373a206 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1233,8 +1233,17 @@ public:
 private:
   // Check if a Pow can be simply rewritten as a sequence of multiply ops.
   bool CanExpandPowOpToMul(ONNXPowOp op, int64_t &powVal) const {
-    return (hasIntegerPowerExponent(&op, powVal) && powVal >= 0 &&
-            powVal <= maxPower);
+    if (!hasIntegerPowerExponent(&op, powVal) || powVal < 0 ||
+        powVal > maxPower)
+      return false;
+    // The exponent may have a higher rank than the input, and so the result.
+    Value input = op.getX();
+    Value exponent = op.getY();
+    if (hasShapeAndRank(input) && hasShapeAndRank(exponent) &&
+        getRank(exponent.getType()) > getRank(input.getType()))
+      return false;
+    // The result is a constant, so its shape must be known.
+    return powVal != 0 || hasStaticShape(op.getZ().getType());
   }
   // Data.
   int64_t maxPower;
-- 
2.43.0


From ef650ef833f81b579a15d53bd349e8aefda7cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 057/117] fix: chunks of an uneven split: only the last one is
 smaller

---
 src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp | 13 +++++++------
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 15 +++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp b/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
index e53a464..0d736c8 100644
--- a/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
@@ -74,13 +74,14 @@ LogicalResult ONNXCommonSplitOpShapeHelper<OP_TYPE>::customComputeShape(
       return op->emitError("The dimension at the split axis is "
                            "expected to be divisible by the number of results");
 
-    unsigned numBiggerChunks = splitInputDim.isLiteral()
-                                   ? splitInputDim.getLiteral() % numOfResults
-                                   : numOfResults;
     for (unsigned int i = 0; i < numOfResults; ++i) {
-      IndexExpr splitDim = (i < numBiggerChunks)
-                               ? splitInputDim.ceilDiv(numOfPartitions)
-                               : splitInputDim.floorDiv(numOfPartitions);
+      IndexExpr splitDim = splitInputDim.ceilDiv(numOfPartitions);
+      // If the dimension is not evenly splittable, the last chunk is smaller.
+      if (splitDim.isLiteral()) {
+        int64_t chunk = splitDim.getLiteral();
+        int64_t rest = splitInputDim.getLiteral() - i * chunk;
+        splitDim = LitIE(std::max<int64_t>(0, std::min(chunk, rest)));
+      }
       splitDims.emplace_back(splitDim);
     }
   }
diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 2e8d2a9..3eccaa6 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -1120,13 +1120,16 @@ std::vector<Value> ConstPropSplit(PatternRewriter &rewriter,
   ArrayRef<int64_t> inputShape = inputType.getShape();
 
   int64_t splitAxisSize = inputShape[axis];
-  SmallVector<int64_t> splitSizes(numResults, splitAxisSize / numResults);
+  SmallVector<int64_t> splitSizes(numResults);
   if (isa<NoneType>(split.getType())) {
-    // If split attribute is not specified, split size is equally divided.
-    // TODO: Follow the onnx spec which is more relaxed (albeit incomplete).
-    assert(splitAxisSize % numResults == 0 &&
-           "The dimension at the split axis is expected to be divisible by "
-           "the number of results");
+    // If split attribute is not specified, split size is equally divided, and
+    // the last chunk is smaller if the dimension is not evenly splittable.
+    int64_t chunk = llvm::divideCeil(splitAxisSize, numResults);
+    int64_t rest = splitAxisSize;
+    for (int64_t &splitSize : splitSizes) {
+      splitSize = std::min(chunk, rest);
+      rest -= splitSize;
+    }
   } else {
     ElementsAttr splitElements = getConstValueElements(split);
     assert(splitElements.size() == numResults &&
-- 
2.43.0


From 7e585694030934cd18eb4a3de110b8c82eacc726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 058/117] fix: no SIMD code for casting from bool

---
 src/Conversion/ONNXToKrnl/Math/Elementwise.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
index 9e76816..80b6923 100644
--- a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
@@ -190,6 +190,9 @@ GenOpMix getGenOpMix<ONNXBitwiseXorOp>(Type t, Operation *op) {
 
 template <>
 GenOpMix getGenOpMix<ONNXCastOp>(Type t, Operation *op) {
+  // Bool values take a byte each in memory, whereas a vector of i1 is packed.
+  if (getElementType(op->getOperand(0).getType()).isInteger(1))
+    return {{GenericOps::ScalarOnlyGop, 1}};
   return {{GenericOps::ConversionGop, 1}};
 }
 
-- 
2.43.0


From 113ad1c7af945830a654ddfbd7d62db464bf6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:58 +0000
Subject: [PATCH 059/117] fix: reduction to a scalar with noop_with_empty_axes
 and no keepdims

---
 src/Conversion/ONNXToKrnl/Math/Reduction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
index 6888ae9..d40cbec 100644
--- a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
@@ -700,7 +700,8 @@ struct ONNXReductionOpLowering : public OpConversionPattern<ONNXReductionOp> {
     //////////////////////////////////////////////////////////////////////
     // Reduction over all dimensions to a scalar value.
     bool fullReduction =
-        hasNoAxes || (rawAxesIE.size() == static_cast<uint64_t>(inRank));
+        (hasNoAxes && !isNoop) ||
+        (rawAxesIE.size() == static_cast<uint64_t>(inRank));
     if (fullReduction && !isKeepdims && enableSIMD) {
       Value alloc, none;
       if (emitFullSIMDReductionFor<ONNXReductionOp, ONNXNoneOp>(rewriter, loc,
-- 
2.43.0


From 7c5dfa04c8b4206182e88a5d0a0821a2ed6edd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:25 +0000
Subject: [PATCH 060/117] fix: forget the affine expression and the value of a
 changed literal index expression

---
 src/Dialect/Mlir/IndexExprDetail.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dialect/Mlir/IndexExprDetail.cpp b/src/Dialect/Mlir/IndexExprDetail.cpp
index ccbd319..71f5877 100644
--- a/src/Dialect/Mlir/IndexExprDetail.cpp
+++ b/src/Dialect/Mlir/IndexExprDetail.cpp
@@ -516,12 +516,16 @@ void IndexExprImpl::setLiteral(int64_t val) {
   assert(isLiteral() && "set literal allowed only for literal index expr ");
   assert(!isFloatType() && "cannot set int value for float index expr");
   intLit = val;
+  // Computed from the previous literal, if at all.
+  affineExpr = nullptr;
+  value = nullptr;
 }
 
 void IndexExprImpl::setLiteral(double val) {
   assert(isLiteral() && "set literal allowed only for literal index expr ");
   assert(isFloatType() && "cannot set float value for int index expr");
   floatLit = val;
+  value = nullptr;
 }
 
 void IndexExprImpl::setLiteral(const IndexExprImpl &obj) {
-- 
2.43.0


From 3f14d8dc93bc15f196cf5e455b42e4db8cbc6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:12 +0000
Subject: [PATCH 061/117] fix: subtracting a min or max from an affine index
 expression

---
 src/Dialect/Mlir/IndexExpr.cpp | 9 ++++++---
 src/Dialect/Mlir/IndexExpr.hpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/Mlir/IndexExpr.cpp b/src/Dialect/Mlir/IndexExpr.cpp
index ec9314c..7e26091 100644
--- a/src/Dialect/Mlir/IndexExpr.cpp
+++ b/src/Dialect/Mlir/IndexExpr.cpp
@@ -563,7 +563,7 @@ static bool isIdentical(const IndexExpr litExpr, double dval) {
 // All the other ones (mul, div*, mod) require the B to be a literal.
 IndexExpr IndexExpr::binaryOp(IndexExpr const b, bool propagateIntoMinMax,
     bool affineWithLitB, bool hasNeutralA, bool hasNeutralB, double neutralVal,
-    F2 litFct, F2 affineExprFct, F2 valueFct) const {
+    F2 litFct, F2 affineExprFct, F2 valueFct, bool negatesB) const {
   assert(litFct && "expect lit function");
   assert(valueFct && "expect value function");
   assert(canBeUsedInScope() && "a cannot be used in current scope");
@@ -623,7 +623,9 @@ IndexExpr IndexExpr::binaryOp(IndexExpr const b, bool propagateIntoMinMax,
           newAffineExpr = affineExprFct(*this, oldAffineExpr);
         updatedMinMaxExprs.emplace_back(newAffineExpr);
       }
-      // Create new operation.
+      // Create new operation; a - max(x, y) is min(a - x, a - y).
+      if (negatesB && !hasMinMaxA)
+        isMin = !isMin;
       if (isMin) {
         return IndexExpr::min(updatedMinMaxExprs);
       }
@@ -910,7 +912,8 @@ IndexExpr IndexExpr::operator-(IndexExpr const b) const {
     return binaryOp(
         b, false, false, false, true, 0.0, litFloatFct, nullptr, valueFct);
   return binaryOp(
-      b, true, false, false, true, 0.0, litFct, affineExprFct, valueFct);
+      b, true, false, false, true, 0.0, litFct, affineExprFct, valueFct,
+      /*negatesB*/ true);
 }
 
 IndexExpr IndexExpr::operator*(IndexExpr const b) const {
diff --git a/src/Dialect/Mlir/IndexExpr.hpp b/src/Dialect/Mlir/IndexExpr.hpp
index 0ff8658..da1e6d8 100644
--- a/src/Dialect/Mlir/IndexExpr.hpp
+++ b/src/Dialect/Mlir/IndexExpr.hpp
@@ -612,7 +612,8 @@ protected:
   // Res is float is the same as a & b.
   IndexExpr binaryOp(IndexExpr const b, bool propagateIntoMinMax,
       bool affineWithLitB, bool hasNeutralA, bool hasNeutralB,
-      double neutralVal, F2 fInteger, F2 fAffine, F2 fValue) const;
+      double neutralVal, F2 fInteger, F2 fAffine, F2 fValue,
+      bool negatesB = false) const;
   IndexExpr compareOp(
       mlir::arith::CmpIPredicate comparePred, IndexExpr const b) const;
   IndexExpr compareOp(
-- 
2.43.0


From 630a681dbe2bfd3e47c7d85e4b4a85bde52d413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 062/117] fix: outputs that share a buffer: each owns its own
 copy

---
 .../KrnlToLLVM/ConvertKrnlToLLVM.cpp          | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
index c517820..de69217 100644
--- a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
+++ b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
@@ -78,6 +78,27 @@ std::string EXTERNAL_CONSTANT_PREFIX = "om_external_constant_";
 
 uint64_t KRNL_ENTRY_POINT_ID = 0;
 
+// Return the buffer that the given value is a view of.
+static Value getBuffer(Value v) {
+  while (auto viewOp = v.getDefiningOp<ViewLikeOpInterface>())
+    v = viewOp.getViewSource();
+  return v;
+}
+
+// Return a copy of the given buffer that is made before the given operation.
+static Value copyBuffer(Value v, Operation *op) {
+  OpBuilder builder(op);
+  MultiDialectBuilder<MemRefBuilder> create(builder, op->getLoc());
+  MemRefType type = mlir::cast<MemRefType>(v.getType());
+  SmallVector<Value, 4> dynSizes;
+  for (int64_t i = 0; i < type.getRank(); ++i)
+    if (type.isDynamicDim(i))
+      dynSizes.emplace_back(create.mem.dim(v, i));
+  Value copy = create.mem.alignedAlloc(type, dynSizes);
+  memref::CopyOp::create(builder, op->getLoc(), v, copy);
+  return copy;
+}
+
 // Return true if the value owns the storge. A value defined by memref.alloc
 // owns the storage. A value defined by constant, krnl.Global, does not own
 // the storage (in the sense that the storage can not be freed)
@@ -170,8 +191,16 @@ void determineOwnershipForOutputOMTensors(
 
   // Check, for each output, if it was transitively produced by a constant or
   // a block argument.
-  for (Value v : returnOp->getOperands()) {
+  llvm::SmallDenseSet<Value, 4> ownedBuffers;
+  for (OpOperand &operand : returnOp->getOpOperands()) {
+    Value v = operand.get();
     bool shouldOwnResult = shouldOwn(v);
+    // A buffer is freed once: an output that shares the buffer of another
+    // output owns a copy.
+    MemRefType type = mlir::dyn_cast<MemRefType>(v.getType());
+    if (shouldOwnResult && !ownedBuffers.insert(getBuffer(v)).second && type &&
+        !mlir::isa<MemRefType>(type.getElementType()))
+      operand.set(copyBuffer(v, returnOp));
     outputOMTensorOwnerships.emplace_back(shouldOwnResult);
     LLVM_DEBUG(llvm::dbgs()
                << "Should the OMTensor own the entry function output? "
-- 
2.43.0


From da941e14a86e7d9f642882364c2000e9d20d8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 063/117] fix: squeeze without axes in front of an unsqueeze

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 373a206..2d07938 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -216,6 +216,9 @@ bool AreTheSameAxesArrayAttr(
 // ONNXConstantOp tensors as inputs.
 // Returns false if any of the input Values are not constant results.
 bool AreTheSameAxesConstant(int64_t rank, Value lhs, Value rhs) {
+  // The axes of a squeeze are optional.
+  if (isNoneValue(lhs) || isNoneValue(rhs))
+    return false;
   assert(cast<ShapedType>(lhs.getType()).getElementType().isInteger(64));
   assert(cast<ShapedType>(rhs.getType()).getElementType().isInteger(64));
   auto lhsConstOp = mlir::dyn_cast_or_null<ONNXConstantOp>(lhs.getDefiningOp());
-- 
2.43.0


From dc5150c35f127c2af0b86deeff4707ef1e829080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:57 +0000
Subject: [PATCH 064/117] fix: no fusion of Mean and of variadic operations
 without two operands

---
 src/Conversion/ONNXToKrnl/Math/Elementwise.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
index 80b6923..36d9b4f 100644
--- a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
@@ -1846,6 +1846,13 @@ bool OpFusionHelper::areInputsValidForFusion(
           useOp->getOperands(), [](Value v) { return isScalarTensor(v); }))
     return false;
 
+  // Fusion calls the scalar function of the useOp once. This is not enough for
+  // a variadic op whose number of operands is not two, or that needs
+  // post-processing.
+  if (isa<ONNXMeanOp>(useOp) || (isa<ONNXMaxOp, ONNXMinOp, ONNXSumOp>(useOp) &&
+                                    useOp->getNumOperands() != 2))
+    return false;
+
   // Elementwise unary operation is always fusible
   if (useOp->getOperands().size() == 1)
     return true;
-- 
2.43.0


From 7c41759ac9fc4cc9a348829ac3a8c83562b0bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:57 +0000
Subject: [PATCH 065/117] fix: combining convolutions that are grouped, use the
 input as weight or meet in a concat

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 63 ++++++++++++-----------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index 6b25450..4bf9fa3 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -665,8 +665,15 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
     // Collect all ONNXConvOps using this input.
     SmallVector<ONNXConvOp> candidateConvs;
     for (auto user : input.getUsers()) {
-      if (auto conv = dyn_cast<ONNXConvOp>(user))
+      if (auto conv = dyn_cast<ONNXConvOp>(user)) {
+        // The concatenated weights belong to other groups.
+        if (conv.getGroup() != 1)
+          return rewriter.notifyMatchFailure(conv, "conv must have one group");
+        if (conv.getW() == input || conv.getB() == input)
+          return rewriter.notifyMatchFailure(
+              conv, "input must not be used as weight or bias");
         candidateConvs.push_back(conv);
+      }
     }
 
     // Must have at least two convs to combine.
@@ -689,6 +696,14 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
 
     SmallVector<ONNXConvOp> parallelConvs = candidateConvs;
 
+    // The output channels are in the order of the concat, if there is one.
+    ONNXConcatOp commonConcatOp = getCommonConcat(parallelConvs);
+    if (commonConcatOp) {
+      parallelConvs.clear();
+      for (Value v : commonConcatOp.getInputs())
+        parallelConvs.push_back(v.getDefiningOp<ONNXConvOp>());
+    }
+
     SmallVector<Value> weightValues;
     int64_t totalOutputChannels = 0;
     for (auto conv : parallelConvs) {
@@ -789,34 +804,7 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
             convOp1.getGroupAttr(), convOp1.getKernelShapeAttr(),
             convOp1.getPadsAttr(), convOp1.getStridesAttr());
 
-    ONNXConcatOp commonConcatOp = nullptr;
-    bool allOutputsUsedInCommonConcat = true;
-
-    for (auto conv : parallelConvs) {
-      bool usedInCommonConcat = false;
-      for (auto user : conv.getResult().getUsers()) {
-        if (auto concatOp = dyn_cast<ONNXConcatOp>(user)) {
-          if (!commonConcatOp) {
-            commonConcatOp = concatOp;
-          }
-          if (concatOp != commonConcatOp) {
-            allOutputsUsedInCommonConcat = false;
-            break;
-          }
-          usedInCommonConcat = true;
-        } else {
-          allOutputsUsedInCommonConcat = false;
-          break;
-        }
-      }
-      if (!usedInCommonConcat || !allOutputsUsedInCommonConcat) {
-        allOutputsUsedInCommonConcat = false;
-        break;
-      }
-    }
-
-    if (allOutputsUsedInCommonConcat && commonConcatOp &&
-        commonConcatOp.getAxis() == 1) {
+    if (commonConcatOp) {
       rewriter.replaceOp(commonConcatOp, newConv);
     } else {
       SmallVector<int64_t> splitSizesVec;
@@ -842,6 +830,23 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
     return success();
   }
 
+  // Return the concat on the channel axis whose operands are the results of the
+  // given convs, each of them once, and that is their only user.
+  static ONNXConcatOp getCommonConcat(ArrayRef<ONNXConvOp> convs) {
+    ONNXConcatOp concatOp = nullptr;
+    for (ONNXConvOp conv : convs) {
+      if (!conv->hasOneUse())
+        return nullptr;
+      auto userOp = dyn_cast<ONNXConcatOp>(*conv->getUsers().begin());
+      if (!userOp || (concatOp && concatOp != userOp))
+        return nullptr;
+      concatOp = userOp;
+    }
+    if (concatOp.getAxis() != 1 || concatOp.getInputs().size() != convs.size())
+      return nullptr;
+    return concatOp;
+  }
+
   static bool areCompatible(ONNXConvOp a, ONNXConvOp b) {
     if (a.getAutoPad() != b.getAutoPad() ||
         a.getDilations() != b.getDilations() || a.getGroup() != b.getGroup() ||
-- 
2.43.0


From d0197c85a7fdeaadad31131415127d616ba36cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 066/117] fix: fusing two reshapes creates no operation before
 it is known to match

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 85 +++++++++++------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 2d07938..68a797d 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1579,9 +1579,11 @@ public:
     OnnxBuilder createONNX(rewriter, loc);
 
     // Try to compute a new shape tensor by fusing the two old shapes.
-    SmallVector<Value, 4> firstDims, secondDims, fusedDims;
-    if (!getValuesFromShape(createONNX, firstShape, firstDims) ||
-        !getValuesFromShape(createONNX, secondShape, secondDims)) {
+    // No operation is created until the match is known to succeed: otherwise,
+    // a failing match changes the IR and is tried again endlessly.
+    SmallVector<Dim, 4> firstDims, secondDims, fusedDims;
+    if (!getDimsFromShape(firstShape, firstDims) ||
+        !getDimsFromShape(secondShape, secondDims)) {
       // Not rewrite if we can not read dimension values (0, -1, L) from a shape
       // tensor.
       return rewriter.notifyMatchFailure(
@@ -1593,7 +1595,7 @@ public:
     int64_t s2 = secondDims.size();
     uint64_t minusOnes = 0;
     for (int64_t i = 0; i < s2; ++i) {
-      Value fusedD;
+      Dim fusedD;
       if (i < s1) {
         // Fuse two dimensions.
         // These are the rules to combine two values:
@@ -1609,16 +1611,16 @@ public:
         //   L     : 0      => L
         //   L     : L      => L
         //   L     : -1     => -1
-        Value d1 = firstDims[i];
-        Value d2 = secondDims[i];
-        fusedD = isZero(d2) ? d1 : d2;
+        Dim d1 = firstDims[i];
+        Dim d2 = secondDims[i];
+        fusedD = d2.isConstant(0) ? d1 : d2;
       } else {
         // 2nd shape has more dims than the 1st shape. Get dims from the 2nd
         // shape as they are.
         fusedD = secondDims[i];
       }
       fusedDims.emplace_back(fusedD);
-      if (isMinusOne(fusedD))
+      if (fusedD.isConstant(-1))
         minusOnes++;
     }
     if (minusOnes > 1) {
@@ -1629,16 +1631,19 @@ public:
     // Rewrite phase.
     // Emit the fused shape using ONNXConstantOp or ONNXConcatOp.
     Value fusedShape;
-    if (llvm::all_of(
-            fusedDims, [](Value v) { return isScalarConstantTensor(v); })) {
+    if (llvm::all_of(fusedDims, [](Dim d) { return d.literal.has_value(); })) {
       SmallVector<int64_t> dims;
-      for (int64_t i = 0; i < s2; ++i)
-        getI64ValuesFromONNXConstantOp(fusedDims[i], dims);
+      for (Dim d : fusedDims)
+        dims.emplace_back(*d.literal);
       fusedShape = createONNX.constantInt64(ArrayRef<int64_t>(dims));
     } else {
+      SmallVector<Value, 4> dims;
+      for (Dim d : fusedDims)
+        dims.emplace_back(
+            d.value ? d.value : createONNX.constantInt64({*d.literal}));
       fusedShape =
           createONNX.concat(RankedTensorType::get({s2}, rewriter.getI64Type()),
-              fusedDims, /*axis=*/0);
+              dims, /*axis=*/0);
     }
     // Emit a new Reshape.
     Value res = createONNX.reshape(secondReshapeOp.getResult().getType(),
@@ -1649,48 +1654,36 @@ public:
   };
 
 private:
-  bool isZero(Value v) const {
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] == 0);
-    return false;
-  }
-
-  bool isMinusOne(Value v) const {
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] == -1);
-    return false;
-  }
-
-  bool isLiteral(Value v) const {
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] > 0);
-    if (definedBy<ONNXDimOp>(v)) {
-      // Runtime dimension of a value is always literal.
-      return true;
-    }
-    return false;
-  }
+  // An individual dimension of a shape tensor: its value if there is one, and
+  // its literal if it is constant.
+  struct Dim {
+    Value value;
+    std::optional<int64_t> literal;
+    bool isConstant(int64_t n) const { return literal && *literal == n; }
+  };
 
-  // Get invididual values from a shape tensor. Return true if succeeded.
+  // Get individual dimensions from a shape tensor. Return true if succeeded.
   // Otherwise, return false.
-  bool getValuesFromShape(OnnxBuilder &createONNX, Value shape,
-      SmallVectorImpl<Value> &values) const {
+  bool getDimsFromShape(Value shape, SmallVectorImpl<Dim> &dims) const {
     // Shape is defined by a Concat.
     if (areDimsFromConcat(shape)) {
+      SmallVector<Value, 4> values;
       getDims(shape, values);
+      for (Value v : values) {
+        Dim dim{v, std::nullopt};
+        SmallVector<int64_t> literals;
+        if (getI64ValuesFromONNXConstantOp(v, literals))
+          dim.literal = literals[0];
+        dims.emplace_back(dim);
+      }
       return true;
     }
 
     // Shape is defined by a Constant.
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(shape, dims)) {
-      for (int64_t d : dims) {
-        Value dim = createONNX.constantInt64({d});
-        values.emplace_back(dim);
-      }
+    SmallVector<int64_t> literals;
+    if (getI64ValuesFromONNXConstantOp(shape, literals)) {
+      for (int64_t l : literals)
+        dims.emplace_back(Dim{nullptr, l});
       return true;
     }
 
-- 
2.43.0


From 2bbbfe17a19b9ca63f8f5e7b65ff5e711d7d5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:30 +0000
Subject: [PATCH 067/117] fix: import QuantizeLinear without a zero point when
 model types are not used

---
 src/Builder/FrontendDialectTransformer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 3d33df2..289b18f 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -794,6 +794,10 @@ private:
                 mlir::cast<TensorType>(inputType).getElementType();
             auto outType = UnrankedTensorType::get(elementType);
             outputTypes.emplace_back(outType);
+          } else if constexpr (std::is_same_v<T, ONNXQuantizeLinearOp>) {
+            // Without a zero point the output is uint8.
+            outputTypes.emplace_back(UnrankedTensorType::get(
+                builder_.getIntegerType(8, /*isSigned=*/false)));
           } else {
             outputTypes.push_back(inputType);
           }
-- 
2.43.0


From 1e71deb70d997ade3fdbaec30bd414d66fc5c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:02 +0000
Subject: [PATCH 068/117] fix: constant folding of Abs for wide integers

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 3eccaa6..788a7ac 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -423,7 +423,13 @@ struct ElementWiseUnaryOpImpl<ONNXBitwiseNotOp, T, EnableInteger<T>> {
 
 template <typename T>
 struct ElementWiseUnaryOpImpl<ONNXAbsOp, T, EnableNotBool<T>> {
-  static T eval(T val) { return (T)abs((double)val); }
+  static T eval(T val) {
+    // Through a double, wide integers would lose digits.
+    if constexpr (std::is_integral_v<T>)
+      return val < 0 ? T(0 - uint64_t(val)) : val;
+    else
+      return (T)std::fabs((double)val);
+  }
 };
 
 template <typename T>
-- 
2.43.0


From 848b5420ba23b475562a085e06b42fb5457e344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 069/117] fix: activation_alpha and activation_beta of RNN

---
 src/Conversion/ONNXToKrnl/RNN/RNN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/RNN/RNN.cpp b/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
index 6e48837..c7727eb 100644
--- a/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
+++ b/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
@@ -84,7 +84,7 @@ getActivationPack<ONNXRNNOp, RnnActivationPack>(ONNXRNNOp *op) {
 
   // Get alpha attributes.
   if (activationAlpha) {
-    ArrayRef<Attribute> activationArrAttr = activationAlpha.value();
+    ArrayRef<Attribute> activationArrAttr = activationAlpha.value().getValue();
     if (direction == FORWARD || direction == BIDIRECTIONAL) {
       // Forward activations.
       if (activationArrAttr.size() > 0) {
@@ -104,7 +104,7 @@ getActivationPack<ONNXRNNOp, RnnActivationPack>(ONNXRNNOp *op) {
 
   // Get beta attributes.
   if (activationBeta) {
-    ArrayRef<Attribute> activationArrAttr = activationBeta.value();
+    ArrayRef<Attribute> activationArrAttr = activationBeta.value().getValue();
     if (direction == FORWARD || direction == BIDIRECTIONAL) {
       // Forward activations.
       if (activationArrAttr.size() > 0) {
-- 
2.43.0


From 666ff44d3e764cc10294ca1cdeab884fc82770e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:38 +0000
Subject: [PATCH 070/117] fix: dimension parameters of an output went to
 another one without any

---
 src/Builder/FrontendDialectTransformer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 289b18f..46d1b28 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -588,8 +588,8 @@ private:
     for (const auto &output : graph.output()) {
       std::string dimParams = "";
       ImportOutputTensor(output, retTys, retVals, &dimParams);
-      if (!dimParams.empty())
-        outputDimParams.emplace_back(dimParams);
+      // Also when empty: the position tells the output.
+      outputDimParams.emplace_back(dimParams);
     }
 
     if (useReturn)
-- 
2.43.0


From 4272516fc6b323b4813bb58a7aae5dc7de2a376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 071/117] fix: integers in elements attributes wrap around to
 their element type

Elements of narrow integer types kept their 64 bits values when they were
computed or cast, so folding a second operation on them gave another result than
the compiled operations.
---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 54 ++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 79cb1e8..c363b5f 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -169,12 +169,36 @@ bool ElementsAttrBuilder::allEqual(
       });
 }
 
+namespace {
+// Does the result of 64 bits arithmetic need to wrap around to the type?
+bool needsWrapping(Type elementType) {
+  auto itype = mlir::dyn_cast<IntegerType>(elementType);
+  return itype && itype.getWidth() > 1 && itype.getWidth() < 64;
+}
+
+// Integers wider than elementType wrap around.
+void wrapIntegers(Type elementType, MutableArrayRef<WideNum> nums) {
+  auto itype = mlir::cast<IntegerType>(elementType);
+  unsigned width = itype.getWidth();
+  for (WideNum &n : nums) {
+    if (itype.isUnsigned())
+      n.u64 &= llvm::maskTrailingOnes<uint64_t>(width);
+    else
+      n.i64 = llvm::SignExtend64(n.u64, width);
+  }
+}
+} // namespace
+
 ElementsAttr ElementsAttrBuilder::fromWideNums(
     ShapedType type, const Filler<WideNum> &wideDataFiller) {
+  Type elementType = type.getElementType();
   BType bufferBType = wideBTypeOfBType(btypeOfMlirType(type.getElementType()));
   return fromRawBytes(
-      type, bufferBType, [&wideDataFiller](MutableArrayRef<char> bytes) {
-        wideDataFiller(castMutableArrayRef<WideNum>(bytes));
+      type, bufferBType, [&](MutableArrayRef<char> bytes) {
+        auto nums = castMutableArrayRef<WideNum>(bytes);
+        wideDataFiller(nums);
+        if (needsWrapping(elementType))
+          wrapIntegers(elementType, nums);
       });
 }
 
@@ -398,9 +422,7 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
                                 convertIntFromFP<TRUNCATE, int64_t>(min, max));
     }
   } else if (isa<IntegerType>(oldElementType)) {
-    // We assume that casts to other integer types don't intend to truncate the
-    // numeric range and we delay any truncation until the data is read and
-    // allow the untruncated numbers as inputs to any further transformations.
+    // Casts to narrower integer types wrap around, see wrapTransformed().
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
@@ -414,6 +436,9 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
       transformer = newElementType.isUnsigned()
                         ? functionTransformer(wideCast<uint64_t, int64_t>)
                         : functionTransformer(wideCast<int64_t, uint64_t>);
+    } else if (newElementType.getWidth() <
+               oldElementType.getIntOrFloatBitWidth()) {
+      transformer = [](MutableArrayRef<WideNum>) {};
     } else {
       ElementsProperties props = getElementsProperties(elms);
       ShapedType newType = elms.getShapedType().clone(newElementType);
@@ -1192,6 +1217,19 @@ ElementsTransformer composeTransforms(
 }
 } // namespace
 
+namespace {
+// The transformed elements are of elementType.
+ElementsTransformer wrapTransformed(
+    Type elementType, ElementsTransformer transformer) {
+  if (!transformer || !needsWrapping(elementType))
+    return transformer;
+  return composeTransforms(
+      std::move(transformer), [elementType](MutableArrayRef<WideNum> nums) {
+        wrapIntegers(elementType, nums);
+      });
+}
+} // namespace
+
 ElementsAttr ElementsAttrBuilder::doTransform(
     ElementsAttr elms, Type transformedElementType, Transformer transformer) {
   ShapedType transformedType =
@@ -1200,7 +1238,8 @@ ElementsAttr ElementsAttrBuilder::doTransform(
   ElementsProperties props = getElementsProperties(elms);
 
   return create(transformedType, props.bufferBType, props.strides, props.buffer,
-      composeTransforms(props.transformer, std::move(transformer)));
+      wrapTransformed(transformedElementType,
+          composeTransforms(props.transformer, std::move(transformer))));
 }
 
 ElementsAttr ElementsAttrBuilder::expandAndTransform(ElementsAttr elms,
@@ -1212,7 +1251,8 @@ ElementsAttr ElementsAttrBuilder::expandAndTransform(ElementsAttr elms,
 
   return create(expandedTransformedType, props.bufferBType, expandedStrides,
       props.buffer,
-      composeTransforms(props.transformer, std::move(transformer)));
+      wrapTransformed(expandedTransformedType.getElementType(),
+          composeTransforms(props.transformer, std::move(transformer))));
 }
 
 ElementsAttr ElementsAttrBuilder::fromRawBytes(
-- 
2.43.0


From 7a36888cec19e2c6a5a5729408942f3c2679eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 072/117] fix: integer overflow when folding constants

Sums, differences, products and negations of signed integers overflowed, and
Div and Mod of the lowest value by -1 or Mod by 0 crashed the compiler.
---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 788a7ac..29eb346 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -223,6 +223,11 @@ ElementsAttr ConstPropReshapeImpl(PatternRewriter &rewriter,
 // type as well as the two element attributes for the operation, and return the
 // result of the operation.
 
+/// Type to compute sums, differences and products of T in: integers wrap around
+/// on overflow, which is undefined for signed C++ integers.
+template <typename T>
+using WrappingInt = std::conditional_t<std::is_integral_v<T>, uint64_t, T>;
+
 template <typename OP, typename T, class Enable = void>
 struct ElementWiseBinaryOpImpl {
   static T eval(T lhs, T rhs) { llvm_unreachable("unsupported op or type"); }
@@ -230,17 +235,23 @@ struct ElementWiseBinaryOpImpl {
 
 template <typename T>
 struct ElementWiseBinaryOpImpl<ONNXAddOp, T, EnableNotBool<T>> {
-  static T eval(T lhs, T rhs) { return lhs + rhs; }
+  static T eval(T lhs, T rhs) {
+    return T(WrappingInt<T>(lhs) + WrappingInt<T>(rhs));
+  }
 };
 
 template <typename T>
 struct ElementWiseBinaryOpImpl<ONNXSubOp, T, EnableNotBool<T>> {
-  static T eval(T lhs, T rhs) { return lhs - rhs; }
+  static T eval(T lhs, T rhs) {
+    return T(WrappingInt<T>(lhs) - WrappingInt<T>(rhs));
+  }
 };
 
 template <typename T>
 struct ElementWiseBinaryOpImpl<ONNXMulOp, T, EnableNotBool<T>> {
-  static T eval(T lhs, T rhs) { return lhs * rhs; }
+  static T eval(T lhs, T rhs) {
+    return T(WrappingInt<T>(lhs) * WrappingInt<T>(rhs));
+  }
 };
 
 template <typename T>
@@ -252,6 +263,9 @@ struct ElementWiseBinaryOpImpl<ONNXDivOp, T, EnableNotBool<T>> {
         // Performing the divison would crash.
         return lhs;
       }
+      if (std::is_signed_v<T> && rhs == T(-1))
+        // The quotient of the lowest value does not fit and would crash.
+        return T(0 - WrappingInt<T>(lhs));
     }
     return lhs / rhs;
   }
@@ -295,6 +309,9 @@ struct ElementWiseBinaryOpImpl<ONNXMaxOp, T> {
 template <>
 struct ElementWiseBinaryOpImpl<ONNXModOp, int64_t, EnableNotBool<int64_t>> {
   static int64_t eval(int64_t lhs, int64_t rhs) {
+    // Undefined or not representable quotients would crash.
+    if (rhs == 0 || rhs == -1)
+      return rhs == 0 ? lhs : 0;
     // The original calculation for mod
     int64_t mod = lhs % rhs;
     // Handle the case when one of the int values are negative
@@ -464,7 +481,7 @@ struct ElementWiseUnaryOpImpl<ONNXLogOp, T, EnableFloatingPoint<T>> {
 
 template <typename T>
 struct ElementWiseUnaryOpImpl<ONNXNegOp, T, EnableNotBool<T>> {
-  static T eval(T val) { return -val; }
+  static T eval(T val) { return T(-WrappingInt<T>(val)); }
 };
 
 template <typename T>
-- 
2.43.0


From 6db8cff62119bde2a272591ea15a192f5c18cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:09 +0000
Subject: [PATCH 073/117] fix: slice of an expanded scalar with an output size
 unknown at compile time

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 68a797d..555461d 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1442,12 +1442,15 @@ public:
         axesI64.emplace_back(v >= 0 ? v : v + outputRank);
     }
 
-    // Check that all sliced dimensions of the input data are static.
+    // Check that all sliced dimensions of the input data and of the output are
+    // static.
     if (!hasShapeAndRank(data))
       return failure();
     ArrayRef<int64_t> dataShape = getShape(data.getType());
+    ArrayRef<int64_t> outputShape = getShape(output.getType());
     for (int64_t axis : axesI64) {
-      if (dataShape[axis] == ShapedType::kDynamic)
+      if (dataShape[axis] == ShapedType::kDynamic ||
+          outputShape[axis] == ShapedType::kDynamic)
         return failure();
     }
 
-- 
2.43.0


From da058e51c44fa8cc32963b9e5fd4c5894a6e47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 074/117] fix: scalar values of constants of any integer type

---
 src/Dialect/ONNX/ONNXOps/OpHelper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
index 5524105..af2b216 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
@@ -576,10 +576,12 @@ bool isDenseONNXConstant(Value result) {
 template <typename RESULT_TYPE>
 RESULT_TYPE getScalarValue(ElementsAttr denseAttr, Type type) {
   Type elementaryType = getElementTypeOrSelf(type);
-  if (elementaryType.isInteger(16) || elementaryType.isInteger(32) ||
-      elementaryType.isInteger(64)) {
-    auto valueIt = denseAttr.getValues<IntegerAttr>().begin();
-    return static_cast<RESULT_TYPE>(mlir::cast<IntegerAttr>(*valueIt).getInt());
+  if (auto integerType = mlir::dyn_cast<IntegerType>(elementaryType)) {
+    auto valueIt = denseAttr.getValues<APInt>().begin();
+    // Booleans and unsigned integers must not be sign extended.
+    if (integerType.isUnsigned() || integerType.isInteger(1))
+      return static_cast<RESULT_TYPE>((*valueIt).getZExtValue());
+    return static_cast<RESULT_TYPE>((*valueIt).getSExtValue());
   } else if (mlir::isa<FloatType>(elementaryType)) {
     auto valueIt = denseAttr.getValues<APFloat>().begin();
     return static_cast<RESULT_TYPE>((*valueIt).convertToDouble());
-- 
2.43.0


From 009ad7a4332ea8181062798f7b5a69c7c3d27b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 075/117] fix: bias of a Gemm or layer normalization that
 broadcasts the result

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 20 ++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  | 14 +++++++++++--
 src/Dialect/ONNX/ONNXOps/OpHelper.cpp     | 25 +++++++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/OpHelper.hpp     |  6 ++++++
 4 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 555461d..5bdbee6 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -142,6 +142,24 @@ bool areProducedByTransposeOp(ValueRange values) {
   });
 }
 
+// Check that a value added to the product of two matrices can be the bias of a
+// Gemm, i.e. that it does not broadcast the product.
+bool canBeGemmBias(Value bias, Value a, Value b, bool transA = false,
+    bool transB = false) {
+  // Without the shapes of the matrices, only check the rank of the bias.
+  if (!hasShapeAndRank(a) || getRank(a.getType()) != 2 || !hasShapeAndRank(b) ||
+      getRank(b.getType()) != 2)
+    return hasShapeAndRank(bias) && getRank(bias.getType()) <= 2;
+  return isUnidirectionalBroadcastableTo(
+      bias, {getShape(a.getType())[transA ? 1 : 0],
+                getShape(b.getType())[transB ? 0 : 1]});
+}
+
+bool canBeGemmBias(Value bias, ONNXGemmOp gemmOp) {
+  return canBeGemmBias(bias, gemmOp.getA(), gemmOp.getB(),
+      gemmOp.getTransA() != 0, gemmOp.getTransB() != 0);
+}
+
 Value maxOrDefault(PatternRewriter &rewriter, Location loc, Value a, Value b) {
   // If A or B is NoneType, return the other value
   if (mlir::isa<NoneType>(a.getType()))
@@ -2082,6 +2100,8 @@ struct PropagateBiasIntoLayerNormRewritePattern
     auto lnOp = mlir::cast<OP_TYPE>(yLayerNormOp);
     if (!onnx_mlir::isNoneValue(lnOp.getB()))
       return reportFailure("layer norm already has a bias");
+    if (!onnx_mlir::isUnidirectionalBroadcastableTo(bias, y))
+      return reportFailure("bias may broadcast y/layer norm");
     // We are fine.
     Value x = lnOp.getX();
     Value scale = lnOp.getScale();
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 52f0225..378dabe 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -289,6 +289,14 @@ def HasAllZerosInArrayAttr: Constraint<CPred<"onnx_mlir::hasAllZerosInArrayAttr(
 def HasNonZeroInArrayAttrParam: Constraint<CPred<"onnx_mlir::hasNonZeroInArrayAttr($0)">,
                                             "has non-zero elements">;
 
+// Check that a value added to the product of two matrices does not broadcast it.
+def CanBeMatMulBias: Constraint<
+  CPred<"onnx_mlir::canBeGemmBias($0, $1, $2)">,
+  "can be the bias of a Gemm">;
+def CanBeGemmBias: Constraint<
+  CPred<"onnx_mlir::canBeGemmBias($0, mlir::cast<ONNXGemmOp>($1.getDefiningOp()))">,
+  "can be the bias of a Gemm">;
+
 //===----------------------------------------------------------------------===//
 // Pattern-Match and Rewrite
 //===----------------------------------------------------------------------===//
@@ -305,12 +313,14 @@ def GemmTransB : NativeCodeCall<"IntegerAttr::get($_builder.getIntegerType(64, /
 // onnx.add(onnx.matmul(%X, %Y), %Z) = onnx.Gemm(%X, %Y, %Z)
 def MulAddToGemmOptPattern : Pat<(ONNXAddOp (ONNXMatMulOp:$res $m1, $m2), $m3),
                                  (ONNXGemmOp $m1, $m2, $m3, (GemmAlpha), (GemmBeta), (GemmTransA), (GemmTransB)),
-                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2)]>;
+                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2),
+                                  (CanBeMatMulBias $m3, $m1, $m2)]>;
 
 // onnx.add(onnx.Gemm(%X, %Y, None), %Z) = onnx.Gemm(%X, %Y, %Z) {beta=1.0}
 def FuseGemmFollowedByAddition : Pat<(ONNXAddOp (ONNXGemmOp:$res $m1, $m2, $none, $alpha, $beta, $transA, $transB), $bias),
                                      (ONNXGemmOp $m1, $m2, $bias, $alpha, (GemmBeta), $transA, $transB),
-                                     [(HasOneUse $res), (HasNoneType $none)]>;
+                                     [(HasOneUse $res), (HasNoneType $none),
+                                      (CanBeGemmBias $bias, $res)]>;
 
 //===----------------------------------------------------------------------===//
 // This is to fuse the composition: 'Add o Conv' into 'Conv' if the other input
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
index af2b216..247df41 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
@@ -880,6 +880,31 @@ bool isScalarTensor(Value v) {
               (getRank(v.getType()) == 1 && getShape(v.getType())[0] == 1)));
 }
 
+bool isUnidirectionalBroadcastableTo(Value from, ArrayRef<int64_t> toShape) {
+  if (!hasShapeAndRank(from))
+    return false;
+  ArrayRef<int64_t> fromShape = getShape(from.getType());
+  if (fromShape.size() > toShape.size())
+    return false;
+  toShape = toShape.take_back(fromShape.size());
+  for (auto [fromDim, toDim] : llvm::zip_equal(fromShape, toShape)) {
+    if (fromDim == 1)
+      continue;
+    // When the dim of `from` is only known at runtime, it can be larger than
+    // that of `to` only if the latter may be 1.
+    if (ShapedType::isDynamic(toDim) || toDim == 1)
+      return false;
+    if (!ShapedType::isDynamic(fromDim) && fromDim != toDim)
+      return false;
+  }
+  return true;
+}
+
+bool isUnidirectionalBroadcastableTo(Value from, Value to) {
+  return hasShapeAndRank(to) &&
+         isUnidirectionalBroadcastableTo(from, getShape(to.getType()));
+}
+
 bool hasIntegerPowerExponent(ONNXPowOp *op, int64_t &exponentValue) {
   Value exponent = op->getY();
   ElementsAttr elementAttr = getElementAttributeFromONNXValue(exponent);
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.hpp b/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
index bc79acf..b55159a 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
@@ -295,6 +295,12 @@ int64_t mlirTypeToOnnxType(mlir::Type elemType);
 /// Check if a value is a scalar tensor.
 bool isScalarTensor(mlir::Value v);
 
+/// Check if a value is known to be unidirectionally broadcastable to a shape or
+/// to the shape of another value, i.e. that broadcasting gives that shape.
+bool isUnidirectionalBroadcastableTo(
+    mlir::Value from, llvm::ArrayRef<int64_t> toShape);
+bool isUnidirectionalBroadcastableTo(mlir::Value from, mlir::Value to);
+
 bool hasIntegerPowerExponent(mlir::ONNXPowOp *op, int64_t &exponentValue);
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 6eb6c74337a0e2746561246d09dc675fcbf599f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 076/117] fix: layer normalization and Gelu whose operands
 broadcast the input

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index 4bf9fa3..4c33a9a 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -89,6 +89,12 @@ namespace {
 /// Include the patterns defined in the Declarative Rewrite framework.
 // #include "src/Dialect/ONNX/Transforms/ONNXRecompose.inc"
 
+// Check that the shapes of two values are known to be the same.
+bool haveSameShapes(Value a, Value b) {
+  return onnx_mlir::hasShapeAndRank(a) && onnx_mlir::hasShapeAndRank(b) &&
+         onnx_mlir::getShape(a.getType()) == onnx_mlir::getShape(b.getType());
+}
+
 struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
   using OpRewritePattern<ONNXMulOp>::OpRewritePattern;
 
@@ -103,6 +109,10 @@ struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     bool isRMSLayerNorm;
     if (!matchLayerNormPattern(mulOp, x, scale, axis, epsilon, isRMSLayerNorm))
       return failure();
+    // The normalization has the shape of x: no other operand may broadcast it.
+    if (!haveSameShapes(x, mulOp.getResult()) ||
+        !isUnidirectionalBroadcastableTo(scale, x))
+      return failure();
 
     // Replace
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
@@ -406,6 +416,10 @@ struct RecomposeGeluFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     bool isExactGelu = false;
     if (!matchGeluPattern(mulOp, x, isExactGelu))
       return failure();
+    // Gelu has the shape of x: none of the constants may broadcast it.
+    if (!haveSameShapes(x, mulOp.getResult()) &&
+        !onlyScalarConstants(mulOp, x))
+      return failure();
 
     // Replace
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
@@ -416,6 +430,18 @@ struct RecomposeGeluFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     return success();
   }
 
+  // Check that all the constants between x and the result of op have rank 0.
+  static bool onlyScalarConstants(Operation *op, Value x) {
+    return llvm::all_of(op->getOperands(), [&](Value operand) {
+      if (operand == x)
+        return true;
+      if (onnx_mlir::isDenseONNXConstant(operand))
+        return onnx_mlir::hasShapeAndRank(operand) &&
+               onnx_mlir::getRank(operand.getType()) == 0;
+      return onlyScalarConstants(operand.getDefiningOp(), x);
+    });
+  }
+
   static bool matchGeluPattern(ONNXMulOp mulOp, Value &x, bool &isExactGelu) {
     using namespace onnx_mlir;
     // Subgraph to match:
-- 
2.43.0


From 78a1627fd75d9c664d71eab3bc455e81ff075016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 077/117] fix: epsilon of a recomposed layer normalization

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index 4c33a9a..99d23d7 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -284,11 +284,10 @@ struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     // Now check values epsilon.
     if (!isScalarTensor(epsilon))
       return reportFailure("RMS epsilon is expected to be scalar");
-    ONNXConstantOp epsilonOp =
-        mlir::dyn_cast<ONNXConstantOp>(epsilon.getDefiningOp());
-    if (!epsilonOp)
+    if (!isDenseONNXConstant(epsilon))
       return reportFailure("RMS epsilon needs to be a constant");
-    epsilonAttr = epsilonOp.getValueFloatAttr();
+    epsilonAttr = FloatAttr::get(Float32Type::get(epsilon.getContext()),
+        getScalarValue<double>(epsilon.getDefiningOp<ONNXConstantOp>()));
     // Check axes.
     if (!hasShapeAndRank(dd))
       return reportFailure("RMS need rank and shape for input dd");
-- 
2.43.0


From 6b4007ab4cf43b98bd397b9e9b0b691ebf13be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 078/117] fix: fusion of clips by disjoint intervals

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 20 ++++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  | 10 +++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 5bdbee6..38c244a 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -182,6 +182,26 @@ Value minOrDefault(PatternRewriter &rewriter, Location loc, Value a, Value b) {
   return ONNXMinOp::create(rewriter, loc, a.getType(), ValueRange{a, b});
 }
 
+// Upper bound of the clip equivalent to a clip by (_, max1) followed by a clip
+// by (min2, max2): min(max(max1, min2), max2).
+Value fusedClipMax(PatternRewriter &rewriter, Location loc, Value max1,
+    Value min2, Value max2) {
+  if (mlir::isa<NoneType>(max1.getType()))
+    return max2;
+  // Usually the intervals overlap, and min2 has no effect on the upper bound.
+  auto isFloatConstant = [](Value v) {
+    return isScalarConstantTensor(v) &&
+           mlir::isa<FloatType>(getElementTypeOrSelf(v.getType()));
+  };
+  bool overlap =
+      isFloatConstant(max1) && isFloatConstant(min2) &&
+      getScalarValue<double>(min2.getDefiningOp<ONNXConstantOp>()) <=
+          getScalarValue<double>(max1.getDefiningOp<ONNXConstantOp>());
+  if (!overlap)
+    max1 = maxOrDefault(rewriter, loc, max1, min2);
+  return minOrDefault(rewriter, loc, max1, max2);
+}
+
 // Create a DenseElementsAttr based on the shape of type.
 DenseElementsAttr createDenseElementsAttrFromShape(PatternRewriter &rewriter,
     Value value, int64_t start = 0, std::optional<int64_t> end = std::nullopt) {
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 378dabe..d0d3cfd 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -1102,8 +1102,8 @@ def LessOpSameCastPattern: Pat<
 def maxOrDefault: NativeCodeCall<
   "onnx_mlir::maxOrDefault($_builder, $_loc, $0, $1)">;
 
-def minOrDefault: NativeCodeCall<
-  "onnx_mlir::minOrDefault($_builder, $_loc, $0, $1)">;
+def fusedClipMax: NativeCodeCall<
+  "onnx_mlir::fusedClipMax($_builder, $_loc, $0, $1, $2)">;
 
 // Fuse two consecutive ONNXClipOps into one.
 def FuseConsecutiveClipsPattern : Pat<
@@ -1111,9 +1111,9 @@ def FuseConsecutiveClipsPattern : Pat<
   (ONNXClipOp:$res (ONNXClipOp $input, $min1, $max1), $min2, $max2),
   // This pattern will be handled by the rewrite rule (in C++).
   (ONNXClipOp $input, 
-   // Call maxOrDefault and minOrDefault in the rewrite
-   (maxOrDefault $min1, $min2), 
-   (minOrDefault $max1, $max2))
+   // Call maxOrDefault and fusedClipMax in the rewrite
+   (maxOrDefault $min1, $min2),
+   (fusedClipMax $max1, $min2, $max2))
 >;
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From eb95f0ca363339ed48e021129bd3c4ccdd2b1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 079/117] fix: selection of dims by Where and Equal with
 broadcast constants

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 38c244a..93c19e0 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -2197,13 +2197,22 @@ public:
       return failure();
 
     if (!hasShapeAndRank(equalOpConcatVal) ||
-        !hasShapeAndRank(equalOpConstVal) || !hasShapeAndRank(concatOpResVal)) {
+        !hasShapeAndRank(equalOpConstVal) || !hasShapeAndRank(concatOpResVal) ||
+        !hasShapeAndRank(constantOpResVal)) {
       return failure(); // Cannot apply pattern until ranks are known.
     }
+    // The result is a concatenation of scalars too.
+    if (getRank(equalOpConstVal.getType()) > 1 ||
+        getRank(constantOpResVal.getType()) > 1)
+      return failure();
 
     if (!isAllNegativeSmallIntegerConstant(equalOpConstVal))
       return failure();
 
+    // The compared concat must be the one whose values are selected.
+    if (equalOpConcatVal != concatOpResVal)
+      return failure();
+
     // Get attribute of constantOp, an operand of equal op (Negative values)
     SmallVector<int64_t> constAttrValues;
     if (!getI64ValuesFromONNXConstantOp(equalOpConstVal, constAttrValues))
@@ -2211,6 +2220,14 @@ public:
     // Get attriubte of concatOp, an operand of equal op, and calculate the
     // result of the equalOp
     ValueRange concatOperands = concatOp->getOperands();
+    // A constant of one element is broadcast to all the operands.
+    auto broadcastToOperands = [&](SmallVector<int64_t> &values) {
+      if (values.size() == 1)
+        values.resize(concatOperands.size(), values.front());
+      return values.size() == concatOperands.size();
+    };
+    if (!broadcastToOperands(constAttrValues))
+      return failure();
     llvm::SmallVector<bool, 1> equalOpResults;
     for (uint64_t i = 0; i < concatOperands.size(); ++i) {
       // Block arguments.
@@ -2237,7 +2254,8 @@ public:
     // Create new concatOp by selecting X or Y of whereOp depending on the
     // result of equalOp.
     SmallVector<int64_t> valueX;
-    if (!getI64ValuesFromONNXConstantOp(constantOpResVal, valueX))
+    if (!getI64ValuesFromONNXConstantOp(constantOpResVal, valueX) ||
+        !broadcastToOperands(valueX))
       return failure();
     SmallVector<Value, 4> resVals;
     for (uint64_t i = 0; i < equalOpResults.size(); ++i) {
-- 
2.43.0


From 02980882fe28e93ffca6ce78c8ac402c89293f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 080/117] fix: bias added to a convolution with another number
 of channels

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index d0d3cfd..8b8094a 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -363,6 +363,7 @@ def FuseAddConvNullBiasPattern: Pat<
    (RankXMinusRankYIs<1> $res, $y),
    (HasRankGT<0> $y),
    (AllDimsFromAxisToEndAre<1, 1>:$y),
+   (HaveSameDim<0> $w, $y)
    ]
 >;
 
@@ -386,7 +387,8 @@ def FuseAddConvPattern: Pat<
    (AttributeIsNotNull:$denseAttr),
    (RankXMinusRankYIs<1> $res, $y),
    (HasRankGT<0> $y),
-   (AllDimsFromAxisToEndAre<1, 1>:$y)]
+   (AllDimsFromAxisToEndAre<1, 1>:$y),
+   (HaveSameDim<0> $w, $y)]
 >;
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 6ea94384d3aa5838a4f28dc1ea3d1b5528cf5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 081/117] fix: fusion of several batch normalizations into a
 convolution

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 8b8094a..b24973f 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -949,7 +949,8 @@ def FuseBatchNormInferenceModeConvPattern: Pat<
            (subtractOrNeg $res, $b, $mean))),
 
      $auto_pad, $dilation, $group, $kernel_shape, $pads, $strides),
-     [], [], (addBenefit 1)
+     // The rank of $w is not known yet when it is from a rewriting.
+     [(HasRankGT<0> $w)], [], (addBenefit 1)
 >;
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 5730139daaadbdb97cf52c354fa019c6df5627f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 082/117] fix: gathering of dims with negative indices

---
 .../Transforms/SimplifyShapeRelatedOps.cpp     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
index 230a063..dc9cef6 100644
--- a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
+++ b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
@@ -238,28 +238,30 @@ public:
     if (!areDimsFromConcat(input))
       return failure();
 
-    // Indices are constants.
+    // Indices are constants. The dims are gathered into a scalar or a vector.
     if (!definedBy<ONNXConstantOp>(indices))
       return failure();
+    if (!hasShapeAndRank(indices) || getRank(indices.getType()) > 1)
+      return failure();
     ElementsAttr indicesAttr = getElementAttributeFromONNXValue(indices);
     if (!indicesAttr)
       return failure();
 
     // Rewrite
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
-    int64_t inputRank = getRank(input.getType());
+    SmallVector<Value, 4> dims;
+    getDims(input, dims);
+    int64_t numDims = dims.size();
 
-    // Compute integer indices.
+    // Compute integer indices. A negative index counts from the last dim.
     SmallVector<int64_t, 4> indicesI64;
     for (auto element : indicesAttr.getValues<IntegerAttr>()) {
-      int64_t axis = element.getInt();
-      axis = (axis < 0) ? (axis + inputRank) : axis;
-      indicesI64.emplace_back(axis);
+      int64_t index = element.getInt();
+      index = (index < 0) ? (index + numDims) : index;
+      indicesI64.emplace_back(index);
     }
 
     // Replace GatherOp by ConcatOp of specific dimensions.
-    SmallVector<Value, 4> dims;
-    getDims(input, dims);
     SmallVector<Value> castedDims;
     SmallVector<Value> gatherDims;
     for (int64_t i : indicesI64)
-- 
2.43.0


From 7631ec45a80cd4424d2addb6045d8a778945d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 083/117] fix: reshape to a shape from graph inputs

---
 src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
index dc9cef6..171aa99 100644
--- a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
+++ b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
@@ -79,7 +79,7 @@ void getDimsInt64(Value val, SmallVectorImpl<int64_t> &result) {
   SmallVector<Value, 4> dims;
   getDims(val, dims);
   for (Value v : dims) {
-    if (auto constOp = mlir::dyn_cast<ONNXConstantOp>(v.getDefiningOp())) {
+    if (auto constOp = v.getDefiningOp<ONNXConstantOp>()) {
       auto valueAttr = mlir::cast<ElementsAttr>(constOp.getValueAttr());
       int64_t dim = valueAttr.getSplatValue<int64_t>();
       result.emplace_back(dim);
-- 
2.43.0


From 518f685cbed1ed9e37301bd73b31d7d99a6d902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 084/117] fix: endless propagation of offsets to static dims

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 86b64d6..4da2227 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -1410,8 +1410,9 @@ void DimAnalysis::propagateOffsetRelations() {
       // Infer equalities from matching offsets.
       for (auto &[offset, targets] : offsetToTargets) {
         for (size_t i = 1; i < targets.size(); ++i) {
-          if (!sameDim(targets[0].first, targets[0].second, targets[i].first,
-                  targets[i].second)) {
+          // A set may have static dims: look for the targets in the sets.
+          if (!sameDynDim(targets[0].first, targets[0].second,
+                  targets[i].first, targets[i].second)) {
             newEqualities.emplace_back(targets[0], targets[i]);
           }
         }
-- 
2.43.0


From cda6b24b35f4e560361a4251164bcf6c8c0c1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:51 +0000
Subject: [PATCH 085/117] fix: dims of an addition of a constant

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 22 ----------------------
 1 file changed, 22 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 4da2227..4edf272 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -1445,28 +1445,6 @@ void DimAnalysis::visitDimForOffsets(DimT &dim) const {
   if (!op || isa<ONNXConstantOp>(op))
     return;
 
-  // Special case: ONNXAddOp with constant operand creates offset relationship.
-  if (auto addOp = mlir::dyn_cast<ONNXAddOp>(op)) {
-    Value A = addOp.getA();
-    Value B = addOp.getB();
-
-    if (auto constOp = B.getDefiningOp<ONNXConstantOp>()) {
-      int64_t offset = getScalarValue<int64_t>(constOp);
-      DimT inputDim(A, dimIndex);
-      dimRelations[inputDim].emplace_back(inputDim, offset, dim, 0);
-      LLVM_DEBUG(llvm::dbgs() << "  - [Add] dim(" << A << ", " << dimIndex
-                              << ") + " << offset << "\n");
-      return;
-    } else if (auto constOp = A.getDefiningOp<ONNXConstantOp>()) {
-      int64_t offset = getScalarValue<int64_t>(constOp);
-      DimT inputDim(B, dimIndex);
-      dimRelations[inputDim].emplace_back(inputDim, offset, dim, 0);
-      LLVM_DEBUG(llvm::dbgs() << "  - [Add] dim(" << B << ", " << dimIndex
-                              << ") + " << offset << "\n");
-      return;
-    }
-  }
-
   // Special case: ONNXConcatOp on concat axis with one dynamic input.
   if (auto concatOp = mlir::dyn_cast<ONNXConcatOp>(op)) {
     int64_t axis = concatOp.getAxis();
-- 
2.43.0


From b99bda8352eff8ea502d5d79e57b0704dd048f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 086/117] fix: OMTensor.setBoolData makes a boolean tensor

---
 src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
index 87f56a7..8d9fbee 100644
--- a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
+++ b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
@@ -235,7 +235,7 @@ public class OMTensor {
          */
         _data = ByteBuffer.allocateDirect(data.length);
         _data.slice().put(data);
-        _dataType = ONNX_TYPE_INT8;
+        _dataType = ONNX_TYPE_BOOL;
     }
 
     /* ---------- Byte data getter and setter ---------- */
-- 
2.43.0


From ff007705fc73a58533c5236e15acda5f69835bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 087/117] fix: JNI log of no elements does not append to an
 uninitialised buffer

---
 src/Runtime/jni/jnilog.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/jni/jnilog.h b/src/Runtime/jni/jnilog.h
index 1b16a18..7e20337 100644
--- a/src/Runtime/jni/jnilog.h
+++ b/src/Runtime/jni/jnilog.h
@@ -35,6 +35,8 @@ enum { LOG_TRACE, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERROR, LOG_FATAL };
      * space will come from the '\0' of the previous string.                   \
      */                                                                        \
     int __i = 0, __j = sizeof(buf) - 5, __k, __l = MIN((n), LOG_MAX_NUM);      \
+    /* There may be no element to print. */                                    \
+    __p[0] = '\0';                                                             \
     /* j is the available number of chars including '\0'. k is the             \
      * number of chars printed without '\0'. So as long as k < j,              \
      * it means the output, with a trailing '\0', fits in the buffer.          \
-- 
2.43.0


From 1845ec7a2930c35b202aae8a836527773f8e63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 088/117] fix: the JNI wrapper returns output tensors without
 elements

---
 src/Runtime/jni/jniwrapper.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 1c8c438..17d6d2e 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -575,7 +575,7 @@ jobject omtl_native_to_java(
         omTensorGetDataType(jni_omts[i]), jni_dataType != ONNX_TYPE_UNDEFINED,
         env, japi->jecpt_cls, "omt[%d]:dataType=%d", i, jni_dataType);
     LIB_TYPE_VAR_CALL(int64_t, jni_bufferSize,
-        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize > 0, env,
+        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize >= 0, env,
         japi->jecpt_cls, "omt[%ld]:bufferSize=%ld", i, jni_bufferSize);
     LIB_TYPE_VAR_CALL(int64_t, jni_rank, omTensorGetRank(jni_omts[i]),
         jni_rank >= 0, env, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jni_rank);
@@ -583,7 +583,7 @@ jobject omtl_native_to_java(
         jni_owning == 0 || jni_owning == 1, env, japi->jecpt_cls,
         "omt[%d]:owning=ld", i, jni_owning);
     LIB_TYPE_VAR_CALL(int64_t, jni_numElems, omTensorGetNumElems(jni_omts[i]),
-        jni_numElems > 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
+        jni_numElems >= 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
         jni_numElems);
 
     /* Print debug info on what we got from the native side */
-- 
2.43.0


From e82f7a1aab951e66f38de5949e188ed8f236719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 089/117] fix: the JNI wrapper frees the native tensors of a
 call that fails

---
 src/Runtime/jni/jniwrapper.c | 163 ++++++++++++++++++++---------------
 1 file changed, 95 insertions(+), 68 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 17d6d2e..0bd8542 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -346,70 +346,13 @@ jniapi_t *fill_jniapi(JNIEnv *env, jniapi_t *japi) {
   return japi;
 }
 
-/* Convert Java object to native data structure
- *
- *          +---------------------------+
- *          | TensorList                |
- *          |       +-----------------+ | (constructed by user)
- *          | _omts |   | o | ... |   | |
- *          |       +-----|-----------+ |
- *          +-------------|-------------+
- *                        v
- *                        +--------+
- *                  +---> | Tensor |
- *                  |     |        | (constructed by user)
- *                  |     | _data  |
- * Java world       |     +---|----+
- * -----------------|---------|------------------------------------------
- * Native world     |         v
- *                  |         +--------------------+ (constructed by
- *    +-------------+         | direct byte buffer |  user)
- *    |                       +--------------------+
- *   +|----------+            ^ ownership false, owned/freed by Java
- *   |o| | ... | |      +-----|---------+
- *   +-----------+      | _allocatedPtr | (constructed by jniwrapper)
- * jobj_omts, freed     |               |<---+
- * at the end of        | omTensor      |    |
- * omtl_java_to_native  +---------------+  freed by
- *                      ^                  omTensorListDestroy(jni_iomtl)
- *        +-------------|---------------+  at the end of
- *        |       +-----|-----------+   |  ..._main_1graph_1jni
- *        | _omts |   | o | ... |   |   |    |
- *        |       +-----------------+   |<---+
- *        | omTensorList                | (constructed by jniwrapper)
- *        +-----------------------------+
+/* Convert the Java OMTensor objects in jomtl_omts to native OMTensor structs,
+ * stored in jni_omts. Upon failure, NULL is returned and the structs that were
+ * constructed are in jni_omts.
  */
-OMTensorList *omtl_java_to_native(
-    JNIEnv *env, jclass cls, jobject java_omtl, jniapi_t *japi) {
-
-  /* Get OMTensor array Java object in OMTensorList */
-  JNI_TYPE_VAR_CALL(env, jobjectArray, jomtl_omts,
-      (*env)->CallObjectMethod(env, java_omtl, japi->jomtl_getOmtArray),
-      jomtl_omts != NULL, japi->jecpt_cls, "jomtl_omts=%p", jomtl_omts);
-
-  /* Get the number of OMTensors in the array */
-  JNI_TYPE_VAR_CALL(env, jlong, jomtl_omtn,
-      (*env)->GetArrayLength(env, jomtl_omts),
-      jomtl_omtn >= 0 && jomtl_omtn <= INT_MAX, japi->jecpt_cls,
-      "jomtl_omtn=%ld", jomtl_omtn);
-
-  /* Allocate memory for holding each Java omt object and OMTensor pointers
-   * for constructing native OMTensor array
-   *
-   * jobj_omts are the pointers to the Java OMTensor objects. They are used
-   * to make JNI calls on the OMTensors to retrieve their internal fields
-   * such as data, shape, strides, etc.
-   *
-   * jni_omts are the pointers to the native OMTensor structs we construct,
-   * filled in with fields we retrieved from the corresponding Java OMTensor
-   * objects, and then given to the native OMTensorList struct.
-   */
-  LIB_TYPE_VAR_CALL(jobject *, jobj_omts, malloc(jomtl_omtn * sizeof(jobject)),
-      jobj_omts != NULL, env, japi->jecpt_cls, "jobj_omts=%p", jobj_omts);
-  LIB_TYPE_VAR_CALL(OMTensor **, jni_omts,
-      malloc(jomtl_omtn * sizeof(OMTensor *)), jni_omts != NULL, env,
-      japi->jecpt_cls, "jni_omts=%p", jni_omts);
-
+static OMTensor **omts_java_to_native(JNIEnv *env, jobjectArray jomtl_omts,
+    jlong jomtl_omtn, jobject *jobj_omts, OMTensor **jni_omts,
+    jniapi_t *japi) {
   /* Loop through all the jomtl_omts  */
   for (int i = 0; i < jomtl_omtn; i++) {
     JNI_VAR_CALL(env, jobj_omts[i],
@@ -490,6 +433,86 @@ OMTensorList *omtl_java_to_native(
         NULL, "");
   }
 
+  return jni_omts;
+}
+
+/* Convert Java object to native data structure
+ *
+ *          +---------------------------+
+ *          | TensorList                |
+ *          |       +-----------------+ | (constructed by user)
+ *          | _omts |   | o | ... |   | |
+ *          |       +-----|-----------+ |
+ *          +-------------|-------------+
+ *                        v
+ *                        +--------+
+ *                  +---> | Tensor |
+ *                  |     |        | (constructed by user)
+ *                  |     | _data  |
+ * Java world       |     +---|----+
+ * -----------------|---------|------------------------------------------
+ * Native world     |         v
+ *                  |         +--------------------+ (constructed by
+ *    +-------------+         | direct byte buffer |  user)
+ *    |                       +--------------------+
+ *   +|----------+            ^ ownership false, owned/freed by Java
+ *   |o| | ... | |      +-----|---------+
+ *   +-----------+      | _allocatedPtr | (constructed by jniwrapper)
+ * jobj_omts, freed     |               |<---+
+ * at the end of        | omTensor      |    |
+ * omtl_java_to_native  +---------------+  freed by
+ *                      ^                  omTensorListDestroy(jni_iomtl)
+ *        +-------------|---------------+  at the end of
+ *        |       +-----|-----------+   |  ..._main_1graph_1jni
+ *        | _omts |   | o | ... |   |   |    |
+ *        |       +-----------------+   |<---+
+ *        | omTensorList                | (constructed by jniwrapper)
+ *        +-----------------------------+
+ */
+OMTensorList *omtl_java_to_native(
+    JNIEnv *env, jclass cls, jobject java_omtl, jniapi_t *japi) {
+
+  /* Get OMTensor array Java object in OMTensorList */
+  JNI_TYPE_VAR_CALL(env, jobjectArray, jomtl_omts,
+      (*env)->CallObjectMethod(env, java_omtl, japi->jomtl_getOmtArray),
+      jomtl_omts != NULL, japi->jecpt_cls, "jomtl_omts=%p", jomtl_omts);
+
+  /* Get the number of OMTensors in the array */
+  JNI_TYPE_VAR_CALL(env, jlong, jomtl_omtn,
+      (*env)->GetArrayLength(env, jomtl_omts),
+      jomtl_omtn >= 0 && jomtl_omtn <= INT_MAX, japi->jecpt_cls,
+      "jomtl_omtn=%ld", jomtl_omtn);
+
+  /* Allocate memory for holding each Java omt object and OMTensor pointers
+   * for constructing native OMTensor array
+   *
+   * jobj_omts are the pointers to the Java OMTensor objects. They are used
+   * to make JNI calls on the OMTensors to retrieve their internal fields
+   * such as data, shape, strides, etc.
+   *
+   * jni_omts are the pointers to the native OMTensor structs we construct,
+   * filled in with fields we retrieved from the corresponding Java OMTensor
+   * objects, and then given to the native OMTensorList struct.
+   */
+  LIB_TYPE_VAR_CALL(jobject *, jobj_omts, malloc(jomtl_omtn * sizeof(jobject)),
+      jobj_omts != NULL, env, japi->jecpt_cls, "jobj_omts=%p", jobj_omts);
+  LIB_TYPE_VAR_CALL(OMTensor **, jni_omts,
+      malloc(jomtl_omtn * sizeof(OMTensor *)), jni_omts != NULL, env,
+      japi->jecpt_cls, "jni_omts=%p", jni_omts);
+
+  for (int i = 0; i < jomtl_omtn; i++)
+    jni_omts[i] = NULL;
+
+  if (!omts_java_to_native(
+          env, jomtl_omts, jomtl_omtn, jobj_omts, jni_omts, japi)) {
+    /* A Java exception has been thrown. */
+    for (int i = 0; i < jomtl_omtn; i++)
+      omTensorDestroy(jni_omts[i]);
+    free(jobj_omts);
+    free(jni_omts);
+    return NULL;
+  }
+
   /* We have constructed the native OMTensor structs so the pointers
    * to the corresponding Java OMTensor objects used for retrieving
    * their internal fields are no longer needed.
@@ -691,13 +714,17 @@ JNIEXPORT jobject JNICALL Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(
       "jni_iomtl=%p", jni_iomtl);
 
   /* Call model inference entry point */
-  CHECK_CALL(OMTensorList *, jni_oomtl, run_main_graph(jni_iomtl),
-      jni_oomtl != NULL, "jni_oomtl=%p", jni_oomtl);
+  OMTensorList *jni_oomtl = run_main_graph(jni_iomtl);
+  if (jni_oomtl == NULL) {
+    LOG_PRINTF(LOG_ERROR, "jni_oomtl=%p", jni_oomtl);
+    omTensorListDestroy(jni_iomtl);
+    return NULL;
+  }
 
   /* Convert native data structure to Java object */
-  CHECK_CALL(jobject, java_oomtl,
-      omtl_native_to_java(env, cls, jni_oomtl, japi), java_oomtl != NULL,
-      "java_oomtl=%p", java_oomtl);
+  jobject java_oomtl = omtl_native_to_java(env, cls, jni_oomtl, japi);
+  if (java_oomtl == NULL)
+    LOG_PRINTF(LOG_ERROR, "java_oomtl=%p", java_oomtl);
 
   /* Free intermediate data structures and return Java object */
   omTensorListDestroy(jni_iomtl);
-- 
2.43.0


From 8d01221dc8a03d6b967a493abcdb54b353f14095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 090/117] fix: the session cache evicts the least recently used
 session

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 054d73e..6c12813 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -161,7 +161,7 @@ class SessionCache:
     # If the cache is full, delete the oldest key and return its index.
     def victim(self):
         if len(self.cache) >= self.capacity:
-            oldest_key = self.access_order.pop()
+            oldest_key = self.access_order.pop(0)
             cache_value = self.cache[oldest_key]
             del self.cache[oldest_key]
             return cache_value.tag
-- 
2.43.0


From 643d3b3affc7843d59271a1cbe2e96475c945208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 091/117] fix: the session cache keeps its capacity when it
 loads from disk

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 6c12813..e3eac64 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -68,6 +68,7 @@ class SessionCache:
         # Get from the cache dir.
         cache_value = self.load_from_disk(key)
         if cache_value:
+            self.victim()
             self.put(key, cache_value, False)
         return cache_value
 
-- 
2.43.0


From d6cacf7dca04063600646d52e6c8a8a5e3dc696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 092/117] fix: putting a key again in the session cache does
 not duplicate it

---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index e3eac64..7203339 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -75,6 +75,8 @@ class SessionCache:
     # The put is assumed to be called after victim()
     def put(self, key, value: CacheValue, write_to_disk=True):
         self.cache[key] = value
+        if key in self.access_order:
+            self.access_order.remove(key)
         self.access_order.append(key)
         if len(self.cache) != len(self.access_order):
             print("Error: the len of cache and access_order doesnot match")
-- 
2.43.0


From 8f17ee6c30f2728ff5ec777f95dc9bef41fc0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 093/117] fix: a session cache entry written to disk half way
 is not used

---
 .../src/torch_onnxmlir/sessioncache.py        | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 7203339..1bdd2fe 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -127,21 +127,13 @@ class SessionCache:
             if os.path.isfile(src_file):
                 shutil.copy2(src_file, dst_file)
 
-    # Write a CacheValue into a folder whose name is key.
+    # Write a CacheValue into a folder whose name is key. The .so file comes last
+    # since its existence tells that the entry is complete: a write that stops
+    # half way leaves an entry that is not found.
     def write_to_disk(self, key, value: CacheValue):
         # Cache folder: create if it does not exist.
         dst_dir = os.path.join(self.cache_path, key)
         os.makedirs(dst_dir, exist_ok=True)
-        # Write the compiled model (.so file).
-        compiled_model = value.sess.get_shared_lib_path()
-        src_dir = Path(compiled_model).resolve().parent
-        for filename in os.listdir(src_dir):
-            if not filename.lower().endswith(tuple(OM_COMPILED_FILE_EXTS)):
-                continue
-            src_file = os.path.join(src_dir, filename)
-            dst_file = os.path.join(dst_dir, filename)
-            if os.path.isfile(src_file):
-                shutil.copy2(src_file, dst_file)
         # Create a config json file.
         example_inputs_indices = value.example_inputs_indices
         if example_inputs_indices is not None:
@@ -158,6 +150,22 @@ class SessionCache:
             )
             with open(config_file, "w") as f:
                 f.write(json_data)
+        # Write the compiled model (.so file).
+        compiled_model = value.sess.get_shared_lib_path()
+        src_dir = Path(compiled_model).resolve().parent
+        if src_dir == Path(dst_dir).resolve():
+            # The session was loaded from this folder.
+            return
+        filenames = os.listdir(src_dir)
+        for filename in sorted(filenames, key=lambda n: n.lower().endswith(".so")):
+            if not filename.lower().endswith(tuple(OM_COMPILED_FILE_EXTS)):
+                continue
+            src_file = os.path.join(src_dir, filename)
+            dst_file = os.path.join(dst_dir, filename)
+            if os.path.isfile(src_file):
+                tmp_file = dst_file + ".tmp"
+                shutil.copy2(src_file, tmp_file)
+                os.replace(tmp_file, dst_file)
 
     # Find the index of the victim entry.
     # If the cache is not full, get the next free entry.
-- 
2.43.0


From aa510227bad3e1a3f940701cf979895fb1f79720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 094/117] fix: compare_result reports lists of different
 lengths

---
 src/Runtime/python/om_pyrt/src/om_pyrt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
index 8650c28..0d90cc4 100644
--- a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
+++ b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
@@ -117,7 +117,7 @@ def compare_result(actual_outs, ref_outs, atol=1e-8, rtol=1e-5, debug=0):
 
     if len(ref_outs) != len(actual_outs):
         print(
-            f"FAIL: list length mismatch: reference={len(reference)}, actual={len(actual)}"
+            f"FAIL: list length mismatch: reference={len(ref_outs)}, actual={len(actual_outs)}"
         )
         return False
 
-- 
2.43.0


From f83dcf6eb8bbb54f3ca5a9d6d8424b8e8f97a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 095/117] fix: compare_result on booleans, small integers,
 infinities and NaN

---
 src/Runtime/python/om_pyrt/src/om_pyrt/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
index 0d90cc4..5994b8b 100644
--- a/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
+++ b/src/Runtime/python/om_pyrt/src/om_pyrt/utils.py
@@ -144,6 +144,13 @@ def compare_result(actual_outs, ref_outs, atol=1e-8, rtol=1e-5, debug=0):
         for index, actual_val in np.ndenumerate(q_actual_outs):
             total_elements += 1
             ref_val = q_ref_outs[index]
+            if not np.issubdtype(q_actual_outs.dtype, np.inexact):
+                # Booleans have no difference, and those of unsigned or small
+                # integers wrap around.
+                actual_val, ref_val = int(actual_val), int(ref_val)
+            elif ref_val == actual_val or (np.isnan(ref_val) and np.isnan(actual_val)):
+                # No difference, also for infinities and NaN.
+                continue
             this_atol = abs(ref_val - actual_val)
             if abs(ref_val) > 1e-10:
                 max_rtol = max(abs((ref_val - actual_val) / ref_val), max_rtol)
@@ -157,7 +164,7 @@ def compare_result(actual_outs, ref_outs, atol=1e-8, rtol=1e-5, debug=0):
             else:
                 # Use equation atol + rtol * abs(desired), that is used in assert_allclose.
                 diff = float(atol) + float(rtol) * abs(ref_val)
-                if abs(actual_val - ref_val) <= diff:
+                if np.isfinite(ref_val) and abs(actual_val - ref_val) <= diff:
                     continue
             all_pass = False
             mismatched_elements += 1
-- 
2.43.0


From 01b09c72790a5ab21ef8134c51c7bb2bc76ce879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 096/117] fix: verification refuses outputs of another shape
 than the reference

---
 utils/RunONNXModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/RunONNXModel.py b/utils/RunONNXModel.py
index 38f630d..74cf976 100755
--- a/utils/RunONNXModel.py
+++ b/utils/RunONNXModel.py
@@ -563,6 +563,12 @@ def read_output_from_refs(num_outputs, load_ref_filename, is_load_ref):
 def verify_outs(actual_outs, ref_outs, atol, rtol):
     total_elements = 0
     mismatched_elements = 0
+    if actual_outs.shape != ref_outs.shape:
+        raise AssertionError(
+            "  got shape {} (actual) vs {} (reference), abort.\n".format(
+                actual_outs.shape, ref_outs.shape
+            )
+        )
     for index, actual_val in np.ndenumerate(actual_outs):
         total_elements += 1
         ref_val = ref_outs[index]
-- 
2.43.0


From 8a1cebaff2ef369c4fe42ed5e3ca98ae5c099761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 097/117] fix: verification of integers, infinities and NaN

---
 utils/RunONNXModel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/RunONNXModel.py b/utils/RunONNXModel.py
index 74cf976..6a7184c 100755
--- a/utils/RunONNXModel.py
+++ b/utils/RunONNXModel.py
@@ -575,10 +575,16 @@ def verify_outs(actual_outs, ref_outs, atol, rtol):
         if np.issubdtype(actual_outs.dtype, np.dtype(bool).type):
             if ref_val == actual_val:
                 continue
+        elif actual_val == ref_val or (actual_val != actual_val and ref_val != ref_val):
+            # No difference, also for infinities and NaN.
+            continue
         else:
+            if np.issubdtype(actual_outs.dtype, np.integer):
+                # Differences of unsigned or small integers wrap around.
+                actual_val, ref_val = int(actual_val), int(ref_val)
             # Use equation atol + rtol * abs(desired), that is used in assert_allclose.
             diff = float(atol) + float(rtol) * abs(ref_val)
-            if abs(actual_val - ref_val) <= diff:
+            if diff != float("inf") and abs(actual_val - ref_val) <= diff:
                 continue
         mismatched_elements += 1
         print(
-- 
2.43.0


From c9134e0899c3df0cbba40be0f802b62a6ea0b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 098/117] fix: RunONNXModel.py fails when there is no model to
 run

---
 utils/RunONNXModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/RunONNXModel.py b/utils/RunONNXModel.py
index 6a7184c..00b26de 100755
--- a/utils/RunONNXModel.py
+++ b/utils/RunONNXModel.py
@@ -852,7 +852,7 @@ class InferenceSession:
                 os.makedirs(args.save_model)
             if not os.path.isdir(args.save_model):
                 print("Path to --save-model is not a folder")
-                exit(0)
+                exit(1)
             # .so file.
             shared_lib_path = self.model_dir + f"/{self.default_model_name}.so"
             print(shared_lib_path, args.save_model)
@@ -892,7 +892,7 @@ class InferenceSession:
             shared_lib_path = self.model_dir + f"/{self.default_model_name}.so"
             if not os.path.exists(shared_lib_path):
                 print(f"Input model {shared_lib_path} does not exist")
-                exit(0)
+                exit(1)
             print("Loading the compiled model ...")
             try:
                 if args.load_model:
-- 
2.43.0


From dacf9ae07402e75e31fc354631a1c79a0b90bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:09 +0000
Subject: [PATCH 099/117] fix: RunONNXModel.py loads a saved model without
 --model

---
 utils/RunONNXModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/RunONNXModel.py b/utils/RunONNXModel.py
index 00b26de..2ca64d2 100755
--- a/utils/RunONNXModel.py
+++ b/utils/RunONNXModel.py
@@ -778,7 +778,7 @@ class InferenceSession:
             #  if we have saved the options in the "compiler_option.txt" file, and
             #  if we have provided compiler options
             if os.path.exists(compiler_option_file):
-                expected_string = cache_string(args.model, args.compile_args)
+                expected_string = cache_string(args.model or "", args.compile_args)
                 with open(compiler_option_file, "r") as f:
                     options_from_file = f.read()
                     if args.compile_args:
-- 
2.43.0


From 58a58f250d5ee06bffed7ff09ec05ac997d83706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 100/117] fix: a session is not opened when the local compiler
 fails

---
 src/Runtime/python/onnxmlirdocker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/onnxmlirdocker.py b/src/Runtime/python/onnxmlirdocker.py
index 931c1ab..5804462 100644
--- a/src/Runtime/python/onnxmlirdocker.py
+++ b/src/Runtime/python/onnxmlirdocker.py
@@ -247,7 +247,11 @@ class InferenceSession:
         # Logically, the model directory could be mounted as read only.
         # But wrong time error occurred with "r" mode
         if self.compiler_image_name is None:
-            subprocess.run(command_str.split(" "))
+            result = subprocess.run(command_str.split(" "))
+            if result.returncode != 0:
+                # Do not use a library that was there before.
+                print(f"Failed in compilation: {command_str}")
+                exit(-1)
             self.container = None
         else:
             # ToFix: try detach=True?
-- 
2.43.0


From 5065425f05ab70532e7dce734c7cd30ad0c5551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 101/117] fix: onnxmlirdocker keeps paths with spaces in one
 argument

---
 src/Runtime/python/onnxmlirdocker.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Runtime/python/onnxmlirdocker.py b/src/Runtime/python/onnxmlirdocker.py
index 5804462..1950c71 100644
--- a/src/Runtime/python/onnxmlirdocker.py
+++ b/src/Runtime/python/onnxmlirdocker.py
@@ -16,6 +16,7 @@ import os
 import sys
 import tempfile
 import json
+import shlex
 import subprocess
 
 
@@ -102,7 +103,7 @@ class InferenceSession:
         # Parse the compile_options to handle the -o option.
         # If user does not specify the output, the compilation will be done in
         # the temporary directory.
-        options_list = self.compile_options.split()
+        options_list = shlex.split(self.compile_options)
 
         # Logically, container_output_dirname should be used for -o
         if "-o" in options_list:
@@ -113,7 +114,7 @@ class InferenceSession:
             )
             options_list[options_list.index("-o") + 1] = self.compiled_model
 
-            self.compile_options = " ".join(options_list)
+            self.compile_options = shlex.join(options_list)
             if not self.compiled_model.endswith(".so"):
                 self.compiled_model += ".so"
             self.output_dirname = os.path.dirname(self.compiled_model)
@@ -122,7 +123,7 @@ class InferenceSession:
             self.compiled_model = os.path.join(
                 self.output_dirname, self.model_basename.removesuffix(self.model_suffix)
             )
-            self.compile_options += f" -o {self.compiled_model}"
+            self.compile_options += f" -o {shlex.quote(self.compiled_model)}"
             # Compile will automatically append .so to the -o target
             # Session need the suffix .so
             self.compiled_model += ".so"
@@ -210,7 +211,10 @@ class InferenceSession:
                 self.mount_compiler = False
                 try:
                     msg = self.container_client.containers.run(
-                        self.compiler_image_name, self.compiler_path + " --version"
+                        self.compiler_image_name,
+                        shlex.quote(self.compiler_path) + " --version"
+                        if self.compiler_path
+                        else "--version",
                     )
                     # Could check the valid version of compiler
                 except Exception as e:
@@ -229,17 +233,19 @@ class InferenceSession:
         self.container_model_dirname = self.model_dirname
         self.container_output_dirname = self.output_dirname
 
-        # Construct compilation command
-        command_str = self.compiler_path
+        # Construct compilation command. It is split into arguments like a shell
+        # does, also by the container engine. The path of the compiler is empty
+        # when it is the entry point of the image.
+        command_str = shlex.quote(self.compiler_path) if self.compiler_path else ""
 
         # Compiled library
         if self.compile_options != "":
             command_str += " " + self.compile_options
 
-        command_str += " --tag=" + self.compile_tag
+        command_str += " --tag=" + shlex.quote(self.compile_tag)
 
-        command_str += " " + os.path.join(
-            self.container_model_dirname, self.model_basename
+        command_str += " " + shlex.quote(
+            os.path.join(self.container_model_dirname, self.model_basename)
         )
 
         # print(command_str)
@@ -247,7 +253,7 @@ class InferenceSession:
         # Logically, the model directory could be mounted as read only.
         # But wrong time error occurred with "r" mode
         if self.compiler_image_name is None:
-            result = subprocess.run(command_str.split(" "))
+            result = subprocess.run(shlex.split(command_str))
             if result.returncode != 0:
                 # Do not use a library that was there before.
                 print(f"Failed in compilation: {command_str}")
-- 
2.43.0


From 3b25c28369f9c26549af2ab133fb174db33ad378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 102/117] fix: docker/onnx-mlir.py passes absolute paths for
 all mounted files

---
 docker/onnx-mlir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/docker/onnx-mlir.py b/docker/onnx-mlir.py
index d9d95db..61bf7ee 100755
--- a/docker/onnx-mlir.py
+++ b/docker/onnx-mlir.py
@@ -53,9 +53,8 @@ def mount_path(path):
     if not d in mount_dirs:
         mount_dirs += [d]
         mount_args += ["-v", d + ":" + d]
-        onnx_mlir_args += [p]
-    else:
-        onnx_mlir_args += [path]
+    # A relative path means something else inside of the container.
+    onnx_mlir_args += [p]
 
 
 def main():
-- 
2.43.0


From fb84f4a9842ff4c711f11ff32ead65e1857c92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 103/117] fix: onnxmlirrun.py does not import a module that
 onnx removed

---
 utils/onnxmlirrun.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/onnxmlirrun.py b/utils/onnxmlirrun.py
index 65f9621..7028d64 100644
--- a/utils/onnxmlirrun.py
+++ b/utils/onnxmlirrun.py
@@ -11,7 +11,6 @@ import numpy as np
 import tempfile
 
 from onnx import numpy_helper
-from onnx.mapping import TENSOR_TYPE_TO_NP_TYPE
 from collections import OrderedDict
 
 # This file provide utility to compile and run onnx model with onnx-mlir,
-- 
2.43.0


From b762491c0d3f511228db47309beadd0514f15bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 104/117] fix: onnxmlirrun.py gives the inputs of a dictionary
 by name

---
 utils/onnxmlirrun.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils/onnxmlirrun.py b/utils/onnxmlirrun.py
index 7028d64..85ed671 100644
--- a/utils/onnxmlirrun.py
+++ b/utils/onnxmlirrun.py
@@ -1,6 +1,7 @@
 ﻿#!/usr/bin/python
 # Copyright 2019-2023 The IBM Research Authors.
 
+import json
 import os
 import sys
 import onnx
@@ -149,9 +150,15 @@ class InferenceSession:
         # Prepare the input
 
         if isinstance(runInputs, dict):
-            # onnxruntime interface
-
-            inputs = list(runInputs.values())
+            # onnxruntime interface: the values are found by name.
+
+            names = [sig["name"] for sig in json.loads(self.sess.input_signature())]
+            if any(name not in runInputs for name in names):
+                print("input name given: ", list(runInputs.keys()))
+                print("input name expected by model: ", names)
+                print("do not match")
+                exit(1)
+            inputs = [runInputs[name] for name in names]
         elif isinstance(runInputs, list):
             inputs = runInputs
         elif type(runInputs).__module__ == np.__name__:
-- 
2.43.0


From 7873f31996f5cc7052448481cd864b9af6734578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 105/117] fix: fusing transposes around Cast and IsNaN keeps
 their element type

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index b24973f..85b9481 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -627,8 +627,11 @@ class FuseTransposeAndElementwiseUnaryWithTwoArgOpPattern<Op elmOp>:  Pat<
 
 def FuseTransposeAndAtanPattern :
     FuseTransposeAndElementwiseUnaryOpPattern<ONNXAtanOp>;
-def FuseTransposeAndCastPattern :
-    FuseTransposeAndElementwiseUnaryWithTwoArgOpPattern<ONNXCastOp>;
+// A cast has another element type than its operand.
+def FuseTransposeAndCastPattern :  Pat<
+  (ONNXTransposeOp (ONNXCastOp (ONNXTransposeOp $v, $p1), $saturate, $to), $p2),
+  (ONNXTransposeOp (ONNXCastOp $v, $saturate, $to),
+                   (CreateCombinedTransposedPattern $p1, $p2))>;
 def FuseTransposeAndCeilPattern :
     FuseTransposeAndElementwiseUnaryOpPattern<ONNXCeilOp>;
 def FuseTransposeAndCosPattern :
@@ -655,8 +658,13 @@ def FuseTransposeAndFloorPattern :
     FuseTransposeAndElementwiseUnaryOpPattern<ONNXFloorOp>;
 def FuseTransposeAndHardSigmoidPattern :
     FuseTransposeAndElementwiseUnaryWithTwoArgOpPattern<ONNXHardSigmoidOp>;
-def FuseTransposeAndIsNaNPattern :
-    FuseTransposeAndElementwiseUnaryOpPattern<ONNXIsNaNOp>;
+// IsNaN has booleans as results, of the shape of its operand.
+def TypeWithBoolElements: NativeCodeCall<
+  "mlir::cast<ShapedType>($0.getType()).clone($_builder.getI1Type())">;
+def FuseTransposeAndIsNaNPattern :  Pat<
+  (ONNXTransposeOp (ONNXIsNaNOp (ONNXTransposeOp $v, $p1)), $p2),
+  (ONNXTransposeOp (ONNXIsNaNOp $v, (returnType (TypeWithBoolElements $v))),
+                   (CreateCombinedTransposedPattern $p1, $p2))>;
 def FuseTransposeAndLeakyReluPattern :
     FuseTransposeAndElementwiseUnaryWithOneArgOpPattern<ONNXLeakyReluOp>;
 def FuseTransposeAndLogPattern :
-- 
2.43.0


From b6bd997482ab8c936201eef17f7563191b0a37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 106/117] fix: a scaled product that has other users is not
 scaled in place

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 93c19e0..a019f31 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -645,6 +645,10 @@ struct PropagateConstantScalingInAttentionLayerPattern
     if (!onnxMatMulOp)
       return rewriter.notifyMatchFailure(genericOp,
           "The first operand of Div/Mul is not produced by MatMulOp");
+    // Other users of the product need it as it is.
+    if (!hasOneUseExceptDimOp(onnxMatMulOp.getY()))
+      return rewriter.notifyMatchFailure(
+          genericOp, "The result of MatMulOp is used several times");
     Value lhs = onnxMatMulOp.getA();
     Value rhs = onnxMatMulOp.getB();
     // The second operand of Div/Mul is a scalar constant.
-- 
2.43.0


From f60cdc9a8d11068a8a05bf183b9e1a3ef4005061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:01 +0000
Subject: [PATCH 107/117] fix: division of integers is not moved before a sum
 of products

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 5 +++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index a019f31..c39b705 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -655,6 +655,11 @@ struct PropagateConstantScalingInAttentionLayerPattern
     if (!isScalarConstantTensor(K))
       return rewriter.notifyMatchFailure(
           genericOp, "The second operand of Div/Mul is not a scalar constant");
+    // Integer division does not distribute over sums.
+    if (isa<ONNXDivOp>(genericOp) &&
+        !isa<FloatType>(getElementType(lhsOMOp.getType())))
+      return rewriter.notifyMatchFailure(
+          genericOp, "Div of integers cannot be moved");
 
     // Match lhs = shape_transform(X1*A1 + B1)
     Value A, B;
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 85b9481..f65d83e 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -459,10 +459,16 @@ def FuseScalarMulMatMulPattern: Pat<
  [(IsFromONNXConstantOp $b), (IsScalarConstantTensor $c)]
 >;
 
+// Division of integers does not distribute over sums.
+def HasFloatElementType: Constraint<
+  CPred<"mlir::isa<FloatType>(getElementType($0.getType()))">,
+  "has a float element type">;
+
 def FuseScalarDivMatMulPattern: Pat<
  (ONNXDivOp (ONNXMatMulOp $a, $b), $c),
  (ONNXMatMulOp $a, (ONNXDivOp $b, $c)),
- [(IsFromONNXConstantOp $b), (IsScalarConstantTensor $c)]
+ [(IsFromONNXConstantOp $b), (IsScalarConstantTensor $c),
+  (HasFloatElementType $c)]
 >;
 
 
-- 
2.43.0


From 58e606cf5bb4942381bffadc5f011806dedb1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:01 +0000
Subject: [PATCH 108/117] fix: the constant that scales a product still
 dominates its other users

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index c39b705..4246f87 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -680,7 +680,13 @@ struct PropagateConstantScalingInAttentionLayerPattern
 
     // Rewrite.
     // Move K up before MatMul/Gemm to make sure it is in the dominant region.
-    K.getDefiningOp()->moveBefore(matmulOrGemmOp);
+    // It is never moved down since it can have other users.
+    Operation *kOp = K.getDefiningOp();
+    Operation *kPos = kOp->getBlock()->findAncestorOpInBlock(*matmulOrGemmOp);
+    if (!kPos)
+      kOp->moveBefore(matmulOrGemmOp);
+    else if (kPos->isBeforeInBlock(kOp))
+      kOp->moveBefore(kPos);
     if (isGemm) {
       auto onnxGemmOp = cast<ONNXGemmOp>(matmulOrGemmOp);
       // Update in place B and C of Gemm.
-- 
2.43.0


From edef7e20610a3fef20cfd74ab2a974209f453c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 109/117] fix: Expand to fewer dims than its input has crashed
 the analysis of dims

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 4edf272..119ef89 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -483,7 +483,18 @@ static bool exploreSameDimsUsingShapeInput(const DimAnalysis::DimT &dim,
     // `input` stores shape information.
     shapeInput = onnxOp.getInput();
   } else if (auto onnxOp = mlir::dyn_cast<ONNXExpandOp>(op)) {
-    // `shape` stores shape information.
+    // `shape` stores shape information, counting from the innermost dim.
+    auto shapeType =
+        mlir::dyn_cast<RankedTensorType>(onnxOp.getShape().getType());
+    if (!hasShapeAndRank(onnxOp.getInput()) || !shapeType ||
+        shapeType.isDynamicDim(0))
+      return false;
+    int64_t outputRank =
+        mlir::cast<ShapedType>(onnxOp.getResult().getType()).getRank();
+    int64_t index = outputDimIndex - outputRank + shapeType.getDimSize(0);
+    if (index < 0)
+      return false;
+    inputDimIndex = index;
     shapeInput = onnxOp.getShape();
   } else if (auto onnxOp = mlir::dyn_cast<ONNXMaxUnpoolOp>(op)) {
     // Optional `output_shape` stores shape information.
-- 
2.43.0


From ed60d74ab20c16c38e86a33d3823d74d2bb7a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 110/117] fix: a dim of Expand is not that of its shape when
 the input is larger

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 119ef89..5f768e8 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -521,6 +521,19 @@ static bool exploreSameDimsUsingShapeInput(const DimAnalysis::DimT &dim,
 
   SmallVector<Value, 4> dims;
   getDims(shapeInput, dims);
+  if (auto onnxOp = mlir::dyn_cast<ONNXExpandOp>(op)) {
+    // The output has the size in `shape` only when the input does not have
+    // another one: it is broadcast, or its own size is in `shape`.
+    ArrayRef<int64_t> inputShape = getShape(onnxOp.getInput().getType());
+    int64_t outputRank =
+        mlir::cast<ShapedType>(onnxOp.getResult().getType()).getRank();
+    int64_t index = outputDimIndex - outputRank + inputShape.size();
+    auto dimOp = dims[inputDimIndex].getDefiningOp<ONNXDimOp>();
+    if (index >= 0 && inputShape[index] != 1 &&
+        !(dimOp && dimOp.getData() == onnxOp.getInput() &&
+            dimOp.getAxis() == index))
+      return false;
+  }
   if (auto d =
           insertDimWhenUseful(dims[inputDimIndex], inputDimIndex, sameDims))
     LLVM_DEBUG(llvm::dbgs() << "  - Added a new dim(" << d.value().first << ", "
-- 
2.43.0


From 2c3306979b921469eec80ba55e759e8003e2cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 111/117] fix: LayerNormalization lowered to operations keeps
 the type it had

---
 src/Conversion/ONNXToKrnl/NN/Normalization.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/NN/Normalization.cpp b/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
index a7e6014..6144cce 100644
--- a/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
+++ b/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
@@ -397,11 +397,10 @@ LogicalResult generateGenericLayerNormOpONNXCode(
   Value Y = create.onnx.mul(normalized, lnOp.getScale());
   if (!isNoneValue(lnOp.getB())) {
     Y = create.onnx.add(Y, lnOp.getB());
-    Type originYType = lnOp.getY().getType();
-    if (hasStaticShape(originYType)) {
-      Y.setType(typeConverter->convertType(originYType));
-    }
   }
+  // The type inferred here may know less than the one of the operation, as when
+  // a dynamic dimension of scale is known to be that of X or 1.
+  Y.setType(lnOp.getY().getType());
   replaceGenericLayerNormOp<OP_TYPE>(rewriter, lnOp, Y, meanOfX, invStdDev);
   return success();
 }
-- 
2.43.0


From f7d74020f451bb319c004e9338b0571d4ba37281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:10 +0000
Subject: [PATCH 112/117] fix: the analysis of dims reads operands whose rank
 is not known yet

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 5f768e8..9f29ad5 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -507,6 +507,8 @@ static bool exploreSameDimsUsingShapeInput(const DimAnalysis::DimT &dim,
   } else if (auto onnxOp = mlir::dyn_cast<ONNXTileOp>(op)) {
     // If input dimension i is 1, `repeats` i stores shape information.
     Type inputType = onnxOp.getInput().getType();
+    if (!hasShapeAndRank(onnxOp.getInput()))
+      return false;
     ArrayRef<int64_t> inputShape = getShape(inputType);
     if (inputShape[inputDimIndex] == 1)
       shapeInput = onnxOp.getRepeats();
@@ -1236,6 +1238,8 @@ void DimAnalysis::visitDim(
       Value A = op->getOperands()[i];
       for (size_t k = i + 1; k < operands.size(); ++k) {
         Value B = op->getOperands()[k];
+        if (!hasShapeAndRank(A) || !hasShapeAndRank(B))
+          continue;
         uint64_t aRank = getRank(A.getType());
         uint64_t bRank = getRank(B.getType());
         if ((aRank != 0) && (bRank != 0)) {
@@ -1264,6 +1268,8 @@ void DimAnalysis::visitDim(
 
     Value data = reshapeOp.getData();
     Value output = reshapeOp.getReshaped();
+    if (!hasShapeAndRank(data) || !hasShapeAndRank(output))
+      return;
 
     // Special case: when data and output have the same number of dynamic
     // dimensions (N), the dynamic dimension output[i] is the same as the
-- 
2.43.0


From fc604a05408773f0977d45633c3695105e89dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:13 +0000
Subject: [PATCH 113/117] fix: LayerNormalization with a scale or bias of rank
 0 crashed the compiler with SIMD

---
 src/Conversion/ONNXToKrnl/NN/Normalization.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/NN/Normalization.cpp b/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
index 6144cce..56c09db 100644
--- a/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
+++ b/src/Conversion/ONNXToKrnl/NN/Normalization.cpp
@@ -478,6 +478,12 @@ struct GenericLayerNormaOpLowering : public OpConversionPattern<OP_TYPE> {
     // Here, the lowRank represents the SIMD loops.
     int64_t lowRank = XRank - axis;
 
+    // A tensor of rank 0 has no dimension to flatten.
+    if (operandRank == 0) {
+      LLVM_DEBUG(llvm::dbgs() << "  operands: rank 0, no SIMD\n");
+      return BroadcastKind::Unsupported;
+    }
+
     // Look at dims being 1 (scalar). Use shapeHelper.inputsDims as they have
     // been extended with 1s to have explicit the broadcast dims (i.e.
     // guaranteed to have the same rank as X).
-- 
2.43.0


From 5b41a10660281ea1757509eb1992930061d7425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:43 +0000
Subject: [PATCH 114/117] fix: Mean of two scalars and a vector is of vectors
 in SIMD code

---
 src/Conversion/ONNXToKrnl/Math/Elementwise.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
index 36d9b4f..bbb1482 100644
--- a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
@@ -1609,7 +1609,7 @@ static LogicalResult getPartiallyFlattenedSimdCode(
         create.krnl.simdIterateIE(zero, SymIE(simdUb), VL, simdOnly,
             useParallelInSimdLoop, inputs, inputAFs, {output}, {outputAF},
             {[&](const KrnlBuilder &kb, ArrayRef<Value> inputVals, int64_t VL) {
-              MultiDialectBuilder<MathBuilder> create(kb);
+              MultiDialectBuilder<MathBuilder, VectorBuilder> create(kb);
               Type currElementType = outputElementType;
               if (VL > 1)
                 currElementType = VectorType::get({VL}, outputElementType);
@@ -1628,6 +1628,12 @@ static LogicalResult getPartiallyFlattenedSimdCode(
                 // Iterate over the remaining operands.
                 for (unsigned i = 1; i < numArgs; ++i) {
                   Value next = inputVals[i];
+                  // The result is a vector even when both are scalars.
+                  if (VL > 1 && !mlir::isa<VectorType>(accumulated.getType()) &&
+                      !mlir::isa<VectorType>(next.getType()))
+                    accumulated = create.vec.broadcast(
+                        VectorType::get({VL}, accumulated.getType()),
+                        accumulated);
                   // Fold.
                   accumulated =
                       emitScalarOpFor<OP_TYPE>(rewriter, create.getLoc(), op,
-- 
2.43.0


From c97876ef418ddd723a0e307d4b742552057cf873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:09 +0000
Subject: [PATCH 115/117] fix: zdnnx: a smaller last tile is not a full tile

zdnnx_is_full_tile() tested the EQUAL_SPLIT flags the wrong way round, so a
tile that is the last one of four axes split unevenly took the descriptors of
the full-size tiles and was copied from and to memory outside the tensor.
---
 src/Accelerators/NNPA/Runtime/zdnnx/utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
index 22f6be5..1237ed4 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
@@ -36,13 +36,13 @@ bool zdnnx_is_full_tile(zdnnx_tile *tile) {
   bool full_tile = true;
   // Check last tiles.
   if (tile->indices[E4] == num_tiles[E4] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) != 0);
   if (tile->indices[E3] == num_tiles[E3] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) != 0);
   if (tile->indices[E2] == num_tiles[E2] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) != 0);
   if (tile->indices[E1] == num_tiles[E1] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) != 0);
   return full_tile;
 }
 
-- 
2.43.0


From 8f37f08751fcd5763a868933cd8184b6461c31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:22 +0000
Subject: [PATCH 116/117] fix: zdnnx: a view of a tensor does not change the
 descriptors of the tensor

The collapsed 4D view of a large tensor shared the descriptors of the
tensor, whose shape and layout were then those of the view after an
elementwise operation with several threads.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 17 ++++++++++++-----
 src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c   |  6 ++++++
 src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h   |  6 +++++-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index 5dfeb2d..44c3a2d 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -374,6 +374,7 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
   // Reshape the input tensor by collapsing all dimensions into E4, so that we
   // have enough parallel works in any case and reuse is always possible.
   zdnn_ztensor input_view, output_view;
+  zdnn_tensor_desc input_descs[2], output_descs[2];
   if (isBigTensor && input_shape[E1] % 64 == 0 && input_shape[E2] % 32 == 0) {
     // Only collapse when E1 is a multiple of 64  and E2 is a multiple of 32 to
     // avoid accessing padding values. Otherwise zdnn will warn range violation.
@@ -387,8 +388,10 @@ zdnn_status zdnnx_omp_unary_elementwise(const zdnn_ztensor *input,
     view_shape[1] = 1;
     view_shape[2] = 32;
     view_shape[3] = 64;
-    zdnnx_create_view(input, &input_view, view_shape, view_layout);
-    zdnnx_create_view(output, &output_view, view_shape, view_layout);
+    zdnnx_create_view(input, &input_view, &input_descs[0], &input_descs[1],
+        view_shape, view_layout);
+    zdnnx_create_view(output, &output_view, &output_descs[0], &output_descs[1],
+        view_shape, view_layout);
   } else {
     // View is exactly same as the original tensor.
     input_view = *input;
@@ -466,6 +469,7 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
   // Reshape the input tensor by collapsing all dimensions into E4, so that we
   // have enough parallel works in any case and reuse is always possible.
   zdnn_ztensor input_a_view, input_b_view, output_view;
+  zdnn_tensor_desc input_a_descs[2], input_b_descs[2], output_descs[2];
   if (isBigTensor && input_shape[E1] % 64 == 0 && input_shape[E2] % 32 == 0) {
     // Only collapse when E1 is a multiple of 64  and E2 is a multiple of 32 to
     // avoid accessing padding values. Otherwise zdnn will warn range violation.
@@ -479,9 +483,12 @@ zdnn_status zdnnx_omp_binary_elementwise(const zdnn_ztensor *input_a,
     view_shape[1] = 1;
     view_shape[2] = 32;
     view_shape[3] = 64;
-    zdnnx_create_view(input_a, &input_a_view, view_shape, view_layout);
-    zdnnx_create_view(input_b, &input_b_view, view_shape, view_layout);
-    zdnnx_create_view(output, &output_view, view_shape, view_layout);
+    zdnnx_create_view(input_a, &input_a_view, &input_a_descs[0],
+        &input_a_descs[1], view_shape, view_layout);
+    zdnnx_create_view(input_b, &input_b_view, &input_b_descs[0],
+        &input_b_descs[1], view_shape, view_layout);
+    zdnnx_create_view(output, &output_view, &output_descs[0], &output_descs[1],
+        view_shape, view_layout);
   } else {
     // View is exactly same as the original tensor.
     input_a_view = *input_a;
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
index f3a9895..3cc6da3 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.c
@@ -416,9 +416,15 @@ uint32_t zdnnx_get_transformed_dim_per_tile(
 }
 
 void zdnnx_create_view(const zdnn_ztensor *input, zdnn_ztensor *input_view,
+    zdnn_tensor_desc *view_pre_desc, zdnn_tensor_desc *view_desc,
     uint32_t *view_shape, zdnn_data_layouts view_layout) {
   // Initialize the view with the original info from the input.
   *input_view = *input;
+  // The view has its own descriptors: the input's ones are left unchanged.
+  *view_pre_desc = *input->pre_transformed_desc;
+  *view_desc = *input->transformed_desc;
+  input_view->pre_transformed_desc = view_pre_desc;
+  input_view->transformed_desc = view_desc;
 
   // Update dim sizes in the pre_transformed_desc.
   input_view->pre_transformed_desc->dim4 = view_shape[E4];
diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
index 23dc22d..77753de 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h
@@ -137,15 +137,19 @@ uint32_t zdnnx_get_transformed_dim_per_tile(
 /**
  * \brief Create a view of a ztensor
  *
- * Create a view of a ztensor by using a new shape and layout.
+ * Create a view of a ztensor by using a new shape and layout. The view shares
+ * the buffer of the input ztensor but not its descriptors.
  *
  * @param input input ztensor
  * @param input_view view ztensor
+ * @param view_pre_desc pre-transformed descriptor of the view
+ * @param view_desc transformed descriptor of the view
  * @param view_shape 4D shape of the view ztensor
  * @param view_layout zdnn layout of the view ztensor
  *
  */
 void zdnnx_create_view(const zdnn_ztensor *input, zdnn_ztensor *input_view,
+    zdnn_tensor_desc *view_pre_desc, zdnn_tensor_desc *view_desc,
     uint32_t *view_shape, zdnn_data_layouts view_layout);
 
 /**
-- 
2.43.0


From 8efb24cc7731493e40a10440cd1d2479c4e1ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:02 +0000
Subject: [PATCH 117/117] fix: zdnnx: do not split a transposed operand of
 matmul along K

The tile sizes are of M and N, along E2 of A and E1 of B; in a transposed
operand K is there.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index 44c3a2d..3b0ee64 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -187,6 +187,15 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
       input_c, &ts_e4, &ts_e2, &ts_e1, &split_bs_only, &split_m, &split_n);
   if (ts_status != ZDNN_OK)
     return ts_status;
+  // M is not E2 of a transposed A, and N is not E1 of a transposed B.
+  if (transpose_a) {
+    ts_e2 = 0;
+    split_m = false;
+  }
+  if (transpose_b) {
+    ts_e1 = 0;
+    split_n = false;
+  }
 
   zdnnx_split_info si_a, si_b, si_c, si_y;
   zdnnx_prepare_split_info(&si_a, input_a, ts_e4, 0, ts_e2, 0, "MatMul A");
-- 
2.43.0

