From fba69d4e0bb018655c62d7c273293dd90bcce4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 01/40] fix: give hash_int64 room for the decimal text of every
 int64 value

Values of 20 characters (<= -10^18) were truncated to 19 by snprintf, so
that their run-time hash differed from the one the compiler built the
dictionary with.
---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..a9df469 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[21]; // Room for INT64_MIN (20 characters) and the terminator.
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From 292695ef11bfd92639da86b984f701761bfaa74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 02/40] fix: narrow double to half with a single rounding

__truncdfhf2 rounded to float and then to half, which is off by one unit
when the first rounding lands on a tie of the second. Round to odd first.
---
 src/Runtime/OMTensor.inc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..3f18da5 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -67,7 +67,18 @@ float __extendhfsf2(uint16_t a) { return om_f16_to_f32(a); }
 float __gnu_h2f_ieee(uint16_t a) { return om_f16_to_f32(a); }
 uint16_t __gnu_f2h_ieee(float a) { return om_f32_to_f16(a); }
 uint16_t __truncsfhf2(float a) { return om_f32_to_f16(a); }
-uint16_t __truncdfhf2(double a) { return om_f32_to_f16(a); }
+uint16_t __truncdfhf2(double a) {
+  // Narrow to float with rounding to odd: rounding to nearest here and again
+  // in om_f32_to_f16 would round twice.
+  float f = (float)a;
+  uint32_t bits;
+  memcpy(&bits, &f, sizeof(bits));
+  if (f != a && (bits & 1) == 0) {
+    bits += (f > a) == (a > 0) ? -1 : 1;
+    memcpy(&f, &bits, sizeof(f));
+  }
+  return om_f32_to_f16(f);
+}
 
 struct OMTensor {
 #ifdef __cplusplus
-- 
2.43.0


From 620c6cc9e281484a9528bb5470e6e14993834c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 03/40] fix: seed the double precision normal generator

---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From fb87ddcc46a34831a1e5fc3dc36794f2b09f3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 04/40] fix: keep every instrumentation record

updateRecordBuffer merged a call into the previous entry whenever the names
matched, overwriting its time stamp, and flushRecordBuffer tested the before
bit where it meant the after bit, so an entry holding only an after record
was dropped and one holding only a before record was printed twice.
---
 src/Runtime/OMInstrument.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..887a332 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
@@ -262,7 +262,10 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
+      timeRecordBuffer[i].nodeName == nodeName &&
+      IS_INSTRUMENT_BEFORE_OP(timeRecordBuffer[i].tag) &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag) &&
+      !IS_INSTRUMENT_BEFORE_OP(tag)) {
     // Can reuse entry, or the tags so we have bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
-- 
2.43.0


From 510049002d1bf814b1458a5a97ea124dc6eb6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 05/40] fix: keep the lower index among equal elements in TopK

The heap used the opposite sort direction, whose tie-break still put the lower
index first, so among equal elements the heap evicted the lower index.
---
 src/Runtime/OMTopK.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..1650272 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,24 +53,24 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if left child is "worse" than root
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-    comparison = compare(data, &heap[swap_idx], &heap[child]);
+    comparison = compare(data, &heap[child], &heap[swap_idx]);
 #else
-    comparison = compare(&heap[swap_idx], &heap[child], data);
+    comparison = compare(&heap[child], &heap[swap_idx], data);
 #endif
     if (comparison > 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-      comparison = compare(data, &heap[swap_idx], &heap[child + 1]);
+      comparison = compare(data, &heap[child + 1], &heap[swap_idx]);
 #else
-      comparison = compare(&heap[swap_idx], &heap[child + 1], data);
+      comparison = compare(&heap[child + 1], &heap[swap_idx], data);
 #endif
       if (comparison > 0) {
         swap_idx = child + 1;
@@ -148,9 +148,9 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
   // 1. Get the heap comparator.
   // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
   // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
+  // The heap keeps the element that comes last in the output order at its root;
+  // among equal elements that is the one with the highest index.
+  compareFunctionType *heapCompare = getCompareFunction(ascending, dataType);
   if (!heapCompare)
     return; // Unsupported data type
 
-- 
2.43.0


From 734ee1df27615f3b9cfd2f59afbe9985b780d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 06/40] fix: Unique does not write to or depend on optional
 outputs that are not requested

An optional output is passed as NULL or as an empty tensor. The empty tensors
were written past their end, and Y was not produced without indices.
---
 src/Runtime/OMUnique.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..a6290fa 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -265,8 +265,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -274,11 +274,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -357,6 +352,14 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   int64_t *totalPtr = (int64_t *)omTensorGetDataPtr(totalTensor);
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
+  // An optional output that is not requested is either NULL or empty (the
+  // compiler passes an empty tensor). There is no room for results in it.
+  if (indices != NULL && omTensorGetNumElems(indices) == 0)
+    indices = NULL;
+  if (inverse_indices != NULL && omTensorGetNumElems(inverse_indices) == 0)
+    inverse_indices = NULL;
+  if (counts != NULL && omTensorGetNumElems(counts) == 0)
+    counts = NULL;
   void *YPtr = (Y != NULL) ? omTensorGetDataPtr(Y) : NULL;
   void *indicesPtr = (indices != NULL) ? omTensorGetDataPtr(indices) : NULL;
   void *inverseIndicesPtr =
@@ -406,7 +409,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 6f32b498b10383e1db42b8be7cefcaa95d4d141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 07/40] fix: Unique compares the slices along an axis in
 row-major order

---
 src/Runtime/OMUnique.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a6290fa..cd16e09 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -164,16 +164,17 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
     shapeInUniqueAxis[i] = (i == sliceAxis) ? 1 : inputShape[i];
     strides[i] = inputStrides[i];
   }
-  // Gather all data in the slice
+  // Gather all data in the slice in row-major order, in which slices are
+  // compared.
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From 620e5f0fe3afa238e5b37e8edca5e239f4b7dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 08/40] fix: Unique treats zeros of either sign as equal

They are neither equal bytes nor ordered, so that sorted slices came out
unsorted and repeated.
---
 src/Runtime/OMUnique.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index cd16e09..645f4fc 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,7 +119,33 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
-// Check if
+// Check if two elements are equal. Floating point zeros of either sign are
+// equal to each other.
+static int isEqualNum(
+    void *arg1, void *arg2, uint64_t dataSize, OM_DATA_TYPE dataType) {
+  if (dataType == ONNX_TYPE_FLOAT && *((float *)arg1) == *((float *)arg2))
+    return 1;
+  if (dataType == ONNX_TYPE_DOUBLE && *((double *)arg1) == *((double *)arg2))
+    return 1;
+  return memcmp(arg1, arg2, dataSize) == 0;
+}
+
+// Check if all elements of two slices are equal
+static int isEqualSlice(
+    void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  assert(dataSize > 0); // Test for unsupported types.
+  int64_t elemNum = elemSize / dataSize;
+  for (int64_t i = 0; i < elemNum; i++) {
+    void *num1 = ((char *)elem1) + (dataSize * i);
+    void *num2 = ((char *)elem2) + (dataSize * i);
+    if (!isEqualNum(num1, num2, dataSize, dataType))
+      return 0;
+  }
+  return 1;
+}
+
+// Check if the first slice is less than the second one
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
   uint64_t dataSize = getDataTypeSize(dataType);
@@ -128,7 +154,7 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isEqualNum(num1, num2, dataSize, dataType))
       return isLessNum(num1, num2, dataType);
   }
   return 0;
@@ -218,7 +244,7 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isEqualSlice(sliceInTable, slice, sliceSizeInBytes, table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From b6d9b0412e9cf086de4e14e28f09ee0714769502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 09/40] fix: Unique takes its temporary buffers from the heap

The buffers are as large as the input and overflowed the stack.
---
 src/Runtime/OMUnique.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 645f4fc..c1138cb 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -396,13 +396,19 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   assert(dataSize > 0); // Test for unsupported types.
 
   int count = 0;
+  // Temporary buffers are as large as the input and do not fit on the stack.
+  void *tableBuffer = NULL;
+  void *indicesBuffer = NULL;
+  void *sliceBuffer = NULL;
   sliceTable sliceTable;
   if (sliceAxis < 0) { // if slice attribute is not specified
     // manage the inputTensor as flatten one
     uint64_t elementNum = 1;
     for (int64_t i = 0; i < inputRank; i++)
       elementNum *= inputShape[i];
-    void *sliceDataPtr = (YPtr == NULL) ? alloca(dataSize * elementNum) : YPtr;
+    if (YPtr == NULL)
+      tableBuffer = malloc(dataSize * elementNum);
+    void *sliceDataPtr = (YPtr == NULL) ? tableBuffer : YPtr;
     sliceTableInit(&sliceTable, dataType, sorted, 1, elementNum, sliceDataPtr,
         (uint64_t *)indicesPtr, (uint64_t *)inverseIndicesPtr,
         (uint64_t *)countsPtr);
@@ -417,17 +423,19 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     int64_t numOfElementsInSlice = 1;
     for (int64_t i = 0; i < inputRank; i++)
       numOfElementsInSlice *= (i == sliceAxis) ? 1 : inputShape[i];
-    void *sliceDataPtr =
-        (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
-                       : YPtr;
+    if (YPtr == NULL)
+      tableBuffer = malloc(numOfElementsInSlice * numOfSlices * dataSize);
+    void *sliceDataPtr = (YPtr == NULL) ? tableBuffer : YPtr;
     if ((Y != NULL) && (indices == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
-      indicesPtr = alloca(numOfSlices * sizeof(int64_t));
+      indicesBuffer = malloc(numOfSlices * sizeof(int64_t));
+      indicesPtr = indicesBuffer;
     }
     sliceTableInit(&sliceTable, dataType, sorted, numOfElementsInSlice,
         numOfSlices, sliceDataPtr, (uint64_t *)indicesPtr,
         (uint64_t *)inverseIndicesPtr, (uint64_t *)countsPtr);
-    void *sliceData = alloca(numOfElementsInSlice * dataSize);
+    sliceBuffer = malloc(numOfElementsInSlice * dataSize);
+    void *sliceData = sliceBuffer;
     for (int idxInSliceAxis = 0; idxInSliceAxis < numOfSlices;
          idxInSliceAxis++) {
       getSliceData(inputTensor, sliceAxis, idxInSliceAxis, sliceData);
@@ -439,6 +447,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
+  free(tableBuffer);
+  free(indicesBuffer);
+  free(sliceBuffer);
   *totalPtr = count;
 #if _DEBUG_OMTENSOR
   printf("OMUnique: return (count = %d)\n", count);
-- 
2.43.0


From 491f2c4c5c3fa082e6ec009c9d4f9fb2e321746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 10/40] fix: reset the constant pointer when its data is
 unloaded

After omUnloadConstantData the global kept the address of the released
memory, so that a later omLoadConstantData took the constants for loaded.
---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..f6f7543 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,8 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  // The constants are not available anymore, and may be loaded again.
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From 8f85cea33cb35b3ca5ae9780ff82b39138b47462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 11/40] fix: refuse a constant file that is too short to map

mmap succeeds beyond the end of a file, but reading there ends the process
with SIGBUS long after omLoadConstantData reported success.
---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index f6f7543..9f62cf2 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -261,6 +261,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Pages beyond the end of a file can be mapped but not read.
+  struct stat fileStat;
+  if (fstat(fd, &fileStat) != 0) {
+    fprintf(stderr, "Error while checking the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if (fileStat.st_size < fileSize) {
+    fprintf(stderr, "File has %lld bytes, expected %lld\n",
+        (long long)fileStat.st_size, (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 56d2d12bdfc93025a18ed19629048769a9b86c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 12/40] fix: do not leave a freed constant buffer behind a
 failed read

The pointer stayed set, so that a second omLoadConstantData took the freed
buffer for loaded constants.
---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 9f62cf2..0630b2e 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -230,6 +230,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -237,6 +238,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From 664869226653b140bc6207d555f3606503f54f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 13/40] fix: resize tensors of every rank at run time

The interpolation was always over four dimensions, so that other ranks read
shape, scales and coordinates out of bounds or ignored dimensions.
---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From 90cc4d31056d1f67584b44b6793a85f019176e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 14/40] fix: take the neighbors of a resize position from the
 position itself

Adding the padding to the coordinate rounded e.g. 3.0000002 + 1 to 4, which
selected the neighbors left of 3 while the coefficients were for the right
ones: resizing 7 elements to 19 gave data[2] instead of data[3] at 9.
---
 src/Runtime/OMResize.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 249004d..87091a1 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -76,8 +76,8 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
   // If the central idx is right to x (>= x), favor the left one
   // == from the example
 
-  int pad_width = ceil(n / 2);
-  x += pad_width;
+  // Do not add the padding to x: rounding of the sum could move x to another
+  // pair of neighbors than the one the coefficients are for.
   float r = x - floor(x);
 
   int start, end;
@@ -108,9 +108,6 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
     }
   }
 
-  start -= pad_width;
-  end -= pad_width;
-
   for (int i = start; i <= end; i++) {
     if (i < 0) {
       if (exclude_outside)
-- 
2.43.0


From 6cd9d64b101b75311e01a08091de875a08b91cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 15/40] fix: widen dense i1 constants as unsigned: true is 1,
 not -1

---
 .../ONNX/ElementsAttr/ElementsAttrHelper.cpp    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..e7c940f 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -22,14 +22,23 @@ using namespace mlir;
 
 namespace onnx_mlir {
 
+namespace {
+// Integers widen to int64 or uint64 as their BType says, in particular the
+// signless i1 is BOOL, which is unsigned: true is 1, not -1.
+bool isWideSigned(Type intElementType) {
+  return isSignedIntBType(btypeOfMlirType(intElementType));
+}
+} // namespace
+
 WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<DisposableElementsAttr>(elms))
     return disposable.getSplatValue<WideNum>();
   Type elementType = elms.getElementType();
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
-  if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+  if (isa<IntegerType>(elementType))
+    return WideNum::fromAPInt(
+        elms.getSplatValue<APInt>(), isWideSigned(elementType));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -43,8 +52,8 @@ void readDenseElementsWideNums(
   if (isa<FloatType>(elementType)) {
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
-  } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+  } else if (isa<IntegerType>(elementType)) {
+    bool isSigned = isWideSigned(elementType);
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From cae8eebe04a574e79bcf9a0ff06214c2be352eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 16/40] fix: reshapeStrides of an empty view with other than
 default strides

---
 src/Dialect/ONNX/ElementsAttr/Strides.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/Strides.cpp b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
index 440b78b..ae7e5e9 100644
--- a/src/Dialect/ONNX/ElementsAttr/Strides.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
@@ -67,8 +67,10 @@ std::optional<SmallVector<int64_t, 4>> reshapeStrides(ArrayRef<int64_t> shape,
   if (areStridesContiguous(shape, strides))
     return getDefaultStrides(reshapedShape);
 
-  assert(ShapedType::getNumElements(shape) > 1 &&
-         "sizes < 2 are always contiguous");
+  // Size 1 is always contiguous. Size 0 isn't, e.g. after transpose or expand,
+  // and then there is nothing to view, nor to copy.
+  if (ShapedType::getNumElements(shape) == 0)
+    return std::nullopt;
 
   size_t rank1 = shape.size(), rank2 = reshapedShape.size();
   size_t a1 = 0, a2 = 0;
-- 
2.43.0


From 2c0dbabff649c5da41fa7a866a66947fdf66b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 17/40] fix: WideNum::toAPInt truncates a number its delayed
 integer cast left out of range

---
 src/Dialect/ONNX/ElementsAttr/WideNum.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
index 7b11568..6585a14 100644
--- a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
@@ -43,11 +43,12 @@ APFloat WideNum::toAPFloat(BType tag) const {
 
 APInt WideNum::toAPInt(BType tag) const {
   unsigned bitwidth = bitwidthOfBType(tag);
+  // The number may be out of range for tag, because integer casts delay
+  // truncation until the number is read, so truncate here like narrow() does.
   if (isSignedIntBType(tag))
-    // Actually, isSigned flag is ignored because bitwidth <= 64.
-    return APInt(bitwidth, i64, /*isSigned=*/true);
+    return APInt(bitwidth, i64, /*isSigned=*/true, /*implicitTrunc=*/true);
   if (isUnsignedIntBType(tag))
-    return APInt(bitwidth, u64);
+    return APInt(bitwidth, u64, /*isSigned=*/false, /*implicitTrunc=*/true);
   llvm_unreachable("BType must be an integer");
 }
 
-- 
2.43.0


From f1ea747edaf0c55711539dc6f93373c9af00a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 18/40] fix: a constant without elements is not a splat

---
 src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp | 3 ++-
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp    | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp
index 14be894..3589b4a 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp
@@ -78,7 +78,8 @@ void DisposableElementsAttr::dispose() {
 }
 
 bool DisposableElementsAttr::isSplat() const {
-  return areStridesSplat(getStrides()) && getBuffer()->getBufferSize() != 0;
+  // Expanding to an empty shape gives no elements but a non-empty buffer.
+  return areStridesSplat(getStrides()) && getNumElements() != 0;
 }
 
 BType DisposableElementsAttr::getBType() const { return getImpl()->btype; }
diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..92e7302 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -694,6 +694,9 @@ ElementsAttr ElementsAttrBuilder::pad(
   for (size_t axis = 0; axis < rank; ++axis)
     outShape[axis] += leftPads[axis] + rightPads[axis];
   ShapedType outType = elms.getShapedType().clone(outShape);
+  // No elements, not even a splat value to read, if outShape is empty too.
+  if (ShapedType::getNumElements(outShape) == 0)
+    return fromWideNums(outType, [](MutableArrayRef<WideNum> dst) {});
   if (elms.empty())
     return splat(outType, padValue);
   return fromWideNums(outType, [&](MutableArrayRef<WideNum> dst) {
-- 
2.43.0


From c1d9beffe5588f531e1733643a9ca8e79404a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 19/40] fix: split a constant along an empty axis without
 dividing by zero

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 92e7302..cfaf577 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -569,8 +569,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
   auto type = elms.getShapedType();
   auto shape = type.getShape();
   assert(axis < shape.size());
-  auto axisSize = shape[axis];
-  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == axisSize);
+  assert(std::accumulate(sizes.begin(), sizes.end(), 0) == shape[axis]);
   if (sizes.empty()) {
     return {};
   }
@@ -583,7 +582,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
-- 
2.43.0


From 755632c1aa481a5dcdbd34dea05952e207d98654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 20/40] fix: casting i1 constants to signed integers changes
 the widened kind

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index cfaf577..76afccd 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,7 +404,9 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    // Go by BType because the signless i1 is BOOL, which is unsigned.
+    bool oldIsUnsigned = isUnsignedIntBType(btypeOfMlirType(oldElementType));
+    if (newElementType.isUnsigned() != oldIsUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From 57bce3568b6514287d0ea226876bb1c97887125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:43 +0000
Subject: [PATCH 21/40] fix: NonZero of a scalar constant without dividing by
 zero

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 76afccd..d0f1135 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1093,28 +1093,32 @@ namespace {
 // lexicographically sorted. Can be viewed as a [count, rank] shaped matrix
 // linearized in row-major order, where rank is the rank of elms' shape and
 // count is the number of non-zero values. AP_TYPE should be APFloat or APInt.
+// Sets count, which cannot be inferred from the indices if rank is zero.
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
+SmallVector<int64_t> nonZeroIndices(ElementsAttr elms, int64_t &count) {
   SmallVector<int64_t> indices;
+  count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count;
+    }
   }
   return indices;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
+  int64_t count;
   SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+                                     ? nonZeroIndices<APFloat>(elms, count)
+                                     : nonZeroIndices<APInt>(elms, count);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
+  assert(static_cast<int64_t>(indices.size()) == count * rank);
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From c32a1df931cf7dad23267cd2d9cff779e0cec18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 22/40] fix: number FLOAT8E5M2FNUZ, UINT4 and INT4 in the
 runtime type table as ONNX does

---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..be4e24f 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -38,10 +38,11 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_BFLOAT16,       16, 2,                "bfloat16",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FN,   17, 1,                "FLOAT8E4M3FN",    "f8e4m3fn",   "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FNUZ, 18, 1,                "FLOAT8E4M3FNUZ",  "f8e4m3fnuz", "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2,     19, 1,                "FLOAT8E5M2",      "f8e5m2",     "")           /* No C/C++ name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          20, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           21, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2FNUZ, 20, 1,                "FLOAT8E5M2FNUZ",  "f8e5m2fnuz", "")           /* No C/C++ name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          21, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           22, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
 
-OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           21, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           22, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
 // clang-format on
 #else
 #error "Must define OM_TYPE_METADATA_DEF macro."
-- 
2.43.0


From d8b9df2ca5377f5880c1c62ac59f9166df7996ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 23/40] fix: only the flag -o itself names the output

A flag such as -onnx-op-stats=TXT was taken for -o, and the flag after it
for the output name.
---
 src/Compiler/CommandUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..1dd400e 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -90,7 +90,7 @@ static std::string getOutputBasenameFromFlags(
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
-- 
2.43.0


From f4864c5c93132f735004b521d4cac708f3db953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 24/40] fix: look for the constants file beside the compiled
 output

The directory of the output was dropped, so the file was looked for in the
current directory.
---
 src/Compiler/OMCompile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..b339af0 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -676,8 +676,8 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 55320e3652f1b64596e742184b9ac2ccb13136b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 25/40] fix: predict the output from the input named in the
 flags

The compiler is run on the model named in the flags when no model path is
given; the prediction used the empty path.
---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index b339af0..0b21f63 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -765,7 +765,8 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  std::string inputFilename = onnx_mlir::getInputFilename(modelPath, flagVect);
+  onnx_mlir::applyOutputPath(flagVect, outputPath, inputFilename);
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From 265db61121cc187dbe844f64033d92367e026847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 26/40] fix: a command whose end cannot be awaited is a failure

waitpid was not retried when interrupted, and its failure (SIGCHLD ignored
by the caller) left the status undefined: a failing command could be taken
for success.
---
 src/Compiler/Command.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..1373843 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -258,8 +258,11 @@ int Command::exec(const std::string &wdir) {
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -270,6 +273,10 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  // Without a status there is nothing to tell about the child process.
+  if (waited != pid)
+    throw CommandException("Failed to wait for command '" + path + "'");
+
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From b0179d0278d0099049fb43b55f55de8cfca60080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 27/40] fix: ALL and NONE are special as whole names only

A node or operation name that contains one of them (BALLAST, NONEXT)
switched every operation on or off.
---
 src/Compiler/OptionUtils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Compiler/OptionUtils.cpp b/src/Compiler/OptionUtils.cpp
index 19d1405..992052d 100644
--- a/src/Compiler/OptionUtils.cpp
+++ b/src/Compiler/OptionUtils.cpp
@@ -43,9 +43,13 @@ void EnableByRegexOption::setRegexString(std::string regexString) {
     else
       allEnabled = true;
   } else {
-    if (regexString.find("NONE") != std::string::npos)
+    // Separate multiple expressions with space.
+    regexString = std::regex_replace(regexString, std::regex(","), " ");
+    // NONE and ALL are special as whole names only, not inside another name.
+    const std::string names = " " + regexString + " ";
+    if (names.find(" NONE ") != std::string::npos)
       allDisabled = true;
-    if (regexString.find("ALL") != std::string::npos)
+    if (names.find(" ALL ") != std::string::npos)
       allEnabled = true;
   }
   assert(!(allDisabled && allEnabled) && "cannot have both ALL and NONE");
@@ -55,8 +59,6 @@ void EnableByRegexOption::setRegexString(std::string regexString) {
 
   // We have a finite list of regex, preprocess them now. Lifted from the
   // InstrumentPass.cpp original implementation.
-  // Separate multiple expressions with space.
-  regexString = std::regex_replace(regexString, std::regex(","), " ");
 
   // Check if the string already contains regex patterns (like ".*")
   // If it does, treat it as a proper regex and skip the simple transformations
-- 
2.43.0


From 4fbb02eedfd16d715dec9e7c2060248d046619bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 28/40] fix: a guarded run restores every signal action and
 unblocks the signal

---
 src/Runtime/ExecutionSession.cpp | 16 +++++++++-------
 src/Runtime/ExecutionSession.hpp |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..f42dbd4 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -435,7 +435,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -448,7 +448,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -456,8 +456,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
 
   OMTensorList *output = nullptr;
 
-  // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  // Set up the jump point for signal handler. The signal being handled is
+  // blocked; the jump has to unblock it.
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask*/ 1);
 
   if (signum == 0) {
     // First time through - run the inference
@@ -469,7 +470,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -483,6 +484,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..730da91 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From ebe309a7316b8f195ddc24992421a01919ce4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 29/40] fix: OM_CONSTANT_PATH is unset when the load fails

---
 src/Runtime/ExecutionSession.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index f42dbd4..5d78216 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -130,13 +130,26 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 #if defined(_WIN32)
   _sharedLibraryHandle =
       llvm::sys::DynamicLibrary::getLibrary(sharedLibPath.c_str());
-  if (!_sharedLibraryHandle.isValid())
-    throw ExecutionSessionException(
-        "Cannot open library: '" + sharedLibPath + "'.");
 #else
   // Copy code from llvm/lib/Support/DynamicLibrary.cpp, especially the flags
   // ToFix: copy the lock related code too.
   _sharedLibraryHandle = dlopen(sharedLibPath.c_str(), RTLD_LAZY | RTLD_GLOBAL);
+#endif
+
+  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
+  if (setOMConstantPath) {
+#if defined(_WIN32)
+    _putenv_s("OM_CONSTANT_PATH", "");
+#else
+    unsetenv("OM_CONSTANT_PATH");
+#endif
+  }
+
+#if defined(_WIN32)
+  if (!_sharedLibraryHandle.isValid())
+    throw ExecutionSessionException(
+        "Cannot open library: '" + sharedLibPath + "'.");
+#else
   if (!_sharedLibraryHandle)
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
@@ -213,15 +226,6 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
-- 
2.43.0


From 82ae9054f01036aa6bf346b2ab0ff5071db40fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 30/40] fix: a failed load closes the library

---
 src/Runtime/ExecutionSession.cpp | 29 +++++++++++++++++++++++------
 src/Runtime/ExecutionSession.hpp |  5 ++++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 5d78216..706782a 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -165,9 +165,11 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
       dlsym(_sharedLibraryHandle, queryEntryPointsNameWithTag.c_str()));
 #endif
 
-  if (!_queryEntryPointsFunc)
+  if (!_queryEntryPointsFunc) {
+    closeLibrary();
     throw ExecutionSessionException(
         "Cannot load symbol: '" + queryEntryPointsNameWithTag + "'.");
+  }
 
   std::string inputSignatureNameWithTag = _inputSignatureName + lowDashTag;
 #if defined(_WIN32)
@@ -178,9 +180,11 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   _inputSignatureFunc = reinterpret_cast<signatureFuncType>(
       dlsym(_sharedLibraryHandle, inputSignatureNameWithTag.c_str()));
 #endif
-  if (!_inputSignatureFunc)
+  if (!_inputSignatureFunc) {
+    closeLibrary();
     throw ExecutionSessionException(
         "Cannot load symbol: '" + inputSignatureNameWithTag + "'.");
+  }
 
   std::string outputSignatureNameWithTag = _outputSignatureName + lowDashTag;
 #if defined(_WIN32)
@@ -191,9 +195,11 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   _outputSignatureFunc = reinterpret_cast<signatureFuncType>(
       dlsym(_sharedLibraryHandle, outputSignatureNameWithTag.c_str()));
 #endif
-  if (!_outputSignatureFunc)
+  if (!_outputSignatureFunc) {
+    closeLibrary();
     throw ExecutionSessionException(
         "Cannot load symbol: '" + outputSignatureNameWithTag + "'.");
+  }
 
   std::string compilationInfoNameWithTag = _compilationInfoName + lowDashTag;
 #if defined(_WIN32)
@@ -218,6 +224,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
     if (silentlyIgnoreMissingPrintInstrumentationFunc) {
       _printInstrumentationFunc = nullptr;
     } else {
+      closeLibrary();
       throw ExecutionSessionException(
           "Cannot load symbol: '" + _printInstrumentationName + "'.");
     }
@@ -227,13 +234,21 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   isInitialized = true;
 
   // Set default entry point if requested.
-  if (defaultEntryPoint)
-    setEntryPoint("run_main_graph" + lowDashTag);
+  if (defaultEntryPoint) {
+    try {
+      setEntryPoint("run_main_graph" + lowDashTag);
+    } catch (const ExecutionSessionException &) {
+      closeLibrary();
+      throw;
+    }
+  }
 
   errno = 0; // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+ExecutionSession::~ExecutionSession() { closeLibrary(); }
+
+void ExecutionSession::closeLibrary() {
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
@@ -241,6 +256,8 @@ ExecutionSession::~ExecutionSession() {
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
 #endif
+  _sharedLibraryHandle = DynamicLibraryHandleType();
+  isInitialized = false;
 }
 
 // =============================================================================
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 730da91..6d86393 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
@@ -186,6 +186,9 @@ protected:
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
 private:
+  // Close the library, if any.
+  void closeLibrary();
+
   // Run with without signal handler.
   OMTensorList *runWithoutSignalHandler(OMTensorList *input);
 
-- 
2.43.0


From a6168fd55082f9b1209a631aee6181ccb6f46669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 31/40] fix: an option with trailing characters is refused

---
 src/Runtime/OMTensorListHelper.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..ca93085 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -46,6 +46,9 @@ static bool reportFailure(const std::string &msg) {
   return false;
 }
 
+// True when nothing but white space is left to read.
+static bool atEnd(std::istream &is) { return (is >> std::ws).eof(); }
+
 // Parse a pre-split entry string: "num1[-num2]:content".
 // Valid index patterns:
 //   -1:content    : all inputs (idLow = idHigh = -1)
@@ -81,6 +84,8 @@ static bool parseEntry(const std::string &entry, int numInputs, int64_t &idLow,
                              ".." + std::to_string(numInputs - 1) + ")");
     }
   }
+  if (!atEnd(iss))
+    return reportFailure("Failed to parse input ID from '" + entry + "'");
   return true;
 }
 
@@ -104,7 +109,7 @@ static bool parseShapeInfo(const char *shapeInfo, int numInputs,
       std::istringstream ds(dimStr);
       ds >> std::ws;
       int64_t d;
-      if (!(ds >> d))
+      if (!(ds >> d) || !atEnd(ds))
         return reportFailure("Failed to parse dimension from '" + dimStr + "'");
       if (d < -1)
         return reportFailure("expected dimension value: -1 or positive, got " +
@@ -461,11 +466,11 @@ static bool parseBoundOverrides(const char *bounds, double *arr) {
           "Expected one ':' separator in bound entry '" + entry + "'");
     std::istringstream typeStream(parts[0]);
     std::string typeName;
-    if (!(typeStream >> typeName))
-      return reportFailure("Empty type name in bound entry '" + entry + "'");
+    if (!(typeStream >> typeName) || !atEnd(typeStream))
+      return reportFailure("Expected one type name in bound entry '" + entry + "'");
     std::istringstream valStream(parts[1]);
     double val;
-    if (!(valStream >> val))
+    if (!(valStream >> val) || !atEnd(valStream))
       return reportFailure(
           "Failed to parse bound value from '" + parts[1] + "'");
     OM_DATA_TYPE t = runONNXModelNameToOMType(typeName);
-- 
2.43.0


From e5ba6f834a1f66bd13194b8ff44218cb4d9fb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 32/40] fix: bounds in the wrong order or not a number are
 refused

---
 src/Runtime/OMTensorListHelper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index ca93085..d25141b 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -15,6 +15,7 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -170,6 +171,8 @@ static bool parseValueInfo(
       if (numEnd == numStart)
         return reportFailure(
             "Failed to parse number after '" + key + "' in '" + entry + "'");
+      if (std::isnan(v))
+        return reportFailure("'" + key + "' is not a number in '" + entry + "'");
       remaining = remaining.substr(3 + (size_t)(numEnd - numStart));
       if (key == "min") {
         vspec.minVal = v;
@@ -539,6 +542,13 @@ OMTensorList *omTensorListCreateFromInputSignature(
     }
     double lo = vspec.hasMin ? vspec.minVal : lb[entry.type];
     double hi = vspec.hasMax ? vspec.maxVal : ub[entry.type];
+    if (!vspec.hasSoz && !(lo <= hi)) {
+      fprintf(stderr,
+          "omTensorListCreateFromInputSignature: tensor %d has no value "
+          "between %g and %g.\n",
+          i, lo, hi);
+      return abortWithCleanup(i);
+    }
     if (vspec.hasSoz)
       tensor = omTensorCreateSozData(entry.dims, entry.type, vspec.sozCount);
     else
-- 
2.43.0


From 47c77022892fe55926ee15d4d662a45914b50081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 33/40] fix: a signature entry without a type is refused

---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index d25141b..7dbd4e7 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -280,7 +280,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
@@ -357,6 +357,8 @@ static bool parseSignatureInfo(
         parseJsonStr(s, tmp);
       }
     }
+    if (entry.type == ONNX_TYPE_UNDEFINED)
+      return false;
     entries.push_back(std::move(entry));
   }
   return !entries.empty();
-- 
2.43.0


From 2e05c1ca056177e120f5d218d8f333bbdfa86a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 34/40] fix: the leading ones stay within their row

---
 src/Runtime/OMTensorHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..f91f520 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -246,7 +246,8 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0) ? std::min(dist(omRandomGenerator), innerDim)
+                               : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 481ea28120a5c70157a1d4aa73eccf8402c62f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 35/40] fix: bounds of unsigned inputs reach the top of the
 type

---
 src/Runtime/OMTensorHelper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index f91f520..90e1634 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -62,13 +62,13 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
   }
   if constexpr (std::is_integral<T>::value) {
     if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
+      using D = std::conditional_t<std::is_signed<T>::value, int32_t, uint32_t>;
+      std::uniform_int_distribution<D> dis(
+          static_cast<D>(lbound), static_cast<D>(ubound));
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
+      std::uniform_int_distribution<T> dis(lbound, ubound);
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     }
-- 
2.43.0


From f617ae7f7a54d1c6fa6ba655f3c22238007090c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 36/40] fix: the inputs are destroyed when their list cannot be
 made

---
 src/Runtime/OMTensorListHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 7dbd4e7..7e08507 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -577,6 +577,8 @@ OMTensorList *omTensorListCreateFromInputSignature(
   }
 
   OMTensorList *list = omTensorListCreate(inputTensors, inputNum);
+  if (!list)
+    return abortWithCleanup(inputNum);
   free(inputTensors);
   return list;
 }
-- 
2.43.0


From 74cc50177c1ab7ab211d1bb0f9541fd57a535b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:10 +0000
Subject: [PATCH 37/40] fix: a count of leading ones out of range is refused

---
 src/Runtime/OMTensorListHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 7e08507..a691039 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -184,7 +184,7 @@ static bool parseValueInfo(
         vspec.minVal = vspec.maxVal = v;
         vspec.hasMin = vspec.hasMax = true;
       } else if (key == "soz") {
-        int64_t n = (int64_t)v;
+        int64_t n = (v >= -1 && v <= 1e15) ? (int64_t)v : -2;
         if (n < -1)
           return reportFailure("soz value must be -1 (random) or >= 0, got '" +
                                std::to_string(n) + "'");
-- 
2.43.0


From b34b2ba3c5308643c0809d541e5da103d88f15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 38/40] fix: element offsets beyond 2^31 are not truncated

The C++ computeElemOffset started std::inner_product from an int, so the
whole sum was accumulated in an int.
---
 src/Runtime/OMTensor.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 3f18da5..38852d6 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -772,7 +772,8 @@ static inline std::vector<int64_t> computeStridesFromShape(
 static inline int64_t computeElemOffset(
     const int64_t *dataStrides, int rank, const std::vector<int64_t> &indexes) {
   std::vector<int64_t> dimStrides(dataStrides, dataStrides + rank);
-  return inner_product(indexes.begin(), indexes.end(), dimStrides.begin(), 0);
+  return inner_product(indexes.begin(), indexes.end(), dimStrides.begin(),
+      static_cast<int64_t>(0));
 }
 
 /* Helper function to print a vector with delimiter */
-- 
2.43.0


From 7ca542927d68efa7c4cfd995b6a6dd59402bd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 39/40] fix: the strides of a scalar are empty

For rank 0 the vector of sizes was built from a reversed range, which throws
length_error.
---
 src/Runtime/OMTensor.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 38852d6..4362859 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -760,6 +760,8 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From e5cc1a17e4d45e8182f6b24a644ebe5c571185cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 40/40] fix: tensors are compared with the tolerances given

The tolerances were truncated to the element type, so integer tensors were
compared exactly, and the difference of integers could overflow.
---
 src/Runtime/OMTensor.inc | 46 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 4362859..269cdfa 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -875,6 +875,16 @@ std::vector<std::vector<int64_t>> omTensorComputeIndexSet(const OMTensor *omt) {
   return CartProduct(dimWiseIdxSet);
 }
 
+/* Helper function to check that rtol * abs(b) + atol >= abs(a - b), which is
+ * computed in floating point for the integer types too, as the tolerances are
+ * not integers and the difference may not be representable.
+ */
+template <typename T>
+static inline bool isWithinTolerance(T a, T b, float rtol, float atol) {
+  long double x = a, y = b;
+  return rtol * std::abs(y) + atol >= std::abs(x - y);
+}
+
 /* Check whether two OMTensor data are "close" to each other */
 template <typename T>
 inline bool omTensorAreTwoOmtsClose(
@@ -893,32 +903,13 @@ inline bool omTensorAreTwoOmtsClose(
     return false;
   }
 
-  // Compute difference, verify it's within tolerable range.
-  // rtol * abs(b) + atol >= abs(a - b)
-  auto nElems = omTensorGetNumElems(a);
-  std::vector<T> absoluteDiff(nElems);
-  std::vector<T> absb(nElems);
-  std::vector<T> eqAllclose(nElems);
-  std::vector<T> rtolT(nElems, rtol);
-  std::vector<T> atolT(nElems, atol);
-  // abs(a - b)
-  std::transform((T *)a->_alignedPtr, (T *)a->_alignedPtr + nElems,
-      (T *)b->_alignedPtr, absoluteDiff.begin(), std::minus<>());
-  std::transform(absoluteDiff.begin(), absoluteDiff.end(), absoluteDiff.begin(),
-      static_cast<T (*)(T)>(&std::abs));
-  // rtol * abs(b)
-  std::transform((T *)b->_alignedPtr, (T *)b->_alignedPtr + nElems,
-      absb.begin(), static_cast<T (*)(T)>(&std::abs));
-  std::transform(rtolT.begin(), rtolT.end(), absb.begin(), eqAllclose.begin(),
-      std::multiplies<>());
-  // (rtol * abs(b)) + atol
-  std::transform(eqAllclose.begin(), eqAllclose.end(), atolT.begin(),
-      eqAllclose.begin(), std::plus<>());
-  // (rtol * abs(b) + atol) - abs(a - b)
-  std::transform(eqAllclose.begin(), eqAllclose.end(), absoluteDiff.begin(),
-      eqAllclose.begin(), std::minus<>());
-  bool satisfied = std::all_of(
-      eqAllclose.begin(), eqAllclose.end(), [&](T eq) { return eq >= 0; });
+  // Verify that every difference is within tolerable range.
+  const T *aData = (const T *)a->_alignedPtr;
+  const T *bData = (const T *)b->_alignedPtr;
+  int64_t nElems = omTensorGetNumElems(a);
+  bool satisfied = true;
+  for (int64_t i = 0; i < nElems && satisfied; ++i)
+    satisfied = isWithinTolerance(aData[i], bData[i], rtol, atol);
 
   if (!satisfied) {
     // Figure out where and what went wrong, this can be slow; but hopefully
@@ -927,8 +918,7 @@ inline bool omTensorAreTwoOmtsClose(
     for (const auto &idx : omTensorComputeIndexSet(a)) {
       T aElem = omTensorGetElem<T>(a, idx);
       T bElem = omTensorGetElem<T>(b, idx);
-      auto eq = rtol * std::abs(bElem) + atol - std::abs(aElem - bElem);
-      if (eq < 0) {
+      if (!isWithinTolerance(aElem, bElem, rtol, atol)) {
         std::cerr << "a[";
         printVector(idx, ",", std::cerr);
         std::cerr << "] = " << aElem << " != ";
-- 
2.43.0

