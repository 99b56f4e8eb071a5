From 5b2d14992b50fadecec816def3b32b53daa86f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 01/46] fix: reductions must not assume 32-byte aligned input

---
 src/atop/ops_binary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..55cc994 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
-- 
2.43.0


From 92f4554ac5acff844027c2fd9b697d865a407d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 02/46] fix: float32 sum/prod read past the end of the 4-lane
 accumulator

---
 src/atop/ops_binary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 55cc994..ccaf486 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,6 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
@@ -316,7 +315,7 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
             //m0 = _mm_hadd_ps(m0, m0);
 
             mathreg[0] = m10;
-            for (int i = 0; i < perReg; i++) {
+            for (int i = 0; i < (int)(sizeof(U256d) / sizeof(UPCAST)); i++) {
                 //printf("startval %lld %lld\n", (long long)startval, (long long)horizontal[i]);
                 startval = MATH_OP(horizontal[i], startval);
             }
-- 
2.43.0


From b4042e0f9d542ac54f003d864f515a2d587bda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 03/46] fix: accumulate and comparison reductions must not be
 vectorized or threaded

Loops whose output feeds a later iteration (np.cumsum and every other
accumulate, comparison reduce) were split across threads for 65536 or more
elements and returned wrong values.
---
 src/pnumpy/_pnumpy.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..0252247 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,26 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns TRUE if computing one output element can change an input element that
+// another iteration of the loop reads (accumulate, or a comparison reduce).
+// An in-place operation, where each output element replaces its own input, is fine.
+// Such loops must run in order: they cannot be vectorized or split across threads.
+static BOOL LoopFeedsItself(const char* pInput, int64_t stepIn, const char* pOutput, int64_t stepOut, int64_t n) {
+    if (pInput == pOutput && stepIn == stepOut && stepOut != 0) {
+        return FALSE;
+    }
+    // lowest and highest address (of the first byte of an element) touched
+    int64_t lastIn = stepIn * (n - 1);
+    int64_t lastOut = stepOut * (n - 1);
+    const char* inLow = lastIn < 0 ? pInput + lastIn : pInput;
+    const char* inHigh = lastIn < 0 ? pInput : pInput + lastIn;
+    const char* outLow = lastOut < 0 ? pOutput + lastOut : pOutput;
+    const char* outHigh = lastOut < 0 ? pOutput : pOutput + lastOut;
+    return n > 1 && inLow <= outHigh && outLow <= inHigh;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -744,6 +764,12 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                 pBinaryFunc = NULL;
             }
 
+            // accumulate: an output element is an input of the next iteration
+            if (LoopFeedsItself(pInput1, steps[0], pOutput, steps[2], n) || LoopFeedsItself(pInput2, steps[1], pOutput, steps[2], n)) {
+                pBinaryFunc = NULL;
+                pWorkItem = NULL;
+            }
+
             // Check if threading allowed
             if (!pWorkItem) {
                 // Threading not allowed
@@ -810,6 +836,12 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
+        // reduce or accumulate: an output element is an input of the next iteration
+        if (LoopFeedsItself(args[0], steps[0], args[2], steps[2], n) || LoopFeedsItself(args[1], steps[1], args[2], steps[2], n)) {
+            pBinaryFunc = NULL;
+            pWorkItem = NULL;
+        }
+
         // Check if threading allowed
         if (!pWorkItem) {
             // Threading not allowed
-- 
2.43.0


From d8a34092cf469c553512a5d5bd3b6698e49c0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 04/46] fix: threaded reduce must combine block results with an
 associative operation

Reducing 65536 or more elements with subtract, divide, power... combined
per-block results with the same non associative operation, bitwise_xor counted
the start value once per block, the final combine of the numpy loop used the
stride of the input, and a longdouble start value was not copied.
---
 src/pnumpy/_pnumpy.cpp | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 0252247..7ccbb27 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -415,20 +415,7 @@ static int64_t ReduceThreadCallbackNumpy(struct stMATH_WORKER_ITEM* pstWorkerIte
 
         // this is also hackish
         // to set the start value, which is overloaded as first element in output value
-        switch (Callback->itemSizeOut) {
-        case 1:
-            *(int8_t*)args[0] = *(int8_t*)(Callback->pStartVal);
-            break;
-        case 2:
-            *(int16_t*)args[0] = *(int16_t*)(Callback->pStartVal);
-            break;
-        case 4:
-            *(int32_t*)args[0] = *(int32_t*)(Callback->pStartVal);
-            break;
-        case 8:
-            *(int64_t*)args[0] = *(int64_t*)(Callback->pStartVal);
-            break;
-        }
+        memcpy(args[0], Callback->pStartVal, Callback->itemSizeOut);
 
         LOGGING("[%d] numpy reduce on %lld with len %lld   block: %lld  itemsize: %lld\n", core, workIndex, lenX, workBlock, Callback->itemSizeIn2);
         Callback->pOldFunc(args, dimensions, steps, Callback->innerloop);
@@ -605,6 +592,7 @@ char*
 GetReduceStartVal(int funcop, int atype) {
     switch (funcop) {
     case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::BITWISE_XOR:
         return g_startval_zero;
 
     case BINARY_OPERATION::MUL:
@@ -632,6 +620,26 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// A reduce can be split across threads when the partial results of each block can
+// be combined with the same operation.  Not true for subtract, divide, power...
+static BOOL IsReduceThreadable(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+    case BINARY_OPERATION::BITWISE_XOR:
+        return TRUE;
+    }
+    return FALSE;
+}
+
+
 //============================================================================
 // Returns TRUE if computing one output element can change an input element that
 // another iteration of the loop reads (accumulate, or a comparison reduce).
@@ -670,6 +678,9 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             LOGGING("pReduce %p   opcode:%d   dtype:%d   %lld %lld %lld %lld\n", pReduceFunc, funcop, atype, (long long)dimensions[0], (long long)steps[0], (long long)steps[1], (long long)steps[2]);
             char* ip2 = args[1];
             char* op1 = args[0];
+            if (!IsReduceThreadable(funcop)) {
+                pWorkItem = NULL;
+            }
             if (!pWorkItem) {
                 // Not threaded
                 if (g_Settings.AtopEnabled && pReduceFunc) {
@@ -736,6 +747,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
 
                     // possible bug -- check how big dimensions is for reduce
                     npy_intp dimensions[1];
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
 
                     newargs[0] = newargs[2] = op1;
                     newargs[1] = pReduceOfReduce;
@@ -743,7 +755,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From ace0d13166bd2ae3cbc631f0d2d59f30244e1492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/46] fix: minimum and maximum must propagate nan like numpy

---
 src/atop/ops_binary.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index ccaf486..405a4ba 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -59,8 +59,9 @@ static const inline void STOREA(__m256i* x, __m256i y) { _mm256_store_si256((__m
 template<typename T> static const inline T AddOp(T x, T y) { return x + y; }
 template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
-template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
-template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+// x != x: like numpy, return nan if either is nan
+template<typename T> static const inline T MinOp(T x, T y) { return (x < y || x != x) ? x : y; }
+template<typename T> static const inline T MaxOp(T x, T y) { return (x > y || x != x) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +144,9 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+// The min/max intrinsics return y when either is nan, numpy returns the nan
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +154,8 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From 37b2db621dcaf0f9b9a0b92464468b63ad30bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 06/46] fix: float floor_divide must agree with numpy

floor(x / y) differs for infinities, signed zeros and quotients that round up
to an integer.
---
 src/atop/ops_binary.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 405a4ba..2665792 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -78,9 +78,20 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+// Same algorithm as python and numpy: floor(x / y) is off by one when the division rounds up
+template<typename T> static const inline T FloatFloorDiv(T x, T y) {
+    if (y == 0) return x / y;
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= (T)1;
+    if (div == 0) return std::copysign((T)0, x / y);
+    T floordiv = std::floor(div);
+    if (div - floordiv > (T)0.5) floordiv += (T)1;
+    return floordiv;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloatFloorDiv(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloatFloorDiv(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloatFloorDiv(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From f9a3dd15ab6cfe82328e474234f1c90c809ec71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 07/46] fix: absolute and negative must handle the sign of zero

---
 src/atop/ops_unary.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..baf50e4 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -181,6 +181,9 @@ const union
 
 
 template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
+template<typename T> static const inline long double ABS_OP(long double x) { return fabsl(x); }
+template<typename T> static const inline double ABS_OP(double x) { return fabs(x); }
+template<typename T> static const inline float ABS_OP(float x) { return fabsf(x); }
 template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
@@ -293,15 +296,16 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
+    // flip the sign bit: 0 - x would lose the sign of zero
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    return _mm256_xor_ps(m8, x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
+    const __m256d m8 = _mm256_set1_pd(-0.0);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    return _mm256_xor_pd(m8, x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From cefd317069d5c6d279143552bc880b404439e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 08/46] fix: rint must round halfway cases to even

---
 src/atop/ops_unary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index baf50e4..d960f45 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -211,9 +211,9 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 102fd1d2300df9f2a22e3d1cfa3686f21c4c9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 09/46] fix: sin, cos, exp and log must agree with numpy

The double vector routines are only accurate to float precision (exp returned
8.98e307 for nearly any input), and the float routines return garbage for large
arguments, zero, nan, infinity and overflow.
---
 src/atop/ops_trig.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..6ac1e87 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -135,14 +135,27 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 //template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return _mm256_exp_pd(x); }
 
 // Our custom sped up routines
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
-template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
-template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
-template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
-template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
+// The float routines are only valid inside [low, high].  When any of the lanes is
+// outside (or is nan), all of the lanes are calculated with the C library.
+template<__m256 VECTOR_OP(__m256), float SCALAR_OP(float)>
+static const inline __m256 FLOAT_OP_256(__m256 x, float low, float high) {
+    __m256 inside = _mm256_and_ps(_mm256_cmp_ps(x, _mm256_set1_ps(low), _CMP_GE_OQ), _mm256_cmp_ps(x, _mm256_set1_ps(high), _CMP_LE_OQ));
+    if (_mm256_movemask_ps(inside) == 0xff) {
+        return VECTOR_OP(x);
+    }
+    float lanes[8];
+    _mm256_storeu_ps(lanes, x);
+    for (int i = 0; i < 8; i++) {
+        lanes[i] = SCALAR_OP(lanes[i]);
+    }
+    return _mm256_loadu_ps(lanes);
+}
+
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return FLOAT_OP_256<sin256_ps, sinf>(x, -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return FLOAT_OP_256<cos256_ps, cosf>(x, -8192.0f, 8192.0f); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return FLOAT_OP_256<log256_ps, logf>(x, 1.17549435e-38f, 3.4e38f); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return FLOAT_OP_256<exp256_ps, expf>(x, -87.0f, 88.0f); }
+// NOTE: the double routines are only as accurate as float, use the numpy loop for double
 
 #if defined(RT_COMPILER_MSVC)
 
@@ -585,7 +598,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
         }
         break;
 
@@ -593,7 +605,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -704,7 +715,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
         }
         break;
 
@@ -732,7 +742,6 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
         }
         break;
 
-- 
2.43.0


From c1fe192c9c5ecee426eaf905defdcd12fccac9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 10/46] fix: stable argsort must keep nan last when merging

The merge loop of amergesort0_ compared with a raw < so a nan at the head
of the left run was emitted before the remaining numbers of the right run.
---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..dd2fdc5 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From f5a4d5540d4e60fcdc487f43c11741e8271d2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 11/46] fix: parallel string lexsort must compare the
 neighbouring halves before skipping a merge

The quick check read the string before the first right hand string in memory
(value index - 1) rather than the last string of the left half.
---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index dd2fdc5..88c5e14 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1288,7 +1288,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
 
     PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From 967dc4bb9e439337353f8e509de0ff06eb15058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 12/46] fix: parallel sort of strings must merge whole strings

The parallel merge step of sort() treated a string array as an array of
single characters, so sorting 65536 or more strings returned garbage.
---
 src/atop/sort.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 88c5e14..1d12ae1 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1421,6 +1421,41 @@ ParInPlaceMerge(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpac
 
 }
 
+//---------------------------------------------------------------------------
+// Called to combine the result of the left and right merge of strings
+// T is unsigned char for byte strings or uint32_t for unicode
+//
+template <typename T>
+static void
+ParInPlaceMergeString(void* pValue1, int64_t totalLen, int64_t strlen, void* pWorkSpace1) {
+    char* pl = (char*)pValue1;
+    char* pr = pl + (totalLen * strlen);
+    char* pm = pl + ((totalLen >> 1) * strlen);
+    char* pw = (char*)pWorkSpace1;
+
+    // quickcheck to see if we have to copy
+    if (STRING_LT((const T*)pm, (const T*)(pm - strlen), strlen)) {
+
+        MEMCPYR(pw, pl, pm - pl);
+
+        char* pi = pw + (pm - pl);
+        char* pj = pw;
+        char* pk = pl;
+        while (pj < pi && pm < pr) {
+            if (STRING_LT((const T*)pm, (const T*)pj, strlen)) {
+                STRING_COPY(pk, pm, strlen);
+                pm += strlen;
+            }
+            else {
+                STRING_COPY(pk, pj, strlen);
+                pj += strlen;
+            }
+            pk += strlen;
+        }
+        MEMCPYR(pk, pj, pi - pj);
+    }
+}
+
 typedef int(*SORT_FUNCTION)(void* pValue, int64_t length);
 typedef int(*SORT_FUNCTION_STRING)(void* pValue, int64_t length, int64_t strlen);
 struct SORT_FUNCTION_ANY {
@@ -2125,7 +2160,8 @@ par_sort(
     int64_t         itemSize,
     void*           pOut,
     int64_t         stridesOut,
-    SORT_FUNCTION_ANY   pSortFunction)
+    SORT_FUNCTION_ANY   pSortFunction,
+    SORT_STEP_TWO   mergeString = NULL)     // how to merge strings
 {
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
@@ -2159,7 +2195,7 @@ par_sort(
         stParMergeCallback.SortCallbackOne = pSortFunction;
 
         // second pass is a mergesort in place
-        stParMergeCallback.SortCallbackTwo = ParInPlaceMerge<DATATYPE>;
+        stParMergeCallback.SortCallbackTwo = pSortFunction.sortfunc ? ParInPlaceMerge<DATATYPE> : mergeString;
 
         stParMergeCallback.pValues = pValues;
         stParMergeCallback.pToSort = pOut;
@@ -2477,9 +2513,9 @@ extern "C" int Sort(
     case ATOP_HALF_FLOAT:
         return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
-        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<unsigned char>);
     case ATOP_UNICODE:
-        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<uint32_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<uint32_t>);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return -1;
-- 
2.43.0


From 19e1c8a19c88c93d7c455832f27685ec6ca77d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 13/46] fix: parallel sort must honour the stride of its input

The worker threads copied the input with the item size as stride, so
sorting a large strided view returned other elements of the base array.
---
 src/atop/sort.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 1d12ae1..c16ac2c 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1608,6 +1608,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     int64_t AllocChunk;
     int64_t TypeSizeInput;
 
+    // only valid for inplace sorting, bytes between two source items
+    int64_t StridesInput;
+
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
@@ -1839,10 +1842,9 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * itemSizeInput);
 
         // Copy data over
-        // TODO: Fix for strided data
         // For a pure inplace sort, pSrcData will be the same as pData
         if (pSrcData != pData)
-            CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
+            CopyData(pSrcData + (pFirst * Callback->StridesInput), MergeSize, Callback->StridesInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
             Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
@@ -2204,6 +2206,7 @@ par_sort(
         stParMergeCallback.AllocChunk = allocChunk;
         stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
         stParMergeCallback.TypeSizeInput = itemSize;
+        stParMergeCallback.StridesInput = stridesIn;
         stParMergeCallback.TypeSizeOutput = stridesOut;
 
         // This will notify the worker threads of a new work item
-- 
2.43.0


From d6a8bdf10ddbe5b180af587b0b565879964afdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 14/46] fix: lexsort must accept empty and one element arrays
 and report rejected arguments

An empty array was rejected because of its (meaningless) stride, and the
rejection itself surfaced as a SystemError.
---
 src/pnumpy/common.cpp  | 5 +++++
 src/pnumpy/sorting.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..83e091e 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -706,6 +706,11 @@ ArrayInfo* BuildArrayInfo(
                 int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
 
+                // the stride of an array with at most one item is meaningless
+                if (aInfo[i].ArrayLength <= 1) {
+                    stride0 = itemSize;
+                }
+
                 if (checkrows) {
                     if (aInfo[i].NDim != 1) {
                         PyErr_Format(PyExc_ValueError, "BuildArrayInfo array must have ndim ==1 instead of %d", aInfo[i].NDim);
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..9cded3b 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -484,6 +484,9 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         }
     }
 
+    // the arguments were rejected
+    if (PyErr_Occurred()) return NULL;
+
     Py_INCREF(Py_None);
     return Py_None;
 }
-- 
2.43.0


From eca38b991ebbda2e125ed765deafd22811af4fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 15/46] fix: the calling thread must be able to finish counted
 work on its own

The first thread to draw an index in counter mode got 0 and gave up.  When
that was the calling thread and no worker was awake for the job (one cpu, or
thread_setworkers(1) waking a thread that is not worker 1) it waited forever.
---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..2f13aa7 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,8 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // custom mode counts up from 1, and drawing a 0 means there is nothing left to do
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From b6216d8837d9765ddb84f91e189eeb2e70b117f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 16/46] fix: workers must take the work item published for
 their pool

A worker used the newest ring slot, which a second thread calling numpy (or
the caller's next operation) may have reserved but not filled in yet, and then
called a NULL or stale callback.
---
 src/atop/threads.cpp | 4 ++--
 src/atop/threads.h   | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..a006a98 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,12 +110,12 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
-                didSomeWork = pWorkItem->DoWork(core, pWorkerRing->MainWorkIndex);
+                didSomeWork = pWorkItem->DoWork(core, workIndex);
             }
             else {
                 LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 2f13aa7..ae23b62 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -477,9 +477,10 @@ struct stWorkerRing {
         return pWorkItem;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    // workIndex is the index published for the pool by SetWorkItem
+    // NOTE: MainWorkIndex cannot be used, its item might still be being filled in
+    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem(int64_t workIndex) {
+        return  &WorkerQueue[workIndex & RING_BUFFER_MASK];
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
-- 
2.43.0


From 560cd76d2097ae7cc11c2c6cdc1f37f245b11822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 17/46] fix: boolean getitem of odd item sizes must write a
 contiguous output

The last (length % 8) items advanced the output by the input stride.
---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..a37b4a8 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 3678a335eb2e09793dc15d337f19f37c508038ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 18/46] fix: getitem must treat unsigned indexes as unsigned

Unsigned index arrays were read as signed, so for instance a uint8 index of
200 read memory before the array, and the variable item size path advanced
the output twice per item.
---
 src/pnumpy/getitem.cpp | 50 ++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a37b4a8..026034c 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -826,7 +826,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -852,7 +851,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -943,12 +941,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -964,12 +962,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -985,12 +983,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1006,12 +1004,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From ba818732e156f73c4752d5fe037cac1d5646b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 19/46] fix: threaded getitem of strided values must write a
 contiguous output

---
 src/pnumpy/getitem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 026034c..77e991a 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -904,7 +904,8 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is contiguous even when the values are strided
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From d302d75fee3df7d8c0d5cf92237327abf76d836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 20/46] fix: getitem must keep the dtype of the values

The result was allocated from the type number alone, which lost the byte
order, the datetime unit and the fields of the values.
---
 src/pnumpy/common.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 83e091e..b38b224 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,11 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
+    // keep the descriptor: it holds the byte order, the datetime unit and any fields
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
+    Py_INCREF(descr);
 
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From ff2c8a57c92f5c97ba58f28c0e609102da20bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 21/46] fix: getitem must reject arrays of objects

It copied the object pointers without taking references.
---
 src/pnumpy/getitem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 77e991a..f8e9c6f 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -227,6 +227,10 @@ BooleanIndexInternal(
         PyErr_Format(PyExc_ValueError, "Second argument must be a boolean array");
         return NULL;
     }
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle arrays of objects.");
+        return NULL;
+    }
     // This logic is not quite correct, if the strides on all dimensions are the same, we can use this routine
     if (PyArray_NDIM(aIndex) != 1 && !PyArray_ISCONTIGUOUS(aIndex)) {
         PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional boolean array.");
@@ -1101,6 +1105,11 @@ getitem(PyObject* self, PyObject* args)
         }
     }
 
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle arrays of objects.");
+        return NULL;
+    }
+
     //printf("numpy types %d %d\n", numpyValuesType, numpyIndexType);
 
     void* pValues = PyArray_BYTES(aValues);
-- 
2.43.0


From e16f4a6a40b3e18b12dd440e446f8aa2de23285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 22/46] fix: boolean getitem of contiguous multidimensional
 arrays

It stepped by the stride of the first dimension and read out of bounds.
---
 src/pnumpy/getitem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index f8e9c6f..758310f 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -143,6 +143,13 @@ int64_t SumBooleanMask(const int8_t* const pData, const int64_t length, const in
     return result;
 }
 
+//===================================================
+// Bytes between two items of an array which is either one dimensional or contiguous
+//
+static int64_t FlatStride(PyArrayObject* arr) {
+    return PyArray_NDIM(arr) == 1 ? PyArray_STRIDE(arr, 0) : PyArray_ITEMSIZE(arr);
+}
+
 //===================================================
 // Input: boolean array
 // Output: chunk count and ppChunkCount
@@ -199,7 +206,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = FlatStride(aIndex);
 
         BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -568,8 +575,8 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            stBICallback.strideBoolean = FlatStride(aIndex);
+            stBICallback.strideValues = FlatStride(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
-- 
2.43.0


From c89d70d89e83e47c9296db7636c9f4261353a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 23/46] fix: boolean getitem must not depend on both of its
 passes being threaded alike

When only the second pass got a work item it used chunk offsets that the
first pass had not computed.
---
 src/pnumpy/getitem.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 758310f..f205a0d 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -197,9 +197,13 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
             // This means the current function is just responsible for parallelizing over the chunks
             // but doesn't do any real "math" itself.
             int64_t strides = callbackArg->strideBoolean;
-            int64_t total = SumBooleanMask(&pBooleanMask[start * strides], length, strides);
+            const int64_t chunkSize = THREADER->WORK_ITEM_CHUNK;
 
-            pChunkCount[start / THREADER->WORK_ITEM_CHUNK] = total;
+            // without threading there is just one call for all the chunks
+            for (int64_t pos = start; pos < start + length; pos += chunkSize) {
+                int64_t rest = start + length - pos;
+                pChunkCount[pos / chunkSize] = SumBooleanMask(&pBooleanMask[pos * strides], rest < chunkSize ? rest : chunkSize, strides);
+            }
             return TRUE;
         };
 
@@ -208,11 +212,12 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         stBSCallback.pBooleanMask = pBooleanMask;
         stBSCallback.strideBoolean = FlatStride(aIndex);
 
-        BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
+        // an empty mask has one chunk which is never visited
+        pChunkCount[0] = 0;
+        THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
         *ppChunkCount = pChunkCount;
-        // if multithreading turned off...
-        return didMtWork ? chunks : 1;
+        return chunks;
     }
     // out of memory
     return 0;
-- 
2.43.0


From 4847dd8077534d887a04b779d8679f0c916eada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 24/46] fix: the default value of getitem needs as many bytes
 as an item

16 byte items read past an 8 byte constant with an aligned load (a crash for
long double), types without a constant got the int64 one, and a string given
as default was ignored in favour of uninitialized memory.
---
 src/pnumpy/common.cpp  | 43 +++++++++++++++++++---------------
 src/pnumpy/common.h    |  2 +-
 src/pnumpy/getitem.cpp | 52 +++++++++++++++++++++++-------------------
 3 files changed, 54 insertions(+), 43 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index b38b224..125e86f 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -28,32 +28,38 @@ static uint32_t gDefaultUInt32 = 0xFFFFFFFF;
 static uint16_t gDefaultUInt16 = 0xFFFF;
 static uint8_t  gDefaultUInt8 = 0xFF;
 
-static float  gDefaultFloat = NAN;
-static double gDefaultDouble = NAN;
-static int8_t   gDefaultBool = 0;
-static char   gString[1024] = { 0,0,0,0 };
+static uint16_t gDefaultHalf = 0x7E00;
+static float  gDefaultFloat[2] = { NAN, NAN };
+static double gDefaultDouble[2] = { NAN, NAN };
+static long double gDefaultLongDouble[2] = { NAN, NAN };
 
 //----------------------------------------------------
-// returns pointer to a data type (of same size in memory) that holds the invalid value for the type
-// does not yet handle strings
-void* GetDefaultForType(int numpyInType) {
-    void* pgDefault = &gDefaultInt64;
+// fills in the invalid value for the type
+// strings and types without an invalid value get zeros
+void GetDefaultForType(int numpyInType, void* pDest, int64_t itemSize) {
+    const void* pgDefault = NULL;
 
     switch (numpyInType) {
-    case NPY_FLOAT:  pgDefault = &gDefaultFloat;
+    case NPY_HALF:   pgDefault = &gDefaultHalf;
+        break;
+    case NPY_FLOAT:
+    case NPY_CFLOAT: pgDefault = gDefaultFloat;
+        break;
+    case NPY_DOUBLE:
+    case NPY_CDOUBLE: pgDefault = gDefaultDouble;
         break;
     case NPY_LONGDOUBLE:
-    case NPY_DOUBLE: pgDefault = &gDefaultDouble;
+    case NPY_CLONGDOUBLE: pgDefault = gDefaultLongDouble;
         break;
         // BOOL should not really have an invalid value inhabiting the type
-    case NPY_BOOL:   pgDefault = &gDefaultBool;
-        break;
     case NPY_BYTE:   pgDefault = &gDefaultInt8;
         break;
     case NPY_INT16:  pgDefault = &gDefaultInt16;
         break;
     CASE_NPY_INT32:  pgDefault = &gDefaultInt32;
         break;
+    case NPY_DATETIME:
+    case NPY_TIMEDELTA:
     CASE_NPY_INT64:  pgDefault = &gDefaultInt64;
         break;
     case NPY_UINT8:  pgDefault = &gDefaultUInt8;
@@ -64,15 +70,14 @@ void* GetDefaultForType(int numpyInType) {
         break;
     CASE_NPY_UINT64: pgDefault = &gDefaultUInt64;
         break;
-    case NPY_STRING: pgDefault = &gString;
-        break;
-    case NPY_UNICODE: pgDefault = &gString;
-        break;
-    default:
-        printf("!!! likely problem in GetDefaultForType\n");
     }
 
-    return pgDefault;
+    if (pgDefault) {
+        memcpy(pDest, pgDefault, itemSize);
+    }
+    else {
+        memset(pDest, 0, itemSize);
+    }
 }
 
 
diff --git a/src/pnumpy/common.h b/src/pnumpy/common.h
index 4a6412b..0d357f3 100644
--- a/src/pnumpy/common.h
+++ b/src/pnumpy/common.h
@@ -85,7 +85,7 @@ struct ArrayInfo {
 
 };
 
-extern void* GetDefaultForType(int numpyInType);
+extern void GetDefaultForType(int numpyInType, void* pDest, int64_t itemSize);
 extern int64_t CalcArrayLength(int ndim, npy_intp* dims);
 extern int64_t ArrayLength(PyArrayObject* inArr);
 extern PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, int64_t itemsize = 0, int fortran_array = 0, npy_intp* strides = nullptr);
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index f205a0d..1591319 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -619,6 +619,12 @@ BooleanIndex(PyObject* self, PyObject* args)
 
 
 
+// A 16 byte item which does not have to be aligned on 16 bytes
+struct ITEM16 {
+    int64_t lo;
+    int64_t hi;
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -636,7 +642,7 @@ static void GetItemInt(void* aValues, void* aIndex, void* aDataOut, int64_t valL
     VALUE* pDataOut = (VALUE*)aDataOut;
     VALUE  defaultVal = *(VALUE*)pDefault;
 
-    LOGGING("getitem sizes %lld  len: %lld   def: %I64d  or  %lf\n", valLength, len, (int64_t)defaultVal, (double)defaultVal);
+    LOGGING("getitem sizes %lld  len: %lld\n", valLength, len);
     LOGGING("**V %p    I %p    O  %p %llu \n", pValues, pIndex, pDataOut, valLength);
 
     VALUE* pDataOutEnd = pDataOut + len;
@@ -696,7 +702,7 @@ static void GetItemUInt(void* aValues, void* aIndex, void* aDataOut, int64_t val
     VALUE* pDataOut = (VALUE*)aDataOut;
     VALUE  defaultVal = *(VALUE*)pDefault;
 
-    LOGGING("getitem sizes %lld  len: %lld   def: %I64d  or  %lf\n", valLength, len, (int64_t)defaultVal, (double)defaultVal);
+    LOGGING("getitem sizes %lld  len: %lld\n", valLength, len);
     LOGGING("**V %p    I %p    O  %p %llu \n", pValues, pIndex, pDataOut, valLength);
 
     VALUE* pDataOutEnd = pDataOut + len;
@@ -952,7 +958,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -962,7 +968,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -973,7 +979,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -983,7 +989,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -994,7 +1000,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -1004,7 +1010,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -1015,7 +1021,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1025,7 +1031,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
@@ -1143,22 +1149,21 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
 
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
+            // the default needs as many bytes as an item
+            PyArrayObject* defaultArray = AllocateLikeResize(aValues, 1);
+            if (!defaultArray) {
+                Py_DECREF(outArray);
+                return NULL;
+            }
+            void* pDefault = PyArray_BYTES(defaultArray);
+            GetDefaultForType(numpyValuesType, pDefault, aValueItemSize);
 
             // Check if a default value was passed in as third parameter
-            if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
-                void* pTempData = NULL;
-                // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
-                    // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
-                }
+            if (defaultValue != Py_None && PyArray_SETITEM(defaultArray, (char*)pDefault, defaultValue) < 0) {
+                Py_DECREF(defaultArray);
+                Py_DECREF(outArray);
+                return NULL;
             }
 
             stMATH_WORKER_ITEM* pWorkItem = THREADER ? THREADER->GetWorkItem(aIndexLength) : NULL;
@@ -1200,6 +1205,7 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            Py_DECREF(defaultArray);
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From 46fe9b8e0e2521c1c43e1ab63bfa22c2481e0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 25/46] fix: lexsort, sort and getitem must reject keys of the
 other byte order

They read them as native numbers and returned wrong results.
---
 src/pnumpy/common.cpp  | 5 +++++
 src/pnumpy/getitem.cpp | 5 +++++
 src/pnumpy/sorting.cpp | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 125e86f..3b9f57c 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -705,6 +705,11 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
+                if (PyArray_ISBYTESWAPPED((PyArrayObject*)inObject)) {
+                    PyErr_Format(PyExc_ValueError, "BuildArrayInfo array must have the native byte order");
+                    goto EXIT_ROUTINE;
+                }
+
                 int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
 
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 1591319..6af1c87 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1100,6 +1100,11 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (PyArray_ISBYTESWAPPED(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Index array must have the native byte order");
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 9cded3b..a157922 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -543,6 +543,10 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         PyErr_Format(PyExc_ValueError, "Sort cannot handle type %d\n", dtype);
         return NULL;
     }
+    if (PyArray_ISBYTESWAPPED(inArrValues)) {
+        PyErr_Format(PyExc_ValueError, "Sort: array must have the native byte order");
+        return NULL;
+    }
     int ndimValue;
     int64_t strideValue = 0;
 
-- 
2.43.0


From 3cae529c65c861868bdd73e6082e91fa99e023db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 26/46] fix: the getitem hook must leave subclasses and other
 mask shapes to numpy

---
 src/pnumpy/_pnumpy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 7ccbb27..638d28d 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1731,7 +1731,9 @@ PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
         int32_t numpyIndexType = PyArray_TYPE((PyArrayObject*)aIndex);
 
         PyObject* result = NULL;
-        if (numpyIndexType == NPY_BOOL) {
+        // a subclass or a mask of another shape is left to numpy
+        if (numpyIndexType == NPY_BOOL && Py_TYPE(aValues) == &PyArray_Type && Py_TYPE(aIndex) == &PyArray_Type &&
+            PyArray_SAMESHAPE((PyArrayObject*)aValues, (PyArrayObject*)aIndex)) {
             // special path for boolean
             result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
             if (result) {
-- 
2.43.0


From c52ba8fea29b4a668fd60b1665c6505b6cfb82bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 27/46] fix: recarray_to_colmajor raised a NameError

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From 3170087ed6da7cffa7bc3429aa480f5904540fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 28/46] fix: recarray_to_colmajor must copy strided and
 multidimensional records row by row

---
 src/pnumpy/recarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 53e9829..fc14412 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -35,6 +35,10 @@ def recarray_to_colmajor(item, parallel=True):
                 success = False
                 break;
 
+        # the parallel routine walks the rows one itemsize apart
+        if item.strides != (item.itemsize,):
+            success = False
+
         d={}
         if success and parallel:
             offsets=[]
-- 
2.43.0


From b3ebea1369b7d0d1ffc6ce5012b72e7dacf381fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 29/46] fix: a slot of the work ring must not be reused while
 it is still in use

---
 src/atop/sort.cpp      |  2 ++
 src/atop/threads.cpp   |  8 ++++++--
 src/atop/threads.h     | 46 ++++++++++++++++++++++++++++++++++++------
 src/pnumpy/_pnumpy.cpp |  3 +++
 4 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index c16ac2c..51b9793 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2057,6 +2057,7 @@ par_amergesort(
             pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
             if (pWorkSpace == NULL) {
+                THREADER->ReleaseWorkItem(pWorkItem);
                 return -1;
             }
 
@@ -2187,6 +2188,7 @@ par_sort(
         pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
         if (pWorkSpace == NULL) {
+            THREADER->ReleaseWorkItem(pWorkItem);
             return -1;
         }
 
diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index a006a98..e1f98cd 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -112,8 +112,11 @@ WorkerThreadFunction(void* lpParam)
         if (workIndex > workIndexCompleted) {
             stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
-            // check if the work was for our thread
-            if ((int64_t)core <= pWorkItem->ThreadWakeup) {
+            // keep the slot from being reused while we look at it
+            InterlockedIncrement64(&pWorkItem->Users);
+
+            // check if the work is still there and was for our thread
+            if (pWorkItem->WorkIndex == workIndex && (int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
                 didSomeWork = pWorkItem->DoWork(core, workIndex);
             }
@@ -121,6 +124,7 @@ WorkerThreadFunction(void* lpParam)
                 LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
 
             }
+            InterlockedAdd64(&pWorkItem->Users, -1);
         }
 
         // didSomeWork contains how many work items the thread completed
diff --git a/src/atop/threads.h b/src/atop/threads.h
index ae23b62..b155994 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -214,7 +214,7 @@ struct stMATH_WORKER_ITEM {
     };
 
     //=============== 64 BYTE =======================
-    int64_t             WorkIndex;
+    volatile int64_t    WorkIndex;
 
     // TotalElements is used on asymmetric last block
     int64_t             TotalElements;
@@ -241,6 +241,11 @@ struct stMATH_WORKER_ITEM {
     // When BlocksCompleted == BlockLast , the job is completed
     int64_t             BlocksCompleted;
 
+    //-----------------------------------------------
+    // Atomic access
+    // The caller owning this item plus the workers looking at it, 0 when the slot can be reused
+    volatile int64_t    Users;
+
     // Set to 0 to turn off.  Used to traverse arrays in zigzag pattern
     int32_t             ZigZag;
     int32_t             reserved1;
@@ -461,6 +466,8 @@ struct stWorkerRing {
             WorkerQueue[i].TotalElements = 0;
             WorkerQueue[i].BlockNext = 0;
             WorkerQueue[i].BlocksCompleted = 0;
+            WorkerQueue[i].WorkIndex = 0;
+            WorkerQueue[i].Users = 0;
         }
 
     }
@@ -469,12 +476,21 @@ struct stWorkerRing {
         pParams->Cancelled = 1;
     }
 
+    // Returns NULL if every slot is in use
     FORCE_INLINE stMATH_WORKER_ITEM* GetWorkItem() {
-        int64_t workIndex = InterlockedIncrement64(&MainWorkIndex);
-        stMATH_WORKER_ITEM* pWorkItem = &WorkerQueue[workIndex & RING_BUFFER_MASK];
-        pWorkItem->WorkIndex = workIndex;
-        pWorkItem->ZigZag = pParams->ZigZag;
-        return pWorkItem;
+        for (int64_t i = 0; i < RING_BUFFER_SIZE; i++) {
+            int64_t workIndex = InterlockedIncrement64(&MainWorkIndex);
+            stMATH_WORKER_ITEM* pWorkItem = &WorkerQueue[workIndex & RING_BUFFER_MASK];
+
+            // The ring wrapped around: skip a slot that another caller or a late worker still uses
+            if (InterlockedIncrement64(&pWorkItem->Users) == 1) {
+                pWorkItem->WorkIndex = workIndex;
+                pWorkItem->ZigZag = pParams->ZigZag;
+                return pWorkItem;
+            }
+            InterlockedAdd64(&pWorkItem->Users, -1);
+        }
+        return NULL;
     }
 
     // workIndex is the index published for the pool by SetWorkItem
@@ -576,6 +592,15 @@ struct stWorkerRing {
             }
         }
 
+        ReleaseWorkItem(pWorkItem);
+    }
+
+    //----------------------------------------------
+    // Gives back an item returned by GetWorkItem
+    FORCE_INLINE void ReleaseWorkItem(stMATH_WORKER_ITEM* pWorkItem) {
+        // Late workers will not find their index, after that the slot can be reused
+        pWorkItem->WorkIndex = 0;
+        InterlockedAdd64(&pWorkItem->Users, -1);
     }
 };
 
@@ -1074,6 +1099,15 @@ public:
         return NULL;
     }
 
+    //------------------------------------------------------------------------------
+    // Called from main thread
+    // Gives back a work item (may be NULL) which will not be passed to WorkMain
+    inline void ReleaseWorkItem(stMATH_WORKER_ITEM* pWorkItem) {
+        if (pWorkItem) {
+            pWorkerRings[0]->ReleaseWorkItem(pWorkItem);
+        }
+    }
+
     //------------------------------------------------------------------------------
     // Called from main thread
     // This function will divide up the work and wake up any worker threads
diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 638d28d..302e83e 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -679,6 +679,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             char* ip2 = args[1];
             char* op1 = args[0];
             if (!IsReduceThreadable(funcop)) {
+                THREADER->ReleaseWorkItem(pWorkItem);
                 pWorkItem = NULL;
             }
             if (!pWorkItem) {
@@ -779,6 +780,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             // accumulate: an output element is an input of the next iteration
             if (LoopFeedsItself(pInput1, steps[0], pOutput, steps[2], n) || LoopFeedsItself(pInput2, steps[1], pOutput, steps[2], n)) {
                 pBinaryFunc = NULL;
+                THREADER->ReleaseWorkItem(pWorkItem);
                 pWorkItem = NULL;
             }
 
@@ -851,6 +853,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // reduce or accumulate: an output element is an input of the next iteration
         if (LoopFeedsItself(args[0], steps[0], args[2], steps[2], n) || LoopFeedsItself(args[1], steps[1], args[2], steps[2], n)) {
             pBinaryFunc = NULL;
+            THREADER->ReleaseWorkItem(pWorkItem);
             pWorkItem = NULL;
         }
 
-- 
2.43.0


From 23ebb0a102d9de2560b4ff231d8705814b16cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 30/46] fix: unary functions on overlapping arrays must not be
 split over threads

---
 src/pnumpy/_pnumpy.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 302e83e..1390cbb 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -932,6 +932,12 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
         }
+        // numpy passes overlapping arrays when going through them in order gives the right answer
+        if (LoopFeedsItself(args[0], steps[0], args[1], steps[1], n)) {
+            pUnaryFunc = NULL;
+            THREADER->ReleaseWorkItem(pWorkItem);
+            pWorkItem = NULL;
+        }
         if (!pWorkItem) {
             // Threading not allowed
             if (g_Settings.AtopEnabled && pUnaryFunc) {
@@ -996,6 +1002,12 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
         }
+        // numpy passes overlapping arrays when going through them in order gives the right answer
+        if (LoopFeedsItself(args[0], steps[0], args[1], steps[1], n)) {
+            pUnaryFunc = NULL;
+            THREADER->ReleaseWorkItem(pWorkItem);
+            pWorkItem = NULL;
+        }
         if (!pWorkItem) {
             // Threading not allowed
             if (g_Settings.AtopEnabled && pUnaryFunc) {
-- 
2.43.0


From 484465219553ec8f6ac15c125772e8b5df0e2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 31/46] fix: in-place comparison of booleans computed its first
 elements twice

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From aeab2c0e894c1f12742e6e254bf66e4ecada27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:19 +0000
Subject: [PATCH 32/46] fix: float32 sin and cos lost all precision next to
 multiples of pi/2

---
 src/atop/avx_mathfun.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/atop/avx_mathfun.h b/src/atop/avx_mathfun.h
index 6ab7fec..2f01f2f 100644
--- a/src/atop/avx_mathfun.h
+++ b/src/atop/avx_mathfun.h
@@ -482,7 +482,10 @@ _PS256d_CONST(cephes_FOPI, 1.27323954473516); // 4 / M_PI
 
 _PS256_CONST(minus_cephes_DP1, -0.78515625f);
 _PS256_CONST(minus_cephes_DP2, -2.4187564849853515625e-4f);
-_PS256_CONST(minus_cephes_DP3, -3.77489497744594108e-8f);
+/* DP3 has few enough bits that j * DP3 is exact, DP4 is the rest of Pi/4: next to a multiple of Pi/2
+   the result is all that the subtractions leave over */
+_PS256_CONST(minus_cephes_DP3, -3.77476681023836136e-8f);
+_PS256_CONST(minus_cephes_DP4, -1.28167203412854481e-12f);
 _PS256_CONST(sincof_p0, -1.9515295891E-4f);
 _PS256_CONST(sincof_p1, 8.3321608736E-3f);
 _PS256_CONST(sincof_p2, -1.6666654611E-1f);
@@ -553,7 +556,7 @@ FORCE_INLINE static v8sf sin256_ps(v8sf x) {
     sign_bit = _mm256_xor_ps(sign_bit, swap_sign_bit);
 
     /* The magic pass: "Extended precision modular arithmetic" 
-        x = ((x - y * DP1) - y * DP2) - y * DP3; */
+        x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
     xmm1 = _ps256_minus_cephes_DP1;
     xmm2 = _ps256_minus_cephes_DP2;
     xmm3 = _ps256_minus_cephes_DP3;
@@ -563,6 +566,7 @@ FORCE_INLINE static v8sf sin256_ps(v8sf x) {
     x = _mm256_add_ps(x, xmm1);
     x = _mm256_add_ps(x, xmm2);
     x = _mm256_add_ps(x, xmm3);
+    x = _mm256_add_ps(x, _mm256_mul_ps(y, _ps256_minus_cephes_DP4));
 
     /* Evaluate the first polynom  (0 <= x <= Pi/4) */
     y = _ps256_coscof_p0;
@@ -630,7 +634,7 @@ FORCE_INLINE static v8sf cos256_ps(v8sf x) { // any x
     v8sf poly_mask = _mm256_castsi256_ps(imm2);
 
     /* The magic pass: "Extended precision modular arithmetic" 
-        x = ((x - y * DP1) - y * DP2) - y * DP3; */
+        x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
     xmm1 = _ps256_minus_cephes_DP1;
     xmm2 = _ps256_minus_cephes_DP2;
     xmm3 = _ps256_minus_cephes_DP3;
@@ -640,6 +644,7 @@ FORCE_INLINE static v8sf cos256_ps(v8sf x) { // any x
     x = _mm256_add_ps(x, xmm1);
     x = _mm256_add_ps(x, xmm2);
     x = _mm256_add_ps(x, xmm3);
+    x = _mm256_add_ps(x, _mm256_mul_ps(y, _ps256_minus_cephes_DP4));
   
     /* Evaluate the first polynom  (0 <= x <= Pi/4) */
     y = _ps256_coscof_p0;
@@ -717,7 +722,7 @@ FORCE_INLINE static void sincos256_ps(v8sf x, v8sf *s, v8sf *c) {
     v8sf poly_mask = _mm256_castsi256_ps(imm2);
 
     /* The magic pass: "Extended precision modular arithmetic" 
-        x = ((x - y * DP1) - y * DP2) - y * DP3; */
+        x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
     xmm1 = _ps256_minus_cephes_DP1;
     xmm2 = _ps256_minus_cephes_DP2;
     xmm3 = _ps256_minus_cephes_DP3;
@@ -727,6 +732,7 @@ FORCE_INLINE static void sincos256_ps(v8sf x, v8sf *s, v8sf *c) {
     x = _mm256_add_ps(x, xmm1);
     x = _mm256_add_ps(x, xmm2);
     x = _mm256_add_ps(x, xmm3);
+    x = _mm256_add_ps(x, _mm256_mul_ps(y, _ps256_minus_cephes_DP4));
 
     imm4 = _mm256_sub_epi32(imm4, _pi32_256_2);
     imm4 = _mm256_andnot_si256(imm4, _pi32_256_4);
-- 
2.43.0


From 2df450cea1d4748eafe71393e6d71becb9eb47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 33/46] fix: in-place sort of an unaligned or byte-swapped
 array crashed or sorted the wrong bytes

---
 src/pnumpy/_pnumpy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 1390cbb..7afaad0 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1091,8 +1091,9 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         // Make sure we can handle this
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
+                            // numpy sorts in place: pDest is the array itself or an aligned, native order copy of it
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From 5ce64dff00e651a244ebc3f86012376791ec1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 34/46] fix: lexsort left half floats unsorted and _pnumpy.sort
 ordered them by their bits

---
 src/atop/sort.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 51b9793..220ca29 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -199,6 +199,17 @@ HALF_LT(atop_half a, atop_half b)
     return ret;
 }
 
+// What the sort templates work on for half floats: the bits alone do not sort as integers
+struct HALF_ITEM {
+    atop_half bits;
+};
+FORCE_INLINE static bool operator<=(const HALF_ITEM& X, const HALF_ITEM& Y) {
+    return !atop_half_isnan(X.bits) && !atop_half_isnan(Y.bits) && !atop_half_lt_nonan(Y.bits, X.bits);
+}
+FORCE_INLINE static bool COMPARE_LT(HALF_ITEM X, HALF_ITEM Y) { return HALF_LT(X.bits, Y.bits); }
+FORCE_INLINE static HALF_ITEM* FIND_NANS(HALF_ITEM* pr, HALF_ITEM* pm)
+    { do { if (!atop_half_isnan((pr - 1)->bits)) return pr; --pr; } while (pm < pr); return pr; };
+
 //======================================
 // For one byte strings
 FORCE_INLINE static bool
@@ -2368,6 +2379,8 @@ static int SortIndex(
         return SortIndex<double, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_LONGDOUBLE:
         return SortIndex<long double, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
+    case ATOP_HALF_FLOAT:
+        return SortIndex<HALF_ITEM, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_UNICODE:
         mergeStepOne.argsortstringfunc = ParMergeString<const uint32_t*, UINDEX>;
         return par_amergesort<char, UINDEX>(pCutOffs, cutOffLength, (char*)pDataIn1, pDataOut1, arraySize1, strlen, PAR_SORT_TYPE::Unicode, mergeStepOne);
@@ -2444,7 +2457,7 @@ static SORT_FUNCTION GetSortFunction(void* pDataIn1, int64_t arraySize1, int32_t
     case ATOP_LONGDOUBLE:
         return SortInPlace<long double>(mode);
     case ATOP_HALF_FLOAT:
-        return SortInPlace<atop_half>(mode);
+        return SortInPlace<HALF_ITEM>(mode);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return NULL;
@@ -2516,7 +2529,7 @@ extern "C" int Sort(
     case ATOP_LONGDOUBLE:
         return par_sort<long double>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_HALF_FLOAT:
-        return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<HALF_ITEM>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
         return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction, ParInPlaceMergeString<unsigned char>);
     case ATOP_UNICODE:
-- 
2.43.0


From 44639b850341057eba30997bf216dcab5aa3e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 35/46] fix: pnumpy.sort(a, axis=None) returned the flattened
 array unsorted

---
 src/pnumpy/sort.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..aa7aa73 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -198,12 +198,6 @@ def sort(a, axis=-1, kind=None, order=None):
         # flatten returns (1, N) for np.matrix, so always use the last axis
         a = asanyarray(a).flatten()
         axis = -1
-        try:
-            # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
-        except Exception:
-            pass
     else:
         a = asanyarray(a).copy(order="K")
 
-- 
2.43.0


From 794b5d97863dcb4d7a42729cbd9c69ca428347e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 36/46] fix: lexsort of a zero-dimensional key crashed

---
 src/pnumpy/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 3b9f57c..275bffa 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -710,8 +710,9 @@ ArrayInfo* BuildArrayInfo(
                     goto EXIT_ROUTINE;
                 }
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
+                // a zero dimensional array has no strides
+                int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject*)inObject, 0) : itemSize;
 
                 // the stride of an array with at most one item is meaningless
                 if (aInfo[i].ArrayLength <= 1) {
-- 
2.43.0


From dfa485f991515b0e1b88a01280bde62293b5c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 37/46] fix: lexsort of a None key crashed

---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index a157922..b4ccd2f 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -392,7 +392,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
-            if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
+            if (!mlp.aInfo[i].pObject || atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
-- 
2.43.0


From 4dbbde936a60f148ef73ccebe2c3b50f4b5a4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 38/46] fix: boolean getitem must reject a mask of another
 shape

---
 src/pnumpy/getitem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 6af1c87..b43c129 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -262,6 +262,10 @@ BooleanIndexInternal(
         PyErr_Format(PyExc_ValueError, "Array lengths must match %lld vs %lld", lengthBool, lengthValue);
         return NULL;
     }
+    if (!PyArray_SAMESHAPE(aValues, aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Array shapes must match");
+        return NULL;
+    }
 
     int64_t* pChunkCount = NULL;
     int64_t    chunks = BooleanCount(aIndex, &pChunkCount);
-- 
2.43.0


From 57920e2eead608fce1fc2fe338a99607ba4883ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 39/46] fix: integer getitem of multi-dimensional arrays that
 are not C-contiguous returned other rows

---
 src/pnumpy/getitem.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b43c129..dfa5880 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1114,22 +1114,24 @@ getitem(PyObject* self, PyObject* args)
     int64_t strideValue = 0;
     int64_t strideIndex = 0;
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
+    GetStridesAndContig(aValues, ndimValue, strideValue);
+    GetStridesAndContig(aIndex, ndimIndex, strideIndex);
 
 
-    // This logic is not quite correct, if the strides on all dimensions are the same, we can use this routine
-    if (result1 != 0) {
+    // the items of several dimensions are taken in C order, which is the order in memory only when contiguous
+    if (ndimValue > 1) {
         if (!PyArray_ISCONTIGUOUS(aValues)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
         }
+        strideValue = PyArray_ITEMSIZE(aValues);
     }
-    if (result2 != 0) {
+    if (ndimIndex > 1) {
         if (!PyArray_ISCONTIGUOUS(aIndex)) {
             PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
             return NULL;
         }
+        strideIndex = PyArray_ITEMSIZE(aIndex);
     }
 
     if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
-- 
2.43.0


From 0280ed0002a0e0897e01488bedfea7df3bdd96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 40/46] fix: arange overwrote its first two items while other
 threads read them

---
 src/atop/fill.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..331eadd 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,8 +70,10 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // The first two values stay as numpy stored them: first + delta may be rounded,
+    // and other threads may yet have to read them
     // TOOD: vectorize this code
-    for (int64_t i = start; i < length; i++) {
+    for (int64_t i = start < 2 ? 2 : start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
     }
     // Path below is slower
-- 
2.43.0


From d4c81b0c295ae503fc6e1ec58b08ce0ed5894240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 41/46] fix: recarray_to_colmajor returned the bytes of other
 fields for zero-size fields

---
 src/pnumpy/recarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index fc14412..ae1ebe2 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -31,12 +31,13 @@ def recarray_to_colmajor(item, parallel=True):
         for t in list_types:
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-            if val == 'O' or val =='V':
+            # and numpy does not allocate arrays of zero sized items
+            if val == 'O' or val =='V' or t[0].itemsize == 0:
                 success = False
                 break;
 
         # the parallel routine walks the rows one itemsize apart
-        if item.strides != (item.itemsize,):
+        if item.itemsize == 0 or item.strides != (item.itemsize,):
             success = False
 
         d={}
-- 
2.43.0


From aa84aea4e304936b0eb02933296f4c3ddd6271f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 42/46] fix: recarray_to_colmajor returned an extra column for
 every field title

---
 src/pnumpy/recarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index ae1ebe2..48760a6 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -43,10 +43,12 @@ def recarray_to_colmajor(item, parallel=True):
         d={}
         if success and parallel:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
+            arrays=np.empty(len(item.dtype.names), dtype='O')
             arrlen = len(item)
             count =0
-            for name, v in item.dtype.fields.items():
+            # the fields may hold titles as well as names
+            for name in item.dtype.names:
+                v = item.dtype.fields[name]
                 offsets.append(v[1])
                 arr= np.empty(arrlen, dtype=v[0])
                 arrays[count] = arr
-- 
2.43.0


From 3c0028ea3f3e658f1235e45e4af5285ed3d55a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 43/46] fix: the ledger lost settings and operations of other
 threads

---
 src/pnumpy/_pnumpy.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 7afaad0..61d429f 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -347,12 +347,18 @@ stArangeFunc g_ArangeFuncLUT[ATOP_LAST];
 // set to 0 to disable
 stSettings g_Settings = { 1, 0, 0, 0, 0, 0, 0 };
 
+// Set while this thread times an operation, so that the call back to ourselves does the work.
+// The global setting is left alone: other threads may run operations or change it meanwhile.
+static thread_local bool g_LedgerTiming = false;
+
+#define LEDGER_IS_ON()    (g_Settings.LedgerEnabled && !g_LedgerTiming)
+
 // Macro used just before call a ufunc
-#define LEDGER_START()    g_Settings.LedgerEnabled = 0; int64_t ledgerStartTime = __rdtsc();
+#define LEDGER_START()    g_LedgerTiming = true; int64_t ledgerStartTime = __rdtsc();
 
 // Macro used just after ufunc call returns
-#define LEDGER_END(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
-#define LEDGER_END2(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
+#define LEDGER_END(_cat_) g_LedgerTiming = false; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
+#define LEDGER_END2(_cat_) g_LedgerTiming = false; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
 
 //------------------------------------------------------------------------------
 //  Concurrent callback from multiple threads
@@ -665,7 +671,7 @@ static BOOL LoopFeedsItself(const char* pInput, int64_t stepIn, const char* pOut
 // 2 inputs and 1 output
 static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
 
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
@@ -843,7 +849,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
 //=============================================================
 // All simple compare functions that we hook hit this routine
 static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
@@ -919,7 +925,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
 // For unary math functions like abs, sqrt
 // 1 input and 1 output
 static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_UnaryFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -989,7 +995,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
 // All trig and log like function that we hook hit this routine
 //
 static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_TrigFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -1072,7 +1078,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
     //if (!pArrayObject)
     //    printf("pArrayObject is null!\n");
     LOGGING("sort called %d %d   dest:%p  dest:%p\n", sortkind, atype, pDest, PyArray_BYTES((PyArrayObject*)pArrayObject));
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         stSortFunc* pSortFunc = &g_SortFuncLUT[sortkind][atype];
 
         if (g_Settings.AtopEnabled) {
@@ -1118,7 +1124,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
 // All argsort like functions that we hook hit this routine
 static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_intp length, void* pArrayObject, int sortkind, int atype) {
     LOGGING("argsort called %d %d   src:%p\n", sortkind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         stArgSortFunc* pArgSortFunc = &g_ArgSortFuncLUT[sortkind][atype];
         if (g_Settings.AtopEnabled) {
             PyArrayObject* pSrcObject = (PyArrayObject*)pArrayObject;
@@ -1164,7 +1170,7 @@ static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_int
 // All argminmax like functions that we hook hit this routine
 static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* something, void* pArrayObject, int kind, int atype) {
     LOGGING("argminmax called %d %d   src:%p\n", kind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         stArgMinMaxFunc* pArgMinMaxFunc = &g_ArgMinMaxFuncLUT[kind][atype];
         if (g_Settings.AtopEnabled) {
         }
@@ -1181,7 +1187,7 @@ static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* so
 // All arange like functions that we hook hit this routine
 static int AtopArangeMathFunction(void* pValue, npy_intp length, void* unused, int atype) {
     LOGGING("Arange called %d   src:%p\n", atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (!LEDGER_IS_ON()) {
         stArangeFunc* pArangeFunc = &g_ArangeFuncLUT[atype];
         if (g_Settings.AtopEnabled) {
             int itemsize = convert_atop_to_itemsize[atype];
-- 
2.43.0


From 67190535c0811a04396b4e116d7d340d63ba2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 44/46] fix: operations on booleans took every byte but 1 for a
 number

A boolean array may hold other bytes than 0 and 1 (a uint8 mask viewed as bool):
every byte but 0 is true, and numpy's results are 0 or 1.  and/or/xor/invert, add,
multiply and the minimum and maximum reductions worked on the bits of the bytes.
---
 src/atop/ops_binary.cpp | 38 ++++++++++++++++++++++++--------------
 src/atop/ops_unary.cpp  |  2 +-
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 2665792..b00a5a1 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -97,6 +97,10 @@ template<typename T> static const inline float FloorDivOp(float x, float y) { re
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
 template<typename T> static const inline T XorOp(T x, T y) { return x ^ y; }
 template<typename T> static const inline T OrOp(T x, T y) { return x | y; }
+// bool: any nonzero byte is True, and like numpy the result is 0 or 1
+static const inline int8_t BoolAndOp(int8_t x, int8_t y) { return x && y; }
+static const inline int8_t BoolXorOp(int8_t x, int8_t y) { return !x != !y; }
+static const inline int8_t BoolOrOp(int8_t x, int8_t y) { return x || y; }
 // NOTE: mimics intel intrinsic
 template<typename T> static const inline T AndNotOp(T x, T y) { return ~x & y; }
 
@@ -191,6 +195,12 @@ static const inline __m256i AND_OP_256(__m256i x, __m256i y) { return _mm256_and
 static const inline __m256i OR_OP_256(__m256i x, __m256i y) { return _mm256_or_si256(x, y); }
 static const inline __m256i XOR_OP_256(__m256i x, __m256i y) { return _mm256_xor_si256(x, y); }
 
+// For bools we have to clamp values to 1 or 0 using min_epu8
+static const inline __m256i BOOL_CLAMP_256(__m256i x) { return _mm256_min_epu8(x, _mm256_set1_epi8(1)); }
+static const inline __m256i BOOL_AND_OP_256(__m256i x, __m256i y) { return _mm256_and_si256(BOOL_CLAMP_256(x), BOOL_CLAMP_256(y)); }
+static const inline __m256i BOOL_OR_OP_256(__m256i x, __m256i y) { return BOOL_CLAMP_256(_mm256_or_si256(x, y)); }
+static const inline __m256i BOOL_XOR_OP_256(__m256i x, __m256i y) { return _mm256_xor_si256(BOOL_CLAMP_256(x), BOOL_CLAMP_256(y)); }
+
 // note: the andnot intrinsic is not symmetric, depending on the order it can also be notand.
 static const inline __m256i ANDNOT_OP_256(__m256i x, __m256i y) { return _mm256_andnot_si256(x, y); }
 
@@ -888,7 +898,7 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
     case BINARY_OPERATION::ADD:
         *wantedOutType = atopInType1;
         switch (*wantedOutType) {
-        case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, OrOp<int8_t>, OR_OP_256>;
+        case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolOrOp, BOOL_OR_OP_256>;
         case ATOP_FLOAT:  return SimpleMathOpFastSymmetric<float, __m256, AddOp<float>, ADD_OP_256f32>;
         case ATOP_DOUBLE: return SimpleMathOpFastSymmetric<double, __m256d, AddOp<double>, ADD_OP_256f64>;
             // proof of concept for i32 addition loop
@@ -902,7 +912,7 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
     case BINARY_OPERATION::MUL:
         *wantedOutType = atopInType1;
         switch (*wantedOutType) {
-        case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, AndOp<int8_t>, AND_OP_256>;
+        case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolAndOp, BOOL_AND_OP_256>;
         case ATOP_FLOAT:  return SimpleMathOpFastSymmetric<float, __m256, MulOp<float>, MUL_OP_256f32>;
         case ATOP_DOUBLE: return SimpleMathOpFastSymmetric<double, __m256d, MulOp<double>, MUL_OP_256f64>;
         case ATOP_INT32:  return SimpleMathOpFastSymmetric<int32_t, __m256i, MulOp<int32_t>, MUL_OP_256i32>;
@@ -986,7 +996,7 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
     case BINARY_OPERATION::LOGICAL_AND:
         
         switch (atopInType1) {
-        case ATOP_BOOL:   *wantedOutType = ATOP_BOOL; return SimpleMathOpFastSymmetric<int8_t, __m256i, AndOp<int8_t>, AND_OP_256>;
+        case ATOP_BOOL:   *wantedOutType = ATOP_BOOL; return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolAndOp, BOOL_AND_OP_256>;
         }
         return NULL;
 
@@ -995,9 +1005,9 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
         if (atopInType1 <= ATOP_UINT64) {
             *wantedOutType = atopInType1;
             switch (atopInType1) {
+            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolAndOp, BOOL_AND_OP_256>;
             case ATOP_INT8:
-            case ATOP_UINT8:
-            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, AndOp<int8_t>, AND_OP_256>;
+            case ATOP_UINT8:  return SimpleMathOpFastSymmetric<int8_t, __m256i, AndOp<int8_t>, AND_OP_256>;
             case ATOP_UINT16:
             case ATOP_INT16:  return SimpleMathOpFastSymmetric<int16_t, __m256i, AndOp<int16_t>, AND_OP_256>;
             case ATOP_UINT32:
@@ -1011,7 +1021,7 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
     case BINARY_OPERATION::LOGICAL_OR:
         
         switch (atopInType1) {
-        case ATOP_BOOL:   *wantedOutType = ATOP_BOOL; return SimpleMathOpFastSymmetric<int8_t, __m256i, OrOp<int8_t>, OR_OP_256>;
+        case ATOP_BOOL:   *wantedOutType = ATOP_BOOL; return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolOrOp, BOOL_OR_OP_256>;
         }
         return NULL;
 
@@ -1020,9 +1030,9 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
         if (atopInType1 <= ATOP_UINT64) {
             *wantedOutType = atopInType1;
             switch (atopInType1) {
+            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolOrOp, BOOL_OR_OP_256>;
             case ATOP_INT8:
-            case ATOP_UINT8:
-            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, OrOp<int8_t>, OR_OP_256>;
+            case ATOP_UINT8:  return SimpleMathOpFastSymmetric<int8_t, __m256i, OrOp<int8_t>, OR_OP_256>;
             case ATOP_UINT16:
             case ATOP_INT16:  return SimpleMathOpFastSymmetric<int16_t, __m256i, OrOp<int16_t>, OR_OP_256>;
             case ATOP_UINT32:
@@ -1038,9 +1048,9 @@ ANY_TWO_FUNC GetSimpleMathOpFast(int func, int atopInType1, int atopInType2, int
         if (atopInType1 <= ATOP_UINT64) {
             *wantedOutType = atopInType1;
             switch (atopInType1) {
+            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, BoolXorOp, BOOL_XOR_OP_256>;
             case ATOP_INT8:
-            case ATOP_UINT8:
-            case ATOP_BOOL:   return SimpleMathOpFastSymmetric<int8_t, __m256i, XorOp<int8_t>, XOR_OP_256>;
+            case ATOP_UINT8:  return SimpleMathOpFastSymmetric<int8_t, __m256i, XorOp<int8_t>, XOR_OP_256>;
             case ATOP_UINT16:
             case ATOP_INT16:  return SimpleMathOpFastSymmetric<int16_t, __m256i, XorOp<int16_t>, XOR_OP_256>;
             case ATOP_UINT32:
@@ -1076,7 +1086,7 @@ REDUCE_FUNC GetReduceMathOpFast(int func, int atopInType1) {
     // The reduce for ADD is SUM
     case BINARY_OPERATION::ADD:
         switch (atopInType1) {
-        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, OrOp<int8_t>, OR_OP_256>;
+        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, BoolOrOp, BOOL_OR_OP_256>;
         //case ATOP_FLOAT:  return ReduceMathOpFast<float, __m256, AddOp<float>, ADD_OP_256f32>;
         // internal upcast support for increased accuracy with float32
         case ATOP_FLOAT:  return ReduceMathOpFastUpcast<float, double, __m256, __m256d, AddOp<double>, ADD_OP_256f64>;
@@ -1091,7 +1101,7 @@ REDUCE_FUNC GetReduceMathOpFast(int func, int atopInType1) {
     // The reduce for MUL is PROD
     case BINARY_OPERATION::MUL:
         switch (atopInType1) {
-        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, AndOp<int8_t>, AND_OP_256>;
+        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, BoolAndOp, BOOL_AND_OP_256>;
         //case ATOP_FLOAT:  return ReduceMathOpFast<float, __m256, MulOp<float>, MUL_OP_256f32>;
         // internal upcast support for increased accuracy with float32
         case ATOP_FLOAT:  return ReduceMathOpFastUpcast<float, double, __m256, __m256d, MulOp<double>, MUL_OP_256f64>;
@@ -1104,7 +1114,7 @@ REDUCE_FUNC GetReduceMathOpFast(int func, int atopInType1) {
 
     case BINARY_OPERATION::MIN:
         switch (atopInType1) {
-        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, MinOp<int8_t>, MIN_OP_256i8>;
+        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, BoolAndOp, BOOL_AND_OP_256>;
         // Numpy handles nan differently, if found it will return nan
         //case ATOP_FLOAT:  return ReduceMathOpFast<float, __m256, MinOp<float>, MIN_OP_256f32>;
         //case ATOP_DOUBLE: return ReduceMathOpFast<double, __m256d, MinOp<double>, MIN_OP_256f64>;
@@ -1120,7 +1130,7 @@ REDUCE_FUNC GetReduceMathOpFast(int func, int atopInType1) {
 
     case BINARY_OPERATION::MAX:
         switch (atopInType1) {
-        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, MaxOp<int8_t>, MAX_OP_256i8>;
+        case ATOP_BOOL:   return ReduceMathOpFast<int8_t, __m256i, BoolOrOp, BOOL_OR_OP_256>;
         // Numpy handles nan differently, if found it will return nan
         //case ATOP_FLOAT:  return ReduceMathOpFast<float, __m256, MaxOp<float>, MAX_OP_256f32>;
         //case ATOP_DOUBLE: return ReduceMathOpFast<double, __m256d, MaxOp<double>, MAX_OP_256f64>;
diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index d960f45..1f9471d 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -195,7 +195,7 @@ template<typename T> static const inline T FLOATSIGN_OP(T x) { return x > (T)(0.
 template<typename T> static const inline T NEG_OP(T x) { return -x; }
 template<typename T> static const inline T BITWISE_NOT_OP(T x) { return ~x; }
 template<typename T> static const inline T INVERT_OP(T x) { return ~x; }
-template<typename T> static const inline T INVERT_OP_BOOL(int8_t x) { return x ^ 1; }
+template<typename T> static const inline T INVERT_OP_BOOL(int8_t x) { return !x; }
 
 template<typename T> static const inline bool NOT_OP(T x) { return (bool)(x == (T)0); }
 
-- 
2.43.0


From 258973bc1fbedbef6042a479a34b648e4e7c9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 45/46] fix: sort compared the bytes of booleans through bool

With bytes other than 0 and 1 the compiler may assume neither, and the order of
np.sort of booleans was not the one of numpy.
---
 src/atop/sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 220ca29..1d6a6c9 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2433,7 +2433,7 @@ extern "C" int SortIndex64(
 static SORT_FUNCTION GetSortFunction(void* pDataIn1, int64_t arraySize1, int32_t atype, SORT_MODE mode) {
     switch (atype) {
     case ATOP_BOOL:
-        return SortInPlace<bool>(mode);
+        return SortInPlace<uint8_t>(mode);
     case ATOP_INT8:
         return SortInPlace<int8_t>(mode);
     case ATOP_INT16:
@@ -2505,7 +2505,7 @@ extern "C" int Sort(
 
     switch (atype) {
     case ATOP_BOOL:
-        return par_sort<bool>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<uint8_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_INT8:
         return par_sort<int8_t>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_INT16:
-- 
2.43.0


From 31727ad96e755da9cab97672e0e0464c85ceb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:21 +0000
Subject: [PATCH 46/46] fix: argmin, argmax, argsort and searchsorted raised
 NameError for objects which wrap results

---
 src/pnumpy/sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index aa7aa73..d25d47d 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -21,7 +21,7 @@ def _wrapit(obj, method, *args, **kwds):
         wrap = None
     result = getattr(asarray(obj), method)(*args, **kwds)
     if wrap:
-        if not isinstance(result, mu.ndarray):
+        if not isinstance(result, np.ndarray):
             result = asarray(result)
         result = wrap(result)
     return result
-- 
2.43.0

