From 5671ee94bf43012c379c34e42dd9a4bbc4cc1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 001/108] verification hook: selectable GC schedule, guarded by
 NUJEL_VERIFY_GC

---
 lib/allocator.c          | 21 +++++++++++++++++++++
 lib/garbage-collection.c | 17 +++++++++++++++++
 lib/nujel-private.h      | 18 ++++++++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..7aab6f9 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -6,6 +6,25 @@
 
 bool lGCShouldRunSoon = false;
 
+#ifdef NUJEL_VERIFY_GC
+/* Verification hook, never compiled in by default: asks for a collection after
+ * every NUJEL_VERIFY_GC_EVERY heap allocations (0 or unset means never), so that
+ * a harness is able to explore many different GC schedules.
+ */
+void lVerifyGCTick(){
+	static long every = -1;
+	static long count = 0;
+	if(every < 0){
+		const char *env = getenv("NUJEL_VERIFY_GC_EVERY");
+		every = env ? atol(env) : 0;
+	}
+	if(every > 0 && ++count >= every){
+		count = 0;
+		lGCShouldRunSoon = true;
+	}
+}
+#endif
+
 #define defineAllocator(T, typeMax) \
 T T##List[typeMax]; \
 uint T##Max = 0; \
@@ -22,9 +41,11 @@ T * T##AllocRaw (){\
 		}\
 	}else{\
 		ret = T ## FFree;\
+		lVerifyUnpoison(ret, sizeof(T));\
 		(T##FFree) = ret->nextFree;\
 	}\
 	if(unlikely((typeMax - (++T##Active) < 128))){lGCShouldRunSoon = true;} \
+	lVerifyGCTick();\
 	T##MarkMap[ret - T##List] = 0;\
 	memset(ret,0,sizeof(T));\
 	return ret;\
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index a105907..397909a 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -255,6 +255,20 @@ static void lGCSweep(){
 	#undef defineAllocator
 }
 
+#ifdef NUJEL_VERIFY_GC
+/* Verification hook: makes ASan report every access to a freed heap cell */
+static void lVerifyGCPoison(){
+	#define defineAllocator(T, TMAX) \
+	for(uint i=0;i < T##Max;i++){\
+		if(T##MarkMap[i] & 2){\
+			lVerifyPoison(&T##List[i], sizeof(T));\
+		}\
+	}
+	allocatorTypes()
+	#undef defineAllocator
+}
+#endif
+
 /* Force a garbage collection cycle, shouldn't need to be called manually since
  * when the heap is exhausted the GC is run */
 void lGarbageCollect(lThread *ctx){
@@ -263,5 +277,8 @@ void lGarbageCollect(lThread *ctx){
 	lThreadGCMark(ctx);
 
 	lGCSweep();
+#ifdef NUJEL_VERIFY_GC
+	lVerifyGCPoison();
+#endif
 	lGCShouldRunSoon = false;
 }
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..66747a8 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -303,6 +303,24 @@ void lGarbageCollect(lThread *ctx);
 #define TRE_MAX (1<<18)
 #define CON_MAX (1<<18)
 
+/* Verification hooks, only ever enabled by a verification harness: NUJEL_VERIFY_GC
+ | lets one choose the GC schedule and, with ASan, poisons freed heap cells.
+ */
+#ifdef NUJEL_VERIFY_GC
+void lVerifyGCTick();
+#else
+#define lVerifyGCTick() ((void)0)
+#endif
+#if defined(NUJEL_VERIFY_GC) && defined(__SANITIZE_ADDRESS__)
+void __asan_poison_memory_region(void const volatile *addr, size_t size);
+void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
+#define lVerifyPoison(p, len)   __asan_poison_memory_region((p), (len))
+#define lVerifyUnpoison(p, len) __asan_unpoison_memory_region((p), (len))
+#else
+#define lVerifyPoison(p, len)   ((void)0)
+#define lVerifyUnpoison(p, len) ((void)0)
+#endif
+
 #define allocatorTypes() \
 	defineAllocator(lArray, ARR_MAX) \
 	defineAllocator(lClosure, CLO_MAX) \
-- 
2.43.0


From ac3403edb0e1cbf066d8bc22e136a939c9bdf737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 002/108] fix: compare numbers exactly: no overflow, equal
 floats are equal, no rounding to single precision

---
 lib/val.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..beba35e 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,25 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
+}
+
+/* Compares A and B without losing precision, the sign of the result is that of
+ | the mathematical difference between the two.
+ */
+static inline i64 lIntFloatGreater(const i64 a, const double b) {
+	if(b >= 9223372036854775808.0){
+		return -1;
+	}
+	if(b < -9223372036854775808.0){
+		return 1;
+	}
+	const i64 bi = (i64)b;
+	if(a != bi){
+		return a < bi ? -1 : 1;
+	}
+	const double rest = b - (double)bi;
+	return rest > 0.0 ? -1 : rest < 0.0 ? 1 : 0;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
@@ -44,17 +62,9 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
-				? -1
-				: (((float)a.vInt) > b.vFloat)
-				  ? 1
-				  : 0;
+			return lIntFloatGreater(a.vInt, b.vFloat);
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
-				? -1
-				: (a.vFloat > ((float)b.vInt))
-				  ? 1
-				  : 0;
+			return -lIntFloatGreater(b.vInt, a.vFloat);
 		}
 		return 0;
 	}
@@ -62,9 +72,9 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return (a.vInt > b.vInt) - (a.vInt < b.vInt);
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return (a.vFloat > b.vFloat) - (a.vFloat < b.vFloat);
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
@@ -77,9 +87,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return lIntFloatGreater(a.vInt, b.vFloat) == 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return lIntFloatGreater(b.vInt, a.vFloat) == 0;
 		}
 		return false;
 	}
-- 
2.43.0


From cf567a38189daf0b6e9500d5e903c8403319e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 003/108] fix: inline arithmetic divides in double precision
 and rejects NaN/Inf like the functions do

---
 lib/vm.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..40c0abb 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -103,6 +103,14 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	}\
 } while(0)
 
+#define lFloatResult(v) do {\
+	const lVal floatResult = lValFloat(v);\
+	if(unlikely(floatResult.type == ltException)){\
+		lThrow(floatResult);\
+	}\
+	ctx.valueStack[ctx.sp] = floatResult;\
+} while(0)
+
 #define lThrow(v) do {\
 	exceptionThrownValue = v;\
 	goto throwException;\
@@ -218,15 +226,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt += b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
+				lFloatResult(b.vFloat + a.vInt);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
+				lFloatResult(a.vFloat + b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
+				lFloatResult(a.vFloat + b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			}
@@ -244,7 +252,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt -= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
+				lFloatResult(a.vInt - b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -252,9 +260,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
+				lFloatResult(a.vFloat - b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
+				lFloatResult(a.vFloat - b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -274,7 +282,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt *= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
+				lFloatResult(a.vInt * b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -282,9 +290,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
+				lFloatResult(a.vFloat * b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
+				lFloatResult(a.vFloat * b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -302,13 +310,13 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
+				lVal r = lValFloat((double)a.vInt / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
+				lVal r = lValFloat((double)a.vInt / b.vFloat);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
@@ -326,7 +334,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
+				const lVal r = lValFloat(a.vFloat / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
-- 
2.43.0


From 785a64f032c55c022568ef280cb0879c4a605b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 004/108] fix: division by zero and of the smallest integer by
 -1 must not kill the process

---
 lib/arithmetic.c | 6 +++---
 lib/vm.c         | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..57fe546 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,7 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -191,14 +191,14 @@ static lVal lnfDivAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	return lValInt((b.vInt == -1) ? (i64)(0 - (u64)a.vInt) : a.vInt / b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
diff --git a/lib/vm.c b/lib/vm.c
index 40c0abb..f8f5d32 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -356,7 +356,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL));
+				}
+				ctx.valueStack[ctx.sp].vInt = (b.vInt == -1) ? 0 : a.vInt % b.vInt;
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From b043e637384f8ba2c26c3c01833f9f2792c35796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 005/108] fix: bit shifts give the same result compiled inline
 and called as a function

---
 lib/arithmetic.c |  8 ++------
 lib/vm.c         | 14 +++++++-------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 57fe546..7edd8aa 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -236,17 +236,13 @@ static lVal lnfPopCount(lVal a){
 static lVal lnfAsh(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt((u64)a.vInt << (b.vInt & 63));
 }
 
 static lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(a.vInt >> (b.vInt & 63));
 }
 
 static lVal lnfAbs(lVal t){
diff --git a/lib/vm.c b/lib/vm.c
index f8f5d32..f6b325c 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -390,31 +390,31 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		}
 		vmbreak; }
 
-#define vmBinaryIntegerOp(OP) do{\
+#define vmBinaryIntegerOp(EXPR) do{\
 	const lVal a = ctx.valueStack[ctx.sp-1];\
 	const lVal b = ctx.valueStack[ctx.sp];\
 	ctx.sp--;\
 	if(likely((a.type == ltInt) && (b.type == ltInt))){\
-		ctx.valueStack[ctx.sp].vInt = a.vInt OP b.vInt;\
+		ctx.valueStack[ctx.sp].vInt = (EXPR);\
 	} else {\
 		lThrow(lValExceptionNonNumeric(b));\
 	}\
 	} while(0)
 
 	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
+		vmBinaryIntegerOp((u64)a.vInt << (b.vInt & 63));
 		vmbreak;
 	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
+		vmBinaryIntegerOp(a.vInt >> (b.vInt & 63));
 		vmbreak;
 	vmcase(lopBitAnd)
-		vmBinaryIntegerOp(&);
+		vmBinaryIntegerOp(a.vInt & b.vInt);
 		vmbreak;
 	vmcase(lopBitOr)
-		vmBinaryIntegerOp(|);
+		vmBinaryIntegerOp(a.vInt | b.vInt);
 		vmbreak;
 	vmcase(lopBitXor)
-		vmBinaryIntegerOp(^);
+		vmBinaryIntegerOp(a.vInt ^ b.vInt);
 		vmbreak;
 
 	vmcase(lopBitNot)
-- 
2.43.0


From 8ddbdb9b39ec5ff032e21d11c9c1e950d1983ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 006/108] fix: integer pow is exact instead of going through a
 double

---
 lib/arithmetic.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 7edd8aa..ddd9267 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -142,6 +142,29 @@ static lVal lnfRem(lVal a, lVal b){
 	}
 }
 
+/* Integer exponentiation by squaring, wraps around just like * does */
+static lVal lIntPow(i64 base, i64 exponent){
+	if(unlikely(exponent < 0)){
+		switch(base){
+		case 0:
+			return lValException(lSymDivisionByZero, "Can't divide by zero", lValInt(base));
+		case 1:
+			return lValInt(1);
+		case -1:
+			return lValInt((exponent & 1) ? -1 : 1);
+		default:
+			return lValInt(0);
+		}
+	}
+	u64 ret = 1;
+	for(u64 v = base; exponent > 0; exponent >>= 1, v *= v){
+		if(exponent & 1){
+			ret *= v;
+		}
+	}
+	return lValInt(ret);
+}
+
 static lVal lnfPow(lVal a, lVal b){
 	if(unlikely(b.type == ltNil)){return a;}
 	if(unlikely(a.type == ltNil)){
@@ -154,7 +177,7 @@ static lVal lnfPow(lVal a, lVal b){
 	case ltInt:
 		reqInt(a);
 		reqInt(b);
-		return lValInt(pow(a.vInt, b.vInt));
+		return lIntPow(a.vInt, b.vInt);
 	case ltFloat: {
 		lVal av = requireFloat(a);
 		if(unlikely(av.type == ltException)){
-- 
2.43.0


From 119e3262e5d1254a8c98115304e523edd903d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 007/108] fix: printing a negative number in binary or octal
 throws like hex does instead of never returning

---
 stdlib/string/printer.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 68999a4..60fcb82 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -9,6 +9,7 @@
       (def ret "")
       (when (or (not α) (zero? α))
         (return "0"))
+      (when (< α 0) (exception :type-error "Can't print negative numbers in binary for now" α ))
       (while (not-zero? α)
              (set! ret (cat (from-char-code (+ #\0 (bit-and α #b1))) ret))
              (set! α (bit-shift-right α 1)))
@@ -19,6 +20,7 @@
       (def ret "")
       (when (or (not α) (zero? α))
         (return "0"))
+      (when (< α 0) (exception :type-error "Can't print negative numbers in octal for now" α ))
       (while (not-zero? α)
              (set! ret (cat (from-char-code (+ #\0 (bit-and α #b111))) ret))
              (set! α (bit-shift-right α 3)))
-- 
2.43.0


From e3df19734a28ef4d63cf4ed23a87a9d86cdadbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 008/108] fix: printing floats of more than 31 characters
 overflowed a stack buffer

---
 lib/core-operators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..a805392 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -141,7 +141,7 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[384]; // %f needs up to 309 digits before the decimal point
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
 	if(snret < 0){
 		return lValException(lSymIOError, "Unprintable flonum", a);
-- 
2.43.0


From 9d1be036689ee85fd7e8930df4b3ba96e3e5a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 009/108] fix: the reader read past the end of its input

---
 lib/reader.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..9c03d1c 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -534,9 +534,19 @@ static lVal lReadValue(lReadContext *s){
 	}
 }
 
+/* The reader looks ahead by a couple of characters, so it works on a copy of STR
+ | that is followed by enough zeroes to make that safe.
+ */
 lVal lRead(const char *str, size_t len){
+	char *buf = calloc(len + 8, 1);
+	if(unlikely(buf == NULL)){
+		return lValException(lSymOOM, "OOM during read", NIL);
+	}
+	memcpy(buf, str, len);
 	lReadContext ctx;
-	ctx.buf = ctx.data = str;
-	ctx.bufEnd = &str[len];
-	return lReadList(&ctx, true, ')');
+	ctx.buf = ctx.data = buf;
+	ctx.bufEnd = &buf[len];
+	const lVal ret = lReadList(&ctx, true, ')');
+	free(buf);
+	return ret;
 }
-- 
2.43.0


From 39130ddf549a66bc78b94eb5310f22a8af9cdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 010/108] fix: read errors within arrays, trees and quotes
 ended up as values or crashed

---
 lib/reader.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 9c03d1c..302b7d6 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -396,12 +396,29 @@ static lVal lParseSpecial(lReadContext *s){
 		return NIL;
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
-	case '#':
+	case '#':{
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Expected an opening parenthesis after ##");
+		}
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		const lVal list = lReadList(s, false, ')');
+		if(unlikely(list.type == ltException)){
+			return list;
+		}
+		return lnfArrNew(list); }
 	case '@':{
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Expected an opening parenthesis after #@");
+		}
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
+		const lVal list = lReadList(s,false,')');
+		if(unlikely(list.type == ltException)){
+			return list;
+		}
+		lVal ret = lnfTreeNew(list);
+		if(unlikely(ret.type == ltException)){
+			return ret;
+		}
 		if(ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
@@ -470,7 +487,17 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 }
 
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	const lVal v = lReadValue(s);
+	return unlikely(v.type == ltException)
+		? v
+		: lCons(lValSymS(carSym), lCons(v, NIL));
+}
+
+static lVal lReadListLiteral(lReadContext *s, lSymbol *carSym, char terminator){
+	const lVal list = lReadList(s, false, terminator);
+	return unlikely(list.type == ltException)
+		? list
+		: lCons(lValSymS(carSym), list);
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -487,10 +514,10 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		return lReadListLiteral(s, symArr, ']');
 	case '{':
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		return lReadListLiteral(s, symTreeNew, '}');
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
-- 
2.43.0


From 3d9427e30c84533cd1e4b4a21ff87aaf7c93eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 011/108] fix: arrays created with a #nil element overflowed
 their storage

---
 lib/array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..e022223 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -26,13 +26,13 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	return self;
 }
 
-/* Return the length of the list V */
+/* Return the length of the list V, (#nil) is how an empty list literal gets read */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
-	return i;
+	return ((i == 1) && (v.vList->car.type == ltNil)) ? 0 : i;
 }
 
 lVal lnfArrNew(lVal v){
-- 
2.43.0


From 11962f0171f498d40149001cbd80e3f8c7559bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 012/108] fix: shrinking an array to length 0 left it pointing
 to freed memory, huge lengths overflowed

---
 lib/array.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index e022223..9ef687c 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -4,6 +4,8 @@
 #include "nujel-private.h"
 #endif
 
+#define ARRAY_LENGTH_MAX 0x7FFFFFFE
+
 static lVal lnmArrayLength(lVal self){
 	return lValInt(self.vArray->length);
 }
@@ -13,9 +15,8 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	lVal *newData = length > ARRAY_LENGTH_MAX ? NULL : realloc(arr->data, (length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
@@ -66,11 +67,10 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
-	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
-	if(unlikely(size.vInt && (r.vArray->data == NULL))){
+	if(unlikely(size.vInt > ARRAY_LENGTH_MAX)){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
 	}
-	return r;
+	return lValAlloc(ltArray, lArrayAlloc(size.vInt));
 }
 
 static lVal lnmArrayHas(lVal self, lVal index){
-- 
2.43.0


From 9953af213836d4ee92a752885b604e403f122788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 013/108] fix: indices beyond 32 bit were truncated instead of
 being out of bounds

---
 lib/generic.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..316bb2b 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -45,22 +45,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
 			col = lCdr(col);
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -163,8 +163,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +175,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From 0fcc5c1364a1cccc7c6892b6acb273e22c926e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 014/108] fix: set! modified immutable buffers and buffer views

---
 lib/generic.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/generic.c b/lib/generic.c
index 316bb2b..383041a 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -182,6 +182,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		reqMutableBuffer(col);
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
@@ -195,6 +196,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		buf[i] = v.vInt;
 		return col; }
 	case ltBufferView:
+		if(unlikely(col.vBufferView->flags & BUFFER_VIEW_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable buffer-views", col);
+		}
 		reqNaturalInt(key);
 		return lBufferViewSet(col, key.vInt, v);
 	case ltLambda:
-- 
2.43.0


From 08554a529d8affdca918b22b5bb900e2afa35c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 015/108] fix: buffer lengths beyond 32 bit were truncated,
 growing an empty buffer by nothing freed its storage

---
 lib/allocator.c |  2 +-
 lib/buffer.c    | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 7aab6f9..c9a4056 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -84,7 +84,7 @@ lBuffer *lBufferAlloc(size_t length, bool immutable){
 	if(immutable){
 		ret->flags = BUFFER_IMMUTABLE;
 	}else{
-		ret->buf = calloc(length, 1);
+		ret->buf = calloc(length + 1, 1);
 	}
 	return ret;
 }
diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..990fe6f 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -31,9 +31,18 @@ size_t lBufferViewLength(const lBufferView *v){
 	return v->length * lBufferViewTypeSize(v->type);
 }
 
+#define BUFFER_LENGTH_MAX 0x7FFFFFFE
+
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt > BUFFER_LENGTH_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	if(unlikely(buf->buf == NULL)){
+		buf->length = 0;
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -133,11 +142,11 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
-	const int length = newLength.vInt;
+	const i64 length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
-	void *nBuf = realloc(buf->buf, length);
+	void *nBuf = length > BUFFER_LENGTH_MAX ? NULL : realloc(buf->buf, length + 1);
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
 	}
-- 
2.43.0


From 4fd74642a009a6e3029968d56534b644f2470f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 016/108] fix: buffer/copy and buffer->string accessed memory
 outside of the buffer for odd offsets

---
 lib/buffer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 990fe6f..51bbec2 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -62,9 +62,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -77,17 +77,17 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((length > vSrc.vBuffer->length) || (destOffset > (aDest.vBuffer->length - length)))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
-	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
+	memmove(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
 	return aDest;
 }
 
 static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	reqBuffer(a);
 	const i64 length = MIN(a.vBuffer->length, castToInt(aLength, a.vBuffer->length));
-	i64 offset = aOffset.type == ltInt ? aOffset.vInt : 0;
+	i64 offset = aOffset.type == ltInt ? MAX(0, aOffset.vInt) : 0;
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
-- 
2.43.0


From 9123910c322fd92e28fe113e18c78e0f7141e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 017/108] fix: index-of and last-index-of searched outside of
 the string and stopped at zero bytes

---
 lib/string.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 6c5036c..edae511 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -103,9 +103,9 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	 */
 	if(needleLength <= 0){return lValInt(pos);}
 
-	for(const char *s = &haystack[pos]; *s != 0; s++){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+	for(i64 i = MAX(0, pos); i <= haystackLength - needleLength; i++){
+		if(memcmp(&haystack[i], needle, needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
@@ -122,9 +122,9 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	if(needleLength <= 0){return lValInt(-1);}
 	const i64 pos = castToInt(start, haystackLength - needleLength);
 
-	for(const char *s = &haystack[pos]; s >= haystack; s--){
-		if(strncmp(s,needle,needleLength)){continue;}
-		return lValInt(s-haystack);
+	for(i64 i = MIN(pos, haystackLength - needleLength); i >= 0; i--){
+		if(memcmp(&haystack[i], needle, needleLength)){continue;}
+		return lValInt(i);
 	}
 	return lValInt(-1);
 }
-- 
2.43.0


From 69cf7c7a4b9c2df06e777160c6941f21ee39eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 018/108] fix: cut overflowed for extremely small stop
 positions

---
 lib/buffer.c | 2 +-
 lib/string.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 51bbec2..a739f3a 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -174,7 +174,7 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vBuffer);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (stop.type == ltInt) ? MAX(0, stop.vInt) : len) - off;
 
 	if(unlikely(len <= 0)){
 		return lnfBufferAllocate(lValInt(0));
diff --git a/lib/string.c b/lib/string.c
index edae511..dd76cb6 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -80,7 +80,7 @@ static lVal lnmStringCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vString);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (stop.type == ltInt) ? MAX(0, stop.vInt) : len) - off;
 
 	if(unlikely(len <= 0)){return lValString("");}
 	return lValStringLen(&buf[off], len);
-- 
2.43.0


From f5c62d869cd662f32901191ba4425c7c480bdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 019/108] fix: reading a file modified immutable buffer views
 while writing one to a file was refused

---
 lib/buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index a739f3a..bbee2f9 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -19,11 +19,12 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
-- 
2.43.0


From 3cc18403f7935f903db000f0c85336f7bf364fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 020/108] fix: file/read*, file/write* and file/tell* did not
 validate their offset and handle

---
 bin/port.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..fe2eb7b 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -122,7 +122,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || (offset > bufSize) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesRead < size){
@@ -164,6 +164,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
+	if((offset < 0) || (offset > bufSize)){
+		return lValException(lSymTypeError, "Offset is outside of that buffer", contentV);
+	}
 	if(size < 0){
 		size = bufSize - offset;
 	}
@@ -188,6 +191,7 @@ static lVal lnfFileFlush(lVal aHandle){
 }
 
 static lVal lnfFileTell(lVal aHandle){
+	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
 	return lValInt(pos);
 }
-- 
2.43.0


From b9d03adf0dcf153d18ddcdf729d3169ccfa6413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 021/108] fix: opening a file for output with :error truncated
 existing files

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index fe2eb7b..c2ddab7 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){return lValBool(false);}
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From 75041d2b1942e2d48f015a1c8c42f7d50bd23e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 022/108] fix: reading a character at the end of a file
 returned the previous one again

---
 stdlib/string/portng.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 723c567..87acd0a 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -175,8 +175,8 @@
   (defn char-read (self char)
         (when (file/eof*? self.handle)
           (return :end-of-file))
-        (when-not (file/read* self.handle self.temp-buffer 1)
-                  (return :end-of-file))
+        (when (zero? (file/read* self.handle self.temp-buffer 1))
+          (return :end-of-file))
         (ref self.temp-buffer 0))
 
   (defn raw! (self)
-- 
2.43.0


From 6d6dfdbb280ddcc4fb2c6cb958ad163de30401ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 023/108] fix: lines longer than 128 characters could not be
 read, single characters could not be written to a port

---
 stdlib/string/portng.nuj | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 87acd0a..3f58d3b 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -34,8 +34,9 @@
       (def c 0)
       (def view (:u8 buf))
       (while #t
-             (while (>= i (:length buf))
-                    (:length! (+ 128 (:length buf))))
+             (when (>= i (:length buf))
+               (:length! buf (+ 128 (:length buf)))
+               (set! view (:u8 buf)))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
@@ -96,7 +97,7 @@
 
   (defn char-write (self char)
         (set! self.temp-buffer 0 char)
-        (file/write* self.handle temporary-buffer 1))
+        (file/write* self.handle self.temp-buffer 1))
 
   (defn close! (self)
         (file/close* self.handle))
-- 
2.43.0


From 360f3f2d89a59b9298451ee84bbf418bb776ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 024/108] fix: slurp returns #nil for unreadable files, as
 documented

---
 binlib/io.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..14b10f5 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -80,7 +80,8 @@
 
 (defn slurp (pathname)
       "Read the entirety of PATHNAME and return it as a string if possible, otherwise return #nil."
-      (buffer->string (slurp/buffer pathname)))
+      (def buf (slurp/buffer pathname))
+      (when buf (buffer->string buf)))
 (def file/read slurp)
 
 (defn spit (pathname content)
-- 
2.43.0


From 68624ddb88c6bd61c450c06472da703f5cf9af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 025/108] fix: writing a string stopped at the first zero byte

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 60fcb82..c5bd862 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -115,7 +115,7 @@
                        (dotimes (i (:length v))
                          (def c (ref v i))
                          (case c
-                               (0 (return (:block-write port "\"")))
+                               (0 (:block-write port "\\0"))
                                (#x07 (:block-write port "\\a"))
                                (#x08 (:block-write port "\\b"))
                                (#x09 (:block-write port "\\t"))
-- 
2.43.0


From 9ef49933aaa0359cb721c6a7ea182fe877d51988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 026/108] fix: string literals longer than 4095 bytes contained
 a byte of garbage

---
 lib/reader.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 302b7d6..21508a4 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -103,7 +103,7 @@ static lVal lParseString(lReadContext *s){
 			if(buf == NULL){
 				exit(21);
 			}
-			b = &buf[i];
+			b = &buf[i-1];
 		}
 		if(unlikely(*s->data == '\\')){
 			s->data++;
@@ -149,17 +149,13 @@ static lVal lParseString(lReadContext *s){
 			s->data++;
 			return lValAlloc(ltString, lStringNew(buf,b-buf));
 		}else if(unlikely(*s->data == 0)){
-			if (likely(i < bufSize)) {
-				buf[i] = 0;
-			}
+			*b = 0;
 			return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 		}else{
 			*b++ = *s->data++;
 		}
 	}
-	if (likely(i < bufSize)) {
-		buf[i] = 0;
-	}
+	*b = 0;
 	return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 }
 
-- 
2.43.0


From 8127ed3a6b810e527d32a0492f11f98804649611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 027/108] fix: fractions with many nines were read ten times
 too small, floats are now rounded correctly

---
 lib/reader.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 21508a4..2e09455 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -6,6 +6,7 @@
 #endif
 
 #include <ctype.h>
+#include <inttypes.h>
 #include <limits.h>
 
 #define isparen(v) (((v) == '(') || ((v) == ')'))
@@ -53,9 +54,13 @@ static lVal lValExceptionReaderEnd(lReadContext *s, const char *start, const cha
 }
 
 static double createFloat(i64 value, i64 mantissa, i64 mantissaLeadingZeroes){
-	if(mantissa == 0){return value;}
-	const double mant = mantissa * pow(10, -(floor(log10(mantissa)) + 1 + mantissaLeadingZeroes));
-	return value + mant;
+	char buf[512];
+	if((mantissa == 0) || (mantissaLeadingZeroes > 400)){return value;}
+	int len = snprintf(buf, sizeof(buf), "%" PRId64 ".", value);
+	memset(&buf[len], '0', mantissaLeadingZeroes);
+	len += mantissaLeadingZeroes;
+	snprintf(&buf[len], sizeof(buf) - len, "%" PRId64, mantissa);
+	return strtod(buf, NULL);
 }
 
 static void lStringAdvanceToNextCharacter(lReadContext *s){
-- 
2.43.0


From e660d2c8836071ebb6cd752988d80ba00647bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 028/108] fix: a block comment ending right after a nested one
 was not terminated

---
 lib/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 2e09455..13568e6 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -80,13 +80,15 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 
 static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
 	const char *end = s->bufEnd-1;
-	for(;(s->data < end);s->data++){
+	while(s->data < end){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
 			s->data+=2;
 			lStringAdvanceUntilEndOfBlockComment(s);
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
 			s->data+=2;
 			return;
+		}else{
+			s->data++;
 		}
 	}
 }
-- 
2.43.0


From 42223f9236d4cd7ab73601c4aa5bff45702127e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 029/108] fix: symbols that are too long were split in two,
 quotes and dots before a closing parenthesis read as an empty symbol

---
 lib/reader.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 13568e6..99e9ed7 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -224,6 +224,9 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			s->data--;
 			break;
 		}
+		if(unlikely(i >= sizeof(((lSymbol *)NULL)->c) - 1)){
+			return lValExceptionReaderEnd(s, start, "Symbol too long");
+		}
 		buf[i] = c;
 	}
 	return lFinishSymbol(s, i, buf, start, keyword, refVal);
@@ -461,10 +464,10 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				s->data++;
 				lVal nv;
 				do {
+					lStringAdvanceToNextCharacter(s);
 					if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || (*s->data == ')'))){
 						return lValExceptionReader(s, "Missing cdr in dotted pair");
 					}
-					lStringAdvanceToNextCharacter(s);
 					nv = lReadValue(s);
 					if(unlikely(nv.type == ltException)){
 						return nv;
@@ -510,6 +513,10 @@ static lVal lReadValue(lReadContext *s){
 	const char c = *s->data;
 
 	switch(c){
+	case ')':
+	case ']':
+	case '}':
+		return lValExceptionReader(s, "Unmatched closing char");
 	case 0:
 		return NIL;
 	case '(':
-- 
2.43.0


From 6f7c91d019fe360c5f48af87f4f537f0ec094dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 030/108] fix: symbols that are no longer used were not
 collected before the symbol table ran full

---
 lib/symbol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..75133da 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -213,6 +213,9 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
+	if(firstTomb != 0xffffffff){
+		return firstTomb;
+	}
 	exit(111);
 	return 0;
 }
@@ -234,7 +237,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely((SYM_MAX - (++lSymbolActive)) < 128)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From e138fa7610774350043c3ce5e1d58f5b3459569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 031/108] fix: collect garbage early enough for natives that
 allocate more than 128 values at once

---
 lib/allocator.c          |  3 ++-
 lib/garbage-collection.c | 11 +++++++++++
 lib/nujel-private.h      |  2 ++
 lib/symbol.c             |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index c9a4056..1246c77 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -29,6 +29,7 @@ void lVerifyGCTick(){
 T T##List[typeMax]; \
 uint T##Max = 0; \
 uint T##Active = 0; \
+uint T##Threshold = typeMax / 2; \
 T * T##FFree = NULL; \
 T * T##AllocRaw (){\
 	T *ret;\
@@ -44,7 +45,7 @@ T * T##AllocRaw (){\
 		lVerifyUnpoison(ret, sizeof(T));\
 		(T##FFree) = ret->nextFree;\
 	}\
-	if(unlikely((typeMax - (++T##Active) < 128))){lGCShouldRunSoon = true;} \
+	if(unlikely(++T##Active >= T##Threshold)){lGCShouldRunSoon = true;} \
 	lVerifyGCTick();\
 	T##MarkMap[ret - T##List] = 0;\
 	memset(ret,0,sizeof(T));\
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index 397909a..31ee19c 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -255,6 +255,16 @@ static void lGCSweep(){
 	#undef defineAllocator
 }
 
+/* Natives can allocate a lot before the next collection is possible, so ask for
+ * it while half of what is currently free is still available.
+ */
+static void lGCUpdateThresholds(){
+	#define defineAllocator(T, TMAX) T##Threshold = T##Active + (TMAX - T##Active) / 2;
+	allocatorTypes()
+	defineAllocator(lSymbol, SYM_MAX)
+	#undef defineAllocator
+}
+
 #ifdef NUJEL_VERIFY_GC
 /* Verification hook: makes ASan report every access to a freed heap cell */
 static void lVerifyGCPoison(){
@@ -277,6 +287,7 @@ void lGarbageCollect(lThread *ctx){
 	lThreadGCMark(ctx);
 
 	lGCSweep();
+	lGCUpdateThresholds();
 #ifdef NUJEL_VERIFY_GC
 	lVerifyGCPoison();
 #endif
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 66747a8..a5b90f1 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -335,6 +335,7 @@ void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
 extern T T##List[typeMax]; \
 extern uint T##Max;	   \
 extern uint T##Active; \
+extern uint T##Threshold; \
 extern u8 T##MarkMap[typeMax]; \
 extern T * T##FFree; \
 T * T##AllocRaw();
@@ -361,6 +362,7 @@ static inline int lNFuncID(const lNFunc *n){
 extern lSymbol  lSymbolList [SYM_MAX];
 extern lSymbol *lSymbolFFree;
 extern uint     lSymbolActive;
+extern uint     lSymbolThreshold;
 extern uint     lSymbolMax;
 
 extern lSymbol *symType;
diff --git a/lib/symbol.c b/lib/symbol.c
index 75133da..38814f7 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -9,6 +9,7 @@
 lSymbol  lSymbolList[SYM_MAX];
 uint     lSymbolActive = 0;
 uint     lSymbolMax    = 0;
+uint     lSymbolThreshold = SYM_MAX / 2;
 lSymbol *lSymbolFFree = NULL;
 
 // a hash index over the symbol array.  It is essentially a sparse map such that
@@ -237,7 +238,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	if(unlikely((SYM_MAX - (++lSymbolActive)) < 128)){lGCShouldRunSoon = true;}
+	if(unlikely(++lSymbolActive >= lSymbolThreshold)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From 45fe725a015da79088b2f5705cf1fcefa7e14867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 032/108] fix: names longer than a symbol can store were
 interned multiple times

---
 lib/symbol.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/symbol.c b/lib/symbol.c
index 38814f7..e53475e 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -222,6 +222,13 @@ uint lSymbolIndexSlot(const char *str){
 }
 
 lSymbol *lSymS(const char *str){
+	char buf[sizeof(((lSymbol *)NULL)->c)];
+	if(unlikely(strlen(str) >= sizeof(buf))){
+		// Only what can be stored may take part in the lookup
+		memcpy(buf, str, sizeof(buf) - 1);
+		buf[sizeof(buf) - 1] = 0;
+		str = buf;
+	}
 	uint slot = lSymbolIndexSlot(str);
 	int symIndex = lSymbolIndex[slot];
 	if(SYMBOL_SLOT_IS_USED(symIndex)){
-- 
2.43.0


From b3c602b298f08eb17247c1415a925c9e848c476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 033/108] fix: throwing a list appended the stacktrace to the
 thrown list itself

---
 lib/vm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index f6b325c..771828e 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -62,6 +62,15 @@ static void lBytecodeEnsureSufficientStack(lThread *ctx){
 	}
 }
 
+/* Return a copy of the list V, sharing the elements */
+static lVal lCopyList(lVal v){
+	lVal ret = lCons(v.vList->car, v.vList->cdr);
+	for(lPair *t = ret.vList; t->cdr.type == ltPair; t = t->cdr.vList){
+		t->cdr = lCons(t->cdr.vList->car, t->cdr.vList->cdr);
+	}
+	return ret;
+}
+
 static lVal stackTrace(const lThread *ctx){
 	lVal ret = NIL;
 	for(int i=0;i<=ctx->csp;i++){
@@ -626,6 +635,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
+			v = lCopyList(v); // The stacktrace gets appended, v might be a literal
 			v.type = ltException;
 		}
 		exceptionThrownValue = v;
-- 
2.43.0


From 032ffb151f4261f135b550fab61d7f7788cff985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 034/108] fix: calls with many arguments or nested scopes
 overflowed the VM stacks

---
 lib/vm.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 771828e..b4680c0 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -44,18 +44,22 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 	return ret;
 }
 
-static void lBytecodeEnsureSufficientStack(lThread *ctx){
+/* Every op pushes at most one value/closure (and most take more than one byte),
+ * so the size of the bytecode is an upper bound for what a function might need. */
+static void lBytecodeEnsureSufficientStack(lThread *ctx, const lBytecodeArray *ops){
+	const int sizeNeeded = 32 + (int)(ops->dataEnd - ops->data);
+
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < sizeNeeded)){
+		ctx->closureStackSize += MAX(512, sizeNeeded);
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < sizeNeeded)){
+		ctx->valueStackSize += MAX(512, sizeNeeded);
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -217,6 +221,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx, text);
 
 	ip = ops->data;
 
@@ -672,7 +677,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		case ltLambda:
 			c = ctx.closureStack[++ctx.csp] = lClosureNewFunCall(cargs, fun);
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break;
 		case ltNativeFunc: {
@@ -742,7 +747,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		c->text = bc.vBytecodeArr;
 		c->ip = c->text->data;
 		lRestoreFromClosure();
-		lBytecodeEnsureSufficientStack(&ctx);
+		lBytecodeEnsureSufficientStack(&ctx, ops);
 		lGarbageCollectIfNecessary();
 
 		vmbreak; }
@@ -785,7 +790,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				break;
 			}
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break; }
 		case ltNativeFunc: {
@@ -850,7 +855,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			c = ctx.closureStack[ctx.csp];
 
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break;
 		case ltNativeFunc: {
-- 
2.43.0


From af3976287efb95a91c52a3b09071320c61a6565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 035/108] fix: trees with the same contents but another
 insertion order were not equal?

---
 stdlib/collections/tree.nuj | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/stdlib/collections/tree.nuj b/stdlib/collections/tree.nuj
index eb3abcc..edd511a 100644
--- a/stdlib/collections/tree.nuj
+++ b/stdlib/collections/tree.nuj
@@ -30,14 +30,8 @@
       "Compares two trees for equality"
       (if (and (tree? a)
                (tree? b))
-          (and (= (:key* a)
-                  (:key* b))
-               (equal? (:value* a)
-                       (:value* b))
-               (tree/equal? (:left* a)
-                            (:left* b))
-               (tree/equal? (:right* a)
-                            (:right* b)))
+          (and (list/equal? (:keys a) (:keys b))
+               (list/equal? (:values a) (:values b)))
           (equal? a b)))
 
 (defn tree/reduce (l o s)
-- 
2.43.0


From 090567c911dd132cc7dc35e1e3649b05252053fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 036/108] fix: a handled exception left the handler on the
 stack, breaking try as an argument

---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index b4680c0..9a8cd55 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -629,14 +629,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From 31b8aee29bfba587beec7e79d4efda09721c8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 037/108] fix: the /int functions used the bits of any value as
 an integer, unlike the inlined ops

---
 lib/arithmetic.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index ddd9267..1fe1c47 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -192,25 +192,31 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
@@ -218,6 +224,8 @@ static lVal lnfDivAstI(lVal a, lVal b){
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-- 
2.43.0


From 8ecf59ffd2491a8cc668284ae646cce1e40cd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 038/108] fix: inline inc/int and rem behaved differently from
 the functions of the same name

---
 lib/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index 9a8cd55..176ecf2 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -401,6 +401,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(unlikely(a.type != ltNil)){
 			lThrow(lValExceptionNonNumeric(b));
+		} else {
+			ctx.valueStack[ctx.sp] = b;
 		}
 		vmbreak; }
 
@@ -601,6 +603,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionNonNumeric(ctx.valueStack[ctx.sp]));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From dbc96d341d2dd030516df955243adb4a0e027fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 039/108] fix: the literals 0.0 and -0.0 were merged into one
 within a function

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 7bf7393..634f940 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -448,7 +448,9 @@
                  (defn assemble/add-literal (lit lit-arr)
                        (when (>= (:length lit-arr) 65535)
                          (exception :out-of-bounds "Can only store up to 255 literals per bytecode-arr" code))
-                       (when (not= (:type-name lit) :pair)
+                       ; 0.0 and -0.0 are =, but they are not the same literal
+                       (when-not (or (= (:type-name lit) :pair)
+                                     (and (= (:type-name lit) :float) (= lit 0.0)))
                          (dotimes (i (:length lit-arr))
                            (when (equal? (ref lit-arr i) lit)
                              (return (literal-index->bytecode-op i)))))
-- 
2.43.0


From ed7ccd12b86e4c1e9350ac8960d07bac19d44188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 040/108] fix: odd? was false for negative odd numbers

---
 stdlib/core/predicates.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/predicates.nuj b/stdlib/core/predicates.nuj
index 6564935..6d6489e 100644
--- a/stdlib/core/predicates.nuj
+++ b/stdlib/core/predicates.nuj
@@ -22,7 +22,7 @@
 
 (defn odd? (a)
       "Predicate that returns #t if a is odd"
-      (= (rem (int a) 2) 1))
+      (not= (mod/int (int a) 2) 0))
 
 (defn even? (a)
       "Predicate that returns #t if a is even"
-- 
2.43.0


From b9212f10d4168a611affd3cf778ff7d0b966a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 041/108] fix: lists of nils were equal? to atoms

---
 stdlib/collections/lists.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index 8cf4b7d..cdb7ea7 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -112,7 +112,7 @@
 
 (defn list/equal? (a b)
       "#t if A and B are equal"
-      (if (pair? a)
+      (if (and (pair? a) (pair? b))
           (and (list/equal? (car a) (car b))
                (list/equal? (cdr a) (cdr b)))
           (equal? a b)))
-- 
2.43.0


From 7179b6391bedd8f6cabc22d3d5e71bdc8ed629c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 042/108] fix: trees got unbalanced, the heights were wrong
 after a right rotation

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..5e61b84 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From 4e85609fb05fa21ef071280c1dc051f43b3cdadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 043/108] fix: fmt precisions were used as a width, and only
 worked together with the d specifier

---
 stdlib/string/fmt.nuj    | 4 +++-
 stdlib/string/string.nuj | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/string/fmt.nuj b/stdlib/string/fmt.nuj
index b8212e7..a18a826 100644
--- a/stdlib/string/fmt.nuj
+++ b/stdlib/string/fmt.nuj
@@ -47,7 +47,9 @@
                                                 (:cut spec 0 (- (:length spec) 1))))
                            (#\> (fmt/parse-spec (set! opts :align :right)
                                                 (:cut spec 0 (- (:length spec) 1))))
-                           (#\. (fmt/parse-spec (set! opts :precision (ref opts :width))
+                           (#\. (fmt/parse-spec (-> (set! opts :precision (ref opts :width))
+                                                    (set! :width #nil)
+                                                    (set! :padding-char " "))
                                                 (:cut spec 0 (- (:length spec) 1))))
                            (otherwise (exception :format-error "Unknown form-spec option" spec)))))
 
diff --git a/stdlib/string/string.nuj b/stdlib/string/string.nuj
index 0414123..7985fce 100644
--- a/stdlib/string/string.nuj
+++ b/stdlib/string/string.nuj
@@ -106,6 +106,7 @@
 
 (defn string/round (text decimal-digits)
       "Round the floating point representation in TEXT to have at most DECIMAL-DIGITS after the period"
+      (when-not (string? text) (set! text (:string text)))
       (def pos (:last-index-of text "."))
       (if (>= pos 0)
           (:cut text 0 (+ pos 1 decimal-digits))
-- 
2.43.0


From 75a4dc7fdb6c26e3590161287188dd68125cb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 044/108] fix: padding with an empty string never returned

---
 stdlib/string/string.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/string/string.nuj b/stdlib/string/string.nuj
index 7985fce..1711ee1 100644
--- a/stdlib/string/string.nuj
+++ b/stdlib/string/string.nuj
@@ -15,7 +15,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "pad-start needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not= "" padding))
              (set! text (cat padding text)))
       (if (> (:length text) pad-length)
           (:cut text (- (:length text) pad-length) (:length text))
@@ -33,7 +33,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "pad-end needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not= "" padding))
              (set! text (cat text padding)))
       (if (> (:length text) pad-length)
           (:cut text 0 pad-length)
@@ -50,7 +50,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "string/pad-middle needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not= "" padding))
              (set! text (cat padding text padding)))
       (if (> (:length text) pad-length)
           (let ((end-overflow (div/int (- (:length text) pad-length) 2))
-- 
2.43.0


From 7f3c34987ae19a1fdf0ca7f11d0a292a2b814d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 045/108] fix: the children of an immutable tree could be used
 to modify it

---
 lib/tree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/tree.c b/lib/tree.c
index 5e61b84..33985c0 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -189,14 +189,21 @@ static lVal lnmTreeValueAst(lVal self) {
 	return tree ? tree->value : NIL;
 }
 
+/* Return CHILD as a tree of its own, which is just as immutable as its PARENT */
+static lVal lTreeChild(const lTree *parent, lTree *child) {
+	if(child == NULL){return NIL;}
+	child->flags |= parent->flags & TREE_IMMUTABLE;
+	return lValTree(child);
+}
+
 static lVal lnmTreeLeftAst(lVal self) {
 	lTree* tree = self.vTree->root;
-	return (tree && tree->left) ? lValTree(tree->left) : NIL;
+	return tree ? lTreeChild(tree, tree->left) : NIL;
 }
 
 static lVal lnmTreeRightAst(lVal self) {
 	lTree* tree = self.vTree->root;
-	return (tree && tree->right) ? lValTree(tree->right) : NIL;
+	return tree ? lTreeChild(tree, tree->right) : NIL;
 }
 
 static lVal lnmTreeValues(lVal self) {
-- 
2.43.0


From b20282d9cfcc483732197788c14c93844038147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 046/108] fix: the reader overflowed the C stack for deep
 nesting, leaked comments after quotes and dropped values before a second cdr

---
 lib/reader.c | 85 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 99e9ed7..6a830c9 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -16,8 +16,11 @@
 #define isnonsymbol(v) (isparen(v)||isbracket(v)||isbrace(v)||((v)=='#')||((v)=='\'')||((v)=='\"')||((v)=='`')||((v)==';'))
 #define isnumericseparator(v) (((v)=='_') || ((v)==','))
 
+#define READ_DEPTH_MAX 4096
+
 typedef struct {
 	const char *buf, *bufEnd, *data;
+	int depth;
 } lReadContext;
 
 static inline bool isComment(lVal v){
@@ -29,6 +32,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadDatum(lReadContext *s);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
 static lVal lValExceptionReaderCustom(lReadContext *s, const char *msg, const lSymbol *customError){
@@ -80,13 +84,14 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 
 static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
 	const char *end = s->bufEnd-1;
+	int depth = 1;
 	while(s->data < end){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
 			s->data+=2;
-			lStringAdvanceUntilEndOfBlockComment(s);
+			depth++;
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
 			s->data+=2;
-			return;
+			if(--depth == 0){return;}
 		}else{
 			s->data++;
 		}
@@ -218,6 +223,9 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			}
 		}
 		if(c == '.'){
+			if(unlikely(++s->depth > READ_DEPTH_MAX)){
+				return lValExceptionReader(s, "Too deeply nested");
+			}
 			return lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
 		}
 		if((c == 0) || isspace((u8)c) || isnonsymbol(c)){
@@ -434,6 +442,7 @@ static lVal lParseSpecial(lReadContext *s){
 
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
+	bool dotted = false;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
 
@@ -462,18 +471,15 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 					return lValExceptionReader(s, "Missing car in dotted pair");
 				}
 				s->data++;
-				lVal nv;
-				do {
-					lStringAdvanceToNextCharacter(s);
-					if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || (*s->data == ')'))){
-						return lValExceptionReader(s, "Missing cdr in dotted pair");
-					}
-					nv = lReadValue(s);
-					if(unlikely(nv.type == ltException)){
-						return nv;
-					}
-				} while(isComment(nv));
-				v.vList->cdr = isComment(nv) ? NIL : nv;
+				const lVal nv = lReadDatum(s);
+				if(unlikely(nv.type == ltException)){
+					return nv;
+				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "Multiple dots in dotted pair");
+				}
+				v.vList->cdr = nv;
+				dotted = true;
 				continue;
 			}else{
 				lVal nv = lReadValue(s);
@@ -481,6 +487,9 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				if(unlikely(nv.type == ltException)){
 					return nv;
 				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "Multiple cdrs in dotted pair");
+				}
 				if(v.type == ltNil){
 					v = ret = lCons(nv, NIL);
 				}else{
@@ -492,8 +501,28 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	}
 }
 
+/* Read the next value, which may be preceded by whitespace and comments, but has to exist. */
+static lVal lReadDatum(lReadContext *s){
+	while(1){
+		lStringAdvanceToNextCharacter(s);
+		if(unlikely((s->data >= s->bufEnd) || (*s->data == 0))){
+			return lValExceptionReader(s, "Expected another value");
+		}
+		if(*s->data == ';'){
+			lStringAdvanceToNextLine(s);
+			continue;
+		}
+		const u8 next = s->data[1];
+		if(unlikely((*s->data == '.') && (isspace(next) || isnonsymbol(next)))){
+			return lValExceptionReader(s, "Unexpected dot");
+		}
+		const lVal v = lReadValue(s);
+		if(!isComment(v)){return v;}
+	}
+}
+
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	const lVal v = lReadValue(s);
+	const lVal v = lReadDatum(s);
 	return unlikely(v.type == ltException)
 		? v
 		: lCons(lValSymS(carSym), lCons(v, NIL));
@@ -506,7 +535,7 @@ static lVal lReadListLiteral(lReadContext *s, lSymbol *carSym, char terminator){
 		: lCons(lValSymS(carSym), list);
 }
 
-static lVal lReadValue(lReadContext *s){
+static lVal lReadValueRaw(lReadContext *s){
 	if(unlikely(s->data >= s->bufEnd)){
 		return NIL;
 	}
@@ -550,19 +579,10 @@ static lVal lReadValue(lReadContext *s){
 			return NIL;
 		}else if(*s->data == ';'){
 			++s->data;
-			if((s->data < s->bufEnd) && (*s->data == '(')){
-				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
-			}else{
-				lReadValue(s);
-				return lValComment();
-			}
+			const lVal v = lReadDatum(s);
+			return unlikely(v.type == ltException) ? v : lValComment();
 		}
 		return lParseSpecial(s);
-	case ';':
-		lStringAdvanceToNextLine(s);
-		return lReadValue(s);
 	default:
 		if((isdigit((u8)c)) || ((c == '-') && isdigit(((u8 *)s->data)[1]))){
 			return lParseNumber(s, 10, 18);
@@ -571,6 +591,16 @@ static lVal lReadValue(lReadContext *s){
 	}
 }
 
+static lVal lReadValue(lReadContext *s){
+	const int depth = s->depth;
+	if(unlikely(++s->depth > READ_DEPTH_MAX)){
+		return lValExceptionReader(s, "Too deeply nested");
+	}
+	const lVal ret = lReadValueRaw(s);
+	s->depth = depth;
+	return ret;
+}
+
 /* The reader looks ahead by a couple of characters, so it works on a copy of STR
  | that is followed by enough zeroes to make that safe.
  */
@@ -583,6 +613,7 @@ lVal lRead(const char *str, size_t len){
 	lReadContext ctx;
 	ctx.buf = ctx.data = buf;
 	ctx.bufEnd = &buf[len];
+	ctx.depth = 0;
 	const lVal ret = lReadList(&ctx, true, ')');
 	free(buf);
 	return ret;
-- 
2.43.0


From 9b32c7373fcf176abd6e24596e7ff1696d51fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 047/108] fix: printing a dotted pair ending in #f lost the #f

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index c5bd862..813c57e 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -98,7 +98,7 @@
                          (return (write/raw (cadr v) port hr?)))
                        (:block-write port "(")
                        (def first? #f)
-                       (while v
+                       (while (not (nil? v))
                          (if first?
                              (:block-write port " ")
                              (set! first? #t))
-- 
2.43.0


From aad6096e531df8d3dc88a70b1b85fb75d47cf97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 048/108] fix: arrays containing a single #nil were read and
 created empty

---
 lib/array.c  | 4 ++--
 lib/reader.c | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 9ef687c..f02d75f 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -27,13 +27,13 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	return self;
 }
 
-/* Return the length of the list V, (#nil) is how an empty list literal gets read */
+/* Return the length of the list V */
 static int lListLength(lVal v){
 	int i = 0;
 	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
-	return ((i == 1) && (v.vList->car.type == ltNil)) ? 0 : i;
+	return i;
 }
 
 lVal lnfArrNew(lVal v){
diff --git a/lib/reader.c b/lib/reader.c
index 6a830c9..ce8997a 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -21,6 +21,7 @@
 typedef struct {
 	const char *buf, *bufEnd, *data;
 	int depth;
+	bool empty; // Whether there was nothing within the last list, since that reads as (#nil)
 } lReadContext;
 
 static inline bool isComment(lVal v){
@@ -419,7 +420,7 @@ static lVal lParseSpecial(lReadContext *s){
 		if(unlikely(list.type == ltException)){
 			return list;
 		}
-		return lnfArrNew(list); }
+		return lnfArrNew(s->empty ? NIL : list); }
 	case '@':{
 		if(unlikely(*s->data != '(')){
 			return lValExceptionReader(s, "Expected an opening parenthesis after #@");
@@ -452,6 +453,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReaderCustom(s, "Unmatched opening bracket", lSymUnmatchedOpeningBracket);
 			}
 			s->data++;
+			s->empty = ret.type == ltNil;
 			return ret.type == ltNil ? lCons(NIL,NIL) : ret;
 		}else if(c == ';'){
 			lStringAdvanceToNextLine(s);
@@ -461,6 +463,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReader(s, "Unmatched closing bracket");
 			}
 			s->data++;
+			s->empty = ret.type == ltNil;
 			return ret.type == ltNil ? lCons(NIL, NIL) : ret;
 		}else if(unlikely(isClosingChar(c))){
 			return lValExceptionReader(s, "Unmatched closing char");
@@ -532,7 +535,7 @@ static lVal lReadListLiteral(lReadContext *s, lSymbol *carSym, char terminator){
 	const lVal list = lReadList(s, false, terminator);
 	return unlikely(list.type == ltException)
 		? list
-		: lCons(lValSymS(carSym), list);
+		: lCons(lValSymS(carSym), s->empty ? NIL : list);
 }
 
 static lVal lReadValueRaw(lReadContext *s){
@@ -614,6 +617,7 @@ lVal lRead(const char *str, size_t len){
 	ctx.buf = ctx.data = buf;
 	ctx.bufEnd = &buf[len];
 	ctx.depth = 0;
+	ctx.empty = false;
 	const lVal ret = lReadList(&ctx, true, ')');
 	free(buf);
 	return ret;
-- 
2.43.0


From ecd97f621e330c994c8e2198ecf0687919b0f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 049/108] fix: let and let* without bindings compiled their
 single body form wrongly

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 2e06f23..d3adeb2 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -167,7 +167,7 @@
 
                     (defn bytecompile/let*  (source env)
                           (list ($let)
-                                (bytecompile/do (cadr source) env)
+                                (bytecompile/do/form (cdr source) env)
                                 ($closure/pop)))
 
                     (defn bytecompile/return (source env)
-- 
2.43.0


From 250915d4f1336d1d7910a3fb09ed88f26b5b5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 050/108] fix: cond stopped at a clause whose predicate is a
 literal #f or #nil

---
 stdlib/core/flow.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/flow.nuj b/stdlib/core/flow.nuj
index ee9b977..0ae4dae 100644
--- a/stdlib/core/flow.nuj
+++ b/stdlib/core/flow.nuj
@@ -43,7 +43,7 @@
 
 (defn cond/fn (body)
       :internal
-      (when (and body (caar body))
+      (when body
                 (list 'if
                       (caar body)
                       (cons 'do (cdar body))
-- 
2.43.0


From 205fb5d7650bcc3e6c1e50ccadca27e8b078f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 051/108] verification hook: change the GC schedule while
 running

---
 lib/allocator.c      | 34 +++++++++++++++++++++++++++-------
 lib/core-operators.c |  4 ++++
 lib/nujel-private.h  |  1 +
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 1246c77..9444c2b 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -9,20 +9,40 @@ bool lGCShouldRunSoon = false;
 #ifdef NUJEL_VERIFY_GC
 /* Verification hook, never compiled in by default: asks for a collection after
  * every NUJEL_VERIFY_GC_EVERY heap allocations (0 or unset means never), so that
- * a harness is able to explore many different GC schedules.
+ * a harness is able to explore many different GC schedules. (verify/gc-every n)
+ * changes the interval while running, with a negative N the distances are
+ * pseudo-random and at most -N.
  */
+static long lVerifyGCEvery = -1;
+static long lVerifyGCNext = 0;
+static unsigned long lVerifyGCRandom = 1;
+
+static void lVerifyGCSchedule(){
+	lVerifyGCNext = lVerifyGCEvery;
+	if(lVerifyGCEvery < -1){
+		lVerifyGCRandom = lVerifyGCRandom * 6364136223846793005UL + 1442695040888963407UL;
+		lVerifyGCNext = 1 + (lVerifyGCRandom >> 33) % -lVerifyGCEvery;
+	}
+}
+
 void lVerifyGCTick(){
-	static long every = -1;
-	static long count = 0;
-	if(every < 0){
+	if(lVerifyGCEvery == -1){
 		const char *env = getenv("NUJEL_VERIFY_GC_EVERY");
-		every = env ? atol(env) : 0;
+		lVerifyGCEvery = env ? atol(env) : 0;
+		lVerifyGCSchedule();
 	}
-	if(every > 0 && ++count >= every){
-		count = 0;
+	if(lVerifyGCEvery != 0 && --lVerifyGCNext <= 0){
+		lVerifyGCSchedule();
 		lGCShouldRunSoon = true;
 	}
 }
+
+lVal lnfVerifyGCEvery(lVal a){
+	lVerifyGCEvery = a.type == ltInt ? a.vInt : 0;
+	lVerifyGCRandom = lVerifyGCEvery;
+	lVerifyGCSchedule();
+	return a;
+}
 #endif
 
 #define defineAllocator(T, typeMax) \
diff --git a/lib/core-operators.c b/lib/core-operators.c
index a805392..de0cc29 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -226,6 +226,10 @@ void lOperationsCore(){
 
 	lAddNativeFunc("garbage-collection-runs", "", "Return the amount of times the GC ran since runtime startup", lnfGarbageCollectRuns, 0);
 
+#ifdef NUJEL_VERIFY_GC
+	lAddNativeFuncV("verify/gc-every", "(n)", "Collect garbage after every N allocations", lnfVerifyGCEvery, 0);
+#endif
+
 	lAddNativeFuncV("int",   "(α)", "Convert α into an integer number", lnfInt, NFUNC_PURE);
 	lAddNativeFuncV("float", "(α)", "Convert α into a floating-point number", lnfFloat, NFUNC_PURE);
 
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index a5b90f1..367ddb5 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -308,6 +308,7 @@ void lGarbageCollect(lThread *ctx);
  */
 #ifdef NUJEL_VERIFY_GC
 void lVerifyGCTick();
+lVal lnfVerifyGCEvery(lVal a);
 #else
 #define lVerifyGCTick() ((void)0)
 #endif
-- 
2.43.0


From b83af067727942781314989882bb06a830488d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 052/108] fix: quasiquoted #f became #nil

---
 stdlib/core/quasiquote.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/quasiquote.nuj b/stdlib/core/quasiquote.nuj
index 9d2027b..92f83b8 100644
--- a/stdlib/core/quasiquote.nuj
+++ b/stdlib/core/quasiquote.nuj
@@ -6,7 +6,7 @@
 
 (def quasiquote (let*
                   (defn quasiquote-real (l depth)
-                        (when-not l (return #nil))
+                        (when-not l (return l))
                         (if (pair? l)
                             (if (= (caar l) 'unquote-splicing)
                                 (if (zero? depth)
-- 
2.43.0


From c5288d045324cf2af5fa42507b6b6df291c0dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 053/108] fix: macros that are not global were not expanded
 within the arguments of arithmetic

---
 stdlib/compiler/frontend/macroexpander.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index 4a28c53..dbc26b9 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -78,7 +78,7 @@
                                        ((fn* macro*)        (macroexpand-form source env op 4 #t #b0111))
                                        ((let* environment*) (list op (macroexpand-do (cdr source) env)))
                                        (otherwise (if (:meta op :fold)
-                                                      (macroexpand-fold op (cdr source))
+                                                      (macroexpand-fold op (cdr source) env)
                                                       (map source (fn (α) (macroexpand* α env)))))))
                                 (otherwise (map source (fn (α) (macroexpand* α env))))))))
 
-- 
2.43.0


From 07b45297b7bfb9124202e1bbd767f7afafefe617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 054/108] fix: module paths with more than one .. in a row led
 to the wrong file

---
 stdlib/core/module.nuj | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index d189c2e..c58dc9c 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -62,22 +62,26 @@
       :internal
       (set! module/cache name module))
 
-(defn module/resolve-string/join (parts ret)
+(defn module/resolve-string/join (parts ret skip)
+      ; SKIP is the number of path elements that still have to be left out due to ".."
       :internal
-      (cond ((not parts) ret)
+      (cond ((not parts)
+             (when (> skip 0)
+               (exception "Invalid path" parts))
+             ret)
             ((or (= "" (car parts))
                  (= "." (car parts)))
-             (module/resolve-string/join (cdr parts) ret))
+             (module/resolve-string/join (cdr parts) ret skip))
             ((= ".." (car parts))
-             (when-not (cadr parts)
-                       (exception "Invalid path" parts))
-             (module/resolve-string/join (cddr parts) ret))
-            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret)))))
+             (module/resolve-string/join (cdr parts) ret (+ skip 1)))
+            ((> skip 0)
+             (module/resolve-string/join (cdr parts) ret (- skip 1)))
+            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret) 0))))
 
 (defn module/resolve-string (name wd)
       :internal
       (def mod-path wd)
-      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil))
+      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil 0))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
 (defn module/load (name env)
-- 
2.43.0


From 4526cf89c3040ce08efa1c06c42c090196bb8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 055/108] fix: setting metadata of a function doesn't change
 that of others

---
 lib/type-system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..fb42753 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -190,7 +190,8 @@ static lVal lnmNujelMetaGet(lVal self, lVal key){
 
 static lVal lnmNujelMetaSet(lVal self, lVal key, lVal value){
 	reqSymbolic(key);
-	self.vClosure->meta = lTreeInsert(self.vClosure->meta, key.vSymbol, value);
+	// Functions made from the same literal share their metadata
+	self.vClosure->meta = lTreeInsert(lTreeDup(self.vClosure->meta), key.vSymbol, value);
 	return self;
 }
 
-- 
2.43.0


From d0fc1fd1096588d4d16809a3ae401066138d002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 056/108] fix: a tree made from an environment's data no longer
 loses its variables as it grows

---
 lib/tree.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/tree.c b/lib/tree.c
index 33985c0..f987505 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -81,9 +81,7 @@ static lTree *lTreeBalance(lTree *t, const lSymbol *s){
 	return t;
 }
 
-/* Insert an association S -> V in the tree T, creating a new segment if
- * necessary, otherwise the old segment will be mutated */
-lTree *lTreeInsert(lTree *t, const lSymbol *s, lVal v){
+static lTree *lTreeInsertNode(lTree *t, const lSymbol *s, lVal v){
 	if(unlikely(t == NULL)){
 		return lTreeNew(s,v);
 	}else if(unlikely(t->key == NULL)){
@@ -95,15 +93,36 @@ lTree *lTreeInsert(lTree *t, const lSymbol *s, lVal v){
 		return t;
 	}else{
 		if(s < t->key){
-			t->left = lTreeInsert(t->left, s, v);
+			t->left = lTreeInsertNode(t->left, s, v);
 		}else{
-			t->right = lTreeInsert(t->right, s, v);
+			t->right = lTreeInsertNode(t->right, s, v);
 		}
 		t->height = lTreeCalcHeight(t);
 		return lTreeBalance(t, s);
 	}
 }
 
+/* Insert an association S -> V in the tree T, creating a new segment if
+ * necessary, otherwise the old segment will be mutated. T stays the root, since
+ * a tree value and a closure can share the same segments */
+lTree *lTreeInsert(lTree *t, const lSymbol *s, lVal v){
+	lTree *root = lTreeInsertNode(t, s, v);
+	if(likely((t == NULL) || (root == t))){return root;}
+
+	/* A rotation made T a child of ROOT, swap them while leaving the flags */
+	const lTree tmp = *root;
+	*root = *t;
+	*t = tmp;
+	t->flags = root->flags;
+	root->flags = tmp.flags;
+	if(t->left == t){
+		t->left = root;
+	}else{
+		t->right = root;
+	}
+	return t;
+}
+
 /* Get whatever value is associated in T to S,
  * Returns a simple Exception if nothing is found */
 lVal lTreeRef(const lTree *t, const lSymbol *s){
-- 
2.43.0


From a78d79d7de5d7ac1dca9721a142ec441f557d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 057/108] fix: calling an unknown method on an object with
 cyclic prototypes terminates

---
 lib/type-system.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index fb42753..36b19bb 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -232,14 +232,23 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 	if(unlikely(self.type != (self.type & 63))){
 		lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
-	if(self.type == ltTree){
+	lVal slow = self;
+	for(uint steps = 1; self.type == ltTree; steps++){
 		lVal v = lTreeRef(self.vTree->root, method);
 		if(v.type != ltException){
 			return v;
 		}
 		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type != ltException){
-			return lMethodLookup(method, proto);
+		if(proto.type == ltException){
+			break;
+		}
+		self = proto;
+		/* SLOW follows at half the speed, so we have to meet it in a cycle */
+		if((steps & 1) == 0){
+			slow = lTreeRef(slow.vTree->root, lSymPrototype);
+		}
+		if(unlikely((self.type == ltTree) && (self.vTree == slow.vTree))){
+			break;
 		}
 	}
 	if(self.type == ltType){
-- 
2.43.0


From 34c18202320e08545e87eda5903c8fc2a3a0cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 058/108] fix: prototypes that aren't trees no longer lend
 methods of their type to trees

---
 lib/type-system.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index 36b19bb..c4d7127 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -232,22 +232,20 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 	if(unlikely(self.type != (self.type & 63))){
 		lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
-	lVal slow = self;
-	for(uint steps = 1; self.type == ltTree; steps++){
-		lVal v = lTreeRef(self.vTree->root, method);
+	/* Prototypes only provide what they store themselves, since the methods of
+	 * their type expect a SELF of that very type */
+	lVal proto = self, slow = self;
+	for(uint steps = 1; proto.type == ltTree; steps++){
+		lVal v = lTreeRef(proto.vTree->root, method);
 		if(v.type != ltException){
 			return v;
 		}
-		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type == ltException){
-			break;
-		}
-		self = proto;
+		proto = lTreeRef(proto.vTree->root, lSymPrototype);
 		/* SLOW follows at half the speed, so we have to meet it in a cycle */
 		if((steps & 1) == 0){
 			slow = lTreeRef(slow.vTree->root, lSymPrototype);
 		}
-		if(unlikely((self.type == ltTree) && (self.vTree == slow.vTree))){
+		if(unlikely((proto.type == ltTree) && (proto.vTree == slow.vTree))){
 			break;
 		}
 	}
-- 
2.43.0


From 8bfc66b68b4273f153674eba34521c361517b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 059/108] fix: calling a method without arguments looks it up
 in nil

---
 lib/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 176ecf2..271a6b1 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -763,7 +763,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = likely(len > 0) ? vs[1-len] : NIL;
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From e619cb22fe5bc5cd4b143c72984f9ae132cec07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 060/108] fix: Trees keep their identity in images

---
 lib/imageReader.c | 18 ++++++++++++------
 lib/imageWriter.c | 16 +++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..3ff346e 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -137,9 +137,9 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 	return view;
 }
 
-static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+static lTreeRoot *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return ((lTreeRoot *)mapP)->root; }
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
@@ -153,11 +153,13 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 
 		const lSymbol *s = readSymbol(map, img, sym, staticImage);
 		if(s){
+			// VAL might refer to this very tree, so it needs a root by then
+			root->root = lTreeInsert(root->root, s, NIL);
 			lVal v = readVal(map, img, val, staticImage);
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
-	return root->root;
+	return root;
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
@@ -199,8 +201,10 @@ static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool
 	readMapSet(map, off, ret);
 
 	ret->args = readVal(map, img, clo->args, staticImage);
-	ret->data = readTree(map, img, clo->data, staticImage);
-	ret->meta = readTree(map, img, clo->meta, staticImage);
+	const lTreeRoot *data = readTree(map, img, clo->data, staticImage);
+	ret->data = data ? data->root : NULL;
+	const lTreeRoot *meta = readTree(map, img, clo->meta, staticImage);
+	ret->meta = meta ? meta->root : NULL;
 	ret->parent = readClosure(map, img, clo->parent, staticImage);
 	ret->sp = clo->sp;
 	ret->text = readBytecodeArray(map, img, clo->text, staticImage);
@@ -253,6 +257,7 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	}
 
 	const i32 tbyte = img->data[off] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
+	lTreeRoot *tree;
 	switch(T){
 	default:
 		return lValException(lSymReadError, "Can't have rootValues of that Type", NIL);
@@ -263,7 +268,8 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
-		return lValTree(readTree(map, img, tbyte, staticImage));
+		tree = readTree(map, img, tbyte, staticImage);
+		return tree ? lValAlloc(ltTree, tree) : lValTree(NULL);
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..a6e5051 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -88,9 +88,10 @@ static i32 ctxAddTreeVal(writeImageContext *ctx, i32 curOff, lTree *v){
 	return curOff;
 }
 
-static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
-	if(v == NULL){return -1;}
-	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+/* KEY identifies the tree V, which might be empty */
+static i32 ctxAddTree(writeImageContext *ctx, void *key, lTree *v){
+	if(key == NULL){return -1;}
+	const i32 mapOff = writeMapGet(&ctx->map, key);
 	if(mapOff > 0){ return mapOff; }
 
 	const int len = lTreeSize(v);
@@ -98,7 +99,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(&ctx->map, key, curOff);
 	ctx->start[curOff  ] =  len     & 0xFF;
 	ctx->start[curOff+1] = (len>>8) & 0xFF;
 	ctx->curOff += eleSize;
@@ -163,8 +164,8 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	ctx->curOff += eleSize;
 
 	const i32 args = ctxAddVal(ctx, v->args);
-	const i32 data = ctxAddTree(ctx, v->data);
-	const i32 meta = ctxAddTree(ctx, v->meta);
+	const i32 data = ctxAddTree(ctx, v->data, v->data);
+	const i32 meta = ctxAddTree(ctx, v->meta, v->meta);
 	const i32 text = ctxAddBytecodeArray(ctx, v->text);
 	const i32 parent = ctxAddClosure(ctx, v->parent);
 
@@ -304,7 +305,8 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltTree: {
 		ctx->curOff += 4;
 		*outb = litTree;
-		const i32 off = ctxAddTree(ctx, v.vTree->root);
+		lTree *tree = v.vTree->root;
+		const i32 off = ctxAddTree(ctx, tree ? (void *)tree : (void *)v.vTree, tree);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
 		*outb++ = (off>>8)&0xFF;
-- 
2.43.0


From 93c7b3a7beaa3716b7408eb5fd78f44ae73f931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 061/108] fix: Long lists fit into images

---
 lib/imageReader.c | 40 +++++++++++++++++++++--------
 lib/imageWriter.c | 64 +++++++++++++++++++++++++++++++----------------
 2 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 3ff346e..f692999 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -86,17 +86,35 @@ static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i
 }
 
 static lPair *readPair(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return (lPair *)mapP; }
-	if(off < 0){return NULL;}
-	if(off >= (1<<24)-1){return NULL;}
-	lPair *ret = lPairAllocRaw();
-	readMapSet(map, off, ret);
-	const i32 car = img->data[off  ] | (img->data[off+1]<<8) | (img->data[off+2]<<16);
-	const i32 cdr = img->data[off+3] | (img->data[off+4]<<8) | (img->data[off+5]<<16);
-	ret->car = car < ((1<<24)-1) ? readVal(map, img, car, staticImage) : NIL;
-	ret->cdr = cdr < ((1<<24)-1) ? readVal(map, img, cdr, staticImage) : NIL;
-	return ret;
+	lPair *first = NULL, *prev = NULL;
+	// Lists can be too long to recurse along their cdr's
+	for(;;){
+		lPair *ret = readMapGet(map, off);
+		const bool known = ret != NULL;
+		if(!known){
+			if(off < 0){return first;}
+			if(off >= (1<<24)-1){return first;}
+			ret = lPairAllocRaw();
+			readMapSet(map, off, ret);
+		}
+		if(prev != NULL){
+			prev->cdr = lValAlloc(ltPair, ret);
+		} else {
+			first = ret;
+		}
+		if(known){return first;}
+		const i32 car = img->data[off  ] | (img->data[off+1]<<8) | (img->data[off+2]<<16);
+		const i32 cdr = img->data[off+3] | (img->data[off+4]<<8) | (img->data[off+5]<<16);
+		ret->car = car < ((1<<24)-1) ? readVal(map, img, car, staticImage) : NIL;
+		ret->cdr = NIL;
+		if(cdr >= ((1<<24)-1)){return first;}
+		if(img->data[cdr] != litPair){
+			ret->cdr = readVal(map, img, cdr, staticImage);
+			return first;
+		}
+		off = img->data[cdr+1] | (img->data[cdr+2]<<8) | (img->data[cdr+3]<<16);
+		prev = ret;
+	}
 }
 
 static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool staticImage){
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index a6e5051..2d9151b 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -224,27 +224,49 @@ static i32 ctxAddBufferView(writeImageContext *ctx, lBufferView *v){
 }
 
 static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
-	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
-	if(mapOff > 0){ return mapOff; }
-
-	const i32 eleSize = 8;
-	ctxRealloc(ctx, eleSize);
-
-	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
-	ctx->curOff += eleSize;
-
-	const i32 car = v->car.type != ltNil ? ctxAddVal(ctx, v->car) : -1;
-	ctx->start[curOff  ] =  car      & 0xFF;
-	ctx->start[curOff+1] = (car>> 8) & 0xFF;
-	ctx->start[curOff+2] = (car>>16) & 0xFF;
-
-	const i32 cdr = v->cdr.type != ltNil ? ctxAddVal(ctx, v->cdr) : -1;
-	ctx->start[curOff+3] =  cdr      & 0xFF;
-	ctx->start[curOff+4] = (cdr>> 8) & 0xFF;
-	ctx->start[curOff+5] = (cdr>>16) & 0xFF;
-
-	return curOff;
+	i32 first = -1, prev = -1;
+	// Lists can be too long to recurse along their cdr's
+	for(;;){
+		const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+		i32 curOff = mapOff;
+		if(mapOff <= 0){
+			const i32 eleSize = 8;
+			ctxRealloc(ctx, eleSize);
+			curOff = ctx->curOff;
+			writeMapSet(&ctx->map, (void *)v, curOff);
+			ctx->curOff += eleSize;
+		}
+		if(prev >= 0){
+			ctxRealloc(ctx, 4);
+			const i32 cdr = ctx->curOff;
+			ctx->curOff += 4;
+			ctx->start[cdr   ] = litPair;
+			ctx->start[cdr+1 ] =  curOff      & 0xFF;
+			ctx->start[cdr+2 ] = (curOff>> 8) & 0xFF;
+			ctx->start[cdr+3 ] = (curOff>>16) & 0xFF;
+			ctx->start[prev+3] =  cdr         & 0xFF;
+			ctx->start[prev+4] = (cdr>> 8)    & 0xFF;
+			ctx->start[prev+5] = (cdr>>16)    & 0xFF;
+		} else {
+			first = curOff;
+		}
+		if(mapOff > 0){return first;}
+
+		const i32 car = v->car.type != ltNil ? ctxAddVal(ctx, v->car) : -1;
+		ctx->start[curOff  ] =  car      & 0xFF;
+		ctx->start[curOff+1] = (car>> 8) & 0xFF;
+		ctx->start[curOff+2] = (car>>16) & 0xFF;
+
+		if(v->cdr.type != ltPair){
+			const i32 cdr = v->cdr.type != ltNil ? ctxAddVal(ctx, v->cdr) : -1;
+			ctx->start[curOff+3] =  cdr      & 0xFF;
+			ctx->start[curOff+4] = (cdr>> 8) & 0xFF;
+			ctx->start[curOff+5] = (cdr>>16) & 0xFF;
+			return first;
+		}
+		prev = curOff;
+		v = v->cdr.vList;
+	}
 }
 
 static u8 ctxAddFilehandle(FILE *fh){
-- 
2.43.0


From f0dcc6e33cf1f960947ee74699d09e17581730a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 062/108] fix: What doesn't fit into an image is refused
 instead of corrupting it

---
 lib/imageWriter.c | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 2d9151b..3ebd27c 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -16,9 +16,14 @@ typedef struct {
 	u8 *start;
 	i32 curOff;
 	i32 size;
+	i32 depth;
+	bool failed; // The values don't fit into an image
 	writeImageMap map;
 } writeImageContext;
 
+#define IMAGE_MAX_OFFSET ((1<<24)-1)
+#define IMAGE_MAX_DEPTH  10000
+
 static i32 ctxAddVal(writeImageContext *ctx, lVal v);
 
 static i32 writeMapGet(writeImageMap *map, void *key){
@@ -42,6 +47,9 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 }
 
 static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
+	if(unlikely(ctx->curOff >= IMAGE_MAX_OFFSET)){
+		ctx->failed = true;
+	}
 	if((ctx->size - ctx->curOff) <= eleSize){
 		ctx->size += eleSize;
 		if(ctx->size & 0xFF){
@@ -95,6 +103,10 @@ static i32 ctxAddTree(writeImageContext *ctx, void *key, lTree *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const int len = lTreeSize(v);
+	if(unlikely(len > 0xFFFF)){
+		ctx->failed = true;
+		return -1;
+	}
 	const i32 eleSize = 2 + (6*len);
 	ctxRealloc(ctx, eleSize);
 
@@ -155,7 +167,12 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	if(v == NULL){return -1;}
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
+	if(unlikely(ctx->failed || (ctx->depth >= IMAGE_MAX_DEPTH))){
+		ctx->failed = true;
+		return -1;
+	}
 
+	ctx->depth++;
 	const i32 eleSize = sizeof(lImageClosure);
 	ctxRealloc(ctx, eleSize);
 
@@ -180,12 +197,17 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	out->sp   = v->sp;
 	out->type = v->type;
 
+	ctx->depth--;
 	return curOff;
 }
 
 static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
+	if(unlikely(v->length > 0x0FFFFFFF)){
+		ctx->failed = true;
+		return -1;
+	}
 
 	const i32 eleSize = 4 + v->length;
 	ctxRealloc(ctx, eleSize);
@@ -283,6 +305,11 @@ static u8 ctxAddFilehandle(FILE *fh){
 
 static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	ctxRealloc(ctx, 16);
+	if(unlikely(ctx->failed || (ctx->depth >= IMAGE_MAX_DEPTH))){
+		ctx->failed = true;
+		return -1;
+	}
+	ctx->depth++;
 
 	const i32 curOff = ctx->curOff;
 	u8 *outb = (u8 *)((void *)&ctx->start[curOff]);
@@ -291,7 +318,8 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltAny:
 	case ltComment:
 	case ltException:
-		exit(234);
+		ctx->failed = true;
+		break;
 	case ltFileHandle:
 		ctx->curOff += 2;
 		*outb++ = litFileHandle;
@@ -445,6 +473,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 		*outb = litNil;
 		break;
 	}
+	ctx->depth--;
 	return curOff;
 }
 
@@ -452,22 +481,24 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	size_t size = sizeof(lImage);
 	writeImageContext ctx;
 	memset(&ctx, 0, sizeof(ctx));
-	lImage *buf = malloc(size);
+	ctxAddVal(&ctx, rootValue);
+	free(ctx.map.key);
+	free(ctx.map.val);
+	if(unlikely(ctx.failed)){
+		free(ctx.start);
+		return NULL;
+	}
 
+	lImage *buf = malloc(size + ctx.curOff);
 	buf->magic[0] = 'N';
 	buf->magic[1] = 'u';
 	buf->magic[2] = 'j';
 	buf->magic[3] = 'I';
 
-	ctxAddVal(&ctx, rootValue);
-
-	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
 	memcpy(buf->data, ctx.start, ctx.curOff);
 	size += ctx.curOff;
 	*outSize = size;
 	free(ctx.start);
-	free(ctx.map.key);
-	free(ctx.map.val);
 	return buf;
 }
 
-- 
2.43.0


From 4104b9fcdf80eab0066579e01c739cb002bb2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 063/108] fix: Immutable trees stay immutable in images

---
 lib/imageReader.c   | 4 ++++
 lib/imageWriter.c   | 2 +-
 lib/nujel-private.h | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index f692999..fef313a 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -286,7 +286,11 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
+	case litImmutableTree:
 		tree = readTree(map, img, tbyte, staticImage);
+		if((T == litImmutableTree) && tree && tree->root){
+			tree->root->flags |= TREE_IMMUTABLE;
+		}
 		return tree ? lValAlloc(ltTree, tree) : lValTree(NULL);
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 3ebd27c..beea68a 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -354,7 +354,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 		break; }
 	case ltTree: {
 		ctx->curOff += 4;
-		*outb = litTree;
+		*outb = (v.vTree->root && (v.vTree->root->flags & TREE_IMMUTABLE)) ? litImmutableTree : litTree;
 		lTree *tree = v.vTree->root;
 		const i32 off = ctxAddTree(ctx, tree ? (void *)tree : (void *)v.vTree, tree);
 		outb = ((void *)&ctx->start[curOff+1]);
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 367ddb5..67b80bc 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -486,6 +486,8 @@ typedef enum {
 	litTrue,
 	litFalse,
 
+	litImmutableTree,
+
 } lImageType;
 
 typedef struct {
-- 
2.43.0


From d3eca7ab9aa032c5a6911c68dfb2a092794eefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 064/108] fix: Malformed images are refused instead of reading
 out of bounds

---
 lib/imageReader.c | 246 +++++++++++++++++++++++++++++++---------------
 1 file changed, 169 insertions(+), 77 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index fef313a..d2ab8b0 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -6,55 +6,78 @@
 #endif
 
 typedef struct {
-	i32 imgSize;
+	i32 key;
+	u8 type;
+} readImageKey;
+
+typedef struct {
+	i64 imgSize;
 	i32 len;
 	i32 size;
-	i32 *key;
+	i32 depth;
+	bool failed; // The image is malformed
+	readImageKey *key;
 	void **val;
 } readImageMap;
 
+#define IMAGE_MAX_DEPTH 10000
+
 static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticImage);
 
-static void *readMapGet(readImageMap *map, i32 key){
+/* Return true if there are SIZE bytes at OFF */
+static bool readCheck(readImageMap *map, i64 off, i64 size){
+	if(unlikely((off < 0) || (size < 0) || ((off + size) > map->imgSize))){
+		map->failed = true;
+		return false;
+	}
+	return true;
+}
+
+static void *readMapGet(readImageMap *map, i32 key, lImageType type){
 	for(int i=0;i<map->len;i++){
-		if(map->key[i] == key){
+		if((map->key[i].key == key) && (map->key[i].type == type)){
 			return map->val[i];
 		}
 	}
 	return NULL;
 }
 
-static void readMapSet(readImageMap *map, i32 key, void *val){
+static void readMapSet(readImageMap *map, i32 key, lImageType type, void *val){
 	if(map->len+1 >= map->size){
 		map->size += 32;
-		map->key = realloc(map->key, map->size * sizeof(i32));
+		map->key = realloc(map->key, map->size * sizeof(readImageKey));
 		map->val = realloc(map->val, map->size * sizeof(void *));
 	}
-	map->key[map->len] = key;
+	map->key[map->len].key = key;
+	map->key[map->len].type = type;
 	map->val[map->len] = val;
 	map->len++;
 }
 
 static const lSymbol *readSymbol(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	(void)staticImage;
-	(void)map;
-	if(off < 0){return NULL;}
+	if((off < 0) || (off >= map->imgSize) || (memchr(&img->data[off], 0, map->imgSize - off) == NULL)){
+		map->failed = true;
+		return NULL;
+	}
 	return lSymS((const char *)&img->data[off]);
 }
 
 static lArray *readArray(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litArray);
 	if(mapP != NULL){ return (lArray *)mapP; }
 
+	if(!readCheck(map, off, 4)){return NULL;}
 	const i32 *in = (i32 *)((void *)&img->data[off]);
 	const u32 raw = in[0];
 	const i32 len = raw & 0x0FFFFFFF;
 	const u8 flags = raw >> 28;
+	if(!readCheck(map, off + 4, 4 * (i64)len)){return NULL;}
 	lArray *out = lArrayAlloc(len);
 	out->flags = flags;
-	readMapSet(map, off, out);
+	readMapSet(map, off, litArray, out);
 
 	out->flags = flags;
 	in++;
@@ -68,12 +91,14 @@ static lArray *readArray(readImageMap *map, const lImage *img, i32 off, bool sta
 static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBytecodeArr);
 	if(mapP != NULL){ return (lBytecodeArray *)mapP; }
+	if(!readCheck(map, off, 8)){return NULL;}
 	const i32 *in = (i32 *)((void *)&img->data[off]);
 	const i32 len = *in++;
+	if(!readCheck(map, off + 8, len)){return NULL;}
 	lBytecodeArray *ret = lBytecodeArrayAllocRaw();
-	readMapSet(map, off, ret);
+	readMapSet(map, off, litBytecodeArr, ret);
 	ret->literals = readArray(map, img, *in++, staticImage);
 	if(staticImage){
 		ret->data = (void *)in;
@@ -89,13 +114,12 @@ static lPair *readPair(readImageMap *map, const lImage *img, i32 off, bool stati
 	lPair *first = NULL, *prev = NULL;
 	// Lists can be too long to recurse along their cdr's
 	for(;;){
-		lPair *ret = readMapGet(map, off);
+		lPair *ret = readMapGet(map, off, litPair);
 		const bool known = ret != NULL;
 		if(!known){
-			if(off < 0){return first;}
-			if(off >= (1<<24)-1){return first;}
+			if(!readCheck(map, off, 6)){return first;}
 			ret = lPairAllocRaw();
-			readMapSet(map, off, ret);
+			readMapSet(map, off, litPair, ret);
 		}
 		if(prev != NULL){
 			prev->cdr = lValAlloc(ltPair, ret);
@@ -108,26 +132,30 @@ static lPair *readPair(readImageMap *map, const lImage *img, i32 off, bool stati
 		ret->car = car < ((1<<24)-1) ? readVal(map, img, car, staticImage) : NIL;
 		ret->cdr = NIL;
 		if(cdr >= ((1<<24)-1)){return first;}
+		if(!readCheck(map, cdr, 1)){return first;}
 		if(img->data[cdr] != litPair){
 			ret->cdr = readVal(map, img, cdr, staticImage);
 			return first;
 		}
+		if(!readCheck(map, cdr, 4)){return first;}
 		off = img->data[cdr+1] | (img->data[cdr+2]<<8) | (img->data[cdr+3]<<16);
 		prev = ret;
 	}
 }
 
 static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBuffer);
 	if(mapP != NULL){ return (lBuffer *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(!readCheck(map, off, 4)){return NULL;}
 	const u32 raw = *(u32 *)((void *)&img->data[off]);
 	const u32 len = raw & 0x0FFFFFFF;
+	if(!readCheck(map, off + 4, len)){return NULL;}
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
 	lBuffer *buf = lBufferAlloc(len, immutable);
-	readMapSet(map, off, buf);
+	readMapSet(map, off, litBuffer, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
@@ -139,14 +167,20 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 }
 
 static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litBufferView);
 	if(mapP != NULL){ return (lBufferView *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(!readCheck(map, off, sizeof(lImageBufferView))){return NULL;}
 	lImageBufferView *imgBuf = (lImageBufferView *)((void *)&img->data[off]);
 	lBuffer *buf = readBuffer(map, img, imgBuf->buffer, staticImage);
+	if((buf == NULL) || (imgBuf->type > lbvtF64) || (imgBuf->offset < 0) || (imgBuf->length < 0)
+	   || ((((i64)imgBuf->offset + imgBuf->length) * lBufferViewTypeSize(imgBuf->type)) > buf->length)){
+		map->failed = true;
+		return NULL;
+	}
 	lBufferView *view = lBufferViewAllocRaw();
-	readMapSet(map, off, view);
+	readMapSet(map, off, litBufferView, view);
 	view->buf = buf;
 	view->offset = imgBuf->offset;
 	view->length = imgBuf->length;
@@ -156,13 +190,15 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 }
 
 static lTreeRoot *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litTree);
 	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(!readCheck(map, off, 2)){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	if(!readCheck(map, off + 2, 6 * len)){return NULL;}
 	lTreeRoot *root = lTreeRootAllocRaw();
-	readMapSet(map, off, root);
+	readMapSet(map, off, litTree, root);
 	off += 2;
 	for(int i=0;i<len;i++){
 		const i32 sym = img->data[off+0] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
@@ -181,9 +217,8 @@ static lTreeRoot *readTree(readImageMap *map, const lImage *img, i32 off, bool s
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	(void)map;
-	if(off < 0){return NULL;}
 	const lSymbol *sym = readSymbol(map, img, off, staticImage);
+	if(sym == NULL){return NULL;}
 	for(uint i=0;i<lNFuncMax;i++){
 		lNFunc *t = &lNFuncList[i];
 		if(t == NULL){break;}
@@ -195,10 +230,8 @@ static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool sta
 }
 
 static lClass *readType(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	(void)map;
 	const lSymbol *sym = readSymbol(map, img, off, staticImage);
-	if(off < 0){return NULL;}
-	if(off >= (1<<24)-1){return NULL;}
+	if(sym == NULL){return NULL;}
 	for(uint i=0;i<countof(lClassList);i++){
 		lClass *t = &lClassList[i];
 		if(t == NULL){break;}
@@ -210,13 +243,19 @@ static lClass *readType(readImageMap *map, const lImage *img, i32 off, bool stat
 }
 
 static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
+	const void *mapP = readMapGet(map, off, litLambda);
 	if(mapP != NULL){ return (lClosure *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
+	if(!readCheck(map, off, sizeof(lImageClosure))){return NULL;}
+	if(unlikely(map->failed || (map->depth > IMAGE_MAX_DEPTH))){
+		map->failed = true;
+		return NULL;
+	}
+	map->depth++;
 	lImageClosure *clo = (lImageClosure *)((void *)&img->data[off]);
 	lClosure *ret = lClosureAllocRaw();
-	readMapSet(map, off, ret);
+	readMapSet(map, off, litLambda, ret);
 
 	ret->args = readVal(map, img, clo->args, staticImage);
 	const lTreeRoot *data = readTree(map, img, clo->data, staticImage);
@@ -228,18 +267,108 @@ static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool
 	ret->text = readBytecodeArray(map, img, clo->text, staticImage);
 	ret->type = clo->type;
 	if(ret->text != NULL){
-		ret->ip = &ret->text->data[clo->ip];
+		if((clo->ip < 0) || (clo->ip > (ret->text->dataEnd - ret->text->data))){
+			map->failed = true;
+			ret->ip = ret->text->data;
+		} else {
+			ret->ip = &ret->text->data[clo->ip];
+		}
 	} else {
 		ret->ip = NULL;
 	}
 
+	map->depth--;
 	return ret;
 }
 
+/* Wrap P into a value of type T, there is always something to wrap unless the image is malformed */
+static lVal readPointer(readImageMap *map, lType T, void *p){
+	if(unlikely(p == NULL)){
+		map->failed = true;
+		return NIL;
+	}
+	return lValAlloc(T, p);
+}
+
+static lVal readReference(readImageMap *map, const lImage *img, lImageType T, i32 off, bool staticImage){
+	switch(T){
+	default:
+		return lValException(lSymReadError, "Can't have rootValues of that Type", NIL);
+	case litNativeFunc: {
+		// Might have been removed since the image has been written
+		lNFunc *fun = readNFunc(map, img, off, staticImage);
+		return fun ? lValAlloc(ltNativeFunc, fun) : NIL; }
+	case litType: {
+		lClass *type = readType(map, img, off, staticImage);
+		return type ? lValAlloc(ltType, type) : NIL; }
+	case litBytecodeArr:
+		return readPointer(map, ltBytecodeArr, readBytecodeArray(map, img, off, staticImage));
+	case litTree:
+	case litImmutableTree: {
+		lTreeRoot *tree = readTree(map, img, off, staticImage);
+		if((T == litImmutableTree) && tree && tree->root){
+			tree->root->flags |= TREE_IMMUTABLE;
+		}
+		return tree ? lValAlloc(ltTree, tree) : lValTree(NULL); }
+	case litArray:
+		return readPointer(map, ltArray, readArray(map, img, off, staticImage));
+	case litPair:
+		return readPointer(map, ltPair, readPair(map, img, off, staticImage));
+	case litBufferView:
+		return readPointer(map, ltBufferView, readBufferView(map, img, off, staticImage));
+	case litLambda:
+		return readPointer(map, ltLambda, readClosure(map, img, off, staticImage));
+	case litMacro:
+		return readPointer(map, ltMacro, readClosure(map, img, off, staticImage));
+	case litEnvironment:
+		return readPointer(map, ltEnvironment, readClosure(map, img, off, staticImage));
+	case litString:
+		return readPointer(map, ltString, readBuffer(map, img, off, staticImage));
+	case litBuffer:
+		return readPointer(map, ltBuffer, readBuffer(map, img, off, staticImage));
+	case litSymbol:
+		return readPointer(map, ltSymbol, (void *)readSymbol(map, img, off, staticImage));
+	case litKeyword:
+		return readPointer(map, ltKeyword, (void *)readSymbol(map, img, off, staticImage));
+	}
+}
+
 static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NIL;}
+	if(unlikely(map->failed || (map->depth > IMAGE_MAX_DEPTH))){
+		map->failed = true;
+		return NIL;
+	}
+	if(!readCheck(map, off, 1)){return NIL;}
 
 	const lImageType T = img->data[off++];
+	i32 size = 3;
+	switch(T){
+	case litNil:
+		return NIL;
+	case litFalse:
+		return lValBool(false);
+	case litTrue:
+		return lValBool(true);
+	case litFileHandle:
+	case litInt8:
+		size = 1;
+		break;
+	case litInt16:
+		size = 2;
+		break;
+	case litInt32:
+		size = 4;
+		break;
+	case litInt64:
+	case litFloat:
+		size = 8;
+		break;
+	default:
+		break;
+	}
+	if(!readCheck(map, off, size)){return NIL;}
+
 	switch(T){
 	case litFileHandle:
 		switch(img->data[off]){
@@ -252,8 +381,6 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		default:
 			return lValException(lSymReadError, "Can't serialize file handles other than stdin, stdout or stderr", NIL);
 		}
-	case litNil:
-		return NIL;
 	case litInt64:
 		return lValInt(*(i64 *)((void *)&img->data[off]));
 	case litInt32:
@@ -266,54 +393,15 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		const double *fword = (double *)((void *)&img->data[off]);
 		return lValFloat(*fword);
 	}
-	case litFalse:
-		return lValBool(false);
-	case litTrue:
-		return lValBool(true);
 	default:
 		break;
 	}
 
 	const i32 tbyte = img->data[off] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
-	lTreeRoot *tree;
-	switch(T){
-	default:
-		return lValException(lSymReadError, "Can't have rootValues of that Type", NIL);
-	case litNativeFunc:
-		return lValAlloc(ltNativeFunc, readNFunc(map, img, tbyte, staticImage));
-	case litType:
-		return lValAlloc(ltType, readType(map, img, tbyte, staticImage));
-	case litBytecodeArr:
-		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
-	case litTree:
-	case litImmutableTree:
-		tree = readTree(map, img, tbyte, staticImage);
-		if((T == litImmutableTree) && tree && tree->root){
-			tree->root->flags |= TREE_IMMUTABLE;
-		}
-		return tree ? lValAlloc(ltTree, tree) : lValTree(NULL);
-	case litArray:
-		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
-	case litPair:
-		return lValAlloc(ltPair, readPair(map, img, tbyte, staticImage));
-	case litBufferView:
-		return lValAlloc(ltBufferView, readBufferView(map, img, tbyte, staticImage));
-	case litLambda:
-		return lValAlloc(ltLambda, readClosure(map, img, tbyte, staticImage));
-	case litMacro:
-		return lValAlloc(ltMacro, readClosure(map, img, tbyte, staticImage));
-	case litEnvironment:
-		return lValAlloc(ltEnvironment, readClosure(map, img, tbyte, staticImage));
-	case litString:
-		return lValAlloc(ltString, readBuffer(map, img, tbyte, staticImage));
-	case litBuffer:
-		return lValAlloc(ltBuffer, readBuffer(map, img, tbyte, staticImage));
-	case litSymbol:
-		return lValAlloc(ltSymbol, (void *)readSymbol(map, img, tbyte, staticImage));
-	case litKeyword:
-		return lValAlloc(ltKeyword, (void *)readSymbol(map, img, tbyte, staticImage));
-	}
-	return NIL;
+	map->depth++;
+	const lVal ret = readReference(map, img, T, tbyte, staticImage);
+	map->depth--;
+	return ret;
 }
 
 lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
@@ -321,7 +409,8 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	if(unlikely(img == NULL)){
 		return lValExceptionSimple();
 	}
-	if(unlikely((img->magic[0] != 'N')
+	if(unlikely((imgSize < 5)
+	   || (img->magic[0] != 'N')
 	   || (img->magic[1] != 'u')
 	   || (img->magic[2] != 'j')
 	   || (img->magic[3] != 'I'))){
@@ -334,6 +423,9 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	lVal ret = readVal(&map, img, 0, staticImage);
 	free(map.key);
 	free(map.val);
+	if(unlikely(map.failed)){
+		return lValException(lSymReadError, "Malformed Nujel Image", NIL);
+	}
 	return ret;
 }
 
-- 
2.43.0


From 9f98d2d0bd4adb0974bb454c7b9afb1c3eaa7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 065/108] fix: Loading an image doesn't leak a copy of every
 mutable buffer

---
 lib/imageReader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d2ab8b0..0566ab9 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -154,7 +154,9 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	if(!readCheck(map, off + 4, len)){return NULL;}
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
-	lBuffer *buf = lBufferAlloc(len, immutable);
+	lBuffer *buf = lBufferAllocRaw();
+	buf->length = len;
+	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	readMapSet(map, off, litBuffer, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
-- 
2.43.0


From 130475f68bd7738387d027e7e6f21316a06b3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 066/108] fix: Images passed via --base-image stay in memory
 while they are used

---
 bin/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/main.c b/bin/main.c
index 1f2b579..0782640 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -21,7 +21,7 @@ static lClosure *createRootClosureFromExternalImage(const char *filename, lVal *
 	}
 	lClosure *c = lRedefineNativeFuncs(imgC);
 	*init = imgVal;
-	free(img);
+	// IMG stays allocated, static buffers and code refer to it
 	return c;
 }
 
-- 
2.43.0


From 780e35728009ecda039154cf6621489bbc4f8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 067/108] fix: Strings loaded from an image end with a zero
 just like others do

---
 lib/imageReader.c | 7 +++++--
 lib/imageWriter.c | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 0566ab9..054697a 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -158,12 +158,15 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	buf->length = len;
 	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	readMapSet(map, off, litBuffer, buf);
-	if(staticImage && immutable){
+	// Just like every other string it has to end with a zero
+	const bool terminated = ((off + 4 + (i64)len) < map->imgSize) && (((u8 *)data)[len] == 0);
+	if(staticImage && immutable && terminated){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
+		buf->buf = malloc((size_t)len + 1);
 		memcpy(buf->buf, data, len);
+		((u8 *)buf->buf)[len] = 0;
 	}
 	return buf;
 }
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index beea68a..a31477e 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -209,7 +209,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 		return -1;
 	}
 
-	const i32 eleSize = 4 + v->length;
+	const i32 eleSize = 4 + v->length + 1;
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
@@ -220,6 +220,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	ctx->curOff += eleSize;
 
 	memcpy(&out[1], v->data, v->length);
+	ctx->start[curOff + 4 + v->length] = 0;
 	return curOff;
 }
 
-- 
2.43.0


From 99945bfddcd43da4730cffb59bec857a9e4a55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 068/108] fix: set! raises for unbound variables in functions
 with many literals too

---
 lib/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 271a6b1..2b83314 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -562,7 +562,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lValSymS(lits[v].vSymbol)));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
-- 
2.43.0


From e6ee4908e51cf07a35f98bd023bfaef018d45bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 069/108] fix: Refuse to assemble jumps that don't fit into 16
 bits instead of jumping somewhere else

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 634f940..fb3152e 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -427,6 +427,8 @@
                  (defn assemble/relocate-op (code sym-map pos out)
                        (def target (ref sym-map (cadr code)))
                        (def off (- (+ target (cadddr code)) pos))
+                       (when (or (> off 32767) (< off -32768))
+                         (exception :out-of-bounds "Can't jump that far, try splitting it up into multiple functions" off))
                        (set! out (inc! pos) (bit-and (bit-shift-right off (caddr code)) #xFF))
                        (return pos))
 
-- 
2.43.0


From 7ecc6373a77e595b9a6e7b038a3624ebf4fa2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 070/108] fix: Calls may nest deeper than 65535 stack slots

---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 67b80bc..bc1e037 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	u32 sp;
 	u8 type;
 };
 
-- 
2.43.0


From ae060799b838c003f4b750ae1a23d02037bed75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 071/108] fix: list can be passed around as a function

---
 lib/special.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/special.c b/lib/special.c
index 6ad65f7..6723ced 100644
--- a/lib/special.c
+++ b/lib/special.c
@@ -26,10 +26,14 @@ lVMErrorPlaceholder(lnfEnvironment)
 lVMErrorPlaceholder(lnfBytecodeEval)
 lVMErrorPlaceholder(lnfMutableEval)
 lVMErrorPlaceholder(lnfRef)
-lVMErrorPlaceholder(lnfList)
 lVMErrorPlaceholder(lnfThrow)
 lVMErrorPlaceholder(lnfApply)
 
+/* Only used when passed around as a value, otherwise $list gets emitted */
+static lVal lnfList(lVal args){
+	return args;
+}
+
 void lOperationsSpecial(){
 	lAddNativeFunc("do",              "body",                    "Evaluate body in order and returns the last result", lnfDo, 0);
 	lAddNativeFunc("let*",            "body",                    "Run BODY wihtin a new closure",  lnfLetRaw, 0);
@@ -46,7 +50,7 @@ void lOperationsSpecial(){
 	lAddNativeFunc("environment*",    "",                      "Create a new object",       lnfEnvironment, 0);
 	lAddNativeFunc("bytecode-eval*",  "(bc-arr env)",            "Evaluate BC-ARR in call closure ofENV", lnfBytecodeEval, 0);
 	lAddNativeFunc("mutable-eval*",   "(bc-arr env)",            "Evaluate BC-ARR directly in ENV", lnfMutableEval, 0);
-	lAddNativeFunc("list",            "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
+	lAddNativeFuncR("list",           "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
 	lAddNativeFunc("ref",             "(collection key)",        "Look up key in collection", lnfRef, NFUNC_PURE);
 	lAddNativeFunc("throw",           "(v)",                     "Throw V to the closest exception handler", lnfThrow, 0);
 	lAddNativeFunc("apply",           "(func list)",             "Evaluate FUNC with LIST as arguments",  lnfApply, NFUNC_PURE);
-- 
2.43.0


From a5934309681e218a4003b95fd05a3ffb8c63fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 072/108] fix: Evaluating something within the scope of a
 running call doesn't disturb that call

---
 lib/nujel-private.h |  1 +
 lib/vm.c            | 32 +++++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index bc1e037..dd549b8 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -162,6 +162,7 @@ typedef enum closureType {
 	closureCall = 1,
 	closureLet = 2,
 	closureTry = 3,
+	closureEval = 4, // Keeps what mutable-eval* overwrites in the closure above
 } closureType;
 
 
diff --git a/lib/vm.c b/lib/vm.c
index 2b83314..f7c3811 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -98,6 +98,21 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	return tmpc;
 }
 
+/* Store what is necessary to resume C, which might be in the middle of a call */
+static inline lClosure *lClosureSaveEval(lClosure *c){
+	lClosure *ret = lClosureNew(c, closureEval);
+	ret->text = c->text;
+	ret->ip   = c->ip;
+	ret->sp   = c->sp;
+	return ret;
+}
+
+static inline void lClosureRestoreEval(const lClosure *c){
+	c->parent->text = c->text;
+	c->parent->ip   = c->ip;
+	c->parent->sp   = c->sp;
+}
+
 #define lStoreInClosure(ipOffset) do {\
 	c->ip = ip + (ipOffset);\
 	c->sp = ctx.sp;\
@@ -665,13 +680,16 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			t->cdr = lCons(stackTrace(&ctx),NIL);
 		}
 
-		while(likely(c != NULL) && (c->type != closureTry)){
+		while(likely(c != NULL) && ((c->type != closureTry) || ((ctx.csp > 0) && (ctx.closureStack[ctx.csp-1]->type == closureEval)))){
 			if(unlikely(ctx.csp <= 0)){
 				ctx.valueStack[ctx.sp] = exceptionThrownValue;
 				ctx.valueStack[ctx.sp].type = ltException;
 				goto topLevelReturn;
 			}
 			c = ctx.closureStack[--ctx.csp];
+			if(unlikely(c->type == closureEval)){
+				lClosureRestoreEval(c);
+			}
 		}
 
 		lVal cargs = lCons(exceptionThrownValue, NIL);
@@ -746,6 +764,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lStoreInClosure(0);
 
 		if(unlikely(curOp == lopMutableEval)){
+			ctx.closureStack[++ctx.csp] = lClosureSaveEval(env.vClosure);
 			c = ctx.closureStack[++ctx.csp] = env.vClosure;
 		} else {
 			c = ctx.closureStack[++ctx.csp] = lClosureNew(env.vClosure, closureCall);
@@ -899,11 +918,18 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		vmbreak; }
 	vmcase(lopRet)
 		if(likely(ctx.csp > 0)){
-			while(ctx.closureStack[ctx.csp]->type != closureCall){
+			while((c = ctx.closureStack[ctx.csp])->type != closureCall){
+				if(unlikely(c->type == closureEval)){break;}
 				if(unlikely(--ctx.csp <= 0)){goto topLevelReturn;}
 			}
 			lVal ret = ctx.valueStack[ctx.sp];
-			c   = ctx.closureStack[--ctx.csp];
+			if(likely(c->type == closureCall)){
+				c = ctx.closureStack[--ctx.csp];
+			}
+			if(unlikely(c->type == closureEval)){
+				lClosureRestoreEval(c);
+				c = ctx.closureStack[--ctx.csp];
+			}
 			lRestoreFromClosure();
 			ctx.text = ops;
 			ctx.sp = c->sp;
-- 
2.43.0


From 2be58e4bff963cfb83f2b54d152aafbb66dd35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 073/108] fix: Garbage made while unwinding a deep recursion
 gets collected

---
 lib/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vm.c b/lib/vm.c
index f7c3811..f04b87f 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -934,6 +934,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			ctx.text = ops;
 			ctx.sp = c->sp;
 			ctx.valueStack[++ctx.sp] = ret;
+			lGarbageCollectIfNecessary();
 			vmbreak;
 		}
 	topLevelReturn: {
-- 
2.43.0


From ce200dbc194caa644bc6702bae331b964412724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 074/108] fix: Using a file handle after it has been closed
 raises an exception instead of accessing freed memory

---
 bin/port.c           |  1 +
 lib/core-operators.c |  2 +-
 lib/nujel.h          | 10 ++++++++++
 lib/val.c            | 29 +++++++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index c2ddab7..c6840de 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -92,6 +92,7 @@ static lVal lnfFileOpenInput(lVal aPathname){
 
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
+	lFileHandleClosed(aHandle.vFileHandle);
 	fclose(aHandle.vFileHandle);
 	return NIL;
 }
diff --git a/lib/core-operators.c b/lib/core-operators.c
index de0cc29..94e1901 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -92,7 +92,7 @@ static i64 lValToId(lVal v){
 	case ltBytecodeArr: return v.vBytecodeArr - lBytecodeArrayList;
 	case ltKeyword:
 	case ltSymbol: return v.vSymbol - lSymbolList;
-	case ltFileHandle: return fileno(v.vFileHandle);
+	case ltFileHandle: return lFileHandleIsOpen(v.vFileHandle) ? fileno(v.vFileHandle) : 0xFFFF;
 	case ltNativeFunc: return v.vNFunc - lNFuncList;
 	}
 }
diff --git a/lib/nujel.h b/lib/nujel.h
index 90a6309..2bcd397 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -239,6 +239,9 @@ if(unlikely(str.vInt < 0)){\
 
 #define reqFileHandle(val) do { if(unlikely(val.type != ltFileHandle)){\
 	return lValException(lSymTypeError, "Need a FileHandle", val);\
+}\
+if(unlikely(!lFileHandleIsOpen(val.vFileHandle))){\
+	return lValException(lSymIOError, "That FileHandle is closed", val);\
 } } while(0)
 
 #define reqMutableBuffer(val) do { if(unlikely(val.type != ltBuffer)){\
@@ -376,7 +379,14 @@ static inline lVal lValKeyword(const char *s){
 	return lValKeywordS(lSymS(s));
 }
 
+/* Handles stay around after they have been closed, so we need to keep track of
+ * which ones may still be used. */
+void     lFileHandleOpened (FILE *fh);
+void     lFileHandleClosed (FILE *fh);
+bool     lFileHandleIsOpen (const FILE *fh);
+
 static inline lVal lValFileHandle(FILE *fh){
+	lFileHandleOpened(fh);
 	return (lVal){ltFileHandle, .vFileHandle = fh};
 }
 
diff --git a/lib/val.c b/lib/val.c
index beba35e..3b595dd 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -116,3 +116,32 @@ lVal lValException(const lSymbol *symbol, const char *error, lVal v) {
 	l.type = ltException;
 	return l;
 }
+
+static FILE **lOpenFiles     = NULL;
+static int    lOpenFilesLen  = 0;
+static int    lOpenFilesSize = 0;
+
+bool lFileHandleIsOpen(const FILE *fh){
+	for(int i = 0; i < lOpenFilesLen; i++){
+		if(lOpenFiles[i] == fh){ return true; }
+	}
+	return false;
+}
+
+void lFileHandleOpened(FILE *fh){
+	if(lFileHandleIsOpen(fh)){ return; }
+	if(lOpenFilesLen >= lOpenFilesSize){
+		lOpenFilesSize = lOpenFilesSize + 16;
+		lOpenFiles = realloc(lOpenFiles, lOpenFilesSize * sizeof(FILE *));
+		if(unlikely(lOpenFiles == NULL)){ exit(5); }
+	}
+	lOpenFiles[lOpenFilesLen++] = fh;
+}
+
+void lFileHandleClosed(FILE *fh){
+	for(int i = 0; i < lOpenFilesLen; i++){
+		if(lOpenFiles[i] != fh){ continue; }
+		lOpenFiles[i] = lOpenFiles[--lOpenFilesLen];
+		return;
+	}
+}
-- 
2.43.0


From b20c0e2f89dc04606d06642b52a34f180f09343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 075/108] fix: Failing to close, flush or seek a file raises an
 exception, spit no longer reports success when the content couldn't be stored

---
 bin/port.c    | 15 ++++++++++++---
 binlib/io.nuj |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index c6840de..d029e8f 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -93,7 +93,9 @@ static lVal lnfFileOpenInput(lVal aPathname){
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
 	lFileHandleClosed(aHandle.vFileHandle);
-	fclose(aHandle.vFileHandle);
+	if(fclose(aHandle.vFileHandle)){
+		return lValException(lSymIOError, "IO Error occured during close", NIL);
+	}
 	return NIL;
 }
 
@@ -187,13 +189,18 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 
 static lVal lnfFileFlush(lVal aHandle){
 	reqFileHandle(aHandle);
-	fflush(aHandle.vFileHandle);
+	if(fflush(aHandle.vFileHandle)){
+		return lValException(lSymIOError, "IO Error occured during flush", aHandle);
+	}
 	return aHandle;
 }
 
 static lVal lnfFileTell(lVal aHandle){
 	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
+	if(pos < 0){
+		return lValException(lSymIOError, "That stream has no position", aHandle);
+	}
 	return lValInt(pos);
 }
 
@@ -208,7 +215,9 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 		return lValException(lSymTypeError, "Whence has to be in the range 0-2", aWhence);
 	}
 	const int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;
-	fseek(fh, offset, whence);
+	if(fseek(fh, offset, whence)){
+		return lValException(lSymIOError, "Can't seek to that position", aOffset);
+	}
 	return aHandle;
 }
 
diff --git a/binlib/io.nuj b/binlib/io.nuj
index 14b10f5..b12649f 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -90,7 +90,7 @@
       (when-not fh (return #f))
 
       (try (fn ()
-               (file/close* fh)
+               (try (fn () #nil) (file/close* fh))
                (return #f))
            (file/write* fh content)
            (file/close* fh))
-- 
2.43.0


From a337c32949479a9bc870ee7c2ac6b7ba352cbaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 076/108] fix: An earlier error on a file handle no longer
 makes later successful reads and writes fail

---
 bin/port.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index d029e8f..055ea27 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -132,8 +132,9 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 		if(feof(fh)){
 			return lValInt(bytesRead);
 		}
-		const int r = fread(&((u8 *)buf)[offset + bytesRead], 1, size - bytesRead, fh);
-		if(ferror(fh)){
+		const i64 want = size - bytesRead;
+		const i64 r = fread(&((u8 *)buf)[offset + bytesRead], 1, want, fh);
+		if((r < want) && !feof(fh) && ferror(fh)){
 			return lValException(lSymIOError, "IO Error occured during read", aHandle);
 		}
 		if(r > 0){ bytesRead += r; }
@@ -177,8 +178,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesWritten < size){
-		const int r = fwrite(&((u8 *)buf)[offset + bytesWritten], 1, size - bytesWritten, fh);
-		if(ferror(fh)){
+		const i64 want = size - bytesWritten;
+		const i64 r = fwrite(&((u8 *)buf)[offset + bytesWritten], 1, want, fh);
+		if(r < want){
 			return lValException(lSymIOError, "IO Error occured during write", aHandle);
 		}
 		if(r > 0){ bytesWritten += r; }
-- 
2.43.0


From 9da2d85c26736ec52f186a2513a980037af41e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 077/108] fix: file/copy with an unreadable source leaves the
 destination alone, file/read/single reads again

---
 binlib/io.nuj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b12649f..23f5a85 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -5,7 +5,8 @@
 
 (defn file/copy (source-path destination-path)
       "Copy a file from SOURCE-PATH to DESTINATION-PATH"
-      (spit destination-path (slurp source-path)))
+      (def content (slurp/buffer source-path))
+      (and content (spit destination-path content)))
 
 (defn file/read (path)
       "Read in a file using the Nujel reader"
@@ -13,7 +14,7 @@
 
 (defn file/read/single (path)
       "Read a single value from a file"
-      (car (file/read path)))
+      (car (read (file/read path))))
 
 (defn file/eval (path environment)
        "Evaluate a Nujel source file in the current context"
-- 
2.43.0


From 411dd0522a8e5182c01556cc45328b03a1571b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 078/108] fix: block-read reports the end of a file right away
 instead of returning 0 first

---
 stdlib/string/portng.nuj | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 3f58d3b..f0ab1fd 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -166,9 +166,12 @@
           :temp-buffer (buffer/allocate 16) })
 
   (defn block-read (self buffer size)
-        (if (file/eof*? self.handle)
+        (when (file/eof*? self.handle)
+          (return :end-of-file))
+        (def bytes-read (file/read* self.handle buffer size))
+        (if (and (zero? bytes-read) (file/eof*? self.handle))
             :end-of-file
-            (file/read* self.handle buffer size)))
+            bytes-read))
 
   (defn length (self)
         (or (file/bytes-available* self.handle) 0))
-- 
2.43.0


From 66ce5f23e8d43fc7b78cd802068839bc5a869191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 079/108] fix: Paths containing a zero byte are refused instead
 of acting on some other file

---
 bin/io.c      | 11 ++++++-----
 bin/port.c    |  4 ++--
 bin/private.h |  6 ++++++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/bin/io.c b/bin/io.c
index 1005330..f5eab8a 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -78,7 +78,7 @@ static lVal lnfExit(lVal aStatus){
 }
 
 static lVal lnfFileRemove(lVal aPath){
-	reqString(aPath);
+	reqPath(aPath);
 	unlink(lBufferData(aPath.vString));
 	return aPath;
 }
@@ -95,7 +95,7 @@ LONGLONG FileTime_to_POSIX(FILETIME ft) {
 #endif
 
 static lVal lnfFileStat(lVal aPath){
-	reqString(aPath);
+	reqPath(aPath);
 #ifdef _MSC_VER
 	WIN32_FIND_DATA ffd;
 	LARGE_INTEGER filesize;
@@ -208,6 +208,7 @@ static lVal lnfPopen(lVal aCommand){
 #endif
 
 static lVal lnfDirectoryRead(lVal aPath, lVal aShowHidden){
+	if(aPath.type == ltString){ reqPath(aPath); }
 	const char *path = aPath.type == ltString ? lBufferData(aPath.vString) : "./";
 	const bool showHidden = castToBool(aShowHidden);
 
@@ -267,17 +268,17 @@ static lVal lnfDirectoryRead(lVal aPath, lVal aShowHidden){
 }
 
 static lVal lnfDirectoryMake(lVal aPath){
-	reqString(aPath);
+	reqPath(aPath);
 	return lValBool(makeDir(lBufferData(aPath.vString)) == 0);
 }
 
 static lVal lnfDirectoryRemove(lVal aPath){
-	reqString(aPath);
+	reqPath(aPath);
 	return lValBool(rmdir(lBufferData(aPath.vString)) == 0);
 }
 
 static lVal lnfChangeDirectory(lVal aPath){
-	reqString(aPath);
+	reqPath(aPath);
 	return lValBool(chdir(lBufferData(aPath.vString)) == 0);
 }
 
diff --git a/bin/port.c b/bin/port.c
index 055ea27..6f62f68 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -41,7 +41,7 @@ static lVal lnfFileRaw(lVal handle){
 #endif
 
 static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
-	reqString(aPathname);
+	reqPath(aPathname);
 	const char *path = lBufferData(aPathname.vString);
 	lVal cadr = optionalSymbolic(aIfExists, lSymError);
 	if(unlikely(cadr.type == ltException)){
@@ -85,7 +85,7 @@ static lVal lnfBytesLeftToRead(lVal file){
 
 
 static lVal lnfFileOpenInput(lVal aPathname){
-	reqString(aPathname);
+	reqPath(aPathname);
 	FILE *fh = fopen(lBufferData(aPathname.vString), "rb");
 	return fh ? lValFileHandle(fh) : NIL;
 }
diff --git a/bin/private.h b/bin/private.h
index 6b5892c..8f7ed67 100644
--- a/bin/private.h
+++ b/bin/private.h
@@ -24,6 +24,12 @@ extern lSymbol *lSymError;
 extern lSymbol *lSymReplace;
 extern lSymbol *lSymAppend;
 
+/* Names containing a zero byte would silently refer to some other file */
+#define reqPath(val) do { reqString(val);\
+if(unlikely(memchr(lBufferData(val.vString), 0, lBufferLength(val.vString)))){\
+	return lValException(lSymTypeError, "Paths can't contain zero bytes", val);\
+} } while(0)
+
 void lRedefineEnvironment(lClosure *c);
 void lRedefineFileHandles(lClosure *c);
 
-- 
2.43.0


From d4a51788ed58826b0901a0d8f526b0dfe5714b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 080/108] fix: cwd works in directories whose path is longer
 than 512 bytes

---
 bin/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index f5eab8a..5867959 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -283,7 +283,7 @@ static lVal lnfChangeDirectory(lVal aPath){
 }
 
 static lVal lnfGetCurrentWorkingDirectory(){
-	char path[512];
+	char path[4096];
 	if(!getcwd(path, sizeof(path))){
 		return NIL;
 	}
-- 
2.43.0


From 0661782b126b509715caceb7d91f92ab37bae50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 081/108] fix: Scripts and modules can be named by their
 absolute path, scripts that don't exist are an error

---
 binlib/io.nuj          | 1 +
 stdlib/core/module.nuj | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 23f5a85..754a00d 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -25,6 +25,7 @@
        "Evaluate a Nujel source file in the current context"
        (def mod-name (module/resolve-string (cat (path/without-extension path)) (cwd)))
        (def mod (module/load mod-name))
+       (when-not mod (exception :module-not-found (fmt "Couldn't load {path}")))
        (when-not (= :environment (:type-name mod))
                  (return mod))
        (def exports (ref mod :exports))
diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index c58dc9c..5640482 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -80,7 +80,7 @@
 
 (defn module/resolve-string (name wd)
       :internal
-      (def mod-path wd)
+      (def mod-path (if (= (:index-of name "/") 0) "" wd)) ; Absolute names don't depend on WD
       (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil 0))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
-- 
2.43.0


From 323e90def4cda2451e2c865a490adfeee6189d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 082/108] fix: Environment entries without a = are ignored
 instead of reading past their end

---
 bin/environment.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/environment.c b/bin/environment.c
index 890161d..4d843b4 100644
--- a/bin/environment.c
+++ b/bin/environment.c
@@ -11,7 +11,8 @@
 /* Add environment key/value pair to tree T */
 static lTree *addVar(const char *e, lTree *t){
 	int endOfKey, endOfString;
-	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){}
+	for(endOfKey=0;e[endOfKey] && (e[endOfKey] != '=');endOfKey++){}
+	if(!e[endOfKey]){ return t; }
 	for(endOfString=endOfKey+1;e[endOfString];endOfString++){}
 	lSymbol *sym = lSymSL(e,endOfKey);
 	lVal v = lValString(&e[endOfKey+1]);
-- 
2.43.0


From d41125ad889dac0aa0dc915045cc1f948d7c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 083/108] fix: spit returns #f if the content couldn't be
 written

---
 binlib/io.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 754a00d..ece6edd 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -93,10 +93,10 @@
 
       (try (fn ()
                (try (fn () #nil) (file/close* fh))
-               (return #f))
+               #f)
            (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+           (file/close* fh)
+           #t))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
-- 
2.43.0


From 1a9f7f7f7c8a4806b395760a0fb2b081b392aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 084/108] fix: socket/connect closes sockets that can't
 connect, and terminates if there can't be one

---
 bin/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/net.c b/bin/net.c
index 2f6b7cb..b7b6009 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -34,8 +34,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 	if(errcode != 0){
 		return NIL;
 	}
-	res = result;
-	while (res){
+	for(res = result; res; res = res->ai_next){
 		if(res->ai_family == AF_INET){
 			((struct sockaddr_in*)((void *)res->ai_addr))->sin_port = htons(port.vInt);
 		} else if(res->ai_family == AF_INET6){
@@ -53,11 +52,12 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			freeaddrinfo(result);
 			FILE *fh = fdopen(fd, "rb+");
 			if(fh == NULL){
+				close(fd);
 				return NIL;
 			}
 			return lValFileHandle(fh);
 		}
-		res = res->ai_next;
+		close(fd);
 	}
 
 	freeaddrinfo(result);
-- 
2.43.0


From 93a8fc20280f6b6fa8e201c68711ba1640875c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 085/108] fix: Expressions spanning multiple lines work in the
 REPLs, and malformed ones don't end the tiny one

---
 binlib/tiny-repl.nuj    | 10 ++++++----
 stdlib_modules/repl.nuj |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/binlib/tiny-repl.nuj b/binlib/tiny-repl.nuj
index 25c8387..c758ece 100644
--- a/binlib/tiny-repl.nuj
+++ b/binlib/tiny-repl.nuj
@@ -13,8 +13,10 @@
                  (defn cmd/raw (line)
                        :export
                        (try (fn (err)
-                                (if (= (car err) :unmatched-opening-bracket)
-                                    (cmd/raw ctx (cat line (readline "... ")))
+                                (def next-line (and (= (car err) :unmatched-opening-bracket)
+                                                    (readline "... ")))
+                                (if next-line
+                                    (cmd/raw (cat line "\n" next-line))
                                     (throw err)))
                             (def expr (read line))
                             (when (equal? '() expr)
@@ -29,7 +31,7 @@
                        (def buf "")
                        (def line "")
                        (while (not= (trim line) "[/cmd]")
-                         (set! buf (cat buf line))
+                         (set! buf (cat buf line "\n"))
                          (set! line (readline)))
                        (try exception-handler
                             (def expr (cons do (read buf)))
@@ -48,5 +50,5 @@
 
                  (defn tiny-repl ()
                        (println "Nujel TinyREPL is ready for service!")
-                       (while #t (read-cmd)))
+                       (while #t (try exception-handler (read-cmd))))
 ))
diff --git a/stdlib_modules/repl.nuj b/stdlib_modules/repl.nuj
index 210ab4b..143a9c5 100644
--- a/stdlib_modules/repl.nuj
+++ b/stdlib_modules/repl.nuj
@@ -23,8 +23,10 @@
 (defn cmd/raw (line)
       :export
       (try (fn (err)
-               (if (= (car err) :unmatched-opening-bracket)
-                   (cmd/raw ctx (cat line (readline "... ")))
+               (def next-line (and (= (car err) :unmatched-opening-bracket)
+                                   (readline "... ")))
+               (if next-line
+                   (cmd/raw (cat line "\n" next-line))
                    (throw err)))
            (def expr (read line))
            (when (equal? '() expr)
@@ -39,7 +41,7 @@
       (def buf "")
       (def line "")
       (while (not= (trim line) "[/cmd]")
-             (set! buf (cat buf line))
+             (set! buf (cat buf line "\n"))
              (set! line (readline)))
       (def expr (cons do (read buf)))
       (def result (eval-in ctx expr))
-- 
2.43.0


From 051907f150f133631c4d2047b921099e66a76a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 086/108] fix: An error within the argument of -x no longer
 makes the next option get evaluated as code

---
 binlib/init.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 547695f..01ae55a 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -61,9 +61,9 @@
 
             (defn init/parse-arg (arg args)
                   (cond (init/parse-args/ignore-next (set! init/parse-args/ignore-next #f))
-                        (init/parse-args/eval-next (try print/error
-                                                        (eval-in root-closure (cons do (read arg)))
-                                                        (set! init/parse-args/eval-next #f)))
+                        (init/parse-args/eval-next (set! init/parse-args/eval-next #f)
+                                                   (try print/error
+                                                        (eval-in root-closure (cons do (read arg)))))
                         (init/parse-args/eval-next-module (try (fn (e)
                                                                    (print/error e)
                                                                  (exit 1))
-- 
2.43.0


From c848db32228b181a112f4014f3c66b4b05eb5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 087/108] fix: A period in the name of a directory isn't the
 start of a path's extension

---
 stdlib/string/path.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/path.nuj b/stdlib/string/path.nuj
index 4110c80..de05896 100644
--- a/stdlib/string/path.nuj
+++ b/stdlib/string/path.nuj
@@ -17,14 +17,14 @@
 (defn path/extension (path)
       "Return the extension of PATH"
       (def last-period (:last-index-of path "."))
-      (if (>= last-period 0)
+      (if (> last-period (:last-index-of path "/")) ; A period in the name of a directory does not count
           (:cut path (+ 1 last-period) (:length path))
           path))
 
 (defn path/without-extension (path)
       "Return PATH, but without the extension part"
       (def last-period (:last-index-of path "."))
-      (if (>= last-period 0)
+      (if (> last-period (:last-index-of path "/")) ; A period in the name of a directory does not count
           (:cut path 0 last-period)
           path))
 
-- 
2.43.0


From a52b6d32fdeb4991596311462bb686038dca78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 088/108] fix: fn* and macro* refuse bodies and argument lists
 they can't work with

---
 lib/vm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index f04b87f..744f843 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -21,6 +21,16 @@ static inline void lClosureSetMeta(lClosure *c, lVal doc){
 /* Create a new Lambda Value */
 static inline lVal lLambdaNew(lClosure *parent, lVal args, lVal body){
 	reqBytecodeArray(body);
+	for(lVal n = args; n.type != ltNil; n = n.vList->cdr){
+		if(n.type != ltPair){
+			reqSymbolic(n);
+			break;
+		}
+		const lVal arg = n.vList->car;
+		if(arg.type != ltNil){
+			reqSymbolic(arg);
+		}
+	}
 	lVal ret = lValAlloc(ltLambda, lClosureNew(parent, closureDefault));
 	ret.vClosure->args = args;
 	ret.vClosure->text = body.vBytecodeArr;
@@ -746,6 +756,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal cDocs = ctx.valueStack[ctx.sp--];
 		lVal cArgs = ctx.valueStack[ctx.sp--];
 		lVal fun = lLambdaNew(c, cArgs, cBody);
+		if(unlikely(fun.type == ltException)){
+			lThrow(fun);
+		}
 		lClosureSetMeta(fun.vClosure, cDocs);
 		if(unlikely(curOp == lopMacroDynamic)){
 			fun.type = ltMacro;
-- 
2.43.0


From cdcabfccd04edc908b1355ecc17b8d504a9ed3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 089/108] fix: list-drop stops at the end of the list, range
 refuses a step of zero

---
 stdlib/collections/lists.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index cdb7ea7..1dc0a8f 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -37,6 +37,7 @@
       (when-not end   (exception :arity-error "(range) needs at least a specific end"))
       (when-not start (set! start 0))
       (when-not step  (set! step 1))
+      (when (= step 0) (exception :type-error "(range) needs a step that isn't zero"))
       (def pred (if (pos? step) < >))
       (def ret #nil)
       (while (pred start end)
@@ -125,7 +126,7 @@
 
 (defn list-drop (l count)
       "Drop the final COUNT elements from list L"
-      (if (<= count 0)
+      (if (or (<= count 0) (nil? l))
           l
           (list-drop (cdr l) (- count 1))))
 
-- 
2.43.0


From 8870e1e9ad247b0f0271ac0a3fa7a5639b562431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 090/108] fix: do without forms is #nil, apply needs a function
 and at most one list

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 12 +++++++-----
 stdlib/compiler/frontend/macroexpander.nuj    |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index d3adeb2..28cc867 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -23,10 +23,11 @@
                                 (otherwise ($push/val source))))
 
                     (defn bytecompile/do/form (source env)
-                          (when source (cons (cons (bytecompile* (car source) env)
-                                                   (if (last? source) #nil
-                                                       (cons ($drop) #nil)))
-                                             (bytecompile/do/form (cdr source) env))))
+                          (cons (cons (bytecompile* (car source) env)
+                                      (if (last? source) #nil
+                                          (cons ($drop) #nil)))
+                                (when (cdr source)
+                                  (bytecompile/do/form (cdr source) env))))
 
                     (defn bytecompile/do (source env)
                           (list (bytecompile/do/form (cdr source) env)))
@@ -191,7 +192,8 @@
                                 ((= arg-count 2)
                                  (list (bytecompile* (cadr source) env)
                                        (bytecompile* (caddr source) env)
-                                       ($apply/collection)))))
+                                       ($apply/collection)))
+                                (#t (throw (list :arity-error "(apply) needs a function and a list of arguments" source env)))))
 
                     (defn bytecompile* (source env)
                           "Compile the forms in source"
diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index dbc26b9..775eace 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -69,7 +69,7 @@
                                 (:native-function
                                  (case op
                                        (quote source)
-                                       (do                  (macroexpand-do   source env))
+                                       (do                  (macroexpand-do   (cdr source) env))
                                        (return              (macroexpand-form source env op 1 #f #b0))
                                        ((try while)         (macroexpand-form source env op 1 #t #b0))
                                        (set!                (macroexpand-set  source env))
-- 
2.43.0


From 259f41f29f8ca3965cae32a02f9d3371cbde94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 091/108] fix: the disassembler lists try, negative bytes and
 wide literals correctly

---
 .../compiler/backend_bytecode/assembler.nuj   | 10 ++---
 .../backend_bytecode/disassembler.nuj         | 37 +++++++++++--------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index fb3152e..ea74581 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -138,16 +138,16 @@
       '(#x18))
 
 (defn $fn/dynamic ()
-      ; (name args docs body) -> (λ) --- Create a new λ
+      ; (args docs body) -> (λ) --- Create a new λ
       :internal
       :inline
-      '(#x2F))
+      '(#x17))
 
 (defn $macro/dynamic ()
-      ; (name args docs body) -> (μ) --- Create a new μ
+      ; (args docs body) -> (μ) --- Create a new μ
       :internal
       :inline
-      '(#x30))
+      '(#x18))
 
 (defn $add ()
       ; (a b) -> (result)
@@ -336,7 +336,7 @@
 (defn $throw ()
       ; (v) -> () --- Throw an exception
       :internal
-      #x2F)
+      '(#x2F))
 
 (defn $jmp (target)
       :internal
diff --git a/stdlib/compiler/backend_bytecode/disassembler.nuj b/stdlib/compiler/backend_bytecode/disassembler.nuj
index b0a0285..7574201 100644
--- a/stdlib/compiler/backend_bytecode/disassembler.nuj
+++ b/stdlib/compiler/backend_bytecode/disassembler.nuj
@@ -8,9 +8,9 @@
                    (defn disassemble/length (op)
                          ; Return the length in bytes of a bytecode operation and all its arguments
                          (case op
-                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x19 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
+                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
                                ((#x2 #x4 #x5 #x7 #xE #x1A #x2E) 2)
-                               ((#x6 #x8 #x9 #xA #xB #xF #x10 ) 3)
+                               ((#x6 #x8 #x9 #xA #xB #xF #x10 #x19) 3)
                                (otherwise (exception :unknown-op "This op needs its length specified for disassembly to work" op))))
 
                    (defn bytecode/nil-catcher (error) (if (= (car error) :type-error) #nil (throw error)))
@@ -26,16 +26,27 @@
                    (defn bytecode-op->offset (a b)
                          ; Turn two bytecode ops encoding an offset into the integer representation
                          (def t (bit-or (bit-shift-left a 8) b))
-                         (if-not (> t 32768) t
-                                 (- (- 65536 t))))
+                         (if (< t 32768) t
+                             (- t 65536)))
+
+                   (defn bytecode-arr->byte (a i)
+                         ; Read a signed byte in A at I
+                         (def v (ref a i))
+                         (if (< v 128) v
+                             (- v 256)))
+
+                   (defn bytecode-arr->literal/ext (a i literals)
+                         ; Read a literal with a 16-bit index in A at I, quoted if necessary
+                         (disassemble/maybe-quote (ref literals (bit-or (bit-shift-left (ref a i) 8)
+                                                                        (ref a (+ i 1))))))
 
                    (defn bytecode-arr->offset (a i)
                          ; Read a bytecode encoded offset in A at I and return it as a signed integer
                          (bytecode-op->offset (ref a i) (ref a (+ 1 i))))
 
                    (defn disassemble/maybe-quote (v)
-                         ; Quotes symbols but just passes through every other value
-                         (cond ((symbol? v) (list 'quote v))
+                         ; Quotes symbols and lists but just passes through every other value
+                         (cond ((or (symbol? v) (pair? v)) (list 'quote v))
                                ((bytecode-array? v) (disassemble/bytecode-array v))
                                (#t v)))
 
@@ -44,25 +55,21 @@
                          (case (ref a i)
                                (#x0  '($nop))
                                (#x1  '($ret))
-                               (#x2  `($push/int/byte ~(ref a (+ i 1))))
+                               (#x2  `($push/int/byte ~(bytecode-arr->byte a (+ i 1))))
                                (#x3  '($add/int))
                                (#x4  `($apply ~(ref a (+ i 1))))
                                (#x5  `($set/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x6  `($push/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                            (bit-shift-left (ref a (+ i 2))) 8))))
+                               (#x6  `($push/val/ext ~(bytecode-arr->literal/ext a (+ i 1) literals)))
                                (#x7  `($def/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x8  `($def/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#x8  `($def/val/ext ~(bytecode-arr->literal/ext a (+ i 1) literals)))
                                (#x9  `($jmp*  ~(bytecode-arr->offset a (+ i 1))))
                                (#xA  `($jt*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xB  `($jf*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xC  '($dup))
                                (#xD  '($drop))
                                (#xE  `($get/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#xF  `($get/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
-                               (#x10 `($set/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#xF  `($get/val/ext ~(bytecode-arr->literal/ext a (+ i 1) literals)))
+                               (#x10 `($set/val/ext ~(bytecode-arr->literal/ext a (+ i 1) literals)))
                                (#x11 '($car))
                                (#x12 '($cdr))
                                (#x13 '($closure/push))
-- 
2.43.0


From e345b2d7476756fe3843c9f479c8f9fb5fcc6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 092/108] fix: JSON strings are escaped like JSON demands,
 serialising leaves arrays alone

---
 stdlib_modules/serialization/json.nuj | 29 +++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/stdlib_modules/serialization/json.nuj b/stdlib_modules/serialization/json.nuj
index 0287c5c..33f1d7a 100644
--- a/stdlib_modules/serialization/json.nuj
+++ b/stdlib_modules/serialization/json.nuj
@@ -3,12 +3,32 @@
 ;;;
 ;;; Contains subroutines for (de-)serializing JSON
 
+(defn string->json (v)
+      "Return V, which has to be a string, as a JSON encoded string"
+      (def p (:new StringOutputPort))
+      (:block-write p "\"")
+      (dotimes (i (:length v))
+        (def c (ref v i))
+        (case c
+              (#x08 (:block-write p "\\b"))
+              (#x09 (:block-write p "\\t"))
+              (#x0A (:block-write p "\\n"))
+              (#x0C (:block-write p "\\f"))
+              (#x0D (:block-write p "\\r"))
+              (#x22 (:block-write p "\\\""))
+              (#x5C (:block-write p "\\\\"))
+              (otherwise (if (< c #x20)
+                             (:block-write p (cat "\\u" (pad-start (int->string/HEX c) 4 "0")))
+                             (:char-write p c)))))
+      (:block-write p "\"")
+      (:return-string p))
+
 (defn tree->json (v)
       "Converts a tree into a JSON encoded string, you should prefer VAL->JSON"
       (cat "{"
            (join (map (:keys v)
                       (fn (k)
-                        (cat "\"" (:string k) "\": "
+                        (cat (string->json (:string k)) ": "
                              (val->json (ref v k)))))
                  ",\n")
            "}"))
@@ -20,9 +40,10 @@
             (:nil "null")
             ((:int :float) (:string v))
             (:bool (if v "true" "false"))
-            ((:array :pair) (cat "[" (join (map v val->json) ",") "]"))
-            (:string (string/write v))
-            ((:symbol :keyword)  (cat "\"" (:string v) "\""))
+            (:array (cat "[" (join (map (array/dup v) val->json) ",") "]"))
+            (:pair (cat "[" (join (map v val->json) ",") "]"))
+            (:string (string->json v))
+            ((:symbol :keyword) (string->json (:string v)))
             (:tree (tree->json v))
             (otherwise (exception :type-error "Can't encode the value into JSON" v))))
 
-- 
2.43.0


From eb0f3dde4010a9549ef548a067322de68dbb09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 093/108] fix: --no-color and ansi/disable! leave out color
 codes

---
 binlib/init.nuj         | 4 ++--
 stdlib_modules/ansi.nuj | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 01ae55a..9eb23ea 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -37,11 +37,11 @@
             (set! init/option-map 'no-color
                        (fn (option)
                            (import (disable!) :ansi)
-                         (set! disable! #t)))
+                         (disable! #t)))
             (set! init/option-map 'color
                        (fn (option)
                            (import (disable!) :ansi)
-                         (set! disable! #f)))
+                         (disable! #f)))
             (set! init/option-map 'x
                        (fn (option)
                            (set! init/parse-args/eval-next #t)
diff --git a/stdlib_modules/ansi.nuj b/stdlib_modules/ansi.nuj
index 4d4e25b..6d4eee4 100644
--- a/stdlib_modules/ansi.nuj
+++ b/stdlib_modules/ansi.nuj
@@ -7,7 +7,7 @@
 (def disabled #f)
 (defn disable! (v)
       :export
-      (set! disabled (if (nil? v) #t v)))
+      (set! disabled (if (or (nil? v) v) "" #f)))
 
 (export reset (def reset "\e[0m"))
 (export fg-reset (def fg-reset "\e[0;39m"))
-- 
2.43.0


From 0c20b0d560bef440847c1cc5abcafaa51d408b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 094/108] fix: The highlighter copes with superfluous brackets
 and text ending in # or |

---
 stdlib_modules/pretty/nujel.nuj | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stdlib_modules/pretty/nujel.nuj b/stdlib_modules/pretty/nujel.nuj
index 6f1af63..b092dc2 100644
--- a/stdlib_modules/pretty/nujel.nuj
+++ b/stdlib_modules/pretty/nujel.nuj
@@ -34,6 +34,9 @@
                   "<span class=\"nujel-hl-14\">"
                   "<span class=\"nujel-hl-15\">"])
 
+(defn char-at (source i)
+      (if (< i (:length source)) (ref source i) 0))
+
 (defn comment-block (source i pp colors)
       (def len (:length source))
       (:block-write pp (ref colors 8))
@@ -42,10 +45,10 @@
       (while (< i len)
         (def c (ref source i))
         (cond ((and (= c #\#)
-                    (= (ref source (inc/int i)) #\|))
+                    (= (char-at source (inc/int i)) #\|))
                (set! i (comment-block source i pp colors)))
               ((and (= c #\|)
-                    (= (ref source (inc/int i)) #\#))
+                    (= (char-at source (inc/int i)) #\#))
                (:block-write pp "|#")
                (:block-write pp (ref colors 0))
                (return (+ 2 i)))
@@ -82,7 +85,7 @@
       (return i))
 
 (defn literal-special (source i pp colors)
-      (def n (ref source (inc i)))
+      (def n (char-at source (inc i)))
       (case n
             (#\! (return (comment-eol source i pp colors)))
             (#\| (return (comment-block source i pp colors)))
@@ -183,7 +186,9 @@
       (def colors (case output-format
                                (:html html-colors)
                                (otherwise ansi-colors)))
-      (top source 0 pp colors 0)
+      (def i 0)
+      (while (< i (:length source)) ; Superfluous closing brackets end TOP early
+        (set! i (top source i pp colors 0)))
       (:return-string pp))
 
 (defn main (args)
-- 
2.43.0


From 9b5b51c31d81586d4f1b97af2d4fe51ebfb679d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 095/108] fix: Backspace at the start of the buffer does
 nothing

---
 stdlib_modules/app/termed/buffer.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stdlib_modules/app/termed/buffer.nuj b/stdlib_modules/app/termed/buffer.nuj
index c93d6e8..b10fcf6 100644
--- a/stdlib_modules/app/termed/buffer.nuj
+++ b/stdlib_modules/app/termed/buffer.nuj
@@ -137,6 +137,7 @@
         (:length! lines (max 0 ll)))
 
   (defn backward-delete-line (self)
+        (when (< self.pos-y 1) (return))
         (def clipboard (:kill-line self))
         (:remove-line self)
         (set! self.pos-y (- self.pos-y 1))
-- 
2.43.0


From e9d6a0b6b0a7e8212c9dc68639513415acc8c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 096/108] fix: join always returns a string

---
 stdlib/collections/collection.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/collections/collection.nuj b/stdlib/collections/collection.nuj
index 4b1e9e4..d7dd5b9 100644
--- a/stdlib/collections/collection.nuj
+++ b/stdlib/collections/collection.nuj
@@ -45,7 +45,7 @@
       "Join every element of α together into a string with GLUE inbetween"
       (when-not glue (set! glue ""))
       (when-not l (return ""))
-      (reduce l (fn (a b) (if a (cat a glue b) b)) #nil))
+      (cat (reduce l (fn (a b) (if a (cat a glue b) b)) #nil)))
 
 (defn for-each (l f)
       "Runs F over every item in collection L"
-- 
2.43.0


From fec26ffc14186e188bcf42daa329a716d393e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 097/108] fix: keep the zeroes after a digit separator at the
 start of a fraction

---
 lib/reader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index ce8997a..c59f2d5 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -285,8 +285,10 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 	if(*s->data == '.'){
 		s->data++;
 		int mantissaLeadingZeroes = 0;
-		while(*s->data == '0'){
-			mantissaLeadingZeroes++;
+		while((*s->data == '0') || isnumericseparator(*s->data)){
+			if(*s->data == '0'){
+				mantissaLeadingZeroes++;
+			}
 			s->data++;
 		}
 		const lVal mantissaVal = lParseNumberBase(s, base, maxDigits);
-- 
2.43.0


From 15b2a09c33edd63b97a852e9e089df3b30348d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 098/108] fix: keep recognising keys after an unknown input
 sequence

---
 stdlib_modules/term/TermApp.nuj | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/stdlib_modules/term/TermApp.nuj b/stdlib_modules/term/TermApp.nuj
index 0f3dfb8..67f344f 100644
--- a/stdlib_modules/term/TermApp.nuj
+++ b/stdlib_modules/term/TermApp.nuj
@@ -128,32 +128,34 @@
 
         (def c (ref self.input-buffer 0))
         (when (= c 194) ;; Meta digit Input
+          (when (< self.input-buffer-pos 2) (return))
           (def d (ref self.input-buffer 1))
-          (when (= d 0)
-            (return))
           (when (and (>= d 160) (<= d 191))
             (def key (:keyword (fmt "M-{}" (from-char-code (+ #x20 (- d 160))))))
             (:add-input-event self { :T :key-down :key key })
             (:pop-input-buffer! self 2)
             (return (:parse-input-buffer self)))
+          (:pop-input-buffer! self 2)
           (exception :invalid-input (fmt "Unknown meta input: {d:X}") d))
         (when (= c 195) ;; Meta Char Input
+          (when (< self.input-buffer-pos 2) (return))
           (def d (ref self.input-buffer 1))
-          (when (= d 0)
-            (return))
           (when (and (>= d 129) (<= d 186))
             (def key (:keyword (fmt "M-{}" (from-char-code (+ #x20 (- d 96))))))
             (:add-input-event self { :T :key-down :key key })
             (:pop-input-buffer! self 2)
             (return (:parse-input-buffer self)))
+          (:pop-input-buffer! self 2)
           (exception :invalid-input (fmt "Unknown meta input: {d:X}") d))
         (when (= c #x1B) ; Escaped Input
+          (when (< self.input-buffer-pos 2) (return))
           (def d (ref self.input-buffer 1))
           (when (= d #x1B) ; Double Escape
             (:add-input-event self { :T :key-down :key :escape })
             (:pop-input-buffer! self 2)
             (return (:parse-input-buffer self)))
           (when (= d 79) ; F Input
+            (when (< self.input-buffer-pos 3) (return))
             (def e (ref self.input-buffer 2))
             (when (and (>= e 80) (< e 92))
               (def key (:keyword (fmt "F{}" (- e 79))))
@@ -161,15 +163,15 @@
               (:pop-input-buffer! self 3)
               (return (:parse-input-buffer self))))
           (when (= d #\[) ; Bracketed Input
+            (when (< self.input-buffer-pos 3) (return))
             (def e (ref self.input-buffer 2))
             (case e
-                  (0 (return))
                   #;(0 (:add-input-event self { :T :key-down :key (:keyword "M-[") })
                      (:pop-input-buffer! self 2)
                      (return (:parse-input-buffer self)))
                   ((#x32 #x33 #x35 #x36)
+                   (when (< self.input-buffer-pos 4) (return))
                    (def f (ref self.input-buffer 3))
-                   (when (= f 0) (return))
                    (when (= f #x37)
                      (:add-input-event self { :T :key-down :key :print })
                      (:pop-input-buffer! self 4)
@@ -184,9 +186,11 @@
                                                 :key :page-up }))
                            (#x36 (:add-input-event self { :T :key-down
                                                           :key :page-down }))
-                           (otherwise (exception :invalid-input (fmt "Unknown bracketed input: {e:X}") e)))
+                           (otherwise (:pop-input-buffer! self 4)
+                                      (exception :invalid-input (fmt "Unknown bracketed input: {e:X}") e)))
                      (:pop-input-buffer! self 4)
                      (return (:parse-input-buffer self)))
+                   (:pop-input-buffer! self 4)
                    (exception :invalid-input (fmt "Unknown bracketed input suffix: {f:X}") f))
                   (#\A (:add-input-event self { :T :key-down
                                                 :key :up }))
@@ -200,7 +204,8 @@
                                                 :key :end }))
                   (#\H (:add-input-event self { :T :key-down
                                                 :key :home }))
-                  (otherwise (exception :invalid-input (fmt "Unknown bracketed input: {e:X}") e)))
+                  (otherwise (:pop-input-buffer! self 3)
+                             (exception :invalid-input (fmt "Unknown bracketed input: {e:X}") e)))
             (:pop-input-buffer! self 3)
             (return (:parse-input-buffer self)))
           (when (= d 127)
@@ -225,7 +230,9 @@
             (def key (:keyword (fmt "M-{}" (from-char-code d))))
             (:add-input-event self { :T :key-down :key key })
             (:pop-input-buffer! self 2)
-            (return (:parse-input-buffer self))))
+            (return (:parse-input-buffer self)))
+          (:pop-input-buffer! self 2) ; No key we know of
+          (return))
         (when (< c 27)
           (when (= c 0)
             (:add-input-event self { :T :key-down :key :C-spc })
@@ -268,7 +275,8 @@
                                    :char (buffer->string self.input-buffer 1 0)
                                    })
           (:pop-input-buffer! self 1)
-          (return (:parse-input-buffer self))))
+          (return (:parse-input-buffer self)))
+        (:pop-input-buffer! self 1))
 
   (defn parse-input-key (self key)
         (when key
-- 
2.43.0


From cc968ee5b0af64d7aaa5b0aeace1d06815bd413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 099/108] fix: show control characters as blanks and ignore
 text below the screen

---
 stdlib_modules/term/TermApp.nuj | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib_modules/term/TermApp.nuj b/stdlib_modules/term/TermApp.nuj
index 67f344f..5ff26f1 100644
--- a/stdlib_modules/term/TermApp.nuj
+++ b/stdlib_modules/term/TermApp.nuj
@@ -63,7 +63,9 @@
                             (when (not= (bit-shift-right bc 8) last-color)
                               (:set-color-code term (bit-shift-right bc 8))
                               (set! last-color (bit-shift-right bc 8)))
-                            (:put-char term (bit-and #xFF bc))
+                            (def c (bit-and bc #xFF))
+                            ; Control characters would move the cursor
+                            (:put-char term (if (or (< c #x20) (= c #x7F)) #x20 c))
                             (set! frontbuffer off (bit-and bc #xFF))
                             (set! frontbuffer (inc off) (bit-shift-right bc 8)))))
         (when (and (> self.cursor-x 0)
@@ -99,6 +101,7 @@
         (set! y (max 0 y))
         (set! w (min (- self.width x) w (:length text)))
         (set! h (min (- self.height y) h))
+        (when (<= h 0) (return self))
         (def off (* 2 (+ x (* y self.width))))
         (def bb self.backbuffer)
         (dotimes (i w self)
-- 
2.43.0


From 1b10c5228f00f9c501e41f3b3b3c06f81253c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 100/108] fix: hand TermApp's ports over to its terminal in the
 right order

---
 stdlib_modules/term/TermApp.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/term/TermApp.nuj b/stdlib_modules/term/TermApp.nuj
index 5ff26f1..8be0d01 100644
--- a/stdlib_modules/term/TermApp.nuj
+++ b/stdlib_modules/term/TermApp.nuj
@@ -8,7 +8,7 @@
   :export
 
   (defn new (self in out)
-        (def term (:new VT100 in out))
+        (def term (:new VT100 out in))
         (:start term)
         (def ret { :term term
                    :width 0
-- 
2.43.0


From 769fb7109c24a8e9b1866e8376b3a01519a2ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 101/108] fix: save and restore the cursor while asking for the
 terminal's size

---
 stdlib_modules/term/VT100.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib_modules/term/VT100.nuj b/stdlib_modules/term/VT100.nuj
index fc71833..0bfc95e 100644
--- a/stdlib_modules/term/VT100.nuj
+++ b/stdlib_modules/term/VT100.nuj
@@ -111,7 +111,7 @@
 
   (defn get-size (self)
         :export
-        (:block-write self.out-port "\e 7")
+        (:block-write self.out-port "\e7")
         (:block-write self.out-port "\e[9999;9999H")
         (:block-write self.out-port "\e[6n")
         (:flush-output self.out-port)
@@ -120,7 +120,7 @@
         (while #t
           (def c (:char-read self.in-port))
           (when (= c #\R)
-            (:block-write self.out-port "\e 8")
+            (:block-write self.out-port "\e8")
             (def s (split (cut (buffer->string buf i) 2) ";"))
             (return { :width (read/int (cadr s))
                       :height (read/int (car s))}))
-- 
2.43.0


From 419a2ada6a9b6781789ed76477d396af74419a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 102/108] fix: keep the editor's cursor on screen in small
 terminals

---
 stdlib_modules/app/termed.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/app/termed.nuj b/stdlib_modules/app/termed.nuj
index 25f1607..e6dc429 100644
--- a/stdlib_modules/app/termed.nuj
+++ b/stdlib_modules/app/termed.nuj
@@ -106,7 +106,7 @@
 
       (when (> (- buf.pos-y buf.scroll-y) frame-height)
         (clear-frame)
-        (set! buf.scroll-y (* scroll-interval (int (ceil (/ (- buf.pos-y frame-height) scroll-interval))))))
+        (set! buf.scroll-y (min buf.pos-y (* scroll-interval (int (ceil (/ (- buf.pos-y frame-height) scroll-interval)))))))
 
       (when (< buf.scroll-y 0)
         (set! buf.scroll-y 0)))
-- 
2.43.0


From c4d7efea36d88d9b364fa0bcb1e503500355694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 103/108] fix: allow writing to a socket after reading a part
 of what arrived

---
 bin/net.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/net.c b/bin/net.c
index b7b6009..0ae1d4d 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -55,6 +55,9 @@ static lVal lnfSocketConect(lVal host, lVal port){
 				close(fd);
 				return NIL;
 			}
+			/* Bytes read ahead couldn't be pushed back before a write, since sockets
+			 * can't seek, so both directions go without a buffer */
+			setvbuf(fh, NULL, _IONBF, 0);
 			return lValFileHandle(fh);
 		}
 		close(fd);
-- 
2.43.0


From 99d8e748588f474589d045d8473cb410194ac448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 104/108] fix: make HTTP requests work and return exactly the
 bytes received

---
 stdlib_modules/net/http.nuj | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stdlib_modules/net/http.nuj b/stdlib_modules/net/http.nuj
index 44745bb..ae353a7 100644
--- a/stdlib_modules/net/http.nuj
+++ b/stdlib_modules/net/http.nuj
@@ -32,10 +32,10 @@
       (when (< eoh 0) (return #nil))
 
       (def headers {})
-      (def body (:cut buf (+ 4 eoh)))
-      (def status-list (split (buffer->string buf eosl) " "))
+      (def body (:cut buf (+ 4 eoh) bytes-read))
+      (def status-list (split (:cut raw-res 0 eosl) " "))
       (def status-code (read/int (cadr status-list)))
-      (doseq (header (split (buffer->string buf eoh (+ 2 eosl)) "\r\n"))
+      (doseq (header (split (:cut raw-res (+ 2 eosl) eoh) "\r\n"))
              (def eok (:index-of header ":"))
              (when (>= eok 0)
                (def key (:keyword (:cut header 0 eok)))
@@ -56,8 +56,8 @@
         (set! url (:cut url 7))
         (def path-start (:index-of url "/"))
         (return (if (>= path-start 0)
-                    (http/req* "GET"
-                               (:cut url 0 path-start)
-                               (:cut url path-start))
-                    (http/req* "GET" url "/"))))
+                    (req* "GET"
+                          (:cut url 0 path-start)
+                          (:cut url path-start))
+                    (req* "GET" url "/"))))
       (error "unsupported scheme"))
-- 
2.43.0


From 2a40b6f13540cf52f5acec32a142caf3122f0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 105/108] fix: join keeps a leading element that is #f

---
 stdlib/collections/collection.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/collections/collection.nuj b/stdlib/collections/collection.nuj
index d7dd5b9..606a7b6 100644
--- a/stdlib/collections/collection.nuj
+++ b/stdlib/collections/collection.nuj
@@ -45,7 +45,7 @@
       "Join every element of α together into a string with GLUE inbetween"
       (when-not glue (set! glue ""))
       (when-not l (return ""))
-      (cat (reduce l (fn (a b) (if a (cat a glue b) b)) #nil)))
+      (cat (reduce l (fn (a b) (if a (cat a glue b) (cat b))) #nil)))
 
 (defn for-each (l f)
       "Runs F over every item in collection L"
-- 
2.43.0


From a01d29773eb3f40bb6b3ce6c27f4acbb6eb44e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 106/108] fix: the gopher client reports hosts it can not reach
 instead of raising

---
 stdlib_modules/net/gopher.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stdlib_modules/net/gopher.nuj b/stdlib_modules/net/gopher.nuj
index 67f3d26..be4b211 100644
--- a/stdlib_modules/net/gopher.nuj
+++ b/stdlib_modules/net/gopher.nuj
@@ -25,6 +25,7 @@
 (defn get* (host path port)
       (def buf (buffer/allocate 0))
       (def fh (socket/connect host port))
+      (when-not fh (return #nil))
       (file/write* fh path (:length path))
       (file/write* fh "\r\n" 2)
       (file/flush* fh)
-- 
2.43.0


From b2c916ad7fee653c07c8270318ab727b6442671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 107/108] fix: the gopher browser survives dead links and
 files, and draws what it shows within its window

---
 stdlib_modules/app/gopher.nuj | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/stdlib_modules/app/gopher.nuj b/stdlib_modules/app/gopher.nuj
index 1da4d76..e3d55c6 100644
--- a/stdlib_modules/app/gopher.nuj
+++ b/stdlib_modules/app/gopher.nuj
@@ -50,11 +50,19 @@
       (def url page.url)
       (fmt "{url}{}" (if (> y 0) (fmt " - L{y}") "")))
 
+(defn put-text (text width)
+      "Put the start of TEXT that fits into WIDTH columns, without any control characters"
+      (def visible (buffer/allocate (max 0 (min width (:length text)))))
+      (dotimes (i (:length visible))
+               (def c (ref text i))
+               (set! visible i (if (or (< c #x20) (= c #x7F)) #x20 c)))
+      (:put-string term (buffer->string visible)))
+
 (defn draw-modeline (page)
       (:move-cursor term 1 (dec screen-height))
       (:set-color term :yellow :blue)
       (def colored-modeline (cat " " (pad-end (get-modeline page) (dec screen-width))))
-      (:put-string term colored-modeline)
+      (put-text colored-modeline screen-width)
       (:set-color term :default :default))
 
 (defn draw-map (data page)
@@ -73,7 +81,7 @@
                  (:set-color term :blue :default))
                (when (= e cur-page.item)
                  (:set-color term :yellow :blue))
-               (:put-string term e.display)
+               (put-text e.display (- screen-width 7))
                (:set-color term :default :default))
              (inc! y)))
 
@@ -86,7 +94,7 @@
              (when (> cy frame-height) (return))
              (when (>= cy 0)
                (:move-cursor term 2 (inc cy))
-               (:put-string term e))
+               (put-text e (dec screen-width)))
              (inc! y)))
 
 (defn draw-page (page)
@@ -207,7 +215,7 @@
                   (doseq (e page.data)
                          (when (not= :i e.type)
                            (return (set! page.item e)))))
-                (when (= page.type :0)
+                (when (string? page.data)
                   (set! page.data (split page.data "\n")))))
 
 (defn get-item-pos (page)
@@ -240,7 +248,7 @@
       (set! screen-width s.width)
       (set! screen-height s.height)
       (set! frame-height (- screen-height 3))
-      (set! scroll-interval (int (/ frame-height 2)))
+      (set! scroll-interval (max 1 (int (/ frame-height 2))))
       (when (car args)
         (set! cur-page.url (car args)))
       (draw-screen)
-- 
2.43.0


From ef3d23b301119fa3b7a18fd4652fe2c2be7a1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:51 +0000
Subject: [PATCH 108/108] fix: setting a closure's parent can't make it its own
 ancestor

---
 lib/type-system.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/type-system.c b/lib/type-system.c
index c4d7127..1c1ffbd 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -171,6 +171,12 @@ static lVal lnmLambdaParentSet(lVal self, lVal v){
 		self.vClosure->parent = NULL;
 	} else {
 		reqClosure(v);
+		/* Looking up a variable wouldn't end if SELF became an ancestor of itself */
+		for(const lClosure *c = v.vClosure; c; c = c->parent){
+			if(unlikely(c == self.vClosure)){
+				return lValException(lSymTypeError, "A closure can't be its own ancestor", v);
+			}
+		}
 		self.vClosure->parent = v.vClosure;
 	}
 	return self;
-- 
2.43.0

