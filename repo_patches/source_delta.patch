From 483ef23a4c6953063b64bd37f17603a7a8676db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 01/78] Add guarded verification hooks: forced GC schedules and
 poisoning of freed cells

---
 lib/core-operators.c     |  3 +++
 lib/garbage-collection.c | 18 ++++++++++++++++
 lib/nujel-private.h      |  5 +++++
 lib/verif.c              | 44 ++++++++++++++++++++++++++++++++++++++++
 lib/vm.c                 |  8 +++++++-
 5 files changed, 77 insertions(+), 1 deletion(-)
 create mode 100644 lib/verif.c

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..4f0ca7c 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -205,6 +205,9 @@ void lInit(){
 	lOperationsArray();
 	lOperationsTree();
 	lOperationsBytecode();
+#ifdef NUJEL_VERIF
+	lOperationsVerif();
+#endif
 	lOperationsString();
 }
 
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index a105907..ea544b4 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -240,12 +240,30 @@ lSymbol *lRootsSymbolPush(lSymbol *v){
 	return v;
 }
 
+#ifdef NUJEL_VERIF
+/* Overwrite everything in a freed cell, apart from the free list link */
+#define defineAllocator(T, TMAX) \
+static void T##Poison(T *v){ \
+	T *next = v->nextFree; \
+	memset(v, 0xA5, sizeof(T)); \
+	v->nextFree = next; \
+}
+allocatorTypes()
+#undef defineAllocator
+#define lSymbolPoison(v)
+#define lNFuncPoison(v)
+#define lVerifPoison(T, v) T##Poison(v)
+#else
+#define lVerifPoison(T, v)
+#endif
+
 /* Free all values that have not been marked by lGCMark */
 static void lGCSweep(){
 	#define defineAllocator(T, TMAX) \
 	for(uint i=0;i < T##Max;i++){\
 		if(T##MarkMap[i] == 0) {\
 			T##Free(&T##List[i]);\
+			lVerifPoison(T, &T##List[i]);\
 		}\
 		T##MarkMap[i] = T##MarkMap[i]&2;\
 	}
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..7326947 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -289,6 +289,11 @@ extern bool lGCShouldRunSoon;
 
 void lGarbageCollect(lThread *ctx);
 
+#ifdef NUJEL_VERIF
+bool lVerifSafepoint();
+void lOperationsVerif();
+#endif
+
 /*\
  | Allocator related definitions
 \*/
diff --git a/lib/verif.c b/lib/verif.c
new file mode 100644
index 0000000..e97ebfb
--- /dev/null
+++ b/lib/verif.c
@@ -0,0 +1,44 @@
+/* Nujel - Copyright (C) 2020-2022 - Benjamin Vincent Schulenburg
+ * This project uses the MIT license, a copy should be included under /LICENSE */
+#ifndef NUJEL_AMALGAMATION
+#include "nujel-private.h"
+#endif
+
+/*
+ * Instrumentation for verification, only compiled in when NUJEL_VERIF is
+ * defined: runs the garbage collector at chosen safepoints, and overwrites the
+ * contents of freed cells so that stale references to them can't go unnoticed.
+ */
+#ifdef NUJEL_VERIF
+
+/* Collect at every nth safepoint, 0 disables */
+i64 lVerifGCEvery = 0;
+i64 lVerifGCCountdown = 0;
+i64 lVerifSafepoints = 0;
+
+bool lVerifSafepoint(){
+	lVerifSafepoints++;
+	if(lVerifGCEvery <= 0){return false;}
+	if(--lVerifGCCountdown > 0){return false;}
+	lVerifGCCountdown = lVerifGCEvery;
+	return true;
+}
+
+static lVal lnfVerifGCEvery(lVal every, lVal first){
+	lVerifGCEvery     = every.type == ltInt ? every.vInt : 0;
+	lVerifGCCountdown = first.type == ltInt ? first.vInt : lVerifGCEvery;
+	return NIL;
+}
+
+static lVal lnfVerifSafepoints(){
+	return lValInt(lVerifSafepoints);
+}
+
+void lOperationsVerif(){
+	lAddNativeFuncVV("verif/gc-every", "(every first)", "Collect garbage at every EVERYth safepoint, starting with the FIRST one", lnfVerifGCEvery, 0);
+	lAddNativeFunc  ("verif/safepoints", "", "Return how many safepoints have been passed", lnfVerifSafepoints, 0);
+}
+
+#else
+typedef int lVerifDisabled;
+#endif
diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..4ca78ea 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -97,8 +97,14 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	lits = ops->literals->data;\
 } while (0)
 
+#ifdef NUJEL_VERIF
+#define lGCSafepoint() (lVerifSafepoint() || lGCShouldRunSoon)
+#else
+#define lGCSafepoint() (lGCShouldRunSoon)
+#endif
+
 #define lGarbageCollectIfNecessary() do {\
-	if(unlikely(lGCShouldRunSoon)){\
+	if(unlikely(lGCSafepoint())){\
 		lGarbageCollect(&ctx);\
 	}\
 } while(0)
-- 
2.43.0


From e821ebe951c2ad0fe3f7869834a2ae5e88c169ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 02/78] fix: don't leave the exception handler on the value
 stack after handling an exception

---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 4ca78ea..00ed36c 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -610,14 +610,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From ca8d9462e48faee8ae9bc3af5df97662ea16ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 03/78] fix: don't append the stack trace to the thrown list
 itself

---
 lib/vm.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 00ed36c..2cc417f 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -76,6 +76,20 @@ static lVal stackTrace(const lThread *ctx){
 	return ret;
 }
 
+/* Return a copy of the list V with a stack trace added to the end, V itself
+ * might still be in use by the program and can't be modified */
+static lVal exceptionWithStackTrace(const lPair *v, const lThread *ctx){
+	const lVal ret = lCons(v->car, NIL);
+	lPair *t = ret.vList;
+	while(v->cdr.type == ltPair){
+		v = v->cdr.vList;
+		t->cdr = lCons(v->car, NIL);
+		t = t->cdr.vList;
+	}
+	t->cdr = lCons(stackTrace(ctx), NIL);
+	return ret;
+}
+
 static inline lClosure *funCallClosure(lVal lambda) {
 	lClosure *tmpc = lClosureAllocRaw();
 	tmpc->parent = lambda.vClosure;
@@ -631,12 +645,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		}
 
 		if(likely(exceptionThrownValue.type == ltException)){
-			exceptionThrownValue.type = ltPair;
-			lPair *t = exceptionThrownValue.vList;
-			while(t->cdr.type == ltPair){
-				t=t->cdr.vList;
-			}
-			t->cdr = lCons(stackTrace(&ctx),NIL);
+			exceptionThrownValue = exceptionWithStackTrace(exceptionThrownValue.vList, &ctx);
 		}
 
 		while(likely(c != NULL) && (c->type != closureTry)){
-- 
2.43.0


From 996833ac4c4044d59e030bac6e9654407596a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 04/78] fix: keep the stack depth of pending calls in full,
 deep recursion overflowed 16 bits

---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 7326947..8f05d4e 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	i32 sp;
 	u8 type;
 };
 
-- 
2.43.0


From d98043735025cd80a40580d2fe8f0dcea1e31e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 05/78] fix: make sure the stacks can hold all operands and
 scopes of a function

---
 lib/vm.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 2cc417f..16eaaf7 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -44,18 +44,24 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 	return ret;
 }
 
-static void lBytecodeEnsureSufficientStack(lThread *ctx){
+/* Ensure that there is enough space left on both stacks to run all of OPS, no
+ * instruction pushes more than a single value onto either of them */
+static void lBytecodeEnsureSufficientStack(lThread *ctx, const lBytecodeArray *ops){
+	const int opsLength = ops->dataEnd - ops->data;
+
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	const int closureSizeNeeded = 16 + opsLength;
+	if(unlikely(closureSizeLeft < closureSizeNeeded)){
+		ctx->closureStackSize += 512 + closureSizeNeeded;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	const int valueSizeNeeded = 32 + opsLength;
+	if(unlikely(valueSizeLeft < valueSizeNeeded)){
+		ctx->valueStackSize += 512 + valueSizeNeeded;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -220,6 +226,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx, ops);
 
 	ip = ops->data;
 
@@ -667,7 +674,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		case ltLambda:
 			c = ctx.closureStack[++ctx.csp] = lClosureNewFunCall(cargs, fun);
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break;
 		case ltNativeFunc: {
@@ -737,7 +744,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		c->text = bc.vBytecodeArr;
 		c->ip = c->text->data;
 		lRestoreFromClosure();
-		lBytecodeEnsureSufficientStack(&ctx);
+		lBytecodeEnsureSufficientStack(&ctx, ops);
 		lGarbageCollectIfNecessary();
 
 		vmbreak; }
@@ -780,7 +787,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				break;
 			}
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break; }
 		case ltNativeFunc: {
@@ -845,7 +852,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			c = ctx.closureStack[ctx.csp];
 
 			lRestoreFromClosure();
-			lBytecodeEnsureSufficientStack(&ctx);
+			lBytecodeEnsureSufficientStack(&ctx, ops);
 			lGarbageCollectIfNecessary();
 			break;
 		case ltNativeFunc: {
-- 
2.43.0


From ed1986f1dcbcd2cbd73dec9710b8471c56eac2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 06/78] fix: calculate the heights of a right rotated tree from
 the bottom up

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..5e61b84 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From 1911d1d222cd43be251cd5099bfcc9664bdf078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 07/78] fix: compare trees by their entries, not by the shape
 of the search tree

---
 stdlib/collections/tree.nuj | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/stdlib/collections/tree.nuj b/stdlib/collections/tree.nuj
index eb3abcc..c4f7edc 100644
--- a/stdlib/collections/tree.nuj
+++ b/stdlib/collections/tree.nuj
@@ -30,14 +30,10 @@
       "Compares two trees for equality"
       (if (and (tree? a)
                (tree? b))
-          (and (= (:key* a)
-                  (:key* b))
-               (equal? (:value* a)
-                       (:value* b))
-               (tree/equal? (:left* a)
-                            (:left* b))
-               (tree/equal? (:right* a)
-                            (:right* b)))
+          (and (list/equal? (:keys a)
+                            (:keys b))
+               (list/equal? (:values a)
+                            (:values b)))
           (equal? a b)))
 
 (defn tree/reduce (l o s)
-- 
2.43.0


From d782c24b87dfb8bbe5f5814bc1375e7c2f8c3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 08/78] fix: expand macros of the given environment within
 folded operators

---
 stdlib/compiler/frontend/macroexpander.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index 4a28c53..dbc26b9 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -78,7 +78,7 @@
                                        ((fn* macro*)        (macroexpand-form source env op 4 #t #b0111))
                                        ((let* environment*) (list op (macroexpand-do (cdr source) env)))
                                        (otherwise (if (:meta op :fold)
-                                                      (macroexpand-fold op (cdr source))
+                                                      (macroexpand-fold op (cdr source) env)
                                                       (map source (fn (α) (macroexpand* α env)))))))
                                 (otherwise (map source (fn (α) (macroexpand* α env))))))))
 
-- 
2.43.0


From 63d805fc1762ffd1b0cf2ba3645ab14fb9348b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 09/78] fix: compile arguments in the same environment as the
 call itself

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 2e06f23..99175e8 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -108,10 +108,10 @@
                           (def arg-count (:length args))
                           (def optimized ($apply/optimized arg-count op))
                           (if optimized
-                              (list (when args (bytecompile/procedure/arg args))
+                              (list (when args (bytecompile/procedure/arg args env))
                                     optimized)
                               (list (bytecompile* op-raw env)
-                                    (when args (bytecompile/procedure/arg args))
+                                    (when args (bytecompile/procedure/arg args env))
                                     ($apply arg-count))))
 
                     (defn bytecompile/and/rec (source env label-end)
-- 
2.43.0


From 0dc8f2d6df7ddf36e9a6d21219d1d55f5f41ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 10/78] fix: reject apply calls with surplus arguments instead
 of compiling them to nothing

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 99175e8..5c953f0 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -191,7 +191,8 @@
                                 ((= arg-count 2)
                                  (list (bytecompile* (cadr source) env)
                                        (bytecompile* (caddr source) env)
-                                       ($apply/collection)))))
+                                       ($apply/collection)))
+                                (otherwise (throw (list :arity-error "(apply) needs 1 or 2 arguments" source env)))))
 
                     (defn bytecompile* (source env)
                           "Compile the forms in source"
-- 
2.43.0


From 507ae7ecfe1dfa31f8f7585ad763f30ca7dad4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 11/78] fix: let the arithmetic instructions give the same
 results as the functions

Division by zero crashed, integers were rounded to single precision and neither
infinite nor not-a-number results were noticed.
---
 lib/arithmetic.c    |  26 +++++---
 lib/nujel-private.h |  10 +++
 lib/vm.c            | 158 ++++++--------------------------------------
 3 files changed, 48 insertions(+), 146 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..0a38adc 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -8,9 +8,17 @@ static lVal lValExceptionFloat(lVal v){
 	return lValException(lSymTypeError, "This function can only be used with floats",v);
 }
 
-static lVal lnfAdd(lVal a, lVal b){
+/* Return V as is if it is a number or missing */
+static lVal lOptionalNumber(lVal v){
+	if(unlikely((v.type != ltInt) && (v.type != ltFloat) && (v.type != ltNil))){
+		return lValExceptionNonNumeric(v);
+	}
+	return v;
+}
+
+lVal lnfAdd(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lValInt(0);}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){return lOptionalNumber(a);}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 	default:
@@ -32,7 +40,7 @@ static lVal lnfAdd(lVal a, lVal b){
 	}
 }
 
-static lVal lnfSub(lVal a, lVal b){
+lVal lnfSub(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){
 		return lValExceptionArity(a, 2);
 	}
@@ -67,7 +75,7 @@ static lVal lnfSub(lVal a, lVal b){
 	}
 }
 
-static lVal lnfMul(lVal a, lVal b){
+lVal lnfMul(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lValInt(1);}
 	if(unlikely(b.type == ltNil)){
 		return lValExceptionArity(b, 2);
@@ -93,7 +101,7 @@ static lVal lnfMul(lVal a, lVal b){
 	}
 }
 
-static lVal lnfDiv(lVal a, lVal b){
+lVal lnfDiv(lVal a, lVal b){
 	if(unlikely((a.type == ltNil) || (b.type == ltNil))){
 		return lValExceptionArity(b, 2);
 	}
@@ -115,9 +123,9 @@ static lVal lnfDiv(lVal a, lVal b){
 	}
 }
 
-static lVal lnfRem(lVal a, lVal b){
-	if(unlikely(a.type == ltNil)){return b;}
-	if(unlikely(b.type == ltNil)){return a;}
+lVal lnfRem(lVal a, lVal b){
+	if(unlikely(a.type == ltNil)){return lOptionalNumber(b);}
+	if(unlikely(b.type == ltNil)){return lOptionalNumber(a);}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 		default:
@@ -143,7 +151,7 @@ static lVal lnfRem(lVal a, lVal b){
 }
 
 static lVal lnfPow(lVal a, lVal b){
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){return lOptionalNumber(a);}
 	if(unlikely(a.type == ltNil)){
 		return lValExceptionArity(b, 2);
 	}
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 8f05d4e..288ec12 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -191,8 +191,18 @@ bool      lHasClosureSym     (lClosure *c, const lSymbol *s, lVal *v);
 int       lValCompare      (const lVal a, const lVal b);
 bool      lValEqual        (const lVal a, const lVal b);
 i64       lValGreater      (const lVal a, const lVal b);
+
 lVal      lValStringError  (const char *bufStart, const char *bufEnd, const char *errStart, const char *err, const char *errEnd);
 
+/*\
+ |  Arithmetic functions shared with the bytecode interpreter
+\*/
+lVal lnfAdd(lVal a, lVal b);
+lVal lnfSub(lVal a, lVal b);
+lVal lnfMul(lVal a, lVal b);
+lVal lnfDiv(lVal a, lVal b);
+lVal lnfRem(lVal a, lVal b);
+
 /*\
  |  Bytecode related definitions
 \*/
diff --git a/lib/vm.c b/lib/vm.c
index 16eaaf7..37fe5e0 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -237,173 +237,57 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIntByte)
 		ctx.valueStack[++ctx.sp] = lValInt((i8)*ip++);
 		vmbreak;
+
+/* Store the result of the native function FUN applied to a and b */
+#define vmBinaryFunction(FUN) do{\
+	const lVal r = FUN(a, b);\
+	if(unlikely(r.type == ltException)){\
+		lThrow(r);\
+	}\
+	ctx.valueStack[ctx.sp] = r;\
+	} while(0)
+
 	vmcase(lopAdd) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
 		ctx.sp--;
-		if(likely(a.type == ltInt)){
-			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt += b.vInt;
-			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
-			} else if(b.type != ltNil){
-				lThrow(lValExceptionNonNumeric(b));
-			}
-		} else if(likely(a.type == ltFloat)){
-			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
-			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
-			} else if(b.type != ltNil) {
-				lThrow(lValExceptionNonNumeric(b));
-			}
-		} else if(a.type != ltNil){
-			lThrow(lValExceptionNonNumeric(b));
+		if(likely((a.type == ltInt) && (b.type == ltInt))){
+			ctx.valueStack[ctx.sp].vInt += b.vInt;
 		} else {
-			ctx.valueStack[ctx.sp] = lValInt(0);
+			vmBinaryFunction(lnfAdd);
 		}
 		vmbreak; }
 	vmcase(lopSub) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
 		ctx.sp--;
-		if(likely(a.type == ltInt)){
-			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt -= b.vInt;
-			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
-			} else if(b.type != ltNil){
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				ctx.valueStack[ctx.sp].vInt = -ctx.valueStack[ctx.sp].vInt;
-			}
-		} else if(likely(a.type == ltFloat)){
-			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
-			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
-			} else if(b.type != ltNil) {
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				ctx.valueStack[ctx.sp].vFloat = -ctx.valueStack[ctx.sp].vFloat;
-			}
-		} else if(a.type != ltNil){
-			lThrow(lValExceptionNonNumeric(b));
+		if(likely((a.type == ltInt) && (b.type == ltInt))){
+			ctx.valueStack[ctx.sp].vInt -= b.vInt;
 		} else {
-			lThrow(lValExceptionArity(a, 2));
+			vmBinaryFunction(lnfSub);
 		}
 		vmbreak; }
 	vmcase(lopMul) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
 		ctx.sp--;
-		if(likely(a.type == ltInt)){
-			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt *= b.vInt;
-			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
-			} else if(b.type != ltNil){
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				lThrow(lValExceptionArity(a, 2));
-			}
-		} else if(likely(a.type == ltFloat)){
-			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
-			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
-			} else if(b.type != ltNil) {
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				lThrow(lValExceptionArity(a, 2));
-			}
-		} else if(a.type != ltNil){
-			lThrow(lValExceptionNonNumeric(b));
+		if(likely((a.type == ltInt) && (b.type == ltInt))){
+			ctx.valueStack[ctx.sp].vInt *= b.vInt;
 		} else {
-			ctx.valueStack[ctx.sp] = lValInt(1);
+			vmBinaryFunction(lnfMul);
 		}
 		vmbreak; }
 	vmcase(lopDiv) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
 		ctx.sp--;
-		if(likely(a.type == ltInt)){
-			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(b.type != ltNil){
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				lThrow(lValExceptionArity(a, 2));
-			}
-		} else if(likely(a.type == ltFloat)){
-			if(likely(b.type == ltFloat)){
-				const lVal r = lValFloat(a.vFloat / b.vFloat);
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(b.type != ltNil) {
-				lThrow(lValExceptionNonNumeric(b));
-			} else {
-				lThrow(lValExceptionArity(a, 2));
-			}
-		} else if(a.type != ltNil){
-			lThrow(lValExceptionNonNumeric(b));
-		} else {
-			lThrow(lValExceptionArity(a, 2));
-		}
+		vmBinaryFunction(lnfDiv);
 		vmbreak; }
 	vmcase(lopRem) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
 		ctx.sp--;
-		if(likely(a.type == ltInt)){
-			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
-			} else if(likely(b.type == ltFloat)){
-				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(unlikely(b.type != ltNil)){
-				lThrow(lValExceptionNonNumeric(b));
-			}
-		} else if(likely(a.type == ltFloat)){
-			if(likely(b.type == ltFloat)){
-				const lVal r = lValFloat(fmod(a.vFloat, b.vFloat));
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(fmod(a.vFloat, b.vInt));
-				if(unlikely(r.type == ltException)){
-					lThrow(r);
-				}
-				ctx.valueStack[ctx.sp] = r;
-			} else if(unlikely(b.type != ltNil)) {
-				lThrow(lValExceptionNonNumeric(b));
-			}
-		} else if(unlikely(a.type != ltNil)){
-			lThrow(lValExceptionNonNumeric(b));
-		}
+		vmBinaryFunction(lnfRem);
 		vmbreak; }
 
 #define vmBinaryIntegerOp(OP) do{\
-- 
2.43.0


From f001654df41b11e58d0a790927121c7266930bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 12/78] fix: check the operands of the integer functions,
 INT64_MIN / -1 and pow with large integers

---
 lib/arithmetic.c | 49 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 0a38adc..2b276d8 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -123,6 +123,16 @@ lVal lnfDiv(lVal a, lVal b){
 	}
 }
 
+/* Divide A by B, which must not be zero, INT64_MIN / -1 would trap */
+static lVal lDivInt(i64 a, i64 b){
+	return lValInt(b == -1 ? (i64)(0 - (u64)a) : a / b);
+}
+
+/* Get the remainder of A divided by B, which must not be zero */
+static lVal lRemInt(i64 a, i64 b){
+	return lValInt(b == -1 ? 0 : a % b);
+}
+
 lVal lnfRem(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lOptionalNumber(b);}
 	if(unlikely(b.type == ltNil)){return lOptionalNumber(a);}
@@ -136,7 +146,7 @@ lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			return lRemInt(a.vInt, b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -150,6 +160,23 @@ lVal lnfRem(lVal a, lVal b){
 	}
 }
 
+/* Return BASE raised to the power of EXP, the result wraps around just like a
+ * multiplication does and is truncated to an integer for negative exponents */
+static lVal lPowInt(i64 base, i64 exp){
+	if(exp < 0){
+		if(base == 0){
+			return lValException(lSymDivisionByZero, "Can't raise zero to a negative power", NIL);
+		}
+		return lValInt(base == 1 ? 1 : (base == -1 ? ((exp & 1) ? -1 : 1) : 0));
+	}
+	u64 ret = 1;
+	for(u64 b = base; exp; exp >>= 1){
+		if(exp & 1){ ret *= b; }
+		b *= b;
+	}
+	return lValInt(ret);
+}
+
 static lVal lnfPow(lVal a, lVal b){
 	if(unlikely(b.type == ltNil)){return lOptionalNumber(a);}
 	if(unlikely(a.type == ltNil)){
@@ -162,7 +189,7 @@ static lVal lnfPow(lVal a, lVal b){
 	case ltInt:
 		reqInt(a);
 		reqInt(b);
-		return lValInt(pow(a.vInt, b.vInt));
+		return lPowInt(a.vInt, b.vInt);
 	case ltFloat: {
 		lVal av = requireFloat(a);
 		if(unlikely(av.type == ltException)){
@@ -177,36 +204,44 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	return lDivInt(a.vInt, b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lRemInt(a.vInt, b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
-- 
2.43.0


From f345bedb1e35dbd218ac4d2509dd09d6340e3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 13/78] fix: let the bit shift instructions give the same
 results as the functions

---
 lib/arithmetic.c    | 14 +++++---------
 lib/nujel-private.h |  2 ++
 lib/vm.c            | 18 ++++++++++++------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 2b276d8..60db9bd 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -276,20 +276,16 @@ static lVal lnfPopCount(lVal a){
 #endif
 }
 
-static lVal lnfAsh(lVal a, lVal b){
+lVal lnfBitShiftLeft(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt((u64)a.vInt << (b.vInt & 63));
 }
 
-static lVal lnfBitShiftRight(lVal a, lVal b){
+lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(a.vInt >> (b.vInt & 63));
 }
 
 static lVal lnfAbs(lVal t){
@@ -399,7 +395,7 @@ void lOperationsArithmetic(){
 	lAddNativeFuncVV("bit-xor",  "(a b)", "Bitwise exclusive or", lnfLogXor, NFUNC_FOLD | NFUNC_PURE);
 	lAddNativeFuncV ("bit-not",  "(a)",   "Bitwise not",          lnfLogNot, NFUNC_FOLD | NFUNC_PURE);
 
-	lAddNativeFuncVV("bit-shift-left",  "(val amount)", "Shift VALUE left AMOUNT bits",    lnfAsh, NFUNC_PURE);
+	lAddNativeFuncVV("bit-shift-left",  "(val amount)", "Shift VALUE left AMOUNT bits",    lnfBitShiftLeft, NFUNC_PURE);
 	lAddNativeFuncVV("bit-shift-right", "(val amount)", "Shift VALUE right AMOUNT bits",    lnfBitShiftRight, NFUNC_PURE);
 	lAddNativeFuncV ("popcount",        "(val)",        "Return amount of bits set in VAL",lnfPopCount, NFUNC_PURE);
 
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 288ec12..87adc29 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -202,6 +202,8 @@ lVal lnfSub(lVal a, lVal b);
 lVal lnfMul(lVal a, lVal b);
 lVal lnfDiv(lVal a, lVal b);
 lVal lnfRem(lVal a, lVal b);
+lVal lnfBitShiftLeft(lVal a, lVal b);
+lVal lnfBitShiftRight(lVal a, lVal b);
 
 /*\
  |  Bytecode related definitions
diff --git a/lib/vm.c b/lib/vm.c
index 37fe5e0..740cd64 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -301,12 +301,18 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	}\
 	} while(0)
 
-	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
-		vmbreak;
-	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
-		vmbreak;
+	vmcase(lopBitShiftLeft) {
+		const lVal a = ctx.valueStack[ctx.sp-1];
+		const lVal b = ctx.valueStack[ctx.sp];
+		ctx.sp--;
+		vmBinaryFunction(lnfBitShiftLeft);
+		vmbreak; }
+	vmcase(lopBitShiftRight) {
+		const lVal a = ctx.valueStack[ctx.sp-1];
+		const lVal b = ctx.valueStack[ctx.sp];
+		ctx.sp--;
+		vmBinaryFunction(lnfBitShiftRight);
+		vmbreak; }
 	vmcase(lopBitAnd)
 		vmBinaryIntegerOp(&);
 		vmbreak;
-- 
2.43.0


From 89657db77c064c3e6f0a7f1e3b733c5ad8ede4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 14/78] fix: throw when inc/int is applied to something other
 than an integer

---
 lib/vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index 740cd64..81755af 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -493,6 +493,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionNonNumeric(ctx.valueStack[ctx.sp]));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From d1392e2745d05c36ba77963abe2f51237c906cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 15/78] fix: compare equal floats, prefixes, large integers and
 integers with floats correctly

---
 lib/val.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..a0e0808 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,7 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
@@ -44,15 +44,15 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
+			return (((double)a.vInt) < b.vFloat)
 				? -1
-				: (((float)a.vInt) > b.vFloat)
+				: (((double)a.vInt) > b.vFloat)
 				  ? 1
 				  : 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
+			return (a.vFloat < ((double)b.vInt))
 				? -1
-				: (a.vFloat > ((float)b.vInt))
+				: (a.vFloat > ((double)b.vInt))
 				  ? 1
 				  : 0;
 		}
@@ -62,9 +62,9 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return a.vInt < b.vInt ? -1 : a.vInt > b.vInt;
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return a.vFloat < b.vFloat ? -1 : a.vFloat > b.vFloat;
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
@@ -77,9 +77,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return ((double)a.vInt) == b.vFloat;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return a.vFloat == ((double)b.vInt);
 		}
 		return false;
 	}
-- 
2.43.0


From 514d59a5b0d56eca1d839518a803365873c81496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 16/78] fix: throw when a float doesn't fit into an integer

---
 lib/core-operators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index 4f0ca7c..6e72b98 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -72,6 +72,9 @@ static lVal lnfInt(lVal v){
 	if(likely(v.type == ltInt)){
 		return v;
 	} else if(likely(v.type == ltFloat)){
+		if(unlikely(!((v.vFloat >= -0x1p63) && (v.vFloat < 0x1p63)))){
+			return lValException(lSymOutOfBounds, "This float doesn't fit into an integer", v);
+		}
 		return lValInt(v.vFloat);
 	} else {
 		return lValExceptionType(v, ltInt);
-- 
2.43.0


From ac45c7dbe5322f5f59bed2be27ab2e5fcdb78d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 17/78] fix: negative odd numbers are odd

---
 stdlib/core/predicates.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/predicates.nuj b/stdlib/core/predicates.nuj
index 6564935..cabe1a8 100644
--- a/stdlib/core/predicates.nuj
+++ b/stdlib/core/predicates.nuj
@@ -22,7 +22,7 @@
 
 (defn odd? (a)
       "Predicate that returns #t if a is odd"
-      (= (rem (int a) 2) 1))
+      (not= (rem (int a) 2) 0))
 
 (defn even? (a)
       "Predicate that returns #t if a is even"
-- 
2.43.0


From 7532198b9d299c4fa9f8dd264010d0ad0ec27030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 18/78] fix: evaluate the argument of an inlined function once
 and accept any number of them

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 5c953f0..d507b92 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -81,13 +81,19 @@
                               (cons (bytecompile* (car source) env)
                                     (bytecompile/procedure/arg (cdr source) env))))
 
-                    (defn bytecompile/procedure/inline? (op)
-                          (:meta op :inline))
+                    ; For now only monadic functions can be inlined, compound
+                    ; arguments only if that evaluates them exactly once
+                    (defn bytecompile/procedure/inline? (op args)
+                          (when-not (:meta op :inline) (return #f))
+                          (def arg-name (car (:arguments op)))
+                          (if args
+                              (and (nil? (cdr args))
+                                   (or (not (pair? (car args)))
+                                       (= 1 (count (flatten (:meta op :source))
+                                                   (fn (a) (= a arg-name))))))
+                              (nil? arg-name)))
 
                     (defn bytecompile/procedure/inline (op args env)
-                          (def arg-count (:length args))
-                          (when (> arg-count 1)
-                            (throw (list :compiler-error "For now only monadic functions can be inlined" op env)))
                           (def form (macroexpand* (cons 'do (:meta op :source)) env))
                           (def arg-name (car (:arguments op)))
                           (if args
@@ -95,7 +101,7 @@
                               (bytecompile* form env)))
 
                     (defn bytecompile/procedure (op args env op-raw)
-                          (if (bytecompile/procedure/inline? op)
+                          (if (bytecompile/procedure/inline? op args)
                               (bytecompile/procedure/inline op args env)
                               (bytecompile/procedure/default op args env op-raw)))
 
-- 
2.43.0


From 95798bcd963570d3997f303186cd9b1c20018453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 19/78] fix: compile let* bodies and (do) that consist of less
 than two forms correctly

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 2 +-
 stdlib/compiler/frontend/macroexpander.nuj    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index d507b92..e0e4388 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -173,7 +173,7 @@
 
                     (defn bytecompile/let*  (source env)
                           (list ($let)
-                                (bytecompile/do (cadr source) env)
+                                (bytecompile* (cadr source) env)
                                 ($closure/pop)))
 
                     (defn bytecompile/return (source env)
diff --git a/stdlib/compiler/frontend/macroexpander.nuj b/stdlib/compiler/frontend/macroexpander.nuj
index dbc26b9..775eace 100644
--- a/stdlib/compiler/frontend/macroexpander.nuj
+++ b/stdlib/compiler/frontend/macroexpander.nuj
@@ -69,7 +69,7 @@
                                 (:native-function
                                  (case op
                                        (quote source)
-                                       (do                  (macroexpand-do   source env))
+                                       (do                  (macroexpand-do   (cdr source) env))
                                        (return              (macroexpand-form source env op 1 #f #b0))
                                        ((try while)         (macroexpand-form source env op 1 #t #b0))
                                        (set!                (macroexpand-set  source env))
-- 
2.43.0


From cecde116b7be0405dbb2bed76a2ff2851b7ecd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 20/78] fix: continue with the remaining clauses of cond after
 a literal #f or #nil test

---
 stdlib/core/flow.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/flow.nuj b/stdlib/core/flow.nuj
index ee9b977..0ae4dae 100644
--- a/stdlib/core/flow.nuj
+++ b/stdlib/core/flow.nuj
@@ -43,7 +43,7 @@
 
 (defn cond/fn (body)
       :internal
-      (when (and body (caar body))
+      (when body
                 (list 'if
                       (caar body)
                       (cons 'do (cdar body))
-- 
2.43.0


From 7413c7f08a9d06e1e760b55ea02159a2b43fc5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 21/78] fix: throw when assigning an unbound variable in
 functions with many literals

---
 lib/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 81755af..2dafe84 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -452,7 +452,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lits[v]));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
-- 
2.43.0


From 9ad881a9c654104754aa2a498ac413adb7fa7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 22/78] fix: let list, ref and throw work as first-class
 functions, don't look up methods of a missing receiver

---
 lib/special.c | 28 ++++++++++++++++++++++------
 lib/vm.c      |  2 +-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/special.c b/lib/special.c
index 6ad65f7..a23a594 100644
--- a/lib/special.c
+++ b/lib/special.c
@@ -25,11 +25,27 @@ lVMErrorPlaceholder(lnfMacro)
 lVMErrorPlaceholder(lnfEnvironment)
 lVMErrorPlaceholder(lnfBytecodeEval)
 lVMErrorPlaceholder(lnfMutableEval)
-lVMErrorPlaceholder(lnfRef)
-lVMErrorPlaceholder(lnfList)
-lVMErrorPlaceholder(lnfThrow)
 lVMErrorPlaceholder(lnfApply)
 
+/* These have instructions of their own, the functions are used when they are
+ * passed around as values */
+static lVal lnfRef(lVal args){
+	if(unlikely(args.type != ltPair)){
+		return lValException(lSymVMError, "(ref) needs a collection and a key", NIL);
+	}
+	return lGenericRef(lCar(args), lCadr(args));
+}
+
+static lVal lnfList(lVal args){
+	return args;
+}
+
+static lVal lnfThrow(lVal v){
+	lVal ret = (v.type == ltPair) ? v : lCons(v, NIL);
+	ret.type = ltException;
+	return ret;
+}
+
 void lOperationsSpecial(){
 	lAddNativeFunc("do",              "body",                    "Evaluate body in order and returns the last result", lnfDo, 0);
 	lAddNativeFunc("let*",            "body",                    "Run BODY wihtin a new closure",  lnfLetRaw, 0);
@@ -46,8 +62,8 @@ void lOperationsSpecial(){
 	lAddNativeFunc("environment*",    "",                      "Create a new object",       lnfEnvironment, 0);
 	lAddNativeFunc("bytecode-eval*",  "(bc-arr env)",            "Evaluate BC-ARR in call closure ofENV", lnfBytecodeEval, 0);
 	lAddNativeFunc("mutable-eval*",   "(bc-arr env)",            "Evaluate BC-ARR directly in ENV", lnfMutableEval, 0);
-	lAddNativeFunc("list",            "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
-	lAddNativeFunc("ref",             "(collection key)",        "Look up key in collection", lnfRef, NFUNC_PURE);
-	lAddNativeFunc("throw",           "(v)",                     "Throw V to the closest exception handler", lnfThrow, 0);
+	lAddNativeFuncR("list",           "arguments",               "Return ARGUMENTS as a list", lnfList, 0);
+	lAddNativeFuncR("ref",            "(collection key)",        "Look up key in collection", lnfRef, NFUNC_PURE);
+	lAddNativeFuncV("throw",          "(v)",                     "Throw V to the closest exception handler", lnfThrow, 0);
 	lAddNativeFunc("apply",           "(func list)",             "Evaluate FUNC with LIST as arguments",  lnfApply, NFUNC_PURE);
 }
diff --git a/lib/vm.c b/lib/vm.c
index 2dafe84..2f7eac5 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -649,7 +649,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = likely(len > 0) ? vs[1-len] : NIL;
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From fa03d21db425da842985c30d5d438c02a49431ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 23/78] fix: throw when a branch offset doesn't fit into 16
 bits instead of jumping somewhere else

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 7bf7393..5873240 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -427,6 +427,8 @@
                  (defn assemble/relocate-op (code sym-map pos out)
                        (def target (ref sym-map (cadr code)))
                        (def off (- (+ target (cadddr code)) pos))
+                       (when (or (> off 32767) (< off -32768))
+                         (exception :out-of-bounds "Branch offset doesn't fit into 16 bits, try splitting this up into smaller functions" off))
                        (set! out (inc! pos) (bit-and (bit-shift-right off (caddr code)) #xFF))
                        (return pos))
 
-- 
2.43.0


From 30e7fa91efad48a891a1674a34b5858ca21b9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 24/78] fix: keep #nil elements of array literals and of
 (array/new) instead of writing past the end [C14]

---
 lib/array.c  |  2 +-
 lib/reader.c | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..373db0d 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -29,7 +29,7 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 /* Return the length of the list V */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	for(lVal n = v;n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
 	return i;
diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..9b4eb88 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -28,6 +28,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadElements(lReadContext *s, bool rootForm, char terminator);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
 static lVal lValExceptionReaderCustom(lReadContext *s, const char *msg, const lSymbol *customError){
@@ -398,7 +399,7 @@ static lVal lParseSpecial(lReadContext *s){
 	case 'f': return lValBool(false);
 	case '#':
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		return lnfArrNew(lReadElements(s, false, ')'));
 	case '@':{
 		s->data++;
 		lVal ret = lnfTreeNew(lReadList(s,false,')'));
@@ -409,7 +410,8 @@ static lVal lParseSpecial(lReadContext *s){
 	}}
 }
 
-static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
+/* Read all the values up to the terminator, returns #nil if there are none */
+static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
@@ -420,7 +422,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReaderCustom(s, "Unmatched opening bracket", lSymUnmatchedOpeningBracket);
 			}
 			s->data++;
-			return ret.type == ltNil ? lCons(NIL,NIL) : ret;
+			return ret;
 		}else if(c == ';'){
 			lStringAdvanceToNextLine(s);
 			continue;
@@ -429,7 +431,7 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				return lValExceptionReader(s, "Unmatched closing bracket");
 			}
 			s->data++;
-			return ret.type == ltNil ? lCons(NIL, NIL) : ret;
+			return ret;
 		}else if(unlikely(isClosingChar(c))){
 			return lValExceptionReader(s, "Unmatched closing char");
 		}else{
@@ -469,6 +471,11 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	}
 }
 
+static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
+	lVal ret = lReadElements(s, rootForm, terminator);
+	return ret.type == ltNil ? lCons(NIL, NIL) : ret;
+}
+
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
 	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
 }
@@ -487,7 +494,7 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		return lCons(lValSymS(symArr), lReadElements(s,false, ']'));
 	case '{':
 		s->data++;
 		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
-- 
2.43.0


From 3731cd3a4775207888750351c93900cffe3d389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 25/78] fix: find the methods of trees whose prototype is not a
 tree, never run methods of another type on them [C17]

---
 lib/type-system.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..fd257c3 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -229,17 +229,14 @@ static void lTypesAddCoreMethods(){
 
 lVal lMethodLookup(const lSymbol *method, lVal self){
 	if(unlikely(self.type != (self.type & 63))){
-		lValException(lSymVMError, "Out-of-bounds Type", self);
+		return lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
-	if(self.type == ltTree){
-		lVal v = lTreeRef(self.vTree->root, method);
+	/* Everything in the chain of prototypes comes before the class of the receiver */
+	for(lVal o = self; o.type == ltTree; o = lTreeRef(o.vTree->root, lSymPrototype)){
+		lVal v = lTreeRef(o.vTree->root, method);
 		if(v.type != ltException){
 			return v;
 		}
-		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type != ltException){
-			return lMethodLookup(method, proto);
-		}
 	}
 	if(self.type == ltType){
 		const lClass *T = self.vType;
-- 
2.43.0


From 096b71c6bcdfb4bad61007e9feba57853c50bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 26/78] fix: compare the whole index with the length of arrays
 and bytecode arrays, stop at the end of lists [C14]

---
 lib/generic.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..7600137 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -45,22 +45,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
-			col = lCdr(col);
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
+			col = col.vList->cdr;
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -163,8 +163,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +175,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From c44e14b4d8f2c25b8c699b62b1dc7821c45a4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 27/78] fix: let arrays shrink to nothing, refuse lengths that
 don't fit instead of truncating them [C14]

---
 lib/array.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 373db0d..449705e 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -10,12 +10,14 @@ static lVal lnmArrayLength(lVal self){
 
 static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt >= INT32_MAX)){
+		return lValException(lSymOOM, "(:length! Array) can't have that many elements", newLength);
+	}
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	lVal *newData = realloc(arr->data, (length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
@@ -66,6 +68,9 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
+	if(unlikely(size.vInt >= INT32_MAX)){
+		return lValException(lSymOOM, "(:alloc Array) can't have that many elements", size);
+	}
 	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
 	if(unlikely(size.vInt && (r.vArray->data == NULL))){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
-- 
2.43.0


From 7f4dd74887d32782300be84ae94629bda1e9013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 28/78] fix: reject writes into immutable buffers and views,
 allow reading from views of immutable buffers [C13]

---
 lib/buffer.c  | 7 ++++---
 lib/generic.c | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..f459d1a 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -9,8 +9,8 @@ const void *lBufferData (lBuffer *v){
 }
 
 void *lBufferDataMutable(lBuffer *v){
-	if(v->flags & BUFFER_IMMUTABLE){return NULL;}
-	return v == NULL ? NULL : v->buf;
+	if((v == NULL) || (v->flags & BUFFER_IMMUTABLE)){return NULL;}
+	return v->buf;
 }
 
 size_t lBufferLength(const lBuffer *v){
@@ -19,11 +19,12 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
diff --git a/lib/generic.c b/lib/generic.c
index 7600137..87ada70 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -98,6 +98,9 @@ lVal lGenericRef(lVal col, lVal key){
 
 
 static lVal lBufferViewSet(lVal car, size_t i, lVal v){
+	if(unlikely((car.vBufferView->flags & BUFFER_VIEW_IMMUTABLE) || (car.vBufferView->buf->flags & BUFFER_IMMUTABLE))){
+		return lValException(lSymTypeError, "Can only set! mutable buffer views", car);
+	}
 	const void *buf = car.vBufferView->buf->buf;
 	const size_t length = car.vBufferView->length;
 	const lBufferViewType viewType = car.vBufferView->type;
@@ -182,6 +185,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		if(unlikely(col.vBuffer->flags & BUFFER_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable buffers", col);
+		}
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
-- 
2.43.0


From 2c7b96c6a40c11f2864437b857784217c90a6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 29/78] fix: check offsets and lengths of the buffer functions
 before using them, don't truncate them [C13]

---
 lib/buffer.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index f459d1a..7f3417f 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -34,7 +34,14 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) can't allocate a buffer of that size", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	if(unlikely((buf->buf == NULL) && (a.vInt > 0))){
+		buf->length = 0;
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -54,9 +61,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -69,10 +76,10 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((length > vSrc.vBuffer->length) || (length > aDest.vBuffer->length) || (destOffset > (aDest.vBuffer->length - length)))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
-	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
+	memmove(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
 	return aDest;
 }
 
@@ -80,6 +87,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	reqBuffer(a);
 	const i64 length = MIN(a.vBuffer->length, castToInt(aLength, a.vBuffer->length));
 	i64 offset = aOffset.type == ltInt ? aOffset.vInt : 0;
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "The offset can't be negative", aOffset);
+	}
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
@@ -134,10 +144,16 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/length!) buffers can't become that big", newLength);
+	}
 	const int length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
+	if(length == buf->length){
+		return self;
+	}
 	void *nBuf = realloc(buf->buf, length);
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
@@ -163,10 +179,10 @@ static lVal lnmBufferClone(lVal self, lVal immutable){
 static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 	i64 slen, len;
 	const char *buf = self.vBuffer->data;
-	slen = len = lBufferLength(self.vBuffer);
+	slen = lBufferLength(self.vBuffer);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, MAX(0, (stop.type == ltInt) ? stop.vInt : slen)) - off;
 
 	if(unlikely(len <= 0)){
 		return lnfBufferAllocate(lValInt(0));
-- 
2.43.0


From 6c5c3a8f3da0b599fbdd1b058267367232166936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 30/78] fix: keep string cut, index-of and last-index-of within
 the string, compare all bytes [C20]

---
 lib/buffer.c |  6 +++---
 lib/string.c | 15 ++++++++-------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 7f3417f..1919bd2 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -90,12 +90,12 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	if(unlikely(offset < 0)){
 		return lValException(lSymOutOfBounds, "The offset can't be negative", aOffset);
 	}
-	if(unlikely(offset > length)){
-		return lValString("");
-	}
 	if(unlikely(length < 0)){
 		return lValException(lSymTypeError, "Length has to be greater than 0", aLength);
 	}
+	if(unlikely(offset > length)){
+		return lValString("");
+	}
 
 	return lValStringLen(a.vBuffer->buf + offset, length - offset);
 }
diff --git a/lib/string.c b/lib/string.c
index 6c5036c..2f976ca 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -77,10 +77,10 @@ lVal lValStringError(const char *bufStart, const char *bufEnd, const char *errSt
 static lVal lnmStringCut(lVal self, lVal start, lVal stop){
 	i64 slen, len;
 	const char *buf = self.vString->data;
-	slen = len = lBufferLength(self.vString);
+	slen = lBufferLength(self.vString);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, MAX(0, (stop.type == ltInt) ? stop.vInt : slen)) - off;
 
 	if(unlikely(len <= 0)){return lValString("");}
 	return lValStringLen(&buf[off], len);
@@ -96,15 +96,15 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
 	/* Empty strings just return the current position, this is so we can
 	 * split an empty string into each character by passing an empty string
 	 */
 	if(needleLength <= 0){return lValInt(pos);}
 
-	for(const char *s = &haystack[pos]; *s != 0; s++){
-		if(strncmp(s,needle,needleLength)){continue;}
+	for(const char *s = &haystack[pos]; s <= &haystack[haystackLength - needleLength]; s++){
+		if(memcmp(s,needle,needleLength)){continue;}
 		return lValInt(s-haystack);
 	}
 	return lValInt(-1);
@@ -120,10 +120,11 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 pos = MIN(haystackLength - needleLength, castToInt(start, haystackLength - needleLength));
+	if(pos < 0){return lValInt(-1);}
 
 	for(const char *s = &haystack[pos]; s >= haystack; s--){
-		if(strncmp(s,needle,needleLength)){continue;}
+		if(memcmp(s,needle,needleLength)){continue;}
 		return lValInt(s-haystack);
 	}
 	return lValInt(-1);
-- 
2.43.0


From 7d9e406a51033fb29c7d1c0d548d860b85eac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 31/78] fix: a list isn't equal to one that ends where the
 other continues with #nil [C15]

---
 stdlib/collections/lists.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index 8cf4b7d..cdb7ea7 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -112,7 +112,7 @@
 
 (defn list/equal? (a b)
       "#t if A and B are equal"
-      (if (pair? a)
+      (if (and (pair? a) (pair? b))
           (and (list/equal? (car a) (car b))
                (list/equal? (cdr a) (cdr b)))
           (equal? a b)))
-- 
2.43.0


From cee785f4ad13e18d95c623608dfc44ba7add71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 32/78] fix: cutting an array at the lowest integer gives an
 empty array instead of an overflow [C14]

---
 stdlib/collections/array.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/collections/array.nuj b/stdlib/collections/array.nuj
index 1c2f9a3..99441d6 100644
--- a/stdlib/collections/array.nuj
+++ b/stdlib/collections/array.nuj
@@ -123,8 +123,8 @@
 (defn array/cut (arr start end)
       "Return a newly allocated array with the values of ARR from START to END"
       (set! start (max 0 start))
-      (set! end (min (:length arr) end))
-      (def ret (:alloc Array (max 0 (- end start))))
+      (set! end (max start (min (:length arr) end)))
+      (def ret (:alloc Array (- end start)))
       (def i start)
       (while (< i end)
              (set! ret (- i start) (ref arr i))
-- 
2.43.0


From 942b3c1f23106f16d2bf35a7c94c7ca8bf92215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 33/78] verif hooks: count the cells in use and check the heaps

---
 lib/verif.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/lib/verif.c b/lib/verif.c
index e97ebfb..2e35d84 100644
--- a/lib/verif.c
+++ b/lib/verif.c
@@ -34,8 +34,53 @@ static lVal lnfVerifSafepoints(){
 	return lValInt(lVerifSafepoints);
 }
 
+/* Check one heap: the free list is acyclic, only contains cells marked as free
+ * and together with the active ones accounts for every cell handed out so far */
+#define defineAllocator(T, TMAX) \
+static bool T##VerifHeap(){ \
+	uint n = 0; \
+	for(const T *v = T##FFree; v; v = v->nextFree){ \
+		const i64 ci = v - T##List; \
+		if((ci < 0) || (ci >= (i64)T##Max) || (T##MarkMap[ci] != 2)){return false;} \
+		if(++n > T##Max){return false;} \
+	} \
+	return n + T##Active == T##Max; \
+}
+allocatorTypes()
+defineAllocator(lSymbol, SYM_MAX)
+#undef defineAllocator
+
+/* Every symbol in use can be found by its name */
+static bool lVerifSymbols(){
+	static u8 isFree[SYM_MAX];
+	memset(isFree, 0, sizeof(isFree));
+	for(const lSymbol *v = lSymbolFFree; v; v = v->nextFree){
+		isFree[v - lSymbolList] = 1;
+	}
+	for(uint i=0;i<lSymbolMax;i++){
+		if(!isFree[i] && (lSymS(lSymbolList[i].c) != &lSymbolList[i])){return false;}
+	}
+	return true;
+}
+
+/* Store the number of cells in use into the array ARR, one element per type,
+ * and return #nil, or the name of the first inconsistency found. */
+static lVal lnfVerifHeap(lVal arr){
+	int i = 0;
+	reqArray(arr);
+	#define defineAllocator(T, TMAX) \
+	if(!T##VerifHeap()){return lValString(#T);} \
+	if(i < arr.vArray->length){arr.vArray->data[i++] = lValInt(T##Active);}
+	allocatorTypes()
+	defineAllocator(lSymbol, SYM_MAX)
+	#undef defineAllocator
+	if(!lVerifSymbols()){return lValString("symbol index");}
+	return NIL;
+}
+
 void lOperationsVerif(){
 	lAddNativeFuncVV("verif/gc-every", "(every first)", "Collect garbage at every EVERYth safepoint, starting with the FIRST one", lnfVerifGCEvery, 0);
+	lAddNativeFuncV ("verif/heap", "(arr)", "Count the cells in use into ARR and check the heaps", lnfVerifHeap, 0);
 	lAddNativeFunc  ("verif/safepoints", "", "Return how many safepoints have been passed", lnfVerifSafepoints, 0);
 }
 
-- 
2.43.0


From 2ef1b783a40317a7f25d26ebcaa8b87875d3caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 34/78] fix: keep empty slots in the symbol index, use freed
 ones when there is no empty one left [C03]

---
 lib/symbol.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..4b46b82 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -162,8 +162,15 @@ void lSymbolFree(lSymbol *s){
 	lSymbolFFree = s;
 	lSymbolActive--;
 	const int symIndex = lSymIndex(s);
-	const int slot = lSymbolBackIndex[symIndex];
+	uint slot = lSymbolBackIndex[symIndex];
 	lSymbolIndex[slot] = -symIndex;
+	// Tombs are only necessary if a search has to continue after them
+	if(SYMBOL_SLOT_IS_EMPTY(lSymbolIndex[(slot + 1) % SYM_MAX])){
+		while(SYMBOL_SLOT_IS_TOMB(lSymbolIndex[slot])){
+			lSymbolIndex[slot] = 0;
+			slot = (slot + SYM_MAX - 1) % SYM_MAX;
+		}
+	}
 	lSymbolMarkMap[s - lSymbolList] = 2;
 }
 
@@ -213,8 +220,10 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
-	exit(111);
-	return 0;
+	if(unlikely(firstTomb == 0xffffffff)){
+		exit(111);
+	}
+	return firstTomb;
 }
 
 lSymbol *lSymS(const char *str){
-- 
2.43.0


From 0ded16cf3c1463bad6bff18ef794920a24f1b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 35/78] fix: collect before the heaps are almost full, so
 natives that allocate a lot don't exhaust them, symbols included [C02]

---
 lib/allocator.c          | 3 ++-
 lib/garbage-collection.c | 5 +++++
 lib/nujel-private.h      | 8 ++++++++
 lib/symbol.c             | 3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..5f8f5ca 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -10,6 +10,7 @@ bool lGCShouldRunSoon = false;
 T T##List[typeMax]; \
 uint T##Max = 0; \
 uint T##Active = 0; \
+uint T##Limit = lHeapLimit(typeMax, 0); \
 T * T##FFree = NULL; \
 T * T##AllocRaw (){\
 	T *ret;\
@@ -24,7 +25,7 @@ T * T##AllocRaw (){\
 		ret = T ## FFree;\
 		(T##FFree) = ret->nextFree;\
 	}\
-	if(unlikely((typeMax - (++T##Active) < 128))){lGCShouldRunSoon = true;} \
+	if(unlikely(++T##Active >= T##Limit)){lGCShouldRunSoon = true;} \
 	T##MarkMap[ret - T##List] = 0;\
 	memset(ret,0,sizeof(T));\
 	return ret;\
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index ea544b4..6ba05b2 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -271,6 +271,11 @@ static void lGCSweep(){
 	defineAllocator(lSymbol, SYM_MAX)
 	defineAllocator(lNFunc, NFN_MAX)
 	#undef defineAllocator
+
+	#define defineAllocator(T, TMAX) T##Limit = lHeapLimit(TMAX, T##Active);
+	allocatorTypes()
+	defineAllocator(lSymbol, SYM_MAX)
+	#undef defineAllocator
 }
 
 /* Force a garbage collection cycle, shouldn't need to be called manually since
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 87adc29..1409211 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -320,6 +320,12 @@ void lOperationsVerif();
 #define TRE_MAX (1<<18)
 #define CON_MAX (1<<18)
 
+/* How many cells may be in use before the garbage collector should run, when
+ * ACTIVE of them were still in use after the last run.  Since a collection can't
+ * happen while a native function is running there has to be enough left for the
+ * ones that allocate a lot. */
+#define lHeapLimit(typeMax, active) MAX((typeMax) - (typeMax) / 4, (active) + ((typeMax) - (active)) / 2)
+
 #define allocatorTypes() \
 	defineAllocator(lArray, ARR_MAX) \
 	defineAllocator(lClosure, CLO_MAX) \
@@ -334,6 +340,7 @@ void lOperationsVerif();
 extern T T##List[typeMax]; \
 extern uint T##Max;	   \
 extern uint T##Active; \
+extern uint T##Limit; \
 extern u8 T##MarkMap[typeMax]; \
 extern T * T##FFree; \
 T * T##AllocRaw();
@@ -360,6 +367,7 @@ static inline int lNFuncID(const lNFunc *n){
 extern lSymbol  lSymbolList [SYM_MAX];
 extern lSymbol *lSymbolFFree;
 extern uint     lSymbolActive;
+extern uint     lSymbolLimit;
 extern uint     lSymbolMax;
 
 extern lSymbol *symType;
diff --git a/lib/symbol.c b/lib/symbol.c
index 4b46b82..bde8105 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -9,6 +9,7 @@
 lSymbol  lSymbolList[SYM_MAX];
 uint     lSymbolActive = 0;
 uint     lSymbolMax    = 0;
+uint     lSymbolLimit  = lHeapLimit(SYM_MAX, 0);
 lSymbol *lSymbolFFree = NULL;
 
 // a hash index over the symbol array.  It is essentially a sparse map such that
@@ -243,7 +244,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely(++lSymbolActive >= lSymbolLimit)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From d0f76fa44feb10fbf9bca18cacc3f58d30341c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 36/78] fix: quotes and #; apply to the next value, whatever
 whitespace and comments are in front of it, and need one [C11]

---
 lib/reader.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 9b4eb88..a7c5e12 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -476,8 +476,34 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	return ret.type == ltNil ? lCons(NIL, NIL) : ret;
 }
 
+/* Read the value a prefix like ' or #; belongs to, there may be whitespace and
+ * comments in front of it */
+static lVal lReadDatum(lReadContext *s){
+	while(1){
+		lStringAdvanceToNextCharacter(s);
+		if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || isClosingChar(*s->data))){
+			return lValExceptionReader(s, "Missing value");
+		}
+		if(unlikely((*s->data == '.') && (isspace((u8)s->data[1]) || isnonsymbol(s->data[1])))){
+			return lValExceptionReader(s, "A dot is not a value");
+		}
+		if(*s->data == ';'){
+			lStringAdvanceToNextLine(s);
+			continue;
+		}
+		const lVal ret = lReadValue(s);
+		if(!isComment(ret)){
+			return ret;
+		}
+	}
+}
+
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	const lVal v = lReadDatum(s);
+	if(unlikely(v.type == ltException)){
+		return v;
+	}
+	return lCons(lValSymS(carSym), lCons(v, NIL));
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -520,14 +546,8 @@ static lVal lReadValue(lReadContext *s){
 			return NIL;
 		}else if(*s->data == ';'){
 			++s->data;
-			if((s->data < s->bufEnd) && (*s->data == '(')){
-				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
-			}else{
-				lReadValue(s);
-				return lValComment();
-			}
+			const lVal v = lReadDatum(s);
+			return unlikely(v.type == ltException) ? v : lValComment();
 		}
 		return lParseSpecial(s);
 	case ';':
-- 
2.43.0


From 22eaafef224d8f3d603de91f41b59e35de48e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 37/78] fix: exactly one value follows the dot of a dotted pair
 [C11]

---
 lib/reader.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index a7c5e12..15e2093 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -28,6 +28,7 @@ static inline lVal lValComment(){
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadDatum(lReadContext *s);
 static lVal lReadElements(lReadContext *s, bool rootForm, char terminator);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
@@ -413,6 +414,7 @@ static lVal lParseSpecial(lReadContext *s){
 /* Read all the values up to the terminator, returns #nil if there are none */
 static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
+	bool dotted = false;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
 
@@ -437,22 +439,19 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 		}else{
 			const u8 next = s->data[1];
 			if((c == '.') && (isspace(next) || isnonsymbol(next))){
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "More than one cdr in dotted pair");
+				}
 				if(unlikely(v.type == ltNil)){
 					return lValExceptionReader(s, "Missing car in dotted pair");
 				}
 				s->data++;
-				lVal nv;
-				do {
-					if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || (*s->data == ')'))){
-						return lValExceptionReader(s, "Missing cdr in dotted pair");
-					}
-					lStringAdvanceToNextCharacter(s);
-					nv = lReadValue(s);
-					if(unlikely(nv.type == ltException)){
-						return nv;
-					}
-				} while(isComment(nv));
-				v.vList->cdr = isComment(nv) ? NIL : nv;
+				const lVal nv = lReadDatum(s);
+				if(unlikely(nv.type == ltException)){
+					return nv;
+				}
+				v.vList->cdr = nv;
+				dotted = true;
 				continue;
 			}else{
 				lVal nv = lReadValue(s);
@@ -460,6 +459,9 @@ static lVal lReadElements(lReadContext *s, bool rootForm, char terminator){
 				if(unlikely(nv.type == ltException)){
 					return nv;
 				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "More than one cdr in dotted pair");
+				}
 				if(v.type == ltNil){
 					v = ret = lCons(nv, NIL);
 				}else{
-- 
2.43.0


From e7c9a3c3fac8ac8335261c8ce7deb01d338b9c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 38/78] fix: errors within [], {}, ##() and #@() are reported,
 the latter two need their bracket [C11]

---
 lib/reader.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 15e2093..94147a5 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -398,13 +398,25 @@ static lVal lParseSpecial(lReadContext *s){
 		return NIL;
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
-	case '#':
+	case '#':{
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Missing opening bracket of array lit.");
+		}
 		s->data++;
-		return lnfArrNew(lReadElements(s, false, ')'));
+		const lVal v = lReadElements(s, false, ')');
+		return unlikely(v.type == ltException) ? v : lnfArrNew(v);
+	}
 	case '@':{
+		if(unlikely(*s->data != '(')){
+			return lValExceptionReader(s, "Missing opening bracket of tree lit.");
+		}
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
-		if(ret.vTree->root){
+		const lVal v = lReadList(s,false,')');
+		if(unlikely(v.type == ltException)){
+			return v;
+		}
+		lVal ret = lnfTreeNew(v);
+		if(likely((ret.type == ltTree) && ret.vTree->root)){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
 		return ret;
@@ -520,12 +532,16 @@ static lVal lReadValue(lReadContext *s){
 	case '(':
 		s->data++;
 		return lReadList(s,false,')');
-	case '[':
+	case '[':{
 		s->data++;
-		return lCons(lValSymS(symArr), lReadElements(s,false, ']'));
-	case '{':
+		const lVal v = lReadElements(s,false, ']');
+		return unlikely(v.type == ltException) ? v : lCons(lValSymS(symArr), v);
+	}
+	case '{':{
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		const lVal v = lReadList(s,false,'}');
+		return unlikely(v.type == ltException) ? v : lCons(lValSymS(symTreeNew), v);
+	}
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
-- 
2.43.0


From a97f826e94d8d38dd9ee8f28c45c353d2014b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 39/78] fix: nested block comments end where they should, ones
 that don't end are an error [C11]

---
 lib/reader.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 94147a5..4440cb4 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -75,17 +75,21 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 	for(;(s->data < s->bufEnd) && (*s->data != '\n');s->data++){}
 }
 
-static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
-	const char *end = s->bufEnd-1;
-	for(;(s->data < end);s->data++){
+/* Returns whether the comment, or comments if there are some within it, end */
+static bool lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
+	uint depth = 1;
+	while((s->bufEnd - s->data) >= 2){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
-			s->data+=2;
-			lStringAdvanceUntilEndOfBlockComment(s);
+			s->data += 2;
+			depth++;
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
-			s->data+=2;
-			return;
+			s->data += 2;
+			if(--depth == 0){return true;}
+		}else{
+			s->data++;
 		}
 	}
+	return false;
 }
 
 /* Parse the string literal in s and return the resulting ltString lVal */
@@ -381,7 +385,9 @@ static lVal lParseSpecial(lReadContext *s){
 	default:
 		return lValExceptionReaderStartEnd(s, "Wrong char in special lit.");
 	case '|': // SRFI-30
-		lStringAdvanceUntilEndOfBlockComment(s);
+		if(unlikely(!lStringAdvanceUntilEndOfBlockComment(s))){
+			return lValExceptionReader(s, "Can't find closing |#");
+		}
 		lStringAdvanceToNextCharacter(s);
 		return lValComment();
 	case '!': // Ignore Shebang's
-- 
2.43.0


From 3e2848d48ded1005175b6e0a780c439b53a30b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 40/78] fix: string literals of more than 4095 bytes don't get
 an additional byte [C11]

---
 lib/reader.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 4440cb4..a03c0a8 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -109,7 +109,7 @@ static lVal lParseString(lReadContext *s){
 			if(buf == NULL){
 				exit(21);
 			}
-			b = &buf[i];
+			b = &buf[i-1];
 		}
 		if(unlikely(*s->data == '\\')){
 			s->data++;
@@ -155,18 +155,12 @@ static lVal lParseString(lReadContext *s){
 			s->data++;
 			return lValAlloc(ltString, lStringNew(buf,b-buf));
 		}else if(unlikely(*s->data == 0)){
-			if (likely(i < bufSize)) {
-				buf[i] = 0;
-			}
-			return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
+			return lValException(lSymReadError, "Can't find closing \"", lValStringLen(buf, b-buf));
 		}else{
 			*b++ = *s->data++;
 		}
 	}
-	if (likely(i < bufSize)) {
-		buf[i] = 0;
-	}
-	return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
+	return lValException(lSymReadError, "Can't find closing \"", lValStringLen(buf, b-buf));
 }
 
 static lVal lFinishSymbol(lReadContext *s, uint i, char buf[128], const char *start, bool keyword, lVal refVal){
-- 
2.43.0


From 7d000d8773e59b46da23d2cfc5018e6dd7ad8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 41/78] fix: the fraction of a number has as many digits as are
 written [C11]

---
 lib/reader.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index a03c0a8..d505b29 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -54,12 +54,6 @@ static lVal lValExceptionReaderEnd(lReadContext *s, const char *start, const cha
 	return lValException(lSymReadError, msg, lValStringError(s->buf,s->bufEnd, start ,s->data , end));
 }
 
-static double createFloat(i64 value, i64 mantissa, i64 mantissaLeadingZeroes){
-	if(mantissa == 0){return value;}
-	const double mant = mantissa * pow(10, -(floor(log10(mantissa)) + 1 + mantissaLeadingZeroes));
-	return value + mant;
-}
-
 static void lStringAdvanceToNextCharacter(lReadContext *s){
 	for(;(s->data < s->bufEnd) && (isspace((u8)*s->data));s->data++){}
 }
@@ -226,7 +220,9 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 	return lFinishSymbol(s, i, buf, start, keyword, refVal);
 }
 
-static lVal lParseNumberBase(lReadContext *s, int base, int maxDigits){
+/* Leading zeroes are only counted in DIGITSREAD, and not limited by MAXDIGITS
+ * in a fraction */
+static lVal lParseNumberBase(lReadContext *s, int base, int maxDigits, bool fraction, int *digitsRead){
 	i64 ret = 0;
 	int digits = 0;
 	const char *start = s->data;
@@ -244,7 +240,8 @@ static lVal lParseNumberBase(lReadContext *s, int base, int maxDigits){
 
 		if((curDigit >= 0) && (curDigit < base)){
 			ret = (ret * base) + curDigit;
-			if((++digits) > maxDigits){
+			*digitsRead += 1;
+			if((!fraction || (ret != 0)) && ((++digits) > maxDigits)){
 				return lValExceptionReaderEnd(s, start, "Literal too big, loss of precision imminent");
 			}
 		}else{
@@ -263,25 +260,22 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 		s->data++;
 		negative = true;
 	}
-	lVal val = lParseNumberBase(s, base, maxDigits);
+	int digits = 0;
+	lVal val = lParseNumberBase(s, base, maxDigits, false, &digits);
 	if(unlikely(val.type == ltException)){
 		return val;
 	}
 	if(*s->data == '.'){
 		s->data++;
-		int mantissaLeadingZeroes = 0;
-		while(*s->data == '0'){
-			mantissaLeadingZeroes++;
-			s->data++;
-		}
-		const lVal mantissaVal = lParseNumberBase(s, base, maxDigits);
+		digits = 0;
+		const lVal mantissaVal = lParseNumberBase(s, base, maxDigits, true, &digits);
 		if(unlikely(mantissaVal.type == ltException)){
 			return mantissaVal;
 		}
 		if(*s->data == '.'){
 			return lValExceptionReaderEnd(s, start, "Period at end of number");
 		}else{
-			const double valf = createFloat(val.vInt, mantissaVal.vInt, mantissaLeadingZeroes);
+			const double valf = (mantissaVal.vInt == 0) ? val.vInt : val.vInt + (mantissaVal.vInt / pow(10, digits));
 			return lValFloat(negative ? -valf : valf);
 		}
 	}
-- 
2.43.0


From dabe2f315dc142474821ea19261399b7278ca7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 42/78] fix: symbols too long to be read are an error instead
 of two symbols [C11]

---
 lib/reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/reader.c b/lib/reader.c
index d505b29..d411cc7 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -217,6 +217,9 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 		}
 		buf[i] = c;
 	}
+	if(unlikely(i >= (sizeof(buf)-1))){
+		return lValExceptionReaderEnd(s, start, "Sym/KW too long");
+	}
 	return lFinishSymbol(s, i, buf, start, keyword, refVal);
 }
 
-- 
2.43.0


From ae29d26ffd2e660d833d017468c7e1305769fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 43/78] fix: # and #\ at the end of a text are errors [C11]

---
 lib/reader.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index d411cc7..cfd7337 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -289,6 +289,9 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 }
 
 static lVal lParseCharacter(lReadContext *s){
+	if(unlikely(s->data >= s->bufEnd)){
+		return lValExceptionReader(s, "Missing char in character lit.");
+	}
 	int ret = s->data[0];
 	if((s->data[0] == 'B') && (s->data[1] == 'a')){ret = '\b';}
 	else if((s->data[0] == 'T') && (s->data[1] == 'a')){ret = '\t';}
@@ -371,7 +374,6 @@ static lVal lParseBuffer(lReadContext *s){
 }
 
 static lVal lParseSpecial(lReadContext *s){
-	if(s->data >= s->bufEnd){return NIL;}
 	switch(*s->data++){
 	default:
 		return lValExceptionReaderStartEnd(s, "Wrong char in special lit.");
@@ -557,8 +559,8 @@ static lVal lReadValue(lReadContext *s){
 		return lParseString(s);
 	case '#':
 		s->data++;
-		if(s->data >= s->bufEnd){
-			return NIL;
+		if(unlikely(s->data >= s->bufEnd)){
+			return lValExceptionReader(s, "Missing char in special lit.");
 		}else if(*s->data == ';'){
 			++s->data;
 			const lVal v = lReadDatum(s);
-- 
2.43.0


From 86a88954f8980ae47fe911e8f29583e8d730b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 44/78] fix: text that is nested too deeply is an error instead
 of a crash [C11]

---
 lib/reader.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index cfd7337..f5ebc92 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -17,8 +17,12 @@
 
 typedef struct {
 	const char *buf, *bufEnd, *data;
+	uint depth;
 } lReadContext;
 
+/* Every level needs some space on the C stack */
+#define READ_DEPTH_MAX (1<<12)
+
 static inline bool isComment(lVal v){
 	return v.type == ltComment;
 }
@@ -209,7 +213,13 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			}
 		}
 		if(c == '.'){
-			return lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			if(unlikely(s->depth >= READ_DEPTH_MAX)){
+				return lValExceptionReaderEnd(s, start, "Sym/KW too long");
+			}
+			s->depth++;
+			const lVal ret = lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			s->depth--;
+			return ret;
 		}
 		if((c == 0) || isspace((u8)c) || isnonsymbol(c)){
 			s->data--;
@@ -519,7 +529,7 @@ static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
 	return lCons(lValSymS(carSym), lCons(v, NIL));
 }
 
-static lVal lReadValue(lReadContext *s){
+static lVal lReadNestedValue(lReadContext *s){
 	if(unlikely(s->data >= s->bufEnd)){
 		return NIL;
 	}
@@ -578,9 +588,20 @@ static lVal lReadValue(lReadContext *s){
 	}
 }
 
+static lVal lReadValue(lReadContext *s){
+	if(unlikely(s->depth >= READ_DEPTH_MAX)){
+		return lValExceptionReader(s, "Nested too deeply");
+	}
+	s->depth++;
+	const lVal ret = lReadNestedValue(s);
+	s->depth--;
+	return ret;
+}
+
 lVal lRead(const char *str, size_t len){
 	lReadContext ctx;
 	ctx.buf = ctx.data = str;
 	ctx.bufEnd = &str[len];
+	ctx.depth = 0;
 	return lReadList(&ctx, true, ')');
 }
-- 
2.43.0


From af643eb1252befaaf14ebd30eb1c6215ac40d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 45/78] fix: numbers of more than 24 digits in front of the
 point don't overflow the buffer they are printed to [C12]

---
 lib/core-operators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index 6e72b98..7b2b541 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -144,7 +144,7 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[512]; // DBL_MAX has 309 digits in front of the point
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
 	if(snret < 0){
 		return lValException(lSymIOError, "Unprintable flonum", a);
-- 
2.43.0


From 0fdf05c11d2bd94c09500623bf6edfec02e65b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 46/78] fix: decimal fractions are read as the number nearest
 to them [C12]

---
 lib/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index f5ebc92..394477c 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -288,7 +288,10 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 		if(*s->data == '.'){
 			return lValExceptionReaderEnd(s, start, "Period at end of number");
 		}else{
-			const double valf = (mantissaVal.vInt == 0) ? val.vInt : val.vInt + (mantissaVal.vInt / pow(10, digits));
+			const double pow10 = pow(10, digits);
+			const double valf = (digits <= 18) // A single rounding as long as this is exact
+				? ((val.vInt * pow10) + mantissaVal.vInt) / pow10
+				: val.vInt + (mantissaVal.vInt / pow10);
 			return lValFloat(negative ? -valf : valf);
 		}
 	}
-- 
2.43.0


From 6c3ebf806b2eea19e6672fb0612655b1d51fca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 47/78] fix: strings are written to their end, not up to the
 first zero byte [C12]

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 68999a4..81dc1ce 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -113,7 +113,7 @@
                        (dotimes (i (:length v))
                          (def c (ref v i))
                          (case c
-                               (0 (return (:block-write port "\"")))
+                               (0 (:block-write port "\\0"))
                                (#x07 (:block-write port "\\a"))
                                (#x08 (:block-write port "\\b"))
                                (#x09 (:block-write port "\\t"))
-- 
2.43.0


From 69a152ef46e8b4a348dae637ee54c6ba61a836bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 48/78] fix: write the tail of a pair if it is #f [C12]

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 81dc1ce..d9b88f2 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -96,7 +96,7 @@
                          (return (write/raw (cadr v) port hr?)))
                        (:block-write port "(")
                        (def first? #f)
-                       (while v
+                       (while (not (nil? v))
                          (if first?
                              (:block-write port " ")
                              (set! first? #t))
-- 
2.43.0


From 3a597428602c22b22284bb9ae91312ec0ebdc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 49/78] fix: join always gives a string, and keeps a first
 element that is nil [C20]

---
 stdlib/collections/collection.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/collections/collection.nuj b/stdlib/collections/collection.nuj
index 4b1e9e4..3d9ff4d 100644
--- a/stdlib/collections/collection.nuj
+++ b/stdlib/collections/collection.nuj
@@ -45,7 +45,7 @@
       "Join every element of α together into a string with GLUE inbetween"
       (when-not glue (set! glue ""))
       (when-not l (return ""))
-      (reduce l (fn (a b) (if a (cat a glue b) b)) #nil))
+      (or (reduce l (fn (a b) (if a (cat a glue b) (cat b))) #nil) ""))
 
 (defn for-each (l f)
       "Runs F over every item in collection L"
-- 
2.43.0


From 0e314249cf317af5d98ae2bba252d3722aafd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 50/78] fix: binary and octal conversion of negative numbers
 ends with an error instead of never [C20]

---
 stdlib/string/printer.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index d9b88f2..813c57e 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -9,6 +9,7 @@
       (def ret "")
       (when (or (not α) (zero? α))
         (return "0"))
+      (when (< α 0) (exception :type-error "Can't print negative numbers in binary for now" α ))
       (while (not-zero? α)
              (set! ret (cat (from-char-code (+ #\0 (bit-and α #b1))) ret))
              (set! α (bit-shift-right α 1)))
@@ -19,6 +20,7 @@
       (def ret "")
       (when (or (not α) (zero? α))
         (return "0"))
+      (when (< α 0) (exception :type-error "Can't print negative numbers in octal for now" α ))
       (while (not-zero? α)
              (set! ret (cat (from-char-code (+ #\0 (bit-and α #b111))) ret))
              (set! α (bit-shift-right α 3)))
-- 
2.43.0


From 06997119e14516d6eb83841cd7653fe5ca2e682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 51/78] fix: padding with an empty string ends [C20]

---
 stdlib/string/string.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/string/string.nuj b/stdlib/string/string.nuj
index 0414123..fe7dd2d 100644
--- a/stdlib/string/string.nuj
+++ b/stdlib/string/string.nuj
@@ -15,7 +15,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "pad-start needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not-zero? (:length padding)))
              (set! text (cat padding text)))
       (if (> (:length text) pad-length)
           (:cut text (- (:length text) pad-length) (:length text))
@@ -33,7 +33,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "pad-end needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not-zero? (:length padding)))
              (set! text (cat text padding)))
       (if (> (:length text) pad-length)
           (:cut text 0 pad-length)
@@ -50,7 +50,7 @@
       (when-not (string? text) (set! text (:string text)))
       (when-not (string? padding)
                 (exception :type-error "string/pad-middle needs char as a string, so that one can pad with multiple characters" padding))
-      (while (< (:length text) pad-length)
+      (while (and (< (:length text) pad-length) (not-zero? (:length padding)))
              (set! text (cat padding text padding)))
       (if (> (:length text) pad-length)
           (let ((end-overflow (div/int (- (:length text) pad-length) 2))
-- 
2.43.0


From 98e97c735ee68d6d88dc121fcccd9a5f202b7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 52/78] fix: width and precision work for every value, a
 precision is not a width [C20]

---
 stdlib/string/fmt.nuj | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stdlib/string/fmt.nuj b/stdlib/string/fmt.nuj
index b8212e7..9278788 100644
--- a/stdlib/string/fmt.nuj
+++ b/stdlib/string/fmt.nuj
@@ -47,7 +47,9 @@
                                                 (:cut spec 0 (- (:length spec) 1))))
                            (#\> (fmt/parse-spec (set! opts :align :right)
                                                 (:cut spec 0 (- (:length spec) 1))))
-                           (#\. (fmt/parse-spec (set! opts :precision (ref opts :width))
+                           (#\. (fmt/parse-spec (-> (set! opts :precision (ref opts :width))
+                                                    (set! :width #nil)
+                                                    (set! :padding-char " "))
                                                 (:cut spec 0 (- (:length spec) 1))))
                            (otherwise (exception :format-error "Unknown form-spec option" spec)))))
 
@@ -80,6 +82,11 @@
                              opts)
                          (set! :debug #f))))
 
+           (defn fmt/display (opts)
+                 (if-not (or (ref opts :width) (ref opts :precision))
+                         opts
+                         (set! opts :argument (list string/display (ref opts :argument)))))
+
            (defn fmt/add-padding (opts)
                  (if-not (ref opts :width)
                          opts
@@ -114,6 +121,7 @@
            (defn fmt/format-arg (spec argument)
                  (-> (set! (fmt/parse-spec (:clone fmt/format-arg/default) spec) :argument argument)
                      fmt/number-format
+                     fmt/display
                      fmt/precision
                      fmt/add-padding
                      fmt/truncate
-- 
2.43.0


From 218f11621f37bdcaba6080d8495d034e5324ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 53/78] fix: a symbol with a too long name is the symbol of the
 name that is kept [C03]

---
 lib/symbol.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/symbol.c b/lib/symbol.c
index bde8105..0e7ab23 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -228,6 +228,13 @@ uint lSymbolIndexSlot(const char *str){
 }
 
 lSymbol *lSymS(const char *str){
+	char buf[sizeof(lSymbolList[0].c)];
+	if(unlikely(strlen(str) >= sizeof(buf))){
+		// What doesn't fit isn't a part of the name
+		memcpy(buf, str, sizeof(buf)-1);
+		buf[sizeof(buf)-1] = 0;
+		str = buf;
+	}
 	uint slot = lSymbolIndexSlot(str);
 	int symIndex = lSymbolIndex[slot];
 	if(SYMBOL_SLOT_IS_USED(symIndex)){
-- 
2.43.0


From aea97d2f0e05affb7b0cefddf02c3e6f19af42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 54/78] fix: using a closed file is an error [C19]

---
 bin/port.c           | 21 +++++++++++----------
 lib/core-operators.c |  2 +-
 lib/imageWriter.c    |  2 +-
 lib/nujel.h          | 19 ++++++++++++++-----
 lib/val.c            | 35 +++++++++++++++++++++++++++++++++++
 5 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..11c9828 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -17,7 +17,7 @@ static void disableRawMode() {
 static lVal lnfFileRaw(lVal handle){
 	struct termios raw;
 	reqFileHandle(handle);
-	FILE *fh = handle.vFileHandle;
+	FILE *fh = handle.vFileHandle->stream;
 
 	tcgetattr(fileno(fh), &raw);
 	if(!rawMode){
@@ -73,7 +73,7 @@ static lVal lnfBytesLeftToRead(lVal file){
 #if (defined(_WIN32)) || (defined(__wasi__)) || (defined(__MINGW32__))
 	return lValInt(0);
 #else
-	int fd = fileno(file.vFileHandle);
+	int fd = fileno(file.vFileHandle->stream);
 	int bytesAvailable = 0;
 	int err = ioctl(fd, FIONREAD, &bytesAvailable);
 	if(err){
@@ -92,13 +92,13 @@ static lVal lnfFileOpenInput(lVal aPathname){
 
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
-	fclose(aHandle.vFileHandle);
+	lFileHandleClose(aHandle.vFileHandle);
 	return NIL;
 }
 
 static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset){
 	reqFileHandle(aHandle);
-	FILE *fh = aHandle.vFileHandle;
+	FILE *fh = aHandle.vFileHandle->stream;
 	lVal contentV = aBuffer;
 	reqNaturalInt(aSize);
 	const i64 size = aSize.vInt;
@@ -140,7 +140,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 
 static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset){
 	reqFileHandle(aHandle);
-	FILE *fh = aHandle.vFileHandle;
+	FILE *fh = aHandle.vFileHandle->stream;
 	lVal contentV = aBuffer;
 	i64 size = castToInt(aSize, -1);
 	const i64 offset = castToInt(aOffset, 0);
@@ -183,12 +183,13 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 
 static lVal lnfFileFlush(lVal aHandle){
 	reqFileHandle(aHandle);
-	fflush(aHandle.vFileHandle);
+	fflush(aHandle.vFileHandle->stream);
 	return aHandle;
 }
 
 static lVal lnfFileTell(lVal aHandle){
-	const i64 pos = ftell(aHandle.vFileHandle);
+	reqFileHandle(aHandle);
+	const i64 pos = ftell(aHandle.vFileHandle->stream);
 	return lValInt(pos);
 }
 
@@ -196,7 +197,7 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 	reqFileHandle(aHandle);
 	reqInt(aOffset);
 	reqInt(aWhence);
-	FILE *fh = aHandle.vFileHandle;
+	FILE *fh = aHandle.vFileHandle->stream;
 	const i64 offset = aOffset.vInt;
 	const i64 whenceRaw = aWhence.vInt;
 	if((whenceRaw < 0) || (whenceRaw > 2)){
@@ -209,12 +210,12 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 
 static lVal lnfFileEof(lVal aHandle){
 	reqFileHandle(aHandle);
-	return lValBool(feof(aHandle.vFileHandle));
+	return lValBool(feof(aHandle.vFileHandle->stream));
 }
 
 static lVal lnfFileError(lVal aHandle){
 	reqFileHandle(aHandle);
-	return lValBool(ferror(aHandle.vFileHandle));
+	return lValBool(ferror(aHandle.vFileHandle->stream));
 }
 
 void lOperationsPort(){
diff --git a/lib/core-operators.c b/lib/core-operators.c
index 7b2b541..2002aae 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -95,7 +95,7 @@ static i64 lValToId(lVal v){
 	case ltBytecodeArr: return v.vBytecodeArr - lBytecodeArrayList;
 	case ltKeyword:
 	case ltSymbol: return v.vSymbol - lSymbolList;
-	case ltFileHandle: return fileno(v.vFileHandle);
+	case ltFileHandle: return v.vFileHandle->id;
 	case ltNativeFunc: return v.vNFunc - lNFuncList;
 	}
 }
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..eb386a3 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -272,7 +272,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltFileHandle:
 		ctx->curOff += 2;
 		*outb++ = litFileHandle;
-		*outb = ctxAddFilehandle(v.vFileHandle);
+		*outb = ctxAddFilehandle(v.vFileHandle->stream);
 		break;
 	case ltNativeFunc: {
 		ctx->curOff += 4;
diff --git a/lib/nujel.h b/lib/nujel.h
index 90a6309..47c904c 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -94,8 +94,16 @@ typedef struct lVal           lVal;
 typedef struct lPair          lPair;
 typedef struct lBytecodeArray lBytecodeArray;
 typedef uint8_t lBytecodeOp;
+typedef struct lFileHandle lFileHandle;
 typedef lBuffer lString;
 
+/* Every open stream has one handle, which stays valid (without a stream) after it was closed */
+struct lFileHandle {
+	FILE *stream;
+	lFileHandle *next;
+	int id;
+};
+
 struct lTreeRoot {
 	union {
 		lTree *root;
@@ -111,7 +119,7 @@ struct lVal {
 		double          vFloat;
 		lPair*          vList;
 		const lSymbol * vSymbol;
-		FILE *          vFileHandle;
+		lFileHandle *   vFileHandle;
 		lBytecodeArray *vBytecodeArr;
 		lArray *        vArray;
 		lTreeRoot *     vTree;
@@ -239,6 +247,9 @@ if(unlikely(str.vInt < 0)){\
 
 #define reqFileHandle(val) do { if(unlikely(val.type != ltFileHandle)){\
 	return lValException(lSymTypeError, "Need a FileHandle", val);\
+}\
+if(unlikely(val.vFileHandle->stream == NULL)){\
+	return lValException(lSymIOError, "That file is closed", val);\
 } } while(0)
 
 #define reqMutableBuffer(val) do { if(unlikely(val.type != ltBuffer)){\
@@ -376,10 +387,8 @@ static inline lVal lValKeyword(const char *s){
 	return lValKeywordS(lSymS(s));
 }
 
-static inline lVal lValFileHandle(FILE *fh){
-	return (lVal){ltFileHandle, .vFileHandle = fh};
-}
-
+lVal     lValFileHandle   (FILE *fh);
+void     lFileHandleClose (lFileHandle *handle);
 lVal     lValString       (const char *s);
 lVal     lValStringLen    (const char *s, int len);
 lVal     lValStringNoCopy (const char *s, int len);
diff --git a/lib/val.c b/lib/val.c
index a0e0808..5f329d5 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -6,6 +6,41 @@
 
 lVal NIL;
 
+static lFileHandle *lFileHandlesOpen;
+
+/* Return the handle of FH, there is only ever one for every open stream */
+lVal lValFileHandle(FILE *fh){
+	lFileHandle *h = lFileHandlesOpen;
+	while(h && (h->stream != fh)){
+		h = h->next;
+	}
+	if(h == NULL){
+		h = malloc(sizeof(lFileHandle));
+		if(h == NULL){
+			return lValException(lSymOOM, "Can't allocate another file handle", NIL);
+		}
+		h->stream = fh;
+		h->id = fileno(fh);
+		h->next = lFileHandlesOpen;
+		lFileHandlesOpen = h;
+	}
+	return (lVal){ltFileHandle, .vFileHandle = h};
+}
+
+/* Close the stream of HANDLE, which is kept since there might be references to it */
+void lFileHandleClose(lFileHandle *handle){
+	lFileHandle **link = &lFileHandlesOpen;
+	while(*link && (*link != handle)){
+		link = &(*link)->next;
+	}
+	if(*link){
+		*link = handle->next;
+	}
+	fclose(handle->stream);
+	handle->stream = NULL;
+	handle->next = NULL;
+}
+
 static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 	const uint alen = lBufferLength(a);
 	const uint blen = lBufferLength(b);
-- 
2.43.0


From 4d692e735a1865c32ba2cfe2c3bcf6a217c3442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 55/78] fix: opening an existing file for output with :error
 does not empty it [C19]

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index 11c9828..a113d48 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){return lValBool(false);}
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From 80362df6954bfa1bcad58d125da9c3acf85fe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 56/78] fix: reading and writing files with an offset outside
 of the buffer is an error [C19]

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index a113d48..e3e57d1 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -122,7 +122,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || (offset > bufSize) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesRead < size){
@@ -167,7 +167,7 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	if(size < 0){
 		size = bufSize - offset;
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || (offset > bufSize) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesWritten < size){
-- 
2.43.0


From 7524dca0cd99580fb35dac93c05e741cbf67bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 57/78] fix: a failing seek is an error [C19]

---
 bin/port.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index e3e57d1..2977118 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -204,7 +204,9 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 		return lValException(lSymTypeError, "Whence has to be in the range 0-2", aWhence);
 	}
 	const int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;
-	fseek(fh, offset, whence);
+	if(fseek(fh, offset, whence)){
+		return lValException(lSymIOError, "Can't seek there", aOffset);
+	}
 	return aHandle;
 }
 
-- 
2.43.0


From 87d8149356509d0895998052715a674fc372676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 58/78] fix: reading characters stops at the end of the file
 [C19]

---
 stdlib/string/portng.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 723c567..e03ec4d 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -175,8 +175,8 @@
   (defn char-read (self char)
         (when (file/eof*? self.handle)
           (return :end-of-file))
-        (when-not (file/read* self.handle self.temp-buffer 1)
-                  (return :end-of-file))
+        (when (zero? (file/read* self.handle self.temp-buffer 1))
+              (return :end-of-file))
         (ref self.temp-buffer 0))
 
   (defn raw! (self)
-- 
2.43.0


From b5ba8534ef300b7abad0b02c98b2e21476573f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 59/78] fix: single characters can be written to files [C19]

---
 stdlib/string/portng.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index e03ec4d..643f4f2 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -96,7 +96,7 @@
 
   (defn char-write (self char)
         (set! self.temp-buffer 0 char)
-        (file/write* self.handle temporary-buffer 1))
+        (file/write* self.handle self.temp-buffer 1))
 
   (defn close! (self)
         (file/close* self.handle))
-- 
2.43.0


From 7f820f36b6706d3b0bc5e0deefd7995a7daece3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 60/78] fix: lines of more than 128 characters can be read
 [C19]

---
 stdlib/string/portng.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 643f4f2..ab1256e 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -35,7 +35,7 @@
       (def view (:u8 buf))
       (while #t
              (while (>= i (:length buf))
-                    (:length! (+ 128 (:length buf))))
+                    (:length! buf (+ 128 (:length buf))))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
-- 
2.43.0


From 9c9ca2608dfd4e21db7bc3d2129b1d6fc6e45e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 61/78] fix: spit does not report success when nothing could be
 written [C19]

---
 binlib/io.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..4e88cab 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -90,10 +90,10 @@
 
       (try (fn ()
                (file/close* fh)
-               (return #f))
+               #f)
            (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+           (file/close* fh)
+           #t))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
-- 
2.43.0


From 9d280c3d554739bc68a65fd1b6f22c9990a8113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 62/78] fix: slurping a missing file gives #nil [C19]

---
 binlib/io.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 4e88cab..5bc5e57 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -80,7 +80,8 @@
 
 (defn slurp (pathname)
       "Read the entirety of PATHNAME and return it as a string if possible, otherwise return #nil."
-      (buffer->string (slurp/buffer pathname)))
+      (def buf (slurp/buffer pathname))
+      (and buf (buffer->string buf)))
 (def file/read slurp)
 
 (defn spit (pathname content)
-- 
2.43.0


From 3e9b3809b08d06e84cc8ae5a9bd520301dc9d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 63/78] fix: reading a line of more than 128 characters goes on
 in the larger buffer [C19]

---
 stdlib/string/portng.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index ab1256e..062a7fc 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -35,7 +35,8 @@
       (def view (:u8 buf))
       (while #t
              (while (>= i (:length buf))
-                    (:length! buf (+ 128 (:length buf))))
+                    (:length! buf (+ 128 (:length buf)))
+                    (set! view (:u8 buf)))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
-- 
2.43.0


From 6696973ba54ff2a7adace45bf3c02335555bbcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 64/78] fix: copying a missing file leaves the destination
 alone [C19]

---
 binlib/io.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 5bc5e57..c2c0157 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -5,7 +5,8 @@
 
 (defn file/copy (source-path destination-path)
       "Copy a file from SOURCE-PATH to DESTINATION-PATH"
-      (spit destination-path (slurp source-path)))
+      (def content (slurp source-path))
+      (if content (spit destination-path content) #f))
 
 (defn file/read (path)
       "Read in a file using the Nujel reader"
-- 
2.43.0


From 6b958e670a17f0da89e09c12520a205d3fbaf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 65/78] fix: strings loaded from an image are terminated [C10]

---
 lib/imageReader.c | 7 +++++--
 lib/imageWriter.c | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..fe0c3bc 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -108,14 +108,17 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	const u32 len = raw & 0x0FFFFFFF;
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
-	lBuffer *buf = lBufferAlloc(len, immutable);
+	lBuffer *buf = lBufferAllocRaw();
+	buf->length = len;
+	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	readMapSet(map, off, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
+		buf->buf = malloc(len + 1); // Strings are always terminated
 		memcpy(buf->buf, data, len);
+		((char *)buf->buf)[len] = 0;
 	}
 	return buf;
 }
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index eb386a3..4827568 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -186,7 +186,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + v->length;
+	const i32 eleSize = 4 + v->length + 1; // The terminating zero is not part of the content
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
@@ -197,6 +197,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	ctx->curOff += eleSize;
 
 	memcpy(&out[1], v->data, v->length);
+	((u8 *)&out[1])[v->length] = 0;
 	return curOff;
 }
 
-- 
2.43.0


From cfd99f88dd7d710160bb47340e8f33eb6070d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 66/78] fix: trees keep their identity and mutability in an
 image [C10]

---
 lib/imageReader.c   | 15 +++++++++++++++
 lib/imageWriter.c   | 23 +++++++++++++++++++++--
 lib/nujel-private.h |  8 ++++++++
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index fe0c3bc..10f0ffe 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -163,6 +163,19 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 	return root->root;
 }
 
+static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+	const void *mapP = readMapGet(map, off);
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
+	const lImageTreeRoot *imgRoot = (lImageTreeRoot *)((void *)&img->data[off]);
+	lTreeRoot *root = lTreeRootAllocRaw();
+	readMapSet(map, off, root);
+	root->root = readTree(map, img, imgRoot->nodes, staticImage);
+	if(root->root != NULL){
+		root->root->flags |= imgRoot->flags;
+	}
+	return root;
+}
+
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	(void)map;
 	if(off < 0){return NULL;}
@@ -267,6 +280,8 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
 		return lValTree(readTree(map, img, tbyte, staticImage));
+	case litTreeRoot:
+		return lValAlloc(ltTree, readTreeRoot(map, img, tbyte, staticImage));
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 4827568..461bae8 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -106,6 +106,25 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	return curOff;
 }
 
+static i32 ctxAddTreeRoot(writeImageContext *ctx, lTreeRoot *v){
+	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+	if(mapOff > 0){ return mapOff; }
+
+	const i32 eleSize = sizeof(lImageTreeRoot);
+	ctxRealloc(ctx, eleSize);
+
+	const i32 curOff = ctx->curOff;
+	writeMapSet(&ctx->map, (void *)v, curOff);
+	ctx->curOff += eleSize;
+	const i32 nodes = ctxAddTree(ctx, v->root);
+
+	lImageTreeRoot *out = (lImageTreeRoot *)((void *)&ctx->start[curOff]);
+	out->nodes = nodes;
+	out->flags = v->root ? v->root->flags : 0;
+
+	return curOff;
+}
+
 static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
@@ -304,8 +323,8 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 		break; }
 	case ltTree: {
 		ctx->curOff += 4;
-		*outb = litTree;
-		const i32 off = ctxAddTree(ctx, v.vTree->root);
+		*outb = litTreeRoot;
+		const i32 off = ctxAddTreeRoot(ctx, v.vTree);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
 		*outb++ = (off>>8)&0xFF;
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 1409211..6dd46a9 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -490,8 +490,16 @@ typedef enum {
 	litTrue,
 	litFalse,
 
+	litTreeRoot,
+
 } lImageType;
 
+/* A tree is an object of its own, apart from its nodes */
+typedef struct {
+	i32 nodes;
+	u8 flags;
+} lImageTreeRoot;
+
 typedef struct {
 	i32 buffer;
 	i32 length;
-- 
2.43.0


From 199bed277685e2351cc967ad377290f69c130077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 67/78] fix: a tree which contains itself is read completely
 from an image [C10]

---
 lib/imageReader.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 10f0ffe..64971f9 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -148,17 +148,21 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
 	lTreeRoot *root = lTreeRootAllocRaw();
 	readMapSet(map, off, root);
-	off += 2;
+	/* A value can refer to the tree itself, so all nodes have to be there before the first value */
+	const i32 entries = off + 2;
 	for(int i=0;i<len;i++){
+		off = entries + i*6;
+		const i32 sym = img->data[off+0] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
+		const lSymbol *s = readSymbol(map, img, sym, staticImage);
+		root->root = lTreeInsert(root->root, s, NIL);
+	}
+	for(int i=0;i<len;i++){
+		off = entries + i*6;
 		const i32 sym = img->data[off+0] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
 		const i32 val = img->data[off+3] | (img->data[off+4] << 8) | (img->data[off+5] << 16);
-		off += 6;
-
 		const lSymbol *s = readSymbol(map, img, sym, staticImage);
-		if(s){
-			lVal v = readVal(map, img, val, staticImage);
-			root->root = lTreeInsert(root->root, s, v);
-		}
+		lVal v = readVal(map, img, val, staticImage);
+		root->root = lTreeInsert(root->root, s, v);
 	}
 	return root->root;
 }
-- 
2.43.0


From cec201dafc7d84fce1aaccf95a1cd6b25c7a8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 68/78] fix: serializing what does not fit into an image is an
 error [C10]

---
 lib/imageWriter.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 461bae8..848d3b0 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -17,8 +17,12 @@ typedef struct {
 	i32 curOff;
 	i32 size;
 	writeImageMap map;
+	bool tooBig;
 } writeImageContext;
 
+/* Most offsets are stored in 3 bytes, with the highest one meaning that there is nothing */
+#define IMAGE_MAX_OFFSET ((1<<24)-2)
+
 static i32 ctxAddVal(writeImageContext *ctx, lVal v);
 
 static i32 writeMapGet(writeImageMap *map, void *key){
@@ -30,7 +34,9 @@ static i32 writeMapGet(writeImageMap *map, void *key){
 	return 0;
 }
 
-static void writeMapSet(writeImageMap *map, void *key, i32 val){
+static void writeMapSet(writeImageContext *ctx, void *key, i32 val){
+	writeImageMap *map = &ctx->map;
+	ctx->tooBig |= val > IMAGE_MAX_OFFSET;
 	if(map->len+1 >= map->size){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(void *));
@@ -62,7 +68,7 @@ static i32 ctxAddSymbol(writeImageContext *ctx, const lSymbol *v){
 
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 	memcpy(&ctx->start[curOff], v->c, strLen);
         ctx->start[curOff + strLen] = 0;
@@ -98,7 +104,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->start[curOff  ] =  len     & 0xFF;
 	ctx->start[curOff+1] = (len>>8) & 0xFF;
 	ctx->curOff += eleSize;
@@ -114,7 +120,7 @@ static i32 ctxAddTreeRoot(writeImageContext *ctx, lTreeRoot *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 	const i32 nodes = ctxAddTree(ctx, v->root);
 
@@ -133,7 +139,7 @@ static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 
 	i32 *out = (i32 *)((void *)&ctx->start[curOff]);
@@ -157,7 +163,7 @@ static i32 ctxAddBytecodeArray(writeImageContext *ctx, lBytecodeArray *v){
 	ctxRealloc(ctx, eleSize);
 
 	i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 
 	ctx->curOff += eleSize;
 
@@ -178,7 +184,7 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 
 	const i32 args = ctxAddVal(ctx, v->args);
@@ -209,7 +215,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	u32 *out = (u32 *)((void *)&ctx->start[ctx->curOff]);
 	const u32 outVal = (v->length & 0x0FFFFFFF) | (v->flags << 28);
 	*out = outVal;
@@ -228,7 +234,7 @@ static i32 ctxAddBufferView(writeImageContext *ctx, lBufferView *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 	const i32 buf = ctxAddBuffer(ctx, v->buf);
 
@@ -250,7 +256,7 @@ static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(ctx, (void *)v, curOff);
 	ctx->curOff += eleSize;
 
 	const i32 car = v->car.type != ltNil ? ctxAddVal(ctx, v->car) : -1;
@@ -282,6 +288,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	ctxRealloc(ctx, 16);
 
 	const i32 curOff = ctx->curOff;
+	ctx->tooBig |= curOff > IMAGE_MAX_OFFSET;
 	u8 *outb = (u8 *)((void *)&ctx->start[curOff]);
 
 	switch(v.type){
@@ -464,6 +471,10 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	free(ctx.start);
 	free(ctx.map.key);
 	free(ctx.map.val);
+	if(unlikely(ctx.tooBig)){
+		free(buf);
+		return NULL;
+	}
 	return buf;
 }
 
@@ -471,7 +482,7 @@ lVal lnfSerialize(lVal val){
 	i32 size;
 	lImage *img = writeImage(val, &size);
 	if(unlikely(img == NULL)){
-		return lValException(lSymTypeError, "Can't serialize that", NIL);
+		return lValException(lSymTypeError, "Can't serialize that, since it is too big", NIL);
 	} else {
 		lBuffer *buf = lBufferAlloc(size, true);
 		buf->buf = img;
-- 
2.43.0


From 2dc024c8a945a1decec3e512c0c7ceed53ba781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 69/78] fix: consecutive .. in a module path each leave one
 directory [C18]

---
 stdlib/core/module.nuj | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index d189c2e..f8f49a1 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -62,22 +62,24 @@
       :internal
       (set! module/cache name module))
 
-(defn module/resolve-string/join (parts ret)
+(defn module/resolve-string/join (parts ret ups)
       :internal
-      (cond ((not parts) ret)
+      (cond ((not parts)
+             (when (> ups 0) (exception "Invalid path" ret))
+             ret)
             ((or (= "" (car parts))
                  (= "." (car parts)))
-             (module/resolve-string/join (cdr parts) ret))
+             (module/resolve-string/join (cdr parts) ret ups))
             ((= ".." (car parts))
-             (when-not (cadr parts)
-                       (exception "Invalid path" parts))
-             (module/resolve-string/join (cddr parts) ret))
-            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret)))))
+             (module/resolve-string/join (cdr parts) ret (inc ups)))
+            ((> ups 0)
+             (module/resolve-string/join (cdr parts) ret (dec ups)))
+            (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret) ups))))
 
 (defn module/resolve-string (name wd)
       :internal
       (def mod-path wd)
-      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil))
+      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil 0))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
 (defn module/load (name env)
-- 
2.43.0


From d1d64b6502e75656ed3b4b39c3532c0f9abf9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 70/78] fix: a circular import is an error [C18]

---
 stdlib/core/module.nuj | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index f8f49a1..bfb9e32 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -54,6 +54,20 @@
                (set! module/cache name mod)
                (return mod))))
 
+(def module/loading {})
+(defn module/load/new (name)
+      :internal
+      (when (ref module/loading name)
+        (exception :import-error "Can't import a module which is still being loaded" name))
+      (set! module/loading name #t)
+      (def mod (try (fn (err)
+                        (set! module/loading name #f)
+                        (throw err))
+                    (or (module/load/store name)
+                        (module/load/external name))))
+      (set! module/loading name #f)
+      mod)
+
 (defn module/insert/defer (name module-source)
       :internal
       (set! module/store name module-source))
@@ -88,8 +102,7 @@
             (:environment name)
             (:string (module/load (module/resolve-string name (ref env :*module-path*)) env))
             (:keyword (or (module/load/cache name)
-                          (module/load/store name)
-                          (module/load/external name)))
+                          (module/load/new name)))
             (otherwise (exception "Can't load that value as a module" name))))
 
 (defn module/import-all (module symbol)
-- 
2.43.0


From 83c62f84746651298d3823ef7c8ad54367ca8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 71/78] fix: #f in a quasiquoted template stays #f [C16]

---
 stdlib/core/quasiquote.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/quasiquote.nuj b/stdlib/core/quasiquote.nuj
index 9d2027b..92f83b8 100644
--- a/stdlib/core/quasiquote.nuj
+++ b/stdlib/core/quasiquote.nuj
@@ -6,7 +6,7 @@
 
 (def quasiquote (let*
                   (defn quasiquote-real (l depth)
-                        (when-not l (return #nil))
+                        (when-not l (return l))
                         (if (pair? l)
                             (if (= (caar l) 'unquote-splicing)
                                 (if (zero? depth)
-- 
2.43.0


From 2b1c92d2d45ebeb406aa4e5527a1082863ff6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 72/78] fix: a splice in a nested template keeps its expression
 and what follows [C16]

---
 stdlib/core/quasiquote.nuj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/core/quasiquote.nuj b/stdlib/core/quasiquote.nuj
index 92f83b8..9976955 100644
--- a/stdlib/core/quasiquote.nuj
+++ b/stdlib/core/quasiquote.nuj
@@ -13,8 +13,9 @@
                                     (list 'append
                                           (cadr (car l))
                                           (quasiquote-real (cdr l) depth))
-                                    (list 'unquote-splicing
-                                          (quasiquote-real (cadr l) (+ -1 depth))))
+                                    (cons (list 'unquote-splicing
+                                                (quasiquote-real (cadr (car l)) (+ -1 depth)))
+                                          (quasiquote-real (cdr l) depth)))
                                 (if (= (car l) 'unquote)
                                     (if (zero? depth)
                                         (cadr l)
-- 
2.43.0


From 069d7d8b24192180a797ef1166b9067c769beef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 73/78] fix: load a --base-image by copying its data, the
 file's buffer is freed afterwards [C10]

---
 bin/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/main.c b/bin/main.c
index 1f2b579..47a0c35 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -13,7 +13,7 @@ static void initBinNativeFuncs(){
 static lClosure *createRootClosureFromExternalImage(const char *filename, lVal *init){
 	size_t len = 0;
 	void *img = loadFile(filename, &len);
-	lVal imgVal = readImage(img, len, true);
+	lVal imgVal = readImage(img, len, false);
 	lClosure *imgC = findRoot(imgVal);
 	if(imgC == NULL){
 		fprintf(stderr,"Can't determine root closure of that image, exiting\n");
-- 
2.43.0


From f75465ceda82dca30bac48769efb9d71d2fab243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:21 +0000
Subject: [PATCH 74/78] fix: environment entries without a = were read past
 their end [C21]

---
 bin/environment.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/environment.c b/bin/environment.c
index 890161d..3bb24ac 100644
--- a/bin/environment.c
+++ b/bin/environment.c
@@ -11,7 +11,9 @@
 /* Add environment key/value pair to tree T */
 static lTree *addVar(const char *e, lTree *t){
 	int endOfKey, endOfString;
-	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){}
+	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){
+		if(e[endOfKey] == 0){return t;} // Not a key/value pair
+	}
 	for(endOfString=endOfKey+1;e[endOfString];endOfString++){}
 	lSymbol *sym = lSymSL(e,endOfKey);
 	lVal v = lValString(&e[endOfKey+1]);
-- 
2.43.0


From fa2055a29729480e6fa99b2cfe120f1cd6a60261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 75/78] fix: the argument after an expression that failed was
 taken for an expression as well [C21]

---
 binlib/init.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 547695f..01ae55a 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -61,9 +61,9 @@
 
             (defn init/parse-arg (arg args)
                   (cond (init/parse-args/ignore-next (set! init/parse-args/ignore-next #f))
-                        (init/parse-args/eval-next (try print/error
-                                                        (eval-in root-closure (cons do (read arg)))
-                                                        (set! init/parse-args/eval-next #f)))
+                        (init/parse-args/eval-next (set! init/parse-args/eval-next #f)
+                                                   (try print/error
+                                                        (eval-in root-closure (cons do (read arg)))))
                         (init/parse-args/eval-next-module (try (fn (e)
                                                                    (print/error e)
                                                                  (exit 1))
-- 
2.43.0


From 6eae9285e9c1df8eb0193b1f5d541714497b97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:47 +0000
Subject: [PATCH 76/78] fix: a script that cannot be found is an error, not a
 success [C21]

---
 binlib/io.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index c2c0157..acf4a04 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -25,6 +25,7 @@
        "Evaluate a Nujel source file in the current context"
        (def mod-name (module/resolve-string (cat (path/without-extension path)) (cwd)))
        (def mod (module/load mod-name))
+       (when-not mod (exception "Can't load that module" path))
        (when-not (= :environment (:type-name mod))
                  (return mod))
        (def exports (ref mod :exports))
-- 
2.43.0


From 7e203de944afc340ceadf90c80e103c643bcc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:30 +0000
Subject: [PATCH 77/78] fix: socket/connect lost a descriptor with every
 attempt and hung when there were none left [C21]

---
 bin/net.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/net.c b/bin/net.c
index 2f6b7cb..1bec4ca 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -35,7 +35,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 		return NIL;
 	}
 	res = result;
-	while (res){
+	for(; res; res = res->ai_next){
 		if(res->ai_family == AF_INET){
 			((struct sockaddr_in*)((void *)res->ai_addr))->sin_port = htons(port.vInt);
 		} else if(res->ai_family == AF_INET6){
@@ -57,7 +57,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			}
 			return lValFileHandle(fh);
 		}
-		res = res->ai_next;
+		close(fd);
 	}
 
 	freeaddrinfo(result);
-- 
2.43.0


From 2fee36fbd3e866e029c3a28ca16cbf0039893e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:31 +0000
Subject: [PATCH 78/78] fix: bytes written to a connection with unread input
 never arrived [C21]

---
 bin/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/net.c b/bin/net.c
index 1bec4ca..19d69fb 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -53,8 +53,10 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			freeaddrinfo(result);
 			FILE *fh = fdopen(fd, "rb+");
 			if(fh == NULL){
+				close(fd);
 				return NIL;
 			}
+			setvbuf(fh, NULL, _IONBF, 0); // Buffered input can't be dropped when switching to writing
 			return lValFileHandle(fh);
 		}
 		close(fd);
-- 
2.43.0

