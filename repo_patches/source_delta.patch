From 865e4de88a6e44929e11b491f6b1771f5ea10688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 01/82] fix: check the operand types of the /int arithmetic
 functions

---
 lib/arithmetic.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..fe6ecc1 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -169,25 +169,31 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
@@ -195,6 +201,8 @@ static lVal lnfDivAstI(lVal a, lVal b){
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-- 
2.43.0


From 20c83b474dbfe63214e82e90ead1b3d7be27f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 02/82] fix: check that file/tell is given a file handle

---
 bin/port.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..bdd1e26 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -188,6 +188,7 @@ static lVal lnfFileFlush(lVal aHandle){
 }
 
 static lVal lnfFileTell(lVal aHandle){
+	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
 	return lValInt(pos);
 }
-- 
2.43.0


From d078fbe2d17915afce46531657c7bc04f0358b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 03/82] fix: only follow a prototype that is a tree when
 looking up methods

---
 lib/type-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..b7e314a 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -237,7 +237,7 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 			return v;
 		}
 		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type != ltException){
+		if(proto.type == ltTree){
 			return lMethodLookup(method, proto);
 		}
 	}
-- 
2.43.0


From 5e7bfee51920955415f1b2fc6a606566222fb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 04/82] fix: don't treat a failed tree literal as a tree in the
 reader

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..f8a0485 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -402,7 +402,7 @@ static lVal lParseSpecial(lReadContext *s){
 	case '@':{
 		s->data++;
 		lVal ret = lnfTreeNew(lReadList(s,false,')'));
-		if(ret.vTree->root){
+		if(likely(ret.type == ltTree) && ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
 		return ret;
-- 
2.43.0


From 9f63fff36a3efef236edd9816c729e7942117cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 05/82] fix: reject lambdas with an invalid body or argument
 list when creating them

---
 lib/vm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..f79950e 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -21,6 +21,12 @@ static inline void lClosureSetMeta(lClosure *c, lVal doc){
 /* Create a new Lambda Value */
 static inline lVal lLambdaNew(lClosure *parent, lVal args, lVal body){
 	reqBytecodeArray(body);
+	for(lVal n = args; n.type == ltPair; n = n.vList->cdr){
+		const lVal arg = n.vList->car;
+		if(unlikely((arg.type != ltSymbol) && (arg.type != ltNil))){
+			return lValException(lSymTypeError, "Arguments need to be symbols", args);
+		}
+	}
 	lVal ret = lValAlloc(ltLambda, lClosureNew(parent, closureDefault));
 	ret.vClosure->args = args;
 	ret.vClosure->text = body.vBytecodeArr;
@@ -695,6 +701,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal cDocs = ctx.valueStack[ctx.sp--];
 		lVal cArgs = ctx.valueStack[ctx.sp--];
 		lVal fun = lLambdaNew(c, cArgs, cBody);
+		if(unlikely(fun.type == ltException)){
+			lThrow(fun);
+		}
 		lClosureSetMeta(fun.vClosure, cDocs);
 		if(unlikely(curOp == lopMacroDynamic)){
 			fun.type = ltMacro;
-- 
2.43.0


From 026fb434621f5050747132cbb19b770a62d48ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 06/82] fix: never free bytecode that lives in a static image

---
 lib/imageReader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..ca81eec 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -77,6 +77,7 @@ static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i
 	ret->literals = readArray(map, img, *in++, staticImage);
 	if(staticImage){
 		ret->data = (void *)in;
+		ret->flags |= BUFFER_STATIC;
 	} else {
 		ret->data = malloc(len);
 		memcpy(ret->data, in, len);
-- 
2.43.0


From e9020c2aad426e47da66b7b4c4150d08a8b4325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 07/82] fix: don't refer to the freed file contents of an
 external image

---
 bin/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/main.c b/bin/main.c
index 1f2b579..47a0c35 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -13,7 +13,7 @@ static void initBinNativeFuncs(){
 static lClosure *createRootClosureFromExternalImage(const char *filename, lVal *init){
 	size_t len = 0;
 	void *img = loadFile(filename, &len);
-	lVal imgVal = readImage(img, len, true);
+	lVal imgVal = readImage(img, len, false);
 	lClosure *imgC = findRoot(imgVal);
 	if(imgC == NULL){
 		fprintf(stderr,"Can't determine root closure of that image, exiting\n");
-- 
2.43.0


From eb7e68b4436f5f9eaa27358993f6d5fa8d399d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 08/82] fix: don't leak the memory of mutable buffers when
 reading images

---
 lib/imageReader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index ca81eec..4e4b8ad 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -115,7 +115,9 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
+		if(buf->buf == NULL){
+			buf->buf = malloc(len);
+		}
 		memcpy(buf->buf, data, len);
 	}
 	return buf;
-- 
2.43.0


From 957b7ed2d60f81862552ee4dcb1cbfe8b99143d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 09/82] fix: reuse deleted slots once the symbol index has no
 empty ones left

---
 lib/symbol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..0944d0b 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -213,6 +213,9 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
+	if(firstTomb != 0xffffffff){
+		return firstTomb;
+	}
 	exit(111);
 	return 0;
 }
-- 
2.43.0


From 8cb3b56fdaa97f63b75db0adfce062e89a1d80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 10/82] fix: run the garbage collector before all symbols are
 used up

---
 lib/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index 0944d0b..47ff0c6 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -237,7 +237,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely(SYM_MAX - (++lSymbolActive) < 128)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From 8936211742a1ca86bd5cf0677c98fa0f8365eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 11/82] fix: throw when an addition, subtraction or
 multiplication gives NaN or infinity

---
 lib/vm.c | 54 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index f79950e..d107e03 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -224,15 +224,27 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt += b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
+				const lVal r = lValFloat(b.vFloat + a.vInt);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
+				const lVal r = lValFloat(a.vFloat + b.vFloat);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
+				const lVal r = lValFloat(a.vFloat + b.vInt);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			}
@@ -250,7 +262,11 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt -= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
+				const lVal r = lValFloat(a.vInt - b.vFloat);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -258,9 +274,17 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
+				const lVal r = lValFloat(a.vFloat - b.vFloat);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
+				const lVal r = lValFloat(a.vFloat - b.vInt);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -280,7 +304,11 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt *= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
+				const lVal r = lValFloat(a.vInt * b.vFloat);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -288,9 +316,17 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
+				const lVal r = lValFloat(a.vFloat * b.vFloat);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
+				const lVal r = lValFloat(a.vFloat * b.vInt);
+				if(unlikely(r.type == ltException)){
+					lThrow(r);
+				}
+				ctx.valueStack[ctx.sp] = r;
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
-- 
2.43.0


From 5dc7ef71c6d6e5333f25d2d8bfc88bc4eee48f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 12/82] fix: don't trap on integer divisions by zero or of the
 smallest integer by -1

---
 lib/arithmetic.c | 6 +++---
 lib/vm.c         | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index fe6ecc1..7a0f0b3 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,7 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -197,7 +197,7 @@ static lVal lnfDivAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	return lValInt((b.vInt == -1) ? (i64)-(u64)a.vInt : a.vInt / b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
@@ -206,7 +206,7 @@ static lVal lnfModAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
diff --git a/lib/vm.c b/lib/vm.c
index d107e03..a481305 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -390,7 +390,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL));
+				}
+				ctx.valueStack[ctx.sp].vInt = (b.vInt == -1) ? 0 : a.vInt % b.vInt;
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From a8884302032b832a93d25d57463cdde28e956c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 13/82] fix: don't leave the handler of a try on the value
 stack after catching

---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index a481305..a05abb8 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -649,14 +649,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From 6a9b0f4b29c55435f284018d0869e8b80211348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 14/82] fix: don't embed errors and comments in values that are
 read

---
 lib/reader.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index f8a0485..ccdf0f6 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -396,12 +396,18 @@ static lVal lParseSpecial(lReadContext *s){
 		return NIL;
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
-	case '#':
+	case '#': {
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		lVal list = lReadList(s, false, ')');
+		return (list.type == ltException) ? list : lnfArrNew(list);
+	}
 	case '@':{
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
+		lVal list = lReadList(s, false, ')');
+		if(unlikely(list.type == ltException)){
+			return list;
+		}
+		lVal ret = lnfTreeNew(list);
 		if(likely(ret.type == ltTree) && ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
@@ -470,7 +476,21 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 }
 
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	lVal v = lReadValue(s);
+	while(isComment(v)){
+		lStringAdvanceToNextCharacter(s);
+		v = lReadValue(s);
+	}
+	if(unlikely(v.type == ltException)){
+		return v;
+	}
+	return lCons(lValSymS(carSym), lCons(v, NIL));
+}
+
+/* Read a list and prepend carSym to it */
+static lVal lReadSymbolList(lReadContext *s, lSymbol *carSym, char terminator){
+	lVal v = lReadList(s, false, terminator);
+	return (v.type == ltException) ? v : lCons(lValSymS(carSym), v);
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -487,10 +507,10 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		return lReadSymbolList(s, symArr, ']');
 	case '{':
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		return lReadSymbolList(s, symTreeNew, '}');
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
@@ -513,14 +533,14 @@ static lVal lReadValue(lReadContext *s){
 			return NIL;
 		}else if(*s->data == ';'){
 			++s->data;
+			lVal v;
 			if((s->data < s->bufEnd) && (*s->data == '(')){
 				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
+				v = lReadList(s,false,')');
 			}else{
-				lReadValue(s);
-				return lValComment();
+				v = lReadValue(s);
 			}
+			return (v.type == ltException) ? v : lValComment();
 		}
 		return lParseSpecial(s);
 	case ';':
-- 
2.43.0


From 03ee83566d0060f009c0bc2f1864ee9635f6c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 15/82] fix: report errors in images instead of storing them in
 the values read

---
 lib/imageReader.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 4e4b8ad..175041d 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -11,6 +11,7 @@ typedef struct {
 	i32 size;
 	i32 *key;
 	void **val;
+	lVal error;
 } readImageMap;
 
 static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticImage);
@@ -24,6 +25,14 @@ static void *readMapGet(readImageMap *map, i32 key){
 	return NULL;
 }
 
+/* Values can't contain exceptions, so remember the first error and continue with #nil instead */
+static lVal readError(readImageMap *map, lVal error){
+	if(map->error.type == ltNil){
+		map->error = error;
+	}
+	return NIL;
+}
+
 static void readMapSet(readImageMap *map, i32 key, void *val){
 	if(map->len+1 >= map->size){
 		map->size += 32;
@@ -231,7 +240,7 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		case 2:
 			return lValFileHandle(stderr);
 		default:
-			return lValException(lSymReadError, "Can't serialize file handles other than stdin, stdout or stderr", NIL);
+			return readError(map, lValException(lSymReadError, "Can't serialize file handles other than stdin, stdout or stderr", NIL));
 		}
 	case litNil:
 		return NIL;
@@ -245,7 +254,8 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		return lValInt(*(i8 *)((void *)&img->data[off]));
 	case litFloat: {
 		const double *fword = (double *)((void *)&img->data[off]);
-		return lValFloat(*fword);
+		const lVal v = lValFloat(*fword);
+		return (v.type == ltException) ? readError(map, v) : v;
 	}
 	case litFalse:
 		return lValBool(false);
@@ -258,7 +268,7 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	const i32 tbyte = img->data[off] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
 	switch(T){
 	default:
-		return lValException(lSymReadError, "Can't have rootValues of that Type", NIL);
+		return readError(map, lValException(lSymReadError, "Can't have rootValues of that Type", NIL));
 	case litNativeFunc:
 		return lValAlloc(ltNativeFunc, readNFunc(map, img, tbyte, staticImage));
 	case litType:
@@ -305,11 +315,12 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	readImageMap map;
 	memset(&map, 0, sizeof(map));
 	map.imgSize = imgSize-4;
+	map.error = NIL;
 
 	lVal ret = readVal(&map, img, 0, staticImage);
 	free(map.key);
 	free(map.val);
-	return ret;
+	return (map.error.type == ltException) ? map.error : ret;
 }
 
 lVal lnfDeserialize(lVal val){
-- 
2.43.0


From c07866e232af709da3565a5b0c563497f98c7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 16/82] fix: return the error when looking up methods of an
 invalid type

---
 lib/type-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index b7e314a..91ff0d4 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -229,7 +229,7 @@ static void lTypesAddCoreMethods(){
 
 lVal lMethodLookup(const lSymbol *method, lVal self){
 	if(unlikely(self.type != (self.type & 63))){
-		lValException(lSymVMError, "Out-of-bounds Type", self);
+		return lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
 	if(self.type == ltTree){
 		lVal v = lTreeRef(self.vTree->root, method);
-- 
2.43.0


From 7cd3e51868b7d7790c2e7642dba21bb654098fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 17/82] fix: throw when set! of an unbound symbol uses a wide
 literal index

---
 lib/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index a05abb8..e58fbf1 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -580,7 +580,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lValSymS(lits[v].vSymbol)));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
-- 
2.43.0


From 4bb2eab453dada8ba7f60dbc420dedb01b40bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 18/82] fix: let* with a single form evaluates that form

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 2e06f23..0d8018e 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -167,7 +167,7 @@
 
                     (defn bytecompile/let*  (source env)
                           (list ($let)
-                                (bytecompile/do (cadr source) env)
+                                (bytecompile* (cadr source) env)
                                 ($closure/pop)))
 
                     (defn bytecompile/return (source env)
-- 
2.43.0


From eb1add975d758a6a41cb387659801783b8a37a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 19/82] fix: applying more arguments than a function and a list
 is rejected by the compiler

---
 stdlib/compiler/backend_bytecode/compiler.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/compiler.nuj b/stdlib/compiler/backend_bytecode/compiler.nuj
index 0d8018e..8cce3e0 100644
--- a/stdlib/compiler/backend_bytecode/compiler.nuj
+++ b/stdlib/compiler/backend_bytecode/compiler.nuj
@@ -191,7 +191,8 @@
                                 ((= arg-count 2)
                                  (list (bytecompile* (cadr source) env)
                                        (bytecompile* (caddr source) env)
-                                       ($apply/collection)))))
+                                       ($apply/collection)))
+                                (#t (throw (list :arity-error "(apply) needs 1 or 2 arguments" #nil env)))))
 
                     (defn bytecompile* (source env)
                           "Compile the forms in source"
-- 
2.43.0


From 5afc9eb54ce16031128ba20bad1d0d0f2596fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 20/82] fix: disassemble try, function creation, wide literals
 and signed operands the way they are assembled

---
 .../backend_bytecode/disassembler.nuj         | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/disassembler.nuj b/stdlib/compiler/backend_bytecode/disassembler.nuj
index b0a0285..62776a2 100644
--- a/stdlib/compiler/backend_bytecode/disassembler.nuj
+++ b/stdlib/compiler/backend_bytecode/disassembler.nuj
@@ -8,25 +8,23 @@
                    (defn disassemble/length (op)
                          ; Return the length in bytes of a bytecode operation and all its arguments
                          (case op
-                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x19 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
+                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
                                ((#x2 #x4 #x5 #x7 #xE #x1A #x2E) 2)
-                               ((#x6 #x8 #x9 #xA #xB #xF #x10 ) 3)
+                               ((#x6 #x8 #x9 #xA #xB #xF #x10 #x19) 3)
                                (otherwise (exception :unknown-op "This op needs its length specified for disassembly to work" op))))
 
-                   (defn bytecode/nil-catcher (error) (if (= (car error) :type-error) #nil (throw error)))
+                   (defn bytecode-arr->byte (a i)
+                         ; Read a bytecode op in A at I and return it as a signed integer
+                         (- (bit-xor (ref a i) 128) 128))
 
-                   (defn bytecode-arr->val (a i)
-                         ; Read a bytecode encoded value in A at I and return it
-                         (try bytecode/nil-catcher (bytecode-op->val (ref a i) (ref a (+ 1 i)) (ref a (+ 2 i)))))
-
-                   (defn bytecode-arr->sym (a i)
-                         ; Read a bytecode encoded symbol in A at I and return it
-                         (try bytecode/nil-catcher (bytecode-op->sym (ref a i) (ref a (+ 1 i)) (ref a (+ 2 i)))))
+                   (defn bytecode-arr->literal-index (a i)
+                         ; Read a wide literal index, high byte first, in A at I and return it
+                         (bit-or (bit-shift-left (ref a i) 8) (ref a (+ 1 i))))
 
                    (defn bytecode-op->offset (a b)
                          ; Turn two bytecode ops encoding an offset into the integer representation
                          (def t (bit-or (bit-shift-left a 8) b))
-                         (if-not (> t 32768) t
+                         (if-not (>= t 32768) t
                                  (- (- 65536 t))))
 
                    (defn bytecode-arr->offset (a i)
@@ -44,33 +42,29 @@
                          (case (ref a i)
                                (#x0  '($nop))
                                (#x1  '($ret))
-                               (#x2  `($push/int/byte ~(ref a (+ i 1))))
+                               (#x2  `($push/int/byte ~(bytecode-arr->byte a (+ i 1))))
                                (#x3  '($add/int))
                                (#x4  `($apply ~(ref a (+ i 1))))
                                (#x5  `($set/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x6  `($push/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                            (bit-shift-left (ref a (+ i 2))) 8))))
+                               (#x6  `($push/val/ext ~(disassemble/maybe-quote (ref literals (bytecode-arr->literal-index a (+ i 1))))))
                                (#x7  `($def/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x8  `($def/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#x8  `($def/val/ext ~(disassemble/maybe-quote (ref literals (bytecode-arr->literal-index a (+ i 1))))))
                                (#x9  `($jmp*  ~(bytecode-arr->offset a (+ i 1))))
                                (#xA  `($jt*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xB  `($jf*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xC  '($dup))
                                (#xD  '($drop))
                                (#xE  `($get/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#xF  `($get/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
-                               (#x10 `($set/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#xF  `($get/val/ext ~(disassemble/maybe-quote (ref literals (bytecode-arr->literal-index a (+ i 1))))))
+                               (#x10 `($set/val/ext ~(disassemble/maybe-quote (ref literals (bytecode-arr->literal-index a (+ i 1))))))
                                (#x11 '($car))
                                (#x12 '($cdr))
                                (#x13 '($closure/push))
                                (#x14 '($cons))
                                (#x15 '($let))
                                (#x16 '($closure/pop))
-                               (#x17 '($fn/dynamic))
-                               (#x18 '($macro/dynamic))
+                               (#x17 '($fn/new))
+                               (#x18 '($macro/new))
                                (#x19 `($try      ~(bytecode-arr->offset a (+ i 1))))
                                (#x1A `($push/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
                                (#x1B '($push/true))
-- 
2.43.0


From 87ab96332b41958251a0f6b84262b44c6bb1ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 21/82] fix: refuse to assemble jumps that don't fit into their
 operands

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 7bf7393..2f3e5af 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -427,6 +427,8 @@
                  (defn assemble/relocate-op (code sym-map pos out)
                        (def target (ref sym-map (cadr code)))
                        (def off (- (+ target (cadddr code)) pos))
+                       (when (or (> off 32767) (< off -32768))
+                         (exception :out-of-bounds "Can't jump further than 32767 bytes" off))
                        (set! out (inc! pos) (bit-and (bit-shift-right off (caddr code)) #xFF))
                        (return pos))
 
-- 
2.43.0


From 09d414ab1e1e7bc32e7db82227331bc8e0342ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 22/82] fix: pass the 6th and 7th argument to natives called
 through apply or as an exception handler

---
 lib/vm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index e58fbf1..ed65f8b 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -719,8 +719,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			case 11: nv = fun.vNFunc->fpCVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs)))); break;
 			case 12: nv = fun.vNFunc->fpVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs)))); break;
 			case 13: nv = fun.vNFunc->fpCVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs)))); break;
-			case 14: nv = fun.vNFunc->fpVVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs))), lCadddr(lCddr(lCddr(cargs)))); break;
-			case 15: nv = fun.vNFunc->fpCVVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs))), lCadddr(lCddr(lCddr(cargs)))); break;
+			case 14: nv = fun.vNFunc->fpVVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs)))); break;
+			case 15: nv = fun.vNFunc->fpCVVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs)))); break;
 			case 16: nv = fun.vNFunc->fpR(cargs); break;
 			case 17: nv = fun.vNFunc->fpCR(c, cargs); break;
 			default: nv = lValException(lSymVMError, "Unsupported funcall", fun); break;
@@ -900,8 +900,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			case 11: v = fun.vNFunc->fpCVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs)))); break;
 			case 12: v = fun.vNFunc->fpVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs)))); break;
 			case 13: v = fun.vNFunc->fpCVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs)))); break;
-			case 14: v = fun.vNFunc->fpVVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs))), lCadddr(lCddr(lCddr(cargs)))); break;
-			case 15: v = fun.vNFunc->fpCVVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs))), lCadddr(lCddr(lCddr(cargs)))); break;
+			case 14: v = fun.vNFunc->fpVVVVVVV(lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs)))); break;
+			case 15: v = fun.vNFunc->fpCVVVVVVV(c, lCar(cargs), lCadr(cargs), lCaddr(cargs), lCadddr(cargs), lCar(lCddr(lCddr(cargs))), lCadr(lCddr(lCddr(cargs))), lCaddr(lCddr(lCddr(cargs)))); break;
 			case 16: v = fun.vNFunc->fpR(cargs); break;
 			case 17: v = fun.vNFunc->fpCR(c, cargs); break;
 			default: v = lValException(lSymVMError, "Unsupported funcall", fun); break;
-- 
2.43.0


From 42f4f9a2f48b37c37825640db06f6b39d550551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 23/82] fix: look up the method of nil when a keyword is called
 without arguments

---
 lib/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index ed65f8b..b2ea1bf 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -783,7 +783,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = len > 0 ? vs[1-len] : NIL;
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From 95ae26bc6f246626af766d7a6c1c0b5db2f274c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 24/82] fix: divide integers with full precision in the VM, as
 the / function does

---
 lib/vm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index b2ea1bf..539b028 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -344,13 +344,13 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
+				lVal r = lValFloat((double)a.vInt / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
+				lVal r = lValFloat((double)a.vInt / b.vFloat);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
@@ -368,7 +368,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
+				const lVal r = lValFloat(a.vFloat / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
-- 
2.43.0


From 16656a9077e46c21f8309e07ecd95cf3300da439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 25/82] fix: shift the same way in the VM and in the shift
 functions, for every distance

---
 lib/arithmetic.c    |  8 ++------
 lib/nujel-private.h |  8 ++++++++
 lib/vm.c            | 14 +++++++-------
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 7a0f0b3..8b77bac 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -244,17 +244,13 @@ static lVal lnfPopCount(lVal a){
 static lVal lnfAsh(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt(lShiftLeft(a.vInt, b.vInt));
 }
 
 static lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(lShiftRight(a.vInt, b.vInt));
 }
 
 static lVal lnfAbs(lVal t){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..32cb827 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -330,6 +330,14 @@ extern lNFunc   lNFuncList[NFN_MAX];
 extern uint     lNFuncMax;
 
 
+/* Only the low 6 bits of the distance count, anything else would be undefined */
+static inline i64 lShiftLeft(i64 v, i64 distance){
+	return (u64)v << (distance & 63);
+}
+static inline i64 lShiftRight(i64 v, i64 distance){
+	return v >> (distance & 63);
+}
+
 static inline int lClosureID(const lClosure *n){
 	return n - lClosureList;
 }
diff --git a/lib/vm.c b/lib/vm.c
index 539b028..2e60b79 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -424,31 +424,31 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		}
 		vmbreak; }
 
-#define vmBinaryIntegerOp(OP) do{\
+#define vmBinaryIntegerOp(RESULT) do{\
 	const lVal a = ctx.valueStack[ctx.sp-1];\
 	const lVal b = ctx.valueStack[ctx.sp];\
 	ctx.sp--;\
 	if(likely((a.type == ltInt) && (b.type == ltInt))){\
-		ctx.valueStack[ctx.sp].vInt = a.vInt OP b.vInt;\
+		ctx.valueStack[ctx.sp].vInt = (RESULT);\
 	} else {\
 		lThrow(lValExceptionNonNumeric(b));\
 	}\
 	} while(0)
 
 	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
+		vmBinaryIntegerOp(lShiftLeft(a.vInt, b.vInt));
 		vmbreak;
 	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
+		vmBinaryIntegerOp(lShiftRight(a.vInt, b.vInt));
 		vmbreak;
 	vmcase(lopBitAnd)
-		vmBinaryIntegerOp(&);
+		vmBinaryIntegerOp(a.vInt & b.vInt);
 		vmbreak;
 	vmcase(lopBitOr)
-		vmBinaryIntegerOp(|);
+		vmBinaryIntegerOp(a.vInt | b.vInt);
 		vmbreak;
 	vmcase(lopBitXor)
-		vmBinaryIntegerOp(^);
+		vmBinaryIntegerOp(a.vInt ^ b.vInt);
 		vmbreak;
 
 	vmcase(lopBitNot)
-- 
2.43.0


From 7df0182aae94ed1ba0cf17c52b70b5f0b23b9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 26/82] fix: refuse to increment values that are no integers in
 the VM, as the inc/int function does

---
 lib/vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index 2e60b79..00ac23c 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -623,6 +623,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionNonNumeric(ctx.valueStack[ctx.sp]));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From b9e2cc126f0264144284cc00313780bcd6d07a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 27/82] fix: let + and rem treat a nil operand the same as a
 function and in the VM

---
 lib/arithmetic.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 8b77bac..e70b81c 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -10,7 +10,9 @@ static lVal lValExceptionFloat(lVal v){
 
 static lVal lnfAdd(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lValInt(0);}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){
+		return ((a.type == ltInt) || (a.type == ltFloat)) ? a : lValExceptionNonNumeric(a);
+	}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 	default:
@@ -116,8 +118,10 @@ static lVal lnfDiv(lVal a, lVal b){
 }
 
 static lVal lnfRem(lVal a, lVal b){
-	if(unlikely(a.type == ltNil)){return b;}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(a.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){
+		return ((a.type == ltInt) || (a.type == ltFloat)) ? a : lValExceptionNonNumeric(a);
+	}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 		default:
-- 
2.43.0


From e2ad331dd8ed5ad5f8e77d91c980a64cc2573ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 28/82] fix: order a string or symbol before the longer ones
 that start with it

---
 lib/val.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..15f3c51 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,7 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
-- 
2.43.0


From 5e5a0ea034cb8aee7cfcf0dcf47ece8320dc8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 29/82] fix: compare integers without overflowing their
 difference

---
 lib/val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/val.c b/lib/val.c
index 15f3c51..9f8f011 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -62,7 +62,7 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return (a.vInt > b.vInt) - (a.vInt < b.vInt);
 	case ltFloat:
 		return a.vFloat < b.vFloat ? -1 : 1;
 	case ltKeyword:
-- 
2.43.0


From 3addee87bfa648b8c965d59482407a4d186dbe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 30/82] fix: order equal floats neither before nor after each
 other

---
 lib/val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/val.c b/lib/val.c
index 9f8f011..e821103 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -64,7 +64,7 @@ i64 lValGreater(const lVal a, const lVal b){
 	case ltInt:
 		return (a.vInt > b.vInt) - (a.vInt < b.vInt);
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return (a.vFloat > b.vFloat) - (a.vFloat < b.vFloat);
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
-- 
2.43.0


From ec90f9797ffbaf3f2d193a8a247c0399c288fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 31/82] fix: compare integers and floats with double precision

---
 lib/val.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index e821103..55a9ff1 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -44,15 +44,15 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
+			return (((double)a.vInt) < b.vFloat)
 				? -1
-				: (((float)a.vInt) > b.vFloat)
+				: (((double)a.vInt) > b.vFloat)
 				  ? 1
 				  : 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
+			return (a.vFloat < ((double)b.vInt))
 				? -1
-				: (a.vFloat > ((float)b.vInt))
+				: (a.vFloat > ((double)b.vInt))
 				  ? 1
 				  : 0;
 		}
@@ -77,9 +77,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return ((double)a.vInt) == b.vFloat;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return a.vFloat == ((double)b.vInt);
 		}
 		return false;
 	}
-- 
2.43.0


From 0eb298c9efd4bb9cc7d60f899d46c3847fcf134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 32/82] fix: don't write past the end of a new array when an
 element is #nil

---
 lib/array.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..4fa1ae7 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -26,10 +26,14 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	return self;
 }
 
-/* Return the length of the list V */
+/* Return the length of the list V, the empty list is read as a single pair
+ * containing only #nil */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	if((v.type == ltPair) && (v.vList->car.type == ltNil) && (v.vList->cdr.type == ltNil)){
+		return 0;
+	}
+	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
 	return i;
@@ -39,7 +43,7 @@ lVal lnfArrNew(lVal v){
 	int length = lListLength(v);
 	lVal r = lValAlloc(ltArray, lArrayAlloc(length));
 	int key = 0;
-	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
+	for(lVal n = v; (key < length) && (n.type == ltPair); n = n.vList->cdr){
 		r.vArray->data[key++] = n.vList->car;
 	}
 	return r;
-- 
2.43.0


From 392952dfd3ab06b1d5d2839929afd2703978c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 33/82] fix: (:length! array) with a length of 0 or more than
 an array can hold

---
 lib/array.c | 7 +++++--
 lib/nujel.h | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 4fa1ae7..fde83d4 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -13,9 +13,12 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	if(unlikely(length > INT_MAX)){
+		return lValException(lSymOOM, "(:length Array) that is more than an array can hold", newLength);
+	}
+
+	lVal *newData = realloc(arr->data,(length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
diff --git a/lib/nujel.h b/lib/nujel.h
index 90a6309..3c3da66 100644
--- a/lib/nujel.h
+++ b/lib/nujel.h
@@ -7,6 +7,7 @@
 #ifndef NUJEL_LIB_NUJEL_PUBLIC
 #define NUJEL_LIB_NUJEL_PUBLIC
 
+#include <limits.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
-- 
2.43.0


From 26ce280cc07964859517ab388f7750151776341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 34/82] fix: don't truncate the length passed to (:alloc Array)

---
 lib/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/array.c b/lib/array.c
index fde83d4..127a668 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -73,6 +73,9 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
+	if(unlikely(size.vInt > INT_MAX)){
+		return lValException(lSymOOM, "(:alloc Array) that is more than an array can hold", size);
+	}
 	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
 	if(unlikely(size.vInt && (r.vArray->data == NULL))){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
-- 
2.43.0


From 688416641dbfb4fee2bd18ed9f5cf99b26528e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 35/82] fix: don't truncate the length passed to
 buffer/allocate

---
 lib/buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..f4786db 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -33,6 +33,9 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt > INT_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) that is more than a buffer can hold", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
 	return lValAlloc(ltBuffer, buf);
 }
-- 
2.43.0


From 898d6cd540ba067fd4d7431c7bf2fdff9e9d8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 36/82] fix: don't truncate the index when accessing arrays

---
 lib/generic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..62b3ce5 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -52,15 +52,15 @@ lVal lGenericRef(lVal col, lVal key){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -163,8 +163,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +175,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From e52871b937ea9e7c6f3a681a3853adebb2c88a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 37/82] fix: (:length! buffer) with a length of 0 or more than
 a buffer can hold

---
 lib/buffer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index f4786db..2e14715 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -136,11 +136,14 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
-	const int length = newLength.vInt;
+	const i64 length = newLength.vInt;
+	if(unlikely(length > INT_MAX)){
+		return lValException(lSymOOM, "(buffer/length!) that is more than a buffer can hold", newLength);
+	}
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
-	void *nBuf = realloc(buf->buf, length);
+	void *nBuf = realloc(buf->buf, MAX(1, length));
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
 	}
-- 
2.43.0


From d26ab277b17b7f5c846e5bf4f684bbae6a6ae989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 38/82] fix: overflows when checking the bounds in buffer/copy

---
 lib/buffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2e14715..4f90b5e 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -56,9 +56,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -71,7 +71,7 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((length > vSrc.vBuffer->length) || (destOffset > (aDest.vBuffer->length - length)))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
 	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
-- 
2.43.0


From 6c04c710bb92a84e4b6e8341c6ae29848871b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 39/82] fix: reject negative offsets in buffer->string

---
 lib/buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/buffer.c b/lib/buffer.c
index 4f90b5e..de1da03 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -85,6 +85,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "Offset has to be at least 0", aOffset);
+	}
 	if(unlikely(length < 0)){
 		return lValException(lSymTypeError, "Length has to be greater than 0", aLength);
 	}
-- 
2.43.0


From ae2aa820d23041d893849ef17c65887dedfd2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 40/82] fix: don't start searching before the string in
 :index-of

---
 lib/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/string.c b/lib/string.c
index 6c5036c..f8bdeb3 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -96,7 +96,7 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
 	/* Empty strings just return the current position, this is so we can
 	 * split an empty string into each character by passing an empty string
-- 
2.43.0


From d0a46ad239f845499d73dd16f8fdb6602820aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 41/82] fix: don't start searching outside of the string in
 :last-index-of

---
 lib/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/string.c b/lib/string.c
index f8bdeb3..07d1bd1 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -120,7 +120,9 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 lastPos = haystackLength - needleLength;
+	const i64 pos = MIN(lastPos, castToInt(start, lastPos));
+	if(pos < 0){return lValInt(-1);}
 
 	for(const char *s = &haystack[pos]; s >= haystack; s--){
 		if(strncmp(s,needle,needleLength)){continue;}
-- 
2.43.0


From 5b35cd426a84a7a5e4d082c8bcd0b2e896fa210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 42/82] fix: reject negative offsets when reading into or
 writing from a buffer

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index bdd1e26..a541000 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -122,7 +122,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesRead < size){
@@ -167,7 +167,7 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	if(size < 0){
 		size = bufSize - offset;
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesWritten < size){
-- 
2.43.0


From 95f78f4d5b913a121994000898cbbb75cb75a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 43/82] fix: large enough buffer to turn any float into a
 string

---
 lib/core-operators.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..5a0944e 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -141,9 +141,9 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[512];
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
-	if(snret < 0){
+	if((snret < 0) || (snret >= (int)sizeof(buf))){
 		return lValException(lSymIOError, "Unprintable flonum", a);
 	}
 	buf[snret--] = 0;
-- 
2.43.0


From cc380f79e5c8741fb0e791adfe515ce32effdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 44/82] fix: popen with more output than fits into a string

---
 bin/io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/io.c b/bin/io.c
index 1005330..19096b5 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -184,6 +184,11 @@ static lVal lnfPopen(lVal aCommand){
 		if(ret > 0){len += ret;}
 
 		if((len + readSize) >= bufSize){
+			if(unlikely(bufSize > (INT_MAX - readSize))){
+				pclose(child);
+				free(buf);
+				return lValException(lSymOOM, "(popen) the output is more than a string can hold", aCommand);
+			}
 			bufSize += readSize;
 			buf = realloc(buf,bufSize);
 		}
-- 
2.43.0


From f1e249c165ee617308d11d29b358bee738720020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 45/82] fix: popen leaks its buffer when reading fails

---
 bin/io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/io.c b/bin/io.c
index 19096b5..8d420f3 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -178,6 +178,7 @@ static lVal lnfPopen(lVal aCommand){
 				break;
 			}else if(ferror(child)){
 				pclose(child);
+				free(buf);
 				return NIL;
 			}
 		}
-- 
2.43.0


From 01016d80c45688e844cc0e75a05d63a5dc09a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 46/82] fix: check the allocations in popen

---
 bin/io.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bin/io.c b/bin/io.c
index 8d420f3..cebb770 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -164,6 +164,9 @@ static lVal lnfPopen(lVal aCommand){
 	int len   = 0;
 	int bufSize = readSize;
 	char *buf = malloc(readSize);
+	if(unlikely(buf == NULL)){
+		return lValException(lSymOOM, "(popen) couldn't allocate a buffer", aCommand);
+	}
 
 	FILE *child = popen(lBufferData(aCommand.vString), "r");
 	if(child == NULL){
@@ -191,7 +194,13 @@ static lVal lnfPopen(lVal aCommand){
 				return lValException(lSymOOM, "(popen) the output is more than a string can hold", aCommand);
 			}
 			bufSize += readSize;
-			buf = realloc(buf,bufSize);
+			char *newBuf = realloc(buf,bufSize);
+			if(unlikely(newBuf == NULL)){
+				pclose(child);
+				free(buf);
+				return lValException(lSymOOM, "(popen) couldn't allocate a buffer", aCommand);
+			}
+			buf = newBuf;
 		}
 	}
 	#ifdef __MINGW32__
@@ -201,10 +210,14 @@ static lVal lnfPopen(lVal aCommand){
 	const int exitCode = WEXITSTATUS(exitStatus);
 	#endif
 
-	buf = realloc(buf,len+1);
-	buf[len] = 0;
+	char *ret = realloc(buf,len+1);
+	if(unlikely(ret == NULL)){
+		free(buf);
+		return lValException(lSymOOM, "(popen) couldn't allocate a buffer", aCommand);
+	}
+	ret[len] = 0;
 
-	return lCons(lValInt(exitCode),lValStringNoCopy(buf,len));
+	return lCons(lValInt(exitCode),lValStringNoCopy(ret,len));
 }
 #else
 static lVal lnfPopen(lVal aCommand){
-- 
2.43.0


From 2ce632f98b3b8d2a9c845af0a76ac84cc98dad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 47/82] fix: check for allocation failures in lBufferAlloc

---
 lib/allocator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..1ac4f24 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -63,7 +63,11 @@ lBuffer *lBufferAlloc(size_t length, bool immutable){
 	if(immutable){
 		ret->flags = BUFFER_IMMUTABLE;
 	}else{
-		ret->buf = calloc(length, 1);
+		ret->buf = calloc(length + 1, 1);
+		if(unlikely(ret->buf == NULL)){
+			fprintf(stderr, "OOM: Couldn't allocate a new buffer\\n");
+			exit(136);
+		}
 	}
 	return ret;
 }
-- 
2.43.0


From c28ec3103c9ea4f854942f09d023c3537f72addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 48/82] fix: check for allocation failures when writing images

---
 lib/imageWriter.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..f5c90fe 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -35,6 +35,9 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(void *));
 		map->val = realloc(map->val, map->size * sizeof(i32));
+		if(unlikely((map->key == NULL) || (map->val == NULL))){
+			exit(24);
+		}
 	}
 	map->key[map->len] = key;
 	map->val[map->len] = val;
@@ -48,6 +51,9 @@ static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 			ctx->size += 0x100 - (ctx->size & 0xFF);
 		}
 		ctx->start = realloc(ctx->start, ctx->size);
+		if(unlikely(ctx->start == NULL)){
+			exit(25);
+		}
 	}
 }
 
@@ -429,6 +435,9 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	writeImageContext ctx;
 	memset(&ctx, 0, sizeof(ctx));
 	lImage *buf = malloc(size);
+	if(unlikely(buf == NULL)){
+		exit(26);
+	}
 
 	buf->magic[0] = 'N';
 	buf->magic[1] = 'u';
@@ -438,6 +447,9 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	ctxAddVal(&ctx, rootValue);
 
 	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
+	if(unlikely(buf == NULL)){
+		exit(27);
+	}
 	memcpy(buf->data, ctx.start, ctx.curOff);
 	size += ctx.curOff;
 	*outSize = size;
-- 
2.43.0


From ad39aeafd4b5de418ed604c4467c5defbd3d9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 49/82] fix: check for allocation failures when reading images

---
 lib/imageReader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 175041d..8c42287 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -38,6 +38,9 @@ static void readMapSet(readImageMap *map, i32 key, void *val){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(i32));
 		map->val = realloc(map->val, map->size * sizeof(void *));
+		if(unlikely((map->key == NULL) || (map->val == NULL))){
+			exit(28);
+		}
 	}
 	map->key[map->len] = key;
 	map->val[map->len] = val;
@@ -89,6 +92,9 @@ static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i
 		ret->flags |= BUFFER_STATIC;
 	} else {
 		ret->data = malloc(len);
+		if(unlikely(len && (ret->data == NULL))){
+			exit(29);
+		}
 		memcpy(ret->data, in, len);
 	}
 	ret->dataEnd = &ret->data[len];
@@ -126,6 +132,9 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	} else {
 		if(buf->buf == NULL){
 			buf->buf = malloc(len);
+			if(unlikely(len && (buf->buf == NULL))){
+				exit(30);
+			}
 		}
 		memcpy(buf->buf, data, len);
 	}
-- 
2.43.0


From 36ebb322ce33f3a2efb5ec48f4c271c819ed29e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 50/82] fix: check for allocation failures when setting up the
 VM stacks

---
 lib/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vm.c b/lib/vm.c
index 00ac23c..92a6365 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -200,6 +200,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.valueStackSize   = 512;
 	ctx.closureStack     = malloc(ctx.closureStackSize * sizeof(lClosure *));
 	ctx.valueStack       = malloc(ctx.valueStackSize * sizeof(lVal));
+	if(unlikely((ctx.closureStack == NULL) || (ctx.valueStack == NULL))){ exit(58); }
 	ctx.csp              = 0;
 	ctx.sp              = 0;
 	ctx.closureStack[0]  = c;
-- 
2.43.0


From 3a15beef9102ea07cc99d633e34b404f2bc4f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 51/82] fix: check for an allocation failure in :bytecode-array

---
 lib/array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/array.c b/lib/array.c
index 127a668..a03c24a 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -57,7 +57,10 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 	const int len = arr->length;
 
 	reqArray(aLiterals);
-	lBytecodeOp *ops = malloc(sizeof(lBytecodeOp) * len);
+	lBytecodeOp *ops = malloc(sizeof(lBytecodeOp) * (len + 1));
+	if(unlikely(ops == NULL)){
+		return lValException(lSymOOM, "(:bytecode-array Array) couldn't allocate a buffer", self);
+	}
 	for(int i=0;i<len;i++){
 		if(unlikely(arr->data[i].type != ltInt)){
 			free(ops);
-- 
2.43.0


From c21459a774787adfba0973582ecd30219090e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 52/82] fix: newline at the end of the message when out of
 memory

---
 lib/allocator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 1ac4f24..bff5dbf 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -65,7 +65,7 @@ lBuffer *lBufferAlloc(size_t length, bool immutable){
 	}else{
 		ret->buf = calloc(length + 1, 1);
 		if(unlikely(ret->buf == NULL)){
-			fprintf(stderr, "OOM: Couldn't allocate a new buffer\\n");
+			fprintf(stderr, "OOM: Couldn't allocate a new buffer\n");
 			exit(136);
 		}
 	}
-- 
2.43.0


From 369b57c5fc4b63a9ea5793c2ca0f11b336bd318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 53/82] fix: overflow in the size of the buffer used by
 :bytecode-array

---
 lib/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/array.c b/lib/array.c
index a03c24a..72881db 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -57,7 +57,7 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 	const int len = arr->length;
 
 	reqArray(aLiterals);
-	lBytecodeOp *ops = malloc(sizeof(lBytecodeOp) * (len + 1));
+	lBytecodeOp *ops = malloc(sizeof(lBytecodeOp) * ((size_t)len + 1));
 	if(unlikely(ops == NULL)){
 		return lValException(lSymOOM, "(:bytecode-array Array) couldn't allocate a buffer", self);
 	}
-- 
2.43.0


From f93349e41f4309d8471b6f4e46e3ce08a86f82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 54/82] fix: popen: no int overflow when deciding whether the
 buffer has to grow

---
 bin/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index cebb770..12b0f1d 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -187,7 +187,7 @@ static lVal lnfPopen(lVal aCommand){
 		}
 		if(ret > 0){len += ret;}
 
-		if((len + readSize) >= bufSize){
+		if((bufSize - len) <= readSize){
 			if(unlikely(bufSize > (INT_MAX - readSize))){
 				pclose(child);
 				free(buf);
-- 
2.43.0


From 5af52e91fcb7dc891687baee37d236a8702ed749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 55/82] fix: close the socket when connecting fails, and try
 the next address

---
 bin/net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/net.c b/bin/net.c
index 2f6b7cb..c0ffabe 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -24,7 +24,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 		return lValException(lSymError, "Port numbers need to be between 0-65535", port);
 	}
 
-	struct addrinfo hints, *res, *result;
+	struct addrinfo hints, *result;
 	bzero(&hints, sizeof(hints));
 	hints.ai_family = PF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -34,8 +34,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 	if(errcode != 0){
 		return NIL;
 	}
-	res = result;
-	while (res){
+	for(struct addrinfo *res = result; res; res = res->ai_next){
 		if(res->ai_family == AF_INET){
 			((struct sockaddr_in*)((void *)res->ai_addr))->sin_port = htons(port.vInt);
 		} else if(res->ai_family == AF_INET6){
@@ -53,11 +52,12 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			freeaddrinfo(result);
 			FILE *fh = fdopen(fd, "rb+");
 			if(fh == NULL){
+				close(fd);
 				return NIL;
 			}
 			return lValFileHandle(fh);
 		}
-		res = res->ai_next;
+		close(fd);
 	}
 
 	freeaddrinfo(result);
-- 
2.43.0


From 2e3798205b370d412ace7742442244e4413db58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 56/82] fix: close the file when loading it fails

---
 bin/misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/misc.c b/bin/misc.c
index a25df98..58eae65 100644
--- a/bin/misc.c
+++ b/bin/misc.c
@@ -57,13 +57,17 @@ void *loadFile(const char *filename,size_t *len){
 	fseek(fp,0,SEEK_SET);
 
 	buf = malloc(filelen);
-	if(buf == NULL){return NULL;}
+	if(buf == NULL){
+		fclose(fp);
+		return NULL;
+	}
 
 	readlen = 0;
 	while(readlen < filelen){
 		read = fread(buf+readlen,1,filelen-readlen,fp);
 		if(read == 0){
 			free(buf);
+			fclose(fp);
 			return NULL;
 		}
 		readlen += read;
-- 
2.43.0


From 33ef54292426a50e562e3c05ddad1ca27863b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 57/82] fix: left* and right* share no nodes with the tree they
 are taken from

---
 lib/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..98c3c2e 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -191,12 +191,12 @@ static lVal lnmTreeValueAst(lVal self) {
 
 static lVal lnmTreeLeftAst(lVal self) {
 	lTree* tree = self.vTree->root;
-	return (tree && tree->left) ? lValTree(tree->left) : NIL;
+	return (tree && tree->left) ? lValTree(lTreeDup(tree->left)) : NIL;
 }
 
 static lVal lnmTreeRightAst(lVal self) {
 	lTree* tree = self.vTree->root;
-	return (tree && tree->right) ? lValTree(tree->right) : NIL;
+	return (tree && tree->right) ? lValTree(lTreeDup(tree->right)) : NIL;
 }
 
 static lVal lnmTreeValues(lVal self) {
-- 
2.43.0


From 5d9119de75b381e102c57f338150d3a2efe7764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 58/82] fix: the data of a closure is a tree of its own

---
 lib/type-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index 91ff0d4..2026c08 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -137,7 +137,7 @@ static lVal lnmLambdaHas(lVal self, lVal key){
 }
 
 static lVal lnmLambdaData(lVal self){
-	return lValTree(self.vClosure->data);
+	return lValTree(lTreeDup(self.vClosure->data));
 }
 
 static lVal lnmLambdaCode(lVal self){
-- 
2.43.0


From 2796a21965a23ccd0c9925e22975072342175fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 59/82] fix: the metadata of a closure is a tree of its own

---
 lib/vm.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 92a6365..ae5a0d5 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -14,8 +14,7 @@ static inline void lClosureSetMeta(lClosure *c, lVal doc){
 	if(unlikely(doc.type != ltTree)){
 		return;
 	}
-	lTree *t = doc.vTree->root;
-	c->meta = (t && t->flags & TREE_IMMUTABLE) ? lTreeDup(t) : t;
+	c->meta = lTreeDup(doc.vTree->root);
 }
 
 /* Create a new Lambda Value */
-- 
2.43.0


From e9af0d71aa9c3b24201a603eccf441533510d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 60/82] fix: references to the same tree in an image lead to
 the same tree

---
 lib/imageReader.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 8c42287..9cfe6b7 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -159,13 +159,10 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 }
 
 static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
-	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return ((lTreeRoot *)mapP)->root; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
-	lTreeRoot *root = lTreeRootAllocRaw();
-	readMapSet(map, off, root);
+	lTree *ret = NULL;
 	off += 2;
 	for(int i=0;i<len;i++){
 		const i32 sym = img->data[off+0] | (img->data[off+1] << 8) | (img->data[off+2] << 16);
@@ -175,10 +172,24 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 		const lSymbol *s = readSymbol(map, img, sym, staticImage);
 		if(s){
 			lVal v = readVal(map, img, val, staticImage);
-			root->root = lTreeInsert(root->root, s, v);
+			ret = lTreeInsert(ret, s, v);
 		}
 	}
-	return root->root;
+	return ret;
+}
+
+/* Every reference to the same tree leads to the same root */
+static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+	const bool empty = (off < 0) || (off >= (1<<24)-1);
+	const void *mapP = empty ? NULL : readMapGet(map, off);
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
+	lTreeRoot *ret = lTreeRootAllocRaw();
+	ret->root = NULL;
+	if(!empty){
+		readMapSet(map, off, ret);
+		ret->root = readTree(map, img, off, staticImage);
+	}
+	return ret;
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
@@ -285,7 +296,7 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
-		return lValTree(readTree(map, img, tbyte, staticImage));
+		return lValAlloc(ltTree, readTreeRoot(map, img, tbyte, staticImage));
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
-- 
2.43.0


From bed45b718e835f1f27abe2cb7e638a13e0f28096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 61/82] fix: recompute the height of the lower node first when
 rotating to the right

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index 98c3c2e..63e568d 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From b5db4d2483fab2942e2c6435adb873c07730ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 62/82] fix: refuse to write images that are too big for their
 24 bit offsets

---
 lib/imageWriter.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index f5c90fe..9d2852e 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -16,9 +16,13 @@ typedef struct {
 	u8 *start;
 	i32 curOff;
 	i32 size;
+	bool tooBig;
 	writeImageMap map;
 } writeImageContext;
 
+/* Offsets are stored in 3 bytes, with every bit set standing for nothing */
+#define IMAGE_MAX_SIZE ((1<<24)-1)
+
 static i32 ctxAddVal(writeImageContext *ctx, lVal v);
 
 static i32 writeMapGet(writeImageMap *map, void *key){
@@ -44,7 +48,11 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 	map->len++;
 }
 
-static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
+static bool ctxRealloc(writeImageContext *ctx, i64 eleSize){
+	if(unlikely(ctx->tooBig || (eleSize > (IMAGE_MAX_SIZE - ctx->curOff)))){
+		ctx->tooBig = true;
+		return false;
+	}
 	if((ctx->size - ctx->curOff) <= eleSize){
 		ctx->size += eleSize;
 		if(ctx->size & 0xFF){
@@ -55,6 +63,7 @@ static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 			exit(25);
 		}
 	}
+	return true;
 }
 
 static i32 ctxAddSymbol(writeImageContext *ctx, const lSymbol *v){
@@ -64,7 +73,7 @@ static i32 ctxAddSymbol(writeImageContext *ctx, const lSymbol *v){
 
 	const i32 strLen = strnlen(v->c, sizeof(v->c));
 	const i32 eleSize = strLen+1;
-	ctxRealloc(ctx, eleSize);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 
 	const i32 curOff = ctx->curOff;
@@ -101,7 +110,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 
 	const int len = lTreeSize(v);
 	const i32 eleSize = 2 + (6*len);
-	ctxRealloc(ctx, eleSize);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -116,8 +125,8 @@ static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + (4 * v->length);
-	ctxRealloc(ctx, eleSize);
+	const i64 eleSize = 4 + (4 * (i64)v->length);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -140,8 +149,8 @@ static i32 ctxAddBytecodeArray(writeImageContext *ctx, lBytecodeArray *v){
 	if(v == NULL){return -1;}
 
 	int len = v->dataEnd - v->data;
-	i32 eleSize = 8 + len;
-	ctxRealloc(ctx, eleSize);
+	const i64 eleSize = 8 + (i64)len;
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -162,7 +171,7 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = sizeof(lImageClosure);
-	ctxRealloc(ctx, eleSize);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -192,8 +201,8 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + v->length;
-	ctxRealloc(ctx, eleSize);
+	const i64 eleSize = 4 + (i64)v->length;
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -211,7 +220,7 @@ static i32 ctxAddBufferView(writeImageContext *ctx, lBufferView *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = sizeof(lImageBufferView);
-	ctxRealloc(ctx, eleSize);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -233,7 +242,7 @@ static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
 	if(mapOff > 0){ return mapOff; }
 
 	const i32 eleSize = 8;
-	ctxRealloc(ctx, eleSize);
+	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
@@ -265,7 +274,7 @@ static u8 ctxAddFilehandle(FILE *fh){
 }
 
 static i32 ctxAddVal(writeImageContext *ctx, lVal v){
-	ctxRealloc(ctx, 16);
+	if(!ctxRealloc(ctx, 16)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
 	u8 *outb = (u8 *)((void *)&ctx->start[curOff]);
@@ -445,6 +454,13 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	buf->magic[3] = 'I';
 
 	ctxAddVal(&ctx, rootValue);
+	if(unlikely(ctx.tooBig)){
+		free(ctx.start);
+		free(ctx.map.key);
+		free(ctx.map.val);
+		free(buf);
+		return NULL;
+	}
 
 	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
 	if(unlikely(buf == NULL)){
-- 
2.43.0


From 2ab65ab457596665ae3d1b1a8ce6c70dc1848f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 63/82] fix: set! doesn't change immutable buffers, nor buffers
 through immutable views

---
 lib/generic.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/generic.c b/lib/generic.c
index 62b3ce5..6814123 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -102,6 +102,9 @@ static lVal lBufferViewSet(lVal car, size_t i, lVal v){
 	const size_t length = car.vBufferView->length;
 	const lBufferViewType viewType = car.vBufferView->type;
 
+	if(unlikely((car.vBufferView->flags & BUFFER_VIEW_IMMUTABLE) || (car.vBufferView->buf->flags & BUFFER_IMMUTABLE))){
+		return lValException(lSymTypeError, "Can only set! mutable buffer views", car);
+	}
 	if(unlikely(buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
@@ -182,6 +185,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		reqMutableBuffer(col);
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
-- 
2.43.0


From b442b919b0b18a720310b9c81fc25d48ce59cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 64/82] fix: set! and :length! don't change the literals of
 code

---
 lib/array.c   | 4 ++++
 lib/generic.c | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/lib/array.c b/lib/array.c
index 72881db..3b4f543 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -13,6 +13,10 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
+	if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
+		return lValException(lSymTypeError, ":length! requires a mutable array", self);
+	}
+
 	if(unlikely(length > INT_MAX)){
 		return lValException(lSymOOM, "(:length Array) that is more than an array can hold", newLength);
 	}
diff --git a/lib/generic.c b/lib/generic.c
index 6814123..5b12aff 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -179,6 +179,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
 		const i64 i = key.vInt;
+		if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable arrays", col);
+		}
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From d5edcd5408380252b3c6d60150c77c999e947ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 65/82] fix: throwing a list doesn't change it

---
 lib/vm.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index ae5a0d5..4cea8c3 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -81,6 +81,20 @@ static lVal stackTrace(const lThread *ctx){
 	return ret;
 }
 
+/* Return a copy of LIST with V at the end, LIST might still be used by someone
+ * else, and could be a literal in the code that throws it. */
+static lVal appendToCopy(const lPair *list, lVal v){
+	lVal ret = lCons(list->car, NIL);
+	lPair *end = ret.vList;
+	while(list->cdr.type == ltPair){
+		list = list->cdr.vList;
+		end->cdr = lCons(list->car, NIL);
+		end = end->cdr.vList;
+	}
+	end->cdr = lCons(v, NIL);
+	return ret;
+}
+
 static inline lClosure *funCallClosure(lVal lambda) {
 	lClosure *tmpc = lClosureAllocRaw();
 	tmpc->parent = lambda.vClosure;
@@ -674,12 +688,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		}
 
 		if(likely(exceptionThrownValue.type == ltException)){
-			exceptionThrownValue.type = ltPair;
-			lPair *t = exceptionThrownValue.vList;
-			while(t->cdr.type == ltPair){
-				t=t->cdr.vList;
-			}
-			t->cdr = lCons(stackTrace(&ctx),NIL);
+			exceptionThrownValue = appendToCopy(exceptionThrownValue.vList, stackTrace(&ctx));
 		}
 
 		while(likely(c != NULL) && (c->type != closureTry)){
-- 
2.43.0


From 8137dba22e467775e0bd3a126d93f53f73ff810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 66/82] fix: immutable trees are still immutable after having
 been in an image

---
 lib/imageReader.c | 6 +++++-
 lib/imageWriter.c | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 9cfe6b7..41ac1ba 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -161,7 +161,8 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	const i32 len = img->data[off] | ((img->data[off+1] & 0x7F)<<8);
+	const bool immutable = img->data[off+1] & 0x80;
 	lTree *ret = NULL;
 	off += 2;
 	for(int i=0;i<len;i++){
@@ -175,6 +176,9 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 			ret = lTreeInsert(ret, s, v);
 		}
 	}
+	if(ret && immutable){
+		ret->flags |= TREE_IMMUTABLE;
+	}
 	return ret;
 }
 
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 9d2852e..d3129ea 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -115,7 +115,7 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
 	ctx->start[curOff  ] =  len     & 0xFF;
-	ctx->start[curOff+1] = (len>>8) & 0xFF;
+	ctx->start[curOff+1] = ((len>>8) & 0x7F) | ((v->flags & TREE_IMMUTABLE) ? 0x80 : 0);
 	ctx->curOff += eleSize;
 	ctxAddTreeVal(ctx, curOff + 2, v);
 	return curOff;
-- 
2.43.0


From a76b44884bcc6cef55b6e25cf3eccf00fcb6e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 67/82] fix: read into mutable buffer views only, and write
 immutable ones

---
 lib/buffer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index de1da03..c2fc8a4 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -9,8 +9,9 @@ const void *lBufferData (lBuffer *v){
 }
 
 void *lBufferDataMutable(lBuffer *v){
-	if(v->flags & BUFFER_IMMUTABLE){return NULL;}
-	return v == NULL ? NULL : v->buf;
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely(v->flags & BUFFER_IMMUTABLE)){return NULL;}
+	return v->buf;
 }
 
 size_t lBufferLength(const lBuffer *v){
@@ -19,11 +20,12 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
-- 
2.43.0


From 773c933e15a3a08bcaf90f61066a0b184fcb86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 68/82] fix: opening a file for output with :error doesn't
 overwrite an existing file

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index a541000..ea6371e 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){return lValBool(false);}
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From ca67c409527c4e2c724b49706d0516aa225856a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 69/82] fix: rm returns #nil if the file couldn't be removed

---
 bin/io.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bin/io.c b/bin/io.c
index 12b0f1d..25b6da7 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -79,8 +79,7 @@ static lVal lnfExit(lVal aStatus){
 
 static lVal lnfFileRemove(lVal aPath){
 	reqString(aPath);
-	unlink(lBufferData(aPath.vString));
-	return aPath;
+	return unlink(lBufferData(aPath.vString)) == 0 ? aPath : NIL;
 }
 
 #ifdef _MSC_VER
-- 
2.43.0


From fdcd0b6a5b813319e91a906f4adf9904b7e90967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 70/82] fix: report failures of file/flush*, file/close* and
 file/seek*

---
 bin/port.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index ea6371e..b9b04c7 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -92,8 +92,7 @@ static lVal lnfFileOpenInput(lVal aPathname){
 
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
-	fclose(aHandle.vFileHandle);
-	return NIL;
+	return lValBool(fclose(aHandle.vFileHandle) == 0);
 }
 
 static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset){
@@ -183,7 +182,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 
 static lVal lnfFileFlush(lVal aHandle){
 	reqFileHandle(aHandle);
-	fflush(aHandle.vFileHandle);
+	if(fflush(aHandle.vFileHandle)){
+		return lValException(lSymIOError, "IO Error occured during flush", aHandle);
+	}
 	return aHandle;
 }
 
@@ -204,7 +205,9 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 		return lValException(lSymTypeError, "Whence has to be in the range 0-2", aWhence);
 	}
 	const int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;
-	fseek(fh, offset, whence);
+	if(fseek(fh, offset, whence)){
+		return lValException(lSymIOError, "IO Error occured during seek", aHandle);
+	}
 	return aHandle;
 }
 
-- 
2.43.0


From f5c86bdeefef249ddc9f901e92453baec4b2dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 71/82] fix: popen doesn't report success for a command killed
 by a signal

---
 bin/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index 25b6da7..a5548b0 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -206,7 +206,7 @@ static lVal lnfPopen(lVal aCommand){
 	const int exitCode = pclose(child);
 	#else
 	const int exitStatus = pclose(child);
-	const int exitCode = WEXITSTATUS(exitStatus);
+	const int exitCode = WIFSIGNALED(exitStatus) ? 128 + WTERMSIG(exitStatus) : WEXITSTATUS(exitStatus);
 	#endif
 
 	char *ret = realloc(buf,len+1);
-- 
2.43.0


From 0028ecec62ae5d0788c1b36c7bb805020713d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 72/82] fix: don't read beyond an environment entry without an
 equals sign

---
 bin/environment.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/environment.c b/bin/environment.c
index 890161d..4b6dcc7 100644
--- a/bin/environment.c
+++ b/bin/environment.c
@@ -11,7 +11,9 @@
 /* Add environment key/value pair to tree T */
 static lTree *addVar(const char *e, lTree *t){
 	int endOfKey, endOfString;
-	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){}
+	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){
+		if(e[endOfKey] == 0){return t;}
+	}
 	for(endOfString=endOfKey+1;e[endOfString];endOfString++){}
 	lSymbol *sym = lSymSL(e,endOfKey);
 	lVal v = lValString(&e[endOfKey+1]);
-- 
2.43.0


From 6aa451838d7c7f939ae517f8ccc4f19af0b47739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 73/82] fix: spit reports that the content couldn't be written
 when closing fails

---
 binlib/io.nuj | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..cbe34bc 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -92,8 +92,7 @@
                (file/close* fh)
                (return #f))
            (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+           (return (file/close* fh))))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
-- 
2.43.0


From 45883093bb7083e7c60e3a85c60dc406d4812df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 74/82] fix: make sure the stacks have room for the whole
 function entered

Only 16 scopes and 32 values were ensured, more deeply nested code wrote
past the end of the stacks.
---
 lib/vm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 4cea8c3..1d2e104 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -50,17 +50,21 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 }
 
 static void lBytecodeEnsureSufficientStack(lThread *ctx){
+	/* No instruction raises a stack by more than its length, apart from a
+	 * small constant, so that's how much room the code may need at most
+	 */
+	const int codeLength = ctx->text->dataEnd - ctx->text->data;
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < codeLength + 16)){
+		ctx->closureStackSize += codeLength + 512;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < codeLength + 32)){
+		ctx->valueStackSize += codeLength + 512;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -220,6 +224,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx);
 
 	ip = ops->data;
 
-- 
2.43.0


From a71ac8ab3b7b83eec1d47529b95ba14c30eced44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 75/82] fix: keep the whole height of the value stack when
 calling

It was cut to 16 bits, recursion with more than 65535 values on the stack
continued at the wrong height.
---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 32cb827..54b1926 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	int sp;
 	u8 type;
 };
 
-- 
2.43.0


From 333161d443b16657c2c3d634f5029409ac5524da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:40 +0000
Subject: [PATCH 76/82] fix: current-lambda returned a scope without code as a
 lambda, calling it crashed

---
 lib/core-operators.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index 5a0944e..f32fc98 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -23,7 +23,10 @@ static lVal lnfCurrentClosure(lClosure *c){
 }
 
 static lVal lnfCurrentLambda(lClosure *c){
-	return lValAlloc(ltLambda, c);
+	while((c->text == NULL) && (c->parent != NULL)){
+		c = c->parent;
+	}
+	return lValAlloc(c->text == NULL ? ltEnvironment : ltLambda, c);
 }
 
 static lVal lnfNReverse(lVal l){
-- 
2.43.0


From 54822c8d69150d1c0023d11c6f8d25a640bb2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:48 +0000
Subject: [PATCH 77/82] fix: the code of a scope that has none was a bytecode
 array without contents

---
 lib/type-system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index 2026c08..448bb76 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -141,7 +141,8 @@ static lVal lnmLambdaData(lVal self){
 }
 
 static lVal lnmLambdaCode(lVal self){
-	return lValAlloc(ltBytecodeArr, self.vClosure->text);
+	lBytecodeArray *text = self.vClosure->text;
+	return text == NULL ? NIL : lValAlloc(ltBytecodeArr, text);
 }
 
 static lVal lnmLambdaArguments(lVal self){
-- 
2.43.0


From a1f7e24b29091fe81a577462de1b6d32b68ef9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:31 +0000
Subject: [PATCH 78/82] fix: adding a method to a type was declared pure

---
 lib/type-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index 448bb76..b52236d 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -225,7 +225,7 @@ static void lTypesAddCoreMethods(){
 
 	lClass *Type = &lClassList[ltType];
 	lAddNativeMethodV  (Type, lSymS("name"), "(self)", lnmTName, NFUNC_PURE);
-	lAddNativeMethodVVV(Type, lSymS("add-method"), "(self name fn)", lnmAddMethod, NFUNC_PURE);
+	lAddNativeMethodVVV(Type, lSymS("add-method"), "(self name fn)", lnmAddMethod, 0);
 }
 
 lVal lMethodLookup(const lSymbol *method, lVal self){
-- 
2.43.0


From 0cad315f1869ed97d8c9d0bba875c71a4a0217c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:39 +0000
Subject: [PATCH 79/82] fix: the reader looked beyond the end of its source

---
 lib/reader.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index ccdf0f6..d8da007 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -75,13 +75,15 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 
 static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
 	const char *end = s->bufEnd-1;
-	for(;(s->data < end);s->data++){
+	while(s->data < end){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
 			s->data+=2;
 			lStringAdvanceUntilEndOfBlockComment(s);
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
 			s->data+=2;
 			return;
+		}else{
+			s->data++;
 		}
 	}
 }
@@ -299,7 +301,7 @@ static lVal lParseCharacter(lReadContext *s){
 	else if((s->data[0] == 'R') && (s->data[1] == 'e')){ret = '\r';}
 	else if((s->data[0] == 'l') && (s->data[1] == 'f')){ret = '\n';}
 	else if((s->data[0] == 'c') && (s->data[1] == 'r')){ret = '\r';}
-	s->data++;
+	if(likely(s->data < s->bufEnd)){s->data++;}
 	lStringAdvanceToNextSpaceOrSpecial(s);
 	return lValInt(ret);
 }
@@ -397,12 +399,12 @@ static lVal lParseSpecial(lReadContext *s){
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
 	case '#': {
-		s->data++;
+		if(likely(s->data < s->bufEnd)){s->data++;}
 		lVal list = lReadList(s, false, ')');
 		return (list.type == ltException) ? list : lnfArrNew(list);
 	}
 	case '@':{
-		s->data++;
+		if(likely(s->data < s->bufEnd)){s->data++;}
 		lVal list = lReadList(s, false, ')');
 		if(unlikely(list.type == ltException)){
 			return list;
-- 
2.43.0


From 62b30aa829288e2a93d11cf8a262452f43b02960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:47 +0000
Subject: [PATCH 80/82] fix: string literals of 4096 characters or more were
 read with a stray byte

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index d8da007..6e7a5c9 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -105,7 +105,7 @@ static lVal lParseString(lReadContext *s){
 			if(buf == NULL){
 				exit(21);
 			}
-			b = &buf[i];
+			b = &buf[i-1];
 		}
 		if(unlikely(*s->data == '\\')){
 			s->data++;
-- 
2.43.0


From 752e45ae475243dca19603cf531074ae2f58aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 81/82] fix: the error for a name without an end gave a
 position outside the source

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 6e7a5c9..f7765db 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -180,7 +180,7 @@ static lVal lFinishSymbol(lReadContext *s, uint i, char buf[128], const char *st
 		kwstart = &buf[1];
 	}
 	if(unlikely(*start == 0)){
-		return lValExceptionReaderEnd(s, kwstart, "Sym/KW too short");
+		return lValExceptionReaderEnd(s, start, "Sym/KW too short");
 	}
 	lVal ret = keyword
 		? lValKeyword(kwstart)
-- 
2.43.0


From 4f488e9e1728633f4f59317c856b2ef759fd92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:01 +0000
Subject: [PATCH 82/82] fix: strings loaded from an image were not followed by
 a zero byte

---
 lib/imageReader.c | 5 +++--
 lib/imageWriter.c | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 41ac1ba..62d6458 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -131,10 +131,11 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 		buf->flags |= BUFFER_STATIC;
 	} else {
 		if(buf->buf == NULL){
-			buf->buf = malloc(len);
-			if(unlikely(len && (buf->buf == NULL))){
+			buf->buf = malloc((size_t)len + 1);
+			if(unlikely(buf->buf == NULL)){
 				exit(30);
 			}
+			((u8 *)buf->buf)[len] = 0; // Strings have to be terminated
 		}
 		memcpy(buf->buf, data, len);
 	}
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index d3129ea..b038381 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -201,7 +201,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i64 eleSize = 4 + (i64)v->length;
+	const i64 eleSize = 4 + (i64)v->length + 1;
 	if(!ctxRealloc(ctx, eleSize)){ return -1; }
 
 	const i32 curOff = ctx->curOff;
@@ -212,6 +212,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	ctx->curOff += eleSize;
 
 	memcpy(&out[1], v->data, v->length);
+	((u8 *)&out[1])[v->length] = 0; // Strings have to be terminated
 	return curOff;
 }
 
-- 
2.43.0

