From df56d50f5a3dde35e75d745ee852b20801322590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 01/87] fix: check argument types in the Log natives

---
 src/optionals/log.c | 50 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 32b2d04..7642396 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -32,6 +32,11 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[0]);
@@ -47,6 +52,11 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -63,6 +73,11 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -79,6 +94,11 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -106,6 +126,11 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "setPrefix() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
     char *prefix = AS_CSTRING(args[1]);
     
@@ -139,6 +164,11 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -165,6 +195,11 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -191,6 +226,11 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -209,6 +249,11 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -260,6 +305,11 @@ static Value newLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "new() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjAbstract *abstract = newLogObj(vm);
     Log *log = abstract->data;
 
-- 
2.43.0


From 0a4bc5cf19df3060bfba01130a43ed137291e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 02/87] fix: check the first value and empty lists in
 Math.max() and Math.min()

---
 src/optionals/math.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 2899cf1..222de00 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -95,6 +95,15 @@ static Value maxNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to max()");
+        return EMPTY_VAL;
+    }
+
     double maximum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
@@ -123,6 +132,15 @@ static Value minNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to min()");
+        return EMPTY_VAL;
+    }
+
     double minimum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
-- 
2.43.0


From ced73b273fe3716bdec86edb83f4f46cbe007ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 03/87] fix: BigInt.new() copies the unwrapped value when given
 a Result

---
 src/optionals/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 37b3b23..75d6148 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -194,7 +194,7 @@ static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     Value val = unwrapBigInt(args[0]);
 
     if (isBigIntValue(val)) {
-        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(args[0])->data));
+        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(val)->data));
     }
 
     return newResultError(vm, "error: invalid argument");
-- 
2.43.0


From 868495edf63cb9586cbb3bb4fa68ee781d57db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 04/87] fix: stop after an argument count error in BigInt
 operations

---
 src/optionals/bigint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 75d6148..3a19e04 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -223,6 +223,7 @@ static Value handleLongOrUnwrapError(DictuVM *vm, bool argIsLong) {
 static Value applyOp1Arg(DictuVM *vm, int argCount, Value *args, int (*op)(const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
@@ -271,6 +272,7 @@ static Value applyOp0ArgToReturn(DictuVM *vm, int argCount, Value *args, bigint*
 static Value applyOp1ArgAndReturn(DictuVM *vm, int argCount, Value *args, bigint* (*op)(bigint*, const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
-- 
2.43.0


From 22c4b415bfd32c9fe6287a5542c470c115a53361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 05/87] fix: FFI.load() requires a string path

---
 src/optionals/ffi/ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/ffi/ffi.c b/src/optionals/ffi/ffi.c
index 90adec1..12577e5 100644
--- a/src/optionals/ffi/ffi.c
+++ b/src/optionals/ffi/ffi.c
@@ -87,6 +87,11 @@ static Value load(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "load() takes one argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "load() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     ObjString *path = AS_STRING(args[0]);
 #ifdef _WIN32
     HMODULE library = LoadLibrary(path->chars);
-- 
2.43.0


From 1cdb69dde2053cb7b8ebdf70c66a181c559deca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 06/87] fix: Process.kill() requires at least one argument

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ec7de1f..3e92f27 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -279,7 +279,7 @@ static Value runProcess(DictuVM* vm, int argCount, Value* args) {
 
 #ifdef _WIN32
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
@@ -301,7 +301,7 @@ static Value killProcess(DictuVM* vm, int argCount, Value* args) {
 }
 #else
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 9e976e2523595dd495faa29cc18700297156aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 07/87] fix: mock() requires at least one argument

---
 src/optionals/unittest/unittest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/unittest/unittest.c b/src/optionals/unittest/unittest.c
index 31dd627..1d51443 100644
--- a/src/optionals/unittest/unittest.c
+++ b/src/optionals/unittest/unittest.c
@@ -3,7 +3,7 @@
 #include "unittest-source.h"
 
 static Value mockNative(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "mock() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From ad5819e47b4e4e143cf6baeb292576472409b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 08/87] fix: HTTP get/head/options require a URL argument

---
 src/optionals/http/http.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index fe7963e..19d9d99 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -411,7 +411,7 @@ static ObjInstance *endRequest(DictuVM *vm, CURL *curl, Response response, bool
 }
 
 static Value get(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "get() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -738,7 +738,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value head(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "head() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -829,7 +829,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value options(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -1325,7 +1325,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 32e523292fdc42cc6d5cd1b210be1e3ae5aac3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 09/87] fix: HTTP.newClient() requires its options argument

---
 src/optionals/http/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 19d9d99..bed606e 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1572,7 +1572,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 }
 
 static Value newClient(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 1) {
+    if (argCount != 1) {
         runtimeError(vm, "newClient() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 0afa2140ac4ba2f85b25cb98e49a93ecfbb2a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 10/87] fix: HttpClient.setHeaders() checks that every header
 is a string

---
 src/optionals/http/http.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index bed606e..2123734 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1023,14 +1023,17 @@ static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    if (IS_EMPTY(args[1])) {
-        return EMPTY_VAL;
-    }
-
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
     ObjList *headers = AS_LIST(args[1]);
 
+    for (int h = 0; h < headers->values.count; h++) {
+        if (!IS_STRING(headers->values.values[h])) {
+            runtimeError(vm, "headers list must only contain strings");
+            return EMPTY_VAL;
+        }
+    }
+
     headerChunk = NULL;
 
     for (int h = 0; h < headers->values.count; h++) {
-- 
2.43.0


From e0935abf9638ba4da2ccea13cd5db5e7421ae9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 11/87] fix: check the type of the max split argument of
 split()

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..fa75a94 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -137,7 +137,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
-- 
2.43.0


From d7e8010b8a70a4f9aa2b8c8bcc51c2ea9b0cf986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 12/87] fix: findLast() requires a string argument

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index fa75a94..81f569c 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -281,6 +281,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Substring passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-- 
2.43.0


From d9a0bc6ec3cf987b217f8e4a2c6dba159fc4dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 13/87] fix: wrap() checks its argument and terminates its
 result

---
 src/vm/datatypes/strings.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 81f569c..4390cd3 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -705,15 +705,20 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "wrap() length argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    
+
     int len = AS_NUMBER(args[1]);
 
     int last = 0;
     int count = 0;
 
-    for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
+    for (int cur = 0; cur < string->length; cur++, count++) {
         temp[cur] = string->chars[cur];
 
         if (isspace(temp[cur])) {
@@ -726,7 +731,9 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    temp[string->length] = '\0';
+
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From 1d897e6045639c01027b96ff7221cfc83c565ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 14/87] fix: collapseSpaces() writes its terminator inside the
 buffer

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 4390cd3..659d95b 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -690,7 +690,7 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
-- 
2.43.0


From 5ea9d97a43a9c1233e1da4005797385887323b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 15/87] fix: repeat() stays inside its buffer for zero and
 large counts

---
 src/vm/datatypes/strings.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 659d95b..3b7a3f5 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include "strings.h"
 #include "../memory.h"
 
@@ -616,15 +617,21 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    int count = AS_NUMBER(args[1]);
+    double repeats = AS_NUMBER(args[1]);
 
+    if (!(repeats >= 0) || (string->length + 1) * repeats >= INT_MAX) {
+        runtimeError(vm, "repeat() count argument out of range");
+        return EMPTY_VAL;
+    }
+
+    int count = repeats;
     int tempLen = (string->length * count) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-    strcpy(temp, string->chars);
-    while (--count > 0) {
-        strcat(temp, string->chars);
+    for (int i = 0; i < count; ++i) {
+        memcpy(temp + i * string->length, string->chars, string->length);
     }
+    temp[tempLen - 1] = '\0';
 
     return OBJ_VAL(takeString(vm, temp, tempLen - 1));
 }
-- 
2.43.0


From fc8f838c49d5af5c14a5e3fa6d2f84def3a14932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 16/87] fix: count("") stops at the end of the string

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 3b7a3f5..7b4f091 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -545,6 +545,11 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     while ((haystack = strstr(haystack, needle))) {
         count++;
+
+        if (*haystack == '\0') {
+            break;
+        }
+
         haystack++;
     }
 
-- 
2.43.0


From 1c811c7a320350defc3c98d7528de5e52664c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 17/87] fix: replace() with an empty needle returns the string
 unchanged

---
 src/vm/datatypes/strings.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 7b4f091..90b3710 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -346,6 +346,10 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     int replaceLen = replace->length;
     int stringLen = strlen(string) + 1;
 
+    if (len == 0) {
+        return stringValue;
+    }
+
     // Make a copy of the string so we do not modify the original
     char *tmp = ALLOCATE(vm, char, stringLen + 1);
     char *tmpFree = tmp;
-- 
2.43.0


From 71cc07df81b082775f62a61cc3f0da7978b9157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 18/87] fix: native methods of an abstract can not be detached
 from their receiver

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..f09f3a1 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1178,6 +1178,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                     ObjString *name = READ_STRING();
                     Value value;
                     if (tableGet(&abstract->values, name, &value)) {
+                        if (IS_NATIVE(value) && !abstract->excludeSelf) {
+                            RUNTIME_ERROR("Method '%s' can not be used as a value, it must be called on its object.", name->chars);
+                        }
+
                         pop(vm); // Abstract.
                         push(vm, value);
                         DISPATCH();
-- 
2.43.0


From e2567cbb36a1308ec62c1813e6090cbab0b43adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 19/87] fix: BigInt.new() stops after an argument count error

---
 src/optionals/bigint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 3a19e04..bd8ad56 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -179,6 +179,7 @@ static Value unwrapBigInt(Value val) {
 static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     if (argCount > 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     if (argCount == 0) {
-- 
2.43.0


From 9705a04483c4942c6ee6b51fd118e9aeba6c0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 20/87] fix: prettyPrint() propagates a stringify error

---
 src/optionals/object/object.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index ff5553d..3e357fc 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -66,9 +66,13 @@ static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
     }
 
     Value out = stringify(vm, argCount, args);
+    if (IS_EMPTY(out)) {
+        return EMPTY_VAL;
+    }
+
     ObjResult *res = AS_RESULT(out);
     if (res->status == ERR) {
-        runtimeError(vm, AS_CSTRING(res->value));
+        runtimeError(vm, "%s", AS_CSTRING(res->value));
         return EMPTY_VAL;
     }
     
-- 
2.43.0


From 0275c8f27acfafa2ebfd44c9e928f3703c63b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 21/87] fix: keep the keys of Term.getSize() rooted while they
 are inserted

---
 src/optionals/term.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/optionals/term.c b/src/optionals/term.c
index aebc7c3..641ee47 100644
--- a/src/optionals/term.c
+++ b/src/optionals/term.c
@@ -47,9 +47,9 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     int width = (int)(csbi.srWindow.Right-csbi.srWindow.Left+1);
 
     dictSet(vm, terminalSizeDict, OBJ_VAL(lines), NUMBER_VAL(height));
-    pop(vm);
-
     dictSet(vm, terminalSizeDict, OBJ_VAL(columns), NUMBER_VAL(width));
+
+    pop(vm);
     pop(vm);
 #else
     ObjString *horizontalPixesl = copyString(vm, "horizontal_pixels", 17);
@@ -62,15 +62,13 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     ioctl(0, TIOCGWINSZ, &w);
 
     dictSet(vm, terminalSizeDict, OBJ_VAL(lines), NUMBER_VAL(w.ws_row));
-    pop(vm);
-
     dictSet(vm, terminalSizeDict, OBJ_VAL(columns), NUMBER_VAL(w.ws_col));
-    pop(vm);
-
     dictSet(vm, terminalSizeDict, OBJ_VAL(horizontalPixesl), NUMBER_VAL(w.ws_col));
-    pop(vm);
-
     dictSet(vm, terminalSizeDict, OBJ_VAL(verticalPixels), NUMBER_VAL(w.ws_col));
+
+    pop(vm);
+    pop(vm);
+    pop(vm);
     pop(vm);
 #endif
 
-- 
2.43.0


From 3768a62233c33dea984a58b146616f0433493e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 22/87] fix: classToDict() keeps its containers rooted until
 they are linked

---
 src/vm/object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..daec381 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -597,20 +597,20 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
     push(vm, OBJ_VAL(variables));
     dictSet(vm, classDict, variables, OBJ_VAL(variablesDict));
     pop(vm);
-    pop(vm); // variablesDict
 
     Value constants = OBJ_VAL(copyString(vm, "constants", 9));
     push(vm, OBJ_VAL(constants));
     dictSet(vm, classDict, constants, OBJ_VAL(constantsDict));
     pop(vm);
-    pop(vm); // constantsDict
 
     Value methods = OBJ_VAL(copyString(vm, "public_methods", 14));
     push(vm, OBJ_VAL(methods));
     dictSet(vm, classDict, methods, OBJ_VAL(methodsList));
     pop(vm);
-    pop(vm); // methodsList
 
+    pop(vm); // methodsList
+    pop(vm); // constantsDict
+    pop(vm); // variablesDict
     pop(vm); // classDict
     return classDict;
 }
-- 
2.43.0


From 2f91498e83a7c366b46fab1cd27587beb097de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 23/87] fix: HTTP requests do not pop the operand stack when
 curl can not be initialised

---
 src/optionals/http/http.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 2123734..999e1a3 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -496,7 +496,6 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -613,7 +612,6 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -731,7 +729,6 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -822,7 +819,6 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -915,7 +911,6 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -1137,8 +1132,6 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    pop(vm);
-
     char *errorString = (char *)curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
 }
@@ -1207,7 +1200,6 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -1278,7 +1270,6 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
@@ -1321,8 +1312,6 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    pop(vm);
-
     char *errorString = (char *)curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
 }
@@ -1412,7 +1401,6 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
     /* always cleanup */
     curl_easy_cleanup(httpClient->curl);
     curl_global_cleanup();
-    pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
-- 
2.43.0


From c7e232136eee436a4c025f0f58163fbb1edfa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:50 +0000
Subject: [PATCH 24/87] fix: attribute opcodes have one operand stack effect on
 every path

---
 src/vm/vm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f09f3a1..eb8006f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1336,9 +1336,12 @@ static DictuInterpretResult run(DictuVM *vm) {
                 DISPATCH();
             }
 
+            // bindMethod() replaces the instance, keep one on the stack
+            push(vm, peek(vm, 0));
             if (bindMethod(vm, instance->klass, name)) {
                 DISPATCH();
             }
+            pop(vm);
 
             // Check class for properties
             ObjClass *klass = instance->klass;
@@ -1382,9 +1385,12 @@ static DictuInterpretResult run(DictuVM *vm) {
                 DISPATCH();
             }
 
+            // bindMethod() replaces the instance, keep one on the stack
+            push(vm, peek(vm, 0));
             if (bindMethod(vm, instance->klass, name)) {
                 DISPATCH();
             }
+            pop(vm);
 
             // Check class for properties
             ObjClass *klass = instance->klass;
@@ -1443,7 +1449,7 @@ static DictuInterpretResult run(DictuVM *vm) {
                 DISPATCH();
             }
 
-            DISPATCH();
+            RUNTIME_ERROR_TYPE("Can not set attribute on type '%s'", 1);
         }
 
         CASE_CODE(SET_CLASS_VAR): {
-- 
2.43.0


From a353bb8d9bdd9579dc67a88b90cf5c1ec894903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 25/87] fix: file objects keep their path and mode strings
 alive

---
 src/vm/datatypes/files.c | 12 ++++++------
 src/vm/memory.c          |  8 +++++++-
 src/vm/object.c          | 10 +++++++---
 src/vm/object.h          |  4 ++--
 src/vm/vm.c              |  6 +++---
 5 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ee6462a..ba0b0bf 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -15,14 +15,14 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
+    if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
 
     int charsWrote = 0;
 
-    if (strcmp(file->openType, "wb") == 0) {
+    if (strcmp(file->openType->chars, "wb") == 0) {
         charsWrote = fwrite(string->chars, 1, string->length, file->file);
     } else {
         charsWrote = fprintf(file->file, "%s", string->chars);
@@ -46,7 +46,7 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0) {
+    if (strcmp(file->openType->chars, "r") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
@@ -73,14 +73,14 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
-        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path);
+        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
     size_t bytesRead = fread(buffer, sizeof(char), fileSize, file->file);
     if (bytesRead < fileSize && !feof(file->file)) {
         FREE_ARRAY(vm, char, buffer, fileSize + 1);
-        runtimeError(vm, "Could not read file \"%s\".\n", file->path);
+        runtimeError(vm, "Could not read file \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
@@ -174,7 +174,7 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
-    if (offset != 0 && !strstr(file->openType, "b")) {
+    if (offset != 0 && !strstr(file->openType->chars, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
         return EMPTY_VAL;
     }
diff --git a/src/vm/memory.c b/src/vm/memory.c
index c682a73..f5c7163 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -180,9 +180,15 @@ static void blackenObject(DictuVM *vm, Obj *object) {
             break;
         }
 
+        case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            grayObject(vm, (Obj *) file->path);
+            grayObject(vm, (Obj *) file->openType);
+            break;
+        }
+
         case OBJ_NATIVE:
         case OBJ_STRING:
-        case OBJ_FILE:
             break;
     }
 }
diff --git a/src/vm/object.c b/src/vm/object.c
index daec381..5a43cd4 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -182,7 +182,11 @@ ObjSet *newSet(DictuVM *vm) {
 }
 
 ObjFile *newFile(DictuVM *vm) {
-    return ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    ObjFile *file = ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    file->file = NULL;
+    file->path = NULL;
+    file->openType = NULL;
+    return file;
 }
 
 ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
@@ -749,8 +753,8 @@ char *objectToString(Value value) {
 
         case OBJ_FILE: {
             ObjFile *file = AS_FILE(value);
-            char *fileString = malloc(sizeof(char) * (strlen(file->path) + 8));
-            snprintf(fileString, strlen(file->path) + 8, "<File %s>", file->path);
+            char *fileString = malloc(sizeof(char) * (file->path->length + 8));
+            snprintf(fileString, file->path->length + 8, "<File %s>", file->path->chars);
             return fileString;
         }
 
diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..81cfb3c 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -166,8 +166,8 @@ struct sObjSet {
 struct sObjFile {
     Obj obj;
     FILE *file;
-    char *path;
-    char *openType;
+    ObjString *path;
+    ObjString *openType;
 };
 
 typedef void (*AbstractFreeFn)(DictuVM *vm, ObjAbstract *abstract);
diff --git a/src/vm/vm.c b/src/vm/vm.c
index eb8006f..922d41f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2384,11 +2384,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             ObjFile *file = newFile(vm);
             file->file = fopen(fileNameString->chars, openTypeString->chars);
-            file->path = fileNameString->chars;
-            file->openType = openTypeString->chars;
+            file->path = fileNameString;
+            file->openType = openTypeString;
 
             if (file->file == NULL) {
-                RUNTIME_ERROR("Unable to open file '%s'", file->path);
+                RUNTIME_ERROR("Unable to open file '%s'", fileNameString->chars);
             }
 
             pop(vm);
-- 
2.43.0


From 47452cdc8afe81a2dfb35764143426f05d613f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 26/87] fix: a closed file can not be used and an abandoned one
 is closed

---
 src/vm/datatypes/files.c | 20 ++++++++++++++++++++
 src/vm/memory.c          |  6 +++++-
 src/vm/vm.c              |  5 ++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ba0b0bf..5bf8616 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -13,6 +13,10 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjFile *file = AS_FILE(args[0]);
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return EMPTY_VAL;
+    }
     ObjString *string = AS_STRING(args[1]);
 
     if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
@@ -44,6 +48,10 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjFile *file = AS_FILE(args[0]);
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return EMPTY_VAL;
+    }
     ObjString *string = AS_STRING(args[1]);
 
     if (strcmp(file->openType->chars, "r") == 0) {
@@ -64,6 +72,10 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjFile *file = AS_FILE(args[0]);
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return EMPTY_VAL;
+    }
 
     size_t currentPosition = ftell(file->file);
     // Calculate file size
@@ -117,6 +129,10 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
 #endif
 
     ObjFile *file = AS_FILE(args[0]);
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return EMPTY_VAL;
+    }
     if (fgets(line, readLineBufferSize, file->file) != NULL) {
         int lineLength = strlen(line);
         // Remove newline char
@@ -173,6 +189,10 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
 
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
+    if (file->file == NULL) {
+        runtimeError(vm, "File is closed");
+        return EMPTY_VAL;
+    }
 
     if (offset != 0 && !strstr(file->openType->chars, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
diff --git a/src/vm/memory.c b/src/vm/memory.c
index f5c7163..602116a 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -1,3 +1,4 @@
+#include <stdio.h>
 #include <stdlib.h>
 
 #include "common.h"
@@ -6,7 +7,6 @@
 #include "vm.h"
 
 #ifdef DEBUG_TRACE_GC
-#include <stdio.h>
 #include "debug.h"
 #endif
 
@@ -295,6 +295,10 @@ void freeObject(DictuVM *vm, Obj *object) {
         }
 
         case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            if (file->file != NULL) {
+                fclose(file->file);
+            }
             FREE(vm, ObjFile, object);
             break;
         }
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 922d41f..7f72686 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2401,7 +2401,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             uint8_t slot = READ_BYTE();
             Value file = frame->slots[slot];
             ObjFile *fileObject = AS_FILE(file);
-            fclose(fileObject->file);
+            if (fileObject->file != NULL) {
+                fclose(fileObject->file);
+                fileObject->file = NULL;
+            }
 
             DISPATCH();
         }
-- 
2.43.0


From da06000a37de4bfa49d77edbb03d59d43d73009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 27/87] fix: bound the buffer of File.readLine()

---
 src/vm/datatypes/files.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 5bf8616..8aa088d 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -119,7 +119,13 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        readLineBufferSize = AS_NUMBER(args[1]) + 1;
+        double size = AS_NUMBER(args[1]);
+        if (!(size >= 1 && size <= 1 << 20)) {
+            runtimeError(vm, "readLine() argument must be between 1 and %d", 1 << 20);
+            return EMPTY_VAL;
+        }
+
+        readLineBufferSize = size + 1;
     }
 
 #ifdef _WIN32
@@ -136,7 +142,7 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
     if (fgets(line, readLineBufferSize, file->file) != NULL) {
         int lineLength = strlen(line);
         // Remove newline char
-        if (line[lineLength - 1] == '\n') {
+        if (lineLength > 0 && line[lineLength - 1] == '\n') {
             lineLength--;
             line[lineLength] = '\0';
         }
-- 
2.43.0


From 9f8d0022545c9bcd199804ed6a1273b11ac186e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 28/87] fix: the names of constants are roots

---
 src/vm/memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/memory.c b/src/vm/memory.c
index 602116a..6be1a1e 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -348,6 +348,7 @@ void collectGarbage(DictuVM *vm) {
     // Mark the global roots.
     grayTable(vm, &vm->modules);
     grayTable(vm, &vm->globals);
+    grayTable(vm, &vm->constants);
     grayTable(vm, &vm->numberMethods);
     grayTable(vm, &vm->boolMethods);
     grayTable(vm, &vm->nilMethods);
-- 
2.43.0


From db2ae84a95de4d9f336b7c855ca85b12655bc10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 29/87] fix: report a stack overflow as a runtime error

---
 src/vm/vm.c | 10 ++++++++++
 src/vm/vm.h |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 7f72686..1bbd467 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -43,6 +43,11 @@ static void resetStack(DictuVM *vm) {
                                                                                     \
         ObjList *list = AS_LIST(pop(vm));                                     \
                                                                                     \
+        if (list->values.count > STACK_MAX - STACK_RESERVE - (vm->stackTop - vm->stack)) { \
+            runtimeError(vm, "Stack overflow.");                                    \
+            return false;                                                           \
+        }                                                                           \
+                                                                                    \
         for (int i = 0; i < list->values.count; ++i) {                              \
             push(vm, list->values.values[i]);                                       \
         }                                                                           \
@@ -222,6 +227,11 @@ ObjClosure *compileModuleToClosure(DictuVM *vm, char *name, char *source) {
 }
 
 static bool call(DictuVM *vm, ObjClosure *closure, int argCount) {
+    if (vm->stackTop - vm->stack > STACK_MAX - STACK_RESERVE) {
+        runtimeError(vm, "Stack overflow.");
+        return false;
+    }
+
     if (argCount < closure->function->arity) {
         if ((argCount + closure->function->isVariadic) == closure->function->arity) {
             // add missing variadic param ([])
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 9bc63e2..74f8a34 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -8,6 +8,8 @@
 
 // TODO: Work out the maximum stack size at compilation time
 #define STACK_MAX (64 * UINT8_COUNT)
+// Slots kept free for the locals and temporaries of a single call
+#define STACK_RESERVE (8 * UINT8_COUNT)
 
 typedef struct {
     ObjClosure *closure;
-- 
2.43.0


From 96f6f9357cfcdc2ea60e7cca6f6165f9f2b6f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 30/87] fix: the compiler stays inside its fixed-size tables

---
 src/vm/compiler.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..30e8266 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -838,6 +838,10 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
             if (isSpreadParam) {
                 error(fnCompiler->parser, "spread parameter must be last in the parameter list");
             }
+            if (index == 255) {
+                error(fnCompiler->parser, "Cannot have more than 255 parameters.");
+                break;
+            }
             bool varKeyword = match(compiler, TOKEN_VAR);
             bool privateKeyword = match(compiler, TOKEN_PRIVATE);
             isSpreadParam = match(compiler, TOKEN_DOT_DOT_DOT);
@@ -883,10 +887,6 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                     error(fnCompiler->parser, "Cannot have non-optional parameter after optional.");
                 }
             }
-
-            if (fnCompiler->function->arity + fnCompiler->function->arityOptional > 255) {
-                error(fnCompiler->parser, "Cannot have more than 255 parameters.");
-            }
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
 
@@ -2136,6 +2136,10 @@ static void varDeclaration(Compiler *compiler, bool constant) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
             variables[varCount] = compiler->parser->previous;
             varCount++;
         } while (match(compiler, TOKEN_COMMA));
@@ -2493,11 +2497,12 @@ static void switchStatement(Compiler *compiler) {
         int compareJump = emitJump(compiler, OP_COMPARE_JUMP);
         consume(compiler, TOKEN_COLON, "Expect ':' after expression.");
         statement(compiler);
-        caseEnds[caseCount++] = emitJump(compiler,OP_JUMP);
-        patchJump(compiler, compareJump);
         if (caseCount > 255) {
             errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
+            return;
         }
+        caseEnds[caseCount++] = emitJump(compiler,OP_JUMP);
+        patchJump(compiler, compareJump);
 
     } while(match(compiler, TOKEN_CASE));
 
@@ -2530,10 +2535,9 @@ static void withStatement(Compiler *compiler) {
     beginScope(compiler);
 
     int fileIndex = compiler->localCount;
-    Local *local = &compiler->locals[compiler->localCount++];
+    addLocal(compiler, syntheticToken("file"));
+    Local *local = &compiler->locals[compiler->localCount - 1];
     local->depth = compiler->scopeDepth;
-    local->isUpvalue = false;
-    local->name = syntheticToken("file");
     local->constant = true;
 
     emitByte(compiler, OP_OPEN_FILE);
@@ -2639,13 +2643,14 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
+
             tokens[varCount] = compiler->parser->previous;
             variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
             varCount++;
-
-            if (varCount > 255) {
-                error(compiler->parser, "Cannot have more than 255 variables.");
-            }
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_FROM, varCount);
@@ -2690,13 +2695,14 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
+            }
+
             tokens[varCount] = compiler->parser->previous;
             variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
             varCount++;
-
-            if (varCount > 255) {
-                error(compiler->parser, "Cannot have more than 255 variables.");
-            }
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_BUILTIN, index);
@@ -2773,6 +2779,10 @@ static void unpackListStatement(Compiler *compiler){
             return;
         }
         consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+        if (varCount == 255) {
+            error(compiler->parser, "Cannot have more than 255 variables.");
+            return;
+        }
         variables[varCount] = compiler->parser->previous;
         varCount++;
     } while (match(compiler, TOKEN_COMMA));
-- 
2.43.0


From dfd4a1252fd4336d98a5fea7a7d3c47b126b65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 31/87] fix: literals and cases with more elements than an
 operand can count are rejected

---
 src/vm/compiler.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 30e8266..2aed58d 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1127,7 +1127,9 @@ static void list(Compiler *compiler, bool canAssign) {
             break;
 
         expression(compiler);
-        count++;
+        if (++count == 256) {
+            error(compiler->parser, "Cannot have more than 255 elements in a list literal.");
+        }
     } while (match(compiler, TOKEN_COMMA));
 
     emitBytes(compiler, OP_NEW_LIST, count);
@@ -1146,7 +1148,9 @@ static void dict(Compiler *compiler, bool canAssign) {
         expression(compiler);
         consume(compiler, TOKEN_COLON, "Expected ':'");
         expression(compiler);
-        count++;
+        if (++count == 256) {
+            error(compiler->parser, "Cannot have more than 255 elements in a dictionary literal.");
+        }
     } while (match(compiler, TOKEN_COMMA));
 
     emitBytes(compiler, OP_NEW_DICT, count);
@@ -2489,7 +2493,9 @@ static void switchStatement(Compiler *compiler) {
         int multipleCases = 0;
         if(match(compiler, TOKEN_COMMA)) {
             do {
-                multipleCases++;
+                if (++multipleCases == 256) {
+                    error(compiler->parser, "Cannot have more than 256 values in a case.");
+                }
                 expression(compiler);
             } while(match(compiler, TOKEN_COMMA));
             emitBytes(compiler, OP_MULTI_CASE, multipleCases);
-- 
2.43.0


From cee167bc00aaa577724e08494ef4d379f8252ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 32/87] fix: list.pop() rejects an index one past the end

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..9da894b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -135,7 +135,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 2aaf51cb75f70368f25f625df09b9c120246978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 33/87] fix: deleted set entries are tombstones that count
 towards the load

---
 src/include/dictu_ffi_include.h | 1 +
 src/vm/object.c                 | 1 +
 src/vm/object.h                 | 1 +
 src/vm/value.c                  | 8 ++++++--
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index abefa14..85a2eb5 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -394,6 +394,7 @@ struct sObjSet {
     int count;
     int capacityMask;
     SetItem *entries;
+    int tombstones;
 };
 
 struct sObjFile {
diff --git a/src/vm/object.c b/src/vm/object.c
index 5a43cd4..7f5f4c1 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -178,6 +178,7 @@ ObjSet *newSet(DictuVM *vm) {
     set->count = 0;
     set->capacityMask = -1;
     set->entries = NULL;
+    set->tombstones = 0;
     return set;
 }
 
diff --git a/src/vm/object.h b/src/vm/object.h
index 81cfb3c..d3085d8 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -161,6 +161,7 @@ struct sObjSet {
     int count;
     int capacityMask;
     SetItem *entries;
+    int tombstones;
 };
 
 struct sObjFile {
diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..a7b8c3e 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -238,17 +238,19 @@ static void adjustSetCapacity(DictuVM *vm, ObjSet *set, int capacityMask) {
     FREE_ARRAY(vm, SetItem, set->entries, set->capacityMask + 1);
     set->entries = entries;
     set->capacityMask = capacityMask;
+    set->tombstones = 0;
 }
 
 bool setInsert(DictuVM *vm, ObjSet *set, Value value) {
-    if (set->count + 1 > (set->capacityMask + 1) * TABLE_MAX_LOAD) {
+    if (set->count + set->tombstones + 1 > (set->capacityMask + 1) * TABLE_MAX_LOAD) {
         // Figure out the new table size.
         int capacityMask = GROW_CAPACITY(set->capacityMask + 1) - 1;
         adjustSetCapacity(vm, set, capacityMask);
     }
 
     SetItem *entry = findSetEntry(set->entries, set->capacityMask, value);
-    bool isNewKey = IS_EMPTY(entry->value) || entry->deleted;
+    bool isNewKey = IS_EMPTY(entry->value);
+    if (entry->deleted) set->tombstones--;
     entry->value = value;
     entry->deleted = false;
 
@@ -265,6 +267,8 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
 
     // Place a tombstone in the entry.
     set->count--;
+    set->tombstones++;
+    entry->value = EMPTY_VAL;
     entry->deleted = true;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
-- 
2.43.0


From 18162c95b8260129d6d5160e75cbfe310d501f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 34/87] fix: set() rejects values that can not be hashed

---
 src/vm/natives.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/natives.c b/src/vm/natives.c
index 99772f6..9270f9f 100644
--- a/src/vm/natives.c
+++ b/src/vm/natives.c
@@ -20,6 +20,13 @@ static Value typeNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value setNative(DictuVM *vm, int argCount, Value *args) {
+    for (int i = 0; i < argCount; i++) {
+        if (!isValidKey(args[i])) {
+            runtimeError(vm, "Set value must be an immutable type");
+            return EMPTY_VAL;
+        }
+    }
+
     ObjSet *set = newSet(vm);
     push(vm, OBJ_VAL(set));
 
-- 
2.43.0


From 5e1d97c2c6348e5c5b62739794e15e3a5d65bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 35/87] fix: a dict whose keys were all removed is falsey

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1bbd467..df4505b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -830,7 +830,7 @@ bool isFalsey(Value value) {
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
            (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
-           (IS_DICT(value) && AS_DICT(value)->count == 0) ||
+           (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
            (IS_SET(value) && AS_SET(value)->count == 0);
 }
-- 
2.43.0


From 430d24df976778d3df137133baaf397221e42083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 36/87] fix: list.extend() terminates when a list is extended
 with itself

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 9da894b..c1ce126 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,10 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    // The argument may be the list itself, which grows during the loop.
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From b274b273d0d7d218ccbfb1e85a17879f4fbcbb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 37/87] fix: converting a set to a string grows the buffer
 enough for its elements

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 7f5f4c1..dd85e98 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -493,7 +493,7 @@ char *setToString(Value value) {
         }
 
         if (elementSize > (size - setStringLength - 5)) {
-            if (elementSize > size * 2) {
+            if (elementSize > size) {
                 size += elementSize * 2 + 5;
             } else {
                 size = size * 2 + 5;
-- 
2.43.0


From bb28fddf3d96ba06352651b38497885e948f4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 38/87] fix: a string subscript must be a number

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index df4505b..c4e867b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1917,6 +1917,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                 }
 
                 case OBJ_STRING: {
+                    if (!IS_NUMBER(indexValue)) {
+                        RUNTIME_ERROR("String index must be a number.");
+                    }
+
                     ObjString *string = AS_STRING(subscriptValue);
                     int index = AS_NUMBER(indexValue);
 
-- 
2.43.0


From c4c0e635b75707db1ad0e514d3f94a434520a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 39/87] fix: a missing dictionary key does not leak its message

---
 src/vm/vm.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c4e867b..aeee7a8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -941,6 +941,15 @@ static DictuInterpretResult run(DictuVM *vm) {
             return INTERPRET_RUNTIME_ERROR;                                        \
         } while (0)
 
+    #define RUNTIME_ERROR_KEY(key)                                                 \
+        do {                                                                       \
+            STORE_FRAME;                                                           \
+            char *keyString = valueToString(key);                                  \
+            runtimeError(vm, "Key %s does not exist within dictionary.", keyString); \
+            free(keyString);                                                       \
+            return INTERPRET_RUNTIME_ERROR;                                        \
+        } while (0)
+
     #ifdef COMPUTED_GOTO
 
     static void* dispatchTable[] = {
@@ -1953,7 +1962,7 @@ static DictuInterpretResult run(DictuVM *vm) {
                         DISPATCH();
                     }
 
-                    RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                    RUNTIME_ERROR_KEY(indexValue);
                 }
 
                 default: {
@@ -2054,7 +2063,7 @@ static DictuInterpretResult run(DictuVM *vm) {
 
                     Value dictValue;
                     if (!dictGet(dict, indexValue, &dictValue)) {
-                        RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                        RUNTIME_ERROR_KEY(indexValue);
                     }
 
                     vm->stackTop[-1] = dictValue;
-- 
2.43.0


From 5def9efce456a5f680437e6f999b5fcf5a3bf7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 40/87] fix: initialise every field of the receiver's local

---
 src/vm/compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2aed58d..f153540 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -209,6 +209,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
+    local->constant = false;
     if (type == TYPE_METHOD || type == TYPE_INITIALIZER) {
         // In a method, it holds the receiver, "this".
         local->name.start = "this";
-- 
2.43.0


From 0d61a1438aa5ad96837c33f1d6af57a9ee0a7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 41/87] fix: the FFI header describes the path of a file object
 as a string

---
 src/include/dictu_ffi_include.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index 85a2eb5..8e22eff 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -400,8 +400,8 @@ struct sObjSet {
 struct sObjFile {
     Obj obj;
     FILE *file;
-    char *path;
-    char *openType;
+    ObjString *path;
+    ObjString *openType;
 };
 
 typedef void (*AbstractFreeFn)(DictuVM *vm, ObjAbstract *abstract);
-- 
2.43.0


From 4c5896c1da51d4c02f9aeb7cdc8b4930abe2af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 42/87] fix: an FFI library that fails to initialise can be
 collected

---
 src/optionals/ffi/ffi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/ffi/ffi.c b/src/optionals/ffi/ffi.c
index 12577e5..930f769 100644
--- a/src/optionals/ffi/ffi.c
+++ b/src/optionals/ffi/ffi.c
@@ -57,6 +57,11 @@ void *ffi_function_pointers[] = {&copyString,
 
 void freeFFI(DictuVM *vm, ObjAbstract *abstract) {
     FFIInstance *instance = (FFIInstance *)abstract->data;
+
+    // The library could not be initialised
+    if (instance == NULL)
+        return;
+
     free(instance->path);
 #ifdef _WIN32
     FreeLibrary(instance->library);
-- 
2.43.0


From a03453eade2bc386bb400e97cfd34370bf84e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:59 +0000
Subject: [PATCH 43/87] fix: Sqlite.connect() keeps the connection alive while
 its error is copied

---
 src/optionals/sqlite.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 265793b..3c37be1 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -205,16 +205,24 @@ static Value connectSqlite(DictuVM *vm, int argCount, Value *args) {
     sqlite3_busy_timeout(db->db, (int)timeout);
 
     if (err) {
+        // The message belongs to the connection, so keep it alive.
+        push(vm, OBJ_VAL(abstract));
         char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        Value result = newResultError(vm, error);
+        pop(vm);
+        return result;
     }
 
     sqlite3_stmt *res;
     err = sqlite3_prepare_v2(db->db, "PRAGMA foreign_keys = ON;", -1, &res, 0);
 
     if (err) {
+        // The message belongs to the connection, so keep it alive.
+        push(vm, OBJ_VAL(abstract));
         char *error = (char *)sqlite3_errmsg(db->db);
-        return newResultError(vm, error);
+        Value result = newResultError(vm, error);
+        pop(vm);
+        return result;
     }
 
     sqlite3_finalize(res);
-- 
2.43.0


From e9715bf17cd3d49572937d9ed610233200da21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 44/87] fix: a queue traces exactly the values it holds

---
 src/optionals/queue.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..9996f16 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,26 +34,8 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
 
     if (queue == NULL) return;
 
-    if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        return;
-    }
-
-    if (queue->rear + 1 < queue->front) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        for (int i = 0; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-    } else {
-        for (int i = queue->front; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
+    for (int i = 0; i < queue->count; ++i) {
+        grayValue(vm, queue->dq[(queue->front + i) % queue->capacity]);
     }
 }
 
-- 
2.43.0


From 2d8d7279ce6a2b12cfa70f0a9cc2810d214cbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 45/87] fix: a queue keeps its order when it grows while its
 values wrap around

---
 src/optionals/queue.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 9996f16..a408198 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -106,8 +106,16 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int capacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, capacity);
+        queue->capacity = capacity;
+
+        // The values wrap around the old end, so move the first part to the new end.
+        if (queue->front > 0) {
+            int length = oldCapacity - queue->front;
+            memmove(&queue->dq[capacity - length], &queue->dq[queue->front], sizeof(Value) * length);
+            queue->front = capacity - length;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From 11f1dfdf3398578c476f988938222334d991857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 46/87] fix: peek() on an empty queue or stack is an error

---
 src/optionals/queue.c | 7 ++++++-
 src/optionals/stack.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index a408198..f4b8cee 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -92,7 +92,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..0728071 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
-- 
2.43.0


From 5b9be7afbd1a4712a2e6eb6a11cb25e6282fce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 47/87] fix: the capacity of a queue or stack is a whole number

---
 src/optionals/queue.c | 13 +++++++++----
 src/optionals/stack.c |  9 +++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f4b8cee..f910bc3 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "queue.h"
@@ -133,7 +134,7 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
     return NIL_VAL;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity);
+Queue* createQueue(DictuVM *vm, int capacity);
 
 static void shrinkQueue(DictuVM *vm, Queue *queue) {
     int oldCapacity = queue->capacity;
@@ -189,7 +190,7 @@ static Value queuePop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity) {
+Queue* createQueue(DictuVM *vm, int capacity) {
     Queue *queue = ALLOCATE(vm, Queue, 1);
     queue->dq = ALLOCATE(vm, Value, capacity);
     queue->capacity = capacity;
@@ -200,7 +201,7 @@ Queue* createQueue(DictuVM *vm, double capacity) {
     return queue;
 }
 
-ObjAbstract* newQueueObj(DictuVM *vm, double capacity) {
+ObjAbstract* newQueueObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeQueue, queueToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -247,10 +248,14 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
+    if (capacity > INT_MAX) {
+        return newResultError(vm, "capacity is too large");
+    }
+
     return newResultSuccess(vm, OBJ_VAL(newQueueObj(vm, capacity)));
 }
 
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 0728071..cb86765 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "stack.h"
@@ -141,7 +142,7 @@ static Value stackPop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-ObjAbstract* newStackObj(DictuVM *vm, double capacity) {
+ObjAbstract* newStackObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeStack, stackToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -192,10 +193,14 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
+    if (capacity > INT_MAX) {
+        return newResultError(vm, "capacity is too large");
+    }
+
     return OBJ_VAL(newResultSuccess(vm, OBJ_VAL(newStackObj(vm, capacity))));
 }
 
-- 
2.43.0


From d5456466c890d553c2dd432b9e5152bd0a148fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 48/87] fix: Random.range() and Random.select() do not divide
 by zero

---
 src/optionals/random.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 05afe32..6dd6641 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -26,7 +26,13 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
 
     int upper = AS_NUMBER(args[1]);
     int lower = AS_NUMBER(args[0]);
-    int random_val = (rand() % (upper - lower + 1)) + lower;
+
+    if (upper < lower) {
+        runtimeError(vm, "range() first argument must not be greater than the second");
+        return EMPTY_VAL;
+    }
+
+    int random_val = (rand() % ((long long) upper - lower + 1)) + lower;
     return NUMBER_VAL(random_val);
 }
 
@@ -45,6 +51,11 @@ static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
     argCount = list->values.count;
     args = list->values.values;
 
+    if (argCount == 0) {
+        runtimeError(vm, "select() argument must not be an empty list");
+        return EMPTY_VAL;
+    }
+
     int index = rand() % argCount;
     return args[index];
 }
-- 
2.43.0


From e949abfae2653810fbade4eaa1c7c3ba87f09d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 49/87] fix: rightStrip() of a blank string is empty

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 90b3710..4bbe1c1 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -503,7 +503,7 @@ static Value rightStripString(DictuVM *vm, int argCount, Value *args) {
     int length;
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (length = string->length - 1; length > 0; --length) {
+    for (length = string->length - 1; length >= 0; --length) {
         if (!isspace(string->chars[length])) {
             break;
         }
-- 
2.43.0


From df618cdc9efc9e80c5a31ade99007e6a2a20f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 50/87] fix: an annotation dictionary rejects a list as a key

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index f153540..2390010 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1737,7 +1737,7 @@ static Value parseDict(Compiler *compiler) {
 
         Value key = parseValue(compiler);
 
-        if (IS_EMPTY(key) || IS_DICT(key)) {
+        if (!isValidKey(key)) {
             errorAtCurrent(compiler->parser, "Invalid key type for annotation dictionary, allowed: bool, number, string, nil");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 264d3d9fe8bfbdfd8c2cdd8f637f1a284e6d4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 51/87] fix: a rejected annotation leaves nothing on the
 operand stack

---
 src/vm/compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2390010..61c8256 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1739,6 +1739,7 @@ static Value parseDict(Compiler *compiler) {
 
         if (!isValidKey(key)) {
             errorAtCurrent(compiler->parser, "Invalid key type for annotation dictionary, allowed: bool, number, string, nil");
+            pop(vm);
             return EMPTY_VAL;
         }
 
@@ -1748,6 +1749,8 @@ static Value parseDict(Compiler *compiler) {
         Value value = parseValue(compiler);
         if (IS_EMPTY(value)) {
             errorAtCurrent(compiler->parser, "Invalid value type for annotation dictionary, allowed: dict, list, bool, number, string, nil");
+            pop(vm);
+            pop(vm);
             return EMPTY_VAL;
         }
 
@@ -1778,6 +1781,7 @@ static Value parseList(Compiler *compiler) {
 
         if (IS_EMPTY(value)) {
             errorAtCurrent(compiler->parser, "Invalid value type for annotation list, allowed: dict, list, bool, number, string, nil");
+            pop(vm);
             return EMPTY_VAL;
         }
 
@@ -1807,6 +1811,7 @@ static void parseAnnotations(Compiler *compiler, ObjDict *annotationDict) {
             if (!checkLiteralToken(compiler)) {
                 errorAtCurrent(compiler->parser,
                                "Annotations can only have literal values of type string, bool, number or nil.");
+                pop(vm);
                 return;
             }
 
-- 
2.43.0


From 4b375e1701270dcebb0abad2cde6746f43056ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 52/87] fix: a dictionary with removed keys prints no trailing
 comma

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index dd85e98..52749db 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -453,7 +453,7 @@ char *dictToString(Value value) {
            free(element);
        }
 
-       if (count != dict->count) {
+       if (count != dict->activeCount) {
            memcpy(dictString + dictStringLength, ", ", 2);
            dictStringLength += 2;
        }
-- 
2.43.0


From e8288b26cdecef5a81a976f4f67722ae6f779d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:57 +0000
Subject: [PATCH 53/87] fix: a shallow copy of an instance has its private
 attributes

---
 src/vm/datatypes/copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c1862da..c36f3dd 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -69,6 +69,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
 
     if (shallow) {
         tableAddAll(vm, &oldInstance->publicAttributes, &instance->publicAttributes);
+        tableAddAll(vm, &oldInstance->privateAttributes, &instance->privateAttributes);
     } else {
         for (int i = 0; i < oldInstance->publicAttributes.capacity; i++) {
             Entry *entry = &oldInstance->publicAttributes.entries[i];
-- 
2.43.0


From be96d9b2ae0ad44b2636892001d8a16c8d28c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 54/87] fix: lcm() of zero and gcd() of negative numbers

---
 src/optionals/math.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 222de00..a1c7650 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -241,6 +241,8 @@ static Value tanNative(DictuVM *vm, int argCount, Value *args) {
 
 static long long gcd(long long a, long long b) {
     long long r;
+    if (a < 0) a = -a;
+    if (b < 0) b = -b;
     while (b > 0) {
         r = a % b;
         a = b;
@@ -296,7 +298,10 @@ static Value gcdNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 long long lcm(long long a, long long b) {
-    return (a * b) / gcd(a, b);
+    if (a == 0 || b == 0) return 0;
+
+    long long multiple = a / gcd(a, b) * b;
+    return multiple < 0 ? -multiple : multiple;
 }
 
 static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From b0cd4cf7bfe82433f969aef3cc6e665a7d15fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 55/87] fix: constant folding matched operand bytes and only
 looked at the last token

---
 src/vm/compiler.c | 67 +++++++++++++++++++++++++++++++----------------
 src/vm/compiler.h |  5 ++++
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 61c8256..85ce743 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -163,6 +163,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->class = NULL;
     compiler->loop = NULL;
     compiler->withBlock = false;
+    compiler->operandStart = 0;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
     compiler->fieldAnnotations = NULL;
@@ -489,14 +490,31 @@ static void and_(Compiler *compiler, LangToken previousToken, bool canAssign) {
     patchJump(compiler, endJump);
 }
 
-static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
+// Whether the code in [start, end) is exactly one instruction loading a number.
+static bool isNumberConstant(Chunk *chunk, int start, int end) {
+    return end - start == 2 &&
+           chunk->code[start] == OP_CONSTANT &&
+           IS_NUMBER(chunk->constants.values[chunk->code[start + 1]]);
+}
+
+static bool foldBinary(Compiler *compiler, LangTokenType operatorType, int left, int right) {
+    Chunk *current = currentChunk(compiler);
+
+    // Only fold when both operands are number literals and nothing else.
+    if (!isNumberConstant(current, left, right) || !isNumberConstant(current, right, current->count)) {
+        return false;
+    }
+
+    // The literal on the right has to be the last constant for it to be dropped.
+    if (current->code[right + 1] != current->constants.count - 1) {
+        return false;
+    }
+
 #define FOLD(operator)                                                         \
     do {                                                                       \
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             AS_NUMBER(chunk->constants.values[constant]) operator              \
             AS_NUMBER(chunk->constants.values[index])                          \
@@ -511,8 +529,6 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             func(                                                              \
                 AS_NUMBER(chunk->constants.values[constant]),                  \
@@ -564,20 +580,18 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
 }
 
 static void binary(Compiler *compiler, LangToken previousToken, bool canAssign) {
+    UNUSED(previousToken);
     UNUSED(canAssign);
 
     LangTokenType operatorType = compiler->parser->previous.type;
+    int left = compiler->operandStart;
+    int right = currentChunk(compiler)->count;
 
     ParseRule *rule = getRule(operatorType);
     parsePrecedence(compiler, (Precedence) (rule->precedence + 1));
 
-    LangTokenType currentToken = compiler->parser->previous.type;
-
     // Attempt constant fold.
-    if ((previousToken.type == TOKEN_NUMBER) &&
-        (currentToken == TOKEN_NUMBER || currentToken == TOKEN_LEFT_PAREN) &&
-        foldBinary(compiler, operatorType)
-            ) {
+    if (foldBinary(compiler, operatorType, left, right)) {
         return;
     }
 
@@ -1405,18 +1419,21 @@ static void useStatement(Compiler *compiler) {
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after use statement.");
 }
 
-static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
-    LangTokenType valueToken = compiler->parser->previous.type;
+static bool foldUnary(Compiler *compiler, LangTokenType operatorType, int operand) {
+    Chunk *chunk = currentChunk(compiler);
 
     switch (operatorType) {
         case TOKEN_NOT: {
-            if (valueToken == TOKEN_TRUE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_FALSE;
+            // Only fold when the operand is a boolean literal and nothing else.
+            if (chunk->count - operand != 1) {
+                return false;
+            }
+
+            if (chunk->code[operand] == OP_TRUE) {
+                chunk->code[operand] = OP_FALSE;
                 return true;
-            } else if (valueToken == TOKEN_FALSE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_TRUE;
+            } else if (chunk->code[operand] == OP_FALSE) {
+                chunk->code[operand] = OP_TRUE;
                 return true;
             }
 
@@ -1424,9 +1441,8 @@ static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_MINUS: {
-            if (valueToken == TOKEN_NUMBER) {
-                Chunk *chunk = currentChunk(compiler);
-                uint8_t constant = chunk->code[chunk->count - 1];
+            if (isNumberConstant(chunk, operand, chunk->count)) {
+                uint8_t constant = chunk->code[operand + 1];
                 chunk->constants.values[constant] = NUMBER_VAL(-AS_NUMBER(chunk->constants.values[constant]));
                 return true;
             }
@@ -1444,10 +1460,11 @@ static void unary(Compiler *compiler, bool canAssign) {
     UNUSED(canAssign);
 
     LangTokenType operatorType = compiler->parser->previous.type;
+    int operand = currentChunk(compiler)->count;
     parsePrecedence(compiler, PREC_UNARY);
 
     // Constant fold.
-    if (foldUnary(compiler, operatorType)) {
+    if (foldUnary(compiler, operatorType, operand)) {
         return;
     }
 
@@ -1551,6 +1568,9 @@ static void parsePrecedence(Compiler *compiler, Precedence precedence) {
         return;
     }
 
+    // Where the code of the left operand of any infix operator starts.
+    int operandStart = currentChunk(compiler)->count;
+
     bool canAssign = precedence <= PREC_ASSIGNMENT;
     prefixRule(compiler, canAssign);
 
@@ -1558,6 +1578,7 @@ static void parsePrecedence(Compiler *compiler, Precedence precedence) {
         LangToken token = compiler->parser->previous;
         advance(parser);
         ParseInfixFn infixRule = getRule(parser->previous.type)->infix;
+        compiler->operandStart = operandStart;
         infixRule(compiler, token, canAssign);
     }
 
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 13ff573..232b798 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -101,6 +101,11 @@ typedef struct Compiler {
 
     int scopeDepth;
     bool withBlock;
+
+    // Where the code of the left operand of the infix operator being
+    // compiled starts.
+    int operandStart;
+
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
     ObjDict *fieldAnnotations;
-- 
2.43.0


From 00bbfb610e94944a4f1cf6e12bc725efbfb855ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 56/87] fix: operand sizes used to find break statements in a
 loop

---
 src/vm/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 85ce743..19fefbb 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2284,7 +2284,6 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_GET_PRIVATE_ATTRIBUTE_NO_POP:
         case OP_SET_ATTRIBUTE:
         case OP_SET_PRIVATE_ATTRIBUTE:
-        case OP_SET_CLASS_VAR:
         case OP_SET_INIT_ATTRIBUTES:
         case OP_SET_PRIVATE_INIT_ATTRIBUTES:
         case OP_GET_SUPER:
@@ -2294,6 +2293,8 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_NEW_DICT:
         case OP_CLOSE_FILE:
         case OP_MULTI_CASE:
+        case OP_ENUM:
+        case OP_SET_ENUM_VALUE:
         case OP_DEFINE_CLASS_ANNOTATIONS:
         case OP_DEFINE_METHOD_ANNOTATIONS:
         case OP_DEFINE_FIELD_ANNOTATIONS:
@@ -2307,6 +2308,7 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_LOOP:
         case OP_CLASS:
         case OP_SUBCLASS:
+        case OP_SET_CLASS_VAR:
         case OP_IMPORT_BUILTIN:
         case OP_CALL:
             return 2;
-- 
2.43.0


From 0f70e272f345eb310697927d033e5550d6e9c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 57/87] fix: line number format in compile errors

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 19fefbb..852078a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -33,7 +33,7 @@ static void errorAt(Parser *parser, LangToken *token, const char *message) {
             log_padln("Error: %s", message);
             break;
         default:
-            log_padln("%zu %s %.*s", token->line, "|", token->length, token->start);
+            log_padln("%d %s %.*s", token->line, "|", token->length, token->start);
             log_padln("%s", message);
             break;
     }
-- 
2.43.0


From 4ddb12b9b9dfd139a2c28a89271a19f05981ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 58/87] fix: padding width type in error log

---
 src/vm/error_lib/error.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vm/error_lib/error.c b/src/vm/error_lib/error.c
index a094328..0751008 100644
--- a/src/vm/error_lib/error.c
+++ b/src/vm/error_lib/error.c
@@ -31,7 +31,7 @@ log_fmt_parse(const size_t dst_size, char *dst,
 
             const size_t end = --src_i;
 
-#ifdef _WIN32
+#ifdef _WIN32
             static const struct TextAttr attrs[] = {
                 { "reset",     ""  },
                 { "bold",      ""  },
@@ -46,8 +46,8 @@ log_fmt_parse(const size_t dst_size, char *dst,
                 { "magenta",   ""  },
                 { "cyan",      ""  },
                 { "white",     ""  }
-            };
-#else // _WIN32
+            };
+#else // _WIN32
             static const struct TextAttr attrs[] = {
                 { "reset",     "\033[0m"  },
                 { "bold",      "\033[1m"  },
@@ -145,7 +145,7 @@ vlog(const enum LogType type, const char *fmt, va_list args, const bool newline)
     if (type == LOG_NONE)
         {}
     else if (type == LOG_PAD)
-        last_printed_length = internal_prettylog(stderr, "%*.s", last_printed_length, "");
+        last_printed_length = internal_prettylog(stderr, "%*.s", (int) last_printed_length, "");
     else
         last_printed_length = internal_prettylog(stderr, prefix[type].attr, prefix[type].name);
 
-- 
2.43.0


From 44e41f1bc6a0f3eb8891c2c6210514323a638a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 59/87] fix: space for separators in HTTP POST arguments

---
 src/optionals/http/http.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 999e1a3..14d6ba9 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -305,8 +305,9 @@ static char *dictToPostArgs(ObjDict *dict) {
         int keyLen = strlen(key);
         int valLen = strlen(value);
 
-        if (currentLen + keyLen + valLen > len) {
-            len = len * 2 + keyLen + valLen;
+        // The separators and the terminator need room as well.
+        if (currentLen + keyLen + valLen + 3 > len) {
+            len = len * 2 + keyLen + valLen + 3;
             ret = realloc(ret, len);
 
             if (ret == NULL) {
-- 
2.43.0


From d4f1f4815ebc321d4f1c9c9c01ce453f272e616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 60/87] fix: a # that does not start a shebang line hangs the
 scanner

---
 src/vm/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 61f4048..ef1ea09 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -86,6 +86,8 @@ static void skipWhitespace(Scanner *scanner) {
                 if (peekNext(scanner) == '!') {
                     // Ignore shebang line
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
+                } else {
+                    return;
                 }
                 break;
             case '/':
-- 
2.43.0


From bb75efb20e1295124f8ec77ffacd17e9ca55a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 61/87] fix: scanner reads past the end after a backslash at
 the end of the source

---
 src/vm/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index ef1ea09..81ea678 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -346,6 +346,8 @@ static LangToken string(Scanner *scanner, char stringToken) {
             scanner->line++;
         } else if (peek(scanner) == '\\' && !scanner->rawString) {
             scanner->current++;
+            // Nothing follows the backslash.
+            if (isAtEnd(scanner)) break;
         }
         advance(scanner);
     }
-- 
2.43.0


From edbf38f96228dedcdd6e103a17e6e43bb4e0e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 62/87] fix: \x escape at the end of a string reads past the
 string

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 852078a..5495b05 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1053,7 +1053,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     break;
                 }
                 case 'x': {
-                    if (string[i + 2] == '\0' || string[i + 3] == '\0') {
+                    if (i + 3 >= length) {
                         error(parser, "\\x escape code expects format \\xhh");
                         break;
                     }
-- 
2.43.0


From 928a94ab5fda5a90a22a15e90b6ea7e927ef16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 63/87] fix: reparsing a statement rewound the scanner by the
 wrong number of characters

---
 src/vm/compiler.c | 48 ++++++++++-------------------------------------
 src/vm/scanner.c  |  4 ----
 src/vm/scanner.h  |  2 --
 3 files changed, 10 insertions(+), 44 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 5495b05..2cae2cf 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -61,10 +61,11 @@ static void advance(Parser *parser) {
     }
 }
 
-static void recede(Parser *parser){
-    for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-    }
+// Makes the scanner continue right after the given token.
+static void rewindTo(Parser *parser, const LangToken *token) {
+    parser->scanner.current = token->start + token->length;
+    parser->scanner.line = token->line;
+    parser->scanner.rawString = token->type == TOKEN_R;
 }
 
 static void consume(Compiler *compiler, LangTokenType type, const char *message) {
@@ -2217,9 +2218,7 @@ static void expressionStatement(Compiler *compiler) {
     advance(compiler->parser);
     LangTokenType t = compiler->parser->current.type;
 
-    for (int i = 0; i < compiler->parser->current.length; ++i) {
-        backTrack(&compiler->parser->scanner);
-    }
+    rewindTo(compiler->parser, &compiler->parser->previous);
     compiler->parser->current = compiler->parser->previous;
     compiler->parser->previous = previous;
 
@@ -2801,14 +2800,7 @@ static void unpackListStatement(Compiler *compiler){
     LangToken previous=compiler->parser->previous;
     do {
         if(!check(compiler,TOKEN_IDENTIFIER)){
-            if(varCount>0){
-                recede(compiler->parser);
-            }
-            int varsAndCommas=varCount+(varCount-1);
-            for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-            }
-            recede(compiler->parser);
+            rewindTo(compiler->parser, &previous);
             compiler->parser->current=previous;
             expressionStatement(compiler);
             return;
@@ -2825,12 +2817,7 @@ static void unpackListStatement(Compiler *compiler){
     consume(compiler, TOKEN_RIGHT_BRACKET, "Expect ']' after list destructure.");
 
     if(!check(compiler, TOKEN_EQUAL)){
-        recede(compiler->parser);
-        int varsAndCommas=varCount+(varCount-1);
-        for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-        }
-        recede(compiler->parser);
+        rewindTo(compiler->parser, &previous);
         compiler->parser->current=previous;
         expressionStatement(compiler);
         return;
@@ -2953,30 +2940,15 @@ static void statement(Compiler *compiler) {
         // Advance the parser to the next token
         advance(parser);
 
-        if (check(compiler, TOKEN_RIGHT_BRACE)) {
-            if (check(compiler, TOKEN_SEMICOLON)) {
-                backTrack(&parser->scanner);
-                backTrack(&parser->scanner);
-                parser->current = previous;
-                expressionStatement(compiler);
-                return;
-            }
-        }
-
         if (check(compiler, TOKEN_COLON)) {
-            for (int i = 0; i < parser->current.length + parser->previous.length; ++i) {
-                backTrack(&parser->scanner);
-            }
-
+            rewindTo(parser, &previous);
             parser->current = previous;
             expressionStatement(compiler);
             return;
         }
 
         // Reset the scanner to the previous position
-        for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-        }
+        rewindTo(parser, &curtok);
 
         // Reset the parser
         parser->previous = previous;
diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 81ea678..255d6bd 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -359,10 +359,6 @@ static LangToken string(Scanner *scanner, char stringToken) {
     return makeToken(scanner,TOKEN_STRING);
 }
 
-void backTrack(Scanner *scanner) {
-    scanner->current--;
-}
-
 LangToken scanToken(Scanner *scanner) {
     skipWhitespace(scanner);
 
diff --git a/src/vm/scanner.h b/src/vm/scanner.h
index 4215ed9..95c94da 100644
--- a/src/vm/scanner.h
+++ b/src/vm/scanner.h
@@ -63,8 +63,6 @@ typedef struct {
 
 void initScanner(Scanner *scanner, const char *source);
 
-void backTrack(Scanner *scanner);
-
 LangToken scanToken(Scanner *scanner);
 
 #endif
-- 
2.43.0


From d0154964db298e5bdbf89083584d06f329174c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:17 +0000
Subject: [PATCH 64/87] fix: a newline after a backslash in a string is not
 counted as a line

---
 src/vm/scanner.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 255d6bd..1b4be6f 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -348,6 +348,9 @@ static LangToken string(Scanner *scanner, char stringToken) {
             scanner->current++;
             // Nothing follows the backslash.
             if (isAtEnd(scanner)) break;
+            if (peek(scanner) == '\n') {
+                scanner->line++;
+            }
         }
         advance(scanner);
     }
-- 
2.43.0


From ab24efe90ba455030684966033dd224f0c3c0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:44 +0000
Subject: [PATCH 65/87] fix: HTTP requests release their header list and give
 up cleanly when a header is not a string

---
 src/optionals/http/http.c | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 14d6ba9..0d0b6e5 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -338,7 +338,7 @@ static char *dictToPostArgs(ObjDict *dict) {
     return ret;
 }
 
-static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl, ObjList *headers) {
+static bool setRequestHeaders(DictuVM *vm, struct curl_slist **list, CURL *curl, ObjList *headers) {
     if (headers->values.count == 0) {
         return true;
     }
@@ -349,10 +349,10 @@ static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl,
             return false;
         }
 
-        list = curl_slist_append(list, AS_CSTRING(headers->values.values[i]));
+        *list = curl_slist_append(*list, AS_CSTRING(headers->values.values[i]));
     }
 
-    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, list);
+    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, *list);
 
     return true;
 }
@@ -458,8 +458,12 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -564,8 +568,12 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -680,8 +688,12 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -782,8 +794,12 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -872,8 +888,12 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -1362,8 +1382,10 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, httpClient->curl, headers)) {
+            if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
+                // Pop headers from createResponse
+                pop(vm);
                 return EMPTY_VAL;
             }
         }
-- 
2.43.0


From 0d8e5ea735492a4efc393ee14589403434a814a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:44 +0000
Subject: [PATCH 66/87] fix: HttpClient.options() keeps the handle of its
 client

---
 src/optionals/http/http.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 0d0b6e5..0f63f0a 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1348,7 +1348,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    if (argCount == 4) {
+    if (argCount == 3) {
         if (!IS_NUMBER(args[3])) {
             runtimeError(vm, "Timeout passed to options() must be a number.");
             return EMPTY_VAL;
@@ -1358,7 +1358,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         argCount--;
     }
 
-    if (argCount == 3) {
+    if (argCount == 2) {
         if (!IS_LIST(args[2])) {
             runtimeError(vm, "Headers passed to options() must be a list.");
             return EMPTY_VAL;
@@ -1404,27 +1404,21 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (headers) {
+            curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, NULL);
             curl_slist_free_all(list);
         }
 
         /* Check for errors */
         if (curlResponse != CURLE_OK) {
-            /* always cleanup */
-            curl_easy_cleanup(httpClient->curl);
-            curl_global_cleanup();
             pop(vm);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
         }
 
-        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, true)));
+        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    /* always cleanup */
-    curl_easy_cleanup(httpClient->curl);
-    curl_global_cleanup();
-
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
     return newResultError(vm, errorString);
 }
-- 
2.43.0


From d90dc2acd6070ba42c1700a592e3ec48f6a79a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 67/87] fix: an HTTP client owns its handle and its header list
 from the start

---
 src/optionals/http/http.c | 50 ++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 0f63f0a..e234934 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -939,16 +939,16 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
 
 typedef struct {
     CURL *curl;
+    struct curl_slist *headers;
 } HttpClient;
 
 #define AS_HTTP_CLIENT(v) ((HttpClient*)AS_ABSTRACT(v)->data)
 
-struct curl_slist *headerChunk = NULL;
-
 void freeHttpClient(DictuVM *vm, ObjAbstract *abstract) {
     HttpClient *httpClient = (HttpClient*)abstract->data;
     
     curl_easy_cleanup(httpClient->curl);
+    curl_slist_free_all(httpClient->headers);
     curl_global_cleanup();
 
     FREE(vm, HttpClient, abstract->data);
@@ -1028,6 +1028,18 @@ static Value httpClientSetFollowRedirects(DictuVM *vm, int argCount, Value *args
     return NIL_VAL;
 }
 
+static void setClientHeaders(HttpClient *httpClient, ObjList *headers) {
+    struct curl_slist *list = NULL;
+
+    for (int h = 0; h < headers->values.count; h++) {
+        list = curl_slist_append(list, AS_CSTRING(headers->values.values[h]));
+    }
+
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, list);
+    curl_slist_free_all(httpClient->headers);
+    httpClient->headers = list;
+}
+
 static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "setHeaders() takes 1 argument (%d given).", argCount);
@@ -1050,13 +1062,7 @@ static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    headerChunk = NULL;
-
-    for (int h = 0; h < headers->values.count; h++) {
-        headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
-    }
-    
-    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
+    setClientHeaders(httpClient, headers);
 
     return NIL_VAL;
 }
@@ -1404,7 +1410,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (headers) {
-            curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, NULL);
+            curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, httpClient->headers);
             curl_slist_free_all(list);
         }
 
@@ -1429,7 +1435,9 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
     HttpClient *httpClient = ALLOCATE(vm, HttpClient, 1);
     httpClient->curl = curl_easy_init();
-    
+    httpClient->headers = NULL;
+    abstract->data = httpClient;
+
     curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
     curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
 
@@ -1447,6 +1455,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                 key = s->chars;
             } else {
                 runtimeError(vm, "HTTP client options key must be a string");
+                pop(vm);
                 return EMPTY_VAL;
             }
 
@@ -1456,6 +1465,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                 }
                 if (!IS_NUMBER(entry->value)) {
                     runtimeError(vm, "HTTP client option \"timeout\" value must be a number");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1467,16 +1477,21 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_LIST(entry->value)) {
                     runtimeError(vm, "HTTP client option \"headers\" value must be a list");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
                 ObjList *headers = AS_LIST(entry->value);
 
                 for (int h = 0; h < headers->values.count; h++) {
-                    headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+                    if (!IS_STRING(headers->values.values[h])) {
+                        runtimeError(vm, "HTTP client option \"headers\" must only contain strings");
+                        pop(vm);
+                        return EMPTY_VAL;
+                    }
                 }
-                
-                curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
+
+                setClientHeaders(httpClient, headers);
             } else if (strstr(key, "insecure")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1484,6 +1499,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_BOOL(entry->value)) {
                     runtimeError(vm, "HTTP client option \"insecure\" value must be a bool");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1499,6 +1515,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_BOOL(entry->value)) {
                     runtimeError(vm, "HTTP client option \"follow_redirects\" value must be a bool");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1512,6 +1529,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option \"keyFile\" value must be a string");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1528,6 +1546,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option \"certFile\" value must be a string");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1544,6 +1563,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option key \"keyPasswd\" value must be a string");
+                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1557,8 +1577,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
         }
     }
 
-    abstract->data = httpClient;
-
     /**
      * Setup HTTP object methods
      */
-- 
2.43.0


From d9568461057f5b9aec9271d654106eb1f3e888ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 68/87] fix: a failed HTTP request releases what it had
 received

---
 src/optionals/http/http.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index e234934..56da12f 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -246,6 +246,16 @@ static void createResponse(DictuVM *vm, Response *response) {
     response->firstIteration = true;
 }
 
+static void dropResponse(Response *response) {
+    if (response->res != NULL) {
+        FREE_ARRAY(response->vm, char, response->res, response->len + 1);
+        response->res = NULL;
+    }
+
+    // Pop headers from createResponse
+    pop(response->vm);
+}
+
 static size_t writeResponse(char *ptr, size_t size, size_t nmemb, void *data) {
     Response *response = (Response *) data;
     size_t new_len = response->len + size * nmemb;
@@ -489,7 +499,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -609,7 +619,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -730,7 +740,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -824,7 +834,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -920,7 +930,7 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1150,7 +1160,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1218,7 +1228,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1288,7 +1298,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1330,7 +1340,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1416,7 +1426,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
         /* Check for errors */
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            dropResponse(&response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
-- 
2.43.0


From 90ffffc76637d6ff5b6e920aca68bfc92bc4ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 69/87] fix: collapseSpaces() accounts for the block it hands
 over

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 4bbe1c1..075cc9a 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -708,7 +708,7 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
 
     temp[j] = '\0';
 
-    if (i != j) {
+    if (j != string->length) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
     }
 
-- 
2.43.0


From a22f829b2b1917955f88d86e76b2e4cc2e59d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 70/87] fix: a socket is closed exactly once, at the latest
 when it is freed

---
 src/optionals/socket.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index d7251d0..6ba480a 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -254,7 +254,10 @@ static Value closeSocket(DictuVM *vm, int argCount, Value *args) {
     }
 
     SocketData *sock = AS_SOCKET(args[0]);
-    close(sock->socket);
+    if (sock->socket != -1) {
+        close(sock->socket);
+        sock->socket = -1;
+    }
 
     return NIL_VAL;
 }
@@ -282,6 +285,11 @@ static Value setSocketOpt(DictuVM *vm, int argCount, Value *args) {
 }
 
 void freeSocket(DictuVM *vm, ObjAbstract *abstract) {
+    SocketData *sock = (SocketData*)abstract->data;
+    if (sock->socket != -1) {
+        close(sock->socket);
+    }
+
     FREE(vm, SocketData, abstract->data);
 }
 
-- 
2.43.0


From 6b682ec68b65836a0172f6c75c3e16bdda46bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 71/87] fix: Process.run() releases its arguments and pipe and
 keeps its output within the buffer

---
 src/optionals/process.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 3e92f27..0019da9 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -143,6 +143,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
@@ -158,6 +159,10 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
 
+    if (pid == -1) {
+        ERROR_RESULT;
+    }
+
     if (wait) {
         int status = 0;
         waitpid(pid, &status, 0);
@@ -174,6 +179,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
@@ -184,6 +190,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     int fd[2];
     if (pipe(fd) != 0) {
+        FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
         ERROR_RESULT;
     }
     pid_t pid = fork();
@@ -201,10 +208,8 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     close(fd[1]);
 
-    int status = 0;
-    waitpid(pid, &status, 0);
-
-    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+    if (pid == -1) {
+        close(fd[0]);
         ERROR_RESULT;
     }
 
@@ -214,8 +219,9 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     int total = 0;
     int numRead;
 
-    while ((numRead = read(fd[0], buffer, 1024)) != 0) {
-        if (total >= size) {
+    // The output is read before waiting: the pipe only holds so much.
+    while ((numRead = read(fd[0], buffer, 1024)) > 0) {
+        if (total + numRead + 1 > size) {
             output = GROW_ARRAY(vm, output, char, size, size * 3);
             size *= 3;
         }
@@ -224,6 +230,16 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         total += numRead;
     }
 
+    close(fd[0]);
+
+    int status = 0;
+    waitpid(pid, &status, 0);
+
+    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        FREE_ARRAY(vm, char, output, size);
+        ERROR_RESULT;
+    }
+
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
     output[total] = '\0';
 
-- 
2.43.0


From 503aa4a83e02d6118081b730c7708c947200c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:59 +0000
Subject: [PATCH 72/87] fix: HTTP option errors leave the operand stack the way
 the error reset it

---
 src/optionals/http/http.c | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 56da12f..1e56a63 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -472,8 +472,6 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -582,8 +580,6 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -702,8 +698,6 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -808,8 +802,6 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -902,8 +894,6 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
                 curl_slist_free_all(list);
                 curl_easy_cleanup(curl);
                 curl_global_cleanup();
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -1400,8 +1390,6 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         if (headers) {
             if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
-                // Pop headers from createResponse
-                pop(vm);
                 return EMPTY_VAL;
             }
         }
@@ -1465,7 +1453,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                 key = s->chars;
             } else {
                 runtimeError(vm, "HTTP client options key must be a string");
-                pop(vm);
                 return EMPTY_VAL;
             }
 
@@ -1475,7 +1462,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                 }
                 if (!IS_NUMBER(entry->value)) {
                     runtimeError(vm, "HTTP client option \"timeout\" value must be a number");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1487,7 +1473,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_LIST(entry->value)) {
                     runtimeError(vm, "HTTP client option \"headers\" value must be a list");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1496,7 +1481,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                 for (int h = 0; h < headers->values.count; h++) {
                     if (!IS_STRING(headers->values.values[h])) {
                         runtimeError(vm, "HTTP client option \"headers\" must only contain strings");
-                        pop(vm);
                         return EMPTY_VAL;
                     }
                 }
@@ -1509,7 +1493,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_BOOL(entry->value)) {
                     runtimeError(vm, "HTTP client option \"insecure\" value must be a bool");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1525,7 +1508,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_BOOL(entry->value)) {
                     runtimeError(vm, "HTTP client option \"follow_redirects\" value must be a bool");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1539,7 +1521,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option \"keyFile\" value must be a string");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1556,7 +1537,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option \"certFile\" value must be a string");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
@@ -1573,7 +1553,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 
                 if (!IS_STRING(entry->value)) {
                     runtimeError(vm, "HTTP client option key \"keyPasswd\" value must be a string");
-                    pop(vm);
                     return EMPTY_VAL;
                 }
 
-- 
2.43.0


From 96280939152a4052b8338392e8e7cf6fb70048f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:57 +0000
Subject: [PATCH 73/87] fix: Log.setPrefix() releases the prefix it replaces

---
 src/optionals/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 7642396..ce30b2f 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -138,6 +138,7 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
     
+    free(log->prefix);
     log->prefix = strdup(prefix);
 
     return NIL_VAL;
-- 
2.43.0


From a2ecc7a7cf4f4adeb85b25125a9ef855146cfa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:51 +0000
Subject: [PATCH 74/87] fix: 'private' and 'static' are not expressions

---
 src/vm/compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2cae2cf..f67db23 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1395,6 +1395,8 @@ static void private_(Compiler *compiler, bool canAssign) {
         error(compiler->parser, "Cannot utilise 'private' outside of a class.");
     } else if (compiler->class->abstractClass) {
         error(compiler->parser, "Cannot utilise 'private' inside of an abstract class.");
+    } else {
+        error(compiler->parser, "Expect expression.");
     }
 }
 
@@ -1403,6 +1405,8 @@ static void static_(Compiler *compiler, bool canAssign) {
 
     if (compiler->class == NULL) {
         error(compiler->parser, "Cannot utilise 'static' outside of a class.");
+    } else {
+        error(compiler->parser, "Expect expression.");
     }
 }
 
-- 
2.43.0


From 40855d76275ded25d4734eb3ef5dab88b6888108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:16 +0000
Subject: [PATCH 75/87] fix: the superclass of a class in a local scope has its
 own slot

---
 src/vm/compiler.c | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index f67db23..d2fe4f2 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2025,28 +2025,32 @@ static void parseClassBody(Compiler *compiler) {
     }
 }
 
+// Compiles the superclass, and stores it in a local variable named "super"
+// of the scope the class is declared in.
+static void superclass(Compiler *compiler, ClassCompiler *classCompiler) {
+    expression(compiler);
+    classCompiler->hasSuperclass = true;
+
+    addLocal(compiler, syntheticToken("super"));
+    compiler->locals[compiler->localCount - 1].depth = compiler->scopeDepth;
+}
+
 static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken name = compiler->parser->previous;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, false);
 
     if (match(compiler, TOKEN_LESS)) {
-        expression(compiler);
-        classCompiler.hasSuperclass = true;
-
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
-        addLocal(compiler, syntheticToken("super"));
-
+        superclass(compiler, &classCompiler);
         emitBytes(compiler, OP_SUBCLASS, CLASS_DEFAULT);
     } else {
         emitBytes(compiler, OP_CLASS, CLASS_DEFAULT);
     }
     emitByte(compiler, nameConstant);
+    declareVariable(compiler, &name);
 
     consume(compiler, TOKEN_LEFT_BRACE, "Expect '{' before class body.");
 
@@ -2055,8 +2059,6 @@ static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-
         // If there's a super class, check abstract methods have been defined
         emitByte(compiler, OP_END_CLASS);
     }
@@ -2070,25 +2072,19 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name after class keyword.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken name = compiler->parser->previous;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, true);
 
     if (match(compiler, TOKEN_LESS)) {
-        expression(compiler);
-        classCompiler.hasSuperclass = true;
-
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
-        addLocal(compiler, syntheticToken("super"));
-
+        superclass(compiler, &classCompiler);
         emitBytes(compiler, OP_SUBCLASS, CLASS_ABSTRACT);
     } else {
         emitBytes(compiler, OP_CLASS, CLASS_ABSTRACT);
     }
     emitByte(compiler, nameConstant);
+    declareVariable(compiler, &name);
 
     consume(compiler, TOKEN_LEFT_BRACE, "Expect '{' before class body.");
 
@@ -2096,12 +2092,8 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
-    if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-    }
-
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void traitDeclaration(Compiler *compiler) {
-- 
2.43.0


From 7548c2eec83f98a318b3fc70074dec5f10753c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:23 +0000
Subject: [PATCH 76/87] fix: the branch of a control structure has its own
 scope

---
 src/vm/compiler.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index d2fe4f2..04e8b57 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -277,6 +277,8 @@ static void expression(Compiler *compiler);
 
 static void statement(Compiler *compiler);
 
+static void branch(Compiler *compiler);
+
 static void declaration(Compiler *compiler);
 
 static ParseRule *getRule(LangTokenType type);
@@ -2421,7 +2423,7 @@ static void forStatement(Compiler *compiler) {
 
     // Compile the body.
     compiler->loop->body = compiler->function->chunk.count;
-    statement(compiler);
+    branch(compiler);
 
     // Jump back to the beginning (or the increment).
     emitLoop(compiler, compiler->loop->start);
@@ -2489,7 +2491,7 @@ static void ifStatement(Compiler *compiler) {
 
     // Compile the then branch.
     emitByte(compiler, OP_POP); // Condition.
-    statement(compiler);
+    branch(compiler);
 
     // Jump over the else branch when the if branch is taken.
     int endJump = emitJump(compiler, OP_JUMP);
@@ -2498,7 +2500,7 @@ static void ifStatement(Compiler *compiler) {
     patchJump(compiler, elseJump);
     emitByte(compiler, OP_POP); // Condition.
 
-    if (match(compiler, TOKEN_ELSE)) statement(compiler);
+    if (match(compiler, TOKEN_ELSE)) branch(compiler);
 
     patchJump(compiler, endJump);
 }
@@ -2526,7 +2528,7 @@ static void switchStatement(Compiler *compiler) {
         }
         int compareJump = emitJump(compiler, OP_COMPARE_JUMP);
         consume(compiler, TOKEN_COLON, "Expect ':' after expression.");
-        statement(compiler);
+        branch(compiler);
         if (caseCount > 255) {
             errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
             return;
@@ -2539,7 +2541,7 @@ static void switchStatement(Compiler *compiler) {
     emitByte(compiler, OP_POP); // expression.
     if (match(compiler,TOKEN_DEFAULT)){
         consume(compiler, TOKEN_COLON, "Expect ':' after default.");
-        statement(compiler);
+        branch(compiler);
     }
 
     if (match(compiler,TOKEN_CASE)){
@@ -2783,7 +2785,7 @@ static void whileStatement(Compiler *compiler) {
     // Compile the body.
     emitByte(compiler, OP_POP); // Condition.
     compiler->loop->body = compiler->function->chunk.count;
-    statement(compiler);
+    branch(compiler);
 
     // Loop back to the start.
     emitLoop(compiler, loop.start);
@@ -2960,6 +2962,20 @@ static void statement(Compiler *compiler) {
     }
 }
 
+// Compiles the statement a control structure executes conditionally or
+// repeatedly. Inside of a local scope it has a scope of its own, a local
+// variable it declares (an import) does not exist on the other paths.
+static void branch(Compiler *compiler) {
+    if (compiler->scopeDepth == 0) {
+        statement(compiler);
+        return;
+    }
+
+    beginScope(compiler);
+    statement(compiler);
+    endScope(compiler);
+}
+
 ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     Parser parser;
     parser.vm = vm;
-- 
2.43.0


From f787e45526bc20f178661c4fb6b6c679d87ea8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:05 +0000
Subject: [PATCH 77/87] fix: mkdirAll of an empty path does not touch the byte
 before its buffer

---
 src/optionals/system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 9a17a8b..28c40a8 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -288,13 +288,13 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
     snprintf(tmp, sizeof(tmp), "%s", dir);
 
     len = strlen(tmp);
-    if (tmp[len - 1] == '/' || tmp[len - 1] == '\\') {
+    if (len > 0 && (tmp[len - 1] == '/' || tmp[len - 1] == '\\')) {
         tmp[len - 1] = 0;
     }
 
     int retval;
 
-    for (p = tmp + 1; *p; p++) {
+    for (p = len > 0 ? tmp + 1 : tmp; *p; p++) {
         if (*p == '/' || *p == '\\') {
             *p = 0;
 
-- 
2.43.0


From 756d9cdd9c5732b1eceec02340467a7bf73ce38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:32 +0000
Subject: [PATCH 78/87] fix: Object.hash returns the digits only

---
 src/optionals/object/object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index 3e357fc..a90e431 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -55,8 +55,8 @@ static Value objectHash(DictuVM *vm, int argCount, Value *args) {
     }
 
     char str[21];
-    sprintf(str, "%llu", (unsigned long long)args[0]);
-    return OBJ_VAL(copyString(vm, (char *)str, 21));
+    int length = sprintf(str, "%llu", (unsigned long long)args[0]);
+    return OBJ_VAL(copyString(vm, (char *)str, length));
 }
 
 static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From ab09551e8b503542e51bf9793dc601b77bc65c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 79/87] fix: IO.copyFile reports a copy that failed

---
 src/optionals/io.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/optionals/io.c b/src/optionals/io.c
index 1602c7d..4b05a9a 100644
--- a/src/optionals/io.c
+++ b/src/optionals/io.c
@@ -108,8 +108,21 @@ static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
 #elif defined(__linux__)
     off_t bytes = 0;
     struct stat fileinfo = {0};
-    fstat(in, &fileinfo);
-    sendfile(out, in, &bytes, fileinfo.st_size);
+    bool copied = fstat(in, &fileinfo) == 0;
+    while (copied && bytes < fileinfo.st_size) {
+        ssize_t sent = sendfile(out, in, &bytes, fileinfo.st_size - bytes);
+        if (sent < 0) {
+            copied = false;
+        } else if (sent == 0) {
+            break;
+        }
+    }
+
+    if (!copied) {
+        close(in);
+        close(out);
+        return newResultError(vm, "failed to copy file");
+    }
 #endif
     close(in);
     close(out);
-- 
2.43.0


From d2e7733799123f7e665a58d53cd7fae5005cad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 80/87] fix: Socket.accept() reports an address it cannot write
 down

---
 src/optionals/socket.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index 6ba480a..a55e17a 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -143,7 +143,10 @@ static Value acceptSocket(DictuVM *vm, int argCount, Value *args) {
 
     // IPv6 is 39 chars
     char ip[40];
-    inet_ntop(sock->socketFamily, &client.sin_addr, ip, 40);
+    if (inet_ntop(sock->socketFamily, &client.sin_addr, ip, 40) == NULL) {
+        pop(vm);
+        ERROR_RESULT;
+    }
     ObjString *string = copyString(vm, ip, strlen(ip));
 
     push(vm, OBJ_VAL(string));
-- 
2.43.0


From 7d9881e87558b30bbf9a9e4bf97f7455e8fbef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 81/87] fix: a host that is not an IP address is not taken for
 the broadcast address

---
 src/optionals/socket.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index a55e17a..c1ad14c 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -84,6 +84,10 @@ static Value bindSocket(DictuVM *vm, int argCount, Value *args) {
     server.sin_addr.s_addr = inet_addr(host);
     server.sin_port = htons(port);
 
+    if (server.sin_addr.s_addr == INADDR_NONE && strcmp(host, "255.255.255.255") != 0) {
+        return newResultError(vm, "Invalid IP address");
+    }
+
     if (bind(sock->socket, (struct sockaddr *)&server , sizeof(server)) < 0) {
         ERROR_RESULT;
     }
@@ -243,6 +247,10 @@ static Value connectSocket(DictuVM *vm, int argCount, Value *args) {
     server.sin_addr.s_addr = inet_addr(AS_CSTRING(args[1]));
     server.sin_port = htons(AS_NUMBER(args[2]));
 
+    if (server.sin_addr.s_addr == INADDR_NONE && strcmp(AS_CSTRING(args[1]), "255.255.255.255") != 0) {
+        return newResultError(vm, "Invalid IP address");
+    }
+
     if (connect(sock->socket, (struct sockaddr *)&server, sizeof(server)) < 0) {
         ERROR_RESULT;
     }
-- 
2.43.0


From 2c753cf9ae93bacfed801d7501dbd35bf3568fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 82/87] fix: Process.run() reports output that could not be
 read and a child that could not be waited for

---
 src/optionals/process.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 0019da9..b4c90fc 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -165,7 +165,9 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
 
     if (wait) {
         int status = 0;
-        waitpid(pid, &status, 0);
+        if (waitpid(pid, &status, 0) == -1) {
+            ERROR_RESULT;
+        }
 
         if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
             ERROR_RESULT;
@@ -233,7 +235,10 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     close(fd[0]);
 
     int status = 0;
-    waitpid(pid, &status, 0);
+    if (waitpid(pid, &status, 0) == -1 || numRead < 0) {
+        FREE_ARRAY(vm, char, output, size);
+        ERROR_RESULT;
+    }
 
     if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
         FREE_ARRAY(vm, char, output, size);
-- 
2.43.0


From fe45abfc77af32d7ad8e3328fd593763fe978931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 83/87] fix: Path.isDir() of a path that does not exist is
 false

---
 src/optionals/path.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b7336f4..5b443cb 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -146,9 +146,8 @@ static Value isdirNative(DictuVM *vm, int argCount, Value *args) {
 
     char *path = AS_CSTRING(args[0]);
     struct stat path_stat;
-    stat(path, &path_stat);
 
-    if (S_ISDIR(path_stat.st_mode))
+    if (stat(path, &path_stat) == 0 && S_ISDIR(path_stat.st_mode))
         return TRUE_VAL;
 
     return FALSE_VAL;
-- 
2.43.0


From 79b514d309a374f07eaf8c430805721788985ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 84/87] fix: Term.getSize() without a terminal gives zeros

---
 src/optionals/term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/term.c b/src/optionals/term.c
index 641ee47..1ee7493 100644
--- a/src/optionals/term.c
+++ b/src/optionals/term.c
@@ -58,7 +58,7 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     ObjString *verticalPixels = copyString(vm, "vertical_pixels", 15);
     push(vm, OBJ_VAL(verticalPixels));
 
-    struct winsize w;
+    struct winsize w = {0};
     ioctl(0, TIOCGWINSZ, &w);
 
     dictSet(vm, terminalSizeDict, OBJ_VAL(lines), NUMBER_VAL(w.ws_row));
-- 
2.43.0


From e9e36c4289a1d943a8a7a4f8ecd478daf201ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 85/87] fix: reading from and seeking in a file that has no
 such position is reported

---
 src/vm/datatypes/files.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 8aa088d..9440a7c 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -77,11 +77,19 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    size_t currentPosition = ftell(file->file);
+    long currentPosition = ftell(file->file);
+    long endPosition = -1;
     // Calculate file size
-    fseek(file->file, 0L, SEEK_END);
-    size_t fileSize = ftell(file->file);
-    fseek(file->file, currentPosition, SEEK_SET);
+    if (currentPosition >= 0 && fseek(file->file, 0L, SEEK_END) == 0) {
+        endPosition = ftell(file->file);
+    }
+
+    if (endPosition < 0 || fseek(file->file, currentPosition, SEEK_SET) != 0) {
+        runtimeError(vm, "Could not read file \"%s\".\n", file->path->chars);
+        return EMPTY_VAL;
+    }
+
+    size_t fileSize = endPosition;
 
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
@@ -205,7 +213,10 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    fseek(file->file, offset, seekType);
+    if (fseek(file->file, offset, seekType) != 0) {
+        runtimeError(vm, "seek() could not move to the given position");
+        return EMPTY_VAL;
+    }
 
     return NIL_VAL;
 }
-- 
2.43.0


From a83656c4a8f308e9d82947ee3426e4ed26b2ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 86/87] fix: strftime() reports a time that is out of range

---
 src/optionals/datetime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 3919003..80f85d2 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -6,7 +6,7 @@
 #define localtime_r(TIMER, BUF) localtime_s(BUF, TIMER)
 // Assumes length of BUF is 26
 #define asctime_r(TIME_PTR, BUF) (asctime_s(BUF, 26, TIME_PTR), BUF)
-#define gmtime_r(TIMER, BUF) gmtime_s(BUF, TIMER)
+#define gmtime_r(TIMER, BUF) (gmtime_s(BUF, TIMER) == 0 ? (BUF) : NULL)
 #else
 #define HAS_STRPTIME
 #endif
@@ -90,7 +90,11 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    gmtime_r(&t, &tictoc);
+    if (gmtime_r(&t, &tictoc) == NULL) {
+        FREE_ARRAY(vm, char, point, len);
+        runtimeError(vm, "strftime() time is out of range");
+        return EMPTY_VAL;
+    }
 
     /**
      * strtime returns 0 when it fails to write - this would be due to the buffer
-- 
2.43.0


From c2e1bb1bbdc012baf7e3b526cfaf2dd79578106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:57 +0000
Subject: [PATCH 87/87] fix: bcrypt() without random numbers does not use the
 last salt again

---
 src/optionals/hashlib.c               | 6 +++++-
 src/optionals/hashlib/bcrypt/bcrypt.c | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index ba8af5e..b205235 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -105,7 +105,11 @@ static Value bcrypt(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *salt = bcrypt_gensalt(rounds);
-    char *hash = bcrypt_pass(AS_CSTRING(args[0]), salt);
+    char *hash = salt == NULL ? NULL : bcrypt_pass(AS_CSTRING(args[0]), salt);
+    if (hash == NULL) {
+        runtimeError(vm, "bcrypt() could not generate a salt");
+        return EMPTY_VAL;
+    }
 
     return OBJ_VAL(copyString(vm, hash, strlen(hash)));
 }
diff --git a/src/optionals/hashlib/bcrypt/bcrypt.c b/src/optionals/hashlib/bcrypt/bcrypt.c
index 4f0161b..b279f5f 100644
--- a/src/optionals/hashlib/bcrypt/bcrypt.c
+++ b/src/optionals/hashlib/bcrypt/bcrypt.c
@@ -387,7 +387,8 @@ bcrypt_gensalt(u_int8_t log_rounds)
 {
     static char    gsalt[BCRYPT_SALTSPACE];
 
-    bcrypt_initsalt(log_rounds, (u_int8_t*)gsalt, sizeof(gsalt));
+    if (bcrypt_initsalt(log_rounds, (u_int8_t*)gsalt, sizeof(gsalt)) != 0)
+        return NULL;
 
     return gsalt;
 }
-- 
2.43.0

