From 97ec9c2046708c84cd9b9e65c013a7d8b305ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:36 +0000
Subject: [PATCH 01/92] fix: MemoryCacheStore.replace() had its condition
 inverted

replace() is documented to set only if the store already has the key, but
it raised for existing keys and stored new ones.
---
 Cheetah/CacheStore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..f92dc63 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -52,8 +52,8 @@ class MemoryCacheStore(AbstractCacheStore):
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if key not in self._data:
+            raise Error('there is no value for key %r in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
-- 
2.43.0


From b44cf1ffa377a108aea50834ed408941f56e8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:36 +0000
Subject: [PATCH 02/92] fix: MemcachedCacheStore.add() and replace() used a
 nonexistent attribute

They raised AttributeError on self._data after successfully storing.
---
 Cheetah/CacheStore.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index f92dc63..53099e0 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -87,13 +87,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('there is no value for key %r in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From 86f68399466abb746f7f3880b14a94649e8757dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:27 +0000
Subject: [PATCH 03/92] fix: restore the output destination when control leaves
 a region early

Text went to the discarded collector of a #call, #capture or #cache region
for the rest of the method when an exception, #break, #continue or #return
left the region, e.g. with a #try around it.
---
 Cheetah/Compiler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..17e5bf8 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -831,6 +831,8 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -842,8 +844,10 @@ class MethodCompiler(GenUtils):
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self.addReIndentingDirective('finally')
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -877,6 +881,8 @@ class MethodCompiler(GenUtils):
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
                       % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _callCollector%(ID)s = DummyTransaction()'
                       % locals())
@@ -912,12 +918,14 @@ class MethodCompiler(GenUtils):
             callDetails.functionName, callDetails.args, callDetails.lineCol)
 
         def reset(ID=ID):
+            self.addReIndentingDirective('finally')
             self.addChunk('trans = _orig_trans%(ID)s' % locals())
             self.addChunk('write = trans.response().write')
             self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s '
                           % locals())
             self.addChunk('del _wasBuffering%(ID)s' % locals())
             self.addChunk('del _orig_trans%(ID)s' % locals())
+            self.dedent()
 
         if not callDetails.usesKeywordArgs:
             reset()
@@ -964,6 +972,8 @@ class MethodCompiler(GenUtils):
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk(
             '_wasBuffering%(ID)s = self._CHEETAH__isBuffering' % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk(
             'trans = _captureCollector%(ID)s = DummyTransaction()' % locals())
@@ -973,10 +983,12 @@ class MethodCompiler(GenUtils):
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
+        self.addReIndentingDirective('finally')
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
         self.addChunk(
             'self._CHEETAH__isBuffering = _wasBuffering%(ID)s ' % locals())
+        self.dedent()
         self.addChunk(
             '%(assignTo)s = _captureCollector%(ID)s.response().getvalue()'
             % locals())
-- 
2.43.0


From f5363eb30726ec4a774e57d6c2bdafb084919f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 04/92] fix: end a #filter region's filter also when it is left
 early

An exception, #return, #stop, #break or #continue inside #filter left the
filter set on the template object, so that methods called later and even
the next rendering used it.
---
 Cheetah/Compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 17e5bf8..9dd6f77 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1035,6 +1035,8 @@ class MethodCompiler(GenUtils):
         self._filterRegionsStack.append((ID, filterDetails))
 
         self.addChunk('_orig_filter%(ID)s = _filter' % locals())
+        self.addChunk('try:')
+        self.indent()
         if isKlass:
             self.addChunk(
                 '_filter = self._CHEETAH__currentFilter = '
@@ -1065,9 +1067,11 @@ class MethodCompiler(GenUtils):
         ID, filterDetails = self._filterRegionsStack.pop()
         # self.addChunk('_filter = self._CHEETAH__initialFilter')
         # self.addChunk('_filter = _orig_filter%(ID)s'%locals())
+        self.addReIndentingDirective('finally')
         self.addChunk(
             '_filter = self._CHEETAH__currentFilter = _orig_filter%(ID)s'
             % locals())
+        self.dedent()
 
 
 class AutoMethodCompiler(MethodCompiler):
-- 
2.43.0


From 0d9c4ac619c3a8270df4b2417d06ad2d5fcf2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:34 +0000
Subject: [PATCH 05/92] fix: #filter None also applies to the methods called
 inside it

Unlike every other #filter region it set only the local filter, so a
method called inside was still filtered by the enclosing region's filter.
---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 9dd6f77..104fd98 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1043,7 +1043,8 @@ class MethodCompiler(GenUtils):
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk('_filter = self._CHEETAH__currentFilter = '
+                              'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
-- 
2.43.0


From 5d97d049501567e58cea45ba84fabd074e8c7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:34 +0000
Subject: [PATCH 06/92] fix: clearing a cache item that has nothing stored
 raised KeyError

refreshCache() failed for an item that was never rendered, whose data had
expired in the store, or that was refreshed already; a region's remaining
items were then not refreshed.
---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..40d978e 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,7 +68,10 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:
+            pass  # nothing is stored: never set, expired or already cleared
         self._refreshTime = None
 
 
-- 
2.43.0


From 2d229b55204c47ab9cd23d9ace60646643f62802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:12 +0000
Subject: [PATCH 07/92] fix: a #cache varyBy value with non-ASCII characters
 raised UnicodeEncodeError

---
 Cheetah/CacheRegion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 40d978e..b6b2464 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -132,7 +132,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(str(cacheItemID).encode('utf-8')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From 39eb3619dd9dcced943bcd5781f2b7e8d2d71848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:44 +0000
Subject: [PATCH 08/92] fix: a bracket right after an enclosed expression
 placeholder belongs to the text

---
 Cheetah/Parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..0424549 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1159,6 +1159,9 @@ class _LowLevelParser(SourceReader):
 
         if enclosures is None:
             enclosures = []
+        # True inside '${...}': the expression ends with its closing bracket,
+        # what follows is not part of it even if it's another bracket
+        endsWithEnclosure = enclosed and bool(enclosures)
 
         srcLen = len(self)
         exprBits = []
@@ -1176,7 +1179,9 @@ class _LowLevelParser(SourceReader):
                     break
 
             c = self.peek()
-            if c in "{([":
+            if endsWithEnclosure and not enclosures:
+                break
+            elif c in "{([":
                 exprBits.append(c)
                 enclosures.append((c, self.pos()))
                 self.advance()
-- 
2.43.0


From 2e05b437e8296df7ecbc4e59de2f2c1290b2990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:40 +0000
Subject: [PATCH 09/92] fix: remove the indentation of an #arg directive alone
 on its line

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0424549..773b53c 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2597,12 +2597,12 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
-        self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
         isLineClearToStartToken = self.isLineClearToStartToken()
-- 
2.43.0


From d2321ea69ddba8fd01a931dcb50ff56fa08bc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:50 +0000
Subject: [PATCH 10/92] fix: #stop inside a region returns the method's output,
 not the region's

---
 Cheetah/Compiler.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 104fd98..131b119 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -348,6 +348,8 @@ class MethodCompiler(GenUtils):
         self._docStringLines = []
         self._methodBodyChunks = []
 
+        # IDs of the open regions that collect their output, outermost first
+        self._collectorIDsStack = []
         self._cacheRegionsStack = []
         self._callRegionsStack = []
         self._captureRegionsStack = []
@@ -773,6 +775,7 @@ class MethodCompiler(GenUtils):
             ID = customID
         varyBy = cacheInfo.get('varyBy', repr(ID))
         self._cacheRegionsStack.append(ID)  # attrib of current methodCompiler
+        self._collectorIDsStack.append(ID)
 
         # @@TR: add this to a special class var as well
         self.addChunk('')
@@ -844,6 +847,7 @@ class MethodCompiler(GenUtils):
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self._collectorIDsStack.pop()
         self.addReIndentingDirective('finally')
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
@@ -874,6 +878,7 @@ class MethodCompiler(GenUtils):
         callDetails.usesKeywordArgs = False
         # attrib of current methodCompiler
         self._callRegionsStack.append((ID, callDetails))
+        self._collectorIDsStack.append(ID)
 
         self.addChunk('## START %(regionTitle)s REGION: ' % locals() + ID
                       + ' of ' + functionName
@@ -953,6 +958,7 @@ class MethodCompiler(GenUtils):
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('')
         self._callRegionsStack.pop()  # attrib of current methodCompiler
+        self._collectorIDsStack.pop()
 
     def nextCaptureRegionID(self):
         return self.nextCacheID()
@@ -967,6 +973,7 @@ class MethodCompiler(GenUtils):
 
         # attrib of current methodCompiler
         self._captureRegionsStack.append((ID, captureDetails))
+        self._collectorIDsStack.append(ID)
         self.addChunk('## START CAPTURE REGION: ' + ID + ' ' + assignTo
                       + ' at line %s, col %s' % lineCol + ' in the source.')
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
@@ -982,6 +989,7 @@ class MethodCompiler(GenUtils):
 
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
+        self._collectorIDsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
         self.addReIndentingDirective('finally')
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
@@ -1196,8 +1204,13 @@ class AutoMethodCompiler(MethodCompiler):
         self.addChunk('')
 
     def addStop(self, expr=None):
+        trans = 'trans'
+        if self._collectorIDsStack:
+            # `trans` is a region's collector here: stop with the output of
+            # the method
+            trans = '_orig_trans' + self._collectorIDsStack[0]
         self.addChunk(
-            'return _dummyTrans and trans.response().getvalue() or ""')
+            'return _dummyTrans and ' + trans + '.response().getvalue() or ""')
 
     def addMethArg(self, name, defVal=None):
         self._argStringList.append((name, defVal))
-- 
2.43.0


From ff8358e12af7df9f4595c071501be89528f84d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 11/92] fix: including one source both raw and as a template
 failed

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..070715c 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1665,7 +1665,7 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, raw)
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From 31de5f03f57d833065101e9520539260d8405f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:59 +0000
Subject: [PATCH 12/92] fix: a changed included file is included anew, as
 documented

---
 Cheetah/Template.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 070715c..a340ef9 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1576,6 +1576,7 @@ class Template(Servlet):
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
         self._CHEETAH__cheetahIncludes = {}
+        self._CHEETAH__cheetahIncludesMtimes = {}
         self._CHEETAH__cacheRegions = {}
         self._CHEETAH__indenter = Indenter()
 
@@ -1666,7 +1667,16 @@ class Template(Servlet):
         """Called at runtime to handle #include directives.
         """
         _includeID = (srcArg, includeFrom, raw)
-        if _includeID not in self._CHEETAH__cheetahIncludes:
+        mtime = None
+        if includeFrom == 'file' and isinstance(srcArg, string_type):
+            # monitor the included file for changes
+            try:
+                mtime = os.path.getmtime(self.serverSidePath(srcArg))
+            except OSError:
+                pass
+        if _includeID not in self._CHEETAH__cheetahIncludes or (
+                mtime is not None
+                and mtime != self._CHEETAH__cheetahIncludesMtimes[_includeID]):
             if not raw:
                 if includeFrom == 'file':
                     source = None
@@ -1707,6 +1717,7 @@ class Template(Servlet):
                         self.getFileContents(path)
                 else:
                     self._CHEETAH__cheetahIncludes[_includeID] = srcArg
+            self._CHEETAH__cheetahIncludesMtimes[_includeID] = mtime
         ##
         if not raw:
             self._CHEETAH__cheetahIncludes[_includeID].respond(trans)
-- 
2.43.0


From a23c6ffa422804712bb1f0d1c42ee54ba2caf405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 13/92] fix: the KeyError error catcher raised TypeError
 instead of KeyError

---
 Cheetah/ErrorCatchers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ErrorCatchers.py b/Cheetah/ErrorCatchers.py
index 655cb78..1e3500e 100644
--- a/Cheetah/ErrorCatchers.py
+++ b/Cheetah/ErrorCatchers.py
@@ -2,6 +2,8 @@
 import time
 from .NameMapper import NotFound
 
+_KeyError = KeyError  # the builtin: the catcher below has the same name
+
 
 class Error(Exception):
     pass
@@ -31,7 +33,7 @@ class BigEcho(ErrorCatcher):
 
 class KeyError(ErrorCatcher):
     def warn(self, exc_val, code, rawCode, lineCol):
-        raise KeyError(
+        raise _KeyError(
             "no '%s' in this Template Object's Search List" % rawCode)
 
 
-- 
2.43.0


From ff4b1721726bbe1c2b7bcd4ab0aaa70aa37450d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 14/92] fix: backslashes and triple quotes in a placeholder
 under an error catcher

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 131b119..8462924 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1518,7 +1518,7 @@ class ClassCompiler(GenUtils):
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval('''" + codeChunk + "''', globals(), localsDict)")
+            "return eval(" + repr(codeChunk) + ", globals(), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
-- 
2.43.0


From c1d9038e2d565276eaec1a040bd18041b280382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 15/92] fix: lambdas and generators in a placeholder under an
 error catcher

---
 Cheetah/Compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 8462924..927da3e 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1518,7 +1518,10 @@ class ClassCompiler(GenUtils):
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval(" + repr(codeChunk) + ", globals(), localsDict)")
+            "return eval(" + repr(codeChunk)
+            # the locals are also globals for the lambdas and generator
+            # expressions in it, which don't see eval()'s locals
+            + ", dict(globals(), **localsDict), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
-- 
2.43.0


From a41efeec04e0aa359da373ddecca4cffb22319b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 16/92] fix: error catchers of a base template with the name of
 a derived one

---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 927da3e..aa9c7f2 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -547,7 +547,9 @@ class MethodCompiler(GenUtils):
         if self.isErrorCatcherOn():
             methodName = self._classCompiler.addErrorCatcherCall(
                 expr, rawCode=rawPlaceholder, lineCol=lineCol)
-            expr = 'self.' + methodName + '(localsDict=locals())'
+            # of this class: a derived one may have the same name
+            expr = (self._classCompiler.className() + '.' + methodName
+                    + '(self, localsDict=locals())')
 
         if silentMode:
             self.addChunk('try:')
-- 
2.43.0


From 9926cc4b07c6aa46320c54ded6393dd63f0f3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:42 +0000
Subject: [PATCH 17/92] fix: NotFound became AttributeError when no
 #errorCatcher was reached

---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index aa9c7f2..eb20c17 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1526,7 +1526,9 @@ class ClassCompiler(GenUtils):
             + ", dict(globals(), **localsDict), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
-            'except self._CHEETAH__errorCatcher.exceptions() as e:')
+            # there's no catcher if its directive wasn't reached
+            'except (self._CHEETAH__errorCatcher and '
+            'self._CHEETAH__errorCatcher.exceptions() or ()) as e:')
         catcherMeth.indent()
         catcherMeth.addChunk(
             "return self._CHEETAH__errorCatcher.warn(exc_val=e, code= "
-- 
2.43.0


From 35947ed56b746befce77ebf1e7c4af5ad87476b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 18/92] fix: #errorCatcher followed by blanks left them and the
 line end in the output

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 773b53c..317ea62 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2671,6 +2671,7 @@ class _HighLevelParser(_LowLevelParser):
         errorCatcherName = self.getIdentifier()
         errorCatcherName = self._applyExpressionFilters(
             errorCatcherName, 'errorcatcher', startPos=startPos)
+        self.getWhiteSpace()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
         self._compiler.setErrorCatcher(errorCatcherName)
 
-- 
2.43.0


From 86ebe41799355a3ebbe710582e48b4848f57f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:54 +0000
Subject: [PATCH 19/92] fix: the C lookup took a failing attribute for a
 missing one

---
 Cheetah/c/_namemapper.c | 20 +++++++++++++++-----
 Cheetah/c/_namemapper.h | 10 +++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..aab7c17 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -139,12 +139,21 @@ static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
 
 static int PyNamemapper_hasKey(PyObject *obj, char *key)
 {
+    PyObject *theValue;
+
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         return TRUE;
-    } else if (PyObject_HasAttrString(obj, key)) {
+    }
+    theValue = PyObject_GetAttrString(obj, key);
+    if (theValue != NULL) {
+        Py_DECREF(theValue);
         return TRUE;
     }
-    return FALSE;
+    if (PyErr_ExceptionMatches(PyExc_AttributeError)) {
+        PyErr_Clear();
+        return FALSE;
+    }
+    return -1;      /* the attribute is there, getting it failed */
 }
 
 
@@ -154,10 +163,11 @@ static PyObject *PyNamemapper_valueForKey(PyObject *obj, char *key)
 
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         theValue = PyMapping_GetItemString(obj, key);
-    } else if (PyObject_HasAttrString(obj, key)) {
-        theValue = PyObject_GetAttrString(obj, key);
     } else {
-        setNotFoundException(key, obj);
+        theValue = PyObject_GetAttrString(obj, key);
+        if (theValue == NULL && PyErr_ExceptionMatches(PyExc_AttributeError)) {
+            setNotFoundException(key, obj);
+        }
     }
     return theValue;
 }
diff --git a/Cheetah/c/_namemapper.h b/Cheetah/c/_namemapper.h
index 1a7eecb..58c000c 100644
--- a/Cheetah/c/_namemapper.h
+++ b/Cheetah/c/_namemapper.h
@@ -63,7 +63,15 @@
 }
 
 #define checkForNameInNameSpaceAndReturnIfFound(namespace_decref) { \
-    if ( PyNamemapper_hasKey(nameSpace, nameChunks[0]) ) {\
+    int hasKey = PyNamemapper_hasKey(nameSpace, nameChunks[0]);\
+    if (hasKey < 0) {\
+        if (namespace_decref) {\
+            Py_DECREF(nameSpace);\
+        }\
+        theValue = NULL;\
+        goto done;\
+    }\
+    if (hasKey) {\
         theValue = PyNamemapper_valueForName(nameSpace, nameChunks, numChunks, executeCallables);\
         if (namespace_decref) {\
             Py_DECREF(nameSpace);\
-- 
2.43.0


From 1a4a57b2b7330557cb7079e35aa26735d434a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 20/92] fix: the C lookup failed on names of more than 14 parts

---
 Cheetah/c/_namemapper.c | 19 +++++++++----------
 Cheetah/c/_namemapper.h |  8 ++------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index aab7c17..433f942 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -109,7 +109,7 @@ static int isInstanceOrClass(PyObject *nextVal) {
 }
 
 
-static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
+static int getNameChunks(char *nameChunks[], char *nameCopy)
 {
     char c;
     char *currChunk;
@@ -118,11 +118,6 @@ static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
     currChunk = nameCopy;
     while ('\0' != (c = *nameCopy)){
         if ('.' == c) {
-            if (currChunkNum >= (MAXCHUNKS-2)) { /* avoid overflowing nameChunks[] */
-                PyErr_SetString(TooManyPeriods, name);
-                return 0;
-            }
-
             *nameCopy ='\0';
             nameChunks[currChunkNum++] = currChunk;
             nameCopy++;
@@ -283,7 +278,7 @@ static PyObject *namemapper_valueForName(PYARGS)
     char *nameCopy = NULL;
     char *tmpPntr1 = NULL;
     char *tmpPntr2 = NULL;
-    char *nameChunks[MAXCHUNKS];
+    char **nameChunks = NULL;
     int numChunks;
 
     PyObject *theValue;
@@ -305,6 +300,7 @@ static PyObject *namemapper_valueForName(PYARGS)
             theValue = NULL;
         }
     }
+    free(nameChunks);
     free(nameCopy);
     return theValue;
 }
@@ -318,7 +314,7 @@ static PyObject *namemapper_valueFromSearchList(PYARGS)
     char *nameCopy = NULL;
     char *tmpPntr1 = NULL;
     char *tmpPntr2 = NULL;
-    char *nameChunks[MAXCHUNKS];
+    char **nameChunks = NULL;
     int numChunks;
 
     PyObject *nameSpace = NULL;
@@ -361,6 +357,7 @@ static PyObject *namemapper_valueFromSearchList(PYARGS)
 
 done:
     Py_XDECREF(iterator);
+    free(nameChunks);
     free(nameCopy);
     return theValue;
 }
@@ -376,7 +373,7 @@ static PyObject *namemapper_valueFromFrameOrSearchList(PyObject *self, PyObject
     char *nameCopy = NULL;
     char *tmpPntr1 = NULL;
     char *tmpPntr2 = NULL;
-    char *nameChunks[MAXCHUNKS];
+    char **nameChunks = NULL;
     int numChunks;
 
     PyObject *nameSpace = NULL;
@@ -431,6 +428,7 @@ static PyObject *namemapper_valueFromFrameOrSearchList(PyObject *self, PyObject
 
 done:
     Py_XDECREF(iterator);
+    free(nameChunks);
     free(nameCopy);
     return theValue;
 }
@@ -446,7 +444,7 @@ static PyObject *namemapper_valueFromFrame(PyObject *self, PyObject *args, PyObj
     char *tmpPntr2 = NULL;
 
     char *nameCopy = NULL;
-    char *nameChunks[MAXCHUNKS];
+    char **nameChunks = NULL;
     int numChunks;
 
     PyObject *nameSpace = NULL;
@@ -479,6 +477,7 @@ static PyObject *namemapper_valueFromFrame(PyObject *self, PyObject *args, PyObj
     setNotFoundException(nameChunks[0], excString);
     Py_DECREF(excString);
 done:
+    free(nameChunks);
     free(nameCopy);
     return theValue;
 }
diff --git a/Cheetah/c/_namemapper.h b/Cheetah/c/_namemapper.h
index 58c000c..788a4f3 100644
--- a/Cheetah/c/_namemapper.h
+++ b/Cheetah/c/_namemapper.h
@@ -48,18 +48,14 @@
 /*
  * _namemapper.c specific definitions
  */
-#define MAXCHUNKS 15            /* max num of nameChunks for the arrays */
 #define ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS 1
 #define createNameCopyAndChunks() {\
     nameCopy = malloc(strlen(name) + 1);\
     tmpPntr1 = name; \
     tmpPntr2 = nameCopy;\
     while ((*tmpPntr2++ = *tmpPntr1++)); \
-    numChunks = getNameChunks(nameChunks, name, nameCopy); \
-    if (PyErr_Occurred()) {     /* there might have been TooManyPeriods */\
-        free(nameCopy);\
-        return NULL;\
-    }\
+    nameChunks = malloc(sizeof(char *) * (strlen(name) + 1));\
+    numChunks = getNameChunks(nameChunks, nameCopy); \
 }
 
 #define checkForNameInNameSpaceAndReturnIfFound(namespace_decref) { \
-- 
2.43.0


From 58a896fa4d724a6356c0814d826a5bdc5849064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:30 +0000
Subject: [PATCH 21/92] fix: a search list that is one object, not a list, was
 iterated over

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index a340ef9..b85f2ea 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1299,7 +1299,7 @@ class Template(Servlet):
         ##################################################
         # Setup instance state attributes used during the life of template
         # post-compile
-        if searchList:
+        if searchList and isinstance(searchList, (list, tuple)):
             for namespace in searchList:
                 if isinstance(namespace, dict):
                     intersection = self.Reserved_SearchList \
-- 
2.43.0


From 42bf33066cd6256c3bb787d5c77cf35dd5af228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:30 +0000
Subject: [PATCH 22/92] fix: prioritizeSearchListOverSelf failed with a tuple
 as the search list

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index b85f2ea..81bddf0 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1571,7 +1571,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From c0f88e4ea1c40712ac01b16195220ebd65a56e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:36 +0000
Subject: [PATCH 23/92] fix: the compile cache confused requests whose options
 concatenate or hash alike

Class, module and method names were concatenated into one string together
with hashes, so 'a'+'bc' and 'ab'+'c', 1 and True, or -1 and -2 gave the same
key and the wrong class; an unhashable global made the request fail, and a
relative file name was mistaken for the one seen in another directory.
---
 Cheetah/Template.py | 79 ++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 81bddf0..8451019 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -87,27 +87,49 @@ class PreprocessError(Error):
     pass
 
 
+class _SameObject(object):
+    """Part of a compile cache key: equal only for the very same object,
+    which it keeps alive."""
+
+    def __init__(self, obj):
+        self.obj = obj
+
+    def __eq__(self, other):
+        return isinstance(other, _SameObject) and self.obj is other.obj
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return id(self.obj)
+
+
+def hashValue(v):
+    """Turn an option into a hashable value that is equal for two options
+    only if they are interchangeable: 1, 1.0 and True are not."""
+    if isinstance(v, dict):
+        return hashDict(v)
+    elif isinstance(v, (list, tuple)):
+        return type(v), hashList(v)
+    elif isinstance(v, float):
+        return type(v), repr(v)
+    elif type(v) in (NoneType, bool, int, str, bytes, unicode):
+        return type(v), v
+    return _SameObject(v)
+
+
 def hashList(v_list):
     hashedList = []
     for v in v_list:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
+        hashedList.append(hashValue(v))
+    return tuple(hashedList)
 
 
 def hashDict(d):
-    items = sorted(d.items())
     hashedList = []
-    for k, v in items:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+    for k, v in d.items():
+        hashedList.append((hashValue(k), hashValue(v)))
+    return frozenset(hashedList)
 
 
 ###############################################################################
@@ -737,9 +759,9 @@ class Template(Servlet):
 
             fileHash = None
             if file:
-                fileHash = str(hash(file))
+                fileHash = (file, os.path.abspath(file))
                 if globals()['__checkFileMtime']:
-                    fileHash += str(os.path.getmtime(file))
+                    fileHash += (os.path.getmtime(file),)
 
             try:
                 # @@TR: find some way to create a cacheHash that is consistent
@@ -747,21 +769,20 @@ class Template(Servlet):
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = (source,
+                             fileHash,
+                             className,
+                             moduleName,
+                             mainMethodName,
+                             compilerClass,
+                             baseclass,
+                             compilerSettingsHash,
+                             moduleGlobalsHash,
+                             cacheDirForModuleFiles)
+                hash(cacheHash)
             except Exception:
                 # @@TR: should add some logging to this
-                pass
+                cacheHash = None
         outputEncoding = 'ascii'
         compiler = None
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
-- 
2.43.0


From 6683cc56a66504916db6f631afbade9df6075e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:18 +0000
Subject: [PATCH 24/92] fix: a preprocessor changed the settings dictionaries
 it was given

Two preprocessors given the same compilerSettings or templateInitArgs
dictionary used the first one's tokens and search list.
---
 Cheetah/Template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 8451019..28e3818 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -979,6 +979,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateInitArgs'):
             settings.templateInitArgs = {}
+        else:  # do not change the caller's dictionary
+            settings.templateInitArgs = dict(settings.templateInitArgs)
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -999,6 +1001,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'compilerSettings'):
             settings.compilerSettings = {}
+        else:  # do not change the caller's dictionary
+            settings.compilerSettings = dict(settings.compilerSettings)
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 4d4b8c98441ede9d1ef34e8bcdd38f616d9556ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:41 +0000
Subject: [PATCH 25/92] fix: class-wide preprocessors recursed for ever

The intermediate template was compiled with a subclass that inherited
them.
---
 Cheetah/Template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 28e3818..54c3307 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -996,7 +996,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateAPIClass'):
             class PreprocessTemplateAPIClass(klass):
-                pass
+                # the class-wide ones are for the final template only
+                _CHEETAH_preprocessors = None
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
         if not hasattr(settings, 'compilerSettings'):
-- 
2.43.0


From 27385e6274a00c64fb95401c37f49f6ddb778fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:06 +0000
Subject: [PATCH 26/92] fix: the module source of a cached template lost its
 encoding

---
 Cheetah/Template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 54c3307..05db4b8 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -788,6 +788,7 @@ class Template(Servlet):
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
+            outputEncoding = cacheItem.encoding
         else:
             compiler = compilerClass(source, file,
                                      moduleName=moduleName,
@@ -873,6 +874,7 @@ class Template(Servlet):
                 cacheItem = CompileCacheItem()
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
+                cacheItem.encoding = outputEncoding
                 cacheItem.klass = templateClass
                 templateClass._CHEETAH_isInCompilationCache = True
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
-- 
2.43.0


From 338311c498e50ffd7690a09bcaa3b4af2f57da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 27/92] fix: compiling a template whose code compiles or
 imports another one deadlocked

The compile lock was held while the generated module was executed, so a
template importing a module that compiles a template at import time waited
for itself, and two threads could wait for each other through Python's
import locks.
---
 Cheetah/Template.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 05db4b8..3f50257 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -135,11 +135,15 @@ def hashDict(d):
 ###############################################################################
 # MODULE GLOBALS AND CONSTANTS
 
+# names given to modules that are still being executed
+_moduleNamesInUse = set()
+
+
 def _genUniqueModuleName(baseModuleName):
     """The calling code is responsible for concurrency locking.
     """
     finalName = baseModuleName
-    while finalName in sys.modules:
+    while finalName in sys.modules or finalName in _moduleNamesInUse:
         finalName = ('cheetah_%s_%s_%s' % (baseModuleName,
                                            str(time.time()).replace('.', '_'),
                                            str(randrange(10000, 99999))))
@@ -817,9 +821,16 @@ class Template(Servlet):
                 cacheItem.lastCheckoutTime = time.time()
                 return cacheItem.klass
 
+            klass._CHEETAH_compileLock.acquire()
             try:
-                klass._CHEETAH_compileLock.acquire()
                 uniqueModuleName = _genUniqueModuleName(moduleName)
+                _moduleNamesInUse.add(uniqueModuleName)
+            finally:
+                klass._CHEETAH_compileLock.release()
+
+            # the lock is not held while the module's code is executed: that
+            # code may compile other templates, or import modules that do
+            try:
                 # relative file path with no dir part
                 __file__ = uniqueModuleName + '.py'
 
@@ -865,7 +876,7 @@ class Template(Servlet):
                 ##
                 sys.modules[uniqueModuleName] = mod
             finally:
-                klass._CHEETAH_compileLock.release()
+                _moduleNamesInUse.discard(uniqueModuleName)
 
             templateClass = getattr(mod, className)
 
-- 
2.43.0


From 0bc6aaab044099b8dcae25eaf62fdffa184febb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:46 +0000
Subject: [PATCH 28/92] fix: threads compiling the same template at once got
 different classes

Both missed the cache, and the class of the slower one was returned although
the other's had been kept; a kept class was also visible to other threads
before it was complete.
---
 Cheetah/Template.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 3f50257..e81c64a 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -880,18 +880,6 @@ class Template(Servlet):
 
             templateClass = getattr(mod, className)
 
-            if (cacheCompilationResults and cacheHash
-                    and cacheHash not in klass._CHEETAH_compileCache):
-                cacheItem = CompileCacheItem()
-                cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
-                cacheItem.code = generatedModuleCode
-                cacheItem.encoding = outputEncoding
-                cacheItem.klass = templateClass
-                templateClass._CHEETAH_isInCompilationCache = True
-                klass._CHEETAH_compileCache[cacheHash] = cacheItem
-            else:
-                templateClass._CHEETAH_isInCompilationCache = False
-
             if keepRefToGeneratedCode or cacheCompilationResults:
                 templateClass._CHEETAH_generatedModuleCode = \
                     generatedModuleCode
@@ -900,6 +888,26 @@ class Template(Servlet):
             # to help the directive analyzer code
             if compiler:
                 templateClass._CHEETAH_compilerInstance = compiler
+
+            klass._CHEETAH_compileLock.acquire()
+            try:
+                if (cacheCompilationResults and cacheHash
+                        and cacheHash not in klass._CHEETAH_compileCache):
+                    cacheItem = CompileCacheItem()
+                    cacheItem.cacheTime = time.time()
+                    cacheItem.lastCheckoutTime = cacheItem.cacheTime
+                    cacheItem.code = generatedModuleCode
+                    cacheItem.encoding = outputEncoding
+                    cacheItem.klass = templateClass
+                    templateClass._CHEETAH_isInCompilationCache = True
+                    klass._CHEETAH_compileCache[cacheHash] = cacheItem
+                elif useCache and cacheCompilationResults and cacheHash:
+                    # another thread compiled the same in the meantime
+                    return klass._CHEETAH_compileCache[cacheHash].klass
+                else:
+                    templateClass._CHEETAH_isInCompilationCache = False
+            finally:
+                klass._CHEETAH_compileLock.release()
             return templateClass
 
     @classmethod
-- 
2.43.0


From 3725e667a78b94a77ba5877b19dad3071c2af99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 29/92] fix: report truncated or incomplete constructs as parse
 errors

Templates ending inside a construct ("${a", "#if", "#cache", "#call"), an empty
#silent, #echo, #import or PSP, or bad #cache arguments failed with IndexError,
TypeError or ValueError instead of ParseError.
---
 Cheetah/Compiler.py |  5 ++++-
 Cheetah/Parser.py   | 25 +++++++++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index eb20c17..8fafb77 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -740,6 +740,8 @@ class MethodCompiler(GenUtils):
     def addPSP(self, PSP):
         self.commitStrConst()
         autoIndent = False
+        if not PSP:
+            return
         if PSP[0] == '=':
             PSP = PSP[1:]
             if PSP:
@@ -2027,7 +2029,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         importVarNames = impStatement[
             impStatement.find('import') + len('import'):].split(',')
         # handle aliases
-        importVarNames = [var.split()[-1] for var in importVarNames]
+        importVarNames = [var.split()[-1] for var in importVarNames
+                          if var.split()]
         importVarNames = [var for var in importVarNames if not var == '*']
         # used by #extend for auto-imports
         self.addImportedVarNames(importVarNames, raw_statement=impStatement)
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 317ea62..f6fc901 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -269,7 +269,7 @@ class ParseError(ValueError):
                  lineno=None, col=None):
         self.stream = stream
         if stream.pos() >= len(stream):
-            stream.setPos(len(stream) - 1)
+            stream.setPos(max(len(stream) - 1, 0))
         self.msg = msg
         self.extMsg = extMsg
         self.lineno = lineno
@@ -399,6 +399,15 @@ class _LowLevelParser(SourceReader):
 
     _settingsManager = None
 
+    def checkPos(self, pos):
+        if not 0 <= pos <= self.breakPoint():
+            raise ParseError(self, msg='Unexpected end of the template')
+
+    def peek(self, offset=0):
+        if self.pos() + offset >= len(self.src()):
+            raise ParseError(self, msg='Unexpected end of the template')
+        return super(_LowLevelParser, self).peek(offset)
+
     def setSettingsManager(self, settingsManager):
         self._settingsManager = settingsManager
 
@@ -450,7 +459,7 @@ class _LowLevelParser(SourceReader):
 
         """Setup the regexs for Cheetah $var parsing."""
 
-        num = r'[0-9\.]+'
+        num = r'(?:[0-9]+\.?[0-9]*|\.[0-9]+)'
         interval = (r'(?P<interval>'
                     + num + r's|'
                     + num + r'm|'
@@ -905,6 +914,8 @@ class _LowLevelParser(SourceReader):
 
     def getCheetahVarBody(self, plain=False):
         # @@TR: this should be in the compiler
+        if not self.matchIdentifier():
+            raise ParseError(self, msg='Identifier expected')
         return self._compiler.genCheetahVar(self.getCheetahVarNameChunks(),
                                             plain=plain)
 
@@ -1779,6 +1790,8 @@ class _HighLevelParser(_LowLevelParser):
             self.advance(len(directiveName))
         startPos = self.pos()
         expr = self.getExpression().strip()
+        if not expr:
+            raise ParseError(self, msg='Expression expected')
         directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
@@ -2527,8 +2540,12 @@ class _HighLevelParser(_LowLevelParser):
         argList = self._applyExpressionFilters(argList, 'cache',
                                                startPos=startPos)
 
-        def startCache():
+        try:
             cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+        except (TypeError, ValueError, IndexError):
+            raise ParseError(self, msg='Invalid #cache arguments')
+
+        def startCache():
             self._compiler.startCacheRegion(cacheInfo, lineCol)
 
         if self.matchColonForSingleLineShortFormDirective():
@@ -2655,7 +2672,7 @@ class _HighLevelParser(_LowLevelParser):
         transformer = self._applyExpressionFilters(transformer, 'transform',
                                                    startPos=startPos)
 
-        if self.peek() == ':':
+        if not self.atEnd() and self.peek() == ':':
             self.advance()
         self.getWhiteSpace()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-- 
2.43.0


From f532c8b8b59122f16839fd992fb111373425faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 30/92] fix: #attr with placeholders and #return with #yield
 are parse errors

They failed with AttributeError and AssertionError.
---
 Cheetah/Compiler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 8fafb77..c596af3 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -697,12 +697,16 @@ class MethodCompiler(GenUtils):
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addReturn(self, expr):
-        assert not self._isGenerator
+        if self._isGenerator:
+            raise ParseError(self._moduleCompiler._parser,
+                             msg='#return and #yield cannot be combined')
         self.addChunk(expr)
         self._hasReturnStatement = True
 
     def addYield(self, expr):
-        assert not self._hasReturnStatement
+        if self._hasReturnStatement:
+            raise ParseError(self._moduleCompiler._parser,
+                             msg='#return and #yield cannot be combined')
         self._isGenerator = True
         if expr.replace('yield', '').strip():
             self.addChunk(expr)
@@ -1475,7 +1479,7 @@ class ClassCompiler(GenUtils):
         # inside the expression
         if attribExpr.find('VFN(') != -1 or attribExpr.find('VFFSL(') != -1:
             raise ParseError(
-                self,
+                self._moduleCompiler._parser,
                 'Invalid #attr directive. It should only contain '
                 + 'simple Python literals.')
         # now add the attribute
-- 
2.43.0


From 81511954743e8df0c33825bb6bb8b075fd5b3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 31/92] fix: keep '==' in the default value of an argument

#def f(a=1==2) compiled to a=12.
---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index f6fc901..08d8c33 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1110,7 +1110,9 @@ class _LowLevelParser(SourceReader):
                 if onDefVal:
                     argList.add_default(c)
                 self.advance()
-            elif c == '=':
+            elif c == '=' and not onDefVal:
+                if len(argList.arguments) <= argList.count:
+                    raise ParseError(self)
                 onDefVal = True
                 self.advance()
             elif c == ",":
-- 
2.43.0


From 23577f52dffe838d01f01ca128b1bdbab704aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 32/92] fix: a single-line directive does not open or close
 blocks around it

"#if 1: #for ..." without its end on the line, and "#if 1: a #end for", were
accepted and closed the wrong block.
---
 Cheetah/Parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 08d8c33..5688e80 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1426,6 +1426,8 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._outerDirectives = 0
+        self._useSearchListStack = []
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1557,6 +1559,10 @@ class _HighLevelParser(_LowLevelParser):
             origBP = self.breakPoint()
             self.setBreakPoint(breakPoint)
             assertEmptyStack = False
+            # blocks must not be opened or closed across the breakPoint
+            startPos = self.pos()
+            origOuterDirectives = self._outerDirectives
+            self._outerDirectives = len(self._openDirectivesStack)
 
         while not self.atEnd():
             if self.matchCommentStartToken():
@@ -1578,6 +1584,10 @@ class _HighLevelParser(_LowLevelParser):
         if assertEmptyStack:
             self.assertEmptyOpenDirectivesStack()
         if breakPoint:
+            if len(self._openDirectivesStack) > self._outerDirectives:
+                self.setPos(startPos)
+                self.assertEmptyOpenDirectivesStack()
+            self._outerDirectives = origOuterDirectives
             self.setBreakPoint(origBP)
 
     # non-directive eat methods
@@ -2793,7 +2803,7 @@ class _HighLevelParser(_LowLevelParser):
         self._openDirectivesStack.append(directiveName)
 
     def popFromOpenDirectivesStack(self, directiveName):
-        if not self._openDirectivesStack:
+        if len(self._openDirectivesStack) <= self._outerDirectives:
             raise ParseError(self, msg="#end found, but nothing to end")
 
         if self._openDirectivesStack[-1] == directiveName:
@@ -2806,7 +2816,8 @@ class _HighLevelParser(_LowLevelParser):
         if self._openDirectivesStack:
             errorMsg = (
                 "Some #directives are missing their corresponding #end ___ tag"
-                ": %s" % ', '.join(self._openDirectivesStack))
+                ": %s" % ', '.join(
+                    self._openDirectivesStack[self._outerDirectives:]))
             raise ParseError(self, msg=errorMsg)
 
 
-- 
2.43.0


From 1e7dda76828c5ce18a4f2530d2e2c646a0757351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 33/92] fix: disable directives whose names are not in lower
 case

errorCatcher and shBang could not be disabled or enabled by their names.
---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 5688e80..01c90d4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1544,9 +1544,10 @@ class _HighLevelParser(_LowLevelParser):
 
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-        if (directiveName in self.setting('disabledDirectives')
-            or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+        disabled = [name.lower() for name in self.setting('disabledDirectives')]
+        enabled = [name.lower() for name in self.setting('enabledDirectives')]
+        if directiveName in disabled \
+                or (enabled and directiveName not in enabled):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 3336dd71542f56d2b1479a118326ce0428297076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 34/92] fix: a directive followed by a comment takes its
 indentation with it

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 01c90d4..10f1c6e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1740,6 +1740,8 @@ class _HighLevelParser(_LowLevelParser):
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
+                if isLineClearToStartToken:
+                    self._compiler.handleWSBeforeDirective()
                 self.eatComment()  # this won't gobble the EOL
             else:
                 self.setPos(pos)
-- 
2.43.0


From 16f66fbfd9b070cdac547af630462cfb9bee0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 35/92] fix: #end has to name its directive in full, and errors
 point at it

"#end iffy" closed an #if, "#raw" ended at "#end rawhide" and missed an end
right after another #end; errors were reported on the line after the #end.
---
 Cheetah/Parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 10f1c6e..64740f3 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1768,7 +1768,8 @@ class _HighLevelParser(_LowLevelParser):
                     self.getDirectiveStartToken()
                     self.advance(len('end'))
                     self.getWhiteSpace()
-                    if self.startswith(directiveName):
+                    if self.startswith(directiveName) and not identRE.match(
+                            self.src(), self.pos() + len(directiveName)):
                         if self.isLineClearToStartToken(endRawPos):
                             isLineClearToStartToken = True
                             endRawPos = self.findBOL(endRawPos)
@@ -1777,6 +1778,7 @@ class _HighLevelParser(_LowLevelParser):
                         self.getWhiteSpace()
                         finalPos = self.pos()
                         break
+                    self.setPos(endRawPos)
             self.advance()
             finalPos = endRawPos = self.pos()
 
@@ -1861,17 +1863,18 @@ class _HighLevelParser(_LowLevelParser):
         pos = self.pos()
         directiveName = False
         for key in self._endDirectiveNamesAndHandlers.keys():
-            if self.find(key, pos) == pos:
+            if self.find(key, pos) == pos \
+                    and not identRE.match(self.src(), pos + len(key)):
                 directiveName = key
                 break
         if not directiveName:
             raise ParseError(self, msg='Invalid end directive')
+        if directiveName in self._closeableDirectives:
+            self.popFromOpenDirectivesStack(directiveName)
 
         endOfFirstLinePos = self.findEOL()
         self.getExpression()  # eat in any extra comment-like crap
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-        if directiveName in self._closeableDirectives:
-            self.popFromOpenDirectivesStack(directiveName)
 
         # subclasses can override the default behaviours here
         # by providing an end-directive handler
-- 
2.43.0


From a1a28650942b7cd7eae449144827f860f8c287d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 36/92] fix: refuse #else, #elif, #except and #finally in
 blocks without them

"#capture x ... #except ... #end capture" was accepted.
---
 Cheetah/Parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 64740f3..0c4ad31 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1817,6 +1817,12 @@ class _HighLevelParser(_LowLevelParser):
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLine)
         return expr
 
+    _directivesWithClause = {
+        'else': ('if', 'unless', 'for', 'while', 'repeat', 'try'),
+        'elif': ('if', 'unless'),
+        'except': ('try',),
+        'finally': ('try',)}
+
     def eatSimpleIndentingDirective(self, directiveName, callback,
                                     includeDirectiveNameInExpr=False):
         # filtered
@@ -1846,6 +1852,10 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
         else:
+            if directiveName in self._directivesWithClause \
+                    and (self._openDirectivesStack[-1:] or [None])[0] \
+                    not in self._directivesWithClause[directiveName]:
+                raise ParseError(self, msg='Misplaced #%s' % directiveName)
             if self.peek() == ':':
                 self.advance()
             self.getWhiteSpace()
-- 
2.43.0


From 13dd0fe05774e90aee323ceac294fbc1267aab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 37/92] fix: restore the search list after nested closures

---
 Cheetah/Parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0c4ad31..1516a7f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1913,7 +1913,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchListStack.pop())
 
     # specific directive eat methods
 
@@ -2183,7 +2183,7 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName == 'def' and not isNestedDef):
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
-            self._useSearchList_orig = self.setting('useSearchList')
+            self._useSearchListStack.append(self.setting('useSearchList'))
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
@@ -2809,7 +2809,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.closeDef()
         else:
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchListStack.pop())
             self._compiler.commitStrConst()
             self._compiler.dedent()
     ###
-- 
2.43.0


From 3feedc88fee30da249e7c7472cb7042202a99dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 38/92] fix: #arg outside of a #call is a parse error

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1516a7f..b795795 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2642,6 +2642,8 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg found outside of a #call')
         if self.peek() == ':':
             self.getc()
         else:
-- 
2.43.0


From 111f9531316679cccb66c3342cbdd506af7f6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 39/92] fix: line numbers of errors in templates with
 two-character line ends

The report of an error at the end of a CRLF template raised TypeError, and
split lines at characters which are not line ends.
---
 Cheetah/SourceReader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 92b0be3..f5dabf8 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -61,16 +61,21 @@ class SourceReader(object):
 
     def splitlines(self):
         if not hasattr(self, '_srcLines'):
-            self._srcLines = self._src.splitlines()
+            # the same line ends as in _EOLs
+            self._srcLines = re.split('\r\n|\r|\n', self._src)
+            if not self._srcLines[-1] and len(self._srcLines) > 1:
+                del self._srcLines[-1]
         return self._srcLines
 
     def lineNum(self, pos=None):
         if pos is None:
             pos = self._pos
 
-        for i in range(len(self._BOLs)):
-            if pos >= self._BOLs[i] and pos <= self._EOLs[i]:
+        # a position inside a two-character EOL is on the line it ends
+        for i in range(len(self._BOLs) - 1, 0, -1):
+            if pos >= self._BOLs[i]:
                 return i
+        return 0
 
     def getRowCol(self, pos=None):
         if pos is None:
-- 
2.43.0


From ff5e1e0a071050f7e495492406b74c1e9264d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:22 +0000
Subject: [PATCH 40/92] fix: report Python errors without a line number as
 parse errors

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e81c64a..e72307a 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -2047,7 +2047,7 @@ def genParserErrorFromPythonException(source, file,
     formatedExc = sio.getvalue()
 
     if hasattr(exception, 'lineno'):
-        pyLineno = exception.lineno
+        pyLineno = exception.lineno or 1
     else:
         pyLineno = int(
             re.search('[ \t]*File.*line (\\d+)', formatedExc).group(1))
-- 
2.43.0


From 7b954638d9cd48cffb8b865c19a497fba7ce07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:38 +0000
Subject: [PATCH 41/92] fix: empty and backslash-containing c'...' strings
 compile

---
 Cheetah/Parser.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b795795..450d170 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1289,12 +1289,8 @@ class _LowLevelParser(SourceReader):
         At the moment only Cheetah's c'$placeholder strings' are transformed.
         """
         if token == 'c' and not self.atEnd() and self.peek() in '\'"':
-            nextToken = self.getPyToken()
-            token = nextToken.upper()
-            theStr = eval(token)
+            token = self.getPyToken()
             endPos = self.pos()
-            if not theStr:
-                return
 
             if token.startswith(single3) or token.startswith(double3):
                 startPosIdx = 3
-- 
2.43.0


From 46314d26c1db1ce4de229292ca1dba53ca5f88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:13 +0000
Subject: [PATCH 42/92] fix: keep the text before a #raw section

---
 Cheetah/Parser.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 450d170..ae1e8da 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1781,16 +1781,12 @@ class _HighLevelParser(_LowLevelParser):
         textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
-        endOfFirstLinePos = self.findEOL()
-
         if self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             self.readToEOL(gobble=True)
 
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
         return textEaten
 
     def eatSimpleExprDirective(self, directiveName,
-- 
2.43.0


From c9360d0c8a10b3bcbc3418193794d6d84fa68884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:13 +0000
Subject: [PATCH 43/92] fix: an escaped # at the end of a line is not an EOL
 slurp token

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ae1e8da..f052822 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -516,7 +516,8 @@ class _LowLevelParser(SourceReader):
 
         if self.setting('EOLSlurpToken'):
             self.EOLSlurpRE = cachedRegex(
-                escapeRegexChars(self.setting('EOLSlurpToken'))
+                escCharLookBehind
+                + escapeRegexChars(self.setting('EOLSlurpToken'))
                 + r'[ \t\f]*'
                 + r'(?:' + EOL + ')'
             )
-- 
2.43.0


From 50d2960ed7a515d6aa06a4b9e0510760a6aa96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:13 +0000
Subject: [PATCH 44/92] fix: recognise a custom EOLSlurpToken

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index f052822..f02a966 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -442,7 +442,8 @@ class _LowLevelParser(SourceReader):
             + self.setting('multiLineCommentStartToken')[0]
             + self.setting('cheetahVarStartToken')[0]
             + self.setting('directiveStartToken')[0]
-            + self.setting('PSPStartToken')[0])
+            + self.setting('PSPStartToken')[0]
+            + (self.setting('EOLSlurpToken') or '')[:1])
         self._nonStrConstMatchers = [
             self.matchCommentStartToken,
             self.matchMultiLineCommentStartToken,
-- 
2.43.0


From be00f230fcaa94a84c0c477eff2b4a2ffce4416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:13 +0000
Subject: [PATCH 45/92] fix: find the end of nested multi-line comments

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index f02a966..68acfc0 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1631,9 +1631,10 @@ class _HighLevelParser(_LowLevelParser):
             elif self.matchMultiLineCommentEndToken():
                 self.getMultiLineCommentEndToken()
                 level -= 1
-            if not level:
-                break
-            self.advance()
+                if not level:
+                    break
+            else:
+                self.advance()
         comm = self.readTo(endPos, start=startPos)
 
         if not self.atEnd():
-- 
2.43.0


From f6da59201a1bdb3f0c012e522d2fa881900a0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:24 +0000
Subject: [PATCH 46/92] fix: keep the text before a #def or #compiler-settings
 block

---
 Cheetah/Parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 68acfc0..b3c5eab 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1757,6 +1757,8 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.handleWSBeforeDirective()
 
     def _eatToThisEndDirective(self, directiveName):
+        # what precedes this block is not on the line of what follows it
+        self._compiler.commitStrConst()
         finalPos = endRawPos = startPos = self.pos()
         directiveChar = self.setting('directiveStartToken')[0]
         isLineClearToStartToken = False
@@ -2166,6 +2168,8 @@ class _HighLevelParser(_LowLevelParser):
         signature = self[startPos:self.pos()]
         endOfFirstLinePos = self.findEOL()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
+        # what precedes the definition is not on the line of what follows it
+        self._compiler.commitStrConst()
         signature = ' '.join([line.strip() for line in signature.splitlines()])
         parserComment = ('## CHEETAH: generated from ' + signature
                          + ' at line %s, col %s' % self.getRowCol(startPos)
-- 
2.43.0


From 93ff93d8f50b73a08a8cb10f085c59b504702408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:50 +0000
Subject: [PATCH 47/92] fix: a placeholder ends at text following its closing
 bracket

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b3c5eab..bbecab9 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -955,6 +955,8 @@ class _LowLevelParser(SourceReader):
             autoCall = True
             if not self.peek() in identchars + '.':
                 break
+            elif chunks and self.peek() != '.':
+                break  # text right after a closing bracket
             elif self.peek() == '.':
 
                 if self.pos() + 1 < len(self) and self.peek(1) in identchars:
-- 
2.43.0


From ba61050c1f8e97b1cbed23dd0391d37ef266db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:50 +0000
Subject: [PATCH 48/92] fix: a brace after a subscript is not part of the
 placeholder

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index bbecab9..eff0d56 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1198,6 +1198,8 @@ class _LowLevelParser(SourceReader):
             c = self.peek()
             if endsWithEnclosure and not enclosures:
                 break
+            elif enclosed and not enclosures and exprBits and c == '{':
+                break
             elif c in "{([":
                 exprBits.append(c)
                 enclosures.append((c, self.pos()))
-- 
2.43.0


From bc3cb50e2d982633a51254a84e9af64e8c3aefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 49/92] fix: a subscript or call after a call is part of the
 placeholder

---
 Cheetah/Parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index eff0d56..4ba3093 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -967,10 +967,11 @@ class _LowLevelParser(SourceReader):
 
             dottedName = self.getDottedName()
             if not self.atEnd() and self.peek() in '([':
-                if self.peek() == '(':
-                    rest = self.getCallArgString()
-                else:
-                    rest = self.getExpression(enclosed=True)
+                while not self.atEnd() and self.peek() in '([':
+                    if self.peek() == '(':
+                        rest += self.getCallArgString()
+                    else:
+                        rest += self.getExpression(enclosed=True)
 
                 period = max(dottedName.rfind('.'), 0)
                 if period:
-- 
2.43.0


From 31d37f844e8f9bcb0bf7327de4af1c35e315602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:35 +0000
Subject: [PATCH 50/92] fix: a line break inside an expression separates its
 words

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4ba3093..e0a8a88 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1237,9 +1237,11 @@ class _LowLevelParser(SourceReader):
                     self.advance()
                     raise ParseError(self, msg='Line ending expected')
                 self.setPos(eolMatch.end())
+                exprBits.append(' ')
             elif c in '\r\n':
                 if enclosures:
                     self.advance()
+                    exprBits.append(' ')
                 else:
                     break
             elif self.matchCheetahVarInExpressionStartToken():
-- 
2.43.0


From 6ae3d1f77334af06a92d6adf883ca224d9085842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:35 +0000
Subject: [PATCH 51/92] fix: placeholder names in a generator expression given
 as an argument

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index e0a8a88..ddd3ecd 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1061,6 +1061,9 @@ class _LowLevelParser(SourceReader):
                     token = self.getExpression(enclosed=True)
                 token = self.transformToken(token, beforeTokenPos)
                 addBit(token)
+                if token == 'for':
+                    addBit(self.getExpression(
+                        useNameMapper=False, pyTokensToBreakAt=['in']))
 
         if useNameMapper is not Unspecified:
             # @@TR: see comment above
-- 
2.43.0


From f44c1969f73b5bf606d43a2d0428ae3182e6db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:58 +0000
Subject: [PATCH 52/92] fix: escaped quotes in triple-quoted strings

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ddd3ecd..35d4f81 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -141,7 +141,7 @@ tripleQuotedStringREs = {}
 def makeTripleQuoteRe(start, end):
     start = escapeRegexChars(start)
     end = escapeRegexChars(end)
-    return re.compile(r'(?:' + start + r').*?' + r'(?:' + end + r')',
+    return re.compile(r'(?:' + start + r')(?:[^\\]|\\.)*?' + r'(?:' + end + r')',
                       re.DOTALL)
 
 
-- 
2.43.0


From d4390ca7747e92c0e742485dbfdd0e7830ea83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:58 +0000
Subject: [PATCH 53/92] fix: triple-quoted byte and formatted strings

---
 Cheetah/Parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 35d4f81..7619bfa 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -129,6 +129,14 @@ tripleQuotedStringPairs = {"'''": single3, '"""': double3,
                            "UR'''": single3, 'UR"""': double3,
                            }
 
+for prefix in ('b', 'br', 'rb', 'f', 'fr', 'rf'):
+    for prefix in (prefix, prefix.upper(),
+                   prefix.title(), prefix.title().swapcase()):
+        for quotes in (single3, double3):
+            if prefix + quotes not in tripleQuotedStringPairs:
+                tripleQuotedStringStarts += (prefix + quotes,)
+                tripleQuotedStringPairs[prefix + quotes] = quotes
+
 closurePairs = {')': '(', ']': '[', '}': '{'}
 closurePairsRev = {'(': ')', '[': ']', '{': '}'}
 
-- 
2.43.0


From 6bd6396a9f933cbe75b34a1da17ef21563807176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:59 +0000
Subject: [PATCH 54/92] fix: keyword arguments given as $name in a call after a
 subscript

---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7619bfa..1719988 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -979,7 +979,9 @@ class _LowLevelParser(SourceReader):
                     if self.peek() == '(':
                         rest += self.getCallArgString()
                     else:
-                        rest += self.getExpression(enclosed=True)
+                        startPos = self.pos()
+                        rest += self.getc() + self.getExpression(
+                            enclosed=True, enclosures=[('[', startPos)])
 
                 period = max(dottedName.rfind('.'), 0)
                 if period:
-- 
2.43.0


From a1cf900df1192422646ab193740150a4270d2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:29 +0000
Subject: [PATCH 55/92] fix: a line break after the 'for' of a comprehension

---
 Cheetah/Parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1719988..4871706 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1072,6 +1072,7 @@ class _LowLevelParser(SourceReader):
                 token = self.transformToken(token, beforeTokenPos)
                 addBit(token)
                 if token == 'for':
+                    addBit(self.getWhiteSpace(WSchars=' \f\t\r\n'))
                     addBit(self.getExpression(
                         useNameMapper=False, pyTokensToBreakAt=['in']))
 
@@ -1276,6 +1277,9 @@ class _LowLevelParser(SourceReader):
                 exprBits.append(token)
                 if identRE.match(token):
                     if token == 'for':
+                        if enclosures and self.getWhiteSpace(
+                                WSchars=' \f\t\r\n'):
+                            exprBits.append(' ')
                         expr = self.getExpression(
                             useNameMapper=False, pyTokensToBreakAt=['in'])
                         exprBits.append(expr)
-- 
2.43.0


From dd802367a34581b0ff232331cf8ea504de15243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:56 +0000
Subject: [PATCH 56/92] fix: a bracketed conditional expression in #if ... then
 ... else

---
 Cheetah/Parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4871706..b206c8e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2794,10 +2794,15 @@ class _HighLevelParser(_LowLevelParser):
             trueExpr = []
             falseExpr = []
             currentExpr = conditionExpr
+            nesting = 0
             for part in expressionParts:
-                if part.strip() == 'then':
+                if part in ('(', '[', '{'):
+                    nesting += 1
+                elif part in (')', ']', '}'):
+                    nesting -= 1
+                if not nesting and part.strip() == 'then':
                     currentExpr = trueExpr
-                elif part.strip() == 'else':
+                elif not nesting and part.strip() == 'else':
                     currentExpr = falseExpr
                 else:
                     currentExpr.append(part)
-- 
2.43.0


From 30763ce2c7f0540db3be38c13922ec3a3d933b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 57/92] fix: cheetah compile --stdout failed with a TypeError
 on Python 3

---
 Cheetah/CheetahWrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..f341097 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -645,6 +645,8 @@ be named according to the same rules as Python modules.""" % tup)
                 encoding = self.opts.encoding
                 if encoding and isinstance(output, bytes):
                     output = output.decode(encoding)
+                elif isinstance(output, bytes):
+                    output = output.decode()
             sys.stdout.write(output)
         else:
             encoding = self.opts.encoding
-- 
2.43.0


From 8d9b6ab4859c661bb9a540761ffe2373dfdc16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 58/92] fix: --stdout made backups and directories of the
 outputs it does not write

---
 Cheetah/CheetahWrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index f341097..8b33ccc 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -609,7 +609,8 @@ you do have write permission to and re-run the tests.""")
         dstDir = os.path.dirname(dst)
         what = self.isCompile and "Compiling" or "Filling"
         C("%s %s -> %s^", what, src, dst)  # No trailing newline.
-        if os.path.exists(dst) and not self.opts.nobackup:
+        if os.path.exists(dst) and not self.opts.nobackup \
+                and not self.opts.stdout:
             bak = b.bak
             C(" (backup %s)", bak)  # On same line as previous message.
         else:
@@ -635,7 +636,7 @@ be named according to the same rules as Python modules.""" % tup)
 
         if bak:
             shutil.copyfile(dst, bak)
-        if dstDir and not os.path.exists(dstDir):
+        if dstDir and not self.opts.stdout and not os.path.exists(dstDir):
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-- 
2.43.0


From 180cd92b87c4a7b6a4ba97be6a7c3f70cb94c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 59/92] fix: --idir given as ./dir or dir// was repeated in the
 output paths

---
 Cheetah/CheetahWrapper.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8b33ccc..a2f9426 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -236,15 +236,11 @@ Files are %s""", args, pprint.pformat(vars(opts)), files)
                 print('\t%s (default: "%s")\t%s' % _l)
             sys.exit(0)
 
-        # cleanup trailing path separators
-        seps = [sep for sep in [os.sep, os.altsep] if sep]
+        # cleanup trailing path separators and the like
         for attr in ['idir', 'odir']:
-            for sep in seps:
-                path = getattr(opts, attr, None)
-                if path and path.endswith(sep):
-                    path = path[:-len(sep)]
-                    setattr(opts, attr, path)
-                    break
+            path = getattr(opts, attr, None)
+            if path:
+                setattr(opts, attr, os.path.normpath(path))
 
         self._fixExts()
         if opts.env:
-- 
2.43.0


From 2c9262268b10674a33068dd3e1fd50d0854ac2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 60/92] fix: output path of an absolute input beside a
 directory named alike

---
 Cheetah/CheetahWrapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index a2f9426..09c8a43 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -498,11 +498,8 @@ you do have write permission to and re-run the tests.""")
                 if odir and base.startswith(os.sep):
                     odd = odir
                     while odd != '':
-                        idx = base.find(odd)
-                        if idx == 0:
-                            dbn = base[len(odd):]
-                            if dbn[0] == '/':
-                                dbn = dbn[1:]
+                        if base.startswith(odd + os.sep):
+                            dbn = base[len(odd + os.sep):]
                             break
                         odd = os.path.dirname(odd)
                         if odd == '/':
-- 
2.43.0


From 1ebce67b7a655e13a29045223d8427dfff45f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 61/92] fix: --parallel reported success when a child was
 killed

---
 Cheetah/CheetahWrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 09c8a43..405bd22 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -385,6 +385,8 @@ you do have write permission to and re-run the tests.""")
             def child_wait():
                 pid, status = os.wait()
                 pid_pool.remove(pid)
+                if os.WIFSIGNALED(status):
+                    return os.WTERMSIG(status)
                 return os.WEXITSTATUS(status)
 
             while bundles:
-- 
2.43.0


From 3d6f39bb5b79b39492f37d647a2102a55d049894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:06 +0000
Subject: [PATCH 62/92] fix: filling standard input ignored --env, --json and
 --pickle

---
 Cheetah/CheetahWrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 405bd22..ac02efa 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -591,6 +591,7 @@ you do have write permission to and re-run the tests.""")
             output = pysrc if PY2 else pysrc.decode()
         else:
             output = str(TemplateClass(file=sys.stdin,
+                                       searchList=self.searchList,
                                        compilerSettings=compilerSettings))
         sys.stdout.write(output)
 
-- 
2.43.0


From 2f394fbdf6b3fff500ea6a0a1896ac8c2eac813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:54 +0000
Subject: [PATCH 63/92] fix: --parallel failed when two processes made an
 output directory

---
 Cheetah/CheetahWrapper.py | 6 +++++-
 Cheetah/Utils/Misc.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index ac02efa..7890b24 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -636,7 +636,11 @@ be named according to the same rules as Python modules.""" % tup)
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-                os.makedirs(dstDir)
+                try:
+                    os.makedirs(dstDir)
+                except OSError:  # made by another process meanwhile
+                    if not os.path.isdir(dstDir):
+                        raise
         if self.opts.stdout:
             if not PY2:
                 encoding = self.opts.encoding
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..00cdf41 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,7 +60,12 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:  # made by another process meanwhile
+            if os.path.isdir(path):
+                return
+            raise
         init = os.path.join(path, "__init__.py")
         f = open(init, 'w')  # Open and close to produce empty file.
         f.close()
-- 
2.43.0


From f85f6a142f6f1343b913f19cce43b855f8c1d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:36 +0000
Subject: [PATCH 64/92] fix: a template file whose relative path begins with a
 digit

---
 Cheetah/convertTmplPathToModuleName.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/convertTmplPathToModuleName.py b/Cheetah/convertTmplPathToModuleName.py
index 221d76a..c214e51 100644
--- a/Cheetah/convertTmplPathToModuleName.py
+++ b/Cheetah/convertTmplPathToModuleName.py
@@ -24,4 +24,6 @@ def convertTmplPathToModuleName(tmplPath,
     except (UnicodeError, TypeError):
         moduleName = unicode(splitdrive(tmplPath)[1])\
             .translate(unicode(_pathNameTransChars))
+    if moduleName[:1].isdigit():
+        moduleName = '_' + moduleName
     return moduleName
-- 
2.43.0


From 2d1d51b65d5ef8c258b307be92b85268e1230a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:12 +0000
Subject: [PATCH 65/92] fix: compiling added a macro to the caller's
 macroDirectives

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b206c8e..1109167 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1514,7 +1514,8 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        # copy to avoid mutation of the caller's settings
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
-- 
2.43.0


From d132edbc5b9d4f2c15f6c7c31f0f98ba9ceae04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:12 +0000
Subject: [PATCH 66/92] fix: settings directives changed nested settings of the
 caller

---
 Cheetah/SettingsManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..b74a6ea 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -37,7 +37,8 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
     for key, val in dict2.items():
         if key in dict1 and isinstance(val, dict) \
                 and isinstance(dict1[key], dict):
-            dict1[key] = mergeNestedDictionaries(dict1[key], val)
+            # copy: the nested dictionary may be shared with other settings
+            dict1[key] = mergeNestedDictionaries(dict1[key], val, copy=True)
         else:
             dict1[key] = val
     return dict1
-- 
2.43.0


From 032b19fcbb1cc9823a9f8bdc8db7895373c434c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:12 +0000
Subject: [PATCH 67/92] fix: #defmacro changed the caller's
 compilerSettingsForDefMacro

---
 Cheetah/Parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1109167..648cbd4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2464,8 +2464,9 @@ class _HighLevelParser(_LowLevelParser):
         from .Template import Template
         templateAPIClass = self.setting('templateAPIClassForDefMacro',
                                         default=Template)
-        compilerSettings = self.setting('compilerSettingsForDefMacro',
-                                        default={})
+        # copy to avoid mutation of the caller's settings
+        compilerSettings = dict(self.setting('compilerSettingsForDefMacro',
+                                             default={}))
         searchListForMacros = self.setting('searchListForDefMacro', default=[])
         # copy to avoid mutation bugs
         searchListForMacros = list(searchListForMacros)
-- 
2.43.0


From c48112311797ee8d63a0d777616caa8adf1d95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:05 +0000
Subject: [PATCH 68/92] fix: a settings reset kept the settings which have no
 default

---
 Cheetah/Compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c596af3..32eebe4 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1781,6 +1781,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
             raise AttributeError(name)
 
     def _initializeSettings(self):
+        self._settings.clear()
         self.updateSettings(copy.deepcopy(DEFAULT_COMPILER_SETTINGS))
 
     def _setupCompilerState(self):
-- 
2.43.0


From 1d9b1686f894569dfc4852531f12ccad57c6d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:05 +0000
Subject: [PATCH 69/92] fix: a settings directive undefined the macros made by
 #defmacro

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 648cbd4..2b8585e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1525,6 +1525,9 @@ class _HighLevelParser(_LowLevelParser):
             self._macros[macroName] = callback
             self._directiveNamesAndParsers[macroName] = self.eatMacroCall
 
+        for macroName in self._macroDetails:  # the ones made by #defmacro
+            self._directiveNamesAndParsers[macroName] = self.eatMacroCall
+
     def _applyExpressionFilters(self, expr, exprType,
                                 rawExpr=None, startPos=None):
         """Pipes cheetah expressions through a set of optional filter hooks.
-- 
2.43.0


From fb347a7ac8661c94a304b6b31d380bb0b7c1607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 70/92] fix: a directive after a macro call on one line dropped
 its output

---
 Cheetah/Parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2b8585e..43f4ed3 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2576,7 +2576,11 @@ class _HighLevelParser(_LowLevelParser):
         self.setPos(0)
         self.setBreakPoint(len(srcFromMacroOutput))
 
+        # the text around the output is not on the lines of the directives in
+        # it, nor is its text on the line of a directive after it
+        self._compiler.commitStrConst()
         self.parse(assertEmptyStack=False)
+        self._compiler.commitStrConst()
 
         self._src = origParseSrc
         self.setBreakPoint(origBreakPoint)
-- 
2.43.0


From d37e60782b667f7fd9e1c0d34d8e42dbdf3e2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 71/92] fix: changing useFilters or useNameMapper within a
 method broke its output

---
 Cheetah/Compiler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 32eebe4..d271422 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1180,7 +1180,9 @@ class AutoMethodCompiler(MethodCompiler):
             self.addChunk('trans = DummyTransaction()')
             self.addChunk('_dummyTrans = True')
         self.addChunk('write = trans.response().write')
-        if self.setting('useNameMapper'):
+        # (the settings may have been other ones in a part of the method)
+        if (self.setting('useNameMapper')
+                or not (self.isClassMethod() or self.isStaticMethod())):
             argNames = [arg[0] for arg in self._argStringList]
             allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
             if allowSearchListAsMethArg and 'SL' in argNames:
@@ -1191,11 +1193,10 @@ class AutoMethodCompiler(MethodCompiler):
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
                 self.addChunk('SL = [KWS]')
-        if self.setting('useFilters'):
-            if self.isClassMethod() or self.isStaticMethod():
-                self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-            else:
-                self.addChunk('_filter = self._CHEETAH__currentFilter')
+        if self.isClassMethod() or self.isStaticMethod():
+            self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
+        else:
+            self.addChunk('_filter = self._CHEETAH__currentFilter')
         self.addChunk('')
         self.addChunk("#"*40)  # noqa: E226 missing whitespace around operator
         self.addChunk('## START - generated method body')
-- 
2.43.0


From 32a9cae077d153012881a91b1a44ea4a4f27f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 72/92] fix: the import hook could not load a module with an
 encoding declaration

---
 Cheetah/ImportManager.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 3abb6ee..9411de9 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -217,14 +217,10 @@ class DirOwner(Owner):
         while True:
             if pyc is None or py and pyc[1][8] < py[1][8]:
                 try:
-                    try:
-                        with open(py[0], 'r') as py_code_file:
-                            py_code = py_code_file.read()
-                    except UnicodeDecodeError:
-                        with open(py[0], 'r', encoding='utf-8') \
-                                as py_code_file:
-                            py_code = py_code_file.read()
-                    co = compile(py_code + '\n', py[0], 'exec')
+                    with open(py[0], 'rb') as py_code_file:
+                        py_code = py_code_file.read()
+                    co = compile(py_code.replace(b'\r\n', b'\n') + b'\n',
+                                 py[0], 'exec')
                     try:
                         py_compile.compile(py[0])
                     except IOError:
-- 
2.43.0


From 02dcee05a240181de85e2420ddce2d036322ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 73/92] fix: the import hook loaded a stale compiled module
 over a replaced source

---
 Cheetah/ImportManager.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 9411de9..0e88252 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -19,6 +19,7 @@ This is a hacked/documented version of Gordon McMillan's iu.py. I have:
 
 import marshal
 import py_compile
+import struct
 import sys
 from .compat import PY2, string_type, new_module, get_suffixes, \
     load_module_from_file, cache_from_source, \
@@ -143,6 +144,22 @@ def pathIsDir(pathname):
     return (s[0] & 0o170000) == 0o040000
 
 
+def _pycIsCurrent(pyc, st):
+    """Tell if a compiled module was made from the source with this stat"""
+    with open(pyc, 'rb') as pyc_file:
+        header = pyc_file.read(16)
+    if PY2:
+        recorded, current = header[4:8], [int(st.st_mtime)]
+    elif sys.version_info[:2] >= (3, 7):
+        if header[4:8] != b'\0\0\0\0':  # not made for a modification time
+            return False
+        recorded, current = header[8:16], [int(st.st_mtime), st.st_size]
+    else:
+        recorded, current = header[4:12], [int(st.st_mtime), st.st_size]
+    return recorded == struct.pack(
+        '<%dL' % len(current), *[n & 0xFFFFFFFF for n in current])
+
+
 def getDescr(fnm):
     ext = getPathExt(fnm)
     for (suffix, mode, typ) in get_suffixes():
@@ -214,8 +231,10 @@ class DirOwner(Owner):
                 break
         if py is None and pyc is None:
             return None
+        if py and pyc and not _pycIsCurrent(pyc[0], py[1]):
+            pyc = None
         while True:
-            if pyc is None or py and pyc[1][8] < py[1][8]:
+            if pyc is None:
                 try:
                     with open(py[0], 'rb') as py_code_file:
                         py_code = py_code_file.read()
-- 
2.43.0


From 1ddfc00d17cff3f47949cd9dd036133e065cdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 74/92] fix: the import hook kept a module whose import failed

---
 Cheetah/ImportManager.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 0e88252..c0777fe 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -534,7 +534,9 @@ class ImportManager:
                 if not hasattr(bottommod, nm):
                     if self.threaded:
                         self._acquire()
-                    mod = self.doimport(nm, ctx, ctx + '.' + nm)
+                    mod = _sys_modules_get(ctx + '.' + nm, UNTRIED)
+                    if mod is UNTRIED:
+                        mod = self.doimport(nm, ctx, ctx + '.' + nm)
                     if self.threaded:
                         self._release()
                     if not mod:
@@ -553,8 +555,6 @@ class ImportManager:
                     subimporter = PathImportDirector(parent.__path__)
                     importfunc = parent.__importsub__ = subimporter.getmod
                 mod = importfunc(nm)
-                if mod:
-                    setattr(parent, nm, mod)
             else:
                 return None
         else:
@@ -575,7 +575,13 @@ class ImportManager:
             if hasattr(mod, '__co__'):
                 co = mod.__co__
                 del mod.__co__
-                exec(co, mod.__dict__)
+                try:
+                    exec(co, mod.__dict__)
+                except BaseException:
+                    sys.modules.pop(fqname, None)
+                    raise
+            if parentnm:
+                setattr(parent, nm, mod)
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
         else:
-- 
2.43.0


From 2b25548916785ff26a7b5d53fb5774f9133056d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 75/92] fix: a failed "from package import name" blocked
 importing it later

---
 Cheetah/ImportManager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index c0777fe..ee4e487 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -540,6 +540,7 @@ class ImportManager:
                     if self.threaded:
                         self._release()
                     if not mod:
+                        del sys.modules[ctx + '.' + nm]
                         raise ModuleNotFoundError(
                             "%s not found in %s" % (nm, ctx))
         return bottommod
-- 
2.43.0


From 949d71e7173d1778c6e871eb48491925fd7ddb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 76/92] fix: importing a submodule of a plain module raised
 KeyError

---
 Cheetah/ImportManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index ee4e487..c22d136 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -513,7 +513,7 @@ class ImportManager:
         if i < len(nmparts):
             if ctx and hasattr(sys.modules[ctx], nmparts[i]):
                 return sys.modules[nmparts[0]]
-            del sys.modules[fqname]
+            sys.modules.pop(fqname, None)
             raise ModuleNotFoundError("No module named %s" % fqname)
         if fromlist is None:
             if context:
-- 
2.43.0


From 12a17a189dcef8be566a99700030c0698eba43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 77/92] fix: __import__ of a dotted name with an empty
 fromlist, with import hooks

---
 Cheetah/ImportManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index c22d136..3b350a2 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -515,7 +515,7 @@ class ImportManager:
                 return sys.modules[nmparts[0]]
             sys.modules.pop(fqname, None)
             raise ModuleNotFoundError("No module named %s" % fqname)
-        if fromlist is None:
+        if not fromlist:
             if context:
                 return sys.modules[context + '.' + nmparts[0]]
             return sys.modules[nmparts[0]]
-- 
2.43.0


From 0f280c1ced948e849ef70344211fb630a9c4f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 78/92] fix: the import hook took every relative import for
 "from ."

---
 Cheetah/ImportManager.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 3b350a2..f753519 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -461,9 +461,7 @@ class ImportManager:
     def importHook(self, name, globals=None, locals=None,
                    fromlist=None, level=-1):
         '''
-        NOTE: Currently importHook will accept the keyword-argument "level"
-        but it will *NOT* use it. Details about the "level" keyword
-        argument can be found here:
+        Details about the "level" keyword argument can be found here:
         https://docs.python.org/2/library/functions.html#__import__
         '''
         # first see if we could be importing a relative name
@@ -478,6 +476,15 @@ class ImportManager:
                     pkgnm = packageName(importernm)
                     if pkgnm:
                         contexts.insert(0, pkgnm)
+        if level > 0:
+            # an explicit relative import: only that package will do
+            pkgnm = contexts[0]
+            for _ in range(level - 1):
+                pkgnm = pkgnm and packageName(pkgnm)
+            if not pkgnm:
+                raise ImportError("attempted relative import "
+                                  "beyond top-level package")
+            contexts = [pkgnm]
         # so contexts is [pkgnm, None] or just [None]
         # now break the name being imported up so we get:
         # a.b.c -> [a, b, c]
-- 
2.43.0


From 46fb5661b46cc7152b7ab3ceb1fc0f32581327dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 79/92] fix: a template compiled to invalid code stayed in the
 way of its repair

---
 Cheetah/ImportHooks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 00d6dca..85aedca 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -83,6 +83,7 @@ class CheetahDirOwner(DirOwner):
         # @@ consider adding an ImportError raiser here
         code = str(Compiler(file=tmplPath, moduleName=name,
                             mainClassName=name))
+        compile(code + '\n', tmplPath, 'exec')  # don't save invalid code
         if _cacheDir:
             __file__ = os.path.join(
                 _cacheDir[0], convertTmplPathToModuleName(tmplPath)) + '.py'
-- 
2.43.0


From 5c0a9ea1e0aaae84c5c1815f11ce8b062d0378e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 80/92] fix: uninstalling the import hooks left their reload
 function

---
 Cheetah/ImportHooks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 85aedca..6b503c2 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -124,7 +124,8 @@ def install(templateFileExtensions=('.tmpl',)):
         CheetahDirOwner.templateFileExtensions = templateFileExtensions
         if isinstance(builtin.__import__,
                       (types.BuiltinFunctionType, types.FunctionType)):
-            global __oldimport__
+            global __oldimport__, __oldreload__
+            __oldreload__ = getattr(builtin, 'reload', None)
             ImportManager.__oldimport__ = __oldimport__ = builtin.__import__
             ImportManager._globalOwnerTypes.insert(0, CheetahDirOwner)
             global _manager
@@ -140,6 +141,10 @@ def uninstall():
     if _installed:
         if isinstance(builtin.__import__, types.MethodType):
             builtin.__import__ = __oldimport__
+            if __oldreload__ is None:
+                del builtin.reload
+            else:
+                builtin.reload = __oldreload__
             if ImportManager._globalOwnerTypes[0] is CheetahDirOwner:
                 del ImportManager._globalOwnerTypes[0]
             del ImportManager.__oldimport__
-- 
2.43.0


From e45c909110f13bedb2bca326545ab54f91f118a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 81/92] fix: loadTemplateModule kept a module which failed to
 load

---
 Cheetah/LoadTemplate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/LoadTemplate.py b/Cheetah/LoadTemplate.py
index 28d4394..1f75c7d 100644
--- a/Cheetah/LoadTemplate.py
+++ b/Cheetah/LoadTemplate.py
@@ -37,7 +37,11 @@ def loadTemplateModule(templatePath, debuglevel=0):
     sys.modules[filename] = mod
     co = mod.__co__
     del mod.__co__
-    exec(co, mod.__dict__)
+    try:
+        exec(co, mod.__dict__)
+    except BaseException:
+        sys.modules.pop(filename, None)
+        raise
     return mod
 
 
-- 
2.43.0


From f0bc8d770c7d27755f8aef4347fcda10cec9f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:06 +0000
Subject: [PATCH 82/92] fix: webInput gave the first byte of an uploaded file

---
 Cheetah/Utils/WebInputMixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Utils/WebInputMixin.py b/Cheetah/Utils/WebInputMixin.py
index b753bb0..ba7296c 100644
--- a/Cheetah/Utils/WebInputMixin.py
+++ b/Cheetah/Utils/WebInputMixin.py
@@ -49,12 +49,13 @@ def _lookup(name, func, multi, converters):
         values = func(longName, None) or func(shortName, None)
     else:
         values = func(shortName, None)
-    # 'values' is a list of strings, a string or None.
+    # 'values' is a list of values, one value (a string; or bytes, if it is
+    # an uploaded file) or None.
 
     # Step 3 -- Coerce 'values' to a list of zero, one or more strings.
     if values is None:
         values = []
-    elif isinstance(values, str):
+    elif not isinstance(values, (list, tuple)):
         values = [values]
 
     # Step 4 -- Find a _Converter object or raise TypeError.
-- 
2.43.0


From 6de67720470fa6ae5bc33868d41c925afc568cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 83/92] fix: keep all attributes and methods of a Template
 subclass given a source

---
 Cheetah/Template.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e72307a..41d319f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1689,23 +1689,20 @@ class Template(Servlet):
                                      compilerSettings=compilerSettings,
                                      keepRefToGeneratedCode=True)
 
-        if not self.__class__ == Template:
-            # Only propogate attributes if we're in a subclass of
-            # Template
-            for k, v in self.__class__.__dict__.items():
-                if not v or k.startswith('__'):
-                    continue
-                # Propogate the class attributes to the instance
-                # since we're about to obliterate self.__class__
-                # (see: cheetah.Tests.Tepmlate.SubclassSearchListTest)
-                setattr(self, k, v)
-
+        subclass = self.__class__
         self.__class__ = templateClass
         # must initialize it so instance attributes are accessible
         templateClass.__init__(self,
                                # _globalSetVars=self._CHEETAH__globalSetVars,
                                # _preBuiltSearchList=self._CHEETAH__searchList
                                )
+        if subclass is not Template:
+            # Keep the attributes and methods of the subclass of Template
+            # since we've just obliterated self.__class__
+            # (see: cheetah.Tests.Tepmlate.SubclassSearchListTest)
+            self.__class__ = type(templateClass.__name__,
+                                  (templateClass, subclass),
+                                  {'__module__': templateClass.__module__})
         if not hasattr(self, 'transaction'):
             self.transaction = None
 
-- 
2.43.0


From 21b29423c71bc9f50748d91582a807047321c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:39 +0000
Subject: [PATCH 84/92] fix: macro output longer than the template

---
 Cheetah/Parser.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 43f4ed3..7ac7c3d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2567,14 +2567,13 @@ class _HighLevelParser(_LowLevelParser):
 
         srcFromMacroOutput = macro(**kwArgs)
 
-        origParseSrc = self._src
-        origBreakPoint = self.breakPoint()
-        origPos = self.pos()
+        # the output of the macro is a source of its own
+        readerState = dict((name, self.__dict__[name])
+                           for name in vars(SourceReader('')))
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
-        self._src = srcFromMacroOutput
-        self.setPos(0)
-        self.setBreakPoint(len(srcFromMacroOutput))
+        SourceReader.__init__(self, srcFromMacroOutput, self.filename())
+        self.__dict__.pop('_srcLines', None)
 
         # the text around the output is not on the lines of the directives in
         # it, nor is its text on the line of a directive after it
@@ -2582,9 +2581,8 @@ class _HighLevelParser(_LowLevelParser):
         self.parse(assertEmptyStack=False)
         self._compiler.commitStrConst()
 
-        self._src = origParseSrc
-        self.setBreakPoint(origBreakPoint)
-        self.setPos(origPos)
+        self.__dict__.update(readerState)
+        self.__dict__.pop('_srcLines', None)
 
         # self._compiler.addRawText('end')
 
-- 
2.43.0


From 391aec99e0d181673d0c3ee084a44a7eb73be6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:27 +0000
Subject: [PATCH 85/92] fix: exprType of #silent and #echo, which could also
 open a directive

---
 Cheetah/Parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7ac7c3d..38a6195 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1834,7 +1834,6 @@ class _HighLevelParser(_LowLevelParser):
         expr = self.getExpression().strip()
         if not expr:
             raise ParseError(self, msg='Expression expected')
-        directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
         if directiveName in self._closeableDirectives:
-- 
2.43.0


From 1bfdb64ff0689f36955f5feedf6b3beda224d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:27 +0000
Subject: [PATCH 86/92] fix: show the arguments of #call to the expression
 filter hooks

---
 Cheetah/Parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 38a6195..00dee1b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2637,12 +2637,11 @@ class _HighLevelParser(_LowLevelParser):
         else:
             functionName = self.getCheetahVar(plain=True, skipStartToken=True)
         self.setSetting('useAutocalling', useAutocallingOrig)
+        self.getWhiteSpace()
+        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         # @@TR: fix up filtering
         self._applyExpressionFilters(self[startPos:self.pos()], 'call',
                                      startPos=startPos)
-
-        self.getWhiteSpace()
-        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From d68882754cf42e6c1be00bfc32e0a83b0b83601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:21 +0000
Subject: [PATCH 87/92] fix: #del of a placeholder

---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 00dee1b..3c82a3a 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1831,7 +1831,9 @@ class _HighLevelParser(_LowLevelParser):
         if not includeDirectiveNameInExpr:
             self.advance(len(directiveName))
         startPos = self.pos()
-        expr = self.getExpression().strip()
+        # #del deletes the variables themselves
+        expr = self.getExpression(
+            useNameMapper=(directiveName != 'del')).strip()
         if not expr:
             raise ParseError(self, msg='Expression expected')
         expr = self._applyExpressionFilters(expr, directiveName,
-- 
2.43.0


From f8e034bf534ee2b22a4ba715533874c76c94dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:49 +0000
Subject: [PATCH 88/92] fix: one class for the instances of a Template subclass
 given one source

---
 Cheetah/Template.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 41d319f..6234707 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1700,9 +1700,14 @@ class Template(Servlet):
             # Keep the attributes and methods of the subclass of Template
             # since we've just obliterated self.__class__
             # (see: cheetah.Tests.Tepmlate.SubclassSearchListTest)
-            self.__class__ = type(templateClass.__name__,
-                                  (templateClass, subclass),
-                                  {'__module__': templateClass.__module__})
+            classes = templateClass.__dict__.get('_CHEETAH_subclasses')
+            if classes is None:
+                classes = templateClass._CHEETAH_subclasses = {}
+            if subclass not in classes:
+                classes[subclass] = type(
+                    templateClass.__name__, (templateClass, subclass),
+                    {'__module__': templateClass.__module__})
+            self.__class__ = classes[subclass]
         if not hasattr(self, 'transaction'):
             self.transaction = None
 
-- 
2.43.0


From f8739b4df2593b0c5dc933af3097b296e7cb9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:01 +0000
Subject: [PATCH 89/92] fix: keep the words "else if" in the strings of an
 #elif

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index d271422..a4ec637 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -666,7 +666,7 @@ class MethodCompiler(GenUtils):
         self.dedent()
 
     def addElse(self, expr, dedent=True, lineCol=None):
-        expr = re.sub(r'else[ \f\t]+if', 'elif', expr)
+        expr = re.sub(r'^else[ \f\t]+if', 'elif', expr)
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addElif(self, expr, dedent=True, lineCol=None):
-- 
2.43.0


From d9db93e3c9200756ed04b38821678617385e603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:01 +0000
Subject: [PATCH 90/92] fix: #set of plain names that begin with local, global
 or module

---
 Cheetah/Parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3c82a3a..63c4407 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2325,14 +2325,16 @@ class _HighLevelParser(_LowLevelParser):
         self.advance(3)
         self.getWhiteSpace()
         style = SET_LOCAL
-        if self.startswith('local'):
+        match = self.matchIdentifier()
+        word = match and match.group()
+        if word == 'local':
             self.getIdentifier()
             self.getWhiteSpace()
-        elif self.startswith('global'):
+        elif word == 'global':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_GLOBAL
-        elif self.startswith('module'):
+        elif word == 'module':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_MODULE
-- 
2.43.0


From 0e02539b437d89f494e435e00b4dc08f92268883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:01 +0000
Subject: [PATCH 91/92] fix: #include of plain names that begin with raw or
 source

---
 Cheetah/Parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 63c4407..f555967 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2399,12 +2399,14 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         includeFrom = 'file'
         isRaw = False
-        if self.startswith('raw'):
+        match = self.matchIdentifier()
+        if match and match.group() == 'raw':
             self.advance(3)
             isRaw = True
 
         self.getWhiteSpace()
-        if self.startswith('source'):
+        match = self.matchIdentifier()
+        if match and match.group() == 'source':
             self.advance(len('source'))
             includeFrom = 'str'
             self.getWhiteSpace()
-- 
2.43.0


From c860e0f06d4fe32ad25e1ffa65c95e608d7cf7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 92/92] fix: keep the errors listed by the catcher given at
 creation

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 6234707..8cb2e96 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1648,7 +1648,7 @@ class Template(Servlet):
                 errorCatcherClass = errorCatcher
 
             self._CHEETAH__errorCatcher = ec = errorCatcherClass(self)
-            self._CHEETAH__errorCatchers[errorCatcher.__class__.__name__] = ec
+            self._CHEETAH__errorCatchers[errorCatcherClass.__name__] = ec
 
         else:
             self._CHEETAH__errorCatcher = None
-- 
2.43.0

