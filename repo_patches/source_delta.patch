From 0be8ed3f29c59cdcffea01913ab4aae51b6006b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:41 +0000
Subject: [PATCH 01/60] fix: keep XML mode when structure is inserted into an
 XML template

Text inserted with tal:content="structure ..." was compiled in HTML mode.
Interpreting it switched the rest of the XML template to HTML output, and a
later metal:use-macro failed with "incompatible mode".
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..d263902 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -809,7 +809,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 0b3271b45fac099392bf4f1d18c4d072d2076115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:43 +0000
Subject: [PATCH 02/60] fix: do not modify the compiled program while rendering

Rendering tal:replace="structure ..." with tal:attributes removed entries
from the attribute replacements stored in the compiled program.  The second
rendering, or the second pass of a loop, no longer replaced the attribute.
---
 src/zope/tal/talgenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..412cfac 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -464,6 +464,9 @@ class TALGenerator:
         # (name, value, action, expr, xlat, msgid)
         if not repldict:
             return attrlist
+        # Work on a copy; the caller's dictionary may be part of a compiled
+        # program that will be interpreted again.
+        repldict = dict(repldict)
         newlist = []
         for item in attrlist:
             key = item[0]
-- 
2.43.0


From 2aca40a75baf8dc445aeb6602583d5beef199881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:06 +0000
Subject: [PATCH 03/60] fix: accept empty tal:block elements in XML templates

An empty element in the TAL namespace without any dynamic attribute was
compiled to a broken instruction.  Rendering it failed with a TypeError.
---
 src/zope/tal/talgenerator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 412cfac..111b26e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -258,7 +258,13 @@ class TALGenerator:
         start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
             # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            opcode, args = start[-1]
+            if opcode == "startTag":
+                start[-1] = ("startEndTag", args)
+            else:
+                # The start tag has already been optimized to plain text
+                text, column = args
+                start[-1] = (opcode, (text[:-1] + "/>", column + 1))
             isend = 1
         cexpr = optTag[0]
         if cexpr:
-- 
2.43.0


From 49e74de587d65f236a58cf5a4b973b986e563cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:08 +0000
Subject: [PATCH 04/60] fix: close the translation unit of elements with
 tal:content

After an element with both i18n:translate and tal:content the compiler still
considered itself inside a translation unit.  A misplaced i18n:name was
accepted and made rendering fail with an IndexError.
---
 src/zope/tal/talgenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 111b26e..7054ab6 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -797,8 +797,9 @@ class TALGenerator:
         #
         # Still, we should emit insertTranslation opcode before i18nVariable
         # in case tal:content, i18n:translate and i18n:name in the same tag
-        if not content and msgid is not None:
-            self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
+            if not content:
+                self.emitTranslation(msgid, i18ndata)
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From d8926fad5edb9e9832eadeac31c532e0650c0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:09 +0000
Subject: [PATCH 05/60] fix: forget interrupted macros and translations in
 tal:on-error

An error inside a macro left the macro on the stack after tal:on-error had
handled it.  Its slot fillers then showed up in unrelated content, and the
nesting limit was reached too early.  Interrupted translation units and the
source file of the macro leaked the same way.
---
 src/zope/tal/talinterpreter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d263902..2d15390 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -238,11 +238,13 @@ class TALInterpreter:
 
     def saveState(self):
         return (self.position, self.col, self.stream, self._stream_stack,
-                self.scopeLevel, self.level, self.i18nContext)
+                self.scopeLevel, self.level, self.i18nContext,
+                (len(self.macroStack), self.inUseDirective,
+                 len(self.i18nStack), self.sourceFile))
 
     def restoreState(self, state):
         (self.position, self.col, self.stream,
-         self._stream_stack, scopeLevel, level, i18n) = state
+         self._stream_stack, scopeLevel, level, i18n, nesting) = state
         if self._pending_source_annotation:
             self._stream_write = self._annotated_stream_write
         else:
@@ -253,10 +255,17 @@ class TALInterpreter:
             self.scopeLevel = self.scopeLevel - 1
         self.engine.setPosition(self.position)
         self.i18nContext = i18n
+        # Drop whatever an interrupted macro or translation left behind.
+        macros, self.inUseDirective, translations, sourceFile = nesting
+        del self.macroStack[macros:]
+        del self.i18nStack[translations:]
+        if self.sourceFile != sourceFile:
+            self.engine.setSourceFile(sourceFile)
+            self.sourceFile = sourceFile
 
     def restoreOutputState(self, state):
         (dummy, self.col, self.stream,
-         self._stream_stack, scopeLevel, level, i18n) = state
+         self._stream_stack, scopeLevel, level, i18n, nesting) = state
         if self._pending_source_annotation:
             self._stream_write = self._annotated_stream_write
         else:
-- 
2.43.0


From 241cedf8228b8b39fae8c4858d5dee097e903754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:22 +0000
Subject: [PATCH 06/60] fix: keep marked sections in HTML templates

CDATA sections and conditional sections like <![if IE]> silently vanished
from the output of HTML templates.
---
 src/zope/tal/htmltalparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..db56220 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -300,6 +300,12 @@ class HTMLTALParser(HTMLParser):
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
+    def unknown_decl(self, data):
+        # Marked sections such as <![CDATA[...]]> and <![if ...]>
+        if data.startswith("CDATA["):
+            data += "]"
+        self.gen.emitRawText("<![%s]>" % data)
+
     # Internal thingies
 
     def scan_xmlns(self, attrs):
-- 
2.43.0


From 89f779b05b6b670f949aed04a463f39c73fc4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:43 +0000
Subject: [PATCH 07/60] fix: tolerate i18n:attributes on absent and boolean
 attributes

Rendering failed when i18n:attributes named an attribute that the element
does not have, or one that has no value.  For boolean HTML attributes without
tal:attributes the engine was asked to evaluate a missing expression.
---
 src/zope/tal/talinterpreter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2d15390..2e68fc8 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -495,7 +495,10 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if expr is None:
+            if action == 'insert' and not msgid:  # Nothing to translate
+                ok = 0
+        elif self.html and name.lower() in BOOLEAN_HTML_ATTRS:
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -504,7 +507,7 @@ class TALInterpreter:
                 value = None
             else:
                 ok = 0
-        elif expr is not None:
+        else:
             evalue = self.engine.evaluateText(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -515,7 +518,7 @@ class TALInterpreter:
                 value = evalue
 
         if ok:
-            if xlat:
+            if xlat and (msgid or value is not None):
                 translated = self.translate(msgid or value, value)
                 if translated is not None:
                     value = translated
-- 
2.43.0


From 93d86d47171867d961a9a274b608b4bb4334646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:45 +0000
Subject: [PATCH 08/60] fix: report structure in i18n:data as a template error

The compiler failed with an AssertionError without a source position.
---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 7054ab6..623666e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -363,7 +363,9 @@ class TALGenerator:
         else:
             key, expr = parseSubstitution(i18ndata)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
+            if key != 'text':
+                raise I18NError("i18n:data cannot be a structure: %r"
+                                % i18ndata, self.position)
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 3070d54c2efb46b70cb8c73c4a3d0d8c24497190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 09/60] fix: warn instead of failing when only one message has
 a default

Message extraction stopped with an AttributeError when the same message id
was used both with and without a default text.
---
 src/zope/tal/talgettext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..c7483c0 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,9 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     (msgid.default or msgid).encode('utf-8'),
+                     (existing_msgid.default
+                      or existing_msgid).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From 18bdc8ffe54e57d546e678dbc66d321cd8867e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:48 +0000
Subject: [PATCH 10/60] fix: report the position of the element being processed

From the second pass of a tal:repeat on, the statements of the repeated
element were attributed to the last element processed inside the loop.  The
same happened to i18n:translate and i18n:data after nested elements.
---
 src/zope/tal/talinterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2e68fc8..5138869 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -737,12 +737,15 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+        if self.position != position:
+            self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -853,8 +856,11 @@ class TALInterpreter:
 
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
+        position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
+            if self.position != position:
+                self.do_setPosition(position)
             self.interpret(block)
     bytecode_handlers["loop"] = do_loop
 
-- 
2.43.0


From f4366cc1e681005129e26d41de647b166bcf8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:19 +0000
Subject: [PATCH 11/60] fix: honour TAL statements on server-side scripts

All other TAL statements of a <script type="text/server-..."> element were
dropped, so that for example a script with a false tal:condition was run
nevertheless.  A type attribute without a value made the parser fail.
---
 src/zope/tal/htmltalparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index db56220..46f0168 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,9 +194,10 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if (type_attr
+                    and (type_attr[0][1] or '').startswith('text/server-')):
                 attrlist.remove(type_attr[0])
-                taldict = {'script': type_attr[0][1], 'omit-tag': ''}
+                taldict.update({'script': type_attr[0][1], 'omit-tag': ''})
         self.tagstack.append(tag)
         self.gen.emitStartElement(tag, attrlist, taldict, metaldict, i18ndict,
                                   self.getpos())
-- 
2.43.0


From 928d00f5d3aafd08dbe5a0d5d8ea3e18caf4bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:21 +0000
Subject: [PATCH 12/60] fix: tell tal:on-error handlers where the error
 occurred

The error information carried the position of the element with tal:on-error
instead of the position of the failing element.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 5138869..a47cce0 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1022,11 +1022,12 @@ class TALInterpreter:
         # handled.
         except BaseException:
             exc = sys.exc_info()[1]
+            position = self.position
             try:
                 self.restoreState(state)
                 engine = self.engine
                 engine.beginScope()
-                error = engine.createErrorInfo(exc, self.position)
+                error = engine.createErrorInfo(exc, position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
                 # attribute.
-- 
2.43.0


From 03c53d2ffba88d51a48a0cfb850f70295529c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:23 +0000
Subject: [PATCH 13/60] fix: avoid a reference cycle after handled errors

The error information of tal:on-error was still referenced from the frame in
the traceback of the very error.  The interpreter and everything else in that
frame stayed alive until the next garbage collection.
---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a47cce0..e9f5ca7 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1033,6 +1033,8 @@ class TALInterpreter:
                 # attribute.
                 del exc
             engine.setLocal('error', error)
+            # The error information may refer to the traceback, too.
+            del error
             try:
                 self.interpret(handler)
             finally:
-- 
2.43.0


From 76b11bb1660651ada6fd0597fe7bf40733d56789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 14/60] fix: report the position of malformed tal:attributes

Errors in tal:attributes did not say where in the template they are.
---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..4f76bb5 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 623666e..9251515 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -700,7 +700,8 @@ class TALGenerator:
         if attrsubst or i18nattrs:
             if attrsubst:
                 repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                                                              self.xml,
+                                                              position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From 8cea7c8b447698954eb019650a68112bcf1247d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:26 +0000
Subject: [PATCH 15/60] fix: keep source annotations out of captured text

With source annotations enabled, the comment could end up in a message id,
in an i18n:name value or in the source of a server-side script.
---
 src/zope/tal/talinterpreter.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index e9f5ca7..6bee99f 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -147,10 +147,11 @@ class TALInterpreter:
     the value of ``_pending_source_annotation`` on every write to the output
     stream, the ``_stream_write`` attribute is changed to point to
     ``_annotated_stream_write`` method whenever ``_pending_source_annotation``
-    is set to True, and to _stream.write when it is False.  The following
-    invariant always holds::
+    is set to True, and to _stream.write when it is False or when the output
+    is being captured, e.g. for i18n:translate.  The following invariant always
+    holds::
 
-        if self._pending_source_annotation:
+        if self._pending_source_annotation and not self._stream_stack:
             assert self._stream_write is self._annotated_stream_write
         else:
             assert self._stream_write is self.stream.write
@@ -245,10 +246,7 @@ class TALInterpreter:
     def restoreState(self, state):
         (self.position, self.col, self.stream,
          self._stream_stack, scopeLevel, level, i18n, nesting) = state
-        if self._pending_source_annotation:
-            self._stream_write = self._annotated_stream_write
-        else:
-            self._stream_write = self.stream.write
+        self._resetStreamWrite()
         assert self.level == level
         while self.scopeLevel > scopeLevel:
             self.engine.endScope()
@@ -266,10 +264,7 @@ class TALInterpreter:
     def restoreOutputState(self, state):
         (dummy, self.col, self.stream,
          self._stream_stack, scopeLevel, level, i18n, nesting) = state
-        if self._pending_source_annotation:
-            self._stream_write = self._annotated_stream_write
-        else:
-            self._stream_write = self.stream.write
+        self._resetStreamWrite()
         assert self.level == level
         assert self.scopeLevel == scopeLevel
 
@@ -301,14 +296,15 @@ class TALInterpreter:
     def pushStream(self, newstream):
         self._stream_stack.append(self.stream)
         self.stream = newstream
-        if self._pending_source_annotation:
-            self._stream_write = self._annotated_stream_write
-        else:
-            self._stream_write = self.stream.write
+        self._resetStreamWrite()
 
     def popStream(self):
         self.stream = self._stream_stack.pop()
-        if self._pending_source_annotation:
+        self._resetStreamWrite()
+
+    def _resetStreamWrite(self):
+        # Annotations must not become part of captured text.
+        if self._pending_source_annotation and not self._stream_stack:
             self._stream_write = self._annotated_stream_write
         else:
             self._stream_write = self.stream.write
@@ -388,7 +384,7 @@ class TALInterpreter:
         self.engine.setSourceFile(source_file)
         if self.sourceAnnotations:
             self._pending_source_annotation = True
-            self._stream_write = self._annotated_stream_write
+            self._resetStreamWrite()
 
     bytecode_handlers["setSourceFile"] = do_setSourceFile
 
-- 
2.43.0


From 7157c7e88af2d0d78bcb32ac56a3858fd416030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:36 +0000
Subject: [PATCH 16/60] fix: keep the template position when structure is
 inserted

Expressions of tal:attributes on an element replaced by structure were
attributed to a position in the inserted text.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6bee99f..cb0bd97 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -76,9 +76,11 @@ class AltTALGenerator(TALGenerator):
         i18ndict = {}
         if self.enabled and self.repldict:
             taldict["attributes"] = "x x"
+        # The position in the inserted text must not be mistaken for one in
+        # the template.
         TALGenerator.emitStartElement(self, name, attrlist,
                                       taldict, metaldict, i18ndict,
-                                      position, isend)
+                                      isend=isend)
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-- 
2.43.0


From a51102379f35554e540fd723a68502b0f6ab9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:14 +0000
Subject: [PATCH 17/60] fix: report the position of the loop while it advances

An error raised by the sequence of a tal:repeat was attributed to the last
element processed inside the loop.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index cb0bd97..d910e9e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -857,9 +857,9 @@ class TALInterpreter:
         position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
+            self.interpret(block)
             if self.position != position:
                 self.do_setPosition(position)
-            self.interpret(block)
     bytecode_handlers["loop"] = do_loop
 
     def translate(self, msgid, default=None, i18ndict=None,
-- 
2.43.0


From 7256c1ec814f89c5c5c94b113247298b82c0b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:39 +0000
Subject: [PATCH 18/60] fix: keep the position of errors inside i18n:name

An error inside an element with i18n:name was attributed to that element.
---
 src/zope/tal/talinterpreter.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d910e9e..2b06a0a 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -676,19 +676,17 @@ class TALInterpreter:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
             state = self.saveState()
+            tmpstream = self.StringIO()
+            self.pushStream(tmpstream)
             try:
-                tmpstream = self.StringIO()
-                self.pushStream(tmpstream)
-                try:
-                    self.interpret(program)
-                finally:
-                    self.popStream()
-                if self.html and self._currentTag == "pre":
-                    value = tmpstream.getvalue()
-                else:
-                    value = normalize(tmpstream.getvalue())
+                self.interpret(program)
             finally:
-                self.restoreState(state)
+                self.popStream()
+            if self.html and self._currentTag == "pre":
+                value = tmpstream.getvalue()
+            else:
+                value = normalize(tmpstream.getvalue())
+            self.restoreState(state)
         else:
             # TODO: Seems like this branch not used anymore, we
             # need to remove it
-- 
2.43.0


From 17a4111fa85ecd2d2b56a1016ac89216ccb7e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:22 +0000
Subject: [PATCH 19/60] fix: report the position of the script element when its
 code runs

---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2b06a0a..a8b2984 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -835,12 +835,15 @@ class TALInterpreter:
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
             self.interpret(program)
         finally:
             self.popStream()
+        if self.position != position:
+            self.do_setPosition(position)
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
         self._stream_write(output)
-- 
2.43.0


From 95d5e95b29db55e038b93e7f4dd0b96be5c28eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:06 +0000
Subject: [PATCH 20/60] fix: forget macros used in a slot filler that failed

Errors that were handled around the slot, inside of the macro, left the
macros used by the filler on the macro stack.
---
 src/zope/tal/talinterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a8b2984..c456acd 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -242,7 +242,7 @@ class TALInterpreter:
     def saveState(self):
         return (self.position, self.col, self.stream, self._stream_stack,
                 self.scopeLevel, self.level, self.i18nContext,
-                (len(self.macroStack), self.inUseDirective,
+                (self.macroStack[:], self.inUseDirective,
                  len(self.i18nStack), self.sourceFile))
 
     def restoreState(self, state):
@@ -257,7 +257,7 @@ class TALInterpreter:
         self.i18nContext = i18n
         # Drop whatever an interrupted macro or translation left behind.
         macros, self.inUseDirective, translations, sourceFile = nesting
-        del self.macroStack[macros:]
+        self.macroStack[:] = macros
         del self.i18nStack[translations:]
         if self.sourceFile != sourceFile:
             self.engine.setSourceFile(sourceFile)
-- 
2.43.0


From 365c400425c9992fe0048aac7e942db9213fb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:42 +0000
Subject: [PATCH 21/60] fix: keep the prefix of XML names if two prefixes share
 a namespace

The prefix shown was the one declared last for the namespace.  With a
default declaration of the same namespace, prefixed attributes lost
their prefix and with it their namespace.
---
 src/zope/tal/talparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..9217eb4 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -41,6 +41,9 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        # Several prefixes may stand for one namespace, so have names
+        # reported with the prefix that was used.
+        self.parser.namespace_prefixes = True
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
@@ -125,7 +128,9 @@ class TALParser(XMLParser):
     def fixname(self, name):
         if ' ' in name:
             uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            prefix = None
+            if ' ' in name:
+                name, prefix = name.split(' ', 1)
             prefixed = name
             if prefix:
                 prefixed = f"{prefix}:{name}"
-- 
2.43.0


From b5bea753290c00a1586ad641bdad41ed1d1b3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:44 +0000
Subject: [PATCH 22/60] fix: write xmlns="" with its empty value in XML

The declaration came out as a bare attribute name, which is not
well-formed.
---
 src/zope/tal/talparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 9217eb4..4c2b425 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -120,7 +120,7 @@ class TALParser(XMLParser):
             if uri in self._namespaces:
                 item = (key, uri, "xmlns")
             else:
-                item = (key, uri)
+                item = (key, uri or "")
             newlist.append(item)
         self.nsNew = []
         return newlist
-- 
2.43.0


From 5aa8ae73b85510c85796ff8eec2618fb46709926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:58 +0000
Subject: [PATCH 23/60] fix: ignore the encoding declaration of XML passed as
 text

Text was encoded to UTF-8 and then decoded as declared, so that
non-ASCII characters were garbled for any other encoding.
---
 src/zope/tal/xmlparser.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..c4d77e5 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -79,11 +79,7 @@ class XMLParser:
 
     def parseString(self, s):
         """Parse the given string."""
-        if isinstance(s, str):
-            # Expat cannot deal with str, only with
-            # bytes.  Also, its range of encodings is rather
-            # limited, UTF-8 is the safest bet here.
-            s = s.encode('utf-8')
+        # For str, expat ignores an encoding declaration.
         self.parser.Parse(s, 1)
 
     def parseURL(self, url):
-- 
2.43.0


From d75ab7edd3434cf4bd136509cb54a551fcedcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:12 +0000
Subject: [PATCH 24/60] fix: escape static attribute values so that they read
 back the same

A value containing the text of a reference was not escaped again, so
that title="&amp;lt;" came out as title="&lt;" and XML output could
refer to undefined entities.  In XML, line breaks and tabs given as
character references became literal and so were read back as blanks.
---
 src/zope/tal/taldefs.py      |  9 +++++++++
 src/zope/tal/talgenerator.py | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 4f76bb5..afccc1a 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -234,3 +234,12 @@ def quote(s):
     s = s.replace(">", "&gt;")
     s = s.replace('"', "&quot;")
     return '"%s"' % s
+
+
+def xmlQuote(s):
+    # Literal white space other than blanks would be read back as blanks.
+    s = quote(s)
+    s = s.replace("\t", "&#9;")
+    s = s.replace("\n", "&#10;")
+    s = s.replace("\r", "&#13;")
+    return s
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 9251515..3d0fc41 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -16,6 +16,7 @@ Code generator for :class:`~.TALInterpreter` intermediate code.
 """
 import re
 from html import escape
+from html import unescape
 
 from zope.tal import taldefs
 from zope.tal.taldefs import NAME_RE
@@ -170,7 +171,7 @@ class TALGenerator:
                 if item[1] is None:
                     s = item[0]
                 else:
-                    s = f'{item[0]}="{taldefs.attrEscape(item[1])}"'
+                    s = f'{item[0]}="{self.escapeAttribute(item[1])}"'
                 attrlist[i] = item[0], s
                 new.append(" " + s)
         # if no non-optimizable attributes were found, convert to plain text
@@ -179,6 +180,15 @@ class TALGenerator:
             collect.extend(new)
         return opt
 
+    def escapeAttribute(self, value):
+        if self.xml:
+            return taldefs.xmlQuote(value)[1:-1]
+        s = taldefs.attrEscape(value)
+        if unescape(s) != value:
+            # The value itself contains what looks like a reference.
+            s = taldefs.quote(value)[1:-1]
+        return s
+
     def optimizeCommonTriple(self, program):
         if len(program) < 3:
             return program
-- 
2.43.0


From ba21d735fe5b9872744fe2fe8f8afa035e028a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:19 +0000
Subject: [PATCH 25/60] fix: keep line breaks in dynamic attribute values in
 XML

A literal line break or tab in an XML attribute is read back as a
blank, so write them as character references.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index c456acd..b0e331e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -24,6 +24,7 @@ from zope.tal.taldefs import getProgramMode
 from zope.tal.taldefs import getProgramVersion
 from zope.tal.taldefs import isCurrentVersion
 from zope.tal.taldefs import quote
+from zope.tal.taldefs import xmlQuote
 from zope.tal.talgenerator import TALGenerator
 from zope.tal.translationcontext import TranslationContext
 
@@ -526,6 +527,8 @@ class TALInterpreter:
                     value = translated
             if value is None:
                 value = name
+            if not self.html:
+                return [f"{name}={xmlQuote(value)}"]
             return [f"{name}={quote(value)}"]
         else:
             return ()
-- 
2.43.0


From 31989db536d8ae61648fe0faa928d5f30d558367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:09 +0000
Subject: [PATCH 26/60] fix: extract messages from elements with i18n:data

The extraction engine answers every expression with a placeholder
string, which was then used as a mapping.
---
 src/zope/tal/talgettext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index c7483c0..dd2e42a 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,7 +57,8 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
+        # POEngine does not know the actual data.
+        if hasattr(obj, 'keys'):
             i18ndict.update(obj)
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
-- 
2.43.0


From 93b96565141da467bf2cd1676ad6d64d6de27a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:11 +0000
Subject: [PATCH 27/60] fix: do not run server scripts while extracting
 messages

Extraction does not evaluate the expressions of a template, but it did
execute the code of script elements.
---
 src/zope/tal/talgettext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index dd2e42a..010331f 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -91,6 +91,10 @@ class POEngine(DummyEngine):
     def evaluateBoolean(self, expr):
         return True  # dummy
 
+    def evaluateCode(self, lang, code):
+        # Code in the template must not be run just to find its messages.
+        return '${DYNAMIC_CONTENT}'
+
     def translate(self, msgid, domain=None, mapping=None, default=None,
                   # Position is not part of the ITALExpressionEngine
                   # interface
-- 
2.43.0


From 8aed61fe493687b206c3cf8417880a90521b2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 28/60] fix: local variables hide global ones in
 DummyEngine.getValue

Expressions look up local variables first, getValue did the opposite.
---
 src/zope/tal/dummyengine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..6a0d4b6 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -84,9 +84,9 @@ class DummyEngine:
         self.globals[name] = value
 
     def getValue(self, name, default=None):
-        value = self.globals.get(name, default)
+        value = self.locals.get(name, default)
         if value is default:
-            value = self.locals.get(name, default)
+            value = self.globals.get(name, default)
         return value
 
     def evaluate(self, expression):
-- 
2.43.0


From 24a6dd29ef55e1bb53606f95a8dba1567de0ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:43 +0000
Subject: [PATCH 29/60] fix: do not share recorded messages between all dummy
 engines

The list was a class attribute, so it grew with every engine ever
used.
---
 src/zope/tal/dummyengine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 6a0d4b6..10523c5 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -271,7 +271,8 @@ class DummyTranslationDomain:
 
     domain = ''
 
-    msgids = {}
+    def __init__(self):
+        self.msgids = {}
 
     def appendMsgid(self, domain, data):
         if domain not in self.msgids:
-- 
2.43.0


From 513c99f3f0e9021ea4b44947c49033912ac27c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:55 +0000
Subject: [PATCH 30/60] fix: redefined globals are visible at once in
 DummyEngine

Local scopes started as a copy of the globals, so the old value of a
global variable hid the new one until the end of the element.
---
 src/zope/tal/dummyengine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 10523c5..4d82447 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -46,8 +46,10 @@ class DummyEngine:
             macros = {}
         self.macros = macros
         dict = {'nothing': None, 'default': Default}
-        self.locals = self.globals = dict
-        self.stack = [dict]
+        self.globals = dict
+        # Not the same, or copies of it would hide later global definitions.
+        self.locals = {}
+        self.stack = [self.locals]
         self.translationDomain = DummyTranslationDomain()
         self.useEngineAttrDicts = False
 
-- 
2.43.0


From 6eb6bdc453dffa4623173d45457d172d3621d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:11 +0000
Subject: [PATCH 31/60] fix: carry out omit-tag and translate statements
 written without a value

---
 src/zope/tal/htmltalparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 46f0168..ec4d007 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -353,6 +353,9 @@ class HTMLTALParser(HTMLParser):
             ns = keyns or namens  # default to tag namespace
             if ns and ns != 'unknown':
                 item = (key, value, ns)
+                if value is None:
+                    # A statement in minimized form has an empty argument.
+                    value = ''
             if ns == 'tal':
                 if keybase in taldict:
                     raise TALError("duplicate TAL attribute " +
-- 
2.43.0


From 918b8dfaed5218400c25200f3a6cd1ce15f9a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:13 +0000
Subject: [PATCH 32/60] fix: allow white space after the last semicolon in
 i18n:attributes

---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 3d0fc41..d49b9d6 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -863,7 +863,7 @@ def _parseI18nAttributes(i18nattrs, position, xml):
     # Filter out empty items, eg:
     # i18n:attributes="value msgid; name msgid2;"
     # would result in 3 items where the last one is empty
-    attrs = [spec for spec in i18nattrs.split(";") if spec]
+    attrs = [spec for spec in i18nattrs.split(";") if spec.strip()]
     for spec in attrs:
         parts = spec.split()
         if len(parts) == 2:
-- 
2.43.0


From 8932202611b10932f7998001e8aec4a629cf0e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:15 +0000
Subject: [PATCH 33/60] fix: reject an empty i18n:name

---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index d49b9d6..ec35215 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -537,7 +537,7 @@ class TALGenerator:
         for key, value in i18ndict.items():
             if key not in taldefs.KNOWN_I18N_ATTRIBUTES:
                 raise I18NError("bad i18n attribute: " + repr(key), position)
-            if not value and key in ("attributes", "data", "id"):
+            if not value and key in ("attributes", "data", "id", "name"):
                 raise I18NError("missing value for i18n attribute: " +
                                 repr(key), position)
 
-- 
2.43.0


From 736ad8f3b821518eefddfb309b818eec0879e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:39 +0000
Subject: [PATCH 34/60] fix: annotate the source of elements with error
 handlers

---
 src/zope/tal/talinterpreter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index b0e331e..2c8d720 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -244,11 +244,14 @@ class TALInterpreter:
         return (self.position, self.col, self.stream, self._stream_stack,
                 self.scopeLevel, self.level, self.i18nContext,
                 (self.macroStack[:], self.inUseDirective,
-                 len(self.i18nStack), self.sourceFile))
+                 len(self.i18nStack), self.sourceFile,
+                 self._pending_source_annotation))
 
     def restoreState(self, state):
         (self.position, self.col, self.stream,
          self._stream_stack, scopeLevel, level, i18n, nesting) = state
+        # Annotations written by the interrupted part are lost with it.
+        self._pending_source_annotation = nesting[4]
         self._resetStreamWrite()
         assert self.level == level
         while self.scopeLevel > scopeLevel:
@@ -257,7 +260,7 @@ class TALInterpreter:
         self.engine.setPosition(self.position)
         self.i18nContext = i18n
         # Drop whatever an interrupted macro or translation left behind.
-        macros, self.inUseDirective, translations, sourceFile = nesting
+        macros, self.inUseDirective, translations, sourceFile = nesting[:4]
         self.macroStack[:] = macros
         del self.i18nStack[translations:]
         if self.sourceFile != sourceFile:
@@ -1015,7 +1018,7 @@ class TALInterpreter:
         (block, handler) = stuff
         state = self.saveState()
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        self._resetStreamWrite()
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1043,7 +1046,10 @@ class TALInterpreter:
                 engine.endScope()
         else:
             self.restoreOutputState(state)
+            # What was written has its annotations already.
+            self._stream_write = self.stream.write
             self.stream_write(stream.getvalue())
+            self._resetStreamWrite()
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0


From 59a29dc45e5213e2efb02ea57cfc69a6ca141252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:05 +0000
Subject: [PATCH 35/60] fix: no source annotation if there is no file to name

---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2c8d720..db2a5a6 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -945,6 +945,10 @@ class TALInterpreter:
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
+            if prev_source is None:
+                # There is no file that an annotation could name.
+                self._pending_source_annotation = False
+                self._resetStreamWrite()
         self.popMacro()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
-- 
2.43.0


From 2f78b75c85c2164d9e53a306bf3b90fecf57b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:16 +0000
Subject: [PATCH 36/60] fix: know the column behind translations, scripts and
 values with line breaks

---
 src/zope/tal/talinterpreter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index db2a5a6..96f2596 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -443,6 +443,8 @@ class TALInterpreter:
                     else:
                         append(" ")
                         col = col + 1 + slen
+                    if "\n" in s:
+                        col = slen - s.rfind("\n") - 1
                     append(s)
             append(end)
             col = col + endlen
@@ -721,7 +723,7 @@ class TALInterpreter:
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
-        self._stream_write(placeholder)
+        self.stream_write(placeholder)
     bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
@@ -740,6 +742,7 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         position = self.position
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -768,7 +771,8 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.col = col
+        self.stream_write(xlated_msgid)
     bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
@@ -842,6 +846,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         position = self.position
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -850,9 +855,10 @@ class TALInterpreter:
             self.popStream()
         if self.position != position:
             self.do_setPosition(position)
+        self.col = col
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.stream_write(output)
     bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
-- 
2.43.0


From 88a9e7596cb80cdf5eeb8478497623c6e6975f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:26 +0000
Subject: [PATCH 37/60] fix: do not translate or run scripts while only
 expanding macros

With TAL processing switched off the renderer is meant to expand macros and
to leave every other statement in its output.  Translations were carried out
and scripts were run nevertheless, so that rendering the result translated
the text a second time.
---
 src/zope/tal/talinterpreter.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 96f2596..c6079d9 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -679,6 +679,10 @@ class TALInterpreter:
                 self._writeText(text)
 
     def do_i18nVariable(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers['i18nVariable'] = do_i18nVariable
+
+    def do_i18nVariable_tal(self, stuff):
         varname, program, expression, structure = stuff
         if expression is None:
             # The value is implicitly the contents of this tag, so we have to
@@ -724,9 +728,12 @@ class TALInterpreter:
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
         self.stream_write(placeholder)
-    bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers['insertTranslation'] = do_insertTranslation
+
+    def do_insertTranslation_tal(self, stuff):
         i18ndict = {}
         srepr = []
         obj = None
@@ -773,7 +780,6 @@ class TALInterpreter:
         assert xlated_msgid is not None
         self.col = col
         self.stream_write(xlated_msgid)
-    bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
         self.interpret(stuff[2])
@@ -842,6 +848,10 @@ class TALInterpreter:
         self.interpret(program)
 
     def do_evaluateCode(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers["evaluateCode"] = do_evaluateCode
+
+    def do_evaluateCode_tal(self, stuff):
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
@@ -859,7 +869,6 @@ class TALInterpreter:
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
         self.stream_write(output)
-    bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
         (name, expr, block) = stuff
@@ -1071,6 +1080,9 @@ class TALInterpreter:
     bytecode_handlers_tal["insertI18nStructure"] = do_insertI18nStructure_tal
     bytecode_handlers_tal["insertText"] = do_insertText_tal
     bytecode_handlers_tal["insertI18nText"] = do_insertI18nText_tal
+    bytecode_handlers_tal["i18nVariable"] = do_i18nVariable_tal
+    bytecode_handlers_tal["insertTranslation"] = do_insertTranslation_tal
+    bytecode_handlers_tal["evaluateCode"] = do_evaluateCode_tal
     bytecode_handlers_tal["loop"] = do_loop_tal
     bytecode_handlers_tal["onError"] = do_onError_tal
     bytecode_handlers_tal["<attrAction>"] = attrAction_tal
-- 
2.43.0


From 7fcd0a000f58a36e70b63daf81e0198147eabad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:47 +0000
Subject: [PATCH 38/60] fix: keep line breaks in attribute values of XML while
 expanding macros

A line break in an attribute value was written as it is when TAL processing
was switched off.  Reading the result turned it into a blank.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index c6079d9..fb030bf 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -492,7 +492,8 @@ class TALInterpreter:
         if value is None:
             value = name
         else:
-            value = f"{name}={quote(value)}"
+            quoted = quote(value) if self.html else xmlQuote(value)
+            value = f"{name}={quoted}"
         return [value]
 
     def attrAction_tal(self, item):
-- 
2.43.0


From a5826a4f6be9152df8a6af825503140f37b6e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:52 +0000
Subject: [PATCH 39/60] fix: accept other namespaces on elements of the
 template namespaces in HTML

A declaration of another namespace, or an attribute with a prefix that is
bound to another namespace, was taken for a misspelt statement if it was on an
element such as <tal:block>.  In XML it was accepted.
---
 src/zope/tal/htmltalparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index ec4d007..0a309c0 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -335,10 +335,12 @@ class HTMLTALParser(HTMLParser):
                 nsuri = self.nsdict.get(suffix)
                 if nsuri in self._namespaces:
                     return name, name, prefix
-            else:
-                nsuri = self.nsdict.get(prefix)
+                return name, name, 'unknown'
+            elif prefix in self.nsdict:
+                nsuri = self.nsdict[prefix]
                 if nsuri in self._namespaces:
                     return name, suffix, self._namespaces[nsuri]
+                return name, name, 'unknown'
         return name, name, 0
 
     def process_ns(self, name, attrs):
-- 
2.43.0


From 5389a0948c4d17450a7142cabde24866b795cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:03 +0000
Subject: [PATCH 40/60] fix: keep null characters in statement arguments

---
 src/zope/tal/taldefs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index afccc1a..7102471 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -167,9 +167,14 @@ def parseSubstitution(arg, position=(None, None)):
 def splitParts(arg):
     # Break in pieces at undoubled semicolons and
     # change double semicolons to singles:
-    arg = arg.replace(";;", "\0")
-    parts = arg.split(';')
-    parts = [p.replace("\0", ";") for p in parts]
+    parts = []
+    for i, piece in enumerate(arg.split(";;")):
+        first, *more = piece.split(";")
+        if i:
+            parts[-1] += ";" + first
+        else:
+            parts.append(first)
+        parts.extend(more)
     if len(parts) > 1 and not parts[-1].strip():
         del parts[-1]  # It ended in a semicolon
     return parts
-- 
2.43.0


From 1939ff67161381a98fc226ab080e8f45588b2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:16 +0000
Subject: [PATCH 41/60] fix: keep closing brackets at the end of structure
 inserted in XML

---
 src/zope/tal/talinterpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index fb030bf..a4200ff 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -83,6 +83,12 @@ class AltTALGenerator(TALGenerator):
                                       taldict, metaldict, i18ndict,
                                       isend=isend)
 
+    def emitEndElement(self, name, isend=0, implied=0, position=(None, None)):
+        if self.xml and len(self.todoStack) == 1:
+            # The end of the element put around the inserted text.
+            self.enable(0)
+        TALGenerator.emitEndElement(self, name, isend, implied, position)
+
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
             repldict = self.repldict
@@ -843,7 +849,7 @@ class TALInterpreter:
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
         gen.enable(1)
         p.parseFragment(text)  # Raises an exception if text is invalid
-        gen.enable(0)
+        # The parser may hold back the last characters until here.
         p.parseFragment('</foo>', 1)
         program, macros = gen.getCode()
         self.interpret(program)
-- 
2.43.0


From 8f6cb82e30bfb32e7f137cb607e65d0f3942c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:24 +0000
Subject: [PATCH 42/60] fix: local variables that are None hide global ones in
 DummyEngine.getValue

---
 src/zope/tal/dummyengine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 4d82447..7d45ac6 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -86,10 +86,9 @@ class DummyEngine:
         self.globals[name] = value
 
     def getValue(self, name, default=None):
-        value = self.locals.get(name, default)
-        if value is default:
-            value = self.globals.get(name, default)
-        return value
+        if name in self.locals:
+            return self.locals[name]
+        return self.globals.get(name, default)
 
     def evaluate(self, expression):
         assert expression.startswith("$") and expression.endswith("$"), \
-- 
2.43.0


From 7f636f417ae342dbb7235cd3c72d2d778ea47eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:24 +0000
Subject: [PATCH 43/60] fix: evaluate "not" expressions in DummyEngine

---
 src/zope/tal/dummyengine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 7d45ac6..d836a44 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -106,7 +106,7 @@ class DummyEngine:
         if type in ("path", "var", "global", "local"):
             return self.evaluatePathOrVar(expr)
         if type == "not":
-            return not self.evaluate(expr)
+            return not self.evaluate(self.compile(expr))
         if type == "exists":
             return expr in self.locals or expr in self.globals
         if type == "python":
-- 
2.43.0


From 477dd8ae89e946682288adf6a7b54d387fad06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:24 +0000
Subject: [PATCH 44/60] fix: forget where an earlier call ended when a renderer
 is called again

---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a4200ff..338618e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -300,6 +300,9 @@ class TALInterpreter:
         assert self.level == 0
         assert self.scopeLevel == 0
         assert self.i18nContext.parent is None
+        # Forget where an earlier call ended.
+        self.position = None, None
+        self.col = 0
         self.interpret(self.program)
         assert self.level == 0
         assert self.scopeLevel == 0
-- 
2.43.0


From 61c4720521cb3c5e691375f06c5e32259010c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:26 +0000
Subject: [PATCH 45/60] fix: do not leave reference cycles behind when
 structure is inserted in XML

---
 src/zope/tal/talinterpreter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 338618e..de3ad8c 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -848,12 +848,16 @@ class TALInterpreter:
         from zope.tal.talparser import TALParser
         gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
-        gen.enable(0)
-        p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-        gen.enable(1)
-        p.parseFragment(text)  # Raises an exception if text is invalid
-        # The parser may hold back the last characters until here.
-        p.parseFragment('</foo>', 1)
+        try:
+            gen.enable(0)
+            p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
+            gen.enable(1)
+            p.parseFragment(text)  # Raises an exception if text is invalid
+            # The parser may hold back the last characters until here.
+            p.parseFragment('</foo>', 1)
+        finally:
+            # The handlers refer to p: do not leave a reference cycle behind.
+            p.parser = None
         program, macros = gen.getCode()
         self.interpret(program)
 
-- 
2.43.0


From 71dd48f3b88295b739069c88dcfe12adcbbf4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:43 +0000
Subject: [PATCH 46/60] fix: do not keep a renderer alive by an annotation that
 is still to be written

---
 src/zope/tal/talinterpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index de3ad8c..b789a8a 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -303,7 +303,12 @@ class TALInterpreter:
         # Forget where an earlier call ended.
         self.position = None, None
         self.col = 0
-        self.interpret(self.program)
+        self._resetStreamWrite()
+        try:
+            self.interpret(self.program)
+        finally:
+            # A method of its own would keep the interpreter alive.
+            self._stream_write = self.stream.write
         assert self.level == 0
         assert self.scopeLevel == 0
         assert self.i18nContext.parent is None
-- 
2.43.0


From 156e573800ca801b6d7525ba53dae93e38b6c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:47 +0000
Subject: [PATCH 47/60] fix: let the special engines of the driver know the
 macros of the template

---
 src/zope/tal/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/driver.py b/src/zope/tal/driver.py
index 2abadea..a8db6c5 100644
--- a/src/zope/tal/driver.py
+++ b/src/zope/tal/driver.py
@@ -129,7 +129,7 @@ def main(values=None):
         engine = None
         engineClass = ENGINES.get(os.path.basename(file))
         if engineClass is not None:
-            engine = engineClass(opts.macro_only)
+            engine = engineClass(it[1])
         interpretit(it, engine=engine,
                     tal=not opts.macro_only,
                     showtal=1 if opts.show_tal else -1,
-- 
2.43.0


From aea68938d72df532cf8074642fa5b91001ee0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:07 +0000
Subject: [PATCH 48/60] fix: let an element return to the default translation
 domain

---
 src/zope/tal/talgenerator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index ec35215..87d3e81 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -72,7 +72,8 @@ class TALGenerator:
         if source_file is not None:
             self.source_file = source_file
             self.emit("setSourceFile", source_file)
-        self.i18nContext = TranslationContext()
+        # An empty domain: none has been set yet.
+        self.i18nContext = TranslationContext(domain="")
         self.i18nLevel = 0
 
     def getCode(self):
@@ -648,9 +649,10 @@ class TALGenerator:
             domain = i18ndict.get("domain") or self.i18nContext.domain
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
-            if (domain != DEFAULT_DOMAIN
+            if (domain
                 or source is not None
                     or target is not None):
+                domain = domain or DEFAULT_DOMAIN
                 self.i18nContext = TranslationContext(self.i18nContext,
                                                       domain=domain,
                                                       source=source,
-- 
2.43.0


From b4958fc9f5da1c3fe7447c98bdfc676ee9044453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:33 +0000
Subject: [PATCH 49/60] fix: describe every exception that an error handler can
 see

An error handler also handles exceptions which are not derived from
Exception.  The error information gave such an exception as its type and
None as its value.
---
 src/zope/tal/taldefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 7102471..305142e 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -124,7 +124,7 @@ class ErrorInfo:
     """
 
     def __init__(self, err, position=(None, None)):
-        if isinstance(err, Exception):
+        if isinstance(err, BaseException):
             self.type = err.__class__
             self.value = err
         else:
-- 
2.43.0


From f3c2a332c184a10a66cd2bdf73a6445be15df4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:48 +0000
Subject: [PATCH 50/60] fix: let the timing tool run on Python 3

---
 src/zope/tal/timer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/timer.py b/src/zope/tal/timer.py
index 1395515..db64a35 100644
--- a/src/zope/tal/timer.py
+++ b/src/zope/tal/timer.py
@@ -17,8 +17,7 @@
 import getopt
 import sys
 import time
-
-from cStringIO import StringIO
+from io import StringIO
 
 from zope.tal.driver import compilefile
 from zope.tal.driver import interpretit
@@ -46,10 +45,10 @@ def main():
 def timefunc(count, func, *args):
     sys.stderr.write("%-14s: " % func.__name__)
     sys.stderr.flush()
-    t0 = time.clock()
+    t0 = time.perf_counter()
     for i in range(count):
         result = func(*args)
-    t1 = time.clock()
+    t1 = time.perf_counter()
     sys.stderr.write("%6.3f secs for %d calls, i.e. %4.0f msecs per call\n"
                      % ((t1 - t0), count, 1000 * (t1 - t0) / count))
     return result
-- 
2.43.0


From 7b7f25dd5b5acab77184b92c816872881f090bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:49 +0000
Subject: [PATCH 51/60] fix: write to the given stream even if it is false

A stream that is false, such as an empty list-like buffer, was ignored,
and the output went to standard output.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index b789a8a..39017c6 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -206,7 +206,7 @@ class TALInterpreter:
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
         self._currentTag = ""
-        self._stream_stack = [stream or sys.stdout]
+        self._stream_stack = [sys.stdout if stream is None else stream]
         self.popStream()
         self.debug = debug
         self.wrap = wrap
-- 
2.43.0


From 30ca56b4d71b59f4a13c6c6f3ddecb463c1aa52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:49 +0000
Subject: [PATCH 52/60] fix: use the given expression compiler even if it is
 false

A compiler that is false, such as an empty collection of compiled
expressions, was silently replaced by the bundled engine.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 87d3e81..7f8bf23 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -47,7 +47,7 @@ class TALGenerator:
             :class:`zope.tal.interfaces.ITALExpressionCompiler` to use.
             If not given, we'll use a simple, undocumented, compiler.
         """
-        if not expressionCompiler:
+        if expressionCompiler is None:
             from zope.tal.dummyengine import DummyEngine
             expressionCompiler = DummyEngine()
         self.expressionCompiler = expressionCompiler
-- 
2.43.0


From 9f56556b80940407c2fb50fb6d1572b52c55134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:10 +0000
Subject: [PATCH 53/60] fix: insert structure without asking the engine for
 what only compilers have

Engines need not be expression compilers, but inserting structure called
compiler methods of the engine.  Inserted text has no expressions to compile.
---
 src/zope/tal/talinterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 39017c6..8aa5f39 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -843,7 +843,7 @@ class TALInterpreter:
 
     def insertHTMLStructure(self, text, repldict):
         from zope.tal.htmltalparser import HTMLTALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, None, 0)
         p = HTMLTALParser(gen)  # Raises an exception if text is invalid
         p.parseString(text)
         program, macros = p.getCode()
@@ -851,7 +851,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 1)
+        gen = AltTALGenerator(repldict, None, 1)
         p = TALParser(gen)
         try:
             gen.enable(0)
-- 
2.43.0


From 34175d389de0ff0581d7e26902b4030daf18de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:12 +0000
Subject: [PATCH 54/60] fix: do not compare compiled expressions of
 tal:omit-tag with strings

Compiled expressions are for the engine alone; comparing one with a string
called its comparison method, and took expressions that compile to something
equal to an empty string for a missing condition.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 8aa5f39..a3d32be 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -576,7 +576,9 @@ class TALInterpreter:
 
     def do_optTag_tal(self, stuff):
         cexpr = stuff[1]
-        if cexpr is not None and (cexpr == '' or
+        # An empty string stands for no condition; anything else is for the
+        # engine alone.
+        if cexpr is not None and (isinstance(cexpr, str) and not cexpr or
                                   self.engine.evaluateBoolean(cexpr)):
             self.no_tag(stuff[-2], stuff[-1])
         else:
-- 
2.43.0


From a67d0b976a950d207902a4ca37dcbbd34271dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:20 +0000
Subject: [PATCH 55/60] fix: put results inside elements written as <x/>

In HTML, i18n:translate or tal:script on an element closed at once wrote its
result after the element, or nowhere if the tag was optional, as did
tal:replace if its tag was kept.  Such an element now gets a start tag and an
end tag, as it does for tal:content.
---
 src/zope/tal/htmltalparser.py | 6 ++++--
 src/zope/tal/talgenerator.py  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 0a309c0..ed35194 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -218,8 +218,10 @@ class HTMLTALParser(HTMLParser):
                                       i18ndict, self.getpos())
             self.gen.emitEndElement(tag, implied=-1, position=self.getpos())
         else:
-            self.gen.emitStartElement(tag, attrlist, taldict, metaldict,
-                                      i18ndict, self.getpos(), isend=1)
+            # What a statement gives needs to be put inside.
+            self.gen.emitStartElement(
+                tag, attrlist, taldict, metaldict, i18ndict, self.getpos(),
+                isend=1 if tag in EMPTY_HTML_TAGS else "if empty")
         self.pop_xmlns()
 
     def handle_endtag(self, tag):
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 7f8bf23..957cf0a 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -741,6 +741,9 @@ class TALGenerator:
             repldict = {}
         if script:
             todo["script"] = script
+        atend = isend
+        if isend == "if empty":
+            isend = not (msgid is not None or script or content and omitTag)
         self.emitStartTag(name, self.replaceAttrs(attrlist, repldict), isend)
         if optTag:
             self.pushProgram()
@@ -755,7 +758,7 @@ class TALGenerator:
         if todo and position != (None, None):
             todo["position"] = position
         self.todoPush(todo)
-        if isend:
+        if atend:
             self.emitEndElement(name, isend, position=position)
 
     def emitEndElement(self, name, isend=0, implied=0, position=(None, None)):
-- 
2.43.0


From 26971f1e3266869a12bcf21341e9cb621b9fb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:14 +0000
Subject: [PATCH 56/60] fix: report i18n:name outside of a translation unit as
 such

A macro defined inside a translation unit may be used elsewhere.  Named
parts in it then failed with an IndexError without position; raise the
I18NError that the compiler raises for the same mistake.
---
 src/zope/tal/talinterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a3d32be..5d4e17e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -19,6 +19,7 @@ import sys
 from zope.i18nmessageid import Message
 
 from zope.tal.taldefs import TAL_VERSION
+from zope.tal.taldefs import I18NError
 from zope.tal.taldefs import METALError
 from zope.tal.taldefs import getProgramMode
 from zope.tal.taldefs import getProgramVersion
@@ -701,6 +702,11 @@ class TALInterpreter:
 
     def do_i18nVariable_tal(self, stuff):
         varname, program, expression, structure = stuff
+        if not self.i18nStack:
+            # Part of a macro that is used elsewhere
+            raise I18NError(
+                "i18n:name can only occur inside a translation unit",
+                self.position)
         if expression is None:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
-- 
2.43.0


From 47253bea615a0febecadd8ed39469bc78aad8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:07 +0000
Subject: [PATCH 57/60] fix: show the result of an error handler of <tal:x/> in
 HTML

With statements shown, an error handler of an element of a template
namespace written as <tal:x/> wrote the start tag only.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 957cf0a..c6f02ee 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -313,7 +313,8 @@ class TALGenerator:
             assert key == "structure"
             self.emit("insertStructure", cexpr, {}, [])
         if TALtag:
-            self.emitOptTag(name, (None, 1), isend)
+            # The handler has contents even if the element has none
+            self.emitOptTag(name, (None, 1), 0)
         else:
             self.emitEndTag(name)
         handler = self.popProgram()
-- 
2.43.0


From 75204ff9fc1444ff4a5c824e36466f8507d5c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:50:36 +0000
Subject: [PATCH 58/60] fix: keep scopes balanced when an engine call fails
 while one is opened

A failure of setLocal or beginScope at the start of an element, or of
createErrorInfo in an error handler, left a scope open or closed one too
many for the surrounding error handler.
---
 src/zope/tal/talinterpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 5d4e17e..2ddbf2d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -594,7 +594,9 @@ class TALInterpreter:
         if closeprev:
             engine = self.engine
             engine.endScope()
+            self.scopeLevel = self.scopeLevel - 1
             engine.beginScope()
+            self.scopeLevel = self.scopeLevel + 1
         else:
             self.engine.beginScope()
             self.scopeLevel = self.scopeLevel + 1
@@ -608,7 +610,9 @@ class TALInterpreter:
         engine.setPosition(position)
         if closeprev:
             engine.endScope()
+            self.scopeLevel = self.scopeLevel - 1
             engine.beginScope()
+            self.scopeLevel = self.scopeLevel + 1
         else:
             engine.beginScope()
             self.scopeLevel = self.scopeLevel + 1
@@ -622,8 +626,8 @@ class TALInterpreter:
     def do_beginScope_tal(self, dict):
         engine = self.engine
         engine.beginScope()
-        engine.setLocal("attrs", dict)
         self.scopeLevel = self.scopeLevel + 1
+        engine.setLocal("attrs", dict)
     bytecode_handlers["beginScope"] = do_beginScope
 
     def do_endScope(self, notused=None):
@@ -1078,6 +1082,7 @@ class TALInterpreter:
                 self.restoreState(state)
                 engine = self.engine
                 engine.beginScope()
+                self.scopeLevel = self.scopeLevel + 1
                 error = engine.createErrorInfo(exc, position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
@@ -1090,6 +1095,7 @@ class TALInterpreter:
                 self.interpret(handler)
             finally:
                 engine.endScope()
+                self.scopeLevel = self.scopeLevel - 1
         else:
             self.restoreOutputState(state)
             # What was written has its annotations already.
-- 
2.43.0


From 79d3d7a1d9deccf6142fe8ae9e65349dbe56f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:26:01 +0000
Subject: [PATCH 59/60] fix: take white space off the end of long text in
 linear time

Before an implied end tag a regular expression searched for trailing white
space.  Its time grew with the square of the longest run of white space in
the text.
---
 src/zope/tal/talgenerator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index c6f02ee..f785c3e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -444,10 +444,10 @@ class TALGenerator:
         del self.program[i + 1:]
         if i >= 0 and self.program[i][0] == "rawtext":
             text = self.program[i][1]
-            m = re.search(r"\s+\Z", text)
-            if m:
-                self.program[i] = ("rawtext", text[:m.start()])
-                collect.append(m.group())
+            rest = text.rstrip()
+            if rest != text:
+                self.program[i] = ("rawtext", rest)
+                collect.append(text[len(rest):])
         collect.reverse()
         return "".join(collect)
 
-- 
2.43.0


From b57c22eff6af7a9b1cb656564c84909b89067984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:55:08 +0000
Subject: [PATCH 60/60] fix: carry out statements inside title, textarea and
 similar elements

Newer versions of Python read the content of these elements as plain
text.  Statements in there were not carried out and showed in the output.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index ed35194..06d6d4a 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -136,6 +136,11 @@ class HTMLTALParser(HTMLParser):
     you can retrieve the compiled program using :meth:`getCode`.
     """
 
+    # Newer Pythons take the content of title, textarea and a few others
+    # for text as well; the statements in there must be carried out.
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     # External API
 
     def __init__(self, gen=None):
-- 
2.43.0

