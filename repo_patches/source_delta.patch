From 5be70fd3d73e1d6af5a6ee2d59f76e81f7316999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 001/100] fix: skip DVI pages of failed text calls instead of
 mixing up pages

---
 pyx/text.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index fb36bb4..22f5274 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1019,8 +1019,9 @@ class SingleEngine:
         self.executeid = 0
         self.page = 0
 
-        self.needdvitextboxes = [] # when texipc-mode off
+        self.needdvitextboxes = [] # when texipc-mode off: list of (page, textbox)
         self.dvifile = None
+        self.dvipage = 0           # number of pages already read from the dvifile
 
     def _cleanup(self):
         """Clean-up TeX interpreter and tmp directory.
@@ -1241,16 +1242,33 @@ class SingleEngine:
         if self.needdvitextboxes:
             dvifilename = os.path.join(self.tmpdir, "texput.dvi")
             self.dvifile = dvifile.DVIfile(dvifilename, debug=self.dvitype)
-            page = 1
-            for box in self.needdvitextboxes:
-                box.readdvipage(self.dvifile, page)
-                page += 1
+            for page, box in self.needdvitextboxes:
+                self._readdvipage(box, page)
+        if self.dvifile is not None:
+            self._skipdvipages(self.page)
         if self.dvifile is not None and self.dvifile.readpage(None) is not None:
             raise ValueError("end of dvifile expected but further pages follow")
         if cleanup:
             atexit.unregister(self._cleanup)
             self._cleanup()
 
+    def _skipdvipages(self, page):
+        """Skip pages up to the given page number.
+
+        Pages without a textbox occur when the execution of a text raised an
+        error but TeX did ship out the page.
+
+        """
+        while self.dvipage < page:
+            self.dvifile.readpage(None)
+            self.dvipage += 1
+
+    def _readdvipage(self, box, page):
+        """Read the given page from the dvi file into the textbox."""
+        self._skipdvipages(page-1)
+        box.readdvipage(self.dvifile, page)
+        self.dvipage = page
+
     def preamble(self, expr, texmessages=[]):
         """Execute a preamble.
 
@@ -1311,9 +1329,9 @@ class SingleEngine:
                                 #       this is quite different from what we do elsewhere!!!
                                 #       see https://sourceforge.net/mailarchive/forum.php?thread_id=9137692&forum_id=23700
         if self.texipc:
-            box.readdvipage(self.dvifile, self.page)
+            self._readdvipage(box, self.page)
         else:
-            self.needdvitextboxes.append(box)
+            self.needdvitextboxes.append((self.page, box))
         return box
 
     def text(self, x, y, *args, **kwargs):
-- 
2.43.0


From 03eb3a88110ab23b0e7db765f76e2c597f7eb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 002/100] fix: open the DVI file in texipc mode after a failing
 first text call

---
 pyx/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 22f5274..3acad87 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1319,9 +1319,8 @@ class SingleEngine:
             expr = expr.tex
         for ta in textattrs[::-1]:
             expr = ta.apply(expr)
-        first = self.state < STATE_TYPESET
         left_pt, right_pt, height_pt, depth_pt = self.do_typeset(expr, self.texmessages_run_default + self.texmessages_run + texmessages)
-        if self.texipc and first:
+        if self.texipc and self.dvifile is None:
             self.dvifile = dvifile.DVIfile(os.path.join(self.tmpdir, "texput.dvi"), debug=self.dvitype)
         box = textextbox_pt(x_pt, y_pt, left_pt, right_pt, height_pt, depth_pt, self.do_finish, fontmap, singlecharmode, fillstyles)
         for t in trafos:
-- 
2.43.0


From 0acb3a139a61c3e3debe327b2b21fd4c7958205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 003/100] fix: end a hanging TeX process in the cleanup instead
 of waiting for it forever

---
 pyx/text.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 3acad87..9a0e4c0 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1032,33 +1032,41 @@ class SingleEngine:
         """
         try:
             if self.state > STATE_START:
-                if self.state < STATE_DONE:
-                    self.do_finish(cleanup=False)
-                    if self.state < STATE_DONE: # cleanup while TeX is still running?
-                        self.texoutput.expect(None)
-                        self.force_done()
-                        for f, msg in [(self.texinput.close, "We tried to communicate to %s to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
+                try:
+                    if self.state < STATE_DONE:
+                        self.do_finish(cleanup=False)
+                finally:
+                    if self.texoutput.is_alive(): # cleanup while TeX is still running?
+                        for f, msg in [(self._force_close, "We tried to communicate to {} to quit itself, but this seem to have failed. Trying by terminate signal now ...".format(self.name)),
                                        (self.popen.terminate, "Failed, too. Trying by kill signal now ..."),
-                                       (self.popen.kill, "We tried very hard to get rid of the %s process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
+                                       (self.popen.kill, "We tried very hard to get rid of the {} process, but we ultimately failed (as far as we can tell). Sorry.".format(self.name))]:
                             f()
                             if self.texoutput.done():
                                 break
                             logger.warning(msg)
-                self.popen.wait()
-                for usefile in self.usefiles:
-                    extpos = usefile.rfind(".")
-                    try:
-                        shutil.move(os.path.join(self.tmpdir, "texput" + usefile[extpos:]), usefile)
-                    except EnvironmentError:
-                        logger.warning("Could not save '{}'.".format(usefile))
-                        if os.path.isfile(usefile):
-                            try:
-                                os.unlink(usefile)
-                            except EnvironmentError:
-                                logger.warning("Failed to remove spurious file '{}'.".format(usefile))
+                    self.popen.wait()
+                    for usefile in self.usefiles:
+                        extpos = usefile.rfind(".")
+                        try:
+                            shutil.move(os.path.join(self.tmpdir, "texput" + usefile[extpos:]), usefile)
+                        except EnvironmentError:
+                            logger.warning("Could not save '{}'.".format(usefile))
+                            if os.path.isfile(usefile):
+                                try:
+                                    os.unlink(usefile)
+                                except EnvironmentError:
+                                    logger.warning("Failed to remove spurious file '{}'.".format(usefile))
         finally:
             shutil.rmtree(self.tmpdir, ignore_errors=True)
 
+    def _force_close(self):
+        """Ask the TeX interpreter to quit, ignoring a broken communication."""
+        try:
+            self.force_done()
+            self.texinput.close()
+        except (EnvironmentError, ValueError):
+            pass
+
     def _execute(self, expr, texmessages, oldstate, newstate):
         """Execute TeX expression.
 
-- 
2.43.0


From 4f33a55b05e88657a77edd44fdd4f3f5ef73ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 004/100] fix: keep the user's supplementary files when TeX
 cannot be started

---
 pyx/text.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 9a0e4c0..7124e7d 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1168,12 +1168,6 @@ class SingleEngine:
             base_tmpdir = config.get("text", "tmpdir", None)
         self.tmpdir = tempfile.mkdtemp(prefix="pyx", dir=base_tmpdir)
         atexit.register(self._cleanup)
-        for usefile in self.usefiles:
-            extpos = usefile.rfind(".")
-            try:
-                os.rename(usefile, os.path.join(self.tmpdir, "texput" + usefile[extpos:]))
-            except OSError:
-                pass
         if chroot:
             tex_tmpdir = os.sep + os.path.relpath(self.tmpdir, chroot)
         else:
@@ -1181,7 +1175,18 @@ class SingleEngine:
         cmd = self.cmd + ['--output-directory', tex_tmpdir]
         if self.texipc:
             cmd.append("--ipc")
-        self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        try:
+            self.popen = config.Popen(cmd, stdin=config.PIPE, stdout=config.PIPE, stderr=config.STDOUT, bufsize=0)
+        except BaseException:
+            shutil.rmtree(self.tmpdir, ignore_errors=True)
+            atexit.unregister(self._cleanup)
+            raise
+        for usefile in self.usefiles: # TeX waits for its first input
+            extpos = usefile.rfind(".")
+            try:
+                os.rename(usefile, os.path.join(self.tmpdir, "texput" + usefile[extpos:]))
+            except OSError:
+                pass
         self.texinput = io.TextIOWrapper(self.popen.stdin, encoding=self.texenc)
         if self.copyinput:
             try:
-- 
2.43.0


From 3e364c04d3dd81d148f1ede32f4a61e28f93be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 005/100] fix: move supplementary files into a temporary
 directory on another file system

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 7124e7d..9934862 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1184,7 +1184,7 @@ class SingleEngine:
         for usefile in self.usefiles: # TeX waits for its first input
             extpos = usefile.rfind(".")
             try:
-                os.rename(usefile, os.path.join(self.tmpdir, "texput" + usefile[extpos:]))
+                shutil.move(usefile, os.path.join(self.tmpdir, "texput" + usefile[extpos:]))
             except OSError:
                 pass
         self.texinput = io.TextIOWrapper(self.popen.stdin, encoding=self.texenc)
-- 
2.43.0


From 3351497501696cbb9b72a513a97482f9ac8aad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 006/100] fix: accept a PyXBox line wrapped by TeX

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 9934862..70867ba 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1115,7 +1115,7 @@ class SingleEngine:
                 if not m:
                     raise TexResultError("PyXInputMarker expected")
                 if oldstate == newstate == STATE_TYPESET:
-                    parsed, m = remove_pattern(PyXBoxPattern, parsed, ignore_nl=False)
+                    parsed, m = remove_pattern(PyXBoxPattern, parsed)
                     if not m:
                         raise TexResultError("PyXBox expected")
                     if m.group("page") != str(self.page):
-- 
2.43.0


From 858996894c861649c08ff38dc5eb763ecf4ace4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 007/100] fix: accept several graphics files in one TeX output

---
 pyx/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/text.py b/pyx/text.py
index 70867ba..21b801f 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -332,7 +332,7 @@ class texmessage:
             while m:
                 if not os.path.isfile(config.get("text", "chroot", "") + m.group("filename")):
                     return msg
-                r, m = remove_pattern(texmessage.quoted_file_pattern, r)
+                r, m = remove_pattern(p, r)
         return r
 
     @staticmethod
-- 
2.43.0


From c9d2872926988dfd6536cf5b481a3fde65ce5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 008/100] fix: do not lose preambles when a TeX restart fails

---
 pyx/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 21b801f..50c7a8c 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1507,8 +1507,8 @@ class MultiEngine:
 
     def preamble(self, expr, texmessages=[]):
         "resembles :meth:`SingleEngine.preamble`"
-        self.preambles.append((expr, texmessages))
         self.instance.preamble(expr, texmessages)
+        self.preambles.append((expr, texmessages))
 
     @reset_for_tex_done
     def text_pt(self, *args, **kwargs):
@@ -1530,12 +1530,13 @@ class MultiEngine:
         forbidden.
 
         """
-        self.instance = self.cls(*self.args, **self.kwargs)
+        instance = self.cls(*self.args, **self.kwargs)
         if reinit:
             for expr, texmessages in self.preambles:
-                self.instance.preamble(expr, texmessages)
+                instance.preamble(expr, texmessages)
         else:
             self.preambles = []
+        self.instance = instance
 
 
 class TexEngine(MultiEngine):
-- 
2.43.0


From 3a5e8842e5da4b4c12d61f8842bfb5698639c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 009/100] fix: let the local locator try all names of a file

---
 pyx/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/config.py b/pyx/config.py
index 00272a9..be353ea 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -86,7 +86,8 @@ class local:
     """locates files in the current directory"""
 
     def openers(self, filename, formats):
-        return [lambda: builtinopen(full_filename, "rb") for full_filename in full_filenames(filename, formats)]
+        return [lambda full_filename=full_filename: builtinopen(full_filename, "rb")
+                for full_filename in full_filenames(filename, formats)]
 
 locator_classes["local"] = local
 
-- 
2.43.0


From 3ddd819593a41d0e3401ae93dfdf25c4b5e5ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 010/100] fix: search anew when the opener of an earlier lookup
 fails

---
 pyx/config.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index be353ea..9812787 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -372,9 +372,15 @@ def open(filename, formats, ascii=False):
     """returns an open file searched according the list of formats"""
 
     names = tuple([format.name for format in formats])
+    file = None
     if (filename, names) in opener_cache:
-        file = opener_cache[(filename, names)]()
-    else:
+        try:
+            file = opener_cache[(filename, names)]()
+        except EnvironmentError:
+            pass
+        if not file:
+            del opener_cache[(filename, names)]
+    if not file:
         for method in methods:
             openers = method.openers(filename, formats)
             for opener in openers:
-- 
2.43.0


From 1a29945fdbe4323760027e23587e915f81fa0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 011/100] fix: keep the order of directories and names in the
 recursivedir locator and skip unreadable items

---
 pyx/config.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index 9812787..ee952d1 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -115,27 +115,33 @@ class recursivedir:
 
     def __init__(self):
         self.dirs = getlist("filelocator", "recursivedir")
-        self.path_cache = {}
+        self.path_cache = {} # maps a name to a list of all its paths found so far
+        self.unreadable_dirs = []
 
     def openers(self, filename, formats):
         filenames = list(full_filenames(filename, formats))
-        for filename in filenames:
-            if filename in self.path_cache:
-                return [lambda: builtinopen(self.path_cache[filename], "rb")]
-        found = None
+        for full_filename in filenames:
+            for path in list(self.path_cache.get(full_filename, [])):
+                yield lambda path=path: builtinopen(path, "rb")
+        self.dirs.extend(self.unreadable_dirs)
+        self.unreadable_dirs = []
         while self.dirs:
             dir = self.dirs.pop(0)
-            for item in os.listdir(dir):
+            try:
+                items = os.listdir(dir)
+            except EnvironmentError:
+                self.unreadable_dirs.append(dir) # try again at the next lookup
+                continue
+            for item in items:
                 full_item = os.path.join(dir, item)
                 if os.path.isdir(full_item):
                     self.dirs.insert(0, full_item)
                 else:
-                    self.path_cache[item] = full_item
-                    if item in filenames:
-                        found = item
-            if found:
-                return [lambda: builtinopen(self.path_cache[found], "rb")]
-        return []
+                    self.path_cache.setdefault(item, []).append(full_item)
+            for full_filename in filenames:
+                if full_filename in items:
+                    path = os.path.join(dir, full_filename)
+                    yield lambda path=path: builtinopen(path, "rb")
 
 locator_classes["recursivedir"] = recursivedir
 
-- 
2.43.0


From 3f67cfae077c003db6eb70259b0a2c6d2ece786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 012/100] fix: skip missing ls-R files and stale entries in the
 ls-R locator

---
 pyx/config.py | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index ee952d1..d0cc987 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -150,28 +150,36 @@ class ls_R:
     """locates files by searching a list of ls-R files"""
 
     def __init__(self):
-        self.path_cache = {}
+        self.path_caches = {} # maps a readable ls-R file to a dictionary mapping a name to a list of all its paths
+
+    def read(self, lsr):
+        path_cache = {}
+        dir = base_dir = os.path.dirname(lsr)
+        first = True
+        with builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape") as lsrfile:
+            for line in lsrfile:
+                line = line.rstrip()
+                if first and line.startswith("%"):
+                    continue
+                first = False
+                if line.endswith(":"):
+                    dir = os.path.join(base_dir, line[:-1])
+                elif line:
+                    path_cache.setdefault(line, []).append(os.path.join(dir, line))
+        return path_cache
 
     def openers(self, filename, formats):
-        if not self.path_cache:
-            for lsr in getlist("filelocator", "ls-R"):
-                base_dir = os.path.dirname(lsr)
-                first = True
-                with builtinopen(lsr, "r", encoding="ascii", errors="surrogateescape") as lsrfile:
-                    for line in lsrfile:
-                        line = line.rstrip()
-                        if first and line.startswith("%"):
-                            continue
-                        first = False
-                        if line.endswith(":"):
-                            dir = os.path.join(base_dir, line[:-1])
-                            # TODO: remove this line from the path_cache
-                        elif line and line not in self.path_cache:
-                            self.path_cache[line] = os.path.join(dir, line)
-        for filename in full_filenames(filename, formats):
-            if filename in self.path_cache:
-                return [lambda: builtinopen(self.path_cache[filename], "rb")]
-        return []
+        lsrs = getlist("filelocator", "ls-R")
+        for lsr in lsrs:
+            if lsr not in self.path_caches:
+                try:
+                    self.path_caches[lsr] = self.read(lsr)
+                except EnvironmentError:
+                    pass # try again at the next lookup
+        return [lambda path=path: builtinopen(path, "rb")
+                for full_filename in full_filenames(filename, formats)
+                for lsr in lsrs
+                for path in self.path_caches.get(lsr, {}).get(full_filename, [])]
 
 locator_classes["ls-R"] = ls_R
 
-- 
2.43.0


From 5b84f04b9fdcb56fb49927a97e1783fb22fb06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 013/100] fix: try the answers for all formats in the kpathsea
 locators

---
 pyx/config.py | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index d0cc987..d940f5b 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -189,21 +189,18 @@ class pykpathsea:
 
     def openers(self, filename, formats):
         if not has_pykpathsea:
-            return []
+            return
         for format in formats:
             full_filename = pykpathsea_module.find_file(filename, format.name)
             if full_filename:
-                break
-        else:
-            return []
-        def _opener():
-            try:
-                return builtinopen(full_filename, "rb")
-            except IOError:
-                logger.warning("'%s' should be available at '%s' according to libkpathsea, "
-                            "but the file is not available at this location; "
-                            "update your kpsewhich database" % (filename, full_filename))
-        return [_opener]
+                def _opener(full_filename=full_filename):
+                    try:
+                        return builtinopen(full_filename, "rb")
+                    except IOError:
+                        logger.warning("'%s' should be available at '%s' according to libkpathsea, "
+                                    "but the file is not available at this location; "
+                                    "update your kpsewhich database" % (filename, full_filename))
+                yield _opener
 
 locator_classes["pykpathsea"] = pykpathsea
 
@@ -252,29 +249,24 @@ class kpsewhich:
         self.kpsewhich = get("filelocator", "kpsewhich", "kpsewhich")
 
     def openers(self, filename, formats):
-        full_filename = None
         for format in formats:
             try:
                 with Popen([self.kpsewhich, '--format', format.name, filename], stdout=subprocess.PIPE) as process:
                     with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
                         full_filename = text_output.readline().rstrip()
             except OSError:
-                return []
+                continue
             if full_filename:
-                break
-        else:
-            return []
-
-        full_filename = fix_cygwin(full_filename)
-
-        def _opener():
-            try:
-                return builtinopen(full_filename, "rb")
-            except IOError:
-                logger.warning("'%s' should be available at '%s' according to kpsewhich, "
-                            "but the file is not available at this location; "
-                            "update your kpsewhich database" % (filename, full_filename))
-        return [_opener]
+                full_filename = fix_cygwin(full_filename)
+
+                def _opener(full_filename=full_filename):
+                    try:
+                        return builtinopen(full_filename, "rb")
+                    except IOError:
+                        logger.warning("'%s' should be available at '%s' according to kpsewhich, "
+                                    "but the file is not available at this location; "
+                                    "update your kpsewhich database" % (filename, full_filename))
+                yield _opener
 
 locator_classes["kpsewhich"] = kpsewhich
 
-- 
2.43.0


From 79ee72a5696b52c08808348423fb321fc9734579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 014/100] fix: make the locate locator work

---
 pyx/config.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/pyx/config.py b/pyx/config.py
index d940f5b..e85ae83 100644
--- a/pyx/config.py
+++ b/pyx/config.py
@@ -278,30 +278,25 @@ class locate:
         self.locate = get("filelocator", "locate", "locate")
 
     def openers(self, filename, formats):
-        full_filename = None
-        for extension in extensions:
-            with Popen([self.locate, filename+extension], stdout=subprocess.PIPE).stdout as output:
-                with io.TextIOWrapper(output, encoding="ascii", errors="surrogateescape") as text_output:
-                    for line in text_output:
-                        line = line.rstrip()
-                        if os.path.basename(line) == filename+extension:
-                            full_filename = line
-                            break
-            if full_filename:
-                break
-        else:
-            return []
-
-        full_filename = fix_cygwin(full_filename)
-
-        def _opener():
+        for name in full_filenames(filename, formats):
             try:
-                return builtinopen(full_filename, "rb")
-            except IOError:
-                logger.warning("'%s' should be available at '%s' according to the locate, "
-                            "but the file is not available at this location; "
-                            "update your locate database" % (filename+extension, full_filename))
-        return [_opener]
+                with Popen([self.locate, name], stdout=subprocess.PIPE) as process:
+                    with io.TextIOWrapper(process.stdout, encoding="ascii", errors="surrogateescape") as text_output:
+                        lines = [line.rstrip() for line in text_output]
+            except OSError:
+                continue
+            for line in lines:
+                if os.path.basename(line) == name:
+                    full_filename = fix_cygwin(line)
+
+                    def _opener(name=name, full_filename=full_filename):
+                        try:
+                            return builtinopen(full_filename, "rb")
+                        except IOError:
+                            logger.warning("'%s' should be available at '%s' according to the locate, "
+                                        "but the file is not available at this location; "
+                                        "update your locate database" % (name, full_filename))
+                    yield _opener
 
 locator_classes["locate"] = locate
 
-- 
2.43.0


From cdee3facf7867412a44e7d52ba345c50aa22575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 015/100] fix: write hexadecimal bitmap data to PostScript

---
 pyx/bitmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 6adba06..683c41a 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -84,12 +84,12 @@ def ascii85stream(file, data):
 
 _asciihexlinelength = 64
 def asciihexlines(datalen):
-    return (datalen*2 + _asciihexlinelength - 1) / _asciihexlinelength
+    return (datalen*2 + _asciihexlinelength - 1) // _asciihexlinelength
 
 def asciihexstream(file, data):
     hexdata = binascii.b2a_hex(data)
-    for i in range((len(hexdata)-1)/_asciihexlinelength + 1):
-        file.write(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
+    for i in range(asciihexlines(len(data))):
+        file.write_bytes(hexdata[i*_asciihexlinelength: i*_asciihexlinelength+_asciihexlinelength])
         file.write("\n")
 
 
@@ -524,7 +524,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             if self.PSbinexpand == 2:
                 file.write("%%%%BeginData: %i ASCII Lines\n"
-                           "image\n" % (asciihexlines(len(data)) + 1))
+                           "image\n" % (asciihexlines(len(data)) + 2))
                 asciihexstream(file, data)
                 file.write(">\n")
             else:
-- 
2.43.0


From cfdf61b9887fc1304d7c2289430d404b98c536d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 016/100] fix: count the lines of stored bitmap data correctly

---
 pyx/bitmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 683c41a..3908992 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -43,7 +43,7 @@ decodestrings = {"L": "[0 1]",
 def ascii85lines(datalen):
     if datalen < 4:
         return 1
-    return (datalen + 56)/60
+    return (datalen + 56)//60
 
 def ascii85stream(file, data):
     """Encodes the string data in ASCII85 and writes it to
@@ -223,7 +223,7 @@ class PSimagedata(pswriter.PSresource):
         self.maxstrlen = maxstrlen
 
     def output(self, file, writer, registry):
-        file.write("%%%%BeginRessource: %s\n" % self.id)
+        file.write("%%%%BeginResource: %s\n" % self.id)
         if self.singlestring:
             file.write("%%%%BeginData: %i ASCII Lines\n"
                        "<~" % ascii85lines(len(self.data)))
@@ -234,8 +234,8 @@ class PSimagedata(pswriter.PSresource):
             datalen = len(self.data)
             tailpos = datalen - datalen % self.maxstrlen
             file.write("%%%%BeginData: %i ASCII Lines\n" %
-                       ((tailpos/self.maxstrlen) * ascii85lines(self.maxstrlen) +
-                        ascii85lines(datalen-tailpos)))
+                       ((tailpos//self.maxstrlen) * ascii85lines(self.maxstrlen) +
+                        (ascii85lines(datalen-tailpos) if datalen != tailpos else 1)))
             file.write("[ ")
             for i in range(0, tailpos, self.maxstrlen):
                 file.write("<~")
@@ -248,7 +248,7 @@ class PSimagedata(pswriter.PSresource):
             file.write("]\n"
                        "%%EndData\n")
         file.write("/%s exch def\n" % self.id)
-        file.write("%%EndRessource\n")
+        file.write("%%EndResource\n")
 
 
 class PDFimagepalettedata(pdfwriter.PDFobject):
-- 
2.43.0


From a119f001da2047719310e0866ef39a1e282bbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 017/100] fix: number of entries of grayscale and CMYK palettes

---
 pyx/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 3908992..3f67fd9 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -304,7 +304,7 @@ class PDFimage(pdfwriter.PDFobject):
                    "/Width %d\n" % self.width)
         file.write("/Height %d\n" % self.height)
         if self.palettedata is not None:
-            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)/3-1))
+            file.write("/ColorSpace [ /Indexed %s %i\n" % (devicenames[self.palettemode], len(self.palettedata)//len(self.palettemode)-1))
             file.write("%d 0 R\n" % registry.getrefno(self.PDFpalettedata))
             file.write("]\n")
         else:
@@ -463,7 +463,7 @@ class bitmap_trafo(baseclasses.canvasitem):
 
         file.write("gsave\n")
         if palettedata is not None:
-            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)/3-1))
+            file.write("[ /Indexed %s %i\n" % (devicenames[palettemode], len(palettedata)//len(palettemode)-1))
             file.write("%%%%BeginData: %i ASCII Lines\n" % ascii85lines(len(palettedata)))
             file.write("<~")
             ascii85stream(file, palettedata)
-- 
2.43.0


From 33b6f4f5e7c4721e9e5cbcddc93ff1f368ceb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 018/100] fix: resolution of JPEG images given per centimeter

---
 pyx/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 3f67fd9..ac80117 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -200,7 +200,7 @@ class jpegimage(image):
                         if dpikind == 1:
                             self.info = {"dpi": (xdpi, ydpi)}
                         elif dpikind == 2:
-                            self.info = {"dpi": (xdpi*2.54, ydpi*2.45)}
+                            self.info = {"dpi": (xdpi*2.54, ydpi*2.54)}
                         # else do not provide dpi information
                         pos += l+1
                 pos += 1
-- 
2.43.0


From 8eb02999c0ada02caa32dfee6c9c5ab641946605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 019/100] fix: different names for images differing in size,
 mode, alpha or palette only

---
 pyx/bitmap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index ac80117..413e88d 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -430,7 +430,13 @@ class bitmap_trafo(baseclasses.canvasitem):
             else:
                 alpha = alpha.tobytes()
 
-        imagehash = hashlib.sha1(data).hexdigest()[0:15]
+        # the hash names the image, thus it needs to cover everything the image consists of
+        imagehash = hashlib.sha1(("%i %i %s %s " % (self.imagewidth, self.imageheight, mode, palettemode)).encode("ascii") + data)
+        if alpha and not interleavealpha:
+            imagehash.update(b" alpha " + alpha)
+        if palettedata is not None:
+            imagehash.update(b" palette " + palettedata)
+        imagehash = imagehash.hexdigest()[0:15]
 
         return mode, data, alpha, palettemode, palettedata, imagehash
 
-- 
2.43.0


From a645d24368f0029000082db44ac1adfbf7ee02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 020/100] fix: write any title, author, subject and keywords to
 the PDF info dictionary

---
 pyx/pdfwriter.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 88194f9..12bf040 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -120,6 +120,22 @@ class PDFregistry:
         file.write(">>\n")
 
 
+def pdfstring(s, unicode=True):
+    """return a PDF string object for s
+
+    For a text string (unicode is set) the PDF document encoding is used if
+    possible and UTF-16 otherwise. The strings to be shown by a text operator
+    are restricted to the single byte encoding of the font."""
+    if all(ord(c) < 127 or 161 <= ord(c) <= 255 and ord(c) != 173 for c in s):
+        data = s.encode("latin-1")
+    elif unicode:
+        data = b"\xfe\xff" + s.encode("utf-16-be")
+    else:
+        data = s.encode("latin-1", errors="replace")
+    return "(%s)" % "".join(chr(c) if 32 <= c < 127 and c not in b"()[]<>\\" else "\\%03o" % c
+                            for c in data)
+
+
 class PDFobject:
 
     def __init__(self, type, _id=None):
@@ -181,24 +197,15 @@ class PDFinfo(PDFobject):
                 timezone = "Z00'00'"
             creation_date = time.localtime()
 
-        def pdfstring(s):
-            r = ""
-            for c in s:
-                if 32 <= ord(c) <= 127 and c not in "()[]<>\\":
-                    r += c
-                else:
-                    r += "\\%03o" % ord(c)
-            return r
-
         file.write("<<\n")
         if writer.title:
-            file.write("/Title (%s)\n" % pdfstring(writer.title))
+            file.write("/Title %s\n" % pdfstring(writer.title))
         if writer.author:
-            file.write("/Author (%s)\n" % pdfstring(writer.author))
+            file.write("/Author %s\n" % pdfstring(writer.author))
         if writer.subject:
-            file.write("/Subject (%s)\n" % pdfstring(writer.subject))
+            file.write("/Subject %s\n" % pdfstring(writer.subject))
         if writer.keywords:
-            file.write("/Keywords (%s)\n" % pdfstring(writer.keywords))
+            file.write("/Keywords %s\n" % pdfstring(writer.keywords))
         file.write("/Creator (PyX %s)\n" % version.version)
         file.write("/CreationDate (D:%s%s)\n" %
                    (time.strftime("%Y%m%d%H%M",creation_date), timezone))
-- 
2.43.0


From 74e31b9f38c3bad32417bdc7ce347276793c871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 021/100] fix: escape the strings of PDF form fields

---
 pyx/pdfextra.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index aa64e5e..8922e06 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -264,11 +264,11 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
             file.write("/AP <</N %d 0 R >>\n" % registry.getrefno(self.defaulttext)) # appearance dictionary
         ### the dictionary entries for the form field
         file.write("/FT /Tx\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
-        file.write("/V (%s)\n" % self.defaultvalue) # starting value
-        file.write("/DV (%s)\n" % self.defaultvalue) # reset value
+        file.write("/T %s\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU %s\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM %s\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
+        file.write("/V %s\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
+        file.write("/DV %s\n" % pdfwriter.pdfstring(self.defaultvalue)) # reset value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR ")
@@ -314,9 +314,9 @@ class PDFdefaulttext(pdfwriter.PDFobject): # <<<
 
     def write(self, file, awriter, registry):
         contentfile = writer.writer(io.BytesIO())
-        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td (%s) Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, self.texts[0]))
+        contentfile.write("/Tx BMC q BT /%s %f Tf %f TL %f %f Td %s Tj" % (self.font.name, self.fontsize, self.fontleading, self.hshift, self.vshift, pdfwriter.pdfstring(self.texts[0], unicode=False)))
         for text in self.texts[1:]:
-            contentfile.write(" (%s)'" % (text))
+            contentfile.write(" %s'" % pdfwriter.pdfstring(text, unicode=False))
         contentfile.write(" ET Q EMC\n")
 
         content = contentfile.file.getvalue()
@@ -479,9 +479,9 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         ### the dictionary entries for the form field
         file.write("/FT /Btn\n") # type of the form field
         file.write("/Kids [%s]\n" % " ".join(["%d 0 R" % registry.getrefno(x) for x in self.checkboxes]))
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T %s\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU %s\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM %s\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
         file.write("/V /%s\n" % self.defaultvalue)
         file.write(">>\n")
@@ -686,11 +686,11 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         #ile.write("/AP <</N  >>\n") # appearance dictionary TODO
         ### the dictionary entries for the form field
         file.write("/FT /Ch\n") # type of the form field
-        file.write("/T (%s)\n" % self.name) # partial field name
-        file.write("/TU (%s)\n" % self.name) # field name for the user-interface
-        file.write("/TM (%s)\n" % self.name) # field name for exporting the data
+        file.write("/T %s\n" % pdfwriter.pdfstring(self.name)) # partial field name
+        file.write("/TU %s\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
+        file.write("/TM %s\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         if self.defaultvalue in self.values:
-            file.write("/V (%s)\n" % self.defaultvalue) # starting value
+            file.write("/V %s\n" % pdfwriter.pdfstring(self.defaultvalue)) # starting value
         file.write("/Ff %d\n" % self.formflag) # flags for various purposes
         ### the dictionary entries for the text field
         file.write("/DR <</Font <</%s %d 0 R >> >>\n" % (self.font.name, registry.getrefno(self.font))) # default resources for appearance
@@ -698,7 +698,7 @@ class PDFchoicefield(pdfwriter.PDFobject): # <<<
         file.write("/Q %d\n" % self.alignflag)
         file.write("/Opt [")
         for value in self.values:
-            file.write(" (%s)" % value)
+            file.write(" %s" % pdfwriter.pdfstring(value))
         file.write(" ]\n")
         file.write(">>\n")
 # >>>
-- 
2.43.0


From c9b1006aa3518b490d0398cb3b163718351d6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 022/100] fix: PDF text field with empty lines only as its
 default value

---
 pyx/pdfextra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index 8922e06..b4fae78 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -229,8 +229,8 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
         self.registry.addresource("Font", self.font.name, self.font, procset="Text")
         self.registry.add(self.font)
 
-        if self.defaultvalue:
-            text = self.defaultvalue.split("\n")
+        text = self.defaultvalue.split("\n")
+        if any(text):
             self.defaulttext = PDFdefaulttext(writer, registry, self.fontsize, self.font,
                 self.fontleading, text, self.bb_pt, self.borderwidth, vcenter)
             self.registry.add(self.defaulttext)
-- 
2.43.0


From 94401b4b0136b42cdeafb8a8b4d9b2c9c816a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 023/100] fix: use of fill styles in PDF text fields

---
 pyx/pdfextra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index b4fae78..cac5025 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -244,7 +244,7 @@ class PDFtextfield(pdfwriter.PDFobject): # <<<
                 cont = pdfwriter.context()
                 cont.fillattr = 1
                 cont.strokeattr = 0
-                attr.processPDF(fillstring, writer, cont, self.registry, bbox)
+                attr.processPDF(fillstring, writer, cont, self.registry)
         self.fillstyles = fillstring.getvalue()
         fillstring.close()
 
-- 
2.43.0


From 953fb9845f7d346d09d95db6381185ecaafdb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 024/100] fix: value of PDF button fields needs to be the name
 of a state

---
 pyx/pdfextra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/pdfextra.py b/pyx/pdfextra.py
index cac5025..fc6a710 100644
--- a/pyx/pdfextra.py
+++ b/pyx/pdfextra.py
@@ -121,7 +121,7 @@ def _topt(value, type="u", un="cm"): # <<<
 def _simplestring(text): # <<<
     result = ""
     for x in text:
-        if x.isalnum():
+        if x.isalnum() and x.isascii():
             result += x
     return result
 # >>>
@@ -455,6 +455,7 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         self.annotflag = annotflag
 
         self.size_pt = size_pt
+        self.values = values
         self.defaultvalue = defaultvalue
         self.onstate = onstate
         self.offstate = offstate
@@ -483,7 +484,10 @@ class PDFbuttonlist(pdfwriter.PDFobject): # <<<
         file.write("/TU %s\n" % pdfwriter.pdfstring(self.name)) # field name for the user-interface
         file.write("/TM %s\n" % pdfwriter.pdfstring(self.name)) # field name for exporting the data
         ### the dictionary entries for the radiobuttons field
-        file.write("/V /%s\n" % self.defaultvalue)
+        if self.defaultvalue in self.values:
+            file.write("/V /%s\n" % _simplestring(self.defaultvalue))
+        else:
+            file.write("/V /Off\n")
         file.write(">>\n")
 # >>>
 class PDFcheckboxfield(pdfwriter.PDFobject): # <<<
-- 
2.43.0


From 5aed8c4ae010cc6bc8747e02045648293177112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 025/100] fix: a PDF page only has its own annotations

---
 pyx/pdfwriter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 12bf040..5f9f8a1 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -288,6 +288,16 @@ class PDFpage(PDFobject):
 
         self.pdfcontent = PDFcontent(page, writer, self.pageregistry)
         self.pageregistry.add(self.pdfcontent)
+
+        # the annotations of the page must not be merged with the annotations
+        # of the other pages, hence we provide them with an unique id
+        self.pdfannotations = None
+        for object in self.pageregistry.objects:
+            if object.type == "annotations":
+                self.pdfannotations = object
+                del self.pageregistry.types[object.type][object.id]
+                object.id = "annotations%d" % pageno
+                self.pageregistry.types[object.type][object.id] = object
         registry.mergeregistry(self.pageregistry)
 
     def write(self, file, writer, registry):
@@ -304,9 +314,8 @@ class PDFpage(PDFobject):
         if self.page.rotated:
             file.write("/Rotate 90\n")
 
-        pdfannotations = PDFannotations([])
-        if pdfannotations in registry:
-            file.write("/Annots %i 0 R\n" % registry.getrefno(pdfannotations))
+        if self.pdfannotations is not None:
+            file.write("/Annots %i 0 R\n" % registry.getrefno(self.pdfannotations))
         file.write("/Contents %i 0 R\n" % registry.getrefno(self.pdfcontent))
         file.write("/Resources ")
         self.pageregistry.writeresources(file)
-- 
2.43.0


From 7b66b80d64230806551b9c7b5aaf4ac35a0e1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 026/100] fix: write to raw and unseekable streams and at any
 position of a stream

---
 pyx/writer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyx/writer.py b/pyx/writer.py
index 0acc588..001c754 100644
--- a/pyx/writer.py
+++ b/pyx/writer.py
@@ -26,15 +26,23 @@ class writer:
         self.file = file
         self.encoding = encoding
         self.errors = errors
+        self.pos = 0
 
     def write(self, s):
-        self.file.write(s.encode(self.encoding, errors=self.errors))
+        self.write_bytes(s.encode(self.encoding, errors=self.errors))
 
     def write_bytes(self, b):
-        self.file.write(b)
+        self.pos += len(b)
+        while True:
+            # a raw stream might accept a part of the data only
+            n = self.file.write(b)
+            if n is None or n >= len(b):
+                break
+            b = b[n:]
 
     def tell(self):
-        return self.file.tell()
+        """number of bytes written, which is available for any kind of file"""
+        return self.pos
 
     def __enter__(self):
         return self
-- 
2.43.0


From 2b039b6f31ba2e5a466c0637e44f6391fb957ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 027/100] fix: write SVG to raw streams

---
 pyx/svgwriter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 19d168c..0d9e69a 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -20,7 +20,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import io, copy, time, xml.sax.saxutils
-from . import bbox, config, style, version, unit, trafo
+from . import bbox, config, style, version, unit, trafo, writer
 
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
@@ -208,7 +208,8 @@ class SVGwriter:
         pagesvg.endSVGElement("svg")
         pagesvg.endSVGDocument()
 
-        x = SVGGenerator(file, xlink=pagesvg.xlink_used)
+        svgfile = io.BytesIO()
+        x = SVGGenerator(svgfile, xlink=pagesvg.xlink_used)
         x.startSVGDocument()
         attrs = {"fill": "none", "version": "1.1"}
         if pagebbox:
@@ -228,9 +229,10 @@ class SVGwriter:
         registry.output(x, self)
         pagedata = pagefile.getvalue()
         x.newline_and_tell()
-        file.write(pagedata[pagexml_start:pagexml_end])
+        svgfile.write(pagedata[pagexml_start:pagexml_end])
         x.endSVGElement("svg")
         x.endSVGDocument()
+        writer.writer(file).write_bytes(svgfile.getvalue())
 
     def getfontmap(self):
         if self._fontmap is None:
-- 
2.43.0


From d85552a21f99529be8c15962b8afa6f7a5aee90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 028/100] fix: the deprecated options and meshasbitmap of the
 writers

---
 pyx/pdfwriter.py |  4 ++--
 pyx/pswriter.py  |  9 ++++++---
 pyx/svgwriter.py | 14 ++++++++------
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 5f9f8a1..a7935d2 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -377,11 +377,11 @@ class PDFwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("PDFwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PDFwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 69a4701..14c7bf0 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -20,9 +20,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, math, os
+import io, copy, logging, time, math, os
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 
 class PSregistry:
 
@@ -110,11 +112,12 @@ class _PSwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap is not None:
             logger.warning("(E)PSwriter: mesh_as_bitmap deprecated, use meshasbitmap instead")
-            meshasbitmap = mash_as_bitmap
+            meshasbitmap = mesh_as_bitmap
         self.meshasbitmap = meshasbitmap
         if mesh_as_bitmap_resolution is not None:
             logger.warning("PSwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
+        self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
         # encodings themselves are mappings from glyphnames to codepoints
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 0d9e69a..ef231ed 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -19,9 +19,11 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import io, copy, time, xml.sax.saxutils
+import io, copy, logging, time, xml.sax.saxutils
 from . import bbox, config, style, version, unit, trafo, writer
 
+logger = logging.getLogger("pyx")
+
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
 
@@ -107,20 +109,20 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
 
     def startDocument(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use startSVGDocument")
+            raise NotImplementedError("use startSVGDocument")
 
     def endDocument(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use endSVGDocument")
+            raise NotImplementedError("use endSVGDocument")
 
     def startElementNS(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use startSVGElement")
+            raise NotImplementedError("use startSVGElement")
         super().startElementNS(*args, **kwargs)
 
     def endElementNS(self, *args, **kwargs):
         if not self.passthrough:
-            raise NotImplemented("use endSVGElement")
+            raise NotImplementedError("use endSVGElement")
         super().endElementNS(*args, **kwargs)
 
     def startSVGDocument(self):
@@ -183,7 +185,7 @@ class SVGwriter:
         self.textaspath = textaspath
         if mesh_as_bitmap_resolution is not None:
             logger.warning("SVGwriter: mesh_as_bitmap_resolution deprecated, use meshasbitmapresolution instead")
-            meshasbitmapresolution = mash_as_bitmap_resolution
+            meshasbitmapresolution = mesh_as_bitmap_resolution
         self.meshasbitmapresolution = meshasbitmapresolution
 
         # dictionary mapping font names to dictionaries mapping encoding names to encodings
-- 
2.43.0


From 69df378bb9eb2368d653867986477d6b0dc3d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 029/100] fix: write any title and page name to PostScript
 document structuring comments

---
 pyx/pswriter.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 14c7bf0..65af988 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -95,6 +95,17 @@ class PSdefinition(PSresource):
 # Writers
 #
 
+def _dsctext(s, escape=False):
+    """returns s as text for a document structuring comment
+
+    The comments consist of printable ASCII characters only. Anything else
+    needs to be written in the form of a PostScript string."""
+    if all(32 <= ord(c) < 127 for c in s) and not s.startswith("(") and not escape:
+        return s
+    return "(%s)" % "".join(chr(c) if 32 <= c < 127 and c not in b"()\\" else "\\%03o" % c
+                            for c in s.encode("latin-1", errors="replace"))
+
+
 class _PSwriter:
 
     def __init__(self, title=None, 
@@ -130,7 +141,7 @@ class _PSwriter:
             creation_date = time.localtime()
         file.write("%%%%Creator: PyX %s\n" % version.version)
         if self.title is not None:
-            file.write("%%%%Title: %s\n" % self.title)
+            file.write("%%%%Title: %s\n" % _dsctext(self.title))
         file.write("%%%%CreationDate: %s\n" %
                    time.asctime(creation_date))
 
@@ -203,7 +214,10 @@ class PSwriter(_PSwriter):
 
             documentbbox += pagebbox
 
-            pagesfile.write("%%%%Page: %s %d\n" % (page.pagename is None and str(nr+1) or page.pagename, nr+1))
+            pagename = str(nr+1) if page.pagename is None else page.pagename
+            # the page label is a single word or a string in parentheses
+            pagename = _dsctext(pagename, escape=not pagename or any(c in " ()\\" for c in pagename))
+            pagesfile.write("%%%%Page: %s %d\n" % (pagename, nr+1))
             if page.paperformat:
                 pagesfile.write("%%%%PageMedia: %s\n" % page.paperformat.name)
             pagesfile.write("%%%%PageOrientation: %s\n" % (page.rotated and "Landscape" or "Portrait"))
-- 
2.43.0


From 4d2d572facaeffb0660c1b0e877ddb9ef6b37ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 030/100] fix: accurate bounding box of patterns in PDF

---
 pyx/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index d2fc0bd..5d9fe8a 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -334,7 +334,7 @@ class PDFpattern(pdfwriter.PDFobject):
                    "/PatternType %d\n" % self.patterntype)
         file.write("/PaintType %d\n" % self.painttype)
         file.write("/TilingType %d\n" % self.tilingtype)
-        file.write("/BBox [%d %d %d %d]\n" % self.bbox.lowrestuple_pt())
+        file.write("/BBox [%f %f %f %f]\n" % self.bbox.highrestuple_pt())
         file.write("/XStep %f\n" % self.xstep)
         file.write("/YStep %f\n" % self.ystep)
         file.write("/Matrix %s\n" % str(self.trafo))
-- 
2.43.0


From b66798838963273602ca9397c1f703c91750545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 031/100] fix: modify a pattern by calling it

---
 pyx/pattern.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index 5d9fe8a..081c9b0 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -54,21 +54,24 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
 
     def __call__(self, painttype=_marker, tilingtype=_marker, xstep=_marker, ystep=_marker,
                  bbox=_marker, trafo=_marker, bboxenlarge=_marker):
-        if painttype is not _marker:
+        if painttype is _marker:
             painttype = self.painttype
-        if tilingtype is not _marker:
+        if tilingtype is _marker:
             tilingtype = self.tilingtype
-        if xstep is not _marker:
+        if xstep is _marker:
             xstep = self.xstep
-        if ystep is not _marker:
+        if ystep is _marker:
             ystep = self.ystep
-        if bbox is not _marker:
-            bbox = self.bbox
-        if trafo is not _marker:
-            trafo = self.trafo
-        if bboxenlarge is not _marker:
+        if bbox is _marker:
+            bbox = self.patternbbox
+        if trafo is _marker:
+            trafo = self.patterntrafo
+        if bboxenlarge is _marker:
             bboxenlarge = self.bboxenlarge
-        return pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+        newpattern = pattern(painttype, tilingtype, xstep, ystep, bbox, trafo, bboxenlarge)
+        # keep the drawing
+        newpattern.insert(self)
+        return newpattern
 
     def processPS(self, file, writer, context, registry):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
-- 
2.43.0


From 4999de785c5019a3e9f6e5407fcae1f3337eebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 032/100] fix: names of patterns, clip paths and shadings
 independent of memory addresses

---
 pyx/canvas.py    |  6 +++---
 pyx/mesh.py      |  2 +-
 pyx/pattern.py   | 17 +++++++++--------
 pyx/pdfwriter.py |  2 +-
 pyx/pswriter.py  |  2 +-
 pyx/svgwriter.py |  2 +-
 pyx/writer.py    | 16 ++++++++++++++++
 7 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 3bd4fb9..c94ea4b 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -56,8 +56,8 @@ def _wrappedindocument(method):
 
 class SVGclippath(svgwriter.SVGresource):
 
-    def __init__(self, path):
-        self.svgid = "clippath%d" % id(path)
+    def __init__(self, path, writer):
+        self.svgid = writer.uniquename("clippath", path)
         super().__init__("clip-path", self.svgid)
         self.path = path
 
@@ -87,7 +87,7 @@ class clip(attr.attr):
         file.write("W n\n")
 
     def processSVGattrs(self, attrs, writer, context, registry):
-        clippath = SVGclippath(self.path)
+        clippath = SVGclippath(self.path, writer)
         registry.add(clippath)
         attrs["clip-path"] = "url(#%s)" % clippath.svgid
 
diff --git a/pyx/mesh.py b/pyx/mesh.py
index e688f16..3c47981 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -160,7 +160,7 @@ class mesh(baseclasses.canvasitem):
                 d = zlib.compress(d)
             else:
                 filter = ""
-            name = "shading-%s" % id(self)
+            name = writer.uniquename("shading-", self)
             shading = PDFGenericResource("shading", name, ("""<<
 /ShadingType 4
 /ColorSpace %s
diff --git a/pyx/pattern.py b/pyx/pattern.py
index 081c9b0..ade862e 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -38,7 +38,6 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         kwargs['attrs'] = attr.mergeattrs([style.linewidth.normal] + kwargs.get('attrs', []))
         canvas.canvas.__init__(self, **kwargs)
         attr.exclusiveattr.__init__(self, pattern)
-        self.id = "pattern%d" % id(self)
         self.patterntype = 1
         if painttype not in (1, 2):
             raise ValueError("painttype must be 1 or 2")
@@ -110,10 +109,11 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         patterntrafostring = self.patterntrafo is None and "matrix" or str(self.patterntrafo)
         patternsuffix = "end\n} bind\n>>\n%s\nmakepattern" % patterntrafostring
 
-        registry.add(pswriter.PSdefinition(self.id, patternprefix.encode("ascii") + patternproc + patternsuffix.encode("ascii")))
+        id = writer.uniquename("pattern", self)
+        registry.add(pswriter.PSdefinition(id, patternprefix.encode("ascii") + patternproc + patternsuffix.encode("ascii")))
 
         # activate pattern
-        file.write("%s setpattern\n" % self.id)
+        file.write("%s setpattern\n" % id)
 
     def processPDF(self, file, writer, context, registry):
         # we need to keep track of the resources used by the pattern, hence
@@ -147,7 +147,8 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
                 patternbbox.enlarge(self.bboxenlarge)
         patterntrafo = self.patterntrafo or trafo.trafo()
 
-        registry.add(PDFpattern(self.id, self.patterntype, self.painttype, self.tilingtype,
+        id = writer.uniquename("pattern", self)
+        registry.add(PDFpattern(id, self.patterntype, self.painttype, self.tilingtype,
                                 patternbbox, xstep, ystep, patterntrafo, patternproc, writer, registry, patternregistry))
 
         # activate pattern
@@ -160,7 +161,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
             # we just don't do this...
             logger.warning("ignoring stroke color for patterns in PDF")
         if context.fillattr:
-            file.write("/%s scn\n"% self.id)
+            file.write("/%s scn\n"% id)
 
     def processSVGattrs(self, attrs, writer, context, registry):
         assert self.patterntype == 1
@@ -170,7 +171,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         if self.xstep is not None or self.ystep is not None or self.bboxenlarge is not None:
             raise ValueError("step and bbox modifications not supported")
 
-        svgpattern = SVGpattern(self)
+        svgpattern = SVGpattern(self, writer)
         registry.add(svgpattern)
         if context.strokeattr:
             context.strokecolor = "url(#%s)" % svgpattern.svgid
@@ -360,8 +361,8 @@ class PDFpattern(pdfwriter.PDFobject):
 
 class SVGpattern(svgwriter.SVGresource):
 
-    def __init__(self, pattern):
-        self.svgid = "pattern%d" % id(pattern)
+    def __init__(self, pattern, writer):
+        self.svgid = writer.uniquename("pattern", pattern)
         super().__init__("pattern", self.svgid)
         self.pattern = pattern
 
diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index a7935d2..238de4e 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -347,7 +347,7 @@ class PDFcontent(PDFobject):
         file.write("endstream\n")
 
 
-class PDFwriter:
+class PDFwriter(writer.namer):
 
     def __init__(self, document, file,
                        title=None, author=None, subject=None, keywords=None,
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index 65af988..bda1da6 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -106,7 +106,7 @@ def _dsctext(s, escape=False):
                             for c in s.encode("latin-1", errors="replace"))
 
 
-class _PSwriter:
+class _PSwriter(writer.namer):
 
     def __init__(self, title=None, 
                  stripfonts=True, textaspath=False, meshasbitmap=False, meshasbitmapresolution=300,
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index ef231ed..3787ea3 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -175,7 +175,7 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
 # Writer
 #
 
-class SVGwriter:
+class SVGwriter(writer.namer):
 
     def __init__(self, document, file, textaspath=True, meshasbitmapresolution=300, text_as_path=None, mesh_as_bitmap_resolution=None):
         self._fontmap = None
diff --git a/pyx/writer.py b/pyx/writer.py
index 001c754..02a4fbb 100644
--- a/pyx/writer.py
+++ b/pyx/writer.py
@@ -20,6 +20,22 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
+class namer:
+    """mixin class of the writers, which creates names of objects in a file
+
+    The names depend on the order of the objects in the file only.
+    """
+
+    def uniquename(self, prefix, obj):
+        """returns a name for obj, which will always be the same within the file"""
+        try:
+            uniquenames = self._uniquenames
+        except AttributeError:
+            uniquenames = self._uniquenames = {}
+        # keep obj to have its id reserved
+        return uniquenames.setdefault((prefix, id(obj)), ("%s%d" % (prefix, len(uniquenames)), obj))[0]
+
+
 class writer:
 
     def __init__(self, file, encoding="ascii", errors="surrogateescape"):
-- 
2.43.0


From bf9b796bf1b0bb9155ce2271db9573ee76837291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 033/100] fix: keep the order of the glyphs in font encodings

---
 pyx/font/font.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index b3a1b3e..8cc7648 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -51,9 +51,9 @@ class PST1file(pswriter.PSresource):
         file.write("%%%%BeginFont: %s\n" % self.t1file.name)
         if writer.stripfonts:
             if self.glyphnames:
-                file.write("%%Included glyphs: %s\n" % " ".join(self.glyphnames))
+                file.write("%%Included glyphs: %s\n" % " ".join(sorted(self.glyphnames)))
             if self.charcodes:
-                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in self.charcodes]))
+                file.write("%%Included charcodes: %s\n" % " ".join([str(charcode) for charcode in sorted(self.charcodes)]))
             self.t1file.getstrippedfont(self.glyphnames, self.charcodes).outputPS(file, writer)
         else:
             self.t1file.outputPS(file, writer)
@@ -490,7 +490,7 @@ class T1text_pt(text_pt):
         """returns the name of the encoding (in encodings) mapping self.glyphnames to codepoints
         If no such encoding can be found or extended, a new encoding is added to encodings
         """
-        glyphnames = set(self.glyphnames)
+        glyphnames = dict.fromkeys(self.glyphnames)
         if len(glyphnames) > 256:
             raise ValueError("glyphs do not fit into one single encoding")
         for encodingname, encoding in list(encodings.items()):
-- 
2.43.0


From 254a57400299bfbcb9691c756aa8c4f0302c0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 034/100] fix: slanted text as path

---
 pyx/font/font.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 8cc7648..19da5b3 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -532,6 +532,8 @@ class T1text_pt(text_pt):
                     self._textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
+            if self.slant:
+                self._textpath = self._textpath.transformed(trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)))
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
-- 
2.43.0


From 8a6ac45485beb2f23214e336486c75fbeef19c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 035/100] fix: transparent and slanted text in SVG

---
 pyx/font/font.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 19da5b3..c6d02fa 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -730,10 +730,10 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
-            if context.fillopacity:
-                attrs["opacity"] = "%f" % context.fillopacity
+            if context.fillopacity != 1:
+                attrs["fill-opacity"] = "%f" % context.fillopacity
             if self.slant:
-                trafo.trafo_pt(matrix=((1, self.slant), (0, 1))).outputSVGattrs(attrs, writer, context, registry)
+                trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)).processSVGattrs(attrs, writer, context, registry)
             xml.startSVGElement("text", attrs)
             tspan = False
             for i, value in enumerate(data):
-- 
2.43.0


From 8bb1ba27ae8eccb080a4e2a3a8b01a4c8ae5dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 036/100] fix: keep track of the font selected within a nested
 canvas

---
 pyx/canvas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index c94ea4b..5ce1fa0 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -192,10 +192,10 @@ class canvas(baseclasses.canvasitem):
         return obbox
 
     def processPS(self, file, writer, context, registry, bbox):
-        context = context()
         if self.items:
             if self.modifies_state:
                 file.write("gsave\n")
+                context = context()
                 for attr in self.styles:
                     attr.processPS(file, writer, context, registry)
                 if self.clip is not None:
-- 
2.43.0


From 5c54c531460e41ec53eafddaf1d74db486312eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 037/100] fix: select the pattern color space for each pattern
 in PDF

---
 pyx/pattern.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index ade862e..e03b3d7 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -152,15 +152,13 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
                                 patternbbox, xstep, ystep, patterntrafo, patternproc, writer, registry, patternregistry))
 
         # activate pattern
-        if context.colorspace != "Pattern":
-            # we only set the fill color space (see next comment)
-            file.write("/Pattern cs\n")
-            context.colorspace = "Pattern"
         if context.strokeattr:
             # using patterns as stroke colors doesn't seem to work, so
             # we just don't do this...
             logger.warning("ignoring stroke color for patterns in PDF")
         if context.fillattr:
+            # a color might have changed the color space in between
+            file.write("/Pattern cs\n")
             file.write("/%s scn\n"% id)
 
     def processSVGattrs(self, attrs, writer, context, registry):
-- 
2.43.0


From bd81b82f3f8b38dbc99958225dfc05fc7e5cad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 038/100] fix: restrict the fill styles of text fields to their
 canvas

---
 pyx/pdfwriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 238de4e..630ca30 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -423,6 +423,7 @@ class context:
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
+        newcontext.fillstyles = list(self.fillstyles)
         for key, value in list(kwargs.items()):
             setattr(newcontext, key, value)
         return newcontext
-- 
2.43.0


From ca56b5f5b1d0e338ed34007874c15c86e17733ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 039/100] fix: finish graphs when writing SVG

---
 pyx/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index c337591..7e0b1cb 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -193,6 +193,10 @@ class graph(canvas.canvas):
         self.finish()
         canvas.canvas.processPDF(self, file, writer, context, registry, bbox)
 
+    def processSVG(self, xml, writer, context, registry, bbox):
+        self.finish()
+        canvas.canvas.processSVG(self, xml, writer, context, registry, bbox)
+
     def plot(self, data, styles=None, rangewarning=1):
         if self.didranges and rangewarning:
             logger.warning("axes ranges have already been analysed; no further adjustments will be performed")
-- 
2.43.0


From 03b4b02b2ef7906bf8c00ddf0e777c7ceaa6a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 040/100] fix: fill rule as the style of a filled decorator

---
 pyx/deco.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 8586b44..32937d5 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -147,10 +147,11 @@ class decoratedpath(baseclasses.canvasitem):
                 # do efficient stroking + filling if respective paths are identical
                 file.write("gsave\n")
 
+                fcontext = context()
                 if self.fillstyles:
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -169,11 +170,12 @@ class decoratedpath(baseclasses.canvasitem):
                     file.write("grestore\n")
             else:
                 # only fill fillpath - for the moment
+                fcontext = context()
                 if self.fillstyles:
                     file.write("gsave\n")
-                    _writestyles(self.fillstyles, context(), registry)
+                    _writestyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("eofill\n")
                 else:
                     file.write("fill\n")
@@ -247,7 +249,7 @@ class decoratedpath(baseclasses.canvasitem):
                 if self.strokestyles:
                     _writestrokestyles(self.strokestyles, acontext, registry)
 
-                if context.fillrule:
+                if acontext.fillrule:
                     file.write("B*\n")
                 else:
                     file.write("B\n") # both stroke and fill
@@ -257,11 +259,12 @@ class decoratedpath(baseclasses.canvasitem):
                 file.write("Q\n") # grestore
             else:
                 # only fill fillpath - for the moment
+                fcontext = context()
                 if self.fillstyles:
                     file.write("q\n") # gsave
-                    _writefillstyles(self.fillstyles, context(), registry)
+                    _writefillstyles(self.fillstyles, fcontext, registry)
 
-                if context.fillrule:
+                if fcontext.fillrule:
                     file.write("f*\n")
                 else:
                     file.write("f\n") # fill
-- 
2.43.0


From ff144f07242a5d84bc0cf2c335b5aa1fbc8b770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 041/100] fix: filled and stroked paths in SVG

---
 pyx/deco.py | 100 ++++++++++++++++++++--------------------------------
 1 file changed, 38 insertions(+), 62 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index 32937d5..c53387b 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -298,18 +298,6 @@ class decoratedpath(baseclasses.canvasitem):
             file.write("Q\n") # grestore
 
     def processSVG(self, xml, writer, context, registry, bbox):
-        def _writestrokestyles(attrs, context):
-            context.fillattr = False
-            for style in self.strokestyles or []:
-                style.processSVGattrs(attrs, writer, context, registry)
-            context.fillattr = True
-
-        def _writefillstyles(attrs, context):
-            context.strokeattr = False
-            for style in self.fillstyles or []:
-                style.processSVGattrs(attrs, writer, context, registry)
-            context.strokeattr = True
-
         strokepath = self.strokepath()
         fillpath = self.path
 
@@ -320,57 +308,45 @@ class decoratedpath(baseclasses.canvasitem):
         if gattrs:
             xml.startSVGElement("g", gattrs)
 
-        if strokepath is not fillpath:
-            if self.strokestyles is not None:
-                attrs = {"d": strokepath.returnSVGdata()}
-                _writestrokestyles(attrs, acontext)
-                attrs["stroke"] = acontext.strokecolor
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
-            if self.fillstyles is not None:
-                attrs = {"d": fillpath.returnSVGdata()}
-                _writefillstyles(attrs, acontext)
-                attrs["fill"] = acontext.fillcolor
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                bbox += fillpath.bbox()
-        else:
+        # Use separate contexts for the stroke and the fill as
+        # their styles are not to be applied to the ornaments.
+
+        def _strokeattrs(attrs):
+            nonlocal bbox
+            scontext = acontext()
+            scontext.fillattr = False
+            for style in self.strokestyles:
+                style.processSVGattrs(attrs, writer, scontext, registry)
+            attrs["stroke"] = scontext.strokecolor
+            if scontext.strokeopacity != 1:
+                attrs["stroke-opacity"] = "%f" % scontext.strokeopacity
+            # take linewidth into account for bbox when stroking a path
+            bbox += strokepath.bbox().enlarged_pt(0.5*scontext.linewidth_pt)
+
+        def _fillattrs(attrs):
+            nonlocal bbox
+            fcontext = acontext()
+            fcontext.strokeattr = False
+            for style in self.fillstyles:
+                style.processSVGattrs(attrs, writer, fcontext, registry)
+            attrs["fill"] = fcontext.fillcolor
+            if fcontext.fillopacity != 1:
+                attrs["fill-opacity"] = "%f" % fcontext.fillopacity
+            bbox += fillpath.bbox()
+
+        if self.fillstyles is not None:
             attrs = {"d": fillpath.returnSVGdata()}
-            _writestrokestyles(attrs, acontext)
-            _writefillstyles(attrs, acontext)
-            if self.strokestyles is not None:
-                attrs["stroke"] = acontext.strokecolor
-            if self.fillstyles is not None:
-                attrs["fill"] = acontext.fillcolor
-            if acontext.strokeopacity != acontext.fillopacity and self.strokestyles is not None and self.fillstyles is not None:
-                if acontext.strokeopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                attrs["stroke"] = acontext.strokecolor
-                attrs["fill"] = "none"
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-                if acontext.fillopacity != 1:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                attrs["stroke"] = "none"
-                attrs["fill"] = acontext.fillcolor
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-            else:
-                if acontext.strokeopacity != 1 and self.strokestyles is not None:
-                    attrs["opacity"] = "%f" % acontext.strokeopacity
-                if acontext.fillopacity != 1 and self.fillstyles is not None:
-                    attrs["opacity"] = "%f" % acontext.fillopacity
-                xml.startSVGElement("path", attrs)
-                xml.endSVGElement("path")
-            if self.strokestyles is not None:
-                bbox += strokepath.bbox().enlarged_pt(0.5*acontext.linewidth_pt)
-            else:
-                bbox += strokepath.bbox()
+            _fillattrs(attrs)
+            if self.strokestyles is not None and strokepath is fillpath:
+                _strokeattrs(attrs)
+            xml.startSVGElement("path", attrs)
+            xml.endSVGElement("path")
+
+        if self.strokestyles is not None and (strokepath is not fillpath or self.fillstyles is None):
+            attrs = {"d": strokepath.returnSVGdata()}
+            _strokeattrs(attrs)
+            xml.startSVGElement("path", attrs)
+            xml.endSVGElement("path")
 
         self.ornaments.processSVG(xml, writer, acontext, registry, bbox)
 
-- 
2.43.0


From ee9221efbcf6a436ee79715cf0f6ed008b30bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 042/100] fix: position and resources of patterns in SVG

---
 pyx/pattern.py   | 36 ++++++++++++++++++++++--------------
 pyx/svgwriter.py |  5 ++++-
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pyx/pattern.py b/pyx/pattern.py
index e03b3d7..251354d 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -169,7 +169,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         if self.xstep is not None or self.ystep is not None or self.bboxenlarge is not None:
             raise ValueError("step and bbox modifications not supported")
 
-        svgpattern = SVGpattern(self, writer)
+        svgpattern = SVGpattern(self, writer, registry)
         registry.add(svgpattern)
         if context.strokeattr:
             context.strokecolor = "url(#%s)" % svgpattern.svgid
@@ -359,32 +359,40 @@ class PDFpattern(pdfwriter.PDFobject):
 
 class SVGpattern(svgwriter.SVGresource):
 
-    def __init__(self, pattern, writer):
+    def __init__(self, pattern, writer, registry):
         self.svgid = writer.uniquename("pattern", pattern)
         super().__init__("pattern", self.svgid)
         self.pattern = pattern
 
-    def output(self, xml, writer, registry):
+        # process the pattern, letting it register its resources and calculate the bbox of the pattern
+        patternfile = io.BytesIO()
+        patternxml = svgwriter.SVGGenerator(patternfile)
+        patternxml.startSVGDocument()
+        patternxml.startSVGElement("svg", {})
+        start = patternxml.newline_and_tell()
+        self.bbox = bboxmodule.empty()
+        self.pattern.processSVG(patternxml, writer, svgwriter.context(), registry, self.bbox)
+        end = patternxml.newline_and_tell()
+        self.content = patternfile.getvalue()[start:end]
+        if patternxml.xlink_used:
+            writer.xlink_used = True
         if self.pattern.patternbbox:
-            patternbbox = self.pattern.patternbbox
-        else:
-            patternfile = io.BytesIO()
-            patternxml = svgwriter.SVGGenerator(patternfile)
-            patternbbox = bboxmodule.empty()
-            patternxml.startSVGDocument()
-            self.pattern.processSVG(patternxml, writer, svgwriter.context(), svgwriter.SVGregistry(), patternbbox)
+            self.bbox = self.pattern.patternbbox
 
+    def output(self, xml, writer, registry):
         attrs = {"id": self.svgid, "patternUnits": "userSpaceOnUse"}
-        llx, lly, urx, ury = patternbbox.highrestuple_pt()
+        llx, lly, urx, ury = self.bbox.highrestuple_pt()
         attrs["viewBox"] = "%g %g %g %g" % (llx, -ury, urx-llx, ury-lly)
+        attrs["x"] = "%g" % llx
+        attrs["y"] = "%g" % -ury
         attrs["width"] = "%g" % (urx-llx)
         attrs["height"] = "%g" % (ury-lly)
         if self.pattern.patterntrafo:
-            self.pattern.patterntrafo.processSVGattrs(attrs, self, svgwriter.context(), registry)
+            self.pattern.patterntrafo.processSVGattrs(attrs, writer, svgwriter.context(), registry)
             attrs["patternTransform"] = attrs["transform"]
             del attrs["transform"]
 
         xml.startSVGElement("pattern", attrs)
-        self.pattern.processSVG(xml, writer, svgwriter.context(), registry, bboxmodule.empty())
+        xml.newline_and_tell()
+        xml.svg.write(self.content)
         xml.endSVGElement("pattern")
-
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 3787ea3..26d1874 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -192,6 +192,9 @@ class SVGwriter(writer.namer):
         # encodings themselves are mappings from glyphnames to codepoints
         self.encodings = {}
 
+        # whether a resource makes use of the xlink namespace
+        self.xlink_used = False
+
         if len(document.pages) != 1:
             raise ValueError("SVG file can be constructed out of a single page document only")
         page = document.pages[0]
@@ -211,7 +214,7 @@ class SVGwriter(writer.namer):
         pagesvg.endSVGDocument()
 
         svgfile = io.BytesIO()
-        x = SVGGenerator(svgfile, xlink=pagesvg.xlink_used)
+        x = SVGGenerator(svgfile, xlink=pagesvg.xlink_used or self.xlink_used)
         x.startSVGDocument()
         attrs = {"fill": "none", "version": "1.1"}
         if pagebbox:
-- 
2.43.0


From 8cd08c7650ee62a05523336b424ad7f4dd702ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 043/100] fix: transparency of bitmaps in SVG

---
 pyx/bitmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 413e88d..aa8083c 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -575,6 +575,8 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             raise ValueError("SVG cannot store uncompressed image data.")
         attrs = {"preserveAspectRatio": "none", "x": "0", "y": "-1", "width": "1", "height": "1", "xlink:href": inlinedata}
+        if context.fillopacity != 1:
+            attrs["opacity"] = "%f" % context.fillopacity
         self.pdftrafo.processSVGattrs(attrs, writer, context, registry)
         xml.startSVGElement("image", attrs)
         xml.endSVGElement("image")
-- 
2.43.0


From 398d05c95950a3cff039ee9cd64eda9d94de2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 044/100] fix: use different characters for the glyph names and
 character codes of a font in SVG

---
 pyx/font/font.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index c6d02fa..3f64b16 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -336,7 +336,7 @@ class SVGT1mapping:
     def merge_glyphnames(self, glyphnames):
         for glyphname in glyphnames:
             if glyphname not in self.glyphnames:
-                if glyphname in _glyphnames:
+                if glyphname in _glyphnames and _glyphnames[glyphname] not in self.charcodes.values():
                     self.glyphnames[glyphname] = _glyphnames[glyphname]
                 else:
                     self.glyphnames[glyphname] = chr(self.private_glyphname)
@@ -345,7 +345,7 @@ class SVGT1mapping:
     def merge_charcodes(self, charcodes):
         for charcode in charcodes:
             if charcode not in self.charcodes:
-                if charcode in _charcodes:
+                if charcode in _charcodes and _charcodes[charcode] not in self.glyphnames.values():
                     self.charcodes[charcode] = _charcodes[charcode]
                 else:
                     self.charcodes[charcode] = chr(self.private_charcode)
-- 
2.43.0


From f47de7586ad64d4ba94b0fc628ba22b8ae2a5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 045/100] fix: stable half and full circles in SVG

---
 pyx/path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/path.py b/pyx/path.py
index 063a557..7d1020f 100644
--- a/pyx/path.py
+++ b/pyx/path.py
@@ -669,9 +669,9 @@ class arc_pt(pathitem):
             angle2 += (math.floor((angle1-angle2)/360)+1)*360
         elif angle2 > angle1 + 360:
             angle2 -= (math.floor((angle2-angle1)/360)-1)*360
-        # svg arcs become unstable when close to 360 degree and cannot
+        # svg arcs become unstable when close to 180 or 360 degree and cannot
         # express more than 360 degree at all, so we might need to split.
-        subdivisions = int((angle2-angle1)/350)+1
+        subdivisions = int((angle2-angle1)/170)+1
 
         # we equal split by subdivisions
         large = "1" if (angle2-angle1)/subdivisions > 180 else "0"
@@ -766,9 +766,9 @@ class arcn_pt(pathitem):
             angle1 += (math.floor((angle2-angle1)/360)+1)*360
         elif angle1 > angle2 + 360:
             angle1 -= (math.floor((angle1-angle2)/360)-1)*360
-        # svg arcs become unstable when close to 360 degree and cannot
+        # svg arcs become unstable when close to 180 or 360 degree and cannot
         # express more than 360 degree at all, so we might need to split.
-        subdivisions = int((angle1-angle2)/350)+1
+        subdivisions = int((angle1-angle2)/170)+1
 
         # we equal split by subdivisions
         large = "1" if (angle1-angle2)/subdivisions > 180 else "0"
-- 
2.43.0


From fead40ec5286bba0cdde25f8f86a556b47f0b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 046/100] fix: paint text as path independent of the fill rule
 of its canvas

---
 pyx/font/font.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 3f64b16..84abe8f 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import logging
-from pyx import bbox, baseclasses, deco, path, pswriter, pdfwriter, svgwriter, trafo, unit
+from pyx import bbox, baseclasses, deco, path, pswriter, style, pdfwriter, svgwriter, trafo, unit
 from . import t1file, afmfile
 
 logger = logging.getLogger("pyx")
@@ -543,7 +543,7 @@ class T1text_pt(text_pt):
         if writer.textaspath and not self.font.t1file:
             logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[]).processPS(file, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPS(file, writer, context, registry, bbox)
         else:
             # register resources
             if self.font.t1file is not None:
@@ -608,7 +608,7 @@ class T1text_pt(text_pt):
         if writer.textaspath and not self.font.t1file:
             logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[]).processPDF(file, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPDF(file, writer, context, registry, bbox)
         else:
             if self.decode:
                 encodingname = self.getencodingname(writer.encodings.setdefault(self.font.name, {}))
@@ -702,7 +702,7 @@ class T1text_pt(text_pt):
         #     logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
 
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[]).processSVG(xml, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processSVG(xml, writer, context, registry, bbox)
         else:
             if self.font.t1file is not None:
                 if self.decode:
-- 
2.43.0


From 72b025418eb52c20b4674b2653bc61235efd5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 047/100] fix: colorgradient decorator on closed paths

---
 pyx/deco.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyx/deco.py b/pyx/deco.py
index c53387b..7f4e83b 100644
--- a/pyx/deco.py
+++ b/pyx/deco.py
@@ -875,19 +875,22 @@ class colorgradient(deco, attr.attr):
 
     def decorate(self, dp, texrunner):
         dp.ensurenormpath()
-        l = dp.path.arclen()
+        # closed subpaths start and end like open ones
+        apath = normpath.normpath([normpath.normsubpath(nsp.normsubpathitems, epsilon=nsp.epsilon)
+                                   for nsp in dp.path.normsubpaths])
+        l = apath.arclen()
 
         colors = [self.grad.select(n, self.steps) for n in range(self.steps)]
         colors.reverse()
-        params = dp.path.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
+        params = apath.arclentoparam([l*i/float(self.steps) for i in range(self.steps)])
         params.reverse()
 
         c = canvas.canvas()
         # treat the end pieces separately
-        c.stroke(dp.path.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
+        c.stroke(apath.split(params[1])[1], attr.mergeattrs([colors[0]] + self.attrs))
         for n in range(1,self.steps-1):
-            c.stroke(dp.path.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
-        c.stroke(dp.path.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
+            c.stroke(apath.split([params[n-1],params[n+1]])[1], attr.mergeattrs([colors[n]] + self.attrs))
+        c.stroke(apath.split(params[-2])[0], attr.mergeattrs([colors[-1]] + self.attrs))
         dp.ornaments.insert(c)
 
 
-- 
2.43.0


From 08f922c48facac1aedf54ad62ab948a2ced4a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 048/100] fix: bounding box of bitmaps in SVG

---
 pyx/bitmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index aa8083c..54ecb27 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -564,6 +564,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("Q\n")
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        bbox += self.bbox()
         if self.compressmode == "Flate":
             f = io.BytesIO()
             self.image.save(f, "png")
-- 
2.43.0


From d0ab19d7f4323684df8970bda6345f6888b38476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 049/100] fix: bitmaps and meshes within PostScript patterns

---
 pyx/bitmap.py   | 15 +++++++++------
 pyx/mesh.py     | 10 ++++++----
 pyx/pattern.py  |  2 +-
 pyx/pswriter.py |  1 +
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pyx/bitmap.py b/pyx/bitmap.py
index 54ecb27..14545fd 100644
--- a/pyx/bitmap.py
+++ b/pyx/bitmap.py
@@ -452,18 +452,21 @@ class bitmap_trafo(baseclasses.canvasitem):
         mode, data, alpha, palettemode, palettedata, imagehash = self.imagedata(True)
         pstrafo = trafo.translate_pt(0, -1.0).scaled(self.imagewidth, -self.imageheight)*self.pdftrafo.inverse()
 
-        PSsinglestring = self.PSstoreimage and len(data) < self.PSmaxstrlen
+        PSstoreimage = self.PSstoreimage or context.inprocedure # inline data can not be part of a procedure
+        PSsinglestring = PSstoreimage and len(data) < self.PSmaxstrlen
         if PSsinglestring:
             PSimagename = "image-%s-%s-singlestring" % (imagehash, self.compressmode)
         else:
             PSimagename = "image-%s-%s-stringarray" % (imagehash, self.compressmode)
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
+            registry.add(pswriter.PSdefinition("imagedataindex", b"0"))
+            registry.add(pswriter.PSdefinition("imagedataid", b"null"))
             registry.add(pswriter.PSdefinition("imagedataaccess",
                                                b"{ /imagedataindex load " # get list index
                                                b"dup 1 add /imagedataindex exch store " # store increased index
                                                b"/imagedataid load exch get }")) # select string from array
-        if self.PSstoreimage:
+        if PSstoreimage:
             registry.add(PSimagedata(PSimagename, data, PSsinglestring, self.PSmaxstrlen))
         bbox += self.bbox()
 
@@ -479,7 +482,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         else:
             file.write("%s setcolorspace\n" % devicenames[mode])
 
-        if self.PSstoreimage and not PSsinglestring:
+        if PSstoreimage and not PSsinglestring:
             file.write("/imagedataindex 0 store\n" # not use the stack since interpreters differ in their stack usage
                        "/imagedataid %s store\n" % PSimagename)
 
@@ -496,7 +499,7 @@ class bitmap_trafo(baseclasses.canvasitem):
         file.write("/Decode %s\n" % decodestrings[mode])
 
         file.write("/DataSource ")
-        if self.PSstoreimage:
+        if PSstoreimage:
             if PSsinglestring:
                 file.write("/%s load" % PSimagename)
             else:
@@ -525,7 +528,7 @@ class bitmap_trafo(baseclasses.canvasitem):
                        "/InterleaveType 1\n"
                        ">>\n")
 
-        if self.PSstoreimage:
+        if PSstoreimage:
             file.write("image\n")
         else:
             if self.PSbinexpand == 2:
diff --git a/pyx/mesh.py b/pyx/mesh.py
index 3c47981..9aebf52 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -124,18 +124,20 @@ class mesh(baseclasses.canvasitem):
         else:
             thisbbox = self.bbox()
             bbox += thisbbox
+            data = binascii.b2a_hex(zlib.compress(self.data(thisbbox))).decode("ascii")
             file.write("""<< /ShadingType 4
 /ColorSpace %s
 /BitsPerCoordinate 24
 /BitsPerComponent 8
 /BitsPerFlag 8
 /Decode [%f %f %f %f %s]
-/DataSource currentfile /ASCIIHexDecode filter /FlateDecode filter
+/DataSource %s /FlateDecode filter
 >> shfill\n""" % (self.elements[0].nodes[0].value.colorspacestring(),
                   thisbbox.llx_pt, thisbbox.urx_pt, thisbbox.lly_pt, thisbbox.ury_pt,
-                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()])))
-            file.write_bytes(binascii.b2a_hex(zlib.compress(self.data(thisbbox))))
-            file.write(">\n")
+                  " ".join(["0 1" for value in self.elements[0].nodes[0].value.to8bitbytes()]),
+                  "<%s>" % data if context.inprocedure else "currentfile /ASCIIHexDecode filter"))
+            if not context.inprocedure:
+                file.write("%s>\n" % data)
 
     def processPDF(self, file, writer, context, registry, bbox):
         if writer.meshasbitmap:
diff --git a/pyx/pattern.py b/pyx/pattern.py
index 251354d..3ee8aac 100644
--- a/pyx/pattern.py
+++ b/pyx/pattern.py
@@ -76,7 +76,7 @@ class pattern(canvas.canvas, attr.exclusiveattr, style.fillstyle):
         # process pattern, letting it register its resources and calculate the bbox of the pattern
         patternfile = writermodule.writer(io.BytesIO())
         realpatternbbox = bboxmodule.empty()
-        canvas.canvas.processPS(self, patternfile, writer, pswriter.context(), registry, realpatternbbox)
+        canvas.canvas.processPS(self, patternfile, writer, pswriter.context()(inprocedure=True), registry, realpatternbbox)
         patternproc = patternfile.file.getvalue()
 
         if self.xstep is None:
diff --git a/pyx/pswriter.py b/pyx/pswriter.py
index bda1da6..4d2c779 100644
--- a/pyx/pswriter.py
+++ b/pyx/pswriter.py
@@ -289,6 +289,7 @@ class context:
         self.colorspace = None
         self.selectedfont = None
         self.fillrule = 0
+        self.inprocedure = False # within a procedure there is no inline data
 
     def __call__(self, **kwargs):
         newcontext = copy.copy(self)
-- 
2.43.0


From daddf18ed46589ccb08ddbb6f0477500600998d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 050/100] fix: bounding box of text as path

---
 pyx/font/font.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index 84abe8f..aa5a25d 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 import logging
-from pyx import bbox, baseclasses, deco, path, pswriter, style, pdfwriter, svgwriter, trafo, unit
+from pyx import bbox as bboxmodule, baseclasses, deco, path, pswriter, style, pdfwriter, svgwriter, trafo, unit
 from . import t1file, afmfile
 
 logger = logging.getLogger("pyx")
@@ -481,10 +481,10 @@ class T1text_pt(text_pt):
             kerning_correction = sum(value or 0 for i, value in enumerate(self.font.metric.resolvekernings(self.glyphnames, self.size_pt)) if i%2)
         else:
             kerning_correction = 0
-        return bbox.bbox_pt(self.x_pt,
-                            self.y_pt+self.font.metric.depth_pt(self.glyphnames, self.size_pt),
-                            self.x_pt+self.font.metric.width_pt(self.glyphnames, self.size_pt) + (len(self.glyphnames)-1)*self.spaced_pt + kerning_correction,
-                            self.y_pt+self.font.metric.height_pt(self.glyphnames, self.size_pt))
+        return bboxmodule.bbox_pt(self.x_pt,
+                                 self.y_pt+self.font.metric.depth_pt(self.glyphnames, self.size_pt),
+                                 self.x_pt+self.font.metric.width_pt(self.glyphnames, self.size_pt) + (len(self.glyphnames)-1)*self.spaced_pt + kerning_correction,
+                                 self.y_pt+self.font.metric.height_pt(self.glyphnames, self.size_pt))
 
     def getencodingname(self, encodings):
         """returns the name of the encoding (in encodings) mapping self.glyphnames to codepoints
@@ -543,7 +543,7 @@ class T1text_pt(text_pt):
         if writer.textaspath and not self.font.t1file:
             logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPS(file, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPS(file, writer, context, registry, bboxmodule.empty())
         else:
             # register resources
             if self.font.t1file is not None:
@@ -608,7 +608,7 @@ class T1text_pt(text_pt):
         if writer.textaspath and not self.font.t1file:
             logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPDF(file, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processPDF(file, writer, context, registry, bboxmodule.empty())
         else:
             if self.decode:
                 encodingname = self.getencodingname(writer.encodings.setdefault(self.font.name, {}))
@@ -702,7 +702,7 @@ class T1text_pt(text_pt):
         #     logger.warning("Cannot output text as path when font not given by a font file (like for builtin fonts).")
 
         if writer.textaspath and self.font.t1file:
-            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processSVG(xml, writer, context, registry, bbox)
+            deco.decoratedpath(self.textpath(), fillstyles=[style.fillrule.nonzero_winding]).processSVG(xml, writer, context, registry, bboxmodule.empty())
         else:
             if self.font.t1file is not None:
                 if self.decode:
-- 
2.43.0


From 031a418c876d671b3a97c27c787b1d84fdc99c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 051/100] fix: reference numbers of objects shared by PDF files

---
 pyx/pdfwriter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 630ca30..316450c 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -62,7 +62,7 @@ class PDFregistry:
         if self.merged:
             return self.merged.getrefno(object)
         else:
-            return self.types[object.type][object.id].refno
+            return self.refnos[object.type, object.id]
 
     def mergeregistry(self, registry):
         assert registry.merged is None ### should this be allowed?
@@ -71,17 +71,19 @@ class PDFregistry:
         registry.merged = self
 
     def write(self, file, writer, catalog, pdfinfo):
-        # first we set all refnos
+        # first we set all refnos, which are kept here as an object might be
+        # part of several files being written
         refno = 1
+        self.refnos = {}
         for object in self.objects:
-            object.refno = refno
+            self.refnos[object.type, object.id] = refno
             refno += 1
 
         # second, all objects are written, keeping the positions in the output file
         fileposes = []
         for object in self.objects:
             fileposes.append(file.tell())
-            file.write("%i 0 obj\n" % object.refno)
+            file.write("%i 0 obj\n" % self.getrefno(object))
             object.write(file, writer, self)
             file.write("endobj\n")
 
-- 
2.43.0


From 0fd7a0f9dc21f7969ada41aa08bd036767ba1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 052/100] fix: data lost by non-blocking streams

---
 pyx/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyx/writer.py b/pyx/writer.py
index 02a4fbb..7e756f8 100644
--- a/pyx/writer.py
+++ b/pyx/writer.py
@@ -20,6 +20,8 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
+import errno, io
+
 class namer:
     """mixin class of the writers, which creates names of objects in a file
 
@@ -52,6 +54,9 @@ class writer:
         while True:
             # a raw stream might accept a part of the data only
             n = self.file.write(b)
+            if n is None and b and isinstance(self.file, io.RawIOBase):
+                # a non-blocking stream did not take anything
+                raise BlockingIOError(errno.EAGAIN, "write could not complete without blocking", 0)
             if n is None or n >= len(b):
                 break
             b = b[n:]
-- 
2.43.0


From 7a70f973dd020eece5154977ba84ea2dd749e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 053/100] fix: time zone of the PDF creation date

---
 pyx/pdfwriter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyx/pdfwriter.py b/pyx/pdfwriter.py
index 316450c..4acd159 100644
--- a/pyx/pdfwriter.py
+++ b/pyx/pdfwriter.py
@@ -190,14 +190,16 @@ class PDFinfo(PDFobject):
             creation_date = time.gmtime(int(os.environ.get('SOURCE_DATE_EPOCH')))
             timezone = "Z00'00'"
         else:
-            if time.timezone < 0:
+            creation_date = time.localtime()
+            # minutes east of UTC at this date, i.e. including daylight saving time
+            offset = round(creation_date.tm_gmtoff/60)
+            if offset < 0:
                 # divmod on positive numbers, otherwise the minutes have a different sign from the hours
-                timezone = "-%02i'%02i'" % divmod(-time.timezone/60, 60)
-            elif time.timezone > 0:
-                timezone = "+%02i'%02i'" % divmod(time.timezone/60, 60)
+                timezone = "-%02i'%02i'" % divmod(-offset, 60)
+            elif offset > 0:
+                timezone = "+%02i'%02i'" % divmod(offset, 60)
             else:
                 timezone = "Z00'00'"
-            creation_date = time.localtime()
 
         file.write("<<\n")
         if writer.title:
-- 
2.43.0


From 95e32f88068506a3be16a23c5aa4dbc6a1735d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 054/100] fix: failures of Ghostscript and of the files passed
 to it

---
 pyx/canvas.py | 71 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/pyx/canvas.py b/pyx/canvas.py
index 5ce1fa0..f1b880c 100644
--- a/pyx/canvas.py
+++ b/pyx/canvas.py
@@ -50,6 +50,31 @@ def _wrappedindocument(method):
         return method(d, file, **write_kwargs)
     return wrappedindocument
 
+def _executegs(cmd, data=None, **kwargs):
+    """execute Ghostscript (passing data to stdin) and return its output if it is a pipe
+
+    An error is raised unless Ghostscript is successful."""
+    if data is not None:
+        kwargs["stdin"] = config.PIPE
+    p = config.Popen(cmd, **kwargs)
+    output = None
+    try:
+        if data is not None:
+            with p.stdin:
+                p.stdin.write(data)
+        if p.stdout is not None:
+            with p.stdout:
+                output = p.stdout.read()
+        p.wait()
+    except:
+        # do not leave it behind
+        p.kill()
+        p.wait()
+        raise
+    if p.returncode:
+        raise ValueError("ghostscript failed with exit status %d" % p.returncode)
+    return output
+
 #
 # clipping class
 #
@@ -475,23 +500,31 @@ class canvas(baseclasses.canvasitem):
         cmd, kwargs = self._gscmd(device, filename, **kwargs)
 
         if input == "eps":
+            f = io.BytesIO()
+            self.writeEPSfile(f, **kwargs)
             cmd.append("-")
-            p = config.Popen(cmd, stdin=config.PIPE)
-            self.writeEPSfile(p.stdin, **kwargs)
-            p.stdin.close()
-            p.wait()
+            _executegs(cmd, f.getvalue())
         elif input == "pdf":
             # PDF files need to be accesible by random access and thus we need to create
             # a temporary file
-            with tempfile.NamedTemporaryFile("wb", delete=False) as f:
-                self.writePDFfile(f, **kwargs)
-                fname = f.name
-            cmd.append(fname)
-            config.Popen(cmd).wait()
-            os.unlink(fname)
+            self._gsfromfile(cmd, input, kwargs)
         else:
             raise RuntimeError("input 'eps' or 'pdf' expected")
 
+    def _gsfromfile(self, cmd, input, kwargs, **popen_kwargs):
+        """execute Ghostscript on a temporary file, which is removed in any case"""
+        f = tempfile.NamedTemporaryFile("wb", delete=False)
+        try:
+            with f:
+                if input == "eps":
+                    self.writeEPSfile(f, **kwargs)
+                elif input == "pdf":
+                    self.writePDFfile(f, **kwargs)
+                else:
+                    raise RuntimeError("input 'eps' or 'pdf' expected")
+            return _executegs(cmd + [f.name], **popen_kwargs)
+        finally:
+            os.unlink(f.name)
 
     def pipeGS(self, device, input="eps", **kwargs):
         """
@@ -500,20 +533,4 @@ class canvas(baseclasses.canvasitem):
 
         cmd, kwargs = self._gscmd(device, "-", **kwargs)
 
-        with tempfile.NamedTemporaryFile("wb", delete=False) as f:
-            if input == "eps":
-                self.writeEPSfile(f, **kwargs)
-            elif input == "pdf":
-                self.writePDFfile(f, **kwargs)
-            else:
-                raise RuntimeError("input 'eps' or 'pdf' expected")
-            fname = f.name
-
-        cmd.append(fname)
-        p = config.Popen(cmd, stdout=config.PIPE)
-        data, error = p.communicate()
-        os.unlink(fname)
-
-        if error:
-            raise ValueError("error received while waiting for ghostscript")
-        return io.BytesIO(data)
+        return io.BytesIO(self._gsfromfile(cmd, input, kwargs, stdout=config.PIPE))
-- 
2.43.0


From e352c209917514950cfd9535afd93c73b07a40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 055/100] fix: bounding boxes at the end of EPS files

---
 pyx/epsfile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index c6c663a..df3f3cb 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -102,7 +102,7 @@ class linefilereader:
             if EOFmsg is not None and not len(self.buffer):
                 raise IOError(EOFmsg)
             result = self.buffer
-            self.buffer = ""
+            self.buffer = b""
             return result
 
     def readline(self, EOFmsg="unexpected end of file"):
@@ -152,7 +152,7 @@ def _readbbox(file):
             break
         if line.startswith(b"%%BoundingBox:") and not bboxatend:
             values = line.split(b":", 1)[1].split()
-            if values == ["(atend)"]:
+            if values == [b"(atend)"]:
                 bboxatend = 1
             else:
                 if len(values) != 4:
@@ -170,7 +170,7 @@ def _readbbox(file):
     while True:
         line = file.readline()
         if line.startswith(b"%%BeginData:"):
-            values = line.split(":", 1)[1].split()
+            values = line.split(b":", 1)[1].split()
             if len(values) > 3:
                 raise IOError("invalid number of arguments")
             if len(values) == 3:
@@ -185,12 +185,12 @@ def _readbbox(file):
                 file.read(int(values[0]))
             line = file.readline()
             # ignore tailing whitespace/newline for binary data
-            if (len(values) < 3 or values[2] != "Lines") and not len(line.strip()):
+            if (len(values) < 3 or values[2] != b"Lines") and not len(line.strip()):
                 line = file.readline()
             if line.rstrip() != b"%%EndData":
                 raise IOError("missing EndData")
         elif line.startswith(b"%%BeginBinary:"):
-            file.read(int(line.split(":", 1)[1]))
+            file.read(int(line.split(b":", 1)[1]))
             line = file.readline()
             # ignore tailing whitespace/newline
             if not len(line.strip()):
@@ -211,7 +211,7 @@ def _readbbox(file):
     line = True
     while line:
         line = file.readline(EOFmsg=None)
-        if line.startswith("%%BoundingBox:"):
+        if line.startswith(b"%%BoundingBox:"):
             values = line.split(b":", 1)[1].split()
             if len(values) != 4:
                 raise IOError("invalid number of bounding box values")
-- 
2.43.0


From af7d272f6cd01df1dc0778fc4ff10db895b2029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 056/100] fix: end of the header of EPS files

---
 pyx/epsfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index df3f3cb..7fe428a 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -20,7 +20,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import logging, os, string, tempfile
+import logging, os, tempfile
 from . import baseclasses, bbox, config, unit, trafo, pswriter
 
 logger = logging.getLogger("pyx")
@@ -159,7 +159,7 @@ def _readbbox(file):
                     raise IOError("invalid number of bounding box values")
                 return bbox.bbox_pt(*list(map(int, values)))
         elif (line.rstrip() == b"%%EndComments" or
-              (len(line) >= 2 and chr(line[0]) != "%" and chr(line[1]) not in string.whitespace)):
+              (line.strip() and not line.startswith(b"%"))):
             # implicit end of comments section
             break
     if not bboxatend:
-- 
2.43.0


From 92f2f1bb1e3f1c4636748219ca1677176a9e4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 057/100] fix: names and unterminated last lines of included
 EPS files

---
 pyx/epsfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyx/epsfile.py b/pyx/epsfile.py
index 7fe428a..698e8c7 100644
--- a/pyx/epsfile.py
+++ b/pyx/epsfile.py
@@ -332,10 +332,14 @@ class epsfile(baseclasses.canvasitem):
 
         self.trafo.processPS(file, writer, context, registry)
 
-        file.write("%%%%BeginDocument: %s\n" % self.filename)
+        file.write("%%%%BeginDocument: %s\n" % pswriter._dsctext(self.filename))
 
         with self.open() as epsfile:
-            file.write_bytes(epsfile.read())
+            data = epsfile.read()
+        file.write_bytes(data)
+        if data and not data.endswith((b"\n", b"\r")):
+            # comments need to be on a line of their own
+            file.write("\n")
 
         file.write("%%EndDocument\n")
         file.write("EndEPSF\n")
-- 
2.43.0


From fc5c7ce83cd5d926839ff343f92bc4083f5f61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 058/100] fix: empty comment lines do not remove the column
 names of data files

---
 pyx/graph/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 81f2582..e19c497 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -296,7 +296,8 @@ class file(data):
                 match = commentpattern.match(line)
                 if match:
                     if not len(columndata):
-                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0)
+                        # empty comment lines do not contain column names
+                        columns = self.splitline(line[match.end():], stringpattern, columnpattern, tofloat=0) or columns
                 else:
                     linedata = []
                     for value in self.splitline(line, stringpattern, columnpattern, tofloat=1):
-- 
2.43.0


From 0857e05c68d29025a65d511450460c937faa5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 059/100] fix: skiptail in data files for every larger than one

---
 pyx/graph/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index e19c497..89d7190 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -309,9 +309,9 @@ class file(data):
                                 maxcolumns = len(linedata)
                             columndata.append(linedata)
                         linenumber += 1
-            if skiptail >= every:
-                skip, x = divmod(skiptail, every)
-                del columndata[-skip:]
+            # the first column contains the line numbers
+            while columndata and columndata[-1][0] > linenumber - skiptail:
+                del columndata[-1]
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-- 
2.43.0


From 389e28a2bd4e45514d71046797a1b3966555dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 060/100] fix: column names in data files being equal to
 argument names

---
 pyx/graph/data.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 89d7190..e5a3fbe 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -315,8 +315,12 @@ class file(data):
             for i in range(len(columndata)):
                 if len(columndata[i]) != maxcolumns:
                     columndata[i].extend([None]*(maxcolumns-len(columndata[i])))
-            return points(columndata, title=title, addlinenumbers=0,
-                          **dict([(column, i+1) for i, column in enumerate(columns[:maxcolumns-1])]))
+            # (the column names may be equal to argument names of points)
+            result = points(columndata, title=title, addlinenumbers=0)
+            for i, column in enumerate(columns[:maxcolumns-1] if columndata else columns):
+                result.columns[column] = result.columndata[i+1] if columndata else []
+            result.columnnames = builtinlist(result.columns.keys())
+            return result
 
         try:
             filename.readlines
@@ -372,7 +376,12 @@ class conffile(data):
                         point[index] = value
                 columndata[i] = point
             # wrap result into a data instance to remove column numbers
-            result = data(points(columndata, addlinenumbers=0, **columns), title=title)
+            # (the column names may be equal to argument names of points)
+            result = points(columndata, addlinenumbers=0)
+            for column, index in columns.items():
+                result.columns[column] = result.columndata[index] if columndata else []
+            result.columnnames = builtinlist(result.columns.keys())
+            result = data(result, title=title)
             # ... but reinsert sections as linenumbers
             result.columndata = [[x[0] for x in columndata]]
             return result
-- 
2.43.0


From 1e9862a866730d8742cef6529859a773ade442fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 061/100] fix: sections with different options in conffile

---
 pyx/graph/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index e5a3fbe..2c43507 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -375,6 +375,8 @@ class conffile(data):
                     else:
                         point[index] = value
                 columndata[i] = point
+            for point in columndata:
+                point.extend([None]*(maxcolumns-len(point)))
             # wrap result into a data instance to remove column numbers
             # (the column names may be equal to argument names of points)
             result = points(columndata, addlinenumbers=0)
-- 
2.43.0


From 792d38f24ca4b5264fec835342c8f2e324136cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 062/100] fix: cache keys of data files

---
 pyx/graph/data.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 2c43507..2bc0fb3 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import math, re, configparser, struct
+import math, os, re, configparser, struct
 from pyx import text
 from . import style
 builtinlist = list
@@ -276,8 +276,9 @@ class file(data):
                 return line.split()
         return result
 
-    def getcachekey(self, *args):
-        return ":".join([str(x) for x in args])
+    def getcachekey(self, filename, *args):
+        # relative file names depend on the current directory
+        return (os.path.abspath(filename), filename) + args
 
     def __init__(self, filename,
                        commentpattern=defaultcommentpattern,
@@ -392,9 +393,12 @@ class conffile(data):
             filename.readlines
         except Exception:
             # not a file-like object -> open it
-            if filename not in filecache:
-                filecache[filename] = readfile(open(filename), filename)
-            data.__init__(self, filecache[filename], **kwargs)
+            # (relative file names depend on the current directory)
+            cachekey = os.path.abspath(filename), filename
+            if cachekey not in conffilecache:
+                with open(filename) as f:
+                    conffilecache[cachekey] = readfile(f, filename)
+            data.__init__(self, conffilecache[cachekey], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
 
@@ -405,8 +409,9 @@ class cbdfile(data):
 
     defaultstyles = defaultlines
 
-    def getcachekey(self, *args):
-        return ":".join([str(x) for x in args])
+    def getcachekey(self, filename, *args):
+        # relative file names depend on the current directory
+        return (os.path.abspath(filename), filename) + args
 
     def __init__(self, filename, minrank=None, maxrank=None, **kwargs):
 
@@ -500,7 +505,8 @@ class cbdfile(data):
             # not a file-like object -> open it
             cachekey = self.getcachekey(filename, minrank, maxrank)
             if cachekey not in cbdfilecache:
-                cbdfilecache[cachekey] = readfile(open(filename, "rb"), filename)
+                with open(filename, "rb") as f:
+                    cbdfilecache[cachekey] = readfile(f, filename)
             data.__init__(self, cbdfilecache[cachekey], **kwargs)
         else:
             data.__init__(self, readfile(filename, "user provided file-like object"), **kwargs)
-- 
2.43.0


From a98b258084a0a1a9f1d262a1c5d1e9b499019a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 063/100] fix: cbdfile in Python 3

---
 pyx/graph/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/data.py b/pyx/graph/data.py
index 2bc0fb3..4ae2074 100644
--- a/pyx/graph/data.py
+++ b/pyx/graph/data.py
@@ -454,18 +454,18 @@ class cbdfile(data):
                 for i in range(self.nstrokes):
                     c1, c2 = struct.unpack("2c", file.read(2))
                     if ord(c2) & 0x40:
-                        if c1 > "\177":
+                        if c1 > b"\177":
                             dy = ord(c1) - 256
                         else:
                             dy = ord(c1)
-                        if c2 > "\177":
+                        if c2 > b"\177":
                             dx = ord(c2) - 256
                         else:
                             dx = ord(c2) - 64
                     else:
                         c3, c4, c5, c6, c7, c8 = struct.unpack("6c", file.read(6))
-                        if c2 > "\177":
-                            c2 = chr(ord(c2) | 0x40)
+                        if c2 > b"\177":
+                            c2 = bytes([ord(c2) | 0x40])
                         dx, dy = struct.unpack("<2i", c3+c4+c1+c2+c7+c8+c5+c6)
                     oln += dx
                     olt += dy
-- 
2.43.0


From 6f74fe51a3e0e4beb04f543afdf8dd231e4425eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 064/100] fix: nan and infinite values in graph data

---
 pyx/graph/axis/axis.py | 9 ++++++++-
 pyx/graph/style.py     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 496275a..da36f96 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -98,9 +98,12 @@ class _regularaxis(_axis):
             for value in columndata:
                 try:
                     value = value + self.zero
+                    finite = value - value == value - value
                 except Exception:
                     pass
                 else:
+                    if not finite: # nan or infinite
+                        continue
                     if self.min is None and (data.min is None or value < data.min):
                         data.min = value
                     if self.max is None and (data.max is None or value > data.max):
@@ -604,7 +607,11 @@ class anchoredaxis:
 
     def convert(self, x):
         self.docreate()
-        return self.axis.convert(self.data, x)
+        v = self.axis.convert(self.data, x)
+        if v - v != 0:
+            # nan and infinite values (like missing values) do not have a position
+            raise ValueError("value without a position on axis %s" % self.errorname)
+        return v
 
     def adjustaxis(self, columndata):
         if self.canvas is None:
diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 1e4a308..4a1541d 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -921,7 +921,7 @@ class arrow(_styleneedingpointpos):
             except Exception:
                 pass
             else:
-                if point["size"] > self.epsilon:
+                if point["size"] > self.epsilon and math.isfinite(angle) and math.isfinite(size):
                     dx = math.cos(angle*math.pi/180)
                     dy = math.sin(angle*math.pi/180)
                     x1 = x_pt-self.arrowpos*dx*linelength_pt*size
-- 
2.43.0


From 012f580547bb85aa240bd97d7ea1db99d5718d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 065/100] fix: failed steps of graphs are not taken as done

---
 pyx/graph/graph.py | 71 ++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 7e0b1cb..2b7424e 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -22,7 +22,7 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
 
-import logging, math, re, string
+import functools, logging, math, re, string
 from pyx import canvas, path, trafo, unit, utils
 from pyx.graph.axis import axis, positioner
 
@@ -155,6 +155,29 @@ class plotitem:
         raise AttributeError("access to styledata attribute '%s' failed" % attr)
 
 
+def _once(method):
+    """performs a step of the graph creation once for each set of arguments
+
+    A step, which has failed, might have been performed partially only. It is
+    neither repeated nor taken as being done. Instead the failure is reported
+    again, as the graph can't be completed anymore."""
+    @functools.wraps(method)
+    def step(self, *args):
+        for call in self._steps.setdefault(method, []):
+            if call[0] == args:
+                if call[1] is not None:
+                    raise RuntimeError("%s() has failed before" % method.__name__) from call[1]
+                return
+        call = [args, None]
+        try:
+            self._steps[method].append(call)
+            method(self, *args)
+        except BaseException as e:
+            call[1] = e
+            raise
+    return step
+
+
 class graph(canvas.canvas):
 
     def __init__(self):
@@ -168,6 +191,7 @@ class graph(canvas.canvas):
         self.plotitems = []
         self.keyitems = []
         self._calls = {}
+        self._steps = {}
         self.didranges = 0
         self.didstyles = 0
 
@@ -229,9 +253,8 @@ class graph(canvas.canvas):
         else:
             return plotitems
 
+    @_once
     def doranges(self):
-        if self.did(self.doranges):
-            return
         for plotitem in self.plotitems:
             plotitem.adjustaxesstatic(self)
         for plotitem in self.plotitems:
@@ -240,9 +263,8 @@ class graph(canvas.canvas):
             plotitem.adjustaxesdynamic(self)
         self.didranges = 1
 
+    @_once
     def doaxiscreate(self, axisname):
-        if self.did(self.doaxiscreate, axisname):
-            return
         self.doaxispositioner(axisname)
         self.axes[axisname].create()
 
@@ -255,9 +277,8 @@ class graph(canvas.canvas):
     def doaxes(self):
         raise NotImplementedError
 
+    @_once
     def dostyles(self):
-        if self.did(self.dostyles):
-            return
         self.dolayout()
         self.dobackground()
 
@@ -281,9 +302,8 @@ class graph(canvas.canvas):
 
         self.didstyles = 1
 
+    @_once
     def doplotitem(self, plotitem):
-        if self.did(self.doplotitem, plotitem):
-            return
         self.dostyles()
         plotitem.draw(self)
 
@@ -295,9 +315,8 @@ class graph(canvas.canvas):
         logger.warning("dodata() has been deprecated. Use doplot() instead.")
         self.doplot()
 
+    @_once
     def dokeyitem(self, plotitem):
-        if self.did(self.dokeyitem, plotitem):
-            return
         self.dostyles()
         if plotitem.title is not None:
             self.keyitems.append(plotitem)
@@ -557,9 +576,8 @@ class graphxy(graph):
         assert len(axis.canvas.layers) == len(axis.canvas.items), str(axis.canvas.items)
         axis.canvas = c
 
+    @_once
     def doaxispositioner(self, axisname):
-        if self.did(self.doaxispositioner, axisname):
-            return
         self.doranges()
         if axisname in ["x", "x2", "y", "y2"]:
             self.axes[axisname].setpositioner(self.axespositioners[axisname])
@@ -583,9 +601,8 @@ class graphxy(graph):
                                                                             x_pt, self.ypos_pt + self.height_pt,
                                                                             (sign, 0), self.yvgridpath))
 
+    @_once
     def dolayout(self):
-        if self.did(self.dolayout):
-            return
         for axisname in list(self.axes.keys()):
             self.doaxiscreate(axisname)
         if self.xaxisat is not None:
@@ -593,16 +610,14 @@ class graphxy(graph):
         if self.yaxisat is not None:
             self.axisatv(self.axes["y"], self.axes["x"].convert(self.yaxisat))
 
+    @_once
     def dobackground(self):
-        if self.did(self.dobackground):
-            return
         if self.backgroundattrs is not None:
             self.layer("background").draw(path.rect_pt(self.xpos_pt, self.ypos_pt, self.width_pt, self.height_pt),
                                           self.backgroundattrs)
 
+    @_once
     def doaxes(self):
-        if self.did(self.doaxes):
-            return
         self.dolayout()
         self.dobackground()
         for k, axis in sorted(self.axes.items()):
@@ -610,9 +625,8 @@ class graphxy(graph):
                 self.layer(self.axistographlayers[layer]).insert(canvas)
             assert len(axis.canvas.layers) == len(axis.canvas.items), str(axis.canvas.items)
 
+    @_once
     def dokey(self):
-        if self.did(self.dokey):
-            return
         self.dobackground()
         for plotitem in self.plotitems:
             self.dokeyitem(plotitem)
@@ -1020,9 +1034,8 @@ class graphxyz(graph):
         y_pt = 0.5*(self.layer("axes").bbox().top_pt() + self.layer("axes").bbox().bottom_pt() - self.size_pt)
         return trafo.translate_pt(x_pt, y_pt)
 
+    @_once
     def doaxispositioner(self, axisname):
-        if self.did(self.doaxispositioner, axisname):
-            return
         self.doranges()
         if self.xy12axesat is not None:
             self.doaxiscreate(self.xy12axesatname)
@@ -1117,19 +1130,16 @@ class graphxyz(graph):
         else:
             raise NotImplementedError("4 axis per dimension supported only")
 
+    @_once
     def dolayout(self):
-        if self.did(self.dolayout):
-            return
         for axisname in list(self.axes.keys()):
             self.doaxiscreate(axisname)
 
     def dobackground(self):
-        if self.did(self.dobackground):
-            return
+        pass
 
+    @_once
     def doaxes(self):
-        if self.did(self.doaxes):
-            return
         self.dolayout()
         self.dobackground()
         for axis in list(self.axes.values()):
@@ -1138,9 +1148,8 @@ class graphxyz(graph):
             else:
                 self.layer("axes").insert(axis.canvas)
 
+    @_once
     def dokey(self):
-        if self.did(self.dokey):
-            return
         self.dobackground()
         for plotitem in self.plotitems:
             self.dokeyitem(plotitem)
-- 
2.43.0


From cc29cd3014bc59aabaad4ce45a7c8b6a3f2c9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 066/100] fix: plot a list of data given by a generator

---
 pyx/graph/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 2b7424e..b08945c 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -228,13 +228,12 @@ class graph(canvas.canvas):
             raise RuntimeError("can't plot further data after dostyles() has been executed")
         singledata = 0
         try:
-            for d in data:
-                pass
+            data = iter(data)
         except Exception:
             usedata = [data]
             singledata = 1
         else:
-            usedata = data
+            usedata = list(data)
         if styles is None:
             for d in usedata:
                 if styles is None:
-- 
2.43.0


From 7d1e3c42136b5253a7442cc8e73914275bac5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 067/100] fix: failing functions in data plotted after doranges

---
 pyx/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index b08945c..306ee55 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -243,10 +243,10 @@ class graph(canvas.canvas):
         plotitems = []
         for d in usedata:
             plotitems.append(plotitem(self, d, styles))
-        self.plotitems.extend(plotitems)
         if self.didranges:
             for aplotitem in plotitems:
                 aplotitem.makedynamicdata(self)
+        self.plotitems.extend(plotitems)
         if singledata:
             return plotitems[0]
         else:
-- 
2.43.0


From beb77751f165553b4941ffa299133ea3fbf04d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 068/100] fix: vtickpoint methods of axes and graphs

---
 pyx/graph/axis/axis.py | 3 ++-
 pyx/graph/graph.py     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index da36f96..48799f5 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -647,7 +647,8 @@ class anchoredaxis:
         return self.positioner.vtickpoint_pt(v)
 
     def vtickpoint(self, v):
-        return self.positioner.vtickpoint_pt(v) * unit.t_pt
+        x_pt, y_pt = self.positioner.vtickpoint_pt(v)
+        return x_pt * unit.t_pt, y_pt * unit.t_pt
 
     def tickpoint_pt(self, x):
         self.docreate()
diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 306ee55..3e13c5e 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -404,7 +404,7 @@ class graphxy(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -866,7 +866,7 @@ class graphxyz(graph):
             self.xtickpoint_pt = self.axes["x"].tickpoint_pt
             self.xtickpoint = self.axes["x"].tickpoint
             self.xvtickpoint_pt = self.axes["x"].vtickpoint_pt
-            self.xvtickpoint = self.axes["x"].tickpoint
+            self.xvtickpoint = self.axes["x"].vtickpoint
             self.xtickdirection = self.axes["x"].tickdirection
             self.xvtickdirection = self.axes["x"].vtickdirection
 
@@ -887,7 +887,7 @@ class graphxyz(graph):
             self.zgridpath = self.axes["z"].gridpath
             self.ztickpoint_pt = self.axes["z"].tickpoint_pt
             self.ztickpoint = self.axes["z"].tickpoint
-            self.zvtickpoint_pt = self.axes["z"].vtickpoint
+            self.zvtickpoint_pt = self.axes["z"].vtickpoint_pt
             self.zvtickpoint = self.axes["z"].vtickpoint
             self.ztickdirection = self.axes["z"].tickdirection
             self.zvtickdirection = self.axes["z"].vtickdirection
-- 
2.43.0


From 9ea4c85a116fc6362465e7b0e6168ad6595d98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 069/100] fix: no range adjustment of already created axes by
 linked axes

---
 pyx/graph/axis/axis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 48799f5..679c172 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -702,6 +702,13 @@ class linkedaxis(anchoredaxis):
         if self.painter is _marker:
             self.painter = linkedaxis.axis.linkpainter
 
+    def adjustaxis(self, columndata):
+        if self.canvas is None:
+            # the range belongs to the axis linked to, which might be created already
+            self.linkedto.adjustaxis(columndata)
+        else:
+            anchoredaxis.adjustaxis(self, columndata)
+
     def create(self):
         assert self.linkedto is not None, self.errorname
         assert self.positioner is not None, self.errorname
-- 
2.43.0


From b6b06bad0c95a20ca38355ce6f0b87ef026e7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 070/100] fix: manual ticks are not modified by the axes using
 them

---
 pyx/graph/axis/axis.py     | 7 ++++---
 pyx/graph/axis/timeaxis.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/axis/axis.py b/pyx/graph/axis/axis.py
index 679c172..d2ec87f 100644
--- a/pyx/graph/axis/axis.py
+++ b/pyx/graph/axis/axis.py
@@ -21,7 +21,7 @@
 # along with PyX; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301, USA
 
-import functools, logging, math
+import copy, functools, logging, math
 from pyx import attr, unit, text, utils
 from pyx.graph.axis import painter, parter, positioner, rater, texter, tick
 
@@ -153,7 +153,7 @@ class _regularaxis(_axis):
             return canvas
 
         if parter is None:
-            data.ticks = self.manualticks
+            data.ticks = [copy.copy(t) for t in self.manualticks]
             return layout(data)
 
         # a variant is a data copy with local modifications to test several partitions
@@ -199,7 +199,8 @@ class _regularaxis(_axis):
                 ticks = partfunction()
                 if ticks is None:
                     break
-                ticks = tick.mergeticklists(self.manualticks, ticks, mergeequal=0)
+                # ticks become modified by the layout, the manual ticks might be used again
+                ticks = tick.mergeticklists([copy.copy(t) for t in self.manualticks], ticks, mergeequal=0)
                 if ticks:
                     rate = rater.rateticks(self, ticks)
                     if rate is not None:
diff --git a/pyx/graph/axis/timeaxis.py b/pyx/graph/axis/timeaxis.py
index eb27716..48fed9f 100644
--- a/pyx/graph/axis/timeaxis.py
+++ b/pyx/graph/axis/timeaxis.py
@@ -66,6 +66,11 @@ class timetick(datetime.datetime):
         self.label = label
         self.labelattrs = labelattrs[:]
 
+    def __copy__(self):
+        return timetick(self.year, self.month, self.day, ticklevel=self.ticklevel, labellevel=self.labellevel,
+                        label=self.label, labelattrs=self.labelattrs, hour=self.hour, minute=self.minute,
+                        second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo, fold=self.fold)
+
     def merge(self, other):
         if self.ticklevel is None or (other.ticklevel is not None and other.ticklevel < self.ticklevel):
             self.ticklevel = other.ticklevel
-- 
2.43.0


From 501d1376d09ef2252702251ba8ea01fda12be88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 071/100] fix: do not keep incompletely decoded Type 1 font
 data

---
 pyx/font/t1file.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index a5fcd17..83f635e 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -689,7 +689,7 @@ class T1File:
         if token1 == "StandardEncoding" and token2 == "def":
             self.encoding = adobestandardencoding
         else:
-            self.encoding = [None]*256
+            encoding = [None]*256
             while True:
                 self.encodingstart = c.pos
                 if c.gettoken() == "dup":
@@ -698,13 +698,15 @@ class T1File:
                 i = c.getint()
                 glyph = c.gettoken()
                 if 0 <= i < 256:
-                    self.encoding[i] = glyph[1:]
+                    encoding[i] = glyph[1:]
                 token = c.gettoken(); assert token == "put"
                 self.encodingend = c.pos
                 token = c.gettoken()
                 if token == "readonly" or token == "def":
                     break
                 assert token == "dup"
+            # do not store incomplete encodings in case of an error
+            self.encoding = encoding
 
     lenIVpattern = re.compile(rb"/lenIV\s+(\d+)\s+def\s+")
     flexhintsubrs = [[3, 0, T1callothersubr, T1pop, T1pop, T1setcurrentpoint, T1return],
@@ -718,6 +720,15 @@ class T1File:
         It doesn't make sense to call this method twice -- check the content of
         data2 before calling. The method also keeps the subrs and charstrings
         start and end positions for later use."""
+        try:
+            self._data2extract()
+        except BaseException:
+            # do not leave incompletely decoded data behind
+            self._data2 = None
+            raise
+
+    def _data2extract(self):
+        """helper method of _data2decode"""
         self._data2 = self._eexecdecode(self._data2eexec)
 
         m = self.lenIVpattern.search(self._data2)
-- 
2.43.0


From 9e7ce2acaba9e5ad4bc1068862da18a0c61d3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 072/100] fix: graph keys of bar styles drawn before the plots

---
 pyx/graph/style.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 4a1541d..7b16353 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -1386,11 +1386,11 @@ class barpos(_style):
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.insertfrompath = selectindex == 0
+        sharedata.stackedbar = sharedata.stackedbardraw = 0
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         sharedata.vpos = [None]*(len(sharedata.barposcolumnnames))
         sharedata.vbarrange = [[None for i in builtinrange(2)] for x in sharedata.barposcolumnnames]
-        sharedata.stackedbar = sharedata.stackedbardraw = 0
 
         if self.fromvalue is not None:
             privatedata.vfromvalue = graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]].convert(self.fromvalue)
@@ -1451,7 +1451,7 @@ class stackedbarpos(_style):
         if columnname == self.stackname:
             graph.axes[sharedata.barposcolumnnames[sharedata.barvalueindex]].adjustaxis(data)
 
-    def initdrawpoints(self, privatedata, sharedata, graph):
+    def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         if sharedata.stackedbardraw: # do not count the start bar when not gets painted
             sharedata.stackedbar += 1
 
@@ -1499,11 +1499,11 @@ class bar(_style):
 
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         privatedata.barattrs = attr.selectattrs(self.defaultbarattrs + self.barattrs, selectindex, selecttotal)
+        sharedata.stackedbardraw = 1
+        privatedata.stackedbar = sharedata.stackedbar
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         privatedata.barcanvas = graph.layer("filldata").insert(canvas.canvas())
-        sharedata.stackedbardraw = 1
-        privatedata.stackedbar = sharedata.stackedbar
         privatedata.todraw = []
 
     def drawpointfill(self, privatedata, p):
@@ -1598,6 +1598,7 @@ class changebar(bar):
     def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
         if selecttotal != 1:
             raise RuntimeError("Changebar can't change its appearance. Thus you can't use it to plot several bars side by side on a subaxis.")
+        sharedata.stackedbardraw = 1
 
     def initdrawpoints(self, privatedata, sharedata, graph):
         if len(graph.axesnames) != 2:
-- 
2.43.0


From 45a7ac9775d42688812d1a0eee14296ef587f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 073/100] fix: do not keep incomplete paths of texts

---
 pyx/font/font.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index aa5a25d..dba3418 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -518,7 +518,7 @@ class T1text_pt(text_pt):
                     data = self.glyphnames
             else:
                 data = self.charcodes
-            self._textpath = path.path()
+            textpath = path.path()
             x_pt = self.x_pt
             y_pt = self.y_pt
             for i, value in enumerate(data):
@@ -529,11 +529,12 @@ class T1text_pt(text_pt):
                     if i:
                         x_pt += self.spaced_pt
                     glyphpath = self.font.t1file.getglyphpath_pt(x_pt, y_pt, value, self.size_pt, convertcharcode=not self.decode)
-                    self._textpath += glyphpath.path
+                    textpath += glyphpath.path
                     x_pt += glyphpath.wx_pt
                     y_pt += glyphpath.wy_pt
             if self.slant:
-                self._textpath = self._textpath.transformed(trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)))
+                textpath = textpath.transformed(trafo.trafo_pt(matrix=((1, self.slant), (0, 1)), vector=(-self.slant*self.y_pt, 0)))
+            self._textpath = textpath
         return self._textpath
 
     def processPS(self, file, writer, context, registry, bbox):
-- 
2.43.0


From 7628f0eaf5de500e4a949cd1a5ad960797addbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 074/100] fix: frames of empty graph keys

---
 pyx/graph/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/graph/key.py b/pyx/graph/key.py
index 92ea984..3e98064 100644
--- a/pyx/graph/key.py
+++ b/pyx/graph/key.py
@@ -106,7 +106,7 @@ class key:
             c.insert(subc, [trafo.translate_pt(x_pt, 0)])
             x_pt += unit.topt(subc.bbox().width()) + columndist_pt
             del plotitems[:itemspercolumn]
-        if self.keyattrs is not None:
+        if self.keyattrs is not None and c.bbox():
             newc = canvas.canvas()
             newc.draw(c.bbox().enlarged(self.border).path(), self.keyattrs)
             newc.insert(c)
-- 
2.43.0


From 9c24d48addd4789ffce46c60c8614c06d4659045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 075/100] fix: empty meshes

---
 pyx/mesh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyx/mesh.py b/pyx/mesh.py
index 9aebf52..51a290b 100644
--- a/pyx/mesh.py
+++ b/pyx/mesh.py
@@ -96,6 +96,8 @@ class mesh(baseclasses.canvasitem):
                         raise ValueError("two dimensional coordinates expected")
 
     def bbox(self):
+        if not self.elements:
+            return bbox.empty()
         return bbox.bbox_pt(min([node.coords_pt[0] for element in self.elements for node in element.nodes]),
                             min([node.coords_pt[1] for element in self.elements for node in element.nodes]),
                             max([node.coords_pt[0] for element in self.elements for node in element.nodes]),
@@ -108,6 +110,8 @@ class mesh(baseclasses.canvasitem):
                          for element in self.elements for node in element.nodes])
 
     def processPS(self, file, writer, context, registry, bbox):
+        if not self.elements:
+            return
         if writer.meshasbitmap:
             from pyx import bitmap, canvas
             from PIL import Image
@@ -140,6 +144,8 @@ class mesh(baseclasses.canvasitem):
                 file.write("%s>\n" % data)
 
     def processPDF(self, file, writer, context, registry, bbox):
+        if not self.elements:
+            return
         if writer.meshasbitmap:
             from pyx import bitmap, canvas
             from PIL import Image
@@ -182,6 +188,8 @@ stream
             file.write("/%s sh\n" % name)
 
     def processSVG(self, xml, writer, context, registry, bbox):
+        if not self.elements:
+            return
         from pyx import bitmap, canvas
         from PIL import Image
         c = canvas.canvas()
-- 
2.43.0


From af1533a976a504e152d6dcf76daec6699e0ecc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 076/100] fix: nop commands within pages of DVI files

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index ebe938e..50616a6 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -447,7 +447,7 @@ class DVIfile:
                 continue
             if cmd == _DVI_NOP:
                 pass
-            if cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
+            elif cmd >= _DVI_CHARMIN and cmd <= _DVI_CHARMAX:
                 self.putchar(cmd, True, 0, fontmap)
             elif cmd >= _DVI_SET1234 and cmd < _DVI_SET1234 + 4:
                 self.putchar(afile.readint(cmd - _DVI_SET1234 + 1), True, cmd-_DVI_SET1234+1, fontmap)
-- 
2.43.0


From f336e0988f32c90e0feb25d9aefb1ded7d2f362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 077/100] fix: do not scale the advance of rules in virtual
 fonts twice

---
 pyx/dvi/dvifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 50616a6..b03ad64 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -154,7 +154,7 @@ class DVIfile:
             if self.debug:
                 self.debugfile.write(" h:=%d+%d=%d, hh:=???\n" %
                                      (self.pos[_POS_H], width, self.pos[_POS_H]+width))
-            self.pos[_POS_H] += width * self.scale
+            self.pos[_POS_H] += width
 
     def putchar(self, char, advancepos, id1234, fontmap):
         dx = advancepos and self.activefont.getwidth_dvi(char) or 0
-- 
2.43.0


From 3ae66a9d2cb9fe0b68506c67c295d5a47dbf18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 078/100] fix: initial state of virtual font chunks

---
 pyx/dvi/dvifile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index b03ad64..3b36b05 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -346,7 +346,12 @@ class DVIfile:
         self.stack = []
         self.filepos = 0
 
-        self.usefont(0, 0, fontmap)
+        # each chunk starts with cleared registers and the first font of the virtual font (if any)
+        self.pos[_POS_W] = self.pos[_POS_X] = self.pos[_POS_Y] = self.pos[_POS_Z] = 0
+        self.flushtext(fontmap)
+        for fontnum in fonts:
+            self.usefont(fontnum, 0, fontmap)
+            break
 
     def _pop_dvistring(self, fontmap):
         self.flushtext(fontmap)
-- 
2.43.0


From d727248638ea8f01d0f92b82f3ab1e4fe1c2efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 079/100] fix: take into account the magnification of DVI files
 in font sizes

---
 pyx/dvi/texfont.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/texfont.py b/pyx/dvi/texfont.py
index 33c148f..9897d52 100644
--- a/pyx/dvi/texfont.py
+++ b/pyx/dvi/texfont.py
@@ -61,10 +61,8 @@ class TeXfont:
 
     def getsize_pt(self):
         """ return size of font in (PS) points """
-        # The factor 16L/16777216L=2**(-20) converts a fix_word (here self.q)
-        # to the corresponding float. Furthermore, we have to convert from TeX
-        # points to points, hence the factor 72/72.27.
-        return 72/72.27 * 16*self.q/16777216
+        # Note that pyxconv contains the magnification of the dvi file, too.
+        return self.q * self.tfmconv * self.pyxconv
 
     def _convert_tfm_to_dvi(self, length):
         # doing the integer math with long integers will lead to different roundings
-- 
2.43.0


From 578c0c07bb766b130f175f12534a93268f498bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 080/100] fix: failing reads of virtual fonts

---
 pyx/dvi/dvifile.py | 6 ++++--
 pyx/dvi/vffile.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/dvifile.py b/pyx/dvi/dvifile.py
index 3b36b05..e0e8e6b 100644
--- a/pyx/dvi/dvifile.py
+++ b/pyx/dvi/dvifile.py
@@ -202,10 +202,12 @@ class DVIfile:
 
         # check whether it's a virtual font by trying to open it. if this fails, it is an ordinary TeX font
         try:
-            with config.open(fontname, [config.format.vf]) as fontfile:
-                afont = texfont.virtualfont(fontname, fontfile, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
+            fontfile = config.open(fontname, [config.format.vf])
         except EnvironmentError:
             afont = texfont.TeXfont(fontname, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
+        else:
+            with fontfile:
+                afont = texfont.virtualfont(fontname, fontfile, c, q/self.tfmconv, d/self.tfmconv, self.tfmconv, self.pyxconv, self.debug>1)
 
         self.fonts[num] = afont
 
diff --git a/pyx/dvi/vffile.py b/pyx/dvi/vffile.py
index 819bd40..fe6b0c0 100644
--- a/pyx/dvi/vffile.py
+++ b/pyx/dvi/vffile.py
@@ -82,10 +82,12 @@ class vffile:
                 from pyx import config
                 from . import texfont
                 try:
-                    with config.open(fontname, [config.format.vf]) as fontfile:
-                        self.fonts[num] = texfont.virtualfont(fontname, fontfile, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
+                    fontfile = config.open(fontname, [config.format.vf])
                 except EnvironmentError:
                     self.fonts[num] = texfont.TeXfont(fontname, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
+                else:
+                    with fontfile:
+                        self.fonts[num] = texfont.virtualfont(fontname, fontfile, c, reals, d, self.tfmconv, self.pyxconv, self.debug>1)
             elif cmd == _VF_LONG_CHAR:
                 # character packet (long form)
                 pl = afile.readuint32()   # packet length
-- 
2.43.0


From aaae73f5e47d7ec0d8c2f875ff41660505dfd05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 081/100] fix: failing reads of font metric files

---
 pyx/dvi/mapfile.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyx/dvi/mapfile.py b/pyx/dvi/mapfile.py
index 8ee9450..4a011a1 100644
--- a/pyx/dvi/mapfile.py
+++ b/pyx/dvi/mapfile.py
@@ -130,18 +130,22 @@ class MAPline:
                     t1font = t1file.T1File.from_PF_bytes(fontfile.read())
                 assert self.basepsname == t1font.name, "corrupt MAP file"
                 try:
-                    with config.open(os.path.splitext(self.fontfilename)[0], [config.format.afm], ascii=True) as metricfile:
-                        self._font = font.T1font(t1font, afmfile.AFMfile(metricfile))
+                    metricfile = config.open(os.path.splitext(self.fontfilename)[0], [config.format.afm], ascii=True)
                 except EnvironmentError:
                     try:
                         # fallback by using the pfm instead of the afm font metric
                         # (in all major TeX distributions there is no pfm file format defined by kpsewhich, but
                         # we can use the type1 format and search for the file including the expected suffix)
-                        with config.open("%s.pfm" % os.path.splitext(self.fontfilename)[0], [config.format.type1]) as metricfile:
-                            self._font = font.T1font(t1font, pfmfile.PFMfile(metricfile, t1font))
+                        metricfile = config.open("%s.pfm" % os.path.splitext(self.fontfilename)[0], [config.format.type1])
                     except EnvironmentError:
                         # we need to continue without any metric file
                         self._font = font.T1font(t1font)
+                    else:
+                        with metricfile:
+                            self._font = font.T1font(t1font, pfmfile.PFMfile(metricfile, t1font))
+                else:
+                    with metricfile:
+                        self._font = font.T1font(t1font, afmfile.AFMfile(metricfile))
             else:
                 # builtin font
                 with config.open(self.basepsname, [config.format.afm], ascii=True) as metricfile:
-- 
2.43.0


From a850821e43d5dfac3ab395de13ca8606a01d86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 082/100] fix: do not print the additional header data of tfm
 files

---
 pyx/dvi/tfmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/dvi/tfmfile.py b/pyx/dvi/tfmfile.py
index b9829f1..4f92732 100644
--- a/pyx/dvi/tfmfile.py
+++ b/pyx/dvi/tfmfile.py
@@ -126,7 +126,7 @@ class TFMfile:
 
             if self.lh > 18:
                 # just ignore the rest
-                print(file.read((self.lh-18)*4))
+                file.read((self.lh-18)*4)
 
             #
             # read char_info
-- 
2.43.0


From 3a2965e24543150ec6187ca1021a28b7fce875cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 083/100] fix: errors in and unterminated last lines of
 encoding files

---
 pyx/dvi/encfile.py | 12 ++++++------
 pyx/reader.py      |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyx/dvi/encfile.py b/pyx/dvi/encfile.py
index 6571494..23def73 100644
--- a/pyx/dvi/encfile.py
+++ b/pyx/dvi/encfile.py
@@ -23,7 +23,7 @@
 
 from pyx import reader
 
-class ENFfileError(Exception):
+class ENCfileError(Exception):
     pass
 
 class ENCfile:
@@ -35,18 +35,18 @@ class ENCfile:
         self.name = c.gettoken()
         token = c.gettoken()
         if token != "[":
-            raise ENCfileError("cannot parse encoding file '%s', expecting '[' got '%s'" % (filename, token))
+            raise ENCfileError("cannot parse encoding file '%s', expecting '[' got '%s'" % (self.name, token))
         self.vector = []
         for i in range(256):
             token = c.gettoken()
             if token == "]":
-                raise ENCfileError("not enough charcodes in encoding file '%s'" % filename)
+                raise ENCfileError("not enough charcodes in encoding file '%s'" % self.name)
             if not token[0] == "/":
-                raise ENCfileError("token does not start with / in encoding file '%s'" % filename)
+                raise ENCfileError("token does not start with / in encoding file '%s'" % self.name)
             self.vector.append(token[1:])
         if c.gettoken() != "]":
-            raise ENCfileError("too many charcodes in encoding file '%s'" % filename)
+            raise ENCfileError("too many charcodes in encoding file '%s'" % self.name)
         token = c.gettoken()
         if token != "def":
-            raise ENCfileError("cannot parse encoding file '%s', expecting 'def' got '%s'" % (filename, token))
+            raise ENCfileError("cannot parse encoding file '%s', expecting 'def' got '%s'" % (self.name, token))
 
diff --git a/pyx/reader.py b/pyx/reader.py
index 3718d07..b1c69c2 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -141,13 +141,13 @@ class PStokenizer:
             while self.data[self.pos] in self.tokenseps:
                 self.pos += 1
         startpos = self.pos
-        while self.data[self.pos] not in self.tokenseps:
+        while self.pos < len(self.data) and self.data[self.pos] not in self.tokenseps:
             # any character in self.tokenstarts ends the token
             if self.pos>startpos and self.data[self.pos] in self.tokenstarts:
                 break
             self.pos += 1
         result = self.data[startpos:self.pos]
-        if self.data[self.pos] in self.tokenseps:
+        if self.pos < len(self.data) and self.data[self.pos] in self.tokenseps:
             self.pos += 1 # consume a single tokensep
         return result
 
-- 
2.43.0


From 9ef599a98bac94cdf78cb00da92c669051118805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 084/100] fix: read PFA files in Python 3

---
 pyx/font/t1file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 83f635e..e0223a2 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1174,13 +1174,13 @@ class T1File:
     def from_PFA_bytes(cls, bytes):
         """create a T1File instance from a string of bytes corresponding to a PFA file"""
         try:
-            m1 = bytes.index("eexec") + 6
-            m2 = bytes.index("0"*40)
+            m1 = bytes.index(b"eexec") + 6
+            m2 = bytes.index(b"0"*40)
         except ValueError:
            raise FontFormatError
 
         data1 = bytes[:m1].decode("ascii", errors="surrogateescape")
-        data2eexec = binascii.a2b_hex(bytes[m1: m2].replace(" ", "").replace("\r", "").replace("\n", ""))
+        data2eexec = binascii.a2b_hex(b"".join(bytes[m1: m2].split()))
         data3 = bytes[m2:].decode("ascii", errors="surrogateescape")
         return cls(data1, data2eexec, data3)
 
-- 
2.43.0


From ae8c5378dad5b36eaae4f840e7f589b7094ff599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 085/100] fix: MetricsSets in AFM files

---
 pyx/font/afmfile.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c4821b3..3c9b9f4 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1032,8 +1032,6 @@ class AFMfile(metric.metric):
             return _READ_MAIN, None
         elif key == "MetricsSets":
             self.metricssets = _parseint(args)
-            if direction is not None:
-                raise AFMError("MetricsSets not allowed after first (implicit) StartDirection")
         elif key == "FontName":
             self.fontname = _parsestr(args)
         elif key == "FullName":
-- 
2.43.0


From fc56e49d43fe55886041cf8496f0d25402a1ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 086/100] fix: incomplete AFM files

---
 pyx/font/afmfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 3c9b9f4..4b25d4b 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1346,7 +1346,7 @@ class AFMfile(metric.metric):
          # without a corresponding StartDirection section and we thus
          # may need to reprocess a line in the context of the new state
          for line in f:
-            line = line[:-1].strip()
+            line = line.strip()
             mstate, sstate = state
             if mstate == _READ_START:
                 state = self._processline_start(line)
@@ -1370,6 +1370,8 @@ class AFMfile(metric.metric):
                     state = self._processline_composites(line, sstate)
                 else:
                     raise AFMError("Undefined state in AFM reader")
+         if state[0] != _READ_END:
+             raise AFMError("Unexpected end of AFM file")
 
     def width_ds(self, glyphname):
         return self.charmetricsdict[glyphname].widths[0][0]
-- 
2.43.0


From eddfbdbd528c66a528ad49e5f659a5b0b8267269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 087/100] fix: descent in PDF font descriptors for AFM files
 without Descender

---
 pyx/font/afmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index 4b25d4b..c71ca66 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1435,7 +1435,7 @@ class AFMfile(metric.metric):
         if self.descender is not None:
             descent = self.descender
         elif self.fontbbox is not None:
-            descent = self.fontbbox[3]
+            descent = self.fontbbox[1]
         else:
             descent = -200 # guessed default
         file.write("/Descent %d\n" % descent)
-- 
2.43.0


From b8ed5b1ff2facac471b84c142a00254b8306896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 088/100] fix: incomplete PFA files

---
 pyx/font/t1file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index e0223a2..dce93b8 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -1176,6 +1176,7 @@ class T1File:
         try:
             m1 = bytes.index(b"eexec") + 6
             m2 = bytes.index(b"0"*40)
+            bytes.index(b"cleartomark", m2)
         except ValueError:
            raise FontFormatError
 
-- 
2.43.0


From 778c9bef1640f0c0ee35b54ce6f7151e45a689e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 089/100] fix: left sidebearing of accented characters

---
 pyx/font/t1file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index dce93b8..5710aeb 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -183,8 +183,9 @@ class _T1seac(T1cmd):
         achar = context.t1stack.pop(0)
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
+        sbx = context.x # left sidebearing of the accented character itself
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
-        atrafo = atrafo * trafo.translate_pt(adx-sab, ady)
+        atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
 
     def gathercalls(self, seacglyphs, subrs, context):
-- 
2.43.0


From 58e26ef772a2b512b3ad8647f42ee18d78662321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 090/100] fix: paint key graphs and keys independent of the
 order of the steps

---
 pyx/graph/graph.py | 4 ++--
 pyx/graph/style.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyx/graph/graph.py b/pyx/graph/graph.py
index 3e13c5e..55c2b78 100644
--- a/pyx/graph/graph.py
+++ b/pyx/graph/graph.py
@@ -182,7 +182,7 @@ class graph(canvas.canvas):
 
     def __init__(self):
         canvas.canvas.__init__(self)
-        for name in ["background", "grid", "filldata", "axes.baseline", "axes.ticks", "axes.labels", "axes.title", "data", "key"]:
+        for name in ["background", "grid", "filldata", "axes.baseline", "axes.ticks", "axes.labels", "axes.title", "data", "key.graphs", "key.items"]:
             self.layer(name)
         # define mapping of axes to graph layers
         # in particular, map grid to the graph grid, i.e. outside of the axes, in order to paint the grid below filldata
@@ -643,7 +643,7 @@ class graphxy(graph):
                 y = parentchildalign(self.ypos_pt, self.ypos_pt+self.height_pt,
                                      bbox.lly_pt, bbox.ury_pt,
                                      self.key.vpos, unit.topt(self.key.vdist), self.key.vinside)
-                self.layer("key").insert(c, [trafo.translate_pt(x, y)])
+                self.layer("key.items").insert(c, [trafo.translate_pt(x, y)])
 
 
 
diff --git a/pyx/graph/style.py b/pyx/graph/style.py
index 7b16353..54c35bd 100644
--- a/pyx/graph/style.py
+++ b/pyx/graph/style.py
@@ -166,7 +166,7 @@ class _keygraphstyle(_style):
 
     def donedrawpoints(self, privatedata, sharedata, graph):
         if self.keygraph is _autokeygraph:
-            graph.layer("key").insert(privatedata.keygraph, [graph.autokeygraphtrafo(privatedata.keygraph)])
+            graph.layer("key.graphs").insert(privatedata.keygraph, [graph.autokeygraphtrafo(privatedata.keygraph)])
 
 
 class pos(_style):
-- 
2.43.0


From 5292c92d2c77eaae981eef04fc4cd007934ce4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 091/100] fix: the div operator of Type 1 glyphs yields a
 fraction

---
 pyx/font/t1file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 5710aeb..7baaa8e 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -508,12 +508,14 @@ class _T1div(T1cmd):
     def updatepath(self, path, trafo, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        quotient, remainder = divmod(num1, num2)
+        context.t1stack.append(num1/num2 if remainder else quotient)
 
     def gathercalls(self, seacglyphs, subrs, context):
         num2 = context.t1stack.pop()
         num1 = context.t1stack.pop()
-        context.t1stack.append(divmod(num1, num2)[0])
+        quotient, remainder = divmod(num1, num2)
+        context.t1stack.append(num1/num2 if remainder else quotient)
 
 T1div = _T1div()
 
-- 
2.43.0


From 21d21c0dc78ed9cd4e8322935ba9f6dd7298dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 092/100] fix: brackets are tokens on their own in encoding
 files

---
 pyx/reader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyx/reader.py b/pyx/reader.py
index b1c69c2..2071ec5 100644
--- a/pyx/reader.py
+++ b/pyx/reader.py
@@ -98,6 +98,8 @@ class bytesreader(reader):
 class PStokenizer:
     """cursor to read a string token by token"""
 
+    singletokens = ["[", "]", "{", "}"]
+
     def __init__(self, data, startstring=None, eattokensep=1,
                  tokenseps=" \t\r\n", tokenstarts="()<>[]{}/%",
                  commentchar="%", newlinechars="\r\n"):
@@ -141,11 +143,15 @@ class PStokenizer:
             while self.data[self.pos] in self.tokenseps:
                 self.pos += 1
         startpos = self.pos
-        while self.pos < len(self.data) and self.data[self.pos] not in self.tokenseps:
-            # any character in self.tokenstarts ends the token
-            if self.pos>startpos and self.data[self.pos] in self.tokenstarts:
-                break
+        if self.data[self.pos:self.pos+1] in self.singletokens:
+            # array and procedure delimiters are tokens on their own
             self.pos += 1
+        else:
+            while self.pos < len(self.data) and self.data[self.pos] not in self.tokenseps:
+                # any character in self.tokenstarts ends the token
+                if self.pos>startpos and self.data[self.pos] in self.tokenstarts:
+                    break
+                self.pos += 1
         result = self.data[startpos:self.pos]
         if self.pos < len(self.data) and self.data[self.pos] in self.tokenseps:
             self.pos += 1 # consume a single tokensep
@@ -165,6 +171,8 @@ class PStokenizer:
 
 class PSbytes_tokenizer(PStokenizer):
 
+    singletokens = [b"[", b"]", b"{", b"}"]
+
     def __init__(self, data, startstring=None, eattokensep=1,
                  tokenseps=b" \t\r\n", tokenstarts=b"()<>[]{}/%",
                  commentchar=b"%", newlinechars=b"\r\n"):
-- 
2.43.0


From 264715e47bd90b017bac10d64020d34ad96f1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 093/100] fix: accented characters keep their own width

---
 pyx/font/t1file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/t1file.py b/pyx/font/t1file.py
index 7baaa8e..57bf242 100644
--- a/pyx/font/t1file.py
+++ b/pyx/font/t1file.py
@@ -184,9 +184,11 @@ class _T1seac(T1cmd):
         aglyph = adobestandardencoding[achar]
         bglyph = adobestandardencoding[bchar]
         sbx = context.x # left sidebearing of the accented character itself
+        wx, wy = context.wx, context.wy # its width likewise
         context.t1font.updateglyphpath(bglyph, path, atrafo, context)
         atrafo = atrafo * trafo.translate_pt(sbx+adx-sab, ady)
         context.t1font.updateglyphpath(aglyph, path, atrafo, context)
+        context.wx, context.wy = wx, wy
 
     def gathercalls(self, seacglyphs, subrs, context):
         achar = context.t1stack.pop()
-- 
2.43.0


From 845e1cddd4addb2636813b01eea7274a2c08ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 094/100] fix: PDF font descriptors always need an italic angle

---
 pyx/font/afmfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyx/font/afmfile.py b/pyx/font/afmfile.py
index c71ca66..7f68602 100644
--- a/pyx/font/afmfile.py
+++ b/pyx/font/afmfile.py
@@ -1425,6 +1425,8 @@ class AFMfile(metric.metric):
         file.write("/Flags %d\n" % flags)
         if self.italicangles[0] is not None:
             file.write("/ItalicAngle %d\n" % self.italicangles[0])
+        else:
+            file.write("/ItalicAngle 0\n") # required, too
         if self.ascender is not None:
             ascent = self.ascender
         elif self.fontbbox is not None:
-- 
2.43.0


From 1ea34fb2be2e82d59356a604c19221cba2d7dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 095/100] fix: spaces in SVG text are glyphs of the font

---
 pyx/font/font.py | 4 ++++
 pyx/svgwriter.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyx/font/font.py b/pyx/font/font.py
index dba3418..61b224e 100644
--- a/pyx/font/font.py
+++ b/pyx/font/font.py
@@ -731,6 +731,10 @@ class T1text_pt(text_pt):
                      "font-size": "%f" % self.size_pt,
                      "font-family": fontname,
                      "fill": context.fillcolor}
+            mapping = t1mapping.glyphnames if self.decode else t1mapping.charcodes
+            if " " in mapping.values():
+                # do not collapse spaces, which are glyphs of the font
+                attrs["xml:space"] = "preserve"
             if context.fillopacity != 1:
                 attrs["fill-opacity"] = "%f" % context.fillopacity
             if self.slant:
diff --git a/pyx/svgwriter.py b/pyx/svgwriter.py
index 26d1874..2a201f9 100644
--- a/pyx/svgwriter.py
+++ b/pyx/svgwriter.py
@@ -26,6 +26,7 @@ logger = logging.getLogger("pyx")
 
 svg_uri = "http://www.w3.org/2000/svg"
 xlink_uri = "http://www.w3.org/1999/xlink"
+xml_uri = "http://www.w3.org/XML/1998/namespace"
 
 class SVGregistry:
 
@@ -97,6 +98,8 @@ class SVGGenerator(xml.sax.saxutils.XMLGenerator):
             name = split[0]
         else:
             short_uri, name = split
+            if short_uri == "xml":
+                return xml_uri, name
             assert short_uri == "xlink"
             if not self.xlink_enabled:
                 raise ValueError("xlink namespace found but not enabled")
-- 
2.43.0


From 3ef585189bcd4a71160b29e3dae5e6ea240a1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 096/100] fix: the UnicodeEngine supports mathmode

---
 pyx/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyx/text.py b/pyx/text.py
index 50c7a8c..ecddcfe 100644
--- a/pyx/text.py
+++ b/pyx/text.py
@@ -1776,9 +1776,8 @@ class UnicodeEngine:
         attr.checkattrs(textattrs, [textattr, trafo.trafo_pt, style.fillstyle])
         trafos = attr.getattrs(textattrs, [trafo.trafo_pt])
         fillstyles = attr.getattrs(textattrs, [style.fillstyle])
-        textattrs = attr.getattrs(textattrs, [textattr])
         mathmode = bool(attr.getattrs(textattrs, [_mathmode]))
-        if textattrs:
+        if [a for a in attr.getattrs(textattrs, [textattr]) if not isinstance(a, _mathmode)]:
             raise ValueError("UnicodeEngine does not support textattrs")
 
         if isinstance(text, MultiEngineText):
-- 
2.43.0


From d0133f0eaa8a1697cdb149456591dc8bfb1f0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 097/100] fix: FontBBox given as an array in PFM based font
 descriptors

---
 pyx/font/pfmfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyx/font/pfmfile.py b/pyx/font/pfmfile.py
index b1d3eee..c9ae3c6 100644
--- a/pyx/font/pfmfile.py
+++ b/pyx/font/pfmfile.py
@@ -249,7 +249,7 @@ ansiglyphs = {"space": 32,
               "ydieresis":255}
 
 
-fontbboxpattern = re.compile(r"/FontBBox\s*\{\s*(?P<fontbbox>(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+))\s*\}\s*(readonly\s+)?def")
+fontbboxpattern = re.compile(r"/FontBBox\s*[\[{]\s*(?P<fontbbox>(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+)\s+(-?[0-9.]+))\s*[\]}]\s*(readonly\s+)?def")
 
 
 def _readNullString(file):
-- 
2.43.0


From 35b89bc561cafd1da62927bcda86cd5a602bd05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 098/100] fix: codes of space, hyphen and bullet in PFM files

---
 pyx/font/pfmfile.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyx/font/pfmfile.py b/pyx/font/pfmfile.py
index c9ae3c6..3562020 100644
--- a/pyx/font/pfmfile.py
+++ b/pyx/font/pfmfile.py
@@ -118,9 +118,7 @@ ansiglyphs = {"space": 32,
               "bar":124,
               "braceright":125,
               "asciitilde":126,
-              "bullet":127,
               "Euro":128,
-              "bullet":129,
               "quotesinglbase":130,
               "florin":131,
               "quotedblbase":132,
@@ -132,10 +130,7 @@ ansiglyphs = {"space": 32,
               "Scaron":138,
               "guilsinglleft":139,
               "OE":140,
-              "bullet":141,
               "Zcaron":142,
-              "bullet":143,
-              "bullet":144,
               "quoteleft":145,
               "quoteright":146,
               "quotedblleft":147,
@@ -148,10 +143,8 @@ ansiglyphs = {"space": 32,
               "scaron":154,
               "guilsinglright":155,
               "oe":156,
-              "bullet":157,
               "zcaron":158,
               "Ydieresis":159,
-              "space":160,
               "exclamdown":161,
               "cent":162,
               "sterling":163,
@@ -164,7 +157,6 @@ ansiglyphs = {"space": 32,
               "ordfeminine":170,
               "guillemotleft":171,
               "logicalnot":172,
-              "hyphen":173,
               "registered":174,
               "macron":175,
               "degree":176,
-- 
2.43.0


From 7224dafc15c11b45a79f0d186e3ec57695e57122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 099/100] fix: mirror at the line with the direction given
 instead of the opposite angle

---
 pyx/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyx/trafo.py b/pyx/trafo.py
index 60223a4..d4997f8 100644
--- a/pyx/trafo.py
+++ b/pyx/trafo.py
@@ -42,8 +42,8 @@ def _mmatrix(angle):
     phi = math.pi*angle/180.0
 
     return ( (math.cos(phi)*math.cos(phi)-math.sin(phi)*math.sin(phi),
-              -2*math.sin(phi)*math.cos(phi)                ),
-             (-2*math.sin(phi)*math.cos(phi),
+              2*math.sin(phi)*math.cos(phi)                 ),
+             (2*math.sin(phi)*math.cos(phi),
               math.sin(phi)*math.sin(phi)-math.cos(phi)*math.cos(phi) ) )
 
 
-- 
2.43.0


From d9a56e1ed3472ca3181560f174fa7b81cc9796a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 100/100] fix: the intersection of disjoint bboxes is empty

---
 pyx/bbox.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyx/bbox.py b/pyx/bbox.py
index 70562fd..287bf1b 100644
--- a/pyx/bbox.py
+++ b/pyx/bbox.py
@@ -75,11 +75,9 @@ class bbox_pt:
 
     def __mul__(self, other):
         """return intersection of two bboxes"""
-        if self.llx_pt is not None and other.llx_pt is not None:
-            return bbox_pt(max(self.llx_pt, other.llx_pt), max(self.lly_pt, other.lly_pt),
-                           min(self.urx_pt, other.urx_pt), min(self.ury_pt, other.ury_pt))
-        else:
-            return empty()
+        result = self.copy()
+        result *= other
+        return result
 
     def __imul__(self, other):
         """intersect two bboxes in place"""
@@ -88,8 +86,11 @@ class bbox_pt:
             self.lly_pt = max(self.lly_pt, other.lly_pt)
             self.urx_pt = min(self.urx_pt, other.urx_pt)
             self.ury_pt = min(self.ury_pt, other.ury_pt)
+            if self.llx_pt > self.urx_pt or self.lly_pt > self.ury_pt:
+                # the bboxes do not intersect
+                self.set(empty())
         elif other.llx_pt is None:
-            self.llx_pt = None
+            self.set(empty())
         return self
 
     def copy(self):
-- 
2.43.0

