From 83e1f5f445cdc5acaca17fe6480d884a82ae035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 01/35] fix: write installVersion only after the downloaded
 files are verified

The marker was written concurrently with the SHASUMS256.txt download and
before the checksums were compared (and, on Windows, copied in directory
order together with the headers).  A process killed in that window left an
unverified tree that a later `--ensure` run accepts as complete.
---
 lib/install.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..b6ed3f4 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -257,12 +257,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -280,6 +277,11 @@ async function install (gyp, argv) {
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
       }
+
+      // write the "installVersion" file last: its presence is what makes a later
+      // `--ensure` accept the directory without looking at its contents
+      const installVersionPath = path.resolve(devDir, 'installVersion')
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
     } finally {
       if (tarExtractDir !== devDir) {
         try {
-- 
2.43.0


From 0d4d37508f73d45f0616a742a89b745ed331db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 02/35] fix: refuse to remove a path that is not a version
 directory of devDir

`node-gyp remove ..` (or an absolute path) recursively deleted whatever the
argument resolved to, outside of the development files directory.
---
 lib/remove.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..1660677 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -24,6 +24,10 @@ async function remove (gyp, argv) {
   }
 
   const versionPath = path.resolve(gyp.devDir, version)
+  if (path.dirname(versionPath) !== path.resolve(gyp.devDir)) {
+    // never delete anything but a version directory inside of devDir
+    throw new Error('Invalid version number: ' + version)
+  }
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
-- 
2.43.0


From c30773b3864b2dc34227d0db78d4b9d176af0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 03/35] fix: compare the minor version of VS2017 when enabling
 ARM64 assembly

versionMajor === 15 && versionMajor >= 9 is true for every VS2017, so marmasm
was also enabled for releases older than 15.9, which lack it.
---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..bdaf3ec 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -88,7 +88,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
-- 
2.43.0


From ff8cb83c32b7deccc28e2875a1cca327239f03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 04/35] fix: propagate the exit status of the command run by
 gyp-flock-tool

ExecFlock returns the status of the child, but Dispatch() and main() dropped
it, so a failing link step run under the emulated flock (AIX, Solaris, ...)
exited with 0 and make carried on.
---
 gyp/pylib/gyp/flock_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/flock_tool.py b/gyp/pylib/gyp/flock_tool.py
index 0754aff..aa99c35 100755
--- a/gyp/pylib/gyp/flock_tool.py
+++ b/gyp/pylib/gyp/flock_tool.py
@@ -15,7 +15,7 @@ import sys
 
 def main(args):
     executor = FlockTool()
-    executor.Dispatch(args)
+    return executor.Dispatch(args)
 
 
 class FlockTool:
@@ -27,7 +27,7 @@ class FlockTool:
             raise Exception("Not enough arguments")
 
         method = "Exec%s" % self._CommandifyName(args[0])
-        getattr(self, method)(*args[1:])
+        return getattr(self, method)(*args[1:])
 
     def _CommandifyName(self, name_string):
         """Transforms a tool name like copy-info-plist to CopyInfoPlist"""
-- 
2.43.0


From f393823edeaadb330bec2975ea11497ad54d5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 05/35] fix: format the simple_copy error message

`%` bound to the second literal only, so an unsupported type raised
TypeError (not all arguments converted) instead of simple_copy.Error.
---
 gyp/pylib/gyp/simple_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/simple_copy.py b/gyp/pylib/gyp/simple_copy.py
index 729cec0..66f8ba0 100644
--- a/gyp/pylib/gyp/simple_copy.py
+++ b/gyp/pylib/gyp/simple_copy.py
@@ -25,7 +25,7 @@ def deepcopy(x):
     except KeyError:
         raise Error(
             "Unsupported type %s for deepcopy. Use copy.deepcopy "
-            + "or expand simple_copy support." % type(x)
+            "or expand simple_copy support." % type(x)
         )
 
 
-- 
2.43.0


From 2624619033241578ff536c5ea85904f357c159f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 06/35] fix: compare and write XML files as bytes

When the locale's encoding was the requested one the text was written to a
file opened in binary mode (TypeError); otherwise the encoded text was
compared with decoded text, which never matched, so unchanged project files
were rewritten every time.
---
 gyp/pylib/gyp/easy_xml.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..76a018f 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,17 +120,11 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    xml_string = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
-- 
2.43.0


From 4f7c0e88b1564db8e5c01e848a57854e5819d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 07/35] fix: treat a command expansion killed by a signal as
 failed

subprocess reports death by signal as a negative returncode, which `> 0` let
through: the partial (or empty) output of e.g. an OOM-killed `<!(cmd)` was
substituted silently.
---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..65c96db 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -973,7 +973,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From 4bbf3b41a2fca14b9c6cae5a77c6cac795209d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 08/35] fix: key the command cache by the kind of command

<!(a b) and <!pymod_do_main(a b) run different things but shared one cache
entry, so whichever was expanded second got the other one's output.
---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 65c96db..bf73946 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -911,7 +911,7 @@ def ExpandVariables(input, phase, variables, build_file):
             # is invoked it produces different output by design. When the need
             # arises, the syntax should be extended to support no caching off a
             # command's output so it is run every time.
-            cache_key = (str(contents), build_file_dir)
+            cache_key = (command_string, use_shell, str(contents), build_file_dir)
             cached_value = cached_command_results.get(cache_key, None)
             if cached_value is None:
                 gyp.DebugOutput(
-- 
2.43.0


From 27b7ebbeadbb2379d4d758e38f5de9a78c33673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 09/35] fix: report the list index of an invalid gyp value

The messages concatenated a str and an int, so the intended error was masked
by a TypeError about the concatenation.
---
 gyp/pylib/gyp/input.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index bf73946..117b3a9 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1429,12 +1429,12 @@ def ProcessVariablesAndConditionsInList(the_list, phase, variables, build_file):
                     "Variable expansion in this context permits strings and "
                     + "lists only, found "
                     + expanded.__class__.__name__
-                    + " at "
-                    + index
+                    + " at index "
+                    + str(index)
                 )
         elif not isinstance(item, int):
             raise TypeError(
-                "Unknown type " + item.__class__.__name__ + " at index " + index
+                "Unknown type " + item.__class__.__name__ + " at index " + str(index)
             )
         index = index + 1
 
-- 
2.43.0


From e70f3e99c46a18dc6bde9ef08b7dbdbcfc9e6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 10/35] fix: compare whole path components when checking the
 gyp tarball

commonprefix() works on characters, so a member such as ../gyp-evil/x passed
the traversal check for .../gyp.
---
 update-gyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update-gyp.py b/update-gyp.py
index c65da41..9fddfd0 100755
--- a/update-gyp.py
+++ b/update-gyp.py
@@ -42,7 +42,7 @@ with tempfile.TemporaryDirectory() as tmp_dir:
                 abs_directory = os.path.abspath(directory)
                 abs_target = os.path.abspath(target)
 
-                prefix = os.path.commonprefix([abs_directory, abs_target])
+                prefix = os.path.commonpath([abs_directory, abs_target])
 
                 return prefix == abs_directory
 
-- 
2.43.0


From a311ee858612ef047b3943ad59714b7d5f867e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 11/35] fix: install the requested version after the EACCES
 fallback

The internal flag was passed as the first argument, which is where
processRelease() looks for the version, so the retried install fell back
to --target or the running version.
---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index b6ed3f4..8cea76e 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -391,7 +391,7 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From f11caca875f02871f9d080708c78e2ae88c940e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 12/35] fix: load and order build files, targets and formats
 independently of string hashing

The set of build files, the set of target build files, a directory listing and the
sets of formats and of dependency edges were iterated directly, so the order of the
generated output changed from run to run.
---
 gyp/pylib/gyp/__init__.py | 8 ++++----
 gyp/pylib/gyp/common.py   | 4 ++--
 gyp/pylib/gyp/input.py    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..2125ccf 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -56,7 +56,7 @@ def DebugOutput(mode, message, *args):
 
 def FindBuildFiles():
     extension = ".gyp"
-    files = os.listdir(os.getcwd())
+    files = sorted(os.listdir(os.getcwd()))
     build_files = []
     for file in files:
         if file.endswith(extension):
@@ -640,9 +640,9 @@ def gyp_main(args):
     if DEBUG_GENERAL in gyp.debug:
         DebugOutput(DEBUG_GENERAL, "generator_flags: %s", generator_flags)
 
-    # Generate all requested formats (use a set in case we got one format request
-    # twice)
-    for format in set(options.formats):
+    # Generate all requested formats, in the order given (dropping repeats, in case
+    # we got one format request twice)
+    for format in dict.fromkeys(options.formats):
         params = {
             "options": options,
             "build_files": build_files,
diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..c472f99 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -310,7 +310,7 @@ def DeepDependencyTargets(target_dicts, roots):
         spec = target_dicts[r]
         pending.update(set(spec.get("dependencies", [])))
         pending.update(set(spec.get("dependencies_original", [])))
-    return list(dependencies - set(roots))
+    return sorted(dependencies - set(roots))
 
 
 def BuildFileTargets(target_list, build_file):
@@ -676,7 +676,7 @@ def TopologicallySorted(graph, get_edges):
             return
         visited.add(node)
         visiting.add(node)
-        for neighbor in get_edges(node):
+        for neighbor in sorted(get_edges(node)):
             Visit(neighbor)
         visiting.remove(node)
         ordered_nodes.insert(0, node)
diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 117b3a9..d74345e 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1453,7 +1453,7 @@ def BuildTargetsDict(data):
   """
 
     targets = {}
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         for target in data[build_file].get("targets", []):
             target_name = gyp.common.QualifiedTarget(
                 build_file, target["target_name"], target["toolset"]
@@ -2885,7 +2885,7 @@ def PruneUnwantedTargets(targets, flat_list, dependency_nodes, root_targets, dat
     wanted_flat_list = [t for t in flat_list if t in wanted_targets]
 
     # Prune unwanted targets from each build_file's data dict.
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         if "targets" not in data[build_file]:
             continue
         new_targets = []
@@ -2973,7 +2973,7 @@ def Load(
     data = {"target_build_files": set()}
     # Normalize paths everywhere.  This is important because paths will be
     # used as keys to the data dict and for references between input files.
-    build_files = set(map(os.path.normpath, build_files))
+    build_files = list(dict.fromkeys(map(os.path.normpath, build_files)))
     if parallel:
         LoadTargetBuildFilesParallel(
             build_files, data, variables, includes, depth, check, generator_input_info
-- 
2.43.0


From 78793f4bbfac36b8307d08dcfb47e3fdebc7bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 13/35] fix: make generator writes set contents in sorted order

Output directories, suffix rules, toolsets and regeneration dependencies came from
sets, so the same input produced different Makefiles from run to run.
---
 gyp/pylib/gyp/generator/make.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..36655de 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -938,7 +938,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             sources = [x for x in all_sources if Compilable(x)]
             if sources:
                 self.WriteLn(SHARED_HEADER_SUFFIX_RULES_COMMENT1)
-                extensions = {os.path.splitext(s)[1] for s in sources}
+                extensions = sorted({os.path.splitext(s)[1] for s in sources})
                 for ext in extensions:
                     if ext in self.suffix_rules_srcdir:
                         self.WriteLn(self.suffix_rules_srcdir[ext])
@@ -1060,7 +1060,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             else:
                 self.WriteLn(f"quiet_cmd_{name} = ACTION {name} $@")
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd %s; " % Sourceify(self.path or ".")
 
@@ -1225,7 +1225,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 ]
                 mkdirs = ""
                 if len(dirs) > 0:
-                    mkdirs = "mkdir -p %s; " % " ".join(dirs)
+                    mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))
                 cd_action = "cd %s; " % Sourceify(self.path or ".")
 
                 # action, cd_action, and mkdirs get written to a toplevel variable
@@ -2383,7 +2383,7 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-                " ".join(SourceifyAndQuoteSpaces(bf) for bf in build_files)
+                " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
             ),
             "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
                 [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
@@ -2623,7 +2623,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             "LOCAL_PATH := $(call my-dir)\n"
             "\n"
         )
-    for toolset in toolsets:
+    for toolset in sorted(toolsets):
         root_makefile.write("TOOLSET := %s\n" % toolset)
         WriteRootHeaderSuffixRules(root_makefile)
 
@@ -2697,7 +2697,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
 
     # Write out per-gyp (sub-project) Makefiles.
     depth_rel_path = gyp.common.RelativePath(options.depth, os.getcwd())
-    for build_file in build_files:
+    for build_file in sorted(build_files):
         # The paths in build_files were relativized above, so undo that before
         # testing against the non-relativized items in target_list and before
         # calculating the Makefile path.
-- 
2.43.0


From e77a29dbff5630ae9a18fe793bf344fead70218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 14/35] fix: cmake, msvs, ninja and android generators write
 set contents in sorted order

---
 gyp/pylib/gyp/generator/android.py | 4 ++--
 gyp/pylib/gyp/generator/cmake.py   | 4 ++--
 gyp/pylib/gyp/generator/msvs.py    | 6 +++---
 gyp/pylib/gyp/generator/ninja.py   | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gyp/pylib/gyp/generator/android.py b/gyp/pylib/gyp/generator/android.py
index 64da385..b55dad4 100644
--- a/gyp/pylib/gyp/generator/android.py
+++ b/gyp/pylib/gyp/generator/android.py
@@ -289,7 +289,7 @@ class AndroidMkWriter:
             else:
                 quiet_cmd = "Gyp action: %s ($@)" % name
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd $(gyp_local_path)/%s; " % self.path
             command = cd_action + command
@@ -415,7 +415,7 @@ class AndroidMkWriter:
                 cd_action = "cd $(gyp_local_path)/%s; " % self.path
                 command = cd_action + command
                 if dirs:
-                    command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                    command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
                 # We set up a rule to build the first output, and then set up
                 # a rule for each additional output to depend on the first.
diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 8720a3d..d9adfb2 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -287,7 +287,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         output.write("\n")
 
         if len(dirs) > 0:
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
@@ -394,7 +394,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
                 output.write(out)
                 output.write("\n")
 
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..2af0071 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2116,7 +2116,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             configs.add(config_name)
             if config_name == "Release|arm64":
                 configs.add("Release|x64")
-    configs = list(configs)
+    configs = sorted(configs)
 
     # Figure out all the projects that will be generated and their guids
     project_objects = _CreateProjectObjects(
@@ -2160,7 +2160,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
         sln.Write()
 
     if missing_sources:
-        error_message = "Missing input files:\n" + "\n".join(set(missing_sources))
+        error_message = "Missing input files:\n" + "\n".join(sorted(set(missing_sources)))
         if generator_flags.get("msvs_error_on_missing_sources", False):
             raise GypError(error_message)
         else:
@@ -3872,7 +3872,7 @@ def _GetMSBuildExternalBuilderTargets(spec):
 
 def _GetMSBuildExtensions(props_files_of_rules):
     extensions = ["ImportGroup", {"Label": "ExtensionSettings"}]
-    for props_file in props_files_of_rules:
+    for props_file in sorted(props_files_of_rules):
         extensions.append(["Import", {"Project": props_file}])
     return [extensions]
 
diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..2f244f1 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -1565,7 +1565,7 @@ class NinjaWriter:
             command + command_suffix,
             link_deps,
             implicit=sorted(implicit_deps),
-            order_only=list(order_deps),
+            order_only=sorted(order_deps),
             variables=extra_bindings,
         )
         return linked_binary
-- 
2.43.0


From 3c8208a2c3615b0c08fc6871231eb8843f9078ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 15/35] fix: command line words named like Object.prototype
 members are not replaced by functions

---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..5a95348 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -100,7 +100,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -108,7 +108,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From b8bef7cf6cff098a64df3e87c2869dfe5ec171a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 16/35] fix: evaluate conditions that expand to an integer

A condition such as '<(flag)' that expands to 1 was handed to compile() as
an int, although integers are explicitly permitted there.
---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index d74345e..c7d9fd6 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1177,7 +1177,7 @@ def EvalSingleCondition(cond_expr, true_dict, false_dict, phase, variables, buil
         if cond_expr_expanded in cached_conditions_asts:
             ast_code = cached_conditions_asts[cond_expr_expanded]
         else:
-            ast_code = compile(cond_expr_expanded, "<string>", "eval")
+            ast_code = compile(str(cond_expr_expanded), "<string>", "eval")
             cached_conditions_asts[cond_expr_expanded] = ast_code
         env = {"__builtins__": {}, "v": Version}
         if eval(ast_code, env, variables):
-- 
2.43.0


From 6c627b714a2d5c3156266b4cb064b169b8866cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 17/35] fix: treat only ASCII digits as canonical integers

str.isdigit() is also true for characters such as a superscript two, for
which int() raises ValueError, and for digits of other scripts, which
str(int()) does not reproduce.
---
 gyp/pylib/gyp/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index c7d9fd6..c42ac22 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -706,7 +706,8 @@ def IsStrCanonicalInt(string):
                 if not string:
                     return False
             if "1" <= string[0] <= "9":
-                return string.isdigit()
+                # Not isdigit(), which is also true for other Unicode digits.
+                return all("0" <= char <= "9" for char in string)
 
     return False
 
-- 
2.43.0


From c28f2796b48145d88068ba90335fe1954d948152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 18/35] fix: rebase paths that look like integers

A path such as '1' in a path section is an int after expansion, which made
MakePathRelative raise TypeError when it was merged from another directory.
---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index c42ac22..fc107b7 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2192,9 +2192,11 @@ def MakePathRelative(to_file, fro_file, item):
     #   "/' Used when a value is quoted.  If these are present, then we
     #       check the second character instead.
     #
-    if to_file == fro_file or exception_re.match(item):
+    if to_file == fro_file or exception_re.match(str(item)):
         return item
     else:
+        # Names that look like integers have become integers by now.
+        item = str(item)
         # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
         # temporary measure. This should really be addressed by keeping all paths
         # in POSIX until actual project generation.
-- 
2.43.0


From 7b99f23ebf7afae5f169bebbcc4b02643ca235c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 19/35] fix: keep prepended list items in front when one is
 repeated

An item that occurred twice in a list merged with the + policy was removed
from the prepended items and reinserted behind items already in the list.
---
 gyp/pylib/gyp/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index fc107b7..0d4501c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2273,6 +2273,8 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
             # existing instance and proceed with the prepend.  This ensures that the
             # item appears at the earliest possible position in the list.
             while singleton and to_item in to:
+                if to.index(to_item) < prepend_index:
+                    prepend_index = prepend_index - 1
                 to.remove(to_item)
 
             # Don't just insert everything at index 0.  That would prepend the new
-- 
2.43.0


From bbeb1c3571f134bc25b6baad8d58242c2ab7e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 20/35] fix: pass a given solution file to msbuild as such and
 targets to make unprefixed on Windows

---
 lib/build.js | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index ae38d22..0fe6e11 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -16,10 +16,6 @@ async function build (gyp, argv) {
     platformMake = 'gmake'
   } else if (process.platform.indexOf('bsd') !== -1) {
     platformMake = 'gmake'
-  } else if (win && argv.length > 0) {
-    argv = argv.map(function (target) {
-      return '/t:' + target
-    })
   }
 
   const makeCommand = gyp.opts.make || process.env.MAKE || platformMake
@@ -131,6 +127,13 @@ async function build (gyp, argv) {
     const verbose = log.logger.isVisible('verbose')
     let j
 
+    if (msvs) {
+      argv = argv.map(function (target) {
+        // a solution file given by the user is no target
+        return path.extname(target) === '.sln' ? target : '/t:' + target
+      })
+    }
+
     if (!msvs && verbose) {
       argv.push('V=1')
     }
-- 
2.43.0


From 6461ca710d5d7c8e7df237cf0ab859f288186746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 21/35] fix: link object files listed in sources from the build
 file's directory

---
 gyp/pylib/gyp/generator/make.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 36655de..98b71a0 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1518,7 +1518,9 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
         # If there are any object files in our input file list, link them into our
         # output.
-        extra_link_deps += [source for source in sources if Linkable(source)]
+        extra_link_deps += [
+            Sourceify(self.Absolutify(source)) for source in sources if Linkable(source)
+        ]
 
         self.WriteLn()
 
-- 
2.43.0


From ede2a64c150fd192b36748421fa765d499f9113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 22/35] fix: outputs of actions and rules are relative to the
 build file, not to the generated makefile

---
 gyp/pylib/gyp/generator/make.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 98b71a0..74f3da2 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1091,7 +1091,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     "%s%s" % (name, cd_action, command)
                 )
             self.WriteLn()
-            outputs = [self.Absolutify(o) for o in outputs]
+            outputs = [Sourceify(self.Absolutify(o)) for o in outputs]
             # The makefile rules are all relative to the top dir, but the gyp actions
             # are defined relative to their containing dir.  This replaces the obj
             # variable for the action rule with an absolute version so that the output
@@ -1197,7 +1197,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 outputs = [gyp.xcode_emulation.ExpandEnvVars(o, env) for o in outputs]
                 inputs = [gyp.xcode_emulation.ExpandEnvVars(i, env) for i in inputs]
 
-                outputs = [self.Absolutify(o) for o in outputs]
+                outputs = [Sourceify(self.Absolutify(o)) for o in outputs]
                 all_outputs += outputs
                 # Only write the 'obj' and 'builddir' rules for the "primary" output
                 # (:1); it's superfluous for the "extra outputs", and this avoids
-- 
2.43.0


From d120ec3dee184f0fae4c84d4307d33cdd9ac3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 23/35] fix: a backslash before '#' in a definition made make
 drop the rest of the definitions

---
 gyp/pylib/gyp/generator/make.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 74f3da2..93b236c 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -717,13 +717,17 @@ def EscapeMakeVariableExpansion(s):
     return s.replace("$", "$$")
 
 
+def EscapeMakeComment(s):
+    """'#' characters must be escaped even embedded in a string, else Make will
+    treat it as the start of a comment. Make halves the backslashes before it."""
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
+
+
 def EscapeCppDefine(s):
     """Escapes a CPP define so that it will reach the compiler unaltered."""
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
-    # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    return EscapeMakeComment(s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From f28eb0aeff89f2bb59cb5ccc42f38786333651ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 24/35] fix: '#' in the command of an action or rule made make
 drop the rest of it

---
 gyp/pylib/gyp/generator/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 93b236c..9f0c316 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1073,6 +1073,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             # makefile like $(TARGET), so hardcode the target.
             command = command.replace("$(TARGET)", self.target)
             cd_action = cd_action.replace("$(TARGET)", self.target)
+            command = EscapeMakeComment(command)
 
             # Set LD_LIBRARY_PATH in case the action runs an executable from this
             # build which links to shared libs from this build.
@@ -1244,6 +1245,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 action = action.replace("$(TARGET)", self.target)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
+                action = EscapeMakeComment(action)
 
                 # Set LD_LIBRARY_PATH in case the rule runs an executable from this
                 # build which links to shared libs from this build.
-- 
2.43.0


From 1d225927deba27e3b60adf7f3a312dacef673adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 25/35] fix: an action or rule run for an output other than its
 first got the wrong paths

---
 gyp/pylib/gyp/generator/make.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 9f0c316..c9227ac 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1101,13 +1101,12 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             # are defined relative to their containing dir.  This replaces the obj
             # variable for the action rule with an absolute version so that the output
             # goes in the right place.
-            # Only write the 'obj' and 'builddir' rules for the "primary" output (:1);
-            # it's superfluous for the "extra outputs", and this avoids accidentally
-            # writing duplicate dummy rules for those outputs.
-            # Same for environment.
-            self.WriteLn("%s: obj := $(abs_obj)" % QuoteSpaces(outputs[0]))
-            self.WriteLn("%s: builddir := $(abs_builddir)" % QuoteSpaces(outputs[0]))
-            self.WriteSortedXcodeEnv(outputs[0], self.GetSortedXcodeEnv())
+            # Whichever output Make considers first runs the action, so all of them
+            # need these variables. Same for environment.
+            for output in outputs:
+                self.WriteLn("%s: obj := $(abs_obj)" % QuoteSpaces(output))
+                self.WriteLn("%s: builddir := $(abs_builddir)" % QuoteSpaces(output))
+                self.WriteSortedXcodeEnv(output, self.GetSortedXcodeEnv())
 
             for input in inputs:
                 assert " " not in input, (
@@ -1204,11 +1203,11 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
 
                 outputs = [Sourceify(self.Absolutify(o)) for o in outputs]
                 all_outputs += outputs
-                # Only write the 'obj' and 'builddir' rules for the "primary" output
-                # (:1); it's superfluous for the "extra outputs", and this avoids
-                # accidentally writing duplicate dummy rules for those outputs.
-                self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
-                self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
+                # Whichever output Make considers first runs the rule, so all of them
+                # need these variables.
+                for output in outputs:
+                    self.WriteLn("%s: obj := $(abs_obj)" % output)
+                    self.WriteLn("%s: builddir := $(abs_builddir)" % output)
                 self.WriteMakeRule(
                     outputs, inputs, actions, command="%s_%d" % (name, count)
                 )
@@ -2148,7 +2147,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         if phony:
             self.WriteLn(".PHONY: " + " ".join(outputs))
         if actions:
-            self.WriteLn("%s: TOOLSET := $(TOOLSET)" % outputs[0])
+            self.WriteLn("%s: TOOLSET := $(TOOLSET)" % " ".join(outputs))
         force_append = " FORCE_DO_CMD" if force else ""
 
         if order_only:
-- 
2.43.0


From 24bfcbf476e477bb4ae69c5d6478ab4f19ad9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 26/35] fix: steps with '#' in their command were repeated by
 every build

The record of a command in its .d file was cut at the '#' when make read it
back, so the command always seemed to have changed.
---
 gyp/pylib/gyp/generator/make.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index c9227ac..834fd7b 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -495,8 +495,10 @@ escape_quotes = $(subst ','\'',$(1))
 # This comment is here just to include a ' to unconfuse syntax highlighting.
 # Define an escape_vars function to escape '$' variable syntax.
 # This allows us to read/write command lines with shell variables (e.g.
-# $LD_LIBRARY_PATH), without triggering make substitution.
-escape_vars = $(subst $$,$$$$,$(1))
+# $LD_LIBRARY_PATH), without triggering make substitution. A '#' is written as
+# a variable as well, as make would take the rest of the line for a comment.
+pound := \#
+escape_vars = $(subst $(pound),$$(pound),$(subst $$,$$$$,$(1)))
 # Helper that expands to a shell command to echo a string exactly as it is in
 # make. This uses printf instead of echo because printf's behaviour with respect
 # to escape sequences is more portable than echo's across different shells
-- 
2.43.0


From f905694ef057990dd7ca88ad07e02945f7cd2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 27/35] fix: use the ChakraCore headers with
 node_engine=chakracore

The conditions of target_defaults that chose deps/chakrashim/include were
replaced by the second 'conditions' key of the same dictionary, and a default
set there could not have replaced the global one.
---
 addon.gypi | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/addon.gypi b/addon.gypi
index b4ac369..b7c56e4 100644
--- a/addon.gypi
+++ b/addon.gypi
@@ -3,20 +3,17 @@
     'node_engine_include_dir%': 'deps/v8/include',
     'node_host_binary%': 'node',
     'node_with_ltcg%': 'true',
+    'conditions': [
+      [ 'node_engine=="chakracore"', {
+        'node_engine_include_dir%': 'deps/chakrashim/include',
+      }],
+    ],
   },
   'target_defaults': {
     'type': 'loadable_module',
     'win_delay_load_hook': 'true',
     'product_prefix': '',
 
-    'conditions': [
-      [ 'node_engine=="chakracore"', {
-        'variables': {
-          'node_engine_include_dir%': 'deps/chakrashim/include'
-        },
-      }]
-    ],
-
     'include_dirs': [
       '<(node_root_dir)/include/node',
       '<(node_root_dir)/src',
-- 
2.43.0


From 1f79107095048a9da9706dddd3f7874171947292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 28/35] fix: gyp msvs: defines with a backslash before a quote
 raised TypeError

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 2af0071..af12630 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -860,7 +860,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From 0bf1ca6a300eaaaea5c70a2942295bc1800893c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 29/35] fix: gyp msvs: a source excluded in only some
 configurations raised TypeError

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index af12630..ba7ac47 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3574,7 +3574,7 @@ def _AddSources2(
                 else:
                     for config_name, configuration in sorted(excluded_configurations):
                         condition = _GetConfigurationCondition(
-                            config_name, configuration
+                            config_name, configuration, spec
                         )
                         detail.append(
                             ["ExcludedFromBuild", {"Condition": condition}, "true"]
-- 
2.43.0


From 62e5b403fa892f6169f7c5535ffc8cd851a02efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 30/35] fix: gyp msvs: TargetExt of one configuration applied
 to all configurations

---
 gyp/pylib/gyp/generator/msvs.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index ba7ac47..b18d494 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3221,10 +3221,6 @@ def _GetMSBuildConfigurationGlobalProperties(spec, configurations, build_file):
             _AddConditionalProperty(
                 properties, condition, "TargetPath", attributes["TargetPath"]
             )
-        if attributes.get("TargetExt"):
-            _AddConditionalProperty(
-                properties, condition, "TargetExt", attributes["TargetExt"]
-            )
 
         if new_paths:
             _AddConditionalProperty(properties, condition, "ExecutablePath", new_paths)
-- 
2.43.0


From 0cb68f552aeca8767d0e0e19212d025bda5debc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 31/35] fix: gyp msvs: relative OutputDirectory was made
 relative to the project twice

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index b18d494..c48505d 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3134,7 +3134,7 @@ def _GetMSBuildAttributes(spec, config, build_file):
     else:
         config_type = _GetMSVSConfigurationType(spec, build_file)
         config_type = _ConvertMSVSConfigurationType(config_type)
-        msbuild_attributes = config.get("msbuild_configuration_attributes", {})
+        msbuild_attributes = config.get("msbuild_configuration_attributes", {}).copy()
         msbuild_attributes.setdefault("ConfigurationType", config_type)
         output_dir = msbuild_attributes.get(
             "OutputDirectory", "$(SolutionDir)$(Configuration)"
-- 
2.43.0


From 1976ce29068442bbcd02c6bfe45056005ba23dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 32/35] fix: gyp msvs: a list of AdditionalOptions was
 formatted as a Python list

---
 gyp/pylib/gyp/MSVSSettings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/MSVSSettings.py b/gyp/pylib/gyp/MSVSSettings.py
index fea6e67..bf97431 100644
--- a/gyp/pylib/gyp/MSVSSettings.py
+++ b/gyp/pylib/gyp/MSVSSettings.py
@@ -338,7 +338,11 @@ def _ConvertedToAdditionalOption(tool, msvs_name, flag):
         if value == "true":
             tool_settings = _GetMSBuildToolSettings(msbuild_settings, tool)
             if "AdditionalOptions" in tool_settings:
-                new_flags = "{} {}".format(tool_settings["AdditionalOptions"], flag)
+                old_flags = tool_settings["AdditionalOptions"]
+                if isinstance(old_flags, list):
+                    new_flags = old_flags + [flag]
+                else:
+                    new_flags = f"{old_flags} {flag}"
             else:
                 new_flags = flag
             tool_settings["AdditionalOptions"] = new_flags
-- 
2.43.0


From a85ea11b4fb690f35d1446825818fde600df4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 33/35] fix: gyp msvs: options added by settings were lost if
 AdditionalOptions came later

---
 gyp/pylib/gyp/MSVSSettings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/MSVSSettings.py b/gyp/pylib/gyp/MSVSSettings.py
index bf97431..c3cdb6d 100644
--- a/gyp/pylib/gyp/MSVSSettings.py
+++ b/gyp/pylib/gyp/MSVSSettings.py
@@ -463,7 +463,8 @@ def ConvertToMSBuildSettings(msvs_settings, stderr=sys.stderr):
     for msvs_tool_name, msvs_tool_settings in msvs_settings.items():
         if msvs_tool_name in _msvs_to_msbuild_converters:
             msvs_tool = _msvs_to_msbuild_converters[msvs_tool_name]
-            for msvs_setting, msvs_value in msvs_tool_settings.items():
+            # AdditionalOptions comes before the settings that are added to it.
+            for msvs_setting, msvs_value in sorted(msvs_tool_settings.items()):
                 if msvs_setting in msvs_tool:
                     # Invoke the translation function.
                     try:
-- 
2.43.0


From 6e6ef472d2ace95b5b46ae4105b20d9c00daac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 34/35] fix: gyp msvs: projects and solution named
 configurations with an underscore differently

---
 gyp/pylib/gyp/generator/msvs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index c48505d..6fb6b7c 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2895,8 +2895,8 @@ def _GenerateMSBuildRuleXmlFile(xml_path, msbuild_rules):
 
 
 def _GetConfigurationAndPlatform(name, settings, spec):
-    configuration = name.rsplit("_", 1)[0]
-    platform = settings.get("msvs_configuration_platform", "Win32")
+    platform = _ConfigPlatform(settings)
+    configuration = _ConfigBaseName(name, platform)
     if spec["toolset"] == "host" and platform == "arm64":
         platform = "x64"  # Host-only tools are always built for x64
     return (configuration, platform)
-- 
2.43.0


From 67d90d1fde2ff1a6192a459506f899e0da665da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:55 +0000
Subject: [PATCH 35/35] fix: recognise every form of gyp's format option in
 configure

--format=NAME and -fNAME were not recognised, so configure asked gyp for the
platform's default generator as well.
---
 lib/configure.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/configure.js b/lib/configure.js
index ee672cf..0cbcf3d 100644
--- a/lib/configure.js
+++ b/lib/configure.js
@@ -102,7 +102,7 @@ async function configure (gyp, argv) {
             usingMakeGenerator = true
             break
           }
-        } else if (arg.startsWith('--format=make')) {
+        } else if (arg.startsWith('-fmake') || arg.startsWith('--format=make')) {
           usingMakeGenerator = true
           break
         }
@@ -149,7 +149,7 @@ async function configure (gyp, argv) {
   }
 
   async function runGyp () {
-    if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {
+    if (!argv.some((arg) => arg.startsWith('-f') || arg === '--format' || arg.startsWith('--format='))) {
       if (win) {
         log.verbose('gyp', 'gyp format was not specified; forcing "msvs"')
         // force the 'make' target for non-Windows
-- 
2.43.0

