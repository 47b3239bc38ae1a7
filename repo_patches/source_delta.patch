From 76d4631975525f48e9a6825224790c3d4626ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 01/56] fix: keep ports given before a list-valued flag such as
 firewall --http

---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From 70c047bac382bcbf4a5f241b157c0c0d9034b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 02/56] fix: write out group --gid=0 and user --uid=0 / --gid=0

---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..7a931b6 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid not in (None, ""):
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..094ee86 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid not in (None, ""):
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid not in (None, ""):
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 8ea2c0a44865e63eea4367ec73cc78a9ccde7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 03/56] fix: write out repo --cost=0 and volgroup
 --reserved-space=0

---
 pykickstart/commands/repo.py     | 2 +-
 pykickstart/commands/volgroup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..2449415 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -74,7 +74,7 @@ class F8_RepoData(FC6_RepoData):
     def _getArgsAsStr(self):
         retval = FC6_RepoData._getArgsAsStr(self)
 
-        if self.cost:
+        if self.cost is not None:
             retval += " --cost=%s" % self.cost
         if self.includepkgs:
             retval += " --includepkgs=\"%s\"" % ",".join(self.includepkgs)
diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..8cdb319 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -77,7 +77,7 @@ class F16_VolGroupData(FC3_VolGroupData):
 
     def _getArgsAsStr(self):
         retval = FC3_VolGroupData._getArgsAsStr(self)
-        if self.reserved_space:
+        if self.reserved_space is not None:
             retval += " --reserved-space=%d" % self.reserved_space
         if self.reserved_percent:
             retval += " --reserved-percent=%d" % self.reserved_percent
-- 
2.43.0


From d211fa72ee902d3e8b2bc13bf6da909fadb61844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 04/56] fix: write out btrfs --parent

---
 pykickstart/commands/btrfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index 084f25b..afbbd7f 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -68,6 +68,8 @@ class F17_BTRFSData(BaseData):
             retval += " --metadata=%s" % self.metaDataLevel.lower()
         if self.subvol:
             retval += " --subvol --name=%s" % self.name
+        if self.parent:
+            retval += " --parent=%s" % self.parent
 
         return retval
 
-- 
2.43.0


From 8f0e3cc142f79c1c873c837053219ec25c977bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 05/56] fix: ignoredisk with the deprecated --interactive keeps
 its disk list on output

---
 pykickstart/commands/ignoredisk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/commands/ignoredisk.py b/pykickstart/commands/ignoredisk.py
index a44549d..24e405c 100644
--- a/pykickstart/commands/ignoredisk.py
+++ b/pykickstart/commands/ignoredisk.py
@@ -150,6 +150,10 @@ class F29_IgnoreDisk(F14_IgnoreDisk):
     removedKeywords = F14_IgnoreDisk.removedKeywords
     removedAttrs = F14_IgnoreDisk.removedAttrs
 
+    def __str__(self):
+        # The deprecated --interactive option no longer has any effect.
+        return F8_IgnoreDisk.__str__(self)
+
     def parse(self, args):
         return F8_IgnoreDisk.parse(self, args)
 
-- 
2.43.0


From 0d8fb607571c5e4018156f0353149bc02a8a67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:14 +0000
Subject: [PATCH 06/56] fix: deprecated flag options firewall
 --high/--medium/--telnet and xconfig --noprobe take no value

---
 pykickstart/commands/firewall.py | 6 +++---
 pykickstart/commands/xconfig.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..1fcb893 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -121,8 +121,8 @@ class FC3_Firewall(KickstartCommand):
         op.add_argument("--telnet", dest="ports", action="append_const",
                         const="23:tcp", version=FC3,
                         help="Open port 23:tcp")
-        op.add_argument("--high", deprecated=FC3, help="")
-        op.add_argument("--medium", deprecated=FC3, help="")
+        op.add_argument("--high", action="store_true", deprecated=FC3, help="")
+        op.add_argument("--medium", action="store_true", deprecated=FC3, help="")
         op.add_argument("--port", dest="ports", action=ExtendAction,
                         type=firewall_port_cb, help="""
                         You can specify that ports be allowed through the firewall
@@ -206,7 +206,7 @@ class F10_Firewall(F9_Firewall):
                         const="smtp", version=F10, help="Open the smtp service port")
         op.add_argument("--ssh", dest="services", action="append_const",
                         const="ssh", version=F10, help="Open the ssh service port")
-        op.add_argument("--telnet", deprecated=F10)
+        op.add_argument("--telnet", action="store_true", deprecated=F10)
         return op
 
 class F14_Firewall(F10_Firewall):
diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..198fc9d 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -140,7 +140,7 @@ class FC6_XConfig(FC3_XConfig):
         op.add_argument("--driver", version=FC6, help="REMOVED")
         op.add_argument("--hsync", deprecated=FC6)
         op.add_argument("--monitor", deprecated=FC6)
-        op.add_argument("--noprobe", deprecated=FC6)
+        op.add_argument("--noprobe", action="store_true", deprecated=FC6)
         op.add_argument("--vsync", deprecated=FC6)
         op.remove_argument("--server", version=FC6, help="")
         return op
-- 
2.43.0


From cd0673a4a224ad33212f0992a03d7909b845a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 07/56] fix: firewall --port=telnet is not written as --telnet
 where that option has no effect

---
 pykickstart/commands/firewall.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 1fcb893..aaa74e9 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -25,6 +25,9 @@ class FC3_Firewall(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
 
+    # does --telnet open the port in this version?
+    _telnetOption = True
+
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
@@ -49,7 +52,7 @@ class FC3_Firewall(KickstartCommand):
             for port in self.ports:
                 if port == "ssh:tcp":
                     extra.append(" --ssh")
-                elif port == "telnet:tcp":
+                elif port == "telnet:tcp" and self._telnetOption:
                     extra.append(" --telnet")
                 elif port == "smtp:tcp":
                     extra.append(" --smtp")
@@ -159,6 +162,8 @@ class F10_Firewall(F9_Firewall):
     removedKeywords = F9_Firewall.removedKeywords
     removedAttrs = F9_Firewall.removedAttrs
 
+    _telnetOption = False
+
     def __init__(self, writePriority=0, *args, **kwargs):
         F9_Firewall.__init__(self, writePriority, *args, **kwargs)
         self.services = kwargs.get("services", [])
-- 
2.43.0


From 32a2ad3d978ba09d4d63fd0201e004f696fe7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:41 +0000
Subject: [PATCH 08/56] fix: F26 display mode honours the displayMode keyword

---
 pykickstart/commands/displaymode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/displaymode.py b/pykickstart/commands/displaymode.py
index d02aaca..5e8ed4a 100644
--- a/pykickstart/commands/displaymode.py
+++ b/pykickstart/commands/displaymode.py
@@ -79,7 +79,7 @@ class F26_DisplayMode(FC3_DisplayMode):
     removedAttrs = KickstartCommand.removedAttrs
 
     def __init__(self, writePriority=0, *args, **kwargs):
-        FC3_DisplayMode.__init__(self, writePriority, args, kwargs)
+        FC3_DisplayMode.__init__(self, writePriority, *args, **kwargs)
         self.nonInteractive = kwargs.get("nonInteractive", False)
 
     def __str__(self):
-- 
2.43.0


From ef7c0bbe4e140f97811dd3be0f28fe2a86b5e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 09/56] fix: multipath paths of one device are collected in one
 entry

---
 pykickstart/commands/multipath.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..e651efd 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -96,17 +96,19 @@ class FC6_MultiPath(KickstartCommand):
                 if path.device == dd.device:
                     mapping = {"device": path.device, "multipathdev": path.mpdev}
                     raise KickstartParseError(_("Device '%(device)s' is already used in multipath '%(multipathdev)s'") % mapping, lineno=self.lineno)
-            if mpath.name == dd.mpdev:
+            if mpath.name.split('/')[-1] == dd.mpdev:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
+            mpath.lineno = self.lineno
             mpath.paths.append(dd)
             return mpath
         else:
-            mpath = self.mpaths[parent]
-            mpath.paths.append(dd)
-            return dd
+            # The path belongs to an existing multipath device, it must not be
+            # added to the data list as a device of its own.
+            self.mpaths[parent].paths.append(dd)
+            return None
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From 218dd0ebe89362eb1424f50d945d281faf942dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:45 +0000
Subject: [PATCH 10/56] fix: volgroup rejects unknown options and keeps every
 listed partition

---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index 8cdb319..be4cd25 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -146,15 +146,15 @@ class FC3_VolGroup(KickstartCommand):
 
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "volgroup", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        words = ns.name + ns.partitions + extra
+        ns.name = words[:1]
+        ns.partitions = words[1:]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From d2d06a783fc3a542e8fcc1b93ccac048f3c63002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 11/56] fix: raid keeps members listed both before and after an
 option

---
 pykickstart/commands/raid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..ad7993b 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -426,8 +426,8 @@ class FC3_Raid(KickstartCommand):
 
         # because positional argumnets with variable number of values
         # don't parse very well
-        if not ns.partitions and extra:
-            ns.partitions = extra
+        if extra:
+            ns.partitions = ns.partitions + extra
             extra = []
 
         if not ns.format:
-- 
2.43.0


From 9e4839f2c8076c1125709bb4d42a33c0232063d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:09 +0000
Subject: [PATCH 12/56] fix: RHEL7 timezone without a zone keeps its options on
 output

---
 pykickstart/commands/timezone.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..1d0490d 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -216,6 +216,15 @@ class RHEL7_Timezone(F18_Timezone):
         F18_Timezone.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
+    def __str__(self):
+        retval = KickstartCommand.__str__(self)
+        args = self._getArgsAsStr().strip()
+        if args:
+            retval += "# System timezone\n"
+            retval += "timezone " + args + "\n"
+
+        return retval
+
     def _getParser(self):
         op = KSOptionParser(prog="timezone", description="""
                             This required command sets the system time zone to
-- 
2.43.0


From 2764ff349815ba503ba0aae8930a7398bd5b94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 13/56] fix: sections that are only passed through are written
 out as they were read

---
 pykickstart/sections.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..41eaa90 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -30,6 +30,8 @@ is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
 import warnings
+from six.moves import shlex_quote
+
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
                                   KS_MISSING_IGNORE, KS_MISSING_PROMPT, \
@@ -133,11 +135,14 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        # The lines of the body already end with a newline, apart from possibly
+        # the very last line of the file.
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        header = " ".join(shlex_quote(arg) for arg in self._args)
+        s = "%s\n%s%%end\n" % (header, body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 5375d89caa98f1dd433009be9fa430a38fefe2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:21 +0000
Subject: [PATCH 14/56] fix: a group asked for after being excluded is no
 longer listed as excluded

---
 pykickstart/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..78d38ff 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -437,6 +437,10 @@ class Packages(KickstartObject):
 
         return pkgs
 
+    def _cancelGroupExclusion(self, name):
+        # Asking for a group again cancels out an earlier exclusion of it.
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != name]
+
     def _processGroup(self, line):
         op = KSOptionParser(prog="", description="", version=version.DEVEL)
         op.add_argument("--nodefaults", action="store_true", default=False,
@@ -453,6 +457,8 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        self._cancelGroupExclusion(grp)
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -479,6 +485,7 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
+                self._cancelGroupExclusion(stripped[1:])
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
             elif stripped[0] == "-":
-- 
2.43.0


From 645ac03990e01728777a4253499250595c10abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:22 +0000
Subject: [PATCH 15/56] fix: a lone - in the packages section is reported as a
 kickstart error

---
 pykickstart/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 78d38ff..ab41f71 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -488,6 +488,8 @@ class Packages(KickstartObject):
                 self._cancelGroupExclusion(stripped[1:])
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
+            elif stripped == "-":
+                raise KickstartParseError(_("Missing package name after -"))
             elif stripped[0] == "-":
                 if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                     self.environment = None
-- 
2.43.0


From 0841134944236daf597ecdb0686f6a4eb308bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:31 +0000
Subject: [PATCH 16/56] fix: blank lines of an empty script do not leak into
 the next one

---
 pykickstart/sections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 41eaa90..a24e095 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -193,6 +193,7 @@ class ScriptSection(Section):
 
     def finalize(self):
         if " ".join(self._script["body"]).strip() == "":
+            self._resetScript()
             return
 
         kwargs = {"interp": self._script["interp"],
-- 
2.43.0


From 70bb24b79d3affb8c42ef654aa0ea1f90f5e247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 17/56] fix: another parser's syntax version does not change
 how scripts and packages are written

---
 pykickstart/base.py     | 1 +
 pykickstart/sections.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..4303658 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index a24e095..5d4e3f7 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -205,6 +205,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From 51e455501a7e04d7f35da15001740ebff6d9bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 18/56] fix: a section may be opened, continued or closed by an
 included file without losing lines

---
 pykickstart/parser.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index ab41f71..ac04270 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -173,7 +173,7 @@ class PutBackIterator(Iterator):
         self._buf = s
 
     def next(self):
-        if self._buf:
+        if self._buf is not None:
             retval = self._buf
             self._buf = None
             return retval
@@ -670,6 +670,11 @@ class KickstartParser(object):
                         raise KickstartParseError(lineno=lineno)
 
                     self._handleInclude(args[1])
+
+                    # The included file may have closed this section.
+                    if self._state != obj.sectionOpen:
+                        break
+
                     continue
                 elif args and args[0] == "%ksappend":
                     continue
@@ -739,12 +744,25 @@ class KickstartParser(object):
             try:
                 self._line = next(lineIter)
                 if self._line == "":
+                    # An included file may have left a section open.
+                    if self._state in self._sections and self._includeDepth == 0:
+                        lineIter.put(self._line)
+                        self._readSection(lineIter, lineno)
+
                     break
             except StopIteration:
                 break
 
             lineno += 1
 
+            # A section that was opened in another file is still being read.
+            # Everything here belongs to it until it gets closed.
+            if self._state in self._sections and not self._line.isspace():
+                lineIter.put(self._line)
+                lineno -= 1
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
             # Eliminate blank lines, whitespace-only lines, and comments.
             if self._isBlankOrComment(self._line):
                 self._handleSpecialComments(self._line)
@@ -793,10 +811,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From 97266d65975e6aa5ea35e4cd8f0b6069d2bf362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 19/56] fix: resetting a command resets every name it is known
 by

---
 pykickstart/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 4303658..16f8a45 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,16 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+        cmdObj.handler = self
+
+        # Several names may refer to the same command object.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 885cadaeb124885d409ec450290dab6c7c0eaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:24 +0000
Subject: [PATCH 20/56] fix: every accepted version string also selects a
 syntax handler

---
 pykickstart/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..543b8e6 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -196,8 +196,8 @@ def returnClassForVersion(version=DEVEL):
         version = int(version)
         module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
         version = stringToVersion(version)
+        module = "%s" % versionToString(version, skipDevel=True)
 
     module = module.lower()
 
-- 
2.43.0


From 20796d0c9b1b6f34c61669632835d6ba987888cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 21/56] fix: quote script interpreter and log file on output
 when they need it

---
 pykickstart/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index ac04270..d4cf57b 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -44,6 +44,8 @@ import shlex
 import sys
 import warnings
 
+from six.moves import shlex_quote
+
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
 from pykickstart.ko import KickstartObject
@@ -243,11 +245,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex_quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex_quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
-- 
2.43.0


From d53449aa3ab1aab7ff628826e5f3bb81971d9773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 22/56] fix: filesystem labels that need quoting are quoted on
 output

---
 pykickstart/commands/btrfs.py     | 4 +++-
 pykickstart/commands/partition.py | 4 +++-
 pykickstart/commands/raid.py      | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index afbbd7f..616215d 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -18,6 +18,8 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+from six.moves import shlex_quote
+
 from pykickstart.version import F17, F23, RHEL8, versionToLongString
 from pykickstart.base import BaseData, KickstartCommand, DeprecatedCommand
 from pykickstart.errors import KickstartParseError, KickstartParseWarning
@@ -61,7 +63,7 @@ class F17_BTRFSData(BaseData):
         if self.preexist:
             retval += " --useexisting"
         if self.label:
-            retval += " --label=%s" % self.label
+            retval += " --label=%s" % shlex_quote(self.label)
         if self.dataLevel:
             retval += " --data=%s" % self.dataLevel.lower()
         if self.metaDataLevel:
diff --git a/pykickstart/commands/partition.py b/pykickstart/commands/partition.py
index 6305d23..e49a632 100644
--- a/pykickstart/commands/partition.py
+++ b/pykickstart/commands/partition.py
@@ -17,6 +17,8 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+from six.moves import shlex_quote
+
 from pykickstart.version import RHEL5, RHEL6, RHEL8, versionToLongString
 from pykickstart.version import FC3, FC4, F9, F11, F12, F14, F17, F18, F23, F29, F34
 from pykickstart.base import BaseData, KickstartCommand
@@ -111,7 +113,7 @@ class FC4_PartData(FC3_PartData):
         if self.fsopts:
             retval += " --fsoptions=\"%s\"" % self.fsopts
         if self.label:
-            retval += " --label=%s" % self.label
+            retval += " --label=%s" % shlex_quote(self.label)
 
         return retval
 
diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index ad7993b..e23d474 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -18,6 +18,8 @@
 # with the express permission of Red Hat, Inc.
 #
 from textwrap import dedent
+from six.moves import shlex_quote
+
 from pykickstart.version import versionToLongString, RHEL5, RHEL6, FC3, FC4, FC5, F29
 from pykickstart.version import F7, F9, F12, F13, F14, F15, F18, F23, F25, RHEL8
 from pykickstart.base import BaseData, KickstartCommand
@@ -221,7 +223,7 @@ class F15_RaidData(F14_RaidData):
         retval = F14_RaidData._getArgsAsStr(self)
 
         if self.label:
-            retval += " --label=%s" % self.label
+            retval += " --label=%s" % shlex_quote(self.label)
 
         return retval
 
-- 
2.43.0


From cf0a0e9fad2032fba680cad3eb9e67e998ba5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:12 +0000
Subject: [PATCH 23/56] fix: passwords and wireless keys that need quoting are
 quoted on output

---
 pykickstart/commands/iscsi.py   | 6 ++++--
 pykickstart/commands/network.py | 6 ++++--
 pykickstart/commands/rootpw.py  | 5 +++--
 pykickstart/commands/user.py    | 5 +++--
 pykickstart/commands/vnc.py     | 6 ++++--
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pykickstart/commands/iscsi.py b/pykickstart/commands/iscsi.py
index b71e4b8..45f81ea 100644
--- a/pykickstart/commands/iscsi.py
+++ b/pykickstart/commands/iscsi.py
@@ -18,6 +18,8 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+from six.moves import shlex_quote
+
 from pykickstart.version import FC6, F10, RHEL6, F17, versionToLongString
 from pykickstart.base import BaseData, KickstartCommand
 from pykickstart.options import KSOptionParser
@@ -46,7 +48,7 @@ class FC6_IscsiData(BaseData):
         if self.user:
             retval += " --user=%s" % self.user
         if self.password:
-            retval += " --password=%s" % self.password
+            retval += " --password=%s" % shlex_quote(self.password)
 
         return retval
 
@@ -70,7 +72,7 @@ class F10_IscsiData(FC6_IscsiData):
         if self.user_in:
             retval += " --reverse-user=%s" % self.user_in
         if self.password_in:
-            retval += " --reverse-password=%s" % self.password_in
+            retval += " --reverse-password=%s" % shlex_quote(self.password_in)
 
         return retval
 
diff --git a/pykickstart/commands/network.py b/pykickstart/commands/network.py
index 8b348e3..a9dd20d 100644
--- a/pykickstart/commands/network.py
+++ b/pykickstart/commands/network.py
@@ -19,6 +19,8 @@
 #
 from textwrap import dedent
 from pykickstart.base import BaseData, KickstartCommand
+from six.moves import shlex_quote
+
 from pykickstart.version import versionToLongString, RHEL4, RHEL5, RHEL6, RHEL7
 from pykickstart.version import FC3, FC4, FC6, F8, F9, F16, F19, F20, F21, F22, F25, F27
 from pykickstart.constants import BOOTPROTO_BOOTP, BOOTPROTO_DHCP, BOOTPROTO_IBFT, BOOTPROTO_QUERY, BOOTPROTO_STATIC, BIND_TO_MAC
@@ -91,7 +93,7 @@ class FC3_NetworkData(BaseData):
         if not self.onboot:
             retval += " --onboot=off"
         if self.wepkey:
-            retval += " --wepkey=%s" % self.wepkey
+            retval += " --wepkey=%s" % shlex_quote(self.wepkey)
 
         return retval
 
@@ -169,7 +171,7 @@ class F16_NetworkData(F8_NetworkData):
         if self.nodefroute:
             retval += " --nodefroute"
         if self.wpakey:
-            retval += " --wpakey=%s" % self.wpakey
+            retval += " --wpakey=%s" % shlex_quote(self.wpakey)
 
         return retval
 
diff --git a/pykickstart/commands/rootpw.py b/pykickstart/commands/rootpw.py
index 22be1f9..fb54a9d 100644
--- a/pykickstart/commands/rootpw.py
+++ b/pykickstart/commands/rootpw.py
@@ -24,6 +24,7 @@ from pykickstart.options import KSOptionParser
 
 from pykickstart.i18n import _
 
+import re
 import six
 
 class FC3_RootPw(KickstartCommand):
@@ -49,9 +50,9 @@ class FC3_RootPw(KickstartCommand):
         retval = KickstartCommand.__str__(self)
 
         if self.password:
-            if isinstance(self.password, six.binary_type) and b'#' in self.password:
+            if isinstance(self.password, six.binary_type) and re.search(br'[#\s]', self.password):
                 password = '\"' + self.password + '\"'
-            elif not isinstance(self.password, six.binary_type) and u'#' in self.password:
+            elif not isinstance(self.password, six.binary_type) and re.search(u'[#\\s]', self.password):
                 password = '\"' + self.password + '\"'
             else:
                 password = self.password
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index 094ee86..9ee9583 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -23,6 +23,7 @@ from pykickstart.base import BaseData, KickstartCommand
 from pykickstart.options import KSOptionParser, commaSplit
 
 import warnings
+import re
 import six
 from pykickstart.i18n import _
 
@@ -68,9 +69,9 @@ class FC6_UserData(BaseData):
         if self.name:
             retval += " --name=%s" % self.name
         if self.password:
-            if isinstance(self.password, six.binary_type) and b'#' in self.password:
+            if isinstance(self.password, six.binary_type) and re.search(br'[#\s]', self.password):
                 retval += " --password=\"%s\"" % self.password
-            elif not isinstance(self.password, six.binary_type) and u'#' in self.password:
+            elif not isinstance(self.password, six.binary_type) and re.search(u'[#\\s]', self.password):
                 retval += " --password=\"%s\"" % self.password
             else:
                 retval += " --password=%s" % self.password
diff --git a/pykickstart/commands/vnc.py b/pykickstart/commands/vnc.py
index cbabdff..1002533 100644
--- a/pykickstart/commands/vnc.py
+++ b/pykickstart/commands/vnc.py
@@ -17,6 +17,8 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+from six.moves import shlex_quote
+
 from pykickstart.version import FC3, FC6, F9
 from pykickstart.base import KickstartCommand
 from pykickstart.options import KSOptionParser
@@ -44,7 +46,7 @@ class FC3_Vnc(KickstartCommand):
         if self.connect:
             retval += " --connect=%s" % self.connect
         if self.password:
-            retval += " --password=%s" % self.password
+            retval += " --password=%s" % shlex_quote(self.password)
 
         return retval + "\n"
 
@@ -97,7 +99,7 @@ class FC6_Vnc(FC3_Vnc):
             if self.port:
                 retval += " --port=%s" % self.port
         if self.password:
-            retval += " --password=%s" % self.password
+            retval += " --password=%s" % shlex_quote(self.password)
 
         return retval + "\n"
 
-- 
2.43.0


From 4c7a20a1cc5157158ecd8cefa29cf0f962ea87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 24/56] fix: a later url command replaces the source of an
 earlier one of another kind

---
 pykickstart/commands/url.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/commands/url.py b/pykickstart/commands/url.py
index f10cb0a..ffad259 100644
--- a/pykickstart/commands/url.py
+++ b/pykickstart/commands/url.py
@@ -195,6 +195,10 @@ class F18_Url(F14_Url):
             mapping = {"options_list": ", ".join((opt for opt in used_options))}
             raise KickstartParseError(_("Only one of %(options_list)s options may be specified for url command.") % mapping, lineno=self.lineno)
 
+        # A later url command replaces the source given by an earlier one.
+        for attr, _opt in self.exclusive_required_options:
+            setattr(self, attr, getattr(ns, attr, None))
+
         return retval
 
 class F27_Url(F18_Url):
-- 
2.43.0


From bd5a0a649890b37f1269c9508e516386e3e757fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:55 +0000
Subject: [PATCH 25/56] fix: an unused lilo command does not override the
 bootloader on output

---
 pykickstart/commands/bootloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..418e24c 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -157,6 +157,14 @@ class FC3_Lilo(FC3_Bootloader):
         This is for backwards compatibility and docs generation.
         Used only in FC3, RHEL3 and RHEL4.
     """
+    def __str__(self):
+        # This is written as a bootloader command, and must not override the
+        # real one unless lilo was asked for.
+        if not self.seen:
+            return ""
+
+        return super(FC3_Lilo, self).__str__()
+
     def _getParser(self):
         op = super(FC3_Lilo, self)._getParser()
         op.prog = "lilo"
-- 
2.43.0


From ada4ebc44101b814f91a31bee87c3da328786277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:55 +0000
Subject: [PATCH 26/56] fix: a later packages section with --nobase or --nocore
 overrides an earlier --default

---
 pykickstart/sections.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 5d4e3f7..3c93b37 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -752,6 +752,10 @@ class PackageSection(Section):
         if ns.defaultPackages and getattr(ns, "nobase", False):
             raise KickstartParseError(_("--default and --nobase cannot be used together"), lineno=lineno)
 
+        # A later section takes precedence over what an earlier one asked for.
+        if getattr(ns, "nobase", False):
+            self.handler.packages.default = False
+
         self.handler.packages.addBase = not getattr(ns, "nobase", False)
 
         if self.version < F18:
@@ -765,6 +769,9 @@ class PackageSection(Section):
         if ns.defaultPackages and ns.nocore:
             raise KickstartParseError(_("--default and --nocore cannot be used together"), lineno=lineno)
 
+        if ns.nocore:
+            self.handler.packages.default = False
+
         self.handler.packages.nocore = ns.nocore
 
         if self.version < RHEL7:
-- 
2.43.0


From 42d26291328801cc48fdac4f7a88ba8c69724bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 27/56] fix: RHEL7 timezone without a zone can be written

---
 pykickstart/commands/timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 1d0490d..7e4d535 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -125,7 +125,7 @@ class F18_Timezone(FC6_Timezone):
         return retval
 
     def _getArgsAsStr(self):
-        retval = self.timezone
+        retval = self.timezone or ""
 
         if self.isUtc:
             retval += " --isUtc"
-- 
2.43.0


From 3d14a648622fa98a367e45499cdbf127998b6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 28/56] fix: timezone --ntpservers keeps the order of the
 servers when dropping duplicates

---
 pykickstart/commands/timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 7e4d535..02bec6f 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -165,7 +165,7 @@ class F18_Timezone(FC6_Timezone):
         FC6_Timezone.parse(self, args)
 
         # NTP servers can only be listed once in F18, so weed out the duplicates now.
-        self.ntpservers = list(set(self.ntpservers))
+        self.ntpservers = list(dict.fromkeys(self.ntpservers))
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From bed47eb080dd15335cffc9f6c4baf231cae1e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:38 +0000
Subject: [PATCH 29/56] fix: autopart after volgroup is rejected in every
 version that rejects the opposite order

---
 pykickstart/commands/autopart.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pykickstart/commands/autopart.py b/pykickstart/commands/autopart.py
index 9e00d43..0f65e25 100644
--- a/pykickstart/commands/autopart.py
+++ b/pykickstart/commands/autopart.py
@@ -243,6 +243,17 @@ class F16_AutoPart(F12_AutoPart):
                         help="Don't use LVM when partitioning.")
         return op
 
+    def parse(self, args):
+        retval = F12_AutoPart.parse(self, args)
+
+        # volgroup refuses to follow autopart as of F16, so the opposite order
+        # is refused as well
+        if self.handler.volgroup.seen:
+            errorMsg = _("The %s and autopart commands can't be used at the same time") % "volgroup"
+            raise KickstartParseError(errorMsg, lineno=self.lineno)
+
+        return retval
+
 class F17_AutoPart(F16_AutoPart):
     def __init__(self, writePriority=100, *args, **kwargs):
         self.typeMap = {"lvm": AUTOPART_TYPE_LVM,
-- 
2.43.0


From 1da1963ec346b64cef0202960787cdcfbab1ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:13 +0000
Subject: [PATCH 30/56] fix: packages --instLangs=value warns like --instLangs
 value

---
 pykickstart/sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 3c93b37..2fdc848 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -795,7 +795,7 @@ class PackageSection(Section):
 
         for option, new_option in \
                 {"--instLangs": "--inst-langs", "--excludeWeakdeps": "--exclude-weakdeps"}.items():
-            if option in args:
+            if any(arg.split("=", 1)[0] == option for arg in args):
                 warnings.warn(_("The %(option)s option on line %(lineno)s will be deprecated in "
                                 "future releases. Please modify your kickstart file to replace "
                                 "this option with its preferred alias %(new_option)s.")
-- 
2.43.0


From 142e19a6238c230a476c196ca8274b530e31ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 31/56] fix: a section that was given up on does not leak its
 lines into the next one

---
 pykickstart/sections.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 2fdc848..e39a997 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -129,6 +129,8 @@ class NullSection(Section):
         self._body = []
 
     def handleHeader(self, lineno, args):
+        # Forget about an earlier section whose reading was given up.
+        self._body = []
         self._args = args
 
     def handleLine(self, line):
@@ -215,6 +217,10 @@ class ScriptSection(Section):
            This method may be overridden in a subclass if necessary.
         """
         Section.handleHeader(self, lineno, args)
+
+        # Forget about an earlier script whose reading was given up.
+        self._resetScript()
+
         op = self._getParser()
 
         ns = op.parse_args(args=args[1:], lineno=lineno)
-- 
2.43.0


From 3337f25545fbb0db95f4545f4efefc7d118f6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 32/56] fix: ksvalidator does not report success for a multiple
 of 256 errors

---
 tools/ksvalidator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..8978319 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -121,4 +121,5 @@ if __name__ == "__main__":
     retval, messages = main(sys.argv[1:])
     for msg in messages:
         print(msg)
-    sys.exit(retval)
+    # Only eight bits of the exit status get reported.
+    sys.exit(min(retval, 255))
-- 
2.43.0


From da490887c34f034e86b7cd740de8c0b248154a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 33/56] fix: ksvalidator and ksshell accept an empty input file

---
 tools/ksshell.py     | 6 ++++--
 tools/ksvalidator.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..ed0776f 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -172,8 +172,10 @@ def main(argv=None):
     if opts.input:
         try:
             processedFile = preprocessKickstart(opts.input)
-            ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
+            # There is nothing to read if the file is empty.
+            if processedFile is not None:
+                ksparser.readKickstart(processedFile)
+                os.remove(processedFile)
         except KickstartError as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8978319..898e0f7 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -103,7 +103,9 @@ def main(argv):
 
     try:
         processedFile = preprocessKickstart(f)
-        ksparser.readKickstart(processedFile)
+        # There is nothing to read if the file is empty.
+        if processedFile is not None:
+            ksparser.readKickstart(processedFile)
         return (cleanup(destdir, processedFile, exitval=ksparser.errorsCount), [])
     except KickstartDeprecationWarning as err:
         return (cleanup(destdir, processedFile),
-- 
2.43.0


From 935769e2cb28f2ee15e9fa58dac8b683af120bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 34/56] fix: ksshell .clear also applies to sections read
 afterwards

---
 tools/ksshell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index ed0776f..e0a8952 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -61,6 +61,8 @@ class ClearCommand(InternalCommand):
     def execute(self, parser):
         version = parser.version
         parser.handler = makeVersion(version)
+        # The sections have to store their data in the new handler, too.
+        parser.setupSections()
 
 class QuitCommand(InternalCommand):
     def execute(self, parser):
-- 
2.43.0


From d20fac42b02afa9e14a2e391accaa74d7dd723b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 35/56] fix: ksshell survives a line with unbalanced quotes

---
 tools/ksshell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index e0a8952..404628a 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -233,7 +233,8 @@ def main(argv=None):
         # extremely short one.
         try:
             ksparser.readKickstartFromString(line)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
+            # A ValueError is what unbalanced quotes end up as.
             print(e)
 
     # And finally, print the output kickstart file.
-- 
2.43.0


From 65821f410cc7c91dd1a087be95729d0439774de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 36/56] fix: a file that is not valid UTF-8 is reported as a
 kickstart error

---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..b705115 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, UnicodeError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
-- 
2.43.0


From 3045cc909f0e5c989023fb8e39329f74123cb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:48 +0000
Subject: [PATCH 37/56] fix: a kickstart file fetched without a declared
 charset is decoded as UTF-8

---
 pykickstart/load.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index b705115..3d2a076 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -83,6 +83,10 @@ def _load_url(location):
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))
 
+    # Kickstart files are in UTF-8, unless the server knows better.
+    if "charset" not in request.headers.get("content-type", "").lower():
+        request.encoding = "utf-8"
+
     return request.text
 
 def _load_file(filename):
-- 
2.43.0


From 47ef75ccb9dff4284258edb0e50a5aee435d02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:04 +0000
Subject: [PATCH 38/56] fix: a rejected timezone line leaves the command
 writable

---
 pykickstart/commands/timezone.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 02bec6f..9701614 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -74,13 +74,13 @@ class FC3_Timezone(KickstartCommand):
     # by a new implementation not calling this method.
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
         assert len(ns.timezone) == 1
 
         if extra:
             mapping = {"command": "timezone", "options": extra}
             raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
 
+        self.set_to_self(ns)
         self.timezone = ns.timezone[0]
         return self
 
@@ -268,6 +268,11 @@ class RHEL7_Timezone(F18_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
+
+        if len(ns.timezone) > 1:
+            error_message = _("One or zero arguments are expected for the %s command") % "timezone"
+            raise KickstartParseError(error_message, lineno=self.lineno)
+
         self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
@@ -285,9 +290,6 @@ class RHEL7_Timezone(F18_Timezone):
 
         if len(ns.timezone) == 1:
             self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
-            error_message = _("One or zero arguments are expected for the %s command") % "timezone"
-            raise KickstartParseError(error_message, lineno=self.lineno)
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
@@ -369,6 +371,11 @@ class F25_Timezone(F23_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
+
+        if len(ns.timezone) > 1:
+            error_message = _("One or zero arguments are expected for the %s command") % "timezone"
+            raise KickstartParseError(error_message, lineno=self.lineno)
+
         self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
@@ -386,9 +393,6 @@ class F25_Timezone(F23_Timezone):
 
         if len(ns.timezone) == 1:
             self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
-            error_message = _("One or zero arguments are expected for the %s command") % "timezone"
-            raise KickstartParseError(error_message, lineno=self.lineno)
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From 12f1d16bc1c4a0382b1099fe6c7af9b63c1cfb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 39/56] fix: every nvdimm parse error names its line

---
 pykickstart/commands/nvdimm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..d90eba9 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,8 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"),
+                                      lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +154,14 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode}, lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From c1f2e08c3759dc57b27e5f62c3da4336d77b4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 40/56] fix: a realm line may be indented, commented and quoted
 like any other

---
 pykickstart/commands/realm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..776191d 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -24,7 +24,6 @@ from pykickstart.errors import KickstartParseError
 
 import getopt
 import pipes
-import shlex
 
 from pykickstart.i18n import _
 
@@ -38,15 +37,14 @@ class F19_Realm(KickstartCommand):
         self.join_args = []
         self.discover_options = []
 
-    def _parseArguments(self, string):
+    def _parseArguments(self, args):
         if self.join_realm:
             raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
-        args = shlex.split(string)
         if not args:
             raise KickstartParseError(_("Missing realm command arguments"), lineno=self.lineno)
-        command = args.pop(0)
+        command = args[0]
         if command == "join":
-            self._parseJoin(args)
+            self._parseJoin(args[1:])
         else:
             raise KickstartParseError(_("Unsupported realm '%s' command") % command, lineno=self.lineno)
 
@@ -97,7 +95,7 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine[len(self.currentCmd):].strip())
+        self._parseArguments(args)
         return self
 
     def _getParser(self):
-- 
2.43.0


From c85b39877be7578e7b086fe02710a4a2b5824ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 41/56] fix: an indented auth or authselect line means the same
 as one at the margin

---
 pykickstart/commands/authconfig.py | 2 +-
 pykickstart/commands/authselect.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index e0895a6..d78cc83 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -43,7 +43,7 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine[len(self.currentCmd):].strip()
+        self.authconfig = self.currentLine.lstrip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index a1caa52..2d8da46 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -39,7 +39,7 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine[len(self.currentCmd):].strip()
+        self.authselect = self.currentLine.lstrip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
-- 
2.43.0


From 25fe74c2cf6f6d44fc49c7d26f65d719f8399fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 42/56] fix: a comment after %end may contain a quote

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index d4cf57b..8c84069 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -661,7 +661,7 @@ class KickstartParser(object):
                     obj.handleLine(line)
                     continue
 
-                args = shlex.split(line)
+                args = shlex.split(line, comments=True)
 
                 if args and args[0] == "%end":
                     # This is a properly terminated section.
-- 
2.43.0


From 04f4d9854abcda8881b98f2fc387138285ffcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:32 +0000
Subject: [PATCH 43/56] fix: xconfig with the deprecated --depth can be written

---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 198fc9d..6a3663a 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -121,7 +121,7 @@ class FC6_XConfig(FC3_XConfig):
         if self.defaultdesktop:
             retval += " --defaultdesktop=%s" % self.defaultdesktop
         if self.depth != 0:
-            retval += " --depth=%d" % self.depth
+            retval += " --depth=%s" % self.depth
         if hasattr(self, "resolution") and self.resolution:
             retval += " --resolution=%s" % self.resolution
         if self.startX:
-- 
2.43.0


From 0d79d02fbce6d9193698e4351e934c6418ba351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 44/56] fix: loading reports every bad location and stores
 UTF-8 in any locale

---
 pykickstart/load.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 3d2a076..8cf40bb 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -17,6 +17,7 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+import io
 import requests
 import shutil
 import six
@@ -60,7 +61,8 @@ def load_to_file(location, destination):
 
         # Write to file
         try:
-            with open(destination, 'w') as fh:
+            # A kickstart file is UTF-8, whatever the locale.
+            with io.open(destination, 'w', encoding='utf-8', newline='') as fh:
                 fh.write(contents)
         except IOError as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
@@ -77,7 +79,7 @@ def _load_url(location):
         request = requests.get(location, verify=SSL_VERIFY)
     except SSLError as e:
         raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
-    except RequestException as e:
+    except (RequestException, ValueError) as e:     # ValueError: not a URL after all
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
@@ -99,7 +101,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except (IOError, UnicodeError) as e:
+    except (IOError, ValueError) as e:              # ValueError: neither a file name nor UTF-8
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
@@ -109,5 +111,5 @@ def _copy_file(filename, destination):
 
     try:
         shutil.copyfile(filename, destination)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, ValueError) as e:
         raise KickstartError(_('Error copying file: %s') % str(e))
-- 
2.43.0


From 75600c2a7b14f39eb6b9d728c61288e0841beb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 45/56] fix: ksflatten writes UTF-8 in any locale

---
 tools/ksflatten.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksflatten.py b/tools/ksflatten.py
index 331ea2d..74c6060 100755
--- a/tools/ksflatten.py
+++ b/tools/ksflatten.py
@@ -62,7 +62,8 @@ def main(argv=None):
 
     if opts.output:
         try:
-            f = open(opts.output, 'w')
+            # A kickstart file is UTF-8, whatever the locale.
+            f = open(opts.output, 'w', encoding='utf-8')
         except IOError as msg:
             return (1, _("Failed to open output file '%(filename)s' : %(error_msg)s") % {"filename": opts.output, "error_msg": msg})
     else:
-- 
2.43.0


From 59bf04f3f38250ece98a67868327d4fd8e9c68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 46/56] fix: ksshell survives an input file with unbalanced
 quotes and cleans up after a bad one

---
 tools/ksshell.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 404628a..495fdb4 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -176,9 +176,11 @@ def main(argv=None):
             processedFile = preprocessKickstart(opts.input)
             # There is nothing to read if the file is empty.
             if processedFile is not None:
-                ksparser.readKickstart(processedFile)
-                os.remove(processedFile)
-        except KickstartError as e:
+                try:
+                    ksparser.readKickstart(processedFile)
+                finally:
+                    os.remove(processedFile)
+        except (KickstartError, ValueError) as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
 
@@ -239,7 +241,8 @@ def main(argv=None):
 
     # And finally, print the output kickstart file.
     if opts.output:
-        with open(opts.output, "w") as fd:
+        # A kickstart file is UTF-8, whatever the locale.
+        with open(opts.output, "w", encoding="utf-8") as fd:
             fd.write(str(ksparser.handler))
     else:
         print("\n" + str(ksparser.handler))
-- 
2.43.0


From 4fa7d7c907e2a4dd799444f9de08fcb2d0aad0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:38 +0000
Subject: [PATCH 47/56] fix: ksverdiff compares the options of commands that
 take none in one version

---
 tools/ksverdiff.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 5f59a71..e8bf722 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -33,7 +33,8 @@ def getCommandSet(handler):
     return set(handler.commands.keys())
 
 def getOptSet(lst):
-    return set(map(lambda o: o.option_strings[0] if o.option_strings else '', lst))
+    # Operands are not options.
+    return set(o.option_strings[0] for o in lst if o.option_strings)
 
 def printList(lst):
     print(' '.join(lst))
@@ -92,11 +93,13 @@ def main(argv=None):
         fromCmd = fromHandler.commands[cmd]
         toCmd = toHandler.commands[cmd]
 
-        if not hasattr(fromCmd, "op") or not hasattr(toCmd, "op"):
+        # The command as a whole was already reported, if it ends up here.
+        if isinstance(fromCmd, (DeprecatedCommand, RemovedCommand)) or isinstance(toCmd, (DeprecatedCommand, RemovedCommand)):
             continue
 
-        fromOpt = fromCmd.op._actions
-        toOpt = toCmd.op._actions
+        # A command without an option parser does not take any options.
+        fromOpt = fromCmd.op._actions if hasattr(fromCmd, "op") else []
+        toOpt = toCmd.op._actions if hasattr(toCmd, "op") else []
 
         newOptList = getOptSet(toOpt) - getOptSet(fromOpt)
         removedOptList = getOptSet(fromOpt) - getOptSet(toOpt)
-- 
2.43.0


From 286458080fd630ea3949170a71347c8607c40764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 48/56] fix: a bad destination of a download is reported as a
 kickstart error

---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 8cf40bb..fb33493 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -64,7 +64,7 @@ def load_to_file(location, destination):
             # A kickstart file is UTF-8, whatever the locale.
             with io.open(destination, 'w', encoding='utf-8', newline='') as fh:
                 fh.write(contents)
-        except IOError as e:
+        except (IOError, ValueError) as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
 
         return destination
-- 
2.43.0


From 83f55282fab8d44849da0318e183fd21b24cc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 49/56] fix: logging settings given as keywords or attributes
 are written

---
 pykickstart/commands/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/logging.py b/pykickstart/commands/logging.py
index 22e2e75..2fcdb52 100644
--- a/pykickstart/commands/logging.py
+++ b/pykickstart/commands/logging.py
@@ -43,7 +43,8 @@ class FC6_Logging(KickstartCommand):
     def __str__(self):
         retval = KickstartCommand.__str__(self)
 
-        if self.level and self._level_provided:
+        # The settings may also have been given as attributes or keywords.
+        if self.level and (self._level_provided or self.seen or self.host or self.level != "info"):
             retval += "# Installation logging level\nlogging --level=%s" % self.level
 
             if self.host:
-- 
2.43.0


From 6de79540433836f9a843d3bc2195765641d58ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 50/56] fix: the rescue command can be created with its rescue
 setting

---
 pykickstart/commands/rescue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/rescue.py b/pykickstart/commands/rescue.py
index b3ffaa1..493c753 100644
--- a/pykickstart/commands/rescue.py
+++ b/pykickstart/commands/rescue.py
@@ -32,7 +32,7 @@ class F10_Rescue(KickstartCommand):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
-        self.rescue = False
+        self.rescue = kwargs.get("rescue", False)
         self.nomount = kwargs.get("nomount", False)
         self.romount = kwargs.get("romount", False)
 
-- 
2.43.0


From 06d6dca05e0b134821ccf14bb9b373d8bc475796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 51/56] fix: the realm command can be created with its settings

---
 pykickstart/commands/realm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 776191d..d596234 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -33,9 +33,9 @@ class F19_Realm(KickstartCommand):
 
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
-        self.join_realm = None
-        self.join_args = []
-        self.discover_options = []
+        self.join_realm = kwargs.get("join_realm", None)
+        self.join_args = kwargs.get("join_args", [])
+        self.discover_options = kwargs.get("discover_options", [])
 
     def _parseArguments(self, args):
         if self.join_realm:
-- 
2.43.0


From 9fb53c995540a70a4b751ccbeeb7a5533ec6fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 52/56] fix: keyboard from F18 on can be created with its
 keyboard setting

---
 pykickstart/commands/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/keyboard.py b/pykickstart/commands/keyboard.py
index 38d1fc2..4d9727b 100644
--- a/pykickstart/commands/keyboard.py
+++ b/pykickstart/commands/keyboard.py
@@ -65,7 +65,7 @@ class F18_Keyboard(FC3_Keyboard):
     def __init__(self, writePriority=0, *args, **kwargs):                # pylint: disable=super-init-not-called
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)  # pylint: disable=non-parent-init-called
         self.op = self._getParser()
-        self._keyboard = kwargs.get("_keyboard", "")
+        self._keyboard = kwargs.get("_keyboard", kwargs.get("keyboard", ""))
         self.vc_keymap = kwargs.get("vc_keymap", "")
         self.x_layouts = kwargs.get("x_layouts", [])
         self.switch_options = kwargs.get("switch_options", [])
-- 
2.43.0


From bc01bad6c0735b78f0bb42fbaac3a5da530c8530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 53/56] fix: removing an option removes all its spellings

---
 pykickstart/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index cf30c2b..77ba735 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -255,7 +255,8 @@ class KSOptionParser(ArgumentParser):
                 candidate.help = ""
             candidate.help += "\n\n    .. versionremoved:: %s" % versionToLongString(kwargs.pop("version"))
             self._remove_action(candidate)
-            self._option_string_actions.pop(arg)
+            for option_string in candidate.option_strings:
+                self._option_string_actions.pop(option_string, None)
 
     def error(self, message):
         # Overridden to turn errors into KickstartParseErrors.
-- 
2.43.0


From 71147fdc0c458e6129d18a6f830c22c3d62e3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:10 +0000
Subject: [PATCH 54/56] fix: a line starting with an empty word is reported as
 an unknown command

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 8c84069..26703a0 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -785,7 +785,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From f93bb6ba97b64b74ce2425434352f4f1547b5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:51 +0000
Subject: [PATCH 55/56] fix: the reference of RHEL7 and F25 dates timezone
 --utc to the version that introduced it

---
 pykickstart/commands/timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 9701614..b18addb 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -237,7 +237,7 @@ class RHEL7_Timezone(F18_Timezone):
                         to be used if no timezone is specified.
                         """)
         op.add_argument("--utc", "--isUtc", dest="isUtc", action="store_true",
-                        default=False, version=FC6, help="""
+                        default=False, version=FC3, help="""
                         If present, the system assumes the hardware clock is set
                         to UTC (Greenwich Mean) time.
 
@@ -340,7 +340,7 @@ class F25_Timezone(F23_Timezone):
                         to be used if no timezone is specified.
                         """)
         op.add_argument("--utc", "--isUtc", dest="isUtc", action="store_true",
-                        default=False, version=FC6, help="""
+                        default=False, version=FC3, help="""
                         If present, the system assumes the hardware clock is set
                         to UTC (Greenwich Mean) time.
 
-- 
2.43.0


From b86a5d54df4abc6120ffc079adf6ac804823c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 56/56] fix: a disabled time source does not equal every other
 one

---
 pykickstart/commands/timesource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/timesource.py b/pykickstart/commands/timesource.py
index 10778b6..d038829 100644
--- a/pykickstart/commands/timesource.py
+++ b/pykickstart/commands/timesource.py
@@ -45,7 +45,7 @@ class F33_TimesourceData(BaseData):
             # given that one of ntp_server/ntp_pool/ntp_disable is required
             # this will be --ntp_disable & such timesource invocations will
             # always be the same by definition
-            return True
+            return not (y.ntp_server or y.ntp_pool)
 
     def __ne__(self, y):
         return not self == y
-- 
2.43.0

