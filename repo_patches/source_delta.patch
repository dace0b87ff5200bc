From 292c1bafe4cef5ebe1beb071597cd561689893c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 01/64] fix: uninstall the replaced version by name when
 upgrading a package

Environment.install() passed the new package object to uninstall(), which
looks names up: every upgrade or downgrade failed with NotInstalled.
---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d72abc8..eaab527 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -353,7 +353,7 @@ class Environment(object):
                     # Different version/revision, uninstall it
                     LOGGER.debug('Another version of %r is installed, '
                                  'uninstalling it first' % package)
-                    self.uninstall(package)
+                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-- 
2.43.0


From f3ef606c772c8e90c07f2aa0fb3dfa3611043c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 02/64] fix: keep the installed version until the dependencies
 of its replacement are there

When a dependency of the new version could not be installed, the old
version was already gone.
---
 ipkg/environments.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index eaab527..4da0da9 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -340,6 +340,7 @@ class Environment(object):
             raise IpkgException('Invalid package: %r' % package)
 
         # Check if the package is already installed
+        replace = False
         for installed_package in self.meta['packages'].values():
             if installed_package['name'] == package.name:
                 # Package already installed
@@ -350,10 +351,8 @@ class Environment(object):
                                    ' is already installed' % package.meta)
                     return
                 else:
-                    # Different version/revision, uninstall it
-                    LOGGER.debug('Another version of %r is installed, '
-                                 'uninstalling it first' % package)
-                    self.uninstall(package.name)
+                    # Different version/revision, replace it
+                    replace = True
                 break
 
         # Install dependencies
@@ -363,6 +362,11 @@ class Environment(object):
                     LOGGER.info('Installing dependency: %s', dependency)
                     self.install(dependency, repository)
 
+        if replace:
+            LOGGER.debug('Another version of %r is installed, '
+                         'uninstalling it first' % package)
+            self.uninstall(package.name)
+
         package.extract(self.prefix)
 
         # Rewrite files prefix if this environment prefix is different than
-- 
2.43.0


From eedb1d197d4dcdc9ca6461c108d9356456142233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 03/64] fix: match dependencies as requirements against the
 installed packages

Dependencies are requirements ('foo>=1,<2'), but they were looked up as plain
names: installed packages satisfying a versioned dependency were replaced or
reported missing, and building with such a dependency in a non-empty
environment failed with InvalidPackage. A file named like a dependency in the
current directory was taken for the package.
---
 ipkg/build.py        |  2 +-
 ipkg/environments.py | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 9fa1a90..f6365b3 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -162,7 +162,7 @@ class Formula(NameVersionRevisionComparable):
             LOGGER.info('Build dependencies: %s',
                         ', '.join(self.dependencies))
             for dependency in self.dependencies:
-                if dependency not in self.environment.packages:
+                if not self.environment.satisfies(dependency):
                     self.environment.install(dependency, repository)
                     installed_dependencies.append(dependency)
 
diff --git a/ipkg/environments.py b/ipkg/environments.py
index 4da0da9..8bc2b28 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -11,6 +11,7 @@ from .utils import DictFile, execute, make_package_spec, mkdir
 from .compat import basestring
 from .files.exceptions import FilesException
 from .platforms import Platform
+from .requirements import Requirement
 
 
 LOGGER = logging.getLogger(__name__)
@@ -358,9 +359,12 @@ class Environment(object):
         # Install dependencies
         if package.dependencies:
             for dependency in package.dependencies:
-                if dependency not in self.meta['packages']:
+                if not self.satisfies(dependency):
                     LOGGER.info('Installing dependency: %s', dependency)
-                    self.install(dependency, repository)
+                    if repository is None:
+                        raise IpkgException('Cannot find package %s' %
+                                            dependency)
+                    self.install(repository[dependency], repository)
 
         if replace:
             LOGGER.debug('Another version of %r is installed, '
@@ -392,6 +396,12 @@ class Environment(object):
 
         LOGGER.info('Package %s installed', make_package_spec(package))
 
+    def satisfies(self, requirement):
+        """Returns ``True`` if an installed package satisfies ``requirement``.
+        """
+        requirement = Requirement(requirement)
+        return any(requirement.satisfied_by(p) for p in self.packages)
+
     @property
     def packages(self):
         return map(MetaPackage, self.meta['packages'].values())
-- 
2.43.0


From ccf1f27ee9b27aa6ffb97df49f2c9046efc8f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 04/64] fix: report dependency loops when installing instead of
 recursing forever

---
 ipkg/environments.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 8bc2b28..0f4ff07 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -319,7 +319,7 @@ class Environment(object):
 
         LOGGER.info('Package %s uninstalled', package)
 
-    def install(self, package, repository=None):
+    def install(self, package, repository=None, dependents=()):
         """Install a package.
         """
         LOGGER.info('Installing %s', package)
@@ -340,6 +340,10 @@ class Environment(object):
         if not isinstance(package, MetaPackage):
             raise IpkgException('Invalid package: %r' % package)
 
+        if package.name in dependents:
+            raise IpkgException('Dependency loop: %s requires itself' %
+                                package.name)
+
         # Check if the package is already installed
         replace = False
         for installed_package in self.meta['packages'].values():
@@ -364,7 +368,8 @@ class Environment(object):
                     if repository is None:
                         raise IpkgException('Cannot find package %s' %
                                             dependency)
-                    self.install(repository[dependency], repository)
+                    self.install(repository[dependency], repository,
+                                 dependents + (package.name,))
 
         if replace:
             LOGGER.debug('Another version of %r is installed, '
-- 
2.43.0


From 57f0bb0743a941a5d98715437b0979d1c0d9d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 05/64] fix: accept pkg-config and libtool files without the
 line to rewrite

Rewriting such a file raised IndexError, so its package could not be
installed.
---
 ipkg/prefix_rewriters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index cd1960b..221d9bc 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -43,7 +43,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
         lines = f.readlines()
 
     with open(file_path, 'w') as f:
-        while True:
+        while lines:
             line = lines.pop(0)
 
             if line.startswith(line_start):
-- 
2.43.0


From 304931098dfd08095d163459cb8ecbe3e0a354c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 06/64] fix: rewrite the prefix of read-only files too

Packages containing scripts, pkg-config or libtool files without the write
permission could only be installed by root.
---
 ipkg/prefix_rewriters.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 221d9bc..3738cb7 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -1,6 +1,7 @@
 import os
 import stat
 import logging
+from contextlib import contextmanager
 
 from .utils import execute, PIPE
 from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
@@ -34,6 +35,23 @@ def rewrite_prefix(package_file, build_prefix, install_prefix):
             #             'cannot detect file type', file_path)
 
 
+@contextmanager
+def open_for_rewrite(file_path):
+    """Open a file for writing, even when its permissions forbid it.
+    """
+    mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    writable = mode & stat.S_IWRITE
+
+    if not writable:
+        os.chmod(file_path, mode | stat.S_IWRITE)
+
+    with open(file_path, 'w') as f:
+        yield f
+
+    if not writable:
+        os.chmod(file_path, mode)
+
+
 def rewrite_text_first_match(file_path, line_start, build_prefix,
                              install_prefix):
     """Rewrite the prefix. Only apply to the first line starting with
@@ -42,7 +60,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     with open(file_path, 'r') as f:
         lines = f.readlines()
 
-    with open(file_path, 'w') as f:
+    with open_for_rewrite(file_path) as f:
         while lines:
             line = lines.pop(0)
 
@@ -83,7 +101,7 @@ def rewrite_text_first_line(file_path, build_prefix, install_prefix):
 
     first_line = first_line.replace(build_prefix, install_prefix)
 
-    with open(file_path, 'w') as f:
+    with open_for_rewrite(file_path) as f:
         f.write(first_line)
         f.writelines(other_lines)
 
-- 
2.43.0


From eb0d52698dba4c92f628de42d75c63d042727079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 07/64] fix: use package variables that are not format strings
 as they are

A value such as '50%' made the installation fail after the package had been
recorded, and then every later attempt to open the environment.
---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 0f4ff07..c8211cf 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -233,7 +233,7 @@ class EnvironmentVariables(dict):
         for var_name, var_value in variables.items():
             try:
                 var_value = var_value % self.__directories
-            except KeyError:
+            except (KeyError, ValueError, TypeError):
                 # invalid format string ?
                 pass
 
-- 
2.43.0


From 698fd902cf9c90403b62fddb4ccbb4bf21492117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 08/64] fix: empty a DictFile even when its file does not exist

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index c1ab436..cdb9e2b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -76,7 +76,7 @@ class DictFile(dict):
         """
         if os.path.isfile(self.__file_path):
             os.unlink(self.__file_path)
-            super(DictFile, self).clear()
+        super(DictFile, self).clear()
 
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
-- 
2.43.0


From 60a0b4b7f33772fa7da3a20266abca3d75f15082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 09/64] fix: never leave a truncated file behind when saving a
 DictFile

The file was emptied, then written: a process dying in between (or contents
which cannot be stored) lost the list of the installed packages of an
environment, or the index of a repository.
---
 ipkg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index cdb9e2b..d48a35d 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -81,8 +81,11 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        with open(self.__file_path, 'w') as f:
+        # Write a new file first: the previous one must survive any failure
+        temporary_path = self.__file_path + '.new'
+        with open(temporary_path, 'w') as f:
             json.dump(self, f, indent=4)
+        os.rename(temporary_path, self.__file_path)
 
 
 def execute(command,
-- 
2.43.0


From 1e5e06cea351aa2c6bcf0e199b53918092b21a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 10/64] fix: load remote DictFiles

Only files of the local filesystem were loaded, so the index of a package
repository accessed over HTTP was always empty.
---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index d48a35d..8b0f323 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -60,7 +60,7 @@ class DictFile(dict):
         self.reload()
 
     def reload(self):
-        if os.path.isfile(self.__file_path):
+        if '://' in self.__file_path or os.path.isfile(self.__file_path):
             LOGGER.debug('Loading %s', self.__file_path)
             raw = vopen(self.__file_path).read()
             if raw:
-- 
2.43.0


From 29a65523dd6b2dcb608d0bf2a8601e2f3205b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 11/64] fix: refuse DictFiles whose JSON content is not an
 object

---
 ipkg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 8b0f323..1390fd9 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -68,8 +68,9 @@ class DictFile(dict):
                     data = json.loads(raw)
                 except ValueError:
                     raise InvalidDictFileContent(self.__file_path)
-                else:
-                    self.update(data)
+                if not isinstance(data, dict):
+                    raise InvalidDictFileContent(self.__file_path)
+                self.update(data)
 
     def clear(self):
         """Force the dictionary to be empty.
-- 
2.43.0


From 6764d451a2a17faed1c1fb49b993700ea4883172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 12/64] fix: index a package once when it is built again

Its entry was duplicated, the first copy keeping the checksum of the
overwritten file.
---
 ipkg/repositories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index a0c3017..e14f545 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -222,6 +222,10 @@ class LocalPackageRepository(PackageRepository):
             LOGGER.debug('sha256: %s', checksum)
             package_meta['checksum'] = checksum
 
+        # Replace the entry of a package built again
+        filename = make_filename(**package_meta)
+        meta[package.name] = [m for m in meta[package.name]
+                              if make_filename(**m) != filename]
         meta[package.name].append(package_meta)
 
         LOGGER.info('Package %s added to repository', package)
-- 
2.43.0


From e1793aed147d8be901ecbb71b60488f7ccdc93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 13/64] fix: keep the repository index until its replacement is
 complete

The index file was removed before the packages were read: an unreadable file
in the repository, or a process dying meanwhile, lost the whole index.
---
 ipkg/repositories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index e14f545..06c2e7d 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -94,7 +94,8 @@ class LocalPackageRepository(PackageRepository):
         """Update the repository meta data file."""
         LOGGER.info('Updating metadata of %r', self)
         meta = self.meta
-        meta.clear()
+        # Keep the current file until the new one is complete
+        dict.clear(meta)
         names = os.listdir(self.base)
 
         for name in names:
-- 
2.43.0


From 0b92efdbca056bd5cae1bd714711be4fc0b70e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 14/64] fix: refuse malformed version selectors with an ipkg
 error

InvalidRequirementVersion was never defined: a NameError was raised.
---
 ipkg/requirements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5c871b7..a5bb842 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -29,6 +29,11 @@ class InvalidRequirement(IpkgException):
     MESSAGE = 'Invalid requirement: %s'
 
 
+class InvalidRequirementVersion(InvalidRequirement):
+
+    MESSAGE = 'Invalid requirement version: %s'
+
+
 class ExclusiveVersionRequirements(InvalidRequirement):
 
     MESSAGE = 'Exclusive version requirements for operator %s: %s'
@@ -172,9 +177,6 @@ def parse_version(version_string):
 
     version_dict = match.groupdict()
 
-    if version_dict['operator'] not in OPERATORS:
-        raise InvalidRequirementVersionOperator(version_dict['operator'])
-
     return OPERATORS[version_dict['operator']], \
         pkgres.parse_version(version_dict['version'])
 
-- 
2.43.0


From cbc1d8a12d7213897f0c1bfeaab8c05f210c4f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 15/64] fix: refuse malformed requirements in linear time

The nested quantifier backtracked exponentially on long selectors followed by
an invalid character.
---
 ipkg/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index a5bb842..4a81a21 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -146,7 +146,7 @@ RE_REQUIREMENT = re.compile("""
     \]
 )?
 \s*
-(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)*
+(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)?
 \s*
 $
 """, re.X)
-- 
2.43.0


From 85c98e6b0f783872465842e574d8883e3eafd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 16/64] fix: ignore empty extras in requirements

---
 ipkg/requirements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 4a81a21..1b89c76 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -200,6 +200,7 @@ def parse(requirement):
 
     if requirement_dict['extras']:
         extras = re.split(r'\s*,\s*', requirement_dict['extras'].strip())
+        extras = [extra for extra in extras if extra]
     else:
         extras = []
 
-- 
2.43.0


From 4e28912a84b28d4fc231434f7359e212796c8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 17/64] fix: compare requirements to texts with an invalid
 platform

---
 ipkg/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 1b89c76..5153a35 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -62,7 +62,7 @@ class Requirement(object):
         elif isinstance(other, basestring):
             try:
                 requirement = Requirement(other)
-            except InvalidRequirement:
+            except (InvalidRequirement, InvalidPlatform):
                 return False
             else:
                 return str(self) == str(requirement)
-- 
2.43.0


From d9cc015226abf62e7e5f4517c727464f46dcfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 18/64] fix: equal requirements are not different

Without __ne__, Python 2 compares identities.
---
 ipkg/requirements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5153a35..cb6997d 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -69,6 +69,9 @@ class Requirement(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not (self == other)
+
     def __make_extras_str(self, extras):
         return '[' + ','.join(extras) + ']' if extras else ''
 
-- 
2.43.0


From c010a610b94340f38fdddbe8584dbccef85b52be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 19/64] fix: the order of extras does not make requirements
 different

---
 ipkg/requirements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index cb6997d..73f4f72 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -54,7 +54,7 @@ class Requirement(object):
 
     def __hash__(self):
         return hash(str(self.platform)) ^ hash(self.name) ^ \
-            hash(tuple(self.extras)) ^ hash(tuple(self.versions))
+            hash(tuple(sorted(set(self.extras)))) ^ hash(tuple(self.versions))
 
     def __eq__(self, other):
         if isinstance(other, Requirement):
@@ -73,7 +73,7 @@ class Requirement(object):
         return not (self == other)
 
     def __make_extras_str(self, extras):
-        return '[' + ','.join(extras) + ']' if extras else ''
+        return '[' + ','.join(sorted(set(extras))) + ']' if extras else ''
 
     def __make_versions_str(self, versions):
         operators = dict((op, s) for s, op in OPERATORS.items())
@@ -109,7 +109,7 @@ class Requirement(object):
             raise InvalidRequirement(other)
         if self.platform != other.platform:
             raise InvalidPlatform(other.platform)
-        extras_str = self.__make_extras_str(set(self.extras + other.extras))
+        extras_str = self.__make_extras_str(self.extras + other.extras)
         versions_str = self.__make_versions_str(
             set(self.versions + other.versions))
         return Requirement('%s:%s%s%s' % (self.platform, self.name,
-- 
2.43.0


From 5cafab572e351e4ff6f4e3795a7034fc41884c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 20/64] fix: print requirement versions as versions that parse
 to the same

Version 0 became an empty string, and the patch level and dev tags were lost
or changed, hence merging such requirements failed or changed them.
---
 ipkg/requirements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 73f4f72..3608894 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -80,15 +80,18 @@ class Requirement(object):
         versions_str = []
         for version_operator, version_tuple in versions:
             version_parts = []
-            for version_part in version_tuple:
-                if version_part == '*final':
-                    break
+            # The last part always is *final
+            for version_part in version_tuple[:-1]:
+                if version_part == '*final-':
+                    version_parts.append('-')
+                elif version_part == '*@':
+                    version_parts.append('dev')
                 elif version_part[0] == '*':
                     version_parts.append(version_part[1:])
                 else:
                     version_parts.append(str(int(version_part)))
             operator = operators[version_operator]
-            version = '.'.join(version_parts)
+            version = '.'.join(version_parts) or '0'
             versions_str.append(operator + version)
         return ','.join(versions_str)
 
-- 
2.43.0


From 6d7bead9843fa48c1613f117dd3ccb735fe47f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 21/64] fix: keep the platforms of both requirements when
 merging them

any:x + linux:x accepted packages of all platforms.
---
 ipkg/platforms.py    | 10 ++++++++++
 ipkg/requirements.py |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 0794983..d088e0e 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -41,6 +41,16 @@ class Platform(object):
     def __ne__(self, platform):
         return not (self == platform)
 
+    def merge(self, platform):
+        """Returns the most specific of two matching platforms.
+        """
+        def pick(a, b):
+            return b if a == 'any' else a
+
+        return Platform(pick(self.os_name, platform.os_name),
+                        pick(self.os_release, platform.os_release),
+                        pick(self.architecture, platform.architecture))
+
     @classmethod
     def parse(cls, platform):
         platform = platform.strip().lower()
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 3608894..74b05ae 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -112,10 +112,11 @@ class Requirement(object):
             raise InvalidRequirement(other)
         if self.platform != other.platform:
             raise InvalidPlatform(other.platform)
+        platform = self.platform.merge(other.platform)
         extras_str = self.__make_extras_str(self.extras + other.extras)
         versions_str = self.__make_versions_str(
             set(self.versions + other.versions))
-        return Requirement('%s:%s%s%s' % (self.platform, self.name,
+        return Requirement('%s:%s%s%s' % (platform, self.name,
                                           extras_str, versions_str))
 
     def satisfied_by_version(self, version):
-- 
2.43.0


From 206e6dac8c90ea2858efc2c02160d525ff20a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 22/64] fix: accept == together with bounds it is compatible
 with

---
 ipkg/requirements.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 74b05ae..37287af 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -293,11 +293,13 @@ def remove_useless_version_selectors(version_selectors):
     result = []
 
     if eq_ver:
-        if l_selector or g_selector:
-            raise ExclusiveVersionRequirements(operator.eq,
-                                               'incompatible with other version operators')
-        else:
-            result.append((operator.eq, eq_ver))
+        for selector in (g_selector, l_selector):
+            if selector and not selector[0](eq_ver, selector[1]):
+                raise ExclusiveVersionRequirements(operator.eq,
+                                                   'incompatible with other version operators')
+        # The other selectors are satisfied by this version
+        g_selector, l_selector = None, None
+        result.append((operator.eq, eq_ver))
 
     if g_selector:
         result.append(g_selector)
-- 
2.43.0


From 7af8c3200d9b0cdd8868da75f44210b7f20fa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 23/64] fix: do not ignore != selectors

---
 ipkg/requirements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 37287af..bf98555 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -306,4 +306,7 @@ def remove_useless_version_selectors(version_selectors):
     if l_selector:
         result.append(l_selector)
 
+    for version in sorted(selectors[operator.ne]):
+        result.append((operator.ne, version))
+
     return result
-- 
2.43.0


From 8c1c680ee0cc582daa71d5297d63fac24271c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 24/64] fix: use the given parser to find the most recent
 version

---
 ipkg/versions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/versions.py b/ipkg/versions.py
index 9b352fa..64a4d9f 100644
--- a/ipkg/versions.py
+++ b/ipkg/versions.py
@@ -44,4 +44,4 @@ def most_recent(versions, parser=parse):
     * ``versions`` must be an iterable of versions.
     * ``parser`` defaults to ``parse`` which parses version strings.
     """
-    return sorted(versions, reverse=True)[0]
+    return sorted(versions, parser, reverse=True)[0]
-- 
2.43.0


From d8481e24cbd18aa8b3f5eb4cfbbbde9677d5098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 25/64] fix: find formulas which do not define a platform

Comparing None to a Platform raised an AttributeError.
---
 ipkg/requirements.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index bf98555..326625a 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -134,8 +134,11 @@ class Requirement(object):
                 obj.get('name') == self.name and \
                 self.satisfied_by_version(obj.get('version'))
         else:
-            return (not hasattr(obj, 'platform') or
-                    obj.platform == self.platform) and \
+            platform = getattr(obj, 'platform', 'any')
+            if platform is None:
+                # Formulas are built for the current platform by default
+                platform = Platform.current()
+            return platform == self.platform and \
                 hasattr(obj, 'name') and \
                 obj.name == self.name and \
                 hasattr(obj, 'version') and \
-- 
2.43.0


From 584ac83973426bd0db085f1e11e664b2654872d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 26/64] fix: prefer the newest revision of the most recent
 version in the solver

---
 ipkg/dependencies.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index b0b5039..90e8a79 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -15,13 +15,8 @@ LOGGER = logging.getLogger(__name__)
 def select_most_recent_version(objects):
     """Find the object having most recent version among ``objects``.
     """
-    objects_by_version = {}
-    for obj in objects:
-        if isinstance(obj, Node):
-            obj = obj.obj
-        objects_by_version[obj.version] = obj
-    most_recent_version = versions.most_recent(objects_by_version.keys())
-    return objects_by_version[most_recent_version]
+    objects = [obj.obj if isinstance(obj, Node) else obj for obj in objects]
+    return versions.most_recent(objects, versions.extract)
 
 
 class SolverError(IpkgException):
-- 
2.43.0


From 3f8dfaa6084e50b2e81c3c885fd3c56791121633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 27/64] fix: do not solve the dependencies of installed
 packages again

---
 ipkg/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 90e8a79..f9a471a 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -232,7 +232,7 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package)
+                        solver.add(package, skip_dependencies=True)
                         found = True
                         break
                 if found is True:
-- 
2.43.0


From deaa6abdf32cf7be2080db6abff0a696c77e34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 28/64] fix: only leave installed packages out of solutions

Packages found in repositories were left out too.
---
 ipkg/dependencies.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index f9a471a..b88f9ab 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -5,7 +5,6 @@ from .requirements import Requirement
 from .exceptions import IpkgException
 from .platforms import Platform
 from .build import Formula
-from .packages import MetaPackage
 from . import versions
 
 
@@ -57,6 +56,8 @@ class Node(object):
         self.requirements = {}
         # list of nodes who depend on this one
         self.dependents = []
+        # is it a package of the environment?
+        self.installed = False
 
         if not skip_dependencies:
             for requirement_str in obj.dependencies:
@@ -232,7 +233,9 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package, skip_dependencies=True)
+                        package_node = solver.add(package,
+                                                  skip_dependencies=True)
+                        package_node.installed = True
                         found = True
                         break
                 if found is True:
@@ -386,7 +389,7 @@ class Solver(object):
         result = []
         for node in reversed(sorted_nodes):
             if ignore_installed_packages:
-                if not isinstance(node.obj, MetaPackage):
+                if not node.installed:
                     result.append(node.obj)
             else:
                 result.append(node.obj)
-- 
2.43.0


From 50333fc8fa9d7d5843869df9dd25c56d1d477ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 29/64] fix: do not restrict merged requirements to the current
 platform

---
 ipkg/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index b88f9ab..605a681 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -86,7 +86,7 @@ class SolverRequirement(object):
         #: Package name
         self.name = name
         #: Merged :class:`Requirement`
-        self.merged = Requirement(name)
+        self.merged = Requirement('any:%s' % name)
         #: Dictionary of requesting :class:`Node`: node :class:`Requirement`
         self.requesters = {}
         #: ``set`` of satisfying :class:`Node` objects
-- 
2.43.0


From 5660e7519844be42db1cc86401064890c8243e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 30/64] fix: ignore nodes which are not part of the solution
 when sorting it

They were reported as dependency loops.
---
 ipkg/dependencies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 605a681..58cc77d 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -329,7 +329,7 @@ class Solver(object):
 
         for node in nodes:
             LOGGER.debug('node %r', node)
-            if not node.dependents:
+            if not any(d in nodes for d in node.dependents):
                 queue.append(node)
         LOGGER.debug('Queue: %r', queue)
 
@@ -362,7 +362,8 @@ class Solver(object):
                              requirement, dependency, id(dependency))
 
                 if dependency not in node_dependents:
-                    node_dependents[dependency] = set(dependency.dependents)
+                    node_dependents[dependency] = set(
+                        d for d in dependency.dependents if d in nodes)
                     LOGGER.debug(' First time we see %s, dependents=%s',
                                  dependency, node_dependents[dependency])
 
-- 
2.43.0


From 3d89a321ea2f9d02a8cc3bd6636edf892a7ea4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 31/64] fix: list each package of a solution once

A package required twice by another one was listed twice, and a loop between
two versions of the target and its dependencies was never reported.
---
 ipkg/dependencies.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 58cc77d..9fee46e 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -368,12 +368,16 @@ class Solver(object):
                                  dependency, node_dependents[dependency])
 
                 for dependent in list(node_dependents[dependency]):
-                    if dependent.obj.name == node.obj.name:
+                    if dependent is node or \
+                       (target is None and
+                            dependent.obj.name == node.obj.name):
                         node_dependents[dependency].remove(dependent)
                 LOGGER.debug(' %s dependents: %s',
                              dependency, node_dependents[dependency])
 
-                if not node_dependents[dependency]:
+                if dependency in queue or dependency in sorted_nodes:
+                    LOGGER.debug(' %s already sorted', dependency)
+                elif not node_dependents[dependency]:
                     # no other node depend on the dependency
                     LOGGER.debug(' Added %s to queue', dependency)
                     queue.append(dependency)
-- 
2.43.0


From 2a9a63fbd47cbfbda933f186051f3f4ce1fc0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 32/64] fix: package symbolic links to directories

---
 ipkg/build.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index f6365b3..fbed93c 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -41,9 +41,11 @@ def find_files(base):
     """Create a list of files in prefix ``base``.
     """
     result = []
-    for parent, _, files in os.walk(base):
+    for parent, directories, files in os.walk(base):
+        links = [d for d in directories
+                 if os.path.islink(os.path.join(parent, d))]
         rel_dir = parent.split(base)[1][1:]
-        for filename in files:
+        for filename in files + links:
             result.append(os.path.join(rel_dir, filename))
     return result
 
-- 
2.43.0


From 952ed41da1ee753ec5b554b914e36f5cbeed2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 33/64] fix: compute paths of packaged files whatever the
 prefix looks like

A prefix with a trailing slash or found again deeper in a path gave wrong
paths.
---
 ipkg/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index fbed93c..17bcd2a 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -44,9 +44,9 @@ def find_files(base):
     for parent, directories, files in os.walk(base):
         links = [d for d in directories
                  if os.path.islink(os.path.join(parent, d))]
-        rel_dir = parent.split(base)[1][1:]
         for filename in files + links:
-            result.append(os.path.join(rel_dir, filename))
+            result.append(os.path.relpath(os.path.join(parent, filename),
+                                          base))
     return result
 
 
-- 
2.43.0


From 1d4a440fee895f8dfabb70f4e9442c04a2d9150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 34/64] fix: do not accumulate arguments when a run_* method is
 called again

---
 ipkg/build.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 17bcd2a..5d115af 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -130,11 +130,9 @@ class Formula(NameVersionRevisionComparable):
 
             def func(args=None, **kw):
                 """Wrap calls to ``run_command``."""
-                if args:
-                    if isinstance(args, basestring):
-                        args = args.split()
-                    command.extend(args)
-                self.run_command(command, **kw)
+                if isinstance(args, basestring):
+                    args = args.split()
+                self.run_command(command + list(args or []), **kw)
             return func
         else:
             raise AttributeError(attr)
-- 
2.43.0


From f151dde60885d270dc69b52461391d0c92035b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 35/64] fix: uninstall exactly the packages installed for a
 build

Dependencies installed before the build were uninstalled, those of dependencies
were not, and dependencies with a version made the build fail.
---
 ipkg/build.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 5d115af..251fa46 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -142,7 +142,6 @@ class Formula(NameVersionRevisionComparable):
         LOGGER.debug('%r.build(package_dir=%s, remove_build_dir=%s)',
                      self, package_dir, remove_build_dir)
 
-        installed_dependencies = []
         build_dir = tempfile.mkdtemp(prefix='ipkg-build-')
 
         # Create a temporary env if no env has been previously defined
@@ -157,6 +156,8 @@ class Formula(NameVersionRevisionComparable):
 
         env_prefix = self.environment.prefix
 
+        installed_packages = set(self.environment.meta['packages'])
+
         # Install dependencies in build environment
         if self.dependencies:
             LOGGER.info('Build dependencies: %s',
@@ -164,7 +165,6 @@ class Formula(NameVersionRevisionComparable):
             for dependency in self.dependencies:
                 if not self.environment.satisfies(dependency):
                     self.environment.install(dependency, repository)
-                    installed_dependencies.append(dependency)
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -200,10 +200,10 @@ class Formula(NameVersionRevisionComparable):
             package_file_path = os.path.join(env_prefix, package_file)
             os.unlink(package_file_path)
 
-        if self.dependencies:
-            LOGGER.debug('Uninstalling dependencies from build environment')
-            for dependency in self.dependencies:
-                self.environment.uninstall(dependency)
+        LOGGER.debug('Uninstalling dependencies from build environment')
+        for package in list(self.environment.meta['packages']):
+            if package not in installed_packages:
+                self.environment.uninstall(package)
 
         if remove_build_dir:
             LOGGER.debug('Removing build directory: %s', build_dir)
-- 
2.43.0


From 5b03043fa7c18978065a61289a6c987bc01c8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 36/64] fix: report unreadable packages as ipkg errors

---
 ipkg/packages.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index d7923ba..f9a3459 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -4,7 +4,7 @@ import tarfile
 import logging
 
 from .files import vopen
-from .exceptions import IpkgException
+from .exceptions import IpkgException, InvalidPackage
 from .mixins import NameVersionRevisionComparable
 
 
@@ -57,21 +57,32 @@ class PackageFile(MetaPackage):
     @property
     def meta(self):
         if not self.__meta:
-            self.__meta = json.load(self._tarfile.extractfile(META_FILE))
+            try:
+                self.__meta = json.load(self._tarfile.extractfile(META_FILE))
+            except (tarfile.TarError, KeyError, ValueError,
+                    IOError, EOFError):
+                raise InvalidPackage(self.path)
         return self.__meta
 
     @property
     def _tarfile(self):
         if self.__tarfile is None:
-            self.__tarfile = tarfile.open(fileobj=vopen(self.path))
+            try:
+                self.__tarfile = tarfile.open(fileobj=vopen(self.path))
+            except tarfile.TarError:
+                raise InvalidPackage(self.path)
         return self.__tarfile
 
     def extract(self, path):
         """Extract the package to ``path``.
         """
         LOGGER.debug('Extracting %s in %s', self, path)
-        files = [m for m in self._tarfile.getmembers() if m.path != META_FILE]
-        self._tarfile.extractall(path, files)
+        try:
+            files = [m for m in self._tarfile.getmembers()
+                     if m.path != META_FILE]
+            self._tarfile.extractall(path, files)
+        except (tarfile.TarError, EOFError):
+            raise InvalidPackage(self.path)
 
 
 def make_filename(**meta):
-- 
2.43.0


From 58b5d114fe5d21f8b3adce09668305093fb81b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 37/64] fix: never use the body of an HTTP error as file
 content

---
 ipkg/files/backends/http.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 3297041..1c7945f 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -25,6 +25,7 @@ class HttpFile(BaseFile):
         LOGGER.info('Downloading: %s', self.name)
         try:
             response = requests.get(self.name, stream=True)
+            response.raise_for_status()
 
         except requests.RequestException as exc:
             raise HttpFileException(str(exc))
-- 
2.43.0


From 09995330e46f5923176e87512b9e17949623b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 38/64] fix: refuse HTTP downloads cut short

They were used, and cached, as if they were complete.
---
 ipkg/files/backends/http.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 1c7945f..115f6d8 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,6 +1,11 @@
 import logging
+try:
+    import httplib
+except ImportError:  # Python 3
+    import http.client as httplib
 
 import requests
+from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
@@ -33,12 +38,19 @@ class HttpFile(BaseFile):
         else:
             content = StringIO()
 
-            while True:
-                data = response.raw.read(1024 * 1024)
-                if data:
-                    content.write(data)
-                else:
-                    break
+            try:
+                while True:
+                    data = response.raw.read(1024 * 1024)
+                    if data:
+                        content.write(data)
+                    else:
+                        break
+            except (IOError, httplib.HTTPException, HTTPError) as exc:
+                raise HttpFileException(str(exc))
+
+            length = response.headers.get('content-length')
+            if length is not None and content.tell() != int(length):
+                raise HttpFileException('Incomplete download: %s' % self.name)
 
             content.seek(0)
 
-- 
2.43.0


From 93b46a861e71a3386514cbe280c333ff33e4af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 39/64] fix: only put complete files in the cache

---
 ipkg/files/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 4015710..9a2b954 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -1,5 +1,5 @@
 from logging import getLogger
-from os import path, environ
+from os import path, environ, getpid, rename
 from hashlib import sha256
 
 from .exceptions import FilesException
@@ -47,8 +47,12 @@ def has(name):
 
 def set(name, content):
     try:
-        with open(get_cache_filepath(name), 'wb') as f:
+        filepath = get_cache_filepath(name)
+        # Readers must never find an incomplete file
+        temporary_path = '%s.%d' % (filepath, getpid())
+        with open(temporary_path, 'wb') as f:
             f.write(content)
+        rename(temporary_path, filepath)
     except Exception as exc:
         LOGGER.exception('Failed to add %s to cache', name)
     else:
-- 
2.43.0


From a21e7a5e2cf3090e203e3b4c0625f02741f86b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 40/64] fix: make the prefix of environments absolute

A relative prefix ended up as it was in environment variables and in scripts.
---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index c8211cf..33e2d83 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -246,7 +246,8 @@ class Environment(object):
     """
 
     def __init__(self, prefix, directories=None, variables=None):
-        self.prefix = prefix
+        # Scripts and commands use it from any directory
+        self.prefix = prefix = os.path.abspath(prefix)
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
 
-- 
2.43.0


From 23844441df11c9685251ec63e2d06656b735730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 41/64] fix: build every formula which can be built, whatever
 their order

Formulas depending on each other were delayed forever, dependencies with a
version raised InvalidPackage, and a formula could be built before some of its
dependencies.
---
 ipkg/environments.py |  3 +-
 ipkg/repositories.py | 79 ++++++++++++++++++++++++++------------------
 2 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 33e2d83..1ca333f 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -405,7 +405,8 @@ class Environment(object):
     def satisfies(self, requirement):
         """Returns ``True`` if an installed package satisfies ``requirement``.
         """
-        requirement = Requirement(requirement)
+        if isinstance(requirement, basestring):
+            requirement = Requirement(requirement)
         return any(requirement.satisfied_by(p) for p in self.packages)
 
     @property
diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 06c2e7d..7f07368 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -149,50 +149,63 @@ class LocalPackageRepository(PackageRepository):
 
         for formula_cls in formula_repository:
             if formula_cls not in repo_packages:
-                formulas.append(formula_cls(environment, verbose))
+                try:
+                    formulas.append(formula_cls(environment, verbose))
+                except IpkgException as err:
+                    LOGGER.error('Cannot build %s: %s', formula_cls, err)
         LOGGER.debug('Formulas: %r', formulas)
 
         while formulas:
-            build_later = False
-            formula = formulas.pop(0)
-
-            for dependency in formula.dependencies:
-
-                if dependency in formulas:
-                    formulas.append(formula)
-                    build_later = True
-                    LOGGER.debug('Delaying build of %s because it requires '
-                                 '%s which will be built later' %
-                                 (formula, dependency))
-                    break
-
-                # If the dependency is installed in the environment or present
-                # in this repository, it is satisfied.
-                if ((environment is not None and
-                     dependency in environment.packages)
-                        or dependency in repo_packages
-                        or dependency in built_packages):
-                    continue
+            formula = self.__next_formula(formulas, environment)
 
-                else:
-                    LOGGER.error('Cannot build %s: Missing dependency: %s' %
-                                 (formula, dependency))
-                    break
+            if formula is None:
+                LOGGER.error('Cannot build %r: Missing dependencies', formulas)
+                break
 
-            if not build_later:
+            formulas = [f for f in formulas if f is not formula]
 
-                try:
-                    package_file = self.build_formula(formula)
+            try:
+                package_file = self.build_formula(formula)
 
-                except IpkgException as err:
-                    LOGGER.exception('Failed to build %s: %s' %
-                                     (make_package_spec(formula), str(err)))
+            except IpkgException as err:
+                LOGGER.exception('Failed to build %s: %s' %
+                                 (make_package_spec(formula), str(err)))
 
-                else:
-                    built_packages.append(package_file)
+            else:
+                built_packages.append(package_file)
 
         return built_packages
 
+    def __next_formula(self, formulas, environment=None):
+        """Find a formula which can be built now.
+
+        Prefer one whose dependencies do not have to be built.
+        """
+        result = None
+
+        for formula in formulas:
+            try:
+                requirements = map(Requirement, formula.dependencies)
+            except IpkgException as err:
+                LOGGER.error('Cannot build %s: %s',
+                             make_package_spec(formula), err)
+                continue
+
+            # If the dependency is installed in the environment or present
+            # in this repository, it is satisfied.
+            if all((environment is not None and environment.satisfies(r)) or
+                   self.find(r) for r in requirements):
+
+                if not any(r.satisfied_by(f) for r in requirements
+                           for f in formulas if f is not formula):
+                    return formula
+
+                LOGGER.debug('Delaying build of %s because it requires '
+                             'formulas which will be built later', formula)
+                result = result or formula
+
+        return result
+
     def add(self, package, compute_checksum=True):
         """Add a package to the repository.
 
-- 
2.43.0


From 300df52567ab7980cff59ee33a685364d1137c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 42/64] fix: report invalid source archives as ipkg errors

---
 ipkg/utils.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 1390fd9..6d1e5bd 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -5,6 +5,7 @@ import logging
 import subprocess
 import tarfile
 import zipfile
+import zlib
 import errno
 import shlex
 
@@ -214,26 +215,31 @@ def unarchive(fileobj, target):
             execute('xz -d -c', data=fileobj.read(), stdout=PIPE)[0])
 
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
-    if filename.split('.')[-2:] in tar_extensions:
-        archive = tarfile.open(fileobj=fileobj)
-        root_items = set(i.path.split('/')[0] for i in archive)
+    try:
+        if filename.split('.')[-2:] in tar_extensions:
+            archive = tarfile.open(fileobj=fileobj)
+            root_items = set(i.path.split('/')[0] for i in archive)
 
-    elif filename.endswith('.zip'):
-        archive = zipfile.ZipFile(fileobj)
-        root_items = set(i.filename.split('/')[0] for i in
-                         archive.filelist)
+        elif filename.endswith('.zip'):
+            archive = zipfile.ZipFile(fileobj)
+            root_items = set(i.filename.split('/')[0] for i in
+                             archive.filelist)
 
-    else:
-        raise IpkgException('Unrecognized file type %s' % filename)
+        else:
+            raise IpkgException('Unrecognized file type %s' % filename)
+
+        if len(root_items) != 1:
+            raise IpkgException('There must be strictly 1 item at '
+                                'root of sources file archive')
 
-    if len(root_items) != 1:
-        raise IpkgException('There must be strictly 1 item at '
-                            'root of sources file archive')
+        LOGGER.info('Extracting: %s', fileobj)
+        archive.extractall(target)
+        LOGGER.info('Extracted: %s', fileobj)
+        archive.close()
 
-    LOGGER.info('Extracting: %s', fileobj)
-    archive.extractall(target)
-    LOGGER.info('Extracted: %s', fileobj)
-    archive.close()
+    except (tarfile.TarError, zipfile.BadZipfile, zlib.error,
+            IOError, EOFError) as err:
+        raise IpkgException('Cannot unarchive %s: %s' % (filename, err))
 
     return os.path.join(target, root_items.pop())
 
-- 
2.43.0


From 8ef06bc2b009f7e43b441a4369746c87a1ce5488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 43/64] fix: find the root directory of archives of ./directory

---
 ipkg/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 6d1e5bd..47825de 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -218,16 +218,19 @@ def unarchive(fileobj, target):
     try:
         if filename.split('.')[-2:] in tar_extensions:
             archive = tarfile.open(fileobj=fileobj)
-            root_items = set(i.path.split('/')[0] for i in archive)
+            paths = [i.path for i in archive]
 
         elif filename.endswith('.zip'):
             archive = zipfile.ZipFile(fileobj)
-            root_items = set(i.filename.split('/')[0] for i in
-                             archive.filelist)
+            paths = [i.filename for i in archive.filelist]
 
         else:
             raise IpkgException('Unrecognized file type %s' % filename)
 
+        root_items = set(os.path.normpath(path).split('/')[0]
+                         for path in paths)
+        root_items.discard('.')
+
         if len(root_items) != 1:
             raise IpkgException('There must be strictly 1 item at '
                                 'root of sources file archive')
-- 
2.43.0


From d853ef8818eaba37af0c139229c05ba1c5ed88bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 44/64] fix: never touch anything outside the environment or
 the sources directory

Packages, their metadata and source archives could use absolute names, '..' or
links to create, change or delete any file.
---
 ipkg/environments.py |  8 +++++---
 ipkg/packages.py     |  3 ++-
 ipkg/utils.py        | 44 +++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 1ca333f..8c6ffdb 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -7,7 +7,7 @@ import tempfile
 from .exceptions import IpkgException
 from .packages import MetaPackage, PackageFile
 from .prefix_rewriters import rewrite_prefix
-from .utils import DictFile, execute, make_package_spec, mkdir
+from .utils import DictFile, execute, is_inside, make_package_spec, mkdir
 from .compat import basestring
 from .files.exceptions import FilesException
 from .platforms import Platform
@@ -303,7 +303,8 @@ class Environment(object):
         for rel_path in self.meta['packages'][package]['files']:
             path = os.path.join(self.prefix, rel_path)
 
-            if os.path.isfile(path) or os.path.islink(path):
+            if (os.path.isfile(path) or os.path.islink(path)) and \
+               is_inside(self.prefix, path):
                 #LOGGER.debug('Removing file %s', path)
                 os.unlink(path)
                 parent = os.path.dirname(path)
@@ -389,7 +390,8 @@ class Environment(object):
                 file_dir, file_name = os.path.split(pkg_file)
                 if file_dir in ('bin', 'sbin') or file_dir.startswith('lib'):
                     file_path = os.path.join(self.prefix, pkg_file)
-                    if isfile(file_path) and not islink(file_path):
+                    if isfile(file_path) and not islink(file_path) and \
+                       is_inside(self.prefix, file_path):
                         rewrite_prefix(pkg_file, build_prefix, self.prefix)
 
         # Write package meta data in environment
diff --git a/ipkg/packages.py b/ipkg/packages.py
index f9a3459..77c4a03 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -6,6 +6,7 @@ import logging
 from .files import vopen
 from .exceptions import IpkgException, InvalidPackage
 from .mixins import NameVersionRevisionComparable
+from .utils import safe_members
 
 
 LOGGER = logging.getLogger(__name__)
@@ -80,7 +81,7 @@ class PackageFile(MetaPackage):
         try:
             files = [m for m in self._tarfile.getmembers()
                      if m.path != META_FILE]
-            self._tarfile.extractall(path, files)
+            self._tarfile.extractall(path, safe_members(files, path))
         except (tarfile.TarError, EOFError):
             raise InvalidPackage(self.path)
 
diff --git a/ipkg/utils.py b/ipkg/utils.py
index 47825de..77bffa7 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -196,6 +196,45 @@ def which(command):
             return path
 
 
+def is_inside(directory, path):
+    """Returns ``True`` if ``path`` is inside ``directory``, even if some of
+       its parent directories are symbolic links.
+    """
+    parent, name = os.path.split(path)
+    directory = os.path.join(os.path.realpath(directory), '')
+    parent = os.path.join(os.path.realpath(parent), '')
+    return name not in ('', '.', '..') and parent.startswith(directory)
+
+
+def safe_members(members, target):
+    """Check each of the tar ``members`` right before it is extracted in
+       ``target``: nothing must be written outside of it.
+    """
+    target = os.path.realpath(target)
+
+    for member in members:
+        path = os.path.join(target, member.path)
+        paths = [path]
+
+        if member.islnk():
+            link = os.path.join(target, member.linkname)
+            paths.extend([link, os.path.realpath(link)])
+
+        if member.isdir():
+            # It may already exist, and be a link
+            paths = [os.path.join(os.path.realpath(path), 'file')]
+
+        elif os.path.islink(path) or os.path.isfile(path):
+            # Do not write to the target of a link, or to a read-only file
+            if is_inside(target, path):
+                os.unlink(path)
+
+        if not all(is_inside(target, p) for p in paths):
+            raise IpkgException('%s is outside of %s' % (member.path, target))
+
+        yield member
+
+
 def unarchive(fileobj, target):
     """Extract an archive, detecting its format.
 
@@ -236,7 +275,10 @@ def unarchive(fileobj, target):
                                 'root of sources file archive')
 
         LOGGER.info('Extracting: %s', fileobj)
-        archive.extractall(target)
+        if isinstance(archive, tarfile.TarFile):
+            archive.extractall(target, safe_members(archive, target))
+        else:
+            archive.extractall(target)
         LOGGER.info('Extracted: %s', fileobj)
         archive.close()
 
-- 
2.43.0


From b961f150f04cbb76d99084c27084159e1d39df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 45/64] fix: refuse archives which extract a symbolic link
 twice

Attributes of directories are set last: they could be those of other ones.
---
 ipkg/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 77bffa7..bc2c9dc 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -211,9 +211,11 @@ def safe_members(members, target):
        ``target``: nothing must be written outside of it.
     """
     target = os.path.realpath(target)
+    links = set()
 
     for member in members:
-        path = os.path.join(target, member.path)
+        parent, name = os.path.split(os.path.join(target, member.path))
+        path = os.path.join(os.path.realpath(parent), name)
         paths = [path]
 
         if member.islnk():
@@ -229,9 +231,13 @@ def safe_members(members, target):
             if is_inside(target, path):
                 os.unlink(path)
 
-        if not all(is_inside(target, p) for p in paths):
+        # Members already extracted must stay where they have been checked
+        if path in links or not all(is_inside(target, p) for p in paths):
             raise IpkgException('%s is outside of %s' % (member.path, target))
 
+        if member.issym():
+            links.add(path)
+
         yield member
 
 
-- 
2.43.0


From f55b8e0c51d2a81f39d7f8402ecaa572512f91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 46/64] fix: uninstall packages whose files are behind a link
 to a directory

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 8c6ffdb..9e56e3e 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -308,7 +308,7 @@ class Environment(object):
                 #LOGGER.debug('Removing file %s', path)
                 os.unlink(path)
                 parent = os.path.dirname(path)
-                if not os.listdir(parent):
+                if not os.path.islink(parent) and not os.listdir(parent):
                     #LOGGER.debug('Parent directory %s is empty, removing it',
                     #             parent)
                     os.rmdir(parent)
-- 
2.43.0


From 43c601183424e01a1086ff898d02a74a77f079f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 47/64] fix: remove every occurrence of an item of a list
 variable

Inserting an item listed twice left a duplicate.
---
 ipkg/environments.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 9e56e3e..6670fdb 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -98,9 +98,7 @@ class ListVariable(Variable):
             raise InvalidVariableValue(self.name, value)
 
     def remove(self, item):
-        if item in self.__list:
-            item_index = self.__list.index(item)
-            self.__list.pop(item_index)
+        self.__list = [i for i in self.__list if i != item]
 
     def insert(self, item, index=0):
         self.remove(item)
-- 
2.43.0


From b000472e681e55f48c238b2a5e73ab4bc2a4aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 48/64] fix: verify the checksum of the whole file, wherever it
 is positioned

---
 ipkg/files/backends/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/files/backends/__init__.py b/ipkg/files/backends/__init__.py
index 62e6a17..20178ff 100644
--- a/ipkg/files/backends/__init__.py
+++ b/ipkg/files/backends/__init__.py
@@ -38,6 +38,7 @@ class BaseFile(object):
         else:
             hash_obj = self.hash_class()
             current_position = self.tell()
+            self.seek(0)
             file_content = self.read()
             self.seek(current_position)
             hash_obj.update(file_content)
-- 
2.43.0


From f8c6aed02a4e3d90ddaec90f7f65991d3814027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 49/64] fix: reloading a DictFile forgets what is not stored

---
 ipkg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index bc2c9dc..f907d73 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -61,6 +61,7 @@ class DictFile(dict):
         self.reload()
 
     def reload(self):
+        data = {}
         if '://' in self.__file_path or os.path.isfile(self.__file_path):
             LOGGER.debug('Loading %s', self.__file_path)
             raw = vopen(self.__file_path).read()
@@ -71,7 +72,9 @@ class DictFile(dict):
                     raise InvalidDictFileContent(self.__file_path)
                 if not isinstance(data, dict):
                     raise InvalidDictFileContent(self.__file_path)
-                self.update(data)
+        # Forget what is not stored
+        super(DictFile, self).clear()
+        self.update(data)
 
     def clear(self):
         """Force the dictionary to be empty.
-- 
2.43.0


From bb90b79ed1f6b0159b32da1b9309afb5d1311254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 50/64] fix: run a command with the empty set of variables it
 is given

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index f907d73..2f569cf 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -104,7 +104,7 @@ def execute(command,
 
     kw = {'cwd': cwd}
 
-    if env:
+    if env is not None:
         kw['env'] = env
 
     if stdout:
-- 
2.43.0


From 3cd90502c5d2940e9ff824ec629f20be17292650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 51/64] fix: refuse packages which do not contain all of their
 files

---
 ipkg/packages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index 77c4a03..d7b83f1 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -81,6 +81,10 @@ class PackageFile(MetaPackage):
         try:
             files = [m for m in self._tarfile.getmembers()
                      if m.path != META_FILE]
+            paths = set(os.path.normpath(m.path) for m in files)
+            if not paths.issuperset(self.meta.get('files', ())):
+                # The end of the archive is missing
+                raise InvalidPackage(self.path)
             self._tarfile.extractall(path, safe_members(files, path))
         except (tarfile.TarError, EOFError):
             raise InvalidPackage(self.path)
-- 
2.43.0


From 56e326a4cd4877ef1e928b08dc663616c754ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 52/64] fix: the solver does not search again for what it has
 searched for

A requirement which no longer had a satisfier was searched for again each
time it came up, and with a loop between the packages found that never
ended.
---
 ipkg/dependencies.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 9fee46e..cffb24c 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -202,6 +202,7 @@ class Solver(object):
         solver = cls()
         node = solver.add(obj)
         queue = set()
+        searched = set()
 
         for requirement in node.requirements:
             queue.add((node, requirement))
@@ -227,6 +228,13 @@ class Solver(object):
 #                                 requirement,
 #                                 solver.requirements[requirement.name])
 
+            # Merged requirements only get stricter: what the same search
+            # found the first time will not do the next time either, and its
+            # own requirements may well lead here again, endlessly.
+            if str(requirement) in searched:
+                continue
+            searched.add(str(requirement))
+
             if environment:
                 found = False
                 for package in environment.packages:
-- 
2.43.0


From 67c91a55272239e0e595115c1b2b55ab2ff394f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 53/64] fix: rewrite the prefix of lines which are not ASCII

---
 ipkg/prefix_rewriters.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 3738cb7..5cea20c 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -10,10 +10,20 @@ from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
 LOGGER = logging.getLogger(__name__)
 
 
+def to_bytes(text):
+    """Encode unicode strings, as those of package meta data are.
+    """
+    return text if isinstance(text, bytes) else text.encode('utf-8')
+
+
 def rewrite_prefix(package_file, build_prefix, install_prefix):
 
     file_path = os.path.join(install_prefix, package_file)
 
+    # Files contain bytes, which are not always ASCII
+    build_prefix = to_bytes(build_prefix)
+    install_prefix = to_bytes(install_prefix)
+
     if PKGCONFIG_FILE.match(package_file):
         rewrite_pkgconfig(file_path, build_prefix, install_prefix)
 
-- 
2.43.0


From 9c8ff283ce747038fdf42197fd4fadf3843d416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 54/64] fix: do not follow the copy of a link out of the target

---
 ipkg/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 2f569cf..7335232 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -225,6 +225,11 @@ def safe_members(members, target):
             link = os.path.join(target, member.linkname)
             paths.extend([link, os.path.realpath(link)])
 
+            if os.path.islink(link):
+                # Its copy may lead elsewhere
+                copy = os.path.join(os.path.dirname(path), os.readlink(link))
+                paths.append(os.path.join(os.path.realpath(copy), 'file'))
+
         if member.isdir():
             # It may already exist, and be a link
             paths = [os.path.join(os.path.realpath(path), 'file')]
@@ -238,7 +243,7 @@ def safe_members(members, target):
         if path in links or not all(is_inside(target, p) for p in paths):
             raise IpkgException('%s is outside of %s' % (member.path, target))
 
-        if member.issym():
+        if member.issym() or (member.islnk() and os.path.islink(link)):
             links.add(path)
 
         yield member
-- 
2.43.0


From 1733e037e046a17c10c317bfa3b7748be737befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 55/64] fix: a command which cannot be split or is empty is an
 ipkg error

---
 ipkg/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 7335232..cbae98b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -122,10 +122,16 @@ def execute(command,
 
     # If command is a string, split it to get a format that Popen understands
     if isinstance(command, basestring):
-        command_ = shlex.split(command)
+        try:
+            command_ = shlex.split(command)
+        except ValueError as exception:
+            raise ExecutionFailed([command], exception)
     else:
         command_ = command
 
+    if not command_:
+        raise ExecutionFailed(command_, 'Empty command')
+
     try:
         process = subprocess.Popen(command_, **kw)
 
-- 
2.43.0


From a0fb1a9e89b915b348cbadaa04d74f54a0994d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 56/64] fix: sources cut in the trailer of gzip are an ipkg
 error

---
 ipkg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index cbae98b..fc8e945 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -6,6 +6,7 @@ import subprocess
 import tarfile
 import zipfile
 import zlib
+import struct
 import errno
 import shlex
 
@@ -303,7 +304,7 @@ def unarchive(fileobj, target):
         archive.close()
 
     except (tarfile.TarError, zipfile.BadZipfile, zlib.error,
-            IOError, EOFError) as err:
+            struct.error, IOError, EOFError) as err:
         raise IpkgException('Cannot unarchive %s: %s' % (filename, err))
 
     return os.path.join(target, root_items.pop())
-- 
2.43.0


From e6a2ddb89a235ef0c7ffa48945eb2ff9acfcc499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 57/64] fix: open local files whose names have characters
 special in URLs

---
 ipkg/files/backends/filesystem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/backends/filesystem.py b/ipkg/files/backends/filesystem.py
index e113144..f3ff135 100644
--- a/ipkg/files/backends/filesystem.py
+++ b/ipkg/files/backends/filesystem.py
@@ -1,9 +1,10 @@
 import os
 
 try:
+    from urllib import unquote
     from urlparse import urlparse
 except ImportError:  # Python 3
-    from urllib.parse import urlparse
+    from urllib.parse import unquote, urlparse
 
 from . import BaseFile, BackendException
 
@@ -17,7 +18,11 @@ class LocalFile(BaseFile):
     """
     def __init__(self, *args, **kw):
         super(LocalFile, self).__init__(*args, **kw)
-        filepath = urlparse(self.name).path
+        info = urlparse(self.name)
+        if info.scheme:
+            filepath = unquote(info.path)
+        else:
+            filepath = self.name
         if os.path.isfile(filepath):
             self.__file = open(filepath)
         else:
-- 
2.43.0


From b01de18e3c4b5d4abe1fc616bd1cc2b5f35ecd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 58/64] fix: get and set configuration options which are not
 ASCII on the command line

---
 ipkg/cli.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index e1c71a7..90b7fa0 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -128,6 +128,12 @@ class Ipkg(object):
 ipkg = Ipkg()
 
 
+def text(argument):
+    """The unicode text of a command line argument.
+    """
+    return argument.decode('utf-8')
+
+
 class Argument(object):
     """An ipkg command argument.
     """
@@ -321,12 +327,15 @@ def build_repository(environment, verbose,
     Argument('--environment', '-e',
              metavar='ENV', type=Environment,
              help='Path of the environment.'),
-    Argument('key'),
+    Argument('key', type=text),
 )
 def config_get(environment, key):
     """Set an environment configuration option.
     """
-    print environment.get_config(key)
+    value = environment.get_config(key)
+    if isinstance(value, unicode):
+        value = value.encode('utf-8')
+    print value
 
 
 @ipkg.command(
@@ -334,8 +343,8 @@ def config_get(environment, key):
     Argument('--environment', '-e',
              metavar='ENV', type=Environment,
              help='Path of the environment.'),
-    Argument('key'),
-    Argument('value'),
+    Argument('key', type=text),
+    Argument('value', type=text),
 )
 def config_set(environment, key, value):
     """Set an environment configuration option.
-- 
2.43.0


From c16cf991471bed8a117fc231e2a54ab8e48ff3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 59/64] fix: never execute two formula files in the same module

---
 ipkg/build.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 251fa46..bd10c2a 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -285,8 +285,9 @@ class Formula(NameVersionRevisionComparable):
             raise IpkgException('Formula not found: %s' % filepath)
 
         filepath = os.path.abspath(filepath)
-        filename = os.path.basename(filepath)
-        module_name = filename.split('.py')[0].replace('.', '_')
+        # Never execute two files in the same module
+        module_name = 'ipkg_formula_' + \
+            hashlib.sha1(repr(filepath)).hexdigest()
 
         try:
             module = imp.load_source(module_name, filepath)
-- 
2.43.0


From 28ca52e16311a26fa88e0dbcbbe4e7f2224219f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 60/64] fix: rewrite the prefix of libraries whose path has
 spaces

---
 ipkg/prefix_rewriters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 5cea20c..6c22bf9 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -121,7 +121,8 @@ def get_osx_bin_libs(file_path):
     otool_out = execute(otool_cmd, stdout=PIPE)[0]
     lines = otool_out.splitlines()[1:]
 
-    return [l[1:].split()[0] for l in lines]
+    # A path, which may have spaces, then versions between parentheses
+    return [l[1:].rsplit(' (', 1)[0] for l in lines]
 
 
 def rewrite_osx_bin(file_path, build_prefix, install_prefix):
-- 
2.43.0


From 4da5a0ecf8b83507f4a69d61b25acb99bdaab50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 61/64] fix: make temporary directories without a prefix

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 6670fdb..cbac787 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -281,7 +281,8 @@ class Environment(object):
 
            It will be stored in the environment ``tmp`` sub-directory.
         """
-        return tempfile.mkdtemp(prefix=prefix, dir=self.directories['tmp'])
+        return tempfile.mkdtemp(prefix=prefix or tempfile.template,
+                                dir=self.directories['tmp'])
 
     def cleanup_tmpdir(self):
         """Remove then re-create the temporary files directory.
-- 
2.43.0


From 87b2f2fe4ca27e044127036d731d1c9c6980ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 62/64] fix: a file is not the directory to make

---
 ipkg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index fc8e945..3f47031 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -316,5 +316,6 @@ def mkdir(directory, fail_if_it_exist=True):
     try:
         os.mkdir(directory)
     except OSError as exception:
-        if exception.errno != errno.EEXIST or fail_if_it_exist:
+        if exception.errno != errno.EEXIST or fail_if_it_exist or \
+           not os.path.isdir(directory):
             raise CannotCreateDirectory(directory, exception.strerror)
-- 
2.43.0


From 59c46b21cd89605a8e3a0c5dcbe531046d3e1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 63/64] fix: show invalid packages which are tuples

---
 ipkg/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/exceptions.py b/ipkg/exceptions.py
index 15d7630..81820dd 100644
--- a/ipkg/exceptions.py
+++ b/ipkg/exceptions.py
@@ -28,4 +28,4 @@ class InvalidPackage(IpkgException):
         self.spec = spec
 
     def __str__(self):
-        return 'Invalid package: %s' % self.spec
+        return 'Invalid package: %s' % (self.spec,)
-- 
2.43.0


From 0bda01cbe048dc3ad90b733ecf20ec24a434cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 64/64] fix: a line end is not part of a package specification

---
 ipkg/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/regex.py b/ipkg/regex.py
index 0753535..26a71e9 100644
--- a/ipkg/regex.py
+++ b/ipkg/regex.py
@@ -40,5 +40,5 @@ PACKAGE_SPEC = re.compile(r"""
         (?P<revision>\w+)
     )?
 )?
-$
+\Z
 """, re.X)
-- 
2.43.0

