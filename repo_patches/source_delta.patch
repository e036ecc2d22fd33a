From 4f97b5123c557974087a57d3401535eb7f4f60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 01/50] fix: relative paths starting with '..' or a hidden name
 lose their first component

URI('../foo') and URI('.hidden/foo') were turned into 'file://../foo' and
'file://.hidden/foo', where the first component is parsed as the authority.
The resulting path was '/foo' in both cases.
---
 abl/vpath/base/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..b44b9af 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -277,7 +277,10 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            # relative paths are marked with a leading './'.  Anything else
+            # that starts with a dot ('../foo', '.hidden') is a plain name that
+            # must not end up as the authority part of the uri.
+            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From 11899f6da21d00cecee910dd4cef24638f301def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 02/50] fix: hidden files in the root directory are treated as
 relative paths

URI('/.hidden').path was '.hidden', i.e. relative to the working directory,
and memory:///.hidden could not be accessed at all.
---
 abl/vpath/base/fs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index b44b9af..c6a423c 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -233,6 +233,8 @@ def with_connection(func, self, *args, **argd):
 #============================================================================
 
 scheme_re = re.compile("([a-z+-]+)://")
+# 'scheme:///./some/path' is an alternative notation for a relative path
+relative_path_re = re.compile(r"/\.{1,2}(/|$)")
 
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
@@ -337,7 +339,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if relative_path_re.match(path) else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -409,10 +411,8 @@ class BaseUri(object):
 
     @property
     def is_absolute(self):
-        path = self.parse_result.path
-        if path.startswith('/.'):
-            path = path[1:]
-        return path.startswith('/')
+        return self.parse_result.path.startswith('/') \
+            and not relative_path_re.match(self.parse_result.path)
 
 
     def split(self):
-- 
2.43.0


From 8723457864660b24542b14fd0bc1df6da142b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 03/50] fix: a trailing '#' of a file name gets lost

URI('/some/file#').path was '/some/file'.
---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..b47039b 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -83,7 +83,7 @@ def urisplit(uri):
     # bugfix: '#' might be a legal character in a file name
     # it only has special meaning in urls
     if scheme not in ['http', 'https']:
-        if fragment:
+        if fragment is not None:
             path = '#'.join([path, fragment])
             fragment = ''
     return (scheme, authority, path, query, fragment)
-- 
2.43.0


From 23a35cde50fa24f944415033fa87fb73551cc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/50] fix: '((...))' in a file name is replaced with a
 placeholder

URI('/some/file((1)).txt').path was '/some/file__inner_part__.txt'.
---
 abl/vpath/base/uriparse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index b47039b..2e7b527 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -65,12 +65,13 @@ def urisplit(uri):
        ('scheme', 'authority', 'path', 'query', 'fragment')
 
     """
-    inner_part = re.compile(r'\(\(.*?\)\)')
-    m = inner_part.search(uri)
+    # only the authority can be an inner part, '((' is legal in a file name
+    inner_part = re.compile(r'[^:/?#]+://(\(\(.*?\)\))')
+    m = inner_part.match(uri)
     inner_value = ''
     if m is not None:
-        inner_value = uri[m.start():m.end()]
-        uri = uri[:m.start()]+'__inner_part__'+uri[m.end():]
+        inner_value = m.group(1)
+        uri = uri[:m.start(1)]+'__inner_part__'+uri[m.end(1):]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
     p = re.match(regex, uri).groups()
-- 
2.43.0


From 19b187454f4b9326f7f0e411375bb9df0be9aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 05/50] fix: uris without an authority can't be parsed

urisplit raised AttributeError for 'mailto:' uris and relative references,
therefore urljoin did not work for any relative reference.
---
 abl/vpath/base/uriparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 2e7b527..6ec0ef2 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -77,13 +77,14 @@ def urisplit(uri):
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if authority is not None:
+        authority = authority.replace('__inner_part__', inner_value)
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
     # bugfix: '#' might be a legal character in a file name
-    # it only has special meaning in urls
-    if scheme not in ['http', 'https']:
+    # it only has special meaning in urls (and relative references to them)
+    if scheme not in ['http', 'https', None]:
         if fragment is not None:
             path = '#'.join([path, fragment])
             fragment = ''
-- 
2.43.0


From c389016762ab9beeb1ce0314465cef8a5524d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 06/50] fix: join, split and + operate on the raw uri string
 instead of the path

Derived uris were cut out of, or pasted into, the text of the uri:
 * a '/' in the query part was taken for a path separator
   (URI('/a/b?key=/x/y').basename() was 'y')
 * a suffix was added to the query part (URI('/a?x=1') + '.foo' was '/a')
 * last() returned the query part as well
 * dirname() of '.' or of the root of a host or an archive returned garbage
 * dirname() and + forgot a changed scheme
 * names containing '?' could not be joined (walk, copy and remove broke)
---
 abl/vpath/base/fs.py | 60 ++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index c6a423c..1ec32b0 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -398,17 +398,33 @@ class BaseUri(object):
         return self.join(other)
 
 
-    def __add__(self, suffix):
-        path = self.uri + suffix
+    def _derive(self, path, query):
+        """
+        @return: URI instance that differs from self in path and query only.
+                 The path is taken literally, it may contain characters that
+                 have a special meaning in an uri.
+        """
+        parts = self.parse_result.as_list()
+        parts[2] = ''
+        parts[3] = query
         result = self.__class__(
-            path,
+            uri_from_parts(parts),
             sep=self.sep,
             **self._extras()
             )
-        result.parse_result.query = self.query.copy()
+        parts[2] = path
+        result.uri = uri_from_parts(parts)
+        result.parse_result.path = path
+        result.parse_result.query = query.copy()
         return result
 
 
+    def __add__(self, suffix):
+        if self.sep != '/':
+            suffix = suffix.replace(self.sep, '/')
+        return self._derive(self.parse_result.path + suffix, self.query)
+
+
     @property
     def is_absolute(self):
         return self.parse_result.path.startswith('/') \
@@ -423,23 +439,12 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        try:
-            first, second = self.uri.rsplit('/', 1)
-        except ValueError:
-            first = ''
-            second = self.uri
-        # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
+        path = self.parse_result.path
+        first, slash, second = path.rpartition('/')
         if not first:
-            first = '.'
-        return (self.__class__(
-            first,
-            sep=self.sep,
-            **self._extras()
-            ),
-            second.partition('?')[0]
-            )
+            # we might be already on the root (or the top of a relative path)
+            first = slash or (path and '.')
+        return (self._derive(first, {}), second)
 
 
     def directory(self, level=1):
@@ -478,7 +483,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
+        parts = self.parse_result.path.split('/')
         if not parts:
             return ''
         if len(parts) > 1:
@@ -505,18 +510,7 @@ class BaseUri(object):
             [x.strip('/') for x in args[:-1]] +
             [args[-1]]
             )
-        parts = self.parse_result.as_list()
-        parts[2] = '/'.join(args)
-
-        result = self.__class__(
-            uri_from_parts(parts),
-            sep=sep,
-            **self._extras()
-            )
-
-        result.parse_result.query = self.query.copy()
-
-        return result
+        return self._derive('/'.join(args), self.query)
 
 
     @with_connection
-- 
2.43.0


From 5ce7f71cfa4327b87a80a90ecac2e5c8e0872446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 07/50] fix: credentials given as keyword arguments get lost in
 derived uris

(URI('ssh://host/a', username='me') / 'b').username was None, as was the
username of a copy.  Credentials given in the query part prevented the
connection from being created, they were passed to the backend twice.
A copy now also has the changed scheme and query of the original.
---
 abl/vpath/base/fs.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 1ec32b0..ae088a1 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1,4 +1,5 @@
 import atexit
+import copy
 from collections import defaultdict
 import fnmatch
 import hashlib
@@ -273,8 +274,10 @@ class BaseUri(object):
         if isinstance(uri, BaseUri):
             self.uri = uri.uri
             self.sep = uri.sep
-            self.parse_result = UriParse(uri.uri)
+            self.parse_result = copy.copy(uri.parse_result)
+            self.parse_result.query = uri.query.copy()
             self.extras = uri.extras.copy()
+            self._copy_credentials(uri)
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -290,20 +293,32 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
+        if not self.username:
             if 'username' in self.extras:
                 self.username = self.extras.pop('username')
             elif 'username' in self.parse_result.query:
                 self.username = self.parse_result.query['username']
-        if self.password is None:
+        if not self.password:
             if 'password' in self.extras:
                 self.password = self.extras.pop('password')
             elif 'password' in self.parse_result.query:
                 self.password = self.parse_result.query['password']
 
 
+    def _copy_credentials(self, other):
+        # credentials that were not part of the uri are attributes of the
+        # instance, parse_result does not know them.
+        for attr in ('username', 'password'):
+            if attr in other.__dict__:
+                setattr(self, attr, other.__dict__[attr])
+
+
     def get_connection(self):
-        return CONNECTION_REGISTRY.get_connection(*self._key(), **self._extras())
+        extras = self._extras()
+        # credentials are part of the key
+        extras.pop('username', None)
+        extras.pop('password', None)
+        return CONNECTION_REGISTRY.get_connection(*self._key(), **extras)
 
 
     def _extras(self):
@@ -416,6 +431,7 @@ class BaseUri(object):
         result.uri = uri_from_parts(parts)
         result.parse_result.path = path
         result.parse_result.query = query.copy()
+        result._copy_credentials(self)
         return result
 
 
-- 
2.43.0


From ada4089b120ffc00ccab06546b1cf18e2607cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 08/50] fix: paths in different archives are considered equal

URI('zip://((/a.zip))/x') == URI('zip://((/b.zip))/x') was True.
---
 abl/vpath/base/simpleuri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..7bbabab 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -149,6 +149,7 @@ class UriParse(object):
         return (
             self.scheme == other.scheme and
             self.netloc == other.netloc and
+            self.vpath_connector == other.vpath_connector and
             self.path == other.path and
             self.query == other.query
             )
-- 
2.43.0


From b54bc2d603b5d5fc9c5fdbee5e0c0ba56d0092fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 09/50] fix: str() of an uri does not quote the query part

A value (or key) containing '&', '=', '%' or '+' could not be parsed again, or
was changed, when creating an uri from the string representation of another.
---
 abl/vpath/base/simpleuri.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index 7bbabab..8981ec9 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -25,7 +25,7 @@ def parse_query_string(query):
         key, value = item.split('=')
         key = key.strip()
         value = value.strip()
-        result[key] = unquote_plus(value)
+        result[unquote_plus(key)] = unquote_plus(value)
     return result
 
 class UriParse(object):
@@ -113,8 +113,7 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
-            rest = '?'+('&'.join(qup))
+            rest = '?'+urlencode(self.query)
         else:
             rest = ''
         if self.fragment:
-- 
2.43.0


From 184b937ec965cf112ca9360fc60908dd1c78cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 10/50] fix: memory: links can't be traversed if the last name
 is the same

With a link /a to a directory, /a/a was looked up without resolving the first
'a', islink() and remove() failed with an AttributeError.
---
 abl/vpath/base/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..80825f0 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,10 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for index, part in enumerate(steps):
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = index == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
-- 
2.43.0


From 002da504a8cbd88d12ac8fab7ec7ed88ed550c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 11/50] fix: memory: AttributeError when a file is used like a
 directory, or vice versa

exists(), open(), mkdir() etc. on a path below a file or a dead link, listdir()
of a file and open() of a directory are now handled like in a local file
system: the checks return False, everything else raises an OSError.
---
 abl/vpath/base/memory.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 80825f0..7466c60 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -341,6 +341,12 @@ class MemoryFileSystem(FileSystem):
         current = base
         for index, part in enumerate(steps):
             prev = current
+            if current is None or current.kind != NodeKind.DIR:
+                # neither a file nor a dead link has children
+                if not throw:
+                    return [None, None]
+                raise self.lookup_exc_class(errno.ENOTDIR,
+                                            "Not a directory: %s" % '/'.join(steps[:index]))
             if current.has(part):
                 is_last = index == len(steps) - 1
                 current = self._child(current, part,
@@ -363,6 +369,21 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, steps):
+        nd = self._get_node(self._fs, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR,
+                                        "Not a directory: %s" % '/'.join(steps))
+        return nd
+
+
+    def _get_file(self, path):
+        nd = self._get_node_for_path(self._fs, path)
+        if nd.kind == NodeKind.DIR:
+            raise IOError(errno.EISDIR, "Is a directory: %s" % path)
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -422,7 +443,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
@@ -449,14 +470,16 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_read(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        if not p:
+            raise IOError(errno.EISDIR, "File is directory" )
+        nd = self._get_dir(p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
 
         if nd.has(file_to_create):
@@ -472,7 +495,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_append(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
@@ -541,8 +564,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir([x for x in self._path(path).split("/") if x])
         return sorted(nd.keys())
 
 
@@ -614,7 +636,7 @@ class MemoryFileSystem(FileSystem):
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-- 
2.43.0


From 2069b877d1d9f74cda1be11a33f7ae4ae568db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 12/50] fix: memory: additional or trailing slashes lead to a
 different path

'memory:///dir/' was not recognized as a directory, mkdir/open/... operated on
an empty name.
---
 abl/vpath/base/memory.py | 64 ++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7466c60..dbf9078 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -386,12 +386,8 @@ class MemoryFileSystem(FileSystem):
 
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
-        p = self._path(unc)
-        if p:
-            return self._get_node(base, p.split("/"), follow_link=follow_link,
-                                  throw=throw, linklevel=linklevel)
-        else:
-            return base
+        return self._get_node(base, self._steps(unc), follow_link=follow_link,
+                              throw=throw, linklevel=linklevel)
 
 
     def _path(self, path):
@@ -402,8 +398,13 @@ class MemoryFileSystem(FileSystem):
         return p
 
 
+    def _steps(self, path):
+        # like in any other file system, additional slashes don't matter
+        return [x for x in self._path(path).split("/") if x]
+
+
     def isdir(self, path):
-        if self._path(path):
+        if self._steps(path):
             try:
                 nd = self._get_node_for_path(self._fs, path, throw=False)
                 if nd is None:
@@ -418,7 +419,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def isfile(self, path):
-        if self._path(path):
+        if self._steps(path):
             try:
                 nd = self._get_node_for_path(self._fs, path, throw=False)
                 if nd is None:
@@ -441,17 +442,17 @@ class MemoryFileSystem(FileSystem):
 
 
     def mkdir(self, path):
-        p = self._path(path)
-        if p:
-            nd = self._get_dir(p.split("/")[:-1])
-            dir_to_create = p.split("/")[-1]
+        steps = self._steps(path)
+        if steps:
+            nd = self._get_dir(steps[:-1])
+            dir_to_create = steps[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
 
 
     def exists(self, path):
-        if self._path(path):
+        if self._steps(path):
             try:
                 nd = self._get_node_for_path(self._fs, path, throw=False)
                 if nd is None:
@@ -476,11 +477,11 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_write(self, path, binary=False):
-        p = self._path(path)
-        if not p:
+        steps = self._steps(path)
+        if not steps:
             raise IOError(errno.EISDIR, "File is directory" )
-        nd = self._get_dir(p.split("/")[:-1])
-        file_to_create = p.split("/")[-1]
+        nd = self._get_dir(steps[:-1])
+        file_to_create = steps[-1]
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
@@ -489,7 +490,7 @@ class MemoryFileSystem(FileSystem):
             cnd.reset()
             return MemoryFileProxy(cnd, False, binary=binary)
         else:
-            f = MemoryFile(p)
+            f = MemoryFile("/".join(steps))
             self._create_child(nd, file_to_create, f)
             return MemoryFileProxy(f, False, binary=binary)
 
@@ -564,7 +565,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_dir([x for x in self._path(path).split("/") if x])
+        nd = self._get_dir(self._steps(path))
         return sorted(nd.keys())
 
 
@@ -573,18 +574,17 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, _ = self._get_node_prev(self._fs,
-                                        [x for x in self._path(path).split("/") if x],
-                                        follow_link=False)
+        steps = self._steps(path)
+        parent, _ = self._get_node_prev(self._fs, steps, follow_link=False)
         if parent is not None:
-            self._del_child(parent, path.last())
+            self._del_child(parent, steps[-1])
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
+        steps = self._steps(path)
+        prev, _ = self._get_node_prev(self._fs, steps)
         if prev is not None:
-            part = path.last()
+            part = steps[-1]
             if self._child(prev, part).isempty():
                 self._del_child(prev, part)
             else:
@@ -624,7 +624,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def islink(self, path):
-        if self._path(path):
+        if self._steps(path):
             nd = self._get_node_for_path(self._fs, path, follow_link=False,
                                          throw=False)
             if nd is None:
@@ -634,17 +634,17 @@ class MemoryFileSystem(FileSystem):
 
 
     def symlink(self, target, link_name):
-        p = self._path(link_name)
-        if p:
-            nd = self._get_dir(p.split("/")[:-1])
-            file_to_create = p.split("/")[-1]
+        steps = self._steps(link_name)
+        if steps:
+            nd = self._get_dir(steps[:-1])
+            file_to_create = steps[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
 
 
     def readlink(self, path):
-        if self._path(path):
+        if self._steps(path):
             nd = self._get_node_for_path(self._fs, path, follow_link=False)
             if nd.kind == NodeKind.LINK:
                 return nd.target
-- 
2.43.0


From 1c3b2934061832a24196c48d7d4ca2f217370b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 13/50] fix: memory: all handles of a file share one position

Opening or reading a file a second time moved the position of every other open
handle. Handles keep their own position now. In addition, a handle that is
opened for reading can't be written to, 'a' always writes to the end of the
file, the update modes are readable, and text mode reads count characters
instead of bytes (which tore multi byte characters apart).
---
 abl/vpath/base/memory.py | 220 ++++++++++++++++++++++++---------------
 1 file changed, 136 insertions(+), 84 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index dbf9078..8c16c50 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -1,5 +1,6 @@
 from __future__ import unicode_literals
 
+import codecs
 import mimetypes
 import hashlib
 import time
@@ -9,8 +10,6 @@ import sys
 import threading
 from collections import defaultdict
 
-from io import BytesIO
-
 from .fs import FileSystem, BaseUri
 
 from abl.util import Bunch, LockFileObtainException
@@ -29,135 +28,182 @@ class MemoryFile(object):
 
     def __init__(self, path):
         self.path = path
-        self._data = BytesIO()
-        self._line_reader = None
+        self._data = bytearray()
         self.mtime = self.ctime = time.time()
         self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
 
 
     def reset(self):
-        self._data = BytesIO()
-        self._line_reader = None
+        self._data = bytearray()
         self.mtime = self.ctime = time.time()
         self.mode = 0
         self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
-        pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
-        self._data.seek(pos)
-        return length
+        return len(self._data)
 
 
     def size(self):
-        return len(self._data.getvalue())
+        return len(self._data)
 
 
-    def write(self, d):
-        self._data.write(d)
+    def write(self, pos, d):
+        """
+        write d at position pos. A gap between the end of the file and pos is
+        filled with zeros.
+        """
+        if pos > len(self._data):
+            self._data.extend(bytes(pos - len(self._data)))
+        self._data[pos:pos + len(d)] = d
         self.mtime = time.time()
 
 
-    def read(self, size=-1):
-        return self._data.read(size)
+    def append(self, d):
+        self._data.extend(d)
+        self.mtime = time.time()
 
 
-    def seek(self, to, whence=0):
-        self._data.seek(to, whence)
+    def read(self, pos, size=-1):
+        end = None if size is None or size < 0 else pos + size
+        return bytes(self._data[pos:end])
 
 
-    def seekable(self):
-        return self._data.seekable()
+    def readline(self, pos):
+        end = self._data.find(b"\n", pos)
+        return self.read(pos, -1 if end < 0 else end + 1 - pos)
 
 
-    def tell(self):
-        return self._data.tell()
+    def truncate(self, size):
+        if size > len(self._data):
+            self._data.extend(bytes(size - len(self._data)))
+        else:
+            del self._data[size:]
+        self.mtime = time.time()
 
 
-    def flush(self):
-        return self._data.flush()
+    def __unicode__(self):
+        return bytes(self).decode('utf-8')
 
 
-    def truncate(self, pos=None):
-        return self._data.truncate(pos)
+    def __bytes__(self):
+        return bytes(self._data)
 
 
-    def seekable(self):
-        return self._data.seekable()
+    def __str__(self):
+        return str(bytes(self))
 
 
-    def __unicode__(self):
-        return self._data.getvalue().decode('utf-8')
+    def items(self):
+        return []
 
 
-    def __bytes__(self):
-        return self._data.getvalue()
+class MemoryFileProxy(object):
+    """
+    MemoryFileProxy: an open handle of a MemoryFile. Every handle has its own
+    position within the file.
+    """
 
+    def __init__(self, mem_file, readable, binary=False, writable=True, append=False):
+        self.mem_file = mem_file
+        self.readable = readable
+        self.writable = writable
+        self.append = append
+        self.binary = binary
+        self.pos = len(mem_file) if append else 0
 
-    def __str__(self):
-        return str(self._data.getvalue())
 
+    def encode(self, data):
 
-    def close(self):
-        self._line_reader = None
-        self._data.seek(0)
+        return data if self.binary or isinstance(data, bytes) else data.encode("utf-8")
 
+    def decode(self, data):
+        return data if self.binary else data.decode('utf-8')
 
-    def readline(self):
-        return self._data.readline()
 
+    def _check_readable(self):
+        if not self.readable:
+            raise IOError(errno.EBADF, "bad file descriptor")
 
-    def readlines(self):
-        for line in self:
-            yield line
 
+    def _check_writable(self):
+        if not self.writable:
+            raise IOError(errno.EBADF, "bad file descriptor")
 
-    def __next__(self):
-        line = self.readline()
-        if line:
-            return line
-        else:
-            raise StopIteration
 
+    def _read(self, size=-1):
+        data = self.mem_file.read(self.pos, size)
+        self.pos += len(data)
+        return data
 
-    next = __next__ # Python 2 iterator interface
 
+    def read(self, size=-1):
+        self._check_readable()
+        if self.binary or size is None or size < 0:
+            return self.decode(self._read(size))
+
+        # in text mode, size is the number of characters.
+        decoder = codecs.getincrementaldecoder('utf-8')()
+        text = ''
+        while len(text) < size:
+            data = self._read(size - len(text))
+            text += decoder.decode(data, final=not data)
+            if not data:
+                break
+        return text
+
+
+    def write(self, data):
+        self._check_writable()
+        encoded = self.encode(data)
+        if self.append:
+            self.mem_file.append(encoded)
+            self.pos = len(self.mem_file)
+        else:
+            self.mem_file.write(self.pos, encoded)
+            self.pos += len(encoded)
+        return len(data)
 
-    def __iter__(self):
-        return self
 
+    def writelines(self, lines):
+        for line in lines:
+            self.write(line)
 
-    def items(self):
-        return []
 
+    def seek(self, to, whence=0):
+        if whence == 1:
+            to += self.pos
+        elif whence == 2:
+            to += len(self.mem_file)
+        if to < 0:
+            raise IOError(errno.EINVAL, "Invalid argument")
+        self.pos = to
+        return to
 
-class MemoryFileProxy(object):
 
-    def __init__(self, mem_file, readable, binary=False):
-        self.mem_file = mem_file
-        self.readable = readable
-        self.binary = binary
+    def seekable(self):
+        return True
 
 
-    def encode(self, data):
+    def tell(self):
+        return self.pos
 
-        return data if self.binary or isinstance(data, bytes) else data.encode("utf-8")
 
-    def decode(self, data):
-        return data if self.binary else data.decode('utf-8')
+    def flush(self):
+        pass
 
 
-    def read(self, *args, **kwargs):
-        if not self.readable:
-            raise IOError(errno.EBADF, "bad file descriptor")
-        return self.decode(self.mem_file.read(*args, **kwargs))
+    def truncate(self, pos=None):
+        self._check_writable()
+        if pos is None:
+            pos = self.pos
+        self.mem_file.truncate(pos)
+        return pos
 
 
-    def write(self, data, *args, **kwargs):
-        return self.mem_file.write(self.encode(data), *args, **kwargs)
+    def close(self):
+        self.pos = 0
 
 
     def __getattr__(self, name):
@@ -177,19 +223,26 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
-        return self.decode(next(self.mem_file))
+        line = self.readline()
+        if line:
+            return line
+        else:
+            raise StopIteration
 
 
     next = __next__ # Python 2 iterator interface
 
 
     def readline(self):
-        return self.decode(self.mem_file.readline())
+        self._check_readable()
+        line = self.mem_file.readline(self.pos)
+        self.pos += len(line)
+        return self.decode(line)
 
 
     def readlines(self):
-        for line in self.mem_file.readlines():
-            yield self.decode(line)
+        for line in self:
+            yield line
 
 
 class MemoryDir(object):
@@ -470,13 +523,12 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p](path, func)
 
 
-    def _open_for_read(self, path, binary=False):
+    def _open_for_read(self, path, binary=False, update=False):
         nd = self._get_file(path)
-        nd.seek(0)
-        return MemoryFileProxy(nd, True, binary=binary)
+        return MemoryFileProxy(nd, True, binary=binary, writable=update)
 
 
-    def _open_for_write(self, path, binary=False):
+    def _open_for_write(self, path, binary=False, update=False):
         steps = self._steps(path)
         if not steps:
             raise IOError(errno.EISDIR, "File is directory" )
@@ -488,28 +540,28 @@ class MemoryFileSystem(FileSystem):
             if cnd is not None and cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             cnd.reset()
-            return MemoryFileProxy(cnd, False, binary=binary)
+            return MemoryFileProxy(cnd, update, binary=binary)
         else:
             f = MemoryFile("/".join(steps))
             self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, False, binary=binary)
+            return MemoryFileProxy(f, update, binary=binary)
 
 
-    def _open_for_append(self, path, binary=False):
+    def _open_for_append(self, path, binary=False, update=False):
         nd = self._get_file(path)
-        nd.seek(len(nd))
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, update, binary=binary, append=True)
 
 
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
             binary = (options and "b" in options)
+            update = bool(options and "+" in options)
             if options is None or "r" in options:
-                return self._open_for_read(path, binary=binary)
+                return self._open_for_read(path, binary=binary, update=update)
             elif "w" in options:
-                return self._open_for_write(path, binary=binary)
+                return self._open_for_write(path, binary=binary, update=update)
             elif "a" in options:
-                return self._open_for_append(path, binary=binary)
+                return self._open_for_append(path, binary=binary, update=update)
             else:
                 raise OSError(errno.EINVAL, "The mode flag is not valid")
 
-- 
2.43.0


From 9c2be00eeed4f9125a958682c71820b8ea6f9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 14/50] fix: memory: open('a') fails if the file does not exist
 yet

---
 abl/vpath/base/memory.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 8c16c50..f340ba5 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -528,7 +528,7 @@ class MemoryFileSystem(FileSystem):
         return MemoryFileProxy(nd, True, binary=binary, writable=update)
 
 
-    def _open_for_write(self, path, binary=False, update=False):
+    def _open_or_create(self, path):
         steps = self._steps(path)
         if not steps:
             raise IOError(errno.EISDIR, "File is directory" )
@@ -539,16 +539,21 @@ class MemoryFileSystem(FileSystem):
             cnd = self._child(nd, file_to_create)
             if cnd is not None and cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
-            cnd.reset()
-            return MemoryFileProxy(cnd, update, binary=binary)
+            return cnd
         else:
             f = MemoryFile("/".join(steps))
             self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, update, binary=binary)
+            return f
+
+
+    def _open_for_write(self, path, binary=False, update=False):
+        nd = self._open_or_create(path)
+        nd.reset()
+        return MemoryFileProxy(nd, update, binary=binary)
 
 
     def _open_for_append(self, path, binary=False, update=False):
-        nd = self._get_file(path)
+        nd = self._open_or_create(path)
         return MemoryFileProxy(nd, update, binary=binary, append=True)
 
 
-- 
2.43.0


From 10a3b320352d7d21a003a3fee45084e54f3a39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 15/50] fix: memory: writing to an existing file resets its
 mode

---
 abl/vpath/base/memory.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index f340ba5..da00b64 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -37,8 +37,6 @@ class MemoryFile(object):
     def reset(self):
         self._data = bytearray()
         self.mtime = self.ctime = time.time()
-        self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
-- 
2.43.0


From 919563c52e12ba85c2ba6847277aa451c5027ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 16/50] fix: memory: islink raises an exception for a path
 below a looping link

---
 abl/vpath/base/memory.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index da00b64..cd187a9 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -680,11 +680,16 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._steps(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
-            if nd is None:
-                return False
-            return nd.kind == NodeKind.LINK
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+                if nd is None:
+                    return False
+                return nd.kind == NodeKind.LINK
+            except OSError as e:
+                if e.errno == errno.ELOOP:
+                    return False
+                raise
         return False
 
 
-- 
2.43.0


From 03d2b4497e05ff978346777112734eebb4b2f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 17/50] fix: memory: file locks are shared between, and dropped
 by, other file systems

The locks were kept in a class attribute that was cleared by any new instance
of the file system: a lock that is held got lost, and files that have the same
path in different instances excluded each other.
---
 abl/vpath/base/memory.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index cd187a9..7ec2567 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -24,14 +24,12 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path):
+    def __init__(self, path, lock):
         self.path = path
         self._data = bytearray()
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
+        self.lock = lock
 
 
     def reset(self):
@@ -359,7 +357,7 @@ class MemoryFileSystem(FileSystem):
         self.lookup_exc_class = OSError
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self._file_locks = defaultdict(threading.Lock)
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -539,7 +537,7 @@ class MemoryFileSystem(FileSystem):
                 raise IOError(errno.EISDIR, "File is directory" )
             return cnd
         else:
-            f = MemoryFile("/".join(steps))
+            f = MemoryFile("/".join(steps), self._file_lock(path))
             self._create_child(nd, file_to_create, f)
             return f
 
@@ -646,6 +644,12 @@ class MemoryFileSystem(FileSystem):
                 raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
 
 
+    def _file_lock(self, path):
+        # The lock outlives the file: it's the same for a file that gets
+        # removed and created again.
+        return self._file_locks["/".join(self._steps(path))]
+
+
     def lock(self, path, fail_on_lock, cleanup):
         return MemoryLock(self, path, fail_on_lock, cleanup)
 
@@ -655,15 +659,11 @@ class MemoryFileSystem(FileSystem):
     def _manipulate(self, path, lock=SENTINEL, unlock=SENTINEL, mtime=SENTINEL,
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
-            res = lock.acquire()
+            res = self._file_lock(path).acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
-            p = self._path(path)
-            lock = MemoryFile(p).lock
-            lock.release()
+            self._file_lock(path).release()
 
         if mtime is not self.SENTINEL:
             nd = self._get_node_for_path(self._fs, path)
-- 
2.43.0


From e175eb3019ee7964c5f075c8938da45f2b1da6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 18/50] fix: memory: lock() truncates the file before the lock
 is acquired

A failing or waiting lock() destroyed what the owner of the lock has written,
and the file was removed by 'cleanup' after the lock was handed to the next
owner.
---
 abl/vpath/base/memory.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7ec2567..48491e2 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -314,20 +314,28 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
-        self.lock = mfile.lock
+        # only the owner of the lock may touch the content.
+        lock = self.fs._file_lock(self.path)
         if self.fail_on_lock:
-            if not self.lock.acquire(False):
+            if not lock.acquire(False):
                 raise LockFileObtainException
         else:
-            self.lock.acquire()
+            lock.acquire()
+        try:
+            mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
+        except:
+            lock.release()
+            raise
+        self.lock = lock
         return mfile
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
-        self.lock.release()
-        if self.cleanup:
-            self.path.remove()
+        try:
+            if self.cleanup and self.path.exists():
+                self.path.remove()
+        finally:
+            self.lock.release()
 
 
 class LookupExceptionClass(object):
@@ -645,6 +653,9 @@ class MemoryFileSystem(FileSystem):
 
 
     def _file_lock(self, path):
+        nd = self._get_node_for_path(self._fs, path, throw=False)
+        if nd is not None and nd.kind == NodeKind.FILE:
+            return nd.lock
         # The lock outlives the file: it's the same for a file that gets
         # removed and created again.
         return self._file_locks["/".join(self._steps(path))]
-- 
2.43.0


From 8c8a79b6b7034c69e5edac838942715421613eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 19/50] fix: memory: copystat looks up the destination in the
 wrong file system

---
 abl/vpath/base/memory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 48491e2..cc1d67c 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -620,9 +620,9 @@ class MemoryFileSystem(FileSystem):
 
     def copystat(self, src, dest):
         src_current = self._get_node_for_path(self._fs, src)
-        dest_current = self._get_node_for_path(self._fs, dest)
-        dest_current.mtime = src_current.mtime
-        dest_current.mode = src_current.mode
+        # dest might live in another instance of this file system
+        dest.get_connection().info(dest, dict(mtime=src_current.mtime,
+                                              mode=src_current.mode))
 
 
     def listdir(self, path):
-- 
2.43.0


From bbab97dc343d147baeb2e5fc665da19fcaed22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 20/50] fix: copy: wrong destination for files below the root
 or an unusual directory

The relative path of a directory was cut off at the wrong position if the
source is the root directory or has a trailing slash, and names lost their
leading and trailing white space.
---
 abl/vpath/base/fs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ae088a1..82f75bb 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -951,11 +951,9 @@ class FileSystem(object):
                 self._copy_link(source, droot)
             else:
                 droot.makedirs()
-                spth = source.path
-                spth_len = len(spth) + 1
+                spth_len = len(source.path.rstrip('/'))
                 for root, dirs, files in source.walk(followlinks=followlinks):
-                    rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = root.path[spth_len:].strip('/')
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From e5a2db66b298f4db27a3b6dc10e011d6c1ed9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 21/50] fix: copy: links are copied to the file system of the
 source

The link was created in (and a file removed from) the file system of the
source, even if the destination is located somewhere else. A dangling link or a
link to a directory at the destination is replaced now like any other link.
---
 abl/vpath/base/fs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 82f75bb..700b664 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -908,9 +908,14 @@ class FileSystem(object):
 
     def _copy_link(self, source, dest):
         assert self.islink(source)
-        if dest.isfile():
-            self.removefile(dest)
-        self.symlink(self.readlink(source), dest)
+        if source.scheme != dest.scheme:
+            # a link can't point to a file in a different kind of file system
+            raise OperationIsNotSupportedOnPlatform
+        target = self.readlink(source)
+        connection = dest.get_connection()
+        if dest.islink() or dest.isfile():
+            connection.removefile(dest)
+        connection.symlink(target, dest)
 
 
     def copy(self, source, dest, recursive=False, ignore=None,
-- 
2.43.0


From 10f72d38af2f4ed9c20d94a0dea64128edfafba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 22/50] fix: remove() silently ignores special files

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 700b664..2632f62 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -599,7 +599,7 @@ class BaseUri(object):
                 return remove_dir_recursively(self.connection, self)
             else:
                 return self.connection.removedir(self)
-        elif self.connection.isfile(self):
+        else:
             return self.connection.removefile(self)
 
 
-- 
2.43.0


From c1a9638b1865b9ef77fcfbb7eb83a41095cdee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 23/50] fix: copying or moving something onto or into itself
 destroys it

A file that was copied to itself (or to its directory, or to a link that leads
to it) got truncated, and removed by move. A directory that was copied into
itself, or to its own location, got its files truncated or was copied until
the recursion limit is reached.
---
 abl/vpath/base/fs.py      | 43 ++++++++++++++++++++++++++++++---------
 abl/vpath/base/localfs.py | 18 ++++++++++++++++
 abl/vpath/base/memory.py  | 23 +++++++++++++++++++++
 3 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 2632f62..6dd8b28 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -906,11 +906,33 @@ class FileSystem(object):
         pass
 
 
+    def _samefile(self, path, other):
+        """
+        @return: True if both paths, that belong to this file system, lead to
+                 the same file or directory.
+        """
+        return path.path.rstrip('/') == other.path.rstrip('/')
+
+
+    def _check_not_same(self, source, dest):
+        # writing to dest must not destroy what should be copied
+        if source.get_connection() is dest.get_connection() and self._samefile(source, dest):
+            raise shutil.SameFileError("%s and %s are the same file" % (source, dest))
+
+
+    def _check_not_inside(self, source, dest):
+        # the copy of a directory must not be part of the directory
+        if source.get_connection() is dest.get_connection() and \
+           (dest.path.rstrip('/') + '/').startswith(source.path.rstrip('/') + '/'):
+            raise shutil.SameFileError("%s is part of %s" % (dest, source))
+
+
     def _copy_link(self, source, dest):
         assert self.islink(source)
         if source.scheme != dest.scheme:
             # a link can't point to a file in a different kind of file system
             raise OperationIsNotSupportedOnPlatform
+        self._check_not_same(source, dest)
         target = self.readlink(source)
         connection = dest.get_connection()
         if dest.islink() or dest.isfile():
@@ -918,13 +940,19 @@ class FileSystem(object):
         connection.symlink(target, dest)
 
 
+    def _copy_file(self, source, dest):
+        self._check_not_same(source, dest)
+        with source.open('rb') as infs, dest.open('wb') as outfs:
+            shutil.copyfileobj(infs, outfs, 8192)
+        if source.scheme == dest.scheme:
+            self.copystat(source, dest)
+
+
     def copy(self, source, dest, recursive=False, ignore=None,
              followlinks=True):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
-
         if ignore is not None:
             ignore = set(ignore)
         else:
@@ -941,10 +969,7 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, dest)
             else:
-                with source.open('rb') as infs, dest.open('wb') as outfs:
-                    shutil.copyfileobj(infs, outfs, 8192)
-                if use_same_backend:
-                    self.copystat(source, dest)
+                self._copy_file(source, dest)
         else:
             assert source.isdir()
             if dest.isdir():
@@ -955,6 +980,7 @@ class FileSystem(object):
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
             else:
+                self._check_not_inside(source, droot)
                 droot.makedirs()
                 spth_len = len(source.path.rstrip('/'))
                 for root, dirs, files in source.walk(followlinks=followlinks):
@@ -981,10 +1007,7 @@ class FileSystem(object):
                         if srcf.islink() and not followlinks:
                             self._copy_link(srcf, destf)
                         else:
-                            with srcf.open('rb') as infs, destf.open('wb') as outfs:
-                                shutil.copyfileobj(infs, outfs, 8192)
-                            if use_same_backend:
-                                self.copystat(srcf, destf)
+                            self._copy_file(srcf, destf)
 
 
     def makedirs(self, path):
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..91b9324 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -116,6 +116,20 @@ class LocalFileSystem(FileSystem):
         return os.path.isdir(self._path(unc))
 
 
+    def _samefile(self, path, other):
+        p, o = self._path(path), self._path(other)
+        return os.path.exists(p) and os.path.exists(o) and os.path.samefile(p, o)
+
+
+    def _check_not_inside(self, source, dest):
+        if source.scheme == dest.scheme:
+            # relative paths and links don't tell much about the real location
+            src = os.path.realpath(self._path(source)).rstrip(os.sep) + os.sep
+            dst = os.path.realpath(self._path(dest)) + os.sep
+            if dst.startswith(src):
+                raise shutil.SameFileError("%s is part of %s" % (dest, source))
+
+
     def isexec(self, unc, mode_mask):
         return self.info(unc).mode & mode_mask != 0
 
@@ -145,6 +159,10 @@ class LocalFileSystem(FileSystem):
         if dest.scheme == 'file':
             if source.isdir() and dest.isdir():
                 dest /= source.basename()
+            if source.islink():
+                self._check_not_same(source, dest)
+            elif source.isdir():
+                self._check_not_inside(source, dest)
             return shutil.move(source.path, dest.path)
         else:
             return super(LocalFileSystem, self).move(source, dest)
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index cc1d67c..306a552 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -5,6 +5,7 @@ import mimetypes
 import hashlib
 import time
 import errno
+import shutil
 import stat
 import sys
 import threading
@@ -488,6 +489,28 @@ class MemoryFileSystem(FileSystem):
         return False
 
 
+    def _samefile(self, path, other):
+        if not (self.exists(path) and self.exists(other)):
+            return False
+        return self._get_node_for_path(self._fs, path) is \
+            self._get_node_for_path(self._fs, other)
+
+
+    def _check_not_inside(self, source, dest):
+        if source.get_connection() is dest.get_connection():
+            location = dest
+            while not self.exists(location):
+                location = location.directory()
+            location = self._get_node_for_path(self._fs, location)
+            nodes = [self._get_node_for_path(self._fs, source)]
+            while nodes:
+                nd = nodes.pop()
+                if nd is location:
+                    raise shutil.SameFileError("%s is part of %s" % (dest, source))
+                nodes.extend(child for _, child in nd.items()
+                             if child.kind == NodeKind.DIR)
+
+
     def isexec(self, path, mode_mask):
         return self.info(path).mode & mode_mask != 0
 
-- 
2.43.0


From ca378e3dbbdc68ec652ebe0077425c794e57786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 24/50] fix: threads may end up with different connections of
 the same key

Connections that are requested at the same time were created more than once,
every thread but the last one worked on a connection that is not registered
(and never closed). A connection that is removed by the cleaner in the same
moment resulted in a KeyError.
---
 abl/vpath/base/fs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 6dd8b28..35024a2 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -76,8 +76,12 @@ class ConnectionRegistry(object):
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+            conn = self.connections.get(key)
+            # another thread might have been faster
+            if conn is None:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                self.connections[key] = conn
+            return conn
 
 
     def get_connection(self,
@@ -127,9 +131,11 @@ class ConnectionRegistry(object):
             frozenset(extras.items())
             )
 
-        if not key in self.connections:
-            self.create(scheme, key, extras)
-        return self.connections[key]
+        # a connection might be removed by the cleaner at any time
+        conn = self.connections.get(key)
+        if conn is None:
+            conn = self.create(scheme, key, extras)
+        return conn
 
 
     def cleanup(self, force=False):
-- 
2.43.0


From 853739b51274e3ca0402e32c172b596d400c9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 25/50] fix: concurrent cleanups close connections twice

The slower one stopped with a KeyError, which terminates the cleaner thread.
A connection is removed before it gets closed now, such that it can't be
requested in the meantime.
---
 abl/vpath/base/fs.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 35024a2..ce5d2a9 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -68,6 +68,7 @@ class ConnectionRegistry(object):
         self.run_clean_thread = True
         self.clean_interval = clean_interval
         self.clean_timeout = clean_timeout
+        self.cleanup_lock = threading.RLock()
         self.cleaner_thread = threading.Thread(target=self.cleaner)
         self.cleaner_thread.setDaemon(True)
         self.cleaner_thread.start()
@@ -140,14 +141,17 @@ class ConnectionRegistry(object):
 
     def cleanup(self, force=False):
         now = time.time()
-        for key, conn in list(self.connections.items()):
-            if ((now - conn.last_used) > self.clean_timeout) or force:
-                try:
-                    conn.close()
-                except:
-                    print("### Exception while closing connection %s" % conn)
-                    traceback.print_exc()
-                del self.connections[key]
+        with self.cleanup_lock:
+            for key, conn in list(self.connections.items()):
+                if ((now - conn.last_used) > self.clean_timeout) or force:
+                    # nobody should get a closed connection
+                    if self.connections.pop(key, None) is None:
+                        continue
+                    try:
+                        conn.close()
+                    except:
+                        print("### Exception while closing connection %s" % conn)
+                        traceback.print_exc()
 
 
     def cleaner(self):
-- 
2.43.0


From 096dcdcae4c350f3d20ae5718427622ce6a504dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 26/50] fix: zip: the archive is open all the time, or not at
 all

exists, isdir and isfile failed on a fresh connection, a second open()
invalidated the handles that were already there, the content of other handles
got lost if several files were written at the same time, a file that was closed
explicitly was never written, and the backend never closed the archive.
---
 abl/vpath/base/zip.py | 77 ++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..285b348 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -3,6 +3,7 @@
 # Author: Stephan Diehl <stephan.diehl@ableton.com>
 #******************************************************************************
 
+from contextlib import contextmanager
 from io import BytesIO
 from zipfile import ZipFile
 
@@ -22,11 +23,14 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
-        self.zip_backend._ziphandle.writestr(self.path_string,
-                                             self.byte_buffer.getvalue())
-        self.byte_buffer.close()
-        self.zip_backend.close_zip()
-        self.zip_backend.open_zip()
+        self.close()
+
+
+    def close(self):
+        if not self.byte_buffer.closed:
+            self.zip_backend.write_item(self.path_string,
+                                        self.byte_buffer.getvalue())
+            self.byte_buffer.close()
 
 
     def __getattr__(self, attr):
@@ -103,36 +107,37 @@ class ZipFileSystem(FileSystem):
 
 
     def _initialize(self):
-        self._file_handle = None
-        self._ziphandle = None
+        pass
 
 
-    def close_zip(self):
-        if self._ziphandle is not None:
-            self._ziphandle.close()
-        if self._file_handle is not None:
-            self._file_handle.close()
+    @contextmanager
+    def open_zip(self, options='rb', zip_options='r'):
+        """
+        The archive is opened for a single operation only: whatever is going on
+        in the meantime, we always see the current content.
+        """
+        with self._zip_file_path().open(options) as file_handle:
+            with ZipFile(file_handle, zip_options) as zip_handle:
+                yield zip_handle
 
 
-    def open_zip(self, options=None):
-        self.close_zip()
-        if options is None or 'r' in options:
-            zip_options = 'r'
-            options = 'rb'
-        if 'w' in options:
-            if self._zip_file_path().isfile():
-                zip_options = 'a'
-                options = 'r+b'
-            else:
-                zip_options = 'w'
-                options = 'wb'
+    def items(self):
+        if not self._zip_file_path().isfile():
+            return []
+        with self.open_zip() as zip_handle:
+            return zip_handle.namelist()
 
-        self._file_handle = self._zip_file_path().open(options)
-        self._ziphandle = ZipFile(self._file_handle, zip_options)
+
+    def write_item(self, path_string, content):
+        if self._zip_file_path().isfile():
+            options, zip_options = 'r+b', 'a'
+        else:
+            options, zip_options = 'wb', 'w'
+        with self.open_zip(options, zip_options) as zip_handle:
+            zip_handle.writestr(path_string, content)
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
         if 'r' in options:
@@ -143,11 +148,11 @@ class ZipFileSystem(FileSystem):
 
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
-        try:
-            self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
-        except KeyError:
-            raise FileDoesNotExistError()
+        with self.open_zip() as zip_handle:
+            try:
+                return BytesIO(zip_handle.read(path_string))
+            except KeyError:
+                raise FileDoesNotExistError()
 
 
     def _open_for_writing(self, unc, options):
@@ -184,15 +189,11 @@ class ZipFileSystem(FileSystem):
     def listdir(self, unc):
         if not self._zip_file_path().exists():
             return []
-        if self._ziphandle is None:
-            self.open_zip()
         path_string = self._path(unc)
-        if path_string == '/' and self._ziphandle is None:
-            return []
         if not self.isdir(unc):
             raise FileDoesNotExistError()
         content_set = set()
-        for item in self._ziphandle.namelist():
+        for item in self.items():
             citem = content_item(path_string, item)
             if citem:
                 content_set.add(citem)
@@ -204,7 +205,7 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         if path_string == '/':
             return True
-        for item in self._ziphandle.namelist():
+        for item in self.items():
             result = compare_path_strings(path_string, item)
             if result in expected:
                 return True
-- 
2.43.0


From f2483ab44ee66b7a6ae5bcb7678d904de8e2efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 27/50] fix: zip: archives that were not written by us can't be
 read

Usually, the names within an archive have no leading slash. Additional and
trailing slashes of a path don't matter any longer.
---
 abl/vpath/base/zip.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 285b348..1617e1c 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -40,6 +40,14 @@ class WriteStatement(object):
 ISDIR = 1
 ISFILE = 2
 
+def item_path(name):
+    """
+    path of an item of the archive. We write names with a leading slash, but
+    usually there is none.
+    """
+    return '/' + name.lstrip('/')
+
+
 def content_item(path1, path2, path_sep='/'):
     """
     if path1 is subpart of path2, get the next path item.
@@ -110,6 +118,12 @@ class ZipFileSystem(FileSystem):
         pass
 
 
+    def _path(self, uriobj):
+        # like in any other file system, additional slashes don't matter
+        path = super(ZipFileSystem, self)._path(uriobj)
+        return '/' + '/'.join(x for x in path.split('/') if x)
+
+
     @contextmanager
     def open_zip(self, options='rb', zip_options='r'):
         """
@@ -125,7 +139,7 @@ class ZipFileSystem(FileSystem):
         if not self._zip_file_path().isfile():
             return []
         with self.open_zip() as zip_handle:
-            return zip_handle.namelist()
+            return [item_path(name) for name in zip_handle.namelist()]
 
 
     def write_item(self, path_string, content):
@@ -149,10 +163,11 @@ class ZipFileSystem(FileSystem):
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
         with self.open_zip() as zip_handle:
-            try:
-                return BytesIO(zip_handle.read(path_string))
-            except KeyError:
-                raise FileDoesNotExistError()
+            # if a file was written more than once, the last one counts
+            for name in reversed(zip_handle.namelist()):
+                if item_path(name) == path_string:
+                    return BytesIO(zip_handle.read(name))
+            raise FileDoesNotExistError()
 
 
     def _open_for_writing(self, unc, options):
-- 
2.43.0


From 9fa8800b518e8b7985af7038c18e111ea22a5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 28/50] fix: memory: dump fails for binary files

---
 abl/vpath/base/memory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 306a552..8c68b54 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -606,15 +606,15 @@ class MemoryFileSystem(FileSystem):
         def traverse(current, path="memory:///"):
             for name, value in sorted(current.items()):
                 if value.kind == NodeKind.FILE:
+                    content = bytes(value).decode('utf-8', 'replace')
                     if no_binary:
                         mt, _ = mimetypes.guess_type(name)
                         if mt in self.BINARY_MIME_TYPES:
                             hash_ = hashlib.md5()
-                            hash_.update(value)
-                            value = "Binary: %s" % hash_.hexdigest()
-                    proxy = MemoryFileProxy(value, readable=True, binary=False)
+                            hash_.update(bytes(value))
+                            content = "Binary: %s" % hash_.hexdigest()
                     outf.write("--- START %s%s ---\n" % (path, name))
-                    outf.write(proxy.read())
+                    outf.write(content)
                     outf.write("\n--- END ---\n\n")
                 elif value.kind == NodeKind.LINK:
                     outf.write("LINK: %s%s -> %s\n" % (path, name, value.target))
-- 
2.43.0


From c6f4f4d1dd17e7f7e0cd13b23732d28d1f2a709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 29/50] fix: WorkingDirectory restores the directory it was
 created in

What counts is the current directory at the time the context is entered.
---
 abl/vpath/base/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 193582d..be60321 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -41,13 +41,15 @@ class TempFileHandle(object):
 class WorkingDirectory(object):
 
     def __init__(self, working_path):
-        self.cwd = os.getcwd()
+        self.cwds = []
         self.working_path = working_path
 
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.working_path.path)
+        self.cwds.append(cwd)
 
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
-- 
2.43.0


From e878becca5b041340b47f9a21cd77adabbf40c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 30/50] fix: move replaces links with a copy of what they lead
 to

Unlike mv (and the local file system), which moves the link itself. A directory
that contains a dangling link could not be moved at all.
---
 abl/vpath/base/fs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ce5d2a9..6098444 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1036,11 +1036,13 @@ class FileSystem(object):
         """
         the semantic should be like unix 'mv' command
         """
+        # links are moved, not followed, as long as they can be recreated
+        followlinks = source.scheme != destination.scheme
         if source.isfile():
-            source.copy(destination)
+            source.copy(destination, followlinks=followlinks)
             source.remove()
         else:
-            source.copy(destination, recursive=True)
+            source.copy(destination, recursive=True, followlinks=followlinks)
             source.remove('r')
 
 
-- 
2.43.0


From e7084353065b3ff62ae8a6c44ff581d4acfbb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 31/50] fix: urljoin loses trailing slashes, and the host if
 the base has no path

The dot segments of the path are removed as described in STD 66 now, instead of
normalizing it like a file name.
---
 abl/vpath/base/uriparse.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 6ec0ef2..0e7153f 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -346,10 +346,26 @@ def _pathjoin(a,b):
     if not a or not b:
         return a or b
     elif not b.startswith('/'):
-        return a+'/'+b
+        return a+b
     else:
         return b
 
+def _remove_dot_segments(path):
+    # STD 66 Section 5.2.4
+    result = []
+    parts = path.split('/')
+    for part in parts:
+        if part == '..':
+            # the empty part in front of the leading slash stays
+            if result and result != ['']:
+                result.pop()
+        elif part != '.':
+            result.append(part)
+    if parts[-1] in ('.', '..'):
+        # what's left is a directory
+        result.append('')
+    return '/'.join(result)
+
 def urljoin(base, url):
     """Join a base URL and a (possiby relative) URL.
 
@@ -359,22 +375,22 @@ def urljoin(base, url):
     Returns the result as an absolute URL.
 
     """
-    import posixpath
     bscheme, bauthority, bpath, bquery, bfragment = urisplit(base)
     uscheme, uauthority, upath, uquery, ufragment = urisplit(url)
     if uscheme is not None and bscheme != uscheme:
         return url
     if uauthority is not None:
-        bauthority, bpath, bquery, bfragment = \
-            uauthority, upath, uquery, ufragment
+        bauthority, bpath, bquery = \
+            uauthority, _remove_dot_segments(upath), uquery
     elif upath != '':
-        bpath = posixpath.normpath(_pathjoin(_dirname(bpath), upath))
-        bquery, bfragment = uquery, ufragment
+        bdir = _dirname(bpath)
+        if bauthority is not None and not bdir:
+            bdir = '/'
+        bpath = _remove_dot_segments(_pathjoin(bdir, upath))
+        bquery = uquery
     elif uquery is not None:
-        bquery, bfragment = uquery, ufragment
-    elif ufragment is not None:
-        bfragment = ufragment
-    return uriunsplit((bscheme, bauthority, bpath, bquery, bfragment))
+        bquery = uquery
+    return uriunsplit((bscheme, bauthority, bpath, bquery, ufragment))
 
 
 
-- 
2.43.0


From fb5210534e6b256e8a34609d7444ee2dd206b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 32/50] fix: URIParser.unparse takes the scheme for the user
 name

In addition, authorities without a host and uris without an authority are
handled.
---
 abl/vpath/base/uriparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 0e7153f..4259913 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -153,7 +153,8 @@ def join_authority(authority):
         if passwd:
             result += ':' + passwd
         result += '@'
-    result += host
+    if host:
+        result += host
     if port:
         result += ':' + port
     return result
@@ -183,7 +184,7 @@ class URLParser:
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, passwd, host, port = split_authority(authority)
+        user, passwd, host, port = split_authority(authority or '')
         duser, dpasswd, dhost, dport, dpath, dquery, dfrag = self._defaults
         if user is None:
             user = duser
@@ -317,7 +318,7 @@ class URIParser(object):
         the rest of the pieces can be interpreted.
 
         """
-        return self.parser_for(pieces[0])(defaults).unparse(pieces)
+        return pieces[0] + ':' + self.parser_for(pieces[0])(defaults).unparse(pieces[1:])
 
     # these work on any URI
     def scheme_of(self, uri):
-- 
2.43.0


From d07fa4f46504c31809836ae4857ecd372196d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 33/50] fix: readlink of a local link cuts the target at a
 question mark

---
 abl/vpath/base/localfs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 91b9324..5644a21 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -191,7 +191,14 @@ class LocalFileSystem(FileSystem):
     def readlink(self, path):
         if not self.supports_symlinks():
             raise OperationIsNotSupportedOnPlatform
-        return URI(os.readlink(self._path(path)))
+        target = os.readlink(self._path(path))
+        if os.sep != '/':
+            return URI(target)
+        # the target is a plain path, none of its characters has a special
+        # meaning, see also BaseUri.__init__
+        if not (target == '.' or target.startswith(('/', './'))):
+            target = './' + target
+        return URI('/')._derive(target, {})
 
 
     def symlink(self, target, link_name):
-- 
2.43.0


From 926032983f2f669fddf546b93d9c82af25534090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 34/50] fix: mtime of local files is a datetime instead of
 seconds

---
 abl/vpath/base/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 5644a21..edb6e88 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -173,7 +173,7 @@ class LocalFileSystem(FileSystem):
 
 
     def mtime(self, path):
-        return self.info(path).mtime
+        return os.stat(self._path(path)).st_mtime
 
 
     def copystat(self, source, dest):
-- 
2.43.0


From 4e2662b9367f8381306bc5882da45fed8f04de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 35/50] fix: paths are cut at a line break behind a '#'

---
 abl/vpath/base/uriparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 4259913..f73849b 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -66,7 +66,7 @@ def urisplit(uri):
 
     """
     # only the authority can be an inner part, '((' is legal in a file name
-    inner_part = re.compile(r'[^:/?#]+://(\(\(.*?\)\))')
+    inner_part = re.compile(r'[^:/?#]+://(\(\(.*?\)\))', re.DOTALL)
     m = inner_part.match(uri)
     inner_value = ''
     if m is not None:
@@ -74,7 +74,7 @@ def urisplit(uri):
         uri = uri[:m.start(1)]+'__inner_part__'+uri[m.end(1):]
     # regex straight from STD 66 section B
     regex = '^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?'
-    p = re.match(regex, uri).groups()
+    p = re.match(regex, uri, re.DOTALL).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
     if authority is not None:
-- 
2.43.0


From 0c18da89b401e173350c8c96e4ad4557c98bcb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 36/50] fix: a file called '.<line break>' in the root is
 treated as a relative path

---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 6098444..e3db69d 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -245,7 +245,7 @@ def with_connection(func, self, *args, **argd):
 
 scheme_re = re.compile("([a-z+-]+)://")
 # 'scheme:///./some/path' is an alternative notation for a relative path
-relative_path_re = re.compile(r"/\.{1,2}(/|$)")
+relative_path_re = re.compile(r"/\.{1,2}(/|\Z)")
 
 def URI(uri, sep=os.sep, **extras):
     scheme = 'file'
-- 
2.43.0


From f6ac9e20fb9cdbd6b00c0c83fd26a1b48661917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 37/50] fix: query of an uri with a '#' in its path is not
 recognized

---
 abl/vpath/base/uriparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index f73849b..6321f78 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -86,7 +86,10 @@ def urisplit(uri):
     # it only has special meaning in urls (and relative references to them)
     if scheme not in ['http', 'https', None]:
         if fragment is not None:
-            path = '#'.join([path, fragment])
+            rest = '#'.join([path if query is None else '?'.join([path, query]), fragment])
+            path, mark, query = rest.partition('?')
+            if not mark:
+                query = None
             fragment = ''
     return (scheme, authority, path, query, fragment)
 
-- 
2.43.0


From 4020477a9b2183954dbc8ef676d3ce06aa7c8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 38/50] fix: port of an authority with an ip literal can't be
 determined

---
 abl/vpath/base/uriparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 6321f78..63fffa8 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -132,7 +132,11 @@ def split_authority(authority):
         user, passwd = userinfo.split(':', 1)
     else:
         user, passwd = userinfo, None
-    if hostport and ':' in hostport:
+    if hostport and hostport.startswith('[') and ']' in hostport:
+        # an ip literal might contain colons
+        host, port = hostport.split(']', 1)
+        host, port = host + ']', port[1:] or None
+    elif hostport and ':' in hostport:
         host, port = hostport.split(':', 1)
     else:
         host, port = hostport, None
-- 
2.43.0


From 12d65c20fe3c43938d2a910fa02d67020f497786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 39/50] fix: memory: writing nothing behind the end of a file
 extends it

---
 abl/vpath/base/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 8c68b54..75a35ec 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -154,7 +154,10 @@ class MemoryFileProxy(object):
     def write(self, data):
         self._check_writable()
         encoded = self.encode(data)
-        if self.append:
+        if not encoded:
+            # nothing happens, wherever we are
+            pass
+        elif self.append:
             self.mem_file.append(encoded)
             self.pos = len(self.mem_file)
         else:
-- 
2.43.0


From ec7ee51e0817a29feb875ecb5e0a9e19c343eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 40/50] fix: memory: locking a file fails with a KeyError if
 another thread removes it

---
 abl/vpath/base/memory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 75a35ec..b0556be 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -275,6 +275,10 @@ class MemoryDir(object):
         return self._files[name]
 
 
+    def find(self, name):
+        return self._files.get(name)
+
+
     def create(self, name, obj):
         self._files[name] = obj
 
@@ -373,8 +377,9 @@ class MemoryFileSystem(FileSystem):
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
-        if parent.has(name):
-            nd = parent.get(name)
+        # another thread might remove it between two lookups
+        nd = parent.find(name)
+        if nd is not None:
             if nd.kind == NodeKind.LINK:
                 if resolve_link:
                     # TODO: supports absolute links only for now
-- 
2.43.0


From cf0288f8a90d50ea7bc5b9b18a3e9e564963832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 41/50] fix: the root of an archive is no file

---
 abl/vpath/base/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 1617e1c..e79eac9 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -219,7 +219,7 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
+            return ISDIR in expected
         for item in self.items():
             result = compare_path_strings(path_string, item)
             if result in expected:
-- 
2.43.0


From 5d4f899b3cf726d19555c3d6a2ba3dff228762c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 42/50] fix: copystat to another file system alters the local
 file with the same path

---
 abl/vpath/base/localfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index edb6e88..3692c82 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -177,7 +177,13 @@ class LocalFileSystem(FileSystem):
 
 
     def copystat(self, source, dest):
-        shutil.copystat(source.path, dest.path)
+        if dest.scheme == source.scheme:
+            shutil.copystat(source.path, dest.path)
+        else:
+            # dest lives in another file system
+            stats = os.stat(self._path(source))
+            dest.get_connection().info(dest, dict(mtime=stats.st_mtime,
+                                                  mode=stats.st_mode))
 
 
     def supports_symlinks(self):
-- 
2.43.0


From 4c941770f9a435e37182b468aa7726dd184f0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 43/50] fix: symlink creates the link in the file system of its
 target

---
 abl/vpath/base/fs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index e3db69d..94ec7e5 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -744,7 +744,13 @@ class BaseUri(object):
 
         On systems which don't support symlinks this will throw.
         """
-        return self.connection.symlink(self, link_name)
+        connection = self.connection
+        if isinstance(link_name, BaseUri):
+            if link_name.scheme != self.scheme:
+                # a link can't point to a file in a different kind of file system
+                raise OperationIsNotSupportedOnPlatform
+            connection = link_name.get_connection()
+        return connection.symlink(self, link_name)
 
 
     @with_connection
-- 
2.43.0


From da8695b9e543f9da0720d702fbc5156775a40b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 44/50] fix: closing a TempFileHandle twice fails or removes
 another file

---
 abl/vpath/base/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index be60321..7103001 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -33,6 +33,9 @@ class TempFileHandle(object):
         return self.handle.read(limit)
 
     def close(self):
+        if self.handle.closed:
+            # the file of that name isn't ours anymore
+            return
         retval = self.handle.close()
         os.unlink(self.tmpfilename)
         return retval
-- 
2.43.0


From 24c4e19a40dfbf9b5cf39726653f812f071616f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 45/50] fix: TempFileHandle with a relative name removes
 another file after a change of the directory

---
 abl/vpath/base/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/misc.py b/abl/vpath/base/misc.py
index 7103001..d0d1bfe 100644
--- a/abl/vpath/base/misc.py
+++ b/abl/vpath/base/misc.py
@@ -20,7 +20,8 @@ class TempFileHandle(object):
     2. read the content once
     """
     def __init__(self, tmpfilename):
-        self.tmpfilename = tmpfilename
+        # the working directory might change before the file gets removed
+        self.tmpfilename = os.path.abspath(tmpfilename)
         self.handle = open(self.tmpfilename)
 
     def __enter__(self):
-- 
2.43.0


From 1eb019fff831fb4aed9e4fb59d497902773012c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 46/50] fix: lock of a file system without locks fails with an
 AttributeError

---
 abl/vpath/base/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 94ec7e5..980bf26 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1155,6 +1155,10 @@ class FileSystem(object):
         raise NotImplementedError
 
 
+    def lock(self, path, fail_on_lock, cleanup):
+        raise NotImplementedError
+
+
 class RevisionedFileSystem(FileSystem):
     def switch(self, revision):
         raise NotImplementedError
-- 
2.43.0


From a2ffcaa6de8476129de543fd3b2ec5a97f1aa3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 47/50] fix: opening an item of an archive for appending
 returns None

---
 abl/vpath/base/zip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index e79eac9..1d73693 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -158,6 +158,7 @@ class ZipFileSystem(FileSystem):
             return self._open_for_reading(unc, options)
         elif 'w' in options:
             return self._open_for_writing(unc, options)
+        raise NotImplementedError
 
 
     def _open_for_reading(self, unc, options):
-- 
2.43.0


From 8ea4f9709b4d23174b9014ea07945b2b6a7e8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 48/50] fix: threads that use one archive at the same time lose
 files

---
 abl/vpath/base/zip.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 1d73693..1ab0880 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -5,6 +5,7 @@
 
 from contextlib import contextmanager
 from io import BytesIO
+from threading import RLock
 from zipfile import ZipFile
 
 from .fs import FileSystem, BaseUri, URI
@@ -115,7 +116,9 @@ class ZipFileSystem(FileSystem):
 
 
     def _initialize(self):
-        pass
+        # threads share the connection, but the archive can't be read while
+        # somebody writes an item
+        self._lock = RLock()
 
 
     def _path(self, uriobj):
@@ -130,25 +133,28 @@ class ZipFileSystem(FileSystem):
         The archive is opened for a single operation only: whatever is going on
         in the meantime, we always see the current content.
         """
-        with self._zip_file_path().open(options) as file_handle:
+        with self._lock, self._zip_file_path().open(options) as file_handle:
             with ZipFile(file_handle, zip_options) as zip_handle:
                 yield zip_handle
 
 
     def items(self):
-        if not self._zip_file_path().isfile():
-            return []
-        with self.open_zip() as zip_handle:
-            return [item_path(name) for name in zip_handle.namelist()]
+        with self._lock:
+            # a new archive is incomplete until the first item is written
+            if not self._zip_file_path().isfile():
+                return []
+            with self.open_zip() as zip_handle:
+                return [item_path(name) for name in zip_handle.namelist()]
 
 
     def write_item(self, path_string, content):
-        if self._zip_file_path().isfile():
-            options, zip_options = 'r+b', 'a'
-        else:
-            options, zip_options = 'wb', 'w'
-        with self.open_zip(options, zip_options) as zip_handle:
-            zip_handle.writestr(path_string, content)
+        with self._lock:
+            if self._zip_file_path().isfile():
+                options, zip_options = 'r+b', 'a'
+            else:
+                options, zip_options = 'wb', 'w'
+            with self.open_zip(options, zip_options) as zip_handle:
+                zip_handle.writestr(path_string, content)
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-- 
2.43.0


From 7570330fe2286f64218d7bddbb06de8a30cc4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 49/50] fix: default of switch and log of revisioned file
 systems fail with a TypeError

---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 980bf26..60f4360 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1160,7 +1160,7 @@ class FileSystem(object):
 
 
 class RevisionedFileSystem(FileSystem):
-    def switch(self, revision):
+    def switch(self, path, branch):
         raise NotImplementedError
 
 
@@ -1168,7 +1168,7 @@ class RevisionedFileSystem(FileSystem):
         raise NotImplementedError
 
 
-    def log(self, path, limit=0):
+    def log(self, path, limit=0, **kwargs):
         raise NotImplementedError
 
 
-- 
2.43.0


From bd6d06011d9f4e39604fc4d3dab11d620185d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 50/50] fix: URIParser.info_of returns everything behind the
 scheme

A port or any other ':' in the rest of the URI cut it off.
---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 63fffa8..7418af5 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -334,7 +334,7 @@ class URIParser(object):
 
     def info_of(self, uri):
         """Return the non-scheme part of any URI."""
-        return uri.split(':')[1]
+        return uri.split(':', 1)[1]
 
     def parser_for(self, uri):
         """Return the Parser object used to parse a particular URI.
-- 
2.43.0

