"""
Reference model of a POSIX file tree (files, directories, absolute links).

Paths are tuples of names. Every operation either returns a value, raises Err
(the operation has to fail), or raises Unspec (the property says nothing about
this situation: it isn't driven).
"""
import fnmatch


class Err(Exception):
    """
    the operation has to fail
    partial: None, or the path below which the state is unspecified afterwards
    """
    def __init__(self, what, partial=None):
        super(Err, self).__init__(what)
        self.partial = partial


class Unspec(Exception):
    pass


class File(object):
    kind = "f"

    def __init__(self, data=b"", exe=0):
        self.data = data
        self.exe = exe


class Dir(object):
    kind = "d"

    def __init__(self):
        self.ch = {}


class Link(object):
    kind = "l"

    def __init__(self, target):
        self.target = tuple(target)


class Special(object):
    "fifo, socket"
    kind = "s"

    def __init__(self, fmt):
        self.fmt = fmt


MAX_LINKS = 30


class Tree(object):
    def __init__(self):
        self.root = Dir()
        self.trace = None

    def _traversed(self, *paths):
        "the links that are passed on the way to the paths"
        self.trace = []
        try:
            for p in paths:
                try:
                    self.lookup(p, follow=False)
                except Err:
                    pass
            return self.trace
        finally:
            self.trace = None

    def _traversed_all(self, path):
        "number of links that are passed"
        self.trace = []
        try:
            self.lookup(path)
        except (Err, Unspec):
            pass
        n, self.trace = len(self.trace), None
        return n

    def _through(self, victim, *paths):
        "does one of the paths lead through something that is about to vanish?"
        gone = self._subtree(victim) if victim.kind == "d" else [victim]
        if any(x is y for x in self._traversed(*paths) for y in gone):
            raise Unspec("path leads through what is removed")

    def _dangling(self):
        res = []

        def rec(d, p):
            for n, x in d.ch.items():
                if x.kind == "d":
                    rec(x, p + (n,))
                elif x.kind == "l":
                    try:
                        alive = self.node(p + (n,)) is not None
                    except Unspec:
                        alive = True
                    if not alive:
                        res.append(x)
        rec(self.root, ())
        return res

    # -- observation -------------------------------------------------------

    def snapshot(self, exe=True):
        res = {}

        def rec(d, p):
            for n, x in d.ch.items():
                q = p + (n,)
                if x.kind == "f":
                    res[q] = ("f", bytes(x.data), x.exe if exe else 0)
                elif x.kind == "l":
                    res[q] = ("l", x.target)
                elif x.kind == "s":
                    res[q] = ("s", x.fmt)
                else:
                    res[q] = ("d",)
                    rec(x, q)
        rec(self.root, ())
        return res

    def load(self, snap):
        self.root = Dir()
        for q in sorted(snap):
            v = snap[q]
            x = Dir() if v[0] == "d" else File(v[1], v[2]) if v[0] == "f" else Special(v[1]) if v[0] == "s" else Link(v[1])
            self._at(q[:-1]).ch[q[-1]] = x

    def _at(self, p):
        x = self.root
        for n in p:
            x = x.ch[n]
        return x

    # -- resolution --------------------------------------------------------

    def lookup(self, path, follow=True):
        """
        @return: (parent directory, name, node, real path); node is None if the
                 name doesn't exist in an existing directory
        """
        todo = list(path)
        cur, real = self.root, []
        links = 0
        if not todo:
            return None, None, self.root, ()
        seen_limit = 200
        while todo:
            n = todo.pop(0)
            if cur.kind != "d":
                raise Err("ENOTDIR")
            x = cur.ch.get(n)
            if x is None:
                if todo:
                    raise Err("ENOENT")
                if links > MAX_LINKS:
                    raise Unspec("too many links")
                return cur, n, None, tuple(real) + (n,)
            if x.kind == "l" and (todo or follow):
                links += 1
                if self.trace is not None:
                    self.trace.append(x)
                if links > seen_limit:
                    raise Err("ELOOP")
                todo = list(x.target) + todo
                cur, real = self.root, []
                if not todo:
                    if links > MAX_LINKS:
                        raise Unspec("too many links")
                    return None, None, self.root, ()
                continue
            if not todo:
                if links > MAX_LINKS:
                    raise Unspec("too many links")
                return cur, n, x, tuple(real) + (n,)
            cur = x
            real.append(n)
        raise AssertionError

    def node(self, path, follow=True):
        "node, or None if there is nothing to be found"
        try:
            return self.lookup(path, follow)[2]
        except Err:
            return None

    def need(self, path, follow=True):
        x = self.lookup(path, follow)[2]
        if x is None:
            raise Err("ENOENT")
        return x

    # -- predicates --------------------------------------------------------

    def exists(self, p):
        return self.node(p) is not None

    def isfile(self, p):
        x = self.node(p)
        return x is not None and x.kind == "f"

    def isdir(self, p):
        x = self.node(p)
        return x is not None and x.kind == "d"

    def islink(self, p):
        x = self.node(p, follow=False)
        return x is not None and x.kind == "l"

    def readlink(self, p):
        x = self.need(p, follow=False)
        if x.kind != "l":
            raise Err("EINVAL")
        return x.target

    # -- simple operations -------------------------------------------------

    def listdir(self, p):
        x = self.need(p)
        if x.kind != "d":
            raise Err("ENOTDIR")
        return sorted(x.ch)

    def glob(self, p, pattern):
        return [n for n in self.listdir(p) if fnmatch.fnmatch(n, pattern)]

    def read(self, p):
        x = self.need(p)
        if x.kind != "f":
            raise Err("EISDIR")
        return bytes(x.data)

    def size(self, p):
        x = self.need(p)
        if x.kind != "f":
            raise Unspec("size of a directory")
        return len(x.data)

    def _for_writing(self, p):
        if not p:
            raise Err("EISDIR")
        link = self.lookup(p, follow=False)[2]
        if link is not None and link.kind == "l":
            try:
                x = self.lookup(p)[2]
            except Err as e:
                if str(e) == "ELOOP":
                    raise
                raise Unspec("writing through a dangling link")
            if x is None:
                raise Unspec("writing through a dangling link")
            if x.kind == "d":
                raise Err("EISDIR")
            return x
        parent, name, x, _ = self.lookup(p)
        if x is None:
            x = parent.ch[name] = File()
            return x
        if x.kind == "d":
            raise Err("EISDIR")
        return x

    def write(self, p, data):
        self._for_writing(p).data = bytes(data)

    def append(self, p, data):
        x = self._for_writing(p)
        x.data = x.data + bytes(data)

    def mkdir(self, p):
        if not p:
            raise Unspec("mkdir of the root")
        parent, name, x, _ = self.lookup(p, follow=False)
        if x is not None:
            raise Err("EEXIST")
        parent.ch[name] = Dir()

    def makedirs(self, p):
        if self.isdir(p):
            return
        for i in range(1, len(p) + 1):
            q = p[:i]
            if not self.isdir(q):
                if i < len(p):
                    self._check_makedir(q)
                self.mkdir(q)

    def _check_makedir(self, q):
        self.lookup(q, follow=False)

    def remove(self, p, recursive):
        if not p:
            raise Unspec("removing the root")
        parent, name, x, _ = self.lookup(p, follow=False)
        if x is None:
            raise Err("ENOENT")
        if x.kind == "d" and x.ch and not recursive:
            raise Err("ENOTEMPTY")
        self._through(x, p)
        del parent.ch[name]

    def symlink(self, target, link):
        if not link:
            raise Unspec("link at the root")
        parent, name, x, _ = self.lookup(link, follow=False)
        if x is not None:
            raise Err("EEXIST")
        parent.ch[name] = Link(target)

    def set_exec(self, p, mode):
        x = self.need(p)
        if x.kind != "f":
            raise Unspec("mode of directories")
        x.exe = mode & 0o111

    def isexec(self, p, mask):
        x = self.need(p)
        if x.kind != "f":
            raise Unspec("mode of directories")
        return x.exe & mask != 0

    # -- walk --------------------------------------------------------------

    def walk(self, p, topdown=True, follow=True, prune=()):
        res = []
        self._walk(tuple(p), topdown, follow, prune, res, [])
        return res

    def _walk(self, p, topdown, follow, prune, res, ancestors):
        x = self.need(p)
        if x.kind != "d":
            raise Err("ENOTDIR")
        if x in ancestors:
            raise Unspec("walking in circles")
        if len(p) > 30:
            raise Unspec("deep walk")
        dirs, files = [], []
        for n in sorted(x.ch):
            (dirs if self.isdir(p + (n,)) else files).append(n)
        if len(res) > 400:
            raise Unspec("large walk")
        if topdown:
            res.append((p, list(dirs), list(files)))
        for n in dirs:
            if topdown and n in prune:
                continue
            if x.ch[n].kind == "l" and not follow:
                continue
            self._walk(p + (n,), topdown, follow, prune, res, ancestors + [x])
        if not topdown:
            res.append((p, list(dirs), list(files)))

    # -- copy and move -----------------------------------------------------

    def _subtree(self, d):
        "all nodes below a directory, links not followed"
        res = [d]
        for x in d.ch.values():
            if x.kind == "d":
                res.extend(self._subtree(x))
            else:
                res.append(x)
        return res

    def copy(self, src, dst, recursive, ignore=(), follow=True, other=None, links=True, keep_exe=True):
        """
        other: tree of the destination (default: the same)
        links: are links supported between source and destination
        """
        to = self if other is None else other
        s = self.node(src)
        if s is None:
            if self.islink(src) and not follow:
                raise Unspec("copying a dangling link")
            raise Err("ENOENT")
        if not recursive and s.kind != "f":
            raise Err("ASSERT")
        if recursive and s.kind != "d":
            raise Err("ASSERT")
        is_link = self.islink(src)
        real_dst = tuple(dst)
        if to.isdir(dst):
            if not src:
                raise Unspec("the root has no name")
            real_dst = tuple(dst) + (src[-1],)
        if not recursive:
            if is_link and not follow:
                self._copy_link(src, real_dst, to, links)
            else:
                self._copy_file(src, real_dst, to, keep_exe)
            return real_dst
        if is_link and not follow:
            self._copy_link(src, real_dst, to, links)
            return real_dst
        dangling = self._dangling() if to is self else ()
        try:
            self._copy_tree(src, real_dst, to, ignore, follow, links, keep_exe)
        finally:
            if dangling:
                still = self._dangling()
                if any(not any(x is y for y in still) for x in dangling):
                    raise Unspec("copying makes dangling links work")
        return real_dst

    def _same(self, src, dst, to):
        if to is not self:
            return False
        a, b = self.node(src), self.node(dst)
        return a is not None and a is b

    def _copy_link(self, src, dst, to, links):
        if not links:
            raise Err("ENOTSUP")
        if self._same(src, dst, to):
            raise Err("SAME")
        target = self.readlink(src)
        if not dst:
            raise Err("EISDIR")
        parent, name, x, _ = to.lookup(dst, follow=False)
        if x is not None and x.kind == "d":
            raise Err("EEXIST")
        if x is not None and x.kind == "l":
            # the path of the destination must not lead through the link that is replaced
            del parent.ch[name]
            try:
                lost = to.lookup(dst, follow=False)[0] is not parent
            except Err:
                lost = True
            parent.ch[name] = x
            if lost:
                raise Unspec("destination leads through itself")
        parent.ch[name] = Link(target)

    def _copy_file(self, src, dst, to, keep_exe):
        if self._same(src, dst, to):
            raise Err("SAME")
        s = self.need(src)
        if s.kind != "f":
            raise Err("EISDIR")
        d = to._for_writing(dst)
        d.data = bytes(s.data)
        if keep_exe:
            d.exe = s.exe

    def _copy_tree(self, src, dst, to, ignore, follow, links, keep_exe):
        top = self.need(src)
        if to is self:
            # nearest existing ancestor
            q = dst
            while self.node(q) is None:
                if self.islink(q):
                    raise Unspec("destination below a dangling link")
                q = q[:-1]
            if self.node(q) in self._subtree(top):
                raise Err("INSIDE")
        existing = to.node(dst)
        fresh = existing is None
        if existing is not None:
            if existing.kind == "d":
                if any(x.kind == "l" for x in to._subtree(existing)):
                    raise Unspec("merging into a tree with links")
        if to is self and follow:
            # what is reached through links must not be part of the destination
            q = dst
            while self.node(q) is None:
                q = q[:-1]
            anchor = self.node(q)
            anchors = [anchor]
            real = self.lookup(q)[3]
            for i in range(len(real)):
                anchors.append(self._at(real[:i]))
            for p, dirs, files in self.walk(src, follow=True, prune=tuple(ignore)):
                x = self.node(p)
                if x is not top and (x in anchors[:1] or (x in anchors and self._linked(src, p))):
                    raise Unspec("copying a tree that contains the destination")
                if existing is not None and existing.kind == "d" and x in self._subtree(existing):
                    raise Unspec("copying a tree that contains the destination")
                for f in files:
                    y = self.node(p + (f,))
                    if existing is not None and existing.kind == "d" and y is not None and \
                       y in self._subtree(existing):
                        raise Unspec("copying a file of the destination")
        # plan first: the walk is lazy, but the source doesn't change any more
        plan = self.walk(src, follow=follow, prune=tuple(ignore))
        try:
            to.makedirs(dst)
        except Err as e:
            raise Err(str(e), partial=dst)
        try:
            for p, dirs, files in plan:
                base = dst + p[len(src):]
                for n in dirs:
                    if n in ignore:
                        continue
                    if self.islink(p + (n,)) and not follow:
                        self._copy_link(p + (n,), base + (n,), to, links)
                    else:
                        to.makedirs(base + (n,))
                for n in files:
                    if self.islink(p + (n,)) and not follow:
                        self._copy_link(p + (n,), base + (n,), to, links)
                    else:
                        self._copy_file(p + (n,), base + (n,), to, keep_exe)
        except Err as e:
            raise Err(str(e), partial=dst)

    def _linked(self, src, p):
        for i in range(len(src) + 1, len(p) + 1):
            if self.islink(p[:i]):
                return True
        return False

    def move(self, src, dst, local=False):
        """
        within one file system
        local: situations in which os.rename is known to differ are unspecified
        """
        if not src:
            raise Unspec("moving the root")
        s = self.node(src)
        is_link = self.islink(src)
        if s is None:
            if is_link:
                raise Unspec("moving a dangling link")
            raise Err("ENOENT")
        real_dst = tuple(dst)
        if self.isdir(dst):
            real_dst = real_dst + (src[-1],)
            if self.node(real_dst, follow=False) is not None:
                raise Unspec("there is something of that name in the destination")
        elif self.islink(dst):
            raise Unspec("destination is a link")
        self._through(self.need(src, follow=False), src, dst, real_dst)
        if is_link:
            if self._same(src, real_dst, self):
                raise Unspec("same file")
            if self.node(real_dst, follow=False) is not None:
                raise Unspec("moving a link to something that exists")
            parent, name, x, _ = self.lookup(real_dst, follow=False)
            old = self.lookup(src, follow=False)
            node = old[2]
            del old[0].ch[old[1]]
            parent.ch[name] = node
            return
        if s.kind == "f":
            if self._same(src, real_dst, self):
                raise Unspec("same file")
            d = self.node(real_dst, follow=False)
            if d is not None and d.kind != "f":
                raise Unspec("destination is not a file")
            parent, name, x, _ = self.lookup(real_dst, follow=False)
            old = self.lookup(src, follow=False)
            node = old[2]
            del old[0].ch[old[1]]
            parent.ch[name] = node
            return
        # directory
        q = real_dst
        while self.node(q) is None:
            if self.islink(q):
                raise Unspec("destination below a dangling link")
            q = q[:-1]
        if self.node(q) in self._subtree(s):
            raise Err("INSIDE")
        d = self.node(real_dst, follow=False)
        if d is not None:
            raise Err("EEXIST")
        if self.node(q).kind != "d":
            raise Err("ENOTDIR")
        self.makedirs(real_dst[:-1])
        parent, name, x, _ = self.lookup(real_dst, follow=False)
        old = self.lookup(src, follow=False)
        node = old[2]
        del old[0].ch[old[1]]
        parent.ch[name] = node
