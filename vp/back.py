"""
Access to the code under test: the public API on one side, independent
observation of the results on the other side.
"""
import os
import stat

from . import guard
from .core import Violation
from .model import Unspec


def api():
    import abl.vpath.base as base
    return base


def reset_registry():
    from abl.vpath.base.fs import CONNECTION_REGISTRY
    CONNECTION_REGISTRY.cleanup(force=True)


class Backend(object):
    """
    decoration: how additional slashes are inserted into a path
    """
    links = True
    unsorted = False

    def uri(self, path, deco=None):
        u = self.root
        if deco and path:
            text = ""
            for i, n in enumerate(path):
                text += n + "/" * (1 + (deco[i % len(deco)] if i < len(path) - 1 else 0))
            text = text[:-1]
            if deco[0] == -1:
                text = "/".join(path) + "/"
            return u.join(text)
        for n in path:
            u = u / n
        return u

    def plain_uri(self, path):
        "built from a single string"
        raise NotImplementedError

    def topath(self, uri):
        raise NotImplementedError


class Mem(Backend):
    kind = "memory"

    def __init__(self, query=None, kwargs=None, top=()):
        self.query = query
        text = "memory:///" + ("?" + query if query else "")
        self.root = api().URI(text, **(kwargs or {}))
        self.top = tuple(top)

    def topath(self, uri):
        if uri.scheme != "memory":
            raise Violation("not a memory uri: %r" % uri)
        return tuple(x for x in uri.path.split("/") if x)

    def snapshot(self):
        "through the public API, but without walk, copy, ..."
        res = {}

        def rec(u, p):
            for n in u.listdir():
                v, q = u / n, p + (n,)
                if q in res:
                    raise Violation("%r is listed twice" % (q,))
                if v.islink():
                    res[q] = ("l", self.topath(v.readlink()))
                elif v.isdir():
                    res[q] = ("d",)
                    if len(q) > 100:
                        raise Violation("tree is too deep: %r" % (q,))
                    rec(v, q)
                elif v.isfile():
                    h = v.open("rb")
                    try:
                        res[q] = ("f", h.read(), v.info().mode & 0o111)
                    finally:
                        h.close()
                else:
                    raise Violation("%r is listed, but it is nothing" % (q,))
        rec(self.root, ())
        return res


class Loc(Backend):
    kind = "file"

    def __init__(self, base, root=None):
        self.base = base
        self.root = api().URI(base) if root is None else root

    def abspath(self, path):
        return os.path.join(self.base, *path) if path else self.base

    def topath(self, uri):
        p = os.path.normpath(uri.path)
        if p == self.base:
            return ()
        if not p.startswith(self.base + "/"):
            raise Violation("%r is not below %r" % (p, self.base))
        return tuple(p[len(self.base) + 1:].split("/"))

    def snapshot(self):
        "with plain os calls"
        return os_snapshot(self.base)


class Zip(Backend):
    """
    archive, observed with the zipfile module
    where: ("os", path of the archive) or ("memory", path in a memory file system)
    """
    kind = "zip"
    links = False

    def __init__(self, where, query=""):
        self.where = where
        self.archive = where[1] if where[0] == "os" else "memory://" + where[1]
        self.root = api().URI("zip://((%s))/%s" % (self.archive, query))

    def topath(self, uri):
        if uri.scheme != "zip":
            raise Violation("not a zip uri: %r" % uri)
        return tuple(x for x in uri.path.split("/") if x)

    def raw(self):
        if self.where[0] == "os":
            with guard.trusted():
                if not os.path.exists(self.where[1]):
                    return None
                with open(self.where[1], "rb") as f:
                    return f.read()
        u = api().URI(self.archive)
        if not u.exists():
            return None
        with u.open("rb") as f:
            return f.read()

    def put(self, data):
        if self.where[0] == "os":
            with guard.trusted():
                with open(self.where[1], "wb") as f:
                    f.write(data)
        else:
            with api().URI(self.archive).open("wb") as f:
                f.write(data)

    def snapshot(self):
        data = self.raw()
        res = {}
        if data is None:
            return res
        import io
        import zipfile
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            bad = z.testzip()
            if bad is not None:
                raise Violation("the archive is broken at %r" % bad)
            infos = {}
            for i in z.infolist():
                infos[i.filename] = i       # the last one counts
            for name, i in infos.items():
                p = tuple(x for x in name.split("/") if x)
                for k in range(1, len(p)):
                    res.setdefault(p[:k], ("d",))
                if name.endswith("/"):
                    res.setdefault(p, ("d",))
                else:
                    res[p] = ("f", z.read(i), 0)
        return res


def zip_bytes(snap, lead=False, dirs=True):
    "an archive with the content of a tree, written by the zipfile module"
    import io
    import zipfile
    import warnings
    out = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for p in sorted(snap):
                v = snap[p]
                name = ("/" if lead else "") + "/".join(p)
                if v[0] == "d":
                    if dirs:
                        z.writestr(name + "/", b"")
                else:
                    z.writestr(name, v[1])
    return out.getvalue()


def os_snapshot(base, link_base=None):
    res = {}
    link_base = base if link_base is None else link_base

    def rec(d, p):
        for n in os.listdir(d):
            full, q = os.path.join(d, n), p + (n,)
            st = os.lstat(full)
            if stat.S_ISLNK(st.st_mode):
                t = os.readlink(full)
                if t == link_base:
                    t = ()
                elif t.startswith(link_base + "/"):
                    t = tuple(x for x in t[len(link_base) + 1:].split("/") if x)
                else:
                    t = (t,)
                res[q] = ("l", t)
            elif stat.S_ISDIR(st.st_mode):
                res[q] = ("d",)
                rec(full, q)
            elif stat.S_ISREG(st.st_mode):
                with open(full, "rb") as f:
                    res[q] = ("f", f.read(), st.st_mode & 0o111)
            else:
                res[q] = ("s", stat.S_IFMT(st.st_mode))
    with guard.trusted():
        rec(base, ())
    return res


def build_os(base, snap):
    "create a tree with plain os calls"
    with guard.trusted():
        for q in sorted(snap):
            v = snap[q]
            full = os.path.join(base, *q)
            if v[0] == "d":
                os.mkdir(full)
            elif v[0] == "f":
                with open(full, "wb") as f:
                    f.write(v[1])
                os.chmod(full, 0o644 | v[2] if len(v) > 2 else 0o644)
            elif v[0] == "l":
                os.symlink(os.path.join(base, *v[1]) if v[1] else base, full)
            elif v[0] == "s":
                os.mknod(full, v[1] | 0o644)


def build(be, snap):
    "create a tree through primitive operations of the API"
    for q in sorted(snap):
        v = snap[q]
        u = be.uri(q)
        if v[0] == "d":
            u.mkdir()
        elif v[0] == "f":
            with u.open("wb") as f:
                f.write(v[1])
            if len(v) > 2 and v[2]:
                u.set_exec(v[2])
    for q in sorted(snap):
        v = snap[q]
        if v[0] == "l":
            be.uri(v[1]).symlink(be.uri(q))


def diff(expected, got, limit=4):
    res = []
    for q in sorted(set(expected) | set(got)):
        a, b = expected.get(q), got.get(q)
        if a != b:
            res.append("%s: expected %s, found %s" % ("/".join(q), short(a), short(b)))
    return "; ".join(res[:limit]) + (" (+%d)" % (len(res) - limit) if len(res) > limit else "")


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:80] + "...(%d)..." % len(s) + s[-25:]


# -- operations -------------------------------------------------------------

QUERIES = ("read", "listdir", "exists", "isfile", "isdir", "islink", "readlink", "walk", "glob", "size",
           "isexec", "md5")


def model_op(tree, op, local=False):
    "@return: value (or Err, Unspec)"
    k, a = op[0], op[1:]
    if k == "write":
        return tree.write(a[0], a[1])
    if k == "append":
        return tree.append(a[0], a[1])
    if k == "read":
        return tree.read(a[0])
    if k == "md5":
        import hashlib
        return hashlib.md5(tree.read(a[0])).hexdigest()
    if k in ("mkdir", "makedirs", "listdir", "exists", "isfile", "isdir", "islink", "readlink", "size"):
        return getattr(tree, k)(a[0])
    if k == "remove":
        return tree.remove(a[0], a[1])
    if k == "symlink":
        return tree.symlink(a[0], a[1])
    if k == "copy":
        tree.copy(a[0], a[1], a[2], ignore=tuple(a[3]), follow=a[4])
        return None
    if k == "move":
        return tree.move(a[0], a[1], local=local)
    if k == "walk":
        return [list(x) for x in tree.walk(a[0], a[1], a[2], tuple(a[3]))]
    if k == "glob":
        return tree.glob(a[0], a[1])
    if k in ("set_exec", "isexec"):
        return getattr(tree, k)(a[0], a[1])
    raise AssertionError(k)


NORETURN = ("write", "append", "mkdir", "makedirs", "remove", "symlink", "copy", "move", "set_exec")


def real_op(be, op, deco=None):
    k, a = op[0], op[1:]
    u = be.uri(tuple(a[0]), deco)
    if k == "write":
        with u.open("wb") as f:
            f.write(a[1])
    elif k == "append":
        with u.open("ab") as f:
            f.write(a[1])
    elif k == "read":
        with u.open("rb") as f:
            return f.read()
    elif k == "md5":
        return u.md5()
    elif k in ("mkdir", "makedirs"):
        getattr(u, k)()
    elif k in ("exists", "isfile", "isdir", "islink"):
        return bool(getattr(u, k)())
    elif k == "listdir":
        r = list(u.listdir())
        return sorted(r) if be.unsorted else r
    elif k == "readlink":
        return be.topath(u.readlink())
    elif k == "size":
        return u.info().size
    elif k == "remove":
        u.remove(recursive=a[1]) if a[1] else u.remove()
    elif k == "symlink":
        u.symlink(be.uri(tuple(a[1])))
    elif k == "copy":
        kw = {}
        if a[3]:
            kw["ignore"] = list(a[3])
        if not a[4]:
            kw["followlinks"] = False
        u.copy(be.uri(tuple(a[1])), recursive=a[2], **kw)
    elif k == "move":
        u.move(be.uri(tuple(a[1])))
    elif k == "walk":
        res = []
        prune = set(a[3])
        for root, dirs, files in u.walk(topdown=a[1], followlinks=a[2]):
            res.append([be.topath(root), list(dirs), list(files)])
            if len(res) > 3000:
                raise Violation("walk does not come to an end")
            if a[1]:
                for n in list(dirs):
                    if n in prune:
                        dirs.remove(n)
        return res
    elif k == "glob":
        res = []
        for x in u.glob(a[1]):
            p = be.topath(x)
            if p[:-1] != be.topath(u):
                raise Violation("glob returns %r" % (x,))
            res.append(p[-1])
        return sorted(res) if be.unsorted else res
    elif k == "set_exec":
        u.set_exec(a[1])
    elif k == "isexec":
        return bool(u.isexec(a[1]))
    else:
        raise AssertionError(k)
    return None


def attempt(be, op, deco=None):
    "@return: ('ok', value) or ('err', exception)"
    from abl.vpath.base.exceptions import PathError
    try:
        return "ok", real_op(be, op, deco)
    except (OSError, PathError) as e:
        return "err", e
    except AssertionError as e:
        if op[0] == "copy":
            return "err", e
        raise Violation("%s fails with an internal error: %r" % (show(op), e))
    except (Violation, Unspec):
        raise
    except MemoryError:
        raise
    except Exception as e:
        raise Violation("%s fails with an internal error: %s: %s" % (show(op), type(e).__name__, e))


def show(op):
    res = []
    for x in op:
        if isinstance(x, (list, tuple)) and x and all(isinstance(y, str) for y in x):
            res.append("/" + "/".join(x))
        else:
            res.append(short(x))
    return "%s(%s)" % (res[0], ", ".join(res[1:]))
