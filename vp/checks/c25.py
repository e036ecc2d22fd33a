"""generic operations on a backend that registers itself"""
import errno
import io

from vp import back, gen as G, history
from vp.checks import c10, c11
from vp.core import Violation
from vp.model import Err, Tree, Unspec

TECHNIQUE = ("runtime monitoring: recording minimal backends under the generic operations, step-by-step comparison with a reference "
             "model, monitor of all primitive calls")
LEVEL = "exploration"
NOTE = ("Backends that implement nothing but the primitives (with and without links, two hosts) are registered and driven by random "
        "histories and by copies and moves from and to memory and disk; results, trees and every single primitive call are checked. "
        "Operations the backend lacks must be refused without effect.")
CASES = dict(quick=42000, thorough=280000)
RULE = ("Random histories, copies/moves between file systems, refused operations. Distinct: (operation, outcome, shape of the tree), "
        "(pair, source, destination) and refused operations.")
REQUIRED = ["ops", "trees_compared", "primitive_calls", "op:copy:ok", "op:move:ok", "op:remove:ok", "op:makedirs:ok", "op:walk:ok",
            "op:glob:ok", "op:md5:ok", "op:symlink:ok", "pair:mini>memory", "pair:memory>mini", "pair:mini>file", "pair:file>mini",
            "pair:mini>mini2", "pair:lmini>lmini2", "cross_moves", "refused", "no_links", "bare", "copies", "refused_zip", "bare_revisions", "bare_links", "short_reads"]
SHRINK = ("ops", "src", "dst")

PAIRS = ["mini>memory", "memory>mini", "mini>file", "file>mini", "mini>mini2", "lmini>lmini2", "mini>zip", "zip>mini", "lmini>file",
         "lmini>memory", "memory>lmini", "file>lmini", "lmini>mini", "mini>mini"]
KINDS = {"mini": ("mini", "one"), "mini2": ("mini", "two"), "lmini": ("lmini", "one"), "lmini2": ("lmini", "two")}


def gen(rng, i, ctx):
    r = rng.random()
    if r < 0.4:
        links = rng.random() < 0.5
        return dict(what="history", links=links, ops=history.generate(rng, ctx, rng.randint(6, 22), links=links))
    if r < 0.92:
        pair = PAIRS[i // 8 % len(PAIRS)]
        case = c10.gen(rng, i, ctx)
        case["pair"] = pair
        case["what"] = "copy"
        case["touch"] = None
        for op in case["ops"]:
            # (additional slashes are the business of the backend, but directories may end with one)
            if op[5] != [-1]:
                op[5] = None
        a, b = pair.split(">")
        for key, x in (("src", a), ("dst", b)):
            if x not in ("memory", "file", "lmini", "lmini2"):
                case[key] = G.tree_list(c10.plain(G.tree_dict(case[key])))
        if "zip" in pair:
            case["src"] = [x for x in case["src"] if not any("?" in y or "\\" in y for y in x[0])]
        if rng.random() < 0.4:
            case["what"] = "move"
        return case
    return dict(what="refuse", zip=rng.random() < 0.3, links=rng.random() < 0.3, tree=G.tree_list(G.tree(rng, ctx, rng.randint(2, 6), links=False)),
                pick=rng.random())


class World(object):
    stores = {}
    ctx = None
    calls = 0
    order = 0
    short = 0


def wrap(f):
    "errors of the model become errors of the operating system"
    def wrapper(self, *a):
        World.calls += 1
        for x in a:
            if hasattr(x, "parse_result"):
                own = x.scheme == self.scheme and (x.hostname == self.hostname or f.__name__ == "copystat" and x is not a[0] or
                                                   f.__name__ == "symlink" and x is a[0])
                if not own:
                    raise Violation("%s of %s://%s is called with %s" % (f.__name__, self.scheme, self.hostname, x))
        try:
            return f(self, *a)
        except Err as e:
            raise OSError(getattr(errno, str(e), errno.EIO), "%s: %s" % (f.__name__, e))
        except Unspec as e:
            raise OSError(errno.EPERM, str(e))
    wrapper.__name__ = f.__name__
    return wrapper


class Reader(io.BytesIO):
    "like a raw stream, read() gives less than it was asked for at times"
    def read(self, n=-1):
        if World.short and n is not None and n > 0:
            n = min(n, World.short)
        return super(Reader, self).read(n)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class Writer(io.BytesIO):
    def __init__(self, tree, p, append):
        super(Writer, self).__init__()
        if not append:
            tree.write(p, b"")
        else:
            tree.append(p, b"")
        self.target = tree._for_writing(p)

    def write(self, data):
        self.target.data = self.target.data + bytes(data)
        return len(data)

    def read(self, *a):
        raise OSError(errno.EBADF, "not readable")


def backend(name, links):
    from abl.vpath.base.fs import BaseUri, FileSystem

    def steps(uri):
        return tuple(x for x in uri.path.split("/") if x)

    class Mini(FileSystem):
        scheme = name
        uri = BaseUri

        def _initialize(self):
            self.tree = World.stores.setdefault((self.scheme, self.hostname), Tree())

        @wrap
        def open(self, path, options, mimetype):
            options = options or "r"
            if "r" in options:
                return Reader(self.tree.read(steps(path)))
            return Writer(self.tree, steps(path), "a" in options)

        @wrap
        def listdir(self, path):
            # the order is up to the backend
            names = self.tree.listdir(steps(path))
            return names[::-1] if World.order == 1 else names[1:] + names[:1] if World.order == 2 else names

        @wrap
        def removefile(self, path):
            p = steps(path)
            parent, n, x, _ = self.tree.lookup(p, follow=False)
            if x is None or x.kind == "d":
                raise Err("ENOENT" if x is None else "EISDIR")
            del parent.ch[n]

        @wrap
        def removedir(self, path):
            p = steps(path)
            parent, n, x, _ = self.tree.lookup(p, follow=False)
            if x is None or x.kind != "d" or x.ch:
                raise Err("ENOENT" if x is None else "ENOTDIR" if x.kind != "d" else "ENOTEMPTY")
            del parent.ch[n]

        @wrap
        def mkdir(self, path):
            self.tree.mkdir(steps(path))

        @wrap
        def exists(self, path):
            return self.tree.exists(steps(path))

        @wrap
        def isfile(self, path):
            return self.tree.isfile(steps(path))

        @wrap
        def isdir(self, path):
            return self.tree.isdir(steps(path))

        @wrap
        def copystat(self, path, other):
            pass

        def supports_symlinks(self):
            return links

    class Linking(Mini):
        @wrap
        def islink(self, path):
            return self.tree.islink(steps(path))

        @wrap
        def readlink(self, path):
            from abl.vpath.base import URI
            u = URI("%s://%s/" % (self.scheme, self.hostname))
            for n in self.tree.readlink(steps(path)):
                u = u / n
            return u

        @wrap
        def symlink(self, target, link_name):
            self.tree.symlink(steps(target), steps(link_name))

    return Linking if links else Mini


class Be(back.Backend):
    def __init__(self, scheme, host):
        from abl.vpath.base import URI
        self.kind = scheme
        self.links = scheme == "lmini"
        self.key = (scheme, host)
        self.root = URI("%s://%s/" % (scheme, host))

    def topath(self, uri):
        if (uri.scheme, uri.hostname) != self.key:
            raise Violation("%s does not belong to %s" % (uri, self.key))
        return tuple(x for x in uri.path.split("/") if x)

    def snapshot(self):
        return World.stores[self.key].snapshot()


def setup(ctx):
    from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY
    World.ctx = ctx
    for name, links in (("mini", False), ("lmini", True)):
        cls = backend(name, links)
        CONNECTION_REGISTRY.register(name, cls)
        SCHEME_REGISTRY[name] = cls.uri

    def make(kind):
        def f(ctx, tree):
            t = World.stores[KINDS[kind]] = Tree()
            t.load({p: (v if v[0] != "f" else ("f", v[1], 0)) for p, v in tree.items()})
            return Be(*KINDS[kind])
        return f
    for kind in KINDS:
        c10.EXTRA[kind] = make(kind)


def fresh(case, ctx):
    back.reset_registry()
    World.stores = {}
    World.calls = 0
    World.order = 0
    World.short = (0, 0, 1000, 7, 4095, 1)[(len(case.get("ops", ())) + len(case.get("src", ()))) % 6]
    if World.short:
        ctx.count("short_reads")


def no_exe(case, keys):
    for k in keys:
        case[k] = [[x[0], x[1], x[2], 0] if x[1] == "f" else x for x in case[k]]


def run(case, ctx):
    fresh(case, ctx)
    try:
        if case["what"] == "history":
            World.stores[KINDS["lmini" if case["links"] else "mini"]] = Tree()
            be = Be(*KINDS["lmini" if case["links"] else "mini"])

            World.order = len(case["ops"]) % 3
            be.unsorted = World.order > 0

            def skip(op, tree, want):
                if op[0] in ("set_exec", "isexec", "size"):
                    return True
                if not case["links"] and op[0] in ("symlink", "readlink"):
                    return True
                # (what a link leads to is known to the backend only)
                return op[0] in ("copy", "move") and case["links"] and (
                    want[1] in ("SAME", "INSIDE") or any(v[0] == "l" for v in tree.snapshot().values()) and inside(tree, op))
            history.run(ctx, be, case["ops"], skip=skip)
            if not case["links"]:
                ctx.count("no_links")
        elif case["what"] == "copy":
            no_exe(case, ("src", "dst"))
            c10.run(case, ctx)
        elif case["what"] == "move":
            no_exe(case, ("src", "dst"))
            move(case, ctx)
        else:
            refuse(case, ctx)
    finally:
        ctx.count("primitive_calls", World.calls)


def inside(tree, op):
    "is the destination - as written, or links resolved - part of the source, or the other way round?"
    if op[2][:len(op[1])] == op[1]:
        return True
    try:
        a = tree.lookup(op[1])[3]
        b = tree.lookup(op[2])[3]
    except (Err, Unspec):
        return True
    return b[:len(a)] == a or a[:len(b)] == b


def move(case, ctx):
    from abl.vpath.base.exceptions import PathError
    a, b = case["pair"].split(">")
    src, dst = G.tree_dict(case["src"]), G.tree_dict(case["dst"])
    if "zip" in a:
        return
    if "zip" in b:
        dst = c10.plain(dst)
    op = case["ops"][0] if case["ops"] else [[], []]
    s, d = tuple(op[0]), tuple(op[1])
    if a == b:
        return
    w1, w2 = Tree(), Tree()
    w1.load(src)
    w2.load(dst)
    ka, kb = KINDS.get(a, (a,))[0], KINDS.get(b, (b,))[0]
    try:
        if not s:
            return
        x = w1.node(s)
        if x is None:
            if w1.islink(s):
                return
            raise Err("ENOENT")
        if "zip" in b:
            c10.m_to_zip(w1, w2, s, d, x.kind == "d", True)
        else:
            w1.copy(s, d, x.kind == "d", follow=ka != kb, other=w2, links=ka == kb, keep_exe=ka == kb)
        w1.remove(s, True)
        want = None
    except Unspec:
        return
    except Err as e:
        want = str(e)
        if e.partial is not None:
            return
        w1.load(src)
        w2.load(dst)
    ba, bb = c10.make(ctx, a, src), c10.make(ctx, b, dst)
    try:
        ba.uri(s).move(bb.uri(d))
        got = None
    except (OSError, PathError, NotImplementedError) as e:
        got = e
    what = "move %s:/%s to %s:/%s" % (a, "/".join(s), b, "/".join(d))
    if (got is None) != (want is None):
        raise Violation("%s should %s, but %r" % (what, "succeed" if want is None else "fail (%s)" % want, got))
    for be, w in ((ba, w1), (bb, w2)):
        if be.snapshot() != w.snapshot():
            raise Violation("%s: %s" % (what, back.diff(w.snapshot(), be.snapshot())))
    ctx.count("cross_moves")
    ctx.sig("move", case["pair"], want, len(src), len(dst))


def refuse(case, ctx):
    from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform
    from abl.vpath.base.fs import (CONNECTION_REGISTRY, SCHEME_REGISTRY, BaseUri, FileSystem, RevisionedFileSystem, RevisionedUri)
    kind = "zip" if case.get("zip") else "lmini" if case["links"] else "mini"
    tree = G.tree_dict(case["tree"])
    if kind == "zip":
        tree = c10.plain(tree)
    be = c10.make(ctx, kind, {p: (v if v[0] != "f" else ("f", v[1], 0)) for p, v in tree.items()})
    before = be.snapshot()
    paths = sorted(before) + [("missing one",)]
    p = paths[int(case["pick"] * len(paths))]
    u, v = be.uri(p), be.root / "other"
    refused = [("isexec", ()), ("set_exec", (0o100,)), ("info", ()), ("info", (dict(mode=1),)), ("mtime", ()), ("lock", ()),
               ("sync", (v,)), ("sync", (v, "-x"))]
    if kind == "zip":
        refused += [("open", ("ab",)), ("open", ("a",)), ("copystat", (v,))]
        if before.get(p, "-")[0] == "f":
            refused.append(("remove", ()))
        if p not in before:
            refused += [("mkdir", ()), ("makedirs", ())]
        ctx.count("refused_zip")
    if kind != "lmini":
        refused += [("readlink", ()), ("symlink", (v,))]
        if u.islink():
            raise Violation("islink is %r" % u.islink())
    refuses(ctx, be, u, refused, before)
    if case["pick"] < 0.5 and kind != "zip":
        # a backend that implements nothing
        revisions = case["pick"] < 0.25
        Fs, Uri = (RevisionedFileSystem, RevisionedUri) if revisions else (FileSystem, BaseUri)

        claims = case["pick"] * 8 % 1 < 0.5

        class Bare(Fs):
            scheme = "bare"
            uri = Uri

            def _initialize(self):
                pass

            def supports_symlinks(self):
                return claims
        CONNECTION_REGISTRY.register("bare", Bare)
        SCHEME_REGISTRY["bare"] = Uri
        try:
            from abl.vpath.base import URI
            u = URI("bare://host/") / "x"
            if revisions:
                refused = refused + [("switch", ("b",)), ("update", ()), ("update", (False, True)), ("log", ()), ("log", (3,)),
                                     ("log_by_time", ()), ("log_by_time", (1, 2))]
                ctx.count("bare_revisions")
            if claims:
                refused = refused + [("islink", ()), ("readlink", ()), ("symlink", (v,)), ("symlink", (u / "y",))]
                ctx.count("bare_links")
            refuses(ctx, be, u, refused + [
                ("open", ("rb",)), ("open", ("wb",)), ("open", ()), ("listdir", ()), ("mkdir", ()), ("makedirs", ()), ("exists", ()),
                ("isfile", ()), ("isdir", ()), ("remove", ()), ("copy", (v,)), ("move", (v,)), ("glob", ("*",)), ("md5", ()),
                ("copystat", (u,))], before)
            try:
                list(u.walk())
            except NotImplementedError:
                pass
            else:
                raise Violation("walk on a backend without listdir returns")
            ctx.count("bare")
        finally:
            SCHEME_REGISTRY.pop("bare", None)


def refuses(ctx, be, u, refused, before):
    from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform
    for name, args in refused:
        try:
            r = getattr(u, name)(*args)
        except (NotImplementedError, OperationIsNotSupportedOnPlatform):
            ctx.count("refused")
        except Exception as e:
            raise Violation("%s%r, which is not implemented, raises %s: %s" % (name, args, type(e).__name__, e))
        else:
            raise Violation("%s%r, which is not implemented, returns %r" % (name, args, r))
        if be.snapshot() != before:
            raise Violation("%s, which is not implemented, changes %s" % (name, back.diff(before, be.snapshot())))
        ctx.sig("refused", name, len(args), before.get(be.topath(u), ("-",))[0] if u.scheme == be.kind else "bare")
