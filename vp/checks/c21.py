"""operation callbacks"""
import os

from vp import back, gen as G
from vp.core import Violation

TECHNIQUE = ("runtime monitoring with fault injection: recording and raising callbacks on every operation, complete state "
             "comparison before, inside and after each of them")
LEVEL = "exploration"
NOTE = ("Every public operation runs on files, directories, links, missing paths and the root with a recording or raising callback "
        "on the path (or a backend with its own hook); the monitor checks who is called, with what, in which state, and that a "
        "raising first call leaves names, contents, modes and times of all file systems as they were.")
CASES = dict(quick=3600, thorough=140000)
RULE = ("Random trees in two memory file systems (and a directory), 1-3 callbacks that are set, replaced and unset in between, 6-16 "
        "operations by equal URI objects. Distinct: (operation, kind of the path, number of the call that raises, exception, "
        "kind of hook).")
OPS = ["open_r", "open_w", "open_a", "open_r+", "copy", "copy_rec", "copy_out", "copy_zip", "move", "move_out", "remove", "remove_rec",
       "mkdir", "makedirs", "exists", "isfile", "isdir", "isexec", "set_exec", "islink", "readlink", "symlink", "mtime", "walk",
       "listdir", "info", "set_info", "glob", "md5", "lock", "copystat", "manipulate"]
REQUIRED = ["raised", "passed", "foreign_paths", "replaced", "unset", "later_call_raised", "hook", "callback", "inside_state",
            "dest_raised", "slashes", "other_instance"] + ["raise:" + x for x in OPS]
SHRINK = ("ops",)


def gen(rng, i, ctx):
    pool = G.names(rng, ctx, 4, plain=0.4)
    pool.append(pool[0] + rng.choice(["x", ".", " "]))
    tree = G.tree(rng, ctx, rng.randint(5, 12), pool=pool, big=0.03, depth=3)
    paths = list(tree) + [(pool[0], "no such"), ("missing",), ()]
    other = [p for p in tree if rng.random() < 0.6]
    victims = [list(rng.choice(paths)) for _ in range(rng.randint(1, 3))]
    ops = []
    for k in range(rng.randint(6, 16)):
        r = rng.random()
        if r < 0.08:
            ops.append(["replace", rng.randrange(len(victims))])
        elif r < 0.13:
            ops.append(["unset", rng.randrange(len(victims))])
        else:
            p = rng.choice(victims) if rng.random() < 0.7 else list(rng.choice(paths))
            q = rng.choice(victims) if rng.random() < 0.25 else list(rng.choice(paths[:-1]))
            name = OPS[(i * 7 + k) % len(OPS)] if rng.random() < 0.6 else rng.choice(OPS)
            ops.append([name, p, q, rng.choice([0, 1, 1, 1, 1, 2, 3]), rng.randrange(4), rng.randrange(3), rng.random() < 0.12])
    slash = [list(rng.choice(paths)), rng.choice(["/", "//", "mid", ""]), rng.choice(["exists", "isdir", "isfile", "islink"]), rng.randrange(4)] \
        if rng.random() < 0.3 else None
    return dict(slash=slash, tree=G.tree_list(tree), other=[list(p) for p in other], victims=victims, ops=ops, hook=rng.random() < 0.35)


class Custom(Exception):
    pass


EXC = [lambda: OSError(13, "Permission denied"), lambda: Custom("no"), lambda: KeyError("x"),
       lambda: FileNotFoundError(2, "No such file or directory")]


class World(object):
    def __init__(self, case, ctx):
        from abl.vpath.base import URI
        self.ctx = ctx
        self.case = case
        back.reset_registry()
        self.armed = False
        self.events = []        # (who, uri, func)
        self.raise_at = 0
        self.exc = None
        self.state = None
        self.tree = G.tree_dict(case["tree"])
        if case["hook"]:
            self.be = Hooked(self)
            ctx.count("hook")
        else:
            self.be = back.Mem()
            ctx.count("callback")
        self.two = back.Mem("instance=two")
        back.build(self.be, self.tree)
        back.build(self.two, {p: v for p, v in self.tree.items() if v[0] != "l"})
        base = os.path.join(ctx.fresh_dir(), "base")
        os.mkdir(base)
        self.loc = back.Loc(base)
        self.zip = URI("zip://((%s/x.zip))/item" % base)
        self.owner = {}         # path -> number of its current callback
        self.n = 0
        if case["hook"]:
            self.be.world_ready = True

    def uri(self, p, way=0, be=None):
        from abl.vpath.base import URI
        be = be or self.be
        u = be.uri(tuple(p))
        if way == 1:
            return URI(u)
        if way == 2:
            v = be.root
            return v.join("/".join(p)) if p else v / ""
        return u

    def called(self, who, uri, func):
        if not self.armed:
            return
        self.events.append((who, uri, func))
        if len(self.events) == 1 and uri == self.target:
            self.armed = False
            try:
                self.ctx.count("inside_state")
                if self.everything() != self.state:
                    raise Violation("the callback sees a state that has changed already")
            finally:
                self.armed = True
        if len(self.events) == self.raise_at:
            self.exc = EXC[self.kind]()
            raise self.exc

    def register(self, p):
        self.n += 1
        who = self.n
        self.uri(p)._manipulate(next_op_callback=lambda uri, func: self.called(who, uri, func))
        self.owner[tuple(p)] = who

    def everything(self):
        res = []
        for be in (self.be, self.two):
            s = be.snapshot()
            for p in s:
                i = be.uri(p).info(followlinks=False)
                s[p] += (i.mode, i.mtime)
            res.append(s)
        res.append(self.loc.snapshot())
        return res


class Hooked(back.Backend):
    "a backend with its own hook"
    kind = "hooked"

    def __init__(self, world):
        from abl.vpath.base import URI
        from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY
        from abl.vpath.base.memory import MemoryFileSystem, MemoryFileSystemUri

        class HookedFileSystem(MemoryFileSystem):
            scheme = "hooked"

            def pre_call_hook(self, path, func):
                world.called("hook", path, func)

        CONNECTION_REGISTRY.register("hooked", HookedFileSystem)
        SCHEME_REGISTRY["hooked"] = MemoryFileSystemUri
        self.root = URI("hooked:///")

    def topath(self, uri):
        return tuple(x for x in uri.path.split("/") if x)

    snapshot = back.Mem.snapshot


def teardown(ctx):
    from abl.vpath.base.fs import SCHEME_REGISTRY
    SCHEME_REGISTRY.pop("hooked", None)


NAMES = dict(copy_rec="copy", copy_out="copy", copy_zip="copy", move_out="move", remove_rec="remove", set_info="info",
             manipulate="_manipulate")


def apply(w, name, u, v, p):
    if name.startswith("open"):
        mode = {"open_r": "rb", "open_w": "wb", "open_a": "ab", "open_r+": "r+b"}[name]
        with u.open(mode) as h:
            if name != "open_r":
                h.write(b"new")
    elif name == "copy":
        u.copy(v)
    elif name == "copy_rec":
        u.copy(v, recursive=True)
    elif name == "copy_out":
        u.copy(w.loc.uri(("out",)), recursive=u_isdir(w, u))
    elif name == "copy_zip":
        u.copy(w.zip)
    elif name == "move":
        u.move(v)
    elif name == "move_out":
        u.move(w.loc.uri(("moved",)))
    elif name in ("remove", "mkdir", "makedirs", "exists", "isfile", "isdir", "isexec", "islink", "readlink", "mtime", "listdir",
                  "info", "md5"):
        getattr(u, name)()
    elif name == "remove_rec":
        u.remove(recursive=True)
    elif name == "set_exec":
        u.set_exec(0o110)
    elif name == "symlink":
        u.symlink(v)
    elif name == "walk":
        list(u.walk(followlinks=False))
    elif name == "set_info":
        u.info(set_info=dict(mode=0o640, mtime=12345.5))
    elif name == "glob":
        u.glob("*")
    elif name == "lock":
        with u.lock() as h:
            h.write("locked")
    elif name == "copystat":
        u.copystat(v)
    elif name == "manipulate":
        u._manipulate(mtime=777.0)
    else:
        raise AssertionError(name)


def u_isdir(w, u):
    armed, w.armed = w.armed, False
    try:
        return u.isdir()
    finally:
        w.armed = armed


def run(case, ctx):
    w = World(case, ctx)
    hook = case["hook"]
    if not hook:
        for p in case["victims"]:
            w.register(p)
    if not hook and case.get("slash"):
        slashes(w, ctx, *case["slash"])
    for op in case["ops"]:
        name = op[0]
        if name in ("replace", "unset"):
            if hook or op[1] >= len(case["victims"]):
                continue
            p = tuple(case["victims"][op[1]])
            if name == "replace":
                w.register(p)
                ctx.count("replaced")
            else:
                w.uri(p, 1)._manipulate(next_op_callback=None)
                w.owner.pop(p, None)
                ctx.count("unset")
            continue
        one(w, ctx, hook, *op)


def slashes(w, ctx, p, how, name, kind):
    "callbacks of a path with additional slashes belong to that path"
    if tuple(p) in w.owner:
        return

    def uri():
        u = w.uri(p)
        if how == "mid" and p:
            return w.uri(p[:-1]).join("", p[-1])
        return u + how if how in ("/", "//") else u / ""
    calls = []
    uri()._manipulate(next_op_callback=lambda u, f: calls.append(u))
    a, b = uri(), uri()
    getattr(a, name)()
    if len(calls) != 1 or calls[0] is not a:
        raise Violation("%s of %s: the callback is called for %r" % (name, a, calls))
    exc = EXC[kind]()

    def fail(u, f):
        if armed:
            raise exc
    armed = [1]
    before = len(calls)
    uri()._manipulate(next_op_callback=fail)
    if len(calls) != before + 1:
        raise Violation("the callback of %s is not called if it gets replaced" % a)
    try:
        getattr(b, name)()
    except Exception as e:
        if e is not exc:
            raise Violation("%s of %s: the callback raises %r, the caller gets %r" % (name, b, exc, e))
    else:
        raise Violation("%s of %s: the callback is not called" % (name, b))
    armed.clear()
    uri()._manipulate(next_op_callback=None)
    ctx.count("slashes")


def one(w, ctx, hook, name, p, q, at, kind, way, second):
    p, q = tuple(p), tuple(q)
    be = w.be
    if second:
        # the same path of another file system
        be = w.two
        ctx.count("other_instance")
    if name == "move" and q[:len(p)] == p:
        return
    if not p and name in ("move", "move_out", "remove", "remove_rec", "mkdir", "manipulate"):
        return
    if not q:
        q = ("fresh",)
    if name.startswith("open") and not p:
        return
    u, v = w.uri(p, way, be), w.uri(q, 0, be)
    before = w.everything()
    if name in ("copy_out", "copy_rec", "move_out") and loops(w, p) or (name == "copy_out" and "out" in w.loc.snapshot()):
        return
    w.events, w.raise_at, w.kind, w.exc = [], at, kind, None
    w.state, w.target = before, u
    what = "%s of /%s (to /%s)" % (name, "/".join(p), "/".join(q))
    w.armed = True
    err = None
    try:
        apply(w, name, u, v, p)
    except Violation:
        raise
    except Exception as e:
        err = e
    finally:
        w.armed = False
    after = w.everything()
    events = w.events
    kind_of = before[1 if second else 0].get(p, ("-",))[0] if p else "root"
    # who is called
    for who, uri, func in events:
        path = tuple(x for x in uri.path.split("/") if x)
        if hook:
            if uri.scheme != "hooked":
                raise Violation("%s: the hook is called for %s" % (what, uri))
        elif w.owner.get(path) != who or uri != w.uri(path):
            raise Violation("%s: callback %r is called for %s, callbacks are %r" % (what, who, uri, w.owner))
    first = NAMES.get(name, name.split("_")[0] if name.startswith("open") else name)
    expected = not second and (hook or p in w.owner)
    if expected:
        if not events:
            raise Violation("%s: the callback is not called" % what)
        who, uri, func = events[0]
        if uri != u or getattr(func, "__name__", "") != first:
            raise Violation("%s: the callback is called first for %s of %s" % (what, getattr(func, "__name__", func), uri))
    else:
        ctx.count("foreign_paths")
    if w.exc is None:
        ctx.count("passed")
        if err is not None and isinstance(err, Custom):
            raise err
        return
    if err is not w.exc and (at == 1 or isinstance(w.exc, Custom)):
        raise Violation("%s: the callback raises %r, the caller gets %r" % (what, w.exc, err))
    ctx.count("raised")
    if at == 1 and expected:
        ctx.count("raise:" + name)
        if after != before:
            raise Violation("%s: the callback raises, but there is an effect: %s" % (
                what, "; ".join(back.diff(a, b) for a, b in zip(before, after))))
    else:
        ctx.count("later_call_raised" if expected else "dest_raised")
        if name in ("exists", "isfile", "isdir", "isexec", "islink", "readlink", "mtime", "walk", "listdir", "info", "glob", "md5",
                    "open_r", "copystat") and after != before:
            raise Violation("%s: there is an effect: %s" % (what, "; ".join(back.diff(a, b) for a, b in zip(before, after))))
        if name.startswith("copy") and name != "copystat":
            # whatever happened: the source is still there
            for s, x in before[0].items():
                if s[:len(p)] == p and s[:len(q)] != q and after[0].get(s) != x and kind_of != "l":
                    raise Violation("%s: the source has changed" % what)
    ctx.sig(name, kind_of, at, kind, hook)


def loops(w, p):
    "there are links to directories: recursive operations might not come to an end"
    s = w.be.snapshot()
    for r, v in s.items():
        if v[0] == "l":
            seen = 0
            t = v[1]
            while s.get(t, ("-",))[0] == "l" and seen < 10:
                t, seen = s[t][1], seen + 1
            if not t or s.get(t, ("d",))[0] != "f":
                return True
    return False
