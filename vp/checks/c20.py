"""metadata of files, directories and links"""
import datetime
import os
import stat
import time

from vp import back, gen as G, guard
from vp.core import Violation

TECHNIQUE = ("runtime monitoring: recorded modes, sizes and times (with time windows for writes) and os.stat as ground truth, "
             "compared after every operation")
LEVEL = "exploration"
NOTE = ("Histories of set_exec, info(set_info), writes, copies, moves and copystat on files, directories and links of memory and "
        "local file systems; after each step all nodes are compared with the recorded state (mode bits, size, exact mtime or the "
        "time window of the write) and, on disk, with os.stat. Modification times of directories and setgid are not decided.")
CASES = dict(quick=5250, thorough=180000)
RULE = ("6-20 steps over 6-9 nodes with links (chained, dangling) on one local, one memory or two memory file systems. Distinct: "
        "(file system, operation, kind of node, old and new mode, outcome).")
REQUIRED = ["ops", "exchanged_to", "exchanged_from", "nodes_checked", "set_exec", "set_mode", "set_mtime", "writes", "copystat", "copies", "moves", "links",
            "link_itself", "dangling", "missing", "isexec", "dirs", "local", "memory", "memory2", "refused_link_mode",
            "through_link", "mode_kept_by_write", "recreated"]
SHRINK = ("ops",)

EXEC = [0, 0o100, 0o010, 0o001, 0o110, 0o101, 0o011, 0o111]


def gen(rng, i, ctx):
    where = rng.choice(["file", "file", "memory", "memory", "memory2"])
    names = G.names(rng, ctx, 10, plain=0.4)
    f, d, l = names[:4], names[4:5], names[5:9]
    nodes = [[n] for n in f] + [[d[0], f[0]], d] + [[n] for n in l]
    ops = []
    for _ in range(rng.randint(5, 18)):
        k = rng.choice(["set_exec", "set_exec", "mode", "mode", "mtime", "write", "write", "write", "read", "copystat", "copystat",
                        "copy", "copy", "copy", "move", "remove", "list", "exchange"])
        a, b = [rng.randrange(len(nodes)), rng.randrange(2)], [rng.randrange(len(nodes)), rng.randrange(2)]
        if k == "set_exec":
            arg = rng.choice(EXEC)
        elif k == "mode":
            arg = [rng.getrandbits(9) | rng.choice([0, 0, 0, 0o1000, 0o4000]), rng.random() < 0.7]
        elif k == "exchange":
            arg = [rng.getrandbits(9) | 0o600, rng.choice([0, 1.5, 1e9, 1234567890.25, rng.randrange(2 ** 31)]), rng.random() < 0.5]
        elif k == "mtime":
            arg = [rng.choice([0, 1.5, 1e9, 1234567890.25, rng.randrange(2 ** 31), rng.random() * 2e9, 4e9]), rng.random() < 0.7]
        elif k == "write":
            arg = [rng.choice(["wb", "wb", "ab", "r+b", "w", "a", "r+", "trunc", "w+b"]), rng.choice([0, 1, 5, 30])]
        else:
            arg = rng.choice(["rb", "r", "r+b", "ab"])
        ops.append([k, a, b, arg])
    return dict(where=where, nodes=nodes, ops=ops, exe=[rng.choice(EXEC) for _ in nodes],
                masks=[rng.getrandbits(9) for _ in range(2)])


class Node(object):
    def __init__(self, kind, size=0, target=None):
        self.kind = kind
        self.size = size
        self.target = target
        self.mode = None        # as seen first
        self.mask = 0o7777
        self.mtime = None       # ("is", x) / ("in", low, high) / ("either", x, low, high)


class World(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.local = case["where"] == "file"
        if self.local:
            base = os.path.join(ctx.fresh_dir(), "base")
            os.mkdir(base)
            self.bes = [back.Loc(base)]
            ctx.count("local")
        else:
            self.bes = [back.Mem()]
            ctx.count("memory")
            if case["where"] == "memory2":
                self.bes.append(back.Mem("instance=two"))
                ctx.count("memory2")
        self.nodes = {}
        self.paths = [tuple(p) for p in case["nodes"]]
        f0, f1, _, _, inner, d = self.paths[:6]
        l = self.paths[6:]
        for b, be in enumerate(self.bes):
            be.uri(d).mkdir()
            self.nodes[b, d] = Node("d")
            for p, n in ((f0, 3), (f1, 11), (inner, 0)):
                with be.uri(p).open("wb") as h:
                    h.write(b"x" * n)
                self.nodes[b, p] = Node("f", n)
            for p, t in zip(l, (f0, d, l[0], ("missing one",))):
                be.uri(t).symlink(be.uri(p))
                self.nodes[b, p] = Node("l", target=t)
        for (b, p), n in self.nodes.items():
            self.learn(b, p, n)

    def learn(self, b, p, n):
        "accept what is there now"
        i = self.bes[b].uri(p).info(followlinks=False)
        n.mode = stat.S_IMODE(i.mode)
        n.mask = 0o7777
        n.mtime = ("is", self.seen(b, p))

    def seen(self, b, p):
        if self.local:
            return os.lstat(self.bes[b].abspath(p)).st_mtime
        return self.bes[b].uri(p).info(followlinks=False).mtime

    def resolve(self, b, p):
        for _ in range(10):
            n = self.nodes.get((b, p))
            if n is None or n.kind != "l":
                return p
            p = n.target
        raise AssertionError


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    errors = (OSError, PathError)
    back.reset_registry()
    w = World(case, ctx)
    check(w, "creation")
    for k, (a, fa), (b, fb), arg in case["ops"]:
        fa, fb = fa % len(w.bes), fb % len(w.bes)
        p, q = w.paths[a], w.paths[b]
        what = "%s(%s) of %s:/%s" % (k, arg, fa, "/".join(p))
        rp, rq = w.resolve(fa, p), w.resolve(fb, q)
        n, m = w.nodes.get((fa, rp)), w.nodes.get((fb, rq))
        here = w.nodes.get((fa, p))
        u, v = w.bes[fa].uri(p), w.bes[fb].uri(q)
        ctx.count("ops")
        linked = here is not None and here.kind == "l"
        if linked:
            ctx.count("links")
            if n is None:
                ctx.count("dangling")
        try:
            if k == "set_exec":
                if n is not None and n.kind == "d":
                    arg |= 0o100
                u.set_exec(arg)
                need(n, what)
                n.mode = n.mode & ~0o111 | arg
                ctx.count("set_exec")
            elif k == "mode":
                if not set_mode(w, ctx, u, here, n, arg):
                    continue
            elif k == "mtime":
                value, follow = arg
                target = n if follow else here
                if w.local:
                    if target is None:
                        continue
                    with guard.trusted():
                        os.utime(w.bes[fa].abspath(p), (value, value), follow_symlinks=follow)
                    target.mtime = ("is", w.seen(fa, rp if follow else p))
                else:
                    u.info(set_info=dict(mtime=value), followlinks=follow)
                    need(target, what)
                    target.mtime = ("is", value)
                ctx.count("set_mtime")
            elif k == "write":
                if n is not None and n.kind == "d" or linked and n is None:
                    continue
                write(w, ctx, u, fa, rp, n, arg)
                if linked:
                    ctx.count("through_link")
            elif k == "read":
                if n is None or n.kind == "d":
                    continue
                with u.open(arg) as h:
                    if arg != "ab":
                        h.read()
            elif k == "copystat":
                if n is not None and m is not None and n.kind != m.kind:
                    continue
                u.copystat(v)
                need(n, what)
                need(m, what)
                m.mode, m.mask = n.mode, n.mask
                if n.kind == "f":
                    m.mtime = n.mtime
                ctx.count("copystat")
            elif k == "exchange":
                if n is None or n.kind != "f":
                    continue
                exchange(w, ctx, u, fa, p, rp, n, arg, what)
            elif k == "copy":
                if n is None or n.kind == "d" or m is not None and m.kind == "d" or (fa, rp) == (fb, rq) or \
                        m is None and (fb, q) in w.nodes:
                    continue
                u.copy(v)
                if m is None:
                    m = w.nodes[fb, rq] = Node("f")
                m.size, m.mode, m.mask, m.mtime = n.size, n.mode, n.mask, n.mtime
                ctx.count("copies")
            elif k == "move":
                # (only onto nothing)
                if here is None or here.kind != "f" or (fb, q) in w.nodes:
                    continue
                u.move(v)
                w.nodes[fb, q] = w.nodes.pop((fa, p))
                ctx.count("moves")
            elif k == "remove":
                if here is None or here.kind == "d":
                    continue
                u.remove()
                del w.nodes[fa, p]
            elif k == "list":
                list(w.bes[fa].uri(()).walk())
                w.bes[fa].uri(()).listdir()
        except errors as e:
            if k == "copystat" and (n is None or m is None) or k in ("set_exec", "mode", "mtime") and \
                    (n if k == "set_exec" or arg[1] else here) is None:
                ctx.count("missing")
            else:
                raise Violation("%s fails: %s: %s" % (what, type(e).__name__, e))
        check(w, what)
        ctx.sig(case["where"], k, here and here.kind, n and n.kind, n and n.mode, m and m.mode, repr(arg))


def exchange(w, ctx, u, b, p, rp, n, arg, what):
    "copystat from or to a file of another kind of file system"
    mode, mtime, to = arg
    other = back.Mem("instance=other") if w.local else back.Loc(ctx.fresh_dir())
    v = other.uri(("other",))
    with v.open("wb") as h:
        h.write(b"1234")
    if w.local:
        v.info(dict(mode=mode, mtime=mtime))
    else:
        with guard.trusted():
            os.chmod(other.abspath(("other",)), mode)
            os.utime(other.abspath(("other",)), (mtime, mtime))
    if to:
        u.copystat(v)
        mode = n.mode
        if w.local:
            mtime = os.stat(w.bes[b].abspath(p)).st_mtime
    else:
        v.copystat(u)
        n.mode, n.mask = mode, 0o7777
        if w.local:
            n.mtime = ("is", w.seen(b, rp))
        else:
            n.mtime = ("is", mtime)
    now = v.info()
    if stat.S_IMODE(now.mode) & n.mask != mode & n.mask:
        raise Violation("%s: %s another kind of file system: the mode is %o instead of %o" % (
            what, "to" if to else "from", stat.S_IMODE(now.mode), mode))
    if (w.local or not to) and v.mtime() != mtime:
        raise Violation("%s: %s another kind of file system: the modification time is %r instead of %r" % (
            what, "to" if to else "from", v.mtime(), mtime))
    if now.size != 4:
        raise Violation("%s changes the size" % what)
    ctx.count("exchanged_to" if to else "exchanged_from")


def need(n, what):
    if n is None:
        raise Violation("%s succeeds, although there is nothing" % what)


def set_mode(w, ctx, u, here, n, arg):
    mode, follow = arg
    target = n if follow else here
    if target is not None:
        mode |= 0o700 if target.kind == "d" else 0o600
    if w.local and not follow and here is not None and here.kind == "l":
        # not possible on every platform, but then nothing changes
        try:
            u.info(set_info=dict(mode=mode), followlinks=False)
        except (NotImplementedError, OSError):
            ctx.count("refused_link_mode")
        else:
            here.mode = mode
        return True
    u.info(set_info=dict(mode=mode), followlinks=follow)
    need(target, "set_info")
    target.mode = mode
    target.mask = 0o7777
    ctx.count("set_mode")
    if here is not target:
        ctx.count("through_link")
    elif here.kind == "l":
        ctx.count("link_itself")
    return True


def write(w, ctx, u, b, p, n, arg):
    how, size = arg
    low = time.time()
    if n is None:
        if how in ("r+b", "r+", "trunc"):
            return
        ctx.count("recreated")
    old = 0 if n is None else n.size
    if how == "trunc":
        with u.open("r+b") as h:
            h.truncate(size)
        new, changed = size, old != size
    else:
        with u.open(how) as h:
            if size:
                h.write(b"y" * size if "b" in how else "y" * size)
        new = {"w": size, "a": old + size, "r": max(old, size)}[how[0]]
        changed = size > 0 or how[0] == "w" and old > 0
    high = time.time()
    if n is None:
        n = w.nodes[b, p] = Node("f", new)
        w.learn(b, p, n)
        n.mtime = ("in", low, high)
    else:
        n.size = new
        if w.local:
            n.mask &= ~0o6000       # cleared by the operating system
        n.mtime = ("in", low, high) if changed else ("either", n.mtime[1], low, high)
        ctx.count("mode_kept_by_write")
    ctx.count("writes")


def right_time(w, spec, got):
    slack = 0.1 if w.local else 0.001
    if not isinstance(got, float) and not isinstance(got, int):
        return False
    if spec[0] == "is":
        return got == spec[1]
    if spec[0] == "either" and got == spec[1]:
        return True
    low, high = spec[-2:]
    return low - slack <= got <= high + slack


def check(w, what):
    from abl.vpath.base.exceptions import PathError
    ctx = w.ctx
    for b, be in enumerate(w.bes):
        for p in w.paths:
            u = be.uri(p)
            here = w.nodes.get((b, p))
            rp = w.resolve(b, p)
            n = w.nodes.get((b, rp))
            name = "after %s: %s:/%s (%s)" % (what, b, "/".join(p), here.kind if here else "missing")
            ctx.count("nodes_checked")
            # the object itself
            if here is None:
                for f in (lambda: u.info(followlinks=False), u.info, u.mtime, u.isexec):
                    fails(f, name, (OSError, PathError))
                continue
            i = u.info(followlinks=False)
            one(w, b, p, here, i, name + ", followlinks=False", False)
            if n is None:
                for f in (u.info, u.mtime, u.isexec):
                    fails(f, name, (OSError, PathError))
                continue
            one(w, b, rp, n, u.info(), name, True)
            mt = u.mtime()
            if w.local:
                st = os.stat(be.abspath(p))
                if mt != st.st_mtime:
                    raise Violation("%s: mtime() is %r instead of %r" % (name, mt, st.st_mtime))
            if n.kind == "f":
                if not right_time(w, n.mtime, mt):
                    raise Violation("%s: mtime() is %r, it should be %r" % (name, mt, n.mtime))
                # from now on it is known
                n.mtime = ("is", mt)
            if not isinstance(mt, float) and not (isinstance(mt, int) and not w.local):
                raise Violation("%s: mtime() is %r" % (name, mt))
            for mask in [None, 0o111, 0o100, 0o010, 0o001, 0] + w.case["masks"]:
                r = u.isexec() if mask is None else u.isexec(mask)
                mask = 0o111 if mask is None else mask
                if r is not (n.mode & mask != 0):
                    raise Violation("%s: isexec(%o) is %r, the mode is %o" % (name, mask, r, n.mode))
                ctx.count("isexec")
            if n.kind == "d":
                ctx.count("dirs")


def one(w, b, p, n, i, name, follow):
    if stat.S_IMODE(i.mode) & n.mask != n.mode & n.mask:
        raise Violation("%s: the mode is %o instead of %o" % (name, i.mode, n.mode))
    if n.kind == "f" and i.size != n.size:
        raise Violation("%s: the size is %r instead of %r" % (name, i.size, n.size))
    if w.local:
        st = os.lstat(w.bes[b].abspath(p))
        if (i.size, i.mode) != (st.st_size, st.st_mode):
            raise Violation("%s: size, mode are %r instead of %r" % (name, (i.size, i.mode), (st.st_size, st.st_mode)))
        for attr in ("mtime", "atime"):
            t = getattr(i, attr)
            true = getattr(st, "st_" + attr)
            if not isinstance(t, datetime.datetime) or abs((t - datetime.datetime.fromtimestamp(true)).total_seconds()) >= 1:
                raise Violation("%s: %s is %r instead of %r" % (name, attr, t, datetime.datetime.fromtimestamp(true)))
    else:
        if n.kind != "d" and not right_time(w, n.mtime, i.mtime):
            raise Violation("%s: mtime is %r, it should be %r" % (name, i.mtime, n.mtime))
        mt = w.bes[b].uri(p).mtime() if n.kind != "l" else None
        if mt is not None and mt != i.mtime:
            raise Violation("%s: info reports %r as mtime, mtime() %r" % (name, i.mtime, mt))


def fails(f, name, errors):
    try:
        r = f()
    except errors:
        return
    raise Violation("%s: %s is %r" % (name, getattr(f, "__name__", "info"), r))
