"""open files and descriptors"""
import gc
import os
import random
import warnings

from vp import back, faults, gen as G, guard
from vp.checks.c10 import make, plain
from vp.core import Violation

TECHNIQUE = ("runtime monitoring with fault injection: every handle that is opened is tracked, descriptors of the process are counted "
             "while the exception is alive, ResourceWarnings are recorded")
LEVEL = "exploration"
NOTE = ("Each operation is repeated with a failure at each of its primitive calls, handle operations and system calls in turn; when "
        "it returns or raises (exception still referenced, collector off), all handles the library opened must be closed, no "
        "descriptor may be left and no ResourceWarning raised. Failing lock attempts (third party code) are not decided.")
CASES = dict(quick=4500, thorough=100000)
RULE = ("Random trees and operations over local files, memory and archives (on disk, in memory), all fault points up to a limit. "
        "Distinct: (operation, file systems, point that fails, number of the point up to 8).")
OPS = ["copy", "copy_tree", "move", "move_tree", "md5", "lock", "lock_raise", "read", "read_raise", "write", "write_raise", "exists",
       "listdir", "walk", "walk_break", "glob", "remove_tree", "missing_read"]
REQUIRED = ["runs", "fault_runs", "handles_tracked", "reported", "clean", "caller_handles", "big_files", "archives", "local", "repeated"] + \
    ["op:" + x for x in OPS]
LIMIT = 36

PAIRS = ["file>file", "file>memory", "memory>file", "file>zip", "zip>file", "memory>zip", "zip>memory", "file>zipmem", "zipmem>file",
         "memory>memory2", "memory>memory"]


def gen(rng, i, ctx):
    pair = PAIRS[i // 8 % len(PAIRS)]
    a, b = pair.split(">")
    zipped = "zip" in a or "zip" in b
    pool = G.names(rng, ctx, rng.randint(3, 5), literal=not zipped, plain=0.5)
    src = G.tree(rng, ctx, rng.randint(3, 8), links="zip" not in a and rng.random() < 0.3, pool=pool, big=0.3)
    src[("one",)] = ("f", G.content(rng, ctx, rng.random() < 0.6), 0)
    dst = {} if a == b else G.tree(rng, ctx, rng.randint(0, 4), links=False, empty_dirs="zip" not in b, pool=pool)
    op = OPS[i % len(OPS)] if rng.random() < 0.8 else rng.choice(OPS)
    return dict(pair=pair, op=op, src=G.tree_list(src), dst=G.tree_list(dst), pick=rng.random(), exdev=rng.random() < 0.7,
                code=rng.choice(faults.CODES), sample=rng.getrandbits(30), into=rng.random() < 0.5, name=rng.choice(pool))


class Tracked(faults.Handle):
    def close(self):
        self.__dict__["_closed"] = True
        return super(Tracked, self).close()

    def __exit__(self, *a):
        self.__dict__["_closed"] = True
        return super(Tracked, self).__exit__(*a)


class Tracking(faults.Faults):
    def __enter__(self):
        self.tracked = []
        return super(Tracking, self).__enter__()

    def _wrap(self, conn, name):
        if name != "open":
            return super(Tracking, self)._wrap(conn, name)
        real = getattr(conn, name)

        def wrapper(*a, **kw):
            self.point(type(conn).__name__ + "." + name)
            res = real(*a, **kw)
            if not self.active:
                return res
            h = Tracked(res, self)
            self.tracked.append((h, "%s.open%s" % (type(conn).__name__, tuple(str(x) for x in a))))
            return h
        conn.__dict__[name] = wrapper


class Boom(Exception):
    pass


def descriptors():
    res = {}
    with guard.trusted():
        for fd in os.listdir("/proc/self/fd"):
            try:
                res[fd] = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                pass
    return res


def run(case, ctx):
    from abl.vpath.base import URI
    a, b = case["pair"].split(">")
    src, dst = G.tree_dict(case["src"]), G.tree_dict(case["dst"])
    if "zip" in a:
        src = plain(src)
    if "zip" in b:
        dst = plain(dst)
    op = case["op"]
    files = [p for p in sorted(src) if src[p][0] == "f"]
    trees = [p for p in sorted(src) if src[p][0] == "d"]
    if not files:
        return
    f = files[int(case["pick"] * len(files))]
    d = trees[int(case["pick"] * len(trees))] if trees else None
    if op in ("copy_tree", "move_tree", "remove_tree", "walk_break") and d is None:
        return
    if loop(src) and op in ("copy_tree", "move_tree", "walk", "walk_break"):
        return
    if "zip" in a and op in ("lock", "lock_raise", "remove_tree", "move", "move_tree"):
        return
    if "zip" in b and op in ("move_tree", "copy_tree"):
        return
    if len(src[f][1]) > 4096:
        ctx.count("big_files")

    def once(target):
        back.reset_registry()
        ba = make(ctx, a, src)
        bb = ba if a == b else make(ctx, b, dst)
        conns = []
        for u in (ba.root, bb.root, URI("/"), URI("memory:///")):
            c = u.get_connection()
            if c not in conns:
                conns.append(c)
        always = None
        if case["exdev"] and a == b == "file":
            def always(event, path):
                if event == "os.rename":
                    return OSError(18, "cross-device link")
        t = Tracking(conns, always=always)
        t.target = target
        t.code = case["code"]
        got, result = None, None
        before = descriptors()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always", ResourceWarning)
            with t:
                try:
                    result = apply(ctx, op, ba, bb, f, d, case)
                except Violation:
                    raise
                except Exception as e:
                    # (the exception and its frames are alive)
                    got = e
            after = descriptors()
        name = "%s of %s:/%s to %s%s" % (op, a, "/".join(d if "tree" in op else f), b,
                                         " with a failing %s (operation %d)" % (t.hit, target) if target else "")
        left = {k: v for k, v in after.items() if k not in before}
        if left:
            raise Violation("%s: descriptors are left open: %s" % (name, sorted(left.values())[:3]))
        for h, what in t.tracked:
            ctx.count("handles_tracked")
            # (a handle in memory that the caller got from lock() holds no resources)
            if not h.__dict__.get("_closed") and not op.startswith("lock"):
                raise Violation("%s: %s is never closed" % (name, what))
        for w in ws:
            if issubclass(w.category, ResourceWarning):
                raise Violation("%s: %s" % (name, w.message))
        if got is not None:
            if target == 0 and not isinstance(got, Boom) and op not in ("missing_read",) and not isinstance(
                    got, (OSError, AssertionError, NotImplementedError)):
                raise got
            ctx.count("reported")
        else:
            ctx.count("clean")
        ctx.count("runs")
        del result
        return t

    ctx.count("op:" + op)
    if "zip" in a or "zip" in b:
        ctx.count("archives")
    if a == "file" or b == "file":
        ctx.count("local")
    enabled = gc.isenabled()
    gc.disable()
    try:
        t = once(0)
        total = t.n
        ctx.sig(op, case["pair"], "no fault", len(t.tracked))
        for k in faults.enumerate_points(total, LIMIT, random.Random(case["sample"])):
            t = once(k)
            if t.hit is not None:
                ctx.count("fault_runs")
                ctx.count("fault:" + t.hit)
                ctx.sig(op, case["pair"], t.hit, min(k, 8))
        once(0)
        ctx.count("repeated")
    finally:
        if enabled:
            gc.enable()


def apply(ctx, op, ba, bb, f, d, case):
    u = ba.uri(f)
    v = bb.root / ("new " + case["name"])
    if case["into"] and op in ("copy", "copy_tree", "move", "move_tree"):
        v = bb.root
        if ba is bb:
            v = bb.root / "two"
    if op == "copy":
        u.copy(v)
    elif op == "copy_tree":
        ba.uri(d).copy(v, recursive=True)
    elif op == "move":
        u.move(v)
    elif op == "move_tree":
        ba.uri(d).move(v)
    elif op == "md5":
        return u.md5()
    elif op == "lock":
        with u.lock():
            pass
    elif op == "lock_raise":
        with u.lock(cleanup=case["into"] and ba.kind == "memory"):
            raise Boom()
    elif op == "read":
        ctx.count("caller_handles")
        with u.open("rb") as h:
            data = h.read()
        return data
    elif op == "read_raise":
        ctx.count("caller_handles")
        with u.open() as h:
            h.read(1) if ba.kind != "file" else None
            raise Boom()
    elif op == "write":
        ctx.count("caller_handles")
        with v.open("wb") as h:
            h.write(b"x" * 10000)
    elif op == "write_raise":
        ctx.count("caller_handles")
        with v.open("wb") as h:
            h.write(b"x")
            raise Boom()
    elif op == "exists":
        return [u.exists(), u.isfile(), u.isdir(), v.exists(), v.isfile(), v.isdir(), bb.root.isdir()]
    elif op == "listdir":
        return [ba.root.listdir(), bb.root.listdir()]
    elif op == "walk":
        return [list(ba.root.walk()), list(bb.root.walk())]
    elif op == "walk_break":
        # (the generators stay alive)
        res = []
        for r in (ba.root, bb.root):
            it = r.walk(topdown=case["into"])
            next(it)
            res.append(it)
        return res
    elif op == "glob":
        return [ba.root.glob("*"), bb.root.glob("?*")]
    elif op == "remove_tree":
        ba.uri(d).remove(recursive=True)
    elif op == "missing_read":
        with (ba.root / "no such file").open("rb") as h:
            h.read()
    else:
        raise AssertionError(op)


def loop(src):
    "links to directories"
    for p, v in src.items():
        if v[0] == "l":
            t, n = v[1], 0
            while src.get(t, ("-",))[0] == "l" and n < 20:
                t, n = src[t][1], n + 1
            if not t or src.get(t, ("d",))[0] != "f":
                return True
    return False
