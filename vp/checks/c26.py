"""threads that work on different files"""
import os
import random

from vp import back, gen as G, history, sched
from vp.core import Violation
from vp.model import Err, File, Tree, Unspec

TECHNIQUE = ("runtime monitoring under controlled random scheduling of real threads (line-level preemption); every result, tree and "
             "content is compared with a reference model of the thread's own part")
LEVEL = "exploration"
NOTE = ("2-4 threads run random histories on one memory file system, one directory on disk or one archive, each with names of its own "
        "(in subtrees or in a common directory) and common files to read; they are preempted at every line of the library by a seeded "
        "scheduler. Results must be those of the reference model for the thread alone. Interleavings are sampled.")
CASES = dict(quick=4000, thorough=90000)
RULE = ("Random groups of histories (memory, disk with absolute or relative paths, archive on disk or in memory), random schedules (random "
        "and priority-based, 4 preemption rates). Distinct: interleavings (hash of all context switches).")
REQUIRED = ["pauses", "mode:random", "mode:lockstep", "mode:pct", "mode:lockstep/opcodes", "mode:random/opcodes",
            "ops", "trees_compared", "switches", "fs:memory", "fs:file", "fs:relative", "fs:zip", "fs:memzip", "common", "subtree",
            "shared_reads", "streams", "final", "op:copy:ok", "op:move:ok", "op:remove:ok", "op:walk:ok", "op:write:ok",
            "op:read:ok", "op:listdir:ok", "op:glob:ok", "op:md5:ok", "op:makedirs:ok", "op:symlink:ok", "overlapping", "twins"]
ASSUMPTIONS = ["threads are preempted at lines, or byte code instructions, of the library and at lock operations only"]
PATIENCE = 3        # every step costs a lot
SHRINK = ("threads",)

READS = ("text", "pieces", "lines", "blines")
CHANGING = ("write", "append", "mkdir", "makedirs", "remove", "symlink", "copy", "move", "set_exec", "stream")


def before_import(ctx):
    sched.import_with_proxies()


def setup(ctx):
    # every step costs a lot here
    ctx.new_ints = [x for x in ctx.new_ints if x <= 20]


def mapped(p, k, common):
    p = list(p)
    if p and p[0] == "shared":
        return p
    if common:
        if p and not p[0].endswith("~%d" % k):
            p[0] += "~%d" % k
        return p
    top = "t%d" % k
    return p if p and p[0] == top else [top] + p


def shared_tree(rng, ctx, links):
    res = {("shared",): ("d",)}
    for p, v in G.tree(rng, ctx, rng.randint(1, 4), links=False, exe=False, big=0.4).items():
        res[("shared",) + p] = v
    return res


def twin(op, k, common):
    "what thread 0 does, for thread k"
    op = list(op)
    for i in (1, 2):
        if len(op) > i and isinstance(op[i], (list, tuple)) and op[i] and isinstance(op[i][0], str) and \
                (i == 1 or op[0] in ("symlink", "copy", "move")):
            p = list(op[i])
            if p[0] != "shared":
                p[0] = p[0][:-2] + "~%d" % k if common else "t%d" % k
            op[i] = p
    if op[0] in ("write", "append") and isinstance(op[2], bytes):
        op[2] = op[2] + b"%d" % k
    elif op[0] in ("stream", "tstream"):
        op[2] = list(op[2]) + [b"%d" % k if op[0] == "stream" else "%d" % k]
    return op


def part(snap, k, common):
    "what belongs to thread k, or to nobody"
    return {p: v for p, v in snap.items() if own(p, k, common) or p[0] == "shared"}


def own(p, k, common):
    return p[0].endswith("~%d" % k) if common else p[0] == "t%d" % k


class Frozen(File):
    "nobody may write to what is shared, not even the same content again"
    data = property(lambda self: self.was[0], lambda self, x: self.refuse())
    exe = property(lambda self: self.was[1], lambda self, x: self.refuse())

    def refuse(self):
        raise Unspec("shared")


def freeze(tree):
    def rec(x):
        if x.kind == "d":
            for y in x.ch.values():
                rec(y)
        elif x.kind == "f":
            was = x.data, x.exe
            x.__dict__.clear()
            x.__class__ = Frozen
            x.was = was
    top = tree.node(("shared",))
    if top is not None:
        rec(top)


def thread_ops(rng, ctx, k, common, shared, links, zipped, relative, local, n, busy):
    pool = G.names(rng, ctx, rng.randint(2, 4), literal=not zipped and not relative, plain=0.6)
    if "shared" in pool:
        pool.remove("shared")
    if not pool:
        pool = ["a"]
    start = dict(shared)
    if not common and not zipped:
        start[("t%d" % k,)] = ("d",)
    tree = Tree()
    tree.load(start)
    ops = []
    for _ in range(n * 8):
        if len(ops) >= n:
            break
        op = history.random_op(rng, tree, pool, ctx, links)
        if busy and rng.random() < busy:
            op = ["read", ["shared", "text"]]
        if zipped and op[0] not in ("write", "read", "exists", "isfile", "isdir", "listdir", "md5", "walk"):
            continue
        if op[0] == "write" and rng.random() < 0.4:
            op = ["stream", op[1], [op[2][j:j + len(op[2]) // 3 + 1] for j in range(0, len(op[2]), len(op[2]) // 3 + 1)]]
        elif op[0] == "write" and not zipped and rng.random() < 0.4:
            op = ["tstream", op[1], [G.text(rng, ctx, rng.randint(1, 12)) for _ in range(rng.randint(1, 3))]]
        elif op[0] in ("read", "md5", "info", "size", "isexec") and not zipped:
            files = [list(p) for p, v in tree.snapshot().items() if v[0] == "f"]
            if files and (rng.random() < 0.7 or op[1] == ["shared", "text"]):
                p = op[1] if op[1] in files and rng.random() < 0.8 else rng.choice(files)
                kind = rng.choice(["text", "text", "pieces", "lines", "blines"])
                if kind in ("lines", "blines") and tree.snapshot()[tuple(p)][1].count(b"\n") > 200:
                    kind = "pieces"
                op = [kind, p,
                      max(rng.choice([1, 2, 3, 5, 20]), len(tree.snapshot()[tuple(p)][1]) // 30)]
        for i in (1, 2) if op[0] not in READS else ():
            if len(op) > i and (i == 1 or op[0] in ("symlink", "copy", "move")):
                op[i] = mapped(op[i], k, common)
        if not op[1] and op[0] not in ("listdir", "glob", "exists", "isdir", "isfile"):
            continue
        if op[0] in ("copy", "move", "symlink") and not op[2]:
            continue
        if zipped and op[0] in ("write", "stream"):
            # no file is a directory at once; directories are implied
            p = tuple(op[1])
            if tree.isdir(p) or any(tree.isfile(p[:j]) for j in range(1, len(p))) or len(p) < (1 if common else 2):
                continue
        work = Tree()
        work.load(tree.snapshot())
        freeze(work)
        try:
            apply(work, history.norm(op), local, zipped)
        except Unspec:
            continue
        except Err as e:
            if e.partial is not None or zipped and op[0] in ("listdir", "walk") or rng.random() < 0.4:
                continue
            work = tree
        snap = work.snapshot()
        if {p: v for p, v in snap.items() if p[0] == "shared"} != shared:
            continue
        if any(not own(p, k, common) and p[0] != "shared" for p in snap) or len(snap) > 25:
            continue
        tree = work
        ops.append(op)
    return ops


def apply(tree, op, local, zipped):
    if zipped and op[0] in ("write", "stream"):
        for j in range(1, len(op[1])):
            if not tree.isdir(op[1][:j]):
                tree.mkdir(op[1][:j])
    if op[0] == "stream":
        return tree.write(op[1], b"".join(op[2]))
    if op[0] == "tstream":
        return tree.write(op[1], "".join(op[2]).encode("utf-8"))
    if op[0] in ("pieces", "blines"):
        return tree.read(op[1])
    if op[0] in ("text", "lines"):
        data = tree.read(op[1])
        if b"\r" in data:
            raise Unspec("newlines")
        try:
            return data.decode("utf-8")
        except UnicodeDecodeError:
            raise Unspec("not a text")
    return back.model_op(tree, op, local)


def hot(rng, prefer):
    place = sched.some_place(rng, prefer) if rng.random() < 0.6 else None
    return place and place + [rng.choice([20, 60, 200, 1000])]


def gen(rng, i, ctx):
    place = rng.choice(["memory", "memory", "memory", "file", "relative", "zip", "memzip"])
    common = rng.random() < 0.55
    zipped = "zip" in place
    links = not zipped and rng.random() < 0.6
    n = rng.choice([2, 2, 3, 4])
    shared = shared_tree(rng, ctx, links) if not zipped or rng.random() < 0.7 else {}
    if zipped or place == "relative":
        shared = {p: v for p, v in shared.items() if not any("?" in x or "\\" in x for x in p)}
        shared = {p: v for p, v in shared.items() if v[0] == "f" or any(q[:len(p)] == p and q != p for q in shared)}
        shared = {p: v for p, v in shared.items() if v[0] == "f" or any(q[:len(p)] == p and shared[q][0] == "f" for q in shared)}
    busy = 0
    if not zipped and not any(p[:2] == ("shared", "text") for p in shared) and rng.random() < 0.5:
        # characters of several bytes, which small reads take apart
        shared.update({("shared",): ("d",), ("shared", "text"): ("f", "".join(
            rng.choice("\xe4\xf6\u20ac\U0001d11ex\n") for _ in range(rng.randint(5, 60))).encode("utf-8"), False)})
        busy = rng.choice([0.1, 0.1, 0.7])
    twins = rng.random() < 0.3
    threads = [[k, thread_ops(rng, ctx, k, common, G.tree_dict(G.tree_list(shared)), links, zipped, place == "relative",
                              place in ("file", "relative"), rng.randint(2, 7 if n < 4 else 5), busy)] for k in range(1 if twins else n)]
    if twins:
        threads += [[k, [twin(op, k, common) for op in threads[0][1]]] for k in range(1, n)]
    return dict(place=place, common=common, links=links, shared=G.tree_list(shared), threads=threads, twins=twins,
                seed=rng.getrandbits(40), p=rng.choice([0.02, 0.1, 0.3, 0.6]), mode=rng.choice(["random", "random", "random", "lockstep", "lockstep", "pct"]), opcodes=rng.random() < 0.15, hot=hot(rng, "zip" if "zip" in place else "memory" if place == "memory" else ""),
                check=rng.choice([0.0, 0.3, 1.0]))


class Stop(Exception):
    pass


def backend(ctx, case, k):
    place, common = case["place"], case["common"]

    def mine(name):
        return name == "shared" or own((name,), k, common)

    class Api(object):
        def snapshot(self):
            "through the public API: others are changing the file system"
            res = {}

            def rec(u, p):
                for n in u.listdir():
                    if not p and not mine(n):
                        continue
                    v, q = u / n, p + (n,)
                    if self.links and v.islink():
                        res[q] = ("l", self.topath(v.readlink()))
                    elif v.isdir():
                        res[q] = ("d",)
                        rec(v, q)
                    else:
                        with v.open("rb") as h:
                            data = h.read()
                        res[q] = ("f", data, v.info().mode & 0o111 if self.links else 0)
            rec(self.root, ())
            return res

    if place == "memory":
        class Mem(Api, back.Mem):
            pass
        be = Mem()
    elif place in ("file", "relative"):
        class Loc(back.Loc):
            def uri(self, path, deco=None):
                if place == "relative" and path and self.relative:
                    # (links are absolute)
                    return back.api().URI("./" + path[0]).join(*path[1:]) if len(path) > 1 else back.api().URI("./" + path[0])
                return super(Loc, self).uri(path, deco)

            def topath(self, uri):
                p = os.path.normpath(os.path.join(self.base, uri.path))
                if p == self.base:
                    return ()
                return tuple(p[len(self.base) + 1:].split("/"))

            def snapshot(self):
                return {p: v for p, v in super(Loc, self).snapshot().items() if mine(p[0])}
        be = Loc(ctx.place)
        be.relative = False
    else:
        class Zip(Api, back.Zip):
            pass
        be = Zip(("os", ctx.place + "/x.zip") if place == "zip" else ("memory", "/x.zip"))
    be.mine = mine
    return be


def stream(be, op):
    with be.uri(tuple(op[1])).open("wb" if op[0] == "stream" else "w") as f:
        for x in op[2]:
            f.write(x)


def pieces(be, op):
    res = []
    binary = op[0] in ("pieces", "blines")
    with be.uri(tuple(op[1])).open("rb" if binary else "r") as f:
        if op[0] in ("lines", "blines") and op[2] % 2:
            res = list(f)
        while True:
            x = f.read(op[2]) if op[0] in ("pieces", "text") else f.readline()
            if not x:
                break
            res.append(x)
    return (b"" if binary else "").join(res)


def thread(case, ctx, k, ops, be, state, rng):
    common, zipped = case["common"], "zip" in case["place"]
    local = case["place"] in ("file", "relative")
    tree = state["tree"]
    label = "thread %d on %s: " % (k, case["place"])
    for raw in ops:
        op = history.norm(raw)
        work = Tree()
        work.load(tree.snapshot())
        try:
            want = ("ok", apply(work, op, local, zipped))
            tree = work
        except Unspec:
            continue
        except Err as e:
            if e.partial is not None:
                return
            want = ("err", str(e))
        if op[0] in ("stream", "tstream") + READS:
            ctx.count("streams")
            try:
                if op[0] in ("stream", "tstream"):
                    stream(be, op)
                    got = ("ok", None)
                else:
                    got = ("ok", pieces(be, op))
            except OSError as e:
                got = ("err", e)
            except Exception as e:
                raise Violation("%s%s %s fails with an internal error: %s: %s" % (label, op[0], op[1], type(e).__name__, e))
        else:
            if local and case["place"] == "relative":
                be.relative = op[0] not in ("symlink",)
            got = back.attempt(be, op)
        ctx.count("ops")
        ctx.count("op:%s:%s" % (op[0], want[0]))
        if want[0] != got[0]:
            raise Violation("%s%s should %s, but %s" % (label, back.show(op), "succeed" if want[0] == "ok" else "fail (%s)" % want[1],
                                                        "raises %r" % got[1] if got[0] == "err" else "returns %s" % back.short(got[1])))
        if want[0] == "ok" and op[0] not in back.NORETURN and op[0] not in ("stream", "tstream"):
            w, g = want[1], got[1]
            if op[0] == "walk":
                w = [[tuple(x[0]), x[1], x[2]] for x in w]
            if not op[1] and op[0] in ("listdir", "glob"):
                g = [x for x in g if be.mine(x)]
            if zipped and op[0] == "listdir":
                g = list(g)
            if w != g:
                raise Violation("%s%s should return %s, but returns %s" % (label, back.show(op), back.short(w), back.short(g)))
            if op[0] in ("read", "md5") + READS and op[1][:1] == ("shared",):
                ctx.count("shared_reads")
        state["tree"] = tree
        if rng.random() < case["check"]:
            compare(ctx, label + "after " + back.show(op), be, tree.snapshot())
        state["done"] += 1
        if state["others"]():
            ctx.count("overlapping")
    compare(ctx, label + "finally", be, tree.snapshot())


def compare(ctx, label, be, want):
    got = be.snapshot()
    if got != want:
        raise Violation("%s: %s" % (label, back.diff(want, got)))
    ctx.count("trees_compared")


def run(case, ctx):
    if not case["threads"]:
        return
    back.reset_registry()
    ctx.place = os.path.realpath(ctx.fresh_dir())
    place, common, zipped = case["place"], case["common"], "zip" in case["place"]
    shared = G.tree_dict(case["shared"])
    start = dict(shared)
    bes = [backend(ctx, case, k) for k, _ in case["threads"]]
    if not zipped:
        if not common:
            for k, _ in case["threads"]:
                start[("t%d" % k,)] = ("d",)
        if place == "memory":
            back.build(back.Mem(), start)
        else:
            back.build_os(ctx.place, start)
    elif start:
        bes[0].put(back.zip_bytes(start, dirs=False))
    if case["seed"] % 3 == 0:
        # the first requests for the connection are concurrent as well
        if place not in ("memory", "memzip"):
            back.reset_registry()
    ctx.count("fs:" + place)
    ctx.count("common" if common else "subtree")
    if case.get("twins"):
        ctx.count("twins")
    ctx.count("mode:" + case["mode"] + ("/opcodes" if case.get("opcodes") else ""))
    s = sched.Sched(random.Random(case["seed"]), ctx.spec["repo"] + "/abl/vpath", p=case["p"], mode=case["mode"], opcodes=case.get("opcodes", False),
                    hot=case.get("hot"),
                    max_steps=6000000)
    states = []
    cwd = os.getcwd()
    os.chdir(ctx.place)
    try:
        for (k, ops), be in zip(case["threads"], bes):
            t = Tree()
            t.load(part(start, k, common))
            state = dict(tree=t, done=0, n=len(ops))
            state["others"] = lambda me=state: any(0 < x["done"] < x["n"] for x in states if x is not me)
            states.append(state)
            s.spawn(lambda k=k, ops=ops, be=be, state=state: thread(case, ctx, k, ops, be, state, random.Random(case["seed"] + k)),
                    "thread %d" % k)
        s.run()
        ctx.count("switches", s.switches)
        ctx.count("pauses", s.pauses)
        ctx.count("steps", s.steps)
        if s.steps > 100000:
            ctx.count("long_runs")
        for t in s.tasks:
            if t.error is not None:
                raise t.error
        if s.failure:
            raise Violation("%s: %s" % (place, s.failure))
        if os.getcwd() != ctx.place:
            raise Violation("the current directory is changed to %s" % os.getcwd())
    finally:
        os.chdir(cwd)
    want = dict(shared)
    for st in states:
        want.update(st["tree"].snapshot())
    if place == "memory":
        whole = back.Mem()
    elif zipped:
        whole = back.Zip(bes[0].where)
    else:
        whole = back.Loc(ctx.place)
    if place == "zip":
        left = sorted(os.listdir(ctx.place))
        if left not in ([], ["x.zip"]):
            raise Violation("unexpected files: %s" % left)
    got = whole.snapshot()
    if got != want:
        raise Violation("after all threads on %s are done: %s" % (place, back.diff(want, got)))
    ctx.count("final")
    ctx.sig(s.history, s.switches)
