"""isolation of file systems"""
import os

from vp import back, gen as G, guard, history
from vp.core import Violation
from vp.model import Err, Tree, Unspec
from vp.checks.c10 import m_to_zip

TECHNIQUE = ("runtime monitoring: audit-event monitor of all local file accesses, and every file system compared with its own "
             "model after each operation")
LEVEL = "exploration"
NOTE = ("A world of several memory file systems (different parameters), a directory and archives (on disk, in memory), in which "
        "the same absolute paths exist; after every operation all of them are compared with their models, and operations on "
        "memory must not cause a single local change event. Exploration.")
CASES = dict(quick=4400, thorough=90000)
RULE = ("Random histories over 3-7 file systems whose entries carry the same absolute paths, single operations and copies, "
        "moves between them; all file systems are compared after each one. Distinct: (kind of the file systems involved, "
        "operation, outcome, number of entries).")
REQUIRED = ["ops", "memory_ops", "worlds_compared", "cross", "zipmem_ops", "zip_ops", "file_ops", "memory_log_empty", "alias_ops",
            "op:lock", "op:copy", "op:move", "op:remove", "op:write", "op:symlink", "op:walk", "op:md5", "op:tempcopy",
            "op:copystat", "cross:symlink", "cross:copystat"]
SHRINK = ("ops",)

PARAMS = [
    (None, {}), ("instance=b", {}), (None, {"instance": "c"}), ("a=1&b=2", {}), (None, {"username": "u1"}),
    (None, {"username": "u1", "password": "p"}), ("instance=b&z=1", {}), (None, {"a": "1"}), ("a=2&b=1", {}),
    (None, {"username": "u2"}), ("instance=B", {}), (None, {"a": 1}), (None, {"a": None}), ("a=None", {}),
    (None, {"a": True, "b": 1.5}),
]
# written differently, but the same parameters
ALIAS = {1: (None, {"instance": "b"}), 2: ("instance=c", {}), 3: ("b=2", {"a": "1"}), 7: ("a=1", {}), 4: ("username=u1", {}),
         10: (None, {"instance": "B"})}


def gen(rng, i, ctx):
    pool = G.names(rng, ctx, rng.randint(2, 4), literal=False, plain=0.5)
    mems = rng.sample(range(len(PARAMS)), rng.randint(2, 4))
    world = [["memory", m, False] for m in mems]
    for m in mems:
        if m in ALIAS and rng.random() < 0.6:
            world.append(["memory", m, True])
    world.append(["file"])
    if rng.random() < 0.6:
        world.append(["zip"])
    if rng.random() < 0.6:
        world.append(["zipmem", rng.choice(mems)])
    ops = []
    for _ in range(rng.randint(6, 20)):
        a = rng.randrange(len(world))
        p = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
        k = rng.choice(["write", "write", "write", "mkdir", "makedirs", "remove", "append", "copy", "copy", "move", "symlink",
                        "listdir", "read", "lock", "walk", "md5", "set_exec", "exists", "tempcopy",
                        "copystat"])
        q = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]
        b = rng.randrange(len(world))
        ops.append([a, k, p, b, q, G.content(rng, ctx, False), rng.random() < 0.6])
    return dict(world=world, ops=ops)


class Sub(object):
    "a memory file system, used below a local path"
    kind = "memory"

    def __init__(self, text, kw, prefix):
        self.full = back.Mem(text, dict(kw))
        self.prefix = prefix

    def uri(self, p, deco=None):
        return self.full.uri(self.prefix + tuple(p), deco)

    def topath(self, uri):
        return self.full.topath(uri)[len(self.prefix):]

    def snapshot(self, others=()):
        res = {}
        for q, v in self.full.snapshot().items():
            if q[:len(self.prefix)] == self.prefix:
                q = q[len(self.prefix):]
                if q:
                    res[q] = v if v[0] != "l" else ("l", v[1][len(self.prefix):])
            elif self.prefix[:len(q)] != q and q[0] not in others:
                raise Violation("unexpected %r" % (q,))
        return res


def run(case, ctx):
    from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform, PathError
    back.reset_registry()
    outer = ctx.fresh_dir()
    base = os.path.join(outer, "base")
    os.mkdir(base)
    prefix = tuple(base.strip("/").split("/"))
    trees, world = {}, []
    for w in case["world"]:
        if w[0] == "memory":
            text, kw = ALIAS[w[1]] if w[2] else PARAMS[w[1]]
            be, key = Sub(text, kw, prefix), ("memory", w[1])
            if key not in trees:
                be.uri(()).makedirs()
        elif w[0] == "file":
            be, key = back.Loc(base), ("file",)
        elif w[0] == "zip":
            be, key = back.Zip(("os", os.path.join(outer, "x.zip"))), ("zip",)
        else:
            text, kw = PARAMS[w[1]]
            if kw:
                text, kw = ALIAS.get(w[1], (None, {"x": 1}))
            if kw:
                continue
            be, key = back.Zip(("memory", "/x.zip" + ("?" + text if text else ""))), ("zipmem",)
        trees.setdefault(key, Tree())
        world.append((w[0], be, key))

    def fresh(key):
        t = Tree()
        t.load(trees[key].snapshot())
        return t

    def compare(what):
        done = set()
        for kind, be, key in world:
            now = be.snapshot(("x.zip",)) if kind == "memory" else be.snapshot()
            want = trees[key].snapshot()
            if now != want:
                raise Violation("after %s: %s has changed: %s" % (what, key, back.diff(want, now)))
            done.add(key)
        ctx.count("worlds_compared")
        names = set(os.listdir(outer))
        if names - {"base", "x.zip"} or ("x.zip" in names and ("zip",) not in trees):
            raise Violation("after %s: there is %r on disk" % (what, sorted(names)))

    for a, k, p, b, q, data, flag in case["ops"]:
        if a >= len(world) or b >= len(world):
            continue
        kind, be, key = world[a]
        p, q = tuple(p), tuple(q)
        kind2, be2, key2 = world[b]
        zipped = kind.startswith("zip")
        cross = k in ("copy", "move", "symlink", "copystat")
        if not cross:
            kind2, be2, key2 = kind, be, key
        t = fresh(key)
        t2 = t if key2 == key else fresh(key2)
        if zipped and k not in ("write", "listdir", "read", "walk", "md5", "exists", "copy", "symlink", "copystat"):
            continue
        if zipped and k in ("listdir", "walk") and not t.root.ch:
            continue        # no archive yet
        what = "%s of %s:/%s" % (k, key, "/".join(p))
        if cross:
            what += " to %s:/%s" % (key2, "/".join(q))
        try:
            err = None
            rec = False
            if k in ("write", "append"):
                if zipped:
                    m_zip_write(t, p, data)
                else:
                    back.model_op(t, (k, p, data))
            elif k in ("mkdir", "makedirs", "listdir", "read", "exists", "md5"):
                back.model_op(t, (k, p))
            elif k == "remove":
                back.model_op(t, (k, p, flag))
            elif k == "set_exec":
                back.model_op(t, (k, p, 0o111 if flag else 0))
            elif k == "symlink":
                if kind != kind2 or zipped:
                    raise Err("REFUSED")
                t2.symlink(p, q)
            elif k == "copystat":
                if zipped or kind2.startswith("zip"):
                    raise Err("REFUSED")
                if not t.exists(p) or not t2.exists(q):
                    raise Err("ENOENT")
                if not t.isfile(p) or not t2.isfile(q):
                    continue
                t2.set_exec(q, sum(m for m in (0o100, 0o10, 0o1) if t.isexec(p, m)))
                if kind == "memory" and kind2 == "file":
                    # (files in memory have no read permissions)
                    be.uri(p).info(set_info=dict(mode=0o644 | be.uri(p).info().mode))
            elif k == "walk":
                back.model_op(t, (k, p, True, False, []))
            elif k in ("lock", "tempcopy"):
                if t.islink(p):
                    continue
                if kind == "file" and k == "lock":
                    if not t.isfile(p):
                        continue
                    t.append(p, data)
                else:
                    t.write(p, data)
            elif k in ("copy", "move"):
                rec = t.isdir(p)
                if zipped and kind2.startswith("zip"):
                    continue
                if kind2.startswith("zip"):
                    if k == "move" and rec:
                        continue
                    m_to_zip(t, t2, p, q, rec, True)
                elif k == "copy":
                    same = kind == kind2
                    t.copy(p, q, rec, follow=flag, other=t2, links=same, keep_exe=same)
                elif key == key2:
                    t.move(p, q, local=kind == "file")
                else:
                    same = kind == kind2
                    t.copy(p, q, rec, follow=not same, other=t2, links=same, keep_exe=same)
                if k == "move" and key != key2:
                    t.remove(p, True)
        except Unspec:
            continue
        except Err as e:
            err = str(e)
            if e.partial is not None:
                continue
            t, t2 = trees[key], trees[key2]
        u = be.uri(p)
        log = guard.STATE.log = []
        try:
            try:
                apply(be, be2, u, k, p, q, data, flag, rec)
                got = None
            except (OSError, PathError, AssertionError, OperationIsNotSupportedOnPlatform, NotImplementedError) as e:
                if isinstance(e, AssertionError) and k != "copy":
                    raise
                if isinstance(e, (OperationIsNotSupportedOnPlatform, NotImplementedError)) and \
                        (k not in ("symlink", "copystat", "copy", "move") or not err):
                    raise
                got = e
        finally:
            guard.STATE.log = None
        ctx.count("ops")
        ctx.count("op:" + k)
        if cross and key != key2:
            ctx.count("cross")
            ctx.count("cross:" + k)
        if kind.startswith(("memory",)) and any(w[1] == key[1] and w[2] for w in case["world"] if w[0] == "memory"):
            ctx.count("alias_ops")
        ctx.count(kind + "_ops")
        if (got is None) != (err is None):
            raise Violation("%s should %s, but %s" % (what, "succeed" if err is None else "fail (%s)" % err,
                                                      "raises %r" % got if got is not None else "succeeds"))
        local = set()
        if "file" in (kind, kind2):
            local.add(base)
        if "zip" in (kind, kind2):
            local.add(os.path.join(outer, "x.zip"))
        for event, path in log:
            if event == "open-r":
                continue
            if not any(path == x or path.startswith(x + "/") for x in map(os.path.realpath, local)):
                raise Violation("%s causes %s of %s" % (what, event, path))
        if not local:
            ctx.count("memory_log_empty")
        trees[key] = t
        trees[key2] = t2
        compare(what)
        ctx.sig(kind, kind2, k, err, len(trees[key].snapshot()), len(trees[key2].snapshot()))


def m_zip_write(t, p, data):
    if t.isdir(p):
        raise Unspec("file with the name of a directory")
    for k in range(1, len(p)):
        y = t.node(p[:k])
        if y is None:
            t.mkdir(p[:k])
        elif y.kind != "d":
            raise Unspec("below a file")
    t.write(p, data)


def apply(be, be2, u, k, p, q, data, flag, rec):
    if k in ("write", "append"):
        with u.open("ab" if k == "append" else "wb") as f:
            f.write(data)
    elif k in ("mkdir", "makedirs", "listdir", "exists", "md5"):
        getattr(u, k)()
    elif k == "read":
        with u.open("rb") as f:
            f.read()
    elif k == "remove":
        u.remove(recursive=flag)
    elif k == "set_exec":
        u.set_exec(0o111 if flag else 0)
    elif k == "symlink":
        u.symlink(be2.uri(q))
    elif k == "copystat":
        u.copystat(be2.uri(q))
    elif k == "walk":
        list(u.walk(followlinks=False))
    elif k == "lock":
        with u.lock(fail_on_lock=flag) as f:
            if be.kind == "file":
                if "b" in getattr(f, "mode", "b"):
                    f.write(data)
                else:
                    f.buffer.write(data)
            else:
                f.write(data)
    elif k == "tempcopy":
        with u.open("w+b") as f:
            f.write(data)
            f.seek(0)
            f.read()
    elif k == "copy":
        u.copy(be2.uri(q), recursive=rec, followlinks=flag)
    elif k == "move":
        u.move(be2.uri(q))


