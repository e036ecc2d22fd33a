"""working directory and temporary file helpers"""
import os

from vp import back, gen as G, guard
from vp.core import Violation

TECHNIQUE = ("runtime monitoring: the current directory and the directory tree of the process compared with a model after every "
             "step of random nested programs")
LEVEL = "exploration"
NOTE = ("Random programs of nested and reused WorkingDirectory blocks, chdir, failing entries, exceptions and up to three open "
        "TempFileHandles run in a scratch tree; after every step the monitor compares the current directory and all files with its "
        "model. Directories that vanish while they are in use are not driven.")
CASES = dict(quick=32000, thorough=400000)
RULE = ("Programs of up to 20 statements, nesting up to 5, absolute and relative paths and links. Distinct: shapes of the programs "
        "(statements, nesting, exceptions, reuse).")
REQUIRED = ["blocks", "nested", "reused", "recursive", "exceptions", "chdir_inside", "missing", "relative", "through_link", "tmp",
            "tmp_reads", "tmp_blocks", "tmp_exceptions", "tmp_twice", "tmp_recreated", "tmp_relative", "tmp_elsewhere", "tmp_vanished", "tmp_links", "steps"]
SHRINK = ("body",)


def gen(rng, i, ctx):
    names = G.names(rng, ctx, 3, literal=False, plain=0.4)
    sub = G.name(rng, ctx, literal=False)
    if sub[1:2] == ":":
        sub = "sub"
    dirs = [[n] for n in names] + [[n, sub] for n in names] + [[]]
    objects = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.45:
            objects.append(["abs", rng.choice(dirs)])
        elif r < 0.65:
            objects.append(["rel", sub])
        elif r < 0.75:
            objects.append(["up"])
        elif r < 0.85:
            objects.append(["link"])
        else:
            objects.append(["abs", ["no such directory"]] if rng.random() < 0.6 else ["abs", ["__file"]])
    left = [rng.randint(4, 20)]

    def body(depth):
        res = []
        for _ in range(rng.randint(1, 5)):
            if left[0] <= 0:
                break
            left[0] -= 1
            r = rng.random()
            if r < 0.45 and depth < 5:
                res.append(["block", rng.randrange(len(objects)), body(depth + 1), rng.random() < 0.25, rng.random() < 0.3])
            elif r < 0.57:
                res.append(["chdir", rng.choice(dirs)])
            elif r < 0.72:
                res.append(["tmp", rng.randrange(3), rng.choice(dirs), rng.choice([False, False, True, True, "link"]), text(rng, ctx)])
            elif r < 0.82:
                res.append(["read", rng.randrange(3), rng.choice([None, -1, 0, 1, 2, 5, 100, 5000])])
            elif r < 0.90:
                res.append(["close", rng.randrange(3), rng.random() < 0.4, rng.random() < 0.5, rng.random() < 0.2])
            else:
                res.append(["tmpblock", rng.choice(dirs), text(rng, ctx), body(depth + 1), rng.random() < 0.3, rng.random() < 0.3,
                            rng.choice([False, False, True, True, "link"])])
        return res
    return dict(names=names, sub=sub, objects=objects, body=body(0))


def text(rng, ctx):
    return G.text(rng, ctx, rng.choice([0, 1, 3, 50, 4096, 8193])).replace("\r", "")


class Boom(Exception):
    pass


class Stop(BaseException):
    "something like KeyboardInterrupt"


def boom_of(n):
    return Stop() if n % 3 == 2 else Boom()


class World(object):
    def __init__(self, case, ctx):
        from abl.vpath.base import URI
        from abl.vpath.base.misc import WorkingDirectory
        self.ctx = ctx
        self.base = os.path.realpath(os.path.join(ctx.fresh_dir(), "base"))
        with guard.trusted():
            os.mkdir(self.base)
            for n in case["names"]:
                os.makedirs(os.path.join(self.base, n, case["sub"]))
            os.symlink(os.path.join(self.base, case["names"][0]), os.path.join(self.base, "a link"))
            with open(os.path.join(self.base, "__file"), "w"):
                pass
        self.files = back.os_snapshot(self.base)
        os.chdir(self.base)
        self.cwd = self.base
        self.objects = []
        for o in case["objects"]:
            p = {"abs": lambda: os.path.join(self.base, *o[1]), "rel": lambda: o[1], "up": lambda: "..",
                 "link": lambda: os.path.join(self.base, "a link")}[o[0]]()
            self.objects.append([p, WorkingDirectory(URI(p)), o[0]])
        self.used = {}
        self.tmp = {}
        self.inside = []
        self.n = 0

    def check(self, what):
        self.ctx.count("steps")
        if os.getcwd() != self.cwd:
            raise Violation("after %s the working directory is %r instead of %r" % (what, os.getcwd(), self.cwd))
        now = back.os_snapshot(self.base)
        if now != self.files:
            raise Violation("after %s: %s" % (what, back.diff(self.files, now)))

    def others(self):
        return list(self.tmp.values()) + self.inside

    def rel(self, path):
        path = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        return tuple(path[len(self.base) + 1:].split("/"))

    def new_file(self, d, content, relative):
        self.n += 1
        path = os.path.join(self.base, *(list(d) + ["tmp%d" % (self.n % 3)]))
        if os.path.lexists(path):
            return None, None
        if relative == "link":
            # the handle is for the link, the target is somebody else's
            target = os.path.join(self.base, *(list(d) + ["target%d" % self.n]))
            self.put(target, content)
            with guard.trusted():
                os.symlink(target, path)
            self.files[self.rel(path)] = ("l", self.rel(target))
            self.ctx.count("tmp_links")
            return path, path
        self.put(path, content)
        return (os.path.relpath(path, self.cwd) if relative else path), path

    def put(self, path, content):
        with guard.trusted():
            with open(path, "wb") as f:
                f.write(content.encode("utf-8"))
            os.chmod(path, 0o644)
        self.files[self.rel(path)] = ("f", content.encode("utf-8"), 0)


def run(case, ctx):
    w = World(case, ctx)
    sig = []
    w.check("start")
    block(w, case["body"], (), sig)
    for s in list(w.tmp):
        close(w, s, False, False)
    ctx.sig(tuple(sig))


def block(w, body, outer, sig):
    ctx = w.ctx
    for st in body:
        k = st[0]
        sig.append((k, len(outer)))
        if k == "chdir":
            w.cwd = os.path.join(w.base, *st[1])
            os.chdir(w.cwd)
            if outer:
                ctx.count("chdir_inside")
        elif k == "block":
            enter(w, st, outer, sig)
        elif k == "tmp":
            open_tmp(w, st[1], st[2], st[3], st[4])
        elif k == "read":
            if st[1] in w.tmp:
                read(w, w.tmp[st[1]], st[2])
        elif k == "close":
            if st[1] in w.tmp:
                close(w, st[1], st[2], st[3], st[4])
        elif k == "tmpblock":
            tmp_block(w, st, outer, sig)
        w.check(k)


def enter(w, st, outer, sig):
    ctx = w.ctx
    _, number, inner, fail, manual = st
    path, obj, kind = w.objects[number]
    target = os.path.realpath(os.path.join(w.cwd, path))
    inside = target == w.base or target.startswith(w.base + "/")
    if not inside:
        return
    before = w.cwd
    if not os.path.isdir(target):
        try:
            with obj:
                raise Violation("entering the missing directory %r succeeds" % path)
        except OSError:
            ctx.count("missing")
        w.check("failing entry")
        return
    ctx.count("blocks")
    if outer:
        ctx.count("nested")
    if number in outer:
        ctx.count("recursive")
    if w.used.get(number):
        ctx.count("reused")
    w.used[number] = True
    if kind in ("rel", "up"):
        ctx.count("relative")
    elif kind == "link":
        ctx.count("through_link")
    sig.append((number, fail))
    if manual and not fail:
        obj.__enter__()
        w.cwd = target
        w.check("entry of %r" % path)
        block(w, inner, outer + (number,), sig)
        obj.__exit__(None, None, None)
    else:
        boom = boom_of(w.n + len(inner))
        try:
            with obj:
                w.cwd = target
                w.check("entry of %r" % path)
                block(w, inner, outer + (number,), sig)
                if fail:
                    raise boom
        except (Boom, Stop) as e:
            if e is not boom:
                raise Violation("another exception")
            ctx.count("exceptions")
        else:
            if fail:
                raise Violation("the exception does not reach the caller")
    w.cwd = before
    w.check("exit of %r" % path)


def open_tmp(w, slot, d, relative, content):
    from abl.vpath.base.misc import TempFileHandle
    if slot in w.tmp:
        return
    name, path = w.new_file(d, content, relative)
    if name is None:
        return
    w.tmp[slot] = [TempFileHandle(name), path, content, w.cwd if relative is True else None]
    w.ctx.count("tmp")
    if relative is True:
        w.ctx.count("tmp_relative")
    w.check("opening")


def read(w, t, n):
    w.ctx.count("tmp_reads")
    got = t[0].read() if n is None else t[0].read(n)
    want = t[2] if n is None or n < 0 else t[2][:n]
    if got != want:
        raise Violation("read(%s) returns %s instead of %s" % (n, back.short(got), back.short(want)))
    t[2] = t[2][len(want):]


def gone(w, t):
    del w.files[w.rel(t[1])]
    if t[3] is not None and t[3] != w.cwd:
        w.ctx.count("tmp_elsewhere")


def close(w, slot, twice, recreate, vanished=False):
    t = w.tmp.pop(slot)
    if vanished:
        # somebody else was faster
        with guard.trusted():
            os.unlink(t[1])
        try:
            t[0].close()
        except OSError:
            pass
        gone(w, t)
        for fd in os.listdir("/proc/self/fd"):
            try:
                if os.readlink("/proc/self/fd/" + fd).startswith(w.base + "/"):
                    if not any(os.readlink("/proc/self/fd/" + fd) == os.path.realpath(x[1]) for x in w.others()):
                        raise Violation("the temporary file stays open after closing it")
            except OSError:
                continue
        w.ctx.count("tmp_vanished")
    else:
        t[0].close()
        gone(w, t)
    w.check("closing")
    if twice:
        again(w, t, recreate)


def again(w, t, recreate):
    w.ctx.count("tmp_twice")
    if recreate:
        # somebody else's file
        w.put(t[1], "somebody else")
        w.ctx.count("tmp_recreated")
    t[0].close()
    w.check("closing twice")
    if recreate:
        with guard.trusted():
            os.unlink(t[1])
        del w.files[w.rel(t[1])]


def tmp_block(w, st, outer, sig):
    from abl.vpath.base.misc import TempFileHandle
    _, d, content, inner, fail, early, relative = st
    name, path = w.new_file(d, content, relative)
    if name is None:
        return
    ctx = w.ctx
    ctx.count("tmp_blocks")
    boom = boom_of(w.n + len(inner))
    try:
        with TempFileHandle(name) as h:
            t = [h, path, content, w.cwd if relative is True else None]
            w.inside.append(t)
            w.check("entry")
            read(w, t, len(content) // 2)
            block(w, inner, outer + ("tmp",), sig)
            read(w, t, None)
            if early:
                h.close()
                gone(w, t)
                w.check("closing in the block")
            if fail:
                raise boom
    except (Boom, Stop) as e:
        if e is not boom:
            raise Violation("another exception")
        ctx.count("tmp_exceptions")
    else:
        if fail:
            raise Violation("the exception does not reach the caller")
    w.inside.remove(t)
    if not early:
        gone(w, t)
    w.check("leaving the block of a temporary file")
