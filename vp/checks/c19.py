"""zip archives"""
import io
import os
import unicodedata
import warnings
import zipfile

from vp import back, gen as G, guard
from vp.core import Violation
from vp.model import Tree

TECHNIQUE = ("runtime monitoring: model of the archive, compared with what several connections and the zipfile module see "
             "after every step")
LEVEL = "exploration"
NOTE = ("Archives on disk and in memory, written through up to 3 simultaneously open handles and by the zipfile module, are "
        "compared after every change with a model: all items byte by byte, exists/isfile/isdir/listdir/walk of every path, through "
        "several connections, and by zipfile itself. Items that are file and directory at once are not driven.")
CASES = dict(quick=3900, thorough=100000)
RULE = ("4-16 steps: writes in pieces, interleaved handles, rewrites, foreign appends and replacements, removal of the archive, "
        "fresh connections. Distinct: states of the archive (names, lengths, way of storage).")
REQUIRED = ["writes", "rewrites", "interleaved", "foreign", "replaced", "dropped", "fresh_connection", "missing_read",
            "missing_archive", "views", "items_read", "disk", "memory", "dir_items", "lead_items", "by_exception", "twice_closed",
            "same_path_handles", "big", "refused"]
SHRINK = ("ops",)


def gen(rng, i, ctx):
    pool = G.names(rng, ctx, rng.randint(3, 5), literal=False, plain=0.35)
    if rng.random() < 0.25:
        pool.append(rng.choice(["what?", "q?a=b", "?"]))
    # names that are a prefix of each other
    if rng.random() < 0.4:
        pool.append(pool[0] + rng.choice(["x", ".", "-", " ", "!", "\u00e4"]))
    if rng.random() < 0.06:
        pool.append((rng.choice(["a", "\u00e4", "\u20ac", "x.", "%"]) * rng.choice([60, 130, 260, 700]))[:rng.randint(50, 700)])

    def path():
        return [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3]))]

    ops = []
    if rng.random() < 0.45:
        ops.append(["replace", G.tree_list(G.tree(rng, ctx, rng.randint(1, 8), links=False, exe=False, pool=pool)),
                    rng.random() < 0.3, rng.random() < 0.5, rng.random() < 0.5])
    seen = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        p = rng.choice(seen) if seen and rng.random() < 0.45 else path()
        if r < 0.3:
            ops.append(["write", p, G.content(rng, ctx, rng.random() < 0.15), rng.randint(1, 3),
                        rng.choice(["with", "close", "twice", "raise", "withclose"]), rng.randrange(3), rng.random() < 0.2])
            seen.append(p)
        elif r < 0.5:
            ops.append(["open", rng.randrange(3), p, rng.randrange(3)])
            seen.append(p)
        elif r < 0.62:
            ops.append(["put", rng.randrange(3), G.content(rng, ctx, False)])
        elif r < 0.75:
            ops.append(["close", rng.randrange(3)])
        elif r < 0.82:
            ops.append(["missing", path() + ([rng.choice(pool)] if rng.random() < 0.5 else []), rng.randrange(3)])
        elif r < 0.89:
            ops.append(["foreign", p, G.content(rng, ctx, False), rng.random() < 0.5, rng.random() < 0.25])
        elif r < 0.905:
            ops.append(["drop"])
        elif r < 0.92:
            # a name that can't be stored
            ops.append(["bad", rng.randrange(3), path()[:1] * rng.randrange(2) + ["bad\udcff"], rng.random() < 0.5])
        elif r < 0.94:
            ops.append(["replace", G.tree_list(G.tree(rng, ctx, rng.randint(0, 6), links=False, exe=False, pool=pool)),
                        rng.random() < 0.3, rng.random() < 0.5, rng.random() < 0.5])
        elif r < 0.97:
            ops.append(["clean"])
        else:
            ops.append(["reader", p, rng.randrange(3)])
    return dict(where=rng.choice(["os", "os", "os", "memory", "memory", "memory2"]), name=aname(rng, ctx), ops=ops,
                walk=rng.random() < 0.5)


def aname(rng, ctx):
    while True:
        n = G.name(rng, ctx, literal=False)
        if "((" not in n and "))" not in n:
            return n


def near(name, k):
    return [name.swapcase(), name[:-1], name + " ", name.casefold(), name.strip(), name + ".", name[:1].swapcase() + name[1:],
            unicodedata.normalize("NFD", name)][k % 8]


class World(object):
    def __init__(self, case, ctx):
        from abl.vpath.base import URI
        self.case, self.ctx = case, ctx
        if case["where"] == "os":
            self.be = back.Zip(("os", os.path.join(ctx.fresh_dir(), case["name"])))
        elif case["where"] == "memory":
            self.be = back.Zip(("memory", "/" + case["name"]))
        else:
            URI("memory:///dir").mkdir()
            self.be = back.Zip(("memory", "/dir/" + case["name"]))
        ctx.count("disk" if case["where"] == "os" else "memory")
        self.be.archive_uri = URI(self.be.archive)
        self.files = {}
        self.dirs = set()
        self.missing = True
        self.slots = {}
        self.roots = [self.be.root, URI(self.be.root), URI("zip://((%s))/?conn=2" % self.be.archive)]
        self.paths = set()
        for op in case["ops"]:
            if op[0] in ("write", "missing", "foreign", "reader"):
                self.paths.add(tuple(op[1]))
            elif op[0] == "open":
                self.paths.add(tuple(op[2]))
        # names that are almost those of the files
        for p in sorted(self.paths):
            q = p[:-1] + (near(p[-1], len(p[-1]) + len(case["ops"])),)
            if "/" not in q[-1] and q[-1] not in ("", ".", ".."):
                self.paths.add(q)

    def uri(self, conn, p):
        u = self.roots[conn]
        for n in p:
            u = u / n
        return u

    def tree(self):
        res = {}
        for p in self.dirs:
            for k in range(1, len(p) + 1):
                res[p[:k]] = ("d",)
        for p, data in self.files.items():
            for k in range(1, len(p)):
                res[p[:k]] = ("d",)
            res[p] = ("f", data, 0)
        return res

    def fits(self, p, directory=False):
        t = self.tree()
        for q in list(self.pending()):
            t.setdefault(q, ("f", b"", 0))
            for k in range(1, len(q)):
                t.setdefault(q[:k], ("d",))
        if any(t.get(p[:k], ("d",))[0] != "d" for k in range(1, len(p))):
            return False
        return t.get(p, ("d" if directory else "f",))[0] == ("d" if directory else "f")

    def pending(self):
        return [s[1] for s in self.slots.values()]


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    back.reset_registry()
    w = World(case, ctx)
    look(w, 0)
    for n, op in enumerate(case["ops"]):
        k = op[0]
        if k == "write":
            p = tuple(op[1])
            if not w.fits(p):
                continue
            write(w, p, op[2], op[3], op[4], op[5], op[6])
        elif k == "open":
            p = tuple(op[2])
            if op[1] in w.slots or not w.fits(p):
                continue
            if p in w.pending():
                ctx.count("same_path_handles")
            w.slots[op[1]] = [w.uri(op[3], p).open("w+b" if (n + len(p)) % 4 == 0 else "wb"), p, b""]
            if len(w.slots) > 1:
                ctx.count("interleaved")
        elif k == "put":
            if op[1] not in w.slots:
                continue
            s = w.slots[op[1]]
            s[0].write(op[2])
            s[2] += op[2]
        elif k == "close":
            if op[1] not in w.slots:
                continue
            finish(w, op[1])
        elif k == "missing":
            t = w.tree()
            p = tuple(op[1])
            if t.get(p, ("-",))[0] == "f":
                continue
            try:
                h = w.uri(op[2], p).open("rb")
                data = h.read()
            except (OSError, PathError):
                ctx.count("missing_read")
            else:
                raise Violation("reading the missing item /%s returns %r" % ("/".join(p), data[:40]))
        elif k == "foreign":
            p = tuple(op[1])
            if not w.fits(p, op[4]):
                continue
            foreign(w, p, op[2], op[3], op[4])
        elif k == "drop":
            drop(w)
        elif k == "bad":
            if not refused(w, w.uri(op[1], tuple(op[2])), op[3]):
                return
        elif k == "replace":
            if w.slots:
                continue
            t = {p: (v if v[0] == "d" else v) for p, v in G.tree_dict(op[1]).items()}
            if not op[3]:
                t = {p: v for p, v in t.items() if v[0] == "f" or any(q[:len(p)] == p and q != p for q in t)}
                t = {p: v for p, v in t.items() if v[0] == "f" or any(
                    q[:len(p)] == p and t[q][0] == "f" for q in t if q != p)}
            w.be.put(back.zip_bytes(t, lead=op[2], dirs=op[3]))
            w.files = {p: v[1] for p, v in t.items() if v[0] == "f"}
            w.dirs = {p for p, v in t.items() if v[0] == "d"}
            w.missing = False
            ctx.count("replaced")
            if w.dirs:
                ctx.count("dir_items")
            if op[2]:
                ctx.count("lead_items")
        elif k == "clean":
            if w.slots:
                continue
            if case["where"] != "os":
                # (the archive itself is part of the connection to the memory file system)
                data = w.be.raw()
                back.reset_registry()
                if case["where"] == "memory2":
                    from abl.vpath.base import URI
                    URI("memory:///dir").mkdir()
                if data is not None:
                    w.be.put(data)
            else:
                back.reset_registry()
            ctx.count("fresh_connection")
        elif k == "reader":
            p = tuple(op[1])
            if p not in w.files:
                continue
            with w.uri(op[2], p).open() as h:
                data = b""
                while True:
                    x = h.read(1000)
                    if not x:
                        break
                    data += x
            if data != w.files[p]:
                raise Violation("/%s: %r is read instead of %r" % ("/".join(p), data[:60], w.files[p][:60]))
        look(w, n + 1)
    for s in sorted(w.slots):
        finish(w, s)
        look(w, s)


def write(w, p, data, pieces, how, conn, fresh):
    ctx = w.ctx
    u = w.uri(conn, p)
    if fresh:
        u = u.dirname() / p[-1]
    cuts = sorted((len(data) * k) // pieces for k in range(pieces + 1))
    parts = [data[a:b] for a, b in zip(cuts, cuts[1:])]
    if p in w.files:
        ctx.count("rewrites")
    if len(data) > 9000:
        ctx.count("big")
    if how in ("with", "raise", "withclose"):
        class Boom(Exception):
            pass
        try:
            with u.open("wb") as h:
                for x in parts:
                    h.write(x)
                if how == "raise":
                    raise Boom()
                if how == "withclose":
                    h.close()
                    ctx.count("twice_closed")
        except Boom:
            ctx.count("by_exception")
    else:
        h = u.open("wb")
        for x in parts:
            h.write(x)
        h.close()
        if how == "twice":
            h.close()
            ctx.count("twice_closed")
    if how == "raise":
        # (the block failed: whether the file is written is not specified; only that it is this or that)
        present = through_zipfile(w)
        if present is None or present.get(p) != data:
            if (present or {}) != w.files:
                raise Violation("a failing block leaves neither the old nor the new content")
            w.missing = present is None
            return
    w.files[p] = data
    w.missing = False
    ctx.count("writes")


def refused(w, u, block):
    "writing an item fails"
    try:
        if block:
            with u.open("wb") as h:
                h.write(b"cannot be stored")
        else:
            h = u.open("wb")
            h.write(b"cannot be stored")
            h.close()
    except Exception:
        w.ctx.count("refused")
        # (at most an empty archive is created)
        w.missing = w.be.raw() is None
        return True
    return False


def finish(w, s):
    h, p, data = w.slots.pop(s)
    h.close()
    w.files[p] = data
    w.missing = False
    w.ctx.count("writes")


def foreign(w, p, data, lead, directory):
    raw = w.be.raw()
    out = io.BytesIO(raw or b"")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(out, "a" if raw else "w", zipfile.ZIP_DEFLATED) as z:
            name = ("/" if lead else "") + "/".join(p)
            if directory:
                z.writestr(name + "/", b"")
            else:
                z.writestr(name, data)
    w.be.put(out.getvalue())
    if directory:
        w.dirs.add(p)
        w.ctx.count("dir_items")
    else:
        w.files[p] = data
    w.missing = False
    w.ctx.count("foreign")
    if lead:
        w.ctx.count("lead_items")


def drop(w):
    if w.missing:
        return
    if w.be.where[0] == "os":
        with guard.trusted():
            os.unlink(w.be.where[1])
    else:
        w.be.archive_uri.remove()
    w.files, w.dirs, w.missing = {}, set(), True
    w.ctx.count("dropped")


def through_zipfile(w):
    data = w.be.raw()
    if data is None:
        return None
    res = {}
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        if z.testzip() is not None:
            raise Violation("the archive is broken at %r" % z.testzip())
        for i in z.infolist():
            if not i.filename.endswith("/"):
                # (the last item of a name counts)
                res[tuple(x for x in i.filename.split("/") if x)] = z.read(i)
    return res


def look(w, n):
    ctx = w.ctx
    got = through_zipfile(w)
    if (got is None) != w.missing:
        raise Violation("the archive %s" % ("exists" if w.missing else "is missing"))
    if got is not None and got != w.files:
        raise Violation("zipfile sees: %s" % back.diff(w.files, got))
    snap = w.tree()
    t = Tree()
    t.load(snap)
    if w.missing:
        ctx.count("missing_archive")
    # every connection sees all of it, in turn
    conn = n % 3
    paths = {()} | set(snap) | w.paths
    for p in list(paths):
        if p and len(paths) < 60:
            paths.add(p[:-1])
    for p in sorted(paths):
        u = w.uri(conn, p)
        v = snap.get(p, ("-",)) if p else ("d",)
        for name, want in (("exists", v[0] != "-"), ("isfile", v[0] == "f"), ("isdir", v[0] == "d"), ("islink", False)):
            r = getattr(u, name)()
            if r is not want:
                raise Violation("%s of /%s is %r, archive holds %s" % (name, "/".join(p), r, sorted(snap)))
        ctx.count("views")
        if v[0] == "d":
            r = u.listdir()
            want = sorted({q[len(p)] for q in snap if len(q) > len(p) and q[:len(p)] == p})
            if list(r) != want:
                raise Violation("listdir of /%s is %r instead of %r" % ("/".join(p), r, want))
        elif v[0] == "f":
            with u.open("rb") as h:
                r = h.read()
            ctx.count("items_read")
            if r != v[1]:
                raise Violation("/%s: %s is read instead of %s" % ("/".join(p), back.short(r), back.short(v[1])))
    if w.case["walk"]:
        for down in (True, False):
            res = []
            for root, dirs, files in w.uri(conn, ()).walk(topdown=down):
                res.append([w.be.topath(root), list(dirs), list(files)])
                if len(res) > 500:
                    raise Violation("walk does not come to an end")
            want = [list(x) for x in t.walk((), down, True, ())]
            if res != want:
                raise Violation("walk: %r instead of %r" % (res, want))
    ctx.sig(tuple((p, v[0], len(v[1]) if v[0] == "f" else 0) for p, v in sorted(snap.items())), w.case["where"])
