"""file handles"""
import os

from vp import back, gen as G, guard
from vp.core import Violation

TECHNIQUE = "runtime monitoring: every handle operation compared with a byte-array model of a POSIX file"
LEVEL = "exploration"
NOTE = ("Interleaved operations on up to four handles of two files, in text and binary modes, are compared result by result "
        "with a byte-array model; after each modification a fresh reader (and the OS, for local files) has to see the model "
        "content. On disk, reads of handles with stale buffers are not judged. Exploration.")
CASES = dict(quick=64000, thorough=700000)
RULE = ("Random interleaved operation sequences on handles, sizes around buffer boundaries and constants of the sources. "
        "Distinct: (backend, handle mode, operation, position relative to the end, size class, other handles open).")
REQUIRED = ["ops", "memory", "file", "op:read", "op:readn", "op:readline", "op:iter", "op:seek", "op:tell", "op:truncate",
            "op:write", "refused:read", "refused:write", "text_reads", "multi_handles", "gap", "missing", "refused:seek", "garbled"]
SHRINK = ("ops",)

MODES = ["r", "rb", "w", "wb", "a", "ab", "r+b", "w+b", "a+b", "rt", "wt", "r+", "w+", None, "rb+", "wb+"]


def gen(rng, i, ctx):
    ops = []
    slots = 4
    n = rng.randint(6, 26)
    opened = [False] * slots
    for _ in range(n):
        s = rng.randrange(slots)
        if not opened[s]:
            cand = [k for k in range(slots) if opened[k]]
            if cand and rng.random() < 0.6:
                s = rng.choice(cand)
        if not opened[s] or rng.random() < 0.07:
            ops.append(["open", s, rng.choice(MODES), 0 if rng.random() < 0.8 else 1])
            opened[s] = True
            continue
        k = rng.choices(["write", "readn", "read", "readline", "iter", "seek", "tell", "truncate", "close", "writelines",
                         "readlines", "flush", "size"],
                        [14, 10, 5, 6, 2, 10, 5, 4, 5, 2, 1, 1, 2])[0]
        if k == "write":
            big = rng.random() < 0.25
            ops.append([k, s, data(rng, ctx, big)])
        elif k == "writelines":
            ops.append([k, s, [data(rng, ctx, False) for _ in range(rng.randint(0, 3))]])
        elif k == "readn":
            ops.append([k, s, rng.choice([0, 1, 2, 3, 5, 10, 10 ** 9, G.size(rng, ctx)])])
        elif k == "iter":
            ops.append([k, s, rng.randint(1, 4)])
        elif k == "seek":
            ops.append([k, s, rng.choice([0, 0, 0, 1, 2]), rng.random(), rng.choice([0, 0, 0, 1, 5, 100, 9000])])
        elif k == "truncate":
            ops.append([k, s, rng.choice([None, rng.random()]), rng.choice([0, 0, 1, 50])])
        elif k == "close":
            ops.append([k, s, rng.random() < 0.3])
            opened[s] = False
        elif k == "read":
            ops.append([k, s, rng.choice(["", "", "", None, -1])])
        else:
            ops.append([k, s])
    return dict(backend=rng.choice(["memory", "memory", "file"]), ops=ops,
                start=data(rng, ctx, rng.random() < 0.4) if rng.random() < 0.75 else None)


def data(rng, ctx, big):
    "[characters, bytes]: what is written in text or binary mode"
    n = G.size(rng, ctx) if big else rng.choice([0, 1, 2, 3, 8, rng.randint(0, 60)])
    t = G.text(rng, ctx, n)
    return [t, G.content(rng, ctx, big) if rng.random() < 0.5 else t.encode()]


class H(object):
    def __init__(self, mode, f, real, version):
        m = mode or "r"
        self.mode = m
        self.binary = "b" in m
        self.r = "r" in m or "+" in m
        self.w = "w" in m or "a" in m or "+" in m
        self.a = "a" in m
        self.f = f
        self.pos = len(f.data) if self.a else 0
        self.real = real
        self.version = version
        self.told = []
        self.ahead = False      # the text layer has read ahead

class F(object):
    def __init__(self):
        self.data = None
        self.version = 0


def cut(s):
    return repr(s) if len(s) < 80 else "%r...(%d)" % (s[:60], len(s))


def mismatch(op, h, want, got):
    if want != got and want is not None and len(want) > 60 and isinstance(got, type(want)):
        k = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation("%s in mode %r: differs at %d of %d/%d: %r instead of %r" % (
            op[0], h.mode, k, len(want), len(got), got[k:k + 20], want[k:k + 20]))
    raise Violation("%s %r in mode %r at %d: %s instead of %s" % (op[0], op[2:], h.mode, h.pos, cut(got), cut(want)))


def same(op, h, want, got):
    if type(want) is not type(got) or want != got:
        mismatch(op, h, want, got)


def run(case, ctx):
    back.reset_registry()
    local = case["backend"] == "file"
    ctx.count(case["backend"])
    if local:
        base = ctx.fresh_dir()
        be = back.Loc(base)
    else:
        be = back.Mem()
    uris = [be.uri(("file one",)), be.uri(("two",))]
    files = [F(), F()]
    if case["start"] is not None:
        with uris[0].open("wb") as f:
            f.write(case["start"][1])
        files[0].data = case["start"][1]
    be.uri(("dir",)).mkdir()
    handles = {}
    try:
        for op in case["ops"]:
            step(ctx, op, handles, uris, files, local, be)
    finally:
        for h in handles.values():
            try:
                h.real.close()
            except Exception:
                pass


def refuse(op, h, f, *args):
    try:
        res = f(*args)
    except OSError:
        return
    except Exception as e:
        raise Violation("%s in mode %r raises %s: %s" % (op[0], h.mode, type(e).__name__, e))
    raise Violation("%s in mode %r should fail, but returns %s" % (op[0], h.mode, cut(repr(res))))


def before(op, h, real, f):
    "a seek before the start"
    try:
        f()
    except (OSError, ValueError):
        pass
    else:
        raise Violation("seek %r in mode %r at %d: seeking before the start of the file succeeds" % (op[2:], h.mode, h.pos))
    if h.binary and real.tell() != h.pos:
        raise Violation("a refused seek moves the handle from %d to %d" % (h.pos, real.tell()))


def verify(op, h, uri, f, local, be):
    with uri.open("rb") as r:
        got = r.read()
    if got != f.data:
        mismatch(["content after " + op[0]] + op[1:], h, f.data, got)
    if uri.info().size != len(f.data):
        raise Violation("size is %r instead of %d" % (uri.info().size, len(f.data)))
    if local:
        with guard.trusted():
            with open(be.abspath((uri.basename(),)), "rb") as r:
                got = r.read()
        if got != f.data:
            mismatch(["content on disk after " + op[0]] + op[1:], h, f.data, got)


def decodable(data, pos):
    if pos > len(data):
        return ""
    try:
        s = data[pos:].decode("utf-8")
    except UnicodeDecodeError:
        return None
    return None if "\r" in s else s


def garbled(ctx, op, h, u, f):
    "text that cannot be decoded isn't silently dropped or changed"
    try:
        f.data.decode("utf-8")
    except UnicodeDecodeError:
        pass
    else:
        return
    n = max(op[2], 1, len(f.data) // 40) if op[0] == "readn" else -1
    with u.open("r") as r:
        got = []
        try:
            while True:
                x = r.read(n)
                if not x:
                    break
                got.append(x)
        except UnicodeError:
            ctx.count("garbled")
            return
    raise Violation("reading %s, which is not UTF-8, in text mode by %r characters returns %s" % (
        cut(f.data), n, cut("".join(got))))


def step(ctx, op, handles, uris, files, local, be):
    k, s = op[0], op[1]
    ctx.count("ops")
    if k == "open":
        if s in handles:
            handles.pop(s).real.close()
        mode, which = op[2], op[3]
        u, f = uris[which], files[which]
        m = mode or "r"
        if "r" in m and f.data is None:
            try:
                u.open(mode) if mode else u.open()
            except OSError:
                ctx.count("missing")
                if u.exists():
                    raise Violation("open(%r) of a missing file creates it" % mode)
                return
            raise Violation("open(%r) of a missing file succeeds" % mode)
        for bad in (be.uri(("dir",)), be.uri(("nodir", "x")), be.uri(())):
            try:
                bad.open(mode) if mode else bad.open()
            except OSError:
                continue
            raise Violation("open(%r) of %r succeeds" % (mode, str(bad)))
        real = u.open(mode) if mode else u.open()
        if "w" in m:
            f.data = b""
            f.version += 1
        elif f.data is None:
            f.data = b""
            f.version += 1
        h = handles[s] = H(mode, f, real, f.version)
        h.which = which
        if len(handles) > 1:
            ctx.count("multi_handles")
        verify(op, h, u, f, local, be)
        ctx.sig(local, k, m, len(handles))
        return
    h = handles.get(s)
    if h is None:
        return
    f = h.f
    u = uris[h.which]
    real = h.real
    stale = local and h.version != f.version
    others = len(handles)
    if k in ("write", "writelines"):
        items = op[2] if k == "writelines" else [op[2]]
        chunks = [x[1] if h.binary else x[0] for x in items]
        if not h.w:
            if any(chunks):
                refuse(op, h, real.write, next(c for c in chunks if c) or (b"x" if h.binary else "x"))
                ctx.count("refused:write")
                verify(op, h, u, f, local, be)
            return
        if local and h.ahead:
            return          # needs a seek in between, see the documentation of TextIOWrapper
        if k == "writelines":
            real.writelines(chunks)
        else:
            n = real.write(chunks[0])
            if n is not None and n != len(chunks[0]):
                raise Violation("write of %d returns %r" % (len(chunks[0]), n))
        real.flush()
        old = len(f.data)
        for c in chunks:
            b = c if h.binary else c.encode("utf-8")
            if not b:
                continue
            if h.a:
                h.pos = len(f.data)
            if h.pos > len(f.data):
                f.data += bytes(h.pos - len(f.data))
                ctx.count("gap")
            f.data = f.data[:h.pos] + b + f.data[h.pos + len(b):]
            h.pos += len(b)
            f.version += 1
        if not stale:
            h.version = f.version
        elif h.version != f.version:
            h.version = -1      # buffers of the handle may be outdated for good
        verify(op, h, u, f, local, be)
        ctx.count("op:write")
        ctx.sig(local, k, h.mode, min(h.pos, 9), old > h.pos, len(chunks), others)
        return
    if k in ("read", "readn", "readline", "iter", "readlines"):
        if not h.r:
            refuse(op, h, real.read)
            refuse(op, h, real.readline)
            ctx.count("refused:read")
            return
        if stale:
            return
        rest = f.data[h.pos:] if h.binary else decodable(f.data, h.pos)
        if rest is None:
            if h.pos == 0 and op[0] in ("read", "readn"):
                garbled(ctx, op, h, u, f)
            return
        empty = b"" if h.binary else ""
        nl = b"\n" if h.binary else "\n"
        if not h.binary:
            ctx.count("text_reads")
            h.ahead = True

        def line(x):
            i = x.find(nl)
            return x if i < 0 else x[:i + 1]

        def adv(x):
            h.pos += len(x) if h.binary else len(x.encode("utf-8"))
        if k == "read":
            same(op, h, rest, real.read() if op[2] == "" else real.read(op[2]))
            adv(rest)
        elif k == "readn":
            want = rest[:op[2]]
            same(op, h, want, real.read(op[2]))
            adv(want)
        elif k == "readline":
            want = line(rest)
            same(op, h, want, real.readline())
            adv(want)
        elif k == "readlines":
            got = list(real.readlines())
            want = []
            while rest:
                want.append(line(rest))
                rest = rest[len(want[-1]):]
            if got != want:
                raise Violation("readlines in mode %r: %s instead of %s" % (h.mode, cut(repr(got)), cut(repr(want))))
            for x in want:
                adv(x)
        else:
            for _ in range(op[2]):
                want = line(rest)
                got = next(real, empty)
                same(op, h, want, got)
                rest = rest[len(want):]
                adv(want)
            if local and not h.binary:
                # tell is not available until the end of the iteration
                real.seek(0)
                h.pos = 0
        ctx.count("op:" + k)
        ctx.sig(local, k, h.mode, min(h.pos, 9), h.pos < len(f.data), others)
        return
    if k == "seek":
        whence, frac, off = op[2], op[3], op[4]
        h.ahead = False
        if h.binary:
            size = len(f.data)
            if whence == 0:
                want = int(frac * size) + off if off != 5 else -1 - int(frac * 3)
                arg = want
            elif whence == 1:
                want = int(frac * size) if off != 5 else -1 - int(frac * 3)
                arg = want - h.pos
            else:
                arg = -int(frac * size) + off if off != 5 else -size - 1 - int(frac * 3)
                want = size + arg
            if want < 0:
                before(op, h, real, lambda: real.seek(arg, whence))
                ctx.count("refused:seek")
                return
            got = real.seek(arg, whence) if whence or frac > 0.5 else real.seek(arg)
            if got is not None and got != want:
                raise Violation("seek(%d, %d) in mode %r returns %r instead of %d" % (arg, whence, h.mode, got, want))
            h.pos = want
        else:
            if whence == 1 and h.told:
                cookie, pos = h.told[int(frac * len(h.told))]
                if pos > len(f.data):
                    return
                real.seek(cookie)
                h.pos = pos
            elif whence == 2:
                real.seek(0, 2)
                h.pos = len(f.data)
            elif off == 5 and not stale:
                at = real.tell()
                before(op, h, real, lambda: real.seek(-1 - int(frac * 3)))
                real.seek(at)
                ctx.count("refused:seek")
            else:
                real.seek(0)
                h.pos = 0
        ctx.count("op:seek")
        ctx.sig(local, k, h.mode, whence, h.pos > len(f.data), h.pos == len(f.data), h.binary)
        return
    if k == "tell":
        if h.a and local:
            return
        got = real.tell()
        if h.binary:
            if got != h.pos:
                raise Violation("tell in mode %r is %r instead of %d" % (h.mode, got, h.pos))
        elif not stale:
            h.told.append((got, h.pos))
        ctx.count("op:tell")
        return
    if k == "truncate":
        if not h.binary:
            return
        if op[2] is None:
            size = h.pos
            if local and (h.a or stale):
                return
            args = ()
        else:
            size = int(op[2] * len(f.data)) + op[3]
            args = (size,)
        if not h.w:
            refuse(op, h, real.truncate, *args)
            verify(op, h, u, f, local, be)
            return
        real.truncate(*args)
        f.data = f.data[:size] + bytes(max(0, size - len(f.data)))
        f.version += 1
        if not stale:
            h.version = f.version
        else:
            h.version = -1
        verify(op, h, u, f, local, be)
        ctx.count("op:truncate")
        ctx.sig(local, k, h.mode, size > h.pos, size == 0, op[2] is None)
        return
    if k == "close":
        if op[2]:
            with real:
                pass
        else:
            real.close()
        del handles[s]
        verify(op, h, u, f, local, be)
        return
    if k == "flush":
        real.flush()
        return
    if k == "size":
        if u.info().size != len(f.data):
            raise Violation("size is %r instead of %d" % (u.info().size, len(f.data)))
