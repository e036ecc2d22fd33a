"""path strings address what the operating system would address"""
import os
import shutil
import stat

from vp import gen as G, guard
from vp.back import api, diff, os_snapshot
from vp.core import Violation

TECHNIQUE = "runtime monitoring: differential oracle, twin tree operated on with plain OS calls"
LEVEL = "exploration"
NOTE = ("Each operation on URI(string) is executed on one tree, the plain OS call with the same string on an identical "
        "twin; results and both trees must agree. Exploration of generated strings; '?', backslash, '://' and drive-letter "
        "like strings are outside of the property.")
CASES = dict(quick=18000, thorough=400000)
RULE = ("Two identical scratch trees with hostile names; random absolute and relative path strings (leading '..', '.', "
        "hidden names, doubled and trailing slashes); up to 12 operations through URI(string) on one tree and through the "
        "OS with the same string on the other. Distinct: (form of the string, operation, outcome, kind addressed).")
REQUIRED = ["ops", "ok:write", "ok:remove", "ok:listdir", "err:read", "relative", "absolute", "file_scheme"]
ASSUMPTIONS = ["the kernel's interpretation of a path string is the ground truth"]
SHRINK = ("ops", "dirs", "files")

OPS = ["read", "write", "append", "mkdir", "makedirs", "listdir", "remove", "rremove", "exists", "isfile", "isdir",
       "size", "str", "info", "text"]


def good(s):
    return G.good_name(s) and s[1:2] != ":"


def name(rng, ctx):
    while True:
        n = G.name(rng, ctx, literal=False, plain=0.3)
        if good(n):
            return n


def gen(rng, i, ctx):
    pool = []
    while len(pool) < 5:
        n = name(rng, ctx)
        if n not in pool:
            pool.append(n)
    dirs = [[]]
    for _ in range(rng.randint(2, 5)):
        d = rng.choice(dirs) + [rng.choice(pool)]
        if d not in dirs and len(d) < 5:
            dirs.append(d)
    files = []
    for k in range(rng.randint(1, 5)):
        f = rng.choice(dirs) + [rng.choice(pool)]
        if f not in dirs and f not in files:
            files.append(f)
    cwd = rng.choice(dirs)
    ops = []
    for _ in range(rng.randint(3, 12)):
        ops.append([rng.choice(OPS), string(rng, dirs, files, cwd, pool), rng.choice(["plain", "file", "copy"]),
                    b"<%x>" % rng.getrandbits(32)])
    return dict(dirs=dirs[1:], files=files, cwd=cwd, ops=ops)


def string(rng, dirs, files, cwd, pool):
    """[absolute?, text]"""
    r = rng.random()
    if r < 0.45 and files:
        target = rng.choice(files)
    elif r < 0.75:
        target = rng.choice(dirs)
    else:
        target = rng.choice(dirs) + [rng.choice(pool)]
    if rng.random() < 0.1:
        target = target + [rng.choice(pool)]
    absolute = rng.random() < 0.4
    if absolute:
        parts = list(target)
    else:
        common = 0
        while common < len(cwd) and common < len(target) and cwd[common] == target[common]:
            common += 1
        parts = [".."] * (len(cwd) - common) + list(target[common:])
        if rng.random() < 0.12:
            parts = ["."] + parts
        if not parts:
            parts = ["."]
    if rng.random() < 0.1 and len(parts) > 1:
        # a detour within an existing directory
        k = rng.randint(1, len(parts) - 1)
        if parts[k - 1] not in (".", ".."):
            parts[k:k] = ["..", parts[k - 1]]
    text = ""
    for k, p in enumerate(parts):
        text += p
        if k < len(parts) - 1:
            text += "/" * (1 if rng.random() < 0.93 else rng.randint(2, 3))
    if rng.random() < 0.08:
        text += "/" * rng.randint(1, 2)
    while "://" in text:
        text = text.replace("://", ":/")
    return [absolute, text]


def build(base, case):
    with guard.trusted():
        os.mkdir(base)
        for d in case["dirs"]:
            os.makedirs(os.path.join(base, *d), exist_ok=True)
        for f in case["files"]:
            p = os.path.join(base, *f)
            if os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                with open(p, "wb") as h:
                    h.write(("content of %r" % (f,)).encode())
        os.makedirs(os.path.join(base, *case["cwd"]), exist_ok=True)


def by_os(op, p, data):
    "the plain system call"
    if op in ("read", "text"):
        with open(p, "rb") as f:
            return f.read() if op == "read" else f.read().decode()
    if op in ("write", "append"):
        with open(p, "wb" if op == "write" else "ab") as f:
            f.write(data)
        return None
    if op == "mkdir":
        return os.mkdir(p)
    if op == "makedirs":
        return os.makedirs(p, exist_ok=True)
    if op == "listdir":
        return sorted(os.listdir(p))
    if op in ("remove", "rremove"):
        if stat.S_ISDIR(os.lstat(p).st_mode):
            if op == "remove":
                return os.rmdir(p)
            q = os.path.normpath(p)
            if os.path.basename(p.rstrip("/")) in (".", ".."):
                raise OSError("refused")
            shutil.rmtree(q)
            return None
        return os.unlink(p)
    if op in ("exists", "isfile", "isdir"):
        return getattr(os.path, op)(p)
    if op in ("size", "info"):
        st = os.stat(p)
        return (st.st_size if stat.S_ISREG(st.st_mode) else None), st.st_mode
    if op == "str":
        return None
    raise AssertionError(op)


def by_uri(op, u, data):
    if op == "read":
        with u.open("rb") as f:
            return f.read()
    if op == "text":
        with u.open("r") as f:
            return f.read()
    if op in ("write", "append"):
        with u.open("wb" if op == "write" else "ab") as f:
            f.write(data)
        return None
    if op in ("mkdir", "makedirs"):
        getattr(u, op)()
        return None
    if op == "listdir":
        return u.listdir()
    if op == "remove":
        u.remove()
        return None
    if op == "rremove":
        u.remove(recursive=True)
        return None
    if op in ("exists", "isfile", "isdir"):
        return getattr(u, op)()
    if op in ("size", "info"):
        i = u.info()
        return (i.size if stat.S_ISREG(i.mode) else None), i.mode
    return None


def same_place(a, b):
    return os.path.realpath(a) == os.path.realpath(b) and os.path.normpath(os.path.abspath(a)) == \
        os.path.normpath(os.path.abspath(b))


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    URI = api().URI
    outer = ctx.fresh_dir()
    mine, twin = os.path.join(outer, "one"), os.path.join(outer, "two")
    build(mine, case)
    build(twin, case)
    for op, (absolute, text), form, data in case["ops"]:
        if absolute:
            a, b = mine + "/" + text, twin + "/" + text
            if not text:
                a, b = mine, twin
        else:
            a = b = text
        if a in ("", "..", ".") and op in ("remove", "rremove"):
            continue
        if op in ("remove", "rremove", "mkdir", "makedirs", "write", "append") and \
           (not absolute and set(text.split("/")) <= {".", "..", ""}):
            continue        # would pull the rug away
        with guard.trusted():
            os.chdir(os.path.join(twin, *case["cwd"]))
            if op in ("remove", "rremove") and within(os.getcwd(), b):
                continue
            if op == "makedirs" and not os.path.isdir(b) and ".." in text.split("/")[1:]:
                continue    # os.makedirs has its own idea of these
            try:
                want = ("ok", by_os(op, b, data))
            except OSError as e:
                want = ("err", e)
            os.chdir(os.path.join(mine, *case["cwd"]))
        kind = "d" if os.path.isdir(a) else "f" if os.path.exists(a) else "-"
        if form == "file" and absolute:
            u = URI("file://" + a)
            ctx.count("file_scheme")
        elif form == "copy":
            u = URI(URI(a))
        else:
            u = URI(a)
        ctx.count("absolute" if absolute else "relative")
        if u.is_absolute is not absolute:
            raise Violation("is_absolute of %r is %r" % (a, u.is_absolute))
        for what in (u.path, str(u)):
            if not same_place(what, a) or what.startswith("/") != absolute:
                raise Violation("%r is turned into %r" % (a, what))
        try:
            got = ("ok", by_uri(op, u, data))
        except (OSError, PathError) as e:
            got = ("err", e)
        ctx.count("ops")
        ctx.count("%s:%s" % (want[0], op))
        if want[0] != got[0] or (want[0] == "ok" and want[1] != got[1]):
            raise Violation("%s of %r: the os says %r, URI(%r) %r" % (op, a, want, str(u), got))
        s1, s2 = os_snapshot(mine), os_snapshot(twin)
        if s1 != s2:
            raise Violation("%s of %r: %s" % (op, a, diff(s2, s1)))
        ctx.count("trees_compared")
        ctx.sig(absolute, text.startswith("."), text.startswith(".."), "//" in text, text.endswith("/"),
                text.count("/"), form, op, want[0], kind, case["cwd"] == [])
    rest = sorted(os.listdir(outer))
    if rest != ["one", "two"]:
        raise Violation("something was created elsewhere: %r" % rest)


def within(cwd, p):
    p = os.path.realpath(p)
    return cwd == p or cwd.startswith(p + "/")
