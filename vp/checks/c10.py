"""copy between all kinds of file systems"""
import os

from vp import back, gen as G
from vp.core import Violation
from vp.model import Err, Tree, Unspec

TECHNIQUE = "runtime monitoring: both trees compared with an executable reference model after every copy"
LEVEL = "exploration"
NOTE = ("Source and destination trees (memory, second memory file system, disk, archive) are compared completely with a "
        "reference model after each copy; disk and archives are observed with os and zipfile. Exploration; merges into trees "
        "with links, links to directories that contain the destination, and zip to zip are not driven.")
CASES = dict(quick=36000, thorough=350000)
RULE = ("Random source and destination trees on a random pair of file systems, 1-4 copies with random source, destination "
        "situation, recursive, ignore, followlinks and path decoration. Distinct: (pair, kind of source, destination "
        "situation, options, outcome, shape of the source).")
REQUIRED = ["copies", "pair:memory>file", "pair:file>memory", "pair:memory>memory2", "pair:zip>file", "pair:zip>memory",
            "pair:file>zip", "pair:memory>zip", "pair:memory>memory", "pair:file>file", "links_kept", "links_followed",
            "ignored", "into_dir", "overwrite", "from_root", "same_refused", "changed_afterwards",
            "hard_links"]
SHRINK = ("ops", "src", "dst")

PAIRS = ["memory>file", "file>memory", "memory>memory2", "zip>file", "zip>memory", "file>zip", "memory>zip",
         "memory>memory", "file>file", "zipmem>memory", "memory>zipmem"]


def gen(rng, i, ctx):
    pair = PAIRS[i // 8 % len(PAIRS)] if rng.random() < 0.8 else rng.choice(PAIRS)
    a, b = pair.split(">")
    pool = G.names(rng, ctx, rng.randint(3, 5), literal=not ("zip" in a or "zip" in b), plain=0.4)
    src = G.tree(rng, ctx, rng.randint(1, 14), links="zip" not in a and rng.random() < 0.7,
                 empty_dirs=True, pool=pool)
    dst = {} if a == b else G.tree(rng, ctx, rng.randint(0, 7), links="zip" not in b and rng.random() < 0.4,
                                   empty_dirs="zip" not in b, pool=pool)
    other = dst if a != b else src
    ops = []
    for _ in range(rng.randint(1, 4)):
        cand = list(src) or [(pool[0],)]
        s = rng.choice(cand) if rng.random() < 0.93 else (pool[0], pool[1])
        if rng.random() < 0.12:
            s = ()
        r = rng.random()
        dirs = [p for p in other if other[p][0] == "d"] + [()]
        if r < 0.35:
            d = rng.choice(dirs)
        elif r < 0.6 and other:
            d = rng.choice(list(other))
        elif r < 0.9:
            d = rng.choice(dirs) + (rng.choice(pool),)
        else:
            d = rng.choice(dirs) + (rng.choice(pool), rng.choice(pool))
        t = Tree()
        t.load(src)
        rec = t.isdir(s)
        if rng.random() < 0.04:
            rec = not rec
        deco = None if rng.random() < 0.7 else rng.choice([[-1], [1, 0], [0, 2]])
        ops.append([list(s), list(d), rec, ignored(rng, pool, src), rng.random() < 0.55,
                    deco, rng.choice(["list", "set", "tuple", "iter", "frozenset", "keys"])])
    touch = [rng.choice(["ab", "wb", "r+b"]), rng.choice(["src", "dst", "dst"]), rng.random()] if rng.random() < 0.4 else None
    hard = None
    if pair == "file>file":
        hard = [G.name(rng, ctx), G.name(rng, ctx), rng.choice([1, 100, 8192, 20000]), rng.choice(["file", "into", "tree"]),
                rng.random() < 0.5]
    return dict(pair=pair, src=G.tree_list(src), dst=G.tree_list(dst), ops=ops, touch=touch, hard=hard)


def ignored(rng, pool, src):
    if rng.random() < 0.6:
        return []
    dirs = sorted({p[-1] for p in src if src[p][0] == "d"})
    n = rng.choice([1, 1, 2, 3])
    return rng.sample(pool, min(n, len(pool))) if rng.random() < 0.4 or not dirs else rng.sample(dirs, min(n, len(dirs)))


EXTRA = {}      # more kinds of file systems


def make(ctx, kind, tree):
    if kind in EXTRA:
        return EXTRA[kind](ctx, tree)
    if kind == "file":
        d = os.path.join(ctx.fresh_dir(), "base")
        os.mkdir(d)
        be = back.Loc(d)
        back.build_os(d, tree)
        return be
    if kind in ("memory", "memory2"):
        be = back.Mem("instance=two" if kind == "memory2" else None)
        back.build(be, tree)
        return be
    if kind == "zip":
        be = back.Zip(("os", os.path.join(ctx.fresh_dir(), "archive.zip")))
    else:
        be = back.Zip(("memory", "/__archive.zip"))
    if tree:
        be.put(back.zip_bytes(tree, lead=len(tree) % 2 == 0))
    return be


def strip_archive(snap):
    return {p: v for p, v in snap.items() if p[0] != "__archive.zip"}


def plain(t):
    return {p: (v if v[0] != "f" else ("f", v[1], 0)) for p, v in t.items() if v[0] != "l"}


def hard_links(ctx, case):
    "two names of the very same file: a copy of one to the other has nothing to do, and must not empty it"
    from abl.vpath.base.exceptions import PathError
    one, two, size, how, deep = case["hard"]
    base = os.path.join(ctx.fresh_dir(), "hard")
    other = os.path.join(base, "other", one if how == "tree" else "")
    sub = "deep" if deep and how == "tree" else ""
    os.makedirs(os.path.join(base, one, sub))
    os.makedirs(os.path.join(other, sub))
    data = (b"hard" * size)[:size]
    first = os.path.join(base, one, sub, two)
    second = os.path.join(other, sub, two)
    with open(first, "wb") as f:
        f.write(data)
    os.link(first, second)
    be = back.Loc(base)
    u, v = {"file": (be.uri((one, two)), be.uri(("other", two))), "into": (be.uri((one, two)), be.uri(("other",))),
            "tree": (be.uri((one,)), be.uri(("other",)))}[how]
    try:
        u.copy(v, recursive=how == "tree")
        got = None
    except (OSError, PathError) as e:
        got = e
    for x in (first, second):
        with open(x, "rb") as f:
            now = f.read()
        if now != data:
            raise Violation("copying %s to %s, another name of the same file (%s), leaves %d of %d bytes (%r)" % (
                first, second, how, len(now), size, got))
    ctx.count("hard_links")


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    if case.get("hard"):
        hard_links(ctx, case)
    back.reset_registry()
    a, b = case["pair"].split(">")
    src = G.tree_dict(case["src"])
    dst = G.tree_dict(case["dst"])
    if "zip" in a:
        src = plain(src)
    if "zip" in b:
        dst = plain(dst)
    ba = make(ctx, a, src)
    bb = ba if a == b else make(ctx, b, dst)
    scheme = ba.kind == bb.kind
    t1 = Tree()
    t1.load(src)
    t2 = t1
    if a != b:
        t2 = Tree()
        t2.load(dst)
    same_fs = a == b
    to_zip = "zip" in b
    for s, d, rec, ignore, follow, deco, coll in case["ops"]:
        s, d = tuple(s), tuple(d)
        before1, before2 = t1.snapshot(), t2.snapshot()
        what = "copy %s:/%s to %s:/%s (recursive=%s, ignore=%s, followlinks=%s)" % (
            a, "/".join(s), b, "/".join(d), rec, ignore, follow)
        w1 = Tree()
        w1.load(before1)
        w2 = w1
        if not same_fs:
            w2 = Tree()
            w2.load(before2)
        partial = None
        try:
            if to_zip:
                m_to_zip(w1, w2, s, d, rec, follow)
            else:
                w1.copy(s, d, rec, ignore=tuple(ignore), follow=follow, other=w2, links=scheme, keep_exe=scheme)
            want = None
        except Unspec:
            continue
        except Err as e:
            want, partial = str(e), e.partial
            w1, w2 = t1, t2
            if want == "ASSERT" and not s:
                continue
        if deco == [-1] and a == "file" and (t1.islink(s) or not t1.isdir(s)):
            deco = None
        u, v = ba.uri(s, deco), bb.uri(d, deco if deco != [-1] else None)
        kw = {}
        if ignore:
            kw["ignore"] = {"list": list, "set": set, "tuple": tuple, "iter": iter, "frozenset": frozenset, "keys": dict.fromkeys}[coll](ignore)
        if not follow:
            kw["followlinks"] = False
        kind = before1.get(s, ("d",) if not s else ("-",))[0]
        try:
            u.copy(v, recursive=rec, **kw)
            got = None
        except (OSError, PathError, AssertionError, NotImplementedError) as e:
            got = e
        ctx.count("copies")
        ctx.count("pair:" + case["pair"].replace("zipmem", "zip"))
        if (want is None) != (got is None):
            raise Violation("%s should %s, but %s" % (
                what, "succeed" if want is None else "fail (%s)" % want,
                "raises %s: %s" % (type(got).__name__, got) if got is not None else "succeeds"))
        after1 = ba.snapshot()
        after2 = after1 if same_fs else bb.snapshot()
        if a == "memory" and b == "zipmem":
            after1 = strip_archive(after1)
        if b == "memory" and a == "zipmem":
            after2 = strip_archive(after2)
        if partial is not None:
            if not same_fs and after1 != before1:
                raise Violation("failing %s changes the source: %s" % (what, back.diff(before1, after1)))
            lost = {q: x for q, x in before2.items() if q not in after2}
            if lost and not any(x[0] == "l" for x in before2.values()):
                raise Violation("failing %s removes %r" % (what, sorted(lost)[:3]))
            if not any(x[0] == "l" for x in before2.values()):
                for q, x in after2.items():
                    outside = q[:len(partial)] != tuple(partial) and tuple(partial)[:len(q)] != q
                    if outside and before2.get(q) != x:
                        raise Violation("failing %s changes /%s" % (what, "/".join(q)))
            ctx.count("partial")
            return
        e1, e2 = w1.snapshot(), w2.snapshot()
        if to_zip and after2 != e2:
            e2 = {q: x for q, x in e2.items()}
        if after1 != e1:
            raise Violation("after %s, source: %s" % (what, back.diff(e1, after1)))
        if after2 != e2:
            raise Violation("after %s, destination: %s" % (what, back.diff(e2, after2)))
        t1, t2 = w1, w2
        if want == "SAME" or want == "INSIDE":
            ctx.count("same_refused")
        if want is None:
            if any(x[0] == "l" for q, x in before1.items() if q[:len(s)] == s):
                ctx.count("links_followed" if follow else "links_kept")
            if ignore:
                ctx.count("ignored")
            if not s:
                ctx.count("from_root")
            k = before2.get(d, ("d",) if not d else ("-",))[0]
            if k == "d":
                ctx.count("into_dir")
            elif k == "f":
                ctx.count("overwrite")
            if case.get("touch"):
                touch(ctx, case, what, (ba, a, t1, before1), (bb, b, t2, before2), s)
        ctx.sig(case["pair"], kind, before2.get(d, ("-",))[0], rec, bool(ignore), follow, want,
                tuple(sorted((len(q) - len(s), x[0]) for q, x in before1.items() if q[:len(s)] == s)))


def touch(ctx, case, what, src, dst, s):
    "original and copy are independent of each other afterwards"
    mode, side, r = case["touch"]
    be, kind, t, before = src if side == "src" else dst
    now = t.snapshot()
    if side == "src":
        cand = sorted(p for p, v in now.items() if v[0] == "f" and p[:len(s)] == s)
    else:
        cand = sorted(p for p, v in now.items() if v[0] == "f" and before.get(p) != v)
    if not cand or "zip" in kind:
        return
    p = cand[int(r * len(cand))]
    data = b"changed afterwards"
    old = now[p][1]
    with be.uri(p).open(mode) as f:
        f.write(data)
    t.write(p, old + data if mode == "ab" else data if mode == "wb" else data + old[len(data):])
    for be, kind, t, _ in (src, dst):
        found = be.snapshot()
        if kind == "memory" and "zipmem" in case["pair"]:
            found = strip_archive(found)
        if found != t.snapshot():
            raise Violation("%s, then /%s is written (%s): %s" % (what, "/".join(p), mode, back.diff(t.snapshot(), found)))
    ctx.count("changed_afterwards")


def m_to_zip(w1, w2, s, d, rec, follow):
    "single files only, directories come into existence by themselves"
    if rec:
        raise Unspec("directories in archives")
    x = w1.node(s)
    if x is None:
        if w1.islink(s) and not follow:
            raise Unspec("dangling")
        raise Err("ENOENT")
    if x.kind != "f":
        raise Err("ASSERT")
    if w1.islink(s) and not follow:
        if w2.isdir(d) and not s:
            raise Unspec("root")
        raise Err("ENOTSUP")
    if w2.isdir(d):
        d = d + (s[-1],)
        if w2.isdir(d):
            raise Unspec("file with the name of a directory")
    for k in range(1, len(d)):
        y = w2.node(d[:k])
        if y is None:
            w2.mkdir(d[:k])
        elif y.kind != "d":
            raise Unspec("below a file")
    w2.write(d, x.data)
    w2.node(d).exe = 0
