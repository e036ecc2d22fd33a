"""move, with faults"""
import os
import errno
import random
import zipfile

from vp import back, faults, gen as G
from vp.core import Violation
from vp.checks.c10 import m_to_zip, make, plain, strip_archive
from vp.model import Err, Tree, Unspec

TECHNIQUE = "runtime monitoring with fault injection at every file system operation of the move; conservation oracle"
LEVEL = "fault_enumeration"
NOTE = ("Each case runs once without a fault (trees compared with the reference model), then again for each numbered fault "
        "point (backend primitive, handle operation, or OS-level audit event; all, or 40 of them) failing with OSError: every "
        "file of the source must still be complete at the source or the destination, and the error must be reported. One fault "
        "per run; moves onto links or into directories that hold that name are not driven.")
CASES = dict(quick=5250, thorough=100000)
RULE = ("Random source trees and destination situations on random pairs of file systems (rename and cross-device variants "
        "on disk), each with all single-fault runs. Distinct: (pair, failing operation, kind and shape of the source).")
REQUIRED = ["moves", "fault_runs", "reported", "pair:memory>file", "pair:file>memory", "pair:memory>memory2",
            "pair:file>file", "pair:file>zip", "pair:memory>zip", "pair:memory>memory", "cross_device", "dir_moves",
            "fault:handle.write", "fault:handle.close", "fault:handle.read", "after_removal_started", "onto_itself",
            "hard_links"]
ASSUMPTIONS = ["a failing primitive has no effect, a failing write may be partial, a failing close has closed the handle"]
SHRINK = ("src", "dst")

PAIRS = ["memory>file", "file>memory", "memory>memory2", "memory>memory", "file>file", "file>zip", "memory>zip"]
LIMIT = 40


def gen(rng, i, ctx):
    pair = PAIRS[i // 8 % len(PAIRS)]
    a, b = pair.split(">")
    pool = G.names(rng, ctx, rng.randint(3, 5), literal="zip" not in b, plain=0.4)
    src = G.tree(rng, ctx, rng.randint(1, 9), links=rng.random() < 0.6, pool=pool, big=0.3)
    dst = {} if a == b else G.tree(rng, ctx, rng.randint(0, 4), links=False, empty_dirs="zip" not in b, pool=pool)
    other = dst if a != b else src
    s = rng.choice(list(src) or [(pool[0],)])
    dirs = [p for p in other if other[p][0] == "d"] + [()]
    r = rng.random()
    if r < 0.3:
        d = rng.choice(dirs)
    elif r < 0.45 and other:
        d = rng.choice(list(other))
    else:
        d = rng.choice(dirs) + (rng.choice(pool),)
    links = [p for p in src if src[p][0] == "l"]
    if a == b and links and rng.random() < 0.3:
        # onto what it leads to, or the other way round
        s = rng.choice(links)
        d = src[s][1]
        if rng.random() < 0.3:
            s, d = d, s
    hard = [G.name(rng, ctx), G.name(rng, ctx), rng.random() < 0.5] if pair == "file>file" and rng.random() < 0.3 else None
    return dict(pair=pair, src=G.tree_list(src), dst=G.tree_list(dst), s=list(s), d=list(d), hard=hard,
                exdev=rng.random() < 0.6, code=rng.choice(faults.CODES), sample=rng.getrandbits(30))


def m_move(w1, w2, s, d, a, b):
    "@return: destination"
    if a == b:
        real = d
        if w1.isdir(d):
            real = d + (s[-1],)
        w1.move(s, d, local=a == "file")
        return real
    if not s:
        raise Unspec("root")
    x = w1.node(s)
    if x is None:
        if w1.islink(s):
            raise Unspec("dangling")
        raise Err("ENOENT")
    if "zip" in b:
        m_to_zip(w1, w2, s, d, x.kind == "d", True)
        real = d if w2.node(d) is not None and w2.node(d).kind == "f" else d + (s[-1],)
    else:
        same = a.startswith("memory") and b.startswith("memory")
        real = w1.copy(s, d, x.kind == "d", follow=not same, other=w2, links=same, keep_exe=same)
    w1.remove(s, True)
    return real


def files_below(tree, s):
    "what may not get lost: {relative path: content}; links to files count as what they lead to"
    res = {}
    x = tree.node(s, follow=False)
    if x is None:
        return res
    if x.kind == "f":
        res[()] = bytes(x.data)
    elif x.kind == "d":
        def rec(d, p):
            for n, y in d.ch.items():
                if y.kind == "f":
                    res[p + (n,)] = bytes(y.data)
                elif y.kind == "d":
                    rec(y, p + (n,))
        rec(x, ())
    return res


def hard_links(ctx, case):
    "one name of a file is moved to another one of its names"
    from abl.vpath.base.exceptions import PathError
    one, two, into = case["hard"]
    base = os.path.join(ctx.fresh_dir(), "hard")
    os.makedirs(os.path.join(base, one))
    os.makedirs(os.path.join(base, "other"))
    first, second = os.path.join(base, one, two), os.path.join(base, "other", two)
    with open(first, "wb") as f:
        f.write(b"the only file")
    os.link(first, second)
    be = back.Loc(base)
    try:
        be.uri((one, two)).move(be.uri(("other",) if into else ("other", two)))
        got = None
    except (OSError, PathError) as e:
        got = e
    found = [open(x, "rb").read() for x in (first, second) if os.path.exists(x)]
    if b"the only file" not in found or got is None and not os.path.exists(second):
        raise Violation("after moving %s to %s, another name of the same file (%r), there is %r" % (first, second, got, found))
    ctx.count("hard_links")


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    if case.get("hard"):
        hard_links(ctx, case)
    a, b = case["pair"].split(">")
    src, dst = G.tree_dict(case["src"]), G.tree_dict(case["dst"])
    if "zip" in b:
        dst = plain(dst)
    s, d = tuple(case["s"]), tuple(case["d"])
    t1 = Tree()
    t1.load(src)
    t2 = t1
    if a != b:
        t2 = Tree()
        t2.load(dst)
    w1 = Tree()
    w1.load(src)
    w2 = w1
    if a != b:
        w2 = Tree()
        w2.load(dst)
    keep = files_below(t1, s)
    try:
        real = m_move(w1, w2, s, d, a, b)
        want = None
    except Unspec as e:
        if str(e) != "same file":
            return
        want = "same"
    except Err as e:
        want = str(e)
        real = None

    def once(target):
        back.reset_registry()
        ba = make(ctx, a, src)
        bb = ba if a == b else make(ctx, b, dst)
        u, v = ba.uri(s), bb.uri(d)
        conns = [u.get_connection()]
        if v.get_connection() is not conns[0]:
            conns.append(v.get_connection())
        always = None
        if case["exdev"] and a == "file" and b == "file":
            def always(event, path):
                if event == "os.rename":
                    return OSError(errno.EXDEV, "cross-device link")
        f = faults.Faults(conns, always=always)
        f.target = target
        f.code = case["code"]
        got = None
        with f:
            try:
                u.move(v)
            except (OSError, PathError, AssertionError, zipfile.BadZipFile) as e:
                got = e
        return ba, bb, f, got

    what = "move %s:/%s to %s:/%s" % (a, "/".join(s), b, "/".join(d))
    ba, bb, f, got = once(0)
    ctx.count("moves")
    ctx.count("pair:" + case["pair"])
    if want == "same":
        # refused or not: it is still there afterwards
        x, after = t1.node(s), ba.snapshot()
        old = t1.snapshot()
        if x.kind == "f":
            gone = [bytes(x.data)] if not any(v[0] == "f" and v[1] == bytes(x.data) for v in after.values()) else []
        else:
            gone = [q for q, v in old.items() if v[0] == "f" and not any(y == v for y in after.values())]
        if gone:
            raise Violation("%s, which are the same: %s is lost: %s" % (what, back.short(gone[0]), back.diff(old, after)))
        ctx.count("onto_itself")
        return
    if (want is None) != (got is None):
        raise Violation("%s should %s, but %s" % (
            what, "succeed" if want is None else "fail (%s)" % want,
            "raises %s: %s" % (type(got).__name__, got) if got is not None else "succeeds"))
    after1 = ba.snapshot()
    after2 = after1 if a == b else bb.snapshot()
    if want is None:
        e1, e2 = w1.snapshot(), w2.snapshot()
        if after1 != e1:
            raise Violation("after %s, source: %s" % (what, back.diff(e1, after1)))
        if after2 != e2:
            raise Violation("after %s, destination: %s" % (what, back.diff(e2, after2)))
        if a == b == "file" and case["exdev"]:
            ctx.count("cross_device")
        if () not in keep and keep:
            ctx.count("dir_moves")
    else:
        conserved(what + ", which fails (%s)" % want, keep, after1, after2, s, None)
        return
    total = f.n
    points = faults.enumerate_points(total, LIMIT, random.Random(case["sample"]))
    shape = tuple(sorted(len(q) for q in keep))[:8]
    for k in points:
        ba, bb, f, got = once(k)
        ctx.count("fault_runs")
        if f.hit is None:
            continue
        ctx.count("fault:" + f.hit)
        name = "%s with a failing %s (operation %d of %d)" % (what, f.hit, k, total)
        after1 = ba.snapshot()
        if got is None:
            after2 = after1 if a == b else bb.snapshot()
            if "zip" in b and f.hit == "handle.read":
                # the zipfile module takes a file that can't be read for one that is no archive
                conserved(name, keep, after1, after2, s, real)
                ctx.count("absorbed")
                continue
            if after1 != w1.snapshot() or after2 != w2.snapshot():
                raise Violation("%s: the error is not reported; %s %s" % (
                    name, back.diff(w1.snapshot(), after1), back.diff(w2.snapshot(), after2)))
        else:
            ctx.count("reported")
            after2 = after1 if a == b else bb
            conserved(name, keep, after1, after2, s, real)
            if any(q[:len(s)] == s and q not in after1 for q in src):
                ctx.count("after_removal_started")
        ctx.sig(case["pair"], f.hit, shape, k if k < 6 else 0)


def at(snap, p, trees):
    "content of a file, that may be reached through a link"
    x = snap.get(p)
    if x is None:
        if id(snap) not in trees:
            trees[id(snap)] = Tree()
            trees[id(snap)].load(snap)
        t = trees[id(snap)]
        return bytes(t.node(p).data) if t.isfile(p) else None
    return x[1] if x[0] == "f" else None


def conserved(name, keep, after1, after2, s, real):
    snap = after2 if isinstance(after2, dict) else None
    trees = {}
    for rel, data in keep.items():
        if at(after1, s + rel, trees) == data:
            continue
        if snap is None:
            snap = after2.snapshot()
        if real is not None and at(snap, real + rel, trees) == data:
            continue
        x, y = after1.get(s + rel), snap.get(real + rel) if real is not None else None
        raise Violation("%s: /%s is lost (source: %s, destination: %s)" % (
            name, "/".join(s + rel), back.short(x), back.short(y)))
