"""remove, confined to the named object"""
import os
import random
import stat

from vp import back, faults, gen as G, guard
from vp.core import Violation
from vp.model import Err, Tree, Unspec

TECHNIQUE = ("runtime monitoring: audit-event monitor of every deletion plus full before/after comparison with a reference "
             "model, also with injected faults")
LEVEL = "exploration"
NOTE = ("Random trees with links of all kinds (loops, dangling, to directories, out of the tree), fifos, sockets, hard links, "
        "deep and wide directories on disk and in memory. The tree, the metadata of all survivors and every deletion event are "
        "checked after each remove; a part is repeated with a failing operation. Paths that lead through the victim itself and "
        "the root are not driven.")
CASES = dict(quick=9000, thorough=250000)
RULE = ("Random trees in which half of the entries are links, 1-5 removes each (plain or recursive, of existing and missing "
        "paths, through links, decorated with additional slashes), each followed by a complete comparison. Distinct: "
        "(file system, kind of the victim, recursive, outcome, kinds and depths below the victim).")
REQUIRED = ["removes", "file:removed", "link_to_dir_removed", "dangling_removed", "loop_removed", "dir_removed",
            "tree_removed", "tree_with_links_removed", "special_removed", "not_empty_refused", "missing_refused", "through_link",
            "memory", "file", "deletions_seen", "fault_runs", "hardlinks", "wide_or_deep"]
SHRINK = ("ops", "tree")
OUTSIDE = ("outside",)


def gen(rng, i, ctx):
    kind = "file" if i // 8 % 2 == 0 else "memory"
    pool = G.names(rng, ctx, rng.randint(3, 6), literal=True, plain=0.4)
    n = rng.randint(1, 14)
    t = G.tree(rng, ctx, n, links=False, pool=pool)
    dirs = [()] + [p for p in t if t[p][0] == "d"]
    for _ in range(rng.randint(1, 8)):
        p = rng.choice(dirs) + (rng.choice(pool),)
        if p in t:
            continue
        r = rng.random()
        if kind == "file" and r < 0.12:
            t[p] = ("s", rng.choice([stat.S_IFIFO, stat.S_IFSOCK]))
        elif r < 0.35:
            t[p] = ("l", OUTSIDE + rng.choice([(), ("d",), ("d", "f"), ("missing",)]))
        elif r < 0.5:
            t[p] = ("l", p)
        elif r < 0.6:
            t[p] = ("l", rng.choice(dirs) + (rng.choice(pool), "no"))
        else:
            t[p] = ("l", rng.choice(list(t) or [()]))
    # everything is below 'in', a part of it may be addressed through it
    big = None
    if rng.random() < 0.04:
        big = rng.choice(["wide", "deep"])
    ops = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.9 and t:
            p = rng.choice(list(t))
        elif r < 0.95:
            p = rng.choice(dirs) + (rng.choice(pool),)
        else:
            p = ()
        if rng.random() < 0.2:
            links = [q for q in t if t[q][0] == "l"]
            if links:
                p = rng.choice(links) + (rng.choice(pool),)
        ops.append([["in"] + list(p), rng.choice([False, True, True, "r"]),
                    None if rng.random() < 0.6 else [rng.choice([0, 1, 2]) for _ in range(3)],
                    rng.getrandbits(30) if rng.random() < 0.25 else None])
    return dict(kind=kind, tree=G.tree_list(t), ops=ops, big=big, hard=rng.random() < 0.3)


def complete(case):
    t = {("in",): ("d",)}
    for q, v in G.tree_dict(case["tree"]).items():
        if v[0] == "l" and v[1][:1] != OUTSIDE:
            v = ("l", ("in",) + tuple(v[1]))
        t[("in",) + q] = v
    t[OUTSIDE] = ("d",)
    t[OUTSIDE + ("d",)] = ("d",)
    t[OUTSIDE + ("d", "f")] = ("f", b"do not touch", 0o100)
    t[OUTSIDE + ("g",)] = ("f", b"neither", 0)
    t[OUTSIDE + ("l",)] = ("l", ("in",))
    if case["big"]:
        b = ("in", "big-" + case["big"])
        t[b] = ("d",)
        if case["big"] == "wide":
            for k in range(150):
                t[b + ("n%d" % k,)] = [("f", b"x", 0), ("d",), ("l", OUTSIDE)][k % 3]
        else:
            for k in range(60):
                b = b + ("n",)
                t[b] = ("d",)
                if k % 3 == 0:
                    t[b + ("l",)] = ("l", OUTSIDE)
    return t


def start(case, ctx, tree):
    if case["kind"] == "memory":
        back.reset_registry()
        be = back.Mem()
        back.build(be, tree)
        return be
    base = os.path.join(ctx.fresh_dir(), "base")
    os.mkdir(base)
    back.build_os(base, tree)
    if case["hard"]:
        with guard.trusted():
            for q, v in tree.items():
                if v[0] == "f" and q[0] == "in" and len(q) % 2 == 0:
                    os.link(os.path.join(base, *q), os.path.join(base, "outside", "hard%d" % len(os.listdir(base + "/outside"))))
    return back.Loc(base)


def meta(be, snap):
    "what may not change of those who stay"
    res = {}
    for q, v in snap.items():
        if v[0] == "d":
            continue        # (the parent changes)
        if be.kind == "file":
            st = os.lstat(be.abspath(q))
            res[q] = (st.st_mode, st.st_mtime_ns, st.st_ino)
        else:
            i = be.uri(q).info(followlinks=False)
            res[q] = (i.mode, i.mtime)
    for q, v in snap.items():
        if v[0] == "d":
            if be.kind == "file":
                st = os.lstat(be.abspath(q))
                res[q] = (st.st_mode, st.st_ino)
            else:
                res[q] = (be.uri(q).info().mode,)
    return res


def remove(u, rec):
    if rec is False:
        u.remove()
    else:
        u.remove(rec) if rec == "r" else u.remove(recursive=rec)


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    tree0 = complete(case)
    be = start(case, ctx, tree0)
    ctx.count(be.kind)
    current = be.snapshot()
    if case["big"]:
        ctx.count("wide_or_deep")
    if case["hard"] and be.kind == "file":
        ctx.count("hardlinks")
    ops = list(case["ops"])
    if case["big"]:
        ops.append([["in", "big-" + case["big"]], True, None, None])
    for path, rec, deco, fault in ops:
        path = tuple(path)
        t = Tree()
        t.load(current)
        x = t.node(path, follow=False)
        if x is None and not t.islink(path):
            kind = "missing"
        else:
            kind = {"f": "file", "d": "dir", "l": "link", "s": "special"}[x.kind]
        if kind == "link":
            try:
                y = t.lookup(path)[2]
                sub = "dangling" if y is None else "link_to_dir" if y.kind == "d" else "link_to_file"
            except Err as e:
                sub = "loop" if str(e) == "ELOOP" else "dangling"
            except Unspec:
                sub = "long"
        below = {q: v for q, v in current.items() if q[:len(path)] == path and q != path}
        want = None
        try:
            t.remove(path, bool(rec))
        except Unspec:
            continue
        except Err as e:
            want = str(e)
        what = "remove(%s) of %s:/%s (%s)" % (rec, be.kind, "/".join(path), kind)
        before = meta(be, current)
        if fault is not None and below and rec:
            current, want = with_fault(case, ctx, be, path, rec, deco, fault, current, what, t)
            if want is None:
                continue
            break
        u = be.uri(path, deco)
        guard.STATE.log = log = []
        try:
            remove(u, rec)
            got = None
        except (OSError, PathError) as e:
            got = e
        finally:
            guard.STATE.log = None
        ctx.count("removes")
        if (want is None) != (got is None):
            raise Violation("%s should %s, but %s" % (
                what, "succeed" if want is None else "fail (%s)" % want,
                "raises %s: %s" % (type(got).__name__, got) if got is not None else "succeeds"))
        check_log(be, log, path, t, what, ctx)
        after = be.snapshot()
        expected = t.snapshot() if want is None else current
        if after != expected:
            raise Violation("after %s: %s" % (what, back.diff(expected, after)))
        now = meta(be, after)
        for q, m in now.items():
            if m != before[q]:
                raise Violation("%s changes /%s (%r -> %r)" % (what, "/".join(q), before[q], m))
        ctx.sig(be.kind, kind, bool(rec), want, tuple(sorted((len(q) - len(path), v[0]) for q, v in below.items()))[:12])
        if want is None:
            if kind == "link":
                ctx.count(sub + "_removed")
            elif kind == "dir" and below:
                ctx.count("tree_removed")
                if any(v[0] == "l" for v in below.values()):
                    ctx.count("tree_with_links_removed")
            elif kind == "file":
                ctx.count("file:removed")
            else:
                ctx.count(kind + "_removed")
            real = t.lookup(path[:-1])[3] if len(path) > 1 else ()
            if real != path[:-1]:
                ctx.count("through_link")
        elif kind == "missing":
            ctx.count("missing_refused")
        elif want == "ENOTEMPTY":
            ctx.count("not_empty_refused")
        current = after


def check_log(be, log, path, tree, what, ctx):
    "no change on disk but of the victim and below"
    for event, p in log:
        if event == "open-r":
            continue
        if be.kind == "memory":
            raise Violation("%s: %s of the local file %s" % (what, event, p))
        real = tree.lookup(path[:-1])[3] if len(path) > 1 else ()
        victim = os.path.realpath(be.base) + "".join("/" + n for n in real + path[-1:])
        if p != victim and not p.startswith(victim + "/"):
            raise Violation("%s: %s of %s" % (what, event, p))
        if event in ("os.remove", "os.rmdir"):
            ctx.count("deletions_seen")


def with_fault(case, ctx, be, path, rec, deco, seed, current, what, t):
    "an operation in the middle fails: the error is reported, nothing else is harmed"
    from abl.vpath.base.exceptions import PathError
    rng = random.Random(seed)
    u = be.uri(path, deco)
    f = faults.Faults([u.get_connection()], handles=False)
    f.target = rng.randint(1, 25)
    real = t.lookup(path[:-1])[3] + path[-1:] if len(path) > 1 else path
    got = None
    with f:
        try:
            remove(u, rec)
        except (OSError, PathError) as e:
            got = e
    after = be.snapshot()
    if f.hit is not None:
        ctx.count("fault_runs")
        if got is None:
            raise Violation("%s with a failing %s (operation %d): the error is not reported" % (what, f.hit, f.target))
    elif got is not None:
        raise Violation("%s fails: %r" % (what, got))
    for q, v in current.items():
        if q[:len(real)] == real and (q == real or f.hit is not None):
            continue
        if q[:len(real)] == real:
            continue
        if after.get(q) != v:
            raise Violation("%s with a failing %s changes /%s: %s" % (what, f.hit, "/".join(q), back.short(after.get(q))))
    for q in after:
        if current.get(q) != after[q]:
            raise Violation("%s with a failing %s leaves /%s behind: %s" % (what, f.hit, "/".join(q), back.short(after[q])))
    if f.hit is None and after != t.snapshot():
        raise Violation("after %s: %s" % (what, back.diff(t.snapshot(), after)))
    return after, f.hit
