"""walk, listdir, glob"""
import fnmatch
import os

from vp import back, gen as G
from vp.core import Violation
from vp.model import Err, Tree, Unspec
from vp.checks.c10 import plain

TECHNIQUE = "runtime monitoring: online monitor of every walk step (exactly-once, order), results compared with a reference model"
LEVEL = "exploration"
NOTE = ("Random trees (memory, disk, archives on disk and in memory) with links, hostile and undecodable names; listdir, glob "
        "and walk in all four modes with pruning while iterating, monitored step by step; the URIs that are reported are used "
        "again. Walking in circles with followlinks=True is not driven.")
CASES = dict(quick=18000, thorough=250000)
RULE = ("Random trees, each queried by 3-8 walks, listings and globs at random start paths (files, links, missing ones "
        "included) with random options, patterns and pruning. Distinct: (file system, query and options, outcome, "
        "shape of the tree below the start).")
REQUIRED = ["fs:memory", "fs:file", "fs:zip", "fs:zipmem", "walk:topdown", "walk:bottomup", "walk_follow", "walk_nofollow",
            "pruned", "listdir", "glob", "glob_hits", "entries", "refused", "links_not_entered", "links_entered", "wide",
            "undecodable"]
SHRINK = ("ops", "tree")
KINDS = ["memory", "file", "zip", "zipmem"]


def pattern(rng, pool):
    n = rng.choice(pool)
    r = rng.random()
    if r < 0.1:
        return "*"
    if r < 0.25:
        return n
    if r < 0.4:
        return n[:rng.randint(0, len(n))] + "*"
    if r < 0.55:
        return "*" + n[rng.randint(0, len(n)):]
    if r < 0.7:
        k = rng.randrange(len(n))
        return n[:k] + "?" + n[k + 1:]
    if r < 0.85:
        k = rng.randrange(len(n))
        c = n[k]
        return n[:k] + rng.choice(["[%s]", "[!%s]", "[a%s]"]) % (c if c not in "]!^-[" else "x") + n[k + 1:]
    return "".join("[%s]" % c if c in "*?[" else c for c in n)


def gen(rng, i, ctx):
    kind = KINDS[i // 8 % 4]
    pool = G.names(rng, ctx, rng.randint(3, 7), literal="zip" not in kind, plain=0.4)
    if kind == "file" and rng.random() < 0.15:
        pool.append(rng.choice(["bad\udcff", "\udc80", "x\udce4y"]))
    t = G.tree(rng, ctx, rng.randint(0, 18), links="zip" not in kind, pool=pool, big=0.0)
    if rng.random() < 0.05:
        for k in range(120):
            t[("w%d" % (k * 7919 % 1000),)] = ("d",) if k % 5 == 0 else ("f", b"w", 0)
    if "zip" in kind:
        t = plain(t)
    dirs = [()] + [p for p in t if t[p][0] != "f"]
    ops = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        p = rng.choice(dirs) if r < 0.88 else rng.choice(list(t) or [()]) if r < 0.95 else \
            rng.choice(dirs) + (rng.choice(pool),)
        k = rng.choice(["walk", "walk", "walk", "listdir", "glob", "glob"])
        deco = None if rng.random() < 0.65 else rng.choice([[-1], [1, 0], [0, 2], [1, 1]])
        if k == "walk":
            ops.append([k, list(p), deco, rng.random() < 0.6, rng.random() < 0.5,
                        [rng.choice(pool) for _ in range(rng.randint(1, 2))] if rng.random() < 0.4 else [],
                        rng.choice(["remove", "slice", "del"])])
        elif k == "glob":
            ops.append([k, list(p), deco, pattern(rng, pool)])
        else:
            ops.append([k, list(p), deco])
    return dict(kind=kind, tree=G.tree_list(t), ops=ops, lead=rng.random() < 0.5, dirs=rng.random() < 0.7)


def make(case, ctx, tree):
    kind = case["kind"]
    back.reset_registry()
    if kind == "memory":
        be = back.Mem()
        back.build(be, tree)
    elif kind == "file":
        base = os.path.join(ctx.fresh_dir(), "base")
        os.mkdir(base)
        be = back.Loc(base)
        back.build_os(base, tree)
    else:
        be = back.Zip(("os", os.path.join(ctx.fresh_dir(), "x.zip")) if kind == "zip" else ("memory", "/x.zip"))
        be.put(back.zip_bytes(tree, lead=case["lead"], dirs=case["dirs"]))
    return be


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    tree = G.tree_dict(case["tree"])
    kind = case["kind"]
    if "zip" in kind and not case["dirs"]:
        for p in sorted(tree, reverse=True):
            if tree[p] == ("d",) and not any(q[:len(p)] == p and q != p for q in tree):
                del tree[p]
    be = make(case, ctx, tree)
    ctx.count("fs:" + kind)
    if len(tree) > 100:
        ctx.count("wide")
    if any("\udc80" <= c <= "\udcff" for p in tree for n in p for c in n):
        ctx.count("undecodable")
    t = Tree()
    t.load(tree)
    for op in case["ops"]:
        k, p, deco = op[0], tuple(op[1]), op[2]
        if deco == [-1] and not t.isdir(p):
            deco = None
        u = be.uri(p, deco)
        what = "%s:/%s: %s" % (kind, "/".join(p), [k] + op[3:])
        try:
            if k == "listdir":
                want = t.listdir(p)
            elif k == "glob":
                want = [n for n in t.listdir(p) if fnmatch.fnmatch(n, op[3])]
            else:
                want = {tuple(r): (d, f) for r, d, f in t.walk(p, op[3], op[4], tuple(op[5]) if op[3] else ())}
            err = None
        except Unspec:
            continue
        except Err as e:
            err = str(e)
        try:
            if k == "listdir":
                got = u.listdir()
            elif k == "glob":
                got = u.glob(op[3])
            else:
                got = walk(be, t, u, p, op, want if err is None else {}, what, ctx)
        except (OSError, PathError) as e:
            if err is None:
                raise Violation("%s raises %s: %s" % (what, type(e).__name__, e))
            ctx.count("refused")
            continue
        if err is not None:
            raise Violation("%s should fail (%s), returns %s" % (what, err, back.short(got)))
        ctx.count(k if k != "walk" else "walks")
        if k == "listdir":
            if list(got) != want:
                raise Violation("%s returns %s, expected %s" % (what, back.short(got), back.short(want)))
            ctx.count("entries", len(want))
        elif k == "glob":
            names = []
            for x in got:
                q = be.topath(x)
                if q[:-1] != p:
                    raise Violation("%s returns %r" % (what, x))
                names.append(q[-1])
                use(be, t, x, q, what)
            if sorted(names) != want:
                raise Violation("%s returns %s, expected %s" % (what, back.short(names), back.short(want)))
            ctx.count("glob_hits", len(want))
        ctx.sig(kind, k, op[3:5] if k == "walk" else None, err,
                tuple(sorted((len(q) - len(p), v[0]) for q, v in tree.items() if q[:len(p)] == p))[:14])
    if be.snapshot() != tree:
        raise Violation("looking at the tree changes it: %s" % back.diff(tree, be.snapshot()))


def walk(be, t, u, p, op, want, what, ctx):
    "online monitor"
    topdown, follow, prune, how = op[3], op[4], set(op[5]), op[6]
    seen = {}
    for root, dirs, files in u.walk(topdown=topdown, followlinks=follow):
        q = be.topath(root)
        if q in seen:
            raise Violation("%s visits /%s twice" % (what, "/".join(q)))
        if q not in want:
            raise Violation("%s visits /%s" % (what, "/".join(q)))
        if q[:len(p)] != p:
            raise Violation("%s visits /%s, not below the start" % (what, "/".join(q)))
        d, f = list(dirs), list(files)
        if (d, f) != want[q]:
            raise Violation("%s reports %s in /%s, expected %s" % (what, back.short((d, f)), "/".join(q), back.short(want[q])))
        if topdown:
            if q != p and q[:-1] not in seen:
                raise Violation("%s visits /%s before its parent" % (what, "/".join(q)))
        else:
            if q != p and q[:-1] in seen:
                raise Violation("%s visits /%s after its parent" % (what, "/".join(q)))
        seen[q] = True
        for n in (f[:2] + d[:2]):
            use(be, t, root / n, q + (n,), what)
        ctx.count("entries", len(d) + len(f))
        for n in d:
            if t.islink(q + (n,)):
                ctx.count("links_entered" if follow else "links_not_entered")
        if topdown and prune & set(d):
            ctx.count("pruned")
            if how == "remove":
                for n in prune & set(d):
                    dirs.remove(n)
            elif how == "slice":
                dirs[:] = [n for n in dirs if n not in prune]
            else:
                for n in prune & set(d):
                    del dirs[dirs.index(n)]
    missing = [q for q in want if q not in seen]
    if missing:
        raise Violation("%s never visits /%s" % (what, "/".join(missing[0])))
    ctx.count("walk:topdown" if topdown else "walk:bottomup")
    ctx.count("walk_follow" if follow else "walk_nofollow")
    return seen


def use(be, t, uri, q, what):
    "the uri that is reported leads to what the model has at q"
    x = t.node(q)
    kind = None if x is None else x.kind
    got = "f" if uri.isfile() else "d" if uri.isdir() else None
    if got != kind:
        raise Violation("%s: %r is %s, expected %s" % (what, uri, got, kind))
    if kind == "f":
        with uri.open("rb") as f:
            data = f.read()
        if data != x.data:
            raise Violation("%s: %r has the wrong content" % (what, uri))
