"""symbolic links"""
import os
import random
import stat

from vp import back, gen as G
from vp.core import Violation
from vp.model import Err, Tree, Unspec

TECHNIQUE = "runtime monitoring: every query and access on every path of a link graph compared with a resolution model"
LEVEL = "exploration"
NOTE = ("Link graphs over three entries (file, directory, link to any path; all of them in the thorough tier), and random larger ones with chains up to 30 "
        "links, cycles and links in intermediate components, on memory and disk; every path is queried in every way and "
        "compared with the model (on disk also with os itself). Relative targets on the memory file system are not driven.")
CASES = dict(quick=1200, thorough=45000)
RULE = ("Link graphs (systematic small ones, random larger ones); on each graph all queries on all paths up to depth 3 (links "
        "followed by names included), then 1-4 changes through links, each followed by a full comparison. Distinct: (file "
        "system, shape of the graph, query, answer).")
REQUIRED = ["fs:memory", "fs:file", "queries", "loops", "dangling", "chains", "through_links", "write_through", "opens_refused",
            "listings_refused", "link_info", "system_graphs", "long_chain", "compared_to_os", "set_link_mode", "copied_links", "relative_links"]
SHRINK = ("ops", "tree")
NAMES = ["p", "q", "r"]


def small_graph(n):
    "the n-th graph of three entries"
    kinds = ["file", "dir"] + [("p",), ("q",), ("r",), ("p", "q"), ("q", "p"), ("r", "x"), ("none",), (), ("p", "p")]
    t = {}
    for name in NAMES:
        n, k = divmod(n, len(kinds))
        k = kinds[k]
        if k == "file":
            t[(name,)] = ("f", b"file " + name.encode(), 0)
        elif k == "dir":
            t[(name,)] = ("d",)
            t[(name, "x")] = ("f", b"below " + name.encode(), 0)
            t[(name, "p")] = ("l", ("r",))
            t[(name, "q")] = ("d",)
        else:
            t[(name,)] = ("l", k)
    return t


SMALL = 11 ** 3


def gen(rng, i, ctx):
    kind = "memory" if i // 16 % 2 else "file"
    system = i % 16 < 6
    if system:
        t = small_graph((i // 16 * 389 + i % 16 + rng.randrange(3)) % SMALL)
        pool = NAMES + ["x"]
    else:
        pool = G.names(rng, ctx, rng.randint(3, 5), literal=True, plain=0.5)
        t = G.tree(rng, ctx, rng.randint(2, 7), links=False, pool=pool, big=0)
        dirs = [()] + [p for p in t if t[p][0] == "d"]
        links = []
        for _ in range(rng.randint(2, 8)):
            p = rng.choice(dirs) + (rng.choice(pool),)
            if p not in t:
                t[p] = ("l", None)
                links.append(p)
        for p in links:
            r = rng.random()
            q = rng.choice(list(t))
            if r < 0.25 and links:
                q = rng.choice(links)
            if r > 0.6:
                q = q + (rng.choice(pool),)
            if r > 0.93:
                q = ()
            t[p] = ("l", q)
    chain = 0
    if rng.random() < 0.3:
        chain = rng.choice([2, 3, 5, 8, 12, 13, 20, 28])
        end = rng.choice(list(t) + [("nothing",)])
        if rng.random() < 0.3:
            end = ("chain%d" % rng.randrange(chain),)
        for k in range(chain):
            t[("chain%d" % k,)] = ("l", ("chain%d" % (k + 1),) if k + 1 < chain else end)
    ops = []
    cand = sorted(t)
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(cand)
        if rng.random() < 0.3:
            p = p + (rng.choice(pool),)
        r = rng.random()
        if r < 0.2:
            ops.append(["write", list(p), G.content(rng, ctx, False)])
        elif r < 0.3:
            ops.append(["append", list(p), G.content(rng, ctx, False)])
        elif r < 0.45:
            ops.append(["remove", list(p), rng.random() < 0.3])
        elif r < 0.6:
            ops.append(["symlink", list(rng.choice(cand)), list(p)])
        elif r < 0.7:
            ops.append(["mkdir", list(p)])
        elif r < 0.8:
            ops.append(["copy", list(p), [rng.choice(pool) + "2"], False, [], False])
        elif r < 0.9:
            ops.append(["move", list(p), [rng.choice(pool) + "3"]])
        else:
            ops.append(["set_link_mode", list(p)])
    other = []
    if kind == "file":
        n = G.names(rng, ctx, 3, literal=True, plain=0.4)
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            x = rng.choice(n + ["file here", "dir here", "dir here/" + n[0], "dir here/inner"])
            other.append(x if r < 0.4 else "./" + x if r < 0.5 else "../" + x if r < 0.6 else "../place/" + x if r < 0.75
                         else "dir here/../" + x if r < 0.8 else rng.choice([".", "..", "link0", "link1", "./link0", "link2/" + x]))
        other = [other, n]
    return dict(kind=kind, tree=G.tree_list(t), ops=ops, system=system, chain=chain, foreign=other)


def paths(tree):
    res = set([()])
    names = sorted({n for p in tree for n in p})[:12]
    base = list(tree)
    for p in base:
        res.add(p)
        res.add(p + ("nope",))
        if tree[p][0] != "f":
            for n in names[:5]:
                res.add(p + (n,))
                if tree[p][0] == "l":
                    for m in names[:3]:
                        res.add(p + (n, m))
        else:
            res.add(p + (names[0],))
    return sorted(res)


def check_all(ctx, be, tree, t, what):
    shape = tuple(sorted((len(q), v[0], len(v[1]) if v[0] == "l" else 0) for q, v in tree.items()))[:10]
    todo = paths(tree)
    if len(todo) > 45:
        todo = random.Random(len(todo)).sample(todo, 45)
    for p in todo:
        u = be.uri(p)
        for k in ("exists", "isfile", "isdir", "islink", "readlink", "listdir", "read", "size"):
            op = (k, p)
            try:
                want = ("ok", back.model_op(t, op))
            except Unspec:
                continue
            except Err as e:
                want = ("err", str(e))
            got = back.attempt(be, op)
            ctx.count("queries")
            if got[0] == "err" and not isinstance(got[1], OSError):
                raise Violation("%s%s raises %r, not an OSError" % (what, back.show(op), got[1]))
            if want[0] != got[0] or want[0] == "ok" and want[1] != got[1]:
                raise Violation("%s%s: expected %s, got %s" % (what, back.show(op), want, back.short(got)))
            if want[0] == "err":
                if k == "read":
                    ctx.count("opens_refused")
                elif k == "listdir":
                    ctx.count("listings_refused")
            if be.kind == "file":
                full = be.abspath(p)
                if k in ("exists", "isfile", "isdir", "islink"):
                    if getattr(os.path, k)(full) != got[1]:
                        raise Violation("%s%s is %r, os.path says otherwise" % (what, back.show(op), got[1]))
                    ctx.count("compared_to_os")
            ctx.sig(be.kind, k, want[0], want[1] if want[0] == "err" or k.startswith("is") else None,
                    len(p), shape)
        # info: of the target, of the link itself
        try:
            link = t.islink(p)
        except Unspec:
            continue
        try:
            target = t.need(p)
        except (Err, Unspec) as e:
            target = None
            if isinstance(e, Unspec):
                continue
            try:
                i = u.info()
            except OSError:
                i = None
            if i is not None:
                raise Violation("%sinfo() of /%s should fail" % (what, "/".join(p)))
        else:
            i = u.info()
            if target.kind == "f" and i.size != len(target.data):
                raise Violation("%sinfo().size of /%s is %r, not %d" % (what, "/".join(p), i.size, len(target.data)))
            if be.kind == "file" and i.mode != os.stat(be.abspath(p)).st_mode:
                raise Violation("%sinfo().mode of /%s" % (what, "/".join(p)))
        if link:
            i = u.info(followlinks=False)
            ctx.count("link_info")
            if be.kind == "file":
                if not stat.S_ISLNK(i.mode) or i.size != os.lstat(be.abspath(p)).st_size:
                    raise Violation("%sinfo(followlinks=False) of /%s is not that of the link" % (what, "/".join(p)))
            x, loop = None, False
            try:
                x = t.lookup(p)[2]
            except Err as e:
                loop = str(e) == "ELOOP"
            except Unspec:
                continue
            ctx.count("loops" if loop else "dangling" if x is None else "live_links")
            seen = t._traversed_all(p)
            if seen > 1 and not loop:
                ctx.count("chains")
            if seen > 12 and not loop:
                ctx.count("long_chain")
        elif t._traversed_all(p):
            ctx.count("through_links")


def run(case, ctx):
    tree = G.tree_dict(case["tree"])
    kind = case["kind"]
    ctx.count("fs:" + kind)
    if case["system"]:
        ctx.count("system_graphs")
    if kind == "memory":
        back.reset_registry()
        be = back.Mem()
        back.build(be, tree)
    else:
        base = os.path.join(ctx.fresh_dir(), "base")
        os.mkdir(base)
        be = back.Loc(base)
        back.build_os(base, tree)
    t = Tree()
    t.load(tree)
    check_all(ctx, be, tree, t, kind + ": ")
    if be.snapshot() != tree:
        raise Violation("%s: looking at it changed it: %s" % (kind, back.diff(tree, be.snapshot())))
    for raw in case["ops"]:
        op = [raw[0]] + [tuple(x) if isinstance(x, list) and i < 2 else x for i, x in enumerate(raw[1:])]
        before = t.snapshot()
        w = Tree()
        w.load(before)
        if op[0] == "set_link_mode":
            set_link_mode(ctx, be, w, op[1])
            continue
        try:
            back.model_op(w, op, local=kind == "file")
            want = None
        except Unspec:
            continue
        except Err as e:
            if e.partial is not None:
                continue
            want = str(e)
            w = t
        got = back.attempt(be, op)
        if (got[0] == "err") != (want is not None):
            raise Violation("%s: %s: expected %s, got %s" % (kind, back.show(op), want or "success", back.short(got)))
        after = be.snapshot()
        if after != w.snapshot():
            raise Violation("%s: after %s: %s" % (kind, back.show(op), back.diff(w.snapshot(), after)))
        if want is None and op[0] in ("write", "append") and before.get(op[1], "-")[0] != "f":
            ctx.count("write_through")
        if want is None and op[0] == "copy" and before.get(op[1], "-")[0] == "l":
            ctx.count("copied_links")
        t = w
    if kind == "file":
        foreign(ctx, case, t)
    now = t.snapshot()
    check_all(ctx, be, now, t, kind + ", changed: ")


def set_link_mode(ctx, be, t, p):
    "the metadata of a link are not those of its target"
    try:
        if not t.islink(p):
            return
        x = t.node(p)
    except Unspec:
        return
    if x is None or x.kind != "f":
        return
    u = be.uri(p)
    if be.kind == "memory":
        mode, own = u.info().mode, u.info(followlinks=False).mode
        u.info(dict(mode=own ^ 0o421), followlinks=False)
        if u.info().mode != mode or u.info(followlinks=False).mode != own ^ 0o421:
            raise Violation("info(set_info, followlinks=False) of /%s changes the wrong file" % "/".join(p))
        u.info(dict(mode=own), followlinks=False)
        u.info(dict(mode=mode ^ 0o642))
        if u.info().mode != mode ^ 0o642 or u.info(followlinks=False).mode != own:
            raise Violation("info(set_info) of /%s changes the wrong file" % "/".join(p))
        u.info(dict(mode=mode))
    else:
        full = be.abspath(p)
        mode = os.stat(full).st_mode
        try:
            u.info(dict(mode=0o640), followlinks=False)
        except (OSError, NotImplementedError):
            pass
        if os.stat(full).st_mode != mode:
            raise Violation("info(set_info, followlinks=False) of /%s changes the target" % "/".join(p))
        u.info(dict(mode=0o751))
        if stat.S_IMODE(os.stat(full).st_mode) != 0o751:
            raise Violation("info(set_info) of /%s doesn't change the target" % "/".join(p))
        os.chmod(full, stat.S_IMODE(mode))
    ctx.count("set_link_mode")


def foreign(ctx, case, t):
    "links with relative targets, made by somebody else"
    if not case.get("foreign"):
        return
    targets, names = case["foreign"]
    base = os.path.join(ctx.fresh_dir(), "place")
    os.mkdir(base)
    os.mkdir(base + "/dir here")
    for n in ("file here", "dir here/inner", "dir here/" + names[0], names[0]):
        with open(os.path.join(base, n), "w") as f:
            f.write("content of " + n)
    for d in (names[1], os.path.join("dir here", names[2])):
        if not os.path.lexists(os.path.join(base, d)):
            os.mkdir(os.path.join(base, d))
    for k, target in enumerate(targets):
        os.symlink(target, "%s/link%d" % (base, k))
        os.symlink(os.path.join("..", target), "%s/dir here/link%d" % (base, k))
    root = back.api().URI(base)
    for d in ("", "dir here"):
        for k, target in enumerate(targets):
            u = root.join(d, "link%d" % k) if d else root / ("link%d" % k)
            full = os.path.join(base, d, "link%d" % k)
            what = "%s -> %s" % (full, os.readlink(full))
            for q in ("exists", "isfile", "isdir", "islink"):
                if bool(getattr(u, q)()) != getattr(os.path, q)(full):
                    raise Violation("%s: %s is %r" % (what, q, getattr(u, q)()))
            r = u.readlink()
            if r.is_absolute or r.scheme != "file" or os.path.normpath(r.path) != os.path.normpath(os.readlink(full)):
                raise Violation("%s: readlink returns %s (%r)" % (what, r, r.path))
            for q in ("info", "mtime", "listdir", "open"):
                ok = os.path.exists(full) if q in ("info", "mtime") else getattr(os.path, "isdir" if q == "listdir" else "isfile")(full)
                try:
                    got = getattr(u, q)()
                except OSError as e:
                    if ok:
                        raise Violation("%s: %s raises %r" % (what, q, e))
                    continue
                if not ok:
                    raise Violation("%s: %s returns %r" % (what, q, got))
                if q == "info" and got.mode != os.stat(full).st_mode:
                    raise Violation("%s: info returns %r" % (what, got))
                if q == "mtime" and got != os.stat(full).st_mtime:
                    raise Violation("%s: mtime returns %r" % (what, got))
                if q == "listdir" and sorted(got) != sorted(os.listdir(full)):
                    raise Violation("%s: listdir returns %r" % (what, got))
                if q == "open":
                    with got, open(full) as f:
                        if got.read() != f.read():
                            raise Violation("%s: another file is opened" % what)
            if u.info(followlinks=False).size != os.lstat(full).st_size:
                raise Violation("%s: info(followlinks=False) is not that of the link" % what)
            if os.path.isfile(full):
                v = root.join(d, "copy of link%d" % k) if d else root / ("copy of link%d" % k)
                u.copy(v, followlinks=False)
                if not os.path.islink(v.path) or os.path.normpath(os.readlink(v.path)) != os.path.normpath(os.readlink(full)):
                    raise Violation("%s: the copy leads to %s" % (what, os.path.islink(v.path) and os.readlink(v.path)))
            ctx.count("relative_links")
    before = back.os_snapshot(base)
    for k in range(len(targets)):
        u = root / ("link%d" % k)
        u.remove()
        del before[("link%d" % k,)]
    after = back.os_snapshot(base)
    if before != after:
        raise Violation("removing links %s: %s" % (targets, back.diff(before, after)))
