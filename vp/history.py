"""
Random operation histories, checked step by step against the reference model.
"""
from . import back, gen
from .core import Violation
from .model import Err, Tree, Unspec


def random_path(rng, tree, pool, exist=0.7, maxdepth=4):
    if rng.random() < exist:
        snap = list(tree.snapshot())
        if snap:
            return rng.choice(snap)
    base = ()
    if rng.random() < 0.7:
        dirs = [q for q, v in tree.snapshot().items() if v[0] == "d" or v[0] == "l"]
        if dirs:
            base = rng.choice(dirs)
    extra = 1 if rng.random() < 0.8 else rng.randint(1, 3)
    p = base + tuple(rng.choice(pool) for _ in range(extra))
    return p[:maxdepth + 2]


WEIGHTS = [("write", 14), ("append", 5), ("read", 6), ("mkdir", 12), ("makedirs", 5), ("listdir", 4),
           ("exists", 4), ("isfile", 4), ("isdir", 4), ("islink", 4), ("readlink", 3), ("remove", 9),
           ("symlink", 11), ("copy", 12), ("move", 9), ("walk", 4), ("glob", 2), ("size", 2),
           ("set_exec", 4), ("isexec", 3), ("md5", 1)]


def random_op(rng, tree, pool, ctx, links=True):
    kinds = [w for w in WEIGHTS if links or w[0] not in ("symlink",)]
    k = rng.choices([x[0] for x in kinds], [x[1] for x in kinds])[0]

    def P(exist=0.7):
        return list(random_path(rng, tree, pool, exist))
    if k in ("write", "append"):
        return [k, P(0.45), gen.content(rng, ctx, big=rng.random() < 0.15)]
    if k == "mkdir":
        return [k, P(0.15)]
    if k == "makedirs":
        p = P(0.3)
        return [k, p + [rng.choice(pool) for _ in range(rng.randint(0, 2))]]
    if k == "remove":
        return [k, P(0.85), rng.random() < 0.5]
    if k == "symlink":
        return [k, P(0.75), P(0.1)]
    if k == "copy":
        ign = rng.sample(pool, min(rng.choice([1, 1, 2, 3]), len(pool))) if rng.random() < 0.25 else []
        src = P(0.9)
        rec = tree.isdir(tuple(src)) if rng.random() < 0.93 else rng.random() < 0.5
        return [k, src, P(0.4), rec, ign, rng.random() < 0.6]
    if k == "move":
        return [k, P(0.9), P(0.35)]
    if k == "walk":
        return [k, P(0.85) if rng.random() < 0.8 else [], rng.random() < 0.6, rng.random() < 0.5,
                rng.sample(pool, min(rng.choice([1, 1, 2]), len(pool))) if rng.random() < 0.4 else []]
    if k == "glob":
        pat = rng.choice(["*", "?", "*" + rng.choice(pool)[-1:], rng.choice(pool)[:1] + "*", "[a-m]*", rng.choice(pool)])
        return [k, P(0.85) if rng.random() < 0.8 else [], pat]
    if k in ("set_exec", "isexec"):
        return [k, P(0.9), rng.choice([0o100, 0o010, 0o001, 0o111, 0o101, 0o110, 0])]
    return [k, P(0.75) if rng.random() < 0.95 else []]


def generate(rng, ctx, nops, links=True, local=False):
    pool = gen.names(rng, ctx, rng.randint(2, 5), literal=True, plain=0.5)
    tree = Tree()
    ops = []
    tries = 0
    while len(ops) < nops and tries < nops * 6:
        tries += 1
        op = random_op(rng, tree, pool, ctx, links)
        if len(tree.snapshot()) > 40 and op[0] in ("copy",):
            continue
        work = Tree()
        work.load(tree.snapshot())
        try:
            back.model_op(work, norm(op), local)
            tree = work
        except Unspec:
            continue
        except Err as e:
            if e.partial is not None:
                # the rest of the history would depend on it
                if rng.random() < 0.7:
                    continue
                ops.append(op)
                break
            if rng.random() < 0.35:
                continue
        ops.append(op)
    return ops


def norm(op):
    return [tuple(x) if isinstance(x, list) and i in (1, 2) and all(isinstance(y, str) for y in x) else x
            for i, x in enumerate(op)]


def run(ctx, be, ops, deco=None, local=False, start=None, label="", skip=None):
    "execute ops on the backend and compare each result, and the tree"
    tree = Tree()
    if start is not None:
        tree.load(start)
    outcome = []
    for i, raw in enumerate(ops):
        op = norm(raw)
        before = tree.snapshot()
        work = Tree()
        work.load(before)
        partial = None
        try:
            want = ("ok", back.model_op(work, op, local))
        except Unspec:
            continue
        except Err as e:
            want = ("err", str(e))
            partial = e.partial
            work = None
        if skip is not None and skip(op, tree, want):
            continue
        got = back.attempt(be, op, deco)
        ctx.count("ops")
        ctx.count("op:%s:%s" % (op[0], want[0]))
        if want[0] != got[0]:
            if want[0] == "ok":
                raise Violation("%s%s should succeed, but raises %s: %s" % (
                    label, back.show(op), type(got[1]).__name__, got[1]))
            raise Violation("%s%s should fail (%s), but returns %s" % (
                label, back.show(op), want[1], back.short(got[1])))
        if want[0] == "ok" and op[0] not in back.NORETURN:
            w = want[1]
            if op[0] == "walk":
                w = [[tuple(x[0]), x[1], x[2]] for x in w]
            if w != got[1]:
                raise Violation("%s%s should return %s, but returns %s" % (
                    label, back.show(op), back.short(w), back.short(got[1])))
        after = be.snapshot()
        if partial is not None:
            a = {q: v for q, v in before.items() if q[:len(partial)] != tuple(partial)
                 and tuple(partial)[:len(q)] != q}
            b = {q: v for q, v in after.items() if q in a or (q[:len(partial)] != tuple(partial)
                 and tuple(partial)[:len(q)] != q)}
            # paths through links that lead into the partial result are fine
            if a != b and not _links(before):
                raise Violation("%sfailing %s changed something else: %s" % (label, back.show(op), back.diff(a, b)))
            ctx.count("partial_failures")
            return outcome
        expected = before if work is None else work.snapshot()
        if expected != after:
            raise Violation("%safter %s %s: %s" % (
                label, "failing" if want[0] == "err" else "", back.show(op), back.diff(expected, after)))
        ctx.count("trees_compared")
        if work is not None:
            tree = work
        outcome.append((op[0], want[0]))
        ctx.sig(op[0], want[0], want[1] if want[0] == "err" else None,
                tuple(sorted((len(q), v[0]) for q, v in expected.items())))
    return outcome


def _links(snap):
    return any(v[0] == "l" for v in snap.values())
