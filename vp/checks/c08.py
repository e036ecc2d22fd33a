"""local file system: same semantics, on disk"""
from vp import back, history
from vp.core import Violation

TECHNIQUE = "runtime monitoring: step-by-step refinement check, state observed with plain OS calls"
NOTE = ("Same histories on disk in a scratch directory; state is observed with os calls, every mutation is checked by an audit-hook monitor to stay inside. Trusts the OS and the reference model.")
LEVEL = "exploration"
CASES = dict(quick=18000, thorough=250000)
RULE = ("Random operation histories (see C07) run on a scratch directory through the local backend, and the same history "
        "on the memory file system; result and tree (observed with plain os calls) after every operation are compared to "
        "the reference tree. Distinct: (operation, outcome, shape of the resulting tree).")
REQUIRED = ["ops", "trees_compared", "op:copy:ok", "op:move:ok", "op:symlink:ok", "op:remove:err", "op:write:err",
            "op:walk:ok", "op:mkdir:err", "parity_histories"]
ASSUMPTIONS = ["the operating system's file calls are the ground truth for the local state",
               "excluded: see C07; in addition trailing slashes, and destinations of a move that hold an entry of that name"]


def gen(rng, i, ctx):
    deco = None if rng.random() < 0.6 else [rng.choice([0, 1, 2]) for _ in range(3)]
    return dict(ops=history.generate(rng, ctx, rng.randint(8, 28), local=True), deco=deco,
                parity=rng.random() < 0.25)


def run(case, ctx):
    import os
    outer = ctx.fresh_dir()
    base = os.path.join(outer, "root")
    os.mkdir(base)
    with open(os.path.join(outer, "outside"), "wb") as f:
        f.write(b"outside")
    be = back.Loc(base)
    a = history.run(ctx, be, case["ops"], deco=case.get("deco"), local=True)
    rest = {q: v for q, v in back.os_snapshot(outer).items() if q[0] != "root"}
    if rest != {("outside",): ("f", b"outside", 0)}:
        raise Violation("something outside of the tree was changed: %r" % rest)
    if case.get("parity"):
        back.reset_registry()
        b = history.run(ctx, back.Mem(), case["ops"], deco=case.get("deco"), local=True, label="memory: ")
        if a != b:
            raise Violation("local and memory disagree: %r %r" % (a, b))
        ctx.count("parity_histories")
