"""memory file system refines the reference tree"""
from vp import back, gen, history

TECHNIQUE = "runtime monitoring: step-by-step refinement check against an executable reference model"
NOTE = ("Every operation of random histories is compared, result and whole tree, with an independent POSIX tree model. Assurance is limited to the generated histories (hostile names, links, loops); the tree is observed through the library itself.")
LEVEL = "exploration"
CASES = dict(quick=18000, thorough=300000)
RULE = ("Random operation histories (about 22 operations, names from hostile pools, biased to existing paths) on a "
        "fresh memory file system; after every operation result and full tree are compared to a reference POSIX tree. "
        "Distinct: (operation, outcome, shape of the resulting tree).")
REQUIRED = ["ops", "trees_compared", "op:copy:ok", "op:move:ok", "op:symlink:ok", "op:remove:err", "op:write:err",
            "op:walk:ok", "op:mkdir:err"]
ASSUMPTIONS = ["the tree is observed through listdir/islink/isdir/readlink/open of the library",
               "excluded: '.' and '..' components, relative link targets, writing through dangling links, moves onto links, "
               "mkdir/remove of the root"]


def gen_deco(rng):
    r = rng.random()
    if r < 0.6:
        return None
    if r < 0.7:
        return [-1]
    return [rng.choice([0, 1, 2]) for _ in range(3)]


def gen_case(rng, i, ctx):
    return dict(ops=history.generate(rng, ctx, rng.randint(8, 30)), deco=gen_deco(rng))


def gen(rng, i, ctx):
    return gen_case(rng, i, ctx)


def run(case, ctx):
    back.reset_registry()
    be = back.Mem()
    history.run(ctx, be, case["ops"], deco=case.get("deco"))
