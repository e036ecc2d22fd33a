"""windows separators"""
from vp import gen as G
from vp.back import api
from vp.core import Violation

TECHNIQUE = "runtime monitoring: string model of the separator conversion checked on derivation chains"
LEVEL = "exploration"
NOTE = ("Every path of random chains with the backslash separator is compared with a string model and with the URI derived "
        "by slash separated arguments. Exploration; only the conversion itself, no Windows system is involved.")
CASES = dict(quick=300000, thorough=3000000)
RULE = ("Random drive letter or relative path of hostile names, chain of up to 6 join, /, +, split, dirname with backslash "
        "separated arguments. Distinct: (drive?, operation, parts, special characters, depth).")
REQUIRED = ["drive", "relative", "op:join", "op:add", "op:split", "op:div", "roundtrip"]
SHRINK = ("ops",)


def name(rng, ctx):
    while True:
        n = G.name(rng, ctx, literal=False, plain=0.35)
        if ":" not in n and n not in (".", ".."):
            return n


def gen(rng, i, ctx):
    drive = rng.choice("CcDzAxZ") if rng.random() < 0.65 else None
    parts = [name(rng, ctx) for _ in range(rng.randint(0 if drive else 1, 5))]
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["join", "join", "div", "add", "split", "dirname", "uri"])
        if k == "join":
            ops.append([k, [[name(rng, ctx) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]])
        elif k == "div":
            ops.append([k, [name(rng, ctx) for _ in range(rng.randint(1, 3))]])
        elif k == "add":
            ops.append([k, rng.choice([["", name(rng, ctx)], [name(rng, ctx)], [".x", name(rng, ctx)]])])
        else:
            ops.append([k])
    return dict(drive=drive, parts=parts, ops=ops, trail=rng.random() < 0.1, mixed=rng.random() < 0.15)


def expect(u, drive, uni, what):
    if u.unipath != uni:
        raise Violation("%s: unipath should be %r, but is %r" % (what, uni, u.unipath))
    if drive and uni.startswith("/%s/" % drive):
        want = drive + ":\\" + uni[3:].replace("/", "\\")
    else:
        want = uni.replace("/", "\\")
    if u.path != want or str(u) != want:
        raise Violation("%s: path should be %r, but is %r (%r)" % (what, want, u.path, str(u)))
    if u.sep != "\\":
        raise Violation("%s: separator is %r" % (what, u.sep))


def run(case, ctx):
    URI = api().URI
    drive, parts = case["drive"], case["parts"]
    sep = "\\"
    text = (drive + ":\\" if drive else "") + sep.join(parts)
    if case["mixed"] and drive:
        text = text.replace("\\", "/", 1)
    uni = ("/" + drive + "/" if drive else "./") + "/".join(parts)
    if case["trail"] and parts:
        text += sep
        uni += "/"
    u = URI(text, sep="\\")
    what = "URI(%r, sep='\\\\')" % text
    expect(u, drive, uni, what)
    ctx.count("drive" if drive else "relative")
    v = URI(u.path, sep="\\")
    expect(v, drive, uni, what + " again")
    if not (u == v):
        raise Violation("%s is not equal to URI(path)" % what)
    if drive and URI(uni) != u:
        raise Violation("%s is not equal to URI(%r)" % (what, uni))
    if drive and (URI(uni, sep="\\").path != u.path):
        raise Violation("URI(%r, sep) has the path %r" % (uni, URI(uni, sep="\\").path))
    ctx.count("roundtrip")
    for op in case["ops"]:
        k = op[0]
        what = "%s of %r" % (op, u.path)
        if k == "join":
            new = uni.rstrip("/") + "/" + "/".join("/".join(x) for x in op[1])
            v = u.join(*[sep.join(x) for x in op[1]])
            w = u.join(*["/".join(x) for x in op[1]])
        elif k == "div":
            new = uni.rstrip("/") + "/" + "/".join(op[1])
            v, w = u / sep.join(op[1]), u / "/".join(op[1])
            head, tail = v.split()
            if tail != op[1][-1] or v.last() != tail:
                raise Violation("%s: split returns %r" % (what, tail))
            expect(head, drive, new.rpartition("/")[0] or "/", what)
        elif k == "add":
            new = uni + "/".join(op[1])
            v, w = u + sep.join(op[1]), u + "/".join(op[1])
        elif k in ("split", "dirname"):
            head, slash, tail = uni.rpartition("/")
            new = head or slash or "."
            v, t = u.split()
            w = u.dirname()
            if t != tail:
                raise Violation("%s: name is %r" % (what, t))
        else:
            new = uni
            v, w = URI(u), URI(u, sep="\\")
        if drive and not new.startswith("/%s/" % drive):
            break           # above the drive
        if not drive and not new.startswith("./"):
            if new != ".":
                raise AssertionError(new)
            break
        expect(v, drive, new, what)
        expect(w, drive, new, what + " (slashes)")
        if not (v == w):
            raise Violation("%s: %r and %r differ" % (what, v.path, w.path))
        ctx.count("op:" + ("split" if k == "dirname" else k))
        ctx.sig(bool(drive), k, len(op[1]) if len(op) > 1 else 0, new.count("/"), tuple(c in new for c in "#%+ .&("),
                case["trail"], case["mixed"])
        u, uni = v, new
