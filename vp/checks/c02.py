"""path algebra"""
import copy
import os.path

from vp import gen as G
from vp.back import api
from vp.core import Violation

TECHNIQUE = "runtime monitoring: algebraic laws and a string model checked on every step of random derivation chains"
LEVEL = "exploration"
NOTE = ("Each step of a random chain of join, /, +, split, dirname is compared with a plain string model and with the "
        "other operations. Exploration of generated chains; '.' and '..' as names are not driven.")
CASES = dict(quick=180000, thorough=3000000)
RULE = ("Base URI of a random scheme and form, then a chain of up to 8 derivations with hostile names; after each one all "
        "laws are checked. Distinct: (scheme, form of the base, operation, properties of the name, depth).")
REQUIRED = ["steps", "law:join", "law:split", "law:root", "law:last_slash", "law:splitext", "law:add", "scheme:zip",
            "scheme:http", "scheme:memory", "scheme:foo", "relative"]
SHRINK = ("ops",)

BASES = [
    ("file", "", ["abs", "rel", "fileurl"]),
    ("memory", "memory://", ["abs"]),
    ("zip", "zip://((/tmp/some.zip))", ["abs"]),
    ("zip", "zip://((memory:///x/y.zip))", ["abs"]),
    ("foo", "foo://host", ["abs", "none"]),
    ("foo", "foo://user:pw@host:22", ["abs", "none"]),
    ("http", "http://example.com", ["abs", "none"]),
    ("https", "https://u@example.com:8080", ["abs"]),
    ("svn+ssh", "svn+ssh://h", ["abs"]),
]


def first_ok(n):
    return G.good_name(n) and n[1:2] != ":" and "#" not in n


def name(rng, ctx):
    while True:
        n = G.name(rng, ctx, literal=True, plain=0.25)
        if rng.random() < 0.01:
            n = (n + "-") * rng.choice([30, 100, 400])
        if n not in (".", ".."):
            return n


def gen(rng, i, ctx):
    scheme, prefix, forms = rng.choice(BASES)
    form = rng.choice(forms)
    parts = []
    for _ in range(rng.randint(0, 4)):
        n = name(rng, ctx)
        while not first_ok(n) or (scheme.startswith("http") and "%" in n):
            n = name(rng, ctx)
        parts.append(n)
    path = "/".join(parts)
    if form == "abs" or form == "fileurl":
        path = "/" + path
    elif form == "none":
        path = ""
    elif not path:
        path = "."
    if rng.random() < 0.15 and path not in ("", ".") and not path.endswith("/"):
        path += "/"
    if "//" in path or path[1:2] == ":" or "://" in path:
        path = "/a" if form != "rel" else "a"
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(["join", "join", "div", "add", "split", "dirname", "joinslash", "uri"])
        if k == "join":
            ops.append([k, [name(rng, ctx) for _ in range(rng.randint(1, 4))]])
        elif k in ("div", "joinslash"):
            ops.append([k, name(rng, ctx)])
        elif k == "add":
            ops.append([k, rng.choice([name(rng, ctx), "." + name(rng, ctx), "/" + name(rng, ctx), ".txt", ""])])
        elif k == "dirname":
            ops.append([k, rng.randint(1, 4)])
        else:
            ops.append([k])
    return dict(base=("file://" if form == "fileurl" else prefix) + path, path=path, scheme=scheme, form=form, ops=ops)


def m_split(p):
    head, slash, tail = p.rpartition("/")
    if not head:
        head = slash or ("." if p else "")
    return head, tail


def state(u):
    return (u.scheme, u.path, str(u), dict(u.query), dict(u.extras), u.sep, u.hostname, u.port, u.username, u.password,
            u.vpath_connector)


def expect(u, path, what):
    got = u.path
    if got != path:
        raise Violation("%s: path should be %r, but is %r" % (what, path, got))


def eq(a, b, what):
    if not (a == b) or (a != b) or a.path != b.path or str(a) != str(b):
        raise Violation("%s: %r and %r should be equal" % (what, str(a), str(b)))


def run(case, ctx):
    URI = api().URI
    u = URI(case["base"])
    p = case["path"]
    if case["form"] == "rel" and p != ".":
        p = "./" + p
    expect(u, p, "URI(%r)" % case["base"])
    ctx.count("scheme:" + case["scheme"])
    if case["form"] == "rel":
        ctx.count("relative")
    for op in case["ops"]:
        before = copy.deepcopy(state(u))
        old = u
        laws(ctx, u, p)
        k = op[0]
        what = "%s of %r" % (op, str(u))
        if k == "join":
            q = p.rstrip("/") + "/" + "/".join(op[1])
            v = u.join(*op[1])
            w = u
            for n in op[1]:
                w = w / n
            expect(v, q, what)
            eq(v, w, what)
            eq(v, u.join("/".join(op[1])), what)
            ctx.count("law:join")
        elif k == "div":
            q = p.rstrip("/") + "/" + op[1]
            v = u / op[1]
            expect(v, q, what)
            eq(v, u.join(op[1]), what)
            head, tail = v.split()
            if tail != op[1] or v.basename() != op[1] or v.last() != op[1]:
                raise Violation("%s: split %r, basename %r, last %r" % (what, tail, v.basename(), v.last()))
            expect(head, p.rstrip("/") or "/", what + ".split()")
            if not p.endswith("/") and p:
                eq(head, u, what + ".split()")
            if v.splitext() != os.path.splitext(op[1]):
                raise Violation("%s: splitext %r" % (what, v.splitext()))
            ctx.count("law:split")
        elif k == "joinslash":
            q = p.rstrip("/") + "/" + op[1] + "/"
            v = u.join(op[1] + "/")
            expect(v, q, what)
            if v.last() != op[1] or v.basename() != "":
                raise Violation("%s: last is %r, basename %r" % (what, v.last(), v.basename()))
            ctx.count("law:last_slash")
        elif k == "add":
            q = p + op[1]
            v = u + op[1]
            ctx.count("law:add")
            if first_component(q) in (".", "..") and q.startswith("/"):
                break
            expect(v, q, what)
        elif k == "dirname":
            q = p
            w = u
            for _ in range(op[1]):
                q = m_split(q)[0]
                w = w.dirname()
            v = u.dirname(op[1])
            expect(v, q, what)
            eq(v, w, what)
            eq(u.directory(op[1]), v, what)
            if q == p:
                ctx.count("law:root")
        elif k == "split":
            q, tail = m_split(p)
            v, t = u.split()
            expect(v, q, what)
            if t != tail:
                raise Violation("%s: name is %r" % (what, t))
            eq(v, u.dirname(), what)
        else:
            q = p
            v = URI(u)
            expect(v, q, what)
            eq(v, u, what)
        ctx.count("steps")
        if state(old) != before:
            raise Violation("%s changes the uri it is called on: %r %r" % (what, before, state(old)))
        arg = op[1] if len(op) > 1 else ""
        text = arg if isinstance(arg, str) else "".join(arg) if isinstance(arg, list) else str(arg)
        ctx.sig(case["scheme"], case["form"], k, len(op[1]) if k == "join" else None,
                tuple(c in text for c in "?#%\\.:&= ("), text[:1] == ".", q.count("/"), q.endswith("/"))
        u, p = v, q


def first_component(p):
    return p.lstrip("/").split("/")[0]


def laws(ctx, u, p):
    head, tail = u.split()
    mh, mt = m_split(p)
    if (head.path, tail) != (mh, mt):
        raise Violation("split of %r is (%r, %r)" % (p, head.path, tail))
    if u.basename() != mt:
        raise Violation("basename of %r is %r" % (p, u.basename()))
    if u.splitext() != os.path.splitext(mt):
        raise Violation("splitext of %r is %r" % (p, u.splitext()))
    ctx.count("law:splitext")
    want = p[:-1].rpartition("/")[2] if p.endswith("/") else mt
    if u.last() != want:
        raise Violation("last of %r is %r" % (p, u.last()))
