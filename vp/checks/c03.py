"""derived URIs keep their connection parameters"""
from vp import gen as G
from vp.back import api, reset_registry
from vp.core import Violation

TECHNIQUE = "runtime monitoring: recording backends observe which connection serves every derived URI"
LEVEL = "exploration"
NOTE = ("Connection identity, attributes and the parameters the recording backend factory was called with are compared "
        "for every URI of random derivation chains. Exploration of generated parameter combinations.")
CASES = dict(quick=150000, thorough=1500000)
RULE = ("Random connection parameters given in the text and/or as keywords (recording scheme, memory, zip), random "
        "derivation chain; after each step connection identity, attributes and factory arguments are compared; queries "
        "are then changed on either side. Distinct: (scheme, which parameters in which form, derivation, depth).")
REQUIRED = ["derived", "factory_calls", "text_params", "kw_params", "kw_user", "text_user", "query_user", "independent",
            "memory", "zip", "after_query_change", "query_set", "extras_change"]
SHRINK = ("ops",)

CALLS = []


def setup(ctx):
    from abl.vpath.base.fs import CONNECTION_REGISTRY, FileSystem

    class Recorder(FileSystem):
        scheme = "rec"

        def _initialize(self):
            CALLS.append(self)

        def exists(self, path):
            self.asked = path
            return True
    CONNECTION_REGISTRY.register("rec", Recorder)


def word(rng):
    return "".join(rng.choice("abcXYZ019._-~") for _ in range(rng.randint(1, 6)))


def value(rng, ctx):
    return rng.choice([word(rng), "1", "two words", "\u00e4\u20ac", "a=b&c", "100%", "x/y", "", "((k))", "?", "#"])


def quote(s):
    return "".join(c if c.isalnum() and c.isascii() else "".join("%%%02X" % b for b in c.encode()) for c in s)


def gen(rng, i, ctx):
    scheme = rng.choice(["rec", "rec", "rec", "memory", "zip"])
    case = dict(scheme=scheme, user=None, pw=None, host=None, port=None, query={}, kw={}, ukw=None, pwkw=None, uq=None)
    if scheme == "rec":
        if rng.random() < 0.7:
            case["host"] = "h" + word(rng)
            if rng.random() < 0.4:
                case["port"] = G.port(rng)
        how = rng.choice(["text", "kw", "query", "none"])
        if how == "text" and case["host"]:
            case["user"] = word(rng)
            if rng.random() < 0.6:
                case["pw"] = word(rng)
            elif rng.random() < 0.5:
                case["pwkw"] = value(rng, ctx)
        elif how == "kw":
            case["ukw"] = value(rng, ctx)
            if rng.random() < 0.6:
                case["pwkw"] = value(rng, ctx)
        elif how == "query":
            case["uq"] = word(rng)
    elif scheme == "zip":
        case["archive"] = rng.choice(["/tmp/%s.zip" % word(rng), "memory:///%s.zip" % word(rng)])
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            case["query"]["q" + word(rng)] = value(rng, ctx).strip()
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            case["kw"]["k" + "".join(c for c in word(rng) if c.isalnum())] = \
                rng.choice([value(rng, ctx), rng.randint(0, 9), True, None])
    case["setq"] = []
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            case["setq"].append([rng.choice(sorted(case["query"]) + ["s" + word(rng)]),
                                 rng.choice(["", " ", " x ", 0, 7, True, None, 1.5, value(rng, ctx)])])
    case["path"] = "/" + "/".join(word(rng) for _ in range(rng.randint(0, 3)))
    case["sep"] = "\\" if rng.random() < 0.1 else "/"
    ops = []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(["join", "div", "add", "split", "dirname", "uri", "str"])
        n = G.name(rng, ctx, literal=case["sep"] == "/")
        while n in (".", "..") or (case["sep"] != "/" and "\\" in n):
            n = G.name(rng, ctx)
        ops.append([k, n, rng.randint(1, 3)])
    case["ops"] = [o for o in ops if o[0] != "str"]
    case["change"] = [rng.choice(["derived", "base"]), rng.randint(0, 9), word(rng)]
    return case


def make(case):
    netloc = ""
    if case["user"] is not None:
        netloc += case["user"] + (":" + case["pw"] if case["pw"] is not None else "") + "@"
    netloc += case["host"] or ""
    if case["port"]:
        netloc += ":%d" % case["port"]
    if case.get("archive"):
        netloc = "((%s))" % case["archive"]
    text = "%s://%s%s" % (case["scheme"], netloc, case["path"])
    q = dict(case["query"])
    if case["uq"] is not None:
        q["username"] = case["uq"]
    if q:
        text += "?" + "&".join("%s=%s" % (quote(k), quote(v)) for k, v in q.items())
    kw = dict(case["kw"])
    if case["ukw"] is not None:
        kw["username"] = case["ukw"]
    if case["pwkw"] is not None:
        kw["password"] = case["pwkw"]
    return api().URI(text, sep=case["sep"], **kw)


def attrs(u):
    return dict(scheme=u.scheme, hostname=u.hostname or None, port=u.port or None, username=u.username or None,
                password=u.password or None, vpath_connector=u.vpath_connector or None, sep=u.sep)


def derive(u, op):
    k, n, level = op
    if k == "join":
        return u.join(n, "x")
    if k == "div":
        return u / n
    if k == "add":
        return u + n.replace("/", "")
    if k == "split":
        return u.split()[0]
    if k == "dirname":
        return u.dirname(level)
    return api().URI(u)


def run(case, ctx):
    reset_registry()
    del CALLS[:]
    u = make(case)
    for k, v in case["setq"]:
        u.query[k] = v
        ctx.count("query_set")
    want = attrs(u)
    exp = dict(scheme=case["scheme"], hostname=case["host"], port=case["port"],
               username=case["user"] or case["ukw"] or case["uq"] or None,
               password=case["pw"] or case["pwkw"] or None, vpath_connector=case.get("archive"), sep=case["sep"])
    if want != exp:
        raise Violation("%r has the attributes %r instead of %r" % (str(u), want, exp))
    conn = u.get_connection()
    if case["scheme"] == "rec":
        params(conn, case, exp)
    chain = [u]
    for op in case["ops"]:
        v = derive(chain[-1], op)
        ctx.count("derived")
        if attrs(v) != want:
            raise Violation("%r derived from %r by %r has %r instead of %r" % (str(v), str(chain[-1]), op, attrs(v), want))
        if v.get_connection() is not conn:
            raise Violation("%r derived from %r by %r has a different connection (parameters %r %r)" % (
                str(v), str(chain[-1]), op, vars(conn), vars(v.get_connection())))
        if case["scheme"] == "rec":
            v.exists()
            if conn.asked is not v or v.connection is not conn:
                raise Violation("%r is not served by its connection" % str(v))
        if op[0] in ("join", "div", "add", "uri") and v.query != chain[-1].query or \
                op[0] in ("join", "div", "add", "uri") and list(map(type, v.query.values())) != list(map(type, chain[-1].query.values())):
            raise Violation("%r derived from %r by %r has the query %r instead of %r" % (
                str(v), str(chain[-1]), op, v.query, chain[-1].query))
        chain.append(v)
        ctx.sig(case["scheme"], tuple(sorted(k for k in case if case[k] not in (None, {}, "/", []))), op[0], len(chain))
    if case["scheme"] == "rec" and len(CALLS) != 1:
        raise Violation("%d connections for one set of parameters" % len(CALLS))
    ctx.count("factory_calls", len(CALLS))
    ctx.count("memory" if case["scheme"] == "memory" else "zip" if case["scheme"] == "zip" else "rec")
    if case["query"]:
        ctx.count("text_params")
    if case["kw"]:
        ctx.count("kw_params")
    for k, name in (("ukw", "kw_user"), ("user", "text_user"), ("uq", "query_user")):
        if case[k]:
            ctx.count(name)
    # independence
    side, idx, key = case["change"]
    a, b = chain[idx % len(chain)], chain[(idx + 1) % len(chain)]
    if a is not b:
        before = [dict(x.query) for x in chain]
        paths = [x.path for x in chain]
        a.query["new" + key] = "v"
        for x, q, p in zip(chain, before, paths):
            if x is not a and (x.query != q or x.path != p or "new" + key in str(x)):
                raise Violation("changing the query of %r changes %r" % (str(a), str(x)))
        if a.query != dict(before[idx % len(chain)], **{"new" + key: "v"}):
            raise Violation("query is %r" % a.query)
        ctx.count("independent")
        # the changed one has other parameters now, and so has what is derived from it
        c = a / "z"
        if a.get_connection() is conn or c.get_connection() is not a.get_connection():
            raise Violation("the changed parameters of %r are ignored" % str(a))
        if b.get_connection() is not conn:
            raise Violation("changing the query of %r changes the connection of %r" % (str(a), str(b)))
        ctx.count("after_query_change")
        conns = [x.get_connection() for x in chain]
        for x in (a, b):
            x.extras["extra" + key] = "v"
            for y, c in zip(chain, conns):
                if (y.get_connection() is c) == (y is x) or ("extra" + key in y.extras) != (y is x):
                    raise Violation("setting a parameter of %r: %r has %r" % (str(x), str(y), y.extras))
            del x.extras["extra" + key]
            if x.get_connection() not in conns:
                raise Violation("%r has another connection after removing a parameter again" % str(x))
        ctx.count("extras_change")


def params(conn, case, exp):
    got = (conn.hostname or None, conn.port or None, conn.username or None, conn.password or None)
    want = (exp["hostname"], exp["port"], exp["username"], exp["password"])
    if got != want:
        raise Violation("the backend got %r instead of %r" % (got, want))
    extras = dict(case["kw"], **dict(case["query"], **dict(case["setq"])))
    if conn.extras != extras:
        raise Violation("the backend got the parameters %r instead of %r" % (conn.extras, extras))
