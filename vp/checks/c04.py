"""component parsing, round trip, equality"""
from vp import gen as G
from vp.back import api
from vp.core import Violation

TECHNIQUE = "runtime monitoring: round-trip and component oracle over generated URIs and near-equal pairs"
LEVEL = "exploration"
NOTE = ("URIs are built from known components by an independent builder; parsed components, str round trip, and equality "
        "against a variant that differs in exactly one (or no) component are observed. Exploration.")
CASES = dict(quick=320000, thorough=4000000)
RULE = ("Random components, each optional one present or not, with characters legal in it; query text encoded in different "
        "ways; a second URI differs in one component or in none. Distinct: (scheme, components present, special characters "
        "per component, kind of variation).")
REQUIRED = ["parsed", "roundtrip", "equal_pairs", "different_pairs", "diff:path", "diff:query", "diff:host", "diff:port",
            "diff:archive", "diff:scheme", "query_set_later", "fragment", "hash_in_query", "case_differs"]
SHRINK = ()

SCHEMES = ["memory", "zip", "foo", "http", "https", "sftp", "svn+ssh", "ssh", "file", "ftp"]
UNRES = "abcdefxyzABC0123456789-._~"


def word(rng, extra="", lo=1, hi=7):
    return "".join(rng.choice(UNRES + extra * 3) for _ in range(rng.randint(lo, hi)))


def component(rng):
    "for query keys and values: anything"
    r = rng.random()
    if r < 0.3:
        return word(rng)
    alphabet = "ab1 +&=%#?/:@()'\"<>\\~\u00e4\u20ac\u65e5\U0001f600\n\t;,"
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 6)))


def path(rng, ctx, scheme):
    parts = []
    for _ in range(rng.randint(0, 4)):
        n = G.name(rng, ctx, literal=False, plain=0.3)
        if n in (".", "..") or (scheme.startswith("http") and "#" in n):
            n = "p" + word(rng)
        parts.append(n)
    p = "/" + "/".join(parts)
    if rng.random() < 0.1 and parts:
        p += "/"
    if p[1:2] == ":":
        p = "/x" + p[1:]
    return p.replace("://", ":/")


def gen(rng, i, ctx):
    scheme = rng.choice(SCHEMES)
    c = dict(scheme=scheme, user=None, pw=None, host=None, port=0, archive=None, path=path(rng, ctx, scheme), query=[])
    if scheme == "file":
        pass
    elif scheme == "zip" or (scheme == "foo" and rng.random() < 0.2):
        c["archive"] = "/".join([rng.choice(["", "memory://", "/tmp", "rel"])] +
                                [G.name(rng, ctx, literal=rng.random() < 0.3).replace("\\", "").replace("((", "").replace("))", "")
                                 or "x" for _ in range(rng.randint(1, 2))])
        if c["archive"].endswith(")"):
            c["archive"] += ".zip"
    elif scheme != "memory":
        if rng.random() < 0.85 or scheme.startswith("http"):
            c["host"] = word(rng, "")
            if c["host"] == ".":
                c["host"] = "dot"
            if rng.random() < 0.4:
                c["port"] = G.port(rng)
        if rng.random() < 0.4 and c["host"]:
            c["user"] = word(rng, "!$&'*+,;=%")
            if rng.random() < 0.6:
                c["pw"] = word(rng, "!$&'*+,;=:%")
    if scheme != "file" and rng.random() < 0.6:
        keys = set()
        for _ in range(rng.randint(1, 4)):
            k = component(rng)
            if k not in keys:
                keys.add(k)
                c["query"].append([k, rng.choice([component(rng), "", component(rng)])])
    vary = rng.choice(["none", "none", "scheme", "host", "port", "archive", "path", "query", "user"])
    # '#' is a fragment for http, and nothing special for all others
    frag = None
    if scheme.startswith("http") and rng.random() < 0.4:
        frag = word(rng, "/?=&:@")
    return dict(a=c, frag=frag, hash=rng.random() < 0.4, vary=vary, how=rng.choice(["plus", "percent", "blanks"]), other=component(rng), n=rng.randint(1, 99),
                later=rng.random() < 0.3)


def enc(s, how, raw=""):
    res = ""
    for ch in s:
        if ch.isascii() and (ch.isalnum() or ch in "-._~" + raw):
            res += ch
        elif ch == " " and how == "plus":
            res += "+"
        else:
            res += "".join("%%%02X" % b for b in ch.encode())
    return res


def build(c, how, raw="", frag=None):
    netloc = ""
    if c["user"] is not None:
        netloc += c["user"] + (":" + c["pw"] if c["pw"] is not None else "") + "@"
    netloc += c["host"] or ""
    if c["port"]:
        netloc += ":%d" % c["port"]
    if c["archive"] is not None:
        netloc = "((%s))" % c["archive"]
    text = c["scheme"] + "://" + netloc + c["path"]
    if c["query"]:
        b = " " if how == "blanks" else ""
        text += "?" + "&".join(b + enc(k, how, raw) + b + "=" + b + enc(v, how, raw) + b for k, v in c["query"])
    if frag:
        text += "#" + frag
    return text


def components(u):
    return dict(scheme=u.scheme, user=u.username or None, pw=u.password or None, host=u.hostname or None,
                port=u.port or 0, archive=u.vpath_connector or None, path=u.path, query=dict(u.query))


def check(u, c, what):
    got = components(u)
    want = dict(c, query=dict(c["query"]))
    if got != want:
        bad = sorted(k for k in want if want[k] != got[k])
        raise Violation("%s: %s" % (what, "; ".join("%s is %r instead of %r" % (k, got[k], want[k]) for k in bad)))


def same(a, b):
    return all(a[k] == b[k] for k in ("scheme", "host", "port", "archive", "path")) and dict(a["query"]) == dict(b["query"])


def run(case, ctx):
    URI = api().URI
    c = case["a"]
    raw = "#" if case.get("hash") and not c["scheme"].startswith("http") else ""
    frag = case.get("frag")
    text = build(c, case["how"], raw, frag)
    if raw and "#" in text.partition("?")[2]:
        ctx.count("hash_in_query")
    u = URI(text)
    if frag:
        ctx.count("fragment")
        if not str(u).endswith("#" + frag):
            raise Violation("the string of %r is %r" % (text, str(u)))
    check(u, c, "URI(%r)" % text)
    ctx.count("parsed")
    v = URI(str(u))
    check(v, c, "URI(str(URI(%r))) = URI(%r)" % (text, str(u)))
    if not (u == v) or u != v:
        raise Violation("URI(str(u)) != u for %r" % text)
    if str(v) != str(u):
        raise Violation("str is not stable: %r %r" % (str(u), str(v)))
    w = URI(u)
    check(w, c, "URI(URI(%r))" % text)
    if not (w == u):
        raise Violation("URI(u) != u for %r" % text)
    ctx.count("roundtrip")
    d = dict(c, query=[list(x) for x in c["query"]])
    vary = case["vary"]
    n = case["n"]
    if vary == "scheme" and c["scheme"] not in ("file",):
        d["scheme"] = {"http": "https", "https": "http"}.get(c["scheme"], "bar")
    elif vary == "host" and c["host"]:
        d["host"] = c["host"] + "x" if n % 2 else "z" + c["host"]
    elif vary == "port" and c["host"]:
        d["port"] = 0 if c["port"] and n % 3 == 0 else c["port"] % 65535 + 1
    elif vary == "archive" and c["archive"]:
        d["archive"] = c["archive"][:-1] + "y" + c["archive"][-1:]
        if d["archive"].endswith(")"):
            d["archive"] += "y"
    elif vary == "path":
        d["path"] = c["path"] + "x" if n % 3 else c["path"][:-1] or "/x"
        if d["path"] in ("/.", "/..") or "://" in d["path"] or (c["scheme"] == "file" and d["path"][1:2] == ":"):
            d["path"] = "/otherwise"
    elif vary == "query" and c["scheme"] != "file":
        if d["query"] and n % 2:
            k, v0 = d["query"][n % len(d["query"])]
            d["query"][n % len(d["query"])] = [k, v0 + "x"]
        elif d["query"] and n % 3 == 0:
            del d["query"][0]
        else:
            d["query"].append(["extra" + case["other"], "1"])
    elif vary == "user" and c["user"]:
        d["user"] = c["user"] + "x"
    if n % 4 == 0:
        # upper and lower case differ
        if vary in ("host", "path", "archive") and c[vary]:
            d[vary] = c[vary].swapcase()
            if c["scheme"] == "file" and d["path"][1:2] == ":":
                d["path"] = c["path"]
        elif vary == "query" and c["query"]:
            d["query"] = [list(x) for x in c["query"]]
            k, v0 = d["query"][n % len(d["query"])]
            d["query"][n % len(d["query"])] = [k, v0.swapcase()]
        if not same(c, d):
            ctx.count("case_differs")
    if n % 5 == 0:
        d["query"].reverse()
    o = URI(build(d, case["how"]))
    want = same(c, d)
    for a, b in ((u, o), (o, u), (v, o)):
        e, ne = a == b, a != b
        if e is not want or ne is want:
            raise Violation("%r == %r is %r, != is %r" % (str(a), str(b), e, ne))
    ctx.count("equal_pairs" if want else "different_pairs")
    if not want:
        ctx.count("diff:" + vary)
    for x in (None, text, str(u), 5, object(), (), u.path):
        if u == x or not (u != x):
            raise Violation("%r is equal to %r" % (str(u), x))
    if case["later"] and c["scheme"] != "file":
        u.query[case["other"]] = case["other"]
        c2 = dict(c, query=[x for x in c["query"] if x[0] != case["other"]] + [[case["other"], case["other"]]])
        check(u, c2, "query set on %r" % text)
        check(URI(str(u)), c2, "URI(%r)" % str(u))
        ctx.count("query_set_later")
    ctx.sig(c["scheme"], tuple(k for k in ("user", "pw", "host", "port", "archive") if c[k]), len(c["query"]), vary,
            case["how"], tuple(ch in c["path"] for ch in "#%+&=@:("), c["path"].endswith("/"), c["path"].count("/"),
            tuple(any(ch in k + v for k, v in c["query"]) for ch in " +&=%#?/\u00e4"))
