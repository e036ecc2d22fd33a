"""RFC 3986: split, unsplit, authority, reference resolution"""
from vp import gen as G
from vp.core import Violation

TECHNIQUE = "runtime monitoring: differential oracle, an independent transcription of RFC 3986 section 5"
LEVEL = "exploration"
NOTE = ("References are built from known components; splitting, recombination and resolution are compared with the "
        "components and with a literal transcription of the algorithms of RFC 3986. Exploration; empty queries and fragments may "
        "be dropped, empty authorities are not driven.")
CASES = dict(quick=360000, thorough=6000000)
RULE = ("Random components over the RFC alphabet, dot segments at all positions, base/reference pairs of all shapes. Distinct: "
        "(shape of base, shape of reference, position of dot segments).")
REQUIRED = ["split", "authority", "join", "ref:query", "ref:fragment", "ref:authority", "ref:abs", "ref:rel", "ref:empty",
            "ref:scheme", "parser", "ip_literal", "mailto", "own_parsers", "empty_parts"]
SHRINK = ("bsegs", "rsegs")

UNRES = "abcXYZ019-._~"
SUB = "!$&'()*+,;="


def text(rng, extra, lo=1, hi=5):
    res = ""
    for _ in range(rng.randint(lo, hi)):
        if rng.random() < 0.07:
            res += rng.choice(["%20", "%2F", "%C3%A4"])
        else:
            res += rng.choice(UNRES * 2 + extra)
    return res


def segment(rng):
    r = rng.random()
    if r < 0.28:
        return rng.choice(["..", ".", "..", "."])
    if r < 0.36:
        return ""
    if r < 0.45:
        return rng.choice(["...", ".a", "a.", "..a", "a..", ". .".replace(" ", "")])
    return text(rng, SUB + ":@", 1, 4)


def segs(rng, n):
    return [segment(rng) for _ in range(rng.randint(0, n))]


def authority(rng):
    if rng.random() < 0.1:
        host = rng.choice(["[::1]", "[2001:db8::7]", "[v7.a:b]"])
    else:
        host = text(rng, "!$&'*+,;=", 1, 6)
        if host == ".":
            host = "h"
    user = text(rng, "!$&'*+,;=") if rng.random() < 0.35 else None
    pw = text(rng, "!$&'*+,;=:") if user and rng.random() < 0.5 else None
    port = str(G.port(rng)) if rng.random() < 0.3 else None
    return [user, pw, host, port]


def gen(rng, i, ctx):
    kind = rng.choice(["empty", "query", "fragment", "rel", "rel", "rel", "rel", "abs", "abs", "authority", "scheme"])
    r = dict(kind=kind, auth=None, query=None, frag=None, scheme=None)
    if kind in ("query", "rel", "abs", "authority") and (kind == "query" or rng.random() < 0.4):
        r["query"] = text(rng, SUB + ":@/?")
    if kind == "fragment" or (kind != "empty" and rng.random() < 0.3):
        r["frag"] = text(rng, SUB + ":@/?")
    if rng.random() < 0.06 and kind != "empty":
        r[rng.choice(["query", "frag"])] = ""
    if kind == "authority":
        r["auth"] = authority(rng)
        if rng.random() < 0.3:
            r["scheme"] = "same"
    if kind == "scheme":
        r["other"] = rng.choice(["mailto:a@b", "ftp://h/x/y", "g:h", "urn:isbn:1"])
    return dict(scheme=rng.choice(["http", "https"]), bauth=authority(rng), bsegs=segs(rng, 6),
                bpath=rng.random() < 0.9, bquery=text(rng, SUB + ":@/?", 0 if rng.random() < 0.1 else 1) if rng.random() < 0.3 else None,
                bfrag=text(rng, SUB) if rng.random() < 0.2 else None, ref=r, rsegs=segs(rng, 6),
                pscheme=rng.choice(["http", "https", "ftp", "imap", "imaps", "tftp", "telnet", "foo", "file", "shttp"]))


def auth_text(a):
    user, pw, host, port = a
    res = ""
    if user is not None:
        res += user + (":" + pw if pw is not None else "") + "@"
    return res + host + (":" + port if port is not None else "")


# -- RFC 3986, 5.2.2 - 5.3 ----------------------------------------------------

def remove_dots(inp):
    out = ""
    while inp:
        if inp.startswith("../"):
            inp = inp[3:]
        elif inp.startswith("./"):
            inp = inp[2:]
        elif inp.startswith("/./"):
            inp = inp[2:]
        elif inp == "/.":
            inp = "/"
        elif inp.startswith("/../"):
            inp = inp[3:]
            out = out[:out.rfind("/")] if "/" in out else ""
        elif inp == "/..":
            inp = "/"
            out = out[:out.rfind("/")] if "/" in out else ""
        elif inp in (".", ".."):
            inp = ""
        else:
            k = inp.find("/", 1)
            if k < 0:
                k = len(inp)
            out += inp[:k]
            inp = inp[k:]
    return out


def recompose(scheme, auth, path, query, frag):
    res = ""
    if scheme is not None:
        res += scheme + ":"
    if auth is not None:
        res += "//" + auth
    res += path
    if query is not None:
        res += "?" + query
    if frag is not None:
        res += "#" + frag
    return res


def without_empty(comps):
    "empty queries and fragments may be dropped"
    return recompose(*(tuple(comps[:3]) + (comps[3] or None, comps[4] or None)))


def resolve(base, ref):
    bs, ba, bp, bq, bf = base
    rs, ra, rp, rq, rf = ref
    if rs is not None:
        return rs, ra, remove_dots(rp), rq, rf
    if ra is not None:
        return bs, ra, remove_dots(rp), rq, rf
    if rp == "":
        return bs, ba, bp, rq if rq is not None else bq, rf
    if rp.startswith("/"):
        return bs, ba, remove_dots(rp), rq, rf
    if ba is not None and bp == "":
        merged = "/" + rp
    else:
        merged = bp[:bp.rfind("/") + 1] + rp
    return bs, ba, remove_dots(merged), rq, rf


# -----------------------------------------------------------------------------

def check_split(ctx, comps):
    from abl.vpath.base.uriparse import urisplit, uriunsplit
    t = recompose(*comps)
    got = tuple(urisplit(t))
    want = tuple(comps)
    if got != want:
        raise Violation("urisplit(%r) is %r instead of %r" % (t, got, want))
    back = uriunsplit(got)
    if "" in comps[3:]:
        ctx.count("empty_parts")
    if back not in (t, without_empty(comps)):
        raise Violation("uriunsplit(urisplit(%r)) is %r" % (t, back))
    ctx.count("split")
    return t


def check_authority(ctx, a):
    from abl.vpath.base.uriparse import join_authority, split_authority
    t = auth_text(a)
    got = split_authority(t)
    if list(got) != a:
        raise Violation("split_authority(%r) is %r" % (t, got))
    if join_authority(got) != t:
        raise Violation("join_authority(%r) is %r" % (got, join_authority(got)))
    ctx.count("authority")
    if a[2].startswith("["):
        ctx.count("ip_literal")


# user, password, host, port, path, query, fragment
DEFAULT = (None, None, None, None, "/", None, None)
SCHEMES = {
    "http": (None, None, None, "80", "/", None, None), "https": (None, None, None, "443", "/", None, None),
    "imap": (None, None, "localhost", "143", "/", None, None), "imaps": (None, None, "localhost", "993", "/", None, None),
    "ftp": ("anonymous", "anonymous", None, "21", "/", None, None), "tftp": (None, None, None, "69", "/", None, None),
    "telnet": (None, None, None, "23", "/", None, None),
}


def same(pieces):
    "(missing may be None or '')"
    return [x or None for x in pieces]


def mailto(ctx, case, p):
    user, host = (case["bauth"][0] or "someone").replace(":", ""), case["bauth"][2]
    if not user or host.startswith("[") or "@" in user:
        return
    t = "mailto:%s@%s" % (user, host) + ("?" + case["bquery"] if case["bquery"] else "")
    got = p.parse(t)
    want = ("mailto", user, host, case["bquery"], None)
    if len(got) != 5 or same(got) != same(want):
        raise Violation("URIParser().parse(%r) is %r instead of %r" % (t, got, want))
    if p.unparse(got) != t:
        raise Violation("%r is parsed to %r, which is put together to %r" % (t, got, p.unparse(got)))
    ctx.count("mailto")


def registered(ctx, s, t):
    "parsers of one's own"
    from abl.vpath.base.uriparse import URIParser, URLParser

    class Own(URLParser):
        _defaults = ("me", "secret", "here", 7, "/mine", "q", "f")

        def unparse(self, pieces):
            return "//own"
    for p, others in ((URIParser(extra={s: Own}), True), (URIParser({s: Own}), False), (URIParser(schemes={}, extra={s: Own}), False)):
        if not isinstance(p.parser_for(t)(), Own) or p.parse(s + ":")[1:] != ("me", "secret", "here", "7", "/mine", "q", "f"):
            raise Violation("a parser registered for %r isn't used" % s)
        if p.unparse((s, "x")) != s + "://own":
            raise Violation("a parser registered for %r isn't used for unparse" % s)
        for x, port in (("http", "80"), ("telnet", "23"), ("imaps", "993")):
            if x != s and p.parse(x + "://h/")[4] != (port if others else None):
                raise Violation("parsing %r with %s parser for %r leads to %r" % (
                    x + "://h/", "an additional" if others else "only a", s, p.parse(x + "://h/")))
    if isinstance(URIParser().parser_for(t)(), Own):
        raise Violation("a parser registered for one URIParser is used by others")
    ctx.count("own_parsers")


def shape(path):
    return tuple(s if s in ("", ".", "..") else "n" for s in path.split("/"))


def run(case, ctx):
    from abl.vpath.base.uriparse import URIParser, urljoin
    bpath = "/" + "/".join(case["bsegs"]) if case["bpath"] else ""
    base = (case["scheme"], auth_text(case["bauth"]), bpath, case["bquery"], case["bfrag"])
    btext = check_split(ctx, base)
    check_authority(ctx, case["bauth"])
    r = case["ref"]
    kind = r["kind"]
    rp = "/".join(case["rsegs"])
    auth = scheme = None
    if kind in ("empty", "query", "fragment"):
        rp = ""
    elif kind == "rel":
        rp = rp.lstrip("/")
        if ":" in rp.split("/")[0] or rp == "":
            rp = "./" + rp
    elif kind == "abs":
        rp = "/" + rp.lstrip("/")
    elif kind == "authority":
        auth = auth_text(r["auth"])
        check_authority(ctx, r["auth"])
        rp = "/" + rp if rp else ""
        if r["scheme"]:
            scheme = case["scheme"]
    if kind == "scheme":
        ref = r["other"]
        want = also = ref
    else:
        comps = (scheme, auth, rp, r["query"], r["frag"])
        ref = check_split(ctx, comps)
        target = resolve(base, comps)
        want, also = recompose(*target), without_empty(target)
    got = urljoin(btext, ref)
    if got not in (want, also):
        raise Violation("urljoin(%r, %r) is %r instead of %r" % (btext, ref, got, want))
    ctx.count("join")
    ctx.count("ref:" + kind)
    # schemes with their own parsers
    s = case["pscheme"]
    frag = case["bfrag"] if s in ("http", "https") else None
    t = recompose(s, auth_text(case["bauth"]), bpath, case["bquery"], frag)
    p = URIParser()
    pieces = p.parse(t)
    exp = [s] + case["bauth"] + [bpath or None, case["bquery"], frag]
    known = SCHEMES.get(s, DEFAULT)
    want = tuple(b if a is None else a for a, b in zip(exp[1:], known))
    if len(pieces) != 8 or p.scheme_of(t) != s or pieces[0] != s or same(pieces[1:]) != same(want):
        raise Violation("URIParser().parse(%r) is %r instead of %r" % (t, pieces, (s,) + want))
    short = recompose(s, None, bpath or "/", case["bquery"], frag)
    want = known[:4] + (bpath or "/", case["bquery"], frag)
    if not short[len(s) + 1:].startswith("//") and same(p.parse(short)[1:]) != same(want):
        raise Violation("URIParser().parse(%r) is %r instead of %r" % (short, p.parse(short), (s,) + want))
    mailto(ctx, case, p)
    for x in (t, short, btext):
        if p.scheme_of(x) + ":" + p.info_of(x) != x or p.scheme_of(x) not in (s, case["scheme"]):
            raise Violation("scheme_of and info_of of %r are %r and %r" % (x, p.scheme_of(x), p.info_of(x)))
    registered(ctx, s, t)
    again = p.unparse(pieces)
    norm = [x or None for x in pieces]
    if [x or None for x in p.parse(again)] != norm:
        raise Violation("%r is parsed to %r, which is put together to %r" % (t, pieces, again))
    defaults = ("du", "dp", "dh", "1", "/dpath", "dq", "df")
    full = p.parse(t, defaults)
    for a, b, d in zip(exp[1:], full[1:], defaults):
        w = d if a is None else a
        if b != w and not (d == "df" and s not in ("http", "https")):
            raise Violation("URIParser().parse(%r, %r) is %r" % (t, defaults, full))
    ctx.count("parser")
    ctx.sig(shape(bpath), kind, shape(rp), r["query"] is None, r["frag"] is None, case["bquery"] is None)
