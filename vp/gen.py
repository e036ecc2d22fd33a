"""
Random generators for names, contents and trees.
"""
import ast
import json
import os
import re

PLAIN = ["a", "b", "c", "d", "foo", "bar", "tmp", "x1"]
HOSTILE = [
    ".hidden", "..x", "...", "a b", " lead", "trail ", "\ttab", "new\nline", "hash#", "#hash", "a#b", "a##",
    "per%20cent", "%2F", "%", "plus+plus", "a=b", "a&b", "semi;colon", "((x))", "a((b))c", "((", "))",
    "\u00e4\u00f6\u00fc", "\u65e5\u672c", "e\u0301", "\U0001f600", "'quote'", '"dq"', "$HOME", "~", "~root",
    "*", "[ab]", "!x", "-rf", "--", "@at", "user@host", "a,b", "{b}", "|pipe", "<lt>", "file", "memory", "zip",
    "__inner_part__", "name.txt", "name.tar.gz", ".txt", "noext.", "x" * 60, "None", "0", "True", "ab:c",
    "index.html", "CON", "nul", "con.txt", "\x7f", "\x01", "\u2028", "\u00a0",
]
# only where a name is joined, not part of an uri string
LITERAL = ["what?", "?", "k?a=b", "back\\slash", "\\", "a\\b", "http:", "q?x=1&y=2"]

SIZES = [0, 1, 2, 3, 7, 100, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385,
         65535, 65536, 65537]

CHUNK = "".join(chr(c) for c in range(32, 127)) + "\n\t\u00e4\u00df\u20ac\u65e5\U0001f600\u0301"


def mine(ctx, repo):
    """
    constants that the code under test mentions: boundaries are most likely
    there, and those that were not there when constants.json was written
    deserve special attention (this decides what is tried, never what is
    expected)
    """
    ints, strings, parts = constants(repo)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")) as f:
        known = json.load(f)
    ctx.mined_ints = sorted(x for x in ints if x <= 300000)
    ctx.mined_strings = sorted(strings)
    ctx.new_ints = sorted(ints - set(known["ints"]))
    ctx.new_strings = sorted(parts - set(known["strings"]))


def constants(repo):
    ints, strings, parts = set(), set(), set()
    base = os.path.join(repo, "abl", "vpath", "base")
    for root, dirs, files in os.walk(base):
        for f in sorted(files):
            if not f.endswith(".py") or f == "_version.py":
                continue
            try:
                with open(os.path.join(root, f)) as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, ValueError):
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, int) and not isinstance(v, bool) and 1 < v <= 4000000:
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 30 and good_name(v):
                        strings.add(v)
                    if isinstance(v, str) and len(v) <= 60:
                        parts.update(x for x in re.split(r"[/?\\\0\s]|://", v) if good_name(x) and len(x) <= 30)
                    elif isinstance(v, bytes) and 0 < len(v) <= 30:
                        try:
                            if good_name(v.decode()):
                                strings.add(v.decode())
                        except UnicodeDecodeError:
                            pass
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Pow, ast.LShift)):
                    v = folded(n)
                    if v is not None and 1 < v <= 4000000:
                        ints.add(v)
    return ints, strings, parts | strings


def folded(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, int) and 0 <= n.value < 1 << 20:
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = folded(n.left), folded(n.right)
        if a is None or b is None:
            return None
        if isinstance(n.op, ast.Mult):
            return a * b
        if b <= 64 and isinstance(n.op, ast.Pow):
            return a ** b
        if b <= 64 and isinstance(n.op, ast.LShift):
            return a << b
    return None


def good_name(s):
    "a name that can be used in an uri string as well"
    if not s or s in (".", "..") or len(s.encode("utf-8", "surrogatepass")) > 200:
        return False
    if any(c in s for c in "/\0\\?") or "://" in s:
        return False
    return True


def name(rng, ctx, literal=True, plain=0.35):
    if ctx.new_strings and rng.random() < 0.2:
        x = rng.choice(ctx.new_strings)
        r = rng.random()
        return x if r < 0.6 else rng.choice(PLAIN) + x if r < 0.8 else x + rng.choice(PLAIN) if r < 0.9 else x.swapcase()
    r = rng.random()
    if r < plain:
        return rng.choice(PLAIN)
    if r < 0.75:
        return rng.choice(HOSTILE)
    if r < 0.82 and literal:
        return rng.choice(LITERAL)
    if r < 0.90 and ctx.mined_strings:
        return rng.choice(ctx.mined_strings)
    alphabet = "abcAB01._-~ #%+=&;:@!$'()*,[]{}|<>\"^`\u00e4\u20ac\u65e5" + ("?\\" if literal else "")
    while True:
        s = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 8)))
        if literal:
            if s not in (".", ".."):
                return s
        elif good_name(s):
            return s


def names(rng, ctx, n, literal=True, plain=0.35):
    "n different names"
    res = []
    while len(res) < n:
        x = name(rng, ctx, literal, plain)
        if x not in res:
            res.append(x)
    return res


PORTS = [1, 20, 21, 22, 23, 25, 80, 443, 990, 2049, 3128, 8000, 8080, 65534, 65535]


def port(rng):
    return rng.choice(PORTS) if rng.random() < 0.4 else rng.randint(1, 65535)


def size(rng, ctx, big=True):
    if ctx.new_ints and rng.random() < 0.15:
        s = rng.choice(ctx.new_ints)
        if s < 70000 or rng.random() < (0.2 if s <= 300000 else 0.02):
            return max(0, s + rng.choice([-1, 0, 0, 1, 2]))
    r = rng.random()
    if r < 0.45:
        return rng.randint(0, 40)
    if r < 0.8 or not ctx.mined_ints:
        s = rng.choice(SIZES)
    else:
        s = rng.choice(ctx.mined_ints) + rng.choice([-1, 0, 0, 1])
    if not big:
        s = min(s, 9000)
    return max(0, min(s, 200000))


def content(rng, ctx, big=True):
    "bytes; never ambiguous: each one is different"
    n = size(rng, ctx, big)
    tag = ("%x:" % rng.getrandbits(40)).encode()
    r = rng.random()
    if r < 0.3:
        body = bytes(rng.getrandbits(8) for _ in range(min(n, 64)))
    elif r < 0.5:
        body = b"".join(rng.choice([b"\n", b"x", b"\r\n", b"\0", b"line\n", b"\xff"]) for _ in range(min(n, 64)))
    else:
        body = rng.choice([b"payload ", b"0123456789abcdef", b"\n\n", b"PK\x03\x04"])
    if n == 0:
        return b""
    data = tag + body
    if len(data) < n:
        data = data + (body or b"z") * ((n - len(data)) // len(body or b"z") + 1)
    return data[:n]


def text(rng, ctx, n):
    "n characters without carriage returns"
    if n == 0:
        return ""
    unit = "".join(rng.choice(CHUNK) for _ in range(min(n, 40)))
    return (unit * (n // len(unit) + 1))[:n]


def tree(rng, ctx, n, links=True, exe=True, big=0.15, empty_dirs=True, literal=True, pool=None, depth=4):
    """
    random tree as {path: value}, see model.Tree.snapshot
    """
    pool = pool or names(rng, ctx, rng.randint(3, 6), literal=literal, plain=0.45)
    res = {}
    dirs = [()]
    if ctx.new_ints and rng.random() < 0.05:
        k = rng.choice(ctx.new_ints)
        if k <= 24 and rng.random() < 0.5:
            for i in range(1, k + 2):
                res[(pool[0],) * i] = ("d",)
                dirs.append((pool[0],) * i)
            depth = k + 3
        elif k <= 300:
            for i in range(k + rng.choice([-1, 0, 1])):
                res[("entry%d" % i,)] = ("f", content(rng, ctx, False), 0)
    for _ in range(n):
        d = rng.choice(dirs)
        p = d + (rng.choice(pool),)
        if p in res or len(p) > depth:
            continue
        r = rng.random()
        if r < 0.35:
            res[p] = ("d",)
            dirs.append(p)
        elif r < 0.85 or not links:
            res[p] = ("f", content(rng, ctx, rng.random() < big),
                      rng.choice([0, 0, 0o100, 0o111, 0o010]) if exe else 0)
        else:
            res[p] = ("l", None)
    for p in list(res):
        if res[p] == ("l", None):
            r = rng.random()
            if r < 0.8:
                t = rng.choice(list(res))
            elif r < 0.9:
                t = rng.choice(dirs) + (rng.choice(pool),)
            else:
                t = p
            res[p] = ("l", t)
    if not empty_dirs:
        for p in sorted(res, reverse=True):
            if res[p] == ("d",) and not any(q[:len(p)] == p and q != p for q in res):
                del res[p]
    return res


def tree_list(t):
    "for json"
    return [[list(p)] + [list(x) if isinstance(x, tuple) else x for x in v] for p, v in sorted(t.items())]


def tree_dict(l):
    res = {}
    for x in l:
        v = tuple(x[1:])
        if v[0] == "l":
            v = ("l", tuple(v[1]))
        res[tuple(x[0])] = v
    # dropping entries must leave a tree behind
    for p in sorted(res):
        if len(p) > 1 and res.get(p[:-1], ("",))[0] != "d":
            del res[p]
    return res
