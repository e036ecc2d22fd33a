"""operations reach the registered backend, unchanged"""
import inspect
import json
import os
import subprocess
import sys
import time

from vp import back, gen as G, guard
from vp.core import Violation

TECHNIQUE = ("runtime monitoring: recording backends behind every operation, log of connections and calls compared with what the caller "
             "asked for; plug-ins observed in fresh interpreters")
LEVEL = "exploration"
NOTE = ("Backends that record every call are registered under several schemes; random calls with random positional and keyword arguments "
        "on random URIs (changed between the calls) must arrive once, on the right connection, with the same arguments, and results and "
        "exceptions must come back. Entry points are installed in scratch directories and observed in fresh interpreters.")
CASES = dict(quick=12000, thorough=250000)
RULE = ("Random sequences of calls of all delegated operations on 1-3 URIs of 2 schemes, changes of query, credentials, scheme and forced "
        "cleanups in between; random sets of good and broken entry points. Distinct: (operation, given arguments, result or exception, "
        "change before the call), sets of entry points.")
# operation -> parameters with the documented defaults
NONE = "<required>"
EXEC = 0o111
OPS = {
    "copy": [("other", NONE), ("recursive", False), ("ignore", None), ("followlinks", True)],
    "copystat": [("other", NONE)],
    "move": [("other", NONE)],
    "open": [("options", None), ("mimetype", "application/octet-stream")],
    "makedirs": [],
    "mkdir": [],
    "exists": [],
    "isfile": [],
    "isdir": [],
    "isexec": [("mode", EXEC)],
    "set_exec": [("mode", NONE)],
    "islink": [],
    "readlink": [],
    "symlink": [("link_name", NONE)],
    "mtime": [],
    "walk": [("topdown", True), ("followlinks", True)],
    "listdir": [],
    "info": [("set_info", None), ("followlinks", True)],
    "sync": [("other", NONE), ("options", "")],
    "glob": [("pattern", NONE)],
    "lock": [("fail_on_lock", False), ("cleanup", False)],
    "switch": [("branch", NONE)],
    "update": [("recursive", True), ("clean", False)],
    "log": [("limit", 0)],
    "log_by_time": [("start_time", None), ("stop_time", None)],
}
# how a backend implements them (the names of its parameters, as in the base class)
BACKEND = {
    "copy": "source dest recursive=False ignore=None followlinks=True", "copystat": "path other", "move": "source destination",
    "open": "path options mimetype", "isexec": "path mode", "set_exec": "path mode", "symlink": "target link_name",
    "walk": "top topdown=True followlinks=True", "info": "path set_info=None followlinks=True", "sync": "source dest options",
    "glob": "path pattern", "lock": "path fail_on_lock cleanup", "switch": "path branch", "update": "path recursive=False clean=False",
    "log": "path limit=0", "log_by_time": "path start_time=None stop_time=None",
}
REVISION = ("switch", "update", "log", "log_by_time")
REQUIRED = ["calls", "results", "raised", "error:FileNotFoundError", "error:ConnectionResetError", "error:KeyboardInterrupt", "derived", "change:query", "change:scheme", "change:user", "change:cleanup", "change:base",
            "entry_points", "broken_entry_points", "extra_keywords", "not_revisioned"] + ["op:" + x for x in sorted(OPS)]
SHRINK = ("calls",)

QUERIES = ("exists", "isfile", "isdir", "islink", "supports_symlinks")


class Refused(Exception):
    pass


ERRORS = [Refused, Refused, FileNotFoundError, ConnectionResetError, TimeoutError, BrokenPipeError, PermissionError, FileExistsError,
          KeyError, AttributeError, TypeError, ValueError, AssertionError, NotImplementedError, RuntimeError, StopIteration,
          UnicodeError, MemoryError, KeyboardInterrupt, SystemExit, GeneratorExit, "FileDoesNotExistError",
          "OperationIsNotSupportedOnPlatform", "NoSchemeError", "PathError"]


def signature(op):
    P = inspect.Parameter
    res = []
    for x in BACKEND.get(op, "path").split():
        name, eq, default = x.partition("=")
        res.append(P(name, P.POSITIONAL_OR_KEYWORD, default=dict(True_=True, False_=False, None_=None).get(default + "_", 0)
                     if eq else P.empty))
    return inspect.Signature(res)


class World(object):
    log = []
    answer = None
    connections = []


def method(name):
    def recorded(self, *args, **kw):
        World.log.append((self, name, args, kw))
        if name in World.answer:
            kind, value = World.answer[name]
            if kind == "raise":
                raise value
            return value
        return False
    recorded.__name__ = name
    return recorded


def setup(ctx):
    from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY, BaseUri, FileSystem, RevisionedFileSystem, RevisionedUri

    class RecUri(BaseUri):
        def shout(self):
            return str(self).upper()

    class RevUri(RevisionedUri):
        def shout(self):
            return str(self).upper()

    for name, base, uri in (("rec", FileSystem, RecUri), ("rec-two", FileSystem, RecUri), ("rev", RevisionedFileSystem, RevUri),
                            ("rev-two", RevisionedFileSystem, RevUri)):
        body = {k: method(k) for k in OPS if k not in REVISION or base is RevisionedFileSystem}
        body["supports_symlinks"] = lambda self: True

        def initialize(self):
            self.closed = 0
            World.connections.append(self)

        def close(self):
            self.closed += 1
        body.update(_initialize=initialize, close=close, scheme=name, uri=uri)
        cls = type("Recorder", (base,), body)
        CONNECTION_REGISTRY.register(name, cls)
        SCHEME_REGISTRY[name] = uri
    World.uris = {"rec": RecUri, "rec-two": RecUri, "rev": RevUri, "rev-two": RevUri}


def gen(rng, i, ctx):
    if rng.random() < (0.006 if ctx.tier == "quick" else 0.002):
        return dict(what="plugins", calls=[], points=[[rng.choice(["good", "good", "missing_module", "missing_class", "raises", "syntax",
                                                                   "import_error", "good_revisioned"]), rng.random() < 0.3]
                                                      for _ in range(rng.randint(1, 5))], seed=rng.getrandbits(30))
    bases = []
    for _ in range(rng.randint(1, 3)):
        bases.append(dict(scheme=rng.choice(["rec", "rec", "rec-two", "rev", "rev", "rev-two"]),
                          user=rng.choice([None, None, "user", "me"]), password=rng.choice([None, "secret"]),
                          host=rng.choice(["host", "host", "h2", "localhost"]), port=rng.choice([None, None, G.port(rng)]),
                          path=[G.name(rng, ctx, literal=False) for _ in range(rng.randint(0, 3))],
                          query=[["k%d" % j, G.name(rng, ctx, literal=False).strip() or "v"] for j in range(rng.choice([0, 0, 1, 2]))],
                          extras=[["e%d" % j, rng.randint(0, 9)] for j in range(rng.choice([0, 0, 1]))],
                          askw=rng.random() < 0.4))
    calls = []
    for _ in range(rng.randint(1, 7)):
        b = rng.randrange(len(bases))
        names = [x for x in OPS if x not in REVISION or bases[b]["scheme"].startswith("rev") or rng.random() < 0.05]
        op = rng.choice(names if rng.random() < 0.7 or not bases[b]["scheme"].startswith("rev") else REVISION)
        params = OPS[op]
        n = sum(1 for x in params if x[1] == NONE)
        given = []
        for j, (pname, default) in enumerate(params):
            if j >= n and rng.random() < 0.4:
                continue
            given.append([j, value(rng, ctx, op, pname, bases), rng.random() < 0.5])
        # positional arguments come first, without gaps
        kw = False
        for j, g in enumerate(given):
            if g[0] != j or kw:
                kw = True
            kw = kw or g[2]
            g[2] = kw
        extra = [["x%d" % j, rng.randint(0, 9)] for j in range(rng.randint(1, 2))] if op == "log" and rng.random() < 0.3 else []
        calls.append([b, [G.name(rng, ctx, literal=False) for _ in range(rng.choice([0, 0, 1, 2]))], op, given, extra,
                      rng.choice(["return", "return", "raise"]),
                      rng.choice([None, None, None, "query", "scheme", "user", "cleanup", "base"]), rng.randint(0, 999)])
    return dict(what="calls", bases=bases, calls=calls)


def value(rng, ctx, op, pname, bases):
    if pname in ("other", "link_name"):
        return ["uri", rng.randrange(len(bases)), [G.name(rng, ctx, literal=False)]]
    if pname in ("recursive", "followlinks", "topdown", "fail_on_lock", "cleanup", "clean"):
        return rng.random() < 0.5
    if pname == "mode":
        return rng.choice([0, 0o100, 0o010, 0o001, 0o111, 0o110])
    if pname == "ignore":
        return [G.name(rng, ctx) for _ in range(rng.randint(0, 2))]
    if pname == "set_info":
        return ["info", rng.randint(0, 0o777)]
    if pname == "pattern":
        return rng.choice(["*", "*.txt", "?", "[a-c]*", G.name(rng, ctx)])
    if pname == "limit":
        return rng.choice([0, 1, 2, 3, 10, 100, None, rng.randint(0, 1000)])
    if pname in ("start_time", "stop_time"):
        return rng.choice([0, 1.5, 1000000000, rng.random() * 1e9])
    if pname == "options" and op == "open":
        return rng.choice(["r", "rb", "w", "wb", "a", "r+b"])
    return G.name(rng, ctx, literal=False)


class Base(object):
    "an URI together with what is expected of it"
    def __init__(self, d):
        from abl.vpath.base import URI
        self.scheme, self.host, self.port = d["scheme"], d["host"], d["port"]
        self.cls = d["scheme"]
        self.user, self.password = d["user"], d["password"] if d["user"] else None
        self.query = dict((k, v) for k, v in d["query"])
        self.extras = dict((k, v) for k, v in d["extras"])
        text = self.scheme + "://"
        kw = dict(self.extras)
        if self.user is not None:
            if d["askw"]:
                kw["username"] = self.user
                if self.password is not None:
                    kw["password"] = self.password
            else:
                text += self.user + (":" + self.password if self.password else "") + "@"
        text += self.host + (":%d" % self.port if self.port else "") + "/"
        u = URI(text, **kw)
        if self.query:
            u.query.update(self.query)
        for n in d["path"]:
            u = u / n
        self.u = u

    def key(self):
        ex = dict(self.extras)
        ex.update(self.query)
        return (self.scheme, self.host, self.port, self.user, self.password, None, ex)


def key_of(c):
    "(nothing given is '', 0 or None)"
    return (c.scheme, c.hostname or None, int(c.port) if c.port else None, c.username or None, c.password or None,
            c.vpath_connector or None, dict(c.extras))


def run(case, ctx):
    if case["what"] == "plugins":
        return plugins(case, ctx)
    from abl.vpath.base.fs import CONNECTION_REGISTRY
    back.reset_registry()
    World.connections = []
    World.log = []
    World.answer = {}
    bases = [Base(d) for d in case["bases"]]
    for b, path, op, given, extra, how, change, seed in case["calls"]:
        if b >= len(bases):
            continue
        base = bases[b]
        alter(ctx, case, bases, base, change, seed, CONNECTION_REGISTRY)
        u = base.u
        for n in path:
            u = u / n
            ctx.count("derived")
        if type(u) is not World.uris[base.cls] or u.shout() != str(u).upper():
            raise Violation("an URI of the scheme %s is an object of %s" % (base.cls, type(u)))
        if op in REVISION and base.scheme[:3] != base.cls[:3] or op in REVISION and not base.cls.startswith("rev"):
            not_revisioned(ctx, base, u, op)
            continue
        call(ctx, bases, base, u, op, given, extra, how, seed, change)


def alter(ctx, case, bases, base, change, seed, registry):
    if change == "query":
        base.query["k0"] = base.u.query["k0"] = "changed %d" % seed
    elif change == "scheme":
        base.scheme = base.u.scheme = dict(rec="rec-two", rev="rev-two").get(base.scheme, base.scheme[:3])
    elif change == "user":
        base.user = base.u.username = "u%d" % seed
        if seed % 2:
            base.password = base.u.password = "p%d" % seed
    elif change == "cleanup":
        registry.cleanup(force=True)
    elif change == "base":
        from abl.vpath.base import URI
        base.u = URI(base.u)
    else:
        return
    ctx.count("change:" + change)


def not_revisioned(ctx, base, u, op):
    if isinstance(u, World.uris["rev"]):
        return
    try:
        f = getattr(u, op)
    except AttributeError:
        pass
    else:
        raise Violation("%s of an URI without revisions is %r" % (op, f))
    ctx.count("not_revisioned")


def call(ctx, bases, base, u, op, given, extra, how, seed, change):
    params = OPS[op]
    expected = [d for _, d in params]
    args, kw = [], {}
    target = base
    for j, v, askw in given:
        if j >= len(params):
            continue
        if isinstance(v, list) and v and v[0] == "uri":
            other = bases[v[1] % len(bases)]
            v = other.u
            for n in given[0][1][2]:
                v = v / n
            if op == "symlink":
                if other.scheme != base.scheme:
                    from abl.vpath.base.exceptions import OperationIsNotSupportedOnPlatform
                    World.log, World.answer = [], {}
                    try:
                        u.symlink(v)
                    except (OperationIsNotSupportedOnPlatform, NotImplementedError):
                        pass
                    else:
                        raise Violation("a link %s to %s can be made" % (v, u))
                    if any(x[1] == "symlink" for x in World.log):
                        raise Violation("the backend is asked for a link %s to %s" % (v, u))
                    return
                target = other
        elif isinstance(v, list) and v and v[0] == "info":
            v = dict(mode=v[1]) if v[1] % 8 else {}
        expected[j] = v
        if askw:
            kw[params[j][0]] = v
        else:
            args.append(v)
    kw.update((k, v) for k, v in extra)
    if op in ("exists", "isfile", "isdir", "islink", "isexec"):
        value = seed % 2 == 0
    elif op in ("listdir", "glob", "walk"):
        value = [u / ("r%d" % seed), "r%d" % seed][:seed % 3] if op == "glob" else [("r%d" % seed, [], [])] if op == "walk" \
            else ["r%d" % seed, "b", "a"][:seed % 4]
    else:
        value = object()
    error = ERRORS[seed // 5 % len(ERRORS)]
    if isinstance(error, str):
        from abl.vpath.base import exceptions
        error = getattr(exceptions, error)
    error = error(seed % 100, "refused")
    World.log = []
    World.answer = {op: (how, error if how == "raise" else value)}
    before = (str(u), str(base.u))
    t0 = time.time()
    what = "%s.%s(%s)" % (u, op, ", ".join([repr(x) for x in args] + ["%s=%r" % x for x in kw.items()]))
    try:
        got = getattr(u, op)(*args, **kw)
        if op in ("walk", "glob", "listdir"):
            got = list(got)
        got = ("return", got)
    except BaseException as e:
        if e is error:
            ctx.count("error:" + type(e).__name__)
            got = ("raise", e)
        elif isinstance(e, Exception):
            raise Violation("%s raises %s: %s" % (what, type(e).__name__, e))
        else:
            raise
    finally:
        log = World.log
        World.log, World.answer = [], {}
    if how == "raise":
        if got[0] != "raise" or got[1] is not error:
            raise Violation("%s returns %r, although the backend raises %r" % (what, got[1], error))
        ctx.count("raised")
    else:
        same = got[1] == value if isinstance(value, (list, bool)) else got[1] is value
        if got[0] != "return" or not same:
            raise Violation("%s returns %r instead of what the backend returned: %r" % (what, got[1], value))
        ctx.count("results")
    mine = [x for x in log if x[1] == op]
    others = [x[1] for x in log if x[1] != op and x[1] not in QUERIES]
    if len(mine) != 1 or others:
        raise Violation("%s calls %s of the backend" % (what, [x[1] for x in log]))
    conn, _, a, k = mine[0]
    want = target.key()
    if key_of(conn) != want:
        raise Violation("%s is served by the connection %r instead of %r" % (what, key_of(conn), want))
    if conn.closed:
        raise Violation("%s is served by a closed connection" % what)
    live = [c for c in World.connections if not c.closed and key_of(c) == want]
    if len(live) != 1:
        raise Violation("%s: there are %d connections %r" % (what, len(live), want))
    if target is base and conn.last_used < t0 - 0.001:
        raise Violation("%s does not note that the connection is used" % what)
    # what the backend got
    rest = {}
    if op == "log":
        rest = {x: k[x] for x in k if x.startswith("x")}
        k = {x: k[x] for x in k if not x.startswith("x")}
        if rest != dict((x, y) for x, y in extra):
            raise Violation("%s: the backend gets %r" % (what, rest))
        if extra:
            ctx.count("extra_keywords")
    try:
        bound = signature(op).bind(*a, **k)
    except TypeError as e:
        raise Violation("%s: the backend is called with %r, %r: %s" % (what, a, k, e))
    bound.apply_defaults()
    real = list(bound.arguments.values())
    if list(map(plain, real)) != list(map(plain, [u] + expected)):
        raise Violation("%s: the backend gets %r instead of %r" % (what, real, [u] + expected))
    for x, y in zip(real, [u] + expected):
        if hasattr(y, "get_connection"):
            if type(x) is not type(y) or x.get_connection() is not y.get_connection():
                raise Violation("%s: the backend gets another URI %r" % (what, x))
    if (str(u), str(base.u)) != before:
        raise Violation("%s changes the URI to %s" % (what, u))
    ctx.count("calls")
    ctx.count("op:" + op)
    ctx.sig(op, tuple((g[0], g[2]) for g in given), how, change, len(extra))


def plain(x):
    return ("list",) + tuple(x) if isinstance(x, (list, tuple)) else ("bool", x) if isinstance(x, bool) else x


# -- plug-ins -------------------------------------------------------------------

GOOD = """
from abl.vpath.base.fs import %(base)sUri, %(fs)s
class Uri(%(base)sUri):
    pass
class Plugin(%(fs)s):
    scheme = %(scheme)r
    uri = Uri
    def _initialize(self):
        pass
    def exists(self, path):
        return path.path == '/there'
    def %(op)s(self, path, *args, **kw):
        return [self.scheme, self.hostname, path.path]
"""
BROKEN = dict(raises="raise ValueError('broken')\n", syntax="def (:\n", import_error="import there_is_no_such_module\n",
              missing_class="x = 1\n")
PROBE = """
import json, sys
from abl.vpath.base import URI
import abl.vpath.base
res = dict(file=abl.vpath.base.__file__)
for scheme, op in json.loads(sys.argv[1]):
    try:
        u = URI('%s://host/there' % scheme)
        res[scheme] = [type(u).__name__, type(u).__module__, u.exists(), (u / 'x').exists(), getattr(u, op)(), type(u / 'x').__module__]
    except Exception as e:
        res[scheme] = '%s: %s' % (type(e).__name__, e)
u = URI('memory:///a')
u.mkdir()
res['memory'] = u.isdir()
res['local'] = URI('/').isdir()
print('RESULT' + json.dumps(res))
"""


def plugins(case, ctx):
    d = ctx.fresh_dir()
    lines, expected, ops = ["[abl.vpath.plugins]"], {}, []
    # the order of the entry points within a distribution is not up to us: some are in distributions of their own
    dists = {0: lines}
    with guard.trusted():
        for k, (kind, alone) in enumerate(case["points"]):
            mod = "vpplug%d_%d" % (case["seed"], k)
            scheme = "plug%s" % "abcdefgh"[k]
            target = dists.setdefault(k + 1, ["[abl.vpath.plugins]"]) if alone else lines
            target.append("%s = %s:Plugin" % (scheme, mod))
            if kind.startswith("good"):
                rev = kind == "good_revisioned"
                op = "log" if rev else "listdir"
                text = GOOD % dict(base="Revisioned" if rev else "Base", fs="RevisionedFileSystem" if rev else "FileSystem",
                                   scheme=scheme, op=op)
                expected[scheme] = ["Uri", mod, True, False, [scheme, "host", "/there"], mod]
                ops.append([scheme, op])
                ctx.count("entry_points")
            else:
                text = BROKEN.get(kind)
                ops.append([scheme, "listdir"])
                expected[scheme] = None
                ctx.count("broken_entry_points")
            if text is not None:
                with open(os.path.join(d, mod + ".py"), "w") as f:
                    f.write(text)
        for k, text in dists.items():
            info = os.path.join(d, "vpdist%d-1.0.dist-info" % k)
            os.mkdir(info)
            with open(os.path.join(info, "METADATA"), "w") as f:
                f.write("Metadata-Version: 2.1\nName: vpdist%d\nVersion: 1.0\n" % k)
            with open(os.path.join(info, "entry_points.txt"), "w") as f:
                f.write("\n".join(text) + "\n")
        env = dict(os.environ, PYTHONPATH=ctx.spec["repo"] + os.pathsep + d, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", PROBE, json.dumps(ops)], env=env, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
    out = p.stdout.decode("utf-8", "replace")
    what = "entry points %s" % [x[0] for x in case["points"]]
    if "RESULT" not in out:
        raise Violation("%s: the import fails: %s" % (what, p.stderr.decode("utf-8", "replace")[-400:]))
    res = json.loads(out[out.index("RESULT") + 6:].splitlines()[0])
    if not res["memory"] or not res["local"]:
        raise Violation("%s: the built-in schemes don't work: %r" % (what, res))
    for scheme, want in expected.items():
        got = res[scheme]
        if want is None:
            if not isinstance(got, str) or not got.startswith("NoSchemeError"):
                raise Violation("%s: %s gives %r" % (what, scheme, got))
        elif got != want:
            raise Violation("%s: %s gives %r instead of %r" % (what, scheme, got, want))
    ctx.sig("plugins", tuple(sorted(map(tuple, case["points"]))))
