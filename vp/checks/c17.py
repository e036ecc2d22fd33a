"""connection registry, one thread at a time"""
import contextlib
import os
import random
import sys
import time as real_time

from vp import sched
from vp.core import Violation

TECHNIQUE = "runtime monitoring: online monitor over factory, close and request events with a virtual clock"
LEVEL = "exploration"
NOTE = ("Recording backends log every factory call and close on a virtual clock (time and sleep of the library replaced, its "
        "background cleaner runs on it); an online monitor decides identity, parameters, expiry (boundaries included), "
        "exactly-once close and failing closes. Requests without use may or may not count as use.")
CASES = dict(quick=62500, thorough=900000)
RULE = ("Random histories of requests, uses, time steps, cleanups, failing factories and failing closes on an own registry "
        "(with its background cleaner) or the global one (through URIs). Distinct: sequence of outcomes.")
REQUIRED = ["requests", "same", "fresh", "different_params", "opened", "closed", "expired", "forced", "kept_by_use", "close_raises",
            "factory_raises", "no_scheme", "after_close_fresh", "own", "global", "background_closed", "boundary", "shutdown",
            "reregistered", "cleanup_in_use", "given:kwargs", "given:query", "given:text", "http_query"]
SHRINK = ("ops",)


def before_import(ctx):
    sched.import_with_proxies()


def gen(rng, i, ctx):
    glob = rng.random() < 0.45
    pool = []
    for _ in range(rng.randint(2, 6)):
        if pool and rng.random() < 0.6:
            p = dict(rng.choice(pool))
            k = rng.choice(["scheme", "hostname", "port", "username", "password", "vpath_connector", "extras"])
            p[k] = one(rng, k)
        else:
            p = {k: one(rng, k) for k in ("scheme", "hostname", "port", "username", "password", "vpath_connector", "extras")}
        if glob:
            if not p["hostname"]:
                p["port"] = None
                if p["scheme"] == "http":
                    p["scheme"] = "reca"
        pool.append(p)
    timeout = rng.choice([1, 5, 10, 30])
    interval = rng.choice([1, 2, 7, 20, 1000])
    ops = []
    for _ in range(rng.randint(5, 30)):
        k = rng.choices(["get", "use", "advance", "cleanup", "bad", "failing", "reregister"], [10, 6, 8, 6, 1, 1, 1])[0]
        if k in ("get", "use", "failing"):
            ops.append([k, rng.randrange(len(pool)), rng.choice([0] * 30 + [1, 2, 3, 4, 5, 6]), rng.random() < 0.3])
        elif k == "advance":
            ops.append([k, rng.choice([1, 1, timeout - 1 or 1, timeout, timeout, timeout + 1,
                                       timeout + 0.5, timeout - 0.25, 0.5, 2 * timeout + interval % 1000 + 5,
                                       rng.randint(1, 40)])])
        elif k == "cleanup":
            ops.append([k, rng.random() < 0.25])
        elif k == "reregister":
            ops.append([k, rng.choice(["reca", "recb", "http"])])
        else:
            ops.append([k])
    return dict(glob=glob, pool=pool, timeout=timeout, interval=interval, ops=ops)


def one(rng, k):
    if k == "scheme":
        return rng.choice(["reca", "recb", "reca", "recb", "http"])
    if k == "hostname":
        return rng.choice([None, "h1", "h2", "H1"])
    if k == "port":
        return rng.choice([None, None, 21, 22])
    if k in ("username", "password"):
        return rng.choice([None, None, "u", "v", "U"])
    if k == "vpath_connector":
        return rng.choice([None, None, "x", "y", "X"])
    return rng.choice([{}, {}, {"a": "1"}, {"a": "2"}, {"b": "1"}, {"a": "1", "b": "1"}, {"a": "b"}, {"a": 1}, {"A": "1"}, {"a": None},
                       {"a": "None"}, {"a": ""}, {"a": ("1",)}])


FIELDS = ("hostname", "port", "username", "password", "vpath_connector")


class Odd(Exception):
    def __str__(self):
        return "closing fails in an unusual way"


CLOSING = [None, IOError, Odd, KeyError, AssertionError, AttributeError, TypeError]


class FactoryError(Exception):
    pass


@contextlib.contextmanager
def muted():
    "errors of closing are printed by the library"
    saved = sys.stdout, sys.stderr
    with open(os.devnull, "w") as f:
        sys.stdout = sys.stderr = f
        try:
            yield
        finally:
            sys.stdout, sys.stderr = saved


class Log(object):
    def __init__(self, clock, ctx):
        self.clock = clock
        self.ctx = ctx
        self.opened = []        # connections
        self.fail_next = False
        self.raise_on_close = False
        self.forced = False
        self.timeout = None
        self.quiet = False
        self.during = None
        self.generation = {"reca": 0, "recb": 0, "http": 0}

    def make(self, scheme, generation):
        from abl.vpath.base.fs import FileSystem
        log = self

        class Recorder(FileSystem):
            def _initialize(self):
                if log.fail_next:
                    log.fail_next = False
                    raise FactoryError("cannot connect")
                self.scheme = scheme
                self.gen = generation
                self.closed = 0
                self.bad_close = log.raise_on_close
                self.lower = self.upper = log.clock()
                self.closed_at = None
                self.in_background = False
                log.opened.append(self)
                log.ctx.count("opened")

            def exists(self, path):
                self.lower = self.upper = log.clock()
                self.asked = str(path)
                if log.during is not None:
                    # it is in use right now, however long ago it was used before
                    log.during()
                    log.ctx.count("cleanup_in_use")
                return True

            def close(self):
                self.closed += 1
                self.closed_at = log.clock()
                log.ctx.count("closed")
                if self.closed > 1:
                    log.error("a connection is closed %d times" % self.closed)
                if not log.forced and not log.clock() - self.lower > log.timeout:
                    log.error("a connection that was used %r s ago is closed, the timeout is %r s" % (
                        log.clock() - self.lower, log.timeout))
                self.in_background = log.quiet
                if self.bad_close:
                    log.ctx.count("close_raises")
                    raise self.bad_close("closing fails")
        if scheme == "recb":
            # a connection doesn't have to be true
            Recorder.__len__ = lambda self: 0
        return Recorder

    def error(self, what):
        self.errors = getattr(self, "errors", []) + [what]


def run(case, ctx):
    errors = []
    s = sched.Sched(random.Random(1), ctx.spec["repo"] + "/abl/vpath", p=0.0, trace=False,
                    start=float(int(real_time.time()) + 10), max_steps=400000)
    s.spawn(lambda: body(case, ctx, s), "user")
    with muted():
        s.run()
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    if s.failure:
        raise Violation(s.failure)


def body(case, ctx, s):
    from abl.vpath.base import URI
    from abl.vpath.base.exceptions import NoSchemeError
    from abl.vpath.base import fs
    glob = case["glob"]
    ctx.count("global" if glob else "own")
    log = Log(lambda: s.now, ctx)
    log.timeout = case["timeout"]
    log.errors = []
    if glob:
        reg = fs.CONNECTION_REGISTRY
        log.forced = True
        reg.cleanup(force=True)
        log.forced = False
        old = reg.clean_timeout
        reg.clean_timeout = case["timeout"]
    else:
        reg = fs.ConnectionRegistry(clean_interval=case["interval"], clean_timeout=case["timeout"])
    for scheme in ("reca", "recb", "http"):
        reg.register(scheme, log.make(scheme, 0))
    try:
        history(case, ctx, s, reg, log, URI, NoSchemeError, glob)
        check(log)
        log.forced = True
        if glob:
            reg.cleanup(force=True)
        else:
            reg.shutdown()
            ctx.count("shutdown")
        check(log)
        for c in log.opened:
            if c.closed != 1:
                raise Violation("a connection was closed %d times in the end" % c.closed)
        n = len(log.opened)
        s.sleep(sched.current(), 3 * (case["interval"] % 1000 + case["timeout"]))
        if len(log.opened) != n or any(c.closed != 1 for c in log.opened):
            raise Violation("a connection is opened or closed after the shutdown")
    finally:
        if glob:
            reg.clean_timeout = old


def check(log):
    if log.errors:
        raise Violation(log.errors[0])


def key_of(p):
    return (p["scheme"],) + tuple(p[k] for k in FIELDS) + (tuple(sorted(p["extras"].items(), key=repr)),)


def uri_of(p, n, rng, ctx, URI):
    "a URI with these parameters, however they are written"
    how = rng.choice(["kwargs", "kwargs", "query", "text"])
    if how == "text" and not (p["username"] and p["hostname"] and not p["vpath_connector"]):
        how = "kwargs"
    given = {x: p[x] for x in ("username", "password") if p[x]}
    query, kw = {}, {}
    t = p["scheme"] + "://"
    if p["scheme"] == "http":
        # the query is none of the parameters
        how = "kwargs" if how == "query" else how
        if rng.random() < 0.7:
            query["q%d" % rng.randrange(3)] = str(rng.randrange(50))
            ctx.count("http_query")
    if how == "text":
        t += given.pop("username") + (":" + given.pop("password") if p["password"] else "") + "@"
    for k, v in list(p["extras"].items()) + list(given.items()):
        if p["scheme"] != "http" and isinstance(v, str) and v and (how == "query" or rng.random() < 0.3):
            query[k] = v
        else:
            kw[k] = v
    ctx.count("given:" + how)
    t = address(p, t) + "/some/path%d" % n
    if query:
        t += "?" + "&".join("%s=%s" % x for x in query.items())
    return URI(t, **kw)


def address(p, t):
    if p["vpath_connector"]:
        t += "((%s))" % p["vpath_connector"]
    if p["hostname"]:
        t += p["hostname"]
        if p["port"]:
            t += ":%d" % p["port"]
    return t


def history(case, ctx, s, reg, log, URI, NoSchemeError, glob):
    rng = random.Random(repr(case["ops"]))
    outcome = []
    live = {}           # key -> connection
    seen = {}
    uris = {}

    def expected(key):
        c = live.get(key)
        return c if c is not None and not c.closed else None

    for n, op in enumerate(case["ops"]):
        k = op[0]
        check(log)
        if k in ("get", "use", "failing"):
            p = case["pool"][op[1]]
            if glob and p["vpath_connector"] and p["hostname"]:
                p = dict(p, hostname=None, port=None)
            key = key_of(p)
            want = expected(key)
            count = len(log.opened)
            log.raise_on_close = CLOSING[op[2]]
            log.fail_next = k == "failing"
            try:
                if glob:
                    u = uris.get(key)
                    if u is None or n % 3 == 0:
                        u = uris[key] = uri_of(p, n, rng, ctx, URI)
                    if k == "use":
                        log.during = reg.cleanup if op[3] else None
                        try:
                            u.exists()
                        finally:
                            log.during = None
                        ctx.count("uses")
                    c = u.get_connection()
                else:
                    kw = {x: p[x] for x in ("scheme",) + FIELDS if p[x] is not None or n % 2}
                    kw.update(p["extras"])
                    c = reg.get_connection(**kw)
            except FactoryError:
                if want is not None:
                    raise Violation("an existing connection isn't used")
                if k != "failing":
                    raise Violation("unexpected FactoryError")
                ctx.count("factory_raises")
                outcome.append("fe")
                continue
            finally:
                log.fail_next = False
            ctx.count("requests")
            new = log.opened[count:]
            if want is not None:
                if new or c is not want:
                    raise Violation("the request %r doesn't get the existing connection" % (key,))
                ctx.count("same")
                outcome.append("s")
            else:
                if k == "failing":
                    raise Violation("the error of the factory is swallowed")
                if len(new) != 1 or c is not new[0]:
                    raise Violation("the request %r leads to %d factory calls" % (key, len(new)))
                ctx.count("fresh")
                if key in seen:
                    ctx.count("after_close_fresh")
                elif seen:
                    ctx.count("different_params")
                got = tuple((getattr(c, x) or None) if glob else getattr(c, x) for x in FIELDS)
                if got != key[1:6]:
                    raise Violation("the factory is called with %r instead of %r" % (got, key[1:6]))
                if c.extras != dict(key[6]):
                    raise Violation("the factory is called with the parameters %r instead of %r" % (c.extras, dict(key[6])))
                if c.scheme != p["scheme"] or c.gen != log.generation[p["scheme"]]:
                    raise Violation("the wrong factory is called")
                outcome.append("n")
            if c.closed:
                raise Violation("the connection is already closed")
            for other, d in live.items():
                if other != key and d is c:
                    raise Violation("requests %r and %r get the same connection" % (key, other))
            live[key] = seen[key] = c
            c.upper = s.now
        elif k == "advance":
            log.quiet = True
            s.sleep(sched.current(), op[1])
            log.quiet = False
            for c in log.opened:
                if c.in_background:
                    ctx.count("background_closed")
                    c.in_background = False
                if not glob and not c.closed and s.now - c.upper > case["timeout"] + case["interval"] + 3:
                    raise Violation("the background cleaner doesn't close a connection unused for %r s (timeout %r, interval %r)" % (
                        s.now - c.upper, case["timeout"], case["interval"]))
            outcome.append("a")
        elif k == "cleanup":
            log.forced = op[1]
            before = [c for c in log.opened if not c.closed]
            if any(s.now - c.lower == case["timeout"] for c in before):
                ctx.count("boundary")
            reg.cleanup(force=True) if op[1] else reg.cleanup()
            log.forced = False
            for c in before:
                if not c.closed:
                    if op[1]:
                        raise Violation("cleanup(force=True) doesn't close a connection")
                    if s.now - c.upper > case["timeout"]:
                        raise Violation("cleanup() doesn't close a connection unused for %r s, the timeout is %r s" % (
                            s.now - c.upper, case["timeout"]))
                    ctx.count("kept_by_use")
                else:
                    ctx.count("forced" if op[1] else "expired")
            outcome.append("c%d" % sum(1 for c in before if c.closed))
        elif k == "reregister":
            log.generation[op[1]] += 1
            reg.register(op[1], log.make(op[1], log.generation[op[1]]))
            ctx.count("reregistered")
        elif k == "bad":
            count = len(log.opened)
            try:
                if glob:
                    URI("nosuchscheme%d://host/x" % n).exists()
                else:
                    reg.get_connection(scheme="nosuchscheme")
            except NoSchemeError:
                ctx.count("no_scheme")
            else:
                raise Violation("no NoSchemeError")
            if len(log.opened) != count:
                raise Violation("a request for an unregistered scheme opens a connection")
    ctx.sig(glob, tuple(outcome))
