"""connection registry, concurrently"""
import random
import time as real_time

from vp import sched
from vp.checks.c17 import muted
from vp.core import Violation

TECHNIQUE = ("runtime monitoring under controlled random scheduling of real threads (line-level preemption, virtual time); "
             "offline checker over the log of requests, factory calls, cleanups and closes")
LEVEL = "exploration"
NOTE = ("Requesting, cleaning and background threads run the real registry code, preempted at every line by a seeded scheduler; "
        "a checker decides over the recorded history: one connection per key between cleanups, nothing closed twice, never or "
        "before the request, no errors, no deadlock. Interleavings are sampled, at line granularity.")
CASES = dict(quick=20000, thorough=200000)
RULE = ("Random groups of 2-4 requesting threads and 0-2 cleaning threads (and the background cleaner) on 1-3 keys, slow or "
        "failing factories and closes, under random schedules (random and priority-based, 4 preemption rates). Distinct: "
        "interleavings (hash of all context switches).")
REQUIRED = ["pauses", "mode:random", "mode:lockstep", "mode:pct", "mode:lockstep/opcodes", "mode:random/opcodes",
            "requests", "opened", "closed", "switches", "shared", "cleanups", "forced_cleanups", "overlap", "reopened", "nocleanup",
            "background", "factory_raises", "close_raises", "own", "global", "slow_factory", "slow_close", "history_checked"]
ASSUMPTIONS = ["threads are preempted at lines, or byte code instructions, of the library and at lock operations only"]
SHRINK = ("tasks",)


def before_import(ctx):
    sched.import_with_proxies()


def hot(rng, prefer):
    place = sched.some_place(rng, prefer) if rng.random() < 0.6 else None
    return place and place + [rng.choice([20, 60, 200, 1000])]


def gen(rng, i, ctx):
    nkeys = rng.choice([1, 1, 2, 3])
    kind = rng.choice(["nocleanup", "cleanup", "cleanup", "background", "both"])
    tasks = []
    for _ in range(rng.randint(2, 4)):
        tasks.append(["req", [[rng.randrange(nkeys), rng.choice([0, 0, 0, 1, 3]), rng.random() < 0.4]
                              for _ in range(rng.randint(1, 4))]])
    if kind in ("cleanup", "both"):
        for _ in range(rng.randint(1, 2)):
            tasks.append(["clean", [[rng.random() < 0.7, rng.choice([0, 0, 1, 3])] for _ in range(rng.randint(1, 3))]])
    return dict(kind=kind, nkeys=nkeys, tasks=tasks, seed=rng.getrandbits(40), glob=rng.random() < 0.35,
                samescheme=rng.random() < 0.5, p=rng.choice([0.03, 0.1, 0.3, 0.6]),
                mode=rng.choice(["random", "random", "random", "lockstep", "lockstep", "pct"]), opcodes=rng.random() < 0.15, hot=hot(rng, "fs.py"),
                slow=rng.choice([0, 0, 1, 2]), slowclose=rng.choice([0, 0, 1]), fail=rng.random() < 0.2,
                badclose=rng.random() < 0.25, timeout=rng.choice([1, 2, 4]), interval=rng.choice([1, 1, 3]))


class FactoryError(Exception):
    pass


class Log(object):
    def __init__(self, case, ctx, s, rng):
        self.case, self.ctx, self.s, self.rng = case, ctx, s, rng
        self.seq = 0
        self.opened = []
        self.requests = []
        self.cleanups = []
        self.done = 0

    def tick(self):
        self.seq += 1
        return self.seq

    def pause(self, slow):
        t = sched.current()
        if t is None:
            return
        for _ in range(slow):
            if self.rng.random() < 0.5:
                t.sched.point(t, True)
            else:
                t.sched.sleep(t, 1)

    def make(self, scheme):
        from abl.vpath.base.fs import FileSystem
        log = self

        class Recorder(FileSystem):
            def _initialize(self):
                self.start_time = log.s.now
                if log.case["slow"]:
                    log.pause(log.case["slow"])
                    log.ctx.count("slow_factory")
                if log.case["fail"] and log.rng.random() < 0.3:
                    raise FactoryError("cannot connect")
                self.key = (scheme, self.hostname)
                self.open_seq = log.tick()
                self.open_time = log.s.now
                self.closes = []
                log.opened.append(self)
                log.ctx.count("opened")

            def exists(self, path):
                return True

            def close(self):
                entry = [log.tick(), None]
                self.closes.append(entry)
                log.ctx.count("closed")
                if log.case["slowclose"]:
                    log.pause(1)
                    log.ctx.count("slow_close")
                entry[1] = log.tick()
                if log.case["badclose"]:
                    log.ctx.count("close_raises")
                    raise IOError("closing fails")
        return Recorder


def run(case, ctx):
    ctx.count("mode:" + case["mode"] + ("/opcodes" if case.get("opcodes") else ""))
    s = sched.Sched(random.Random(case["seed"]), ctx.spec["repo"] + "/abl/vpath", p=case["p"], mode=case["mode"], opcodes=case.get("opcodes", False),
                    hot=case.get("hot"),
                    start=float(int(real_time.time()) + 10))
    log = Log(case, ctx, s, random.Random(case["seed"] + 1))
    box = {}
    n = len(case["tasks"])
    s.spawn(lambda: boss(case, ctx, s, log, box, n), "boss")
    for k, t in enumerate(case["tasks"]):
        s.spawn(lambda t=t: work(case, ctx, s, log, box, t), "%s %d" % (t[0], k))
    with muted():
        s.run()
    for t in s.tasks:
        if t.error is not None and isinstance(t.error, Violation):
            raise t.error
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    if s.failure:
        raise Violation(s.failure)
    ctx.count("switches", s.switches)
    ctx.count("pauses", s.pauses)
    ctx.count("steps", s.steps)
    ctx.count("stolen", s.stolen)
    ctx.count("global" if case["glob"] else "own")
    check(case, ctx, log)
    ctx.sig(s.history, s.switches)


def boss(case, ctx, s, log, box, n):
    from abl.vpath.base import fs
    me = sched.current()
    background = case["kind"] in ("background", "both")
    if case["glob"]:
        reg = fs.CONNECTION_REGISTRY
        old = reg.clean_timeout
        reg.cleanup(force=True)
        reg.clean_timeout = case["timeout"] if background else 10 ** 9
    else:
        reg = fs.ConnectionRegistry(clean_interval=case["interval"] if background else 10 ** 6,
                                    clean_timeout=case["timeout"] if background else 10 ** 9)
    try:
        for k in range(case["nkeys"]):
            scheme = "conc%d" % (0 if case["samescheme"] else k)
            if k == 0 or not case["samescheme"]:
                reg.register(scheme, log.make(scheme))
        box["reg"] = reg
        s.block(me, lambda: log.done >= n)
        if case["glob"]:
            reg.cleanup(force=True)
        else:
            reg.shutdown()
    finally:
        if case["glob"]:
            reg.clean_timeout = old


def work(case, ctx, s, log, box, task):
    from abl.vpath.base import URI
    me = sched.current()
    s.block(me, lambda: "reg" in box)
    reg = box["reg"]
    try:
        if task[0] == "req":
            for k, pause, use in task[1]:
                scheme, host = key = ("conc%d" % (0 if case["samescheme"] else k), "h%d" % k)
                entry = dict(key=key, start=log.tick(), conn=None, end=None)
                log.requests.append(entry)
                ctx.count("requests")
                try:
                    if case["glob"]:
                        u = URI("%s://%s/path" % key)
                        if use:
                            u.exists()
                            entry["conn"] = u.connection
                        else:
                            entry["conn"] = u.get_connection()
                    else:
                        entry["conn"] = reg.get_connection(scheme=scheme, hostname=host)
                except FactoryError:
                    ctx.count("factory_raises")
                    log.requests.remove(entry)
                entry["end"] = log.tick()
                if pause:
                    s.sleep(me, pause)
        else:
            for force, pause in task[1]:
                if pause:
                    s.sleep(me, pause)
                entry = dict(start=log.tick(), end=None, force=force, time=s.now)
                log.cleanups.append(entry)
                ctx.count("forced_cleanups" if force else "cleanups")
                reg.cleanup(force=force)
                entry["end"] = log.tick()
        if case["kind"] in ("background", "both"):
            ctx.count("background")
    finally:
        log.done += 1


def check(case, ctx, log):
    by_key = {}
    for c in log.opened:
        if len(c.closes) != 1:
            raise Violation("a connection was closed %d times in the end" % len(c.closes))
        by_key.setdefault(c.key, []).append(c)
    if case["kind"] == "nocleanup":
        ctx.count("nocleanup")
        for key, cs in by_key.items():
            if len(cs) != 1:
                raise Violation("%d connections are opened for %r, although there is no cleanup" % (len(cs), key))
    for r in log.requests:
        c = r["conn"]
        if c not in log.opened or c.key != r["key"]:
            raise Violation("the request for %r gets %r" % (r["key"], c))
        if c.closes[0][1] < r["start"]:
            raise Violation("a request is answered with a connection that was closed before")
    users = {}
    for r in log.requests:
        users.setdefault(id(r["conn"]), set()).add(r["start"])
    if any(len(x) > 1 for x in users.values()):
        ctx.count("shared")
    for key, cs in by_key.items():
        for a, b in zip(cs, cs[1:]):
            ctx.count("reopened")
            if a.closes[0][0] < b.open_seq:
                continue
            # a is not closed yet when b is opened: only in the middle of a cleanup
            if any(x["start"] < b.open_seq and (x["end"] is None or x["end"] > b.open_seq) for x in log.cleanups):
                ctx.count("overlap")
                continue
            if case["kind"] in ("background", "both") and b.open_time - a.start_time > case["timeout"]:
                ctx.count("overlap_background")
                continue
            raise Violation("a second connection for %r is opened although the first one is alive" % (key,))
    ctx.count("history_checked")
