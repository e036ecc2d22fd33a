"""locks"""
import os
import random

from vp import back, sched
from vp.core import Violation

TECHNIQUE = ("runtime monitoring under controlled random scheduling of real threads (line-level preemption, cooperative locks, "
             "deadlock detection); owner, content and release monitors")
LEVEL = "exploration"
NOTE = ("Threads running the real lock code are preempted at every line of the library by a seeded scheduler (random and "
        "priority-based); monitors check exclusion, refusals, content, release, cleanup and deadlocks. "
        "Interleavings are sampled, processes are not driven; local cleanup=True only without concurrency.")
CASES = dict(quick=8000, thorough=150000)
RULE = ("Random groups of 2-4 threads with 1-3 lock sessions each on 1-3 files (memory, second memory file system, disk) with "
        "random options, bodies, exceptions and vanishing files, plus directed scenarios (refusal at once, independence), "
        "under random schedules. Distinct: interleavings (hash of all context switches).")
REQUIRED = ["pauses", "mode:random", "mode:lockstep", "mode:pct", "mode:lockstep/opcodes", "mode:random/opcodes",
            "sessions", "fs:memory", "fs:file", "refusals", "waits", "switches", "exceptions", "vanished", "cleanups",
            "gone_after_cleanup", "content_checked", "scenario:refuse", "scenario:independent", "scenario:mix", "released_after",
            "missing_dir", "two_fs", "through_link", "born:move", "born:copy", "born:swap",
            "gone_while_locked", "failed_cleanups"]
ASSUMPTIONS = ["threads are preempted at lines, or byte code instructions, of the library and at lock operations only"]
PATIENCE = 3        # every step costs a lot
SHRINK = ("sessions",)


class Boom(Exception):
    pass


def before_import(ctx):
    sched.import_with_proxies()


def hot(rng, prefer):
    place = sched.some_place(rng, prefer) if rng.random() < 0.6 else None
    return place and place + [rng.choice([20, 60, 200, 1000])]


def gen(rng, i, ctx):
    scenario = rng.choice(["mix", "mix", "mix", "mix", "refuse", "independent"])
    fs = rng.choice(["memory", "memory", "file"])
    nthreads = rng.randint(2, 4)
    nfiles = 1 if scenario != "mix" else rng.choice([1, 1, 2, 3])
    places = [fs] * nfiles
    if scenario == "independent":
        places = ["memory", rng.choice(["memory2", "memory", "file"])] if fs == "memory" else \
            ["file", rng.choice(["memory", "file"])]
        nfiles = 2
    elif rng.random() < 0.25:
        places = [rng.choice(["memory", "memory2", "file"]) for _ in range(nfiles)]
    sessions = []
    for t in range(nthreads):
        for _ in range(rng.randint(1, 3)):
            sessions.append([t, rng.randrange(nfiles), rng.random() < 0.35, rng.random() < 0.4, rng.randint(0, 3),
                             rng.random() < 0.2, rng.random() < 0.12, rng.random() < 0.06,
                             rng.choice([None, None, None, [1, 0], [0, 2]])])
    return dict(scenario=scenario, places=places, threads=nthreads, sessions=sessions, seed=rng.getrandbits(40),
                p=rng.choice([0.02, 0.1, 0.3, 0.6]), mode=rng.choice(["random", "random", "random", "lockstep", "lockstep", "pct"]), opcodes=rng.random() < 0.15, hot=hot(rng, "memory"),
                existing=[rng.random() < 0.5 for _ in range(nfiles)],
                born=[rng.choice(["new", "new", "new", "move", "copy", "movedir", "swap"]) for _ in range(nfiles)], samename=rng.random() < 0.5, links=rng.random() < 0.2)


class World(object):
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        back.reset_registry()
        self.dir = ctx.fresh_dir()
        self.files = []
        for k, place in enumerate(case["places"]):
            name = ("d", "f.lck") if case["samename"] else ("d", "f%d.lck" % k)
            if case["places"][:k].count(place):
                name = ("d", "f%d.lck" % k)
            be = back.Loc(self.dir) if place == "file" else back.Mem("instance=two" if place == "memory2" else None)
            be.uri(("d",)).makedirs()
            if case["existing"][k]:
                with be.uri(name).open("wb") as f:
                    f.write(b"before;")
            self.files.append((place, be, name))
        for k, how in enumerate(case.get("born", ())):
            self.born(k, how)
        self.links = bool(case.get("links"))
        if self.links:
            for k, (place, be, name) in enumerate(self.files):
                if not be.uri(name).exists():
                    with be.uri(name).open("wb") as f:
                        f.write(b"before;")
                be.uri(name).symlink(be.uri(("d", "link%d" % k)))
        self.owner = [None] * len(self.files)
        self.active = [set() for _ in self.files]
        self.started = [0] * len(self.files)
        self.last_exit = [None] * len(self.files)
        self.exits = [[] for _ in self.files]
        self.serial = 0

    def born(self, k, how):
        "the files of a backend come from each other's paths"
        place, be, name = self.files[k]
        rest = [x[2] for j, x in enumerate(self.files) if j != k and x[1] is be] or \
            [x[2] for j, x in enumerate(self.files) if j != k and x[0] == place]
        other = rest[0] if rest else ("d", "other")
        if how == "new":
            return
        if how == "movedir":
            u = be.uri(("d",))
            u.move(be.uri(("was",)))
            be.uri(("was",)).move(u)
            return
        u, v = be.uri(name), be.uri(other)
        had = u.exists()
        if not had:
            with u.open("wb") as f:
                f.write(b"before;")
        if how == "swap" and v.exists():
            w = be.uri(("d", "between"))
            u.move(w)
            v.move(u)
            w.move(v)
        elif how == "copy":
            if not v.exists():
                u.copy(v)
        elif not v.exists():
            u.move(v)
            with u.open("wb") as f:
                f.write(b"before;")
        self.ctx.count("born:" + how)

    def content(self, k):
        place, be, name = self.files[k]
        with be.uri(name).open("rb") as f:
            return f.read()


def point(force=False):
    t = sched.current()
    if t is not None:
        t.sched.point(t, force)


def session(w, me, k, fail, cleanup, pieces, exc, vanish, missing, deco, inside=None):
    from abl.util import LockFileObtainException
    ctx = w.ctx
    place, be, name = w.files[k]
    if place == "file" and not w.solo:
        # the next one would have the lock of a file that doesn't exist any more
        cleanup = vanish = False
    if missing:
        if place == "file":
            return
        u = be.uri(("nodir", "f"))
        try:
            with u.lock(fail_on_lock=fail, cleanup=cleanup):
                raise Violation("a file in a missing directory can be locked")
        except OSError:
            ctx.count("missing_dir")
        except LockFileObtainException:
            # somebody else is just trying the same
            if not fail or me == "main":
                raise Violation("a lock that nobody has is refused")
        return
    u = be.uri(name, deco)
    if w.links:
        # (cleaning up would remove the link)
        cleanup = vanish = False
        if w.serial % 2 == 0:
            u = be.uri(("d", "link%d" % k))
            ctx.count("through_link")
    w.serial += 1
    tag = "s%d;" % w.serial
    others = bool(w.active[k] - {me})
    w.active[k].add(me)
    w.started[k] += 1
    seen = w.started[k]
    ctx.count("sessions")
    task = sched.current()
    began = task.sched.now if task is not None else 0
    if others and not fail:
        ctx.count("waits")
    entered = False
    try:
        with u.lock(fail_on_lock=fail, cleanup=cleanup) as f:
            entered = True
            if w.owner[k] is not None:
                raise Violation("%s:/%s is locked by %s and %s at the same time" % (place, "/".join(name), w.owner[k], me))
            w.owner[k] = me
            base = w.content(k)
            if place != "file" and base != b"":
                raise Violation("the file is not empty after it was opened for writing: %r" % base)
            text = ""
            for n in range(pieces):
                part = tag * (n + 1)
                f.write(part)
                text += part
                point()
                if w.owner[k] != me:
                    raise Violation("%s entered the lock of %s" % (w.owner[k], me))
            f.flush()
            point()
            gone = inside is not None and inside()
            if gone:
                if be.uri(name).exists():
                    raise Violation("%s:/%s is created by a refused attempt to lock it" % (place, "/".join(name)))
                ctx.count("gone_while_locked")
                vanish = False
            now = base + text.encode() if gone else w.content(k)
            if now != base + text.encode():
                raise Violation("the content of the locked file changes: %r, expected %r" % (
                    now[-60:], (base + text.encode())[-60:]))
            ctx.count("content_checked")
            if vanish:
                be.uri(name).remove()
                ctx.count("vanished")
            if w.owner[k] != me:
                raise Violation("%s entered the lock of %s" % (w.owner[k], me))
            w.owner[k] = None
            w.exits[k].append((cleanup, vanish or gone))
            if exc:
                raise Boom("in the block")
        if exc:
            raise Violation("the exception of the block is swallowed")
    except Boom:
        ctx.count("exceptions")
    except LockFileObtainException:
        if entered:
            raise Violation("LockFileObtainException when leaving the block")
        if not fail:
            raise Violation("a waiting lock raises LockFileObtainException")
        if not others and w.started[k] == seen:
            raise Violation("nobody else has the lock, but it is refused")
        if task is not None and task.sched.now != began:
            raise Violation("a lock with fail_on_lock=True waits for %.3f seconds" % (task.sched.now - began))
        ctx.count("refusals")
        return "refused"
    finally:
        w.active[k].discard(me)
    if cleanup:
        ctx.count("cleanups")
    return "done"


def run(case, ctx):
    w = World(case, ctx)
    w.solo = False
    for place in case["places"]:
        ctx.count("fs:" + place.replace("2", ""))
    if len(set(case["places"])) > 1:
        ctx.count("two_fs")
    ctx.count("scenario:" + case["scenario"])
    n = case["threads"]
    jobs = []
    if case["scenario"] == "mix":
        for t in range(n):
            mine = [s for s in case["sessions"] if s[0] == t]
            jobs.append(lambda mine=mine, t=t: [session(w, "thread %d" % t, *s[1:]) for s in mine])
    else:
        state = dict(done=0, inside=False)
        refuse = case["scenario"] == "refuse"
        gone = refuse and case["places"][0] != "file" and not w.links and case["seed"] % 3 == 1 and \
            case.get("born", ["new"])[0] == "new"

        def wait(cond):
            t = sched.current()
            t.sched.block(t, cond)

        def inside():
            if gone:
                # the lock outlives the file
                w.files[0][1].uri(w.files[0][2]).remove()
            state["inside"] = True
            wait(lambda: state["done"] >= n - 1)
            return gone

        def owner():
            session(w, "owner", 0, case["seed"] % 2 == 0, case["places"][0] != "file" and case["seed"] % 3 == 0, 2,
                    case["seed"] % 5 == 0, False, False, None, inside)

        def other(t):
            wait(lambda: state["inside"])
            if refuse:
                if session(w, "thread %d" % t, 0, True, t % 2 == 0, 1, False, False, False, None) != "refused":
                    raise Violation("lock(fail_on_lock=True) succeeds while somebody else has the lock")
            else:
                session(w, "thread %d" % t, 1, False, case["places"][1] != "file" and t % 2 == 0, 1, False, False, False, None)
            state["done"] += 1
            if refuse and t % 2:
                session(w, "thread %d" % t, 0, False, False, 1, False, False, False, None)
        jobs.append(owner)
        for t in range(1, n):
            jobs.append(lambda t=t: other(t))
    ctx.count("mode:" + case["mode"] + ("/opcodes" if case.get("opcodes") else ""))
    s = sched.Sched(random.Random(case["seed"]), ctx.spec["repo"] + "/abl/vpath", p=case["p"], mode=case["mode"], opcodes=case.get("opcodes", False),
                    hot=case.get("hot"))
    for k, job in enumerate(jobs):
        s.spawn(job, "thread %d" % k)
    s.run()
    ctx.count("switches", s.switches)
    ctx.count("pauses", s.pauses)
    ctx.count("steps", s.steps)
    ctx.count("stolen", s.stolen)
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    if s.failure:
        raise Violation("%s: %s (places %s)" % (case["scenario"], s.failure, case["places"]))
    ctx.sig(s.history, s.switches)
    after(w)


def after(w):
    from abl.util import LockFileObtainException
    for k, (place, be, name) in enumerate(w.files):
        u = be.uri(name)
        if w.exits[k]:
            cleanup, vanish = w.exits[k][-1]
            if cleanup or vanish:
                if u.exists():
                    raise Violation("%s:/%s still exists after its last owner used cleanup=True" % (place, "/".join(name)))
                w.ctx.count("gone_after_cleanup")
            elif not u.isfile():
                raise Violation("%s:/%s is gone, although nobody asked for it" % (place, "/".join(name)))
        w.solo = True
        w.links = False
        try:
            got = session(w, "main", k, True, True, 1, False, False, False, None)
        except LockFileObtainException:
            got = "refused"
        if got != "done":
            raise Violation("the lock of %s:/%s was never released" % (place, "/".join(name)))
        w.ctx.count("released_after")
        if place != "file":
            session(w, "main", k, True, True, 0, False, False, True, None)
        if u.exists():
            raise Violation("%s:/%s still exists after cleanup" % (place, "/".join(name)))
        if place != "file":
            failing_cleanup(w, place, u, w.case["seed"] + k)


def failing_cleanup(w, place, u, n):
    "what is there in the end can't be removed, the lock is released anyway"
    from abl.util import LockFileObtainException

    def stop(uri, func):
        if func.__name__ == "remove":
            raise Boom("not removed")
    try:
        with u.lock(fail_on_lock=True, cleanup=True):
            if n % 2:
                u.remove()
                (u / "sub").makedirs()
            else:
                u._manipulate(next_op_callback=stop)
    except LockFileObtainException:
        raise Violation("the lock of %s was never released" % u)
    except (OSError, Boom):
        w.ctx.count("failed_cleanups")
    if n % 2 == 0:
        u._manipulate(next_op_callback=None)
    if u.exists():
        u.remove("r")
    try:
        with u.lock(fail_on_lock=True, cleanup=True) as f:
            f.write("x")
    except LockFileObtainException:
        raise Violation("the lock of %s isn't released if its cleanup fails" % u)
