"""
Controlled scheduling of threads that run the code under test.

Only one thread (task) runs at a time; at every line of the repository's code, every lock operation and every sleep
the token may be handed to another one, as the random generator of the case decides. Locks, events, conditions, sleeps
and clocks of the `threading` and `time` modules the repository was imported with are cooperative for tasks, and the
real thing for everybody else. Time is virtual for tasks: it only passes if everybody waits.
"""
import dis
import importlib
import random
import sys
import threading as real_threading
import time as real_time
import types
import _thread

get_ident = _thread.get_ident
ACTIVE = None           # the running Sched
TASKS = {}              # thread ident -> Task


# places of the library that tasks came by, in this process
PLACES = {}             # code object -> (file, qualified name)
CHANGING = []           # (file, qualified name, offset): instructions that store something
LOOPS = []              # ... that get the next item
FUNCTIONS = []          # [(file, qualified name), [offset...]]


def learn(code, prefix):
    key = (code.co_filename[len(prefix):], code.co_qualname)
    PLACES[code] = key
    anything = []
    for ins in dis.get_instructions(code):
        place = [key[0], key[1], ins.offset]
        if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR"):
            CHANGING.append(place)
        elif ins.opname == "FOR_ITER":
            LOOPS.append(place)
        if not ins.opname.startswith(("RESUME", "CACHE", "PRECALL", "NOP")):
            anything.append(ins.offset)
    FUNCTIONS.append([key, anything])


def some_place(rng, prefer=""):
    "@return: an instruction to wait at, while others go on"
    if rng.random() < 0.3:
        prefer = ""
    functions = [x for x in FUNCTIONS if prefer in x[0][0]]
    for kind, p in ((CHANGING, 0.4), (LOOPS, 0.4)):
        places = [x for x in kind if prefer in x[0]]
        if rng.random() < p and places:
            return rng.choice(places)
    if not functions:
        return None
    key, offsets = rng.choice(functions)
    return [key[0], key[1], rng.choice(offsets)]


class Killed(BaseException):
    "the run is over"


class Deadlock(Exception):
    pass


class Task(object):
    def __init__(self, sched, fn, name, background):
        self.sched = sched
        self.fn = fn
        self.name = name
        self.background = background
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.ready_if = None        # blocked until this holds
        self.wake = None            # ... or until then
        self.done = False
        self.paused = False
        self.lost = False           # somebody else got the token in the meantime
        self.error = None
        self.result = None
        self.thread = None
        self.priority = sched.rng.random()


def current():
    t = TASKS.get(get_ident())
    if t is not None and t.sched is ACTIVE:
        return t
    return None


class Sched(object):
    def __init__(self, rng, prefix, p=0.1, mode="random", trace=True, start=None, max_steps=200000, opcodes=False, hot=None):
        """
        mode: random (switch with probability p, to anybody), pct (priorities that change a few times), lockstep (at
        nearly every step to the next task, so that all of them are at the same place of the code at the same time).
        opcodes: the steps are byte code instructions, not lines.
        hot: [file, name of function, offset of instruction, steps]: tasks that come there wait for so many steps of
        the other ones, most of the time.
        """
        self.hot = hot
        self.pauses = 0
        if opcodes:
            max_steps *= 8
            p /= 5.0
        self.opcodes = opcodes
        self.rng = rng
        self.prefix = prefix
        self.p = p
        self.mode = mode
        self.trace = trace
        self.now = real_time.time() if start is None else start
        self.tasks = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.history = 0
        self.max_steps = max_steps
        self.killing = False
        self.failure = None
        self.mutex = _thread.allocate_lock()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.idle = 0
        self.stolen = 0
        self.changes = set()
        if mode == "pct":
            self.changes = {rng.randrange(1, 600) for _ in range(rng.randint(1, 4))}

    # -- called by tasks ----------------------------------------------------

    def point(self, t, force=False):
        "a place where another task may go on"
        if self.killing:
            raise Killed()
        self.steps += 1
        if t.lost:
            self._rejoin(t)
        if self.steps > self.max_steps:
            self._fail("no end after %d steps" % self.steps)
            raise Killed()
        if self.mode == "pct":
            if self.steps in self.changes:
                t.priority = -self.steps
            elif not force and self.steps % 40:
                return
        elif self.mode == "lockstep":
            if not force and self.rng.random() < 0.1:
                return
        elif not force and self.rng.random() >= self.p:
            return
        self._switch(t)

    def block(self, t, ready_if, timeout=None):
        "@return: True, or False if the time is over"
        if self.killing:
            raise Killed()
        if t.lost:
            self._rejoin(t)
        t.ready_if = ready_if
        t.wake = None if timeout is None else self.now + timeout
        self.steps += 1
        try:
            self._switch(t)
        finally:
            ok = t.ready_if is None or ready_if is None or ready_if()
            t.ready_if = None
            t.wake = None
        return ok

    def pause(self, t):
        "let the others go on for a while"
        limit = self.steps + self.hot[3]

        def over():
            return self.steps >= limit or not any(
                o is not t and not o.done and not o.background and not o.lost and not o.paused and
                (o.ready_if is None or o.ready_if()) for o in self.tasks)
        if over():
            return
        self.pauses += 1
        t.paused = True
        try:
            self.block(t, over)
        finally:
            t.paused = False

    def sleep(self, t, seconds):
        self.block(t, _never, max(seconds, 1e-6))

    def _rejoin(self, t):
        with self.mutex:
            t.lost = False
            self.stolen += 1
        t.gate.acquire()
        if self.killing:
            raise Killed()

    def _runnable(self):
        res = []
        for t in self.tasks:
            if t.done or t.lost:
                continue
            if t.ready_if is None or t.ready_if() or (t.wake is not None and t.wake <= self.now):
                res.append(t)
        return res

    def _choose(self):
        while True:
            res = self._runnable()
            work = [t for t in res if not t.background]
            if work:
                self.idle = 0
            elif any(not t.done and not t.background for t in self.tasks) and \
                    not any(t.wake is not None for t in self.tasks if not t.done and not t.background):
                self.idle += 1
                if self.idle > 3000:
                    self._fail("deadlock: %s" % ", ".join(t.name for t in self.tasks if not t.done and not t.background))
                    return None
            if res:
                if self.mode == "pct":
                    return max(res, key=lambda t: t.priority)
                if self.mode == "lockstep":
                    n = len(self.tasks)
                    last = self.tasks.index(self.current) if self.current is not None else -1
                    return min(res, key=lambda t: (self.tasks.index(t) - last - 1) % n)
                return res[self.rng.randrange(len(res))] if len(res) > 1 else res[0]
            wakes = [t.wake for t in self.tasks if not t.done and t.wake is not None and not t.lost]
            if not wakes:
                if any(t.lost for t in self.tasks if not t.done):
                    return None
                if any(not t.done for t in self.tasks):
                    self._fail("deadlock: %s" % ", ".join(t.name for t in self.tasks if not t.done))
                return None
            self.now = max(self.now, min(wakes))

    def _switch(self, t):
        with self.mutex:
            if self.current is not t:
                # the token was taken from us
                t.lost = False
                n = t
            else:
                n = self._choose()
                self.current = n
                if n is not None and n is not t:
                    self.switches += 1
                    self.history = (self.history * 1000003 + self.tasks.index(n) + self.steps) & 0xffffffffffff
                    n.gate.release()
            if n is t and self.current is t:
                return
        if self.killing:
            raise Killed()
        t.gate.acquire()
        if self.killing:
            raise Killed()

    def _fail(self, what):
        if self.failure is None:
            self.failure = what
        self._end()

    def _end(self):
        self.killing = True
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def adopt(self, fn, name, background, thread):
        t = Task(self, fn, name, background)
        t.thread = thread
        self.tasks.append(t)
        return t

    def main(self, t):
        "body of the thread of a task"
        TASKS[get_ident()] = t
        t.gate.acquire()
        try:
            if self.killing:
                return
            if self.trace:
                sys.settrace(self._tracer)
            t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            TASKS.pop(get_ident(), None)
            with self.mutex:
                t.done = True
                if not self.killing:
                    if all(x.done or x.background for x in self.tasks):
                        self._end()
                    elif self.current is t:
                        n = self._choose()
                        self.current = n
                        if n is not None:
                            n.gate.release()

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            t = TASKS.get(get_ident())
            if t is not None:
                place = PLACES.get(frame.f_code)
                if place is None:
                    learn(frame.f_code, self.prefix)
                    place = PLACES[frame.f_code]
                if self.hot is not None and place[0] == self.hot[0] and place[1] == self.hot[1]:
                    frame.f_trace_opcodes = True
                    self.point(t)
                    return self._hot
                if self.opcodes:
                    frame.f_trace_opcodes = True
                self.point(t)
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            t = TASKS.get(get_ident())
            if t is not None:
                self.point(t)
        return self._local

    def _hot(self, frame, event, arg):
        t = TASKS.get(get_ident())
        if t is not None:
            if event == "opcode" and frame.f_lasti == self.hot[2] and self.rng.random() < 0.7:
                self.pause(t)
            elif event == ("opcode" if self.opcodes else "line"):
                self.point(t)
        return self._hot

    # -- called by the controlling thread -----------------------------------

    def spawn(self, fn, name):
        th = real_threading.Thread(target=lambda: self.main(t), daemon=True)
        t = self.adopt(fn, name, False, th)
        return t

    def run(self, patience=25.0):
        global ACTIVE
        ACTIVE = self
        try:
            for t in list(self.tasks):
                t.thread.start()
            with self.mutex:
                self.current = n = self._choose()
            n.gate.release()
            last, since = None, real_time.monotonic()
            stuck = 0
            while not self.finished.acquire(True, 0.4):
                if self.steps != last:
                    last, since = self.steps, real_time.monotonic()
                    continue
                # the current task is blocked by something that we don't control
                with self.mutex:
                    if self.killing:
                        continue
                    if self.current is not None and not self.current.done:
                        if real_time.monotonic() - since > patience:
                            self._fail("deadlock: %s does not continue" % self.current.name)
                            continue
                        self.current.lost = True
                    lost = [t for t in self.tasks if t.lost and not t.done]
                    n = None
                    res = self._runnable()
                    if res:
                        n = res[self.rng.randrange(len(res))]
                        self.current = n
                        n.gate.release()
                    else:
                        self.current = None
                        # those who come back wait for the token
                        for t in lost:
                            if not t.lost:
                                t.gate.release()
                        stuck += 1
                        if real_time.monotonic() - since > patience:
                            self._fail("deadlock")
            for t in self.tasks:
                try:
                    t.gate.release()
                except RuntimeError:
                    pass
            deadline = real_time.monotonic() + 5
            for t in self.tasks:
                while not t.done and real_time.monotonic() < deadline:
                    try:
                        t.gate.release()
                    except RuntimeError:
                        pass
                    t.thread and real_threading.Thread.join(t.thread, 0.02)
        finally:
            # (also if the time of the case is over)
            self.killing = True
            ACTIVE = None
        return self


def _never():
    return False


# -- stand-ins for the threading module -------------------------------------

class Lock(object):
    def __init__(self):
        self._real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            return self._real.acquire(blocking, timeout)
        t.sched.point(t)
        while not self._real.acquire(False):
            if not blocking:
                return False
            if not t.sched.block(t, self._free, timeout if timeout is not None and timeout >= 0 else None):
                return False
        return True

    def _free(self):
        return not self._real.locked()

    def release(self):
        self._real.release()
        t = current()
        if t is not None:
            t.sched.point(t)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(object):
    def __init__(self):
        self._lock = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Condition(object):
    def __init__(self, lock=None):
        self._lock = RLock() if lock is None else lock
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        w = Lock()
        w.acquire()
        self._waiters.append(w)
        count = 1
        if isinstance(self._lock, RLock):
            count = self._lock._count
        for _ in range(count):
            self._lock.release()
        try:
            return w.acquire(True, -1 if timeout is None else timeout)
        finally:
            if w in self._waiters:
                self._waiters.remove(w)
            for _ in range(count):
                self._lock.acquire()

    def wait_for(self, predicate, timeout=None):
        res = predicate()
        while not res:
            if not self.wait(timeout):
                return predicate()
            res = predicate()
        return res

    def notify(self, n=1):
        for w in self._waiters[:n]:
            self._waiters.remove(w)
            w.release()

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event(object):
    def __init__(self):
        self._cond = Condition(Lock())
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            if not self._flag:
                self._cond.wait(timeout)
            return self._flag


class Semaphore(object):
    def __init__(self, value=1):
        self._cond = Condition(Lock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._value == 0:
                if not blocking or not self._cond.wait(timeout):
                    return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Thread(real_threading.Thread):
    "threads that are started by a task are tasks, too"
    _task = None

    def start(self):
        t = current()
        if t is not None:
            s = t.sched
            run = self.run
            with s.mutex:
                task = self._task = s.adopt(run, self.name, True, self)
            self.run = lambda: s.main(task)
            self.daemon = True
        real_threading.Thread.start(self)

    def join(self, timeout=None):
        t = current()
        if t is not None and self._task is not None:
            t.sched.block(t, lambda: self._task.done, timeout)
        else:
            real_threading.Thread.join(self, timeout)

    def is_alive(self):
        if self._task is not None:
            return not self._task.done
        return real_threading.Thread.is_alive(self)


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def _now(real):
    def clock():
        t = current()
        if t is None:
            return real()
        return t.sched.now
    return clock


def _sleep(seconds):
    t = current()
    if t is None:
        return real_time.sleep(seconds)
    t.sched.sleep(t, seconds)


def proxies():
    th = types.ModuleType("threading")
    th.__dict__.update({k: v for k, v in vars(real_threading).items() if not k.startswith("__")})
    th.__dict__.update(Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore,
                       BoundedSemaphore=Semaphore, Thread=Thread, Timer=Timer, _allocate_lock=Lock)
    tm = types.ModuleType("time")
    tm.__dict__.update({k: v for k, v in vars(real_time).items() if not k.startswith("__")})
    tm.__dict__.update(time=_now(real_time.time), monotonic=_now(real_time.monotonic),
                       perf_counter=_now(real_time.perf_counter), sleep=_sleep,
                       time_ns=lambda: int(tm.time() * 10 ** 9), monotonic_ns=lambda: int(tm.monotonic() * 10 ** 9))
    return th, tm


def import_with_proxies(names=("abl.vpath.base", "abl.vpath.base.fs", "abl.vpath.base.localfs", "abl.vpath.base.memory",
                               "abl.vpath.base.zip")):
    "the repository's modules get the cooperative stand-ins, nobody else"
    for m in ("abl.util", "decorator", "logging", "importlib.metadata", "shutil", "hashlib", "zipfile", "mimetypes", "tempfile",
              "queue", "concurrent.futures", "functools", "weakref", "contextlib", "datetime", "urllib.parse", "email.parser",
              "zipimport", "csv", "pathlib", "inspect"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    th, tm = proxies()
    saved = sys.modules["threading"], sys.modules["time"]
    sys.modules["threading"], sys.modules["time"] = th, tm
    try:
        for n in names:
            importlib.import_module(n)
    finally:
        sys.modules["threading"], sys.modules["time"] = saved
    coop_flock()


def coop_flock():
    import errno
    import fcntl
    flock = fcntl.flock

    def wrapper(fd, op):
        t = current()
        if t is None or op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
            if t is not None:
                t.sched.point(t)
            return flock(fd, op)
        while True:
            try:
                return flock(fd, op | fcntl.LOCK_NB)
            except OSError as e:
                if e.errno not in (errno.EAGAIN, errno.EACCES):
                    raise
            # somebody who can give it back is needed
            seen = [False]

            def free():
                try:
                    flock(fd, op | fcntl.LOCK_NB)
                except OSError:
                    return False
                except ValueError:
                    return True
                flock(fd, fcntl.LOCK_UN)
                seen[0] = True
                return True
            t.sched.block(t, free)
    fcntl.flock = wrapper
