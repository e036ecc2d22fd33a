"""
Fault injection: every primitive of a backend, every operation of the handles it returns and every file system
related audit event is a numbered point. The n-th point fails with an OSError.
"""
import errno

from . import guard

PRIMITIVES = ("open", "removefile", "removedir", "mkdir", "symlink", "readlink", "copystat", "listdir", "info", "exists",
              "isfile", "isdir", "islink")
CODES = [errno.EIO, errno.ENOSPC, errno.EACCES]


class Handle(object):
    "a file handle whose operations are fault points"
    def __init__(self, real, faults):
        self.__dict__["_real"] = real
        self.__dict__["_faults"] = faults

    def read(self, *a):
        self._faults.point("handle.read")
        return self._real.read(*a)

    def readinto(self, b):
        self._faults.point("handle.read")
        return self._real.readinto(b)

    def readline(self, *a):
        self._faults.point("handle.read")
        return self._real.readline(*a)

    def write(self, data):
        if self._faults.next_fails() and len(data) > 1:
            # a part of it reaches the disk
            self._real.write(data[:len(data) // 2])
        self._faults.point("handle.write")
        return self._real.write(data)

    def close(self):
        res = self._real.close()
        self._faults.point("handle.close")
        return res

    def __enter__(self):
        self._real.__enter__()
        return self

    def __exit__(self, *a):
        res = self._real.__exit__(*a)
        self._faults.point("handle.close")
        return res

    def __iter__(self):
        return iter(self._real)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, value):
        setattr(self._real, name, value)


class Faults(object):
    def __init__(self, connections=(), audit=True, handles=True, always=None, queries=True):
        """
        always: callable(event, path) -> exception or None, in addition
        """
        self.connections = list(connections)
        self.audit = audit
        self.handles = handles
        self.always = always
        self.names = [n for n in PRIMITIVES if queries or n not in ("exists", "isfile", "isdir", "islink")]
        self.n = 0
        self.target = 0
        self.hit = None
        self.active = False
        self.log = []
        self.code = errno.EIO

    def next_fails(self):
        return self.active and self.n + 1 == self.target

    def point(self, name):
        e = self._point(name)
        if e is not None:
            raise e

    def _point(self, name):
        if not self.active:
            return None
        self.n += 1
        if len(self.log) < 2000:
            self.log.append(name)
        if self.n == self.target:
            self.hit = name
            return OSError(self.code, "injected fault (%s)" % name)
        return None

    def _event(self, event, path):
        if not self.active:
            return None
        if self.always is not None:
            e = self.always(event, path)
            if e is not None:
                return e
        if "pyc" in path or "/opt/" in path:
            return None
        return self._point(event)

    def __enter__(self):
        self.n = 0
        self.hit = None
        self.log = []
        for c in self.connections:
            for name in self.names:
                self._wrap(c, name)
        if self.audit:
            guard.STATE.fault = self._event
        self.active = True
        return self

    def _wrap(self, conn, name):
        real = getattr(conn, name)

        def wrapper(*a, **kw):
            self.point(type(conn).__name__ + "." + name)
            res = real(*a, **kw)
            if name == "open" and self.handles and self.active:
                return Handle(res, self)
            return res
        wrapper.__name__ = name
        conn.__dict__[name] = wrapper

    def __exit__(self, *a):
        self.active = False
        guard.STATE.fault = None
        for c in self.connections:
            for name in self.names:
                c.__dict__.pop(name, None)


def enumerate_points(total, limit, rng):
    "which points to try: all of them, or a sample"
    if total <= limit:
        return list(range(1, total + 1))
    head = list(range(1, limit // 3 + 1))
    tail = list(range(total - limit // 3 + 1, total + 1))
    rest = [x for x in range(1, total + 1) if x not in set(head) | set(tail)]
    return sorted(head + tail + rng.sample(rest, min(len(rest), limit - len(head) - len(tail))))
