"""
Monitor for every file system mutation of this process, based on the audit
events of the interpreter. Mutations outside of the scratch directory are
recorded and refused. The same events are used to inject faults.
"""
import errno
import os
import sys
import threading

_real = dict(lstat=os.lstat, readlink=os.readlink, getcwd=os.getcwd)

# event -> indices of (path, dir_fd)
MUTATORS = {
    "os.remove": ((0, 1),),
    "os.rmdir": ((0, 1),),
    "os.mkdir": ((0, 2),),
    "os.rename": ((0, 2), (1, 3)),
    "os.symlink": ((1, 2),),
    "os.link": ((0, 2), (1, 3)),
    "os.chmod": ((0, 2),),
    "os.chown": ((0, 3),),
    "os.lchown": ((0, None),),
    "os.utime": ((0, 3),),
    "os.truncate": ((0, None),),
    "os.setxattr": ((0, None),),
    "os.removexattr": ((0, None),),
    "os.mkfifo": ((0, 1),),
    "os.mknod": ((0, 1),),
    "os.chflags": ((0, None),),
    "os.lchmod": ((0, None),),
}
FORBIDDEN = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty",
             "os.kill", "os.killpg", "os.spawn", "socket.connect", "socket.bind", "os.chroot",
             "os.putenv_", "signal.pthread_kill", "os.startfile", "pty.spawn", "ftplib.connect",
             "urllib.Request", "webbrowser.open")
# events that are counted as fault points besides the mutations
READS = ("os.listdir", "os.scandir")


class Escape(BaseException):
    "an operation wanted to change something outside of the scratch directory"


class State(object):
    def __init__(self):
        self.installed = False
        self.allowed = ()
        self.escapes = []
        self.log = None            # list of (event, path) if recording
        self.fault = None          # callable(event, path) -> exception or None
        self.own = threading.local()


STATE = State()


def _resolve(path, dir_fd=None):
    """absolute path, with all links but the last component resolved"""
    if isinstance(path, int):
        return os.readlink("/proc/self/fd/%d" % path)
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            path = os.readlink("/proc/self/fd/%d" % dir_fd) + "/" + path
        else:
            path = os.getcwd() + "/" + path
    head, tail = os.path.split(path.rstrip("/") or "/")
    # (if the directory can't be reached, the operation fails anyway)
    return os.path.join(os.path.realpath(head, strict=True), tail)


def _inside(path):
    for a in STATE.allowed:
        if path == a or path.startswith(a + "/"):
            return True
    return False


WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _check(event, path, dir_fd, follow):
    try:
        p = _resolve(path, dir_fd)
        if follow:
            try:
                p = os.path.realpath(p, strict=True)
            except FileNotFoundError:
                p = os.path.realpath(p)
    except (OSError, ValueError, TypeError):
        return None
    if not _inside(p) and p not in ("/dev/null",):
        STATE.escapes.append((event, p))
        raise Escape("%s: %s" % (event, p))
    return p


def _hook(event, args):
    if event == "open":
        path, mode, flags = args
        if getattr(STATE.own, "active", False):
            return
        write = bool((flags or 0) & WRITE_FLAGS) if isinstance(flags, int) else False
        if isinstance(mode, str) and set(mode) & set("wax+"):
            write = True
        if isinstance(path, int):
            return
        STATE.own.active = True
        try:
            p = None
            if write:
                p = _check(event, path, None, True)
            if STATE.log is not None:
                STATE.log.append(("open-w" if write else "open-r", p or str(path)))
            if STATE.fault is not None:
                e = STATE.fault("open-w" if write else "open-r", p or str(path))
                if e is not None:
                    raise e
        finally:
            STATE.own.active = False
        return
    spec = MUTATORS.get(event)
    if spec is not None:
        if getattr(STATE.own, "active", False):
            return
        STATE.own.active = True
        try:
            ps = []
            for pi, di in spec:
                ps.append(_check(event, args[pi], args[di] if di is not None and di < len(args) else None,
                                 event in ("os.truncate",)))
            if STATE.log is not None:
                STATE.log.append((event, ps[-1] or str(args[0])))
            if STATE.fault is not None:
                e = STATE.fault(event, ps[0] or str(args[0]))
                if e is not None:
                    raise e
        finally:
            STATE.own.active = False
        return
    if event in READS:
        if getattr(STATE.own, "active", False) or STATE.fault is None:
            return
        e = STATE.fault(event, str(args[0]) if args else "")
        if e is not None:
            raise e
        return
    if event in FORBIDDEN:
        if getattr(STATE.own, "active", False) or getattr(STATE.own, "trusted", False):
            return
        STATE.escapes.append((event, repr(args)[:200]))
        raise Escape("%s %r" % (event, args))


def install(allowed):
    STATE.allowed = tuple(os.path.realpath(a) for a in allowed)
    if not STATE.installed:
        STATE.installed = True
        sys.addaudithook(_hook)


class trusted(object):
    "file accesses of the harness itself: neither logged nor subject to faults"
    def __enter__(self):
        self.prev = getattr(STATE.own, "active", False)
        STATE.own.active = True

    def __exit__(self, *a):
        STATE.own.active = self.prev
