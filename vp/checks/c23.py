"""digests and dumps"""
import hashlib
import io
import os

from vp import back, gen as G
from vp.core import Violation

TECHNIQUE = ("runtime monitoring: results compared with hashlib and with the dump of a reference tree; complete state, handle "
             "positions and metadata compared before and after")
LEVEL = "exploration"
NOTE = ("md5() of files with sizes around the block size on memory, disk and archives against hashlib, dump() of random trees "
        "against the text derived from a model tree, both while handles are open; state, positions, modes and times must stay. "
        "Dumps of contents that are no UTF-8 text are only decided for images that are excluded.")
CASES = dict(quick=22500, thorough=300000)
RULE = ("Random trees with text files, images and links; md5 of every file on one of four file systems. Distinct: (file system, "
        "size of the content) and shapes of dumped trees.")
REQUIRED = ["md5", "md5:memory", "md5:file", "md5:zip", "md5:zipmem", "md5_missing", "md5_through_link", "dumps", "dump_links",
            "dump_images", "dump_binary", "open_handles", "empty_files", "block_multiples", "mutated_between", "big", "same_size_and_time"]
SHRINK = ("tree",)


def gen(rng, i, ctx):
    where = ["memory", "memory", "memory", "file", "zip", "zipmem", "memory2"][i // 8 % 7]
    pool = G.names(rng, ctx, rng.randint(3, 5), literal=False, plain=0.4)
    for ext in (".png", ".gif", ".txt", ".PNG"):
        if rng.random() < 0.4:
            pool.append(rng.choice(["pic", "a.b", "x y"]) + ext)
    memory = where.startswith("memory")
    tree = G.tree(rng, ctx, rng.randint(2, 14), links=where in ("memory", "memory2", "file"), pool=pool, exe=memory)
    for p, v in list(tree.items()):
        if v[0] == "f":
            if rng.random() < 0.35:
                n = rng.choice([0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289, 16384, 20480, 65536, 65537])
                data = (b"%x " % rng.getrandbits(64)) * (n // 8 + 1)
                tree[p] = ("f", data[:n], v[2])
            elif memory and not is_image(p[-1]) or rng.random() < 0.2:
                tree[p] = ("f", (rng.choice([""] * 8 + ["\ufeff"]) + G.text(rng, ctx, rng.choice([0, 1, 5, 40, 4097]))).encode("utf-8"), v[2])
    return dict(where=where, tree=G.tree_list(tree), handles=[rng.random() for _ in range(3)], change=rng.random() < 0.4)


def expected(tree, be, no_binary):
    out = ["MEMORY DUMP: START\n"]

    def rec(p, text):
        for n in sorted(q[-1] for q in tree if len(q) == len(p) + 1 and q[:-1] == p):
            v = tree[p + (n,)]
            if v[0] == "d":
                out.append("DIR: %s%s\n" % (text, n))
                rec(p + (n,), text + n + "/")
            elif v[0] == "l":
                out.append("LINK: %s%s -> %s\n" % (text, n, be.uri(v[1])))
            else:
                if no_binary and is_image(n):
                    content = "Binary: " + hashlib.md5(v[1]).hexdigest()
                else:
                    content = v[1].decode("utf-8")
                out.append("--- START %s%s ---\n%s\n--- END ---\n\n" % (text, n, content))
    rec((), "memory:///")
    return "".join(out + ["MEMORY DUMP: END\n"])


def run(case, ctx):
    from abl.vpath.base.exceptions import PathError
    back.reset_registry()
    where = case["where"]
    tree = G.tree_dict(case["tree"])
    if where.startswith("zip"):
        tree = {p: v for p, v in tree.items() if v[0] != "l"}
    if where == "file":
        base = os.path.join(ctx.fresh_dir(), "base")
        os.mkdir(base)
        be = back.Loc(base)
        back.build_os(base, tree)
    elif where.startswith("memory"):
        be = back.Mem("instance=two" if where == "memory2" else None)
        back.build(be, tree)
    else:
        be = back.Zip(("os", os.path.join(ctx.fresh_dir(), "a.zip")) if where == "zip" else ("memory", "/a.zip"))
        be.put(back.zip_bytes(tree))
    files = [p for p in sorted(tree) if tree[p][0] == "f"]
    # handles that are in use meanwhile
    handles = []
    if files:
        for x in case["handles"]:
            p = files[int(x * len(files)) % len(files)]
            h = be.uri(p).open("rb")
            n = int(len(tree[p][1]) * (x * 7 % 1))
            if h.read(n) != tree[p][1][:n]:
                raise Violation("wrong content")
            handles.append((h, p, n))
            ctx.count("open_handles")
    look(ctx, be, tree, where, PathError)
    if where.startswith("memory"):
        dump(ctx, be, tree)
        if case["change"] and files:
            # it's the current content that counts
            p = files[0]
            old, data = be.uri(p).info(), tree[p][1]
            keep = is_text(data) and len(data) > 0 and case["handles"][0] < 0.5
            if keep:
                # neither size nor time tell about it
                tree[p] = ("f", b"~" * len(data), tree[p][2])
            else:
                tree[p] = ("f", b"changed " + data[:10].decode("utf-8", "ignore").encode("utf-8"), tree[p][2])
            with be.uri(p).open("wb") as h:
                h.write(tree[p][1])
            if keep:
                be.uri(p).info(set_info=dict(mtime=old.mtime))
                ctx.count("same_size_and_time")
            q = ("zz new",)
            if q not in tree:
                tree[q] = ("f", b"new", 0)
                with be.uri(q).open("wb") as h:
                    h.write(b"new")
            handles = [x for x in handles if x[1] != p]
            ctx.count("mutated_between")
            look(ctx, be, tree, where, PathError)
            dump(ctx, be, tree)
    for h, p, n in handles:
        if not where.startswith("zip") and h.tell() != n:
            raise Violation("the position of an open handle has changed from %d to %d" % (n, h.tell()))
        if h.read() != tree[p][1][n:]:
            raise Violation("an open handle reads something else")
        h.close()
    if case["change"] and files and not where.startswith("memory"):
        p = files[-1]
        tree[p] = ("f", tree[p][1][:-1] + (b"y" if tree[p][1].endswith(b"x") else b"x"), tree[p][2])
        old = os.stat(be.abspath(p)) if where == "file" else None
        with be.uri(p).open("wb") as h:
            h.write(tree[p][1])
        if old is not None:
            os.utime(be.abspath(p), ns=(old.st_atime_ns, old.st_mtime_ns))
            ctx.count("same_size_and_time")
        ctx.count("mutated_between")
        look(ctx, be, tree, where, PathError)


def meta(be, tree):
    if be.kind == "file":
        return {p: (lambda s: (s.st_mode, s.st_mtime_ns, s.st_size, s.st_ino))(os.lstat(be.abspath(p))) for p in tree}
    if be.kind == "memory":
        res = {}
        for p in tree:
            i = be.uri(p).info(followlinks=False)
            res[p] = (i.mode, i.mtime, i.size)
        return res
    return be.raw()


def resolve(tree, p):
    for _ in range(25):
        for k in range(1, len(p) + 1):
            v = tree.get(p[:k])
            if v is None:
                return None
            if v[0] == "l":
                p = v[1] + p[k:]
                break
        else:
            return p
    return None


def look(ctx, be, tree, where, PathError):
    before, state = meta(be, tree), be.snapshot()
    for p in sorted(tree) + [("missing one",)]:
        r = resolve(tree, p)
        v = tree.get(r, ("-",)) if r else ("-",)
        try:
            got = be.uri(p).md5()
        except (OSError, PathError) as e:
            if v[0] == "f":
                raise Violation("md5 of /%s fails: %r" % ("/".join(p), e))
            ctx.count("md5_missing")
            continue
        if v[0] != "f":
            raise Violation("md5 of /%s (%s) is %r" % ("/".join(p), v[0], got))
        want = hashlib.md5(v[1]).hexdigest()
        if got != want:
            raise Violation("md5 of /%s (%d bytes) is %r instead of %r" % ("/".join(p), len(v[1]), got, want))
        n = len(v[1])
        ctx.count("md5")
        ctx.count("md5:" + ("memory" if where == "memory2" else where))
        if r != p:
            ctx.count("md5_through_link")
        if n == 0:
            ctx.count("empty_files")
        elif n % 4096 == 0:
            ctx.count("block_multiples")
        if n > 16384:
            ctx.count("big")
        ctx.sig(where, n)
    if meta(be, tree) != before or be.snapshot() != state:
        raise Violation("md5 changes something: %s" % back.diff(state, be.snapshot()))


def dump(ctx, be, tree):
    before, state = meta(be, tree), be.snapshot()
    text = {p for p, v in tree.items() if v[0] == "f" and is_text(v[1])}
    images = {p for p, v in tree.items() if is_image(p[-1])}
    for no_binary in (False, True):
        readable = all(v[0] != "f" or p in text or no_binary and p in images for p, v in tree.items())
        out = io.StringIO()
        connection = be.root.get_connection()
        if no_binary:
            connection.dump(out, no_binary=True)
        else:
            connection.dump(out)
        if not readable:
            continue
        want = expected(tree, be, no_binary)
        if out.getvalue() != want:
            a, b = want.splitlines(True), out.getvalue().splitlines(True)
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            raise Violation("dump (no_binary=%s) shows %r instead of %r" % (no_binary, b[k:k + 3], a[k:k + 3]))
        ctx.count("dumps")
        if no_binary and any(tree[p][0] == "f" for p in images):
            ctx.count("dump_images")
            if any(p in images and p not in text for p in tree if tree[p][0] == "f"):
                ctx.count("dump_binary")
        if any(v[0] == "l" for v in tree.values()):
            ctx.count("dump_links")
        ctx.sig("dump", tuple((len(p), v[0]) for p, v in sorted(tree.items())))
    if meta(be, tree) != before or be.snapshot() != state:
        raise Violation("dump changes something: %s" % back.diff(state, be.snapshot()))


def is_text(data):
    try:
        data.decode("utf-8")
    except UnicodeDecodeError:
        return False
    return True


def is_image(name):
    return os.path.splitext(name)[1].lower() in (".png", ".gif")
