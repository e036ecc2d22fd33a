"""
Unprivileged worker process: runs its share of the cases of a check.
"""
import errno
import faulthandler
import gc
import importlib
import json
import os
import shutil
import signal
import stat
import sys
import time
import traceback

SPEC = json.loads(sys.argv[1])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, SPEC["repo"])
faulthandler.enable()

from vp import core, guard  # noqa: E402


class Timeout(BaseException):
    pass


STATE = {"deadline_cpu": 0.0, "why": None}
CPU_BUDGET = float(os.environ.get("VP_CPU_BUDGET", "15"))
WALL_BUDGET = 90.0
_pc = time.perf_counter


def _alarm(signum, frame):
    STATE["why"] = "cpu" if signum == signal.SIGVTALRM else "wall"
    raise Timeout(STATE["why"])


def start_watchdog(factor):
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET * factor, 1.0)
    signal.setitimer(signal.ITIMER_REAL, WALL_BUDGET * factor, 1.0)


def stop_watchdog():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


class LineMonitor(object):
    "which lines of the repository were executed (evidence only)"
    def __init__(self, repo):
        self.prefix = os.path.join(repo, "abl", "vpath") + "/"
        self.lines = {}
        self.mon = getattr(sys, "monitoring", None)

    def start(self):
        if self.mon is None:
            return
        m = self.mon
        try:
            m.use_tool_id(m.COVERAGE_ID, "vp")
        except ValueError:
            self.mon = None
            return
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self.line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)

    def line(self, code, lineno):
        f = code.co_filename
        if f.startswith(self.prefix):
            self.lines.setdefault(f[len(self.prefix):], set()).add(lineno)
        return self.mon.DISABLE

    def result(self):
        res = {}
        for f, ls in self.lines.items():
            try:
                with open(self.prefix + f) as h:
                    code = compile(h.read(), self.prefix + f, "exec")
            except Exception:
                continue
            all_lines = set()
            todo = [code]
            while todo:
                c = todo.pop()
                if c.co_name != "<module>":
                    all_lines.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
                todo.extend(x for x in c.co_consts if hasattr(x, "co_code"))
            res[f] = [sorted(ls & all_lines), len(all_lines)]
        return res


def empty_dir(d):
    for name in os.listdir(d):
        p = os.path.join(d, name)
        try:
            if stat.S_ISDIR(os.lstat(p).st_mode):
                shutil.rmtree(p, ignore_errors=True)
                if os.path.lexists(p):
                    for dd, _, _ in os.walk(p):
                        os.chmod(dd, 0o700)
                    shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        except OSError:
            pass


def run_case(check, case, ctx, factor=1):
    """@return: None, or (message, mechanism)"""
    guard.STATE.escapes = []
    guard.STATE.fault = None
    guard.STATE.log = None
    STATE["why"] = None
    start_watchdog(factor * getattr(check, "PATIENCE", 1))
    cpu0, wall0 = time.process_time(), _pc()
    try:
        try:
            check.run(case, ctx)
        finally:
            stop_watchdog()
            guard.STATE.fault = None
            guard.STATE.log = None
            guard.STATE.own.active = False
    except Timeout:
        cpu, wall = time.process_time() - cpu0, _pc() - wall0
        if STATE["why"] == "wall" and cpu > 0.2 * wall:
            return ("inconclusive", "slow case: %.1fs cpu in %.1fs" % (cpu, wall))
        return ("hang", "the case does not come to an end (%.1fs of cpu time, %.1fs)" % (cpu, wall))
    except core.Skip:
        return None
    except core.Violation as e:
        if guard.STATE.escapes:
            return ("violation", "%s; escaped: %s" % (e, guard.STATE.escapes[:3]), e.mechanism)
        return ("violation", str(e), e.mechanism)
    except guard.Escape as e:
        return ("violation", "change outside of the addressed files: %s" % e, None)
    except MemoryError:
        return ("violation", "out of memory", None)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = any(f.filename.startswith(SPEC["repo"] + "/") for f in tb)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if inrepo:
            return ("violation", "unexpected %s: %s\n%s" % (type(e).__name__, e, text), None)
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EDQUOT):
            return ("error", text)
        # cases are valid by construction: the code under test answered with something that makes no sense
        return ("violation", "unusable result, %s: %s\n%s" % (type(e).__name__, e, text), None)
    finally:
        with guard.trusted():
            os.chdir(ctx.dir)
            empty_dir(ctx.fs)
    if guard.STATE.escapes:
        return ("violation", "change outside of the addressed files: %s" % guard.STATE.escapes[:3], None)
    return None


def decide(check, case, ctx):
    r = run_case(check, case, ctx)
    if r is not None and r[0] in ("hang", "inconclusive"):
        r2 = run_case(check, case, ctx, factor=2)
        if r[0] == "hang" and r2 is not None and r2[0] == "hang":
            return ("violation", r2[1], None)
        if r2 is not None and r2[0] in ("hang", "inconclusive"):
            return ("error", r2[1])
        return r2
    return r


def shrink(check, case, ctx, first, budget=25.0):
    "drop operations as long as the case still fails"
    best, msg = case, first
    t0 = _pc()
    for key in getattr(check, "SHRINK", ("ops",)):
        if not isinstance(best.get(key), list):
            continue
        n = max(1, len(best[key]) // 2)
        while n >= 1 and _pc() - t0 < budget:
            i = 0
            progress = False
            while i < len(best[key]) and _pc() - t0 < budget:
                cand = dict(best)
                cand[key] = best[key][:i] + best[key][i + n:]
                try:
                    r = run_case(check, cand, ctx)
                except Exception:
                    r = None
                if r is not None and r[0] == "violation" and r[2] == first[2]:
                    best, msg, progress = cand, r, True
                else:
                    i += n
            if not progress:
                n //= 2
    return best, msg


def main():
    os.umask(0o022)
    prop = SPEC["prop"]
    check = importlib.import_module("vp.checks.%s" % prop.lower())
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    ctx = core.Ctx(SPEC)
    if hasattr(check, "before_import"):
        check.before_import(ctx)
    mon = LineMonitor(SPEC["repo"])
    mon.start()
    import abl.vpath.base as target
    if not os.path.abspath(target.__file__).startswith(os.path.abspath(SPEC["repo"]) + "/"):
        raise SystemExit("wrong code under test: %s" % target.__file__)
    from vp import gen
    gen.mine(ctx, SPEC["repo"])
    guard.install([ctx.fs, os.path.join(ctx.dir, "out")])
    if hasattr(check, "setup"):
        check.setup(ctx)
    gc.collect()

    violations, errors, samples = [], [], []
    evaluations = 0
    stopped = 0
    t0 = _pc()

    def report(case, r, i, do_shrink=True):
        original = None
        msg = r
        if do_shrink and isinstance(case, dict):
            small, msg = shrink(check, case, ctx, r)
            if small is not case:
                original, case = case, small
        violations.append(dict(case=core.jsonable(case), message="%s: %s" % (prop, msg[1]),
                               mechanism=msg[2], case_no=i, original=core.jsonable(original)))

    if SPEC["replay"]:
        with open(SPEC["replay"]) as f:
            case = core.unjson(json.load(f)["case"])
        r = decide(check, case, ctx)
        evaluations = 1
        if r is not None:
            if r[0] == "violation":
                report(case, r, 0, do_shrink=False)
            else:
                errors.append(r[1])
    else:
        total = SPEC["cases"] or check.CASES[SPEC["tier"]]
        soft = 500 if SPEC["tier"] == "quick" else 4800
        per_mech = {}
        for i in range(SPEC["shard"], total, SPEC["nshards"]):
            if _pc() - t0 > soft:
                stopped = 1
                break
            rng = core.rng_for(SPEC, prop, i)
            case = check.gen(rng, i, ctx)
            if case is None:
                continue
            evaluations += 1
            r = decide(check, case, ctx)
            if len(samples) < 1 and r is None and i >= SPEC["shard"] + 3 * SPEC["nshards"]:
                s = core.jsonable(case)
                if len(json.dumps(s)) < 6000:
                    samples.append(s)
            if r is None:
                continue
            if r[0] == "violation":
                m = r[2]
                per_mech[m] = per_mech.get(m, 0) + 1
                if per_mech[m] <= 3:
                    report(case, r, i, do_shrink=per_mech[m] == 1)
                if m is None and per_mech[m] >= 3:
                    break
            else:
                errors.append("case %d: %s" % (i, r[1]))
                if len(errors) >= 3:
                    break
    if hasattr(check, "teardown"):
        check.teardown(ctx)
    result = dict(counters=dict(ctx.counters), signatures=sorted(ctx.signatures), samples=samples,
                  violations=violations, errors=errors, evaluations=evaluations,
                  stopped_early=stopped, lines=mon.result())
    out = os.path.join(ctx.dir, "out", "result.json")
    with guard.trusted():
        with open(out + ".tmp", "w") as f:
            json.dump(result, f)
        os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
