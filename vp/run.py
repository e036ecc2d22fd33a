"""
Controller of a check: creates the scratch directory, starts unprivileged
worker processes, merges what their monitors observed, writes the evidence file
and decides.

exit 0: held on everything observed (known findings are printed)
exit 1: VIOLATION line, replay file written
exit 2: inconclusive (a worker died, or the deciding monitor was never reached)
"""
import argparse
import collections
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

UID = 64123   # owns nothing in the sandbox but the scratch directory


def known_findings(prop):
    result = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry["property"] == prop:
                        result.append(entry)
    return result


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VP_WORKERS", "0")))
    ap.add_argument("--cases", type=int, default=0)
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    t0 = time.time()
    repo = os.environ.get("VP_REPO", "/repo")
    check = importlib.import_module("vp.checks.%s" % args.prop.lower())
    nworkers = args.workers or min(8, max(2, os.cpu_count() or 2))
    if args.replay:
        nworkers = 1
    evdir = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    replays = os.path.join(evdir, "replays")
    os.makedirs(replays, exist_ok=True)

    scratch = tempfile.mkdtemp(prefix="vp_%s_" % args.prop, dir="/tmp")
    root = os.getuid() == 0
    procs = []
    results = []
    errors = []
    try:
        os.chmod(scratch, 0o755)
        for i in range(nworkers):
            wdir = os.path.join(scratch, "w%d" % i)
            os.mkdir(wdir)
            os.mkdir(os.path.join(wdir, "out"))
            os.mkdir(os.path.join(wdir, "fs"))
            os.mkdir(os.path.join(wdir, "pyc"))
            if root:
                for d in (wdir, wdir + "/out", wdir + "/fs", wdir + "/pyc"):
                    os.chown(d, UID, UID)
            env = {
                "PATH": "/usr/bin:/bin", "HOME": wdir, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
                "PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONPYCACHEPREFIX": wdir + "/pyc",
                "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": wdir + "/fs",
                "VP_REPO": repo, "GIT_CONFIG_NOSYSTEM": "1", "TZ": "UTC",
            }
            cmd = [sys.executable, "-W", "ignore", os.path.join(HERE, "worker.py"),
                   json.dumps(dict(prop=args.prop, tier=args.tier, seed=args.seed, shard=i,
                                   nshards=nworkers, dir=wdir, repo=repo, cases=args.cases,
                                   replay=os.path.abspath(args.replay) if args.replay else None))]
            kw = dict(user=UID, group=UID, extra_groups=[]) if root else {}
            log = open(os.path.join(wdir, "log"), "wb")
            try:
                p = subprocess.Popen(cmd, env=env, cwd=wdir, stdin=subprocess.DEVNULL, stdout=log,
                                     stderr=subprocess.STDOUT, preexec_fn=limits, umask=0o022, **kw)
            except PermissionError:
                # no right to become somebody else: the audit guard remains
                root = False
                p = subprocess.Popen(cmd, env=env, cwd=wdir, stdin=subprocess.DEVNULL, stdout=log,
                                     stderr=subprocess.STDOUT, preexec_fn=limits, umask=0o022)
            procs.append((i, p, wdir))
        deadline = t0 + (780 if args.tier == "quick" else 5400)
        for i, p, wdir in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                errors.append("worker %d did not finish in time" % i)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            out = os.path.join(wdir, "out", "result.json")
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(os.path.join(wdir, "log"), "rb") as f:
                    tail = f.read()[-3000:].decode("utf-8", "replace")
                errors.append("worker %d: no result, exit %s\n%s" % (i, p.returncode, tail))
            if os.environ.get("VP_LOGS"):
                with open(os.path.join(wdir, "log"), "rb") as f:
                    sys.stderr.write(f.read().decode("utf-8", "replace"))
    finally:
        for _, p, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        for _ in range(3):
            shutil.rmtree(scratch, ignore_errors=True)
            if not os.path.exists(scratch):
                break
            for d, ds, fs in os.walk(scratch):
                try:
                    os.chmod(d, 0o700)
                except OSError:
                    pass

    counters = collections.Counter()
    signatures = set()
    samples, violations = [], []
    lines = {}
    evaluations = 0
    stopped = 0
    for r in results:
        counters.update(r["counters"])
        signatures.update(r["signatures"])
        samples.extend(r["samples"])
        violations.extend(r["violations"])
        evaluations += r["evaluations"]
        stopped += r["stopped_early"]
        errors.extend(r["errors"])
        for f, ls in r["lines"].items():
            lines.setdefault(f, [set(), 0])
            lines[f][0].update(ls[0])
            lines[f][1] = ls[1]
    violations.sort(key=lambda v: (len(json.dumps(v["case"])), v["case_no"]))

    known = known_findings(args.prop)
    listed = {}
    fresh = []
    for v in violations:
        for k in known:
            if v.get("mechanism") == k["mechanism"]:
                listed.setdefault(k["mechanism"], (k, v))
                break
        else:
            fresh.append(v)

    rule = check.RULE
    required = getattr(check, "REQUIRED", [])
    inconclusive = [c for c in required if not counters.get(c)] if not args.replay else []
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(signatures),
        rule=rule,
        samples=samples[:6],
        observed=dict(sorted(counters.items())),
        repo_lines_executed={f: "%d/%d" % (len(x[0]), x[1]) for f, x in sorted(lines.items())},
        workers=len(results),
        stopped_early=stopped,
        known_findings=sorted(listed),
    )
    evidence = dict(property=args.prop, tier=args.tier, seed=args.seed, level=check.LEVEL,
                    coverage=coverage, assumptions=getattr(check, "ASSUMPTIONS", []),
                    wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not args.replay:
        tmp = os.path.join(evdir, "%s.json.tmp%d" % (args.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(evdir, "%s.json" % args.prop))

    print("%s tier=%s seed=%d: %d cases, %d distinct, %d violations, %.1fs" % (
        args.prop, args.tier, args.seed, evaluations, len(signatures), len(fresh),
        time.time() - t0))
    for k, (entry, v) in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, entry["what"]))
    if fresh:
        v = fresh[0]
        path = os.path.join(replays, "%s-%s-%d.json" % (args.prop, args.tier, args.seed))
        with open(path, "w") as f:
            json.dump(dict(property=args.prop, seed=args.seed, tier=args.tier, case=v["case"],
                           message=v["message"], original=v.get("original"),
                           others=[x["message"] for x in fresh[1:20]]), f, indent=1)
            f.write("\n")
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        sys.stdout.flush()
        return 1
    for e in errors:
        print("ERROR: %s" % e)
    if errors or not results:
        return 2
    if inconclusive:
        print("INCONCLUSIVE: never observed: %s" % ", ".join(inconclusive))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
