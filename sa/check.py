#!/usr/bin/env python3
"""Decide one property of /repo's current source.

    python3 /verif/sa/check.py C09 [--tier quick|thorough] [--jobs N] [-v]

exit 0  no obligation is broken
exit 1  a line "VIOLATION property=<id> replay=<path>" per report
exit 2  the analysis could not anchor itself in the source (no verdict)
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


class Deadline(BaseException):
    pass


def _alarm(*a):
    raise Deadline()


class Result:
    """What one task established."""

    def __init__(self):
        self.held = 0
        self.open = []        # (obligation, why)
        self.broken = []      # finding dicts
        self.stats = {}
        self.items = []       # analysed things
        self.functions = []
        self.missing = None

    def hold(self, n=1):
        self.held += n

    def leave(self, ob, why):
        self.open.append((ob, str(why)[:600]))

    def breach(self, rule, construct, site, msg, path=()):
        self.broken.append({"rule": rule, "construct": construct, "site": site, "message": msg,
                            "path": list(path)})

    def count(self, **k):
        for a, b in k.items():
            self.stats[a] = self.stats.get(a, 0) + b


_W = None


def work(job):
    """Run one task in a worker process."""
    global _W
    import checks
    pid, task, secs = job
    if _W is None:
        signal.signal(signal.SIGALRM, _alarm)
        import build
        _W = build.World()
        _W.anchor()
    from build import Missing
    r = Result()
    _W.paths = 0
    signal.setitimer(signal.ITIMER_REAL, secs)
    t0 = time.time()
    try:
        checks.CHECKS[pid].run(_W, task, r)
    except Deadline:
        r.leave(str(task), "time limit of %d s for this operation" % secs)
    except Missing as e:
        r.missing = str(e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        r.leave(str(task), "analysis error %r at %s" % (e, ["%s:%d" % (os.path.basename(x.filename), x.lineno)
                                                            for x in tb[-2:]]))
        r.stats["errors"] = 1
        _W = None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.stats["paths"] = r.stats.get("paths", 0) + (_W.paths if _W else 0)
    if _W:
        r.functions = sorted(_W.visited)
    r.wall = time.time() - t0
    return task, r


def known_findings():
    """property -> {(rule, construct)} listed as known defects."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+) (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), {})[(m.group(2), m.group(3))] = m.group(4)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", default=None, help="substring filter on tasks (debugging; no evidence written)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.property
    import checks
    if pid not in checks.CHECKS:
        print("ERROR unknown property", pid)
        return 2
    ck = checks.CHECKS[pid]
    thorough = a.tier == "thorough"
    if thorough:
        ck.secs *= 4
        ck.budget *= 4
    tasks = ck.tasks(thorough)
    if a.only:
        tasks = [t for t in tasks if a.only in str(t)]
    secs = ck.task_secs * (4 if thorough else 1)
    jobs = [(pid, t, secs) for t in tasks]
    res = []
    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            res.append(work(j))
    else:
        with mp.get_context("fork").Pool(a.jobs) as pool:
            limit = 780 if not thorough else 860
            it = pool.imap_unordered(work, jobs, chunksize=1)
            done = set()
            try:
                for _ in jobs:
                    t, r = it.next(timeout=max(5, limit - (time.time() - t0)))
                    done.add(repr(t))
                    res.append((t, r))
            except mp.TimeoutError:
                for j in jobs:
                    if repr(j[1]) not in done:
                        r = Result()
                        r.leave(str(j[1]), "total time limit")
                        r.wall = 0
                        res.append((j[1], r))
                pool.terminate()
    res.sort(key=lambda x: str(x[0]))
    missing = sorted({r.missing for _, r in res if r.missing})
    held = sum(r.held for _, r in res)
    opens = [(o, w) for _, r in res for o, w in r.open]
    stats = {}
    funcs = set()
    for _, r in res:
        funcs |= set(r.functions)
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    groups = {}
    for _, r in res:
        for b in r.broken:
            groups.setdefault((b["rule"], b["construct"]), []).append(b)
    known = known_findings().get(pid, {})
    viol = []
    os.makedirs(os.path.join(VERIF, "reports"), exist_ok=True)
    n = 0
    for (rule, con), bs in sorted(groups.items()):
        if (rule, con) in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[(rule, con)]))
            continue
        n += 1
        path = os.path.join(VERIF, "reports", "%s-%d.json" % (pid, n))
        b = bs[0]
        json.dump({"property": pid, "rule": rule, "construct": con, "site": b["site"], "message": b["message"],
                   "reproduce": "python3 %s %s" % (os.path.join(HERE, "check.py"), pid),
                   "occurrences": bs[:20]}, open(path, "w"), indent=1)
        viol.append({"rule": rule, "construct": con, "site": b["site"], "message": b["message"], "replay": path})
        print("  %s: [%s] %s: %s" % (b["site"], rule, con, b["message"]))
        for l in b["path"][:6]:
            print("      " + l)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    total = held + len(opens) + sum(len(b) for b in groups.values())
    print("%s: %d tasks, %d abstract paths, %d obligations: %d hold, %d open, %d broken (%.1f s)" % (
        pid, len(tasks), stats.get("paths", 0), total, held, len(opens), len(viol), time.time() - t0))
    if a.v or a.only:
        for o, w in opens[:60]:
            print("   open: %s -- %s" % (o, w))
        print("  ", {k: v for k, v in stats.items()})
        slow = sorted(((r.wall, str(t)) for t, r in res), reverse=True)[:5]
        print("   slowest:", ["%s %.1fs" % (t, s) for s, t in slow])
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": ck.level,
        "coverage": {
            "explanation": ck.explanation,
            "rule": ck.rule,
            "tasks": len(tasks),
            "analysed": [str(t) for t in tasks][:400],
            "abstract_paths": stats.get("paths", 0),
            "obligations": total,
            "obligations_held": held,
            "obligations_open": [{"obligation": o, "why": w} for o, w in opens][:200],
            "functions_analysed": sorted(funcs),
            "counts": stats,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ck.assumptions,
        "violations": viol,
    }
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        return 1
    if missing:
        print("ERROR property=%s anchors vanished from the source: %s" % (pid, ", ".join(missing[:10])))
        return 2
    if not a.only and held == 0:
        print("ERROR property=%s nothing could be decided" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
