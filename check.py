#!/usr/bin/env python3
"""check.py PROPERTY...   – decides properties on /repo's current working tree by static analysis.
exit 0: holds on everything analysed; exit 1: VIOLATION line(s); other: error of the check."""
import os
import re
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    pids = []
    for a in argv:
        if a in ("--thorough",):
            tier = "thorough"
        elif a in ("--quick",):
            tier = "quick"
        else:
            pids.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from engine import build
    from checks import base
    import checks.all  # noqa: F401  (registers every check)
    if "--setup" in pids:
        P, h = build.load()
        print(f"ready: {len(P.fns)} functions, tree {h}")
        return 0
    P, h = build.load()
    known = known_findings()
    if pids == ["all"]:
        pids = sorted(base.REGISTRY)
    rc = 0
    for pid in pids:
        ctx, listed, fresh = base.run(pid, tier, seed, P, known, os.path.join(HERE, "evidence"), h)
        n = len(ctx.obs)
        und = sum(1 for o in ctx.obs if o[1] == "undecided")
        print(f"{pid}: {n} obligations, {n - und - len([o for o in ctx.obs if o[1] == 'violated'])} hold, {und} undecided, "
              f"{len(ctx.violations)} violated; " + ", ".join(f"{k}={v}" for k, v in ctx.counts.items()))
        if os.environ.get("VERBOSE"):
            for o in ctx.obs:
                print("   ", o[1], o[0], "|", o[2])
        for k, t in listed:
            print(f"KNOWN-FINDING: property={pid} {known[(pid, k)]}")
        if fresh:
            rc = 1
            rp = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
            with open(rp, "w", encoding="utf-8") as fh:
                for k, t in fresh:
                    fh.write(f"key: {k}\n{t}\n\n")
            for k, t in fresh:
                print(f"  {k}: {t}"[:1500])
            print(f"VIOLATION property={pid} replay={rp}")
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
