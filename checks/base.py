"""Common machinery of the checks: obligations, violations, floors, evidence."""
import json
import os
import signal
import time
import traceback

from engine import spec as S

REGISTRY = {}
ONE_S, ALL_S = 200, 600     # time for one obligation, and for all of a check


class OutOfTime(Exception):
    pass


def _alarm(*_):
    raise OutOfTime("out of time")


def guarded(ctx, name, f):
    """An analysis that fails or takes too long decides nothing."""
    left = ALL_S - (time.time() - ctx.t0)
    if left <= 1:
        ctx.undecided(name, "out of time")
        return None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(min(ONE_S, left)))
    try:
        return f()
    except OutOfTime:
        ctx.undecided(name, "out of time")
    except (Exception, RecursionError):
        ctx.undecided(name, "the analysis failed: " + traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def check(pid, technique):
    def deco(f):
        REGISTRY[pid] = (f, technique)
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier, P):
        self.pid, self.tier, self.P = pid, tier, P
        self.obs = []            # (name, status, detail)
        self.violations = []     # (key, text)
        self.samples = []
        self.counts = {}
        self.rules = []
        self.t0 = time.time()

    # -------------------------------------------------------------- results
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, name, detail=None):
        self.obs.append((name, "holds", detail))

    def undecided(self, name, why):
        self.obs.append((name, "undecided", why))

    def bad(self, key, text):
        """key: stable (no line numbers); text: diagnosable."""
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))
        self.obs.append((key, "violated", text))

    def floor(self, name, got, want):
        """Vacuity guard: the number of instances must not fall below what was counted by hand."""
        self.counts[name] = got
        if got < want:
            self.bad(f"floor:{name}", f"only {got} instances of '{name}' found, {want} expected: "
                                      f"the code this property is anchored in is gone or no longer recognised")

    def one(self, what, fns):
        """Public anchor: exactly one function, or a violation."""
        fns = [f for f in fns if f is not None]
        if len(fns) != 1:
            self.bad(f"anchor:{what}", f"anchor '{what}' matches {len(fns)} functions (expected one)")
            return None
        return fns[0]

    def maybe(self, what, fns):
        """A function that is not part of the public interface: undecided when it is gone."""
        fns = [f for f in fns if f is not None]
        if len(fns) != 1:
            self.undecided(what, f"{len(fns)} functions of that name (expected one)")
            return None
        return fns[0]

    def where(self, fi):
        return location(self.P, fi)

    # -------------------------------------------------------------- helpers
    def agree(self, name, fi, spec, **kw):
        if fi is None:
            return None
        return guarded(self, name, lambda: self._agree(name, fi, spec, **kw))

    def _agree(self, name, fi, spec, **kw):
        r = S.agree(self.P, fi, spec, **kw)
        self.count("functions analysed")
        self.count("paths", r["paths"])
        self.count("path cases compared", r["cases"])
        self.count("cases undecided", r["undecided"])
        if r["bad"]:
            self.bad(f"{name}", f"{self.where(fi)} {fi.qual}: {name}: " + r["bad"][0] +
                     (f" (and {len(r['bad']) - 1} more paths)" if len(r["bad"]) > 1 else ""))
        elif r["undecided"] and not r["agree"]:
            self.undecided(name, r.get("reason", "result not interpreted"))
        elif r["undecided"]:
            self.undecided(name, f"{r['undecided']} of {r['cases']} cases; {r.get('reason', '')}")
        else:
            self.ok(name, f"{r['paths']} paths, {r['cases']} cases")
        if len(self.samples) < 6:
            self.samples.append(f"{name}: {fi.qual}: {r['paths']} paths, {r['cases']} cases, {r['agree']} agree, "
                                f"{r['undecided']} undecided, {len(r['bad'])} disagree")
        return r


    def spec(self, name):
        """Reference specification: 'util::walker::vec' -> function of specs/util__walker.rs"""
        mod, fn = name.rsplit("::", 1)
        r = [f for f in self.P.fns if f.mir.owner == "spec" and f.name == f"{mod}::verif_spec::{fn}"]
        return r[0] if r else None

    def refine(self, name, fi, spec, **kw):
        """fi must refine the specification named spec."""
        if fi is None:
            return None
        return guarded(self, name, lambda: self._refine(name, fi, spec, **kw))

    def _refine(self, name, fi, spec, **kw):
        sp = self.spec(spec)
        if sp is None:
            self.undecided(name, f"specification {spec} does not compile against this tree")
            return None
        from engine.refine import Refine
        strict = kw.pop("strict_err", False)
        r = Refine(self.P, fi, sp, **kw)
        r.strict_err = strict
        R = r.run()
        if R.bad:
            # an analysis that cannot tell the function from itself must not judge it
            q = Refine(self.P, fi, fi, **kw)
            q.strict_err = strict
            Q = q.run()
            if Q.bad:
                R.undecided = R.undecided + ["not even comparable with itself: " + Q.bad[0][:200]]
                R.bad = []
        self.count("functions compared with a specification")
        self.count("paths", R.paths)
        self.count("path cases compared", R.cases)
        self.count("cases undecided", len(R.undecided))
        if R.bad:
            self.bad(name, f"{self.where(fi)} {fi.qual}: {name}: " + R.bad[0] +
                     (f" (and {len(R.bad) - 1} more cases)" if len(R.bad) > 1 else ""))
        elif R.undecided:
            self.undecided(name, f"{len(R.undecided)} of {R.cases} cases: {R.undecided[0][:300]}")
        else:
            self.ok(name, f"{R.paths} paths, {R.cases} cases")
        if len(self.samples) < 8:
            self.samples.append(f"{name}: {fi.qual}: {R.paths} paths, {R.cases} cases, {R.agree} agree, "
                                f"{len(R.undecided)} undecided, {len(R.bad)} disagree")
        return R


def location(P, fi):
    for b in fi.mir.blocks.values() if isinstance(fi.mir.blocks, dict) else fi.mir.blocks:
        t = b.term
        if t and isinstance(t[-1], str) and ".rs:" in t[-1]:
            return t[-1].split(": ")[0]
    return fi.file or "?"


def run(pid, tier, seed, P, known, out_dir, tree):
    f, technique = REGISTRY[pid]
    ctx = Ctx(pid, tier, P)
    try:
        f(ctx)
    except Exception:
        ctx.undecided("rest of the check", "the analysis failed: " + traceback.format_exc()[-600:])
    holds = sum(1 for o in ctx.obs if o[1] == "holds")
    und = [o for o in ctx.obs if o[1] == "undecided"]
    listed = [(k, t) for k, t in ctx.violations if (pid, k) in known]
    fresh = [(k, t) for k, t in ctx.violations if (pid, k) not in known]
    cov = {
        "explanation": technique + ". " + " ".join(ctx.rules),
        "obligations": len(ctx.obs), "discharged": holds,
        "undecided": [{"obligation": o[0], "why": o[2]} for o in und],
        "samples": ctx.samples or [f"{o[0]}: {o[1]} {o[2] or ''}" for o in ctx.obs[:6]],
        "tree": tree,
        "obligation_list": [f"{o[0]}: {o[1]}" for o in ctx.obs][:400],
    }
    cov.update({k.replace(" ", "_"): v for k, v in ctx.counts.items()})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 3), "violations": len(fresh),
          "assumptions": ["rustc's type-checked MIR is what runs", "library functions behave as their transfer functions say"]}
    os.makedirs(out_dir, exist_ok=True)
    with open(os.path.join(out_dir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    return ctx, listed, fresh
