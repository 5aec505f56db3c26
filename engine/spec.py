"""Agreement of a function's abstract path table with a specification.

A specification is a Python function over the same abstract values; it asks about tags, equalities and orderings
through Q.  For every path of the analysed function the specification is evaluated under the facts of that path;
a question the path leaves open is answered both ways (a finite case split), so a path that ignores something it
should look at disagrees with one of the cases.  The comparison itself is structural; where the function's result
depends on something the analysis does not interpret the pair is counted as undecided, never as a violation.
"""
from .absint import (Interp, State, Outcome, Budget, Unsupported, tok, key, show, const, app, ok, err, some, NONE, TRUE,
                     FALSE, UNIT, mkbool)
from . import rtypes as T
from . import models


class Any_:
    """Matches everything."""
    def __repr__(self):
        return "ANY"


ANY = ("any",)
PANIC = ("panic",)
SKIP = ("skip",)          # outside the specified domain


class Q:
    """Answers a specification's questions from path facts; open ones follow a script of choices."""

    def __init__(self, I, st, script):
        self.I, self.st, self.script, self.pos, self.widths = I, st, script, 0, []

    def _pick(self, opts):
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            self.st = opts[0][0]
            return opts[0][1]
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.widths.append(len(opts))
        self.pos += 1
        self.st = opts[i][0]
        return opts[i][1]

    def deref(self, v):
        return models.deref(self.I, self.st, v)

    def has(self, v, variant, allv=None):
        v = self.deref(v)
        return self._pick(self.I.branch_variant(self.st, v, variant, allv))

    def some(self, v):
        return self.has(v, "Some", ["None", "Some"])

    def tag(self, v, names):
        for n in names[:-1]:
            if self.has(v, n, names):
                return n
        return names[-1]

    def get(self, v, variant="Some", i=0):
        v = self.deref(v)
        return self.I.payload(self.st, v, variant, i, None)

    def eq(self, a, b):
        a, b = self.I.snap(self.st, a), self.I.snap(self.st, b)
        return self._pick(models.eq_value(self.I, self.st, a, b))

    def cmp(self, a, b):
        a, b = self.I.snap(self.st, a), self.I.snap(self.st, b)
        opts = []
        for o in "<=>":
            s = self.I.assume_ord(self.st, a, b, o)
            if s is not None:
                opts.append((s, o))
        return self._pick(opts)

    def true(self, v):
        return self._pick(self.I.branch_bool(self.st, self.I.snap(self.st, v)))


class Infeasible(Exception):
    pass


def cases(I, st, f, limit=4096):
    """All (state, result) of running f(q) under st with open questions split."""
    script = []
    n = 0
    while True:
        q = Q(I, st, script)
        try:
            r = f(q)
            yield q.st, r
        except Infeasible:
            pass
        n += 1
        if n > limit:
            raise Budget("spec cases")
        # next script
        w = q.widths
        script = (script + [0] * len(w))[:len(w)]
        while script and script[-1] + 1 >= w[len(script) - 1]:
            script.pop()
        if not script:
            return
        script[-1] += 1


def uninterpreted(v, I):
    """True when v holds something whose value the analysis does not know how to relate to the inputs."""
    k = v[0]
    if k == "tok":
        if v[1] and isinstance(v[1][0], str) and v[1][0].startswith("loop:") and any(
                v[1][:len(k[1])] == k[1] for k in getattr(I, "known_toks", ())):
            return False
        return any(isinstance(x, str) and ("#" in x or x.startswith("loop:") or x == "uninit") for x in v[1])
    if k == "app":
        n = v[1]
        if n in I.unmodelled or n.startswith(("post:", "iter", "call_unknown", "closure?", "updx", "updf", "elem", "loop")):
            return True
        return any(uninterpreted(x, I) for x in v[2] if x[0] != "k")
    if k == "adt":
        return any(uninterpreted(x, I) for x in v[3])
    return k in ("tag",)


def matches(I, st, actual, want):
    """[(state, True/False/None)] – None: undecided"""
    if want == ANY:
        return [(st, True)]
    actual = I.snap(st, actual)
    if actual[0] == "tag":
        actual = actual[1]
    if want[0] == "adt" and any(_has_any(x) for x in want[3]):
        # tag, then fields
        out = []
        if actual[0] == "adt":
            opts = [(st, actual[2] == want[2])]
        else:
            opts = I.branch_variant(st, actual, want[2])
        for s, b in opts:
            if not b:
                out.append((s, None if uninterpreted(actual, I) else False))
                continue
            res = [(s, True)]
            for i, w in enumerate(want[3]):
                nxt = []
                for s2, b2 in res:
                    if b2 is not True:
                        nxt.append((s2, b2))
                    else:
                        nxt += matches(I, s2, I.payload(s2, actual, want[2], i, None), w)
                res = nxt
            out += res
        return out
    if is_bool_term(want) or is_bool_term(actual):
        out = []
        for s, b in I.branch_bool(st, actual):
            for s2, b2 in I.branch_bool(s, want):
                if b == b2:
                    out.append((s2, True))
                else:
                    out.append((s2, None if uninterpreted(actual, I) else False))
        return out
    res = models.eq_value(I, st, actual, want)
    unk = uninterpreted(actual, I) or uninterpreted(want, I)
    return [(s, True if b else (None if unk else False)) for s, b in res]


def is_bool_term(v):
    from .absint import is_boolish
    return is_boolish(v)


def _has_any(v):
    if v == ANY:
        return True
    if v[0] == "adt":
        return any(_has_any(x) for x in v[3])
    return False


def facts_text(st, n=10):
    out = []
    for t in st.trail[:40]:
        if t[0] == "tag":
            out.append(f"{show(t[1])} is {t[2]}")
        elif t[0] == "ord":
            out.append(f"{show(t[1])} {'/'.join(t[3])} {show(t[2])}")
        elif t[0] == "bool":
            out.append(("" if t[2] else "not ") + show(t[1]))
    return "; ".join(out[:n])


class Table:
    """Path table of one function for given abstract arguments."""

    def __init__(self, P, fi, args=None, setup=None, **kw):
        self.I = Interp(P, **kw)
        self.I.frames = {}
        if fi.impl_trait is not None and T.last(fi.impl_trait[1]) in ("Ord", "PartialOrd", "PartialEq") and fi.impl_self[0] == "path":
            self.I.own_cmp = T.last(fi.impl_self[1])
        self.fi = fi
        st = State()
        self.args = {}
        vals = []
        for i, (l, ty) in enumerate(fi.mir.params):
            t = P.expand(T.parse(ty))
            nm = f"a{i}"
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = tok(nm, ty=t[2] if t[0] == "ref" else t)
            if t[0] == "ref":
                st.mem[("arg", nm)] = v
                vals.append(("ref", ("arg", nm), ()))
            else:
                vals.append(v)
            self.args[i] = v
        if setup:
            setup(self.I, st)
        self.start = st
        self.outs = self.I.analyse(fi, vals, st)

    def final(self, o, i):
        """Value behind reference argument i at the end of outcome o."""
        return o.state.mem.get(("arg", f"a{i}"))


def agree(P, fi, spec, result=None, panics=True, domain=None, parts=None, **kw):
    """Compare every path of fi with spec(q, *args) -> expected value.
    result(table, outcome) extracts the observed value (default: the return value).
    parts(q, value): the value taken apart, to tell results apart that are not interpreted as a whole.
    -> dict(paths, cases, ok, undecided, bad=[text])"""
    rep = {"function": fi.qual, "paths": 0, "cases": 0, "agree": 0, "undecided": 0, "bad": [], "inlined": 0}
    try:
        tb = Table(P, fi, **kw)
    except (Budget, Unsupported, RecursionError) as e:
        rep["undecided"] += 1
        rep["reason"] = f"{type(e).__name__}: {e}"
        return rep
    I = tb.I
    rep["inlined"] = len(I.inlined)
    args = [tb.args[i] for i in range(len(tb.args))]

    def feasible(st):
        """Whether the state is reachable with arguments inside the domain (type invariants)."""
        if domain is None:
            return True
        return any(r for _, r in cases(I, st, lambda q: domain(q, *args)))

    for o in tb.outs:
        rep["paths"] += 1
        try:
            for st, want in cases(I, o.state, lambda q: spec(q, *args)):
                rep["cases"] += 1
                if want == SKIP:
                    rep["agree"] += 1
                    continue
                if o.kind == "iter":
                    rep["undecided"] += 1
                    continue
                if o.kind == "panic":
                    if want == PANIC or not panics or not feasible(st):
                        rep["agree"] += 1
                    else:
                        rep["bad"].append(f"panics ({o.info[0]}) where the property requires {show_want(want)}; "
                                          f"path: {facts_text(st)}")
                    continue
                if want == PANIC:
                    continue
                got = result(tb, o) if result else o.ret
                if got is None:
                    rep["undecided"] += 1
                    continue
                for s2, b in matches(I, st, got, want):
                    if b is None and parts is not None:
                        from .refine import definite
                        w = want
                        if w[0] != "adt":
                            w = next(iter(cases(I, s2, lambda q: parts(q, w))))[1]
                        if definite(I, s2, I.snap(s2, got), w):
                            b = False
                    if b is True:
                        rep["agree"] += 1
                    elif b is None:
                        rep["undecided"] += 1
                    elif not feasible(s2):
                        rep["agree"] += 1
                    else:
                        rep["bad"].append(f"yields {show(I.snap(s2, got))} where the property requires "
                                          f"{show_want(want)}; path: {facts_text(s2)}")
        except (Budget, Unsupported, RecursionError) as e:
            rep["undecided"] += 1
            rep["reason"] = f"{type(e).__name__}: {e}"
    return rep


def show_want(w):
    if w == ANY:
        return "anything"
    if w == PANIC:
        return "a panic"
    if w[0] == "adt" and w[3]:
        n = w[1] if w[2] is None else w[2]
        return n + "(" + ", ".join(show_want(x) for x in w[3]) + ")"
    return show(w)
