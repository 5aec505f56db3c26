"""The shape of references and identifiers, anchored by type (not by private field name)."""
from engine import rtypes as T
from engine.absint import some, NONE, ok, err
from engine.spec import ANY

LEVELS = ["act", "article", "paragraph", "point", "subpoint"]
TYPES = {
    "act": "Option<ActIdentifier>",
    "article": "Option<IdentifierRange<ArticleIdentifier>>",
    "paragraph": "Option<IdentifierRange<NumericIdentifier>>",
    "point": "Option<RefPartPoint>",
    "subpoint": "Option<RefPartSubpoint>",
}


class Shape:
    """Field roles of a struct, found by field type."""

    def __init__(self, P, name, roles):
        self.P, self.name = P, name
        self.idx, self.ty = {}, {}
        a = P.adts.get(name)
        self.ok = a is not None and a.kind == "struct"
        if not self.ok:
            return
        self.n = len(a.fields)
        left = list(range(self.n))
        tys = [P.expand(T.parse(f[1])) for f in a.fields]
        for r, want in roles.items():
            w = P.expand(T.parse(want))
            for i in left:
                if T.show(tys[i]) == T.show(w):
                    self.idx[r], self.ty[r] = i, tys[i]
                    left.remove(i)
                    break
        self.ok = set(self.idx) == set(roles) and not left

    def get(self, q, v, role):
        v = q.I.snap(q.st, v)
        return q.I._project1(v, ("field", self.idx[role], self.ty[role]))

    def mk(self, **parts):
        fs = [None] * self.n
        for r, v in parts.items():
            fs[self.idx[r]] = v
        return ("adt", self.name, None, tuple(fs))


def ref_shape(P, name="Reference"):
    return Shape(P, name, TYPES)


class RefModel:
    def __init__(self, P):
        self.P = P
        self.R = ref_shape(P, "Reference")
        self.U = ref_shape(P, "UncheckedReference")
        r = P.adts.get("IdentifierRange")
        self.range_ok = r is not None and [f[0] for f in r.fields] == ["start", "end"]

    def parts(self, q, r, shape=None):
        shape = shape or self.R
        return {l: shape.get(q, r, l) for l in LEVELS}

    # -- ranges
    def range_of(self, q, level, part):
        """IdentifierRange value inside a present part"""
        if level in ("point", "subpoint"):
            t = q.tag(part, ["Numeric", "Alphabetic"])
            return t, q.get(part, t, 0)
        return None, part

    def start(self, q, rng):
        return q.I._project1(q.I.snap(q.st, rng), ("field", 0, None)) if rng[0] == "adt" else \
            ("tok", rng[1] + ("start",), None) if rng[0] == "tok" else q.I._project1(rng, ("field", 0, None))

    def end(self, q, rng):
        return q.I._project1(q.I.snap(q.st, rng), ("field", 1, None)) if rng[0] == "adt" else \
            ("tok", rng[1] + ("end",), None) if rng[0] == "tok" else q.I._project1(rng, ("field", 1, None))

    def is_range(self, q, level, part):
        _, r = self.range_of(q, level, part)
        return not q.eq(self.start(q, r), self.end(q, r))

    def mk_part(self, level, tag, start, end):
        rng = ("adt", "IdentifierRange", None, (start, end))
        if level in ("point", "subpoint"):
            return ("adt", "RefPartPoint" if level == "point" else "RefPartSubpoint", tag, (rng,))
        return rng

    # -- validity
    def combination_ok(self, q, p):
        act, art, par, pt, sub = (p[l] for l in LEVELS)
        has_act = q.some(act)
        if q.some(art):
            # paragraph may be missing; a subpoint needs its point
            if q.some(sub):
                return q.some(pt)
            return True
        if has_act:
            return not q.some(par) and not q.some(pt) and not q.some(sub)
        if q.some(sub):
            if q.some(pt):
                return True
            return not q.some(par)
        return True

    def ranges_ok(self, q, p):
        """Only the last present part may be a range."""
        order = ["article", "paragraph", "point", "subpoint"]
        for i, l in enumerate(order):
            if not q.some(p[l]):
                continue
            below = any(q.some(p[m]) for m in order[i + 1:])
            if below and self.is_range(q, l, q.get(p[l])):
                return False
        return True

    def valid(self, q, p):
        return self.combination_ok(q, p) and self.ranges_ok(q, p)

    def valid_ref(self, q, r):
        return self.valid(q, self.parts(q, r))

    def checked(self, q, p):
        """Result of building a reference from parts p"""
        if self.valid(q, p):
            return ok(self.R.mk(**p))
        return err(ANY)
