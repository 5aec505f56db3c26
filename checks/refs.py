"""References: validity, navigation, resolution, containment, ranges, builder."""
from engine import rtypes as T
from engine.absint import tok, const, app, ok, err, some, NONE, TRUE, FALSE, mkbool, key
from engine.spec import ANY, SKIP, PANIC, cases, Table, Q
from engine import spec as S
from checks.base import check
from checks.refmodel import RefModel, LEVELS, TYPES

TECH = "path-sensitive abstract interpretation of MIR compared with a decision table"


def setup(ctx):
    M = RefModel(ctx.P)
    if not (M.R.ok and M.U.ok and M.range_ok):
        ctx.bad("anchor:reference types", "Reference / UncheckedReference / IdentifierRange no longer have the expected parts")
        return None
    ctx.rule("Every path of the function is compared with the expected result under the path's facts; "
             "questions a path leaves open are split into all their cases.")
    return M


def dom(M, n=1):
    return lambda q, *a: all(M.valid_ref(q, x) for x in a[:n])


# ---------------------------------------------------------------------------- C01

@check("C01", TECH + "; closure over every function that yields a Reference")
def c01(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P
    tf = ctx.one("Reference: TryFrom<UncheckedReference>", P.impl("try_from", "Reference", "TryFrom", ["UncheckedReference"]))
    ctx.agree("accepts exactly the valid part combinations", tf, lambda q, u: M.checked(q, M.parts(q, u, M.U)))
    b = ctx.one("ReferenceBuilder::build", P.impl("build", "ReferenceBuilder"))
    if b is not None:
        ctx.agree("builder validates", b, lambda q, s: M.checked(q, M.parts(q, builder_parts(q, s), M.U)))
    # every function that yields a Reference yields a valid one, given valid ones
    ctx.rule("Closure: every function of the crate returning a Reference (alone or in a Result) returns one that satisfies "
             "the validity table, assuming its Reference arguments do.")
    n = 0
    for fi in P.fns:
        if fi.mir.owner != "hun_law" or "{closure" in fi.name or (fi.impl_trait and
                T.last(fi.impl_trait[1]) in ("Deserialize", "Visitor")):
            continue
        rt = P.expand(T.parse(fi.mir.ret))
        kind = yields_reference(rt)
        if kind is None:
            continue
        n += 1
        validity(ctx, M, fi, kind)
    ctx.floor("functions yielding a Reference", n, 12)
    # deserialisation goes through the check
    des = P.impl("deserialize", "Reference", "Deserialize")
    f = ctx.one("Deserialize for Reference", des)
    if f is not None:
        validity(ctx, M, f, "result")
    a = P.adts.get("Reference")
    # parts are private: nothing outside the module tree can assemble one
    for i, f in enumerate(a.fields):
        if f[3]:
            ctx.bad("parts are private", f"{a.file if hasattr(a, 'file') else 'src/reference/mod.rs'}: field {f[0]} of Reference "
                                         f"is visible ({f[3]}): an invalid reference can be assembled by a caller")
    ctx.ok("parts are private")


def builder_parts(q, s):
    a = q.I.p.adts.get("ReferenceBuilder")
    s = q.I.snap(q.st, s)
    return q.I._project1(s, ("field", 0, ("path", "UncheckedReference", ())))


def yields_reference(rt):
    if rt[0] == "path" and T.last(rt[1]) == "Reference" and not rt[2]:
        return "plain"
    if rt[0] == "path" and T.last(rt[1]) == "Result" and rt[2] and rt[2][0][0] == "path" and T.last(rt[2][0][1]) == "Reference":
        return "result"
    return None


def validity(ctx, M, fi, kind):
    P = ctx.P
    name = f"yields a valid reference: {fi.qual}"
    try:
        tb = Table(P, fi, max_paths=40000)
    except (S.Budget, S.Unsupported, RecursionError) as e:
        ctx.undecided(name, f"{type(e).__name__} {e}")
        return
    I = tb.I
    refs = []
    for i, (l, ty) in enumerate(fi.mir.params):
        t = P.expand(T.parse(ty))
        while t[0] == "ref":
            t = t[2]
        if t[0] == "path" and T.last(t[1]) == "Reference":
            refs.append(tb.args[i])
    paths = und = 0
    for o in tb.outs:
        if o.kind != "return":
            continue
        v = I.snap(o.state, o.ret)
        if kind == "result":
            if v[0] != "adt":
                und += 1
                continue
            if v[2] == "Err":
                continue
            v = v[3][0]
        paths += 1
        if v[0] != "adt":
            if v[0] == "tok" and any(key(v) == key(r) for r in refs):
                continue        # one of the arguments itself
            und += 1
            continue
        unk = S.uninterpreted(v, I)
        try:
            for st, good in cases(I, o.state, lambda q: M.valid_ref(q, v) or not all(M.valid_ref(q, r) for r in refs)):
                if not good and unk:
                    und += 1
                elif not good:
                    ctx.bad(name, f"{ctx.where(fi)} {fi.qual}: yields {S.show(v)}, an invalid part combination or a range that is "
                                  f"not the last part; path: {S.facts_text(st)}")
                    return
        except S.Budget:
            und += 1
    ctx.count("paths", len(tb.outs))
    if und and not paths:
        ctx.undecided(name, f"{und} paths not interpreted")
    elif und:
        ctx.undecided(name, f"{und} of {paths} paths")
    else:
        ctx.ok(name, f"{paths} paths")


# ---------------------------------------------------------------------------- C02

@check("C02", TECH)
def c02(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P
    one = lambda m: ctx.one(f"Reference::{m}", P.impl(m, "Reference"))

    def last(q, p):
        for l in reversed(LEVELS):
            if q.some(p[l]):
                return l
        return None

    def parent(q, r):
        p = dict(M.parts(q, r))
        l = last(q, p)
        if l is not None:
            p[l] = NONE
        return M.R.mk(**p)

    ctx.agree("parent drops exactly the most specific part", one("parent"), parent, domain=dom(M))

    def last_part(q, r):
        p = M.parts(q, r)
        l = last(q, p)
        if l is None:
            return ("adt", "AnyReferencePart", "Empty", ())
        return ("adt", "AnyReferencePart", l.capitalize(), (q.get(p[l]),))

    ctx.agree("the last part is the most specific present part", one("get_last_part"), last_part, domain=dom(M))

    def without_act(q, r):
        p = dict(M.parts(q, r))
        p["act"] = NONE
        return M.R.mk(**p)

    ctx.agree("dropping the act keeps every other part", one("without_act"), without_act, domain=dom(M))
    ctx.agree("act-only means no article", one("is_act_only"),
              lambda q, r: mkbool(not q.some(M.parts(q, r)["article"])), domain=dom(M))
    ctx.agree("act accessor", one("act"), lambda q, r: M.parts(q, r)["act"], domain=dom(M))
    ctx.agree("article accessor", one("article"), lambda q, r: M.parts(q, r)["article"], domain=dom(M))

    def edge(which):
        def f(q, r):
            p = dict(M.parts(q, r))
            for l in LEVELS[1:]:
                if not q.some(p[l]):
                    p[l] = NONE
                    continue
                t, rng = M.range_of(q, l, q.get(p[l]))
                e = (M.start if which == "first" else M.end)(q, rng)
                p[l] = some(M.mk_part(l, t, e, e))
            return M.R.mk(**p)
        return f

    ctx.agree("first_in_range collapses every part to its start", one("first_in_range"), edge("first"), domain=dom(M))
    ctx.agree("last_in_range collapses every part to its end", one("last_in_range"), edge("last"), domain=dom(M))

    # accessors of the last-part sum type
    acc = {"act": ("Act", None), "article": ("Article", None), "paragraph": ("Paragraph", None),
           "numeric_point": ("Point", "Numeric"), "alphabetic_point": ("Point", "Alphabetic"),
           "numeric_subpoint": ("Subpoint", "Numeric"), "alphabetic_subpoint": ("Subpoint", "Alphabetic")}
    names = ["Empty", "Act", "Article", "Paragraph", "Point", "Subpoint"]
    for m, (v, sub) in acc.items():
        def f(q, a, v=v, sub=sub):
            if not q.has(a, v, names):
                return NONE
            x = q.get(a, v)
            if sub is None:
                return some(x)
            return some(q.get(x, sub)) if q.has(x, sub, ["Numeric", "Alphabetic"]) else NONE
        ctx.agree(f"part accessor {m}", ctx.one(f"AnyReferencePart::{m}", P.impl(m, "AnyReferencePart")), f)

    # reference of an element
    elems = {"Act": ("act", None), "Article": ("article", None), "Paragraph": ("paragraph", None),
             "AlphabeticPoint": ("point", "Alphabetic"), "NumericPoint": ("point", "Numeric"),
             "AlphabeticSubpoint": ("subpoint", "Alphabetic"), "NumericSubpoint": ("subpoint", "Numeric")}
    fns = [f for f in P.impls.get("reference", ()) if f.impl_trait and T.last(f.impl_trait[1]) == "ReferenceToElement"]
    ctx.floor("elements with a reference", len(fns), 7)
    for f in fns:
        en = T.show(f.impl_self)
        en = {T.show(P.expand(("path", k, ()))): k for k in elems}.get(en, en)
        if en not in elems:
            ctx.undecided(f"reference of {en}", "unknown element type")
            continue
        level, tag = elems[en]

        def g(q, e, level=level, tag=tag, en=en):
            idv = identifier_of(q, e, en)
            p = {l: NONE for l in LEVELS}
            if level == "act":
                p["act"] = some(idv)
            elif level == "paragraph":
                inner = q.I._project1(idv, ("field", 0, None))
                if q.some(inner):
                    x = q.get(inner)
                    p["paragraph"] = some(M.mk_part(level, tag, x, x))
            else:
                p[level] = some(M.mk_part(level, tag, idv, idv))
            return M.R.mk(**p)
        ctx.agree(f"reference of {en}", f, g)


def identifier_of(q, e, en):
    P = q.I.p
    name = {"AlphabeticPoint": "SubArticleElement", "NumericPoint": "SubArticleElement", "Paragraph": "SubArticleElement",
            "AlphabeticSubpoint": "SubArticleElement", "NumericSubpoint": "SubArticleElement"}.get(en, en)
    a = P.adts[name]
    i = [f[0] for f in a.fields].index("identifier")
    return q.I._project1(q.I.snap(q.st, e), ("field", i, None))


# ---------------------------------------------------------------------------- C03

@check("C03", TECH)
def c03(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P

    def relative(q, r, o):
        p, b = M.parts(q, r), M.parts(q, o)
        out = dict(p)
        for l in LEVELS:
            if q.some(p[l]):
                return M.checked(q, out)
            out[l] = b[l]
        return M.checked(q, out)

    ctx.agree("relative reference takes exactly the missing leading parts from its base",
              ctx.one("Reference::relative_to", P.impl("relative_to", "Reference")), relative, domain=dom(M, 2))

    # builder
    setters = [f for f in P.impls.get("set_part", ()) if f.impl_trait and
               T.last(f.impl_trait[1]) == "ReferenceBuilderSetPart"]
    ctx.floor("builder setters", len(setters), 5)
    for f in setters:
        at = T.show(P.expand(f.impl_trait[2][0])) if f.impl_trait[2] else "?"
        lv = [l for l in LEVELS if T.show(P.expand(T.parse(TYPES[l]))) == f"Option<{at}>"]
        if not lv:
            ctx.undecided(f"setter for {at}", "unknown part type")
            continue
        builder(ctx, M, f, lv[0], True)
    for l in LEVELS[1:]:
        f = ctx.one(f"ReferenceBuilder::reset_{l}", P.impl(f"reset_{l}", "ReferenceBuilder"))
        if f is not None:
            builder(ctx, M, f, l, False)
    new = ctx.one("ReferenceBuilder::new", P.impl("new", "ReferenceBuilder"))
    ctx.agree("a new builder is empty", new, lambda q: ("adt", "ReferenceBuilder", None, (M.U.mk(**{l: NONE for l in LEVELS}),)))


def builder(ctx, M, f, level, sets):
    def spec(q, s, *v):
        p = dict(M.parts(q, builder_parts(q, s), M.U))
        i = LEVELS.index(level)
        p[level] = some(v[0]) if sets else NONE
        for l in LEVELS[i + 1:]:
            p[l] = NONE
        return ("adt", "ReferenceBuilder", None, (M.U.mk(**p),))
    verb = "setting" if sets else "resetting"
    ctx.agree(f"{verb} the {level} clears exactly what is below it", f, spec, result=lambda tb, o: tb.final(o, 0))


# ---------------------------------------------------------------------------- C04

@check("C04", TECH)
def c04(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P

    def parent_of(q, p, o):
        """p is a strict prefix of o, in the same act"""
        if not q.eq(p["act"], o["act"]):
            return False
        for i, l in enumerate(LEVELS):
            if not q.eq(p[l], o[l]):
                if q.some(p[l]):
                    return False
                return not any(q.some(p[m]) for m in LEVELS[i + 1:])
        return False

    ctx.agree("parenthood is a strict extension", ctx.one("Reference::is_parent_of", P.impl("is_parent_of", "Reference")),
              lambda q, a, b: mkbool(parent_of(q, M.parts(q, a), M.parts(q, b))), domain=dom(M, 2))

    def edge(q, r, which):
        p = dict(M.parts(q, r))
        for l in LEVELS[1:]:
            if not q.some(p[l]):
                p[l] = NONE
                continue
            t, rng = M.range_of(q, l, q.get(p[l]))
            e = (M.start if which == "first" else M.end)(q, rng)
            p[l] = some(M.mk_part(l, t, e, e))
        return M.R.mk(**p)

    # containment, with the edges taken as given (they are decided by C02) so that the table stays small
    fi = ctx.one("Reference::contains", P.impl("contains", "Reference"))
    edges = [f.qual for m in ("first_in_range", "last_in_range", "is_parent_of") for f in P.impl(m, "Reference")]
    quals = {m: P.impl(m, "Reference")[0].qual for m in ("first_in_range", "last_in_range", "is_parent_of")
             if P.impl(m, "Reference")}

    def contains(q, a, b):
        f = lambda v, m: app(quals[m], v, ty=("path", "Reference", ()))
        rel = lambda x, y, good: q.cmp(x, y) in good or q.true(app(quals["is_parent_of"], x, y, ty="bool"))
        return mkbool(rel(f(a, "first_in_range"), f(b, "first_in_range"), "<=") and
                      rel(f(a, "last_in_range"), f(b, "last_in_range"), ">="))
    if fi is not None and len(quals) == 3:
        ctx.agree("containment is both ends inside (or below) the container's ends", fi, contains, opaque=edges)

    # the order itself: lexicographic from the act downwards
    for tr, m, wrap in (("Ord", "cmp", lambda v: v), ("PartialOrd", "partial_cmp", some)):
        f = ctx.one(f"{tr} for Reference", P.impl(m, "Reference", tr))

        def lex(q, a, b, wrap=wrap):
            pa, pb = M.parts(q, a), M.parts(q, b)
            for l in LEVELS:
                c = q.cmp(pa[l], pb[l])
                if c != "=":
                    return wrap(ordering(c))
            return wrap(ordering("="))
        ctx.agree(f"{tr} on references compares parts from the act downwards", f, lex)
        # the parts: a range by its start, then by its end; numbers before letters
        f = ctx.one(f"{tr} for IdentifierRange", P.impl(m, "IdentifierRange<T>", tr))

        def rng(q, a, b, wrap=wrap):
            for e in (M.start, M.end):
                c = q.cmp(e(q, a), e(q, b))
                if c != "=":
                    return wrap(ordering(c))
            return wrap(ordering("="))
        ctx.agree(f"{tr} on ranges compares starts, then ends", f, rng)
        for en in ("RefPartPoint", "RefPartSubpoint"):
            f = ctx.one(f"{tr} for {en}", P.impl(m, en, tr))

            def part(q, a, b, wrap=wrap):
                ta, tb = q.tag(a, ["Numeric", "Alphabetic"]), q.tag(b, ["Numeric", "Alphabetic"])
                if ta != tb:
                    return wrap(ordering("<" if ta == "Numeric" else ">"))
                return wrap(ordering(q.cmp(q.get(a, ta), q.get(b, tb))))
            ctx.agree(f"{tr} on {en} puts numbers before letters", f, part)
    eqf = ctx.one("PartialEq for Reference", P.impl("eq", "Reference", "PartialEq"))
    ctx.agree("equality compares every part", eqf,
              lambda q, a, b: mkbool(all(q.eq(M.parts(q, a)[l], M.parts(q, b)[l]) for l in LEVELS)))


def ordering(c):
    return ("adt", "Ordering", {"<": "Less", "=": "Equal", ">": "Greater"}[c], ())


# ---------------------------------------------------------------------------- C05

@check("C05", TECH)
def c05(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P

    def make_range(q, a, b):
        pa, pb = M.parts(q, a), M.parts(q, b)
        if not q.eq(pa["act"], pb["act"]):
            return err(ANY)
        out = {l: NONE for l in LEVELS}
        out["act"] = pa["act"]
        for i, l in enumerate(LEVELS[1:], 1):
            if q.eq(pa[l], pb[l]):
                out[l] = pa[l]
                continue
            if any(q.some(x[m]) for x in (pa, pb) for m in LEVELS[i + 1:]):
                return err(ANY)
            if not (q.some(pa[l]) and q.some(pb[l])):
                return err(ANY)
            ta, ra = M.range_of(q, l, q.get(pa[l]))
            tb, rb = M.range_of(q, l, q.get(pb[l]))
            if ta != tb:
                return err(ANY)
            out[l] = some(M.mk_part(l, ta, M.start(q, ra), M.end(q, rb)))
            return M.checked(q, out)
        return M.checked(q, out)

    ctx.agree("a range spans from the start of the first to the end of the second, on one differing level",
              ctx.one("Reference::make_range", P.impl("make_range", "Reference")), make_range, domain=dom(M, 2))
    rng = "IdentifierRange<T>"
    g = lambda m, tr=None: ctx.one(f"IdentifierRange::{m}", P.impl(m, rng, tr))
    st, en = (lambda q, r: M.start(q, r)), (lambda q, r: M.end(q, r))
    ctx.agree("range start", g("first_in_range"), lambda q, r: st(q, r))
    ctx.agree("range end", g("last_in_range"), lambda q, r: en(q, r))
    ctx.agree("a range is two different ends", g("is_range"), lambda q, r: mkbool(not q.eq(st(q, r), en(q, r))))
    ctx.agree("range membership is inclusive", g("contains"),
              lambda q, r, x: mkbool(q.cmp(st(q, r), x) in "<=" and q.cmp(en(q, r), x) in ">="))
    ctx.agree("range from ends", g("from_range", "IdentifierRangeFrom"),
              lambda q, a, b: ("adt", "IdentifierRange", None, (a, b)))
    for en_, ty in (("RefPartPoint", ["NumericIdentifier", "AlphabeticIdentifier"]),
                    ("RefPartSubpoint", ["NumericIdentifier", "PrefixedAlphabeticIdentifier"])):
        for t in ty:
            f = ctx.one(f"{en_} from range of {t}", P.impl("from_range", en_, "IdentifierRangeFrom", [t]))
            tag = "Numeric" if t == "NumericIdentifier" else "Alphabetic"
            ctx.agree(f"{en_} range of {t}", f, lambda q, a, b, en_=en_, tag=tag:
                      ("adt", en_, tag, (("adt", "IdentifierRange", None, (a, b)),)))
        f = ctx.one(f"{en_}::is_range", P.impl("is_range", en_))

        def isr(q, v):
            t = q.tag(v, ["Numeric", "Alphabetic"])
            r = q.get(v, t)
            return mkbool(not q.eq(M.start(q, r), M.end(q, r)))
        ctx.agree(f"{en_} is_range", f, isr)
    # from_single of any id is the degenerate range
    ds = [f for f in P.fns if f.method == "from_single" and f.impl_trait and T.last(f.impl_trait[1]) == "IdentifierRangeFrom"]
    ctx.count("from_single definitions", len(ds))
