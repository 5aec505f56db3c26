"""Identifiers: succession, order, text forms."""
from engine import rtypes as T
from engine.absint import tok, const, app, ok, err, some, NONE, TRUE, FALSE, mkbool, key
from engine.spec import ANY, SKIP, PANIC, cases, Table, Q
from checks.base import check
from checks.refmodel import Shape
from checks.refs import TECH, ordering

# digraph -> (letter it follows, letter that follows it or None)
DIGRAPHS = {"Cs": ("c", "d"), "Dz": ("d", "e"), "Gy": ("g", "h"), "Ly": ("l", "m"), "Ny": ("n", "o"),
            "Sz": ("s", "t"), "Ty": ("t", "u"), "Zs": ("z", None)}
CHARS = ["Latin"] + list(DIGRAPHS)


def u8(c):
    return const(ord(c), "u8")


class Ids:
    """Specification of the identifier types; fields found by type."""

    def __init__(self, P):
        self.P = P
        self.num = Shape(P, "NumericIdentifier", {"num": "u16", "suffix": "Option<HungarianIdentifierChar>"})
        self.pre = Shape(P, "PrefixedAlphabeticIdentifier", {"prefix": "Option<HungarianIdentifierChar>",
                                                             "chr": "HungarianIdentifierChar"})
        self.art = Shape(P, "ArticleIdentifier", {"book": "Option<u8>", "id": "NumericIdentifier"})
        self.par = Shape(P, "ParagraphIdentifier", {"id": "Option<NumericIdentifier>"})
        self.act = Shape(P, "ActIdentifier", {"year": "i16", "number": "i32"})
        h = P.adts.get("HungarianIdentifierChar")
        self.ok = all(s.ok for s in (self.num, self.pre, self.art, self.par, self.act)) and h is not None and \
            sorted(v[0] for v in h.variants) == sorted(CHARS)
        self.hcty = ("path", "HungarianIdentifierChar", ())

    # -- letters
    def ctag(self, q, c):
        return q.tag(c, CHARS)

    def letter(self, q, c):
        v = q.get(c, "Latin")
        return ("tok", v[1], "u8") if v[0] == "tok" else ("app", v[1], v[2], "u8") if v[0] == "app" else v

    def char_valid(self, q, c):
        if self.ctag(q, c) != "Latin":
            return True
        l = self.letter(q, c)
        return q.cmp(l, u8("a")) in ">=" and q.cmp(l, u8("z")) in "<="

    def char_first(self, q, c):
        return q.has(c, "Latin", CHARS) and q.eq(self.letter(q, c), u8("a"))

    def char_next(self, q, s, o):
        ts, to = self.ctag(q, s), self.ctag(q, o)
        if ts == "Latin" and to == "Latin":
            x, y = self.letter(q, s), self.letter(q, o)
            if q.eq(x, q.I.binop("Add", y, const(1, "u8"))):
                return True
            return q.eq(x, u8("r")) and q.eq(y, u8("p"))
        if ts == "Latin":
            n = DIGRAPHS[to][1]
            return n is not None and q.eq(self.letter(q, s), u8(n))
        if to == "Latin":
            return q.eq(self.letter(q, o), u8(DIGRAPHS[ts][0]))
        return False

    def char_cmp(self, q, a, b):
        ta, tb = self.ctag(q, a), self.ctag(q, b)
        la = self.letter(q, a) if ta == "Latin" else u8(DIGRAPHS[ta][0])
        lb = self.letter(q, b) if tb == "Latin" else u8(DIGRAPHS[tb][0])
        c = q.cmp(la, lb)
        if c != "=":
            return c
        da, db = ta != "Latin", tb != "Latin"
        return "=" if da == db else ">" if da else "<"

    # -- numeric
    def n_first(self, q, n):
        return not q.some(self.num.get(q, n, "suffix")) and q.eq(self.num.get(q, n, "num"), const(1, "u16"))

    def n_next(self, q, s, o):
        ns, no = self.num.get(q, s, "num"), self.num.get(q, o, "num")
        ss, so = self.num.get(q, s, "suffix"), self.num.get(q, o, "suffix")
        if not q.some(ss):
            if q.eq(no, const(65535, "u16")):
                return None
            return q.eq(ns, q.I.binop("Add", no, const(1, "u16")))
        if not q.eq(ns, no):
            return False
        if not q.some(so):
            return self.char_first(q, q.get(ss))
        return self.char_next(q, q.get(ss), q.get(so))

    def n_valid(self, q, n):
        s = self.num.get(q, n, "suffix")
        return not q.some(s) or self.char_valid(q, q.get(s))


def lex(q, pairs, wrap):
    for a, b in pairs:
        c = q.cmp(a, b)
        if c != "=":
            return wrap(ordering(c))
    return wrap(ordering("="))


def tri(b):
    return SKIP if b is None else mkbool(b)


def setup(ctx):
    M = Ids(ctx.P)
    if not M.ok:
        ctx.bad("anchor:identifier types", "an identifier type no longer has the expected parts")
        return None
    ctx.rule("Every path of the function is compared with the expected result under the path's facts; "
             "questions a path leaves open are split into all their cases.")
    return M


@check("C06", TECH)
def c06(ctx):
    M = setup(ctx)
    if M is None:
        return
    P = ctx.P
    g = lambda m, t, tr=None, ta=None: ctx.one(f"{t}::{m}", P.impl(m, t, tr, ta))
    IC = "IdentifierCommon"
    hc = "HungarianIdentifierChar"
    kw = dict(max_paths=60000)

    # letters
    dchar = lambda n: (lambda q, *a: all(M.char_valid(q, x) for x in a[:n]))
    ctx.agree("first letter", g("is_first", hc, IC), lambda q, c: mkbool(M.char_first(q, c)), domain=dchar(1))
    ctx.agree("next letter", g("is_next_from", hc, IC), lambda q, a, b: mkbool(M.char_next(q, a, b)), domain=dchar(2), **kw)
    for tr, m, wrap in (("Ord", "cmp", lambda v: v), ("PartialOrd", "partial_cmp", some)):
        ctx.agree(f"letter order ({tr})", g(m, hc, tr), lambda q, a, b, wrap=wrap: wrap(ordering(M.char_cmp(q, a, b))),
                  domain=dchar(2), inline_cmp=True, **kw)

    # numbers with suffix
    num = "NumericIdentifier"
    dn = lambda n: (lambda q, *a: all(M.n_valid(q, x) for x in a[:n]))
    ctx.agree("first number", g("is_first", num, IC), lambda q, n: mkbool(M.n_first(q, n)), domain=dn(1))
    ctx.agree("next number", g("is_next_from", num, IC), lambda q, a, b: tri(M.n_next(q, a, b)), domain=dn(2), **kw)

    # lettered points with prefix
    pre = "PrefixedAlphabeticIdentifier"
    pp, pc = (lambda q, v: M.pre.get(q, v, "prefix")), (lambda q, v: M.pre.get(q, v, "chr"))

    def pvalid(q, v):
        return M.char_valid(q, pc(q, v)) and (not q.some(pp(q, v)) or M.char_valid(q, q.get(pp(q, v))))
    ctx.agree("first lettered subpoint", g("is_first", pre, IC), lambda q, v: mkbool(M.char_first(q, pc(q, v))),
              domain=lambda q, v: pvalid(q, v))
    ctx.agree("next lettered subpoint", g("is_next_from", pre, IC),
              lambda q, a, b: mkbool(q.eq(pp(q, a), pp(q, b)) and M.char_next(q, pc(q, a), pc(q, b))),
              domain=lambda q, a, b: pvalid(q, a) and pvalid(q, b), **kw)
    ctx.agree("prefix test", g("prefix_is", pre), lambda q, v, p: mkbool(q.eq(pp(q, v), p)))
    ctx.agree("prefix", g("get_prefix", pre), lambda q, v: pp(q, v))

    # articles
    art = "ArticleIdentifier"
    ab, ai = (lambda q, v: M.art.get(q, v, "book")), (lambda q, v: M.art.get(q, v, "id"))
    da = lambda n: (lambda q, *a: all(M.n_valid(q, ai(q, x)) for x in a[:n]))

    def a_first(q, a):
        if q.some(ab(q, a)) and not q.eq(q.get(ab(q, a)), const(1, "u8")):
            return False
        return M.n_first(q, ai(q, a))

    def a_next(q, a, b):
        ba, bb = ab(q, a), ab(q, b)
        if q.some(ba) != q.some(bb):
            return False
        if not q.some(ba):
            return M.n_next(q, ai(q, a), ai(q, b))
        x, y = q.get(ba), q.get(bb)
        if q.eq(x, y):
            return M.n_next(q, ai(q, a), ai(q, b))
        if q.eq(y, const(255, "u8")):
            return None
        if q.eq(x, q.I.binop("Add", y, const(1, "u8"))):
            return M.n_first(q, ai(q, a))
        return False
    ctx.agree("first article", g("is_first", art, IC), lambda q, a: mkbool(a_first(q, a)), domain=da(1))
    ctx.agree("next article", g("is_next_from", art, IC), lambda q, a, b: tri(a_next(q, a, b)), domain=da(2), **kw)

    # paragraphs
    par = "ParagraphIdentifier"
    pi = lambda q, v: M.par.get(q, v, "id")
    dp = lambda n: (lambda q, *a: all(not q.some(pi(q, x)) or M.n_valid(q, q.get(pi(q, x))) for x in a[:n]))
    ctx.agree("first paragraph", g("is_first", par, IC),
              lambda q, v: mkbool(q.some(pi(q, v)) and M.n_first(q, q.get(pi(q, v)))), domain=dp(1))
    ctx.agree("next paragraph", g("is_next_from", par, IC),
              lambda q, a, b: tri(q.some(pi(q, a)) and q.some(pi(q, b)) and M.n_next(q, q.get(pi(q, a)), q.get(pi(q, b)))),
              domain=dp(2), **kw)
    ctx.agree("absent paragraph number", g("is_empty", par, IC), lambda q, v: mkbool(not q.some(pi(q, v))))
    for t in (hc, num, pre, art):
        f = P.impl("is_empty", t, IC)
        for x in f:
            ctx.agree(f"{t} is never absent", x, lambda q, v: FALSE)

    # order and equality of the composite identifiers
    comps = {num: (M.num, ["num", "suffix"]), pre: (M.pre, ["prefix", "chr"]), art: (M.art, ["book", "id"]),
             par: (M.par, ["id"]), "ActIdentifier": (M.act, ["year", "number"])}
    for t, (sh, order) in comps.items():
        for tr, m, wrap in (("Ord", "cmp", lambda v: v), ("PartialOrd", "partial_cmp", some)):
            ctx.agree(f"{t} order ({tr})", g(m, t, tr), lambda q, a, b, sh=sh, order=order, wrap=wrap:
                      lex(q, [(sh.get(q, a, r), sh.get(q, b, r)) for r in order], wrap))
        ctx.agree(f"{t} equality", g("eq", t, "PartialEq"), lambda q, a, b, sh=sh, order=order:
                  mkbool(all(q.eq(sh.get(q, a, r), sh.get(q, b, r)) for r in order)))
    ctx.agree("letter equality", g("eq", hc, "PartialEq"), lambda q, a, b: mkbool(
        M.ctag(q, a) == M.ctag(q, b) and (M.ctag(q, a) != "Latin" or q.eq(M.letter(q, a), M.letter(q, b)))), **kw)
    # issues of the journal
    mk = P.adts.get("MkIssue")
    if mk is not None and {"year", "issue"} <= {f[0] for f in mk.fields}:
        order = [[f[0] for f in mk.fields].index(x) for x in ("year", "issue")]
        fld = lambda q, v, i: q.I._project1(q.I.snap(q.st, q.deref(v)), ("field", i, T.parse("i64")))
        for tr, m, wrap in (("Ord", "cmp", lambda v: v), ("PartialOrd", "partial_cmp", some)):
            for f in P.impl(m, "MkIssue", tr):
                ctx.agree(f"MkIssue order ({tr})", f, lambda q, a, b, wrap=wrap: lex(q, [(fld(q, a, i), fld(q, b, i)) for i in order], wrap))
    # the two tables agree with each other: a successor is greater
    ctx.rule("The succession table and the order table are themselves consistent: every successor is greater (checked on the tables).")
    letters = [("Latin", chr(c)) for c in range(97, 123)] + [(d, None) for d in DIGRAPHS]
    ok_ = all(okey(s) > okey(o) for s in letters for o in letters if tnext(s, o))
    (ctx.ok if ok_ else ctx.bad)("successors are greater in the specification tables", "34 x 34 letters")


def okey(l):
    return (l[1], 0) if l[0] == "Latin" else (DIGRAPHS[l[0]][0], 1)


def tnext(s, o):
    if s[0] == "Latin" and o[0] == "Latin":
        return ord(s[1]) == ord(o[1]) + 1 or (s[1], o[1]) == ("r", "p")
    if s[0] == "Latin":
        return DIGRAPHS[o[0]][1] == s[1]
    if o[0] == "Latin":
        return DIGRAPHS[s[0]][0] == o[1]
    return False
