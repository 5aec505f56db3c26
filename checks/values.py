"""C22: copies, equality and conversions of values."""
from engine import rtypes as T
from engine.absint import mkbool, some
from .base import check
from .refs import ordering

TECH = ("Abstract interpretation of the type-checked MIR of every copy, equality and conversion of the library's own types, compiled from "
        "derives or written by hand: all paths of each function are compared with the same rule for every type")


def traits(P, trait, method):
    return [f for f in P.fns if f.method == method and f.mir.owner == "hun_law" and "{closure" not in f.name and f.impl_trait is not None and
            T.last(f.impl_trait[1]) == trait and f.impl_self is not None and f.impl_self[0] in ("path", "ref")]


def own(P, ty, fi=None):
    """The library's own type behind ty, or None; types of the same name are told apart by their module."""
    ty = P.expand(ty)
    while ty is not None and ty[0] == "ref":
        ty = P.expand(ty[-1])
    if ty is None or ty[0] != "path":
        return None
    c = [a for a in P.adt_list if a.name == T.last(ty[1])]
    if len(c) > 1:
        m = ty[1].rsplit("::", 1)[0] if "::" in ty[1] else (fi.name.rsplit("::", 1)[0] if fi is not None else "")
        c = [a for a in c if a.module.split("::")[-1] == m.split("::")[-1]]
    return c[0] if len(c) == 1 else None


def parts(P, q, a, v):
    """Parts of a value of the type: (variant or None, [values])"""
    if a.kind == "struct":
        v = q.I.snap(q.st, q.deref(v))
        return None, [q.I._project1(v, ("field", i, P.expand(T.parse(f[1])))) for i, f in enumerate(a.fields)]
    t = q.tag(v, [x[0] for x in a.variants])
    fs = [x for x in a.variants if x[0] == t][0][2]
    return t, [q.get(v, t, i) for i in range(len(fs))]


@check("C22", TECH)
def c22(ctx):
    P = ctx.P
    ctx.rule("Two values are equal exactly when they are of the same variant and all parts are equal.")
    n = 0
    for f in traits(P, "PartialEq", "eq"):
        a = own(P, f.impl_self, f)
        if a is None or a.name == "IndentedLine":
            continue
        n += 1

        def eq(q, x, y, a=a):
            tx, px = parts(P, q, a, x)
            ty, py = parts(P, q, a, y)
            return mkbool(tx == ty and all(q.eq(u, v) for u, v in zip(px, py)))
        ctx.agree(f"equality of {a.module}::{a.name}", f, eq)
    ctx.count("types with equality", n)
    ctx.rule("Structural elements are ordered from book through part and title to chapter.")
    levels = ["Book", "Part", "Title", "Chapter"]
    a = P.adts.get("StructuralElementType")
    if a is not None and sorted(v[0] for v in a.variants) == sorted(levels):
        for tr, m, wrap in (("Ord", "cmp", lambda v: v), ("PartialOrd", "partial_cmp", some)):
            for f in traits(P, tr, m):
                if own(P, f.impl_self, f) is not a:
                    continue

                def order(q, x, y, wrap=wrap):
                    tx, px = parts(P, q, a, x)
                    ty, py = parts(P, q, a, y)
                    if tx != ty:
                        return wrap(ordering("<" if levels.index(tx) < levels.index(ty) else ">"))
                    for u, v in zip(px, py):
                        c = q.cmp(u, v)
                        if c != "=":
                            return wrap(ordering(c))
                    return wrap(ordering("="))
                ctx.agree(f"order of structural elements ({tr})", f, order)
    ctx.rule("A copy has the variant and all parts of the original.")
    n = 0
    for f in traits(P, "Clone", "clone"):
        a = own(P, f.impl_self, f)
        if a is None:
            continue
        n += 1

        def clone(q, x, a=a):
            if a.kind == "struct":
                return q.I.snap(q.st, q.deref(x))
            t, p = parts(P, q, a, x)
            return ("adt", a.name, t, tuple(p))

        def taken_apart(q, v, a=a):
            t, p = parts(P, q, a, v)
            return ("adt", a.name, t, tuple(p))
        ctx.agree(f"copy of {a.module}::{a.name}", f, clone, parts=taken_apart)
    ctx.count("types with copies", n)
    ctx.rule("A conversion into a type of several variants gives the variant made for what is converted, holding all of it; a "
             "conversion into the type of a part gives that part.")
    n = 0
    for f in traits(P, "From", "from"):
        a = own(P, f.impl_self, f)
        if not f.impl_trait[2]:
            continue
        src = P.expand(f.impl_trait[2][0])
        b = own(P, src, f)
        if b is not None and b.kind == "struct":
            fs = [i for i, x in enumerate(b.fields) if same_type(P, x[1], f.impl_self)]
            if len(fs) == 1:
                n += 1
                ctx.agree(f"{T.show(f.impl_self)} from {T.show(src)}", f, lambda q, x, b=b, i=fs[0]: parts(P, q, b, x)[1][i])
                continue
        if a is None or a.kind != "enum":
            continue
        vs = [v for v in a.variants if len(v[2]) == 1 and same_type(P, v[2][0][1], src)]
        if len(vs) == 1:
            n += 1
            ctx.agree(f"{a.name} from {T.show(src)}", f, lambda q, x, a=a, v=vs[0]: ("adt", a.name, v[0], (q.I.snap(q.st, x),)),
                      parts=lambda q, v: v)
        elif b is not None and b.kind == "enum" and {v[0] for v in b.variants} <= {v[0] for v in a.variants}:
            n += 1

            def same(q, x, a=a, b=b):
                t, p = parts(P, q, b, x)
                return ("adt", a.name, t, tuple(p))
            ctx.agree(f"{a.name} from {T.show(src)}", f, same)
    ctx.count("conversions", n)


def bare(P, t):
    """Type with the modules of its names left out"""
    t = P.expand(t)
    while t[0] == "ref":
        t = P.expand(t[-1])
    if t[0] == "path":
        if T.last(t[1]) == "str":
            return ("String",)
        return (T.last(t[1]),) + tuple(bare(P, x) for x in t[2])
    return t


def same_type(P, text, ty):
    return bare(P, T.parse(text)) == bare(P, ty)
