"""Loops that only compute: summarised as fold terms.

A loop over one iterator that neither exits early, nor panics, nor has visible effects is replaced by a term per modified
location: fold(source, initial values, cases), where a case is a condition on the element and the accumulators and the new
values.  Two folds are compared case by case, so the order of independent loops, and whether they are written as `for`
loops or iterator chains, does not matter."""
from .absint import (key, const, tok, UNIT, Unsupported, app)
from . import rtypes as T

HEIGHT = "\u03b2"       # bound element / accumulators of a fold: β<height>


def deep(v, f):
    """Rewrite nested tuples bottom-up."""
    if isinstance(v, tuple):
        v = tuple(deep(x, f) for x in v)
    elif isinstance(v, frozenset):
        return frozenset(deep(x, f) for x in v)
    return f(v)


def height(v):
    if isinstance(v, str):
        if v.startswith(HEIGHT) and v[1:].isdigit():
            return int(v[1:])
        return 0
    if isinstance(v, (tuple, frozenset)):
        return max((height(x) for x in v), default=0)
    return 0


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, (tuple, frozenset)) and any(mentions(y, x) for y in v)


def has_prefix(v, p):
    if isinstance(v, tuple):
        if v[:len(p)] == p:
            return True
        return any(has_prefix(y, p) for y in v)
    if isinstance(v, frozenset):
        return any(has_prefix(y, p) for y in v)
    return False


def atoms(trail):
    """Conditions of one path: {atom: (allowed, entry)}"""
    out = {}
    for t in trail:
        if t[0] == "bool":
            a, s = ("bool", key(t[1])), frozenset([t[2]])
        elif t[0] == "tag":
            a, s = ("tag", key(t[1])), frozenset([t[2]])
        elif t[0] == "nottag":
            a, s = ("tag", key(t[1])), ("not", frozenset(t[2]))
        elif t[0] == "ord":
            a, s = ("ord", key(t[1]), key(t[2])), frozenset(t[3])
        else:
            continue
        if a in out and isinstance(s, frozenset) and isinstance(out[a][0], frozenset):
            s = s & out[a][0]
        elif a in out and not isinstance(s, frozenset):
            s = out[a][0]
        out[a] = (s, t)
    return out


def union(a, x, y):
    """Merged outcome sets of one atom; None: no restriction; False: cannot be merged"""
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        u = x | y
        if a[0] == "bool" and len(u) == 2 or a[0] == "ord" and len(u) == 3:
            return None
        if a[0] == "tag" and u in (frozenset(["Some", "None"]), frozenset(["Ok", "Err"])):
            return None
        return u
    n, p = (x, y) if not isinstance(x, frozenset) else (y, x)
    if isinstance(p, frozenset):
        rest = n[1] - p
        return ("not", rest) if rest else None
    return False


def entry_of(a, s, like):
    if a[0] == "ord":
        return ("ord", like[1], like[2], "".join(sorted(s)))
    if a[0] == "tag":
        if isinstance(s, frozenset):
            return ("tag", like[1], next(iter(s))) if len(s) == 1 else ("tags", like[1], tuple(sorted(s)))
        return ("nottag", like[1], tuple(sorted(s[1])))
    return like


def merge(cases):
    """[(atoms, value)]: join cases with the same value that differ in the outcome of one condition only."""
    cs = [({a: s for a, (s, _) in c.items()}, {a: t for a, (_, t) in c.items()}, v) for c, v in cases]
    again = True
    while again:
        again = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                a, b = cs[i], cs[j]
                if key(a[2]) != key(b[2]):
                    continue
                # subsumption
                if all(k in b[0] and b[0][k] == v for k, v in a[0].items()):
                    del cs[j]
                    again = True
                    break
                if all(k in a[0] and a[0][k] == v for k, v in b[0].items()):
                    del cs[i]
                    again = True
                    break
                if set(a[0]) != set(b[0]):
                    continue
                d = [k for k in a[0] if a[0][k] != b[0][k]]
                if len(d) != 1:
                    continue
                u = union(d[0], a[0][d[0]], b[0][d[0]])
                if u is False:
                    continue
                n, e = dict(a[0]), dict(a[1])
                if u is None:
                    n.pop(d[0])
                    e.pop(d[0])
                else:
                    n[d[0]] = u
                    e[d[0]] = entry_of(d[0], u, e[d[0]])
                cs[i] = (n, e, a[2])
                del cs[j]
                again = True
                break
            if again:
                break
    return [(tuple(e[k] for k in e), v) for _, e, v in cs]


def summarise(I, s, source, label, leaves, results):
    """leaves: [(loc, entry, token, ty)], results: [(trail suffix, {loc: new value})] -> {loc: value} or None"""
    per = {}
    for loc, entry, t, ty in leaves:
        cs = merge([(atoms(tr), nv[loc]) for tr, nv in results])
        per[loc] = cs
    tokens = {loc: t for loc, entry, t, ty in leaves}
    entries = {loc: e for loc, e, t, ty in leaves}
    tys = {loc: ty for loc, e, t, ty in leaves}

    def deps(loc):
        out = []
        for ents, v in per[loc]:
            for l2, t in tokens.items():
                if l2 not in out and (has_prefix(v, t[1]) or has_prefix(ents, t[1])):
                    out.append(l2)
        return out
    final = {}
    for loc in per:
        order = [loc]
        i = 0
        while i < len(order):
            for d in sorted(deps(order[i]), key=lambda l: first_use(per[order[i]], tokens[l])):
                if d not in order:
                    order.append(d)
            i += 1
        final[loc] = mkfold(I, s, source, label, [(tokens[l], entries[l], per[l], tys[l]) for l in order])
    return final


def first_use(cs, t):
    return repr(cs).find(repr(t[1])[1:-1]) if cs else 0


def mkfold(I, s, source, label, vars_):
    # normal forms
    t0, e0, c0, ty0 = vars_[0]
    el = ("elem", key(source), label)
    if len(vars_) == 1 and len(c0) == 1 and not c0[0][0]:
        v = c0[0][1]
        if v[0] == "app" and v[1] == "push" and key(v[2][0]) == key(t0) and v[2][1][0] == "tok" and v[2][1][1] == el \
                and not is_iter(source):
            from .itermodels import vconcat
            return vconcat(e0, source)
        if v[0] == "app" and v[1] == "lin" and key(v[2][0]) == key(t0):
            from .itermodels import count_of
            n = count_of(I, s, source)
            if n is not None and v[2][1][1] == 1:
                return I.binop("Add", e0, n) if e0 != const(0, "usize") and key(e0) != key(const(0)) else n
    h = 1 + max(height(key(source)), max((height((ents, v)) for _, _, cs, _ in vars_ for ents, v in cs), default=0))
    names = {}
    for i, (t, e, cs, ty) in enumerate(vars_):
        names[t[1]] = ("acc", f"{HEIGHT}{h}", i)

    def f(x):
        if x == label:
            return f"{HEIGHT}{h}"
        if isinstance(x, tuple):
            for n, c in names.items():
                if x[:len(n)] == n:
                    return c + x[len(n):]
        return x
    cases = tuple(tuple((deep(ents, f), deep(v, f)) for ents, v in cs) for _, _, cs, _ in vars_)
    renamed(I, [x for _, _, cs, _ in vars_ for x in cs], f)
    ck = deep_key(cases)
    I.fold_defs.setdefault(("fold", ck), (h, cases))
    node = ("app", "fold", (source,) + tuple(e for _, e, _, _ in vars_) + (("k", ck),), ty0)
    return known_fold(I, s, node)


def find_closure(I, clo):
    span, owner, fname = clo[1][8:].split("|", 2)
    fis = I.p.closures.get((owner, span)) or I.p.closures.get(span) or []
    return next((f for f in fis if f.name.startswith(fname + "::{closure")), fis[0] if fis else None)


def order(I, outs):
    """The outcomes of a comparison, as a sort sees them: less, or not less (NaN does not occur; the order of ties is open)"""
    res = []
    for o in outs:
        if any(t[0] == "ord" and t[3] == "=" for t in o.state.trail):
            continue
        o.state.trail = tuple(t[:3] + (t[3].replace("=", ""),) if t[0] == "ord" else t for t in o.state.trail)
        nan = [t for t in o.state.trail if t[0] in ("tag", "nottag") and t[1][0] == "app" and t[1][1] == "partial_cmp"]
        if any((t[0] == "tag") == (t[2] == "None" or t[2] == ("None",)) for t in nan):
            continue
        o.state.trail = tuple(t for t in o.state.trail if t not in nan)
        if o.kind != "return":
            return outs
        v = I.snap(o.state, o.ret)
        for s, less in I.branch_variant(o.state, v, "Less", ["Less", "Equal", "Greater"]):
            n = type(o)("return", s, ("adt", "Ordering", "Less" if less else "Greater", ()))
            res.append(n)
    return res


def lam(I, st, clo, post=None):
    """What a pure closure computes, as a term (for closures handed to functions that are not interpreted), or None."""
    fi = find_closure(I, clo)
    if fi is None:
        return None
    s = st.fork()
    s.trail = ()
    n0 = len(s.events)
    args = []
    I.lam_n = getattr(I, "lam_n", 0) + 1
    mark = f"lam#{I.lam_n}"
    for i, (l, ty) in enumerate(fi.mir.params[1:]):
        t = I.p.expand(T.parse(ty))
        v = ("tok", (mark, i), t[2] if t[0] == "ref" else t)
        if t[0] == "ref":
            s.mem[("lamarg", I.lam_n, i)] = v
            v = ("ref", ("lamarg", I.lam_n, i), ())
        args.append(v)
    before = dict(s.mem)
    try:
        outs = I.call_value(clo, args, s, T.parse(fi.mir.ret), ("closure", 0))
        outs = post(I, outs) if post is not None else outs
    except Unsupported:
        return None
    cases = []
    for o in outs:
        if o.kind != "return" or any(e[0] in ("write", "loop") or e[0] == "call" and e[5] for e in o.state.events[n0:]):
            return None
        if any(o.state.mem.get(k) != v for k, v in before.items()):
            return None
        cases.append((atoms(o.state.trail), I.snap(o.state, o.ret)))
    cs = merge(cases)
    if len(cs) > 24:
        return None
    h = 1 + max((height((ents, v)) for ents, v in cs), default=0)

    def f(x):
        if isinstance(x, tuple) and x and x[0] == mark:
            return ("lamx", f"{HEIGHT}{h}") + x[1:]
        return x
    renamed(I, cs, f)
    cs = (tuple((deep(e, f), deep(v, f)) for e, v in cs),)
    ck = deep_key(cs)
    I.fold_defs.setdefault(("fold", ck), (h, cs))
    return known_fold(I, st, ("app", "lam", (("k", ck),), None))


def deep_key(cases):
    out = []
    for cs in cases:
        out.append(tuple(sorted(((tuple(sorted((ekey(x) for x in ents), key=repr)), key(v)) for ents, v in cs), key=repr)))
    return tuple(out)


def ekey(x):
    if x[0] == "ord":
        return ("ord", key(x[1]), key(x[2]), x[3])
    return (x[0], key(x[1])) + tuple(x[2:])


def is_iter(v):
    return v[0] == "app" and isinstance(v[1], str) and v[1].startswith("iter")


def renamed(I, cases, f):
    """Folds nested in cases whose bound names are replaced by f stay known under their new key."""
    todo, seen = list(cases), set()

    def nodes(x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] == "app" and x[1] in ("fold", "lam") and isinstance(x[2], tuple) and x[2] \
                    and x[2][-1][0] == "k":
                yield x[2][-1][1]
            for y in x:
                yield from nodes(y)
    while todo:
        for ck in nodes(todo.pop()):
            if ck in seen or ("fold", ck) not in I.fold_defs:
                continue
            seen.add(ck)
            h, cs = I.fold_defs[("fold", ck)]
            todo.append(cs)
            n = deep(cs, f)
            I.fold_defs.setdefault(("fold", deep_key(n)), (h, n))


def known_fold(I, s, node):
    """The same fold met earlier (in the implementation) under another name."""
    k = key(node)
    if k in I.fold_seen:
        return node
    if I.tag == "B":
        for k2, n2 in list(I.fold_seen.items()):
            if n2[1] == node[1] and same_fold(I, s, node, n2) is True:
                return n2
    I.fold_seen[k] = node
    return node


def assume_entries(I, st, ents):
    """st with the conditions assumed, or None"""
    for e in ents:
        if e[0] == "bool":
            r = [s for s, b in I.branch_bool(st, e[1]) if b == e[2]]
            st = r[0] if r else None
        elif e[0] == "tag":
            st = I.assume_tag(st, e[1], e[2])
        elif e[0] == "nottag":
            st = I.without_variants(st, e[1], list(e[2]), I.variants_of(e[1][2] if e[1][0] == "tok" else e[1][3] if e[1][0] == "app" else None))
        elif e[0] == "tags":
            vs = I.variants_of(e[1][2] if e[1][0] == "tok" else e[1][3] if e[1][0] == "app" else None)
            if vs:
                st = I.without_variants(st, e[1], [v for v in vs if v not in e[2]], vs)
        elif e[0] == "ord":
            st = I.assume_ord(st, e[1], e[2], e[3])
        if st is None:
            return None
    return st


def plain(v):
    """A collection, a part of one or one reversed (and not some iterator that may visit the same elements)"""
    if v[0] == "tok":
        return True
    if v[0] == "app" and v[1] in ("slice", "sorted", "iter:rev", "iter:ref", "iter:own", "iter:chars"):
        return plain(v[2][-1] if v[1] == "iter:ref" else v[2][0])
    if v[0] == "app" and v[1] in ("iter:skip", "iter:take", "iter:step_by") and v[2][1][0] == "c" and v[2][1][1] > 1 - (v[1] == "iter:skip"):
        return plain(v[2][0])
    return False


def whole(v):
    """The collection a plain source is taken from"""
    while v[0] == "app" and (v[1] == "slice" or v[1].startswith("iter:")):
        v = v[2][-1] if v[1] == "iter:ref" else v[2][0]
    return key(v)


def other_words(I, csa, csb, ea, eb):
    """The two bodies decide by uninterpreted terms that the other does not use: they may say the same in other words."""
    from .refine import asked, hole
    a, b, qa, qb = ({hole(q) for e in x for q in asked(I, e)} for x in ([e for e, _ in csa], [e for e, _ in csb], [ea], [eb]))
    own = qa - b
    return bool(own) and not (own & (qb - a)) and bool(b or I.tag)


def replaced(k, old, new):
    if k == old:
        return new
    return tuple(replaced(x, old, new) for x in k) if isinstance(k, tuple) else k


def same_fold(I, st, a, b, detail=None):
    """True: equal; False: a case differs definitely; None: not decided."""
    from .models import eq_value
    if len(a[2]) != len(b[2]):
        return None
    other, ndiff = None, 0
    for i, (x, y) in enumerate(zip(a[2][:-1], b[2][:-1])):
        if key(x) != key(y) and I.kc(st, x) != I.kc(st, y):
            if a[1] != "fold" or a[2][-1] != b[2][-1] and (i or replaced(a[2][-1], key(x), key(y)) != b[2][-1]):
                return None
            from .refine import definite
            if i == 0 and not (plain(x) and plain(y)):
                return None
            if not definite(I, st, x, y):
                return None
            other = False
            ndiff += 1
            if i == 0:
                ndiff += 1
    if ndiff > 2:
        return None            # what one side does before, the other may do in the loop
    if other is False:
        return False           # the same computation from another start or over other elements
    if ("fold", a[2][-1][1]) not in I.fold_defs or ("fold", b[2][-1][1]) not in I.fold_defs:
        return None
    ha, ca = I.fold_defs[("fold", a[2][-1][1])]
    hb, cb = I.fold_defs[("fold", b[2][-1][1])]
    if ha != hb or len(ca) != len(cb):
        return None
    worst = True
    for csa, csb in zip(ca, cb):
        for ea, va in csa:
            s1 = assume_entries(I, st, ea)
            if s1 is None:
                continue
            for eb, vb in csb:
                s2 = assume_entries(I, s1, eb)
                if s2 is None:
                    continue
                if key(va) == key(vb) or all(r for _, r in eq_value(I, s2, va, vb)):
                    continue
                from .refine import definite
                if definite(I, s2, va, vb) and not other_words(I, csa, csb, ea, eb):
                    if detail is not None:
                        detail.append((va, vb, ea, eb))
                    return False
                worst = None
    return worst


def folds_in(v, out=None):
    out = out if out is not None else []
    if v[0] == "app":
        if v[1] == "fold":
            out.append(v)
        for x in v[2]:
            if x[0] != "k":
                folds_in(x, out)
    elif v[0] == "adt":
        for x in v[3]:
            folds_in(x, out)
    return out
