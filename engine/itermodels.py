"""Transfer functions for iterators, collections and text.

An iterator is a value app("iter:<kind>", (source, ...)).  `elements` gives one arbitrary element of it; the element of a
plain in-order iteration over collection c in the k-th loop of the path is tok(("elem", key(c), k)), so that a `for`
loop, an index loop and an iterator chain over the same collection speak about the same element.  Consumers (fold, any,
find, collect, ...) are loops of their own, cut like the loops of the MIR.
"""
from . import rtypes as T
from .absint import (Outcome, UNIT, TRUE, FALSE, NONE, some, ok, err, app, const, mkbool, key, klin, Unsupported)
from .models import model, TABLE, ret, deref, inner_ty, self_targ, type_name, retag, calls, default_of, where

BOOL = ("path", "bool", ())
USIZE = ("path", "usize", ())


def is_iter(v):
    return v[0] == "app" and isinstance(v[1], str) and v[1].startswith("iter")


def mkit(kind, *args, ty=None):
    return ("app", "iter:" + kind, tuple(args), ty)


# ------------------------------------------------------------------ sources

@model("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "str::chars",
       "Iterator::by_ref", "Vec::drain", "Option::iter", "BTreeMap::iter", "BTreeMap::into_iter", "HashMap::iter")
def _iter(I, c, a, st, rt, site):
    n = I.norm_name(c)
    v = a[0]
    s = I.snap(st, v)
    if is_iter(s):
        return ret(st, v if n == "Iterator::by_ref" or v[0] == "ref" else retag(s, rt))
    if n == "str::chars":
        return ret(st, mkit("chars", s, ty=rt))
    if s[0] == "app" and s[1] == "list":
        return ret(st, s[2][0])
    if s[0] == "adt" and s[1] in ("Range", "RangeInclusive"):
        lo, hi = s[3][:2]
        if s[1] == "RangeInclusive" and hi[0] == "c" and isinstance(hi[1], int) and not isinstance(hi[1], bool):
            return ret(st, mkit("range", lo, const(hi[1] + 1, hi[2]), ty=rt))
        return ret(st, mkit("range" if s[1] == "Range" else "rangei", lo, hi, ty=rt))
    if n == "Vec::drain":
        if v[0] == "ref" and len(a) > 1 and is_full_range(I.snap(st, a[1])):
            old = I.read_loc(st, (v[1], v[2]))
            I.write_loc(st, (v[1], v[2]), ("adt", "array", None, ()))
            return ret(st, mkit("own", I.snap(st, old), ty=rt))
        return None
    if v[0] == "ref":
        src = v
        inner = I.read_loc(st, (v[1], v[2]))
        while inner[0] == "ref":
            src, inner = inner, I.read_loc(st, (inner[1], inner[2]))
        return ret(st, mkit("ref", src, s, ty=rt))
    return ret(st, mkit("own", s, ty=rt))


def is_full_range(v):
    return v[0] == "adt" and v[1] == "RangeFull" or v[0] == "fn" and "RangeFull" in v[1]


for _n in ("map", "filter", "enumerate", "zip", "rev", "skip", "take", "chain", "peekable", "filter_map", "flat_map",
           "skip_while", "take_while", "cloned", "copied", "step_by", "inspect", "flatten", "map_while", "fuse"):
    def _mk(I, c, a, st, rt, site, _n=_n):
        it = I.snap(st, a[0]) if a[0][0] == "ref" else a[0]
        rest = list(a[1:])
        if _n in ("zip", "chain"):
            rest = [as_iter(I, st, rest[0])]
        if _n in ("cloned", "copied", "fuse", "peekable", "by_ref"):
            return ret(st, retag(it, rt) if _n != "peekable" else mkit("peekable", it, ty=rt))
        if _n in ("take", "skip") and is_iter(it) and it[1] in ("iter:ref", "iter:own") and "IterMut" not in T.show(rt or UNIT_TY):
            r = take_slice(I, st, it, I.snap(st, rest[0]), _n, rt)
            if r is not None:
                return r
        return ret(st, mkit(_n, it, *rest, ty=rt))
    TABLE["Iterator::" + _n] = _mk

UNIT_TY = ("path", "?", ())


def take_slice(I, st, it, n, kind, rt):
    """iter().take(n) and skip(n) are iterations over a slice"""
    coll = source_key(I, st, it)[1]
    if coll is None or coll[0] not in ("tok", "app") or is_iter(coll) or T_opt(coll):
        return None
    if coll[0] == "tok" and it[1] == "iter:own" and not type_text(coll).startswith(("Vec<", "std::vec::Vec<", "&[", "&Vec<")):
        return None
    out = []
    l = I.length(coll)
    for allowed, within in (("<=", True), (">", False)):
        s = I.assume_ord(st, n, l, allowed)
        if s is None:
            continue
        s = s.fork()
        if within:
            v = slice_of(I, coll, (None, n, False) if kind == "take" else (n, None, False), coll_ty(coll))
        else:
            v = coll if kind == "take" else ("adt", "array", None, ())
        out.append(Outcome("return", s, mkit("own", v, ty=rt)))
    return out


def coll_ty(v):
    return v[2] if v[0] == "tok" else v[3]


def as_iter(I, st, v):
    s = I.snap(st, v)
    if is_iter(s):
        return s
    if s[0] == "app" and s[1] == "list":
        return s[2][0]
    if v[0] == "ref":
        return mkit("ref", v, s)
    if s[0] == "adt" and s[1] == "Range":
        return mkit("range", *s[3][:2])
    return mkit("own", s)


for _n in ("str::split", "slice::windows", "str::char_indices", "str::lines", "str::split_whitespace", "slice::chunks", "slice::chunks_exact",
           "str::bytes", "str::rsplit", "str::splitn", "str::split_inclusive", "slice::split", "Regex::find_iter",
           "Regex::captures_iter", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::range"):
    TABLE[_n] = lambda I, c, a, st, rt, site, _n=_n: ret(
        st, ("app", "iter:" + _n.replace("::", "_"), tuple(I.snap(st, x) for x in a), rt))


# ------------------------------------------------------------------ elements

def base(it):
    """The iterator whose exhaustion ends the pipeline."""
    while is_iter(it) and it[1][5:] in ("map", "filter", "enumerate", "filter_map", "inspect", "rev", "peekable", "flat_map",
                                        "map_while", "take_while", "skip_while"):
        it = it[2][0]
    return it


def source_key(I, st, it):
    """(key of the plain collection, or of the iterator expression) and its element count, if known"""
    if it[1] == "iter:ref":
        c = it[2][1]          # the collection as it was when the iteration began
        return key(c), c
    if it[1] in ("iter:own", "iter"):
        return key(it[2][0]), it[2][0]
    return key(I.snap(st, it)), None


def exhausted(I, st, it, lid):
    """[(state, more?)]: whether another element exists."""
    if ("over", lid) in st.facts:
        return [(st, False)]
    b = base(it)
    c = source_key(I, st, b)[1] if is_iter(b) else b
    src = c if c is not None else I.snap(st, b)
    if isinstance(lid, str):
        if c is not None and (T_opt(c) if c[0] in ("tok", "app") else c[0] == "adt" and c[1] == "Option"):
            raise Unsupported("loop over an Option")
        I.loop_src[lid] = src
    out = []
    for s, more in _exhausted(I, st, it, lid):
        s = s.fork()
        s.event("advance" if more else "exhausted", lid, src)
        out.append((s, more))
    return out


def count_of(I, st, source):
    if not is_iter(source):
        return I.length(source)
    if source[1] == "iter:chars":
        return app("nchars", source[2][0], ty=USIZE)
    return None


def _exhausted(I, st, it, lid):
    b = base(it)
    k, coll = source_key(I, st, b) if is_iter(b) else (key(b), None)
    if coll is not None and coll[0] == "adt" and coll[1] == "array" and not coll[3]:
        return [(st, False)]
    if coll is not None and coll[0] in ("tok", "app"):
        t = type_text(coll)
        if t.startswith("Option<") or T_opt(coll):
            r = []
            for s, h in I.branch_variant(st, coll, "Some", ["None", "Some"]):
                if not h:
                    r.append((s, False))
                else:
                    r += ask_more(I, s, k, lid)
            return r
        if I.orderings(st, I.length(coll), const(0, "usize")) == frozenset("="):
            return [(st, False)]
    if coll is not None and coll[0] == "adt" and coll[2] == "None":
        return [(st, False)]
    if b[1] == "iter:zip":
        r = []
        for s, m in _exhausted(I, st, b[2][0], lid):
            r += _exhausted(I, s, b[2][1], lid) if m else [(s, False)]
        return r
    return ask_more(I, st, k, lid, coll)


def T_opt(v):
    ty = v[2] if v[0] == "tok" else v[3]
    if ty is None:
        return False
    t = T.parse(ty) if isinstance(ty, str) else ty
    while t[0] == "ref":
        t = t[2]
    return t[0] == "path" and T.last(t[1]) == "Option"


def type_text(v):
    ty = v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None
    return "" if ty is None else ty if isinstance(ty, str) else T.show(ty)


def ask_more(I, st, k, lid, coll=None):
    q = ("app", "more", (("k", k), ("k", lid)), BOOL)
    out = []
    for s, b in I.branch_bool(st, q):
        if b and coll is not None and coll[0] in ("tok", "app"):
            s2 = I.assume_ord(s, I.length(coll), const(0, "usize"), ">")
            if s2 is None:
                continue
            s = s2
        out.append((s, b))
    return out


def elements(I, st, it, ty, lid, site):
    """[(state, element or None)]: one arbitrary element; None: this position yields nothing (filtered out)."""
    if not is_iter(it):
        return [(st, ("tok", ("elem", key(I.snap(st, it)), lid), ty))]
    kind = it[1][5:]
    a = it[2]
    if isinstance(lid, tuple) and lid[0] == "lit":
        if kind in ("ref", "own"):
            return [(st, source_key(I, st, it)[1][3][lid[1]])]
        if kind == "enumerate":
            return [(s, e if e is None or e == "outcome" else ("adt", "tuple", None, (const(lid[1], "usize"), e)))
                    for s, e in elements(I, st, a[0], None, lid, site)]
    if ty is None and kind in ("ref", "own", "") and len(a) > (kind == "ref"):
        ty = elem_type(a[1] if kind == "ref" else a[0])
    if kind == "ref":
        inner = a[1]
        e = ("elem", key(inner), lid)
        I.elem_src[e] = (a[0][1], a[0][2])
        if T_opt(inner) if inner[0] in ("tok", "app") else inner[0] == "adt" and inner[1] == "Option":
            return [(st, ("ref", a[0][1], a[0][2] + (("variant", "Some"), ("field", 0, None))))]
        return [(st, ("tok", e, strip_ref(ty)))]
    if kind in ("own", ""):
        v = a[0]
        if v[0] == "adt" and v[1] == "Option":
            return [(st, v[3][0])] if v[3] else []
        if v[0] in ("tok", "app") and T_opt(v):
            return [(st, I.payload(st, v, "Some", 0, ty))]
        return [(st, ("tok", ("elem", key(v), lid), ty))]
    if kind == "range":
        e = ("tok", ("elem", key(I.snap(st, it)), lid), ty or USIZE)
        s = I.assume_ord(st, e, a[0], ">=")
        s = I.assume_ord(s, e, a[1], "<") if s is not None else None
        return [(s, e)] if s is not None else []
    if kind == "map":
        out = []
        for s, e in elements(I, st, a[0], None, lid, site):
            if e is None:
                out.append((s, None))
                continue
            for o in I.call_value(a[1], [e], s, strip_none(ty), site):
                out.append((o.state, o.ret) if o.kind == "return" else (o, "outcome"))
        return out
    if kind in ("filter", "inspect", "take_while", "skip_while"):
        if kind == "skip_while":
            return [(st, ("tok", ("elem", key(I.snap(st, it)), lid), ty))]
        out = []
        for s, e in elements(I, st, a[0], ty, lid, site):
            if e is None or e == "outcome":
                out.append((s, e))
                continue
            r = cell_ref(I, s, e)
            for o in I.call_value(a[1], [r], s, BOOL, site):
                if o.kind != "return":
                    out.append((o, "outcome"))
                    continue
                if kind == "inspect":
                    out.append((o.state, e))
                    continue
                for s2, b in I.branch_bool(o.state, o.ret):
                    out.append((s2, e if b else (None if kind == "filter" else "stop")))
        return out
    if kind in ("filter_map", "map_while"):
        out = []
        for s, e in elements(I, st, a[0], None, lid, site):
            if e is None or e == "outcome":
                out.append((s, e))
                continue
            for o in I.call_value(a[1], [e], s, None, site):
                if o.kind != "return":
                    out.append((o, "outcome"))
                    continue
                for s2, b in I.branch_variant(o.state, deref(I, o.state, o.ret), "Some", ["None", "Some"]):
                    out.append((s2, I.payload(s2, deref(I, s2, o.ret), "Some", 0, ty) if b
                                else (None if kind == "filter_map" else "stop")))
        return out
    if kind == "enumerate":
        k, coll = source_key(I, st, a[0])
        idx = ("tok", ("elem", key(mkit("range", const(0, "usize"), app("len", coll if coll is not None else ("k", k)))), lid), USIZE)
        out = []
        for s, e in elements(I, st, a[0], None, lid, site):
            out.append((s, e if e is None or e == "outcome" else ("adt", "tuple", None, (idx, e))))
        return out
    if kind == "zip":
        out = []
        for s, e in elements(I, st, a[0], None, lid, site):
            if e is None or e == "outcome":
                raise Unsupported("zip of filtered iterator")
            for s2, f in elements(I, s, a[1], None, lid, site):
                if f is None or f == "outcome":
                    raise Unsupported("zip of filtered iterator")
                out.append((s2, ("adt", "tuple", None, (e, f))))
        return out
    if kind == "peekable":
        return elements(I, st, a[0], ty, lid, site)
    return [(st, ("tok", ("elem", key(I.snap(st, it)), lid), ty))]


def strip_ref(ty):
    if ty is None:
        return None
    t = T.parse(ty) if isinstance(ty, str) else ty
    return t[2] if t[0] == "ref" else t


def strip_none(ty):
    return ty


def cell_ref(I, st, v):
    I.fresh_n += 1
    cell = ("tmp", I.fresh_n)
    st.mem[cell] = v
    return ("ref", cell, ())


def active_loop(I, cell):
    """The loop (ordinal, header) that drives an iterator stored in cell, or None."""
    for fr in reversed(I.fstack):
        if isinstance(cell[0], int) and fr < cell[0]:
            break
        p = I.pos.get(fr)
        if p is None:
            continue
        mir, bb, seen = p
        hs = I.loops(mir)
        best = None
        for h, lid in seen.items():
            if bb in hs[h] and (best is None or len(hs[h]) < len(hs[best[1]])):
                if fr == cell[0] and assigned_in(I, mir, hs[h], cell[1]):
                    continue
                best = (lid, h, fr)
        if best is not None:
            return best
    return None


_ASSIGNED = {}


def assigned_in(I, mir, body, l):
    k = (id(mir), min(body), len(body))
    if k not in _ASSIGNED:
        s = set()
        for b in body:
            blk = mir.blocks[b]
            for stm in blk.stmts:
                if stm[0] == "assign" and not stm[1][2]:
                    s.add(stm[1][1])
            if blk.term and blk.term[0] == "call" and not blk.term[1][2]:
                s.add(blk.term[1][1])
        _ASSIGNED[k] = (mir, s)
    return l in _ASSIGNED[k][1]


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _next(I, c, a, st, rt, site):
    v = a[0]
    cell = None
    while v[0] == "ref":
        cell = v
        v = I.read_loc(st, (v[1], v[2]))
    it = v
    if not is_iter(it):
        return None
    if I.norm_name(c).endswith("next_back"):
        it = mkit("rev", it)
    act = active_loop(I, cell[1]) if cell is not None else None
    ety = inner_ty(rt)
    if act is None:
        return positional_next(I, st, it, cell, ety, I.norm_name(c).endswith("next_back"), site)
    lid, header, fr = act
    out = []
    for s, more in exhausted(I, st, it, lid):
        if not more:
            out.append(Outcome("return", s, NONE))
            continue
        for s2, e in elements(I, s.fork(), it, ety, lid, site):
            if e == "outcome":
                out.append(s2)
            elif e == "stop":
                out.append(Outcome("return", s2, NONE))
            elif e is None:
                out.append(Outcome("iter", s2, None, (I.qual_of(fr), header, lid)))
            else:
                out.append(Outcome("return", s2, some(e)))
    return out


def positional_next(I, st, it, cell, ty, back, site):
    n = 0
    if it[1] == "iter:advanced":
        n, it = it[2][1][1], it[2][0]
    kind = it[1][5:]
    if kind not in ("ref", "own", "chars", "str_split", "rev", "str_lines", "str_splitn") or back:
        return None
    if kind == "rev" and is_iter(it[2][0]) and it[2][0][1] not in ("iter:ref", "iter:own", "iter:chars"):
        return None
    b = it[2][0] if kind == "rev" else it
    k, coll = source_key(I, st, b)
    if b[1] == "iter:chars":
        coll = b[2][0]
        cnt = I.length(coll) if n == 0 else app("nchars", coll, ty=USIZE)
    elif coll is not None:
        cnt = I.length(coll)
    else:
        cnt = app("count", I.snap(st, b), ty=USIZE)
    if b[1] == "iter:str_split" and n == 0:
        has = [(st, True)]
    else:
        has = []
        for allowed, r in ((">", True), ("<=", False)):
            s = I.assume_ord(st, cnt, const(n, "usize"), allowed)
            if s is not None:
                has.append((s.fork(), r))
    out = []
    for s, h in has:
        if not h:
            out.append(Outcome("return", s, NONE))
            continue
        e = nth_elem(I, s, it, n, ty)
        if cell is not None:
            I.write_loc(s, (cell[1], cell[2]), mkit("advanced", it, const(n + 1)))
        out.append(Outcome("return", s, some(e)))
    return out


def nth_elem(I, st, it, n, ty):
    k, coll = source_key(I, st, it)
    if coll is not None and coll[0] == "adt" and coll[1] == "array" and 0 <= n < len(coll[3]):
        return coll[3][n]
    if it[1] == "iter:rev":
        k, coll = source_key(I, st, it[2][0])
        n = -1 - n
    return ("tok", ("nth", k, n), strip_ref(ty))


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut", "Vec::first", "Vec::last")
def _first(I, c, a, st, rt, site):
    n = I.norm_name(c).split("::")[1]
    v = a[0]
    src, inner = v, v
    while inner[0] == "ref":
        src, inner = inner, I.read_loc(st, (inner[1], inner[2]))
    out = []
    l = I.length(I.snap(st, inner))
    for allowed, r in ((">", True), ("=", False)):
        s = I.assume_ord(st, l, const(0, "usize"), allowed)
        if s is None:
            continue
        s = s.fork()
        if not r:
            out.append(Outcome("return", s, NONE))
            continue
        e = last_of(I, s, inner, inner_ty(rt)) if n.startswith("last") else first_of(I, s, inner, inner_ty(rt))
        if n.endswith("_mut") and src[0] == "ref":
            e = ("ref", src[1], src[2] + (("index", ("c", -1 if n.startswith("last") else 0, "int")),))
        out.append(Outcome("return", s, some(e)))
    return out


@model("slice::split_first", "slice::split_last", "Vec::split_first", "Vec::split_last")
def _split_first(I, c, a, st, rt, site):
    last = I.norm_name(c).endswith("last")
    v = I.snap(st, a[0])
    l = I.length(v)
    out = []
    tt = inner_ty(rt)
    ety = tt[1][0] if tt is not None and tt[0] == "tuple" else None
    for allowed in (">", "="):
        s = I.assume_ord(st, l, const(0, "usize"), allowed)
        if s is None:
            continue
        s = s.fork()
        if allowed == "=":
            out.append(Outcome("return", s, NONE))
            continue
        e = last_of(I, s, v, ety) if last else first_of(I, s, v, ety)
        one = const(1, "usize")
        r = slice_of(I, v, (None, I.binop("Sub", l, one), False) if last else (one, None, False), ("slice", strip_ref(ety)))
        out.append(Outcome("return", s, some(("adt", "tuple", None, (e, r)))))
    return out


def first_of(I, st, coll, ty):
    if coll[0] == "adt" and coll[1] == "array" and coll[3]:
        return coll[3][0]
    return index_value(I, I.snap(st, coll), ("c", 0, "int"), strip_ref(ty))


def last_of(I, st, coll, ty):
    if coll[0] == "adt" and coll[1] == "array" and coll[3]:
        return coll[3][-1]
    return index_value(I, I.snap(st, coll), ("c", -1, "int"), strip_ref(ty))


# ------------------------------------------------------------------ consumers: loops of their own

def known_empty(I, st, b):
    c = source_key(I, st, b)[1]
    if c is None:
        return False
    if c[0] == "adt" and c[1] == "array":
        return not c[3]
    return c[0] in ("tok", "app") and not T_opt(c) and I.orderings(st, I.length(c), const(0, "usize")) == frozenset("=")


MAX_LITERAL = 8


def literal(I, st, it):
    """The elements of the collection behind a simple pipeline when they are all written out, or None"""
    b = it
    while is_iter(b) and b[1][5:] in ("map", "filter", "enumerate", "filter_map", "inspect"):
        b = b[2][0]
    if not is_iter(b) or b[1] not in ("iter:ref", "iter:own"):
        return None
    c = source_key(I, st, b)[1]
    if c is not None and c[0] == "adt" and c[1] == "array" and 0 < len(c[3]) <= MAX_LITERAL:
        return c[3]
    return None


def unrolled(I, st, it, n, ety, site, init, step, done):
    outs, cur = [], [(st.fork(), dict(init))]
    for i in range(n):
        nxt = []
        for s0, accs in cur:
            for s, e in elements(I, s0.fork(), it, ety, ("lit", i), site):
                if e == "outcome":
                    outs.append(s)
                elif e is None:
                    nxt.append((s, accs))
                elif e == "stop":
                    outs.append(Outcome("return", s, done(s, accs)))
                else:
                    for s2, a2, r in step(s, dict(accs), e):
                        if a2 == "outcome":
                            outs.append(s2)
                        elif r is not None:
                            outs.append(Outcome("return", s2, r))
                        else:
                            nxt.append((s2, {**accs, **a2}))
        cur = nxt
        if len(cur) > 200:
            raise Unsupported("unrolled iteration")
    return outs + [Outcome("return", s, done(s, accs)) for s, accs in cur]


def vloop(I, st, it, ety, site, name, init, step, done):
    """A loop over `it` with accumulators init = {name: value}.
    step(state, accs: {name: value}, element) -> [(state, accs, result or None)]: None goes on, a value leaves the loop.
    done(state, accs) -> value."""
    it = I.snap(st, it) if it[0] == "ref" and not is_iter(deref(I, st, it)) else deref(I, st, it)
    if not is_iter(it) and it[0] == "app" and it[1] != "list":
        it = mkit("own", it)         # an iterator some other function made, as in a for loop over it
    if not is_iter(it):
        return None
    if it[1] == "iter:advanced":
        it = mkit("skip", it[2][0], it[2][1])
    lit = literal(I, st, it)
    if lit is not None:
        return unrolled(I, st, it, len(lit), ety, site, init, step, done)
    if is_iter(base(it)) and known_empty(I, st, base(it)):
        return [Outcome("return", st.fork(), done(st, dict(init)))]
    cells = {}
    st = st.fork()
    for n, v in init.items():
        I.fresh_n += 1
        cells[n] = ("acc", f"{n}")
        # nested consumers of the same kind need their own cells
        while cells[n] in st.mem:
            cells[n] = ("acc", cells[n][1] + "'")
        st.mem[cells[n]] = v
        I.acc_tys[cells[n]] = None
    vsite = (site[0], name)

    def body(s, lid):
        outs = []
        for s1, more in exhausted(I, s, it, lid):
            if not more:
                continue
            for s2, e in elements(I, s1.fork(), it, ety, lid, site):
                if e == "outcome":
                    outs.append(s2)
                    continue
                if e is None:
                    outs.append(Outcome("iter", s2, None, (site[0], vsite, lid)))
                    continue
                if e == "stop":
                    outs.append(Outcome("return", s2, done(s2, {n: s2.mem[c] for n, c in cells.items()})))
                    continue
                for s3, accs, r in step(s2, {n: s2.mem[c] for n, c in cells.items()}, e):
                    if accs == "outcome":
                        outs.append(s3)
                        continue
                    for n, v in accs.items():
                        s3.mem[cells[n]] = v
                    outs.append(Outcome("return", s3, r) if r is not None else
                                Outcome("iter", s3, None, (site[0], vsite, lid)))
        return outs

    def full(s, label):
        s = s.fork()
        s.event("sloop", label, None, ())
        return [(o, "back" if o.kind == "iter" and o.info == (site[0], vsite, label) else o.kind) for o in body(s, label)]

    f = I.fold_loop(st, vsite, full)
    if f is not None:
        s = f[0]
        outs = [Outcome("return", s, done(s, {n: s.mem[c] for n, c in cells.items()}))]
    else:
        lid = I.loop_ordinal(st)

        def probe(s):
            s = s.fork()
            s.event("loop", lid, None, ())
            return [o.state for o in body(s, lid) if o.kind == "iter" and o.info[1:] == (vsite, lid)]

        I.cut_loop(st, lid, vsite, probe)
        outs = body(st.fork(), lid)
        for s, more in exhausted(I, st, it, lid):
            if not more:
                outs.append(Outcome("return", s, done(s, {n: s.mem[c] for n, c in cells.items()})))
    for o in outs:
        if o.kind == "return":
            for cl in cells.values():
                o.state.mem.pop(cl, None)
    return outs


def via(I, f, args, st, rt, site, then):
    """Run f and feed returned values to then(state, value) -> [step results]"""
    out = []
    for o in I.call_value(f, args, st, rt, site):
        if o.kind != "return":
            out.append((o, "outcome", None))
        else:
            out += then(o.state, o.ret)
    return out


def elem_ty(c):
    return None


@model("Iterator::for_each")
def _for_each(I, c, a, st, rt, site):
    return vloop(I, st, a[0], None, site, "for_each", {}, lambda s, acc, e: via(
        I, a[1], [e], s, None, site, lambda s2, r: [(s2, {}, None)]), lambda s, acc: UNIT)


@model("Iterator::try_for_each")
def _try_for_each(I, c, a, st, rt, site):
    def step(s, acc, e):
        def then(s2, r):
            return [(s3, {}, None if b else err(I.payload(s3, deref(I, s3, r), "Err", 0, None)))
                    for s3, b in I.branch_variant(s2, deref(I, s2, r), "Ok", ["Ok", "Err"])]
        return via(I, a[1], [e], s, rt, site, then)
    return vloop(I, st, a[0], None, site, "try_for_each", {}, step, lambda s, acc: ok(UNIT))


@model("Iterator::fold")
def _fold(I, c, a, st, rt, site):
    return vloop(I, st, a[0], None, site, "fold", {"acc": a[1]}, lambda s, acc, e: via(
        I, a[2], [acc["acc"], e], s, rt, site, lambda s2, r: [(s2, {"acc": r}, None)]), lambda s, acc: acc["acc"])


@model("Iterator::try_fold")
def _try_fold(I, c, a, st, rt, site):
    t = T.last(rt[1]) if rt is not None and rt[0] == "path" else "Result"
    good = "Ok" if t == "Result" else "Some"
    wrap = ok if good == "Ok" else some

    def step(s, acc, e):
        def then(s2, r):
            r = deref(I, s2, r)
            out = []
            for s3, b in I.branch_variant(s2, r, good, ["Ok", "Err"] if good == "Ok" else ["None", "Some"]):
                if b:
                    out.append((s3, {"acc": I.payload(s3, r, good, 0, None)}, None))
                else:
                    out.append((s3, {}, err(I.payload(s3, r, "Err", 0, None)) if good == "Ok" else NONE))
            return out
        return via(I, a[2], [acc["acc"], e], s, rt, site, then)
    return vloop(I, st, a[0], None, site, "try_fold", {"acc": a[1]}, step, lambda s, acc: wrap(acc["acc"]))


@model("Iterator::any", "Iterator::all")
def _any(I, c, a, st, rt, site):
    anyp = I.norm_name(c).endswith("any")

    def step(s, acc, e):
        return via(I, a[1], [e], s, BOOL, site, lambda s2, r: [
            (s3, {}, (TRUE if anyp else FALSE) if b == anyp else None) for s3, b in I.branch_bool(s2, r)])
    return vloop(I, st, a[0], None, site, "any", {}, step, lambda s, acc: FALSE if anyp else TRUE)


@model("Iterator::find", "Iterator::rfind", "DoubleEndedIterator::rfind")
def _find(I, c, a, st, rt, site):
    it = deref(I, st, a[0])
    if I.norm_name(c).endswith("rfind"):
        it = mkit("rev", it)

    def step(s, acc, e):
        r = cell_ref(I, s, e)
        return via(I, a[1], [r], s, BOOL, site, lambda s2, x: [
            (s3, {}, some(e) if b else None) for s3, b in I.branch_bool(s2, x)])
    return vloop(I, st, it, inner_ty(rt), site, "find", {}, step, lambda s, acc: NONE)


@model("Iterator::find_map")
def _find_map(I, c, a, st, rt, site):
    def step(s, acc, e):
        def then(s2, r):
            r = deref(I, s2, r)
            return [(s3, {}, some(I.payload(s3, r, "Some", 0, inner_ty(rt))) if b else None)
                    for s3, b in I.branch_variant(s2, r, "Some", ["None", "Some"])]
        return via(I, a[1], [e], s, rt, site, then)
    return vloop(I, st, a[0], None, site, "find_map", {}, step, lambda s, acc: NONE)


@model("Iterator::position")
def _position(I, c, a, st, rt, site):
    it = deref(I, st, a[0])
    en = mkit("enumerate", it)

    def step(s, acc, e):
        return via(I, a[1], [e[3][1]], s, BOOL, site, lambda s2, x: [
            (s3, {}, some(e[3][0]) if b else None) for s3, b in I.branch_bool(s2, x)])
    if not is_iter(it) or it[1] not in ("iter:ref", "iter:own"):
        from . import folds
        f = I.snap(st, a[1])
        l = folds.lam(I, st, f) if f[0] == "adt" and str(f[1]).startswith("closure:") else None
        return ret(st, ("app", "position", (I.snap(st, it), l), rt)) if l is not None else None
    return vloop(I, st, en, None, site, "position", {}, step, lambda s, acc: NONE)


@model("Iterator::count")
def _count(I, c, a, st, rt, site):
    it = deref(I, st, a[0])
    if is_iter(it) and it[1] in ("iter:ref", "iter:own"):
        k, coll = source_key(I, st, it)
        return ret(st, I.length(coll))
    if is_iter(it) and it[1] == "iter:advanced" and it[2][0][1] == "iter:str_split" and it[2][1][0] == "c":
        n, t = it[2][1], app("count", it[2][0], ty="usize")
        out = []
        for al, v in (("<", const(0, "usize")), ("=>", I.binop("Sub", t, n))):
            s2 = I.assume_ord(st, t, n, al)
            if s2 is not None:
                out.append(Outcome("return", s2.fork(), v))
        return out
    return vloop(I, st, it, None, site, "count", {"acc": const(0, "usize")},
                 lambda s, acc, e: [(s, {"acc": I.binop("Add", acc["acc"], const(1, "usize"))}, None)], lambda s, acc: acc["acc"])


@model("Iterator::sum")
def _sum(I, c, a, st, rt, site):
    z = const(0.0 if T.show(rt)[0] == "f" else 0, T.show(rt)) if rt is not None else const(0, None)
    return vloop(I, st, a[0], rt, site, "sum", {"acc": z},
                 lambda s, acc, e: [(s, {"acc": I.binop("Add", acc["acc"], I.snap(s, e))}, None)], lambda s, acc: acc["acc"])


@model("Iterator::last")
def _last(I, c, a, st, rt, site):
    it = deref(I, st, a[0])
    if is_iter(it) and it[1] in ("iter:ref", "iter:own"):
        return _first(I, ("inherent", ("slice", ("path", "T", ())), "last"), [it[2][0]], st, rt, site)
    return None


def container(rt):
    t = rt
    while t is not None and t[0] == "ref":
        t = t[2]
    return T.last(t[1]) if t is not None and t[0] == "path" else None


@model("Iterator::collect", "FromIterator::from_iter")
def _collect(I, c, a, st, rt, site):
    k = container(rt)
    it = deref(I, st, a[0])
    if not is_iter(it):
        it = as_iter(I, st, a[0])
    wrapped = None
    if k in ("Result", "Option"):
        wrapped, k = k, container(inner_ty(rt))
    if k not in ("Vec", "String"):
        return None
    if wrapped is None and k == "Vec" and it[1] in ("iter:ref", "iter:own"):
        return ret(st, source_key(I, st, it)[1])       # the same elements in the same order
    if wrapped is None and k == "Vec" and it[1] in ("iter:str_split", "iter:str_lines", "iter:chars"):
        return ret(st, ("app", "list", (I.snap(st, it),), rt))
    zero = ("adt", "array", None, ()) if k == "Vec" else const("", "str")

    def add(s, acc, e):
        if k == "Vec":
            return push(I, s, acc, e)
        return concat([acc, as_text(I, s, e)])

    def step(s, acc, e):
        if wrapped is None:
            return [(s, {"v": add(s, acc["v"], e)}, None)]
        good = "Ok" if wrapped == "Result" else "Some"
        x = deref(I, s, e)
        return [(s2, {"v": add(s2, acc["v"], I.payload(s2, x, good, 0, None))}, None) if b else
                (s2, {}, err(I.payload(s2, x, "Err", 0, None)) if wrapped == "Result" else NONE)
                for s2, b in I.branch_variant(s, x, good, ["Ok", "Err"] if wrapped == "Result" else ["None", "Some"])]
    fin = {None: lambda v: v, "Result": ok, "Option": some}[wrapped]
    ety = inner_ty(inner_ty(rt)) if wrapped else inner_ty(rt)
    if wrapped and it[1] == "iter:map":
        ety = ("path", "Result" if wrapped == "Result" else "Option", (ety,) if ety else ())
        ety = None
    return vloop(I, st, it, ety, site, "collect", {"v": zero}, step, lambda s, acc: fin(acc["v"]))


# ------------------------------------------------------------------ vectors

def push(I, st, v, x):
    x = I.snap(st, x)
    if v[0] == "adt" and v[1] == "array":
        return ("adt", "array", None, v[3] + (x,))
    return ("app", "push", (v, x), v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None)


@model("Vec::push")
def _push(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc = (a[0][1], a[0][2])
    I.write_loc(st, loc, push(I, st, I.read_loc(st, loc), a[1]))
    return ret(st, UNIT)


@model("Vec::pop")
def _pop(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc = (a[0][1], a[0][2])
    v = I.read_loc(st, loc)
    if v[0] == "adt" and v[1] == "array":
        if not v[3]:
            return ret(st, NONE)
        I.write_loc(st, loc, ("adt", "array", None, v[3][:-1]))
        return ret(st, some(v[3][-1]))
    if v[0] == "app" and v[1] == "push":
        I.write_loc(st, loc, v[2][0])
        return ret(st, some(v[2][1]))
    out = []
    for allowed, r in ((">", True), ("=", False)):
        s = I.assume_ord(st, I.length(v), const(0, "usize"), allowed)
        if s is None:
            continue
        s = s.fork()
        if r:
            I.write_loc(s, loc, ("app", "init", (v,), v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None))
            out.append(Outcome("return", s, some(last_of(I, s, v, inner_ty(rt)))))
        else:
            out.append(Outcome("return", s, NONE))
    return out


@model("String::pop")
def _strpop(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc = (a[0][1], a[0][2])
    v = I.read_loc(st, loc)
    if v[0] == "c":
        if not v[1]:
            return ret(st, NONE)
        I.write_loc(st, loc, const(v[1][:-1], "str"))
        return ret(st, some(const(v[1][-1], "char")))
    kv = I.kc(st, v)
    for k, known in st.facts.items():
        if known is True and k[0] == "bool" and k[1][0] == "app" and k[1][1] == "str::ends_with" and k[1][2][0] == kv and \
                k[1][2][1][0] == "c" and k[1][2][1][1]:
            # its last character is known
            ch = k[1][2][1][1][-1]
            I.write_loc(st, loc, slice_of(I, v, (None, I.binop("Sub", I.length(v), const(len(ch.encode()), "usize")), False), ("path", "String", ())))
            return ret(st, some(const(ch, "char")))
    out = []
    for allowed in (">", "="):
        s = I.assume_ord(st, I.length(v), const(0, "usize"), allowed)
        if s is None:
            continue
        s = s.fork()
        if allowed == ">":
            I.write_loc(s, loc, ("app", "init", (v,), ("path", "String", ())))
            out.append(Outcome("return", s, some(("app", "lastchar", (v,), ("path", "char", ())))))
        else:
            out.append(Outcome("return", s, NONE))
    return out


@model("Vec::remove", "Vec::insert")
def _remove(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    ins = I.norm_name(c).endswith("insert")
    loc, n = (a[0][1], a[0][2]), I.snap(st, a[1])
    v = I.read_loc(st, loc)
    if v[0] not in ("tok", "app", "adt"):
        return None
    l = I.length(I.snap(st, v))
    out = []
    for good in (True, False):
        s = I.assume_ord(st, n, l, ("<=" if ins else "<") if good else (">" if ins else ">="))
        if s is None:
            continue
        s = s.fork()
        if not good:
            out.append(Outcome("panic", s, None, ("index", I.norm_name(c), site[0], site[1])))
            continue
        w = I.snap(s, v)
        ty = v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None
        if v[0] == "adt":
            if n[0] != "c":
                return None
            el = v[3][n[1]] if not ins else None
            nv = v[:3] + (v[3][:n[1]] + ((a[2],) if ins else ()) + v[3][n[1] + (0 if ins else 1):],)
        elif ins:
            el, nv = None, ("app", "push", (v, a[2]), ty) if key(n) == key(l) else ("app", "inserted", (w, n, I.snap(s, a[2])), ty)
        else:
            el = index_value(I, w, key(n), rt)
            if n[0] == "c" and n[1] == 0:
                nv = slice_of(I, w, (const(1, "usize"), None, False), ty)
            elif key(n) == key(I.binop("Sub", l, const(1, "usize"))):
                nv = v[2][0] if v[0] == "app" and v[1] == "push" else ("app", "init", (v,), ty)
            else:
                nv = ("app", "without", (w, n), ty)
        I.write_loc(s, loc, nv)
        out.append(Outcome("return", s, UNIT if ins else el))
    return out


@model("Vec::truncate")
def _truncate(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc, n = (a[0][1], a[0][2]), I.snap(st, a[1])
    v = I.read_loc(st, loc)
    l = I.length(I.snap(st, v))
    out = []
    for allowed in ("<", ">="):
        s = I.assume_ord(st, n, l, allowed)
        if s is None:
            continue
        s = s.fork()
        if allowed == "<":
            d = I.binop("Sub", l, n)
            if d[0] == "c" and isinstance(d[1], int) and 0 < d[1] <= 8:
                w = v
                for _ in range(d[1]):
                    if w[0] == "adt" and w[1] == "array" and w[3]:
                        w = ("adt", "array", None, w[3][:-1])
                    elif w[0] == "app" and w[1] == "push":
                        w = w[2][0]
                    else:
                        w = ("app", "init", (w,), w[2] if w[0] == "tok" else w[3] if w[0] == "app" else None)
            else:
                w = slice_of(I, I.snap(s, v), (None, n, False), v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None)
            I.write_loc(s, loc, w)
        out.append(Outcome("return", s, UNIT))
    return out


@model("Vec::clear", "String::clear")
def _clear(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    I.write_loc(st, (a[0][1], a[0][2]), ("adt", "array", None, ()) if I.norm_name(c).startswith("Vec") else const("", "str"))
    return ret(st, UNIT)


@model("Vec::append")
def _append(I, c, a, st, rt, site):
    if a[0][0] != "ref" or a[1][0] != "ref":
        return None
    x, y = I.read_loc(st, (a[0][1], a[0][2])), I.read_loc(st, (a[1][1], a[1][2]))
    I.write_loc(st, (a[0][1], a[0][2]), vconcat(x, y))
    I.write_loc(st, (a[1][1], a[1][2]), ("adt", "array", None, ()))
    return ret(st, UNIT)


def vconcat(x, y):
    if y[0] == "adt" and y[1] == "array":
        if x[0] == "adt" and x[1] == "array":
            return ("adt", "array", None, x[3] + y[3])
        for e in y[3]:
            x = ("app", "push", (x, e), x[2] if x[0] == "tok" else x[3])
        return x
    if x[0] == "adt" and x[1] == "array" and not x[3]:
        return y
    return app("vconcat", x, y, ty=x[2] if x[0] == "tok" else x[3] if x[0] == "app" else y[2] if y[0] == "tok" else y[3])


@model("Extend::extend", "Vec::extend_from_slice")
def _extend(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc = (a[0][1], a[0][2])
    it = as_iter(I, st, a[1])
    old = I.read_loc(st, loc)
    tn = type_name(c[1])
    if tn not in ("Vec", "String", "slice"):
        return None
    if it[1] in ("iter:ref", "iter:own") and tn != "String":
        I.write_loc(st, loc, vconcat(I.snap(st, old), source_key(I, st, it)[1]))
        return ret(st, UNIT)

    def step(s, acc, e):
        v = push(I, s, acc["v"], e) if tn != "String" else concat([acc["v"], as_text(I, s, e)])
        return [(s, {"v": v}, None)]
    outs = vloop(I, st, it, None, site, "extend", {"v": I.snap(st, old)}, step, lambda s, acc: acc["v"])
    for o in outs:
        if o.kind == "return":
            I.write_loc(o.state, loc, o.ret)
            o.ret = UNIT
        elif o.kind == "iter":
            # the partial result is in the collection already
            pass
    return outs


@model("Index::index", "IndexMut::index_mut", "slice::get", "slice::get_mut", "Vec::get", "str::get")
def _index(I, c, a, st, rt, site):
    n = I.norm_name(c)
    src, inner = a[0], a[0]
    while inner[0] == "ref":
        src, inner = inner, I.read_loc(st, (inner[1], inner[2]))
    coll = I.snap(st, inner)
    i = I.snap(st, a[1])
    get = n.endswith("get") or n.endswith("get_mut")
    if type_name(c[1]) in ("BTreeMap", "HashMap", "Captures"):
        return None
    rng = range_of(i)
    if rng is not None:
        v = slice_of(I, coll, rng, inner_ty(rt) if get else rt)
        q = slice_ok(I, coll, rng, type_name(c[1]) in ("str", "String") or tystr(coll))
        if q[0] == "app" and q[1] == "slice_ok" and after_prefix(I, st, coll, rng):
            q = TRUE
        out = []
        for s, b in (I.branch_bool(st, q) if q[0] != "c" else [(st, q[1])]):
            if b:
                out.append(Outcome("return", s, some(v) if get else v))
            else:
                out.append(Outcome("return", s, NONE) if get else Outcome("panic", s, None, ("slice", n, site[0], site[1])))
        return out
    if src[0] == "ref":
        el = ("ref", src[1], src[2] + (("index", key(i)),))
    else:
        el = index_value(I, coll, key(i), inner_ty(rt) if get else rt)
    out = []
    for allowed, r in (("<", True), ("=>", False)):
        s = I.assume_ord(st, i, I.length(coll), allowed)
        if s is None:
            continue
        s = s.fork()
        if r:
            out.append(Outcome("return", s, some(el) if get else el))
        else:
            out.append(Outcome("return", s, NONE) if get else Outcome("panic", s, None, ("index", n, site[0], site[1])))
    return out


def tystr(v):
    ty = v[2] if v[0] in ("tok", "c") else v[3] if v[0] == "app" else None
    if ty is None:
        return False
    t = T.parse(ty) if isinstance(ty, str) else ty
    while t[0] == "ref":
        t = t[2]
    return t[0] == "path" and T.last(t[1]) in ("str", "String")


def index_value(I, v, ki, ty=None):
    """Element of v at index key ki."""
    if v[0] == "app" and v[1] == "list" and ki[0] == "c":
        return ("tok", ("nth", key(v[2][0]), ki[1]), ty or elem_type(v))
    if v[0] == "app" and v[1] == "upd" and v[2][1] == ("k", ki):
        return v[2][2]
    if v[0] == "app" and v[1] == "push" and ki[0] == "c" and isinstance(ki[1], int) and ki[1] < 0:
        return v[2][1] if ki[1] == -1 else index_value(I, v[2][0], ("c", ki[1] + 1, ki[2]), ty)
    if v[0] == "app" and v[1] == "push" and ki[0] == "app":
        b, off = klin(ki)
        lb, lo = klin(key(I.length(v[2][0])))
        if b == lb and off == lo:
            return v[2][1]
        if b == lb and off < lo:
            return index_value(I, v[2][0], ki, ty)
    if v[0] == "adt" and v[1] == "array" and ki[0] == "c" and isinstance(ki[1], int) and -len(v[3]) <= ki[1] < len(v[3]):
        return v[3][ki[1]]
    if ki[0] == "c":
        return ("tok", ("nth", key(v), ki[1]), ty or elem_type(v))
    if ki[0] == "app" and ki[1] == "lin" and ki[2][0] == ("app", "len", (key(v),)) and ki[2][1][1] < 0:
        return ("tok", ("nth", key(v), ki[2][1][1]), ty or elem_type(v))
    if ki[0] == "tok" and ki[1][0] == "elem":
        r = ki[1][1]
        if r == ("app", "iter:range", (("c", 0, "int"), ("app", "len", (key(v),)))):
            return ("tok", ("elem", key(v), ki[1][2]), ty or elem_type(v))
    return ("app", "elem", (v, ("k", ki)), ty or elem_type(v))


def elem_type(v):
    ty = v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None
    if ty is None:
        return None
    t = T.parse(ty) if isinstance(ty, str) else ty
    while t[0] == "ref":
        t = t[2]
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] == "path" and T.last(t[1]) == "Vec" and t[2]:
        return t[2][0]
    return None


def range_of(i):
    """(lo or None, hi or None, inclusive)"""
    if i[0] == "adt" and i[1] in ("Range", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull", "RangeInclusive"):
        f = i[3]
        return {"Range": lambda: (f[0], f[1], False), "RangeFrom": lambda: (f[0], None, False),
                "RangeTo": lambda: (None, f[0], False), "RangeToInclusive": lambda: (None, f[0], True),
                "RangeFull": lambda: (None, None, False), "RangeInclusive": lambda: (f[0], f[1], True)}[i[1]]()
    if is_full_range(i):
        return (None, None, False)
    return None


def slice_of(I, coll, rng, ty):
    lo, hi, inc = rng
    if inc:
        hi = I.binop("Add", hi, const(1, "usize"))
    ty = strip_ref(ty)
    if lo is not None and lo[0] == "c" and lo[1] == 0:
        lo = None
    if hi is not None and key(hi) == key(I.length(coll)):
        hi = None
    if lo is None and hi is None:
        return coll
    if coll[0] == "c" and isinstance(coll[1], str) and all(x is None or x[0] == "c" for x in (lo, hi)):
        b = coll[1].encode()
        try:
            return const(b[(lo[1] if lo else 0):(hi[1] if hi else len(b))].decode(), "str")
        except UnicodeDecodeError:
            pass
    if coll[0] == "adt" and coll[1] == "array" and all(x is None or x[0] == "c" for x in (lo, hi)):
        a, b = (lo[1] if lo else 0), (hi[1] if hi else len(coll[3]))
        if a <= b <= len(coll[3]):
            return coll[:3] + (tuple(coll[3][a:b]),)
    # a slice of a slice
    if coll[0] == "app" and coll[1] == "slice":
        l0, h0 = coll[2][1], coll[2][2]
        nlo = lo if l0 == UNIT else l0 if lo is None else I.binop("Add", l0, lo)
        nhi = h0 if hi is None else (hi if l0 == UNIT else I.binop("Add", l0, hi))
        return ("app", "slice", (coll[2][0], nlo if nlo is not None else UNIT, nhi if nhi is not None else UNIT), ty)
    return ("app", "slice", (coll, lo if lo is not None else UNIT, hi if hi is not None else UNIT), ty)


def after_prefix(I, st, coll, rng):
    """A cut right after a prefix (or before a suffix) the text is known to have"""
    lo, hi, inc = rng
    if inc or (lo is None) == (hi is None):
        return False
    n = lo if lo is not None else I.binop("Sub", I.length(coll), hi)
    if n[0] != "c" or not isinstance(n[1], int):
        return False
    name = "str::starts_with" if lo is not None else "str::ends_with"
    kc = I.kc(st, coll)
    for k, v in st.facts.items():
        if v is True and k[0] == "bool" and k[1][0] == "app" and k[1][1] == name and k[1][2][0] == kc and k[1][2][1][0] == "c":
            t = k[1][2][1][1].encode()
            if len(t) >= n[1]:
                try:
                    t[:n[1]].decode() if lo is not None else t[len(t) - n[1]:].decode()
                    return True
                except UnicodeDecodeError:
                    pass
    return False


def found_in(x, coll):
    """x is the position at which a search in coll found something: a character boundary of coll"""
    return x is None or x[0] == "app" and x[1] == "get" and x[2][0][0] == "app" and x[2][0][1] in ("str::find", "str::rfind") \
        and key(x[2][0][2][0]) == key(coll)


@model("str::find", "str::rfind")
def _sfind(I, c, a, st, rt, site):
    s = I.snap(st, a[0])
    if s[0] == "c":
        return None
    o = I.opaque_call(I.norm_name(c), c, a, st, rt, site)[0]
    out = []
    for s2, b in I.branch_variant(o.state, o.ret, "Some"):
        if not b:
            out.append(Outcome("return", s2, NONE))
            continue
        at = I.payload(s2, o.ret, "Some", 0, ("path", "usize", ()))
        p = I.snap(s2, a[1])
        empty = p[0] == "c" and p[1] == "" or not (p[0] == "c" or char_set(p) is not None or p[0] == "adt" and str(p[1]).startswith("closure:"))
        s3 = I.assume_ord(s2, at, I.length(s), "<=" if empty else "<")
        if s3 is not None:
            out.append(Outcome("return", s3.fork(), some(at)))
    return out


@model("str::split_at")
def _split_at(I, c, a, st, rt, site):
    s, at = I.snap(st, a[0]), I.snap(st, a[1])
    q = slice_ok(I, s, (at, None, False), True)
    out = []
    ty = ("path", "str", ())
    for s2, b in (I.branch_bool(st, q) if q[0] != "c" else [(st, q[1])]):
        if b:
            out.append(Outcome("return", s2, ("adt", "tuple", None, (slice_of(I, s, (None, at, False), ty),
                                                                    slice_of(I, s, (at, None, False), ty)))))
        else:
            out.append(Outcome("panic", s2, None, ("slice", "str::split_at", site[0], site[1])))
    return out


def slice_ok(I, coll, rng, is_str):
    lo, hi, inc = rng
    if lo is not None and lo[0] == "c" and lo[1] == 0:
        lo = None
    if lo is None and hi is None:
        return TRUE
    if is_str:
        if not inc and (lo is None or hi is None) and found_in(lo, coll) and found_in(hi, coll):
            return TRUE
        if coll[0] == "c" and all(x is None or x[0] == "c" for x in (lo, hi)):
            n = len(coll[1].encode())
            return mkbool((lo[1] if lo else 0) <= (hi[1] if hi else n) <= n)
        return app("slice_ok", coll, lo or UNIT, hi or UNIT, mkbool(inc), ty=BOOL)
    l = I.length(coll)
    c = None
    if hi is not None:
        c = app("lt" if inc else "le", hi, l, ty=BOOL)
        if lo is not None:
            c = app("and", app("le", lo, hi, ty=BOOL), c, ty=BOOL)
    else:
        c = app("le", lo, l, ty=BOOL)
    return c


@model("slice::contains", "Vec::contains")
def _contains(I, c, a, st, rt, site):
    v, x = I.snap(st, a[0]), I.snap(st, a[1])
    if v[0] == "adt" and v[1] == "array" and v[3]:
        from .models import eq_value
        out, rest = [], [st]
        for e in v[3]:
            nxt = []
            for s in rest:
                for s2, b in eq_value(I, s, x, e):
                    if b:
                        out.append(Outcome("return", s2, TRUE))
                    else:
                        nxt.append(s2)
            rest = nxt
        return out + [Outcome("return", s, FALSE) for s in rest]
    return ret(st, ("app", "contains", (v, x), BOOL))


@model("RangeInclusive::contains", "Range::contains")
def _rcontains(I, c, a, st, rt, site):
    r, x = I.snap(st, a[0]), I.snap(st, a[1])
    if r[0] != "adt" or len(r[3]) < 2:
        return None
    hi = app("le" if I.norm_name(c).startswith("RangeInc") else "lt", x, r[3][1], ty=BOOL)
    return ret(st, app("and", app("ge", x, r[3][0], ty=BOOL), hi, ty=BOOL))


@model("RangeInclusive::new")
def _rinew(I, c, a, st, rt, site):
    return ret(st, ("adt", "RangeInclusive", None, (a[0], a[1])))


# ------------------------------------------------------------------ text

def concat(parts):
    """Normal form of the concatenation of text values."""
    out = []

    def add(p):
        if p[0] == "app" and p[1] == "fmt":
            for x in p[2]:
                add(x)
            return
        if p[0] == "app" and p[1] == "display" and len(p[2]) == 1 and p[2][0][0] in ("tok", "app", "c"):
            add(p[2][0])         # a piece of text is what is displayed
            return
        if p[0] == "c" and isinstance(p[1], str):
            if p[1] == "":
                return
            if out and out[-1][0] == "c":
                out[-1] = const(out[-1][1] + p[1], "str")
                return
            out.append(const(p[1], "str"))
            return
        out.append(p)
    for p in parts:
        add(p)
    if not out:
        return const("", "str")
    if len(out) == 1 and (out[0][0] == "c" or tystr(out[0])):
        return out[0]
    return ("app", "fmt", tuple(out), ("path", "String", ()))


def as_text(I, st, v):
    v = I.snap(st, v)
    if v[0] == "c":
        return const(str(v[1]), "str")
    if tystr(v) or v[0] == "app" and v[1] == "fmt":
        return v
    return app("display", v)


@model("String::push_str", "String::push")
def _push_str(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    loc = (a[0][1], a[0][2])
    I.write_loc(st, loc, concat([I.snap(st, I.read_loc(st, loc)),
                                 as_text(I, st, a[1]) if I.norm_name(c).endswith("push") else I.snap(st, a[1])]))
    return ret(st, UNIT)


@model("String::insert_str", "String::insert")
def _insert_str(I, c, a, st, rt, site):
    at = I.snap(st, a[1])
    if a[0][0] != "ref" or at[0] != "c" or at[1] != 0:
        return None
    loc = (a[0][1], a[0][2])
    I.write_loc(st, loc, concat([as_text(I, st, a[2]) if I.norm_name(c).endswith("insert") else I.snap(st, a[2]),
                                 I.snap(st, I.read_loc(st, loc))]))
    return ret(st, UNIT)


@model("Add::add", "AddAssign::add_assign")
def _add(I, c, a, st, rt, site):
    if type_name(c[1]) != "String":
        return None
    if I.norm_name(c).endswith("assign"):
        loc = (a[0][1], a[0][2])
        I.write_loc(st, loc, concat([I.snap(st, I.read_loc(st, loc)), I.snap(st, a[1])]))
        return ret(st, UNIT)
    return ret(st, concat([I.snap(st, a[0]), I.snap(st, a[1])]))


# ------------------------------------------------------------------ patterns of text

def char_set(v):
    """The characters a pattern matches when it is a character or a list of characters, else None"""
    if v[0] == "c" and isinstance(v[1], str) and v[2] == "char":
        return [v[1]]
    if v[0] == "adt" and v[1] == "array" and v[3] and all(x[0] == "c" and isinstance(x[1], str) and len(x[1]) == 1 for x in v[3]):
        return [x[1] for x in v[3]]
    return None


@model("str::starts_with", "str::ends_with", "str::contains")
def _text_test(I, c, a, st, rt, site):
    n = I.norm_name(c)
    s, p = I.snap(st, a[0]), I.snap(st, a[1])
    cs = char_set(p)
    pats = cs if cs is not None else [p[1]] if p[0] == "c" and isinstance(p[1], str) else None
    if pats is None:
        return None
    if s[0] == "c" and isinstance(s[1], str):
        f = {"str::starts_with": s[1].startswith, "str::ends_with": s[1].endswith, "str::contains": s[1].__contains__}[n]
        return ret(st, mkbool(any(f(x) for x in pats)))
    q = [("app", n, (s, const(x, "str")), BOOL) for x in sorted(set(pats))]
    if len(q) == 1:
        return ret(st, q[0])
    out, cur = [], st
    for x in q:
        nxt = None
        for s2, b in I.branch_bool(cur, x):
            if b:
                out.append(Outcome("return", s2, TRUE))
            else:
                nxt = s2
        if nxt is None:
            return out
        cur = nxt
    return out + [Outcome("return", cur, FALSE)]


@model("str::strip_prefix", "str::strip_suffix")
def _strip(I, c, a, st, rt, site):
    n = I.norm_name(c)
    s, p = I.snap(st, a[0]), I.snap(st, a[1])
    if p[0] != "c" or not isinstance(p[1], str):
        return None
    front = n.endswith("prefix")
    if s[0] == "c" and isinstance(s[1], str):
        hit = s[1].startswith(p[1]) if front else s[1].endswith(p[1])
        return ret(st, some(const(s[1][len(p[1]):] if front else s[1][:len(s[1]) - len(p[1])], "str")) if hit else NONE)
    q = ("app", "str::starts_with" if front else "str::ends_with", (s, const(p[1], "str")), BOOL)
    k = const(len(p[1].encode()), "usize")
    out = []
    for s2, b in I.branch_bool(st, q):
        if b:
            rng = (k, None, False) if front else (None, I.binop("Sub", I.length(s), k), False)
            out.append(Outcome("return", s2, some(slice_of(I, s, rng, ("path", "str", ())))))
        else:
            out.append(Outcome("return", s2, NONE))
    return out


@model("str::matches")
def _matches(I, c, a, st, rt, site):
    cs = char_set(I.snap(st, a[1]))
    if cs is None:
        return None
    return ret(st, mkit("filter", mkit("chars", I.snap(st, a[0])),
                        ("adt", "oneof", None, tuple(const(x, "char") for x in sorted(set(cs)))), ty=rt))


@model("slice::sort_by", "slice::sort_unstable_by")
def _sort_by(I, c, a, st, rt, site):
    from . import folds
    f = I.snap(st, a[1])
    l = folds.lam(I, st, f, folds.order) if f[0] == "adt" and str(f[1]).startswith("closure:") else None
    r = a[0]
    while r[0] == "ref" and I.read_loc(st, (r[1], r[2]))[0] == "ref":
        r = I.read_loc(st, (r[1], r[2]))
    if l is None or r[0] != "ref":
        return None
    old = I.snap(st, r)
    I.write_loc(st, (r[1], r[2]), ("app", "sorted", (old, l), old[2] if old[0] == "tok" else old[3] if old[0] == "app" else None))
    return ret(st, UNIT)
