"""C21: what is written as data is read back the same.

The code serde derives for a type is analysed as it was compiled: the paths of `serialize` give what is written under which
name, the visitors give what is read from which name and what stands for a name that is missing."""
import re

from engine import models, rtypes as T
from engine.absint import Interp, Outcome, UNIT, app, const, key, show, tok
from engine.refine import setup

from .base import check, guarded
from .output import free

TECH = ("Abstract interpretation of the serialisation code that was compiled for each data type: names, fields and variants written are "
        "matched with those read; values left out are compared with what reading puts in their place; conversions are composed")
OK = lambda v: ("adt", "Result", "Ok", (v,))


def sink_hooks():
    def start(I, c, a, st, rt, site):
        args = [I.snap(st, x) for x in a]
        st.event("ser", "map", args[3][1] if len(args) > 3 and args[3][0] == "c" and isinstance(args[3][1], str) else None)
        return [Outcome("return", st, OK(tok("sink", ty=None)))]

    def field(I, c, a, st, rt, site):
        st.event("ser", "field", I.snap(st, a[1]), I.snap(st, a[2]))
        return [Outcome("return", st, OK(UNIT))]

    def skip(I, c, a, st, rt, site):
        st.event("ser", "skip", I.snap(st, a[1]))
        return [Outcome("return", st, OK(UNIT))]

    def newtype(I, c, a, st, rt, site):
        st.event("ser", "newtype", I.snap(st, a[3]), I.snap(st, a[4]))
        return [Outcome("return", st, app("written", ty=rt))]

    def unit(I, c, a, st, rt, site):
        st.event("ser", "unit", I.snap(st, a[3]))
        return [Outcome("return", st, app("written", ty=rt))]

    def end(I, c, a, st, rt, site):
        return [Outcome("return", st, app("written", ty=rt))]

    def whole(I, c, a, st, rt, site):
        st.event("ser", "as", I.snap(st, a[0]), c[1])
        return [Outcome("return", st, app("written", ty=rt))]
    h = {"Serializer::serialize_struct": start, "Serializer::serialize_struct_variant": start,
         "Serializer::serialize_newtype_variant": newtype, "Serializer::serialize_unit_variant": unit, "Serialize::serialize": whole}
    for t in ("SerializeStruct", "SerializeStructVariant"):
        h.update({t + "::serialize_field": field, t + "::skip_field": skip, t + "::end": end})
    return h


def analyse(P, fi, hooks, state=None):
    I = Interp(P, max_paths=4000, max_steps=400000)
    I.hooks.update(hooks)
    st, vals, tys = setup(P, fi)
    if state is not None:
        st.facts.update(state.facts)
    I.arg_tys = tys
    return I, vals, I.analyse(fi, vals, st)


def written(P, ser):
    """[(state, form)]: form = ("map", tag, {name: value}, {skipped names}) | ("newtype", tag, value) | ("unit", tag) | ("as", value, type)"""
    I, vals, outs = analyse(P, ser, sink_hooks())
    a0 = I.snap(outs[0].state, vals[0]) if outs else None
    res = []
    for o in outs:
        if o.kind != "return":
            continue
        ev = [e[1:] for e in o.state.events if e[0] == "ser"]
        if not ev:
            res.append((o.state, None))
        elif ev[0][0] == "map":
            names = [e[1] for e in ev[1:]]
            if any(n[0] != "c" for n in names) or any(e[0] not in ("field", "skip") for e in ev[1:]):
                res.append((o.state, None))
                continue
            res.append((o.state, ("map", ev[0][1], {e[1][1]: e[2] for e in ev[1:] if e[0] == "field"},
                                  {e[1][1] for e in ev[1:] if e[0] == "skip"})))
        elif len(ev) == 1 and ev[0][0] in ("newtype", "unit") and ev[0][1][0] == "c":
            res.append((o.state, (ev[0][0], ev[0][1][1]) + tuple(ev[0][2:])))
        elif len(ev) == 1 and ev[0][0] == "as":
            res.append((o.state, ev[0]))
        else:
            res.append((o.state, None))
    return I, a0, res


def names_of(P, vs):
    """{name: variant} of a visitor of names, or None"""
    I, vals, outs = analyse(P, vs, {})
    res = {}
    for o in outs:
        if o.kind != "return" or o.ret[0] != "adt" or o.ret[2] != "Ok":
            continue
        v = o.ret[3][0]
        if v[0] != "adt":
            return None
        for t in o.state.trail:
            if t[0] == "ord" and t[3] == "=":
                c = t[2] if t[2][0] == "c" else t[1]
                if c[0] == "c" and isinstance(c[1], str):
                    res.setdefault(c[1], v[2] or v[1])
    order = sorted({int(k[7:]) for k in res.values() if re.fullmatch(r"__field\d+", k)})
    return {n: f"#{order.index(int(k[7:]))}" if re.fullmatch(r"__field\d+", k) else k for n, k in res.items()}


def table(P, vm, vs):
    """What a visitor of maps does: (result (type, variant, number of fields), {name: position}, {position: value when missing or None: error})"""
    names = names_of(P, vs)
    if names is None:
        return None
    I, vals, outs = analyse(P, vm, {})
    places = {}      # variant of the name -> location of the variable it is kept in
    oks = []
    for o in outs:
        loops = [e for e in o.state.events if e[0] == "loop"]
        if len(loops) > 1:
            return None
        if o.kind == "iter" and loops:
            ks = [t[2] for t in o.state.trail if t[0] == "tag" and isinstance(t[2], str) and t[2].startswith("#")]
            for v in loops[0][3]:
                cur = I.read_loc(o.state, v[1])
                if key(cur) != key(v[3]) and cur[0] == "adt" and cur[2] == "Some" and "next_value" in show(cur) and len(ks) == 1:
                    places.setdefault(ks[0], set()).add(key(v[3]))
        if o.kind == "return" and o.ret[0] == "adt" and o.ret[2] == "Ok" and o.ret[3][0][0] == "adt":
            oks.append((o.state, I.snap(o.state, o.ret[3][0])))
        elif o.kind == "return" and not (o.ret[0] == "adt" and o.ret[2] == "Err"):
            return None
    if not oks or any(len(p) != 1 for p in places.values()):
        return None
    shape = {(r[1], r[2], len(r[3])) for _, r in oks}
    if len(shape) != 1:
        return None
    shape = next(iter(shape))
    where = {}       # location -> position
    missing = {}
    for st, r in oks:
        for i, x in enumerate(r[3]):
            if x[0] == "tok" and x[1][-1] == "Some" and ("tok", x[1][:-1]) in {next(iter(p)) for p in places.values()}:
                where.setdefault(("tok", x[1][:-1]), set()).add(i)
            else:
                missing.setdefault(i, []).append((I, st, x))
    pos = {}
    for n, k in names.items():
        if k in places:
            w = where.get(next(iter(places[k])), set())
            pos[n] = next(iter(w)) if len(w) == 1 else "?"
        elif k != "__ignore":
            pos[n] = "?"
    return shape, pos, missing


def visitors(P, de):
    """{prefix: {method: [functions]}} of the visitors inside a deserialize function"""
    res = {}
    for f in P.fns:
        if f.mir.owner == de.mir.owner and f.name.startswith(de.name + "::<impl") and "{closure" not in f.name:
            pre, meth = f.name.rsplit("::<impl", 1)
            res.setdefault(pre, {}).setdefault(meth.rsplit(">::", 1)[1], []).append(f)
    return res


def tables(P, de):
    res = []
    for pre, ms in visitors(P, de).items():
        vm, vs = ms.get("visit_map", []), ms.get("visit_str", [])
        if vm and len(vm) == len(vs):
            for m, s in zip(vm, vs):
                res.append(table(P, m, s))
        elif vm:
            res.append(None)
    return res


def named_variants(P, de):
    """{name: variant} of a tagged enum, or None"""
    for pre, ms in visitors(P, de).items():
        if "visit_enum" not in ms:
            continue
        if len(ms["visit_enum"]) != 1 or len(ms.get("visit_str", [])) != 1:
            return None
        names = names_of(P, ms["visit_str"][0])
        I, vals, outs = analyse(P, ms["visit_enum"][0], {})
        res = {}
        for o in outs:
            if o.kind != "return" or o.ret[0] == "adt" and o.ret[2] == "Err":
                continue
            ks = [t[2] for t in o.state.trail if t[0] == "tag" and isinstance(t[2], str) and t[2].startswith("#")]
            if not ks and names and len(set(names.values())) == 1:
                ks = list(set(names.values()))
            if len(ks) != 1:
                return None
            r = o.ret
            if r[0] == "adt" and r[2] == "Ok" and r[3][0][0] == "adt":
                res[ks[0]] = ("value", r[3][0][2], I.snap(o.state, r[3][0]))
            elif r[0] == "app" and r[1].endswith("struct_variant"):
                res[ks[0]] = ("map",)
            else:
                return None
        return {n: res.get(k) for n, k in (names or {}).items()} if names is not None else None
    return None


def leaf(I, st, v, d):
    """Whether v is d on this path: True, False (it may be something else, nothing on the path says it is not), None"""
    t = lambda b: b if b is True else False if not mentioned(st, v) else None
    if key(v) == key(d) or I.kc(st, v) == I.kc(st, d):
        return True
    if d[0] == "adt" and d[1] == "array" and not d[3]:
        n = I.length(v)
        return True if I.orderings(st, n, const(0, "usize")) == frozenset("=") else None if mentioned(st, v, n) else False
    if d[0] == "app" and str(d[1]).startswith("empty:"):
        k = key(v)
        for x in st.trail:
            if x[0] == "bool" and x[1][0] == "app" and x[1][1].endswith("::is_empty") and key(x[1][2][0]) == k:
                return x[2] is True
        return t(any(I.orderings(st, n, const(0, "usize")) == frozenset("=") for n in
                     (I.length(v), ("app", d[1].split(":")[1] + "::len", (v,), ("path", "usize", ())))))
    if d[0] == "adt" and d[2] is None:
        rs = [leaf(I, st, I._project1(v, ("field", i, None)), x) for i, x in enumerate(d[3])]
        return False if False in rs else None if None in rs else True
    if d[0] == "adt" and not d[3]:
        known = I.get_variant(st, v)
        if known is not None:
            return known == d[2]
        possible = st.facts.get(("var", I.kc(st, v)))
        if possible is not None and len(possible) > 1:
            return False
        return t(False)
    if d[0] == "c" and isinstance(d[1], bool):
        bs = {b for _, b in I.branch_bool(st, v)}
        return True if bs == {d[1]} else False if d[1] not in bs else t(False)
    if d[0] == "c":
        return t(I.orderings(st, v, d) == frozenset("="))
    return None


def mentioned(st, v, but=None):
    """Whether the path says anything of v (beside what it says of `but`)"""
    s = repr(key(v))
    s = s[:-2] if s.endswith("))") else s[:-1]
    b = repr(key(but)) if but is not None else None
    return any(s in (repr(f).replace(b, "") if b else repr(f)) for f in st.facts.items())


def compose(P, I0, st, a0, v, ty, de):
    """Reading what was written as v: True, False with text, None"""
    def read(I, c, a, s, rt, site):
        return [Outcome("return", s, OK(v))]
    I, vals, outs = analyse(P, de, {"Deserialize::deserialize": read}, st)
    worst = True
    for o in outs:
        if o.kind != "return":
            return None, ""
        r = o.ret
        if r[0] == "adt" and r[2] == "Err":
            continue                       # a value that is not valid, or whose text is not: other properties
        if r[0] != "adt" or r[2] != "Ok":
            return None, ""
        w = I.snap(o.state, r[3][0])
        if key(w) == key(a0):
            continue
        if w[0] == "app" and w[1] == "get" and w[2][0][0] == "app" and w[2][0][1].startswith("parse:") and \
                key(w[2][0][2][0]) in (key(app("fmt", a0)), key(app("display", a0))):
            continue                       # the text of a value, read again (C12)
        if w[0] == "adt" and w[2] is None:
            for i, x in enumerate(w[3]):
                y = I._project1(a0, ("field", i, None))
                if key(x) == key(y) or I.kc(o.state, x) == I.kc(o.state, y):
                    continue
                if x[0] == "tok" and x[1][:1] == a0[1][:1] or x[0] in ("adt", "c"):
                    if all(q for _, q in models.eq_value(I, o.state, x, y)):
                        continue
                    return False, f"{show(y)} is read back as {show(x)}"
                worst = None
            continue
        worst = None
    return worst, ""


def shape_of(P, ty, data, depth=0):
    """How a value of a type is written: a set of text, number, sequence, map; None: not known"""
    n = T.last(ty[1]) if ty[0] == "path" else ty[0]
    if n in ("String", "str", "char"):
        return {"text"}
    if n in ("Vec", "slice", "array"):
        return {"sequence"}
    if n in ("BTreeMap", "HashMap"):
        return {"map"}
    if re.fullmatch(r"[iu](8|16|32|64|size)|f32|f64", n):
        return {"number"}
    if n == "Option" and depth < 4:
        s = shape_of(P, ty[2][0], data, depth + 1)
        return None if s is None else s | {"nothing"}
    if T.is_param(ty) and depth < 4 and not any(T.last(f.impl_self[1]) == n for f in data):
        # the values of a range are identifiers
        ids = [f.impl_self for f in P.fns if f.method == "is_first" and f.impl_self is not None and f.impl_trait is not None and
               T.last(f.impl_trait[1]) == "IdentifierCommon"]
        res = [shape_of(P, t, data, depth + 1) for t in ids]
        return set().union(*res) if ids and None not in res else None
    for f in data:
        if T.last(f.impl_self[1]) == n and depth < 4:
            I, a0, forms = written(P, f)
            res = set()
            for st, w in forms:
                if w is None:
                    return None
                if w[0] == "map" and w[1] is None:
                    res.add("map")
                elif w[0] == "as":
                    s = shape_of(P, w[2] if w[2][0] != "ref" else w[2][2], data, depth + 1) if w[1][0] != "app" or w[1][1] != "fmt" else {"text"}
                    if s is None:
                        return None
                    res |= s
                else:
                    return None
            return res
    return None


@check("C21", TECH)
def c21(ctx):
    P = ctx.P
    ctx.rule("For every type that is both written and read: each field is read from the name it is written under into the field it came from; "
             "a field that is left out is left out only with the value that reading puts there; each variant is read from the name it is "
             "written under; a value written through another type is restored by the conversion back.")
    path = lambda f: f.impl_self is not None and f.impl_self[0] == "path" and f.mir.owner == "hun_law" and "{closure" not in f.name
    sers = [f for f in P.fns if f.method == "serialize" and path(f) and f.impl_trait is not None and T.last(f.impl_trait[1]) == "Serialize"]
    des = [f for f in P.fns if f.method == "deserialize" and path(f) and f.impl_trait is not None and T.last(f.impl_trait[1]) == "Deserialize"]
    done = 0
    for ser in sorted(sers, key=lambda f: f.impl_self[1]):
        ty = ser.impl_self[1]
        mine = [f for f in des if f.impl_self[1] == ty]
        if len(mine) != 1:
            continue
        done += 1
        guarded(ctx, f"{ty}", lambda: one_type(ctx, ty, ser, mine[0], sers))
    ctx.floor("types written and read", done, 30)
    for f in P.fns:
        if f.method == "is_empty" and f.mir.owner == "hun_law" and f.impl_trait is not None and T.last(f.impl_trait[1]) == "IdentifierCommon":
            guarded(ctx, f"{f.qual}", lambda: own_judgement(ctx, f))


def own_judgement(ctx, f):
    """An identifier may be left out only when the text it would be read from says nothing: it is what `None` stands for."""
    P = ctx.P
    I, vals, outs = analyse(P, f, {})
    ctx.count("functions analysed")
    verdict, text = True, ""
    for o in outs:
        if o.kind != "return":
            continue
        a0 = I.snap(o.state, vals[0])
        can = {b for _, b in I.branch_bool(o.state, o.ret)}
        if False in can and len(can) == 1:
            continue
        x = I._project1(a0, ("field", 0, None))
        ok = False
        for s2, b in I.branch_bool(o.state, o.ret):
            if b:
                ok = I.get_variant(s2, x) == "None"
        if not ok:
            verdict, text = (None, "not understood") if len(can) > 1 and o.ret[0] == "app" and "is_none" not in show(o.ret) else \
                (False, f"{ctx.where(f)} {f.qual}: an identifier with a value counts as empty and is left out")
        w = [written(P, g) for g in P.fns if g.method == "serialize" and g.impl_self is not None and
             g.impl_self[0] == "path" and f.impl_self is not None and T.last(g.impl_self[1]) == T.last(f.impl_self[1])]
        if verdict is True and not (len(w) == 1 and all(x is not None and x[0] == "as" and x[2][0] == "path" and T.last(x[2][1]) == "Option"
                                                        for _, x in w[0][2])):
            verdict, text = None, "how an identifier that is missing is read"
    nm = f"{f.qual}: left out only when empty"
    if verdict is True:
        ctx.ok(nm)
    elif verdict is None:
        ctx.undecided(nm, text)
    else:
        ctx.bad(nm, text)


def one_type(ctx, ty, ser, de, sers):
    P = ctx.P
    short = T.last(ty)
    I, a0, forms = written(P, ser)
    ctx.count("functions analysed", 2)
    ctx.count("paths", len(forms))
    if not forms and any(a.name == short and a.kind == "enum" and not a.variants for a in P.adt_list):
        ctx.ok(f"{ty}: has no values")
        return
    if not forms or any(w is None for _, w in forms):
        ctx.undecided(f"{ty}: written form", "a form of writing that is not known")
        return
    tabs = None
    maps = [(st, w) for st, w in forms if w[0] == "map"]
    if maps:
        tabs = tables(P, de)
    tagged = any(w[0] in ("newtype", "unit") or w[0] == "map" and w[1] is not None for _, w in forms)
    variants = named_variants(P, de) if tagged else None
    loc = f"{ctx.where(ser)} {ser.qual}"
    seen = {}

    def note(name, verdict, text):
        old = seen.get(name)
        if old is None or old[0] is True or old[0] is None and verdict is False:
            seen[name] = (verdict, text)
    untagged = not tagged and any(I.get_variant(st, a0) is not None for st, _ in forms)
    here = [a for a in P.adt_list if a.name == short and a.kind == "enum"]
    only = here[0].variants[0][0] if len(here) == 1 and len(here[0].variants) == 1 else None
    for st, w in forms:
        var = I.get_variant(st, a0) or only
        if w[0] in ("newtype", "unit") or w[0] == "map" and w[1] is not None:
            nm = f"{ty}: variant {var}"
            if variants is None:
                note(nm, None, "the reader is not understood")
            elif w[1] not in variants or variants[w[1]] is None:
                note(nm, False, f"is written as '{w[1]}', which is not read")
            elif variants[w[1]][0] == "value" and variants[w[1]][1] != var:
                note(nm, False, f"is written as '{w[1]}', which is read as {variants[w[1]][1]}")
            elif variants[w[1]][0] == "value" and w[0] == "newtype" and not (
                    w[2][0] == "tok" and w[2][1][:len(a0[1])] == a0[1]):
                note(nm, None, f"writes {show(w[2])}")
            elif (variants[w[1]][0] == "map") != (w[0] == "map"):
                note(nm, False, f"is written as {w[0]} and read as something else")
            else:
                note(nm, True, "")
        if w[0] == "map":
            fit = [t for t in tabs if t is not None and (t[0][1] == var or t[0][1] is None and var is None)]
            if len(fit) != 1:
                note(f"{ty}: fields" + (f" of {var}" if var else ""), None, "the reader is not understood")
                continue
            (_, _, n), pos, missing = fit[0]
            base = a0 if var is None else ("tag", a0, var)
            for i in range(n):
                x = I._project1(base, ("field", i, None))
                nm = f"{ty}: field {(var + '.') if var else ''}{field_name(P, ty, var, i)}"
                at = [k for k, v in w[2].items() if key(v) == key(x)]
                if at:
                    if len(at) > 1:
                        note(nm, None, "is written twice")
                    elif pos.get(at[0]) is None:
                        note(nm, False, f"is written as '{at[0]}', which is not read")
                    elif pos[at[0]] == "?":
                        note(nm, None, "the reader is not understood")
                    elif pos[at[0]] != i:
                        note(nm, False, f"is written as '{at[0]}', which is read into field {pos[at[0]] + 1}")
                    else:
                        note(nm, True, "")
                    continue
                if any(x[0] == "tok" and repr(key(x))[:-2] in repr(key(v)) for v in w[2].values()):
                    note(nm, None, "is written in another form")
                    continue
                # left out
                if not missing.get(i):
                    note(nm, False, "is left out on a path, and reading requires it")
                    continue
                vs = []
                for Im, sm, d in missing[i]:
                    m = miss(P, d)
                    if m is not None:
                        vs.append(missing_verdict(I, st, x, m))
                    else:
                        vs.append(leaf(I, st, x, d))
                if False in vs:
                    d = missing[i][vs.index(False)][2]
                    note(nm, False, f"is left out with a value that is not the one reading puts in its place ({show(d)})")
                elif None in vs:
                    note(nm, None, "whether the value left out is the one reading puts there")
                else:
                    note(nm, True, "")
        if w[0] == "as" and not untagged:
            v, t = compose(P, I, st, a0, w[1], w[2], de)
            note(f"{ty}: conversion", v, f"what is written ({show(w[1])}) is read back as something else: {t}" if v is False else "not understood")
    if untagged:
        untagged_order(ctx, ty, I, a0, forms, de, sers, note)
    for nm, (v, text) in seen.items():
        if v is True:
            ctx.ok(nm)
        elif v is None:
            ctx.undecided(nm, text)
        else:
            ctx.bad(nm, f"{loc}: {nm} {text}")
    if len(ctx.samples) < 8:
        ctx.samples.append(f"{ty}: {len(forms)} paths of writing, " + ", ".join(sorted({w[0] for _, w in forms})))


def miss(P, d):
    """The type a missing field is read as, if reading asks the type itself"""
    if d[0] == "app" and d[1] == "get" and d[2][0][0] == "app" and d[2][0][1].endswith("missing_field"):
        return d[3] or ("path", "?", ())
    return None


def missing_verdict(I, st, x, ty):
    ty = T.parse(ty) if isinstance(ty, str) else ty
    if T.last(ty[1]) == "Option" if ty[0] == "path" else False:
        return leaf(I, st, x, ("adt", "Option", "None", ()))
    if T.is_param(ty):
        # left out by the type's own judgement; each type's is looked at on its own
        k = key(x)
        return True if any(t[0] == "bool" and t[2] is True and t[1][0] == "app" and t[1][1].endswith("IdentifierCommon::is_empty")
                           and key(t[1][2][0]) == k for t in st.trail) else None
    return False


def field_name(P, ty, var, i):
    mod, n = ty.rsplit("::", 1) if "::" in ty else ("", ty)
    for a in P.adt_list:
        if a.name == n and (a.module == mod or a.module.endswith(mod)):
            try:
                fs = a.fields if var is None else next(v for v in a.variants if v[0] == var)[2]
                return fs[i][0]
            except Exception:
                return str(i)
    return str(i)


def untagged_order(ctx, ty, I, a0, forms, de, sers, note):
    """Without tags the first variant that can be read is taken: what a variant writes must not be readable as one before it."""
    P = ctx.P
    tries = []

    def attempt(I2, c, a, s, rt, site):
        t = c[1]
        ev = ("try", show_ty(t))
        if not any(e[:2] == ev for e in s.events):
            s.event("try", show_ty(t), t)
        return [Outcome("return", s, app("attempt", const(show_ty(t)), ty=rt))]
    I2, vals, outs = analyse(P, de, {"Deserialize::deserialize": attempt})
    order = []       # (variant, type or None for a map)
    best = max(outs, key=lambda o: len(o.state.events))
    for o in sorted((o for o in outs if o.kind == "return" and o.ret[0] == "adt" and o.ret[2] == "Ok"),
                    key=lambda o: sum(e[0] in ("try", "call") for e in o.state.events)):
        v = o.ret[3][0]
        if v[0] == "adt":
            inner = v[3][0] if v[3] else None
            t = next((e[2] for e in reversed(o.state.events) if e[0] == "try"), None)
            order.append((v[2], t))
        else:
            order.append((None, None))
    vs = []
    for st, w in forms:
        var = I.get_variant(st, a0)
        if var not in [x for x, _ in vs]:
            vs.append((var, w))
    named = [x for x, _ in order if x is not None]
    for var, w in vs:
        nm = f"{ty}: variant {var}"
        s = {"map"} if w[0] == "map" else shape_of(P, w[2] if w[2][0] != "ref" else w[2][2], sers)
        if w[0] == "map":
            if sum(1 for x, _ in order if x is None) != 1 and var not in named:
                note(nm, None, "the reader is not understood")
                continue
            before = order[:next(i for i, x in enumerate(order) if x[0] is None or x[0] == var)]
        else:
            if var not in named:
                note(nm, False, "is written and never read")
                continue
            before = order[:named.index(var)] if None not in [x for x, _ in order[:named.index(var) + 1]] else \
                order[:[x for x, _ in order].index(var)]
        clash = None
        for x, t in before:
            o = {"map"} if t is None or x is None else shape_of(P, t, sers)
            if s is None or o is None or s & o:
                clash = x
        note(nm, True if clash is None else None, f"tells what it writes from {clash} by the text only")


def show_ty(t):
    return T.show(t)
