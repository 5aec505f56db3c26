"""Transfer functions for the standard library and for anyhow: what the analysed code relies on."""
import re
from . import rtypes as T
from .absint import (Outcome, Unsupported, UNIT, TRUE, FALSE, NONE, some, ok, err, app, const, mkbool, negate, key, tok, STD_ENUMS)

TABLE = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lookup(name, callee):
    f = TABLE.get(name)
    if f is not None:
        return f
    for rx, f in PATTERNS:
        if rx.fullmatch(name):
            return f
    return None


def ret(st, v):
    return [Outcome("return", st, v)]


def deref(I, st, v):
    while v[0] == "ref":
        v = I.read_loc(st, (v[1], v[2]))
    return v


def inner_ty(ty, i=0):
    if ty is None:
        return None
    t = T.parse(ty) if isinstance(ty, str) else ty
    while t[0] == "ref":
        t = t[2]
    if t[0] == "path" and len(t[2]) > i:
        return t[2][i]
    return None


def self_targ(callee, i=0):
    """i-th generic argument of the callee's self type (Option<T> -> T)."""
    t = callee[1]
    while t[0] == "ref":
        t = t[2]
    if t[0] == "path" and len(t[2]) > i:
        return t[2][i]
    return None


def payload(I, st, v, variant, i, ty):
    """Payload of v (maybe a reference to an enum) in variant: by value, or a reference to it"""
    if v[0] == "ref":
        return ("ref", v[1], v[2] + (("variant", variant), ("field", i, ty)))
    return I.payload(st, v, variant, i, ty)


def split(I, st, v, variant):
    """[(state, has variant)]"""
    return I.branch_variant(st, deref(I, st, v), variant)


def calls(I, f, args, st, retty, site, wrap):
    out = []
    for o in I.call_value(f, args, st, retty, site):
        if o.kind == "return":
            o.ret = wrap(o.ret)
        out.append(o)
    return out


# ------------------------------------------------------------------ Option

def rebuild(variant, enum):
    return lambda v: ("adt", enum, variant, (v,))


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _is(I, c, a, st, rt, site):
    n = I.norm_name(c)
    variant = {"Option::is_some": "Some", "Option::is_none": "None", "Result::is_ok": "Ok", "Result::is_err": "Err"}[n]
    return [Outcome("return", s, mkbool(b)) for s, b in split(I, st, a[0], variant)]


@model("Option::is_some_and", "Option::is_none_or")
def _is_some_and(I, c, a, st, rt, site):
    out = []
    for s, b in split(I, st, a[0], "Some"):
        if b:
            out += I.call_value(a[1], [payload(I, s, a[0], "Some", 0, self_targ(c))], s, ("path", "bool", ()), site)
        else:
            out.append(Outcome("return", s, FALSE if "is_some" in I.norm_name(c) else TRUE))
    return out


@model("Option::map", "Option::and_then", "Option::map_or", "Option::map_or_else", "Option::filter")
def _omap(I, c, a, st, rt, site):
    n = I.norm_name(c).split("::")[1]
    out = []
    for s, b in split(I, st, a[0], "Some"):
        v = deref(I, s, a[0])
        if b:
            x = payload(I, s, a[0], "Some", 0, self_targ(c))
            if n == "map":
                out += calls(I, a[1], [x], s, inner_ty(rt), site, some)
            elif n == "and_then":
                out += I.call_value(a[1], [x], s, rt, site)
            elif n in ("map_or", "map_or_else"):
                out += I.call_value(a[2], [x], s, rt, site)
            else:
                I.fresh_n += 1
                cell = ("tmp", I.fresh_n)
                s.mem[cell] = x
                for o in I.call_value(a[1], [("ref", cell, ())], s, ("path", "bool", ()), site):
                    if o.kind != "return":
                        out.append(o)
                        continue
                    for s2, t in I.branch_bool(o.state, o.ret):
                        out.append(Outcome("return", s2, some(x) if t else NONE))
        else:
            if n in ("map", "and_then", "filter"):
                out.append(Outcome("return", s, NONE))
            elif n == "map_or":
                out.append(Outcome("return", s, a[1]))
            else:
                out += I.call_value(a[1], [], s, rt, site)
    return out


@model("Option::or", "Option::or_else", "Option::unwrap_or", "Option::unwrap_or_else", "Option::unwrap_or_default",
       "Option::ok_or", "Option::ok_or_else", "Option::xor", "Option::and")
def _oor(I, c, a, st, rt, site):
    n = I.norm_name(c).split("::")[1]
    out = []
    for s, b in split(I, st, a[0], "Some"):
        if b:
            x = payload(I, s, a[0], "Some", 0, self_targ(c))
            if n in ("or", "or_else"):
                out.append(Outcome("return", s, some(x)))
            elif n in ("ok_or", "ok_or_else"):
                out.append(Outcome("return", s, ok(x)))
            elif n == "and":
                out.append(Outcome("return", s, a[1]))
            else:
                out.append(Outcome("return", s, x))
        elif n in ("or", "unwrap_or", "xor"):
            out.append(Outcome("return", s, a[1]))
        elif n == "and":
            out.append(Outcome("return", s, NONE))
        elif n in ("or_else", "unwrap_or_else"):
            out += I.call_value(a[1], [], s, rt, site)
        elif n == "unwrap_or_default":
            out.append(Outcome("return", s, default_of(I, rt)))
        elif n == "ok_or":
            out.append(Outcome("return", s, err(a[1])))
        else:
            out += calls(I, a[1], [], s, inner_ty(rt, 1), site, err)
    return out


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Option::unwrap_unchecked")
def _unwrap(I, c, a, st, rt, site):
    n = I.norm_name(c)
    variant = "Some" if n.startswith("Option") else "Err" if n.endswith("_err") else "Ok"
    out = []
    for s, b in split(I, st, a[0], variant):
        if b:
            out.append(Outcome("return", s, payload(I, s, a[0], variant, 0, self_targ(c))))
        else:
            out.append(Outcome("panic", s, None, ("unwrap", n, site[0], site[1])))
    return out


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut",
       "Result::as_deref")
def _as_ref(I, c, a, st, rt, site):
    opt = I.norm_name(c).startswith("Option")
    out = []
    for s, b in split(I, st, a[0], "Some" if opt else "Ok"):
        variant = ("Some" if b else "None") if opt else ("Ok" if b else "Err")
        if variant == "None":
            out.append(Outcome("return", s, NONE))
            continue
        ty = self_targ(c, 0 if variant != "Err" else 1)
        out.append(Outcome("return", s, ("adt", "Option" if opt else "Result", variant,
                                         (payload(I, s, a[0], variant, 0, ty),))))
    return out


@model("Option::cloned", "Option::copied", "Result::cloned", "Result::copied")
def _cloned(I, c, a, st, rt, site):
    v = I.snap(st, a[0])
    return ret(st, retag(v, rt))


def retag(v, ty):
    if v[0] == "tok":
        return ("tok", v[1], ty if ty is not None else v[2])
    if v[0] == "app":
        return ("app", v[1], v[2], ty if ty is not None else v[3])
    return v


@model("Option::take")
def _take(I, c, a, st, rt, site):
    v = I.read_loc(st, (a[0][1], a[0][2])) if a[0][0] == "ref" else a[0]
    if a[0][0] == "ref":
        I.write_loc(st, (a[0][1], a[0][2]), NONE)
        st.event("take", (a[0][1], a[0][2]), v, site)
    return ret(st, retag(v, rt))


@model("Option::replace", "Option::insert", "std::mem::replace")
def _replace(I, c, a, st, rt, site):
    n = I.norm_name(c)
    if a[0][0] != "ref":
        return None
    old = I.read_loc(st, (a[0][1], a[0][2]))
    new = a[1] if n == "std::mem::replace" else some(a[1])
    I.write_loc(st, (a[0][1], a[0][2]), new)
    if n == "Option::insert":
        return ret(st, ("ref", a[0][1], a[0][2] + (("variant", "Some"), ("field", 0, None))))
    return ret(st, old)


@model("Option::get_or_insert", "Option::get_or_insert_with")
def _get_or_insert(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    out = []
    here = (a[0][1], a[0][2])
    inner = ("ref", a[0][1], a[0][2] + (("variant", "Some"), ("field", 0, None)))
    for s, b in I.branch_variant(st, I.read_loc(st, here), "Some"):
        if b:
            out += ret(s, inner)
        elif I.norm_name(c).endswith("_with"):
            for o in I.call_value(a[1], [], s, inner_ty(rt), site):
                if o.kind == "return":
                    I.write_loc(o.state, here, some(o.ret))
                    out += ret(o.state, inner)
                else:
                    out.append(o)
        else:
            I.write_loc(s, here, some(a[1]))
            out += ret(s, inner)
    return out


@model("std::mem::take")
def _mtake(I, c, a, st, rt, site):
    if a[0][0] != "ref":
        return None
    old = I.read_loc(st, (a[0][1], a[0][2]))
    out = []
    for o in _default(I, ("trait", rt), [], st.fork(), rt, site):
        if o.kind == "return":
            I.write_loc(o.state, (a[0][1], a[0][2]), o.ret)
            o.state.event("take", (a[0][1], a[0][2]), old, site)
            o = Outcome("return", o.state, retag(old, rt))
        out.append(o)
    return out


@model("std::mem::swap")
def _mswap(I, c, a, st, rt, site):
    if a[0][0] != "ref" or a[1][0] != "ref":
        return None
    x, y = I.read_loc(st, (a[0][1], a[0][2])), I.read_loc(st, (a[1][1], a[1][2]))
    I.write_loc(st, (a[0][1], a[0][2]), y)
    I.write_loc(st, (a[1][1], a[1][2]), x)
    return ret(st, UNIT)


@model("Option::flatten")
def _flatten(I, c, a, st, rt, site):
    out = []
    for s, b in split(I, st, a[0], "Some"):
        out.append(Outcome("return", s, payload(I, s, a[0], "Some", 0, rt) if b else NONE))
    return out


@model("Option::zip")
def _zip(I, c, a, st, rt, site):
    out = []
    for s, b in split(I, st, a[0], "Some"):
        if not b:
            out.append(Outcome("return", s, NONE))
            continue
        for s2, b2 in split(I, s, a[1], "Some"):
            if b2:
                out.append(Outcome("return", s2, some(("adt", "tuple", None, (
                    payload(I, s2, a[0], "Some", 0, None), payload(I, s2, a[1], "Some", 0, None))))))
            else:
                out.append(Outcome("return", s2, NONE))
    return out


# ------------------------------------------------------------------ Result

@model("Result::map", "Result::map_err", "Result::and_then", "Result::or_else", "Result::ok", "Result::err",
       "Result::unwrap_or", "Result::unwrap_or_else", "Result::unwrap_or_default", "Result::map_or", "Result::map_or_else",
       "Context::context", "Context::with_context", "Result::or", "Result::and")
def _rmap(I, c, a, st, rt, site):
    n = I.norm_name(c).split("::")[1]
    opt = c[0] == "trait" and c[1][0] == "path" and T.last(c[1][1]) == "Option"
    out = []
    good, bad = ("Some", "None") if opt else ("Ok", "Err")
    for s, b in split(I, st, a[0], good):
        x = payload(I, s, a[0], good, 0, self_targ(c, 0)) if b else (
            None if opt else payload(I, s, a[0], bad, 0, self_targ(c, 1)))
        if n in ("context", "with_context"):
            if b:
                out.append(Outcome("return", s, ok(x)))
            else:
                out.append(Outcome("return", s, err(app("context", x if x is not None else const("none")))))
        elif n == "map":
            out += calls(I, a[1], [x], s, inner_ty(rt), site, ok) if b else [Outcome("return", s, err(x))]
        elif n == "map_err":
            out += [Outcome("return", s, ok(x))] if b else calls(I, a[1], [x], s, inner_ty(rt, 1), site, err)
        elif n == "and_then":
            out += I.call_value(a[1], [x], s, rt, site) if b else [Outcome("return", s, err(x))]
        elif n == "or_else":
            out += [Outcome("return", s, ok(x))] if b else I.call_value(a[1], [x], s, rt, site)
        elif n == "or":
            out.append(Outcome("return", s, ok(x) if b else a[1]))
        elif n == "and":
            out.append(Outcome("return", s, a[1] if b else err(x)))
        elif n == "ok":
            out.append(Outcome("return", s, some(x) if b else NONE))
            if not b:
                s.event("discard_err", x, site)
        elif n == "err":
            out.append(Outcome("return", s, NONE if b else some(x)))
        elif n == "unwrap_or":
            out.append(Outcome("return", s, x if b else a[1]))
        elif n == "unwrap_or_default":
            out.append(Outcome("return", s, x if b else default_of(I, rt)))
        elif n == "unwrap_or_else":
            out += [Outcome("return", s, x)] if b else I.call_value(a[1], [x], s, rt, site)
        elif n == "map_or":
            out += I.call_value(a[2], [x], s, rt, site) if b else [Outcome("return", s, a[1])]
        elif n == "map_or_else":
            out += I.call_value(a[2] if b else a[1], [x], s, rt, site)
    return out


@model("Try::branch")
def _branch(I, c, a, st, rt, site):
    v = a[0]
    t = c[1]
    n = T.last(t[1]) if t[0] == "path" else "Result"
    out = []
    good = "Ok" if n == "Result" else "Some"
    for s, b in split(I, st, v, good):
        if b:
            out.append(Outcome("return", s, ("adt", "ControlFlow", "Continue",
                                             (payload(I, s, v, good, 0, t[2][0] if t[2] else None),))))
        elif n == "Result":
            out.append(Outcome("return", s, ("adt", "ControlFlow", "Break",
                                             (err(payload(I, s, v, "Err", 0, t[2][1] if len(t[2]) > 1 else None)),))))
        else:
            out.append(Outcome("return", s, ("adt", "ControlFlow", "Break", (NONE,))))
    return out


@model("FromResidual::from_residual")
def _from_residual(I, c, a, st, rt, site):
    v = a[0]
    if v[0] == "adt" and v[2] == "Err":
        return ret(st, err(v[3][0]))
    if v[0] == "adt" and v[2] == "None":
        return ret(st, NONE)
    return ret(st, v)


# ------------------------------------------------------------------ identity-like

@model("Clone::clone", "ToOwned::to_owned", "str::to_owned", "slice::to_vec", "str::to_string", "String::as_str",
       "Box::new", "Rc::new", "Arc::new", "str::to_owned", "String::from", "Cow::into_owned",
       "anyhow::__private::must_use", "std::convert::identity", "str::as_str", "String::into_boxed_str",
       "Vec::into_boxed_slice", "core::fmt::rt::must_use", "str::into_string")
def _ident(I, c, a, st, rt, site):
    return ret(st, retag(I.snap(st, a[0]), rt))


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "BorrowMut::borrow_mut", "AsMut::as_mut",
       "Vec::as_slice", "Vec::as_mut_slice", "String::as_mut_str", "Path::as_ref", "Box::as_ref", "str::as_bytes",
       "String::as_bytes", "str::as_ref")
def _deref(I, c, a, st, rt, site):
    n = I.norm_name(c)
    v = a[0]
    if n.endswith("as_bytes"):
        return ret(st, app("bytes", I.snap(st, v), ty=rt))
    if v[0] == "ref":
        inner = I.read_loc(st, (v[1], v[2]))
        if inner[0] == "ref":
            return ret(st, inner)
    return ret(st, v)


@model("slice::into_vec")
def _into_vec(I, c, a, st, rt, site):
    v = a[0]
    while v[0] == "ref":
        v = I.read_loc(st, (v[1], v[2]))
    return ret(st, v)


@model("alloc::alloc::exchange_malloc")
def _malloc(I, c, a, st, rt, site):
    """The memory of a box: a new place each time"""
    I.boxes = getattr(I, "boxes", 0) + 1
    cell = ("box", I.boxes)
    st.mem[cell] = ("tok", ("uninit", "box"), None)
    return ret(st, ("ref", cell, ()))


@model("Drop::drop")
def _drop(I, c, a, st, rt, site):
    v = a[0]
    while v[0] == "ref":
        if v[1][0] == "box":
            return ret(st, UNIT)
        v = I.read_loc(st, (v[1], v[2]))
    return None


def type_name(t):
    while t[0] == "ref":
        t = t[2]
    return T.last(t[1]) if t[0] == "path" else t[0]


NUMBERS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64")


def int_from(I, st, v, src, dn):
    """Lossless conversion to the number type dn, or None when it is not one"""
    if dn not in NUMBERS:
        return None
    if v[0] == "c":
        return ret(st, const(float(v[1]) if dn[0] == "f" else int(v[1]) if isinstance(v[1], bool) else v[1], dn))
    if src is not None and type_name(src) == "bool":
        return [Outcome("return", s, const(int(b), dn)) for s, b in I.branch_bool(st, v)]
    if dn[0] == "f":
        return ret(st, app("cast:" + dn, v, ty=T.parse(dn)))
    return ret(st, app("widen", v, ty=dn))


@model("From::from", "Into::into", "TryInto::try_into", "TryFrom::try_from")
def _from(I, c, a, st, rt, site):
    n = I.norm_name(c)
    if n in ("Into::into", "TryInto::try_into"):
        # dispatch to the From / TryFrom impl
        src = c[1]
        dst = c[2][2][0] if c[2][2] else (rt if n == "Into::into" else inner_ty(rt))
        if dst is not None:
            tr = ("path", "From" if n == "Into::into" else "TryFrom", (src,))
            cal = ("trait", dst, tr, "from" if n == "Into::into" else "try_from")
            r = I.p.resolve(cal)
            if r is not None and r[0].qual not in I.opaque and r[0].qual not in I.stack:
                return I.inline_call(r[0], a, st, r[1], site, [src], rt, n)
            if r is not None:
                return I.opaque_call(r[0].qual, cal, a, st, rt, site)
            if src == dst or type_name(src) in ("str", "String") and type_name(dst) in ("String", "Rc", "Box", "PathBuf"):
                return ret(st, retag(I.snap(st, a[0]), rt))
            if type_name(dst) == "Option":
                return ret(st, some(a[0]))
            if type_name(dst) == "Vec" and type_name(src) in ("slice", "array"):
                return ret(st, retag(I.snap(st, a[0]), rt))
            v = I.snap(st, a[0])
            if n == "TryInto::try_into" and type_name(dst) == "array":
                m = re.search(r"; (\d+)(?:_usize)?\]$", T.show(dst))
                l = I.length(v)
                if m and l[0] == "c" and l[1] == int(m.group(1)) <= 16:
                    from .itermodels import index_value
                    return ret(st, ok(("adt", "array", None, tuple(index_value(I, v, ("c", i, "int")) for i in range(l[1])))))
            if n == "Into::into":
                r = int_from(I, st, v, src, type_name(dst))
                if r is not None:
                    return r
            return ret(st, app(f"conv:{type_name(dst)}", v, ty=rt))
        return None
    src = c[2][2][0] if c[2][2] else None
    dn = type_name(c[1])
    if src is not None and (type_name(src) in ("str", "String") and dn in ("String", "Rc", "Box", "PathBuf") or src == c[1]):
        return ret(st, retag(I.snap(st, a[0]), rt))
    if dn == "Option":
        return ret(st, some(a[0]))
    if dn == "Vec" and src is not None and type_name(src) in ("slice", "array"):
        return ret(st, retag(I.snap(st, a[0]), rt))
    if dn == "Error" :
        return ret(st, app("conv:Error", I.snap(st, a[0]), ty=rt))
    v = I.snap(st, a[0])
    if n == "From::from":
        r = int_from(I, st, v, src, dn)
        if r is not None:
            return r
    return ret(st, app(f"{n}:{dn}", v, ty=rt))


@model("FnOnce::call_once", "Fn::call", "FnMut::call_mut")
def _call(I, c, a, st, rt, site):
    t = a[1]
    args = list(t[3]) if t[0] == "adt" and t[1] == "tuple" else [t]
    return I.call_value(a[0], args, st, rt, site)


# ------------------------------------------------------------------ defaults

def default_of(I, ty):
    t = T.parse(ty) if isinstance(ty, str) else ty
    if t is None:
        return app("default")
    if t[0] == "tuple":
        return ("adt", "tuple", None, tuple(default_of(I, x) for x in t[1]))
    if t[0] == "path":
        n = T.last(t[1])
        if n == "Option":
            return NONE
        if n == "bool":
            return FALSE
        if n in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
            return const(0, n)
        if n in ("f32", "f64"):
            return const(0.0, n)
        if n in ("String", "str"):
            return const("", "str")
        if n in ("Vec", "BTreeMap", "HashMap"):
            return ("adt", "array", None, ()) if n == "Vec" else app("empty:" + n)
    if t[0] == "ref":
        return default_of(I, t[2])
    return app("default", const(T.show(t)), ty=t)


@model("Default::default")
def _default(I, c, a, st, rt, site):
    cal = ("trait", c[1], ("path", "Default", ()), "default")
    r = I.p.resolve(cal)
    if r is not None:
        return I.inline_call(r[0], a, st, r[1], site, [], rt, "Default::default")
    return ret(st, default_of(I, c[1]))


@model("Vec::new", "Vec::with_capacity")
def _vecnew(I, c, a, st, rt, site):
    return ret(st, ("adt", "array", None, ()))


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def _mapnew(I, c, a, st, rt, site):
    return ret(st, app("empty:" + I.norm_name(c).split("::")[0], ty=rt))


@model("VacantEntry::insert")
def _vacant_insert(I, c, a, st, rt, site):
    v = I.snap(st, a[1])
    return [Outcome(o.kind, o.state, v) for o in I.opaque_call("VacantEntry::insert", c, a, st, rt, site)]


@model("String::new", "String::with_capacity")
def _strnew(I, c, a, st, rt, site):
    return ret(st, const("", "str"))


# ------------------------------------------------------------------ comparison

def compare(I, st, a, b):
    return I.snap(st, a), I.snap(st, b)


def eq_value(I, st, x, y):
    """[(state, bool)] for structural equality of x and y"""
    for p, q in ((x, y), (y, x)):
        if p[0] == "app" and p[1] == "cmp" and q[0] == "adt" and q[1] == "Ordering":
            o = {"Less": "<", "Equal": "=", "Greater": ">"}[q[2]]
            out = []
            t = I.assume_ord(st, p[2][0], p[2][1], o)
            f = I.assume_ord(st, p[2][0], p[2][1], "".join(c for c in "<=>" if c != o))
            return ([(t, True)] if t is not None else []) + ([(f, False)] if f is not None else [])
    if x[0] in ("tok", "app") and y[0] in ("tok", "app"):
        o = I.orderings(st, x, y)
        if o == frozenset("="):
            return [(st, True)]
        if "=" not in o:
            return [(st, False)]
    if x[0] == "adt" and y[0] == "adt":
        if x[2] != y[2] or len(x[3]) != len(y[3]):
            return [(st, False)]
        res = [(st, True)]
        for p, q in zip(x[3], y[3]):
            nxt = []
            for s, b in res:
                if not b:
                    nxt.append((s, b))
                else:
                    nxt += eq_value(I, s, p, q)
            res = nxt
        return res
    for p, q in ((x, y), (y, x)):
        if p[0] == "adt" and p[2] is not None and q[0] in ("tok", "app"):
            out = []
            for s, b in I.branch_variant(st, q, p[2], STD_ENUMS.get(p[1]) or I.variants_of(("path", p[1], ()))):
                if not b:
                    out.append((s, False))
                    continue
                res = [(s, True)]
                for i, f in enumerate(p[3]):
                    nxt = []
                    for s2, b2 in res:
                        if not b2:
                            nxt.append((s2, b2))
                        else:
                            nxt += eq_value(I, s2, f, I.payload(s2, q, p[2], i, None))
                    res = nxt
                out += res
            return out
        if p[0] == "adt" and p[1] == "array" and q[0] in ("tok", "app"):
            n = I.length(q)
            if n[0] == "c" and n[1] != len(p[3]):
                return [(st, False)]
            res = [(st, True)]
            if n[0] != "c":
                t = I.assume_ord(st, n, const(len(p[3]), "usize"), "=")
                f = I.assume_ord(st, n, const(len(p[3]), "usize"), "<>")
                res = ([(t, True)] if t is not None else []) + ([(f, False)] if f is not None else [])
            for i, x in enumerate(p[3]):
                nxt = []
                for s2, b2 in res:
                    nxt += eq_value(I, s2, x, itermodels.index_value(I, q, ("c", i, "int"))) if b2 else [(s2, b2)]
                res = nxt
            return res
        if p[0] == "adt" and p[2] is None and q[0] in ("tok", "app") and not str(p[1]).startswith("closure"):
            res = [(st, True)]
            for i, f in enumerate(p[3]):
                nxt = []
                for s2, b2 in res:
                    if not b2:
                        nxt.append((s2, b2))
                    else:
                        nxt += eq_value(I, s2, f, I._project1(q, ("field", i, None)))
                res = nxt
            return res
    # two tokens whose tags are both known
    vx, vy = I.get_variant(st, x), I.get_variant(st, y)
    if vx is not None and vy is not None and x[0] != "c" and y[0] != "c":
        if vx != vy:
            return [(st, False)]
        if vx == "None":
            return [(st, True)]
        if vx == "Some":
            return eq_value(I, st, I.payload(st, x, "Some", 0, inner_ty(x[2] if x[0] == "tok" else x[3])),
                            I.payload(st, y, "Some", 0, inner_ty(y[2] if y[0] == "tok" else y[3])))
    out = []
    t = I.assume_ord(st, x, y, "=")
    f = I.assume_ord(st, x, y, "<>")
    if t is not None:
        out.append((t, True))
    if f is not None:
        out.append((f, False))
    return out


@model("PartialEq::eq", "PartialEq::ne")
def _eq(I, c, a, st, rt, site):
    x, y = compare(I, st, a[0], a[1])
    neg = I.norm_name(c).endswith("ne")
    if x[0] == "c" and y[0] == "c":
        return ret(st, mkbool((x[1] == y[1]) != neg))
    return [Outcome("return", s, mkbool(b != neg)) for s, b in eq_value(I, st, x, y)]


def composite(v):
    return v[0] == "adt" and v[1] != "Ordering" and len(v[3]) > 0


def in_order(I, s, p, q):
    """[(state, "<" | "=" | ">")] for two values, looking into the parts of composite ones"""
    if p[0] == "c" and q[0] == "c" and type(p[1]) == type(q[1]):
        return [(s, "<" if p[1] < q[1] else ">" if p[1] > q[1] else "=")]
    if not composite(p) and not composite(q):
        if p[0] == q[0] == "adt":
            if p[1:3] == q[1:3]:
                return [(s, "=")]
            raise Unsupported("order of constants")
        return [(s2, o) for s2, o in ((I.assume_ord(s, p, q, o), o) for o in "<=>") if s2 is not None]
    k = p if composite(p) else q
    if k[2] in ("Some", "None"):
        out = []
        for s1, a in I.branch_variant(s, p, "Some", ["None", "Some"]):
            for s2, b in I.branch_variant(s1, q, "Some", ["None", "Some"]):
                if a and b:
                    ps = [I.payload(s2, v, "Some", 0, inner_ty(v[2] if v[0] == "tok" else v[3])) if v[0] != "adt" else v[3][0] for v in (p, q)]
                    out += in_order(I, s2, *ps)
                else:
                    out.append((s2, "<" if b else ">" if a else "="))
        return out
    if p[0] != "adt" or q[0] != "adt" or p[1] != q[1] or p[1] not in ("tuple", "array", "Reverse") or len(p[3]) != len(q[3]):
        raise Unsupported("order of composite values")
    if p[1] == "Reverse":
        return [(s2, {"<": ">", ">": "<"}.get(o, o)) for s2, o in in_order(I, s, p[3][0], q[3][0])]
    out, eq = [], [s]
    for x, y in zip(p[3], q[3]):
        sub = [r for s1 in eq for r in in_order(I, s1, x, y)]
        out += [r for r in sub if r[1] != "="]
        eq = [s2 for s2, o in sub if o == "="]
    return out + [(s2, "=") for s2 in eq]


def lexicographic(I, c, st, x, y):
    """[(state, "<" | "=" | ">")] for two composite values compared part by part; None for others"""
    if not composite(x) and not composite(y):
        return None
    if re.search(r"'f(32|64)'", repr(c[1:])):
        raise Unsupported("order of floating point numbers in a composite value")
    return in_order(I, st, x, y)


ORDNAME = {"<": "Less", "=": "Equal", ">": "Greater"}


def lex_outcomes(I, c, st, x, y, wrap):
    r = lexicographic(I, c, st, x, y)
    return None if r is None else [Outcome("return", s, wrap(("adt", "Ordering", ORDNAME[o], ()))) for s, o in r]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _lt(I, c, a, st, rt, site):
    x, y = compare(I, st, a[0], a[1])
    r = lexicographic(I, c, st, x, y)
    if r is not None:
        ok = {"lt": "<", "le": "<=", "gt": ">", "ge": "=>"}[I.norm_name(c).split("::")[1]]
        return [Outcome("return", s, mkbool(o in ok)) for s, o in r]
    return ret(st, app(I.norm_name(c).split("::")[1], x, y, ty="bool"))


def by_tags(I, st, x, y, wrap):
    """The order of the variants of two values, told apart"""
    if not all(v[0] == "app" and v[1] == "discr" for v in (x, y)):
        return None
    names = I.variants_of(x[2][1][1])
    if names is None or len(names) > 4:
        return None
    vx, vy = (v[2][0] if v[2][0][0] != "tag" else v[2][0][1] for v in (x, y))
    out = []
    for i, m in enumerate(names):
        s = I.assume_tag(st, vx, m)
        for j, n in enumerate(names if s is not None else ()):
            s2 = I.assume_tag(s, vy, n)
            if s2 is not None:
                out.append(Outcome("return", s2, wrap(("adt", "Ordering", "Less" if i < j else "Greater" if i > j else "Equal", ()))))
    return out


@model("Ord::cmp", "f64::total_cmp", "f32::total_cmp")
def _cmp(I, c, a, st, rt, site):
    x, y = compare(I, st, a[0], a[1])
    r = by_tags(I, st, x, y, lambda o: o) or lex_outcomes(I, c, st, x, y, lambda o: o)
    if r is not None:
        return r
    if x[0] == "c" and y[0] == "c" and type(x[1]) == type(y[1]):
        return ret(st, ("adt", "Ordering", "Less" if x[1] < y[1] else "Greater" if x[1] > y[1] else "Equal", ()))
    return ret(st, ("app", "cmp", (x, y), ("path", "std::cmp::Ordering", ())))


@model("PartialOrd::partial_cmp")
def _pcmp(I, c, a, st, rt, site):
    x, y = compare(I, st, a[0], a[1])
    t = type_name(c[1])
    r = by_tags(I, st, x, y, some) or lex_outcomes(I, c, st, x, y, some)
    if r is not None:
        return r
    if t not in ("f32", "f64"):
        return ret(st, some(("app", "cmp", (x, y), ("path", "std::cmp::Ordering", ()))))
    return ret(st, ("app", "partial_cmp", (x, y), rt))


ORDS = ["Less", "Equal", "Greater"]


@model("Ordering::then", "Ordering::then_with")
def _ord_then(I, c, a, st, rt, site):
    out = []
    v = I.snap(st, a[0])
    for s, eq in I.branch_variant(st, v, "Equal", ORDS):
        if not eq:
            out.append(Outcome("return", s, v))
        elif I.norm_name(c).endswith("then"):
            out.append(Outcome("return", s, a[1]))
        else:
            out += calls(I, a[1], [], s, rt, site, lambda x: x)
    return out


@model("Ordering::reverse")
def _ord_reverse(I, c, a, st, rt, site):
    v = I.snap(st, a[0])
    if v[0] == "adt":
        return ret(st, ("adt", v[1], {"Less": "Greater", "Greater": "Less"}.get(v[2], v[2]), v[3]))
    if v[0] == "app" and v[1] == "cmp":
        return ret(st, ("app", "cmp", (v[2][1], v[2][0]), v[3]))
    out = []
    for n in ORDS:
        s = I.assume_tag(st, v, n)
        if s is not None:
            out.append(Outcome("return", s, ("adt", "Ordering", {"Less": "Greater", "Greater": "Less"}.get(n, n), ())))
    return out


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _ord_is(I, c, a, st, rt, site):
    v = I.snap(st, a[0])
    n = I.norm_name(c)[-2:]
    t = {"lt": "Less", "ge": "Less", "gt": "Greater", "le": "Greater", "eq": "Equal", "ne": "Equal"}[n]
    return [Outcome("return", s, mkbool(b == (n in ("lt", "gt", "eq")))) for s, b in I.branch_variant(st, v, t, ORDS)]


@model("bool::then", "bool::then_some")
def _then(I, c, a, st, rt, site):
    out = []
    for s, b in I.branch_bool(st, a[0]):
        if not b:
            out.append(Outcome("return", s, NONE))
        elif I.norm_name(c).endswith("then_some"):
            out.append(Outcome("return", s, some(a[1])))
        else:
            out += calls(I, a[1], [], s, inner_ty(rt), site, some)
    return out


@model("Not::not", "Bool::not", "anyhow::__private::not")
def _not(I, c, a, st, rt, site):
    return ret(st, negate(I.snap(st, a[0])))


@model("anyhow::__private::kind::TraitKind::anyhow_kind", "anyhow::__private::kind::AdhocKind::anyhow_kind")
def _kind(I, c, a, st, rt, site):
    return ret(st, app("kind", I.snap(st, a[0])))


# ------------------------------------------------------------------ integers

def int_bits(t):
    m = re.fullmatch(r"u(8|16|32|64)", t)
    return int(m.group(1)) if m else 64 if t == "usize" else None


def _intop(I, c, a, st, rt, site):
    t, op = I.norm_name(c).split("::")
    w = int_bits(t)
    x, y = I.snap(st, a[0]), I.snap(st, a[1])
    if w is None:
        return None
    out = []
    if op in ("wrapping_sub", "checked_sub", "saturating_sub", "abs_diff", "overflowing_sub"):
        for allowed in ("=>", "<"):
            s = I.assume_ord(st, x, y, allowed)
            if s is None:
                continue
            d = I.binop("Sub", x, y) if allowed == "=>" else None
            if op == "wrapping_sub":
                v = d or app("wrapped_sub", x, y, const(w), ty=rt)
            elif op == "checked_sub":
                v = some(d) if d else NONE
            elif op == "saturating_sub":
                v = d or const(0, t)
            elif op == "abs_diff":
                v = d or I.binop("Sub", y, x)
            else:
                v = ("adt", "tuple", None, (d or app("wrapped_sub", x, y, const(w)), mkbool(d is None)))
            out.append(Outcome("return", s, v))
        return out
    if y[0] != "c":
        if x[0] != "c":
            if op == "checked_add" and t == "usize":
                return ret(st, some(I.binop("Add", x, y)))
            return None
        x, y = y, x
    lim = (1 << w) - 1 - y[1]
    for allowed in ("<=", ">"):
        s = I.assume_ord(st, x, const(lim, t), allowed)
        if s is None:
            continue
        d = I.binop("Add", x, y) if allowed == "<=" else None
        if op == "wrapping_add":
            v = d or app("wrapped_add", x, y)
        elif op == "checked_add":
            v = some(d) if d else NONE
        else:
            v = d or const((1 << w) - 1, t)
        out.append(Outcome("return", s, v))
    return out


PATTERNS.append((re.compile(r"u(8|16|32|64|size)::(wrapping|checked|saturating)_(sub|add)"), _intop))
PATTERNS.append((re.compile(r"u(8|16|32|64|size)::abs_diff"), _intop))


@model("Ord::clamp", "Ord::max", "Ord::min", "std::cmp::max", "std::cmp::min", "f64::max", "f64::min", "f64::clamp", "f32::max", "f32::min")
def _clamp(I, c, a, st, rt, site):
    n = I.norm_name(c).split("::")[-1]
    t = rt if rt is not None else c[1]
    if t is None or T.show(t) not in INTS + ("f64", "f32"):
        return None
    x = I.snap(st, a[0])
    out = []
    if n == "clamp":
        lo, hi = I.snap(st, a[1]), I.snap(st, a[2])
        s0 = I.assume_ord(st, lo, hi, "<=")
        bad = I.assume_ord(st, lo, hi, ">")
        if bad is not None:
            out.append(Outcome("panic", bad, None, ("clamp", n, site[0], site[1])))
        if s0 is None:
            return out
        s = I.assume_ord(s0, x, lo, "<")
        if s is not None:
            out.append(Outcome("return", s.fork(), lo))
        r = I.assume_ord(s0, x, lo, "=>")
        if r is not None:
            for al, v in ((">", hi), ("<=", x)):
                s = I.assume_ord(r, x, hi, al)
                if s is not None:
                    out.append(Outcome("return", s.fork(), v))
        return out
    y = I.snap(st, a[1])
    for al, v in (("<=", y if n == "max" else x), (">", x if n == "max" else y)):
        s = I.assume_ord(st, x, y, al)
        if s is not None:
            out.append(Outcome("return", s.fork(), v))
    return out


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")


# ------------------------------------------------------------------ lengths, emptiness

@model("Vec::len", "slice::len", "str::len", "String::len")
def _len(I, c, a, st, rt, site):
    return ret(st, I.length(I.snap(st, a[0])))


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def _empty(I, c, a, st, rt, site):
    l = I.length(I.snap(st, a[0]))
    if l[0] == "c":
        return ret(st, mkbool(l[1] == 0))
    return ret(st, app("eq", l, const(0, "usize"), ty="bool"))


# ------------------------------------------------------------------ formatting

@model("Arguments::new_v1", "Arguments::new_const", "Arguments::new_v1_formatted")
def _args(I, c, a, st, rt, site):
    pieces = I.snap(st, a[0])
    n = I.norm_name(c)
    args = I.snap(st, a[1]) if len(a) > 1 else ("adt", "array", None, ())
    if pieces[0] == "adt" and args[0] == "adt":
        parts = []
        ps, as_ = list(pieces[3]), list(args[3])
        if n.endswith("formatted"):
            spec = I.snap(st, a[2])
            return ret(st, app("fmtx", pieces, args, spec))
        for i in range(max(len(ps), len(as_))):
            if i < len(ps) and not (ps[i][0] == "c" and ps[i][1] == ""):
                parts.append(ps[i])
            if i < len(as_):
                parts.append(as_[i])
        return ret(st, itermodels.concat(parts))
    return ret(st, app("fmt", pieces, args))


@model("Argument::new_display", "Argument::new_debug")
def _arg(I, c, a, st, rt, site):
    kind = I.norm_name(c).rsplit("_", 1)[1]
    v = I.snap(st, a[0])
    if kind == "display" and v[0] == "c" and isinstance(v[1], (str, int)) and not isinstance(v[1], bool):
        return ret(st, const(str(v[1]), "str"))
    if kind == "display" and v[0] == "adt" and v[1] == "CompactStringFormatter" and len(v[3]) == 1:
        return ret(st, app("compact", v[3][0], ty=None))
    if kind == "display" and (itermodels.tystr(v) or v[0] == "app" and v[1] == "fmt"):
        return ret(st, v)
    return ret(st, app(kind, v, ty=None))


@model("std::fmt::format", "alloc::fmt::format", "fmt::format")
def _format(I, c, a, st, rt, site):
    return ret(st, retag(I.snap(st, a[0]), ("path", "String", ())))


@model("ToString::to_string")
def _to_string(I, c, a, st, rt, site):
    v = I.snap(st, a[0])
    if v[0] == "c" and isinstance(v[1], (str, int)) and not isinstance(v[1], bool):
        return ret(st, const(str(v[1]), "str"))
    if type_name(c[1]) in ("str", "String"):
        return ret(st, v)
    return ret(st, itermodels.concat([itermodels.as_text(I, st, v)]))


@model("Formatter::write_fmt", "Formatter::write_str", "Formatter::write_char", "Write::write_fmt", "Write::write_str",
       "Write::write_char", "Write::write_all")
def _write(I, c, a, st, rt, site):
    v = I.snap(st, a[1])
    t = I.snap(st, a[0])
    if c[0] == "trait" and type_name(c[1]) == "String" and a[0][0] == "ref":
        I.write_loc(st, (a[0][1], a[0][2]), itermodels.concat([t, v if not I.norm_name(c).endswith("char") else itermodels.as_text(I, st, v)]))
        return ret(st, ok(UNIT))
    if v[0] == "app" and v[1] == "bytes":
        v = v[2][0]
    if v[0] == "adt" and v[1] == "array" and all(x[0] == "c" and isinstance(x[1], int) for x in v[3]):
        v = const(bytes(x[1] for x in v[3]).decode("latin-1"), "str")
    parts = list(v[2]) if v[0] == "app" and v[1] == "fmt" else [v]
    st.event("write", where(I, st, a[0]), tuple(parts), site)
    if c[0] == "inherent":
        return ret(st, ok(UNIT))     # a Formatter fails only when its sink does
    return ret(st, write_result(I, st, where(I, st, a[0]), rt))


def write_result(I, st, sink, rt):
    """Whether the sink takes the text: one fact per sink and position in its output."""
    n, pre = 0, []
    for e in st.events[:-1]:
        if e[0] == "write" and e[1] == sink:
            pre += list(e[2])
        elif e[0] == "loop" or e[0] == "call" and e[5]:
            n, pre = n + 1, []
    t = ("tok", ("wres", sink, n, key(itermodels.concat(pre))), rt)
    st.event("wres", key(t))
    return t


def where(I, st, v):
    while v[0] == "ref":
        x = I.read_loc(st, (v[1], v[2]))
        if x[0] != "ref":
            return key(x) if x[0] in ("tok", "app") else (v[1], v[2])
        v = x
    return key(v)


@model("Display::fmt", "Debug::fmt", "CompactString::fmt_compact_string")
def _disp(I, c, a, st, rt, site):
    r = I.p.resolve(c)
    if r is not None and not r[0].derived and r[0].qual not in I.stack and r[0].qual not in I.opaque:
        return None
    kind = {"Display": "display", "Debug": "debug", "CompactString": "compact"}[I.norm_name(c).split("::")[0]]
    v = I.snap(st, a[0])
    st.event("write", where(I, st, a[1]), (app(kind, v),), site)
    return ret(st, ok(UNIT))


@model("str::parse", "FromStr::from_str")
def _parse(I, c, a, st, rt, site):
    tgt = None
    if I.norm_name(c) == "FromStr::from_str":
        tgt = c[1]
    else:
        tgt = inner_ty(rt, 0)
    v = I.snap(st, a[0])
    return ret(st, ("app", "parse:" + (T.show(tgt) if tgt else "?"), (v,), rt))


@model("CompactString::from_compact_string")
def _fcs(I, c, a, st, rt, site):
    return ret(st, ("app", "unpack:" + T.show(c[1]), (I.snap(st, a[0]),), rt))




@model("std::panicking::begin_panic", "core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt",
       "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::assert_failed")
def _panic(I, c, a, st, rt, site):
    return [Outcome("panic", st, None, ("panic", I.norm_name(c), site[0], site[1]))]


from . import itermodels  # noqa: E402,F401  (registers its transfer functions)
