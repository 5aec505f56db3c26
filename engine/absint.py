"""Path-sensitive abstract interpretation of MIR.

Domain: provenance tokens (where a value came from), constants, enum tags, tuples/structs of those, and
uninterpreted applications of library functions (value numbering).  Branch outcomes are facts over a finite set:
the tag of a value, a boolean, or the ordering {<,=,>} of two values.  Loops are cut: on entry everything the
loop may modify becomes an unknown token, the body is analysed for one arbitrary iteration, and the path ends
at the back edge.  Local callees and closures are inlined; library functions have transfer functions below or are
uninterpreted.  Nothing is executed and no solver is consulted.
"""
import re
from . import rtypes as T
from .mirparse import MirError

UNIT = ("adt", "tuple", None, ())
STD_ENUMS = {
    "Option": ["None", "Some"], "Result": ["Ok", "Err"], "ControlFlow": ["Continue", "Break"],
    "Ordering": ["Less", "Equal", "Greater"], "Cow": ["Borrowed", "Owned"], "Entry": ["Occupied", "Vacant"],
    "Bound": ["Included", "Excluded", "Unbounded"], "MaybeRef": ["Direct", "Indirect"],
}
FLIP = {"<": ">", ">": "<", "=": "="}


UNNAMED = frozenset(f"#{i}" for i in range(256))


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


def const(v, ty=None):
    return ("c", v, ty)


TRUE, FALSE = const(True, "bool"), const(False, "bool")


def mkbool(b):
    return TRUE if b else FALSE


def tok(*path, ty=None):
    return ("tok", tuple(path), ty)


def some(v):
    return ("adt", "Option", "Some", (v,))


NONE = ("adt", "Option", "None", ())


def ok(v):
    return ("adt", "Result", "Ok", (v,))


def err(v):
    return ("adt", "Result", "Err", (v,))


def app(op, *args, ty=None):
    return ("app", op, tuple(args), ty)


def key(v):
    """Identity of a value, ignoring type annotations."""
    k = v[0]
    if k == "tok":
        return ("tok", v[1])
    if k == "app":
        return ("app", v[1], tuple(key(a) for a in v[2]))
    if k == "adt":
        return ("adt", v[1], v[2], tuple(key(a) for a in v[3]))
    if k == "c":
        return ("c", v[1], type(v[1]).__name__)
    return v


def unkey(k, ty=None):
    """A value with the given key (types are not part of keys)."""
    if k[0] == "tok":
        return ("tok", k[1], ty)
    if k[0] == "app":
        return ("app", k[1], tuple(unkey(x) for x in k[2]), ty)
    if k[0] == "adt":
        return ("adt", k[1], k[2], tuple(unkey(x) for x in k[3]))
    if k[0] == "c":
        return const(k[1], ty)
    return k


def show(v, depth=0):
    if v is None:
        return "?"
    k = v[0]
    if depth > 6:
        return "…"
    if k == "tok":
        return ".".join(str(x) for x in v[1])
    if k == "c":
        return repr(v[1])
    if k == "adt":
        n = v[1] if v[2] is None else v[2]
        if v[1] == "tuple" and not v[3]:
            return "()"
        if not v[3]:
            return n
        return n + "(" + ", ".join(show(x, depth + 1) for x in v[3]) + ")"
    if k == "app":
        return v[1] + "(" + ", ".join(show(x, depth + 1) for x in v[2]) + ")"
    if k == "fn":
        return "fn " + v[1]
    if k == "ref":
        return f"&{v[1]}{v[2]}"
    return str(v)


class State:
    __slots__ = ("mem", "facts", "events", "trail")

    def __init__(self, mem=None, facts=None, events=(), trail=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events
        self.trail = trail

    def fork(self):
        return State(dict(self.mem), dict(self.facts), self.events, self.trail)

    def event(self, *e):
        self.events = self.events + (e,)


class Outcome:
    __slots__ = ("kind", "state", "ret", "info")

    def __init__(self, kind, state, ret=None, info=None):
        self.kind, self.state, self.ret, self.info = kind, state, ret, info

    def __repr__(self):
        return f"<{self.kind} {show(self.ret) if self.ret else ''}>"


class Interp:
    def __init__(self, prog, max_paths=20000, max_depth=24, opaque=(), inline=None, max_steps=2000000,
                 inline_cmp=False):
        self.p = prog
        self.owner_ty = {}                 # token path -> name of its type, where fields of it were taken
        self.opaque = set(opaque)          # printable names that are not inlined
        self.inline = inline               # optional predicate(FnInfo)
        self.max_paths, self.max_depth, self.max_steps = max_paths, max_depth, max_steps
        self.inline_cmp = inline_cmp       # inline hand-written comparison impls
        self.own_cmp = None                # name of the type whose own order or equality is analysed
        self.paths = 0
        self.steps = 0
        self.fresh_n = 0
        self.frame_n = 0
        self.stack = []
        self.unmodelled = set()
        self.inlined = set()
        self.loops_cache = {}
        self.hooks = {}                    # normalised callee name -> handler
        self.pre_hook = None
        self.const_cache = {}
        self.first_header = None
        self.tag = "A"                     # names the loop tokens of this run
        self.loop_leaf_cache = {}          # (stack, header, tag) -> leaves modified by the loop
        self.forced = {}                   # loop ordinal -> leaves that must be treated as modified
        self.loop_map = None               # run B: ordinal -> loop variables of run A
        self.loop_pair = None              # called with (ordinal, site, var) -> token to use, or None
        self.frame_mir = {}
        self.pos = {}                      # frame -> (mir, bb, seen): where the analysis is
        self.fstack = []
        self.elem_src = {}
        self.frames = {}
        self.arg_tys = {}
        self.acc_tys = {}
        self.clo_sub = {}
        self.fold_defs = {}
        self.fold_seen = {}
        self.loop_src = {}
        self.no_fold = False

    # ------------------------------------------------------------------ helpers
    def fresh(self, hint, ty=None):
        self.fresh_n += 1
        return ("tok", (f"{hint}#{self.fresh_n}",), ty)

    def variants_of(self, ty):
        if ty is None:
            return None
        t = T.parse(ty) if isinstance(ty, str) else ty
        while t[0] == "ref":
            t = t[2]
        if t[0] == "path":
            n = T.last(t[1])
            a = self.p.adts.get(n)
            if a is not None and a.kind == "enum":
                return [v[0] for v in a.variants]
            if n in STD_ENUMS:
                return STD_ENUMS[n]
            if n == "Box" and t[2]:
                return self.variants_of(t[2][0])
        return None

    def field_name(self, tyname, variant, i):
        a = self.p.adts.get(tyname)
        if a is None:
            return str(i)
        if variant is not None:
            for v in a.variants:
                if v[0] == variant and i < len(v[2]):
                    return v[2][i][0]
            return str(i)
        if i < len(a.fields):
            return a.fields[i][0]
        return str(i)

    @staticmethod
    def tyname(ty):
        if ty is None:
            return None
        t = T.parse(ty) if isinstance(ty, str) else ty
        while t[0] == "ref":
            t = t[2]
        if t[0] == "path":
            n = T.last(t[1])
            if n in ("Box", "Rc", "Arc") and t[2]:
                return Interp.tyname(t[2][0])
            return n
        return t[0]

    def adt_mk(self, name, variant, fields):
        return ("adt", name, variant, tuple(fields))

    # ------------------------------------------------------------------ facts
    def kc(self, st, v):
        """Canonical identity of v under the equalities assumed on this path."""
        m = st.facts.get(EQS)
        k = key(v)
        return kcanon(k, m) if m else k

    def get_variant(self, st, v):
        """The known tag of v, or None."""
        if v[0] == "adt":
            return v[2]
        s = st.facts.get(("var", self.kc(st, v)))
        if s is not None and len(s) == 1:
            return next(iter(s))
        return None

    def with_variant(self, st, v, name):
        """st with v's tag assumed to be name, or None if contradictory."""
        if v[0] == "adt":
            return st if v[2] == name else None
        k = ("var", self.kc(st, v))
        cur = st.facts.get(k)
        if cur is not None:
            if name not in cur:
                return None
            if len(cur) == 1:
                return st
        n = st.fork()
        n.facts[k] = frozenset([name])
        n.trail = n.trail + (("tag", v, name),)
        return n

    def without_variants(self, st, v, names, allv):
        c = v
        if c[0] == "app" and c[1] == "get" and c[2][0][0] == "app" and c[2][0][1] == "partial_cmp":
            c = c[2][0]
        if c[0] == "app" and c[1] in ("cmp", "partial_cmp") and all(n in ("Less", "Equal", "Greater") for n in names):
            out = {"Less": "<", "Equal": "=", "Greater": ">"}
            return self.assume_ord(st, c[2][0], c[2][1], "".join(x for x in "<=>" if x not in [out[n] for n in names]))
        k = ("var", self.kc(st, v))
        cur = st.facts.get(k)
        if cur is None:
            cur = frozenset(allv) if allv else None
        if cur is None and all(isinstance(n, str) and n.startswith("#") for n in names):
            cur = UNNAMED          # an enum of another crate: its variants are known by number only
        if cur is None:
            n = st.fork()
            n.trail = n.trail + (("nottag", v, tuple(sorted(map(str, names)))),)
            return n
        new = cur - frozenset(names)
        if not new:
            return None
        n = st.fork()
        n.facts[k] = new
        n.trail = n.trail + (("tag", v, next(iter(new))) if len(new) == 1 else ("nottag", v, tuple(sorted(map(str, names)))),)
        return n

    @staticmethod
    def _ordkey(ka, kb):
        if repr(ka) <= repr(kb):
            return ("ord", ka, kb), False
        return ("ord", kb, ka), True

    def orderings(self, st, a, b):
        """Possible orderings of a against b: subset of '<=>'"""
        ka, kb, mode = normpair(self.kc(st, a), self.kc(st, b))
        cur = self._orderings(st, ka, kb, a, b)
        if mode == "le":
            cur = frozenset((["<"] if cur & {"<", "="} else []) + ([">"] if ">" in cur else []))
        elif mode == "ge":
            cur = frozenset((["<"] if "<" in cur else []) + ([">"] if cur & {">", "="} else []))
        return cur

    def _orderings(self, st, ka, kb, a, b):
        if ka == kb:
            return frozenset("=")
        if ka[0] == "c" and kb[0] == "c" and ka[1] is not None and type(ka[1]) == type(kb[1]):
            return frozenset("<" if ka[1] < kb[1] else ">" if ka[1] > kb[1] else "=")
        la, lb = klin(ka), klin(kb)
        if la[0] == lb[0]:
            return frozenset("<" if la[1] < lb[1] else ">" if la[1] > lb[1] else "=")
        k, flip = self._ordkey(ka, kb)
        cur = st.facts.get(k, frozenset("<=>"))
        if flip:
            cur = frozenset(FLIP[x] for x in cur)
        # constants: check feasibility against the other constant bounds of the same term
        for x, xk, c, fl in ((a, ka, kb, False), (b, kb, ka, True)):
            if c[0] == "c" and isinstance(c[1], (int, float)) and not isinstance(c[1], bool) and xk[0] != "c":
                lo, hi, ne = self.kbounds(st, xk, x)
                ok_ = set()
                for o in cur:
                    oo = FLIP[o] if fl else o
                    if oo == "=" and (lo is None or lo <= c[1]) and (hi is None or c[1] <= hi) and c[1] not in ne:
                        ok_.add(o)
                    if oo == "<" and (lo is None or lo < c[1]):
                        ok_.add(o)
                    if oo == ">" and (hi is None or hi > c[1]):
                        ok_.add(o)
                cur = frozenset(ok_)
        if len(cur) > 1 and ka[0] != "c" and kb[0] != "c":
            cur = self._diff(st, ka, kb, cur)
        if len(cur) > 1 and ka[0] != "c" and kb[0] != "c":
            cur = self._trans(st, ka, kb, cur)
        return cur

    def _diff(self, st, ka, kb, cur):
        """Integer difference bounds between the two bases (only used when an offset is involved)."""
        (xa, da), (xb, db) = klin(ka), klin(kb)
        lo = hi = None
        ne = set()
        n = 0
        offs = da != db
        for k, s in st.facts.items():
            if k[0] != "ord":
                continue
            (y1, e1), (y2, e2) = klin(k[1]), klin(k[2])
            if (y1, y2) == (xa, xb):
                c = e2 - e1
            elif (y1, y2) == (xb, xa):
                c = -(e2 - e1)
                s = frozenset(FLIP[o] for o in s)
            else:
                continue
            offs = offs or c != 0
            n += 1
            # xa - xb  s  c
            if "<" not in s:
                v = c if "=" in s else c + 1
                lo = v if lo is None else max(lo, v)
            if ">" not in s:
                v = c if "=" in s else c - 1
                hi = v if hi is None else min(hi, v)
            if "=" not in s:
                ne.add(c)
        if not offs or not n:
            return cur
        while isinstance(lo, int) and lo in ne:
            lo += 1
        while isinstance(hi, int) and hi in ne:
            hi -= 1
        d = db - da         # ka vs kb  <=>  xa - xb vs d
        out = set()
        for o in cur:
            if o == "=" and (lo is None or lo <= d) and (hi is None or d <= hi) and d not in ne:
                out.add(o)
            if o == "<" and (lo is None or lo < d):
                out.add(o)
            if o == ">" and (hi is None or hi > d):
                out.add(o)
        return frozenset(out)

    def _trans(self, st, ka, kb, cur):
        """One step of transitivity through a third value, and disequality by differing tags."""
        va, vb = st.facts.get(("var", ka)), st.facts.get(("var", kb))
        if va is not None and vb is not None and not (va & vb):
            cur = cur - {"="}
            if va == frozenset(["None"]) and vb == frozenset(["Some"]):
                cur = cur & {"<"}
            if vb == frozenset(["None"]) and va == frozenset(["Some"]):
                cur = cur & {">"}
        rel = {}
        for k, s in st.facts.items():
            if k[0] != "ord":
                continue
            if k[1] in (ka, kb):
                rel.setdefault(k[2], {})[k[1]] = frozenset(FLIP[x] for x in s)
            if k[2] in (ka, kb):
                rel.setdefault(k[1], {})[k[2]] = s
        for mid, d in rel.items():
            if ka in d and kb in d and mid not in (ka, kb):
                # d[x]: ordering of mid against x
                am = frozenset(FLIP[x] for x in d[ka])      # a vs mid
                mb = d[kb]                                   # mid vs b
                if am <= {"<", "="} and mb <= {"<", "="}:
                    cur = cur - ({">"} if "=" in am and "=" in mb else {">", "="})
                if am <= {">", "="} and mb <= {">", "="}:
                    cur = cur - ({"<"} if "=" in am and "=" in mb else {"<", "="})
        return cur

    def bounds(self, st, x):
        """Integer interval of x implied by the ordering facts against constants."""
        kx = self.kc(st, x)
        if kx[0] == "c" and isinstance(kx[1], int):
            return kx[1], kx[1], set()
        base, f, d = kaff(kx)
        if base[0] == "c" and isinstance(base[1], int):
            return f * base[1] + d, f * base[1] + d, set()
        if f == 1 and d == 0:
            return self.kbounds(st, base, x)
        lo, hi, ne = self.kbounds(st, base, x)
        return (None if lo is None else f * lo + d, None if hi is None else f * hi + d, {f * n + d for n in ne})

    def kbounds(self, st, kx, x=None, twin=True):
        lo = hi = None
        ne = set()
        base, off = klin(kx)
        # the type of the innermost value
        while x is not None and x[0] == "app" and x[1] in ("widen", "lin", "mul"):
            nx = [y for y in x[2] if y[0] in ("tok", "app")]
            x = nx[0] if nx else None
        ty = None if x is None else x[2] if x[0] == "tok" else x[3] if x[0] == "app" else None
        if ty is not None and off == 0:
            t = T.show(ty) if not isinstance(ty, str) else ty
            m = re.fullmatch(r"u(8|16|32|64|size)", t)
            if m:
                lo = 0
                if m.group(1) in ("8", "16", "32"):
                    hi = (1 << int(m.group(1))) - 1
        if base[0] == "app" and base[1] == "count" and base[2][0][0] == "app" and base[2][0][1] == "iter:str_split":
            lo = 1 + off if lo is None else max(lo, 1 + off)
        if base[0] == "app" and base[1] == "len":
            lo = off if lo is None else max(lo, off)
        for k, s in st.facts.items():
            if k[0] != "ord":
                continue
            for me, other, flip in ((k[1], k[2], False), (k[2], k[1], True)):
                if other[0] == "c" and isinstance(other[1], (int, float)):
                    mb, mo = klin(me)
                    if mb != base:
                        continue
                    c = other[1] - mo + off
                    ss = frozenset(FLIP[o] for o in s) if flip else s
                    if "<" not in ss:
                        b = c if "=" in ss or isinstance(c, float) else c + 1
                        lo = b if lo is None else max(lo, b)
                    if ">" not in ss:
                        b = c if "=" in ss or isinstance(c, float) else c - 1
                        hi = b if hi is None else min(hi, b)
                    if "=" not in ss:
                        ne.add(c)
        while isinstance(lo, int) and lo in ne:
            lo += 1
        while isinstance(hi, int) and hi in ne:
            hi -= 1
        # a text has no characters exactly when it has no bytes, and never more characters than bytes
        if twin and off == 0 and base[0] == "app" and base[1] in ("nchars", "len") and len(base[2]) == 1:
            other = ("app", "len" if base[1] == "nchars" else "nchars", base[2])
            same = (st.facts.get(EQS) or {}).get(other)
            if same is not None and same[0] == "c" and isinstance(same[1], int):
                tl = th = same[1]
            else:
                tl, th, _ = self.kbounds(st, other, twin=False)
            if base[1] == "nchars":
                lo = max(lo or 0, 1) if tl is not None and tl >= 1 else lo
                hi = th if th is not None and (hi is None or th < hi) else hi
            else:
                lo = max(lo or 0, tl) if tl is not None else lo
                hi = 0 if th == 0 else hi
        return lo, hi, ne

    def assume_ord(self, st, a, b, allowed):
        """Restrict ordering of a vs b to allowed; None if impossible."""
        cur = self.orderings(st, a, b)
        new = cur & frozenset(allowed)
        if not new:
            return None
        if new == cur:
            return st
        n = st.fork()
        ka, kb, mode = normpair(self.kc(st, a), self.kc(st, b))
        n.trail = n.trail + (("ord", a, b, "".join(sorted(new))),)
        if mode == "le":
            new = frozenset((["<", "="] if "<" in new else []) + ([">"] if ">" in new else []))
        elif mode == "ge":
            new = frozenset(([">", "="] if ">" in new else []) + (["<"] if "<" in new else []))
        new = new & self._orderings(st, ka, kb, a, b)
        if not new:
            return None
        for x, y in ((ka, kb), (kb, ka)):
            if x[0] == "app" and x[1] == "wrapped_sub" and y[0] == "c" and y[1] == 1 and new == frozenset("="):
                # a - b + 2^w = 1 only for a = 0, b = 2^w - 1
                w = x[2][2][1]
                n2 = self._merge(n, x[2][0], ("c", 0, "int"))
                return self._merge(n2, x[2][1], ("c", (1 << w) - 1, "int")) if n2 is not None else None
        if new == frozenset("="):
            return self._merge(n, ka, kb)
        k, flip = self._ordkey(ka, kb)
        n.facts[k] = frozenset(FLIP[x] for x in new) if flip else new
        return n

    def _merge(self, n, ka, kb):
        """Union the classes of ka and kb in state n (already forked)."""
        rank = lambda k: (0 if k[0] == "c" else 1 if k[0] == "adt" else 2, len(repr(k)), repr(k))
        ka, kb = kcanon(ka, n.facts.get(EQS) or {}), kcanon(kb, n.facts.get(EQS) or {})
        if ka == kb:
            return n
        (xa, da), (xb, db) = klin(ka), klin(kb)
        if (da or db) and xa != xb:
            # keep offsets on the representative's side
            if rank(xa) <= rank(xb):
                ka, kb = klmk(xa, da - db), xb
            else:
                ka, kb = klmk(xb, db - da), xa
            rep, old = ka, kb
        else:
            rep, old = (ka, kb) if rank(ka) <= rank(kb) else (kb, ka)
        if rep[0] in ("c", "adt") and old[0] in ("c", "adt") and rep[0] == "c" and old[0] == "c":
            return None
        m = dict(n.facts.get(EQS) or {})
        one = {old: rep}
        for k in list(m):
            m[k] = kcanon(m[k], one)
        m[old] = rep
        facts = {EQS: m}
        for k, s in n.facts.items():
            if k == EQS:
                continue
            if k[0] == "ord":
                x, y = kcanon(k[1], m), kcanon(k[2], m)
                if (x, y) != (k[1], k[2]):
                    x, y, mode = normpair(x, y)
                    if mode is not None:
                        continue
                    if x == y:
                        if "=" not in s:
                            return None
                        continue
                    if x[0] == "c" and y[0] == "c" and type(x[1]) == type(y[1]):
                        o = "<" if x[1] < y[1] else ">" if x[1] > y[1] else "="
                        if o not in s:
                            return None
                        continue
                    nk, fl = self._ordkey(x, y)
                    s = frozenset(FLIP[o] for o in s) if fl else s
                    k = nk
                if k in facts:
                    s = s & facts[k]
                    if not s:
                        return None
                facts[k] = s
            elif k[0] in ("var", "bool"):
                nk = (k[0], kcanon(k[1], m))
                if k[0] == "var" and nk[1][0] == "adt":
                    if nk[1][2] not in s:
                        return None
                    continue
                if nk in facts:
                    if k[0] == "var":
                        s = s & facts[nk]
                        if not s:
                            return None
                    elif facts[nk] != s:
                        return None
                facts[nk] = s
            else:
                facts[k] = s
        n.facts = facts
        return n

    def branch_bool(self, st, v):
        """[(state, bool)]"""
        if v[0] == "c":
            return [(st, bool(v[1]))]
        if v[0] == "app":
            op, a = v[1], v[2]
            if op == "not":
                return [(s, not b) for s, b in self.branch_bool(st, a[0])]
            if op in ("eq", "ne") and all(x[0] == "app" and x[1] == "discr" for x in a):
                r = self.branch_same_tag(st, a[0], a[1])
                if r is not None:
                    return [(s, b == (op == "eq")) for s, b in r]
            if op in ("eq", "ne", "lt", "le", "gt", "ge"):
                allowed = {"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[op]
                out = []
                t = self.assume_ord(st, a[0], a[1], allowed)
                f = self.assume_ord(st, a[0], a[1], "".join(x for x in "<=>" if x not in allowed))
                if t is not None:
                    out.append((t, True))
                if f is not None:
                    out.append((f, False))
                return out
            if op == "is_variant":
                return self.branch_variant(st, a[0], a[1][1])
            if op in ("and", "or"):
                out = []
                for s, b in self.branch_bool(st, a[0]):
                    if (op == "and") == b:
                        out += self.branch_bool(s, a[1])
                    else:
                        out.append((s, b))
                return out
            if op == "overflow:Sub" and is_unsigned(a[0], a[1]):
                out = []
                for allowed, r in (("<", True), ("=>", False)):
                    t = self.assume_ord(st, a[0], a[1], allowed)
                    if t is not None:
                        out.append((t, r))
                return out
            if op == "overflow:Sub" and any(tytext(x) in ("i64", "isize", "i128") for x in a):
                return [(st, False)]
            if op == "overflow:Add" and any(tytext(x) in ("i32", "u32") for x in a) and any(
                    x[0] == "c" and isinstance(x[1], int) and abs(x[1]) < 1 << 16 for x in a):
                return [(st, False)]     # 32-bit counters
            if op in ("overflow:Add", "overflow:Mul") and (is_wide(a[0]) or is_wide(a[1])):
                return [(st, False)]     # usize sums of in-memory sizes; documented assumption
            if op in ("overflow:Add", "overflow:Mul") and is_unsigned(a[0], a[1]):
                la, lb = self.hi_of(st, a[0]), self.hi_of(st, a[1])
                w = width(a[0]) or width(a[1])
                if la is not None and lb is not None and w and (la + lb if op == "overflow:Add" else la * lb) < (1 << w):
                    return [(st, False)]
        k = ("bool", self.kc(st, v))
        if k in st.facts:
            return [(st, st.facts[k])]
        t, f = st.fork(), st.fork()
        t.facts[k], f.facts[k] = True, False
        t.trail = t.trail + (("bool", v, True),)
        f.trail = f.trail + (("bool", v, False),)
        return [(t, True), (f, False)]

    def branch_same_tag(self, st, da, db):
        x, y = (d[2][0] if d[2][0][0] != "tag" else d[2][0][1] for d in (da, db))
        names = self.variants_of(da[2][1][1])
        if names is None:
            return None
        out = []
        for n in names:
            s = self.assume_tag(st, x, n)
            if s is None:
                continue
            for s2, b in self.branch_variant(s, y, n, names):
                out.append((s2, b))
        return out

    def hi_of(self, st, v):
        if v[0] == "c":
            return v[1]
        return self.bounds(st, v)[1]

    def branch_variant(self, st, v, name, allv=None):
        """[(state, v has tag name)]"""
        cur = self.get_variant(st, v)
        if cur is not None:
            return [(st, cur == name)]
        out = []
        if v[0] == "app" and v[1] == "cmp" and name in ("Less", "Equal", "Greater"):
            o = {"Less": "<", "Equal": "=", "Greater": ">"}[name]
            t = self.assume_ord(st, v[2][0], v[2][1], o)
            f = self.assume_ord(st, v[2][0], v[2][1], "".join(c for c in "<=>" if c != o))
            return ([(t, True)] if t is not None else []) + ([(f, False)] if f is not None else [])
        allv = allv or self.variants_of(v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None)
        if allv is None:
            for e in STD_ENUMS.values():
                if name in e:
                    allv = e
        t = self.with_variant(st, v, name)
        if t is not None:
            out.append((t, True))
        f = self.without_variants(st, v, [name], allv)
        if f is not None:
            out.append((f, False))
        return out

    def payload(self, st, v, variant, i=0, ty=None):
        """Field i of v seen as variant."""
        if v[0] == "adt":
            return v[3][i]
        return self.project(v, ("variant", variant), ("field", i, ty))

    # ------------------------------------------------------------------ memory
    def project(self, v, *projs):
        for n, pr in enumerate(projs):
            v = self._project1(v, pr)
        return v

    def _project1(self, v, pr):
        k = pr[0]
        if k == "deref":
            if v[0] in ("tok", "app"):
                ty = v[2] if v[0] == "tok" else v[3]
                if ty is not None:
                    t = T.parse(ty) if isinstance(ty, str) else ty
                    if t[0] == "ref":
                        ty = t[2]
                    elif t[0] == "path" and T.last(t[1]) in ("Box", "Rc") and t[2]:
                        ty = t[2][0]
                return ("tok", v[1], ty) if v[0] == "tok" else ("app", v[1], v[2], ty)
            return v
        if k == "variant":
            if v[0] == "adt":
                return v
            return ("tag", v, pr[1])
        if k == "field":
            i, ty = pr[1], pr[2]
            if ty is None:
                ty = self.infer_field_ty(v, i)
            if v[0] == "tag":
                base, variant = v[1], v[2]
                bty = base[2] if base[0] == "tok" else base[3] if base[0] == "app" else None
                nm = self.field_name(self.tyname(bty), variant, i)
                tag = variant if nm == "0" or nm.isdigit() and len(nm) == 1 and nm == "0" else f"{variant}.{nm}"
                if base[0] == "tok":
                    return ("tok", base[1] + (tag,), ty)
                return ("app", "get", (base, const(tag)), ty)
            if v[0] == "adt":
                if i < len(v[3]):
                    return v[3][i]
                return ("tok", ("uninit",), ty)
            if v[0] == "tok":
                tn = self.tyname(v[2])
                nm = self.field_name(tn, None, i)
                self.owner_ty[v[1]] = tn
                return ("tok", v[1] + (nm,), ty)
            if v[0] == "app":
                if v[1] == "checked" and i == 0:
                    return v[2][0]
                if v[1] == "checked" and i == 1:
                    return v[2][1]
                nm = self.field_name(self.tyname(v[3]), None, i)
                return ("app", "get", (v, const(nm)), ty)
            return ("app", "get", (v, const(str(i))), ty)
        if k in ("index", "cindex", "subslice"):
            if k == "cindex" and v[0] == "adt" and v[1] == "array":
                i = pr[1] if not pr[2] else len(v[3]) - pr[1]
                return v[3][i]
            if k == "cindex" and v[0] in ("tok", "app"):
                from .itermodels import index_value
                return index_value(self, v, ("c", -pr[1] if pr[2] else pr[1], "int"))
            return ("app", "elem", (v, const(str(pr[1:]))), None)
        raise Unsupported(str(pr))

    def infer_field_ty(self, v, i):
        variant = None
        if v[0] == "tag":
            variant, v = v[2], v[1]
        ty = v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None
        if ty is None:
            return None
        t = T.parse(ty) if isinstance(ty, str) else ty
        t = self.p.expand(t)
        while t[0] == "ref":
            t = t[2]
        if t[0] == "tuple" and variant is None and i < len(t[1]):
            return t[1][i]
        if t[0] != "path":
            return None
        n = T.last(t[1])
        if n in ("Option", "Result") and variant is not None:
            j = 1 if variant == "Err" else 0
            return t[2][j] if j < len(t[2]) else None
        a = self.p.adts.get(n)
        if a is None:
            return None
        try:
            if variant is not None:
                ft = T.parse(next(x for x in a.variants if x[0] == variant)[2][i][1])
            else:
                ft = T.parse(a.fields[i][1])
        except Exception:
            return None
        if a.generics and len(a.generics) == len(t[2]):
            ft = T.subst(ft, dict(zip(a.generics, t[2])))
        return self.p.expand(ft)

    def loc(self, st, fr, place):
        """place -> (cell, projs) with derefs of known references followed."""
        _, l, projs = place
        cell, path = (fr, l), ()
        for pr in projs:
            if pr[0] == "deref":
                v = self.read_loc(st, (cell, path))
                if v[0] == "ref":
                    cell, path = v[1], v[2]
                    continue
                if v[0] in ("tok", "app", "adt", "tag"):
                    if v[0] in ("adt",):
                        # Box/Rc modelled as its content
                        path = path + (pr,)
                        continue
                    cell, path = ("*", key(v)), ()
                    if cell not in st.mem:
                        st.mem[cell] = self._project1(v, pr)
                    continue
                path = path + (pr,)
            elif pr[0] == "index":
                iv = self.read_loc(st, ((fr, pr[1]), ()))
                path = path + (("index", key(iv)),)
            elif pr[0] == "field":
                path = path + (("field", pr[1], self.sub(fr, pr[2])),)
            else:
                path = path + (pr,)
        return cell, path

    def read_loc(self, st, loc):
        cell, path = loc
        v = st.mem.get(cell)
        if v is None:
            v = ("tok", ("uninit", str(cell)), None)
        for pr in path:
            if pr[0] == "deref" and v[0] == "ref":
                v = self.read_loc(st, (v[1], v[2]))
                continue
            if pr[0] == "index":
                from .itermodels import index_value
                while v[0] == "ref":
                    v = self.read_loc(st, (v[1], v[2]))
                v = index_value(self, v, pr[1])
                continue
            if v[0] == "ref" and v[1][0] == "box" and not v[2] and pr[0] == "field" and \
                    (pr[2][0] == "ptr" or re.search(r"'(std|core)::ptr::", str(pr[2][:2]))):
                continue            # the pointer inside the box
            if v[0] == "ref" and pr[0] in ("field", "variant"):
                v = self.read_loc(st, (v[1], v[2]))
            v = self._project1(v, pr)
        return v

    def write_loc(self, st, loc, val):
        cell, path = loc
        if not path:
            st.mem[cell] = val
            return
        old = st.mem.get(cell, ("tok", ("uninit", str(cell)), None))
        st.mem[cell] = self._set(st, old, path, val)

    def _set(self, st, old, path, val):
        if not path:
            return val
        pr, rest = path[0], path[1:]
        if pr[0] == "deref":
            if old[0] == "ref":
                self.write_loc(st, (old[1], old[2] + rest), val)
                return old
            return self._set(st, old, rest, val)
        if pr[0] == "variant":
            return self._set_variant(st, old, pr[1], rest, val)
        if pr[0] == "field":
            if old[0] == "adt":
                fs = list(old[3])
                while len(fs) <= pr[1]:
                    fs.append(("tok", ("uninit",), None))
                fs[pr[1]] = self._set(st, fs[pr[1]], rest, val)
                return ("adt", old[1], old[2], tuple(fs))
            ty = old[2] if old[0] == "tok" else old[3] if old[0] == "app" else None
            name = self.tyname(ty)
            a = self.p.adts.get(name)
            if a is not None and a.kind == "struct":
                fs = [self._project1(old, ("field", i, self.adt_field_ty(a, i, ty))) for i in range(len(a.fields))]
                fs[pr[1]] = self._set(st, fs[pr[1]], rest, val)
                return ("adt", name, None, tuple(fs))
            t = T.parse(ty) if isinstance(ty, str) else ty
            if t is not None and t[0] == "tuple":
                fs = [self._project1(old, ("field", i, t[1][i])) for i in range(len(t[1]))]
                fs[pr[1]] = self._set(st, fs[pr[1]], rest, val)
                return ("adt", "tuple", None, tuple(fs))
            return ("app", "updf", (old, const(str(pr[1])), self._set(st, self._project1(old, pr), rest, val)), ty)
        if pr[0] == "index":
            from .itermodels import index_value, elem_type
            ki = pr[1]
            while old[0] == "ref":
                old = self.read_loc(st, (old[1], old[2]))
            el = index_value(self, old, ki)
            nw = self._set(st, el, rest, val)
            if key(nw) == key(el):
                return old
            return self.update(old, ki, nw)
        return ("app", "updx", (old, const(str(pr)), val), None)

    def update(self, v, ki, x):
        """v with the element at index key ki replaced by x"""
        if v[0] == "adt" and v[1] == "array" and ki[0] == "c" and -len(v[3]) <= ki[1] < len(v[3]):
            fs = list(v[3])
            fs[ki[1]] = x
            return ("adt", "array", None, tuple(fs))
        if v[0] == "app" and v[1] == "push" and ki[0] == "c" and ki[1] == -1:
            return ("app", "push", (v[2][0], x), v[3])
        if v[0] == "app" and v[1] == "upd" and v[2][1] == ("k", ki):
            v = v[2][0]
        return ("app", "upd", (v, ("k", ki), x), v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None)

    def _set_variant(self, st, old, variant, rest, val):
        if old[0] == "adt":
            return self._set(st, old, rest, val)
        ty = old[2] if old[0] == "tok" else old[3] if old[0] == "app" else None
        a = self.p.adts.get(self.tyname(ty))
        n = 1
        if a is not None:
            for v in a.variants:
                if v[0] == variant:
                    n = len(v[2])
        fs = [self._project1(("tag", old, variant), ("field", i, None)) for i in range(n)]
        new = ("adt", self.tyname(ty) or "?", variant, tuple(fs))
        return self._set(st, new, rest, val)

    def adt_field_ty(self, a, i, ty):
        try:
            ft = T.parse(a.fields[i][1])
        except Exception:
            return None
        t = T.parse(ty) if isinstance(ty, str) else ty
        while t is not None and t[0] == "ref":
            t = t[2]
        if t is not None and t[0] == "path" and a.generics and len(a.generics) == len(t[2]):
            ft = T.subst(ft, dict(zip(a.generics, t[2])))
        return ft

    def snap(self, st, v, depth=0):
        """Value with references replaced by what they point at."""
        if depth > 8:
            return v
        if v[0] == "ref":
            return self.snap(st, self.read_loc(st, (v[1], v[2])), depth + 1)
        if v[0] == "adt" and v[3]:
            return ("adt", v[1], v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]))
        if v[0] == "app" and v[2]:
            if any(self._has_ref(x) for x in v[2]):
                return ("app", v[1], tuple(self.snap(st, x, depth + 1) if x[0] != "k" else x for x in v[2]), v[3])
            return v
        return v

    def _has_ref(self, v):
        if v[0] == "ref":
            return True
        if v[0] == "adt":
            return any(self._has_ref(x) for x in v[3])
        if v[0] == "app":
            return any(self._has_ref(x) for x in v[2] if x[0] != "k")
        return False

    # ------------------------------------------------------------------ frames
    def sub(self, fr, ty):
        m = self.frames.get(fr)
        t = T.parse(ty) if isinstance(ty, str) else ty
        if m:
            t = T.subst(t, m)
        return t

    def local_ty(self, fr, mir, l):
        return self.sub(fr, mir.locals.get(l, mir.ret if l == 0 else "?"))

    # ------------------------------------------------------------------ loops
    def loops(self, mir):
        k = id(mir)
        if k not in self.loops_cache:
            from . import cfg
            self.loops_cache[k] = cfg.loop_headers(mir)
        return self.loops_cache[k]

    # ------------------------------------------------------------------ entry
    def analyse(self, info, args, st=None, sub=None):
        """Abstract outcomes of info called with abstract args."""
        self.frames = getattr(self, "frames", {})
        st = st or State()
        return self.run(info, args, st, sub or {})

    def run(self, info, args, st, sub):
        mir = info.mir
        if len(self.stack) >= self.max_depth:
            raise Unsupported("depth")
        self.frame_n += 1
        fr = self.frame_n
        self.frames[fr] = sub
        self.frame_mir[fr] = mir
        self.stack.append(info.qual)
        self.fstack.append(fr)
        try:
            for (l, ty), v in zip(mir.params, args):
                st.mem[(fr, l)] = self.typed(fr, st, v, ty)
            return self._walk(info, mir, fr, st)
        finally:
            self.stack.pop()
            self.fstack.pop()
            self.pos.pop(fr, None)

    def typed(self, fr, st, v, ty):
        """v with the type its parameter declares, when nothing better is known."""
        if v[0] == "tok" and v[2] is None or v[0] == "app" and v[3] is None:
            t = self.sub(fr, T.parse(ty))
            return v[:-1] + (t,)
        if v[0] == "ref":
            x = st.mem.get(v[1])
            if not v[2] and x is not None and (x[0] == "tok" and x[2] is None or x[0] == "app" and x[3] is None):
                t = self.sub(fr, T.parse(ty))
                if t[0] == "ref":
                    st.mem[v[1]] = x[:-1] + (t[2],)
        return v

    def qual_of(self, fr):
        return self.stack[self.fstack.index(fr)] if fr in self.fstack else "?"

    @staticmethod
    def loop_ordinal(st):
        return 1 + sum(1 for e in st.events if e[0] == "loop")

    def _walk(self, info, mir, fr, st, start=0, seen0=None, body=None):
        headers = self.loops(mir)
        work = [(start, st, seen0 or {})]
        outs = []
        while work:
            bb, s, seen = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("steps")
                if body is not None and bb not in body:
                    outs.append(Outcome("exit", s, None, bb))
                    break
                if bb in headers:
                    if bb in seen and self.first_header == (fr, bb):
                        self.first_header = None
                    elif bb in seen:
                        outs.append(self._end("iter", s, None, (info.qual, bb, seen[bb]), fr))
                        break
                    else:
                        s, lid = self.enter_loop(info, mir, fr, s, bb, headers[bb], seen)
                        seen = {**seen, bb: lid}
                self.pos[fr] = (mir, bb, seen)
                blk = mir.blocks[bb]
                try:
                    for stm in blk.stmts:
                        self.stmt(mir, fr, s, stm)
                except MirError as e:
                    raise Unsupported(str(e))
                term = blk.term
                k = term[0]
                if k == "goto":
                    bb = term[1]
                    continue
                if k == "return":
                    outs.append(self._end("return", s, s.mem.get((fr, 0), UNIT), None, fr))
                    break
                if k in ("unreachable",):
                    break
                if k in ("resume", "terminate"):
                    break
                if k == "drop":
                    bb = term[2]["return"]
                    continue
                if k == "assert" and "misaligned pointer" in str(term[3]):
                    # inserted by the compiler around its own dereferences; only unsafe code can fail it
                    bb = term[5]["success"]
                    continue
                if k == "assert":
                    v = self.operand(mir, fr, s, term[1])
                    res = self.branch_bool(s, v)
                    nxt = None
                    for s2, b in res:
                        if b == term[2]:
                            nxt = s2
                        else:
                            outs.append(self._end("panic", s2, None, ("assert", term[3], info.qual, term[-1]), fr))
                    if nxt is None:
                        break
                    s, bb = nxt, term[5]["success"]
                    continue
                if k == "switch":
                    opts = self.switch(mir, fr, s, term)
                    if not opts:
                        break
                    for s2, t in opts[1:]:
                        self.paths += 1
                        work.append((t, s2, seen))
                    if self.paths > self.max_paths:
                        raise Budget("paths")
                    s, bb = opts[0]
                    continue
                if k == "call":
                    res = self.call_term(info, mir, fr, s, term)
                    cont = []
                    for o in res:
                        if o.kind == "return":
                            t = term[4].get("return")
                            if t is None:
                                outs.append(self._end("panic", o.state, None, ("diverge", term[2][1], info.qual, term[-1]), fr))
                                continue
                            self.write_loc(o.state, self.loc(o.state, fr, term[1]), o.ret)
                            cont.append((t, o.state))
                        else:
                            outs.append(o)
                    if not cont:
                        break
                    for t, s2 in cont[1:]:
                        self.paths += 1
                        work.append((t, s2, seen))
                    if self.paths > self.max_paths:
                        raise Budget("paths")
                    bb, s = cont[0]
                    continue
                raise Unsupported(k)
        return outs

    def _end(self, kind, s, ret, info, fr):
        if ret is not None and self._ref_into(ret, fr):
            ret = self.snap(s, ret)
        if kind in ("return",):
            for c in [c for c in s.mem if c[0] == fr]:
                del s.mem[c]
        return Outcome(kind, s, ret, info)

    def _ref_into(self, v, fr):
        if v[0] == "ref":
            return v[1][0] == fr
        if v[0] == "adt":
            return any(self._ref_into(x, fr) for x in v[3])
        if v[0] == "app":
            return any(self._ref_into(x, fr) for x in v[2] if x[0] != "k")
        return False

    # Loops are cut at the header.  What the body may modify is found by running the body itself: starting from
    # nothing, every leaf that differs at the back edge becomes an unknown token, until no further leaf changes.
    def enter_loop(self, info, mir, fr, s, bb, body, seen):
        def full(st, label):
            save = dict(self.pos)
            outs = self._walk_body(info, mir, fr, st, bb, {**seen, bb: label}, body)
            self.pos = save
            return [(o, "back" if o.kind == "iter" and o.info == (info.qual, bb, label) else o.kind) for o in outs]
        f = self.fold_loop(s, (info.qual, bb), full)
        if f is not None:
            return f
        lid = self.loop_ordinal(s)

        def run(st):
            save = dict(self.pos)
            # start inside the loop: the header itself is marked as seen only after its first visit
            outs = self._walk_body(info, mir, fr, st, bb, {**seen, bb: lid}, body)
            self.pos = save
            return [o.state for o in outs if o.kind == "iter" and o.info[1:] == (bb, lid) and o.info[0] == info.qual]
        s = s.fork()
        lvars = self.cut_loop(s, lid, (info.qual, bb), run)
        return s, lid

    def _walk_body(self, info, mir, fr, st, bb, seen, body):
        """One arbitrary iteration: from the header to the back edge; paths that leave the loop are discarded."""
        st.event("sloop" if isinstance(seen[bb], str) else "loop", seen[bb], None, ())
        self.first_header = (fr, bb)
        return self._walk(info, mir, fr, st, bb, seen, body)

    def fold_loop(self, s, site, full):
        """(state after the loop, label) when the loop only computes, else None.
        full(state, label) -> [(outcome, "back" | kind)] of one arbitrary iteration."""
        from . import folds
        if self.no_fold:
            return None
        label = f"s{self.tag}{sum(1 for e in s.events if e[0] == 'sloop')}"
        ck = (tuple(self.stack), site, self.tag, "fold")
        if self.loop_leaf_cache.get(ck) == "no":
            return None
        H = set()
        try:
            for _ in range(8):
                t = s.fork()
                toks = {}
                for cell, path in sorted(H, key=repr):
                    old = self.read_loc(s, (cell, path))
                    ty = self.leaf_ty(s, cell, path)
                    if ty is None:
                        ty = old[2] if old[0] == "tok" else old[3] if old[0] == "app" else \
                            (T.parse(old[2]) if old[2] else None) if old[0] == "c" and isinstance(old[2], (str, type(None))) else None
                    toks[(cell, path)] = ("tok", ("acc:" + label, self.leaf_name(cell, path)), ty)
                    self.write_loc(t, (cell, path), toks[(cell, path)])
                r = full(t.fork(), label)
                if not self.foldable(t, r, label):
                    self.loop_leaf_cache[ck] = "no"
                    return None
                new = set()
                for o, k in r:
                    if k == "back":
                        self.changed(t, o.state, H, new)
                new = {h for h in new if not any(self.covers(x, h) for x in H)}
                if not new:
                    break
                H |= new
                H = {h for h in H if not any(x != h and self.covers(x, h) for x in H)}
            else:
                return None
        except Unsupported:
            self.loop_leaf_cache[ck] = "no"
            return None
        src = self.loop_src.get(label)
        if src is None:
            return None
        leaves, elementwise = [], set()
        for loc, tk in toks.items():
            ew = any(e[0] == "elem" and l == loc for e, l in self.elem_src.items() if e[2] == label)
            touched = any(c[0] == "*" and c[1][0] == "tok" and c[1][1][:1] == ("elem",) and c[1][1][2] == label
                          and self.elem_src.get(c[1][1][:3]) == loc and key(v) != c[1]
                          for o, k in r if k == "back" for c, v in o.state.mem.items())
            if ew and touched:
                elementwise.add(loc)
            leaves.append((loc, ("adt", "array", None, ()) if loc in elementwise else self.snap(s, self.read_loc(s, loc)), tk, tk[2]))
        results = []
        common = None
        for o, k in r:
            if k != "back":
                continue
            tr = [e for e in o.state.trail[len(s.trail):] if not self.loop_fact(e, src)]
            nv = {}
            for loc, _, tk, ty in leaves:
                v = self.read_loc(o.state, loc)
                if loc in elementwise:
                    if key(v) != key(tk):
                        return None
                    el = ("tok", ("elem", key(src), label), None)
                    nw = [w for c, w in o.state.mem.items() if c[0] == "*" and c[1][0] == "tok" and c[1][1] == el[1]]
                    v = ("app", "push", (tk, self.snap(o.state, nw[0]) if nw else el), ty)
                nv[loc] = self.snap(o.state, v)
            results.append((tr, nv))
            ks = {folds.ekey(e) for e in tr}
            common = ks if common is None else common & ks
        results = [([e for e in tr if folds.ekey(e) not in common], nv) for tr, nv in results]
        if not results:
            return None
        final = folds.summarise(self, s, src, label, leaves, results)
        n = s.fork()
        for loc, v in final.items():
            self.write_loc(n, loc, v)
        n.facts[("over", label)] = True
        n.event("sloop", label, None if final else "idle")
        return n, label

    def loop_fact(self, e, src):
        if e[0] == "bool" and e[1][0] == "app" and e[1][1] == "more":
            return True
        return e[0] == "ord" and e[2][0] == "c" and e[2][1] == 0 and key(e[1]) == key(self.length(src))

    def foldable(self, t, r, label):
        n0 = len(t.events)
        for o, k in r:
            ev = o.state.events[n0:] if k in ("back", "exit") else ()
            if k == "back":
                if sum(1 for e in ev if e[0] == "advance" and e[1] == label) != 1:
                    return False
            elif k == "exit":
                if not any(e[0] == "exhausted" and e[1] == label for e in ev) or \
                        len(o.state.trail) > len(t.trail) and any(not self.loop_fact(e, self.loop_src.get(label) or UNIT)
                                                                  for e in o.state.trail[len(t.trail):]):
                    return False
            else:
                return False
            if any(e[0] in ("write", "loop") or e[0] == "call" and e[5] for e in ev):
                return False
        return any(k == "back" for _, k in r)

    def cut_loop(self, s, lid, site, run):
        """Havoc in s what run(state) -> states-at-back-edge modifies; records the loop event."""
        ck = (tuple(self.stack), site, self.tag)
        H = {h if h[0][0] != "fr" else ((self.fstack[h[0][1]],) + h[0][2:], h[1]) for h in self.loop_leaf_cache.get(ck, ())
             if h[0][0] != "fr" or h[0][1] < len(self.fstack)}
        H |= set(self.forced.get((self.tag, lid), ()))
        H = {h for h in H if self.exists(s, h)}
        base = self.forget_loop(s, lid)
        for _ in range(12):
            t = base.fork()
            self.havoc(t, H, lid, site, probe=True)
            new = set()
            for e in run(t.fork()):
                self.changed(t, e, H, new)
            new = {h for h in new if not any(self.covers(x, h) for x in H)}
            if not new:
                break
            H |= new
            H = {h for h in H if not any(x != h and self.covers(x, h) for x in H)}
        else:
            raise Unsupported("loop fixpoint")
        # frames by their place on the stack: the same in every analysis of the function
        self.loop_leaf_cache[ck] = {h if not isinstance(h[0][0], int) else (("fr", self.fstack.index(h[0][0])) + h[0][1:], h[1])
                                    for h in H if not isinstance(h[0][0], int) or h[0][0] in self.fstack}
        lv = self.havoc(s, H, lid, site)
        s.event("loop", lid, site, lv)
        return lv

    @staticmethod
    def forget_loop(s, lid):
        """s without what is assumed about one particular iteration of loop lid."""
        names = (f"loop:A:{lid}", f"loop:B:{lid}")

        def about(k):
            if isinstance(k, tuple):
                if len(k) >= 3 and k[0] == "elem" and k[2] == lid:
                    return True
                if len(k) >= 3 and k[0] == "app" and k[1] == "more" and k[2][1] == ("k", lid):
                    return True
                return any(about(x) for x in k)
            return k in names if isinstance(k, str) else False
        n = s.fork()
        n.facts = {}
        for k, v in s.facts.items():
            if k == EQS:
                m = {a: b for a, b in v.items() if not about(a) and not about(b)}
                if m:
                    n.facts[k] = m
            elif not about(k):
                n.facts[k] = v
        return n

    def exists(self, s, h):
        return h[0] in s.mem

    @staticmethod
    def covers(a, b):
        return a[0] == b[0] and len(a[1]) <= len(b[1]) and _pk(a[1]) == _pk(b[1][:len(a[1])])

    def changed(self, before, after, H, out):
        for cell, old in before.mem.items():
            new = after.mem.get(cell)
            if new is None or new is old or new == old:
                continue
            if isinstance(cell[0], int) and cell[0] not in self.fstack:
                continue
            if cell[0] in ("tmp", "clo"):
                pass
            self._diff_leaves(old, new, (), lambda path: out.add((cell, path)))
        # writes through a mutable iterator modify the collection
        for cell, new in after.mem.items():
            if cell[0] == "*" and cell[1][0] == "tok" and cell[1][1] and cell[1][1][0] == "elem":
                src = self.elem_src.get(cell[1][1][:3])
                if src is not None and src[0] in before.mem and key(new) != cell[1]:
                    out.add(src)

    def _diff_leaves(self, old, new, path, add, depth=0):
        if old == new or (old[0] != "ref" and new[0] != "ref" and key(old) == key(new)):
            return
        if new[0] == "adt" and new[1] not in ("array",) and not str(new[1]).startswith("closure") and depth < 6:
            if old[0] == "adt" and old[1] == new[1] and old[2] == new[2] and len(old[3]) == len(new[3]):
                pre = path + ((("variant", new[2]),) if new[2] is not None else ())
                for i, (x, y) in enumerate(zip(old[3], new[3])):
                    self._diff_leaves(x, y, pre + (("field", i, None),), add, depth + 1)
                return
            if old[0] in ("tok", "app") and new[2] is None and new[3]:
                for i, y in enumerate(new[3]):
                    self._diff_leaves(self._project1(old, ("field", i, None)), y, path + (("field", i, None),), add, depth + 1)
                return
        add(path)

    def leaf_ty(self, s, cell, path):
        """Declared type of a location."""
        if isinstance(cell[0], int) and cell[0] in self.frame_mir:
            ty = self.local_ty(cell[0], self.frame_mir[cell[0]], cell[1])
        elif cell[0] == "arg":
            ty = self.arg_tys.get(cell[1])
        else:
            v = s.mem.get(cell)
            ty = None if v is None else v[2] if v[0] == "tok" else v[3] if v[0] == "app" else None
        var = None
        for pr in path:
            if ty is None:
                return None
            if pr[0] == "deref":
                ty = ty[2] if ty[0] == "ref" else ty[2][0] if ty[0] == "path" and ty[2] else None
            elif pr[0] == "variant":
                var = pr[1]
            elif pr[0] == "field":
                d = ("tok", ("?",), ty)
                ty = self.infer_field_ty(("tag", d, var) if var else d, pr[1])
                var = None
            else:
                return None
        return ty

    def leaf_name(self, cell, path):
        if isinstance(cell[0], int) and cell[0] in self.frame_mir:
            b = self.local_name(self.frame_mir[cell[0]], cell[1])
        else:
            b = str(cell[1]) if cell[0] == "arg" else "/".join(map(str, cell))
        return b + "".join(f".{p[1]}" for p in path)

    def havoc(self, s, H, lid, site, probe=False):
        lv = []
        for cell, path in sorted(H, key=repr):
            old = self.read_loc(s, (cell, path))
            nm = self.leaf_name(cell, path)
            ty = self.leaf_ty(s, cell, path)
            if ty is None:
                ty = old[2] if old[0] == "tok" else old[3] if old[0] == "app" else \
                    (T.parse(old[2]) if old[2] else None) if old[0] == "c" and isinstance(old[2], (str, type(None))) else None
            t = ("tok", (f"loop:{self.tag}:{lid}", nm), ty)
            entry = self.snap(s, old)
            if self.loop_pair is not None:
                r = self.loop_pair(s, lid, site, nm, (cell, path), entry, ty)
                if r is not None:
                    t = r
            self.write_loc(s, (cell, path), t)
            lv.append((nm, (cell, path), entry, t, ty))
        return tuple(lv)

    def _mentions(self, rv, l):
        if isinstance(rv, tuple):
            if len(rv) == 3 and rv[0] == "P":
                return rv[1] == l
            return any(self._mentions(x, l) for x in rv)
        return False

    def local_name(self, mir, l):
        for n, ps in mir.debug.items():
            for p in ps:
                if re.fullmatch(rf"_{l}", p):
                    return n
        return f"_{l}"

    # ------------------------------------------------------------------ statements
    def stmt(self, mir, fr, st, stm):
        if stm[0] == "assign":
            v = self.rvalue(mir, fr, st, stm[2], stm[1])
            self.write_loc(st, self.loc(st, fr, stm[1]), v)
        elif stm[0] == "dead":
            st.mem.pop((fr, stm[1]), None)
        elif stm[0] == "setdiscr":
            raise Unsupported("setdiscr")

    def operand(self, mir, fr, st, op):
        if op[0] in ("copy", "move"):
            return self.read_loc(st, self.loc(st, fr, op[1]))
        return self.constant(mir, fr, st, op[1], op[2])

    def constant(self, mir, fr, st, text, extra):
        t = text
        if t == "true":
            return TRUE
        if t == "false":
            return FALSE
        if t == "()":
            return UNIT
        if t.startswith('"'):
            return const(unescape_str(t), "str")
        if t.startswith("'"):
            return const(unescape_str(t), "char")
        if t.startswith('b"') or t.startswith('*b"'):
            b = unescape_bytes(t[t.index('"') + 1:-1])
            try:
                return const(b.decode(), "bytes")
            except UnicodeDecodeError:
                return const(t, "bytes")
        m = re.fullmatch(r"(-?\d+)_([ui](?:8|16|32|64|128|size))", t)
        if m:
            return const(int(m.group(1)), m.group(2))
        m = re.fullmatch(r"(-?[\d.]+(?:e-?\d+)?|-?inf|NaN)_?(f32|f64)", t)
        if m:
            return const(float(m.group(1)), m.group(2))
        m = re.fullmatch(r"([ui](?:8|16|32|64|size))::(MAX|MIN)", t)
        if t == "_" or "promoted[" in t or True:
            if extra:
                for e in extra:
                    m = re.search(r"val: Unevaluated\((.*), \[.*\], Some\(promoted\[(\d+)\]\)\)", e)
                    if m and (t == "_" or "promoted" in t):
                        k = f"{mir.name}::promoted[{m.group(2)}]"
                        pm = self.p.promoted.get(k)
                        if pm is not None:
                            return self.eval_const_body(pm, fr, st)
                    m = re.search(r"val: Unevaluated\((.*), \[.*\], None\)", e)
                    if m:
                        from .program import strip_generics
                        ci = self.p.consts.get(m.group(1)) or self.p.consts.get(strip_generics(m.group(1)))
                        if ci is None:
                            for n, c in self.p.consts.items():
                                if n.split("::")[-1] == m.group(1).split("::")[-1]:
                                    ci = c
                        if ci is not None and t == "_" or ci is not None and m.group(1).endswith(t.split("::")[-1]):
                            return self.eval_const_body(ci.mir, fr, st)
        ci = self.p.consts.get(t)
        if ci is not None:
            return self.eval_const_body(ci.mir, fr, st)
        if t in STD_CONSTS:
            return STD_CONSTS[t]
        m = re.fullmatch(r"\{regex:(\w+)\}", t)
        if m:
            return ("tok", ("regex", m.group(1)), None)
        if re.fullmatch(r"\{(alloc\d+|static:).*", t):
            return ("tok", ("static", t), None)
        return ("fn", t)

    def eval_const_body(self, pm, fr, st):
        """Constants and promoteds are straight-line: evaluate their assignments."""
        self.frame_n += 1
        nf = self.frame_n
        self.frames[nf] = self.frames.get(fr, {})
        bb = 0
        for _ in range(50):
            blk = pm.blocks[bb]
            for stm in blk.stmts:
                self.stmt(pm, nf, st, stm)
            if blk.term[0] == "return":
                return st.mem.get((nf, 0), UNIT)
            if blk.term[0] == "goto":
                bb = blk.term[1]
                continue
            if blk.term[0] == "call":
                info = type("I", (), {"qual": pm.name})
                outs = self.call_term(info, pm, nf, st, blk.term)
                if len(outs) == 1 and outs[0].kind == "return" and outs[0].state is st:
                    self.write_loc(st, self.loc(st, nf, blk.term[1]), outs[0].ret)
                    bb = blk.term[4]["return"]
                    continue
            if blk.term[0] == "assert":
                bb = blk.term[5]["success"]
                continue
            break
        return ("tok", ("const", pm.name), None)

    def rvalue(self, mir, fr, st, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(mir, fr, st, rv[1])
        if k == "ref":
            cell, path = self.loc(st, fr, rv[2])
            if path and path[-1][0] == "deref":
                v = self.read_loc(st, (cell, path))
                if v[0] in ("c", "fn"):
                    return v
            return ("ref", cell, path)
        if k == "len":
            v = self.snap(st, self.read_loc(st, self.loc(st, fr, rv[1])))
            return self.length(v)
        if k == "bin":
            a = self.snap(st, self.operand(mir, fr, st, rv[2]))
            b = self.snap(st, self.operand(mir, fr, st, rv[3]))
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.operand(mir, fr, st, rv[2])
            if rv[1] == "Not":
                if a[0] == "c" and isinstance(a[1], bool):
                    return mkbool(not a[1])
                return negate(a)
            if a[0] == "c":
                return const(-a[1], a[2])
            return app("neg", a, ty=self.local_ty(fr, mir, dest[1]) if not dest[2] else None)
        if k == "discr":
            v = self.read_loc(st, self.loc(st, fr, rv[1]))
            while v[0] == "ref":
                v = self.read_loc(st, (v[1], v[2]))
            ty = self.place_ty(mir, fr, rv[1])
            return ("app", "discr", (v, ("k", ty)), None)
        if k == "cast":
            v = self.operand(mir, fr, st, rv[1])
            if rv[3].startswith("PointerCoercion") or rv[3] in ("PtrToPtr", "Transmute"):
                return v
            if rv[3] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                if v[0] == "c" and rv[3] == "IntToInt":
                    if isinstance(v[1], bool):
                        return const(int(v[1]), rv[2])
                    if isinstance(v[1], int):
                        return const(wrap_int(v[1], rv[2]), rv[2])
                    if isinstance(v[1], str) and len(v[1]) == 1:
                        return const(ord(v[1]), rv[2])
                if v[0] == "c" and rv[3] == "IntToFloat" and isinstance(v[1], int) and abs(v[1]) < 1 << 24:
                    return const(float(v[1]), rv[2])
                if v[0] == "app" and v[1] == "discr":
                    return v
                src = tytext(v) or T.show(self.operand_ty(mir, fr, rv[1]) or ("path", "?", ()))
                if rv[3] == "IntToInt" and (widens(src, rv[2]) or src in ("usize", "u64") and rv[2] in ("i64", "isize")
                                            or src in ("i64", "isize", "i128") and rv[2] in ("usize", "u64")
                                            and self.bounds(st, v)[0] is not None and self.bounds(st, v)[0] >= 0):
                    # sizes are assumed to fit the signed type of the same width
                    if tytext(v) == rv[2]:
                        return v
                    if v[0] == "app" and v[1] == "widen" and tytext(v[2][0]) == rv[2]:
                        return v[2][0]
                    return app("widen", v, ty=T.parse(rv[2]))
                if src == "bool":
                    return app("b2i", v, ty=T.parse(rv[2]))
                return app("cast:" + rv[2], v, ty=T.parse(rv[2]))
            return v
        if k == "agg":
            fs = tuple(self.operand(mir, fr, st, o) for _, o in rv[3])
            if rv[1] in ("tuple", "array"):
                return ("adt", rv[1], None, fs)
            if rv[1] == "closure":
                cn = "closure:" + rv[2][9:-1] + "|" + str(mir.owner) + "|" + mir.name
                self.clo_sub[cn] = self.frames.get(fr) or {}
                return ("adt", cn, None, fs)
            return self.mk_adt(rv[2], fs)
        if k == "repeat":
            return app("repeat", self.operand(mir, fr, st, rv[1]), const(rv[2]))
        if k == "nullop":
            return app("nullop", const(rv[1]))
        raise Unsupported(k)

    def mk_adt(self, path, fs):
        from .program import strip_generics
        p = strip_generics(path)
        segs = p.split("::")
        if len(segs) >= 2 and re.match(r"[A-Z]", segs[-2]) and (
                segs[-2] in STD_ENUMS or self.p.adts.get(segs[-2], None) is None or self.p.adts[segs[-2]].kind == "enum"):
            return ("adt", segs[-2], segs[-1], fs)
        a = self.p.adts.get(segs[-1])
        if fs and a is not None and a.kind == "struct" and fs[0][0] == "tok" and len(fs[0][1]) > 1 \
                and self.owner_ty.get(fs[0][1][:-1]) == segs[-1] and len(a.fields) == len(fs) and all(
                    f[0] == "tok" and f[1] == fs[0][1][:-1] + (self.field_name(segs[-1], None, i),) for i, f in enumerate(fs)):
            return ("tok", fs[0][1][:-1], T.parse(segs[-1]) if not a.generics else None)     # taken apart and put together again
        return ("adt", segs[-1], None, fs)

    def place_ty(self, mir, fr, place):
        ty = self.local_ty(fr, mir, place[1])
        for pr in place[2]:
            if pr[0] == "field":
                ty = self.sub(fr, pr[2])
            elif pr[0] == "deref" and ty is not None:
                if ty[0] == "ref":
                    ty = ty[2]
                elif ty[0] == "path" and ty[2]:
                    ty = ty[2][0]
        return ty

    def length(self, v):
        if v[0] == "adt" and v[1] == "array":
            return const(len(v[3]), "usize")
        if v[0] == "c" and isinstance(v[1], str):
            return const(len(v[1].encode()), "usize")
        if v[0] == "app" and v[1] == "push":
            return self.binop("Add", self.length(v[2][0]), const(1, "usize"))
        if v[0] == "app" and v[1] in ("upd", "sorted"):
            return self.length(v[2][0])
        if v[0] == "app" and (v[1] == "without" or v[1] == "init" and tytext(v).startswith("Vec")):
            return self.binop("Sub", self.length(v[2][0]), const(1, "usize"))
        if v[0] == "app" and v[1] == "inserted":
            return self.binop("Add", self.length(v[2][0]), const(1, "usize"))
        if v[0] == "app" and v[1] == "bytes":
            return self.length(v[2][0])
        if v[0] == "tok" and v[1][0] == "elem" and v[1][1][:2] == ("app", "iter:slice_chunks_exact") and v[1][1][2][1][0] == "c":
            return const(v[1][1][2][1][1], "usize")
        if v[0] == "app" and v[1] == "list":
            return app("nchars" if v[2][0][1] == "iter:chars" else "count", *(v[2][0][2][:1] if v[2][0][1] == "iter:chars" else v[2]), ty="usize")
        if v[0] == "app" and v[1] == "slice":
            lo, hi = v[2][1], v[2][2]
            hi = self.length(v[2][0]) if hi == UNIT else hi
            return hi if lo == UNIT else self.binop("Sub", hi, lo)
        return app("len", v, ty="usize")

    def binop(self, op, a, b):
        cmpop = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}.get(op)
        if cmpop:
            if a[0] == "app" and a[1] == "discr" and b[0] == "c":
                return app("eq" if cmpop == "eq" else cmpop, a, b)
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                try:
                    return mkbool({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
                                   "ge": x >= y}[cmpop])
                except TypeError:
                    pass
            if cmpop == "eq" and b[0] == "c" and isinstance(b[1], bool):
                return a if b[1] else negate(a)
            for x, y in ((a, b), (b, a)):
                # the first byte of a text is an ASCII character: the text starts with it
                if cmpop in ("eq", "ne") and y[0] == "c" and isinstance(y[1], int) and 0 < y[1] < 128 and x[0] == "tok" \
                        and x[1][0] == "nth" and len(x[1]) == 3 and x[1][2] == 0 and x[1][1][0] == "app" and x[1][1][1] == "bytes":
                    q = ("app", "str::starts_with", (unkey(x[1][1][2][0]), const(chr(y[1]), "str")), "bool")
                    return q if cmpop == "eq" else negate(q)
            return mkcmp(cmpop, a, b)
        if op in ("BitAnd", "BitOr") and (is_boolish(a) or is_boolish(b)):
            return app("and" if op == "BitAnd" else "or", a, b, ty="bool")
        if op.startswith("Checked"):
            base = self.binop(op[7:], a, b)
            if base[0] == "c":
                ty = a[2] or b[2]
                if in_range(base[1], ty):
                    return ("adt", "tuple", None, (base, FALSE))
                return ("adt", "tuple", None, (base, TRUE))
            return ("adt", "tuple", None, (base, app("overflow:" + op[7:], a, b, ty="bool")))
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)) \
                and not isinstance(a[1], bool):
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "Div": lambda: x / y if isinstance(x, float) else x // y, "Rem": lambda: x % y}[op]()
                return const(r, a[2] or b[2])
            except (KeyError, ZeroDivisionError):
                pass
        # linear normal form for +/- constants
        if op in ("Add", "Sub") and b[0] == "c" and isinstance(b[1], int):
            off = b[1] if op == "Add" else -b[1]
            base, cur = lin(a)
            return mklin(base, cur + off, a)
        if op == "Sub" and a[0] in ("tok", "app") and b[0] in ("tok", "app"):
            (ba, oa), (bb, ob) = lin(a), lin(b)
            if key(ba) == key(bb) and (tytext(ba)[:1] in ("u", "i") or ba[0] == "app" and ba[1] == "len"):
                return const(oa - ob, a[2] if a[0] == "tok" else a[3])
        if op == "Add" and a[0] == "c" and isinstance(a[1], int):
            base, cur = lin(b)
            return mklin(base, cur + a[1], b)
        if op in ("Add", "Mul", "BitXor") and repr(key(b)) < repr(key(a)):
            a, b = b, a
        ty = a[2] if a[0] in ("tok", "c") else a[3] if a[0] == "app" else None
        return app(op.lower(), a, b, ty=ty)

    # ------------------------------------------------------------------ switch
    def switch(self, mir, fr, st, term):
        v = self.operand(mir, fr, st, term[1])
        cases, other = term[2], term[3]
        out = []
        if v[0] == "c":
            x = v[1]
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, str):
                x = ord(x) if len(x) == 1 else None
            for c, t in cases:
                if c == x:
                    return [(st, t)]
            return [(st, other)] if other is not None else []
        if v[0] == "app" and v[1] == "discr":
            base, ty = v[2][0], v[2][1][1]
            if base[0] == "tag":
                base = base[1]
            names = self.variants_of(ty)
            if base[0] == "adt":
                if names is None:
                    names = STD_ENUMS.get(base[1])
                if names is not None and base[2] in names:
                    idx = names.index(base[2])
                    if self.tyname(ty) == "Ordering":
                        idx = {"Less": 255, "Equal": 0, "Greater": 1}[base[2]]
                    for c, t in cases:
                        if c == idx or (idx == 255 and c == -1):
                            return [(st, t)]
                    return [(st, other)] if other is not None else []
            isord = self.tyname(ty) == "Ordering"
            taken = []
            for c, t in cases:
                if isord:
                    n = {255: "Less", -1: "Less", 0: "Equal", 1: "Greater"}.get(c)
                else:
                    n = names[c] if names and c < len(names) else f"#{c}"
                taken.append(n)
                s2 = self.assume_tag(st, base, n)
                if s2 is not None:
                    out.append((s2, t))
            if other is not None and mir.blocks[other].term[0] != "unreachable" or \
                    other is not None and mir.blocks[other].stmts:
                rest = [n for n in (names or []) if n not in taken]
                if names is None:
                    s2 = self.without_variants(st, base, taken, None)
                    if s2 is not None:
                        out.append((s2, other))
                elif len(rest) == 1:
                    s2 = self.assume_tag(st, base, rest[0])
                    if s2 is not None:
                        out.append((s2, other))
                elif rest:
                    s2 = self.without_variants(st, base, taken, names)
                    if s2 is not None:
                        out.append((s2, other))
            return out
        # boolean?
        vt = self.operand_ty(mir, fr, term[1])
        if vt == ("path", "bool", ()) or is_boolish(v):
            for s2, b in self.branch_bool(st, v):
                t = None
                for c, tt in cases:
                    if c == int(b):
                        t = tt
                if t is None:
                    t = other
                if t is not None:
                    out.append((s2, t))
            return out
        # integer / char switch
        ischar = vt == ("path", "char", ())
        rest = st
        for c, t in cases:
            cv = const(chr(c), "char") if ischar else const(c, T.show(vt) if vt else None)
            s2 = self.assume_ord(rest, v, cv, "=") if rest is not None else None
            if s2 is not None:
                out.append((s2, t))
            rest = self.assume_ord(rest, v, cv, "<>") if rest is not None else None
        if other is not None and rest is not None:
            out.append((rest, other))
        return out

    def assume_tag(self, st, base, name):
        """tag facts; orderings produced by cmp are translated to ordering facts"""
        if base[0] == "app" and base[1] == "cmp":
            return self.assume_ord(st, base[2][0], base[2][1], {"Less": "<", "Equal": "=", "Greater": ">"}[name])
        if base[0] == "app" and base[1] == "partial_cmp" and name == "Some":
            return st
        if base[0] == "app" and base[1] == "get" and base[2][0][0] == "app" and base[2][0][1] == "partial_cmp":
            p = base[2][0]
            return self.assume_ord(st, p[2][0], p[2][1], {"Less": "<", "Equal": "=", "Greater": ">"}[name])
        return self.with_variant(st, base, name)

    def operand_ty(self, mir, fr, op):
        if op[0] in ("copy", "move"):
            return self.place_ty(mir, fr, op[1])
        return None

    # ------------------------------------------------------------------ calls
    def call_term(self, info, mir, fr, st, term):
        _, dest, f, args, targets, span = term
        vals = [self.operand(mir, fr, st, a) for a in args]
        retty = self.place_ty(mir, fr, dest)
        argtys = [self.operand_ty(mir, fr, a) for a in args]
        site = (info.qual, span)
        if f[0] == "ptr":
            fv = self.operand(mir, fr, st, f[1])
            return self.call_value(fv, vals, st, retty, site)
        return self.call_path(f[1], vals, st, retty, site, fr, argtys)

    def norm_name(self, callee):
        if callee[0] == "free":
            return callee[1]
        if callee[0] == "inherent":
            t = callee[1]
            n = T.last(t[1]) if t[0] == "path" else t[0]
            m = re.search(r"<impl (.*)>$", t[1]) if t[0] == "path" else None
            if m:
                it = T.parse(m.group(1))
                n = T.last(it[1]) if it[0] == "path" else it[0]
            return f"{n}::{callee[2]}"
        return f"{T.last(callee[2][1])}::{callee[3]}"

    def subst_callee(self, callee, fr):
        m = self.frames.get(fr)
        if not m:
            return callee
        if callee[0] == "trait":
            return ("trait", T.subst(callee[1], m), T.subst(callee[2], m), callee[3])
        if callee[0] == "inherent":
            return ("inherent", T.subst(callee[1], m), callee[2])
        return callee

    def call_path(self, path, vals, st, retty, site, fr=None, argtys=None):
        callee = self.p.split_callee(path)
        callee = self.subst_callee(callee, fr)
        name = self.norm_name(callee)
        if callee[0] == "trait" and "::" in callee[3]:
            # nested function inside a trait method
            for fi in self.p.fns:
                if fi.name.endswith("::" + callee[3]) and fi.impl_self is not None and \
                        T.unify(fi.impl_self, callee[1], {}, fi.generics) is not None:
                    return self.inline_call(fi, vals, st, {}, site, argtys, retty, name)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, callee, vals, st, retty, site)
            if r is not None:
                return r
        r = None
        while self.own_cmp is not None and callee[0] == "trait" and callee[1][0] == "ref" and name in (
                "Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq", "PartialEq::ne") and all(v[0] == "ref" for v in vals):
            # through references: compares what they point to
            inner = [self.read_loc(st, (v[1], v[2])) for v in vals]
            if not all(v[0] == "ref" for v in inner):
                break
            tr = callee[2]
            if tr[0] == "path" and any(g[0] == "ref" for g in tr[2]):
                tr = (tr[0], tr[1], tuple(g[2] if g[0] == "ref" else g for g in tr[2]))
            callee, vals, argtys = ("trait", callee[1][2], tr, callee[3]), inner, None
        if self.own_cmp is not None and name == "PartialEq::ne" and callee[0] == "trait":
            eq = ("trait", callee[1], callee[2], "eq")
            q = self.p.resolve(eq)
            if q is not None and q[0].impl_self is not None and q[0].impl_self[0] == "path" and \
                    T.last(q[0].impl_self[1]) == self.own_cmp and q[0].qual not in self.stack:
                return [Outcome(o.kind, o.state, negate(o.ret), o.info) if o.kind == "return" else o
                        for o in self.inline_call(q[0], vals, st, q[1], site, argtys, retty, "PartialEq::eq")]
        res = self.p.resolve(callee)
        # an order or equality that is defined by another one of the same type is looked into
        own = self.own_cmp is not None and res is not None and name in ("Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq") and \
            res[0].impl_self is not None and res[0].impl_self[0] == "path" and T.last(res[0].impl_self[1]) == self.own_cmp and \
            res[0].qual not in self.stack
        if not own and callee[0] == "trait" and res is not None and res[0].derived and name in (
                "Clone::clone", "PartialEq::eq", "PartialEq::ne", "PartialOrd::partial_cmp", "Ord::cmp", "Hash::hash",
                "Debug::fmt", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge"):
            res = None
        if name in ("Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq") and not self.inline_cmp and not own:
            res = None
        if res is not None and (res[0].qual in self.opaque or (self.inline and not self.inline(res[0]))
                                or res[0].qual in self.stack):
            from . import models
            m = models.lookup(name, callee) if name in ("Display::fmt", "CompactString::fmt_compact_string") else None
            r = m(self, callee, vals, st, retty, site) if m is not None else None
            if r is not None:
                return r
            return self.opaque_call(res[0].qual, callee, vals, st, retty, site, argtys)
        if res is not None:
            return self.inline_call(res[0], vals, st, res[1], site, argtys, retty, name)
        from . import models
        m = models.lookup(name, callee)
        if m is not None:
            r = m(self, callee, vals, st, retty, site)
            if r is not None:
                return r
        # constructor used as a function
        p = self.ctor(path, vals)
        if p is not None:
            return [Outcome("return", st, p)]
        if not (callee[0] == "trait" and has_param(callee[1]) and callee[2][1].split("::")[0] in self.p.local_roots):
            self.unmodelled.add(name)
        return self.opaque_call(name, callee, vals, st, retty, site, argtys)

    def ctor(self, path, vals):
        from .program import strip_generics
        segs = strip_generics(path).split("::")
        if len(segs) >= 2:
            a = self.p.adts.get(segs[-2])
            if a is not None and any(v[0] == segs[-1] for v in a.variants):
                return ("adt", segs[-2], segs[-1], tuple(vals))
            if segs[-2] in STD_ENUMS and segs[-1] in STD_ENUMS[segs[-2]]:
                return ("adt", segs[-2], segs[-1], tuple(vals))
        a = self.p.adts.get(segs[-1])
        if a is not None and a.kind == "struct" and len(a.fields) == len(vals) and vals:
            return ("adt", segs[-1], None, tuple(vals))
        return None

    def inline_call(self, fi, vals, st, sub, site, argtys, retty, name):
        sub = dict(sub)
        params = set(fi.generics)
        # free type parameters of the signature
        def collect(t):
            if T.is_param(t):
                params.add(t[1])
            elif t[0] == "path":
                for a in t[2]:
                    collect(a)
            elif t[0] in ("ref",):
                collect(t[2])
            elif t[0] in ("slice", "array", "ptr"):
                collect(t[1])
            elif t[0] == "tuple":
                for a in t[1]:
                    collect(a)
            elif t[0] == "proj":
                collect(t[1])
        for _, ty in fi.mir.params:
            collect(T.parse(ty))
        collect(T.parse(fi.mir.ret))
        if params and argtys:
            for (l, pty), at in zip(fi.mir.params, argtys):
                if at is not None:
                    T.unify(T.parse(pty), at, sub, params)
            if retty is not None:
                T.unify(T.parse(fi.mir.ret), retty, sub, params)
        sub = {k: v for k, v in sub.items() if not (v[0] == "path" and v[1] == k)}
        self.inlined.add(fi.qual)
        st.event("enter", fi.qual, tuple(vals), site)
        outs = self.run(fi, vals, st, sub)
        for o in outs:
            if o.kind == "return":
                o.state.event("exit", fi.qual, o.ret, site)
        return outs

    def opaque_call(self, name, callee, vals, st, retty, site, argtys=None):
        snaps = tuple(self.snap(st, v) for v in vals)
        if any(v[0] == "adt" and str(v[1]).startswith("closure:") for v in snaps):
            from . import folds
            snaps = tuple((folds.lam(self, st, v) or v) if v[0] == "adt" and str(v[1]).startswith("closure:") else v
                          for v in snaps)
        muts = []
        if callee is not None:
            pass
        res = ("app", name, snaps, retty)
        nth = ("k", sum(1 for e in st.events if e[0] == "call" and e[1] == name and e[5]))
        impure = EFFECTS.search(name) is not None
        for i, v in enumerate(vals):
            at = argtys[i] if argtys and i < len(argtys) else None
            mut = at[1] if at is not None and at[0] == "ref" else self.is_mut_arg(name, i, callee)
            if v[0] == "ref" and mut is True:
                impure = True
                old = self.read_loc(st, (v[1], v[2]))
                oty = old[2] if old[0] == "tok" else old[3] if old[0] == "app" else None
                if oty is None:
                    oty = self.leaf_ty(st, v[1], v[2])
                self.write_loc(st, (v[1], v[2]), ("app", f"post:{name}", snaps + (("k", i), nth), oty))
            elif mut is True and v[0] in ("tok", "app"):
                impure = True
                st.mem[("*", key(v))] = ("app", f"post:{name}", snaps + (("k", i), nth), v[2] if v[0] == "tok" else v[3])
        if impure:
            res = ("app", name, snaps + (nth,), retty)
        st.event("call", name, snaps, res, site, impure)
        return [Outcome("return", st, res)]

    MUTATORS = re.compile(r"(^|::)(push|push_str|pop|clear|truncate|remove|insert|append|extend|extend_from_slice|drain|"
                          r"retain|sort_by|sort|sort_unstable|dedup|split_off|swap|reverse|write_all|write_fmt|write_str|"
                          r"write_char|flush|next|take|replace|get_or_insert_with|read_line|read_to_end|read_to_string|"
                          r"resize|fill|set_\w+|entry|or_insert\w*|feed_line|advance\w*|render\w*|update|handle\w*|"
                          r"walk_saes_mut|deref_mut|index_mut|iter_mut|as_mut)$")

    def is_mut_arg(self, name, i, callee):
        """Whether argument i is taken by &mut: from the resolved signature, else by the library name."""
        r = self.p.resolve(callee) if callee is not None else None
        if r is not None and i < len(r[0].mir.params):
            return r[0].mir.params[i][1].startswith("&mut")
        if "fmt" in name and i == 1:
            return True
        return i == 0 and self.MUTATORS.search(name) is not None

    def call_value(self, fv, args, st, retty, site):
        """Call a closure / fn item / fn pointer with positional args."""
        while fv[0] == "ref":
            inner = self.read_loc(st, (fv[1], fv[2]))
            if inner[0] == "adt" and str(inner[1]).startswith("closure:"):
                return self.call_closure(inner, fv, args, st, retty, site)
            fv = inner
        if fv[0] == "adt" and str(fv[1]).startswith("closure:"):
            return self.call_closure(fv, None, args, st, retty, site)
        if fv[0] == "adt" and fv[1] == "oneof":
            # membership of a character in a written-out set
            x = self.snap(st, args[0])
            out, cur = [], st
            for ch in fv[3]:
                nxt = None
                for s, b in self.branch_bool(cur, self.binop("Eq", x, ch)):
                    if b:
                        out.append(Outcome("return", s, TRUE))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            return out + [Outcome("return", cur, FALSE)]
        if fv[0] == "fn":
            p = self.ctor(fv[1], args)
            if p is not None:
                return [Outcome("return", st, p)]
            return self.call_path(fv[1], args, st, retty, site, None, None)
        fty = fv[2] if fv[0] == "tok" else fv[3] if fv[0] == "app" else None
        fty = T.parse(fty) if isinstance(fty, str) else fty
        while fty is not None and fty[0] == "ref":
            fty = fty[2]
        if fty is not None and fty[0] == "fn":
            # a function pointer: what it may change is in its type
            m = re.match(r"(?:for<[^>]*> *)?(?:unsafe )?fn\((.*)\)(?: -> .*)?$", fty[1])
            tys = T.split_top(m.group(1)) if m else None
            if tys is not None and len(tys) == len(args):
                return self.opaque_call("callptr", None, [fv] + list(args), st, retty, site, [None] + [T.parse(x) for x in tys])
        return self.opaque_call("call_unknown", None, [fv] + list(args), st, retty, site)

    def call_closure(self, clo, ref, args, st, retty, site):
        span, owner, fname = clo[1][8:].split("|", 2)
        fis = self.p.closures.get((owner, span)) or self.p.closures.get(span) or []
        fi = next((f for f in fis if f.name.startswith(fname + "::{closure")), fis[0] if fis else None)
        if fi is None:
            return self.opaque_call("closure?", None, list(args), st, retty, site)
        if fi.mir.params[0][1].startswith("&"):
            if ref is None:
                self.fresh_n += 1
                cell = ("clo", self.fresh_n)
                st.mem[cell] = clo
                ref = ("ref", cell, ())
            me = ref
        else:
            me = clo
        self.inlined.add(fi.qual)
        return self.run(fi, [me] + list(args), st, dict(self.clo_sub.get(clo[1], {})))


# ---------------------------------------------------------------------- small helpers

def mkcmp(op, a, b):
    """A comparison in one form, whichever way round it was written: a constant on the right, otherwise < and <= only"""
    flip = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
    ca, cb = a[0] == "c", b[0] == "c"
    if ca and not cb or not ca and not cb and (op in ("gt", "ge") or op in ("eq", "ne") and repr(key(b)) < repr(key(a))):
        op, a, b = flip[op], b, a
    return app(op, a, b, ty="bool")


def negate(a):
    if a[0] == "c" and isinstance(a[1], bool):
        return mkbool(not a[1])
    if a[0] == "app":
        n = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}.get(a[1])
        if n:
            return ("app", n, a[2], a[3]) if a[2][0][0] == "app" and a[2][0][1] == "discr" else mkcmp(n, *a[2])
        if a[1] == "not":
            return a[2][0]
    return app("not", a, ty="bool")


def has_param(t):
    if T.is_param(t):
        return True
    if t[0] == "path":
        return any(has_param(x) for x in t[2])
    if t[0] == "ref":
        return has_param(t[2])
    if t[0] in ("slice", "array", "ptr"):
        return has_param(t[1])
    if t[0] == "tuple":
        return any(has_param(x) for x in t[1])
    return False


EQS = ("eqs",)
EFFECTS = re.compile(r"^(std::fs::|File::|Command::|std::io::_print|std::io::_eprint|std::process::|OpenOptions::|Tempfile|NamedTempFile|ureq|"
                     r"reqwest|Request::|Agent::)")


def _pk(path):
    return tuple(p[:2] for p in path)



def kcanon(k, m):
    if k in m:
        return m[k]
    if k[0] == "tok":
        p = k[1]
        for i in range(len(p) - 1, 0, -1):
            r = m.get(("tok", p[:i]))
            if r is not None:
                if r[0] == "tok":
                    return kcanon(("tok", r[1] + p[i:]), m)
                break
        return k
    if k[0] == "app":
        n = ("app", k[1], tuple(kcanon(x, m) if x[0] in ("tok", "app", "adt") else x for x in k[2]))
        if n[1] == "lin":
            n = klmk(n[2][0], n[2][1][1])
        return m.get(n, n)
    if k[0] == "adt":
        return ("adt", k[1], k[2], tuple(kcanon(x, m) if x[0] in ("tok", "app", "adt") else x for x in k[3]))
    return k


def klin(k):
    if k[0] == "app" and k[1] == "lin":
        return k[2][0], k[2][1][1]
    return k, 0


def tytext(v):
    ty = v[2] if v[0] in ("tok", "c") else v[3] if v[0] == "app" else None
    if ty is None:
        return ""
    return ty if isinstance(ty, str) else T.show(ty)


def is_unsigned(a, b):
    ts = [t for t in (tytext(a), tytext(b)) if t]
    return bool(ts) and any(re.fullmatch(r"u(8|16|32|64|128|size)", t) for t in ts) and \
        not any(re.fullmatch(r"i(8|16|32|64|128|size)", t) for t in ts)


def is_wide(v):
    return tytext(v) in ("usize", "u64", "isize", "i64") or v[0] == "app" and v[1] in ("len",) or \
        v[0] == "app" and v[1] == "lin" and is_wide(v[2][0])


def width(v):
    m = re.fullmatch(r"u(8|16|32|64)", tytext(v))
    return int(m.group(1)) if m else None


def is_boolish(v):
    return v[0] == "c" and isinstance(v[1], bool) or v[0] == "app" and v[1] in (
        "eq", "ne", "lt", "le", "gt", "ge", "not", "and", "or", "is_variant") or \
        v[0] in ("tok",) and v[2] in ("bool", ("path", "bool", ())) or \
        v[0] == "app" and v[3] in ("bool", ("path", "bool", ()))


def lin(v):
    if v[0] == "app" and v[1] == "lin":
        return v[2][0], v[2][1][1]
    return v, 0


def mklin(base, off, like):
    if off == 0:
        return base
    ty = like[2] if like[0] in ("tok", "c") else like[3] if like[0] == "app" else None
    return ("app", "lin", (base, const(off)), ty)


STD_CONSTS = {f"{p}{t}::{n}": const(v, t) for t, b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("size", 64))
              for s, (lo, hi) in (("u", (0, (1 << b) - 1)), ("i", (-(1 << b - 1), (1 << b - 1) - 1)))
              for t in [s + t] for n, v in (("MIN", lo), ("MAX", hi)) for p in ("", "std::", "core::")}


def widens(src, dst):
    """Whether every value of integer type src is a value of dst."""
    if src == dst:
        return True
    if src == "char":
        return dst in ("u32", "u64", "i64")
    a, b = re.fullmatch(r"([ui])(8|16|32|64|128|size)", src or ""), re.fullmatch(r"([ui])(8|16|32|64|128|size)", dst or "")
    if not a or not b:
        return False
    wa = 64 if a.group(2) == "size" else int(a.group(2))
    wb = 64 if b.group(2) == "size" else int(b.group(2))
    if a.group(1) == b.group(1):
        return wb >= wa
    return a.group(1) == "u" and wb > wa


def kaff(k):
    """Key -> (base, factor, offset): value = factor * base + offset, factor > 0; widening conversions are transparent."""
    f, d = 1, 0
    while k[0] == "app":
        if k[1] == "widen":
            k = k[2][0]
        elif k[1] == "lin":
            d += f * k[2][1][1]
            k = k[2][0]
        elif k[1] == "mul" and any(x[0] == "c" and isinstance(x[1], int) and x[1] > 0 for x in k[2]):
            c = next(x for x in k[2] if x[0] == "c" and isinstance(x[1], int) and x[1] > 0)
            o = k[2][1] if k[2][0] is c else k[2][0]
            f *= c[1]
            k = o
        else:
            break
    return k, f, d


def normpair(ka, kb):
    """Equivalent comparison in normal form: (ka, kb, mode).  mode None: same orderings.
    mode ("le",): '<' of the original is '<=' of the normal form, '>' is '>' ; ("ge",): '>' is '>=', '<' is '<'."""
    for x, y, fl in ((ka, kb, False), (kb, ka, True)):
        if x[0] == "app" and x[1] == "sub" and len(x[2]) == 2:
            yb, yf, yd = kaff(y)
            if y[0] == "c" and isinstance(y[1], int):
                r = (x[2][0], klmk(x[2][1], y[1]))
                return normpair(*(r if not fl else (r[1], r[0])))
    fa, fb = kaff(ka), kaff(kb)
    if ka[0] == "c" and kb[0] == "c":
        return ka, kb, None
    if kb[0] == "c" and isinstance(kb[1], int) and not isinstance(kb[1], bool) and fa[0] is not ka:
        n = kb[1] - fa[2]
        if n % fa[1] == 0:
            return fa[0], ("c", n // fa[1], "int"), None
        return fa[0], ("c", n // fa[1], "int"), "le"
    if ka[0] == "c" and isinstance(ka[1], int) and not isinstance(ka[1], bool) and fb[0] is not kb:
        n = ka[1] - fb[2]
        if n % fb[1] == 0:
            return ("c", n // fb[1], "int"), fb[0], None
        return ("c", n // fb[1], "int"), fb[0], "ge"
    if ka[0] != "c" and kb[0] != "c" and (fa[0] is not ka or fb[0] is not kb):
        if fa[1] == fb[1]:
            d = fb[2] - fa[2]
            if d % fa[1] == 0:
                return fa[0], klmk(fb[0], d // fa[1]), None
            return fa[0], klmk(fb[0], d // fa[1]), "le"
    return ka, kb, None


def klmk(base, off):
    """key of base + off"""
    if base[0] == "c" and isinstance(base[1], int):
        return ("c", base[1] + off, base[2])
    b, d = klin(base)
    if d + off == 0:
        return b
    return ("app", "lin", (b, ("c", d + off, "int")))


def wrap_int(x, ty):
    m = re.fullmatch(r"([ui])(8|16|32|64|128|size)", ty)
    if not m:
        return x
    n = 64 if m.group(2) == "size" else int(m.group(2))
    x &= (1 << n) - 1
    if m.group(1) == "i" and x >> (n - 1):
        x -= 1 << n
    return x


def in_range(x, ty):
    if not isinstance(ty, str):
        return True
    return wrap_int(x, ty) == x


def unescape_bytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            c = s[i + 1]
            if c == "x":
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out += {"n": b"\n", "t": b"\t", "r": b"\r", "0": b"\0"}.get(c, c.encode())
            i += 2
            continue
        out += s[i].encode()
        i += 1
    return bytes(out)


def unescape_str(t):
    s = t[1:-1]

    def rep(m):
        c = m.group(1)
        if c[0] == "u":
            return chr(int(c[2:-1], 16))
        if c[0] == "x":
            return chr(int(c[1:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c)
    return re.sub(r"\\(u\{[^}]*\}|x[0-9a-fA-F]{2}|.)", rep, s, flags=re.S)
