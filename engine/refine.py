"""Refinement of a reference specification written in Rust.

A specification (specs/*.rs, compiled as a module of the analysed crate) states in the plainest form what the function
must do.  Both are analysed by the same abstract interpreter.  For every path of the implementation the specification is
analysed under the facts of that path; every case it leaves open is split.  The two must agree on how the path ends, on
the result, on everything reachable through &mut arguments, and on the order and content of the visible effects.

Loops are compared by simulation: the k-th loop of a path of the implementation is matched with the k-th loop of the
specification, variables that enter the loops with equal values are assumed equal in an arbitrary iteration, and the
assumption has to be preserved by one iteration (pairs that are not are dropped, and the comparison repeated).
"""
import re
from fractions import Fraction
from .regexlang import takes_other
from .absint import (klin, Interp, State, Outcome, Budget, Unsupported, tok, key, show, const, UNIT)
from . import rtypes as T
from .itermodels import concat
from . import models, folds
from .spec import matches, facts_text, uninterpreted, ANY

MAX_ROUNDS = 12
DEBUG = False


class Report:
    def __init__(self, fi):
        self.function = fi.qual
        self.paths = self.cases = self.agree = 0
        self.undecided = []
        self.bad = []
        self.pairs = set()
        self.rejected = {}
        self.inlined = 0
        self.reason = ""


def setup(P, fi, args=None, domain=None):
    st = State()
    vals, tys = [], {}
    for i, (l, ty) in enumerate(fi.mir.params):
        t = P.expand(T.parse(ty))
        nm = f"a{i}"
        v = args[i] if args is not None and i < len(args) and args[i] is not None else \
            tok(nm, ty=t[2] if t[0] == "ref" else t)
        if t[0] == "ref":
            st.mem[("arg", nm)] = v
            tys[nm] = t[2]
            vals.append(("ref", ("arg", nm), ()))
        else:
            vals.append(v)
    return st, vals, tys


def mut_params(fi):
    return [i for i, (l, ty) in enumerate(fi.mir.params) if ty.startswith("&") and " mut " in ty[:40].replace("&mut", "& mut")
            and T.parse(ty)[0] == "ref" and T.parse(ty)[1] is True]


def trace(I, st, effects):
    """Visible effects in order: ("write", sink, text), ("call", name, args), ("loop", ordinal)"""
    out = []
    for e in st.events:
        if e[0] == "write":
            if out and out[-1][0] == "write" and out[-1][1] == e[1]:
                out[-1] = ("write", e[1], concat([out[-1][2]] + list(e[2])))
            else:
                out.append(("write", e[1], concat(list(e[2]))))
        elif e[0] == "call" and (e[5] or (effects and effects(e[1]))):
            out.append(("call", e[1], e[2]))
        elif e[0] == "loop":
            out.append(("loop", e[1], e[2]))
    return [t for t in out if not (t[0] == "write" and t[2][0] == "c" and t[2][1] == "")]


def fields_of(I, v):
    return v


class Refine:
    def __init__(self, P, fi, spec, args=None, opaque=(), effects=None, panics=True, hooks=None, max_paths=6000,
                 ignore=(), inline=None, err_any=True, domain=None, setup_hook=None, max_steps=600000, inline_cmp=False):
        self.P, self.fi, self.spec = P, fi, spec
        self.args, self.opaque, self.effects, self.panics = args, opaque, effects, panics
        self.hooks, self.max_paths, self.ignore = hooks or {}, max_paths, set(ignore)
        self.inline, self.err_any, self.domain, self.setup_hook = inline, err_any, domain, setup_hook
        self.max_steps, self.inline_cmp = max_steps, inline_cmp
        self.plain_ = None
        self.live = {"A": set(), "B": set()}      # loop variables whose value on entering an iteration matters to something
        self.rejected = {}        # (siteA, nameA, siteB, nameB) -> text or None
        self.forced = {}
        self.leaves = {}          # what the specification's loops modify on any path

    def prime(self):
        """What the loops of the specification modify, whatever is known on entering them"""
        I = self.interp()
        st, vals, tys = setup(self.P, self.spec, self.args)
        I.arg_tys = tys
        if self.setup_hook:
            self.setup_hook(I, st)
        I.tag = "B"
        try:
            I.analyse(self.spec, vals, st)
            self.leaves = {k: v for k, v in I.loop_leaf_cache.items() if v != "no"}
        except (Budget, Unsupported, RecursionError):
            pass

    def interp(self):
        I = Interp(self.P, opaque=self.opaque, max_paths=self.max_paths, inline=self.inline, max_steps=self.max_steps,
                   inline_cmp=self.inline_cmp)
        I.hooks.update(self.hooks)
        I.no_fold = self.no_fold
        return I

    no_fold = False

    def run(self):
        R = self.run_once()
        if R.undecided and not R.bad and self.sloops:
            # once more without summaries of loops: what one side only computes may be where the other has effects
            r = Refine.__new__(type(self))
            r.__dict__.update(self.__dict__)
            r.no_fold, r.plain_, r.rejected, r.forced, r.leaves, r.live = True, None, {}, {}, {}, {"A": set(), "B": set()}
            r.shapes = (set(), set())
            R2 = r.run_once()
            if not R2.undecided and not R2.bad or R2.bad and r.shapes[0] == r.shapes[1]:
                return R2
        if R.undecided and not R.bad:
            # once more with variables that start from another constant taken for the same
            r = Refine.__new__(type(self))
            r.__dict__.update(self.__dict__)
            r.any_start, r.starts = True, {}
            r.plain_, r.rejected, r.forced, r.leaves, r.live = None, {}, {}, {}, {"A": set(), "B": set()}
            R2 = r.run_once()
            if r.starts and not R2.bad and not R2.undecided:
                for n, a, b in r.starts.values():
                    R2.bad.append(f"goes round with {n} from {show(a)} on where the specification starts from {show(b)}, and all else is the same")
                return R2
        return R

    shapes = ()          # what the loops of either side go through, on any path to the end
    any_start = False
    starts = ()

    sloops = False

    def run_once(self):
        R = Report(self.fi)
        self.prime()
        try:
            for _ in range(MAX_ROUNDS):
                R = Report(self.fi)
                self.again = False
                self.pending = {}
                self.round(R)
                self.rejected.update(self.pending)
                if not self.again:
                    break
            else:
                R.undecided.append("simulation did not settle")
        except (Budget, Unsupported, RecursionError) as e:
            R.undecided.append(f"{type(e).__name__}: {e}")
            R.reason = f"{type(e).__name__}: {e}"
        R.rejected = self.rejected
        if R.bad:
            self.vocabulary(R)
        return R

    def same_language(self, vb):
        """The two sides use regular expressions that differ as written but accept the same texts (or are not understood)."""
        ra, rb = set(), set()
        for o in self.outsA:
            for t in o.state.trail:
                regexes(t, ra)
            for e in o.state.events:
                regexes(e[2:3], ra)
        for t in self.trailsB:
            regexes(t, rb)
        tab = self.P.regexes
        only = (ra - rb) | (rb - ra)
        if not only:
            return False
        if len(ra - rb) == len(rb - ra) == 1:
            (x,), (y,) = ra - rb, rb - ra
            if x in tab and y in tab and takes_other(tab[x][:2], tab[y][:2]) is not None:
                return False
        la, lb = ({repr(tab.get(r, (0, 0, None))[2]) for r in x} for x in (ra - rb, rb - ra))
        return "None" in la | lb or bool(la & lb)

    def vocabulary(self, R):
        """A difference counts only where both sides decide by the same things, or one of them does not look at all: when each
        side branches on an uninterpreted term of its own, the two may say the same in other words."""
        self.trailsB = []
        try:
            I = self.interp()
            st, vals, tys = setup(self.P, self.spec, self.args)
            I.arg_tys = tys
            if self.setup_hook:
                self.setup_hook(I, st)
            vb = set()
            for o in I.analyse(self.spec, vals, st):
                vb |= asked(I, o.state.trail)
                self.trailsB += [o.state.trail, [e[2:3] for e in o.state.events]]
        except (Budget, Unsupported, RecursionError) as e:
            vb = None
        va = set()
        for o in self.outsA:
            va |= asked(self.I_, o.state.trail)
        if self.same_language(vb):
            R.undecided += ["regular expressions with other groups: " + b[0] for b in R.bad]
            R.bad = []
            return
        keep = []
        ha, hb = {hole(q) for q in va}, {hole(q) for q in vb or ()}
        for text, ta, tb in R.bad:
            qa, qb = {hole(q) for q in asked(self.I_, ta)}, {hole(q) for q in asked(self.I_, tb)}
            own = qa - qb if vb is None else qa - hb
            if DEBUG:
                print("VOC", own, "|||", qb - ha)
            if own and qb and not (own & (qb - ha)):
                R.undecided.append("decides by other terms: " + text)
            else:
                keep.append(text)
        R.bad = keep

    def round(self, R):
        I = self.interp()
        st, vals, tys = setup(self.P, self.fi, self.args)
        I.arg_tys = tys
        if self.setup_hook:
            self.setup_hook(I, st)
        I.forced = self.forced
        mem0 = dict(st.mem)
        facts0 = dict(st.facts)
        outsA = self.outsA = I.analyse(self.fi, vals, st)
        self.sloops = self.sloops or any(e[0] == "sloop" and e[2:3] != ("idle",) for o in outsA for e in o.state.events)
        R.paths = len(outsA)
        self.note_live(I, "A", outsA)
        for oA in outsA:
            if self.domain is not None and not self.domain(I, oA.state, vals):
                continue
            I.loops_by_ordinal = {}
            la = {e[1]: e for e in oA.state.events if e[0] == "loop"}
            used = {}
            pairs = {}

            def pair(s, lid, site, nm, loc, entry, ty):
                if I.tag != "B":
                    return None
                A = la.get(lid)
                if A is None:
                    if loc[0][0] == "arg":
                        pass
                    return None
                k = (lid, loc)
                cand = None
                for prefer in ("loc", "name", "any"):
                    for vA in A[3]:
                        nA, lA, eA, tA, tyA = vA
                        if (A[2], nA, site, nm) in self.rejected:
                            continue
                        if used.get((lid, lA), loc) != loc:
                            continue
                        arg = loc[0][0] in ("arg", "*")
                        if arg != (lA[0][0] in ("arg", "*")):
                            continue
                        if prefer == "loc" and not (arg and lA[0] == loc[0] and _p(lA[1]) == _p(loc[1])):
                            continue
                        if prefer == "name" and nA != nm or prefer != "loc" and arg:
                            continue
                        if prefer != "loc" and ty is not None and tyA is not None and canon_ty(ty) != canon_ty(tyA):
                            continue
                        if I.kc(s, eA) != I.kc(s, entry) and I.orderings(s, eA, entry) != frozenset("="):
                            if not (self.any_start and prefer == "name" and eA[0] == entry[0] == "c" and eA[1] != entry[1]):
                                continue
                            self.starts[(A[2], nA)] = (nA, eA, entry)
                        cand = vA
                        break
                    if cand is not None:
                        break
                if cand is None:
                    if DEBUG:
                        print("unpaired", nm, loc, show(entry), tytext(ty), [(v[0], v[1], show(v[2]), tytext(v[4])) for v in A[3]])
                    return None
                used[(lid, cand[1])] = loc
                pairs[(lid, loc)] = (cand, (A[2], cand[0], site, nm))
                return cand[3]

            I.tag, I.loop_pair = "B", pair
            I.loop_leaf_cache = dict(self.leaves)
            I.forced = {("B", lid): {v[1] for v in e[3] if v[1][0][0] == "arg"} for lid, e in la.items()}
            try:
                stB = State(dict(mem0), {k: v for k, v in oA.state.facts.items() if k[0] != "over"})
                for k, v in oA.state.mem.items():
                    if k[0] == "*" and k not in stB.mem:
                        pass
                I.paths = 0
                outsB = I.analyse(self.spec, vals, stB)
            finally:
                I.tag, I.loop_pair = "A", None
            # leaves of the arguments the specification's loop modifies must be arbitrary in the implementation's too
            for oB in outsB:
                for e in oB.state.events:
                    if e[0] == "loop" and e[1] in la and e[2] is not None:
                        mine = {(v[1][0], _p(v[1][1])) for v in la[e[1]][3]}
                        for v in e[3]:
                            if v[1][0][0] == "arg" and (v[1][0], _p(v[1][1])) not in mine:
                                cur = self.forced.setdefault(("A", e[1]), set())
                                if v[1] not in cur:
                                    cur.add(v[1])
                                    self.again = True
            if self.again:
                continue
            self.note_live(I, "B", outsB)
            self.steps = {**back_edges(I, outsA), **back_edges(I, outsB)}
            for oB in outsB:
                R.cases += 1
                self.compare(I, R, oA, oB, pairs, vals, la)
            if not outsB:
                R.agree += 1      # the specification has no behaviour here: the facts are contradictory
        R.inlined = len(I.inlined)

    def note_live(self, I, side, outs):
        for o in outs:
            for e in o.state.events:
                if e[0] != "loop":
                    continue
                for v in e[3]:
                    if v[0] in self.live[side] or v[3][0] != "tok":
                        continue
                    root = {v[3][1]}
                    if mentions(o.state.trail, root) or mentions([x[2:] for x in o.state.events if x[0] in ("write", "call")], root) \
                            or o.kind == "return" and mentions(I.snap(o.state, o.ret), root) \
                            or any(c != v[1][0] and mentions(m, root) for c, m in o.state.mem.items()):
                        self.live[side].add(v[0])

    # -------------------------------------------------------------- comparison of one pair of paths
    soft = False
    stepped = False
    mine, absent = False, None       # of the pair compared last: loop variables only the implementation has; call only the specification does

    def loops_incomparable(self, oA, oB):
        """The two sides iterate differently: differences downstream prove nothing, unless one side has no loop at all."""
        lA, lB = ([e[1] for e in o.state.events if e[0] == "loop"] for o in (oA, oB))
        if len(lA) == len(lB):
            sA, sB = ({e[1]: e[2] for e in o.state.events if e[0] in ("advance", "exhausted")} for o in (oA, oB))
            for l in set(lA) | set(lB):
                a, b = sA.get(l), sB.get(l)
                if (a is None) != (b is None):
                    return True
                if a is not None and key(a) != key(b):
                    if other_words_wrapped(self.I_, oB.state, a, b):
                        continue
                    if not (folds.plain(a) and folds.plain(b)) and not other_count(self.I_, a, b):
                        return True
                    if singled_out(oA) != singled_out(oB):
                        return True       # an element may be dealt with outside the loop
            return False
        if lA and lB:
            return not self.prefix_loops(oA, oB)
        none, some_ = (oA, oB) if not lA else (oB, oA)
        if any(e[0] == "sloop" and e[2:3] != ("idle",) for e in none.state.events):
            return True
        for t in some_.state.trail:
            if t[0] == "bool" and t[1][0] == "app" and t[1][1] == "more" and t[1][2][0][1][0] == "adt":
                return True       # written-out elements
        return False

    def left_out(self, oA, oB, tA, tB):
        """The source of a loop only one side has, when everything else that is written is the same and in the same order"""
        if any(e[0] == "sloop" and e[2:3] != ("idle",) for o in (oA, oB) for e in o.state.events) and \
                not same_summaries(oA, oB):
            return None
        if len([t for t in tA if t[0] == "loop"]) == len([t for t in tB if t[0] == "loop"]):
            return None
        seqs = []
        for o, t in ((oA, tA), (oB, tB)):
            src = {e[1]: e[2] for e in o.state.events if e[0] in ("advance", "exhausted")}
            if any(x[0] == "loop" and x[1] not in src for x in t):
                return None
            seqs.append([("loop", key(src[x[1]]), src[x[1]]) if x[0] == "loop" else ("write", sink(x[1]), x[2]) if x[0] == "write" else
                         ("call", (x[1], tuple("*" if "loop:" in repr(key(y)) or "post:" in repr(key(y)) else key(y) for y in x[2]))) for x in t])
        short, long_ = sorted(seqs, key=lambda q: sum(x[0] == "loop" for x in q))
        if DEBUG and len(short) < len(long_):
            print("SEQ", [(x[0], show(x[2]) if x[0] != "call" else x[1]) for x in short], [(x[0], show(x[2]) if x[0] != "call" else x[1]) for x in long_])
        for i, x in enumerate(long_):
            if x[0] == "loop" and x[1][0] == "app" and "textwrap::wrap" in repr(x[1]):
                rest = merge_writes(long_[:i] + long_[i + 1:])
                if [y[:2] + ((key(y[2]),) if y[0] == "write" else ()) for y in rest] == \
                        [y[:2] + ((key(y[2]),) if y[0] == "write" else ()) for y in merge_writes(short)]:
                    return x[2]
        return None

    def prefix_loops(self, oA, oB):
        """One side iterates over the same things first, and the other over something more."""
        short, long_ = (oA, oB) if sum(e[0] == "loop" for e in oA.state.events) < sum(e[0] == "loop" for e in oB.state.events) else (oB, oA)
        if any(e[0] == "sloop" and e[2:3] != ("idle",) for e in short.state.events):
            return False
        ls, ll = ([e[1] for e in o.state.events if e[0] == "loop"] for o in (short, long_))
        if not ls or ll[:len(ls)] != ls:
            return False
        s, l = ({e[1]: e[2] for e in o.state.events if e[0] in ("advance", "exhausted")} for o in (short, long_))
        return all(x in s and x in l and key(s[x]) == key(l[x]) for x in ls)

    def verdict_effect(self, I, oA, oB, tA, tB, i):
        for t in tA[i:i + 1] + tB[i:i + 1]:
            if t[0] == "call" and t[1].startswith(IN_MEMORY):
                return None       # an iterator or collection operation the analysis does not see through
        return self.verdict_structure(I, oA, oB, tA, tB, i)

    def unlinked(self, oA, oB, loops=None):
        """Loop variables of either side that have no counterpart on the other: (tokens, both sides have some).
        One whose update was compared with that of its namesake and found different is not counted."""
        lA, lB = ({e[1]: e[3] for e in o.state.events if e[0] == "loop"} for o in (oA, oB))
        if positions(oA.state.trail) != positions(oB.state.trail):
            # one side decides by the number of the iteration, which stands for what the other's variables remember
            differ = set()
        else:
            differ = {k[1] for k, v in self.rejected.items() if k[1] == k[3] and v[1] is False and k[1] in self.live["A"] and k[3] in self.live["B"]}
        toks, both = set(), False
        for lid in set(lA) & set(lB):
            if loops is not None and lid not in loops:
                continue
            mine = {v[0]: v for v in lA[lid]}
            for v in lB[lid]:
                w = mine.get(v[0])
                if w is not None and canon_ty(v[4]) == canon_ty(w[4]) and tytext(w[4]) not in COUNTERS \
                        and definite(self.I_, oB.state, self.I_.snap(oA.state, w[2]), self.I_.snap(oB.state, v[2])):
                    differ.add(v[0])      # a namesake that starts from something else
            kB = {key(v[3]) for v in lB[lid]}
            kA = {key(v[3]) for v in lA[lid]}
            a = {key(v[3]) for v in lA[lid] if key(v[3]) not in kB and v[0] not in differ}
            b = {key(v[3]) for v in lB[lid] if key(v[3]) not in kA and v[0] not in differ}
            toks |= a | b
            self.mine = self.mine or bool(a)
            both = both or bool(a) and bool(b)
        return toks, both

    def receives(self, toks):
        name, args = self.absent
        if not args or not all(t[0] == "tok" for t in toks):
            return False
        got = {t[1] for t in loop_toks(args[0])}
        rest = [unloop(key(x)) for x in args[1:]]
        return all(len(t[1]) > 1 and t[1][1] in got for t in toks) and bool(rest) and not any(loop_toks(x) for x in args[1:]) and not any(
            e[0] == "call" and e[1] == name and [unloop(key(x)) for x in e[2][1:]] == rest for o in self.outsA for e in o.state.events)

    def stateless(self):
        """The implementation asks about nothing the specification does not ask about, and summarises no loop."""
        if self.plain_ is None:
            ta, tb = set(), set()
            for o in self.outsA:
                questions(o.state.trail, ta)
            try:
                I = self.interp()
                st, vals, tys = setup(self.P, self.spec, self.args)
                I.arg_tys = tys
                if self.setup_hook:
                    self.setup_hook(I, st)
                for o in I.analyse(self.spec, vals, st):
                    questions(o.state.trail, tb)
                self.plain_ = ta <= tb and not any(
                    e[0] == "sloop" and e[2:3] != ("idle",) or e[0] == "call" and "closure:" in repr(e[2]) for o in self.outsA for e in o.state.events)
                if DEBUG:
                    print("STATELESS", self.plain_, ta - tb)
            except (Budget, Unsupported, RecursionError):
                self.plain_ = False
        return self.plain_

    def unsure(self, oA, oB, more, loops):
        """The difference depends on loop variables that are not linked to anything on the other side."""
        self.mine = False
        toks, both = self.unlinked(oA, oB, loops)
        if DEBUG:
            print("UNLINKED", toks, both, [(k[1], k[3], v[0][:200], v[1]) for k, v in self.rejected.items()])
        if self.absent is not None and toks and self.receives(toks) and self.stateless():
            return False      # what differs is only the receiver of a call that the implementation never makes
        if both:
            return True
        if self.absent is not None and not self.mine and not any(
                e[0] == "call" and (e[1] == self.absent[0] or "closure:" in repr(e[2])) or e[0] == "sloop" and e[2:3] != ("idle",)
                for o in self.outsA for e in o.state.events):
            return False      # the implementation never does it, and keeps nothing of its own that could stand for it
        if toks and not self.mine and self.stateless():
            return False      # no more is remembered or asked than the specification does, and something it remembers is not
        roots = {t[1] for t in toks if t[0] == "tok"}
        return bool(roots) and (mentions(oA.state.trail, roots) or mentions(oB.state.trail, roots) or mentions(more, roots))

    def note(self, R, verdict, text, st, loops=None):
        if verdict is False and not self.soft and not self.stepped and self.unsure(self.oA, self.oB, self.parts, loops):
            R.undecided.append("loop variables without a counterpart: " + text)
        elif verdict is None or self.soft or self.no_fold and self.absent is None:
            R.undecided.append(text)
        else:
            R.bad.append((f"{text}; path: {facts_text(st)}", self.oA.state.trail, st.trail))

    def compare(self, I, R, oA, oB, pairs, vals, la):
        st = oB.state
        # a sink may refuse text anywhere; splitting a text into other pieces moves the points where that is noticed
        madeA, madeB = ({e[1] for e in o.state.events if e[0] == "wres"} for o in (oA, oB))
        for made, facts, o in ((madeA, oB.state.facts, oB), (madeB, oA.state.facts, oA)):
            for k, v in facts.items():
                if k[0] == "var" and k[1][0] == "tok" and k[1][1][0] == "wres" and v == frozenset(["Err"]) and k[1] not in made \
                        and k[1] in (madeB if o is oB else madeA):
                    if o is oB or self.is_err(I, oA):
                        R.agree += 1
                    else:
                        R.undecided.append("a failed write does not end the function with an error")
                    return
        self.I_ = I
        for o, sh in zip((oA, oB), self.shapes):
            if o.kind == "return" and not self.is_err(I, o):
                sh.add(tuple(unloop(key(e[2])) for e in o.state.events if e[0] in ("advance", "exhausted")))
        self.oA, self.oB, self.parts, self.absent, self.stepped = oA, oB, (), None, False
        self.soft = self.loops_incomparable(oA, oB)
        if oB.kind == "panic" and oA.kind != "panic":
            R.agree += 1
            return
        if oA.kind == "panic":
            if oB.kind == "panic" or not self.panics:
                R.agree += 1
            else:
                lA, lB = ([e[1] for e in o.state.events if e[0] == "loop"] for o in (oA, oB))
                self.note(R, None if lA != lB else False, f"panics ({oA.info[0]} {oA.info[1] if len(oA.info) > 1 else ''}) where the specification "
                                    f"{self.endtext(oB)}", st)
            return
        known = {key(p[0][3]) for p in pairs.values()}
        tA, tB = trace(I, oA.state, self.effects), trace(I, oB.state, self.effects)
        lB = {e[1]: e for e in oB.state.events if e[0] == "loop"}
        if oA.kind == oB.kind == "return" and not self.is_err(I, oA) and not self.is_err(I, oB):
            miss = self.left_out(oA, oB, tA, tB)
            if miss is not None:
                R.bad.append((f"never goes through {show(miss)}, which the specification {'writes' if len(tB) > len(tA) else 'does not write'}; "
                              f"path: {facts_text(st)}", (), ()))
                return
        # effects
        n = min(len(tA), len(tB))
        for i in range(n):
            x, y = tA[i], tB[i]
            if x[0] == "loop" and y[0] == "loop":
                continue
            if x[0] != y[0] or x[0] != "loop" and x[1] != y[1]:
                v = self.verdict_effect(I, oA, oB, tA, tB, i)
                self.absent = y[1:3] if y[0] == "call" else None
                self.note(R, v, f"does {self.efftext(x)} where the specification does {self.efftext(y)}", st,
                          {t[1] for t in tA[:i] + tB[:i] if t[0] == "loop"})
                return
            aa = [x[2]] if x[0] == "write" else list(x[2])
            bb = [y[2]] if y[0] == "write" else list(y[2])
            if x[0] == "call" and x[1] in self.ignore:
                continue
            for p, q in zip(aa, bb):
                self.parts = (I.snap(oA.state, p), I.snap(oB.state, q))
                r = self.same(I, oA, oB, st, p, q, known)
                if r is not True:
                    self.note(R, r, f"does {self.efftext(x)} where the specification does {self.efftext(y)}", st)
                    return
            if len(aa) != len(bb):
                self.note(R, None, "different number of arguments", st)
                return
        if len(tA) != len(tB):
            longer, who = (tA, "implementation") if len(tA) > len(tB) else (tB, "specification")
            rest = longer[n:]
            if all(t[0] == "loop" for t in rest):
                # loops without effects of their own on this path
                pass
            else:
                v = self.verdict_effect(I, oA, oB, tA, tB, n)
                self.absent = rest[0][1:3] if longer is tB and rest[0][0] == "call" else None
                self.note(R, v, f"only the {who} does {self.efftext(next(t for t in rest if t[0] != 'loop'))}", st)
                return
        # how the path ends
        kA = oA.info[2] if oA.kind == "iter" else None
        kB = oB.info[2] if oB.kind == "iter" else None
        if (oA.kind, kA) != (oB.kind, kB):
            same_loops = [t[1] for t in tA if t[0] == "loop"] == [t[1] for t in tB if t[0] == "loop"]
            v = False if same_loops and self.comparable_loops(I, oA, oB) else None
            self.note(R, v, f"{self.endtext(oA)} where the specification {self.endtext(oB)}", st)
            return
        if oA.kind == "return":
            self.parts = (I.snap(oA.state, oA.ret), I.snap(oB.state, oB.ret))
            r = self.same(I, oA, oB, st, oA.ret, oB.ret, known, top=True)
            if r is not True:
                self.note(R, r, f"returns {show(I.snap(oA.state, oA.ret))} where the specification returns "
                                f"{show(I.snap(oB.state, oB.ret))}", st)
                return
        # memory behind the arguments
        for cell in sorted({c for c in list(oA.state.mem) + list(oB.state.mem) if c[0] in ("arg", "*")}, key=repr):
            if cell in self.ignore:
                continue
            a = oA.state.mem.get(cell)
            b = oB.state.mem.get(cell)
            if cell[0] == "*":
                d = ("tok",) + cell[1][1:2] + (None,) if cell[1][0] == "tok" else None
                if d is None or cell[1][1][0] not in ("elem", "nth") and not str(cell[1][1][0]).startswith("a"):
                    continue
                a, b = a if a is not None else d, b if b is not None else d
            if a is None or b is None or a == b:
                continue
            if oA.kind == "return" and self.is_err(I, oA) and cell[0] == "arg" and not self.strict_err:
                continue
            self.parts = (I.snap(oA.state, a), I.snap(oB.state, b))
            r = self.same(I, oA, oB, st, a, b, known)
            if r is not True:
                w = f"argument {cell[1]}" if cell[0] == "arg" else "the element"
                self.note(R, r, f"leaves {w} as {show(I.snap(oA.state, a))} where the specification leaves "
                                f"{show(I.snap(oB.state, b))}", st)
                return
        # loop variables at the back edge
        if oA.kind == "iter":
            for (lid, locB), (vA, pk) in pairs.items():
                if lid != kA:
                    continue
                if locB[0][0] == "arg":
                    continue
                try:
                    a, b = I.read_loc(oA.state, vA[1]), I.read_loc(oB.state, locB)
                except Unsupported:
                    continue
                if vA[1][0] not in oA.state.mem or locB[0] not in oB.state.mem:
                    continue
                r = self.same(I, oA, oB, st, a, b, known)
                if r is not True:
                    if self.pending.get(pk, (0, None))[1] is False:
                        continue
                    self.pending[pk] = (f"loop variable {vA[0]} becomes {show(I.snap(oA.state, a))} where the specification's "
                                         f"{pk[3]} becomes {show(I.snap(oB.state, b))}", r, facts_text(st))
                    self.again = True
            if self.pending:
                return
        R.agree += 1

    strict_err = False

    def is_err(self, I, o):
        v = I.snap(o.state, o.ret)
        return v[0] == "adt" and v[2] == "Err" or v[0] in ("tok", "app") and I.get_variant(o.state, v) == "Err"

    def comparable_loops(self, I, oA, oB):
        return True

    def verdict_structure(self, I, oA, oB, tA, tB, i):
        """Effects out of step.  Definite only when the loops before that point agree and nothing uninterpreted was called."""
        lA, lB = [t[1] for t in tA if t[0] == "loop"], [t[1] for t in tB if t[0] == "loop"]
        if len(lA) != len(lB) and self.prefix_loops(oA, oB) and i >= min(len(tA), len(tB)):
            return False
        if len(lA) != len(lB):
            eA, eB = ({sink(t[1]) for t in x if t[0] != "loop"} for x in (tA, tB))
            if not lA and eA < eB and not any(e[0] == "sloop" and e[2:3] != ("idle",) for e in oA.state.events) and not any(
                    e[0] == "call" and "closure:" in repr(e[2]) for e in oA.state.events):
                return False      # nothing is done that the specification does not do, and some of that never
            return False if not (eB <= eA) and not (eA <= eB) else None
        if i < len(tA) and i < len(tB) and (tA[i][0] == "loop") != (tB[i][0] == "loop"):
            # one side goes on with an effect and the other with a loop, which may do the same in steps
            sA, sB = ({e[1]: key(e[2]) for e in o.state.events if e[0] in ("advance", "exhausted")} for o in (oA, oB))
            loop, mine, rest, theirs = (tA[i], sA, tB[i:], sB) if tA[i][0] == "loop" else (tB[i], sB, tA[i:], sA)
            src = mine.get(loop[1])
            return False if any(t[0] == "loop" and (src is None and theirs.get(t[1]) is None or src == theirs.get(t[1])) for t in rest) \
                or not any(t[0] == "loop" for t in rest) and not self.open_ended(rest) else None
        return False

    def open_ended(self, rest):
        return any("str::repeat" in show(t[2]) for t in rest if t[0] == "write")

    def efftext(self, t):
        if t[0] == "write":
            return f"write {show(t[2])}"
        if t[0] == "loop":
            return "a loop"
        return f"call {t[1]}({', '.join(show(x) for x in t[2])})"

    def endtext(self, o):
        if o.kind == "return":
            return f"returns {show(o.ret)}"
        if o.kind == "iter":
            return "goes on with the next element"
        return "panics"

    def same(self, I, oA, oB, st, a, b, known, top=False):
        a, b = I.snap(oA.state, a), I.snap(oB.state, b)
        if key(a) == key(b):
            return True
        a = strip_err(a) if self.err_any else a
        b = strip_err(b) if self.err_any else b
        if top and self.err_any:
            va, vb = tagname(I, st, a), tagname(I, st, b)
            if va == vb == "Err":
                return True
        worst = True
        I.known_toks = known
        for s, r in matches(I, st, a, b):
            if r is True:
                continue
            if unknown(a, I, known) or unknown(b, I, known):
                if self.later_differ(I, oA, oB, s, a, b) or self.later_differ(I, oB, oA, s, b, a):
                    self.stepped = True
                    return False
                rej = self.blame(a, b)
                if rej is not None:
                    return self.blamed(rej)
                worst = None
            elif definite(I, s, a, b):
                return False
            else:
                worst = None
        return worst

    def later_differ(self, I, oA, oB, st, a, b):
        """b depends on variables that are constants from the second iteration on, and a stays the same in all: the two differ then"""
        k = repr(key(a))
        ts = set(loop_toks(b))
        if not ts or "loop:" in k or "'elem'" in k or "'nth'" in k or "'fold'" in k:
            return False
        for t in ts:
            c = self.steps.get(t)
            if c is None or len(c) != 1 or next(iter(c))[0] != "c" or decides(oB.state.trail, t):
                return False
        b2 = with_tokens(b, {t: next(iter(self.steps[t])) for t in ts})
        return any(r is not True and definite(I, s2, a, b2) for s2, r in matches(I, st, a, b2))

    def blame(self, a, b):
        """A rejected loop variable pair whose difference explains this one."""
        ta, tb = loop_toks(a), loop_toks(b)
        for (sA, nA, sB, nB), (text, r, ft) in self.rejected.items():
            if r is False and nA == nB and (any(x[1] == nA for x in ta) or any(x[1] == nB for x in tb)):
                return text
        return None

    def blamed(self, text):
        self.last_blame = text
        return False


COUNTERS = {t + n for t in "iu" for n in ("8", "16", "32", "64", "size")} | {"f32", "f64"}


def mentions(k, roots):
    if isinstance(k, (tuple, list)):
        if len(k) >= 2 and k[0] == "tok" and isinstance(k[1], tuple) and any(k[1][:len(r)] == r for r in roots):
            return True
        return any(mentions(x, roots) for x in k)
    return False


def questions(k, out):
    """What the questions of a path are about: tokens (loops and their variables apart) and uninterpreted terms"""
    k = unloop(key(k)) if isinstance(k, tuple) and k and k[0] in ("tok", "app", "adt", "c") else k
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] == "tok" and isinstance(k[1], tuple):
            out.add(tuple("#" if isinstance(x, int) else x for x in k[1]) if "loop" not in repr(k[1]) else "loop")
            return
        if len(k) >= 3 and k[0] == "app":
            out.add(("app", k[1]))
        for x in k:
            questions(x, out)


def decides(k, t):
    """Whether a question is asked about token t itself (and not about the result of a call it was passed to)"""
    if isinstance(k, (tuple, list)):
        if len(k) >= 2 and k[0] == "app" and isinstance(k[1], str) and "::" in k[1]:
            return False
        if len(k) >= 2 and k[0] == "tok" and isinstance(k[1], tuple) and k[1][:len(t)] == t:
            return True
        return any(decides(x, t) for x in k)
    return False


def back_edges(I, outs):
    """{loop variable: the values it has at the end of an iteration}"""
    res = {}
    for o in outs:
        if o.kind != "iter":
            continue
        for e in o.state.events:
            if e[0] == "loop" and e[1] == o.info[2]:
                for v in e[3]:
                    if v[3][0] == "tok":
                        try:
                            x = I.snap(o.state, I.read_loc(o.state, v[1]))
                        except Unsupported:
                            x = v[3]
                        res.setdefault(v[3][1], set()).add(x if x[0] == "c" else ("tok",))
    return res


def with_tokens(v, m):
    if v[0] == "tok":
        return m.get(v[1], v)
    if v[0] == "app":
        return (v[0], v[1], tuple(x if x[0] == "k" else with_tokens(x, m) for x in v[2])) + v[3:]
    if v[0] == "adt":
        return v[:3] + (tuple(with_tokens(x, m) for x in v[3]),) + v[4:]
    return v


def merge_writes(t):
    out = []
    for x in t:
        if x[0] == "write" and out and out[-1][0] == "write" and out[-1][1] == x[1]:
            out[-1] = ("write", x[1], concat([out[-1][2], x[2]]))
        else:
            out.append(x)
    return [x for x in out if not (x[0] == "write" and x[2][0] == "c" and x[2][1] == "")]


def same_summaries(oA, oB):
    a, b = (sum(e[0] == "sloop" for e in o.state.events) for o in (oA, oB))
    return a == b


def arithmetic(v):
    return v[0] in ("tok", "c") or v[0] == "app" and v[1] in ("add", "sub", "mul", "lin") and all(arithmetic(x) for x in v[2])


def other_words_wrapped(I, st, a, b):
    """The lines of two different constant texts, wrapped in the same way, or of one text wrapped at another width"""
    while a[0] == b[0] == "app" and a[1] == b[1] and a[1] in ("iter:own", "iter:ref"):
        a, b = a[2][-1], b[2][-1]
    if not (a[0] == b[0] == "app" and a[1] == b[1] == "textwrap::wrap" and len(a[2]) == len(b[2])):
        return False
    diff = [(x, y) for x, y in zip(a[2], b[2]) if key(x) != key(y)]
    return len(diff) == 1 and (diff[0][0][0] == diff[0][1][0] == "c" or
                               all(arithmetic(v) for v in diff[0]) and I.orderings(st, *diff[0]) != frozenset("=") and definite(I, st, *diff[0]))


def positions(k):
    """Whether a question is asked about the number of an iteration"""
    if isinstance(k, (tuple, list)):
        if len(k) >= 3 and k[0] == "elem" and isinstance(k[1], tuple) and k[1][:2] == ("app", "iter:range"):
            return True
        return any(positions(x) for x in k)
    return False


def singled_out(o):
    """Elements that are named by their place"""
    out = set()

    def walk(k):
        if isinstance(k, (tuple, list)):
            if len(k) >= 3 and k[0] in ("nth", "iter:skip"):
                out.add(repr(k[:3]))
            for x in k:
                walk(x)
    walk(o.state.trail)
    walk([e[2] for e in o.state.events if e[0] in ("write", "call")])
    return out


def sink(k):
    """The place written to, whichever loop it is seen from"""
    if isinstance(k, tuple) and len(k) == 2 and k[0] == "tok" and len(k[1]) == 2 and isinstance(k[1][0], str) and k[1][0].startswith("loop:"):
        return ("tok", k[1][1:])
    return k


IN_MEMORY = ("Iterator::", "Peekable::", "DoubleEndedIterator::", "slice::", "Vec::", "VecDeque::", "str::", "String::", "Option::",
             "BTreeMap::", "HashMap::", "HashSet::", "BTreeSet::", "mem::", "std::mem::")
SUMMARIES = ("fold", "count", "lam", "nchars", "list")


def asked(I, trail):
    """Uninterpreted terms that the questions of a path are about"""
    out = set()
    for t in trail:
        for v in t[1:3]:
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                summaries(I, unloop(key(v)), out)
    return out


def regexes(k, out):
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] == "tok" and isinstance(k[1], tuple) and k[1] and k[1][0] == "regex":
            out.add(k[1][1])
            return
        for x in k:
            regexes(x, out)
    elif isinstance(k, list):
        for x in k:
            regexes(x, out)


def unloop(k):
    if isinstance(k, tuple):
        return tuple(unloop(x) for x in k)
    if isinstance(k, str) and k.startswith(("loop:A:", "loop:B:")):
        return "loop:" + k[7:]
    return k


def summaries(I, k, out):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "app" and isinstance(k[1], str) and (
                k[1] in SUMMARIES or k[1] in I.unmodelled and k[1] not in DISTINCT or
                k[1].startswith("iter:") and k[1] not in ("iter:ref", "iter:own", "iter:rev", "iter:chars")):
            out.add(k)
            return
        for x in k:
            summaries(I, x, out)


def hole(k):
    """A question with constants and the cases of its folds left out"""
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == "app" and k[1] == "fold":
            return ("fold", hole(k[2][:2]))
        if len(k) == 3 and k[0] == "app" and k[1] == "lam":
            return ("lam",)
        if len(k) == 3 and k[0] == "c":
            return ("c",)
        if len(k) == 3 and k[0] == "app" and isinstance(k[1], str) and k[1] not in SUMMARIES and not k[1].startswith("iter:"):
            return ("app", k[1])
        return tuple(hole(x) for x in k)
    return k


def canon_ty(t):
    s = re.sub(r"<[A-Z]\w*>::", "::", tytext(t).lstrip("&").strip())      # an associated type of a generic parameter, whatever its name
    return "str" if s in ("String", "std::string::String") else s


def tytext(t):
    return "" if t is None else t if isinstance(t, str) else T.show(t)


def _p(path):
    return tuple(p[:2] for p in path)


def strip_err(v):
    if v[0] == "adt" and v[1] == "Result" and v[2] == "Err":
        return ("adt", "Result", "Err", (ANY,))
    return v


def tagname(I, st, v):
    if v[0] == "adt":
        return v[2]
    if v[0] in ("tok", "app"):
        return I.get_variant(st, v)
    return None


def loop_toks(v, out=None):
    out = out if out is not None else []
    if v[0] == "tok":
        if v[1] and isinstance(v[1][0], str) and v[1][0].startswith("loop:"):
            out.append(v[1])
    elif v[0] in ("app",):
        for x in v[2]:
            if x[0] != "k":
                loop_toks(x, out)
    elif v[0] == "adt":
        for x in v[3]:
            loop_toks(x, out)
    return out


def other_count(I, a, b):
    """Two ranges of numbers whose sizes differ by a constant"""
    if not all(x[0] == "app" and x[1] == "iter:range" for x in (a, b)):
        return False
    def lin(v):
        k = key(v)
        return (None, k[1]) if k[0] == "c" and isinstance(k[1], int) else klin(k)
    ends = [(lin(x[2][0]), lin(x[2][1])) for x in (a, b)]
    (la, ha), (lb, hb) = ends
    if ha[0] != hb[0] or la[0] != lb[0]:
        return False
    return (ha[1] - la[1]) != (hb[1] - lb[1])


def inside_loop_var(path):
    """path leads to a proper part (field or element) of a loop variable"""
    if not path:
        return False
    if isinstance(path[0], str) and path[0].startswith("loop:"):
        return len(path) > 2
    if path[0] in ("nth", "elem") and isinstance(path[1], tuple):
        return mentions_loop(path[1])
    return False


def mentions_loop(k):
    return isinstance(k, tuple) and any(mentions_loop(x) or isinstance(x, str) and x.startswith("loop:") for x in k)


def unknown(v, I, known):
    """Whether v contains a loop token that is not known to be the same on both sides."""
    for t in loop_toks(v):
        if not any(k[0] == "tok" and t[:len(k[1])] == k[1] for k in known):
            return True
    return False


# Library functions that are left uninterpreted but whose results are known to differ from each other's in general.
DISTINCT = {"str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::starts_with",
            "str::ends_with", "str::contains", "str::is_empty", "str::replace", "str::strip_prefix", "str::strip_suffix",
            "str::find", "str::rfind", "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::split_once", "str::rsplit_once", "str::repeat"}
STRUCT = {"push", "fmt", "slice", "len", "lin", "add", "sub", "mul", "div", "rem", "neg", "widen", "init", "vconcat", "elem",
          "display", "debug", "compact", "context", "get", "nchars", "count", "upd", "fold"}


def opaque_apps(v, I, out):
    if v[0] == "app":
        n = v[1]
        if n not in STRUCT and n not in DISTINCT:
            out.add(n)
        for x in v[2]:
            if x[0] != "k":
                opaque_apps(x, I, out)
    elif v[0] == "adt":
        for x in v[3]:
            opaque_apps(x, I, out)
    elif v[0] == "tok" and v[1] and v[1][0] == "elem":
        pass
    return out


def is_iterator(v):
    return v[0] == "app" and isinstance(v[1], str) and v[1].startswith("iter")


def has_fold(v):
    from .folds import folds_in
    return bool(folds_in(v))


def fold_keys(v):
    from .folds import folds_in
    return {key(f) for f in folds_in(v)}


ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "/", "neg": "~"}


def polynomial(v, depth=0):
    """{monomial: coefficient}: what an arithmetic term computes, as if exactly; None: too large"""
    if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        c = Fraction(repr(v[1])) if isinstance(v[1], float) and v[1] == v[1] and abs(v[1]) != float("inf") else v[1]
        return {(): Fraction(c)} if c else {}
    if v[0] == "app" and v[1] in ARITH and depth < 12:
        ps = [polynomial(x, depth + 1) for x in v[2]]
        if None in ps:
            return None
        if v[1] == "neg":
            return {m: -c for m, c in ps[0].items()}
        x, y = ps
        if v[1] in ("add", "sub"):
            r = dict(x)
            for m, c in y.items():
                r[m] = r.get(m, 0) + (c if v[1] == "add" else -c)
            return {m: c for m, c in r.items() if c}
        if v[1] == "div":
            if len(y) != 1:
                return {((repr(key(v)), 1),): Fraction(1)}
            (m, c), = y.items()
            y = {tuple((a, -n) for a, n in m): 1 / c}
        r = {}
        for m1, c1 in x.items():
            for m2, c2 in y.items():
                e = dict(m1)
                for a, n in m2:
                    e[a] = e.get(a, 0) + n
                m = tuple(sorted((a, n) for a, n in e.items() if n))
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c} if len(r) < 200 else None
    return {((repr(key(v)), 1),): Fraction(1)}


def same_formula(a, b):
    if not any(x[0] == "app" and x[1] in ARITH for x in (a, b)):
        return False
    p, q = polynomial(a), polynomial(b)
    return p is None or q is None or p == q


BOOLS = {"eq", "ne", "lt", "le", "gt", "ge", "not", "and", "or", "is_variant"}


def boolish(v):
    return v[0] == "c" and isinstance(v[1], bool) or v[0] == "app" and v[1] in BOOLS or \
        v[0] == "tok" and len(v) > 2 and tytext(v[2]) == "bool" or v[0] == "app" and len(v) > 3 and tytext(v[3]) == "bool"


def definite(I, st, a, b):
    """Whether a and b, not proved equal, are really different (and not just beyond the analysis)."""
    if a == ANY or b == ANY:
        return False
    if key(a) == key(b) or same_formula(a, b):
        return False
    for x, y in ((a, b), (b, a)):
        if y[0] == "app" and y[1] in ("push", "init", "without", "inserted") and key(y[2][0]) == key(x):
            return True            # one element more or less
    if a[0] == "app" and b[0] == "app" and a[1] == b[1] and a[1] in ("fold", "lam"):
        from .folds import same_fold
        return same_fold(I, st, a, b) is False
    if a[0] == "app" and a[1] == "fold" or b[0] == "app" and b[1] == "fold":
        # a summarised loop against something that is not one
        f, o = (a, b) if a[0] == "app" and a[1] == "fold" else (b, a)
        src = f[2][0]
        n = I.orderings(st, I.length(src), const(0, "usize")) if src[0] in ("tok", "app") and not is_iterator(src) else None
        if n == frozenset("="):
            return definite(I, st, f[2][1], o) if f is a else definite(I, st, o, f[2][1])
        return o[0] in ("c", "tok") or o[0] == "adt" and not has_fold(o)
    if (a[0] == "app" and a[1] == "upd" or b[0] == "app" and b[1] == "upd") and (mentions_loop(key(a)) or mentions_loop(key(b))):
        return a[0] == b[0] == "app" and a[1] == b[1] and key(a[2][0]) == key(b[2][0]) and a[2][1] == b[2][1] and definite(
            I, st, a[2][2], b[2][2])
    if a[0] == b[0] == "app" and a[1] != b[1] and {a[1], b[1]} & {"without", "inserted"}:
        return False           # the same may be put together from parts
    if a[0] == b[0] == "app" and {a[1], b[1]} == {"init", "slice"}:
        return False           # without its last character, or a part that may be just that
    if boolish(a) and boolish(b) and (a[0] == "app" and a[1] in BOOLS or b[0] == "app" and b[1] in BOOLS):
        if not any(x != y for s, x in I.branch_bool(st, a) for _, y in I.branch_bool(s, b)):
            return False
    if a[0] == "app" and b[0] == "app" and a[1] == b[1] and len(a[2]) == len(b[2]):
        subs = [(x, y) for x, y in zip(a[2], b[2]) if x != y and (x[0] == "k" or y[0] == "k" or key(x) != key(y))]
        if any(x[0] == "k" or y[0] == "k" for x, y in subs):
            return a[1] in STRUCT or a[1] == "elem"
        return any(definite(I, st, x, y) for x, y in subs)
    if a[0] == "tok" and b[0] == "tok" and a[1][:1] == b[1][:1] and a[1][0] in ("nth", "elem") and a[1][1] != b[1][1] \
            and (mentions_loop(a[1][1]) or mentions_loop(b[1][1])):
        return False
    if a[0] == "adt" and b[0] == "adt":
        if a[2] != b[2] or a[1] != b[1] and a[1] != "array" or len(a[3]) != len(b[3]):
            return True
        return any(key(x) != key(y) and definite(I, st, x, y) for x, y in zip(a[3], b[3]) if x != ANY and y != ANY)
    if fold_keys(a) != fold_keys(b):
        return False
    for x, y in ((a, b), (b, a)):
        if y[0] in ("adt", "c") and x[0] == "tok" and inside_loop_var(x[1]):
            return False      # a part of what a loop built up: the loop may guarantee what it is
    for x, y in ((a, b), (b, a)):
        if y[0] == "c" and isinstance(y[1], (int, float)) and not isinstance(y[1], bool) and x[0] in ("tok", "app"):
            if "=" not in I.orderings(st, x, y):
                return True
        if y[0] == "app" and not y[2] and x[0] == "tok" and untouched(st, x[1], key(y)):
            return True       # an input nothing is known about, against something that depends on no input
    oa, ob = opaque_apps(a, I, set()), opaque_apps(b, I, set())
    if (oa | ob) & SOFT or any(n.startswith(("post:", "iter:", "call_unknown", "closure?", "updx", "updf")) for n in oa | ob):
        return False
    # uninterpreted library results on one side only: cannot be told apart from an equivalent formulation
    return not ((oa ^ ob) & (I.unmodelled - DISTINCT))


def untouched(st, k, but):
    """Whether k is a part of an argument of which the path says nothing"""
    if not (isinstance(k, tuple) and k and isinstance(k[0], str) and re.fullmatch(r"a\d+", k[0])):
        return False
    s = repr(k)[:-1]
    return not any(s in repr(f) for f in st.facts if not (f[0] == "ord" and but in f))


SOFT = {"updx", "updf", "default", "kind", "b2i"}
