"""Regular expressions as constants of the program: the pattern of a lazily built static is read out of the initialiser's MIR, and
compared by the language it accepts (deterministic automaton over character classes, with and without the capture groups)."""
import hashlib
import re


class Odd(Exception):
    pass


TOP = 0x110000
SPACE = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F),
         (0x205F, 0x205F), (0x3000, 0x3000)]


def digits(cache=[]):
    """Decimal digits of all scripts"""
    if not cache:
        import unicodedata
        cache += norm([(c, c) for c in range(0x1FFFF) if unicodedata.category(chr(c)) == "Nd"])
    return list(cache)


def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def negate(rs):
    out, at = [], 0
    for a, b in norm(rs):
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at < TOP:
        out.append((at, TOP - 1))
    return tuple(out)


def fold_case(rs):
    out = list(rs)
    for a, b in rs:
        if b - a > 3000:
            continue
        for c in range(a, b + 1):
            for d in (chr(c).upper(), chr(c).lower()):
                if len(d) == 1:
                    out.append((ord(d), ord(d)))
    return norm(out)


class Parser:
    """-> AST: ('set', ranges) | ('cat', [..]) | ('alt', [..]) | ('rep', x, min, max) | ('cap', n, x) | ('at', '^'|'$') | ('lazy', x)"""

    def __init__(self, s, icase=False):
        self.s, self.i, self.n, self.icase = s, 0, 0, icase

    def more(self):
        return self.i < len(self.s)

    def eat(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def alt(self):
        xs = [self.cat()]
        while self.eat("|"):
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.more() and self.s[self.i] not in "|)":
            xs.append(self.repeat())
        return xs[0] if len(xs) == 1 else ("cat", xs)

    def repeat(self):
        x = self.atom()
        while self.more():
            if self.eat("*"):
                x = ("rep", x, 0, None)
            elif self.eat("+"):
                x = ("rep", x, 1, None)
            elif self.eat("?"):
                x = ("rep", x, 0, 1)
            else:
                m = re.compile(r"\{(\d+)(,(\d*))?\}").match(self.s, self.i)
                if not m:
                    return x
                lo = int(m.group(1))
                hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
                if max(lo, hi or 0) > 50:
                    raise Odd("large repetition")
                self.i = m.end()
                x = ("rep", x, lo, hi)
            if self.eat("?"):
                x = ("lazy", x)
        return x

    def chars(self, rs):
        return ("set", fold_case(rs) if self.icase else norm(rs))

    def escape(self):
        if not self.more():
            raise Odd("ends with a backslash")
        c = self.s[self.i]
        self.i += 1
        if c == "n":
            return [(10, 10)]
        if c == "t":
            return [(9, 9)]
        if c == "r":
            return [(13, 13)]
        if c == "s":
            return SPACE
        if c == "S":
            return list(negate(SPACE))
        if c in "dD":
            return digits() if c == "d" else list(negate(digits()))
        if c.isalnum():
            raise Odd(f"class \\{c}")
        return [(ord(c), ord(c))]

    def atom(self):
        if self.eat("("):
            if self.eat("?"):
                m = re.compile(r"([imsUux]*)(?:-([imsUux]*))?(\)|:)").match(self.s, self.i)
                if not m:
                    raise Odd("group")
                if set(m.group(1)) - set("i") or m.group(2):
                    raise Odd("flags")
                self.i = m.end()
                old = self.icase
                self.icase = self.icase or "i" in m.group(1)
                if m.group(3) == ")":
                    return ("cat", [])
                x = self.alt()
                self.icase = old
                if not self.eat(")"):
                    raise Odd("parenthesis")
                return x
            self.n += 1
            n, old = self.n, self.icase
            x = self.alt()
            self.icase = old
            if not self.eat(")"):
                raise Odd("parenthesis")
            return ("cap", n, x)
        if self.eat("["):
            return self.cls()
        c = self.s[self.i]
        self.i += 1
        if c == ".":
            return ("set", negate([(10, 10)]))
        if c in "^$":
            return ("at", c)
        if c == "\\":
            return self.chars(self.escape())
        if c in "*+?{":
            raise Odd("repetition of nothing")
        return self.chars([(ord(c), ord(c))])

    def cls(self):
        neg = self.eat("^")
        rs = []
        first = True
        while True:
            if not self.more():
                raise Odd("class")
            c = self.s[self.i]
            if c == "]" and not first:
                self.i += 1
                break
            first = False
            if c == "[" or self.s.startswith(("&&", "--", "~~"), self.i):
                raise Odd("nested class")
            self.i += 1
            one = self.escape() if c == "\\" else [(ord(c), ord(c))]
            if self.s.startswith("-", self.i) and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]":
                self.i += 1
                d = self.s[self.i]
                self.i += 1
                hi = self.escape() if d == "\\" else [(ord(d), ord(d))]
                if len(one) != 1 or len(hi) != 1:
                    raise Odd("range of classes")
                rs.append((one[0][0], hi[0][0]))
            else:
                rs += one
        rs = fold_case(rs) if self.icase else norm(rs)
        return ("set", negate(rs) if neg else rs)


def parse(s, icase=False):
    p = Parser(s, icase)
    x = p.alt()
    if p.more():
        raise Odd("parenthesis")
    return x


def anchored(x):
    """(x without its outer anchors, starts with ^, ends with $); anchors elsewhere are not understood."""
    xs = list(x[1]) if x[0] == "cat" else [x]
    xs = [y for y in xs if y != ("cat", [])]
    a = b = False
    if xs and xs[0] == ("at", "^"):
        a, xs = True, xs[1:]
    if xs and xs[-1] == ("at", "$"):
        b, xs = True, xs[:-1]

    def inner(y):
        if y[0] == "at":
            raise Odd("inner anchor")
        for z in y[1:]:
            if isinstance(z, list):
                for w in z:
                    inner(w)
            elif isinstance(z, tuple) and z and isinstance(z[0], str):
                inner(z)
    for y in xs:
        inner(y)
    return ("cat", xs), a, b


class Nfa:
    def __init__(self, tags):
        self.eps, self.step, self.tags = [], [], tags

    def new(self):
        self.eps.append([])
        self.step.append([])
        return len(self.eps) - 1

    def build(self, x, s):
        """-> end state"""
        k = x[0]
        if k == "set":
            e = self.new()
            self.step[s].append((x[1], e))
            return e
        if k == "cat":
            for y in x[1]:
                s = self.build(y, s)
            return s
        if k == "alt":
            e = self.new()
            for y in x[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.build(y, a)].append(e)
            return e
        if k == "lazy":
            return self.build(x[1], s)
        if k == "cap":
            if not self.tags:
                return self.build(x[2], s)
            a = self.new()
            self.step[s].append(((("open", x[1]),), a))
            b = self.build(x[2], a)
            e = self.new()
            self.step[b].append(((("close", x[1]),), e))
            return e
        if k == "rep":
            _, y, lo, hi = x
            for _ in range(lo):
                s = self.build(y, s)
            if hi is None:
                a, e = self.new(), self.new()
                self.eps[s].append(a)
                self.eps[a].append(e)
                self.eps[self.build(y, a)].append(a)
                return e
            e = self.new()
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.build(y, s)
                self.eps[s].append(e)
            return e
        raise Odd(k)


def dfa(x, tags):
    """Minimal automaton, as a canonical tuple"""
    x, a, b = anchored(x)
    N = Nfa(tags)
    s0 = N.new()
    anyc = ((0, TOP - 1),)
    if not a:
        N.step[s0].append((anyc, s0))
    s1 = N.new()
    N.eps[s0].append(s1)
    e = N.build(x, s1)
    if not b:
        N.step[e].append((anyc, e))
    cuts, marks = {0, TOP}, set()
    for ss in N.step:
        for rs, _ in ss:
            if rs and isinstance(rs[0][0], str):
                marks.add(rs[0])
            else:
                for lo, hi in rs:
                    cuts |= {lo, hi + 1}
    cuts = sorted(cuts)
    atoms = [(cuts[i], cuts[i + 1] - 1) for i in range(len(cuts) - 1)]
    # characters that no set tells apart are one letter
    groups = {}
    for lo, hi in atoms:
        sig = tuple(i for i, rs in enumerate(sorted({rs for ss in N.step for rs, _ in ss if not (rs and isinstance(rs[0][0], str))}))
                    if any(l <= lo <= h for l, h in rs))
        groups.setdefault(sig, []).append((lo, hi))
    letters = [norm(g) for g in groups.values()] + [(m,) for m in sorted(marks)]
    letters.sort(key=repr)

    def close(S):
        S, todo = set(S), list(S)
        while todo:
            for t in N.eps[todo.pop()]:
                if t not in S:
                    S.add(t)
                    todo.append(t)
        return frozenset(S)
    start = close({s0})
    trans, todo = {}, [start]
    while todo:
        S = todo.pop()
        if S in trans:
            continue
        if len(trans) > 3000:
            raise Odd("large automaton")
        row = []
        for L in letters:
            mark = isinstance(L[0][0], str)
            T = set()
            for s in S:
                for rs, t in N.step[s]:
                    if mark and rs == L or not mark and rs and not isinstance(rs[0][0], str) and any(lo <= L[0][0] <= hi for lo, hi in rs):
                        T.add(t)
            row.append(close(T))
        trans[S] = row
        todo += row
    # partition refinement
    part = {S: int(e in S) for S in trans}
    while True:
        sig = {S: (part[S], tuple(part[t] for t in trans[S])) for S in trans}
        ids = {v: i for i, v in enumerate(sorted(set(sig.values())))}
        new = {S: ids[sig[S]] for S in trans}
        if len(set(new.values())) == len(set(part.values())):
            break
        part = new
    # letters by their effect: characters with the same column are the same letter
    order, names = [start], {part[start]: 0}
    cols = {}
    for S in trans:
        pass
    reps = {}
    for S in trans:
        reps.setdefault(part[S], S)
    column = {}
    for i, L in enumerate(letters):
        c = tuple(part[trans[reps[p]][i]] for p in sorted(reps))
        if isinstance(L[0][0], str):
            c = ("mark", L[0], c)
        column.setdefault(c, []).extend(L)
    lets = sorted((norm(v) if not isinstance(v[0][0], str) else tuple(v), c) for c, v in column.items()) if False else sorted(
        ((norm(v) if not isinstance(v[0][0], str) else tuple(v), c) for c, v in column.items()), key=repr)
    idx = {p: k for k, p in enumerate(sorted(reps))}
    seen, queue, rows = {part[start]: 0}, [part[start]], []
    while queue:
        p = queue.pop(0)
        row = []
        for L, c in lets:
            t = (c[2] if c[0] == "mark" else c)[idx[p]]
            if t not in seen:
                seen[t] = len(seen)
                queue.append(t)
            row.append(seen[t])
        rows.append((int(e in reps[p]), tuple(row)))
    return tuple(L for L, _ in lets), tuple(rows)


def sample(d1, d2):
    """A shortest text that one automaton accepts and the other does not, if any"""
    (l1, r1), (l2, r2) = d1, d2
    cuts = sorted({x for ls in (l1, l2) for L in ls for lo, hi in L for x in (lo, hi + 1)} | {0})
    nice = [ord(c) for c in "1aA. ()/-§:b2é"]
    pts = {}
    for lo, hi in zip(cuts, cuts[1:] + [TOP]):
        pts[lo] = next((c for c in nice if lo <= c < hi), lo)

    def go(ls, r, s, c):
        for i, L in enumerate(ls):
            if any(lo <= c <= hi for lo, hi in L):
                return r[s][1][i]
        return s
    seen, queue = {(0, 0): ""}, [(0, 0)]
    while queue:
        a, b = queue.pop(0)
        if r1[a][0] != r2[b][0]:
            return seen[(a, b)]
        for c in sorted(pts.values(), key=lambda c: (c not in nice, c)):
            if c >= TOP or 0xD800 <= c < 0xE000:
                continue
            n = (go(l1, r1, a, c), go(l2, r2, b, c))
            if n not in seen:
                seen[n] = seen[(a, b)] + chr(c)
                queue.append(n)
    return None


def takes_other(p1, p2):
    """A text from which two patterns of as many groups take different parts, if one is found: [pattern, case-insensitive] each"""
    try:
        xs = [anchored(parse(p, i))[0] for p, i in (p1, p2)]
        w = sample(*[dfa(("cat", [("at", "^"), x, ("at", "$")]), False) for x in xs])
        if w is None:
            return None
        rs = [re.compile(p, re.I if i else 0) for p, i in (p1, p2)]
        if rs[0].groups != rs[1].groups:
            return None
        ms = [r.search(w) for r in rs]
        if all(ms) and ms[0].groups() != ms[1].groups():
            return w
    except (Odd, RecursionError, IndexError, re.error):
        pass
    return None


TABLE = {}      # id -> (pattern, case-insensitive, language | None)


def intern(pattern, icase):
    try:
        x = parse(pattern, icase)
        lang = dfa(x, False)
        canon = repr(dfa(x, True)) + ("lazy" + pattern if "lazy" in repr(x) else "")
    except (Odd, RecursionError, IndexError):
        lang, canon = None, "text" + pattern + str(icase)
    rid = hashlib.sha1(canon.encode()).hexdigest()[:12]
    TABLE.setdefault(rid, (pattern, icase, lang))
    return rid


FLAGS = {"case_insensitive", "multi_line", "dot_matches_new_line", "ignore_whitespace", "swap_greed", "unicode", "octal"}
USUAL = {"unicode": True}


def statics(text):
    """{alloc: replacement} for the statics of a MIR dump"""
    alloc_fn, alloc_static, out = {}, {}, {}
    cur = None
    for line in text.split("\n"):
        if line.startswith("alloc"):
            m = re.match(r"(alloc\d+) \(fn: <\{closure@([^{}]*)\} as ", line)
            if m:
                alloc_fn[m.group(1)] = m.group(2)
            m = re.match(r"(alloc\d+) \(static: (.*?)(, size: .*)?\) ?\{?", line)
            cur = None
            if m:
                cur = m.group(1)
                alloc_static[cur] = [m.group(2), None]
        elif cur and line.startswith("    0x"):
            m = re.search(r"╾─*(alloc\d+)", line)
            if m:
                alloc_static[cur][1] = m.group(1)
        elif cur and line.startswith("}"):
            cur = None
    spans = set(alloc_fn.values())
    pats = {}
    for head, body in find_closures(text, spans):
        span = re.search(r"\{closure@([^{}]*)\}", head).group(1)
        pat = None
        flags = dict(USUAL)
        ok = False
        for l in body:
            m = re.match(r'\s+_\d+ = const "(.*)";\s+// scope', l)
            if m:
                if pat is not None:
                    ok = False
                    break
                pat = m.group(1)
                ok = True
            m = re.search(r"RegexBuilder::(\w+)\(move _\d+, const (true|false)\)", l)
            if m:
                flags[m.group(1)] = m.group(2) == "true"
        if ok:
            pats[span] = (pat, flags)
    for a, (path, target) in alloc_static.items():
        span = alloc_fn.get(target)
        if span in pats:
            pat, flags = pats[span]
            pat = unescape(pat)
            odd = {k for k, v in flags.items() if k not in ("case_insensitive", "multi_line", "unicode", "octal") and v or k == "unicode" and not v
                   or k == "multi_line" and v}
            if odd:
                pat = "(?#" + ",".join(sorted(odd)) + ")" + pat
            rid = intern(pat, bool(flags.get("case_insensitive")))
            out[a] = ("regex", rid, TABLE[rid] if rid in TABLE else None, pat, bool(flags.get("case_insensitive")))
        else:
            out[a] = ("static", re.sub(r"^.*?(\w+)$", r"\1", path) if False else path)
    return out


def find_closures(text, spans):
    for m in re.finditer(r"(?m)^fn [^\n]*\{closure#\d+\}\(_1: &\{closure@([^{}]*)\}\)[^\n]*\{\n(.*?)\n\}", text, re.S):
        if m.group(1) in spans:
            head = text[m.start():text.index("\n", m.start())]
            yield head, m.group(2).split("\n")


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            if d == "u":
                m = re.compile(r"\\u\{([0-9a-fA-F]+)\}").match(s, i)
                if m:
                    out.append(chr(int(m.group(1), 16)))
                    i = m.end()
                    continue
            out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(d, d))
            i += 2
            continue
        out.append(c)
        i += 1
    return "".join(out)
