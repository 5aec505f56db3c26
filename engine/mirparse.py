"""Parser for rustc's textual MIR (1.77.2, -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no
-Zmir-include-spans).  Produces a small typed IR; nothing is executed.

IR shapes (tuples, so they hash and compare):
  place   ('P', local:int, (proj, ...))
          proj: ('deref',) ('field', i, ty) ('variant', name) ('index', local) ('cindex', i, fromend)
                ('subslice', a, b)
  operand ('copy', place) ('move', place) ('const', text, extra)
  rvalue  ('use', op) ('ref', kind, place) ('len', place) ('bin', op, a, b) ('un', op, a)
          ('discr', place) ('cast', op, ty, kind) ('agg', kind, path, fields) ('repeat', op, n)
          ('nullop', text)
"""
import re


class Fn:
    __slots__ = ("name", "kind", "params", "ret", "locals", "blocks", "debug", "text", "span",
                 "index", "owner")

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind          # fn | const | static | promoted
        self.params = []          # [(local, ty)]
        self.ret = None
        self.locals = {}          # local -> ty
        self.blocks = {}          # int -> Block
        self.debug = {}           # source name -> place text
        self.span = None

    def __repr__(self):
        return f"<Fn {self.name}>"


class Block:
    __slots__ = ("id", "cleanup", "stmts", "term")

    def __init__(self, i, cleanup):
        self.id = i
        self.cleanup = cleanup
        self.stmts = []           # [(kind, ..., span)]
        self.term = None


class MirError(Exception):
    pass


OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}
CLOSE = {v: k for k, v in OPEN.items()}


def skip_string(s, i):
    """s[i] is '"': index just after the closing quote."""
    i += 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == "\\":
            i += 2
            continue
        if c == '"':
            return i + 1
        i += 1
    raise MirError("unterminated string: " + s[:80])


CHAR_RE = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'")


def match_close(s, i):
    """s[i] is an opening bracket; index of its closing partner.  '->' and '=>' are not brackets."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            m = CHAR_RE.match(s, i)
            if m:
                i = m.end()
                continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            if c == ">" and i > 0 and s[i - 1] in "-=":
                i += 1
                continue
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError("unbalanced: " + s[:120])


def split_top(s, sep=","):
    """Splits at top-level separators."""
    out, depth, start, i, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            m = CHAR_RE.match(s, i)
            if m:
                i = m.end()
                continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            if not (c == ">" and i > 0 and s[i - 1] in "-="):
                depth -= 1
        elif c == sep and depth == 0:
            out.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        out.append(last)
    return out


def find_top(s, needle, start=0):
    """First top-level occurrence of needle, or -1."""
    depth, i, n = 0, start, len(s)
    while i < n:
        c = s[i]
        if depth == 0 and s.startswith(needle, i):
            return i
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'":
            m = CHAR_RE.match(s, i)
            if m:
                i = m.end()
                continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            if not (c == ">" and i > 0 and s[i - 1] in "-="):
                depth -= 1
        i += 1
    return -1


# ---------------------------------------------------------------- places and operands

def parse_place(s):
    p, i = _place(s, 0)
    if s[i:].strip():
        raise MirError(f"trailing text in place: {s!r}")
    return p


LOCAL_RE = re.compile(r"_(\d+)")


def _place(s, i):
    if s[i] == "(":
        if s[i + 1] == "*":
            (_, l, pr), j = _place(s, i + 2)
            if s[j] != ")":
                raise MirError("place deref: " + s)
            p, i = ("P", l, pr + (("deref",),)), j + 1
        else:
            (_, l, pr), j = _place(s, i + 1)
            if s.startswith(" as variant#", j):
                k = match_close(s, i)
                p, i = ("P", l, pr + (("variant", s[j + 4:k]),)), k + 1
            elif s.startswith(" as subtype ", j):
                k = match_close(s, i)
                p, i = ("P", l, pr), k + 1
            elif s.startswith(" as ", j):
                k = match_close(s, i)
                p, i = ("P", l, pr + (("variant", s[j + 4:k]),)), k + 1
            elif s[j] == ".":
                m = re.compile(r"\.(\d+): ").match(s, j)
                k = match_close(s, i)
                p, i = ("P", l, pr + (("field", int(m.group(1)), s[m.end():k]),)), k + 1
            else:
                raise MirError("place: " + s)
    else:
        m = LOCAL_RE.match(s, i)
        if not m:
            raise MirError("place: " + s)
        p, i = ("P", int(m.group(1)), ()), m.end()
    while i < len(s) and s[i] == "[":
        k = match_close(s, i)
        inner = s[i + 1:k]
        _, l, pr = p
        m = LOCAL_RE.fullmatch(inner)
        if m:
            pr += (("index", int(m.group(1))),)
        else:
            m = re.fullmatch(r"(-?)(\d+) of (\d+)", inner)
            if m:
                pr += (("cindex", int(m.group(2)), bool(m.group(1)), int(m.group(3))),)
            else:
                m = re.fullmatch(r"(\d+):(-?\d*)", inner)
                if not m:
                    raise MirError("index: " + s)
                pr += (("subslice", int(m.group(1)), m.group(2)),)
        p, i = ("P", l, pr), k + 1
    return p, i


def parse_operand(s, extra=None):
    s = s.strip()
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:], extra)
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s[0] in "_(" and _is_place(s):
        return ("copy", parse_place(s))
    return ("const", s, extra)      # a bare path: function item or constructor


BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt",
          "Le", "Ne", "Ge", "Gt", "Offset", "CheckedAdd", "CheckedSub", "CheckedMul", "AddUnchecked",
          "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked", "Cmp"}
CALLISH = re.compile(r"([A-Z][A-Za-z]+)\(")


def is_operand(s):
    return s.startswith(("move ", "const ", "copy ")) or bool(LOCAL_RE.match(s)) or s.startswith("(*") \
        or bool(re.match(r"\(+[_*]", s) and re.match(r"\(.*(: | as )", s) and match_close(s, 0) >= 0
                and _is_place(s))


def _is_place(s):
    try:
        parse_place(s)
        return True
    except (MirError, AttributeError, IndexError):
        return False


def parse_rvalue(s, extras):
    s = s.strip()
    if s.startswith("&raw "):
        kind, rest = s[5:].split(" ", 1)
        return ("ref", "raw " + kind, parse_place(rest))
    if s.startswith("&mut "):
        return ("ref", "mut", parse_place(s[5:]))
    if s.startswith("&fake "):
        return ("ref", "shared", parse_place(s[6:]))
    if s.startswith("&"):
        return ("ref", "shared", parse_place(s[1:]))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    if s.startswith("discriminant("):
        return ("discr", parse_place(s[13:match_close(s, 12)]))
    m = CALLISH.match(s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        name, inner = m.group(1), s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ("bin", name, parse_operand(a, extras), parse_operand(b, extras))
        if name in ("Not", "Neg"):
            return ("un", name, parse_operand(inner, extras))
        if name == "Len":
            return ("len", parse_place(inner))
        if name in ("SizeOf", "AlignOf", "OffsetOf"):
            return ("nullop", s)
        if name == "ShallowInitBox":
            return ("use", parse_operand(split_top(inner)[0], extras))
    # cast: OP as TY (Kind)
    if s.endswith(")"):
        k = find_top(s, " as ")
        m = re.search(r" \(([A-Za-z]+(\([A-Za-z()]*\))?)\)$", s)
        if k > 0 and m and (is_operand(s[:k]) or "FnPointer" in m.group(1)):
            return ("cast", parse_operand(s[:k], extras), s[k + 4:m.start()], m.group(1))
    if is_operand(s):
        return ("use", parse_operand(s, extras))
    if s.startswith("["):
        k = match_close(s, 0)
        inner = s[1:k]
        semi = find_top(inner, "; ")
        if semi >= 0:
            return ("repeat", parse_operand(inner[:semi], extras), inner[semi + 2:])
        return ("agg", "array", "", tuple((None, parse_operand(x, extras)) for x in split_top(inner)))
    if s.startswith("("):
        return ("agg", "tuple", "", tuple((None, parse_operand(x, extras)) for x in split_top(s[1:-1])))
    if s.startswith("{closure@"):
        k = match_close(s, 0)
        rest = s[k + 1:].strip()
        fields = ()
        if rest:
            fields = tuple((f.split(":", 1)[0].strip(), parse_operand(f.split(":", 1)[1], extras))
                           for f in split_top(rest[1:-1].strip()))
        return ("agg", "closure", s[:k + 1], fields)
    # struct / tuple-struct / unit aggregates
    if s.endswith("}"):
        k = find_top(s, " {")
        if k > 0:
            inner = s[k + 2:-1].strip()
            fields = []
            for f in split_top(inner):
                c = f.index(":")
                fields.append((f[:c].strip(), parse_operand(f[c + 1:], extras)))
            return ("agg", "adt", s[:k], tuple(fields))
    if s.endswith(")"):
        # last top-level '(' group
        depth_start = None
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if c == '"':
                i = skip_string(s, i)
                continue
            if c in "([{<":
                j = match_close(s, i)
                if c == "(" and j == n - 1:
                    depth_start = i
                    break
                i = j + 1
                continue
            i += 1
        if depth_start is not None:
            inner = s[depth_start + 1:-1]
            return ("agg", "adt", s[:depth_start],
                    tuple((None, parse_operand(x, extras)) for x in split_top(inner)))
    return ("agg", "adt", s, ())


# ---------------------------------------------------------------- statements / terminators

SPAN_RE = re.compile(r"\s*// (?:return place )?(?:in )?scope \d+ at (.*)$")
TARGET_RE = re.compile(r" -> (\[[^\]]*\]|bb\d+|unwind [a-z()]+|unwind: bb\d+)$")


def split_comment(line):
    """Splits a MIR line into code and span comment."""
    i = line.rfind("// ")
    while i >= 0:
        m = SPAN_RE.fullmatch(line, len(line[:i].rstrip()) if line[:i].strip() else 0)
        m = re.match(r"// (?:return place )?(?:in )?scope \d+ at (.*)$", line[i:])
        if m:
            return line[:i].rstrip(), m.group(1)
        i = line.rfind("// ", 0, i)
    return line.rstrip(), None


def parse_targets(t):
    """'[return: bb1, unwind: bb2]' -> dict"""
    d = {}
    if t.startswith("["):
        for part in split_top(t[1:-1]):
            if ":" in part:
                k, v = part.rsplit(":", 1)
                d[k.strip()] = v.strip()
            else:
                k, v = part.split(" ", 1)
                d[k] = v
    elif t.startswith("bb"):
        d["return"] = t
    elif t.startswith("unwind: "):
        d["unwind"] = t[8:]
    else:
        d["unwind"] = t[7:]
    out = {}
    for k, v in d.items():
        out[k] = int(v[2:]) if re.fullmatch(r"bb\d+", v) else v
    return out


def parse_statement(code, extras):
    """code without trailing ';'.  Returns ('assign', place, rv) / ('term', ...) / ('nop',)"""
    if code.startswith(("StorageLive(", "StorageDead(", "nop", "PlaceMention(", "FakeRead(", "Retag(",
                        "AscribeUserType(", "Coverage", "ConstEvalCounter", "Deinit(")):
        if code.startswith("StorageDead("):
            return ("dead", int(code[13:-1]))
        return ("nop",)
    if code == "return":
        return ("term", ("return",))
    if code == "resume":
        return ("term", ("resume",))
    if code.startswith("terminate("):
        return ("term", ("terminate",))
    if code == "unreachable":
        return ("term", ("unreachable",))
    if code.startswith("goto -> "):
        return ("term", ("goto", int(code[10:])))
    if code.startswith("switchInt("):
        k = match_close(code, 9)
        op = parse_operand(code[10:k], extras)
        t = code[k + 1:].strip()[3:].strip()
        cases, other = [], None
        for part in split_top(t[1:-1]):
            a, b = part.rsplit(":", 1)
            bb = int(b.strip()[2:])
            if a.strip() == "otherwise":
                other = bb
            else:
                cases.append((int(a.strip()), bb))
        return ("term", ("switch", op, tuple(cases), other))
    if code.startswith("drop("):
        k = match_close(code, 4)
        m = TARGET_RE.search(code)
        return ("term", ("drop", parse_place(code[5:k]), parse_targets(m.group(1))))
    if code.startswith("assert("):
        k = match_close(code, 6)
        args = split_top(code[7:k])
        cond = args[0]
        expected = True
        if cond.startswith("!"):
            expected, cond = False, cond[1:]
        msg = args[1]
        m = TARGET_RE.search(code)
        return ("term", ("assert", parse_operand(cond, extras), expected, msg,
                         tuple(args[2:]), parse_targets(m.group(1))))
    if code.startswith("discriminant("):
        k = match_close(code, 12)
        return ("setdiscr", parse_place(code[13:k]), code[k + 1:].strip(" ="))
    if code.startswith("assume("):
        return ("nop",)
    eq = code.index(" = ") if " = " in code else -1
    # place may contain ' = '?  only inside types with assoc bindings; use find_top
    eq = find_top(code, " = ")
    if eq < 0:
        raise MirError("statement: " + code[:200])
    dest, rhs = parse_place(code[:eq]), code[eq + 3:]
    m = TARGET_RE.search(rhs)
    if m and rhs[:m.start()].endswith(")"):
        call = rhs[:m.start()]
        # the argument list is the last top-level (...) group
        i, n, start = 0, len(call), None
        while i < n:
            c = call[i]
            if c == '"':
                i = skip_string(call, i)
                continue
            if c in "([{<":
                j = match_close(call, i)
                if c == "(" and j == n - 1:
                    start = i
                    break
                i = j + 1
                continue
            i += 1
        if start is None:
            raise MirError("call: " + call[:200])
        func = call[:start]
        args = tuple(parse_operand(a, extras) for a in split_top(call[start + 1:-1]))
        if func.startswith(("move ", "copy ")) or LOCAL_RE.fullmatch(func):
            f = ("ptr", parse_operand(func))
        else:
            f = ("path", func)
        return ("term", ("call", dest, f, args, parse_targets(m.group(1))))
    return ("assign", dest, parse_rvalue(rhs, extras))


EXTRA_PROM = re.compile(r"Unevaluated\((.*), \[.*\], (None|Some\(promoted\[(\d+)\]\))\)")


def parse_fn_head(line):
    """'fn name(_1: T, ...) -> R {'"""
    s = line[3:].rstrip()
    assert s.endswith("{")
    s = s[:-1].rstrip()
    # name ends at the first top-level '(' whose content is params; names hold '<impl at ..>' and '{closure#0}'
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "(":
            break
        if c in "<{[":
            i = match_close(s, i) + 1
            continue
        i += 1
    name = s[:i]
    k = match_close(s, i)
    params = []
    for p in split_top(s[i + 1:k]):
        a, b = p.split(": ", 1)
        params.append((int(a[1:]), b))
    ret = s[k + 1:].strip()
    ret = ret[3:].strip() if ret.startswith("->") else "()"
    return name, params, ret


def split_items(text):
    """[(header line, [body lines])]"""
    items = []
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l and not l.startswith((" ", "/", "}", "alloc")) and l.rstrip().endswith("{"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            items.append((l, lines[i + 1:j]))
            i = j + 1
            continue
        i += 1
    return items


DECL_RE = re.compile(r"^let (?:mut )?_(\d+): (.*);$")


def parse_item(head, body):
    if head.startswith("fn "):
        name, params, ret = parse_fn_head(head)
        f = Fn(name, "fn")
        f.params, f.ret = params, ret
        for l, t in params:
            f.locals[l] = t
    else:
        m = re.match(r"promoted\[(\d+)\] in ", head)
        if m:
            k = find_top(head, ": ", m.end())
            f = Fn(f"{head[m.end():k]}::promoted[{m.group(1)}]", "promoted")
            f.ret = head[k + 2:].rsplit(" = {", 1)[0]
        else:
            kind = "const"
            for kw in ("const ", "static mut ", "static "):
                if head.startswith(kw):
                    kind, head = kw.split()[0], head[len(kw):]
                    break
            k = find_top(head, ": ")
            f = Fn(head[:k], kind)
            f.ret = head[k + 2:].rsplit(" = {", 1)[0]
    cur = None
    pending = None   # (code, span, extras)

    def flush():
        nonlocal pending
        if pending is None:
            return
        code, span, extras = pending
        pending = None
        st = parse_statement(code, extras)
        if st[0] == "term":
            cur.term = st[1] + (span,)
        elif st[0] != "nop":
            cur.stmts.append(st + (span,))

    for line in body:
        ls = line.strip()
        if not ls:
            continue
        if ls.startswith("//"):
            if pending is not None and "const_:" in ls:
                pending[2].append(ls)
            continue
        code, span = split_comment(ls)
        m = re.match(r"^bb(\d+)( \(cleanup\))?: \{$", code)
        if m:
            flush()
            cur = Block(int(m.group(1)), bool(m.group(2)))
            f.blocks[cur.id] = cur
            continue
        if code == "}":
            flush()
            continue
        if cur is None:
            if code.startswith("debug "):
                a, b = code[6:].rstrip(";").split(" => ", 1)
                f.debug.setdefault(a, []).append(b)
                continue
            m = DECL_RE.match(code)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
            continue
        flush()
        if code.endswith(";"):
            pending = (code[:-1], span, [])
        else:
            raise MirError(f"line in {f.name}: {code[:160]}")
    flush()
    # resolve promoted operands
    return f
