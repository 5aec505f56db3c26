"""A small Rust tokenizer and item scanner: struct/enum definitions with attributes, impl headers, fn
signatures, const strings.  Used for what MIR text does not name (field names, serde attributes) and for the
files that cannot be type-checked here."""
import re

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rs>b?r(?P<h>\#*)")
 |(?P<s>b?"(?:[^"\\]|\\.)*")
 |(?P<ch>b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^'\\])')
 |(?P<lt>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)


class Tok:
    __slots__ = ("k", "t", "line", "pos")

    def __init__(self, k, t, line, pos):
        self.k, self.t, self.line, self.pos = k, t, line, pos

    def __repr__(self):
        return self.t


def tokenize(src):
    out, i, n, line = [], 0, len(src), 1
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise ValueError(f"token at line {line}: {src[i:i+30]!r}")
        kind = m.lastgroup if m.lastgroup != "h" else "rs"
        j = m.end()
        if m.group("bc"):
            depth, j = 1, m.end()
            while depth:
                a, b = src.find("/*", j), src.find("*/", j)
                if a != -1 and a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            kind = "bc"
        elif m.group("rs"):
            end = '"' + m.group("h")
            j = src.index(end, m.end()) + len(end)
            kind = "s"
        text = src[i:j]
        if kind not in ("ws", "lc", "bc"):
            out.append(Tok({"s": "str", "ch": "char"}.get(kind, kind), text, line, i))
        line += text.count("\n")
        i = j
    return out


def unescape(t):
    if t.startswith("r") or t.startswith("br"):
        return re.sub(r'^b?r#*"|"#*$', "", t)
    s = t.lstrip("b")[1:-1]
    def rep(m):
        c = m.group(1)
        if c[0] == "u":
            return chr(int(c[2:-1], 16))
        if c[0] == "x":
            return chr(int(c[1:], 16))
        if c[0] == "\n":
            return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c)
    return re.sub(r"\\(u\{[^}]*\}|x..|\n\s*|.)", rep, s, flags=re.S)


def close(toks, i):
    """toks[i] opens a (, [ or {; index of its partner."""
    o = toks[i].t
    c = {"(": ")", "[": "]", "{": "}"}[o]
    d = 0
    while True:
        t = toks[i].t
        if toks[i].k == "op":
            if t == o:
                d += 1
            elif t == c:
                d -= 1
                if d == 0:
                    return i
        i += 1


def text(toks):
    out = ""
    prev = None
    for t in toks:
        if prev is not None and prev.k in ("id", "lt", "num") and t.k in ("id", "lt", "num", "str"):
            out += " "
        elif t.t in ("for", "where", "as", "->", "=>"):
            out += " "
        elif prev is not None and prev.t in (",", "->", "=>", "as") :
            out += " "
        out += t.t
        prev = t
    return out


def split_commas(toks):
    out, cur, d = [], [], 0
    for i, t in enumerate(toks):
        if t.k == "op":
            if t.t in "([{<" and t.t != "":
                d += 1
            elif t.t in ")]}" or t.t == ">":
                d -= 1
            elif t.t == "," and d == 0:
                out.append(cur)
                cur = []
                continue
        cur.append(t)
    if cur:
        out.append(cur)
    return out


class Adt:
    """A struct or enum: kind, name, module, attrs [token text], fields, variants"""

    def __init__(self, kind, name, module, file, line):
        self.kind, self.name, self.module, self.file, self.line = kind, name, module, file, line
        self.attrs, self.generics = [], []
        self.fields = []      # [(name, type text, [attr text])] for structs
        self.variants = []    # [(name, kind, fields, [attr])]

    def derives(self):
        out = []
        for a in self.attrs:
            m = re.match(r"derive\((.*)\)$", a)
            if m:
                out += [x.strip().split("::")[-1] for x in m.group(1).split(",") if x.strip()]
        return out


def parse_attrs(toks, i):
    attrs = []
    while i < len(toks) and toks[i].t == "#" and toks[i + 1].t in ("[", "!"):
        if toks[i + 1].t == "!":
            k = close(toks, i + 2)
            i = k + 1
            continue
        k = close(toks, i + 1)
        attrs.append(text(toks[i + 2:k]))
        i = k + 1
    return attrs, i


def parse_fields(toks):
    """body tokens of a {...} struct"""
    out = []
    for part in split_commas(toks):
        attrs, i = parse_attrs(part, 0)
        vis = False
        if i < len(part) and part[i].t == "pub":
            vis = True
            i += 1
            if part[i].t == "(":
                i = close(part, i) + 1
        if i >= len(part):
            continue
        out.append((part[i].t, text(part[i + 2:]), attrs, vis))
    return out


def parse_tuple_fields(toks):
    out = []
    for n, part in enumerate(split_commas(toks)):
        attrs, i = parse_attrs(part, 0)
        vis = False
        if i < len(part) and part[i].t == "pub":
            vis = True
            i += 1
            if part[i].t == "(":
                i = close(part, i) + 1
        if i < len(part):
            out.append((str(n), text(part[i:]), attrs, vis))
    return out


def skip_generics(toks, i):
    if toks[i].t != "<":
        return [], i
    d, j = 0, i
    while True:
        if toks[j].t == "<":
            d += 1
        elif toks[j].t == ">":
            d -= 1
            if d == 0:
                break
        j += 1
    names = []
    for part in split_commas(toks[i + 1:j]):
        part = [t for t in part]
        if part and part[0].t == "const":
            part = part[1:]
        if part and part[0].k == "id":
            names.append(part[0].t)
    return names, j + 1


def scan_adts(src, module, file):
    toks = tokenize(src)
    adts = []
    _scan(toks, 0, len(toks), module, file, adts)
    return adts


def _scan(toks, i, end, module, file, adts):
    while i < end:
        t = toks[i]
        if t.t == "#" and i + 1 < end and toks[i + 1].t == "[":
            attrs, j = parse_attrs(toks, i)
            k = j
            if k < end and toks[k].t == "pub":
                k += 1
                if toks[k].t == "(":
                    k = close(toks, k) + 1
            if k < end and toks[k].t in ("struct", "enum"):
                i = _adt(toks, k, module, file, adts, attrs)
                continue
            if any(a == "cfg(test)" for a in attrs) and toks[k].t == "mod":
                while toks[k].t not in ("{", ";"):
                    k += 1
                i = close(toks, k) + 1 if toks[k].t == "{" else k + 1
                continue
            i = j
            continue
        if t.t in ("struct", "enum") and i + 1 < end and toks[i + 1].k == "id" and t.k == "id":
            i = _adt(toks, i, module, file, adts, [])
            continue
        i += 1


def _adt(toks, k, module, file, adts, attrs):
    kind = toks[k].t
    a = Adt(kind, toks[k + 1].t, module, file, toks[k].line)
    a.attrs = attrs
    a.generics, k = skip_generics(toks, k + 2)
    while toks[k].t not in ("{", "(", ";"):
        k += 1
    if toks[k].t == ";":
        adts.append(a)
        return k + 1
    e = close(toks, k)
    body = toks[k + 1:e]
    if kind == "struct":
        a.fields = parse_fields(body) if toks[k].t == "{" else parse_tuple_fields(body)
    else:
        for part in split_commas(body):
            vattrs, i = parse_attrs(part, 0)
            if i >= len(part):
                continue
            name = part[i].t
            rest = part[i + 1:]
            if rest and rest[0].t == "{":
                a.variants.append((name, "struct", parse_fields(rest[1:close(rest, 0)]), vattrs))
            elif rest and rest[0].t == "(":
                a.variants.append((name, "tuple", parse_tuple_fields(rest[1:close(rest, 0)]), vattrs))
            else:
                a.variants.append((name, "unit", [], vattrs))
    adts.append(a)
    return e + 1
