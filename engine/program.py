"""The analysed program: MIR functions, their resolved names, ADTs, call resolution."""
import os
import re
from . import mirparse, regexlang, rtypes as T, rustsrc
from .mirparse import match_close, split_top, find_top

IMPL_RE = re.compile(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>")


class FnInfo:
    def __init__(self, mir):
        self.mir = mir
        self.name = mir.name
        self.impl_self = None     # type tree (relative names) or None
        self.impl_trait = None    # type tree of the trait or None
        self.generics = set()
        self.method = None
        self.qual = None          # printable name
        self.derived = False
        self.file = None

    def __repr__(self):
        return f"<{self.qual}>"


def strip_generics(p):
    """'a::B::<T>::c::<U>' -> 'a::B::c' (top-level generic groups only)"""
    out, i, n = [], 0, len(p)
    while i < n:
        if p[i] == "<":
            k = match_close(p, i)
            if p.startswith("impl ", i + 1):
                out.append(p[i:k + 1])
            i = k + 1
            continue
        if p[i] == "{":
            k = match_close(p, i)
            out.append(p[i:k + 1])
            i = k + 1
            continue
        out.append(p[i])
        i += 1
    return re.sub(r"::(::)+", "::", "".join(out)).strip(":")


class Program:
    def __init__(self, mir_texts, src_root, adt_files=None):
        """mir_texts: {crate: text}; src_root: directory the spans are relative to"""
        self.root = src_root
        self.fns = []
        self.by_name = {}
        self.promoted = {}
        self.consts = {}
        self.closures = {}
        self.regexes = {}
        self.impls = {}
        self.const_names = {}
        self.src_lines = {}
        self.adts = {}
        self.adt_list = []
        self.aliases = self._aliases(src_root)
        self.local_roots = {f[:-3] if f.endswith(".rs") else f for f in os.listdir(os.path.join(src_root, "src"))}
        for crate, text in mir_texts.items():
            self.add(text, crate)

    def add(self, text, crate, want=None):
        first = len(self.fns)
        items = mirparse.split_items(text)
        statics = {}
        for a, r in regexlang.statics(text).items():
            if r[0] == "regex":
                self.regexes[r[1]] = r[2]
                statics[a] = "{regex:" + r[1] + "}"
            else:
                statics[a] = "{static:" + re.sub(r"[{}]", "", r[1]) + "}"
        for head, _ in items:
            m = re.match(r"const ([\w:<> ,&']*?\b([A-Z][A-Z0-9_]*)): ", head)
            if m:
                self.const_names.setdefault(m.group(2), set()).add(m.group(1))
        for head, body in items:
            if want is not None and not want(head):
                continue
            for i, line in enumerate(body):
                if "const {alloc" in line:
                    body[i] = re.sub(r"\{(alloc\d+): [^{}]*\}", lambda m: statics.get(m.group(1), m.group(0)), line)
            self.name_constants(head, body)
            f = mirparse.parse_item(head, body)
            f.owner = crate
            if f.kind == "promoted":
                self.promoted[f.name] = f
                continue
            info = FnInfo(f)
            self._classify(info)
            if f.kind in ("const", "static"):
                self.consts.setdefault(f.name, info)
                continue
            self.fns.append(info)
            self.by_name.setdefault(f.name, []).append(info)
        for fi in self.fns[first:]:
            if fi.mir.params and "{closure#" in fi.name.rsplit("::", 1)[-1]:
                m = re.search(r"\{closure@([^{}]*)\}", fi.mir.params[0][1])
                if m:
                    self.closures.setdefault((fi.mir.owner, m.group(1)), []).append(fi)
                    self.closures.setdefault(m.group(1), []).append(fi)
            if fi.method:
                self.impls.setdefault(fi.method, []).append(fi)

    def name_constants(self, head, body):
        """MIR text does not say which constant of a scalar type an operand is ('const _'): look it up at its span."""
        for i, line in enumerate(body):
            if "const _" not in line or i + 1 < len(body) and body[i + 1].strip().startswith("//"):
                continue
            m = re.search(r"// scope \d+ at (\S+?):(\d+):(\d+): (\d+):(\d+)\s*$", line)
            code = line[:line.rindex("//")] if m else line
            ps = [x.end() for x in re.finditer(r"const _(?=[;,)\s])", code)]
            if not m or not ps:
                continue
            src = self.span_text(m.group(1), *map(int, m.groups()[1:]))
            names = re.findall(r"(?:\b(?:Self|[A-Za-z_]\w*)\s*::\s*)*\b[A-Z][A-Z0-9_]+\b(?!\s*[(:!])", src or "")
            if len(names) != len(ps):
                names = [None] * len(ps)
            for at, n in sorted(zip(ps, names), reverse=True):
                q = "unknown constant at " + re.sub(r"[\s:]+", " ", m.group(0)[3:])
                if n:
                    last = n.split("::")[-1].strip()
                    c = self.const_names.get(last, set())
                    path = head.split("(")[0]
                    if len(c) > 1:
                        best = max(len(os.path.commonprefix([x, path.split(" ", 1)[-1]])) for x in c)
                        c = {x for x in c if len(os.path.commonprefix([x, path.split(" ", 1)[-1]])) == best}
                    q = next(iter(c)) if len(c) == 1 else n.replace(" ", "")
                code = code[:at - 1] + q + code[at:]
            body[i] = code + line[line.rindex("//"):]

    def span_text(self, file, l1, c1, l2, c2):
        path = file if os.path.isabs(file) else os.path.join(self.root, file)
        if path not in self.src_lines:
            try:
                self.src_lines[path] = open(path, encoding="utf-8").read().split("\n")
            except OSError:
                self.src_lines[path] = []
        ls = self.src_lines[path]
        if l2 > len(ls):
            return None
        if l1 == l2:
            return ls[l1 - 1][c1 - 1:c2 - 1]
        return "\n".join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])

    # ------------------------------------------------------------ sources
    def _aliases(self, root):
        out = {}
        for d, _, fs in os.walk(os.path.join(root, "src")):
            for f in fs:
                if f.endswith(".rs"):
                    txt = open(os.path.join(d, f), encoding="utf-8").read()
                    for m in re.finditer(r"(?m)^\s*(?:pub(?:\([^)]*\))?\s+)?type\s+(\w+)\s*=\s*([^;]+);", txt):
                        if m.group(1) not in ("Error", "Err", "Item", "Output", "Target"):
                            out[m.group(1)] = T.parse(" ".join(m.group(2).split()))
        return out

    def expand(self, t, depth=0):
        """Type tree with local aliases replaced."""
        if t is None or depth > 8:
            return t
        k = t[0]
        if k == "path":
            if not t[2] and t[1] in self.aliases:
                return self.expand(self.aliases[t[1]], depth + 1)
            return ("path", t[1], tuple(self.expand(a, depth + 1) for a in t[2]))
        if k == "ref":
            return ("ref", t[1], self.expand(t[2], depth + 1))
        if k == "tuple":
            return ("tuple", tuple(self.expand(a, depth + 1) for a in t[1]))
        if k == "slice":
            return ("slice", self.expand(t[1], depth + 1))
        return t

    def lines(self, file):
        if file not in self.src_lines:
            p = file if os.path.isabs(file) else os.path.join(self.root, file)
            try:
                self.src_lines[file] = open(p, encoding="utf-8").read().split("\n")
            except OSError:
                self.src_lines[file] = []
        return self.src_lines[file]

    def span_text(self, file, l1, c1, l2, c2):
        ls = self.lines(file)
        if not ls or l1 > len(ls):
            return ""
        if l1 == l2:
            return ls[l1 - 1][c1 - 1:c2 - 1]
        return "\n".join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])

    def load_adts(self, files):
        """files: [(path, module)]"""
        for path, module in files:
            src = open(path, encoding="utf-8").read()
            for a in rustsrc.scan_adts(src, module, os.path.relpath(path, self.root)):
                self.adt_list.append(a)
                self.adts.setdefault(a.name, a)

    # ------------------------------------------------------------ naming
    def _classify(self, info):
        name = info.name
        ms = list(IMPL_RE.finditer(name))
        if not ms:
            segs = name.split("::")
            info.method = segs[-1]
            info.qual = name
            if len(segs) > 1 and re.match(r"[A-Z]", segs[-2]):
                # default method of a local trait
                info.impl_trait = ("path", "::".join(segs[:-1]), ())
                info.generics.add("Self")
            return
        m = ms[-1]
        rest = name[m.end():].lstrip(":")
        info.file = m.group(1)
        header = self.span_text(m.group(1), *map(int, m.groups()[1:]))
        info.method = rest.split("::")[0] if "::" not in rest else None
        if "::" in rest:      # closure or nested item
            info.qual = rest
        header = re.sub(r"//[^\n]*", "", header)
        header = " ".join(header.split())
        if header.startswith("impl") and "$" not in header:
            h = header[4:].strip()
            if h.startswith("<"):
                k = match_close(h, 0)
                for g in split_top(h[1:k]):
                    g = g.strip()
                    if not g.startswith("'"):
                        info.generics.add(re.split(r"[:\s=]", g.replace("const ", ""))[0])
                h = h[k + 1:].strip()
            w = find_top(h, " where ")
            if w >= 0:
                h = h[:w]
            f = find_top(h, " for ")
            if f >= 0:
                info.impl_trait = self.expand(T.parse(h[:f]))
                info.impl_self = self.expand(T.parse(h[f + 5:]))
            else:
                info.impl_self = self.expand(T.parse(h))
        else:
            info.derived = True
            info.impl_trait = ("path", header.split("(")[0].strip() or "?", ())
            ps = info.mir.params
            cand = None
            if ps:
                t = T.parse(ps[0][1])
                while t[0] == "ref":
                    t = t[2]
                cand = t
            if header in ("Deserialize", "Default") or cand is None:
                t = T.parse(info.mir.ret)
                if t[0] == "path" and t[1].endswith("Result") and t[2]:
                    t = t[2][0]
                cand = t
            if header == "FromVariants" and ps:
                info.impl_trait = ("path", "From", (T.parse(ps[0][1]),))
                cand = T.parse(info.mir.ret)
                info.derived = False
            info.impl_self = cand
            if cand and cand[0] == "path":
                for a in cand[2]:
                    if T.is_param(a):
                        info.generics.add(a[1])
        if info.qual is None:
            st = T.show(info.impl_self) if info.impl_self else "?"
            if info.impl_trait:
                info.qual = f"<{st} as {T.show(info.impl_trait)}>::{rest}"
            else:
                info.qual = f"{st}::{rest}"
        else:
            st = T.show(info.impl_self) if info.impl_self else "?"
            info.qual = f"{st}::{rest}"

    # ------------------------------------------------------------ resolution
    def split_callee(self, path):
        """-> ('trait', selfty, trait, method) | ('inherent', selfpath tree, method) | ('free', path)"""
        path = path.strip()
        if path.startswith("<"):
            k = match_close(path, 0)
            inner = path[1:k]
            a = find_top(inner, " as ")
            rest = strip_generics(path[k + 1:]).lstrip(":")
            if a >= 0:
                return ("trait", T.parse(inner[:a]), T.parse(inner[a + 4:]), rest)
            return ("inherent", T.parse(inner), rest)
        # split last segment, keeping generics of the prefix
        i, n, cuts = 0, len(path), []
        while i < n:
            if path[i] in "<{[(":
                i = match_close(path, i) + 1
                continue
            if path.startswith("::", i):
                cuts.append(i)
                i += 2
                continue
            i += 1
        segs = []
        prev = 0
        for c in cuts + [n]:
            segs.append(path[prev:c])
            prev = c + 2
        # drop trailing generic segment of the method
        tail = None
        if len(segs) > 1 and segs[-1].startswith("<"):
            tail = segs.pop()
        method = strip_generics(segs[-1]) or segs[-1]
        prefix = "::".join(segs[:-1])
        base = strip_generics(prefix).rsplit("::", 1)[-1]
        if re.match(r"[A-Z]", base) or base in ("str", "char", "f64", "f32", "u8", "u16", "u32", "u64", "usize",
                                                "i16", "i32", "i64") or "<impl " in prefix:
            return ("inherent", T.parse(prefix), method)
        return ("free", strip_generics("::".join(segs)))

    def resolve(self, callee, sub=None):
        """callee: ('trait'|'inherent'|'free', ...) already parsed.  -> (FnInfo, subst) or None"""
        kind = callee[0]
        if kind == "free":
            c = self.by_name.get(callee[1])
            return (c[0], {}) if c else None
        if kind == "inherent":
            st, method = callee[1], callee[2]
            best = None
            for fi in self.impls.get(method, ()):
                if fi.impl_self is None or (fi.impl_trait is not None):
                    if fi.impl_self is None and fi.impl_trait is not None and st[0] == "path" \
                            and T.last(fi.impl_trait[1]) == T.last(st[1]):
                        return (fi, {})
                    continue
                m = {}
                s = T.unify(fi.impl_self, st, m, fi.generics)
                if s is not None and (best is None or s > best[0]):
                    best = (s, fi, m)
            return (best[1], best[2]) if best else None
        _, st, tr, method = callee
        best = None
        default = None
        for fi in self.impls.get(method, ()):
            if fi.impl_trait is None or T.last(fi.impl_trait[1]) != T.last(tr[1]):
                continue
            if fi.impl_self is None:
                default = fi
                continue
            m = {}
            s = T.unify(fi.impl_self, st, m, fi.generics)
            if s is None:
                continue
            if fi.impl_trait[2] and tr[2]:
                ok = True
                for a, b in zip(fi.impl_trait[2], tr[2]):
                    r = T.unify(a, b, m, fi.generics)
                    if r is None:
                        ok = False
                        break
                    s += r
                if not ok:
                    continue
            if best is None or s > best[0]:
                best = (s, fi, m)
        if best:
            return (best[1], best[2])
        if default is not None and not T.is_param(st):
            return (default, {"Self": st})
        return None

    def impl(self, method, selfty, trait=None, trait_args=None):
        """Functions `method` of `impl [trait<args>] for selfty`, by resolved type (aliases expanded)."""
        out = []
        st = self.expand(T.parse(selfty))
        for fi in self.impls.get(method, ()):
            if fi.impl_self is None or fi.impl_self[0] == "proj" or (fi.impl_trait is None) != (trait is None):
                continue
            if trait is not None and T.last(fi.impl_trait[1]) != trait:
                continue
            if trait_args is not None:
                want = [self.expand(T.parse(a)) for a in trait_args]
                if len(want) != len(fi.impl_trait[2]) or any(
                        T.unify(a, b, {}, set()) is None for a, b in zip(fi.impl_trait[2], want)):
                    continue
            if T.unify(fi.impl_self, st, {}, fi.generics) is None:
                continue
            out.append(fi)
        return out

    def find(self, qual):
        """Functions whose printable name is qual."""
        return [f for f in self.fns if f.qual == qual]
