"""Type text -> tree, and unification against generic signatures."""
import re
from functools import lru_cache
from .mirparse import match_close, split_top, find_top

# ('path', name, args) ('ref', mut, T) ('ptr', T) ('tuple', ts) ('slice', T) ('array', T, n)
# ('closure', span) ('dyn', text) ('fn', text) ('fnitem', text) ('proj', self, trait, name) ('never',)


@lru_cache(maxsize=None)
def parse(s):
    s = s.strip()
    if s.startswith("for<"):
        s = s[match_close(s, 3) + 1:].strip()
    if s.startswith("&"):
        r = s[1:].strip()
        m = re.match(r"'[a-z_{}0-9]+\s+", r)
        if m:
            r = r[m.end():]
        if r.startswith("mut "):
            return ("ref", True, parse(r[4:]))
        return ("ref", False, parse(r))
    if s.startswith("*const ") or s.startswith("*mut "):
        return ("ptr", parse(s.split(" ", 1)[1]))
    if s.startswith("("):
        k = match_close(s, 0)
        if k == len(s) - 1:
            return ("tuple", tuple(parse(x) for x in split_top(s[1:-1])))
    if s.startswith("["):
        inner = s[1:-1]
        k = find_top(inner, "; ")
        if k >= 0:
            return ("array", parse(inner[:k]), inner[k + 2:])
        return ("slice", parse(inner))
    if s == "!":
        return ("never",)
    if s.startswith("{closure@"):
        return ("closure", s[9:match_close(s, 0)])
    if s.startswith("dyn ") or s.startswith("impl "):
        return ("dyn", s)
    if s.startswith("fn(") or s.startswith("unsafe ") or s.startswith("extern "):
        return ("fn", s)
    if s.startswith("<"):
        k = match_close(s, 0)
        inner = s[1:k]
        a = find_top(inner, " as ")
        if a >= 0:
            return ("proj", parse(inner[:a]), inner[a + 4:], s[k + 1:].lstrip(":"))
    # path with generics
    name, args = [], []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "<":
            k = match_close(s, i)
            seg = s[i + 1:k]
            if seg.startswith("impl "):
                name.append(s[i:k + 1])
            else:
                args = [parse(x) for x in split_top(seg) if not x.startswith("'") and " = " not in x]
            i = k + 1
            continue
        if c == "{":
            k = match_close(s, i)
            name.append(s[i:k + 1])
            i = k + 1
            continue
        name.append(c)
        i += 1
    p = "".join(name).replace("::::", "::").rstrip(":")
    return ("path", p, tuple(args))


def last(p):
    return p.rsplit("::", 1)[-1]


def show(t):
    k = t[0]
    if k == "path":
        return last(t[1]) + (("<" + ", ".join(show(a) for a in t[2]) + ">") if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + show(t[2])
    if k == "tuple":
        return "(" + ", ".join(map(show, t[1])) + ")"
    if k == "slice":
        return f"[{show(t[1])}]"
    if k == "array":
        return f"[{show(t[1])}; {t[2]}]"
    if k == "proj":
        return f"<{show(t[1])}>::{t[3]}"
    return str(t)


def is_param(t):
    """A generic parameter: a bare capitalised identifier without '::' that is not a known primitive."""
    return t[0] == "path" and "::" not in t[1] and not t[2] and re.fullmatch(r"_*[A-Z][A-Za-z0-9_]*", t[1]) is not None


def subst(t, m):
    if not m:
        return t
    k = t[0]
    if k == "path":
        if not t[2] and t[1] in m:
            return m[t[1]]
        if not t[2]:
            return t
        return ("path", t[1], tuple(subst(a, m) for a in t[2]))
    if k == "ref":
        return ("ref", t[1], subst(t[2], m))
    if k == "ptr":
        return ("ptr", subst(t[1], m))
    if k == "tuple":
        return ("tuple", tuple(subst(a, m) for a in t[1]))
    if k == "slice":
        return ("slice", subst(t[1], m))
    if k == "array":
        return ("array", subst(t[1], m), t[2])
    if k == "proj":
        return ("proj", subst(t[1], m), t[2], t[3])
    return t


def unify(pat, t, m, params):
    """Matches pat (holding parameter names in params) with t.  Paths compare by last segment.
    Returns a score >= 0, or None."""
    k = pat[0]
    if k == "path" and not pat[2] and pat[1] in params:
        if pat[1] in m:
            return 0
        m[pat[1]] = t
        return 0
    if k == "path" and pat[1] == "_":
        return 0
    if k != t[0]:
        if t[0] == "proj" or k == "proj":
            return 0
        return None
    if k == "path":
        if last(pat[1]) != last(t[1]):
            return None
        if "::" in pat[1] and "::" in t[1] and pat[1] != t[1]:
            # both absolute but different: tolerate only re-export aliases of std/core/alloc
            a, b = pat[1].split("::")[0], t[1].split("::")[0]
            std = ("std", "core", "alloc")
            if not (a in std and b in std) and a not in ("crate", "super", "self"):
                return None
        if len(pat[2]) != len(t[2]):
            if pat[2] and t[2]:
                return None
            return 1
        s = 1
        for a, b in zip(pat[2], t[2]):
            r = unify(a, b, m, params)
            if r is None:
                return None
            s += r
        return s
    if k == "ref":
        if pat[1] != t[1]:
            return None
        return unify(pat[2], t[2], m, params)
    if k in ("slice", "ptr"):
        return unify(pat[1], t[1], m, params)
    if k == "array":
        return unify(pat[1], t[1], m, params)
    if k == "tuple":
        if len(pat[1]) != len(t[1]):
            return None
        s = 1
        for a, b in zip(pat[1], t[1]):
            r = unify(a, b, m, params)
            if r is None:
                return None
            s += r
        return s
    return 1 if pat == t else (0 if k in ("dyn", "fn", "closure") else None)
