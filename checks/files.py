"""C13: fixups."""
from .base import check
from .walk import TECH
from .lines import method
from .texts import impl_of
from .output import free

LINES = ("from_parts", "from_multiple", "slice", "slice_bytes", "indent_at", "as_bold", "append_to", "join", "parse_header", "indent",
         "content", "is_bold", "is_justified", "len", "is_empty")


def line_ops(P, skip=("content", "len", "is_empty", "indent", "is_bold", "is_justified")):
    return {f.qual for n in LINES if n not in skip for f in method(P, "IndentedLine", n)}


@check("C13", TECH)
def c13(ctx):
    P = ctx.P
    ctx.rule("A fixup must be applied at the one place where its context occurs, and change that line only; fixups are applied in their "
             "order, and what is saved is what is loaded.")
    lops = line_ops(P)
    yaml = {f.qual for f in P.fns if f.name.startswith("util::singleton_yaml::") and f.mir.owner == "hun_law"}
    ap = ctx.one("Fixup::apply", method(P, "Fixup", "apply"))
    to_line = method(P, "Fixup", "apply_to_line")
    ctx.refine("Fixup::apply", ap, "fixups::apply", opaque=lops | {f.qual for f in to_line}, strict_err=True)
    ctx.refine("replaced line", ctx.maybe("replaced line", to_line), "fixups::apply_to_line", opaque=lops)
    ctx.refine("Fixups::apply", ctx.one("Fixups::apply", method(P, "Fixups", "apply")), "fixups::apply_all", opaque={ap.qual} if ap else set())
    ctx.refine("Fixups::add", ctx.one("Fixups::add", method(P, "Fixups", "add")), "fixups::add")
    lf = ctx.one("Fixups::load_from", method(P, "Fixups", "load_from"))
    ctx.refine("Fixups::load_from", lf, "fixups::load_from", opaque=yaml)
    ctx.refine("Fixups::load", ctx.one("Fixups::load", method(P, "Fixups", "load")), "fixups::load", opaque={lf.qual} if lf else set())
    ctx.refine("list of fixups", ctx.one("Vec<Fixup> from Fixups", impl_of(P, "Vec", "from", "From", "Fixups")), "fixups::into_vec")


# ---------------------------------------------------------------------------------------------- files are replaced in one step
from engine.spec import Table  # noqa: E402
from engine.absint import key, show, Budget, Unsupported  # noqa: E402
import re  # noqa: E402

OPENS = {"File::create": 0, "std::fs::write": 0, "fs::write": 0, "File::create_new": 0}
RENAMES = ("std::fs::rename", "fs::rename")
READS = ("std::fs::read", "fs::read", "File::open", "Path::exists", "std::fs::create_dir_all", "fs::create_dir_all", "std::fs::create_dir",
         "std::fs::metadata", "std::fs::read_to_string", "std::fs::remove_file", "std::fs::remove_dir")
STRANGE = re.compile(r"^(OpenOptions|std::fs::(copy|hard_link|OpenOptions)|File::(options|set_len)|NamedTempFile|tempfile|Command)|persist")


GETS = ("std::fs::read", "fs::read", "File::open")
CUTS = ("Read::take", "Vec::truncate", "Iterator::take", "Read::chain")


def got(e):
    return ("app", "get", (key(e[3]), ("c", "Ok", "str")))


def inside(k, x):
    return k == x or isinstance(k, tuple) and any(inside(y, x) for y in k)


def calls(o):
    return [e for e in o.state.events if e[0] == "call"]


def one_step(ctx, name, fi, final, stored, opaque=()):
    """Every path: nothing opens `final` for writing; a rename onto it comes after a complete, successful write of its source; a
    path that reports success has done that (unless it only read)."""
    if fi is None:
        return
    ctx.count("functions whose file effects are traced")
    try:
        tb = Table(ctx.P, fi, opaque=opaque)
    except (Budget, Unsupported, RecursionError) as e:
        return ctx.undecided(name, f"{type(e).__name__}: {e}")
    where = f"{ctx.where(fi)} {fi.qual}"
    I, soft, n = tb.I, None, 0
    partial = {key(e[2][0]) for o in tb.outs for e in calls(o) if e[1] in RENAMES}
    for o in tb.outs:
        if o.kind != "return":
            continue
        ctx.count("paths")
        fin = final(tb, o)
        if fin is None:
            soft = "the path of the file is not recognised"
            continue
        strange = [e[1] for e in calls(o) if STRANGE.search(e[1])]
        opened = {}
        done = False
        for i, e in enumerate(calls(o)):
            if e[1] in OPENS:
                p = key(e[2][OPENS[e[1]]])
                if p == fin:
                    return ctx.bad(name, f"{where}: {e[1]}({show(e[2][0])}) writes the file in place: a failure or crash on the way leaves a "
                                         f"partial file under its final name")
                opened[p] = i
            if e[1] in RENAMES and key(e[2][1]) == fin:
                src = key(e[2][0])
                if src not in opened:
                    if strange:
                        soft = f"uses {strange[0]}"
                        continue
                    return ctx.bad(name, f"{where}: {show(e[2][0])} is renamed before anything is written to it")
                c = calls(o)
                buffered = flushed = False
                data = False
                for j in range(opened[src], i):
                    f = c[j]
                    made = key(c[opened[src]][3])
                    if j != opened[src] and not any(inside(key(a), made) for a in f[2]):
                        continue
                    buffered |= "BufWriter::new" in f[1]
                    flushed |= f[1].endswith(("flush", "into_inner", "sync_all"))
                    data |= any(stored(tb, o, key(a)) for a in f[2])
                    if is_result(f[3]) and I.get_variant(o.state, f[3]) != "Ok":
                        return ctx.bad(name, f"{where}: renamed onto its final name although {f[1]} may have failed")
                for j in range(opened[src], i):     # writes recorded as text
                    pass
                if buffered and not flushed:
                    return ctx.bad(name, f"{where}: buffered data is only written out when the writer is dropped, where errors are lost")
                if not data:
                    soft = "what is written is not recognised"
                done = True
        v = I.snap(o.state, o.ret)
        good = v[0] == "adt" and v[2] == "Ok"
        if good and not done:
            read = [e for e in calls(o) if e[1] in GETS and I.get_variant(o.state, e[3]) == "Ok"]
            if read:
                for e in read:
                    if key(v[3][0]) == got(e) and key(e[2][0]) in partial:
                        return ctx.bad(name, f"{where}: what {e[1]} finds in {show(e[2][0])}, the file that is written before it is whole, "
                                             f"is returned as the content")
                if not any(key(v[3][0]) == got(e) for e in read):
                    cut = [e[1] for e in calls(o) if any(k in e[1] for k in CUTS) and any(inside(key(a), got(r)) for a in e[2] for r in read)]
                    if cut:
                        return ctx.bad(name, f"{where}: the stored content is cut short by {cut[0]}")
                    soft = "what is returned from the file is not recognised"
                if not any(key(e[2][0]) == fin for e in read):
                    other = next((e for e in read if inside(key(e[2][0]), fin) and "with_extension" not in show(e[2][0])), None)
                    if other:
                        return ctx.bad(name, f"{where}: what is stored as {show_key(fin)} is looked for as {show(other[2][0])}")
                    soft = "reads another file"
            elif strange:
                soft = f"uses {strange[0]}"
            else:
                return ctx.bad(name, f"{where}: reports success without having put the file in place")
        n += 1
    if soft:
        ctx.undecided(name, soft)
    else:
        ctx.ok(name, f"{n} paths")


FETCH = re.compile(r"(^|::)(read_to_end|read_to_string|read_exact|read|call|copy|call_timeout)$")


def fetched(ctx, fi, tb):
    """What is stored or returned as the issue is all of the answer: every call that fetched it succeeded, and nothing cut it short."""
    w, n = f"{ctx.where(fi)} {fi.qual}: ", 0
    for o in tb.outs:
        v = tb.I.snap(o.state, o.ret)
        if o.kind != "return" or v[0] != "adt" or v[2] != "Ok":
            continue
        cs = calls(o)
        if not any(e[1] == "ureq::get" for e in cs):
            continue
        n += 1
        files = [key(e[3]) for e in cs if e[1] == "File::open"]
        for e in cs:
            if any(inside(key(a), f) for a in e[2] for f in files):
                continue        # not the answer, but what was stored before
            if any(k in e[1] for k in CUTS) and any(inside(key(a), "Request::call") for a in e[2]):
                return ctx.bad("whole answer", w + f"the answer is cut short by {e[1]}")
            if FETCH.search(e[1]) and not e[1].startswith(("std::fs", "fs::")) and is_result(e[3]) and tb.I.get_variant(o.state, e[3]) == "Err":
                return ctx.bad("whole answer", w + f"reports success although {e[1]} failed")
            if FETCH.search(e[1]) and not e[1].startswith(("std::fs", "fs::")) and is_result(e[3]) and tb.I.get_variant(o.state, e[3]) is None:
                return ctx.bad("whole answer", w + f"stores and returns the answer without asking whether {e[1]} succeeded")
    ctx.ok("whole answer", f"{n} paths")


def is_result(v):
    ty = v[3] if v[0] == "app" else v[2] if v[0] == "tok" else None
    if ty is None:
        return False
    from engine import rtypes as T
    t = T.parse(ty) if isinstance(ty, str) else ty
    return t[0] == "path" and T.last(t[1]) == "Result"


def mentions_all(k, *paths):
    return all(inside(k, ("tok", p)) for p in paths)


@check("C14", "Effect analysis over the path table of the functions that write files (abstract interpretation of MIR): order of create, write "
              "and rename on every path including every failure, plus comparison with reference specifications")
def c14(ctx):
    P = ctx.P
    ctx.rule("A file another run will read is never opened for writing under its final name: it is written completely elsewhere, every "
             "write error ends the function, and it is moved into place afterwards. A cached issue is found under the name it was stored by.")
    yaml = {f.qual for f in P.fns if f.name.startswith("util::singleton_yaml::") and f.mir.owner == "hun_law"}
    save = ctx.one("Fixups::save", method(P, "Fixups", "save"))
    one_step(ctx, "saving fixups", save, lambda tb, o: ("tok", ("a0", "fixup_path")),
             lambda tb, o, k: inside(k, ("tok", ("a0", "fixups"))), yaml)
    dl = ctx.one("download_mk_issue", free(P, "mk_downloader::download_mk_issue"))

    def looked_at(o):
        return [key(e[2][0]) for e in calls(o) if e[1] in GETS]

    def cached(tb, o):
        """The name an issue is moved to; where it is never moved, the one it is looked for under."""
        moved = {key(e[2][1]) for x in [o] for e in calls(x) if e[1] in RENAMES} or \
                {key(e[2][1]) for x in tb.outs for e in calls(x) if e[1] in RENAMES}
        r = moved or set(looked_at(o))
        return r.pop() if len(r) == 1 else None

    def body(tb, o, k):
        v = tb.I.snap(o.state, o.ret)
        return v[0] == "adt" and (v[2] != "Ok" or k == key(v[3][0]))
    one_step(ctx, "caching a downloaded issue", dl, cached, body)
    if dl is not None:
        tb = Table(P, dl)
        bad = soft = None
        for o in tb.outs:
            k = cached(tb, o)
            if k is None:
                soft = "more than one file is read"
                continue
            for x in [k] + looked_at(o):
                if not mentions_all(x, ("a0", "year"), ("a0", "issue"), ("a1",)):
                    bad = f"the cache file {show_key(x)} does not depend on the directory, the year and the issue"
            for e in calls(o):
                if e[1] == "ureq::get" and not mentions_all(key(e[2][0]), ("a0", "year"), ("a0", "issue")):
                    bad = "the address does not depend on the year and the issue"
        w = f"{ctx.where(dl)} {dl.qual}: "
        fetched(ctx, dl, tb)
        (ctx.bad("cache key", w + bad) if bad else ctx.undecided("cache key", soft) if soft else ctx.ok("cache key", f"{len(tb.outs)} paths"))
    ctx.refine("issue descriptor", ctx.one("FromStr of MkIssue", impl_of(P, "MkIssue", "from_str", "FromStr")), "mk_downloader::from_str")
    ctx.refine("cache file name", ctx.maybe("MkIssue::cache_key", method(P, "MkIssue", "cache_key")), "mk_downloader::cache_key")
    ctx.refine("address of an issue", ctx.maybe("MkIssue::url", method(P, "MkIssue", "url")), "mk_downloader::url")
    for n in ("to_writer", "to_vec", "to_string", "from_str", "from_reader", "from_slice"):
        fi = ctx.one(f"singleton_yaml::{n}", free(P, f"util::singleton_yaml::{n}"))
        ctx.refine(f"YAML {n}", fi, f"util::singleton_yaml::{n}", opaque=yaml - {fi.qual if fi else None})


def show_key(k):
    return re.sub(r"\s+", " ", repr(k))[:120]
