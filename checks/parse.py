"""C15: structure parser."""
import re
from .base import check
from .walk import TECH
from .lines import method
from .output import free
from .files import line_ops


@check("C15", TECH)
def c15(ctx):
    P = ctx.P
    ctx.rule("Each line of an act must end up in exactly one place: the header that begins an element, or the text of the element begun last.")
    lops = line_ops(P) | {f.qual for n in ("update", "check_end") for f in method(P, "QuoteCheck", n)}
    own = {}
    for ty in ("SubtitleParser", "StructuralElementParser", "ArticleParser"):
        for n in ("feed_line", "finish"):
            own[ty, n] = ctx.maybe(f"{ty}::{n}", method(P, ty, n))
        own[ty, "header"] = ctx.maybe(f"{ty}Factory::try_create_from_header", method(P, ty + "Factory", "try_create_from_header"))
    for (ty, n), fi in own.items():
        mod = {"SubtitleParser": "subtitle", "StructuralElementParser": "structural_element", "ArticleParser": "article"}[ty]
        opaque = {f.qual for k in ("parse", "extract_multiple") for f in free(P, f"parser::structure::sae::SAEParser::{k}")} | lops | {f.qual for f in method(P, "StructuralElementType", "parse_identifier")} | {
            f.qual for k in ("is_next_from", "is_first") for f in method(P, "ArticleIdentifier", k)}
        ctx.refine(f"{ty} {n}", fi, f"parser::structure::{mod}::{n}", opaque=opaque, strict_err=True)
    cb = ctx.maybe("parse_complex_body", free(P, "parser::structure::act::parse_complex_body"))
    ctx.refine("complex body", cb, "parser::structure::act::complex_body", opaque=lops | {f.qual for f in own.values() if f is not None})
    ctx.refine("act", ctx.one("parse_act_structure", free(P, "parser::structure::act::parse_act_structure")), "parser::structure::act::parse_act_structure",
               opaque={cb.qual} if cb else set())


SAE = {"paragraph": "ParagraphParser", "numeric": "NumericPointParser", "alphabetic": "AlphabeticPointParser", "numeric_sub": "NumericSubpointParser",
       "alphabetic_sub": "AlphabeticSubpointParser"}


@check("C16", TECH)
def c16(ctx):
    P = ctx.P
    ctx.rule("Each line of an article must end up in exactly one place: as a header and the rest of its line, in an intro, a text, a wrap-up or a child.")
    lops = line_ops(P) | {f.qual for n in ("update", "check_end") for f in method(P, "QuoteCheck", n)}
    dflt = {n: ctx.maybe(f"SAEParser::{n}", free(P, f"parser::structure::sae::SAEParser::{n}")) for n in ("parse", "extract_multiple", "parse_and_check_header")}
    q = {n: f.qual for n, f in dflt.items() if f is not None}
    ctx.refine("children of an element", dflt["parse"], "parser::structure::sae::parse", opaque=lops)
    ctx.refine("header in sequence", dflt["parse_and_check_header"], "parser::structure::sae::parse_and_check_header", opaque=lops)
    ctx.refine("sequence of elements", dflt["extract_multiple"], "parser::structure::sae::extract_multiple",
               opaque=lops | {q[n] for n in ("parse", "parse_and_check_header") if n in q})
    quoted = {f.qual for f in method(P, "QuotedBlockParser", "extract_multiple")}
    for n, ty in SAE.items():
        ctx.refine(f"{n} header", ctx.one(f"{ty}::parse_header", method(P, ty, "parse_header")), f"parser::structure::sae::{n}_header",
                   opaque=lops | {f.qual for f in method(P, "PrefixedAlphabeticIdentifier", "prefix_is")})
        ctx.refine(f"{n} children", ctx.one(f"{ty}::try_extract_children", method(P, ty, "try_extract_children")), f"parser::structure::sae::{n}_children",
                   opaque=lops | quoted | {q["extract_multiple"]} if "extract_multiple" in q else quoted)


@check("C17", TECH)
def c17(ctx):
    P = ctx.P
    ctx.rule("A quoted block that an amendment announces must become the elements announced, with all its lines; otherwise it stays as it is.")
    lops = line_ops(P)
    mod = "parser::structure::block_amendment::"
    fns = {n: ctx.maybe(n, free(P, mod + n)) for n in (
        "convert_structural_block_amendment", "convert_simple_block_amendment", "convert_articles", "convert_title_only_block_amendment",
        "convert_title_only_se", "convert_subtitle_only_se")}
    own = {f.qual for f in fns.values() if f is not None}
    parsers = {f.qual for ty in ("SubtitleParser", "StructuralElementParser", "ArticleParser") for n in ("feed_line", "finish") for f in method(P, ty, n)}
    parsers |= {f.qual for ty in ("SubtitleParser", "StructuralElementParser", "ArticleParser") for f in method(P, ty + "Factory", "try_create_from_header")}
    parsers |= {f.qual for f in free(P, "parser::structure::act::parse_complex_body") + free(P, "parser::structure::sae::SAEParser::extract_multiple")}
    refs = {f.qual for n in ("get_last_part", "article") for f in method(P, "Reference", n)} | {f.qual for f in method(P, "IdentifierRange", "first_in_range")}
    for n, spec in (("convert_structural_block_amendment", "structural"), ("convert_simple_block_amendment", "simple"), ("convert_articles", "articles"),
                    ("convert_title_only_block_amendment", "title_only"), ("convert_title_only_se", "title_only_se"),
                    ("convert_subtitle_only_se", "title_only_subtitle")):
        fi = fns[n]
        ctx.refine(spec.replace("_", " "), fi, mod + spec, opaque=lops | parsers | refs | own - ({fi.qual} if fi else set()))
    conv = {ty: ctx.one(f"{ty}::convert_block_amendments", method(P, {"Paragraph": "SubArticleElement"}.get(ty, ty), "convert_block_amendments"))
            for ty in ("Act", "Article", "Paragraph")}
    q = {f.qual for f in conv.values() if f is not None}
    ctx.refine("paragraph", conv["Paragraph"], mod + "paragraph", opaque=own, strict_err=True)
    ctx.refine("article", conv["Article"], mod + "article", opaque=q)
    ctx.refine("act", conv["Act"], mod + "act", opaque=q)


@check("C18", TECH)
def c18(ctx):
    P = ctx.P
    ctx.rule("Every line between the heading of the section of acts and the next section must be looked at once, in order; an act ends at "
             "its signatures, with everything before them in its body, and the next starts from nothing.")
    mod = "parser::mk_act_section::"
    lops = line_ops(P)
    date = {f.qual for f in P.fns if f.method == "from_hungarian" and f.mir.owner == "hun_law"}
    dbl = ctx.one("ActRawText::remove_double_empty_lines", method(P, "ActRawText", "remove_double_empty_lines"))
    ctx.refine("double empty lines", dbl, mod + "remove_double_empty_lines", opaque=lops)
    feed = ctx.maybe("ActExtractor::feed_line", method(P, "ActExtractor", "feed_line"))
    ctx.refine("one line", feed, mod + "feed_line", opaque=lops)
    own = {n: ctx.maybe(n, free(P, mod + n)) for n in ("parse_mk_cover_page", "line_is_act_section_start", "line_is_act_section_end")}
    for (n, fi), sp in zip(own.items(), ("cover_page", "section_start", "section_end")):
        ctx.refine(sp.replace("_", " "), fi, mod + sp, opaque=lops | date)
    ctx.refine("pages", ctx.one("parse_mk_pages_into_acts", free(P, mod + "parse_mk_pages_into_acts")), mod + "pages",
               opaque=lops | {f.qual for f in [feed, dbl, *own.values()] if f is not None})


PDF = [("TextState", "textstate", ["set_both_matrices", "advance", "advance_by_char", "rendering_matrix"]),
       ("CharCollector", "collector", ["new", "render_character", "render_multiple_characters", "render_cid", "font_changed"]),
       ("ActualTextCollector", "actual_text", ["new", "render_cid", "finish", "from_bmc_params"]),
       ("FastFont", "font", ["add_mapping", "to_unicode", "process_base_encoding", "process_unicode_map", "process_encoding", "convert"]),
       ("FontCache", "font", ["get"]),
       ("PageRenderer", "page", ["new", "render", "render_cid", "render_text", "set_font", "handle_xobject", "handle_op"])]
OWNERS = r"(?:Arc|Rc|Box|MaybeRef|RcRef|Ref)"


KNOWN = {"HashMap", "BTreeMap", "Vec", "Option", "Arc", "Rc", "Box", "RefCell", "Cell", "MaybeRef", "RcRef", "Ref", "String", "str", "bool", "char",
         "std", "collections", "alloc", "rc", "sync", "vec", "string", "option", "boxed", "cell", "hash", "hash_map", "RandomState", "core", "crate",
         "const", "mut", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "parser", "pdf", "font", "object", "types", "Widths"}


def keeps(P, what, ty, seen=()):
    """Whether a value of type `ty` owns a `what` behind a pointer: True, False or None (a type not known here)"""
    short = re.sub(r"<.*", "", what).split("::")[-1]
    ty = re.sub(r"\s+", "", ty.replace("*const ", "*").replace("*mut ", "*"))
    if re.search(OWNERS + r"<(?:\w+::)*" + re.escape(short) + r"\b", ty):
        return True
    out = False
    for n in set(re.findall(r"[A-Za-z_]\w*", ty)):
        a = P.adts.get(n)
        if a is not None:
            if n in seen:
                continue
            fields = [f[1] for f in a.fields] + [f[1] for v in a.variants for f in v[2]]
            for t in fields:
                k = keeps(P, what, t, seen + (n,))
                if k:
                    return True
                out = None if k is None else out
        elif n not in KNOWN and n != short:
            out = None
    return out


def addresses(ctx):
    """The address of a value may be a key only in a map that owns the value: otherwise another value can get the same address."""
    ctx.rule("An address may be a key only in a map whose entries own what is at that address.")
    n = 0
    for f in ctx.P.fns:
        if f.mir.owner != "hun_law":
            continue
        tys = dict(f.mir.locals)
        tys.update(dict(f.mir.params))
        maps = {t for t in tys.values() if isinstance(t, str) and re.search(r"(?:HashMap|BTreeMap)<(?:usize|\*const [^,]+|\*mut [^,]+), ", t)}
        if not maps:
            continue
        found = {m.group(1) for t in maps for m in [re.search(r"Map<\*(?:const|mut) ([^,]+), ", t)] if m}
        for b in f.mir.blocks.values():
            for s in b.stmts:
                c = next((x for x in s if isinstance(x, tuple) and x[:1] == ("cast",)), None)
                if c is None or len(c) < 4 or not str(c[3]).startswith("PointerExpose") or c[1][0] not in ("copy", "move"):
                    continue
                m = re.match(r"\*(?:const|mut) (.+)$", tys.get(c[1][1][1], ""))
                if m and not m.group(1).startswith(("fn(", "for<")):
                    found.add(m.group(1))
        for what in sorted(found):
            n += 1
            ob = f"address as key in {f.qual}"
            k = [keeps(ctx.P, what, t.split(", ", 1)[1]) for t in maps]
            if any(k):
                ctx.ok(ob, f"{what} is owned by the map")
            elif None in k:
                ctx.undecided(ob, "the map's entries are of a type this rule does not know")
            else:
                ctx.bad(ob, f"{ctx.where(f)} {f.qual}: the address of a {what} is the key of a map that does not keep it "
                        "alive: another one at the same address later gets its entry")
    ctx.count("addresses used as keys", n)


SMALL = {"new", "set_both_matrices", "advance"}


@check("C19", TECH)
def c19(ctx):
    P = ctx.P
    ctx.rule("Every glyph drawn must become the characters it stands for, once, where the text state puts it, with the boldness of the font in "
             "force; the text state must change as each operation says.")
    mod = "parser::pdf::"
    ctx.refine("crop box", ctx.maybe("CropBox::is_inside", method(P, "CropBox", "is_inside")), mod + "is_inside")
    q = ctx.maybe("fix_character_coding_quirks", free(P, mod + "util::fix_character_coding_quirks"))
    ctx.refine("character quirks", q, mod + "util::quirks")
    fns = {}
    for ty, m, names in PDF:
        for n in names:
            fns[ty, n] = ctx.maybe(f"{ty}::{n}", method(P, ty, n))
    d = [f for f in P.fns if f.method == "default" and f.impl_self is not None and f.impl_self[0] == "path" and f.mir.owner == "hun_law"
         and f.impl_self[1].endswith("TextState")]
    ctx.refine("initial text state", ctx.maybe("TextState::default", d), mod + "textstate::initial")
    known = {f.qual for (ty, n), f in fns.items() if f is not None and n not in SMALL} | ({q.qual} if q else set()) | {
        f.qual for ty, n in (("CropBox", "is_inside"),)
        for f in method(P, ty, n)}
    for ty, m, names in PDF:
        for n in names:
            fi = fns[ty, n]
            ctx.refine(f"{ty} {n}", fi, f"{mod}{m}::{n}", opaque=known - ({fi.qual} if fi else set()))
    addresses(ctx)
    ctx.refine("pages of the file", ctx.one("parse_pdf", free(P, mod + "parse_pdf")), mod + "pdf", opaque=known | {
        f.qual for f in P.fns if f.method == "try_from" and f.impl_self is not None and f.impl_self[0] == "path" and f.impl_self[1].endswith("PageOfLines")})


@check("C20", TECH)
def c20(ctx):
    P = ctx.P
    ctx.rule("Every character of a page must be on one line, lines from top to bottom, characters from left to right, with a space where the gap "
             "is wide enough and an empty line where the lines are far apart.")
    mod = "parser::pdf::page_of_lines::"
    lops = line_ops(P)
    ctx.refine("initial crop box", ctx.maybe("CropBox::default", [
        f for f in P.fns if f.method == "default" and f.mir.owner == "hun_law" and f.impl_self is not None and f.impl_self[0] == "path"
        and f.impl_self[1].endswith("CropBox")]), "parser::pdf::whole_page")
    one = ctx.maybe("consolidate_line", free(P, mod + "consolidate_line"))
    ctx.refine("one line", one, mod + "one_line", opaque=lops)
    ctx.refine("lines of a page", ctx.one("PageOfLines::try_from", [
        f for f in P.fns if f.method == "try_from" and f.impl_self is not None and f.impl_self[0] == "path" and f.impl_self[1].endswith("PageOfLines")]),
        mod + "page", opaque=lops | ({one.qual} if one else set()))
