"""C11: structure queries and headers.  C12: text forms of identifiers and references."""
from engine import rtypes as T
from .base import check
from .walk import TECH
from .lines import method
from .output import free


def impl_of(P, ty, name, trait, arg=None):
    """Methods of `impl Trait<arg> for ty` (last path segments)"""
    out = []
    for f in P.fns:
        if f.method != name or f.impl_self is None or f.mir.owner != "hun_law" or "{closure" in f.name or f.impl_trait is None:
            continue
        if T.last(f.impl_trait[1]) != trait or f.impl_self[0] != "path" or T.last(f.impl_self[1]) != ty:
            continue
        if arg is not None and not (f.impl_trait[2] and f.impl_trait[2][0][0] == "path" and T.last(f.impl_trait[2][0][1]) == arg):
            continue
        out.append(f)
    return out


def by_params(fns, params):
    """Among impls for SubArticleElement<IT, CT>, the one for the given type arguments"""
    out = []
    for f in fns:
        a = tuple(T.last(x[1]) if x[0] == "path" else "?" for x in f.impl_self[2])
        if a == params:
            out.append(f)
    return out


@check("C11", TECH)
def c11(ctx):
    P = ctx.P
    ctx.rule("Looking up an article must give the first one of that identifier; header texts must be made of the element's own identifier in "
             "its kind's form, and header numbers be read back in the same form; emptiness must depend on every child.")
    ids = {f.qual for f in P.fns if f.method in ("to_hungarian", "to_roman", "from_roman", "from_hungarian") and f.mir.owner == "hun_law"}
    for n in ("article", "article_mut"):
        ctx.refine(f"Act::{n}", ctx.one(f"Act::{n}", method(P, "Act", n)), f"structure::{n}")
    ctx.refine("header of a structural element", ctx.one("StructuralElement::header_string", method(P, "StructuralElement", "header_string")),
               "structure::structural_header", opaque=ids)
    ctx.refine("number of a structural element", ctx.one("StructuralElementType::parse_identifier",
                                                         method(P, "StructuralElementType", "parse_identifier")),
               "structure::parse_identifier", opaque=ids)
    ctx.refine("header of an article", ctx.one("Article::header_string", method(P, "Article", "header_string")), "structure::article_header")
    empties = [f for f in P.fns if f.method == "is_empty" and f.mir.owner == "hun_law" and f.impl_self is not None]
    ctx.refine("emptiness of a sub-article element", ctx.one("SubArticleElement::is_empty", method(P, "SubArticleElement", "is_empty")),
               "structure::sae_is_empty")
    for ty, sp in (("ParagraphChildren", "paragraph_children"), ("AlphabeticPointChildren", "alphabetic_point_children"),
                   ("NumericPointChildren", "numeric_point_children"), ("BlockAmendmentChildren", "block_amendment_children")):
        fi = ctx.one(f"{ty}::is_empty", impl_of(P, ty, "is_empty", "ChildrenCommon"))
        ctx.refine(f"emptiness of {ty}", fi, f"structure::{sp}_is_empty",
                   opaque={f.qual for f in empties if f is not fi and T.last(f.impl_self[1]) in ("SubArticleElement", "BlockAmendmentChildren")})
    hs = impl_of(P, "SubArticleElement", "header_string", "SAEHeaderString") + \
        [f for n in ("Paragraph", "NumericPoint", "AlphabeticPoint", "NumericSubpoint", "AlphabeticSubpoint")
         for f in impl_of(P, n, "header_string", "SAEHeaderString")]
    for kind, params in (("paragraph", ("ParagraphIdentifier", "ParagraphChildren")),
                         ("numeric_point", ("NumericIdentifier", "NumericPointChildren")),
                         ("alphabetic_point", ("HungarianIdentifierChar", "AlphabeticPointChildren")),
                         ("numeric_subpoint", ("NumericIdentifier", "NumericSubpointChildren")),
                         ("alphabetic_subpoint", ("PrefixedAlphabeticIdentifier", "AlphabeticSubpointChildren"))):
        ctx.refine(f"header of a {kind}", ctx.one(f"header of a {kind}", by_params(hs, params)), f"structure::{kind}_header")


ID = {"numeric": "NumericIdentifier", "alphabetic": "HungarianIdentifierChar", "prefixed_alphabetic": "PrefixedAlphabeticIdentifier",
      "article": "ArticleIdentifier", "paragraph": "ParagraphIdentifier", "act": "ActIdentifier"}


@check("C12", TECH)
def c12(ctx):
    P = ctx.P
    ctx.rule("What is written for an identifier or a reference must be made of all its parts, and reading must take the same parts from the "
             "same places: writer and reader are compared with a pair of specifications that are inverse to each other.")
    other = {f.qual for f in P.fns if f.mir.owner == "hun_law" and f.impl_trait is not None and T.last(f.impl_trait[1]) in
             ("FromStr", "Display", "CompactString", "TryFrom", "ToHungarianString") and f.method in
             ("from_str", "fmt", "fmt_compact_string", "from_compact_string", "try_from", "to_hungarian")}

    def go(name, fi, spec, **kw):
        if fi is not None:
            ctx.refine(name, fi, spec, opaque=other - {fi.qual}, **kw)
    for m, ty in ID.items():
        mod = f"identifier::{m}"
        go(f"{ty} read from text", ctx.one(f"FromStr of {ty}", impl_of(P, ty, "from_str", "FromStr")), f"{mod}::from_str")
        if m != "act":
            go(f"{ty} from String", ctx.one(f"TryFrom<String> of {ty}", impl_of(P, ty, "try_from", "TryFrom", "String")), f"{mod}::try_from")
            go(f"{ty} into String", ctx.one(f"String from {ty}", impl_of(P, "String", "from", "From", ty)), f"{mod}::into_string")
        go(f"{ty} written as text", ctx.one(f"Display of {ty}", impl_of(P, ty, "fmt", "Display")), f"{mod}::display")
        go(f"{ty} written compactly", ctx.one(f"CompactString of {ty}", impl_of(P, ty, "fmt_compact_string", "CompactString")), f"{mod}::compact")
        go(f"{ty} read from compact text", ctx.one(f"CompactString of {ty}", impl_of(P, ty, "from_compact_string", "CompactString")),
           f"{mod}::from_compact")
    go("letter from a character", ctx.one("TryFrom<char>", impl_of(P, ID["alphabetic"], "try_from", "TryFrom", "char")),
       "identifier::alphabetic::try_from_char")
    go("letters in upper case", ctx.maybe("upper case letters", impl_of(P, "UppercaseHungarianIdentifierChar", "fmt", "Display")),
       "identifier::alphabetic::display_upper")
    go("numbers with slash", ctx.maybe("numbers with slash", impl_of(P, "NumericIdentifierWithSlash", "fmt", "Display")),
       "identifier::numeric::display_with_slash")
    for n in ("with_slash", "to_hungarian", "to_roman", "from_roman"):
        go(f"NumericIdentifier::{n}", ctx.one(f"NumericIdentifier::{n}", method(P, "NumericIdentifier", n)), f"identifier::numeric::{n}")
    for n in ("prefix_is", "get_prefix"):
        go(f"PrefixedAlphabeticIdentifier::{n}", ctx.one(f"PrefixedAlphabeticIdentifier::{n}", method(P, ID["prefixed_alphabetic"], n)),
           f"identifier::prefixed_alphabetic::{n}")
    go("article identifier of book and number", ctx.one("from_book_and_id", method(P, "ArticleIdentifier", "from_book_and_id")),
       "identifier::article::from_book_and_id")
    for m, ty in (("numeric", "NumericIdentifier"), ("article", "ArticleIdentifier"), ("paragraph", "ParagraphIdentifier")):
        go(f"{ty} from a number", ctx.one(f"From<u16> of {ty}", impl_of(P, ty, "from", "From", "u16")), f"identifier::{m}::from_number")
    go("paragraph from a numeric identifier", ctx.one("paragraph from a numeric identifier",
                                                      impl_of(P, "ParagraphIdentifier", "from", "From", "NumericIdentifier")),
       "identifier::paragraph::from_id")
    for ty, mod, pre in (("IdentifierRange", "identifier::range", ""), ("RefPartPoint", "reference::parts", "point_"),
                         ("RefPartSubpoint", "reference::parts", "subpoint_"), ("Option", "util::compact_string", "option_"),
                         ("Reference", "reference::string", "")):
        go(f"{ty} written compactly", ctx.one(f"CompactString of {ty}", impl_of(P, ty, "fmt_compact_string", "CompactString")),
           f"{mod}::{pre}compact")
        go(f"{ty} read from compact text", ctx.one(f"CompactString of {ty}", impl_of(P, ty, "from_compact_string", "CompactString")),
           f"{mod}::{pre}from_compact")
    go("reference written as text", ctx.one("Display of Reference", impl_of(P, "Reference", "fmt", "Display")), "reference::string::display")
    go("compact text of anything", ctx.maybe("Display of CompactStringFormatter", impl_of(P, "CompactStringFormatter", "fmt", "Display")),
       "util::compact_string::formatter")
    go("compact text", ctx.maybe("CompactString::compact_string", [f for f in P.fns if f.mir.owner == "hun_law" and f.name.endswith(
        "CompactString::compact_string")]), "util::compact_string::compact_string")
    month = free(P, "util::hun_str::text_to_month_hun")
    ctx.refine("date from Hungarian", ctx.one("NaiveDate from Hungarian", impl_of(P, "NaiveDate", "from_hungarian", "FromHungarianString")),
               "util::hun_str::date_from_hungarian", opaque=other | {f.qual for f in month})
    go("month names", ctx.one("text_to_month_hun", month), "util::hun_str::month")
    for t in ("u8", "u16"):
        fs = [f for f in P.fns if f.method in ("from_hungarian", "to_hungarian") and f.mir.owner == "hun_law" and "{closure" not in f.name]
        go(f"{t} from Hungarian", ctx.maybe(f"{t} from Hungarian", [f for f in fs if f.method == "from_hungarian" and
                                                                    f.mir.ret.replace("std::result::", "").startswith(f"Result<{t},")]),
           f"util::hun_str::{t}_from_hungarian")
        go(f"{t} to Hungarian", ctx.maybe(f"{t} to Hungarian", [f for f in fs if f.method == "to_hungarian" and f.mir.params[0][1] == t]),
           f"util::hun_str::{t}_to_hungarian")
