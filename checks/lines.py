"""C08: lines of text.  C09: quotes."""
from engine import rtypes as T
from .base import check
from .walk import TECH


def method(P, ty, name, trait=None):
    """Methods of a type of the library, by the name of the type and of the method."""
    return [f for f in P.fns if f.method == name and f.impl_self is not None and f.impl_self[0] == "path"
            and T.last(f.impl_self[1]) == ty and f.mir.owner == "hun_law" and "{closure" not in f.name
            and (trait is None or f.trait and T.last(f.trait) == trait)]


LINE = ["from_parts", "from_multiple", "indent", "content", "is_bold", "is_justified", "len", "is_empty", "slice", "slice_bytes",
        "indent_less_or_eq", "indent_at", "append_to", "join", "as_bold", "parse_header", "eq"]
# what a specification may take for granted, because it has one of its own
BASE = {"from_parts", "slice", "slice_bytes", "append_to"}


@check("C08", TECH)
def c08(ctx):
    P = ctx.P
    ctx.rule("Every way of making, cutting and joining lines must keep each character with its position, boldness and order; "
             "queries must report what the characters say.")
    fns = {n: ctx.one(f"IndentedLine::{n}", method(P, "IndentedLine", n)) for n in LINE}
    for n, fi in fns.items():
        opaque = {fns[b].qual for b in BASE if fns[b] is not None and b != n}
        ctx.refine(f"IndentedLine::{n}", fi, f"util::indentedline::{n}", opaque=opaque)


QUOTE_STATES = ["state_start", "state_start_expect_intro", "state_waiting_for_quoted_block", "state_waiting_for_quoted_block_wrap_up",
                "state_quoted_block_intro", "state_quoted_block_wrap_up", "state_inside_quoted_block", "state_wrap_up"]


@check("C09", TECH)
def c09(ctx):
    P = ctx.P
    ctx.rule("The quote level must change by every quote sign of a line and never fall below zero; the quoted block parser must put each "
             "line of its input, without the delimiting signs, in exactly one place.")
    for n in ("update", "check_end"):
        ctx.refine(f"QuoteCheck::{n}", ctx.one(f"QuoteCheck::{n}", method(P, "QuoteCheck", n)), f"util::{n}")
    lib = {f.qual for n in ("slice", "append_to") for f in method(P, "IndentedLine", n)}
    own = {n: ctx.maybe(f"QuotedBlockParser::{n}", method(P, "QuotedBlockParser", n)) for n in ["new", "parse_line"] + QUOTE_STATES}
    for n, fi in own.items():
        ctx.refine(f"QuotedBlockParser::{n}", fi, f"parser::structure::quote::{n}", opaque=lib | (
            {f.qual for f in own.values() if f is not None and f is not fi and f.method in QUOTE_STATES}))
    ctx.refine("QuotedBlockParser::extract_multiple",
               ctx.one("QuotedBlockParser::extract_multiple", method(P, "QuotedBlockParser", "extract_multiple")),
               "parser::structure::quote::extract_multiple",
               opaque=lib | {f.qual for f in own.values() if f is not None and f.method == "parse_line"})
