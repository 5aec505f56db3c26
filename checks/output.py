"""C10: text output."""
from engine import rtypes as T
from .base import check
from .walk import TECH
from .lines import method

KINDS = [("Act", "act"), ("ActChild", "act_child"), ("StructuralElement", "structural_element"), ("Subtitle", "subtitle"),
         ("Article", "article"), ("SubArticleElement", "sae"), ("ParagraphChildren", "paragraph_children"),
         ("AlphabeticPointChildren", "alphabetic_point_children"), ("NumericPointChildren", "numeric_point_children"),
         ("BlockAmendmentChildren", "block_amendment_children"), ("QuotedBlock", "quoted_block"),
         ("BlockAmendment", "block_amendment"), ("StructuralBlockAmendment", "structural_block_amendment"), ("Vec", "vec")]


def free(P, name):
    return [f for f in P.fns if f.mir.owner == "hun_law" and f.name == name]


@check("C10", TECH)
def c10(ctx):
    P = ctx.P
    ctx.rule("Each element's text output must write its header, its own texts and its children once each, in document order, at its depth; "
             "write errors end the output with an error.")
    fns = [f for f in P.fns if f.method == "write_as_text" and f.impl_self is not None and f.mir.owner == "hun_law"
           and "{closure" not in f.name]
    hdr = {f.qual for f in P.fns if f.method in ("header_string", "with_slash", "indent", "content", "is_bold", "is_justified")
           and f.mir.owner == "hun_law"}
    painted = free(P, "output::text::colorize_sae_string")
    split = free(P, "output::text::split_string_at_references")
    for ty, sp in KINDS:
        fi = ctx.one(f"text output of {ty}", [f for f in fns if f.impl_self[0] == "path" and T.last(f.impl_self[1]) == ty])
        ctx.refine(f"text output of {ty}", fi, f"output::text::{sp}",
                   opaque={f.qual for f in fns if f is not fi} | hdr | {f.qual for f in painted})
    for n in ("new", "indented"):
        ctx.refine(f"TextOutputParams::{n}", ctx.one(f"TextOutputParams::{n}", method(P, "TextOutputParams", n)),
                   f"output::text::params_{n}")
    ctx.refine("coloured text", ctx.maybe("coloured text", painted), "output::text::sae_string", opaque={f.qual for f in split})
    ctx.refine("split at references", ctx.maybe("split at references", split), "output::text::split")
    plain = [f for f in P.fns if f.method == "cli_output_plain" and f.impl_self is not None and f.mir.owner == "hun_law"
             and "{closure" not in f.name]
    quick = ctx.one("quick_display_indented_line", free(P, "output::quick_display_indented_line"))
    for ty, sp in (("Vec", "pages"), ("PageOfLines", "page"), ("ActRawText", "act_raw_text"), ("Act", "act")):
        fi = ctx.one(f"plain output of {ty}", [f for f in plain if f.impl_self[0] == "path" and T.last(f.impl_self[1]) == ty])
        ctx.refine(f"plain output of {ty}", fi, f"output::{sp}",
                   opaque={f.qual for f in plain if f is not fi} | {f.qual for f in fns} | ({quick.qual} if quick else set()))
    ctx.refine("line display", quick, "output::line", opaque=hdr)
    disp = [f for f in P.fns if f.method == "cli_output" and f.mir.owner == "hun_law" and "{closure" not in f.name]
    ctx.refine("choice of format", ctx.one("CliOutput::cli_output", disp), "output::cli_output", opaque={f.qual for f in plain})
