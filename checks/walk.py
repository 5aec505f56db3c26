"""C07: walking an act."""
from engine import rtypes as T
from .base import check

TECH = ("Path-sensitive abstract interpretation of the type-checked MIR; every path is compared with a reference specification "
        "analysed the same way (loops by simulation)")

KINDS = [("Vec", "vec"), ("ActChild", "act_child"), ("Article", "article"), ("SubArticleElement", "sae"),
         ("ParagraphChildren", "paragraph_children"), ("AlphabeticPointChildren", "alphabetic_point_children"),
         ("NumericPointChildren", "numeric_point_children")]


@check("C07", TECH)
def c07(ctx):
    P = ctx.P
    ctx.rule("Each element kind's walk must enter it once with its full reference, walk its children in order and leave it; "
             "& and &mut walks follow the same rule; errors end the walk.")
    n = 0
    for meth, suffix in (("walk_saes", ""), ("walk_saes_mut", "_mut")):
        fns = [f for f in P.fns if f.method == meth and f.impl_self is not None and f.mir.owner == "hun_law"
               and "{closure" not in f.name]
        for ty, sp in KINDS + [("Act", "act")]:
            c = [f for f in fns if f.impl_self[0] == "path" and T.last(f.impl_self[1]) == ty]
            fi = ctx.one(f"{meth} of {ty}", c)
            n += fi is not None
            opaque = {f.qual for f in fns if f is not fi} | {f.qual for f in P.fns if f.method in ("reference", "relative_to")}
            ctx.refine(f"{meth} of {ty}", fi, f"util::walker::{sp}{suffix}", opaque=opaque)
    ctx.floor("walk implementations", n, 16)
