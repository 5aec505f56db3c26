#![allow(dead_code, unused)]
//! What walking means: every sub-article element outside block amendments is entered once, in document order, with its
//! full reference; its children are walked between entering and leaving it; the first error ends the walk.
use super::*;
use crate::structure::*;

pub fn vec<T: WalkSAE + DebugContextString, V: SAEVisitor>(this: & Vec<T>, base: &Reference, visitor: &mut V) -> Result<()> {
    for c in this {
        c.walk_saes(base, visitor)?;
    }
    Ok(())
}

pub fn act<V: SAEVisitor>(this: & Act, visitor: &mut V) -> Result<()> {
    let position = this.reference();
    this.children.walk_saes(&position, visitor)
}

pub fn act_child<V: SAEVisitor>(this: & ActChild, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        ActChild::Article(x) => x.walk_saes(base, visitor),
        ActChild::Subtitle(_) => Ok(()),
        ActChild::StructuralElement(_) => Ok(()),
    }
}

pub fn article<V: SAEVisitor>(this: & Article, base: &Reference, visitor: &mut V) -> Result<()> {
    let position = this.reference().relative_to(base)?;
    this.children.walk_saes(&position, visitor)
}

pub fn sae<IT, CT, V: SAEVisitor>(this: & SubArticleElement<IT, CT>, base: &Reference, visitor: &mut V) -> Result<()>
where
    SubArticleElement<IT, CT>: DebugContextString + ReferenceToElement,
    CT: ChildrenCommon + WalkSAE,
    IT: IdentifierCommon,
{
    let position = this.reference().relative_to(base)?;
    visitor.on_enter(&position, this)?;
    match & this.body {
        SAEBody::Text(_) => (),
        SAEBody::Children { children, .. } => children.walk_saes(&position, visitor)?,
    }
    visitor.on_exit(&position, this)?;
    Ok(())
}

pub fn paragraph_children<V: SAEVisitor>(this: & ParagraphChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        ParagraphChildren::AlphabeticPoint(b) => b.walk_saes(base, visitor),
        ParagraphChildren::NumericPoint(b) => b.walk_saes(base, visitor),
        // quoted text and amendments belong to another act
        _ => Ok(()),
    }
}

pub fn alphabetic_point_children<V: SAEVisitor>(this: & AlphabeticPointChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        AlphabeticPointChildren::AlphabeticSubpoint(b) => b.walk_saes(base, visitor),
        AlphabeticPointChildren::NumericSubpoint(b) => b.walk_saes(base, visitor),
    }
}

pub fn numeric_point_children<V: SAEVisitor>(this: & NumericPointChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        NumericPointChildren::AlphabeticSubpoint(b) => b.walk_saes(base, visitor),
    }
}

pub fn vec_mut<T: WalkSAEMut + DebugContextString, V: SAEVisitorMut>(this: &mut Vec<T>, base: &Reference, visitor: &mut V) -> Result<()> {
    for c in this {
        c.walk_saes_mut(base, visitor)?;
    }
    Ok(())
}

pub fn act_mut<V: SAEVisitorMut>(this: &mut Act, visitor: &mut V) -> Result<()> {
    let position = this.reference();
    this.children.walk_saes_mut(&position, visitor)
}

pub fn act_child_mut<V: SAEVisitorMut>(this: &mut ActChild, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        ActChild::Article(x) => x.walk_saes_mut(base, visitor),
        ActChild::Subtitle(_) => Ok(()),
        ActChild::StructuralElement(_) => Ok(()),
    }
}

pub fn article_mut<V: SAEVisitorMut>(this: &mut Article, base: &Reference, visitor: &mut V) -> Result<()> {
    let position = this.reference().relative_to(base)?;
    this.children.walk_saes_mut(&position, visitor)
}

pub fn sae_mut<IT, CT, V: SAEVisitorMut>(this: &mut SubArticleElement<IT, CT>, base: &Reference, visitor: &mut V) -> Result<()>
where
    SubArticleElement<IT, CT>: DebugContextString + ReferenceToElement,
    CT: ChildrenCommon + WalkSAEMut,
    IT: IdentifierCommon,
{
    let position = this.reference().relative_to(base)?;
    visitor.on_enter(&position, this)?;
    match &mut this.body {
        SAEBody::Text(_) => (),
        SAEBody::Children { children, .. } => children.walk_saes_mut(&position, visitor)?,
    }
    visitor.on_exit(&position, this)?;
    Ok(())
}

pub fn paragraph_children_mut<V: SAEVisitorMut>(this: &mut ParagraphChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        ParagraphChildren::AlphabeticPoint(b) => b.walk_saes_mut(base, visitor),
        ParagraphChildren::NumericPoint(b) => b.walk_saes_mut(base, visitor),
        // quoted text and amendments belong to another act
        _ => Ok(()),
    }
}

pub fn alphabetic_point_children_mut<V: SAEVisitorMut>(this: &mut AlphabeticPointChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        AlphabeticPointChildren::AlphabeticSubpoint(b) => b.walk_saes_mut(base, visitor),
        AlphabeticPointChildren::NumericSubpoint(b) => b.walk_saes_mut(base, visitor),
    }
}

pub fn numeric_point_children_mut<V: SAEVisitorMut>(this: &mut NumericPointChildren, base: &Reference, visitor: &mut V) -> Result<()> {
    match this {
        NumericPointChildren::AlphabeticSubpoint(b) => b.walk_saes_mut(base, visitor),
    }
}
