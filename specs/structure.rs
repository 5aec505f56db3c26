#![allow(dead_code, unused)]
use super::*;

pub fn article(this: &Act, id: ArticleIdentifier) -> Option<&Article> {
    for c in &this.children {
        if let ActChild::Article(a) = c {
            if a.identifier == id {
                return Some(a);
            }
        }
    }
    None
}

pub fn article_mut(this: &mut Act, id: ArticleIdentifier) -> Option<&mut Article> {
    for c in &mut this.children {
        if let ActChild::Article(a) = c {
            if a.identifier == id {
                return Some(a);
            }
        }
    }
    None
}

pub fn structural_header(this: &StructuralElement) -> Result<String> {
    let id = this.identifier;
    match this.element_type {
        StructuralElementType::Book => Ok(format!("{} KÖNYV", id.to_hungarian()?.to_uppercase())),
        StructuralElementType::Part { is_special: false } => Ok(format!("{} RÉSZ", id.to_hungarian()?.to_uppercase())),
        StructuralElementType::Part { is_special: true } => {
            let one: NumericIdentifier = 1.into();
            let two: NumericIdentifier = 2.into();
            let three: NumericIdentifier = 3.into();
            if id == one {
                Ok("ÁLTALÁNOS RÉSZ".to_string())
            } else if id == two {
                Ok("KÜLÖNÖS RÉSZ".to_string())
            } else if id == three {
                Ok("ZÁRÓ RÉSZ".to_string())
            } else {
                Err(anyhow!("no such part"))
            }
        }
        StructuralElementType::Title => Ok(format!("{}. CÍM", id.to_roman()?)),
        StructuralElementType::Chapter => Ok(format!("{}. FEJEZET", id.to_roman()?)),
    }
}

/// The inverse of the numbers in the headers.
pub fn parse_identifier(this: &StructuralElementType, id: &str) -> Result<NumericIdentifier> {
    match this {
        StructuralElementType::Book => Ok(NumericIdentifier::from(u16::from_hungarian(id)?)),
        StructuralElementType::Part { is_special } => {
            if !*is_special {
                return Ok(NumericIdentifier::from(u16::from_hungarian(id)?));
            }
            match id {
                "ÁLTALÁNOS" => Ok(1.into()),
                "KÜLÖNÖS" => Ok(2.into()),
                "ZÁRÓ" => Ok(3.into()),
                _ => Err(anyhow!("not a special part")),
            }
        }
        StructuralElementType::Title => NumericIdentifier::from_roman(id),
        StructuralElementType::Chapter => NumericIdentifier::from_roman(id),
    }
}

pub fn article_header(this: &Article) -> String {
    format!("{}. §", this.identifier)
}

pub fn sae_is_empty<IT: IdentifierCommon, CT: ChildrenCommon>(this: &SubArticleElement<IT, CT>) -> bool {
    match &this.body {
        SAEBody::Text(t) => t.len() == 0,
        SAEBody::Children { intro, children, wrap_up } => children.is_empty(),
    }
}

macro_rules! all_empty {
    ($x:expr) => {{
        for c in $x {
            if !c.is_empty() {
                return false;
            }
        }
        true
    }};
}

pub fn paragraph_children_is_empty(this: &ParagraphChildren) -> bool {
    match this {
        ParagraphChildren::AlphabeticPoint(x) => all_empty!(x),
        ParagraphChildren::NumericPoint(x) => all_empty!(x),
        ParagraphChildren::QuotedBlock(x) => x.len() == 0,
        ParagraphChildren::BlockAmendment(x) => x.children.is_empty(),
        ParagraphChildren::StructuralBlockAmendment(x) => x.children.len() == 0,
    }
}

pub fn alphabetic_point_children_is_empty(this: &AlphabeticPointChildren) -> bool {
    match this {
        AlphabeticPointChildren::AlphabeticSubpoint(x) => all_empty!(x),
        AlphabeticPointChildren::NumericSubpoint(x) => all_empty!(x),
    }
}

pub fn numeric_point_children_is_empty(this: &NumericPointChildren) -> bool {
    match this {
        NumericPointChildren::AlphabeticSubpoint(x) => all_empty!(x),
    }
}

pub fn block_amendment_children_is_empty(this: &BlockAmendmentChildren) -> bool {
    match this {
        BlockAmendmentChildren::Paragraph(x) => all_empty!(x),
        BlockAmendmentChildren::AlphabeticPoint(x) => all_empty!(x),
        BlockAmendmentChildren::NumericPoint(x) => all_empty!(x),
        BlockAmendmentChildren::AlphabeticSubpoint(x) => all_empty!(x),
        BlockAmendmentChildren::NumericSubpoint(x) => all_empty!(x),
    }
}

pub fn paragraph_header(this: &Paragraph) -> String {
    if this.identifier.is_empty() {
        String::new()
    } else {
        format!("({})", this.identifier)
    }
}

pub fn numeric_point_header(this: &NumericPoint) -> String {
    format!("{}.", this.identifier)
}

pub fn alphabetic_point_header(this: &AlphabeticPoint) -> String {
    format!("{})", this.identifier)
}

pub fn numeric_subpoint_header(this: &NumericSubpoint) -> String {
    format!("{}.", this.identifier)
}

pub fn alphabetic_subpoint_header(this: &AlphabeticSubpoint) -> String {
    format!("{})", this.identifier)
}
