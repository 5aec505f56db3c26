#![allow(dead_code, unused)]
//! Plain text output: every piece of text of an act appears once, in document order, behind its header and indented by its depth.
use super::*;

type Params = TextOutputParams;

fn start_line(p: &Params, w: &mut impl Write) -> Result<()> {
    if p.indent_next_line {
        for _ in 0..p.indentation_level {
            w.write_all(b"     ")?;
        }
    }
    Ok(())
}

fn end_line(p: &mut Params, w: &mut impl Write) -> Result<()> {
    w.write_all(b"\n")?;
    p.indent_next_line = true;
    Ok(())
}

fn head(p: &mut Params, w: &mut impl Write, text: &str) -> Result<()> {
    start_line(p, w)?;
    w.write_all(text.as_bytes())?;
    p.indent_next_line = false;
    Ok(())
}

fn wrapped(p: &mut Params, w: &mut impl Write, text: &str) -> Result<()> {
    for line in textwrap::wrap(text, p.width - p.indentation_level * 5) {
        start_line(p, w)?;
        w.write_all(line.as_bytes())?;
        end_line(p, w)?;
    }
    Ok(())
}

fn paint(p: &Params, text: String, code: &str) -> String {
    if p.is_colored {
        format!("\x1B[{}m{}\x1B[0m", code, text)
    } else {
        text
    }
}

fn deeper(p: &Params) -> Params {
    Params { width: p.width, indentation_level: p.indentation_level + 1, indent_next_line: p.indent_next_line, is_colored: p.is_colored }
}

pub fn params_new(width: usize, is_colored: bool) -> Params {
    Params { width, indentation_level: 0, indent_next_line: true, is_colored }
}

pub fn params_indented(this: &Params) -> Params {
    deeper(this)
}

pub fn act(this: &Act, writer: &mut impl Write, mut params: Params) -> Result<()> {
    let id = paint(&params, format!("{}", this.identifier), "1");
    head(&mut params, writer, &format!("{} {}", id, this.subject))?;
    end_line(&mut params, writer)?;
    end_line(&mut params, writer)?;
    wrapped(&mut params, writer, &this.preamble)?;
    end_line(&mut params, writer)?;
    let mut last_was_article = true;
    for child in &this.children {
        let is_article = match child {
            ActChild::Article(_) => true,
            _ => false,
        };
        if !(last_was_article && is_article) {
            end_line(&mut params, writer)?;
        }
        child.write_as_text(writer, params.clone())?;
        last_was_article = is_article;
    }
    Ok(())
}

pub fn act_child(this: &ActChild, writer: &mut impl Write, params: Params) -> Result<()> {
    match this {
        ActChild::StructuralElement(x) => x.write_as_text(writer, params),
        ActChild::Subtitle(x) => x.write_as_text(writer, params),
        ActChild::Article(x) => x.write_as_text(writer, params),
    }
}

pub fn structural_element(this: &StructuralElement, writer: &mut impl Write, mut params: Params) -> Result<()> {
    let header = paint(&params, this.header_string()?, "3");
    wrapped(&mut params, writer, &header)?;
    if !this.title.is_empty() {
        let title = paint(&params, this.title.clone(), "3");
        wrapped(&mut params, writer, &title)?;
    }
    Ok(())
}

pub fn subtitle(this: &Subtitle, writer: &mut impl Write, mut params: Params) -> Result<()> {
    let text = match this.identifier {
        Some(id) => format!("{}. {}", id.with_slash(), this.title),
        None => this.title.clone(),
    };
    let text = paint(&params, text, "1");
    wrapped(&mut params, writer, &text)
}

pub fn article(this: &Article, writer: &mut impl Write, mut params: Params) -> Result<()> {
    let header = paint(&params, format!("{:<10}", this.header_string()), "1");
    head(&mut params, writer, &header)?;
    let mut params = deeper(&deeper(&params));
    if let Some(title) = &this.title {
        wrapped(&mut params, writer, &format!("     [{}]", title))?;
    }
    this.children.write_as_text(writer, params.clone())?;
    if this.children.is_empty() {
        end_line(&mut params, writer)?;
    }
    Ok(())
}

pub fn sae<IT, CT>(this: &SubArticleElement<IT, CT>, writer: &mut impl Write, mut params: Params) -> Result<()>
where
    SubArticleElement<IT, CT>: SAEHeaderString,
    IT: IdentifierCommon,
    CT: ChildrenCommon + TextOutput,
{
    head(&mut params, writer, &format!("{:<5}", this.header_string()))?;
    let mut params = deeper(&params);
    match &this.body {
        SAEBody::Text(text) => {
            let text = colorize_sae_string(text, &params, &this.semantic_info);
            wrapped(&mut params, writer, &text)
        }
        SAEBody::Children { intro, children, wrap_up } => {
            let intro = colorize_sae_string(intro, &params, &this.semantic_info);
            wrapped(&mut params, writer, &intro)?;
            children.write_as_text(writer, params.clone())?;
            if let Some(wrap_up) = wrap_up {
                wrapped(&mut params, writer, wrap_up)?;
            }
            Ok(())
        }
    }
}

pub fn paragraph_children(this: &ParagraphChildren, writer: &mut impl Write, params: Params) -> Result<()> {
    match this {
        ParagraphChildren::AlphabeticPoint(x) => x.write_as_text(writer, params),
        ParagraphChildren::NumericPoint(x) => x.write_as_text(writer, params),
        ParagraphChildren::QuotedBlock(x) => x.write_as_text(writer, params),
        ParagraphChildren::BlockAmendment(x) => x.write_as_text(writer, params),
        ParagraphChildren::StructuralBlockAmendment(x) => x.write_as_text(writer, params),
    }
}

pub fn alphabetic_point_children(this: &AlphabeticPointChildren, writer: &mut impl Write, params: Params) -> Result<()> {
    match this {
        AlphabeticPointChildren::AlphabeticSubpoint(x) => x.write_as_text(writer, params),
        AlphabeticPointChildren::NumericSubpoint(x) => x.write_as_text(writer, params),
    }
}

pub fn numeric_point_children(this: &NumericPointChildren, writer: &mut impl Write, params: Params) -> Result<()> {
    match this {
        NumericPointChildren::AlphabeticSubpoint(x) => x.write_as_text(writer, params),
    }
}

pub fn block_amendment_children(this: &BlockAmendmentChildren, writer: &mut impl Write, params: Params) -> Result<()> {
    match this {
        BlockAmendmentChildren::Paragraph(x) => x.write_as_text(writer, params),
        BlockAmendmentChildren::AlphabeticPoint(x) => x.write_as_text(writer, params),
        BlockAmendmentChildren::NumericPoint(x) => x.write_as_text(writer, params),
        BlockAmendmentChildren::AlphabeticSubpoint(x) => x.write_as_text(writer, params),
        BlockAmendmentChildren::NumericSubpoint(x) => x.write_as_text(writer, params),
    }
}

pub fn quoted_block(this: &QuotedBlock, writer: &mut impl Write, mut params: Params) -> Result<()> {
    if let Some(intro) = &this.intro {
        wrapped(&mut params, writer, intro)?;
    }
    wrapped(&mut params, writer, "„")?;
    let mut least = 1000.0;
    for l in &this.lines {
        if l.indent() > 0.0 && least > l.indent() {
            least = l.indent();
        }
    }
    for line in &this.lines {
        let indent = ((line.indent() - least) * 0.2) as usize + 5;
        head(&mut params, writer, &" ".repeat(indent))?;
        head(&mut params, writer, line.content())?;
        end_line(&mut params, writer)?;
    }
    wrapped(&mut params, writer, "”")?;
    if let Some(wrap_up) = &this.wrap_up {
        wrapped(&mut params, writer, wrap_up)?;
    }
    Ok(())
}

pub fn block_amendment(this: &BlockAmendment, writer: &mut impl Write, mut params: Params) -> Result<()> {
    if let Some(intro) = &this.intro {
        let intro = paint(&params, format!("({})", intro), "3");
        wrapped(&mut params, writer, &intro)?;
    }
    wrapped(&mut params, writer, "„")?;
    this.children.write_as_text(writer, deeper(&params))?;
    wrapped(&mut params, writer, "”")?;
    if let Some(wrap_up) = &this.wrap_up {
        let wrap_up = paint(&params, format!("({})", wrap_up), "3");
        wrapped(&mut params, writer, &wrap_up)?;
    }
    Ok(())
}

pub fn structural_block_amendment(this: &StructuralBlockAmendment, writer: &mut impl Write, mut params: Params) -> Result<()> {
    if let Some(intro) = &this.intro {
        let intro = paint(&params, format!("({})", intro), "3");
        wrapped(&mut params, writer, &intro)?;
    }
    wrapped(&mut params, writer, "„")?;
    this.children.write_as_text(writer, deeper(&params))?;
    wrapped(&mut params, writer, "”")?;
    if let Some(wrap_up) = &this.wrap_up {
        let wrap_up = paint(&params, format!("({})", wrap_up), "3");
        wrapped(&mut params, writer, &wrap_up)?;
    }
    Ok(())
}

pub fn vec<T: TextOutput>(this: &Vec<T>, writer: &mut impl Write, mut params: Params) -> Result<()> {
    for element in this {
        element.write_as_text(writer, params.clone())?;
        params.indent_next_line = true;
    }
    Ok(())
}

pub fn sae_string(text: &str, params: &TextOutputParams, semantic_info: &SemanticInfo) -> String {
    let plain = match semantic_info.special_phrase {
        Some(_) => "33",
        None => "0",
    };
    let mut out = String::new();
    for (t, is_reference) in split_string_at_references(text, &semantic_info.outgoing_references) {
        let code = if is_reference { "36" } else { plain };
        out.push_str(&paint(params, t.to_string(), code));
    }
    out
}

/// The pieces put together are the whole text.
pub fn split<'a>(text: &'a str, outgoing_refs: &[OutgoingReference]) -> Vec<(&'a str, bool)> {
    let mut result = Vec::new();
    let mut prev_end = 0;
    for r in outgoing_refs {
        result.push((&text[prev_end..r.start], false));
        result.push((&text[r.start..r.end], true));
        prev_end = r.end;
    }
    result.push((&text[prev_end..], false));
    result
}
