use super::*;

/// A visible character inside the crop box is kept with its place and boldness; nothing else is.
pub fn render_character(this: &mut CharCollector, x: f32, y: f32, width: f32, scaling: f32, c: char) -> Result<()> {
    let content = fix_character_coding_quirks(c);
    if content.is_whitespace() {
        return Ok(());
    }
    if !this.crop.is_inside(x, y) {
        return Ok(());
    }
    let new = PositionedChar {
        x,
        y,
        width,
        width_of_space: this.width_of_space * scaling,
        bold: this.current_font_is_bold,
        content,
    };
    this.chars.push(new);
    Ok(())
}

/// The characters of one glyph share its width evenly, in order.
pub fn render_multiple_characters(
    this: &mut CharCollector,
    x: f32,
    y: f32,
    width: f32,
    scaling: f32,
    chars: &str,
) -> Result<()> {
    let x_step = width / (chars.chars().count() as f32);
    for (i, c) in chars.chars().enumerate() {
        this.render_character(x + i as f32 * x_step, y, x_step, scaling, c)?;
    }
    Ok(())
}

/// What the glyph stands for is put where the state says, and the state moves past it; an unknown glyph is an error.
pub fn render_cid(this: &mut CharCollector, state: &mut TextState, font: &FastFont, cid: u32) -> Result<()> {
    let m = state.rendering_matrix();
    let w0 = font.widths.get(cid as usize) / 1000.0;
    match font.to_unicode(cid) {
        ToUnicodeResult::Unknown => return Err(anyhow::anyhow!("unknown glyph")),
        ToUnicodeResult::Char(c) => this.render_character(m.m31, m.m32, w0 * m.m11, m.m11, c)?,
        ToUnicodeResult::String(s) => this.render_multiple_characters(m.m31, m.m32, w0 * m.m11, m.m11, s)?,
    }
    state.advance_by_char(cid);
    Ok(())
}

pub fn font_changed(this: &mut CharCollector, font: &FastFont) -> Result<()> {
    let width = font.widths.get(32) / 1000.;
    this.width_of_space = if width == 0.0 || width == 1.0 { 0.25 } else { width };
    this.current_font_is_bold = match &font.name {
        Some(n) => n.contains("bold") || n.contains("Bold"),
        None => false,
    };
    Ok(())
}

pub fn new(crop: CropBox) -> CharCollector {
    CharCollector {
        chars: Vec::new(),
        width_of_space: 0.0,
        current_font_is_bold: false,
        crop,
    }
}
