use super::*;

pub fn set_both_matrices(this: &mut TextState, m: Transform2D<f32, PdfSpace, PdfSpace>) {
    this.line_matrix = m;
    this.text_matrix = m;
}

/// The next character starts further along the line; the start of the line stays.
pub fn advance(this: &mut TextState, delta: f32) {
    this.text_matrix = Transform2D::translation(delta, 0.0).then(&this.text_matrix);
}

/// By the width of the character and the spacing, scaled (PDF 32000-1, 9.4.4)
pub fn advance_by_char(this: &mut TextState, cid: u32) {
    let width = match &this.font {
        Some(font) => font.widths.get(cid as usize) / 1000.0,
        None => 0.0,
    };
    let word = if cid == 32 { this.word_spacing } else { 0.0 };
    this.advance((width * this.font_size + (this.char_spacing + word)) * this.horizontal_scale);
}

pub fn rendering_matrix(this: &TextState) -> Transform2D<f32, PdfSpace, PdfSpace> {
    Transform2D::<f32, PdfSpace, PdfSpace>::new(
        this.horizontal_scale * this.font_size,
        0.0,
        0.0,
        this.font_size,
        0.0,
        this.rise,
    )
    .then(&this.text_matrix)
}

pub fn initial() -> TextState {
    TextState {
        text_matrix: Transform2D::identity(),
        line_matrix: Transform2D::identity(),
        char_spacing: 0.0,
        word_spacing: 0.0,
        horizontal_scale: 1.0,
        leading: 0.0,
        font: None,
        font_size: 0.0,
        rise: 0.0,
    }
}
