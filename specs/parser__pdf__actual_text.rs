use super::*;

pub fn new(actual_text: String) -> ActualTextCollector {
    ActualTextCollector {
        actual_text,
        params: None,
    }
}

/// The replaced glyphs only give the place: from the start of the first to the end of the last.
pub fn render_cid(this: &mut ActualTextCollector, state: &mut TextState, font: &FastFont, cid: u32) -> Result<()> {
    let m = state.rendering_matrix();
    let w0 = font.widths.get(cid as usize) / 1000.0;
    match &mut this.params {
        Some(params) => params.width = (m.m31 - params.x) + w0 * m.m11,
        None => {
            this.params = Some(RenderCidParams {
                x: m.m31,
                y: m.m32,
                width: (m.m31 - m.m31) + w0 * m.m11,
                scaling: m.m11,
            })
        }
    }
    state.advance_by_char(cid);
    Ok(())
}

pub fn finish(this: &ActualTextCollector, collector: &mut CharCollector) -> Result<()> {
    match &this.params {
        Some(p) => collector.render_multiple_characters(p.x, p.y, p.width, p.scaling, &this.actual_text),
        None => Ok(()),
    }
}

/// Only a span can have a replacement text.
pub fn from_bmc_params(tag: Name, properties: Option<Primitive>) -> Option<ActualTextCollector> {
    if tag.to_string() != "/Span" {
        return None;
    }
    let text = properties?
        .into_dictionary()
        .ok()?
        .get("ActualText")?
        .as_string()
        .ok()?
        .to_string_lossy();
    Some(ActualTextCollector::new(text))
}
