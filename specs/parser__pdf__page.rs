use super::*;

pub fn new<'a, TR: Resolve>(
    page: PageRc,
    pdf_file: &'a TR,
    font_cache: &'a mut FontCache,
    collector: &'a mut CharCollector,
) -> Result<PageRenderer<'a, TR>> {
    Ok(PageRenderer {
        resources: page.resources.clone(),
        page,
        pdf_file,
        font_cache,
        collector,
        state: TextState::default(),
        state_stack: Vec::new(),
        marked_content_stack: Vec::new(),
        actual_text_collector: None,
    })
}

/// Every operation of the page in order; the first error ends it.
pub fn render<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>) -> Result<()> {
    let contents = match &this.page.contents {
        Some(c) => c,
        None => return Err(anyhow!("empty")),
    };
    for op in contents.operations(this.pdf_file)? {
        this.handle_op(op)?;
    }
    Ok(())
}

/// Text with a replacement only gives its place; other text is collected.  Without a font it is an error.
pub fn render_cid<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>, cid: u32) -> Result<()> {
    let font = match &this.state.font {
        Some(font) => font.clone(),
        None => return Err(anyhow!("no font")),
    };
    match &mut this.actual_text_collector {
        Some(actual_text) => actual_text.render_cid(&mut this.state, &font, cid),
        None => this.collector.render_cid(&mut this.state, &font, cid),
    }
}

/// Two bytes make a glyph in a CID font, and one in others.
pub fn render_text<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>, text: PdfString) -> Result<()> {
    let data = text.as_bytes();
    let is_cid = match &this.state.font {
        Some(font) => font.is_cid,
        None => return Err(anyhow!("no font")),
    };
    if is_cid {
        for s in data.chunks_exact(2) {
            let cid = u16::from_be_bytes(s.try_into()?);
            this.render_cid(cid as u32)?;
        }
    } else {
        for cid in data.iter() {
            this.render_cid(*cid as u32)?;
        }
    }
    Ok(())
}

/// The font is in force for the position and for the boldness of what follows.
pub fn set_font<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>, font: MaybeRef<Font>, size: f32) -> Result<()> {
    let fast_font = this.font_cache.get(font, this.pdf_file)?;
    this.collector.font_changed(&fast_font)?;
    this.state.font = Some(fast_font);
    this.state.font_size = size;
    Ok(())
}

/// The saved state is in force again, the boldness of its font included.
fn restore<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>) -> Result<()> {
    match this.state_stack.pop() {
        Some(state) => this.state = state,
        None => return Err(anyhow!("empty")),
    }
    if let Some(font) = &this.state.font {
        this.collector.font_changed(font)?;
    }
    Ok(())
}

pub fn handle_op<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>, op: Op) -> Result<()> {
    match op {
        Op::BeginMarkedContent { tag, properties } => match ActualTextCollector::from_bmc_params(tag, properties) {
            Some(atc) => {
                this.actual_text_collector = Some(atc);
                this.marked_content_stack.push(MarkedContentType::ActualText);
            }
            None => this.marked_content_stack.push(MarkedContentType::Other),
        },
        Op::EndMarkedContent => match this.marked_content_stack.pop() {
            None => return Err(anyhow!("empty")),
            Some(MarkedContentType::Other) => {}
            Some(MarkedContentType::ActualText) => {
                if let Some(actual_text) = &this.actual_text_collector {
                    actual_text.finish(this.collector)?;
                }
                this.actual_text_collector = None;
            }
        },
        Op::Save => {
            let saved = this.state.clone();
            this.state_stack.push(saved);
        }
        Op::Restore => restore(this)?,
        Op::GraphicsState { name } => {
            let resources = match &this.resources {
                Some(r) => r.clone(),
                None => return Err(anyhow!("no resources")),
            };
            let gs = match resources.graphics_states.get(&name) {
                Some(gs) => gs,
                None => return Err(anyhow!("no such state")),
            };
            if let Some((font_ref, size)) = gs.font {
                let font = this.pdf_file.get(font_ref)?;
                this.set_font(MaybeRef::Indirect(font), size)?;
            }
        }
        Op::TextFont { name, size } => {
            let resources = match &this.resources {
                Some(r) => r.clone(),
                None => return Err(anyhow!("no resources")),
            };
            let font = match resources.fonts.get(&name) {
                Some(font) => font.clone(),
                None => return Err(anyhow!("no such font")),
            };
            this.set_font(font, size)?;
        }
        Op::BeginText => {
            this.state.text_matrix = Transform2D::identity();
            this.state.line_matrix = Transform2D::identity();
        }
        Op::CharSpacing { char_space } => this.state.char_spacing = char_space,
        Op::WordSpacing { word_space } => this.state.word_spacing = word_space,
        Op::TextScaling { horiz_scale } => this.state.horizontal_scale = horiz_scale * 0.01,
        Op::Leading { leading } => this.state.leading = leading,
        Op::TextRise { rise } => this.state.rise = rise,
        Op::MoveTextPosition { translation } => {
            let m = Transform2D::translation(translation.x, translation.y).then(&this.state.line_matrix);
            this.state.set_both_matrices(m);
        }
        Op::SetTextMatrix { matrix } => this.state.set_both_matrices(matrix.into()),
        Op::TextNewline => {
            let m = Transform2D::translation(0.0, -this.state.leading).then(&this.state.line_matrix);
            this.state.set_both_matrices(m);
        }
        Op::TextDraw { text } => this.render_text(text)?,
        Op::TextDrawAdjusted { array } => {
            for item in array {
                match item {
                    TextDrawAdjusted::Text(text) => this.render_text(text)?,
                    TextDrawAdjusted::Spacing(delta) => {
                        this.state.advance(-delta * this.state.horizontal_scale * this.state.font_size / 1000.0)
                    }
                }
            }
        }
        Op::XObject { name } => this.handle_xobject(name)?,
        _ => {}
    }
    Ok(())
}

/// The operations of a form are done with its own resources; afterwards everything is as before.
pub fn handle_xobject<'a, TR: Resolve>(this: &mut PageRenderer<'a, TR>, name: Name) -> Result<()> {
    let resources = match &this.resources {
        Some(r) => r.clone(),
        None => return Err(anyhow!("no resources")),
    };
    let xobject_ref = match resources.xobjects.get(&name) {
        Some(r) => r,
        None => return Err(anyhow!("no such object")),
    };
    let xobject = this.pdf_file.get(*xobject_ref)?;
    let xfo = match &*xobject {
        XObject::Form(xfo) => xfo,
        _ => return Ok(()),
    };
    let saved_resources = this.resources.clone();
    if let Some(resources) = xfo.dict().resources.clone() {
        this.resources = Some(resources);
    }
    let saved = this.state.clone();
    this.state_stack.push(saved);
    for op in xfo.operations(this.pdf_file)? {
        this.handle_op(op)?;
    }
    restore(this)?;
    this.resources = saved_resources;
    Ok(())
}
