use super::*;

/// What a glyph stands for is remembered as one character or as a text, whatever it was before.
pub fn add_mapping(this: &mut FastFont, cid: u32, s: &str) {
    if cid > 1000 || s.chars().count() != 1 {
        this.smap.insert(cid, s.to_string());
        return;
    }
    if cid as usize >= this.cmap.len() {
        this.cmap.resize(cid as usize + 1, '\u{0}');
    }
    this.cmap[cid as usize] = s.chars().next().unwrap();
}

pub fn to_unicode(this: &FastFont, cid: u32) -> ToUnicodeResult {
    if let Some(s) = this.smap.get(&cid) {
        return ToUnicodeResult::String(s);
    }
    if let Some(c) = this.cmap.get(cid as usize) {
        if *c != '\u{0}' {
            return ToUnicodeResult::Char(*c);
        }
    }
    if this.is_identity {
        if let Some(c) = char::from_u32(cid) {
            return ToUnicodeResult::Char(c);
        }
    }
    ToUnicodeResult::Unknown
}

/// All 256 codes
pub fn process_base_encoding(this: &mut FastFont, map: &pdf_encoding::ForwardMap) {
    let mut tmp = [0u8; 4];
    for cid in 0..=255 {
        if let Some(c) = map.get(cid) {
            this.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
        }
    }
}

pub fn process_unicode_map(this: &mut FastFont, to_unicode: &ToUnicodeMap) {
    for (cid, s) in to_unicode.iter() {
        this.add_mapping(cid as u32, s)
    }
}

/// The base encoding first; the differences of the font override it.
pub fn process_encoding(this: &mut FastFont, encoding: &PdfEncoding) -> Result<()> {
    match encoding.base {
        BaseEncoding::StandardEncoding => this.process_base_encoding(&pdf_encoding::STANDARD),
        BaseEncoding::SymbolEncoding => this.process_base_encoding(&pdf_encoding::SYMBOL),
        BaseEncoding::MacRomanEncoding => this.process_base_encoding(&pdf_encoding::MACROMAN),
        BaseEncoding::WinAnsiEncoding => {
            let mut tmp = [0u8; 4];
            for cid in 0..=255 {
                if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                    this.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                } else if cid > 30 {
                    this.add_mapping(cid as u32, "\u{2022}")
                }
            }
        }
        BaseEncoding::MacExpertEncoding => this.process_base_encoding(&pdf_encoding::MACEXPERT),
        BaseEncoding::IdentityH => {
            this.is_identity = true;
        }
        BaseEncoding::None => {}
        _ => bail!("Unsupported encoding: {encoding:?}"),
    };
    for (c, s) in encoding.differences.iter() {
        this.add_mapping(*c, glyphname_to_unicode(s).unwrap_or_default());
    }
    Ok(())
}

/// What the font's own table of characters says overrides its encoding.
pub fn convert(font: &Font, resolve: &impl Resolve) -> Result<FastFont> {
    let widths = font
        .widths(resolve)
        .map_err(|e| anyhow!("{e}"))?
        .ok_or_else(|| anyhow!("No widths in font {font:?}"))?;
    let mut result = FastFont {
        cmap: Vec::new(),
        smap: HashMap::new(),
        is_cid: matches!(
            font.data,
            FontData::Type0(_) | FontData::CIDFontType0(_) | FontData::CIDFontType2(_)
        ),
        is_identity: false,
        name: font.name.as_ref().map(|n| n.to_string()),
        widths,
    };
    let encoding = font
        .encoding()
        .ok_or_else(|| anyhow!("No encoding in font {font:?}"))?
        .clone();
    result.process_encoding(&encoding)?;
    if let Some(to_unicode) = font.to_unicode(resolve).transpose()? {
        result.process_unicode_map(&to_unicode);
    }
    Ok(result)
}

/// A font is converted once, and what is kept for it is what was made from it.
pub fn get(this: &mut FontCache, font: MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
    let entry = this.cache.entry(&*font as *const Font as usize);
    Ok(match entry {
        hash_map::Entry::Occupied(e) => e.get().1.clone(),
        hash_map::Entry::Vacant(e) => {
            let fast_font = Rc::new(FastFont::convert(&font, resolve)?);
            e.insert((font, fast_font)).1.clone()
        }
    })
}
