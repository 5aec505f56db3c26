use super::*;

pub fn is_inside(this: &CropBox, x: f32, y: f32) -> bool {
    this.left <= x && x <= this.right && this.bottom <= y && y <= this.top
}

/// Every page of the file, in order, each with characters of its own.
pub fn pdf(buffer: &[u8], crop: CropBox) -> Result<Vec<PageOfLines>> {
    let pdf_file = pdf::file::FileOptions::uncached().load(buffer)?;
    let mut font_cache = FontCache::default();
    let mut result = Vec::new();
    for page in pdf_file.pages() {
        let page = page?;
        let mut collector = CharCollector::new(crop.clone());
        let mut renderer = PageRenderer::new(page, &pdf_file, &mut font_cache, &mut collector)?;
        renderer.render()?;
        drop(renderer);
        let lines: PageOfLines = collector.try_into()?;
        result.push(lines);
    }
    Ok(result)
}

pub fn whole_page() -> CropBox {
    CropBox { bottom: 0.0, left: 0.0, top: 1000.0, right: 1000.0 }
}
