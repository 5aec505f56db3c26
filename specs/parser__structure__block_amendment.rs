#![allow(dead_code, unused)]
use super::*;

pub fn paragraph(this: &mut Paragraph) -> Result<()> {
    let children = match &mut this.body {
        SAEBody::Children { children, .. } => children,
        SAEBody::Text(_) => return Ok(()),
    };
    let block = match children {
        ParagraphChildren::QuotedBlock(blocks) if blocks.len() == 1 => &mut blocks[0],
        _ => return Ok(()),
    };
    match &this.semantic_info.special_phrase {
        Some(SpecialPhrase::BlockAmendment(ba)) => {
            let parsed = convert_simple_block_amendment(&ba.position, &block.lines)?;
            let intro = std::mem::take(&mut block.intro);
            let wrap_up = std::mem::take(&mut block.wrap_up);
            *children = ParagraphChildren::BlockAmendment(BlockAmendment { intro, children: parsed, wrap_up });
        }
        Some(SpecialPhrase::StructuralBlockAmendment(sba)) => {
            let parsed = convert_structural_block_amendment(&sba.position, &block.lines)?;
            let intro = std::mem::take(&mut block.intro);
            let wrap_up = std::mem::take(&mut block.wrap_up);
            *children = ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro, children: parsed, wrap_up });
        }
        _ => {}
    }
    Ok(())
}

pub fn article(this: &mut Article) -> Result<()> {
    for p in this.children.iter_mut() {
        p.convert_block_amendments().with_elem_context("", p)?;
    }
    Ok(())
}

pub fn act(this: &mut Act) -> Result<()> {
    for a in this.articles_mut() {
        a.convert_block_amendments().with_elem_context("", a)?;
    }
    Ok(())
}

pub fn structural(position: &StructuralReference, lines: &[IndentedLine]) -> Result<Vec<ActChild>> {
    if lines.is_empty() {
        return Err(anyhow!("nothing"));
    }
    match position.structural_element {
        StructuralReferenceElement::Article(ids) => convert_articles(ids.first_in_range(), lines),
        _ if position.title_only => convert_title_only_block_amendment(position, lines),
        _ => match parse_complex_body(lines, ParsingContext::BlockAmendment) {
            Ok((_, children)) => Ok(children),
            Err(e) => Err(e),
        },
    }
}

pub fn articles(first: ArticleIdentifier, lines: &[IndentedLine]) -> Result<Vec<ActChild>> {
    let mut factory = ArticleParserFactory::new(ParsingContext::BlockAmendment);
    let mut parser = factory.try_create_from_header(&lines[0], Some(first))?;
    let mut result = Vec::new();
    for line in &lines[1..] {
        match factory.try_create_from_header(line, None) {
            Ok(next) => {
                result.push(ActChild::Article(parser.finish()?));
                parser = next;
            }
            Err(_) => parser.feed_line(line),
        }
    }
    result.push(ActChild::Article(parser.finish()?));
    Ok(result)
}

pub fn title_only(position: &StructuralReference, lines: &[IndentedLine]) -> Result<Vec<ActChild>> {
    let child = match position.structural_element {
        StructuralReferenceElement::Part(id) => convert_title_only_se(id, StructuralElementType::Part { is_special: false }, lines),
        StructuralReferenceElement::Title(id) => convert_title_only_se(id, StructuralElementType::Title, lines),
        StructuralReferenceElement::Chapter(id) => convert_title_only_se(id, StructuralElementType::Chapter, lines),
        StructuralReferenceElement::SubtitleId(_)
        | StructuralReferenceElement::SubtitleTitle(_)
        | StructuralReferenceElement::SubtitleAfterArticle(_)
        | StructuralReferenceElement::SubtitleBeforeArticle(_)
        | StructuralReferenceElement::SubtitleBeforeArticleInclusive(_) => convert_subtitle_only_se(lines)?,
        _ => return Err(anyhow!("no title")),
    };
    Ok(vec![child])
}

pub fn title_only_se(identifier: NumericIdentifier, element_type: StructuralElementType, lines: &[IndentedLine]) -> ActChild {
    let mut parser = match StructuralElementParserFactory::new(element_type).try_create_from_header(&lines[0]) {
        Some(parser) => parser,
        None => {
            let mut parser = StructuralElementParser { identifier, title: String::new(), element_type };
            parser.feed_line(&lines[0]);
            parser
        }
    };
    for line in &lines[1..] {
        parser.feed_line(line);
    }
    ActChild::StructuralElement(parser.finish())
}

pub fn title_only_subtitle(lines: &[IndentedLine]) -> Result<ActChild> {
    let mut parser = match SubtitleParserFactory::try_create_from_header(&lines[0], true, ParsingContext::BlockAmendment) {
        Some(parser) => parser,
        None => return Err(anyhow!("not a subtitle")),
    };
    for line in &lines[1..] {
        parser.feed_line(line);
    }
    Ok(ActChild::Subtitle(parser.finish()?))
}

pub fn simple(position: &Reference, lines: &[IndentedLine]) -> Result<BlockAmendmentChildren> {
    if lines.is_empty() {
        return Err(anyhow!("nothing"));
    }
    let params = SAEParseParams { parse_wrap_up: false, check_children_count: false, context: ParsingContext::BlockAmendment };
    match position.get_last_part() {
        AnyReferencePart::Paragraph(id) => {
            let article = match position.article() {
                Some(a) => a,
                None => return Err(anyhow!("no article")),
            };
            // the number of the article may stand before its first paragraph
            let header = format!("{}. § ", article.first_in_range());
            let expected = Some(id.first_in_range().into());
            if lines[0].content().starts_with(&header) {
                let mut ls = lines.to_vec();
                ls[0] = ls[0].slice_bytes(header.len(), None);
                Ok(ParagraphParser.extract_multiple(&ls, &params, expected)?.elements)
            } else {
                Ok(ParagraphParser.extract_multiple(lines, &params, expected)?.elements)
            }
        }
        AnyReferencePart::Point(RefPartPoint::Numeric(id)) => {
            Ok(NumericPointParser.extract_multiple(lines, &params, Some(id.first_in_range()))?.elements)
        }
        AnyReferencePart::Point(RefPartPoint::Alphabetic(id)) => {
            Ok(AlphabeticPointParser.extract_multiple(lines, &params, Some(id.first_in_range()))?.elements)
        }
        AnyReferencePart::Subpoint(RefPartSubpoint::Numeric(id)) => {
            Ok(NumericSubpointParser.extract_multiple(lines, &params, Some(id.first_in_range()))?.elements)
        }
        AnyReferencePart::Subpoint(RefPartSubpoint::Alphabetic(id)) => {
            let first = id.first_in_range();
            let parser = AlphabeticSubpointParser { prefix: first.get_prefix() };
            Ok(parser.extract_multiple(lines, &params, Some(first))?.elements)
        }
        _ => Err(anyhow!("not below an article")),
    }
}
