#![allow(dead_code, unused)]
use super::*;

pub fn parse_act_structure(raw_act: &ActRawText) -> Result<Act> {
    match parse_complex_body(&raw_act.body, ParsingContext::FullAct) {
        Err(e) => Err(e),
        Ok((preamble, children)) => Ok(Act {
            identifier: raw_act.identifier,
            publication_date: raw_act.publication_date,
            subject: raw_act.subject.clone(),
            preamble,
            children,
            contained_abbreviations: Default::default(),
        }),
    }
}

fn close(state: ParseState, children: &mut Vec<ActChild>) -> Result<()> {
    match state {
        ParseState::Preamble => {}
        ParseState::Article(p) => children.push(ActChild::Article(p.finish()?)),
        ParseState::StructuralElement(p) => children.push(ActChild::StructuralElement(p.finish())),
        ParseState::Subtitle(p) => children.push(ActChild::Subtitle(p.finish()?)),
    }
    Ok(())
}

/// Every line is either the header that begins a new element or belongs to the element begun last.
pub fn complex_body(lines: &[IndentedLine], context: ParsingContext) -> Result<(String, Vec<ActChild>)> {
    let mut preamble = String::new();
    let mut children: Vec<ActChild> = Vec::new();
    let mut state = ParseState::Preamble;
    let mut article_parser_factory = ArticleParserFactory::new(context);
    let mut quote_checker = QuoteCheck::default();
    let mut prev_line_is_empty = true;
    let kinds = [
        StructuralElementParserFactory::new(StructuralElementType::Book),
        StructuralElementParserFactory::new(StructuralElementType::Part { is_special: false }),
        StructuralElementParserFactory::new(StructuralElementType::Part { is_special: true }),
        StructuralElementParserFactory::new(StructuralElementType::Title),
        StructuralElementParserFactory::new(StructuralElementType::Chapter),
    ];
    for line in lines {
        quote_checker.update(line)?;
        let mut begun = None;
        if !quote_checker.beginning_is_quoted {
            if let Some(p) = kinds.iter().find_map(|k| k.try_create_from_header(line)) {
                begun = Some(ParseState::StructuralElement(p));
            } else if let Some(p) = SubtitleParserFactory::try_create_from_header(line, prev_line_is_empty, context) {
                begun = Some(ParseState::Subtitle(p));
            } else if let Ok(p) = article_parser_factory.try_create_from_header(line, None) {
                begun = Some(ParseState::Article(p));
            }
        }
        match begun {
            Some(new) => {
                close(state, &mut children)?;
                state = new;
            }
            None => match &mut state {
                ParseState::Preamble => line.append_to(&mut preamble),
                ParseState::Article(p) => p.feed_line(line),
                ParseState::StructuralElement(p) => p.feed_line(line),
                ParseState::Subtitle(p) => p.feed_line(line),
            },
        }
        prev_line_is_empty = line.is_empty();
    }
    quote_checker.check_end()?;
    if let ParseState::Preamble = state {
        return Err(anyhow::anyhow!("no elements"));
    }
    close(state, &mut children)?;
    if context == ParsingContext::BlockAmendment && !preamble.is_empty() {
        return Err(anyhow::anyhow!("text before the first element"));
    }
    for child in &children {
        if let ActChild::Subtitle(st) = child {
            if st.title.len() > 1500 {
                return Err(anyhow::anyhow!("too long"));
            }
        }
    }
    Ok((preamble, children))
}
