#![allow(dead_code, unused)]
use super::*;

pub fn header(this: &mut ArticleParserFactory, line: &IndentedLine, expected: Option<ArticleIdentifier>) -> Result<ArticleParser> {
    if let Some(indent) = this.article_header_indent {
        if !line.indent_less_or_eq(indent) {
            return Err(anyhow!("indentation"));
        }
    }
    let (identifier, rest) = match line.parse_header::<ArticleIdentifier>(regex!("^(([0-9]+:)?([0-9]+(/[A-Z])?))\\. ?§ +(.*)$"), &[]) {
        Some(x) => x,
        None => return Err(anyhow!("not an article header")),
    };
    let fits = match (expected, this.last_id) {
        (Some(expected), _) => identifier == expected,
        (None, Some(last)) => identifier.is_next_from(last),
        (None, None) => this.context == ParsingContext::BlockAmendment || identifier.is_first(),
    };
    if !fits {
        return Err(anyhow!("not the article that comes next"));
    }
    this.last_id = Some(identifier);
    this.article_header_indent = Some(line.indent());
    Ok(ArticleParser { identifier, lines: vec![rest], context: this.context })
}

pub fn feed_line(this: &mut ArticleParser, line: &IndentedLine) {
    this.lines.push(line.clone());
}

/// A title in brackets at the beginning is taken off the text, which may then begin with one empty line; the rest is paragraphs
/// or, if it is not, one paragraph.
pub fn finish(this: ArticleParser) -> Result<Article> {
    let mut lines = this.lines;
    let mut found_title = None;
    if lines[0].content().starts_with('[') {
        let mut title = lines.remove(0).content()[1..].to_string();
        while !title.ends_with(']') && !lines.is_empty() {
            lines.remove(0).append_to(&mut title);
        }
        if !title.ends_with(']') {
            return Err(anyhow!("title does not end"));
        }
        title.pop();
        found_title = Some(title);
    }
    if !lines.is_empty() && lines[0].is_empty() {
        lines.remove(0);
    }
    let params = SAEParseParams { check_children_count: true, parse_wrap_up: false, context: this.context };
    let children: Vec<Paragraph> = match ParagraphParser.extract_multiple(&lines, &params, None) {
        Ok(found) => {
            // not asked for
            assert!(found.parent_wrap_up.is_none());
            found.elements
        }
        Err(_) => {
            let p = ParagraphParser.parse(ParagraphIdentifier::default(), &lines, this.context, RestOfWrapUpMode::KeepIt)?;
            vec![p.element]
        }
    };
    Ok(Article { identifier: this.identifier, title: found_title, children, last_change: None })
}
