#![allow(dead_code, unused)]
use super::*;

pub fn parse<P: SAEParser + ?Sized>(
    this: &P,
    identifier: P::IdentifierType,
    body: &[IndentedLine],
    context: ParsingContext,
    wrap_up_mode: RestOfWrapUpMode,
) -> Result<ParseResult<P::IdentifierType, P::ChildrenType>> {
    let mut intro = String::new();
    let mut quote_checker = QuoteCheck::default();
    let mut previous_nonempty_line = None;
    for i in 0..body.len() {
        let line = &body[i];
        quote_checker.update(line)?;
        // children are looked for at every line that does not begin inside a quotation; the first place where they are found counts
        if !quote_checker.beginning_is_quoted {
            let params = SAEParseParams { parse_wrap_up: true, check_children_count: true, context };
            if let Ok(found) = this.try_extract_children(&identifier, previous_nonempty_line, &body[i..], &params) {
                let mut wrap_up = found.parent_wrap_up;
                let mut rest = found.rest_of_wrap_up;
                if wrap_up_mode == RestOfWrapUpMode::KeepIt {
                    for l in rest {
                        match &mut wrap_up {
                            Some(w) => l.append_to(w),
                            None => wrap_up = Some(l.content().to_owned()),
                        }
                    }
                    rest = Vec::new();
                }
                return Ok(ParseResult {
                    element: SubArticleElement {
                        identifier,
                        body: SAEBody::Children { intro, children: found.elements, wrap_up },
                        semantic_info: Default::default(),
                        last_change: None,
                    },
                    rest_of_wrap_up: rest,
                });
            }
        }
        line.append_to(&mut intro);
        if !line.is_empty() {
            previous_nonempty_line = Some(line);
        }
    }
    quote_checker.check_end()?;
    let mut rest = Vec::new();
    if context == ParsingContext::BlockAmendment && wrap_up_mode == RestOfWrapUpMode::GiveIt {
        if let Some(at) = body.iter().position(|l| !l.is_justified()) {
            intro = IndentedLine::join(&body[..at + 1]);
            rest = body[at + 1..].to_vec();
        }
    }
    Ok(ParseResult {
        element: SubArticleElement { identifier, body: SAEBody::Text(intro), semantic_info: Default::default(), last_change: None },
        rest_of_wrap_up: rest,
    })
}

pub fn parse_and_check_header<P: SAEParser + ?Sized>(
    this: &P,
    last: P::IdentifierType,
    indent: f64,
    line: &IndentedLine,
) -> Option<(P::IdentifierType, IndentedLine)> {
    if !line.indent_less_or_eq(indent) {
        return None;
    }
    match this.parse_header(line) {
        Some((id, rest)) if id.is_next_from(last) => Some((id, rest)),
        _ => None,
    }
}

pub fn extract_multiple<P: SAEParser, T: From<Vec<SubArticleElement<P::IdentifierType, P::ChildrenType>>>>(
    this: &P,
    lines: &[IndentedLine],
    params: &SAEParseParams,
    expected: Option<P::IdentifierType>,
) -> Result<ExtractMultipleResult<T>> {
    if lines.is_empty() {
        return Err(anyhow!("nothing"));
    }
    let (mut identifier, first) = match this.parse_header(&lines[0]) {
        Some(x) => x,
        None => return Err(anyhow!("not a header")),
    };
    let fits = match expected {
        Some(expected) => identifier == expected,
        None => identifier.is_first(),
    };
    if !fits {
        return Err(anyhow!("not the element expected"));
    }
    let indent = lines[0].indent();
    let mut quote_checker = QuoteCheck::default();
    quote_checker.update(&first)?;
    let mut elements = Vec::new();
    let mut body = vec![first];
    for line in &lines[1..] {
        quote_checker.update(line)?;
        let begun = if quote_checker.beginning_is_quoted { None } else { this.parse_and_check_header(identifier, indent, line) };
        match begun {
            Some((next, rest)) => {
                elements.push(this.parse(identifier, &body, params.context, RestOfWrapUpMode::KeepIt)?.element);
                identifier = next;
                body = vec![rest];
            }
            None => {
                if !line.is_empty() {
                    body.push(line.clone());
                }
            }
        }
    }
    quote_checker.check_end()?;
    let mut parent_wrap_up = None;
    let mut rest_of_wrap_up = Vec::new();
    if !params.parse_wrap_up {
        elements.push(this.parse(identifier, &body, params.context, RestOfWrapUpMode::KeepIt)?.element);
    } else if params.context == ParsingContext::FullAct {
        // what comes after the last child is the first line that is not indented, and all lines after it
        if let Some(at) = body.iter().position(|l| l.indent_less_or_eq(indent)) {
            let after = body.split_off(at);
            parent_wrap_up = Some(IndentedLine::join(&after));
        }
        elements.push(this.parse(identifier, &body, params.context, RestOfWrapUpMode::KeepIt)?.element);
    } else {
        let parsed = this.parse(identifier, &body, params.context, RestOfWrapUpMode::GiveIt)?;
        elements.push(parsed.element);
        let mut after = parsed.rest_of_wrap_up;
        if let Some(at) = after.iter().position(|l| !l.is_justified()) {
            rest_of_wrap_up = after.split_off(at + 1);
        }
        if !after.is_empty() {
            parent_wrap_up = Some(IndentedLine::join(&after));
        }
    }
    if params.check_children_count && elements.len() <= 1 {
        return Err(anyhow!("only one child"));
    }
    Ok(ExtractMultipleResult { elements: elements.into(), parent_wrap_up, rest_of_wrap_up })
}

pub fn paragraph_header(this: &ParagraphParser, line: &IndentedLine) -> Option<(ParagraphIdentifier, IndentedLine)> {
    line.parse_header(regex!("^\\(([0-9]+[a-z]?)\\) +(.*)$"), &["bekezdés"])
}

pub fn numeric_header(this: &NumericPointParser, line: &IndentedLine) -> Option<(NumericIdentifier, IndentedLine)> {
    line.parse_header(regex!("^([0-9]+(/?[a-z])?)\\. +(.*)$"), &["pont", "alpont"])
}

pub fn alphabetic_header(this: &AlphabeticPointParser, line: &IndentedLine) -> Option<(AlphabeticIdentifier, IndentedLine)> {
    line.parse_header(regex!("^([a-z]|cs|dz|gy|ly|ny|sz|ty|zs)\\) +(.*)$"), &["pont", "alpont"])
}

pub fn numeric_sub_header(this: &NumericSubpointParser, line: &IndentedLine) -> Option<(NumericIdentifier, IndentedLine)> {
    line.parse_header(regex!("^([0-9]+(/?[a-z])?)\\. +(.*)$"), &["pont", "alpont"])
}

pub fn alphabetic_sub_header(this: &AlphabeticSubpointParser, line: &IndentedLine) -> Option<(PrefixedAlphabeticIdentifier, IndentedLine)> {
    match line.parse_header::<PrefixedAlphabeticIdentifier>(regex!("^([a-z]?[a-z])\\) +(.*)$"), &["pont", "alpont"]) {
        Some((id, rest)) if id.prefix_is(this.prefix) => Some((id, rest)),
        _ => None,
    }
}

pub fn paragraph_children(
    this: &ParagraphParser,
    id: &ParagraphIdentifier,
    before: Option<&IndentedLine>,
    body: &[IndentedLine],
    params: &SAEParseParams,
) -> Result<ExtractMultipleResult<ParagraphChildren>> {
    if let Ok(x) = QuotedBlockParser::extract_multiple(before, body) {
        return Ok(x);
    }
    if let Ok(x) = NumericPointParser.extract_multiple(body, params, None) {
        return Ok(x);
    }
    AlphabeticPointParser.extract_multiple(body, params, None)
}

pub fn numeric_children(
    this: &NumericPointParser,
    id: &NumericIdentifier,
    before: Option<&IndentedLine>,
    body: &[IndentedLine],
    params: &SAEParseParams,
) -> Result<ExtractMultipleResult<NumericPointChildren>> {
    AlphabeticSubpointParser { prefix: None }.extract_multiple(body, params, None)
}

pub fn alphabetic_children(
    this: &AlphabeticPointParser,
    id: &AlphabeticIdentifier,
    before: Option<&IndentedLine>,
    body: &[IndentedLine],
    params: &SAEParseParams,
) -> Result<ExtractMultipleResult<AlphabeticPointChildren>> {
    if let Ok(x) = NumericSubpointParser.extract_multiple(body, params, None) {
        return Ok(x);
    }
    AlphabeticSubpointParser { prefix: Some(*id) }.extract_multiple(body, params, None)
}

pub fn numeric_sub_children(
    this: &NumericSubpointParser,
    id: &NumericIdentifier,
    before: Option<&IndentedLine>,
    body: &[IndentedLine],
    params: &SAEParseParams,
) -> Result<ExtractMultipleResult<NumericSubpointChildren>> {
    Err(anyhow!("no children"))
}

pub fn alphabetic_sub_children(
    this: &AlphabeticSubpointParser,
    id: &PrefixedAlphabeticIdentifier,
    before: Option<&IndentedLine>,
    body: &[IndentedLine],
    params: &SAEParseParams,
) -> Result<ExtractMultipleResult<AlphabeticSubpointChildren>> {
    Err(anyhow!("no children"))
}
