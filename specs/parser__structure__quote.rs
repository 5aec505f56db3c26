use super::*;

type P = QuotedBlockParser;

pub fn new(expect_intro: bool) -> P {
    P {
        state: if expect_intro { P::state_start_expect_intro } else { P::state_start },
        blocks: Vec::new(),
        wrap_up: String::new(),
        quoted_block_intro: String::new(),
        quoted_block_wrap_up: String::new(),
        quoted_lines: Vec::new(),
        quote_checker: QuoteCheck { quote_level: 0, beginning_is_quoted: false, end_is_quoted: false },
    }
}

pub fn parse_line(this: &mut P, line: &IndentedLine) -> Result<()> {
    this.quote_checker.update(line)?;
    let state = this.state;
    state(this, line);
    Ok(())
}

fn opens_quote(line: &IndentedLine) -> bool {
    line.content().starts_with('„') || line.content().starts_with('“')
}

fn opens_paren(line: &IndentedLine) -> bool {
    line.content().starts_with('(') || line.content().starts_with('[')
}

fn closes_paren(line: &IndentedLine) -> bool {
    line.content().ends_with(')') || line.content().ends_with(']')
}

/// Empty lines between parts are skipped.  A part begins with its opening sign, which is not kept; anything else is handed on.
pub fn state_start(this: &mut P, line: &IndentedLine) {
    if line.is_empty() {
    } else if opens_quote(line) {
        this.state = P::state_inside_quoted_block;
        P::state_inside_quoted_block(this, &line.slice(1, None));
    } else {
        this.state = P::state_wrap_up;
        P::state_wrap_up(this, line);
    }
}

pub fn state_start_expect_intro(this: &mut P, line: &IndentedLine) {
    if line.is_empty() {
    } else if opens_paren(line) {
        this.state = P::state_quoted_block_intro;
        P::state_quoted_block_intro(this, &line.slice(1, None));
    } else {
        this.state = P::state_start;
        P::state_start(this, line);
    }
}

pub fn state_waiting_for_quoted_block(this: &mut P, line: &IndentedLine) {
    if line.is_empty() {
    } else if opens_quote(line) {
        this.state = P::state_inside_quoted_block;
        P::state_inside_quoted_block(this, &line.slice(1, None));
    } else {
        this.state = P::state_waiting_for_quoted_block_wrap_up;
        P::state_waiting_for_quoted_block_wrap_up(this, line);
    }
}

pub fn state_waiting_for_quoted_block_wrap_up(this: &mut P, line: &IndentedLine) {
    if line.is_empty() {
    } else if opens_paren(line) {
        this.state = P::state_quoted_block_wrap_up;
        P::state_quoted_block_wrap_up(this, &line.slice(1, None));
    } else {
        this.state = P::state_wrap_up;
        P::state_wrap_up(this, line);
    }
}

/// Text in parentheses ends with the first closing one outside quotes at the end of a line.
pub fn state_quoted_block_intro(this: &mut P, line: &IndentedLine) {
    if line.is_empty() || this.quote_checker.end_is_quoted || !closes_paren(line) {
        line.append_to(&mut this.quoted_block_intro);
    } else {
        line.slice(0, Some(-1)).append_to(&mut this.quoted_block_intro);
        this.state = P::state_start_expect_intro;
    }
}

pub fn state_quoted_block_wrap_up(this: &mut P, line: &IndentedLine) {
    if line.is_empty() || this.quote_checker.end_is_quoted || !closes_paren(line) {
        line.append_to(&mut this.quoted_block_wrap_up);
    } else {
        line.slice(0, Some(-1)).append_to(&mut this.quoted_block_wrap_up);
        this.state = P::state_waiting_for_quoted_block_wrap_up;
    }
}

/// Every line between the quotes is kept, also empty ones; the block ends where no quote is open any more.
pub fn state_inside_quoted_block(this: &mut P, line: &IndentedLine) {
    if line.is_empty() || this.quote_checker.end_is_quoted || !line.content().ends_with('”') {
        this.quoted_lines.push(line.clone());
    } else {
        let mut lines = std::mem::take(&mut this.quoted_lines);
        lines.push(line.slice(0, Some(-1)));
        this.blocks.push(QuotedBlock { intro: None, lines, wrap_up: None });
        this.state = P::state_waiting_for_quoted_block;
    }
}

pub fn state_wrap_up(this: &mut P, line: &IndentedLine) {
    line.append_to(&mut this.wrap_up);
}

fn non_empty(s: String) -> Option<String> {
    if s.is_empty() { None } else { Some(s) }
}

pub fn extract_multiple(previous: Option<&IndentedLine>, lines: &[IndentedLine]) -> Result<ExtractMultipleResult<ParagraphChildren>> {
    let expect_intro = match previous {
        Some(l) => l.content().ends_with(':'),
        None => false,
    };
    if lines.is_empty() {
        bail!("nothing");
    }
    if !(opens_quote(&lines[0]) || expect_intro && opens_paren(&lines[0])) {
        bail!("no opening sign");
    }
    let mut state = P::new(expect_intro);
    for line in lines {
        state.parse_line(line)?;
    }
    let s = state.state as usize;
    if s != P::state_waiting_for_quoted_block as usize && s != P::state_wrap_up as usize
        && s != P::state_waiting_for_quoted_block_wrap_up as usize {
        bail!("unfinished");
    }
    if state.blocks.is_empty() {
        bail!("no blocks");
    }
    state.blocks.first_mut().unwrap().intro = non_empty(state.quoted_block_intro);
    state.blocks.last_mut().unwrap().wrap_up = non_empty(state.quoted_block_wrap_up);
    Ok(ExtractMultipleResult {
        elements: state.blocks.into(),
        parent_wrap_up: non_empty(state.wrap_up),
        rest_of_wrap_up: Vec::new(),
    })
}
