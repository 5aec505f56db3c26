// What the splitting of an issue into acts must do (see DESIGN.md, C18).
use super::*;

pub fn remove_double_empty_lines(text: &mut ActRawText) {
    let mut i = 1;
    while i < text.body.len() {
        if text.body[i - 1].is_empty() && text.body[i].is_empty() {
            text.body.remove(i);
        } else {
            i += 1;
        }
    }
}

/// The first page names the gazette, and its date is in the fourth line.
pub fn cover_page(page: &PageOfLines) -> Result<NaiveDate> {
    if page.lines.len() < 4 {
        return Err(anyhow::anyhow!("too short"));
    }
    if !page.lines[0].content().starts_with("MAGYAR KÖZLÖNY") {
        return Err(anyhow::anyhow!("not a gazette"));
    }
    NaiveDate::from_hungarian(page.lines[3].content())
}

pub fn section_start(line: &IndentedLine) -> bool {
    line.is_bold() && line.content() == "II. Törvények"
}

pub fn section_end(line: &IndentedLine) -> bool {
    line.is_bold()
        && (line.content().starts_with("III. Kormányrendeletek")
            || line.content().starts_with("IV. A Magyar Nemzeti Bank elnökének rendeletei")
            || line.content().starts_with("V. A Kormány tagjainak rendeletei")
            || line.content().starts_with("VI. Az Alkotmánybíróság határozatai")
            || line.content().starts_with("VII. A Kúria határozatai")
            || line.content().starts_with("IX. Határozatok Tára"))
}

/// One line: looked at for the header of an act, added to its subject, or added to its body; the footnote about the
/// enactment is taken out of the body, and the signatures end the act.
pub fn feed_line(this: &mut ActExtractor, line: &IndentedLine) {
    match this.state {
        ActExtractionState::WaitingForHeaderNewline => {
            if line.is_empty() {
                this.state = ActExtractionState::WaitingForHeader;
            } else {
                this.state = ActExtractionState::WaitingForHeaderNewline;
            }
        }
        ActExtractionState::WaitingForHeader => {
            if let Some((_, year_str, num_str)) =
                regex_captures!("^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény", line.content())
            {
                if let Ok(year) = year_str.parse::<i16>() {
                    if let Some(number) = roman::from(num_str) {
                        this.current_act.identifier = ActIdentifier { year, number };
                        this.state = ActExtractionState::ParsingActSubject;
                        return;
                    }
                }
            }
            this.state = ActExtractionState::WaitingForHeaderNewline;
        }
        ActExtractionState::ParsingActSubject => {
            line.append_to(&mut this.current_act.subject);
            if this.current_act.subject.ends_with('*') {
                this.current_act.subject.pop();
                this.state = ActExtractionState::BodyBeforeAsteriskFooter;
            } else {
                this.state = ActExtractionState::ParsingActSubject;
            }
        }
        ActExtractionState::BodyBeforeAsteriskFooter => {
            let n = this.current_act.body.len();
            if line.is_empty()
                && n > 2
                && this.current_act.body[n - 2].is_empty()
                && this.current_act.body[n - 1].content().starts_with('*')
            {
                this.current_act.body.pop();
                this.state = ActExtractionState::BodyAfterAsteriskFooter;
                return;
            }
            if body_line(this, line) {
                this.state = ActExtractionState::WaitingForHeaderNewline;
            } else {
                this.state = ActExtractionState::BodyBeforeAsteriskFooter;
            }
        }
        ActExtractionState::BodyAfterAsteriskFooter => {
            if body_line(this, line) {
                this.state = ActExtractionState::WaitingForHeaderNewline;
            } else {
                this.state = ActExtractionState::BodyAfterAsteriskFooter;
            }
        }
    }
}

/// Returns whether the act ends here; it is then complete, and the next one starts from nothing.
fn body_line(this: &mut ActExtractor, line: &IndentedLine) -> bool {
    this.current_act.body.push(line.clone());
    let n = this.current_act.body.len();
    if n > 4
        && this.current_act.body[n - 3].is_empty()
        && (this.current_act.body[n - 1].content() == "köztársasági elnök az Országgyűlés elnöke"
            || this.current_act.body[n - 1].content() == "köztársasági elnök az Országgyűlés alelnöke"
            || this.current_act.body[n - 1].content() == "az Országgyűlés elnöke, az Országgyűlés alelnöke,")
    {
        this.current_act.body.truncate(n - 3);
        this.current_act.publication_date = this.publication_date;
        let act = std::mem::take(&mut this.current_act);
        this.result.push(act);
        return true;
    }
    false
}

/// The lines of the section of acts are fed in order, with an empty line after each page.
pub fn pages(pages: &[PageOfLines]) -> Result<Vec<ActRawText>> {
    if pages.len() < 2 {
        return Err(anyhow::anyhow!("too short"));
    }
    let publication_date = parse_mk_cover_page(&pages[0])?;
    let mut extractor = ActExtractor {
        publication_date,
        current_act: Default::default(),
        result: Vec::new(),
        state: ActExtractionState::WaitingForHeaderNewline,
    };
    let mut extracting = false;
    let mut seen_a_proper_header = false;
    for page in pages {
        for line in &page.lines {
            if !seen_a_proper_header
                && line.is_bold()
                && regex_is_match!("[0-9]+. évi [CLXVI]+. törvény", line.content())
            {
                extracting = true;
            }
            if line_is_act_section_start(line) {
                extracting = true;
                seen_a_proper_header = true;
            } else if line_is_act_section_end(line) {
                extracting = false;
                seen_a_proper_header = true;
            } else if extracting {
                extractor.feed_line(line);
            }
        }
        if extracting {
            extractor.feed_line(&EMPTY_LINE);
        }
    }
    for act in &mut extractor.result {
        act.remove_double_empty_lines();
    }
    Ok(extractor.result)
}
