#![allow(dead_code, unused)]
use super::*;

pub fn header(line: &IndentedLine, prev_line_is_empty: bool, context: ParsingContext) -> Option<SubtitleParser> {
    if !line.is_bold() {
        return None;
    }
    if let Some((_, identifier, _, title)) = regex_captures!("^([0-9]+(/[A-Z])?)\\. ([^é§].*)$", line.content()) {
        return match identifier.parse() {
            Ok(id) => Some(SubtitleParser { identifier: Some(id), title: title.to_string() }),
            Err(_) => None,
        };
    }
    if !prev_line_is_empty && context == ParsingContext::FullAct {
        return None;
    }
    match line.content().chars().next() {
        Some(c) if c.is_uppercase() => Some(SubtitleParser { identifier: None, title: line.content().to_string() }),
        _ => None,
    }
}

pub fn feed_line(this: &mut SubtitleParser, line: &IndentedLine) {
    line.append_to(&mut this.title);
}

pub fn finish(this: SubtitleParser) -> Result<Subtitle> {
    Ok(Subtitle { identifier: this.identifier, title: this.title, last_change: None })
}
