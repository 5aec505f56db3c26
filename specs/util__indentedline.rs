#![allow(dead_code, unused)]
//! A line of text: characters with their horizontal positions.
use super::*;

pub fn from_parts(parts: Vec<IndentedLinePart>, justified: bool) -> IndentedLine {
    let mut content = String::new();
    for p in &parts {
        content.push(p.content);
    }
    let mut bold = 0usize;
    for p in &parts {
        if p.bold {
            bold += 1;
        }
    }
    // more than two thirds
    let is_bold = bold * 3 > parts.len() * 2;
    IndentedLine { parts, justified, cached_content: content, cached_bold: is_bold }
}

pub fn from_multiple(others: &[&IndentedLine]) -> IndentedLine {
    // every character keeps its position on the page
    let mut parts = Vec::<IndentedLinePart>::new();
    let mut position = 0.0;
    for other in others {
        let mut at_start = true;
        for p in &other.parts {
            if at_start {
                parts.push(IndentedLinePart { dx: p.dx - position, content: p.content, bold: p.bold });
                position = p.dx;
                at_start = false;
            } else {
                parts.push(IndentedLinePart { dx: p.dx, content: p.content, bold: p.bold });
                position += p.dx;
            }
        }
    }
    let justified = match others.iter().rfind(|l| !l.parts.is_empty()) {
        Some(l) => l.justified,
        None => false,
    };
    IndentedLine::from_parts(parts, justified)
}

pub fn indent(this: &IndentedLine) -> f64 {
    if this.parts.is_empty() {
        0.0
    } else {
        this.parts[0].dx
    }
}

pub fn content(this: &IndentedLine) -> &str {
    &this.cached_content
}

pub fn is_bold(this: &IndentedLine) -> bool {
    this.cached_bold
}

pub fn is_justified(this: &IndentedLine) -> bool {
    this.justified
}

pub fn len(this: &IndentedLine) -> usize {
    this.parts.len()
}

pub fn is_empty(this: &IndentedLine) -> bool {
    this.parts.len() == 0
}

fn position(len: usize, at: i64) -> usize {
    let n = len as i64;
    let at = if at < 0 { n + at } else { at };
    if at < 0 {
        0
    } else if at > n {
        len
    } else {
        at as usize
    }
}

pub fn slice(this: &IndentedLine, from: i64, to: Option<i64>) -> IndentedLine {
    let n = this.parts.len();
    let from = position(n, from);
    let to = match to {
        Some(to) => position(n, to),
        None => n,
    };
    if from >= to {
        return IndentedLine { parts: Vec::new(), justified: false, cached_content: String::new(), cached_bold: false };
    }
    let mut parts = this.parts[from..to].to_vec();
    // the first character stays where it was
    let before: f64 = this.parts.iter().take(from).map(|p| p.dx).sum();
    parts[0].dx += before;
    IndentedLine::from_parts(parts, this.justified && to == n)
}

pub fn indent_less_or_eq(this: &IndentedLine, other: f64) -> bool {
    this.indent() < other + 1.0
}

pub fn indent_at(this: &IndentedLine, from: i64) -> f64 {
    let at = position(this.parts.len(), from);
    this.parts.iter().take(at + 1).map(|p| p.dx).sum()
}

pub fn append_to(this: &IndentedLine, s: &mut String) {
    let c = &this.cached_content;
    if !this.parts.is_empty() && !s.is_empty() {
        if !s.ends_with('-') || c.starts_with("és ") || c.starts_with("vagy ") {
            s.push(' ');
        }
    }
    s.push_str(c);
}

pub fn join<'a, I: IntoIterator<Item = &'a IndentedLine>>(s: I) -> String {
    let mut r = String::new();
    for l in s {
        l.append_to(&mut r);
    }
    r
}

pub fn as_bold(this: &IndentedLine) -> IndentedLine {
    let mut parts = Vec::new();
    for p in &this.parts {
        parts.push(IndentedLinePart { dx: p.dx, content: p.content, bold: true });
    }
    IndentedLine { parts, justified: this.justified, cached_content: this.cached_content.clone(), cached_bold: true }
}

pub fn eq(this: &IndentedLine, other: &IndentedLine) -> bool {
    this.indent() == other.indent() && this.cached_content == other.cached_content && this.cached_bold == other.cached_bold
}

pub fn slice_bytes(this: &IndentedLine, from: usize, to: Option<usize>) -> IndentedLine {
    let c = &this.cached_content;
    let place = |byte: usize| {
        if byte >= c.len() {
            c.chars().count() as i64
        } else {
            c.char_indices().position(|(at, _)| at == byte).unwrap() as i64
        }
    };
    let start = place(from);
    let end = match to {
        Some(to) => Some(place(to)),
        None => None,
    };
    this.slice(start, end)
}

pub fn parse_header<T: FromStr>(this: &IndentedLine, regex: &Regex, blacklist: &'static [&'static str]) -> Option<(T, IndentedLine)> {
    let mut places = regex.capture_locations();
    if regex.captures_read(&mut places, &this.cached_content).is_none() {
        return None;
    }
    // the first group is the identifier, the last one the rest of the line
    let (a, b) = places.get(1).unwrap();
    let id = match this.cached_content[a..b].to_string().parse::<T>() {
        Ok(id) => id,
        Err(_) => return None,
    };
    let (a, b) = places.get(places.len() - 1).unwrap();
    let rest = this.slice_bytes(a, Some(b));
    for word in blacklist {
        if rest.cached_content.starts_with(word) {
            return None;
        }
    }
    Some((id, rest))
}

pub fn debug_ctx(this: &IndentedLine) -> String {
    format!("line '{}'", this.cached_content)
}
