#![allow(dead_code, unused)]
use super::*;

pub fn header(this: &StructuralElementParserFactory, line: &IndentedLine) -> Option<StructuralElementParser> {
    let re: &Regex = match this.element_type {
        StructuralElementType::Book => regex!("^(.*) KÖNYV$"),
        StructuralElementType::Part { .. } => regex!("^(.*) RÉSZ$"),
        StructuralElementType::Title => regex!("^(.*)\\. CÍM$"),
        StructuralElementType::Chapter => regex!("^(?i)(.*)\\. fejezet$"),
    };
    let found = match re.captures(line.content()) {
        Some(c) => c,
        None => return None,
    };
    let number = match found.get(1) {
        Some(m) => m.as_str(),
        None => return None,
    };
    match this.element_type.parse_identifier(number) {
        Ok(identifier) => Some(StructuralElementParser { identifier, title: String::new(), element_type: this.element_type }),
        Err(_) => None,
    }
}

pub fn feed_line(this: &mut StructuralElementParser, line: &IndentedLine) {
    line.append_to(&mut this.title);
}

pub fn finish(this: StructuralElementParser) -> StructuralElement {
    StructuralElement { identifier: this.identifier, title: this.title, element_type: this.element_type, last_change: None }
}
