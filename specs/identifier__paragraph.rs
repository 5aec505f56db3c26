#![allow(dead_code, unused)]
use super::*;
use ParagraphIdentifier as I;

pub fn from_str(value: &str) -> Result<I> {
    if value.is_empty() {
        return Ok(ParagraphIdentifier(None));
    }
    Ok(ParagraphIdentifier(Some(value.parse::<NumericIdentifier>()?)))
}

pub fn display(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this.0 {
        Some(id) => write!(f, "{}", id),
        None => Ok(()),
    }
}

pub fn compact(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Display::fmt(this, f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<I> {
    s.as_ref().parse()
}

pub fn try_from(value: String) -> Result<I> {
    value.parse()
}

pub fn into_string(val: I) -> String {
    val.to_string()
}

pub fn from_number(v: u16) -> I {
    ParagraphIdentifier(Some(v.into()))
}

pub fn from_id(v: NumericIdentifier) -> I {
    ParagraphIdentifier(Some(v))
}
