#![allow(dead_code, unused)]
use super::*;
use ArticleIdentifier as I;

pub fn from_str(value: &str) -> Result<I> {
    match value.split_once(':') {
        Some((book, id)) => Ok(I { book: Some(book.parse::<u8>()?), identifier: id.parse::<NumericIdentifier>()? }),
        None => Ok(I { book: None, identifier: value.parse::<NumericIdentifier>()? }),
    }
}

pub fn display(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this.book {
        Some(book) => write!(f, "{:?}:{}", book, this.identifier.with_slash()),
        None => write!(f, "{}", this.identifier.with_slash()),
    }
}

pub fn compact(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if let Some(book) = this.book {
        write!(f, "{:?}.", book)?;
    }
    this.identifier.fmt_compact_string(f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<I> {
    let s = s.as_ref();
    match s.split_once('.') {
        Some((book, id)) => Ok(I { book: Some(book.parse::<u8>()?), identifier: NumericIdentifier::from_compact_string(id)? }),
        None => Ok(I { book: None, identifier: NumericIdentifier::from_compact_string(s)? }),
    }
}

pub fn try_from(value: String) -> Result<I> {
    value.parse()
}

pub fn into_string(val: I) -> String {
    val.to_string()
}

pub fn from_number(val: u16) -> I {
    I { book: None, identifier: val.into() }
}

pub fn from_book_and_id(book: Option<u8>, identifier: NumericIdentifier) -> I {
    I { book, identifier }
}
