#![allow(dead_code, unused)]
use super::*;
use PrefixedAlphabeticIdentifier as I;

pub fn from_str(s: &str) -> Result<I> {
    let n = s.chars().count();
    if n == 1 {
        let c = s.chars().next().unwrap();
        Ok(I { prefix: None, chr: HungarianIdentifierChar::try_from(c)? })
    } else if n == 2 {
        let mut c = s.chars();
        let first = c.next().unwrap();
        let prefix = HungarianIdentifierChar::try_from(first)?;
        let second = c.next().unwrap();
        Ok(I { prefix: Some(prefix), chr: HungarianIdentifierChar::try_from(second)? })
    } else {
        Err(anyhow!("too long or empty"))
    }
}

pub fn display(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if let Some(prefix) = this.prefix {
        write!(f, "{}", prefix)?;
    }
    write!(f, "{}", this.chr)
}

pub fn compact(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Display::fmt(this, f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<I> {
    s.as_ref().parse()
}

pub fn try_from(value: String) -> Result<I> {
    value.parse()
}

pub fn into_string(val: I) -> String {
    val.to_string()
}

pub fn prefix_is(this: &I, prefix: Option<HungarianIdentifierChar>) -> bool {
    this.prefix == prefix
}

pub fn get_prefix(this: &I) -> Option<HungarianIdentifierChar> {
    this.prefix
}
