#![allow(dead_code, unused)]
//! A number, followed by an optional suffix letter with or without a slash.
use super::*;

fn split<'a>(s: &'a str, digits: &'static [char]) -> Result<(&'a str, Option<HungarianIdentifierChar>)> {
    match s.find(|c: char| !digits.contains(&c)) {
        None => Ok((s, None)),
        Some(at) => {
            let rest = &s[at..];
            if rest.as_bytes()[0] != b'/' {
                return Ok((&s[..at], Some(rest.parse()?)));
            }
            if rest[1..].is_empty() {
                return Err(anyhow!("no suffix after the slash"));
            }
            Ok((&s[..at], Some(rest[1..].parse()?)))
        }
    }
}

pub fn from_roman(s: &str) -> Result<NumericIdentifier> {
    let (number, suffix) = split(s, &ROMAN_DIGITS)?;
    match roman::from(number) {
        Some(n) => Ok(NumericIdentifier { num: n as u16, suffix }),
        None => Err(anyhow!("not a roman numeral")),
    }
}

pub fn from_str(s: &str) -> Result<NumericIdentifier> {
    let (number, suffix) = split(s, &DIGITS)?;
    if number.is_empty() {
        return Err(anyhow!("no number"));
    }
    Ok(NumericIdentifier { num: number.parse::<u16>()?, suffix })
}

pub fn display(this: &NumericIdentifier, f: &mut Formatter<'_>) -> std::fmt::Result {
    write!(f, "{:?}", this.num)?;
    if let Some(suffix) = this.suffix {
        write!(f, "{}", suffix)?;
    }
    Ok(())
}

pub fn display_with_slash(this: &NumericIdentifierWithSlash, f: &mut Formatter<'_>) -> std::fmt::Result {
    write!(f, "{:?}", this.id.num)?;
    if let Some(suffix) = this.id.suffix {
        write!(f, "/{}", suffix.to_uppercase())?;
    }
    Ok(())
}

pub fn with_slash(this: &NumericIdentifier) -> NumericIdentifierWithSlash {
    NumericIdentifierWithSlash { id: *this }
}

pub fn to_hungarian(this: &NumericIdentifier) -> Result<String> {
    let number = this.num.to_hungarian()?;
    Ok(match this.suffix {
        Some(suffix) => format!("{}/{}", number, suffix),
        None => number.to_string(),
    })
}

pub fn to_roman(this: &NumericIdentifier) -> Result<String> {
    match roman::to(this.num as i32) {
        None => Err(anyhow!("no roman numeral")),
        Some(number) => Ok(match this.suffix {
            Some(suffix) => format!("{}/{}", number, suffix),
            None => number,
        }),
    }
}

pub fn compact(this: &NumericIdentifier, f: &mut Formatter<'_>) -> std::fmt::Result {
    Display::fmt(this, f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<NumericIdentifier> {
    s.as_ref().parse()
}

pub fn try_from(value: String) -> Result<NumericIdentifier> {
    value.parse()
}

pub fn into_string(val: NumericIdentifier) -> String {
    val.to_string()
}

pub fn from_number(val: u16) -> NumericIdentifier {
    NumericIdentifier { num: val, suffix: None }
}
