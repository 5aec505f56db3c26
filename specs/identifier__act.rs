#![allow(dead_code, unused)]
use super::*;
use ActIdentifier as I;

pub fn display(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let number = roman::to(this.number).unwrap();
    write!(f, "{:?}. évi {}. törvény", this.year, number)
}

pub fn compact(this: &I, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}.{}", this.year, this.number)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<I> {
    let s = s.as_ref();
    match s.split_once('.') {
        Some((year, number)) => Ok(I { year: year.parse::<i16>()?, number: number.parse::<i32>()? }),
        None => Err(anyhow!("no dot")),
    }
}

pub fn from_str(s: &str) -> Result<I> {
    if let Some((_, year, number)) = regex_captures!("([0-9]{4}). évi ([IVXLCDM]+). törvény", s) {
        if let Ok(year) = year.parse::<i16>() {
            if let Some(number) = roman::from(number) {
                return Ok(I { year, number });
            }
        }
    }
    if let Some((_, year, number)) = regex_captures!("([0-9]{4})[/_\\.-]([0-9]+)", s) {
        if let Ok(year) = year.parse::<i16>() {
            if let Ok(number) = number.parse::<i32>() {
                return Ok(I { year, number });
            }
        }
    }
    Err(anyhow!("not an act identifier"))
}
