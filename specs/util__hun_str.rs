#![allow(dead_code, unused)]
use super::*;

pub fn month(s: &str) -> Result<u8> {
    if s == "január" { return Ok(1); }
    if s == "február" { return Ok(2); }
    if s == "március" { return Ok(3); }
    if s == "április" { return Ok(4); }
    if s == "május" { return Ok(5); }
    if s == "június" { return Ok(6); }
    if s == "július" { return Ok(7); }
    if s == "augusztus" { return Ok(8); }
    if s == "szeptember" { return Ok(9); }
    if s == "október" { return Ok(10); }
    if s == "november" { return Ok(11); }
    if s == "december" { return Ok(12); }
    Err(anyhow!("no such month"))
}

pub fn u16_from_hungarian(s: &str) -> Result<u16> {
    match generated::STR_TO_INT_HUN.get(s) {
        Some(v) => Ok(*v as u16),
        None => Err(anyhow!("no such number")),
    }
}

pub fn u8_from_hungarian(s: &str) -> Result<u8> {
    match generated::STR_TO_INT_HUN.get(s) {
        Some(v) => Ok(*v as u8),
        None => Err(anyhow!("no such number")),
    }
}

pub fn u16_to_hungarian(n: u16) -> Result<&'static str> {
    match generated::INT_TO_STR_HUN.get(n as usize) {
        Some(v) => Ok(v),
        None => Err(anyhow!("no such number")),
    }
}

pub fn u8_to_hungarian(n: u8) -> Result<&'static str> {
    match generated::INT_TO_STR_HUN.get(n as usize) {
        Some(v) => Ok(v),
        None => Err(anyhow!("no such number")),
    }
}

pub fn date_from_hungarian(s: &str) -> Result<NaiveDate> {
    match regex_captures!(r"^(\d{4}). ([^ ]+) (\d{1,2}).", s) {
        Some((_, year, month, day)) => {
            let year = year.parse::<i32>()?;
            let month = text_to_month_hun(month)?;
            let day = day.parse::<u32>()?;
            match NaiveDate::from_ymd_opt(year, month as u32, day) {
                Some(d) => Ok(d),
                None => Err(anyhow!("no such day")),
            }
        }
        None => Err(anyhow!("not a date")),
    }
}
