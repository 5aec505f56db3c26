#![allow(dead_code, unused)]
use super::*;

pub fn from_str(s: &str) -> Result<MkIssue> {
    let parts: Vec<&str> = s.split('/').collect();
    if parts.len() != 2 {
        return Err(anyhow::anyhow!("not YEAR/ISSUE"));
    }
    let year = parts[0].parse::<i64>()?;
    let issue = parts[1].parse::<i64>()?;
    Ok(MkIssue { year, issue })
}

pub fn cache_key(this: &MkIssue) -> String {
    format!("MK/{}/{}.pdf", this.year, this.issue)
}

pub fn url(this: &MkIssue) -> String {
    format!("http://www.kozlonyok.hu/nkonline/MKPDF/hiteles/MK{:02}{:03}.pdf", this.year % 100, this.issue)
}
