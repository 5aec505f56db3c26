#![allow(dead_code, unused)]
use super::*;

pub fn compact(this: &Reference, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    this.act.fmt_compact_string(f)?;
    f.write_str("_")?;
    this.article.fmt_compact_string(f)?;
    f.write_str("_")?;
    this.paragraph.fmt_compact_string(f)?;
    f.write_str("_")?;
    this.point.fmt_compact_string(f)?;
    f.write_str("_")?;
    this.subpoint.fmt_compact_string(f)
}

pub fn from_compact(s: impl AsRef<str>) -> Result<Reference> {
    let mut parts = s.as_ref().split('_');
    let (act, article) = match (parts.next(), parts.next()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err(anyhow!("too few")),
    };
    let (paragraph, point) = match (parts.next(), parts.next()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err(anyhow!("too few")),
    };
    let subpoint = match parts.next() {
        Some(a) => a,
        _ => return Err(anyhow!("too few")),
    };
    if parts.next().is_some() {
        return Err(anyhow!("too many"));
    }
    let act = CompactString::from_compact_string(act)?;
    let article = CompactString::from_compact_string(article)?;
    let paragraph = CompactString::from_compact_string(paragraph)?;
    let point = CompactString::from_compact_string(point)?;
    let subpoint = CompactString::from_compact_string(subpoint)?;
    UncheckedReference { act, article, paragraph, point, subpoint }.try_into()
}

macro_rules! part {
    ($f:expr, $r:expr, $open:expr, $mid:expr, $close:expr) => {
        if $r.is_range() {
            write!($f, "{}{}{}{}{}", $open, $r.first_in_range(), $mid, $r.last_in_range(), $close)?;
        } else {
            write!($f, "{}{}{}", $open, $r.first_in_range(), $close)?;
        }
    };
}

pub fn display(this: &Reference, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if let Some(act) = this.act {
        write!(f, "{}", act)?;
        if this.article.is_some() {
            write!(f, " ")?;
        }
    }
    if let Some(x) = this.article {
        part!(f, x, "", "–", ".");
        if this.paragraph.is_none() && this.point.is_none() {
            write!(f, " §-a")?;
        } else {
            write!(f, " § ")?;
        }
    }
    if let Some(x) = this.paragraph {
        part!(f, x, "(", ")–(", ")");
        if this.point.is_none() {
            write!(f, " bekezdése")?;
        } else {
            write!(f, " bekezdés ")?;
        }
    }
    if let Some(x) = this.point {
        match x {
            RefPartPoint::Numeric(x) => part!(f, x, "", "–", "."),
            RefPartPoint::Alphabetic(x) => part!(f, x, "", ")–", ")"),
        }
        if this.subpoint.is_none() {
            write!(f, " pontja")?;
        } else {
            write!(f, " pont ")?;
        }
    }
    if let Some(x) = this.subpoint {
        match x {
            RefPartSubpoint::Numeric(x) => part!(f, x, "", "–", "."),
            RefPartSubpoint::Alphabetic(x) => part!(f, x, "", ")–", ")"),
        }
        write!(f, " alpontja")?;
    }
    Ok(())
}
