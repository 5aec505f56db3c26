#![allow(dead_code, unused)]
use super::*;
use anyhow::Result;

pub fn point_compact(this: &RefPartPoint, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this {
        RefPartPoint::Numeric(x) => x.fmt_compact_string(f),
        RefPartPoint::Alphabetic(x) => x.fmt_compact_string(f),
    }
}

pub fn point_from_compact(s: impl AsRef<str>) -> Result<RefPartPoint> {
    let s = s.as_ref();
    match IdentifierRange::<NumericIdentifier>::from_compact_string(s) {
        Ok(x) => Ok(RefPartPoint::Numeric(x)),
        Err(_) => Ok(RefPartPoint::Alphabetic(IdentifierRange::<AlphabeticIdentifier>::from_compact_string(s)?)),
    }
}

pub fn subpoint_compact(this: &RefPartSubpoint, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match this {
        RefPartSubpoint::Numeric(x) => x.fmt_compact_string(f),
        RefPartSubpoint::Alphabetic(x) => x.fmt_compact_string(f),
    }
}

pub fn subpoint_from_compact(s: impl AsRef<str>) -> Result<RefPartSubpoint> {
    let s = s.as_ref();
    match IdentifierRange::<NumericIdentifier>::from_compact_string(s) {
        Ok(x) => Ok(RefPartSubpoint::Numeric(x)),
        Err(_) => Ok(RefPartSubpoint::Alphabetic(IdentifierRange::<PrefixedAlphabeticIdentifier>::from_compact_string(s)?)),
    }
}
