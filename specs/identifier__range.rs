#![allow(dead_code, unused)]
use super::*;

pub fn compact<T: IdentifierCommon>(this: &IdentifierRange<T>, f: &mut Formatter<'_>) -> std::fmt::Result {
    this.start.fmt_compact_string(f)?;
    if this.start != this.end {
        f.write_str("-")?;
        this.end.fmt_compact_string(f)?;
    }
    Ok(())
}

pub fn from_compact<T: IdentifierCommon>(s: impl AsRef<str>) -> Result<IdentifierRange<T>> {
    let s = s.as_ref();
    match s.split_once('-') {
        Some((left, right)) => {
            Ok(IdentifierRange { start: T::from_compact_string(left)?, end: T::from_compact_string(right)? })
        }
        None => {
            let one = T::from_compact_string(s)?;
            Ok(IdentifierRange { start: one, end: one })
        }
    }
}
