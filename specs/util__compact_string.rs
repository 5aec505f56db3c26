#![allow(dead_code, unused)]
use super::*;

pub fn option_compact<T: CompactString>(this: &Option<T>, f: &mut Formatter<'_>) -> std::fmt::Result {
    if let Some(x) = this {
        return x.fmt_compact_string(f);
    }
    Ok(())
}

pub fn option_from_compact<T: CompactString>(s: impl AsRef<str>) -> Result<Option<T>> {
    let s = s.as_ref();
    if s.is_empty() {
        return Ok(None);
    }
    match T::from_compact_string(s) {
        Ok(x) => Ok(Some(x)),
        Err(e) => Err(e),
    }
}

pub fn formatter<T: CompactString>(this: &CompactStringFormatter<'_, T>, f: &mut Formatter<'_>) -> std::fmt::Result {
    this.0.fmt_compact_string(f)
}

pub fn compact_string<T: CompactString>(this: &T) -> CompactStringFormatter<'_, T> {
    CompactStringFormatter(this)
}
