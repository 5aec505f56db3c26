use super::*;

/// Opening quotes raise the level and closing ones lower it; a level below zero is an error.
pub fn update(this: &mut QuoteCheck, line: &IndentedLine) -> Result<()> {
    let before = this.quote_level;
    let opening = line.content().chars().filter(|c| *c == '„' || *c == '“').count() as i64;
    let closing = line.content().chars().filter(|c| *c == '”').count() as i64;
    let after = before + opening - closing;
    this.quote_level = after;
    this.beginning_is_quoted = before > 0;
    this.end_is_quoted = after > 0;
    if after < 0 {
        return Err(anyhow::anyhow!("malformed"));
    }
    Ok(())
}

pub fn check_end(this: QuoteCheck) -> Result<()> {
    if this.quote_level != 0 {
        return Err(anyhow::anyhow!("unclosed"));
    }
    Ok(())
}
