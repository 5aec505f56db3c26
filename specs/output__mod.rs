#![allow(dead_code, unused)]
use super::*;

pub fn cli_output<T: CliOutput>(this: T, width: usize, output_type: OutputFormat, target: &mut impl Write) -> Result<()> {
    match output_type {
        OutputFormat::Plain => this.cli_output_plain(width, false, false, target),
        OutputFormat::TestPlain => this.cli_output_plain(width, true, false, target),
        OutputFormat::Colored => this.cli_output_plain(width, false, true, target),
        OutputFormat::Json => {
            serde_json::to_writer(target, &this)?;
            Ok(())
        }
        OutputFormat::Yaml => {
            singleton_yaml::to_writer(target, &this)?;
            Ok(())
        }
    }
}

pub fn pages(this: Vec<PageOfLines>, width: usize, testing_tags: bool, color: bool, target: &mut impl Write) -> Result<()> {
    let n = this.len();
    for (i, page) in this.into_iter().enumerate() {
        write!(target, "\n------- page {:?}/{:?} -------\n\n", i + 1, n)?;
        page.cli_output_plain(width, testing_tags, color, target)?;
    }
    Ok(())
}

pub fn page(this: PageOfLines, _width: usize, testing_tags: bool, _color: bool, target: &mut impl Write) -> Result<()> {
    for line in this.lines {
        let text = quick_display_indented_line(&line, testing_tags);
        write!(target, "{}\n", text)?;
    }
    Ok(())
}

pub fn act_raw_text(this: ActRawText, _width: usize, testing_tags: bool, _color: bool, target: &mut impl Write) -> Result<()> {
    write!(target, "Act ID: {} - {}\n", this.identifier, this.subject)?;
    write!(target, "Pub date: {:?}\n", this.publication_date)?;
    write!(target, "\n")?;
    for line in this.body {
        let text = quick_display_indented_line(&line, testing_tags);
        write!(target, "{}\n", text)?;
    }
    Ok(())
}

pub fn act(this: Act, width: usize, _testing_tags: bool, color: bool, target: &mut impl Write) -> Result<()> {
    let params = TextOutputParams::new(width, color);
    this.write_as_text(target, params.indented())
}

pub fn line(l: &IndentedLine, testing_tags: bool) -> String {
    let bold = testing_tags && l.is_bold();
    let ragged = testing_tags && !l.is_justified();
    let mut s = String::new();
    let mut indent = (l.indent() * 0.2) as usize;
    if bold {
        s.push_str("<BOLD>");
        indent = indent.saturating_sub(6);
    }
    if ragged {
        s.push_str("<NJ>");
        indent = indent.saturating_sub(4);
    }
    s.push_str(&" ".repeat(indent));
    s.push_str(l.content());
    s
}
