#![allow(dead_code, unused)]
use super::*;

pub fn load_from(act_id: ActIdentifier, base_dir: PathBuf) -> Result<Fixups> {
    let dir = base_dir.join(act_id.year.to_string());
    let fixup_path = dir.join(format!("{}.yml", act_id));
    if !fixup_path.exists() {
        return Ok(Fixups { fixups: Vec::new(), fixup_path });
    }
    let file = File::open(&fixup_path)?;
    let fixups: Vec<Fixup> = singleton_yaml::from_reader(file)?;
    Ok(Fixups { fixups, fixup_path })
}

pub fn load(act_id: ActIdentifier) -> Result<Fixups> {
    Fixups::load_from(act_id, PathBuf::from("./data/fixups/"))
}

pub fn add(this: &mut Fixups, f: Fixup) {
    this.fixups.push(f);
}

pub fn save(this: &Fixups) -> Result<()> {
    let dir = match this.fixup_path.parent() {
        Some(dir) => dir,
        None => return Err(anyhow!("no directory")),
    };
    create_dir_all(dir)?;
    let mut file = File::create(&this.fixup_path)?;
    singleton_yaml::to_writer(&mut file, &this.fixups)?;
    Ok(())
}

pub fn apply_all(this: &Fixups, lines: &mut [IndentedLine]) -> Result<()> {
    for fixup in this.fixups.iter() {
        fixup.apply(lines)?;
    }
    Ok(())
}

pub fn into_vec(f: Fixups) -> Vec<Fixup> {
    f.fixups
}

pub fn apply(this: &Fixup, lines: &mut [IndentedLine]) -> Result<()> {
    let mut needle = this.after.clone();
    needle.push(this.old.clone());
    let texts: Vec<&str> = lines.iter().map(|l| l.content()).collect();
    let first = match texts.windows(needle.len()).position(|w| w == needle) {
        Some(first) => first,
        None => return Err(anyhow!("not found")),
    };
    let count = texts.windows(needle.len()).filter(|w| *w == needle).count();
    if count != 1 {
        return Err(anyhow!("found more than once"));
    }
    let at = first + this.after.len();
    match this.apply_to_line(&lines[at]) {
        Ok(line) => {
            lines[at] = line;
            Ok(())
        }
        Err(e) => Err(e),
    }
}

pub fn apply_to_line(this: &Fixup, line: &IndentedLine) -> Result<IndentedLine> {
    if line.content() != this.old {
        return Err(anyhow!("another line"));
    }
    if this.old == this.new && !this.set_bold {
        return Err(anyhow!("useless"));
    }
    if this.new.is_empty() {
        return Ok(EMPTY_LINE);
    }
    // the longest common beginning, and the longest common end of what remains after it
    let prefix = this.old.chars().zip(this.new.chars()).take_while(|(o, n)| o == n).count() as i64;
    let old_rest: String = this.old.chars().skip(prefix as usize).collect();
    let new_rest: String = this.new.chars().skip(prefix as usize).collect();
    let postfix = old_rest.chars().rev().zip(new_rest.chars().rev()).take_while(|(o, n)| o == n).count() as i64;
    let old_len = this.old.chars().count() as i64;

    let start = if prefix >= old_len {
        line.indent_at(prefix) + 5.0
    } else if prefix > 0 && postfix > 0 && prefix + postfix >= old_len {
        (line.indent_at(prefix - 1) + line.indent_at(prefix)) * 0.5
    } else if prefix > 0 {
        line.indent_at(prefix)
    } else if postfix > 0 {
        line.indent_at(-postfix) - 10.0
    } else {
        line.indent()
    };
    let end = if postfix > 0 {
        line.indent_at(-postfix)
    } else if prefix > 0 {
        line.indent_at(10000) + 10.0
    } else if line.is_empty() {
        10.0
    } else {
        line.indent_at(10000)
    };

    let len = (this.new.chars().count() as i64 - prefix - postfix) as usize;
    let text: String = this.new.chars().skip(prefix as usize).take(len).collect();
    let step = (end - start) / (len as f64);
    let parts = text.chars().enumerate().map(|(i, content)| IndentedLinePart {
        dx: if i == 0 { start } else { step },
        content,
        bold: line.is_bold(),
    }).collect();
    let middle = IndentedLine::from_parts(parts, false);
    let before = line.slice(0, Some(prefix));
    let after = if postfix == 0 { EMPTY_LINE } else { line.slice(-postfix, None) };
    let result = IndentedLine::from_multiple(&[&before, &middle, &after]);
    if this.set_bold {
        return Ok(result.as_bold());
    }
    Ok(result)
}
