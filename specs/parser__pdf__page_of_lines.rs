use super::*;

/// Lines from top to bottom; characters of nearly the same height are on one line; a large gap is an empty line.
pub fn page(value: CharCollector) -> Result<PageOfLines, anyhow::Error> {
    let estimated_right_margin = value
        .chars
        .iter()
        .fold(0.0_f32, |acc, c| acc.max(c.x + c.width));
    let mut result = Vec::<IndentedLine>::new();
    let mut chars = value.chars;
    chars.sort_unstable_by(|c1, c2| {
        if c2.y < c1.y {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Greater
        }
    });
    let mut current_line = Vec::<PositionedChar>::new();
    for current_char in chars {
        let y_diff = if current_line.is_empty() {
            0.0
        } else {
            (current_line[0].y - current_char.y).abs()
        };
        if y_diff < 0.5 {
            current_line.push(current_char);
        } else {
            result.push(consolidate_line(current_line, estimated_right_margin));
            if y_diff > 16.0 {
                result.push(EMPTY_LINE);
            }
            current_line = vec![current_char];
        }
    }
    result.push(consolidate_line(current_line, estimated_right_margin));
    Ok(PageOfLines { lines: result })
}

/// The characters from left to right, with a space where the gap is wide enough or a quotation starts, and none at the ends.
pub fn one_line(mut chars: Vec<PositionedChar>, estimated_right_margin: f32) -> IndentedLine {
    chars.sort_unstable_by(|c1, c2| {
        if c1.x < c2.x {
            std::cmp::Ordering::Less
        } else {
            std::cmp::Ordering::Greater
        }
    });
    let last_char = match chars.last() {
        Some(x) => x,
        None => return EMPTY_LINE,
    };
    let justified = last_char.x + last_char.width + last_char.width_of_space * 0.8 >= estimated_right_margin;
    let mut result = Vec::<IndentedLinePart>::new();
    let mut threshold_to_space = None;
    let mut prev_x = 0.0;
    for current_char in &chars {
        if let Some(threshold_to_space) = threshold_to_space {
            if current_char.x > threshold_to_space || current_char.content == '„' {
                result.push(IndentedLinePart {
                    dx: (threshold_to_space - prev_x) as f64,
                    content: ' ',
                    bold: current_char.bold,
                });
                prev_x = threshold_to_space;
            }
        }
        result.push(IndentedLinePart {
            dx: (current_char.x - prev_x) as f64,
            content: current_char.content,
            bold: current_char.bold,
        });
        prev_x = current_char.x;
        threshold_to_space = Some(
            current_char.x + current_char.width + current_char.width_of_space * 0.5,
        );
    }
    while let Some(IndentedLinePart { content: ' ', .. }) = result.get(0) {
        result.remove(0);
    }
    while let Some(IndentedLinePart { content: ' ', .. }) = result.last() {
        result.pop();
    }
    IndentedLine::from_parts(result, justified)
}
