//! Rendering of token sequences under different layouts.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// One space between tokens.
    Single,
    /// As little as possible.
    Tight,
    /// Usual formatting.
    Pretty,
    /// Random spaces, tabs, line ends.
    Blank,
    /// With comments.
    Wild,
}
pub const STYLES: &[Style] = &[Style::Single, Style::Tight, Style::Pretty, Style::Blank, Style::Wild];

pub fn comment(r: &mut Rng) -> String {
    let body = match r.below(14) {
        12 => (0..r.range(1, 8)).map(|_| char::from_u32(r.below(0x20) as u32).unwrap()).collect(),
        13 => (*r.pick(&["\u{2028}x", "\u{85}(", "\u{feff}", "\u{7f}\u{80}", "\u{10ffff}", "\0", "\\\\", "#t"])).to_string(),
        0 | 1 => String::new(),
        2 => ";".repeat(r.range(1, 6)),
        3 => "(and (p ?x) (:goal".to_string(),
        4 => ")))) ((".to_string(),
        5 => "äöü — 日本語 🚀 \u{a0}".to_string(),
        6 => " a comment".to_string(),
        7 => "\t \t".to_string(),
        8 => "\"unclosed 'quote \\".to_string(),
        9 => (0..r.range(1, 300)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        10 => ":action define ; ; nested - either 42 ?x".to_string(),
        _ => (0..r.range(1, 8)).map(|_| char::from_u32(r.range(0x20, 0x2fff) as u32).unwrap_or('x')).collect(),
    };
    let body: String = body.chars().filter(|c| *c != '\r' && *c != '\n').collect();
    format!(";{}", body)
}
/// Layout of a size that exceeds small counters, ending in blank space or a line end.
pub fn vast(r: &mut Rng) -> String {
    let n = *r.pick(&[300, 1000, 5000, 33_000, 66_000, 70_000]);
    match r.below(7) {
        0 => "\n".repeat(n),
        1 => "\r\n".repeat(n),
        2 => " ".repeat(n),
        3 => format!(";{}{}", "x ".repeat(n / 2), eol(r)),
        4 => format!(";{}\n\t", "äλ".repeat(n / 2)),
        5 => (0..n).map(|i| if i % 3 == 0 { ";\n" } else { "; (a)\r\n" }).collect(),
        _ => (0..n).map(|i| if i % 3 == 0 { "\t" } else { "; )\n  " }).collect(),
    }
}
fn eol(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        "\r\n"
    } else {
        "\n"
    }
}
fn blanks(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| match r.below(8) {
            0..=3 => " ",
            4 | 5 => "\n",
            6 => "\t",
            _ => "\r\n",
        })
        .collect()
}
/// Layout with comments; always ends in blank space or a line end.
pub fn wild(r: &mut Rng, n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        match r.below(3) {
            0 => {
                let k = r.range(1, 3);
                o.push_str(&blanks(r, k))
            }
            1 => {
                o.push_str(&comment(r));
                o.push_str(eol(r));
            }
            _ => {
                o.push_str(&comment(r));
                o.push_str(eol(r));
                let k = r.below(3);
                o.push_str(&blanks(r, k));
            }
        }
    }
    o
}
/// Is layout needed between these tokens?
pub fn needs_gap(l: &str, r: &str) -> bool {
    l != "(" && r != ")" && r != "("
}
/// A place with a known finding (see KNOWN_FINDINGS, P12), probed separately: the direction of a
/// metric must be followed by a blank.
pub fn restricted(tokens: &[String], i: usize) -> bool {
    i >= 2 && matches!(tokens[i - 1].as_str(), "minimize" | "maximize") && tokens[i - 2] == ":metric"
}
/// Text and byte offset of each token. `outer`: also layout before the first and after the last token.
pub fn render(tokens: &[String], style: Style, outer: bool, r: &mut Rng) -> (String, Vec<usize>) {
    let mut o = String::new();
    let mut offs = vec![];
    let mut depth = 0usize;
    if outer {
        match style {
            Style::Blank => {
                let k = r.below(3);
                o.push_str(&blanks(r, k))
            }
            Style::Wild => {
                let k = r.below(4);
                o.push_str(&wild(r, k))
            }
            _ => {}
        }
    }
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let must = restricted(tokens, i);
            let need = must || needs_gap(&tokens[i - 1], t);
            if must && style == Style::Wild {
                o.push_str(&blanks(r, 1));
            }
            match style {
                Style::Single => o.push(' '),
                Style::Tight => {
                    if need {
                        o.push(' ')
                    }
                }
                Style::Pretty => {
                    if t == "(" && tokens[i - 1] != "(" && (depth <= 2 || r.chance(1, 3)) {
                        o.push('\n');
                        for _ in 0..depth {
                            o.push_str("    ");
                        }
                    } else if need || (t == "(" && tokens[i - 1] != "(") {
                        o.push(' ');
                    }
                }
                Style::Blank => {
                    let k = if need { r.range(1, 3) } else { r.below(3) };
                    o.push_str(&blanks(r, k));
                }
                Style::Wild => {
                    if r.chance(1, 2) {
                        let k = r.range(1, 3);
                        o.push_str(&wild(r, k));
                    } else {
                        let k = if need { r.range(1, 2) } else { r.below(2) };
                        o.push_str(&blanks(r, k));
                    }
                }
            }
        }
        if t == "(" {
            depth += 1;
        }
        if t == ")" {
            depth = depth.saturating_sub(1);
        }
        offs.push(o.len());
        o.push_str(t);
    }
    if outer {
        match style {
            Style::Blank => {
                let k = r.below(3);
                o.push_str(&blanks(r, k))
            }
            Style::Wild => {
                let k = r.below(4);
                o.push_str(&wild(r, k));
                if r.chance(1, 4) {
                    // A comment that ends with the text.
                    o.push_str(&comment(r));
                }
            }
            _ => {}
        }
    }
    (o, offs)
}
