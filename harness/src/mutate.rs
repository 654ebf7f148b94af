//! Token-level and tree-level corruption of valid texts.
use crate::gen::*;
use crate::refel::*;
use crate::rng::Rng;
use crate::sx::*;

pub const BAD_CHARS: &[char] = &['%', '&', '$', '!', '"', '\'', '`', '@', '{', '}', '[', ']', '|', '\\', '^', '~', ',', '§', 'ä', 'é', 'λ', '→', '\u{1F600}', '\u{0}', '\u{7f}'];

/// A token that cannot occur anywhere in PDDL.
pub fn illegal_token(r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!(":{}", r.pick(&["zzz", "actions", "Types", "goals", "requirement", "initt", "x"])),
        1 => format!("{}{}", r.pick(BAD_CHARS), r.pick(&["x", "1", "", "foo", "-"])),
        _ => r.pick(BAD_CHARS).to_string(),
    }
}
/// Paths to all lists.
fn lists(seq: &[Sx], path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, x) in seq.iter().enumerate() {
        if let Sx::L(v) = x {
            path.push(i);
            out.push(path.clone());
            lists(v, path, out);
            path.pop();
        }
    }
}
fn at<'a>(seq: &'a mut Vec<Sx>, path: &[usize]) -> &'a mut Vec<Sx> {
    let mut cur = seq;
    for i in path {
        cur = match &mut cur[*i] {
            Sx::L(v) => v,
            _ => unreachable!(),
        };
    }
    cur
}
const SPICE: &[&str] = &[
    "-", "either", "and", "or", "not", "imply", "exists", "forall", "when", "preference", "at", "over", "start", "end", "all", "=", "<", ">=", "+", "*", "/",
    "1", "2.5", "?x", "?duration", "#t", ":parameters", ":effect", ":precondition", ":condition", ":duration", ":strips", ":typing", "x", "undefined",
    "increase", "assign", "always", "sometime", "within", "at-most-once", "sometime-after", "hold-during", "hold-after", "always-within", "total-time", "is-violated", "minimize",
    ":serial", ":parallel", ":domain", "domain", "problem", "define", ":init", ":goal", "object", "number", ":types", ":predicates",
];
/// Texts that are almost numbers.
fn misspell_number(r: &mut Rng, x: &str) -> String {
    let (a, b) = (r.below(100), r.below(100));
    match r.below(16) {
        0 => format!("{}.", x),
        1 => format!(".{}", b),
        2 => format!("{}.{}.{}", a, b, r.below(10)),
        3 => format!("{}..{}", a, b),
        4 => format!("-{}", x),
        5 => format!("+{}", x),
        6 => format!("{}e{}", x, r.below(20)),
        7 => format!("{}e-{}", x, r.below(20)),
        8 => format!("{}x", x),
        9 => format!("0x{}", a),
        10 => format!("{},{}", a, b),
        11 => format!("{}_{}", a, b),
        12 => (*r.pick(&["inf", "nan", "infinity", "NaN", "-inf"])).to_string(),
        13 => format!("{}.e{}", a, b),
        14 => format!("{}. {}", a, b),
        _ => format!("{} .{}", a, b),
    }
}
fn misspell(r: &mut Rng, x: &str) -> String {
    if x.starts_with(|c: char| c.is_ascii_digit()) && r.chance(3, 4) {
        return misspell_number(r, x);
    }
    let mut c: Vec<char> = x.chars().collect();
    match r.below(6) {
        0 => {
            let i = r.below(c.len());
            c.remove(i);
        }
        1 => {
            let i = r.below(c.len() + 1);
            c.insert(i, *r.pick(&['x', 'e', 's', '-', '_', '1', ':', '?']));
        }
        2 if c.len() > 1 => {
            let i = r.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        3 => {
            let i = r.below(c.len());
            c[i] = c[i].to_ascii_uppercase();
        }
        4 => {
            let i = r.below(c.len());
            c[i] = *r.pick(BAD_CHARS);
        }
        _ => c.push(*r.pick(&['s', 'd', '-', '1', '_', '.'])),
    }
    let s: String = c.into_iter().filter(|c| !matches!(c, '(' | ')' | ';')).collect();
    if s.is_empty() {
        "x".into()
    } else {
        s
    }
}
/// One random corruption. Returns tokens and the kind of corruption.
pub fn corrupt(seq: &[Sx], r: &mut Rng, d: &Dict) -> (Vec<String>, &'static str) {
    let toks = tokens_of(seq);
    if r.chance(1, 2) && !toks.is_empty() {
        // On tokens.
        let mut t = toks;
        let i = r.below(t.len());
        let kind = match r.below(10) {
            8 if t[i].len() > 1 && t[i].is_ascii() => {
                // Two tokens where one was.
                let k = if r.chance(1, 2) { 1 } else { r.range(1, t[i].len() - 1) };
                let rest = t[i].split_off(k);
                t.insert(i + 1, rest);
                "token-split"
            }
            0 | 1 => {
                t.remove(i);
                "token-deleted"
            }
            2 => {
                let p = r.pick(&["(", ")", ")", "("]).to_string();
                t.insert(i + r.below(2), p);
                "parenthesis-inserted"
            }
            3 => {
                let p = r.pick(SPICE).to_string();
                t.insert(i + r.below(2), p);
                "word-inserted"
            }
            4 => {
                let x = t[i].clone();
                t.insert(i, x);
                "token-repeated"
            }
            5 => {
                let j = (i + 1).min(t.len() - 1);
                t.swap(i, j);
                "tokens-swapped"
            }
            6 => {
                if t[i] == "(" || t[i] == ")" {
                    t[i] = if t[i] == "(" { ")" } else { "(" }.into();
                } else {
                    t[i] = misspell(r, &t[i].clone());
                }
                "misspelled"
            }
            7 => {
                t.insert(i + r.below(2), illegal_token(r));
                "illegal-inserted"
            }
            _ => {
                t.truncate(i);
                "truncated"
            }
        };
        return (t, kind);
    }
    // On the tree.
    let mut s = seq.to_vec();
    let mut ps = vec![];
    lists(&s, &mut vec![], &mut ps);
    let path = if ps.is_empty() || r.chance(1, 20) {
        vec![]
    } else if r.chance(1, 3) {
        // Near the top: sections.
        let short: Vec<_> = ps.iter().filter(|p| p.len() <= 2).cloned().collect();
        r.pick(&short).clone()
    } else {
        r.pick(&ps).clone()
    };
    let other = {
        let nt = *r.pick(ALL_NT);
        let mut k = Knobs::small();
        k.depth = r.below(3);
        let mut g = Gen::new(r.fork(), k, d);
        g.gen(nt)
    };
    let v = at(&mut s, &path);
    let n = v.len();
    let i = r.below(n.max(1));
    // Where something is inserted: anywhere, but often at the end.
    let j = if r.chance(2, 5) { n } else { r.below(n + 1) };
    let kind = match r.below(14) {
        0 | 1 if n > 0 => {
            v.remove(i);
            "element-deleted"
        }
        2 | 3 if n > 0 => {
            let x = v[i].clone();
            v.insert(j, x);
            "element-repeated"
        }
        4 if n > 1 => {
            let j = r.below(n);
            v.swap(i, j);
            "elements-swapped"
        }
        5 if n > 0 => {
            let x = v.remove(i);
            v.insert(i, Sx::L(vec![x]));
            "wrapped"
        }
        6 if n > 0 => {
            if let Sx::L(w) = v[i].clone() {
                v.splice(i..i + 1, w);
            }
            "unwrapped"
        }
        7 if n > 0 => {
            v[i] = a(*r.pick(SPICE));
            "replaced-by-word"
        }
        8 if n > 0 => {
            v.splice(i..i + 1, other);
            "replaced-by-other"
        }
        9 => {
            v.splice(j..j, other);
            "other-inserted"
        }
        10 if n > 0 => {
            // Another head.
            let h = if r.chance(1, 2) { r.pick(SPICE).to_string() } else { r.pick(KEYWORDS).to_string() };
            v[0] = a(h);
            "head-replaced"
        }
        11 | 12 => {
            // A small operand.
            let x = match r.below(8) {
                0 => a("x"),
                1 => a("?x"),
                2 => a("1"),
                3 => l(vec![a("x")]),
                4 => l(vec![a("and")]),
                5 => l(vec![a("x"), a("?x")]),
                6 => l(vec![a("not"), l(vec![a("x")])]),
                _ => l(vec![a("="), a("?x"), a("?y")]),
            };
            v.insert(j, x);
            "operand-inserted"
        }
        _ => {
            v.insert(j, l(vec![]));
            "empty-inserted"
        }
    };
    (tokens_of(&s), kind)
}
/// Corruption of the characters of a text.
pub fn corrupt_text(text: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 4) {
        if c.is_empty() {
            break;
        }
        let i = r.below(c.len());
        match r.below(8) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, any_char(r)),
            2 => c[i] = any_char(r),
            3 => c.truncate(i),
            4 => {
                let j = (i + r.range(1, 40)).min(c.len());
                c.drain(i..j);
            }
            5 => {
                let j = (i + r.range(1, 40)).min(c.len());
                let piece: Vec<char> = c[i..j].to_vec();
                let k = r.below(c.len() + 1);
                c.splice(k..k, piece);
            }
            6 => {
                let k = r.range(1, 30);
                let x = c[i];
                c.splice(i..i, std::iter::repeat(x).take(k));
            }
            _ => {
                c.remove(0);
            }
        }
    }
    c.into_iter().collect()
}
pub fn any_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=3 => *r.pick(&['(', ')', ' ', '\n', '\r', '\t', ';', '-', '?', ':', '=', '<', '>', '.', '+', '*', '/', '#', '_', '0', '9', 'a', 'Z']),
        4 | 5 => (r.range(0, 127) as u8) as char,
        6 => *r.pick(BAD_CHARS),
        7 => *r.pick(&['\u{a0}', '\u{feff}', '\u{200d}', '\u{2028}', '\u{301}', '\u{10ffff}', '\u{ffff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{c}', '\u{b}', '\u{85}', '\u{3000}']),
        _ => char::from_u32((r.next() % 0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}
