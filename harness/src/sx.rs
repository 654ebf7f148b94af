//! Tokens and trees of PDDL texts.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
pub fn a<X: Into<String>>(x: X) -> Sx {
    Sx::A(x.into())
}
pub fn l(v: Vec<Sx>) -> Sx {
    Sx::L(v)
}
/// `(head item...)`
pub fn f<X: Into<String>>(head: X, mut rest: Vec<Sx>) -> Sx {
    let mut v = vec![a(head)];
    v.append(&mut rest);
    Sx::L(v)
}
impl Sx {
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            Sx::A(x) => out.push(x),
            Sx::L(v) => {
                out.push("(");
                for x in v {
                    x.tokens(out);
                }
                out.push(")");
            }
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Sx::A(_) => 1,
            Sx::L(v) => 2 + v.iter().map(|x| x.size()).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Sx::A(_) => 0,
            Sx::L(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
        }
    }
    pub fn atom(&self) -> Option<&str> {
        match self {
            Sx::A(x) => Some(x),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[Sx]> {
        match self {
            Sx::L(v) => Some(v),
            _ => None,
        }
    }
    pub fn head(&self) -> Option<&str> {
        self.list().and_then(|v| v.first()).and_then(|h| h.atom())
    }
}
pub fn tokens_of(seq: &[Sx]) -> Vec<String> {
    let mut v = vec![];
    for x in seq {
        x.tokens(&mut v);
    }
    v.into_iter().map(|x| x.to_string()).collect()
}
/// Reads a token sequence back as trees; `None` if parentheses do not balance.
pub fn trees(tokens: &[String]) -> Option<Vec<Sx>> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    for t in tokens {
        match t.as_str() {
            "(" => stack.push(vec![]),
            ")" => {
                let v = stack.pop()?;
                stack.last_mut()?.push(Sx::L(v));
            }
            x => stack.last_mut()?.push(Sx::A(x.to_string())),
        }
    }
    if stack.len() == 1 {
        stack.pop()
    } else {
        None
    }
}
/// Splits a text into tokens, the way PDDL does: layout and comments separate, parentheses are
/// tokens. Returns the tokens with their byte offsets.
pub fn lex(text: &str) -> Vec<(usize, String)> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'(' | b')' => {
                out.push((i, (b[i] as char).to_string()));
                i += 1;
            }
            _ => {
                let s = i;
                while i < b.len() && !matches!(b[i], b' ' | b'\t' | b'\r' | b'\n' | b';' | b'(' | b')') {
                    i += 1;
                }
                out.push((s, text[s..i].to_string()));
            }
        }
    }
    out
}
pub fn is_layout(text: &str) -> bool {
    lex(text).is_empty()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    Name,
    Var,
    Num,
    Op,
    HashT,
    Key,
    /// Several tokens glued together: whether they may be is not for us to say.
    Glued,
    /// Cannot occur in any PDDL text.
    Illegal,
}
pub fn is_name(x: &str) -> bool {
    let b = x.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}
pub fn is_num(x: &str) -> bool {
    let mut p = x.splitn(2, '.');
    let d = |y: &str| !y.is_empty() && y.bytes().all(|c| c.is_ascii_digit());
    d(p.next().unwrap()) && p.next().map_or(true, d)
}
pub fn classify(x: &str) -> Tok {
    if is_name(x) {
        return Tok::Name;
    }
    if x.starts_with('?') && is_name(&x[1..]) {
        return Tok::Var;
    }
    if x.starts_with(':') && is_name(&x[1..]) {
        return Tok::Key;
    }
    if is_num(x) {
        return Tok::Num;
    }
    if matches!(x, "=" | "<" | ">" | "<=" | ">=" | "+" | "-" | "*" | "/") {
        return Tok::Op;
    }
    if x == "#t" {
        return Tok::HashT;
    }
    let legal = |c: char| c.is_ascii_alphanumeric() || "-_?#=<>+*/".contains(c);
    if matches!(x, "?" | "#") {
        return Tok::Illegal;
    }
    if x.chars().all(legal) && x.chars().any(|c| "?#=<>+-*/".contains(c)) {
        return Tok::Glued;
    }
    Tok::Illegal
}
