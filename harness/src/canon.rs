//! Canonical form of parse results. Both the reference elaborator and the projection of the
//! library's values produce it, so the two can be compared structurally.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C {
    /// An identifier or keyword, with its exact spelling.
    S(String),
    /// A number, as the bits of a finite f32.
    N(u32),
    /// An integer.
    U(u64),
    /// A node.
    T(&'static str, Vec<C>),
}
pub fn s<X: Into<String>>(x: X) -> C {
    C::S(x.into())
}
pub fn t(tag: &'static str, v: Vec<C>) -> C {
    C::T(tag, v)
}
pub fn n(f: f32) -> C {
    C::N(f.to_bits())
}
impl std::fmt::Display for C {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C::S(x) => write!(f, "'{}", x),
            C::N(b) => write!(f, "{:?}", f32::from_bits(*b)),
            C::U(u) => write!(f, "#{}", u),
            C::T(t, v) => {
                write!(f, "[{}", t)?;
                for x in v {
                    write!(f, " {}", x)?;
                }
                write!(f, "]")
            }
        }
    }
}
impl C {
    pub fn hash64(&self) -> u64 {
        crate::rng::hash64(self.to_string().as_bytes())
    }
    pub fn nodes(&self) -> usize {
        match self {
            C::T(_, v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            C::T(_, v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// Tags of all nodes (for coverage accounting).
    pub fn tags(&self, out: &mut std::collections::BTreeMap<&'static str, u64>) {
        if let C::T(t, v) = self {
            *out.entry(t).or_insert(0) += 1;
            for x in v {
                x.tags(out);
            }
        }
    }
}
/// First place where two canonical forms differ, for reports.
pub fn diff(a: &C, b: &C) -> Option<String> {
    match (a, b) {
        (C::T(x, v), C::T(y, w)) if x == y && v.len() == w.len() => v
            .iter()
            .zip(w)
            .enumerate()
            .find_map(|(i, (p, q))| diff(p, q).map(|d| format!("{}.{}/{}", x, i, d))),
        _ if a == b => None,
        _ => Some(format!("expected {} got {}", short(&a.to_string()), short(&b.to_string()))),
    }
}
pub fn short(x: &str) -> String {
    let mut it = x.chars();
    let p: String = it.by_ref().take(300).collect();
    if it.next().is_some() {
        format!("{}…({} bytes)", p, x.len())
    } else {
        p
    }
}
