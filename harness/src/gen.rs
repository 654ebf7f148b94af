//! Grammar-directed generation of valid PDDL, with per-case random knobs ("swarm").
use crate::refel::*;
use crate::rng::Rng;
use crate::sx::*;
use std::collections::BTreeSet;

/// Words and integers taken from the sources under test: a generation aid, so that inputs that the
/// code treats specially are tried. No verdict depends on it.
pub struct Dict {
    pub names: Vec<String>,
    pub ints: Vec<u64>,
    pub words: Vec<String>,
}
impl Dict {
    pub fn harvest() -> Dict {
        let mut names = BTreeSet::new();
        let mut words = BTreeSet::new();
        let mut ints = BTreeSet::new();
        fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        walk(&p, out)
                    } else if p.extension().map_or(false, |x| x == "rs") {
                        out.push(p)
                    }
                }
            }
        }
        let mut files = vec![];
        walk(std::path::Path::new(&repo_src()), &mut files);
        files.sort();
        for p in files {
            let text = std::fs::read_to_string(&p).unwrap_or_default();
            // Tests and documentation contain many irrelevant words.
            let code = text.split("#[cfg(test)]\nmod tests").next().unwrap_or("");
            for line in code.lines() {
                let tl = line.trim_start();
                if tl.starts_with("//") {
                    continue;
                }
                let mut inside = false;
                let mut cur = String::new();
                for c in line.chars() {
                    if c == '"' {
                        if inside {
                            let w = std::mem::take(&mut cur);
                            if w.len() <= 40 && !w.is_empty() {
                                words.insert(w.clone());
                                for piece in w.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')) {
                                    if is_name(piece) {
                                        names.insert(piece.to_string());
                                    }
                                }
                            }
                        }
                        inside = !inside;
                    } else if inside {
                        cur.push(c);
                    }
                }
                // Integers, also with underscores, hexadecimal and suffixes.
                let b: Vec<char> = line.chars().collect();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                        let st = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                            i += 1;
                        }
                        let w: String = b[st..i].iter().filter(|c| **c != '_').collect();
                        let v = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h.trim_end_matches(|c| c == 'u' || c == 'i'), 16).ok()
                        } else {
                            w.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())
                        };
                        if let Some(v) = v {
                            ints.insert(v);
                        }
                    } else {
                        i += 1;
                    }
                }
            }
        }
        Dict { names: names.into_iter().collect(), ints: ints.into_iter().collect(), words: words.into_iter().collect() }
    }
}
pub fn repo_src() -> String {
    std::env::var("PDDLMON_SRC").unwrap_or_else(|_| "/repo/src".to_string())
}
pub const KEYWORDS: &[&str] = &[
    "define", "domain", "problem", "object", "number", "either", "and", "or", "not", "imply", "exists", "forall",
    "when", "preference", "at", "over", "start", "end", "all", "always", "sometime", "within", "at-most-once",
    "sometime-after", "sometime-before", "always-within", "hold-during", "hold-after", "assign", "change", "scale-up",
    "scale-down", "increase", "decrease", "undefined", "duration", "total-time", "is-violated", "minimize", "maximize",
    "strips", "typing", "types", "constants", "predicates", "functions", "constraints", "action", "derived", "init",
    "goal", "metric", "length", "serial", "parallel", "requirements", "objects", "parameters", "precondition", "effect",
    "condition", "durative-action", "t", "extends", "timeless", "inf", "nan", "infinity", "e", "E", "e5", "x", "b",
];

#[derive(Clone)]
pub struct Knobs {
    pub depth: usize,
    pub list: usize,
    /// Chance (in 16) of each name style: keyword-like, long, dictionary, random.
    pub kw: usize,
    pub long: usize,
    pub dict: usize,
    pub rand: usize,
    pub longest: usize,
    /// Number style: 0 plain .. 3 hostile.
    pub num: usize,
    pub fuel: usize,
    /// Let spines grow to full depth.
    pub spine: bool,
    /// Empty lists with chance (in 16).
    pub empty: usize,
    pub typed: usize,
}
impl Knobs {
    pub fn swarm(r: &mut Rng) -> Knobs {
        let depth = match r.below(20) {
            0..=3 => 1,
            4..=8 => 2,
            9..=12 => 3,
            13..=15 => 4,
            16..=17 => 6,
            18 => 10,
            _ => r.range(12, 40),
        };
        let list = match r.below(20) {
            0..=2 => 1,
            3..=7 => 2,
            8..=12 => 3,
            13..=15 => 5,
            16..=17 => 9,
            18 => 20,
            _ => r.range(30, 70),
        };
        Knobs {
            depth,
            list,
            kw: *r.pick(&[0, 0, 2, 6, 12]),
            long: *r.pick(&[0, 0, 0, 1, 3]),
            dict: *r.pick(&[0, 1, 1, 4]),
            rand: *r.pick(&[0, 1, 4]),
            longest: *r.pick(&[20, 70, 140, 300, 700]),
            num: r.below(4),
            fuel: *r.pick(&[40, 80, 150, 300]),
            spine: r.chance(1, 2),
            empty: *r.pick(&[0, 1, 3]),
            typed: *r.pick(&[0, 4, 8, 12]),
        }
    }
    pub fn small() -> Knobs {
        Knobs { depth: 2, list: 3, kw: 0, long: 0, dict: 0, rand: 0, longest: 20, num: 0, fuel: 60, spine: false, empty: 1, typed: 5 }
    }
}
pub struct Gen<'a> {
    pub r: Rng,
    pub k: Knobs,
    pub d: &'a Dict,
    fuel: isize,
    pool: Vec<String>,
}
const PLAIN: &[&str] = &[
    "a", "b", "c", "p", "q", "f", "g", "loc", "loc1", "truck-1", "B", "P", "x_y", "on", "in", "has-key", "fuel-level",
    "Move", "r2D2", "u", "v", "w", "zz", "A", "total", "cost", "at-x", "n1", "n2",
];
impl<'a> Gen<'a> {
    pub fn new(mut r: Rng, k: Knobs, d: &'a Dict) -> Self {
        let fuel = k.fuel as isize;
        let g = r.fork();
        let mut x = Gen { r, k, d, fuel, pool: vec![] };
        let mut g2 = g;
        let n = g2.range(1, 12);
        for _ in 0..n {
            let nm = x.fresh_name();
            x.pool.push(nm);
        }
        x
    }
    pub fn fresh_name(&mut self) -> String {
        let k = self.k.clone();
        let r = &mut self.r;
        let z = r.below(16);
        if z < k.kw {
            let w = *r.pick(KEYWORDS);
            return match r.below(9) {
                0..=2 => w.to_string(),
                3 => format!("{}{}", w, r.pick(&["s", "-1", "_", "-", "X", "0", "-x", "ed"])),
                4 => format!("{}{}", r.pick(&["x", "a-", "A", "re", "z_", "n1-"]), w),
                5 => w[..r.range(1, w.len())].trim_matches('-').to_string(),
                6 => {
                    let mut c: Vec<char> = w.chars().collect();
                    let i = r.below(c.len());
                    c[i] = c[i].to_ascii_uppercase();
                    c.into_iter().collect()
                }
                7 => w.to_ascii_uppercase(),
                _ => format!("{}-{}", w, r.pick(KEYWORDS)),
            };
        }
        if z < k.kw + k.dict && !self.d.names.is_empty() {
            return r.pick(&self.d.names).clone();
        }
        let len = if r.chance(k.long, 16) {
            let mut n = r.range(17, k.longest);
            if r.chance(1, 2) && !self.d.ints.is_empty() {
                let i = *r.pick(&self.d.ints) as usize;
                if i > 1 && i <= 3000 {
                    n = i + r.below(3) - 1;
                }
            } else if r.chance(1, 3) {
                n = *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
            }
            n
        } else if r.chance(k.rand, 16) {
            r.range(1, 12)
        } else {
            return r.pick(PLAIN).to_string();
        };
        let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
        let rest = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_-_";
        let mut o = String::new();
        o.push(*r.pick(first) as char);
        while o.len() < len {
            o.push(*r.pick(rest) as char);
        }
        o
    }
    pub fn nm(&mut self) -> String {
        if self.r.chance(2, 3) {
            self.r.pick(&self.pool).clone()
        } else if self.r.chance(1, 6) {
            // A near miss of a known name.
            let p = self.r.pick(&self.pool).clone();
            match self.r.below(6) {
                0 => format!("{}1", p),
                1 => format!("{}-", p),
                2 => p[..p.len() - (p.len() > 1) as usize].to_string(),
                3 => p.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                4 => format!("{}{}", p, p),
                _ => p.replace('-', "_"),
            }
        } else {
            self.fresh_name()
        }
    }
    fn sym(&mut self) -> Sx {
        for _ in 0..50 {
            let x = self.nm();
            if !RESERVED.contains(&x.to_ascii_lowercase().as_str()) {
                return a(x);
            }
        }
        a("p")
    }
    fn fsym(&mut self) -> Sx {
        for _ in 0..50 {
            let x = self.nm();
            let y = x.to_ascii_lowercase();
            if !RESERVED.contains(&y.as_str()) {
                return a(x);
            }
        }
        a("f")
    }
    pub fn name(&mut self) -> Sx {
        a(self.nm())
    }
    pub fn var(&mut self) -> Sx {
        let x = self.nm();
        a(format!("?{}", x))
    }
    pub fn int_text(&mut self) -> String {
        let r = &mut self.r;
        match r.below(8) {
            0 => "0".into(),
            1 => r.below(10).to_string(),
            2 => r.below(1000).to_string(),
            3 if !self.d.ints.is_empty() => {
                let i = *r.pick(&self.d.ints);
                i.wrapping_add(r.below(3) as u64).wrapping_sub(1).min(1 << 62).to_string()
            }
            4 => format!("{}{}", "0".repeat(r.range(1, 5)), r.below(100000)),
            5 => ((1u64 << r.range(1, 62)).wrapping_add(r.below(3) as u64) - 1).to_string(),
            6 => r.pick(&["18446744073709551615", "18446744073709551614", "9223372036854775808", "4294967296", "4294967295", "65536", "16777217"]).to_string(),
            _ => (r.next() >> r.below(64)).to_string(),
        }
    }
    pub fn num_text(&mut self) -> String {
        let style = self.k.num;
        let r = &mut self.r;
        match style {
            0 => r.pick(&["0", "1", "2", "3", "5", "10", "100", "0.5", "1.5", "42"]).to_string(),
            1 => {
                let i = r.below(100000);
                if r.chance(1, 2) {
                    i.to_string()
                } else {
                    format!("{}.{}", i, r.below(10000))
                }
            }
            2 => {
                if r.chance(1, 3) && !self.d.ints.is_empty() {
                    let i = *r.pick(&self.d.ints);
                    return format!("{}", i.wrapping_add(r.below(3) as u64).wrapping_sub(1).min(1 << 62));
                }
                if r.chance(1, 2) {
                    format!("{}{}", "0".repeat(r.below(4)), r.next() >> r.range(1, 60))
                } else {
                    let f = r.range(1, 20);
                    let mut t = format!("{}{}.", "0".repeat(r.below(3)), r.next() >> r.range(10, 63));
                    for _ in 0..f {
                        t.push((b'0' + r.below(10) as u8) as char);
                    }
                    t
                }
            }
            _ => hostile_number(r),
        }
    }
    pub fn num(&mut self) -> Sx {
        a(self.num_text())
    }
    /// Length of a list with at least `min` elements.
    fn len(&mut self, min: usize) -> usize {
        if self.fuel <= 0 {
            return min.max(if self.r.chance(1, 3) { 1 } else { 0 });
        }
        if min == 0 && self.r.chance(self.k.empty, 16) {
            return 0;
        }
        let hi = self.k.list.max(min).max(1);
        // Usually short, sometimes all the way.
        let n = if self.r.chance(1, 3) { hi } else { self.r.range(min.max(1), hi) };
        self.fuel -= n as isize;
        n
    }
    fn many<F: FnMut(&mut Self, usize) -> Sx>(&mut self, min: usize, d: usize, mut f: F) -> Vec<Sx> {
        let n = self.len(min);
        let heavy = if n > 0 { self.r.below(n) } else { 0 };
        (0..n)
            .map(|i| {
                let dd = if d == 0 {
                    0
                } else if i == heavy {
                    d - 1
                } else if self.k.spine || self.fuel <= 0 {
                    self.r.below(2).min(d - 1)
                } else {
                    self.r.below(d)
                };
                f(self, dd)
            })
            .collect()
    }
    fn leafy(&mut self, d: usize) -> bool {
        d == 0 || (self.fuel <= 0 && !self.k.spine) || (!self.k.spine && self.r.chance(1, 8))
    }
    // ---- terms, atoms, arithmetic
    pub fn term(&mut self, d: usize) -> Sx {
        self.fuel -= 1;
        match self.r.below(8) {
            0..=2 => self.name(),
            3..=5 => self.var(),
            _ if d == 0 => self.name(),
            _ => self.fterm(d),
        }
    }
    pub fn fterm(&mut self, d: usize) -> Sx {
        let h = self.fsym();
        let mut v = vec![h];
        if d > 0 {
            v.extend(self.many(0, d.min(3), |g, e| g.term(e)));
        }
        l(v)
    }
    fn args(&mut self) -> Vec<Sx> {
        let d = if self.r.chance(1, 4) { 2 } else { 0 };
        let n = match self.r.below(8) {
            0 => 0,
            1..=3 => 1,
            4..=5 => 2,
            6 => 3,
            _ => self.r.range(0, self.k.list),
        };
        (0..n).map(|_| self.term(d)).collect()
    }
    pub fn atom(&mut self) -> Sx {
        self.fuel -= 2;
        if self.r.chance(1, 6) {
            let (x, y) = (self.term(1), self.term(1));
            return f("=", vec![x, y]);
        }
        let mut v = vec![self.sym()];
        v.extend(self.args());
        l(v)
    }
    pub fn natom(&mut self) -> Sx {
        self.fuel -= 2;
        if self.r.chance(1, 10) {
            let (x, y) = (self.name(), self.name());
            return f("=", vec![x, y]);
        }
        let n = if self.r.chance(1, 10) { self.r.range(0, self.k.list) } else { self.r.range(0, 3) };
        let mut v = vec![self.sym()];
        for _ in 0..n {
            v.push(self.name());
        }
        l(v)
    }
    fn lit(&mut self) -> Sx {
        let x = self.natom();
        if self.r.chance(1, 3) {
            f("not", vec![x])
        } else {
            x
        }
    }
    fn tlit(&mut self) -> Sx {
        let x = self.atom();
        if self.r.chance(1, 3) {
            f("not", vec![x])
        } else {
            x
        }
    }
    pub fn fhead(&mut self) -> Sx {
        if self.r.chance(1, 3) {
            self.fsym()
        } else {
            let d = self.r.below(3);
            let mut v = vec![self.fsym()];
            if self.r.chance(5, 6) {
                for _ in 0..self.r.range(0, 3) {
                    let t = self.term(d);
                    v.push(t);
                }
            }
            l(v)
        }
    }
    fn bft(&mut self) -> Sx {
        if self.r.chance(1, 4) {
            return self.fsym();
        }
        let n = if self.r.chance(1, 10) { self.r.range(0, self.k.list) } else { self.r.range(0, 3) };
        let mut v = vec![self.fsym()];
        for _ in 0..n {
            v.push(self.name());
        }
        l(v)
    }
    fn arith(&mut self, d: usize, leaf: fn(&mut Self) -> Sx) -> Sx {
        self.fuel -= 1;
        if self.leafy(d) {
            return leaf(self);
        }
        let op = *self.r.pick(&["+", "*", "-", "/", "-", "+", "*"]);
        let n = match op {
            "-" => self.r.range(1, 2),
            "/" => 2,
            _ => {
                if self.r.chance(1, 2) {
                    2
                } else {
                    self.len(3).max(3)
                }
            }
        };
        let heavy = self.r.below(n);
        let mut v = vec![];
        for i in 0..n {
            let e = if i == heavy { d - 1 } else { self.r.below(d).min(if self.k.spine { 1 } else { 3 }) };
            v.push(self.arith(e, leaf));
        }
        f(op, v)
    }
    pub fn fexp(&mut self, d: usize) -> Sx {
        self.arith(d, |g| if g.r.chance(1, 2) { g.num() } else { g.fhead() })
    }
    pub fn fexp_da(&mut self, d: usize) -> Sx {
        self.arith(d, |g| match g.r.below(3) {
            0 => g.num(),
            1 => a("?duration"),
            _ => g.fhead(),
        })
    }
    fn fexp_t(&mut self, d: usize) -> Sx {
        if self.r.chance(1, 3) {
            return a("#t");
        }
        let e = self.fexp(d);
        if self.r.chance(1, 2) {
            f("*", vec![a("#t"), e])
        } else {
            f("*", vec![e, a("#t")])
        }
    }
    pub fn metric_exp(&mut self, d: usize) -> Sx {
        self.arith(d, |g| match g.r.below(6) {
            0 | 1 => g.num(),
            2 => a("total-time"),
            3 => {
                let n = g.name();
                f("is-violated", vec![n])
            }
            4 => g.fsym(),
            _ => loop {
                let x = g.bft();
                if x.head() != Some("is-violated") {
                    break x;
                }
            },
        })
    }
    pub fn fcomp(&mut self, d: usize) -> Sx {
        let op = *self.r.pick(&["=", "<", ">", "<=", ">="]);
        let (x, y) = (self.fexp(d), self.fexp(d.min(2)));
        let mut v = vec![x, y];
        self.r.shuffle(&mut v);
        f(op, v)
    }
    // ---- typed lists
    fn ty(&mut self) -> Sx {
        if self.r.chance(1, 5) {
            let mut v = vec![a("either")];
            let n = if self.r.chance(1, 4) { self.len(1) } else { self.r.range(1, 3) };
            for _ in 0..n {
                v.push(self.name());
            }
            return l(v);
        }
        loop {
            let n = self.name();
            if n != a("either") {
                return n;
            }
        }
    }
    fn typed<F: FnMut(&mut Self) -> Sx>(&mut self, n: usize, mut el: F) -> Vec<Sx> {
        let mut v = vec![];
        for i in 0..n {
            v.push(el(self));
            let last = i + 1 == n;
            if self.r.chance(if last { self.k.typed.max(1) } else { self.k.typed / 2 }, 16) {
                v.push(a("-"));
                v.push(self.ty());
            }
        }
        v
    }
    pub fn vars(&mut self) -> Sx {
        let n = if self.r.chance(1, 4) { self.len(0) } else { self.r.range(0, 2) };
        l(self.typed(n, |g| g.var()))
    }
    fn skel(&mut self) -> Sx {
        let mut v = vec![self.sym()];
        v.append(&mut self.vars().list().unwrap().to_vec());
        l(v)
    }
    // ---- goals
    pub fn gd(&mut self, d: usize) -> Sx {
        self.fuel -= 1;
        if self.leafy(d) {
            return match self.r.below(8) {
                0..=4 => self.atom(),
                5 => {
                    let x = self.atom();
                    f("not", vec![x])
                }
                6 => self.fcomp(1),
                _ => self.fcomp(0),
            };
        }
        match self.r.below(9) {
            0 | 1 => f("and", self.many(0, d, |g, e| g.gd(e))),
            2 => f("or", self.many(0, d, |g, e| g.gd(e))),
            3 => {
                let x = self.gd(d - 1);
                f("not", vec![x])
            }
            4 => {
                let e = self.r.below(d).min(2);
                let (x, y) = (self.gd(d - 1), self.gd(e));
                let mut v = vec![x, y];
                self.r.shuffle(&mut v);
                f("imply", v)
            }
            5 => {
                let (v, x) = (self.vars(), self.gd(d - 1));
                f("exists", vec![v, x])
            }
            6 => {
                let (v, x) = (self.vars(), self.gd(d - 1));
                f("forall", vec![v, x])
            }
            7 => self.fcomp(d),
            _ => self.atom(),
        }
    }
    fn pref<F: FnMut(&mut Self) -> Sx>(&mut self, mut body: F) -> Sx {
        let b = body(self);
        if self.r.chance(2, 3) {
            let n = self.name();
            f("preference", vec![n, b])
        } else {
            f("preference", vec![b])
        }
    }
    pub fn pref_gd(&mut self, d: usize) -> Sx {
        if self.r.chance(1, 2) {
            self.pref(|g| g.gd(d))
        } else {
            self.gd(d)
        }
    }
    pub fn pre_gd(&mut self, d: usize) -> Sx {
        if self.leafy(d) {
            let e = d.min(1);
            return self.pref_gd(e);
        }
        match self.r.below(6) {
            0..=2 => f("and", self.many(0, d, |g, e| g.pre_gd(e))),
            3 => {
                let (v, x) = (self.vars(), self.pre_gd(d - 1));
                f("forall", vec![v, x])
            }
            _ => self.pref_gd(d),
        }
    }
    // ---- effects
    fn eff_atom(&mut self) -> Sx {
        loop {
            let x = self.atom();
            if !x.head().map_or(false, |h| ASSIGN_OPS.contains(&h)) {
                return x;
            }
        }
    }
    pub fn p_effect(&mut self, d: usize) -> Sx {
        match self.r.below(8) {
            0 | 1 => self.eff_atom(),
            2 | 3 => {
                let x = self.eff_atom();
                f("not", vec![x])
            }
            4 | 5 => {
                let op = *self.r.pick(ASSIGN_OPS);
                let (h, e) = (self.fhead(), self.fexp(d));
                f(op, vec![h, e])
            }
            6 => {
                let h = self.fterm(d.min(2));
                f("assign", vec![h, a("undefined")])
            }
            _ => {
                let (h, x) = (self.fterm(d.min(2)), self.term(1));
                f("assign", vec![h, x])
            }
        }
    }
    pub fn cond_effect(&mut self, d: usize) -> Sx {
        if self.r.chance(1, 2) {
            f("and", self.many(0, d, |g, e| g.p_effect(e.min(2))))
        } else {
            self.p_effect(d.min(3))
        }
    }
    fn forall_c(&mut self, d: usize) -> Sx {
        let (v, x) = (self.vars(), self.effect(d.saturating_sub(1)));
        f("forall", vec![v, x])
    }
    fn when_c(&mut self, d: usize) -> Sx {
        let e = self.r.below(d + 1);
        let (g, x) = (self.gd(e), self.cond_effect(d.min(3)));
        f("when", vec![g, x])
    }
    pub fn c_effect(&mut self, d: usize) -> Sx {
        self.fuel -= 1;
        if self.leafy(d) {
            return self.p_effect(d.min(2));
        }
        match self.r.below(5) {
            0 | 1 => self.forall_c(d),
            2 => self.when_c(d),
            _ => self.p_effect(d),
        }
    }
    pub fn effect(&mut self, d: usize) -> Sx {
        if self.r.chance(2, 3) {
            f("and", self.many(0, d, |g, e| g.c_effect(e)))
        } else {
            self.c_effect(d)
        }
    }
    // ---- constraints
    pub fn con2(&mut self, d: usize) -> Sx {
        if d > 0 && (self.k.spine || self.r.chance(1, 2)) {
            let x = self.con(d - 1);
            if x != l(vec![a("and")]) {
                return x;
            }
        }
        loop {
            let e = if self.r.chance(1, 3) { self.r.below(d + 1).min(3) } else { 0 };
            let x = self.gd(e);
            if matches!(elab(NT::Con2Gd, &[x.clone()]), Ok(crate::canon::C::T("g", _))) {
                return x;
            }
        }
    }
    pub fn con(&mut self, d: usize) -> Sx {
        self.fuel -= 1;
        if d > 0 && self.r.chance(1, 4) {
            return if self.r.chance(1, 2) {
                f("and", self.many(0, d, |g, e| g.con(e)))
            } else {
                let (v, x) = (self.vars(), self.con(d - 1));
                f("forall", vec![v, x])
            };
        }
        match self.r.below(10) {
            0 => {
                let e = self.r.below(d + 1).min(3);
                let x = self.gd(e);
                f("at", vec![a("end"), x])
            }
            1 => f("always", vec![self.con2(d)]),
            2 => f("sometime", vec![self.con2(d)]),
            3 => f("at-most-once", vec![self.con2(d)]),
            4 => {
                let (k, x) = (self.num(), self.con2(d));
                f("within", vec![k, x])
            }
            5 => {
                let (k, x) = (self.num(), self.con2(d));
                f("hold-after", vec![k, x])
            }
            6 => {
                let (x, y) = (self.con2(d), self.con2(d.min(1)));
                f("sometime-after", vec![x, y])
            }
            7 => {
                let (x, y) = (self.con2(d.min(1)), self.con2(d));
                f("sometime-before", vec![x, y])
            }
            8 => {
                let (k, x, y) = (self.num(), self.con2(d), self.con2(d.min(1)));
                f("always-within", vec![k, x, y])
            }
            _ => {
                let (k, m, x) = (self.num(), self.num(), self.con2(d));
                f("hold-during", vec![k, m, x])
            }
        }
    }
    pub fn pref_con(&mut self, d: usize) -> Sx {
        if d == 0 || self.r.chance(1, 3) {
            return if self.r.chance(1, 2) { self.pref(|g| g.con(d)) } else { self.con(d) };
        }
        if self.r.chance(2, 3) {
            f("and", self.many(0, d, |g, e| g.pref_con(e)))
        } else {
            let (v, x) = (self.vars(), self.pref_con(d - 1));
            f("forall", vec![v, x])
        }
    }
    // ---- durative actions
    fn ts(&mut self) -> Sx {
        a(*self.r.pick(&["start", "end"]))
    }
    pub fn timed_gd(&mut self, d: usize) -> Sx {
        let x = self.gd(d);
        if self.r.chance(2, 3) {
            let t = self.ts();
            f("at", vec![t, x])
        } else {
            f("over", vec![a("all"), x])
        }
    }
    pub fn pref_timed(&mut self, d: usize) -> Sx {
        if self.r.chance(1, 3) {
            self.pref(|g| g.timed_gd(d))
        } else {
            self.timed_gd(d)
        }
    }
    pub fn da_gd(&mut self, d: usize) -> Sx {
        if self.leafy(d) {
            return self.pref_timed(d.min(2));
        }
        match self.r.below(4) {
            0 | 1 => f("and", self.many(0, d, |g, e| g.da_gd(e))),
            2 => {
                let (v, x) = (self.vars(), self.da_gd(d - 1));
                f("forall", vec![v, x])
            }
            _ => self.pref_timed(d),
        }
    }
    fn f_assign_da(&mut self, d: usize) -> Sx {
        let op = *self.r.pick(ASSIGN_OPS);
        let (h, mut e) = (self.fhead(), self.fexp_da(d));
        if e == a("undefined") {
            e = a("1");
        }
        f(op, vec![h, e])
    }
    pub fn timed_effect(&mut self, d: usize) -> Sx {
        match self.r.below(6) {
            0..=2 => {
                let t = self.ts();
                let x = self.cond_effect(d);
                if elab(NT::TimedEffect, &[f("at", vec![t.clone(), x.clone()])]).is_ok() {
                    return f("at", vec![t, x]);
                }
                let x = self.eff_atom();
                f("at", vec![t, x])
            }
            3 | 4 => {
                let (t, x) = (self.ts(), self.f_assign_da(d));
                f("at", vec![t, x])
            }
            _ => {
                let op = *self.r.pick(&["increase", "decrease"]);
                let (h, e) = (self.fhead(), self.fexp_t(d.min(3)));
                f(op, vec![h, e])
            }
        }
    }
    pub fn da_effect(&mut self, d: usize) -> Sx {
        self.fuel -= 1;
        if self.leafy(d) {
            return self.timed_effect(d.min(2));
        }
        match self.r.below(6) {
            0..=2 => f("and", self.many(0, d, |g, e| g.da_effect(e))),
            3 => {
                let (v, x) = (self.vars(), self.da_effect(d - 1));
                f("forall", vec![v, x])
            }
            4 => {
                let (g, x) = (self.da_gd(d.min(2)), self.timed_effect(d.min(2)));
                f("when", vec![g, x])
            }
            _ => self.timed_effect(d),
        }
    }
    pub fn simple_dur(&mut self, d: usize) -> Sx {
        if d > 0 && self.r.chance(1, 3) {
            let (t, x) = (self.ts(), self.simple_dur(d - 1));
            return f("at", vec![t, x]);
        }
        let op = *self.r.pick(&["<=", ">=", "="]);
        let x = if self.r.chance(1, 3) { self.num() } else { self.fexp(d) };
        f(op, vec![a("?duration"), x])
    }
    pub fn dur(&mut self, d: usize) -> Sx {
        match self.r.below(4) {
            0 => l(vec![]),
            1 => self.simple_dur(d),
            _ => f("and", self.many(1, d, |g, e| g.simple_dur(e))),
        }
    }
    // ---- structures
    pub fn action(&mut self, d: usize) -> Sx {
        let mut v = vec![self.name(), a(":parameters"), self.vars()];
        if self.r.chance(5, 6) {
            v.push(a(":precondition"));
            let x = if self.r.chance(1, 8) { l(vec![]) } else { self.pre_gd(d) };
            v.push(x);
        }
        if self.r.chance(5, 6) {
            v.push(a(":effect"));
            let x = if self.r.chance(1, 8) { l(vec![]) } else { self.effect(d) };
            v.push(x);
        }
        f(":action", v)
    }
    pub fn durative(&mut self, d: usize) -> Sx {
        let mut v = vec![self.name(), a(":parameters"), self.vars(), a(":duration"), self.dur(d), a(":condition")];
        let x = if self.r.chance(1, 8) { l(vec![]) } else { self.da_gd(d) };
        v.push(x);
        v.push(a(":effect"));
        let x = if self.r.chance(1, 8) { l(vec![]) } else { self.da_effect(d) };
        v.push(x);
        f(":durative-action", v)
    }
    pub fn derived(&mut self, d: usize) -> Sx {
        let (s, x) = (self.skel(), self.gd(d));
        f(":derived", vec![s, x])
    }
    pub fn structure(&mut self, d: usize) -> Sx {
        match self.r.below(4) {
            0 | 1 => self.action(d),
            2 => self.durative(d),
            _ => self.derived(d),
        }
    }
    // ---- sections
    fn reqs(&mut self) -> Sx {
        let n = match self.r.below(4) {
            0 => 1,
            1 => self.r.range(1, 4),
            2 => self.len(1),
            _ => self.r.range(1, 21),
        };
        let v = (0..n).map(|_| a(*self.r.pick(REQUIREMENTS))).collect();
        f(":requirements", v)
    }
    fn tl_names(&mut self, key: &str) -> Sx {
        let n = self.len(0);
        f(key, self.typed(n, |g| g.name()))
    }
    fn preds(&mut self) -> Sx {
        let n = self.len(1);
        let v = (0..n).map(|_| self.skel()).collect();
        f(":predicates", v)
    }
    fn fun_list(&mut self) -> Vec<Sx> {
        let n = self.len(0);
        self.typed(n, |g| g.skel())
    }
    fn extends(&mut self) -> Sx {
        let n = self.len(1);
        let v = (0..n).map(|_| self.name()).collect();
        f(":extends", v)
    }
    pub fn init_el(&mut self) -> Sx {
        match self.r.below(8) {
            0..=2 => self.lit(),
            3 => {
                let (k, x) = (self.num(), self.lit());
                f("at", vec![k, x])
            }
            4 | 5 => {
                let (h, k) = (self.bft(), self.num());
                f("=", vec![h, k])
            }
            6 => {
                let (h, k) = (self.bft(), self.name());
                f("=", vec![h, k])
            }
            _ => {
                // Facts whose predicate looks like another element kind.
                let h = self.r.pick(&["at", "at", "number", "object", "assign", "always"]).to_string();
                let n = self.r.range(1, 3);
                let v = (0..n).map(|_| self.name()).collect();
                f(h, v)
            }
        }
    }
    fn init(&mut self) -> Sx {
        let n = self.len(0);
        let v = (0..n).map(|_| self.init_el()).collect();
        f(":init", v)
    }
    fn length(&mut self) -> Sx {
        let mut v = vec![];
        for k in [":serial", ":parallel"] {
            if self.r.chance(2, 3) {
                let i = self.int_text();
                v.push(f(k, vec![a(i)]));
            }
        }
        f(":length", v)
    }
    fn metric(&mut self, d: usize) -> Sx {
        let o = *self.r.pick(&["minimize", "maximize"]);
        let x = self.metric_exp(d);
        f(":metric", vec![a(o), x])
    }
    pub fn domain(&mut self) -> Sx {
        let d = self.k.depth;
        let n = self.name();
        let mut v = vec![f("domain", vec![n])];
        let p = self.r.range(2, 8); // density of optional sections
        macro_rules! o {
            ($e:expr) => {
                if self.r.chance(p, 8) {
                    // Each section has its own budget.
                    self.fuel = self.fuel.max(self.k.fuel as isize / 4);
                    let x = $e;
                    v.push(x);
                }
            };
        }
        o!(self.extends());
        o!(self.reqs());
        o!(self.tl_names(":types"));
        o!(self.tl_names(":constants"));
        o!(self.preds());
        o!({
            let x = self.fun_list();
            f(":functions", x)
        });
        o!({
            let x = self.con(d.min(4));
            f(":constraints", vec![x])
        });
        let n = match self.r.below(6) {
            0 => 0,
            1 | 2 => 1,
            3 => 2,
            4 => self.r.range(1, 5),
            _ => self.len(0),
        };
        for _ in 0..n {
            self.fuel = self.fuel.max(self.k.fuel as isize / 4);
            let x = self.structure(d);
            v.push(x);
        }
        f("define", v)
    }
    pub fn problem(&mut self) -> Sx {
        let d = self.k.depth;
        let (n, m) = (self.name(), self.name());
        let mut v = vec![f("problem", vec![n]), f(":domain", vec![m])];
        let p = self.r.range(2, 8);
        if self.r.chance(p, 8) {
            v.push(self.reqs());
        }
        if self.r.chance(p, 8) {
            v.push(self.tl_names(":objects"));
        }
        v.push(self.init());
        self.fuel = self.fuel.max(self.k.fuel as isize / 4);
        let g = self.pre_gd(d);
        v.push(f(":goal", vec![g]));
        if self.r.chance(p, 8) {
            self.fuel = self.fuel.max(self.k.fuel as isize / 4);
            let x = self.pref_con(d.min(4));
            v.push(f(":constraints", vec![x]));
        }
        if self.r.chance(p, 8) {
            v.push(self.metric(d));
        }
        if self.r.chance(p, 8) {
            v.push(self.length());
        }
        f("define", v)
    }
    /// A valid token sequence for a construct.
    pub fn gen(&mut self, nt: NT) -> Vec<Sx> {
        let d = self.k.depth;
        let kw = |g: &mut Self, s: &[&str]| a(*g.r.pick(s));
        vec![match nt {
            NT::Domain => self.domain(),
            NT::Problem => self.problem(),
            NT::RequireDef => self.reqs(),
            NT::RequireKey => kw(self, REQUIREMENTS),
            NT::TypesDef => self.tl_names(":types"),
            NT::ConstantsDef => self.tl_names(":constants"),
            NT::Objects => self.tl_names(":objects"),
            NT::PredicatesDef => self.preds(),
            NT::FunctionsDef => {
                let x = self.fun_list();
                f(":functions", x)
            }
            NT::DomainConstraints => {
                let x = self.con(d);
                f(":constraints", vec![x])
            }
            NT::ProblemConstraints => {
                let x = self.pref_con(d);
                f(":constraints", vec![x])
            }
            NT::StructureDef => self.structure(d),
            NT::ActionDef => self.action(d),
            NT::DaDef => self.durative(d),
            NT::Derived => self.derived(d),
            NT::Init => self.init(),
            NT::Goal => {
                let x = self.pre_gd(d);
                f(":goal", vec![x])
            }
            NT::Metric => self.metric(d),
            NT::Length => self.length(),
            NT::Timeless => {
                let n = self.len(1);
                let v = (0..n).map(|_| self.lit()).collect();
                f(":timeless", v)
            }
            NT::InitEl => self.init_el(),
            NT::Gd => self.gd(d),
            NT::PreGd => self.pre_gd(d),
            NT::PrefGd => self.pref_gd(d),
            NT::Effect => self.effect(d),
            NT::CEffect => self.c_effect(d),
            NT::ForallC => self.forall_c(d),
            NT::WhenC => self.when_c(d),
            NT::PEffect => self.p_effect(d),
            NT::CondEffect => self.cond_effect(d),
            NT::ConGd => self.con(d),
            NT::Con2Gd => self.con2(d),
            NT::PrefConGd => self.pref_con(d),
            NT::DaGd => self.da_gd(d),
            NT::DaEffect => self.da_effect(d),
            NT::TimedGd => self.timed_gd(d),
            NT::TimedEffect => self.timed_effect(d),
            NT::PrefTimedGd => self.pref_timed(d),
            NT::DurConstraint => self.dur(d),
            NT::SimpleDur => self.simple_dur(d),
            NT::DValue => {
                if self.r.chance(1, 3) {
                    self.num()
                } else {
                    self.fexp(d)
                }
            }
            NT::FAssignDa => self.f_assign_da(d),
            NT::FExp => self.fexp(d),
            NT::FExpDa => self.fexp_da(d),
            NT::FExpT => self.fexp_t(d),
            NT::FComp => self.fcomp(d),
            NT::FHead => self.fhead(),
            NT::FunctionTerm => self.fterm(d),
            NT::BasicFunctionTerm => self.bft(),
            NT::Term => self.term(d),
            NT::MetricFExp => self.metric_exp(d),
            NT::FormulaSkeleton | NT::FunctionSkeleton => self.skel(),
            NT::Type | NT::FunctionType => self.ty(),
            NT::PrimitiveType | NT::Name | NT::PrefName | NT::ActionSymbol | NT::DaSymbol => self.name(),
            NT::Predicate | NT::FunctionSymbol => self.fsym(),
            NT::Variable => self.var(),
            NT::Number => self.num(),
            NT::AssignOp => kw(self, ASSIGN_OPS),
            NT::AssignOpT => kw(self, &["increase", "decrease"]),
            NT::BinaryComp => kw(self, &["=", "<", ">", "<=", ">="]),
            NT::BinaryOp => kw(self, &["+", "-", "*", "/"]),
            NT::MultiOp => kw(self, &["+", "*"]),
            NT::DOp => kw(self, &["=", "<=", ">="]),
            NT::Interval => a("all"),
            NT::Optimization => kw(self, &["minimize", "maximize"]),
            NT::TimeSpecifier => self.ts(),
            NT::AtomTerm => self.atom(),
            NT::AtomName => self.natom(),
            NT::LiteralTerm => self.tlit(),
            NT::LiteralName => self.lit(),
            NT::ListVar => {
                let n = self.len(0);
                return self.typed(n, |g| g.var());
            }
            NT::ListName => {
                let n = self.len(0);
                return self.typed(n, |g| g.name());
            }
            NT::ListFun => return self.fun_list(),
        }]
    }
}
/// Literals at and around the difficult places of single precision.
pub fn hostile_number(r: &mut Rng) -> String {
    fn dec_of(m: u128, e: i32) -> String {
        // Exact decimal expansion of m * 2^e.
        let mut digits = num_big(m);
        if e >= 0 {
            for _ in 0..e {
                mul(&mut digits, 2);
            }
            return digits.iter().rev().map(|d| (b'0' + d) as char).collect();
        }
        // m * 5^k / 10^k
        let k = (-e) as usize;
        for _ in 0..k {
            mul(&mut digits, 5);
        }
        while digits.len() <= k {
            digits.push(0);
        }
        let t: String = digits.iter().rev().map(|d| (b'0' + d) as char).collect();
        let (i, f) = t.split_at(t.len() - k);
        let f = f.trim_end_matches('0');
        if f.is_empty() {
            i.to_string()
        } else {
            format!("{}.{}", i, f)
        }
    }
    fn num_big(mut m: u128) -> Vec<u8> {
        let mut v = vec![];
        loop {
            v.push((m % 10) as u8);
            m /= 10;
            if m == 0 {
                return v;
            }
        }
    }
    fn mul(d: &mut Vec<u8>, k: u8) {
        let mut c = 0u32;
        for x in d.iter_mut() {
            c += *x as u32 * k as u32;
            *x = (c % 10) as u8;
            c /= 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    }
    match r.below(10) {
        // Exact value of a random float, or the point halfway to the next one.
        0..=3 => {
            let ex = match r.below(4) {
                0 => r.range(0, 254),
                1 => r.range(110, 160),
                2 => *r.pick(&[0, 1, 2, 126, 127, 128, 150, 151, 152, 254]),
                _ => r.range(120, 200),
            } as u32;
            let frac = match r.below(4) {
                0 => 0,
                1 => 0x7f_ffff,
                _ => (r.next() & 0x7f_ffff) as u32,
            };
            let (m, e) = if ex == 0 { (frac as u128, -149) } else { ((frac | 0x80_0000) as u128, ex as i32 - 150) };
            let base = if r.chance(1, 2) { dec_of(m, e) } else { dec_of(2 * m + 1, e - 1) };
            match r.below(4) {
                0 => {
                    // Just above.
                    if base.contains('.') {
                        format!("{}{}1", base, "0".repeat(r.below(20)))
                    } else {
                        format!("{}.{}1", base, "0".repeat(r.below(20)))
                    }
                }
                1 => {
                    // Cut off: just below.
                    let n = base.len();
                    let cut = if base.contains('.') { n - r.range(1, 2.min(n - 1)) } else { n };
                    base[..cut].trim_end_matches('.').to_string()
                }
                _ => base,
            }
        }
        4 => format!("{}{}", "0".repeat(r.below(60)), r.below(100)),
        5 => format!("{}.{}", r.below(10), (0..r.range(1, 200)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()),
        6 => (0..r.range(1, 38)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        7 => format!("0.{}{}", "0".repeat(r.below(50)), r.below(100000)),
        8 => r
            .pick(&[
                "16777215", "16777216", "16777217", "16777218", "16777219", "33554433", "33554435", "8388608.5", "8388609.5",
                "340282346638528859811704183484516925440", "340282356779733661637539395458142568447", "0.1", "0.2", "0.3",
                "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "1.000000059604644775390625",
                "0.00000000000000000000000000000000000001175494350822287507968736537222245677818665677", "1.0", "1.50", "00.5", "000",
                "0.0", "3.14159265358979323846264338327950288", "9999999", "99999999", "123456789", "0.999999999",
            ])
            .to_string(),
        _ => format!("{}.{}", r.next() >> r.range(1, 63), r.next() >> r.range(1, 63)),
    }
}
