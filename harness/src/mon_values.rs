//! Monitors of plain values: numbers, requirement implications, the keyword vocabulary.
use crate::entries::*;
use crate::fw::*;
use crate::refel::NT;
use crate::rng::Rng;
use pddl::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
// ---------------------------------------------------------------- numbers
const SPECIAL: &[f32] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 10.0, 100.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 65536.0, 16777215.0, 16777216.0, 16777218.0, -16777216.0,
    2147483648.0, -2147483648.0, 4294967296.0, 9007199254740992.0, 1e10, -1e10, 1e38, -1e38, 0.1, -0.1, 0.2, 0.3, 0.30000001, 3.1415927, 1e-10, 1e-38, -1e-38, 1e-40, -1e-40,
    1e-44, f32::MIN_POSITIVE, f32::EPSILON, f32::MAX, f32::MIN, 1.0000001, 0.99999994,
];
fn finite(r: &mut Rng) -> f32 {
    let base = match r.below(6) {
        0 | 1 => *r.pick(SPECIAL),
        2 => r.range(0, 40) as f32 - 20.0,
        3 => (r.range(0, 4000) as f32 - 2000.0) / 100.0,
        _ => loop {
            let f = f32::from_bits(r.next() as u32);
            if f.is_finite() {
                break f;
            }
        },
    };
    // A neighbour.
    let bits = base.to_bits();
    let f = match r.below(8) {
        0 => f32::from_bits(bits.wrapping_add(1)),
        1 => f32::from_bits(bits.wrapping_sub(1)),
        2 => -base,
        3 => f32::from_bits(bits ^ (1 << r.below(31))),
        _ => base,
    };
    if f.is_finite() {
        f
    } else {
        base
    }
}
fn law(ctx: &mut Ctx, ok: bool, sig: &str, what: impl FnOnce() -> String, input: impl FnOnce() -> String) -> bool {
    ctx.count("laws_checked");
    if !ok {
        let (w, i) = (what(), input());
        ctx.violation(sig, w, i);
    }
    ok
}
fn numbers(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let mut vals: Vec<f32> = (0..r.range(2, 24)).map(|_| finite(&mut r)).collect();
    if case == 0 {
        vals = SPECIAL.to_vec();
    }
    if r.chance(1, 3) {
        let x = *r.pick(&vals);
        vals.push(x);
        vals.push(-x);
    }
    let make = |x: f32, how: usize| -> Number {
        match how % 4 {
            0 => Number::new(x),
            1 => Number::try_new(x).unwrap(),
            2 => Number::from(x),
            _ => Number::from(x as f64),
        }
    };
    ctx.input(&format!("{:?}", vals));
    let nums: Vec<Number> = vals.iter().map(|&x| make(x, r.below(4))).collect();
    ctx.saw(&format!("{:?}", vals.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    for (x, n) in vals.iter().zip(&nums) {
        law(ctx, **n == *x && n.is_finite(), "conversion:float", || format!("Number from {:?} holds {:?}", x, **n), || format!("{:?}", x));
    }
    let neq = |a: &Number, b: &Number| -> bool { *a != *b };
    for (i, a) in nums.iter().enumerate() {
        for (j, b) in nums.iter().enumerate() {
            let (x, y) = (vals[i], vals[j]);
            let want = x.partial_cmp(&y).unwrap();
            ctx.count(&format!("pairs:{:?}", want));
            let got = catch_unwind(AssertUnwindSafe(|| {
                (
                    a.cmp(b),
                    a.partial_cmp(b),
                    a == b,
                    neq(a, b),
                    a < b,
                    a <= b,
                    a > b,
                    a >= b,
                    hash_of(a) == hash_of(b),
                    *a == y,
                    *a == (y as f64),
                    **std::cmp::max(a, b),
                    **std::cmp::min(a, b),
                )
            }));
            let input = || format!("{:?} and {:?}", x, y);
            let Ok(g) = got else {
                law(ctx, false, "compare:panic", || "comparing two numbers panics".into(), input);
                continue;
            };
            let eq = want == Ordering::Equal;
            law(ctx, g.0 == want, "order:cmp", || format!("cmp is {:?}, the values compare {:?}", g.0, want), input);
            law(ctx, g.1 == Some(want), "order:partial_cmp", || format!("partial_cmp is {:?}, the values compare {:?}", g.1, want), input);
            law(ctx, g.2 == eq, "equality:eq", || format!("== is {}, the values compare {:?}", g.2, want), input);
            law(ctx, g.3 != eq, "equality:ne", || format!("!= is {}, the values compare {:?}", g.3, want), input);
            law(
                ctx,
                (g.4, g.5, g.6, g.7) == (x < y, x <= y, x > y, x >= y),
                "order:operators",
                || format!("< <= > >= give {:?}, the values compare {:?}", (g.4, g.5, g.6, g.7), want),
                input,
            );
            law(ctx, !eq || g.8, "hash:equal", || "equal numbers hash differently".into(), input);
            law(ctx, g.9 == eq && g.10 == eq, "equality:plain", || format!("comparing with the plain value gives {} (f32) and {} (f64)", g.9, g.10), input);
            law(ctx, g.11 == x.max(y) && g.12 == x.min(y), "order:minmax", || format!("max {:?} min {:?}", g.11, g.12), input);
        }
    }
    // Sorting and sets.
    let mut sorted = nums.clone();
    sorted.sort();
    let mut want = vals.clone();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let input = || format!("{:?}", vals);
    law(ctx, sorted.iter().zip(&want).all(|(a, b)| **a == *b), "sort", || format!("sorted to {:?}", sorted.iter().map(|x| **x).collect::<Vec<_>>()), input);
    let mut distinct = want.clone();
    distinct.dedup();
    let bs: BTreeSet<Number> = nums.iter().copied().collect();
    let hs: HashSet<Number> = nums.iter().copied().collect();
    law(ctx, bs.len() == distinct.len(), "set:ordered", || format!("ordered set holds {} of {} distinct values", bs.len(), distinct.len()), input);
    law(ctx, hs.len() == distinct.len(), "set:hashed", || format!("hash set holds {} of {} distinct values", hs.len(), distinct.len()), input);
    law(ctx, nums.iter().all(|n| hs.contains(n) && bs.contains(n)), "set:lookup", || "an element is not found in its set".into(), input);
    // Integers.
    let bits = r.next();
    macro_rules! int {
        ($t:ty) => {{
            let picks: [$t; 5] = [bits as $t, (bits >> 50) as $t, <$t>::MAX, <$t>::MIN, ((bits % 41) as i64 - 20) as $t];
            for v in picks {
                let want = v as f32;
                let n = Number::from(v);
                let name = stringify!($t);
                law(ctx, *n == want, "conversion:integer", || format!("Number::from({}{}) holds {:?}", v, name, *n), || v.to_string());
                law(ctx, n == v && n == Number::from(v), "equality:plain", || format!("Number::from({}{}) is not equal to it", v, name), || v.to_string());
                let other = *r.pick(&nums);
                law(
                    ctx,
                    (other == v) == (*other == want),
                    "equality:plain",
                    || format!("{:?} == {}{} is {}", *other, v, name, other == v),
                    || v.to_string(),
                );
            }
        }};
    }
    int!(i8);
    int!(u8);
    int!(i16);
    int!(u16);
    int!(i32);
    int!(u32);
    // Doubles: rounded to the nearest, never to something that is not finite.
    for _ in 0..8 {
        let d = match r.below(5) {
            0 => f64::from_bits(r.next()),
            1 => *r.pick(&[0.1, 1.0 / 3.0, 16777217.0, 1e-50, 1e39, -1e39, 1e308, 3.4028235677973366e38, 3.4028234663852886e38, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-46, 8e-46]),
            _ => finite(&mut r) as f64 * (1.0 + (r.range(0, 1000) as f64 - 500.0) * 1e-10),
        };
        let want = d as f32;
        let got = catch_unwind(|| *Number::from(d));
        if want.is_finite() {
            law(ctx, matches!(got, Ok(g) if g == want), "conversion:double", || format!("Number::from({:?}f64) gives {:?}, nearest is {:?}", d, got, want), || format!("{:?}", d));
        } else {
            ctx.count("not_finite_offered");
            law(ctx, got.is_err(), "conversion:not-finite", || format!("Number::from({:?}f64) holds {:?}", d, got), || format!("{:?}", d));
        }
    }
    for b in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7f800001 | (bits as u32 & 0x3fffff)), f32::from_bits(0xff800001 | (bits as u32 & 0x3fffff))] {
        ctx.count("not_finite_offered");
        law(ctx, catch_unwind(|| *Number::new(b)).is_err(), "conversion:not-finite", || format!("Number::new({:?}) succeeds", b), || format!("{:?}", b));
        law(ctx, catch_unwind(|| *Number::from(b)).is_err(), "conversion:not-finite", || format!("Number::from({:?}) succeeds", b), || format!("{:?}", b));
        law(
            ctx,
            matches!(catch_unwind(|| Number::try_new(b).is_err()), Ok(true)),
            "conversion:try-not-finite",
            || format!("Number::try_new({:?}) does not report an error", b),
            || format!("{:?}", b),
        );
        let says = matches!(catch_unwind(|| Number::try_new(b).map_err(|e| e.to_string())), Ok(Err(m)) if !m.is_empty());
        law(ctx, says, "conversion:try-not-finite", || format!("Number::try_new({:?}) does not say what is wrong", b), || format!("{:?}", b));
    }
    law(ctx, *Number::default() == 0.0, "conversion:default", || "the default number is not zero".into(), || String::new());
    let n = *r.pick(&nums);
    #[allow(clippy::clone_on_copy)]
    let m = n.clone();
    law(ctx, m == n && *m == *n, "clone", || "a copy differs".into(), || format!("{:?}", *n));
    ctx.sample(|| format!("{:?}", vals));
}
// ---------------------------------------------------------------- requirements
use Requirement as Q;
/// The keys of PDDL 3.1 with the keys they stand for.
const KEYS: &[(Q, &str, &[usize])] = &[
    (Q::Strips, ":strips", &[0]),
    (Q::Typing, ":typing", &[1]),
    (Q::NegativePreconditions, ":negative-preconditions", &[2]),
    (Q::DisjunctivePreconditions, ":disjunctive-preconditions", &[3]),
    (Q::Equality, ":equality", &[4]),
    (Q::ExistentialPreconditions, ":existential-preconditions", &[5]),
    (Q::UniversalPreconditions, ":universal-preconditions", &[6]),
    (Q::QuantifiedPreconditions, ":quantified-preconditions", &[5, 6]),
    (Q::ConditionalEffects, ":conditional-effects", &[8]),
    (Q::Fluents, ":fluents", &[10, 11]),
    (Q::NumericFluents, ":numeric-fluents", &[10]),
    (Q::ObjectFluents, ":object-fluents", &[11]),
    (Q::Adl, ":adl", &[0, 1, 2, 3, 4, 5, 6, 8]),
    (Q::DurativeActions, ":durative-actions", &[13]),
    (Q::DurationInequalities, ":duration-inequalities", &[14]),
    (Q::ContinuousEffects, ":continuous-effects", &[15]),
    (Q::DerivedPredicates, ":derived-predicates", &[16]),
    (Q::TimedInitialLiterals, ":timed-initial-literals", &[17, 13]),
    (Q::Preferences, ":preferences", &[18]),
    (Q::Constraints, ":constraints", &[19]),
    (Q::ActionCosts, ":action-costs", &[20]),
];
fn bit(q: &Q) -> u32 {
    let i = KEYS.iter().position(|k| k.0 == *q).unwrap();
    1 << i
}
fn expansion(i: usize) -> u32 {
    KEYS[i].2.iter().fold(0, |m, k| m | 1 << k)
}
fn names(m: u32) -> String {
    KEYS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, k)| k.1).collect::<Vec<_>>().join(" ")
}
fn mask<'a>(it: impl IntoIterator<Item = &'a Q>) -> u32 {
    it.into_iter().fold(0, |m, q| m | bit(q))
}
fn effective_of(seq: &[usize]) -> u32 {
    match seq.iter().fold(0, |m, i| m | expansion(*i)) {
        0 => 1,
        m => m,
    }
}
fn check_set(ctx: &mut Ctx, r: &mut Rng, seq: &[usize], route: usize) {
    let qs: Vec<Q> = seq.iter().map(|i| KEYS[*i].0).collect();
    let text = seq.iter().map(|i| KEYS[*i].1).collect::<Vec<_>>().join(" ");
    ctx.input(&text);
    ctx.saw(&text);
    let want = effective_of(seq);
    let doc = route >= 4 && !seq.is_empty();
    let parsed: Option<Requirements> = if doc {
        let t = match route {
            4 => format!("(:requirements {})", text),
            5 => format!("(define (domain d) (:requirements {}))", text),
            _ => format!("(define (problem p) (:domain d) (:requirements {}) (:init) (:goal (and)))", text),
        };
        match route {
            4 => Requirements::from_str(&t).ok(),
            5 => Domain::from_str(&t).ok().map(|d| d.requirements().clone()),
            _ => Problem::from_str(&t).ok().map(|d| d.requirements().clone()),
        }
    } else {
        Some(match route % 4 {
            0 => Requirements::new(qs.iter().copied()),
            1 => Requirements::from(qs.clone()),
            2 => qs.iter().copied().collect(),
            _ if r.chance(1, 2) => {
                let d = Domain::builder("d".into(), StructureDefs::default()).with_requirements(qs.clone().into());
                d.requirements().clone()
            }
            _ => {
                let d = Domain::from_str("(define (domain d))").unwrap().with_requirements(qs.clone().into());
                d.requirements().clone()
            }
        })
    };
    let Some(rq) = parsed else {
        // Acceptance of texts is another property.
        ctx.count("text_not_accepted");
        return;
    };
    ctx.count(if doc { "sets_from_text" } else { "sets_from_code" });
    ctx.max("declared_keys", seq.len() as u64);
    let eff = rq.to_effective();
    let got = mask(&eff);
    law(
        ctx,
        got == want && eff.len() == want.count_ones() as usize,
        &format!("effective:{}", names(got ^ want)),
        || format!("declared {}: effective {}, expected {}", text, names(got), names(want)),
        || text.clone(),
    );
    // Asking does not change the declaration, and a repeated question has the same answer.
    law(ctx, rq.to_effective() == eff, "effective:again", || format!("declared {}: asking again gives another answer", text), || text.clone());
    law(ctx, rq.iter().copied().collect::<Vec<_>>() == qs, "declared", || format!("declared {}: {:?}", text, rq), || text.clone());
    ctx.sample(|| format!("{} => {}", text, names(got)));
}
fn requirements(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let n = KEYS.len();
    if case == 0 {
        for i in 0..n {
            for j in 0..n {
                let (a, b) = (KEYS[i].0, KEYS[j].0);
                let want = i == j || expansion(j) & !expansion(i) == 0;
                ctx.count("contains_pairs");
                let got = [a.contains(b), a.contains(&b)];
                law(
                    ctx,
                    got == [want; 2],
                    &format!("contains:{:?}:{:?}", a, b),
                    || format!("{:?}.contains({:?}) is {:?}, expected {}", a, b, got, want),
                    || format!("{} {}", KEYS[i].1, KEYS[j].1),
                );
                check_set(ctx, &mut r, &[i, j], 0);
            }
            let e = KEYS[i].0.expand();
            law(
                ctx,
                mask(&e) == expansion(i) && e.len() == KEYS[i].2.len(),
                &format!("expand:{:?}", KEYS[i].0),
                || format!("{:?}.expand() is {:?}, expected {}", KEYS[i].0, e, names(expansion(i))),
                || KEYS[i].1.into(),
            );
            for route in 0..7 {
                check_set(ctx, &mut r, &[i], route);
            }
        }
        for route in 0..7 {
            check_set(ctx, &mut r, &[], route);
            check_set(ctx, &mut r, &(0..n).collect::<Vec<_>>(), route);
        }
        let d = Requirements::default();
        law(ctx, mask(&d.to_effective()) == 1, "effective:default", || "the default declaration is not basic STRIPS".into(), || String::new());
        for t in ["(define (domain d))", "(define (problem p) (:domain d) (:init) (:goal (and)))"] {
            let e = if t.contains("(problem") { Problem::from_str(t).unwrap().requirements().to_effective() } else { Domain::from_str(t).unwrap().requirements().to_effective() };
            law(ctx, mask(&e) == 1 && e.len() == 1, "effective:absent", || format!("{}: {}", t, names(mask(&e))), || t.into());
        }
        return;
    }
    if ctx.tier == Tier::Thorough {
        // All subsets, each in a random order, with repetitions.
        let lo = (case - 1) * 128;
        for m in lo..(lo + 128).min(1 << n) {
            let mut seq: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
            for _ in 0..r.below(3) {
                if !seq.is_empty() {
                    let x = *r.pick(&seq);
                    seq.push(x);
                }
            }
            r.shuffle(&mut seq);
            let route = if r.chance(1, 20) { r.range(4, 6) } else { r.below(4) };
            check_set(ctx, &mut r, &seq, route);
        }
        return;
    }
    for _ in 0..20 {
        let k = match r.below(5) {
            0 => r.range(20, 300),
            1 | 2 => r.range(5, 21),
            _ => r.range(1, 6),
        };
        let seq: Vec<usize> = (0..k).map(|_| r.below(n)).collect();
        let route = r.below(7);
        check_set(ctx, &mut r, &seq, route);
        let mut other = seq.clone();
        r.shuffle(&mut other);
        let route = r.below(7);
        check_set(ctx, &mut r, &other, route);
    }
}
// ---------------------------------------------------------------- vocabulary
/// Everything that is a keyword of any of the types, and close relatives.
fn hostile_words(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (w, _) in ALL_WORDS {
        v.push(w.to_string());
        v.push(w.to_uppercase());
        v.push(w[..1].to_uppercase() + &w[1..]);
        v.push(format!("{} ", w));
        v.push(format!(" {}", w));
        v.push(format!("{}s", w));
        v.push(format!("{}{}", w, w));
        v.push(w[1..].to_string());
        v.push(w[..w.len() - 1].to_string());
        v.push(w.replace('-', "_"));
        v.push(format!(":{}", w));
        v.push(w.trim_start_matches(':').to_string());
        v.push(format!("{}\0", w));
        v.push(format!("{}\n", w));
        let mut c: Vec<char> = w.chars().collect();
        let i = r.below(c.len());
        c[i] = crate::mutate::any_char(r);
        v.push(c.iter().collect());
        let i = r.below(c.len() + 1);
        c.insert(i, crate::mutate::any_char(r));
        v.push(c.iter().collect());
    }
    for w in ["", "x", "=>", "=<", "==", "<>", "!=", "≥", "≤", "−", "×", "÷", "**", "//", "minimise", "maximise", "begin", "ends", "set", "decr", "all-of", "overall", "requirements", ":goal-utilities"] {
        v.push(w.into());
    }
    v
}
const ALL_WORDS: &[(&str, &str)] = &[
    ("assign", "A"), ("scale-up", "A"), ("scale-down", "A"), ("increase", "A"), ("decrease", "A"), ("+", "B"), ("-", "B"), ("*", "B"), ("/", "B"),
    (">", "C"), ("<", "C"), ("=", "C"), (">=", "C"), ("<=", "C"), ("start", "T"), ("end", "T"), ("all", "I"), ("minimize", "O"), ("maximize", "O"),
    (":strips", "R"), (":typing", "R"), (":negative-preconditions", "R"), (":disjunctive-preconditions", "R"), (":equality", "R"), (":existential-preconditions", "R"),
    (":universal-preconditions", "R"), (":quantified-preconditions", "R"), (":conditional-effects", "R"), (":fluents", "R"), (":numeric-fluents", "R"), (":object-fluents", "R"),
    (":adl", "R"), (":durative-actions", "R"), (":duration-inequalities", "R"), (":continuous-effects", "R"), (":derived-predicates", "R"), (":timed-initial-literals", "R"),
    (":preferences", "R"), (":constraints", "R"), (":action-costs", "R"),
];
fn vocabulary(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let words = hostile_words(&mut r);
    macro_rules! vocab {
        ($t:ident, $nt:ident, [$(($v:expr, $w:expr)),* $(,)?], $also:expr, $tostr:expr) => {{
            let table: Vec<($t, &str)> = vec![$(($v, $w)),*];
            let ty = stringify!($t);
            let also: &[&str] = $also;
            for (v, w) in &table {
                ctx.count("values");
                ctx.saw(&format!("{}:{}", ty, w));
                let p = v.to_string();
                law(ctx, p == *w, &format!("print:{}", ty), || format!("{}::{:?} prints as {:?}, its keyword is {:?}", ty, v, p, w), || w.to_string());
                let p = format!("{}", v);
                law(ctx, p == *w, &format!("print:{}", ty), || format!("{}::{:?} prints as {:?}, its keyword is {:?}", ty, v, p, w), || w.to_string());
                let back = $t::try_from(*w).ok();
                law(ctx, back.as_ref() == Some(v), &format!("convert:{}", ty), || format!("{:?} converts to {:?}, expected {:?}", w, back, v), || w.to_string());
                for t in [w.to_string(), format!("{} ", w), format!("{}\n", w), format!("{} x", w), format!("{})", w), format!("{}(", w)] {
                    let got = $t::parse(t.as_str()).ok().map(|(rest, x)| (rest.location_offset(), x));
                    let ok = matches!(&got, Some((o, x)) if x == v && t[*o..].trim_start() == t[w.len()..].trim_start());
                    law(ctx, ok, &format!("parse:{}", ty), || format!("{:?} parses to {:?}, expected {:?}", t, got.map(|x| x.1), v), || t.clone());
                }
                let got = <$t as Parser>::from_str(w).ok();
                law(ctx, got.as_ref() == Some(v), &format!("parse:{}", ty), || format!("{:?} reads as {:?}, expected {:?}", w, got, v), || w.to_string());
                for (u, x) in &table {
                    law(ctx, (u == v) == (x == w) && (u != v) == (x != w), &format!("distinct:{}", ty), || format!("{:?} == {:?} is {}", u, v, u == v), || w.to_string());
                }
                let c = v.clone();
                law(ctx, c == *v, &format!("clone:{}", ty), || format!("{:?} is not equal to its clone", v), || w.to_string());
                #[allow(clippy::redundant_closure_call)]
                ($tostr)(ctx, v, *w, &words);
            }
            for w in words.iter() {
                if table.iter().any(|x| x.1 == w) || also.contains(&w.as_str()) {
                    continue;
                }
                ctx.count("other_texts");
                let got = $t::try_from(w.as_str());
                law(ctx, got.is_err(), &format!("other-text:{}", ty), || format!("{:?} is no keyword but converts to {:?}", w, got), || w.clone());
                if let Err(e) = got {
                    // Refusing says so.
                    let e: Box<dyn std::error::Error> = Box::new(e);
                    law(ctx, !e.to_string().is_empty(), &format!("refusal:{}", ty), || format!("refusing {:?} gives an empty message", w), || w.clone());
                }
            }
            let _ = entry(NT::$nt);
        }};
    }
    fn nostr<T>(_: &mut Ctx, _: &T, _: &str, _: &Vec<String>) {}
    macro_rules! strs {
        ($t:ident) => {
            |ctx: &mut Ctx, v: &$t, w: &str, words: &Vec<String>| {
                let a: &str = v.as_ref();
                let b: &str = std::borrow::Borrow::<str>::borrow(v);
                law(ctx, v.as_str() == w && a == w && b == w, concat!("text:", stringify!($t)), || format!("{:?} has the texts {:?} {:?} {:?}", v, v.as_str(), a, b), || w.into());
                let rv = &v;
                law(ctx, *v == **rv && *rv == v && v.eq(rv), concat!("text:", stringify!($t)), || format!("{:?} is not equal to a reference to it", v), || w.into());
                for x in words.iter().map(|x| x.as_str()).chain([w]) {
                    ctx.count("string_comparisons");
                    let got = (*v == x, *v == x.to_string(), *v != x, *v != x.to_string());
                    let e = x == w;
                    law(ctx, got == (e, e, !e, !e), concat!("compare-string:", stringify!($t)), || format!("{:?} compared with {:?} gives {:?}", v, x, got), || x.into());
                }
            }
        };
    }
    vocab!(
        AssignOp,
        AssignOp,
        [(AssignOp::Assign, "assign"), (AssignOp::ScaleUp, "scale-up"), (AssignOp::ScaleDown, "scale-down"), (AssignOp::Increase, "increase"), (AssignOp::Decrease, "decrease")],
        &["change"],
        strs!(AssignOp)
    );
    vocab!(AssignOpT, AssignOpT, [(AssignOpT::Increase, "increase"), (AssignOpT::Decrease, "decrease")], &[], nostr);
    vocab!(BinaryComp, BinaryComp, [(BinaryComp::GreaterThan, ">"), (BinaryComp::LessThan, "<"), (BinaryComp::Equal, "="), (BinaryComp::GreaterOrEqual, ">="), (BinaryComp::LessThanOrEqual, "<=")], &[], nostr);
    vocab!(BinaryOp, BinaryOp, [(BinaryOp::Multiplication, "*"), (BinaryOp::Addition, "+"), (BinaryOp::Subtraction, "-"), (BinaryOp::Division, "/")], &[], nostr);
    vocab!(MultiOp, MultiOp, [(MultiOp::Multiplication, "*"), (MultiOp::Addition, "+")], &[], nostr);
    vocab!(DOp, DOp, [(DOp::Equal, "="), (DOp::GreaterOrEqual, ">="), (DOp::LessThanOrEqual, "<=")], &[], nostr);
    vocab!(TimeSpecifier, TimeSpecifier, [(TimeSpecifier::Start, "start"), (TimeSpecifier::End, "end")], &[], nostr);
    vocab!(Interval, Interval, [(Interval::All, "all")], &[], nostr);
    vocab!(Optimization, Optimization, [(Optimization::Minimize, "minimize"), (Optimization::Maximize, "maximize")], &[], nostr);
    vocab!(
        Requirement,
        RequireKey,
        [
            (Q::Strips, ":strips"), (Q::Typing, ":typing"), (Q::NegativePreconditions, ":negative-preconditions"), (Q::DisjunctivePreconditions, ":disjunctive-preconditions"),
            (Q::Equality, ":equality"), (Q::ExistentialPreconditions, ":existential-preconditions"), (Q::UniversalPreconditions, ":universal-preconditions"),
            (Q::QuantifiedPreconditions, ":quantified-preconditions"), (Q::ConditionalEffects, ":conditional-effects"), (Q::Fluents, ":fluents"),
            (Q::NumericFluents, ":numeric-fluents"), (Q::ObjectFluents, ":object-fluents"), (Q::Adl, ":adl"), (Q::DurativeActions, ":durative-actions"),
            (Q::DurationInequalities, ":duration-inequalities"), (Q::ContinuousEffects, ":continuous-effects"), (Q::DerivedPredicates, ":derived-predicates"),
            (Q::TimedInitialLiterals, ":timed-initial-literals"), (Q::Preferences, ":preferences"), (Q::Constraints, ":constraints"), (Q::ActionCosts, ":action-costs"),
        ],
        &[],
        strs!(Requirement)
    );
    for (a, b) in [(AssignOp::Assign, AssignOp::Increase), (AssignOp::ScaleUp, AssignOp::ScaleDown), (AssignOp::Increase, AssignOp::Decrease)] {
        let (ra, rb) = (&a, &b);
        let same: [bool; 4] = [<&AssignOp as PartialEq<AssignOp>>::eq(&ra, &a), <AssignOp as PartialEq<&AssignOp>>::eq(&a, &ra), <&AssignOp as PartialEq<AssignOp>>::eq(&rb, &b), ra == ra];
        let other: [bool; 4] = [<&AssignOp as PartialEq<AssignOp>>::eq(&ra, &b), <AssignOp as PartialEq<&AssignOp>>::eq(&a, &rb), <&AssignOp as PartialEq<AssignOp>>::eq(&rb, &a), ra == rb];
        law(ctx, same == [true; 4] && other == [false; 4], "distinct:AssignOp", || format!("references to {:?} and {:?} compare {:?} {:?}", a, b, same, other), || a.to_string());
    }
    // Operators shared between types.
    for (m, b) in [(MultiOp::Multiplication, BinaryOp::Multiplication), (MultiOp::Addition, BinaryOp::Addition)] {
        law(ctx, BinaryOp::from(m) == b && MultiOp::try_from(b).ok() == Some(m), "convert:MultiOp-BinaryOp", || format!("{:?} and {:?} do not convert into each other", m, b), || m.to_string());
    }
    for b in [BinaryOp::Subtraction, BinaryOp::Division] {
        law(ctx, MultiOp::try_from(b).is_err(), "convert:MultiOp-BinaryOp", || format!("{:?} converts to a MultiOp", b), || b.to_string());
    }
    if case == 0 {
        ctx.sample(|| words[..40].join("|"));
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P20",
            rule: "a set of finite numbers (special values, random bit patterns, neighbours, opposites); every ordered pair is compared by every operator",
            quick: 20_000,
            thorough: 1_000_000,
            case: numbers,
            floors: &[("laws_checked", 1_000_000), ("pairs:Equal", 50_000), ("pairs:Less", 100_000), ("not_finite_offered", 10_000)],
            assumptions: &["the processor's f32 comparison and conversion are the oracle"],
            ..BASE
        },
        Prop {
            id: "P22",
            rule: "a declaration (sequence of requirement keys, with repetition) through code or text; thorough: all 2^21 sets",
            quick: 3_000,
            thorough: 16_385,
            case: requirements,
            floors: &[("contains_pairs", 441), ("sets_from_code", 10_000), ("sets_from_text", 10_000)],
            assumptions: &["the implication table of the PDDL 3.1 definition as written in the crate's documentation", "one requirement covers another if it is the same or the other's expansion is a subset of its own"],
            ..BASE
        },
        Prop {
            id: "P23",
            rule: "a keyword value (all of them, every case) with every route back; other texts: relatives and random edits of all keywords",
            quick: 300,
            thorough: 60_000,
            case: vocabulary,
            floors: &[("values", 10_000), ("other_texts", 500_000), ("string_comparisons", 500_000)],
            assumptions: &["the keywords of the PDDL 3.1 grammar; the old alias change for assign is left without verdict"],
            ..BASE
        },
    ]
}
