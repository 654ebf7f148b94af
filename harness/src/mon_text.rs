//! Fidelity monitors: texts are rendered from generated trees, parsed by the real library, and the
//! result is compared with the reference elaboration of the same tokens.
use crate::canon::*;
use crate::entries::*;
use crate::fw::*;
use crate::gen::*;
use crate::layout::*;
use crate::refel::*;
use crate::rng::Rng;
use crate::mutate::corrupt;
use crate::shrink::shrink;
use crate::sx::*;

/// Constructs in which leading layout is certainly allowed.
pub fn is_doc(nt: NT) -> bool {
    matches!(nt, NT::Domain | NT::Problem)
}
/// What is wrong with the outcome of parsing this valid text, if anything.
pub fn judge_good(text: &str, want: &C, out: &Out) -> Option<(&'static str, String)> {
    match out {
        Out::Ok(c, l) => {
            if let Some(d) = diff(want, c) {
                return Some(("value", format!("wrong value: {}", d)));
            }
            if !l.exact {
                return Some(("remainder", format!("remainder is not the rest of the input (offset {})", l.off)));
            }
            if !is_layout(&text[l.off..]) {
                return Some(("remainder", format!("left over: {}", short(&text[l.off..]))));
            }
            None
        }
        o => Some(("rejected", format!("valid text not accepted: {}", o.brief()))),
    }
}
pub fn tree_text(seq: &[Sx]) -> String {
    let toks = tokens_of(seq);
    render(&toks, Style::Single, false, &mut Rng::new(0)).0
}
/// Generates a certainly valid tree for a construct.
pub fn valid(ctx: &mut Ctx, r: &mut Rng, k: &Knobs, nt: NT) -> Option<(Vec<Sx>, C)> {
    let d = ctx.dict.clone();
    for _ in 0..3 {
        let mut g = Gen::new(r.fork(), k.clone(), &d);
        let seq = g.gen(nt);
        if seq.iter().map(|x| x.size()).sum::<usize>() > 40_000 {
            ctx.count("generated_too_big");
            continue;
        }
        match elab(nt, &seq) {
            Ok(c) => return Some((seq, c)),
            Err(_) => ctx.count("generated_without_verdict"),
        }
    }
    None
}
/// Occasionally very long or very deep.
pub fn knobs(ctx: &Ctx, r: &mut Rng) -> Knobs {
    let mut k = Knobs::swarm(r);
    match r.below(if ctx.tier == Tier::Quick { 60 } else { 40 }) {
        0 => {
            k.depth = r.range(0, 1);
            k.list = *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097]);
            if r.chance(1, 3) && !ctx.dict.ints.is_empty() {
                let i = *r.pick(&ctx.dict.ints) as usize;
                if i > 1 && i <= 5000 {
                    k.list = i + r.below(3) - 1;
                }
            }
            k.fuel = k.list;
        }
        1 => {
            k.depth = r.range(30, 90);
            k.list = 2;
            k.spine = true;
            k.fuel = 40;
        }
        _ => {}
    }
    k
}
pub fn observe(ctx: &mut Ctx, nt: NT, seq: &[Sx], c: &C) {
    let sz: usize = seq.iter().map(|x| x.size()).sum();
    let dp: usize = seq.iter().map(|x| x.depth()).max().unwrap_or(0);
    ctx.max("tokens", sz as u64);
    ctx.max("depth", dp as u64);
    let longest = longest_list(seq);
    ctx.max("list_length", longest as u64);
    ctx.count(&format!("construct:{:?}", nt));
    let mut m = std::collections::BTreeMap::new();
    c.tags(&mut m);
    for (k, v) in m {
        ctx.add(&format!("node:{}", k), v);
    }
}
fn longest_list(seq: &[Sx]) -> usize {
    seq.iter().map(|x| if let Sx::L(v) = x { longest_list(v).max(v.len()) } else { 0 }).max().unwrap_or(0)
}
/// Checks a valid tree under a style; reports a reduced violation.
pub fn check_valid(ctx: &mut Ctx, nt: NT, seq: &[Sx], want: &C, style: Style, r: &mut Rng) -> bool {
    let toks = tokens_of(seq);
    let outer = is_doc(nt);
    let (text, _) = render(&toks, style, outer, r);
    ctx.input(&text);
    let out = entry(nt).parse(&text);
    ctx.saw(&text);
    match judge_good(&text, want, &out) {
        None => true,
        Some((kind, first)) => {
            ctx.found(&format!("{}:{:?}", kind, nt), &first, &text);
            let seed = r.next();
            let probe = |s: &[Sx], st: Style| -> Option<(String, String)> {
                let w = elab(nt, s).ok()?;
                let (t, _) = render(&tokens_of(s), st, outer, &mut Rng::new(seed));
                let o = entry(nt).parse(&t);
                judge_good(&t, &w, &o).map(|(_, m)| (t, m))
            };
            let st = if probe(seq, Style::Single).is_some() { Style::Single } else { style };
            let (input, what) = if probe(seq, st).is_some() {
                let small = shrink(seq, |s| probe(s, st).is_some());
                let x = probe(&small, st).unwrap();
                (x.0, x.1)
            } else {
                (text.clone(), judge_good(&text, want, &out).unwrap().1)
            };
            ctx.violation(format!("{}:{:?}", kind, nt), format!("{:?}: {}", nt, what), input);
            false
        }
    }
}
type Mix = &'static [(NT, usize)];
fn choose(mix: Mix, r: &mut Rng) -> NT {
    let total: usize = mix.iter().map(|x| x.1).sum();
    let mut z = r.below(total);
    for (nt, w) in mix {
        if z < *w {
            return *nt;
        }
        z -= w;
    }
    unreachable!()
}
/// Texts that exceed small counters, in the constructs of the mix: lists of 66,000 different
/// elements and nesting of 300 levels.
fn extreme(ctx: &mut Ctx, mix: Mix) -> bool {
    use crate::mon_effort::{deep_texts, LISTS};
    let mine = |nt: &NT| mix.iter().any(|m| m.0 == *nt);
    let lists: Vec<_> = LISTS.iter().filter(|x| mine(&x.0)).collect();
    let case = ctx.case as usize;
    let (nt, text) = if case < lists.len() {
        let (nt, pre, el, post) = lists[case];
        // The names of one letter become different ones.
        let b = el.as_bytes();
        let mut cuts = vec![0];
        for i in 0..b.len() {
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b':' || c == b'-' || c == b'_';
            if b[i].is_ascii_lowercase() && (i == 0 || !word(b[i - 1])) && b.get(i + 1).is_some_and(|c| !word(*c)) {
                cuts.push(i + 1);
            }
        }
        cuts.push(b.len());
        let mut t = pre.to_string();
        for i in 0..66_000 {
            for k in 1..cuts.len() {
                if k > 1 {
                    t.push_str(&format!("{}", i));
                }
                t.push_str(&el[cuts[k - 1]..cuts[k]]);
            }
        }
        t.push_str(post);
        (*nt, t)
    } else {
        let mut deep = deep_texts(300);
        deep.retain(|x| mine(&x.0));
        let Some((nt, _, t)) = deep.into_iter().nth(case - lists.len()) else { return false };
        (nt, t)
    };
    let toks: Vec<String> = lex(&text).into_iter().map(|x| x.1).collect();
    let Some(seq) = trees(&toks) else { return true };
    let Ok(want) = elab(nt, &seq) else { return true };
    ctx.input(&text);
    let out = entry(nt).parse(&text);
    ctx.saw(&text);
    observe(ctx, nt, &seq, &want);
    ctx.count(if case < lists.len() { "lists_of_66000_elements" } else { "nesting_of_300_levels" });
    if let Some((kind, m)) = judge_good(&text, &want, &out) {
        let small = crate::canon::short(&text);
        ctx.violation(format!("{}:{:?}", kind, nt), format!("{:?} of {} bytes ({}): {}", nt, text.len(), small, m), text);
    }
    true
}
fn fidelity(ctx: &mut Ctx, mix: Mix, tune: fn(&mut Knobs, &mut Rng)) {
    if extreme(ctx, mix) {
        return;
    }
    let mut r = ctx.rng();
    let nt = choose(mix, &mut r);
    let mut k = knobs(ctx, &mut r);
    tune(&mut k, &mut r);
    if is_doc(nt) && k.list > 600 {
        k.list = 600;
    }
    let Some((seq, want)) = valid(ctx, &mut r, &k, nt) else { return };
    let style = *r.pick(&[Style::Single, Style::Pretty, Style::Pretty, Style::Blank, Style::Tight]);
    observe(ctx, nt, &seq, &want);
    if check_valid(ctx, nt, &seq, &want, style, &mut r) {
        ctx.sample(|| format!("{:?}: {} => {}", nt, tree_text(&seq), want));
    }
}
const P01: Mix = &[
    (NT::Domain, 60), (NT::RequireDef, 4), (NT::TypesDef, 4), (NT::ConstantsDef, 4), (NT::PredicatesDef, 4), (NT::FunctionsDef, 4),
    (NT::DomainConstraints, 4), (NT::StructureDef, 8), (NT::ActionDef, 4), (NT::Derived, 4),
];
const P02: Mix = &[
    (NT::Problem, 70), (NT::RequireDef, 3), (NT::Objects, 5), (NT::Init, 5), (NT::Goal, 5), (NT::ProblemConstraints, 4), (NT::Metric, 4), (NT::Length, 6),
];
const P03: Mix = &[
    (NT::TypesDef, 8), (NT::ConstantsDef, 8), (NT::Objects, 8), (NT::PredicatesDef, 10), (NT::FunctionsDef, 12), (NT::ListVar, 8), (NT::ListName, 8),
    (NT::ListFun, 8), (NT::FormulaSkeleton, 6), (NT::FunctionSkeleton, 5), (NT::Type, 4), (NT::FunctionType, 4), (NT::PrimitiveType, 1), (NT::Domain, 8), (NT::Problem, 5), (NT::ActionDef, 4),
    (NT::DaDef, 3), (NT::Derived, 3), (NT::Gd, 4), (NT::Effect, 3),
];
const P04: Mix = &[
    (NT::Gd, 25), (NT::PreGd, 20), (NT::PrefGd, 8), (NT::Goal, 10), (NT::ActionDef, 12), (NT::Derived, 8), (NT::WhenC, 6), (NT::Domain, 6), (NT::Problem, 6),
    (NT::AtomTerm, 4), (NT::LiteralTerm, 4), (NT::FComp, 4), (NT::Term, 2), (NT::FunctionTerm, 2),
];
const P05: Mix = &[
    (NT::Effect, 25), (NT::CEffect, 12), (NT::ForallC, 8), (NT::WhenC, 8), (NT::PEffect, 12), (NT::CondEffect, 8), (NT::ActionDef, 18), (NT::Domain, 9),
];
const P06: Mix = &[
    (NT::DaDef, 25), (NT::DaGd, 12), (NT::DaEffect, 15), (NT::TimedGd, 5), (NT::TimedEffect, 10), (NT::PrefTimedGd, 5), (NT::DurConstraint, 10), (NT::SimpleDur, 5),
    (NT::DValue, 3), (NT::FAssignDa, 4), (NT::FExpDa, 3), (NT::FExpT, 4), (NT::Domain, 6), (NT::StructureDef, 3),
];
const P07: Mix = &[
    (NT::FExp, 20), (NT::FExpDa, 10), (NT::FExpT, 5), (NT::FComp, 12), (NT::MetricFExp, 15), (NT::Metric, 12), (NT::PEffect, 8), (NT::DValue, 4), (NT::FAssignDa, 5),
    (NT::SimpleDur, 3), (NT::FHead, 3), (NT::ActionDef, 4), (NT::DaDef, 3), (NT::Problem, 5), (NT::BasicFunctionTerm, 2),
];
const P08: Mix = &[(NT::ConGd, 25), (NT::Con2Gd, 15), (NT::PrefConGd, 25), (NT::DomainConstraints, 10), (NT::ProblemConstraints, 15), (NT::Domain, 5), (NT::Problem, 8)];
const P09: Mix = &[(NT::Init, 35), (NT::InitEl, 30), (NT::Timeless, 12), (NT::Problem, 15), (NT::LiteralName, 6), (NT::AtomName, 6), (NT::BasicFunctionTerm, 4)];

fn keep(_: &mut Knobs, _: &mut Rng) {}
fn longer(k: &mut Knobs, r: &mut Rng) {
    if r.chance(1, 4) {
        k.list = k.list.max(r.range(5, 80));
        k.fuel = k.fuel.max(k.list * 2);
    }
}
fn deeper(k: &mut Knobs, r: &mut Rng) {
    if r.chance(1, 4) {
        k.depth = k.depth.max(r.range(3, 25));
    }
}
const RULE: &str = "a valid token tree is drawn from the grammar (random depth, list lengths, names, numbers), rendered with random layout, parsed by the real library, and the result compared node by node with an independent reference elaboration of the same tokens; the first cases are lists of 66,000 different elements and nestings of 300 levels; distinct = distinct rendered texts";

// ---- P10: identifiers
/// Spellings close to a keyword.
fn near(w: &str) -> Vec<String> {
    let mut o = vec![w.to_string(), w.to_ascii_uppercase(), w.replace('-', "_"), w.replace('-', "")];
    for s in ["s", "ed", "x", "X", "e5", "0", "9", "-", "_", "--", "__", "-_", "_-", "-1", "_1", "-x", "_x", "-and", "_at"] {
        o.push(format!("{}{}", w, s));
    }
    for p in ["x", "A", "re", "a-", "z_", "n1-", "and-", "not", "at-"] {
        o.push(format!("{}{}", p, w));
    }
    let first = w[..1].to_ascii_uppercase();
    o.push(format!("{}{}", first, &w[1..]));
    if w.len() > 1 {
        o.push(w[..w.len() - 1].to_string());
        o.push(w[1..].trim_start_matches('-').to_string());
        o.push(format!("{}{}", w, &w[w.len() - 1..]));
    }
    o
}
/// Every spelling near one keyword at every identifier position of one construct.
fn sweep(ctx: &mut Ctx, unit: usize) {
    let mut r = ctx.rng();
    let nt = ALL_NT[unit % ALL_NT.len()];
    let w = KEYWORDS[unit / ALL_NT.len() % KEYWORDS.len()];
    let mut best: Option<(Vec<String>, Vec<usize>)> = None;
    for _ in 0..8 {
        let mut k = Knobs::small();
        k.depth = r.range(1, 3);
        k.empty = 0;
        k.fuel = 25;
        let Some((seq, _)) = valid(ctx, &mut r, &k, nt) else { continue };
        let toks = tokens_of(&seq);
        let pos: Vec<usize> = (0..toks.len()).filter(|i| matches!(classify(&toks[*i]), Tok::Name | Tok::Var)).collect();
        if pos.len() <= 40 && best.as_ref().is_none_or(|b| b.1.len() < pos.len()) {
            best = Some((toks, pos));
        }
    }
    let Some((toks, mut pos)) = best else { return };
    let words = near(w);
    if ctx.tier == Tier::Quick {
        while pos.len() > 3 {
            let i = r.below(pos.len());
            pos.swap_remove(i);
        }
    }
    for &i in &pos {
        for x in &words {
            let mut t = toks.clone();
            t[i] = if t[i].starts_with('?') { format!("?{}", x) } else { x.clone() };
            let Some(seq) = trees(&t) else { continue };
            let Ok(want) = elab(nt, &seq) else {
                ctx.count("sweep_refused_name");
                continue;
            };
            ctx.count("sweep_positions_tried");
            if !check_valid(ctx, nt, &seq, &want, Style::Single, &mut r) {
                return;
            }
        }
    }
}
/// Replaces identifiers of a valid tree by difficult ones, position by position.
fn identifiers(ctx: &mut Ctx) {
    if ctx.case % 40 == 1 {
        return sweep(ctx, ctx.case as usize / 40);
    }
    let mut r = ctx.rng();
    if ctx.case % 10 == 0 {
        return distinct_names(ctx, &mut r);
    }
    let nt = if r.chance(1, 4) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = Knobs::small();
    k.depth = r.range(0, 3);
    k.list = r.range(1, 4);
    k.fuel = 30;
    let Some((seq, _)) = valid(ctx, &mut r, &k, nt) else { return };
    // Positions of names and variables.
    let mut toks = tokens_of(&seq);
    let pos: Vec<usize> = (0..toks.len()).filter(|i| matches!(classify(&toks[*i]), Tok::Name | Tok::Var)).collect();
    if pos.is_empty() {
        return;
    }
    let d = ctx.dict.clone();
    let mut hk = Knobs::small();
    hk.kw = *r.pick(&[8, 12, 16]);
    hk.long = *r.pick(&[0, 2, 8]);
    hk.dict = 2;
    hk.rand = 8;
    hk.longest = *r.pick(&[40, 300, 2000]);
    if r.chance(1, 400) {
        hk.long = 16;
        hk.longest = *r.pick(&[20_000, 140_000]);
    }
    let mut g = Gen::new(r.fork(), hk, &d);
    let m = r.range(1, 4);
    for _ in 0..m {
        let i = *r.pick(&pos);
        let keep = toks[i].clone();
        let nm = g.fresh_name();
        toks[i] = if keep.starts_with('?') { format!("?{}", nm) } else { nm };
        // The replaced word may have been a keyword, or the new one may have become one.
        let ok = trees(&toks).and_then(|s| elab(nt, &s).ok()).is_some();
        if !ok {
            toks[i] = keep;
            ctx.count("position_refused_name");
        } else {
            ctx.count("identifier_positions_tried");
        }
    }
    let seq = trees(&toks).unwrap();
    let Ok(want) = elab(nt, &seq) else { return };
    for t in &toks {
        ctx.max("longest_token", t.len() as u64);
    }
    ctx.count(&format!("construct:{:?}", nt));
    let style = *r.pick(STYLES);
    if check_valid(ctx, nt, &seq, &want, style, &mut r) {
        ctx.sample(|| format!("{:?}: {}", nt, tree_text(&seq)));
    }
}
/// Names of one text are equal exactly when they are spelled equally.
fn distinct_names(ctx: &mut Ctx, r: &mut Rng) {
    use std::collections::{BTreeSet, HashSet};
    let d = ctx.dict.clone();
    let mut k = Knobs::swarm(r);
    k.kw = *r.pick(&[0, 4, 12]);
    k.longest = *r.pick(&[20, 70, 300]);
    let n = *r.pick(&[2, 10, 50, 150]);
    let mut g = Gen::new(r.fork(), k, &d);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let x = if !names.is_empty() && r.chance(1, 2) {
            // A near miss.
            let p = r.pick(&names).clone();
            match r.below(7) {
                0 => p.to_ascii_uppercase(),
                1 => p.to_ascii_lowercase(),
                2 => format!("{}-", p),
                3 => format!("{}0", p),
                4 => p.replace('-', "_"),
                5 => p[..p.len() - (p.len() > 1) as usize].to_string(),
                _ => p,
            }
        } else {
            g.nm()
        };
        if x != "either" {
            names.push(x);
        }
    }
    let text = format!("(:objects {})", names.join(" "));
    ctx.input(&text);
    use pddl::Parser;
    let parsed = std::panic::catch_unwind(|| pddl::Objects::from_str(&text).ok());
    let Ok(Some(objs)) = parsed else {
        ctx.violation("rejected:names", "valid object list not accepted", text);
        return;
    };
    ctx.saw(&text);
    let got: Vec<pddl::Name> = objs.iter().map(|x| x.value().clone()).collect();
    if got.len() != names.len() {
        ctx.violation("names:count", format!("{} names became {}", names.len(), got.len()), text);
        return;
    }
    for i in 0..n {
        for j in 0..n {
            ctx.count("name_pairs_compared");
            if (got[i] == got[j]) != (names[i] == names[j]) {
                ctx.violation("names:equality", format!("{} and {} compare {}", names[i], names[j], got[i] == got[j]), text);
                return;
            }
        }
    }
    let a: HashSet<&pddl::Name> = got.iter().collect();
    let b: BTreeSet<&String> = names.iter().collect();
    if a.len() != b.len() {
        ctx.violation("names:hash", format!("{} spellings, {} in a hash set", b.len(), a.len()), text);
    }
}
// ---- P11: numbers
const NUMBER_HOMES: &[(NT, &str)] = &[
    (NT::Number, "@"), (NT::FExp, "@"), (NT::FExp, "(+ 1 @)"), (NT::FExp, "(- @)"), (NT::FExp, "(* 2 3 @ 4)"), (NT::FExpDa, "@"), (NT::FExpDa, "(/ @ ?duration)"),
    (NT::FExpT, "(* #t @)"), (NT::FExpT, "(* @ #t)"), (NT::DValue, "@"), (NT::SimpleDur, "(<= ?duration @)"), (NT::SimpleDur, "(at end (= ?duration @))"),
    (NT::DurConstraint, "(and (>= ?duration @) (<= ?duration 7))"), (NT::FComp, "(< (f) @)"), (NT::FComp, "(>= @ x)"), (NT::Gd, "(= (f ?x) @)"),
    (NT::Gd, "(< @ (+ @ 1))"), (NT::InitEl, "(= (f a) @)"), (NT::InitEl, "(= f @)"), (NT::InitEl, "(at @ (p a))"), (NT::InitEl, "(at @ (not (p)))"),
    (NT::Init, "(:init (= (f) @) (= (g) @) (at @ (p)))"), (NT::MetricFExp, "@"), (NT::MetricFExp, "(+ total-time @)"), (NT::Metric, "(:metric minimize (* @ (is-violated x)))"),
    (NT::ConGd, "(within @ (p))"), (NT::ConGd, "(hold-after @ (p))"), (NT::ConGd, "(always-within @ (p) (q))"), (NT::ConGd, "(hold-during @ @ (p))"), (NT::ConGd, "(hold-during 3 @ (p))"),
    (NT::PEffect, "(assign (f) @)"), (NT::PEffect, "(increase (f) (- @ 1))"), (NT::TimedEffect, "(at start (decrease (f) @))"), (NT::TimedEffect, "(increase (f) (* #t @))"),
    (NT::FAssignDa, "(scale-up f @)"), (NT::Problem, "(define (problem p) (:domain d) (:init (= (f) @)) (:goal (>= (f) @)) (:metric maximize @))"),
];
const LENGTH_HOMES: &[&str] = &["(:length (:serial #))", "(:length (:parallel #))", "(:length (:serial #) (:parallel #))", "(:length (:serial 1) (:parallel #))"];
fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|i| if i == 0 { (b'1' + r.below(9) as u8) as char } else { (b'0' + r.below(10) as u8) as char }).collect()
}
fn numbers(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let d = ctx.dict.clone();
    let length = r.chance(1, 6);
    let (nt, home) = if length { (NT::Length, *r.pick(LENGTH_HOMES)) } else { *r.pick(NUMBER_HOMES) };
    let mut k = Knobs::small();
    k.num = *r.pick(&[1, 2, 3, 3, 3, 3]);
    let mut g = Gen::new(r.fork(), k, &d);
    let mut text = String::new();
    let mut huge = false;
    for c in home.chars() {
        match c {
            '@' => {
                let x = if r.chance(1, 3000) {
                    ctx.count("literals_of_many_digits");
                    let n = *r.pick(&[1000, 5000, 20_000, 66_000]);
                    match r.below(5) {
                        0 => format!("{}{}", "0".repeat(n), r.below(1000)),
                        1 => format!("{}.{}1", r.below(1000), "0".repeat(n)),
                        2 => format!("{}.{}", r.below(1000), digits(&mut r, n)),
                        3 => digits(&mut r, n),
                        // A tie between two floats, decided by the last digit or not at all.
                        _ => format!("{}.{}{}", 16777217 + r.below(4) * 2, "0".repeat(n), if r.chance(1, 2) { "1" } else { "" }),
                    }
                } else if r.chance(1, 12) {
                    // Beyond the largest float, or just at it.
                    match r.below(6) {
                        0 => format!("340282356779733661637539395458142568448{}", if r.chance(1, 2) { ".0" } else { "" }),
                        1 => { let n = r.range(40, 400); digits(&mut r, n) }
                        2 => { let n = r.range(39, 60); format!("{}.{}", digits(&mut r, n), r.below(100)) }
                        3 => format!("4{}", "0".repeat(38)),
                        4 => "340282356779733661637539395458142568447.9999".into(),
                        _ => { let n = r.range(37, 39); digits(&mut r, n) }
                    }
                } else if r.chance(1, 8) && !d.ints.is_empty() {
                    let i = *r.pick(&d.ints);
                    format!("{}{}", i.wrapping_add(r.below(3) as u64).wrapping_sub(1).min(u64::MAX - 2), r.pick(&["", ".0", ".5", ".25"]))
                } else {
                    g.num_text()
                };
                text.push_str(&x);
            }
            '#' => {
                let x = match r.below(8) {
                    0 => "18446744073709551616".to_string(),
                    1 => { let n = r.range(20, 60); digits(&mut r, n) }
                    2 => format!("{}18446744073709551615", "0".repeat(r.below(30))),
                    _ => g.int_text(),
                };
                text.push_str(&x);
            }
            c => text.push(c),
        }
    }
    let toks: Vec<String> = lex(&text).into_iter().map(|x| x.1).collect();
    let seq = trees(&toks).unwrap();
    ctx.input(&text);
    let out = entry(nt).parse(&text);
    ctx.saw(&text);
    match elab(nt, &seq) {
        Ok(w) => {
            ctx.count("literals_representable");
            if let Some((kind, m)) = judge_good(&text, &w, &out) {
                ctx.violation(format!("{}:{:?}", kind, nt), m, text);
                return;
            }
        }
        Err(_) => {
            huge = true;
            ctx.count("literals_too_large");
            if !matches!(out, Out::Err(..)) {
                ctx.violation(format!("too-large:{:?}", nt), format!("a literal that is too large gives {}", out.brief()), text);
                return;
            }
        }
    }
    ctx.count(&format!("construct:{:?}", nt));
    ctx.sample(|| format!("{:?}: {} => {}", nt, text, if huge { "refused".to_string() } else { out.brief() }));
    conversions(ctx, &mut r);
}
/// Fallible conversions from floats and texts.
fn conversions(ctx: &mut Ctx, r: &mut Rng) {
    use pddl::Number;
    let special = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 0.0, -0.0, 1e-45];
    let f = if r.chance(1, 3) { *r.pick(&special) } else { f32::from_bits(r.next() as u32) };
    let got = std::panic::catch_unwind(|| Number::try_new(f).ok().map(|n| *n));
    ctx.count("float_conversions");
    match got {
        Ok(Some(g)) if f.is_finite() && g.to_bits() == f.to_bits() => {}
        Ok(None) if !f.is_finite() => {}
        g => ctx.violation("try_new", format!("Number::try_new({:?}) gives {:?}", f, g.ok()), format!("{:?}", f)),
    }
    let txt = match r.below(6) {
        0 => r.pick(&["inf", "-inf", "NaN", "nan", "infinity", "+inf", "-nan", "", " ", "1e39", "1e400", "-1e39", "x", "1x", "--1", "1..2"]).to_string(),
        1 => hostile_number(r),
        2 => format!("{:?}", f),
        3 => format!("{:e}", f),
        4 => { let n = r.range(39, 60); digits(r, n) }
        _ => format!("{}.{}", r.below(100000), r.below(100000)),
    };
    use std::str::FromStr;
    let got = std::panic::catch_unwind(|| <Number as FromStr>::from_str(&txt).ok().map(|n| *n));
    ctx.count("text_conversions");
    match got {
        Err(_) => ctx.violation("number-from_str", "Number::from_str panics", txt),
        Ok(Some(g)) if !g.is_finite() => ctx.violation("number-from_str", format!("Number::from_str gives {}", g), txt),
        Ok(g) => {
            if is_num(&txt) {
                let want = crate::num::nearest_f32(&txt);
                if g.map(f32::to_bits) != want.map(f32::to_bits) {
                    ctx.violation("number-from_str", format!("Number::from_str gives {:?} instead of {:?}", g, want), txt)
                }
            }
        }
    }
}
// ---- P12: layout
/// The listed place, with layout that does not begin with a blank.
fn listed_places(ctx: &mut Ctx, r: &mut Rng) {
    let b = *r.pick(&["(total-cost))", "(+ 1 2))", "5)", "total-time)", "(total-time))", "cost)"]);
    let gap = if b.starts_with('(') && r.chance(1, 3) { String::new() } else { format!("{}\n{}", comment(r), if r.chance(1, 2) { " " } else { "" }) };
    let a = format!("(:metric {}", r.pick(&["minimize", "maximize"]));
    let (plain, text) = (format!("{} {}", a, b), format!("{}{}{}", a, gap, b));
    ctx.input(&text);
    ctx.saw(&text);
    ctx.count("listed_places");
    let nt = NT::Metric;
    let (p, q) = (entry(nt).parse_held(&plain), entry(nt).parse_held(&text));
    match (p.1, q.1) {
        (Some(x), Some(y)) if x.eq(&*y) => ctx.count("listed_places_accepted"),
        (Some(_), None) => ctx.violation("layout-after-direction", format!("{} is read, but not {}: {}", plain, text, q.0.brief()), text),
        _ => ctx.violation("layout:plain", format!("{} and {}: {} and {}", plain, text, p.0.brief(), q.0.brief()), plain),
    }
}
fn layouts(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    if r.chance(1, 60) {
        return listed_places(ctx, &mut r);
    }
    let nt = if r.chance(1, 2) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(400);
    if k.depth < 20 {
        k.depth = k.depth.min(3);
    }
    let Some((seq, want)) = valid(ctx, &mut r, &k, nt) else { return };
    let toks = tokens_of(&seq);
    let outer = is_doc(nt);
    let (base, _) = render(&toks, Style::Single, false, &mut r);
    ctx.input(&base);
    let (o, held) = entry(nt).parse_held(&base);
    if let Some((kind, m)) = judge_good(&base, &want, &o) {
        ctx.violation(format!("{}:{:?}", kind, nt), m, base);
        return;
    }
    let held = held.unwrap();
    for st in [Style::Tight, Style::Pretty, Style::Blank, Style::Wild, Style::Wild, Style::Wild] {
        let (text, _) = render(&toks, st, outer, &mut r);
        ctx.input(&text);
        let (o2, h2) = entry(nt).parse_held(&text);
        ctx.saw(&text);
        ctx.count(&format!("style:{:?}", st));
        ctx.add("comments", text.matches(';').count() as u64);
        ctx.add("line_ends_crlf", text.matches("\r\n").count() as u64);
        let same = h2.as_ref().map_or(false, |h| h.eq(&*held) && held.eq(&**h));
        if judge_good(&text, &want, &o2).is_some() || !same {
            // Reduce: fewer tokens first, then less layout.
            if !check_valid(ctx, nt, &seq, &want, st, &mut r) {
                // Reported, reduced.
            } else {
                let m = judge_good(&text, &want, &o2).map(|x| x.1).unwrap_or("results with different layout are not equal".into());
                let small = reduce_layout(nt, &text);
                ctx.violation(format!("layout:{:?}:{:?}", nt, st), m, small);
            }
            return;
        }
        if st == Style::Wild {
            // Layout is read the same however the parser is called.
            let whole = format!("{}{}", if r.chance(1, 2) { "(x) ; y\r\n\t" } else { "" }, text);
            let at = whole.len() - text.len();
            let e = entry(nt);
            let outs = [("from_str", Some(e.parse_value(&text))), ("parse_span", Some(e.parse_span(&whole, at))), ("function", e.parse_func(&whole, at)), ("parse(span)", Some(e.parse_at(&whole, at).0))];
            for (route, o) in outs {
                let Some(o) = o else { continue };
                ctx.count("other_routes");
                let fine = match &o {
                    Out::Ok(c, _) => diff(&want, c).is_none(),
                    _ => false,
                };
                if !fine {
                    ctx.violation(format!("layout:{}:{:?}", route, nt), format!("{} of {:?} in a different layout: {}", route, nt, o.brief()), text);
                    return;
                }
            }
        }
    }
    if r.chance(1, 100) && toks.len() > 2 {
        // Very much layout between two of the tokens.
        let gap = layout::vast(&mut r);
        let i = r.range(1, toks.len() - 1);
        if !layout::restricted(&toks, i) {
            let text = format!("{}{}{}", toks[..i].join(" "), gap, toks[i..].join(" "));
            ctx.input(&text);
            let (o2, h2) = entry(nt).parse_held(&text);
            ctx.saw(&text);
            ctx.count("vast_layouts");
            let same = h2.as_ref().map_or(false, |h| h.eq(&*held));
            if judge_good(&text, &want, &o2).is_some() || !same {
                ctx.violation(format!("vast-layout:{:?}", nt), format!("{} bytes of layout before token {}: {}", gap.len(), i, o2.brief()), text);
                return;
            }
        }
    }
    ctx.count(&format!("construct:{:?}", nt));
    ctx.sample(|| format!("{:?} in 7 layouts: {}", nt, base));
}
fn reduce_layout(nt: NT, text: &str) -> String {
    let bad = |t: &str| -> bool {
        let toks: Vec<String> = lex(t).into_iter().map(|x| x.1).collect();
        let Some(seq) = trees(&toks) else { return false };
        let Ok(w) = elab(nt, &seq) else { return false };
        judge_good(t, &w, &entry(nt).parse(t)).is_some()
    };
    if !bad(text) {
        return text.to_string();
    }
    let mut cur = text.to_string();
    let mut budget = 3000;
    'o: loop {
        for n in [64, 16, 4, 1] {
            let idx: Vec<usize> = cur.char_indices().map(|x| x.0).chain([cur.len()]).collect();
            let mut i = 0;
            while i + 1 < idx.len() {
                let j = (i + n).min(idx.len() - 1);
                let t = format!("{}{}", &cur[..idx[i]], &cur[idx[j]..]);
                budget -= 1;
                if budget == 0 {
                    return cur;
                }
                if bad(&t) && lex(&t).len() <= lex(&cur).len() {
                    cur = t;
                    continue 'o;
                }
                i += n;
            }
        }
        return cur;
    }
}
// ---- P13: malformed input
/// Verdict on an arbitrary text, from the reference reading of whatever was consumed.
pub fn judge_any(nt: NT, text: &str, out: &Out) -> Result<&'static str, (&'static str, String)> {
    match out {
        Out::Panic(m) => Err(("panic", format!("panic: {}", m))),
        Out::Err(..) => {
            let toks = lex(text);
            let first = toks.first().map_or(0, |x| x.0);
            if first == 0 || is_doc(nt) {
                let toks: Vec<String> = toks.into_iter().map(|x| x.1).collect();
                if let Some(seq) = trees(&toks) {
                    if elab(nt, &seq).is_ok() {
                        return Err(("rejected", format!("valid text not accepted: {}", out.brief())));
                    }
                }
            }
            Ok("refused")
        }
        Out::Ok(c, l) => {
            if !l.exact {
                return Err(("remainder", "the remainder is not the rest of the input".into()));
            }
            let toks: Vec<String> = lex(&text[..l.off]).into_iter().map(|x| x.1).collect();
            let all = is_layout(&text[l.off..]);
            let Some(seq) = trees(&toks) else {
                return Err(("accepted", format!("unbalanced parentheses accepted as {}", short(&c.to_string()))));
            };
            match elab(nt, &seq) {
                Ok(w) => match diff(&w, c) {
                    Some(d) => Err(("value", format!("wrong value: {}", d))),
                    None => Ok(if all { "valid" } else { "prefix-accepted" }),
                },
                Err(E::Bad) => Err(("accepted", format!("malformed text accepted as {}", short(&c.to_string())))),
                Err(E::Amb) => Ok("no-verdict"),
            }
        }
    }
}
fn malformed(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let nt = if r.chance(2, 5) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = Knobs::swarm(&mut r);
    k.depth = k.depth.min(4);
    k.list = k.list.min(5);
    k.fuel = k.fuel.min(if is_doc(nt) { 60 } else { 40 });
    let Some((seq, _)) = valid(ctx, &mut r, &k, nt) else { return };
    let d = ctx.dict.clone();
    for _ in 0..6 {
        let (toks, kind) = corrupt(&seq, &mut r, &d);
        // Sometimes read the text as something else.
        let as_nt = if r.chance(1, 12) { *r.pick(ALL_NT) } else { nt };
        let style = *r.pick(&[Style::Single, Style::Single, Style::Tight, Style::Blank]);
        let (text, _) = render(&toks, style, false, &mut r);
        ctx.input(&text);
        let out = entry(as_nt).parse(&text);
        ctx.saw(&text);
        match judge_any(as_nt, &text, &out) {
            Ok(v) => {
                ctx.count(&format!("outcome:{}", v));
                if v == "refused" || v == "prefix-accepted" {
                    ctx.count(&format!("corruption:{}", kind));
                    ctx.count(&format!("construct:{:?}", as_nt));
                    ctx.sample(|| format!("{:?} ({}): {} => {}", as_nt, kind, text, out.brief()));
                }
            }
            Err((what, m)) => {
                ctx.found(&format!("{}:{:?}", what, as_nt), &m, &text);
                let mut input = text.clone();
                let mut msg = m;
                let toks: Vec<String> = lex(&text).into_iter().map(|x| x.1).collect();
                if let Some(s) = trees(&toks) {
                    let probe = |s: &[Sx]| {
                        let t = tree_text(s);
                        let o = entry(as_nt).parse(&t);
                        judge_any(as_nt, &t, &o).err().filter(|x| x.0 == what).map(|x| (t, x.1))
                    };
                    if probe(&s).is_some() {
                        let small = shrink(&s, |s| probe(s).is_some());
                        let x = probe(&small).unwrap();
                        input = x.0;
                        msg = x.1;
                    }
                }
                ctx.violation(format!("{}:{:?}", what, as_nt), format!("{:?} ({}): {}", as_nt, kind, msg), input);
                return;
            }
        }
    }
}
// ---- P14: remainder
fn line_col(text: &str, off: usize) -> (u32, usize) {
    let p = &text[..off];
    let line = 1 + p.bytes().filter(|b| *b == b'\n').count() as u32;
    let col = 1 + p[p.rfind('\n').map_or(0, |i| i + 1)..].chars().count();
    (line, col)
}
fn loc_wrong(text: &str, l: &Loc) -> Option<String> {
    if !l.exact {
        return Some(format!("location at offset {} is not a part of the input", l.off));
    }
    if !text.is_char_boundary(l.off) {
        return Some(format!("offset {} is inside a character", l.off));
    }
    let (line, col) = line_col(text, l.off);
    if (line, col) != (l.line, l.col) {
        return Some(format!("offset {} is line {} column {}, reported {} / {}", l.off, line, col, l.line, l.col));
    }
    None
}
fn junk(r: &mut Rng, d: &Dict) -> String {
    match r.below(8) {
        0 => ")".repeat(r.range(1, 3)),
        1 => "(".into(),
        2 => format!("({}", r.pick(KEYWORDS)),
        3 => layout::wild(r, 2),
        4 => (0..r.range(1, 12)).map(|_| crate::mutate::any_char(r)).collect(),
        5 => r.pick(&["- object", "- (either a b)", "?x", "17", ".5", "1.5", "#t", "= 3", "()", "(and)", ":effect ()", "x", "-"]).to_string(),
        _ => {
            let nt = *r.pick(ALL_NT);
            let mut g = Gen::new(r.fork(), Knobs::small(), d);
            let s = g.gen(nt);
            render(&tokens_of(&s), Style::Pretty, false, r).0
        }
    }
}
use crate::layout;
fn remainder(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let d = ctx.dict.clone();
    if ctx.case % 6 == 5 {
        return sequence(ctx, &mut r);
    }
    let nt = if r.chance(1, 6) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(200);
    k.depth = k.depth.min(20);
    if is_doc(nt) {
        k.fuel = k.fuel.min(80);
    }
    let Some((seq, want)) = valid(ctx, &mut r, &k, nt) else { return };
    let style = *r.pick(STYLES);
    let (t, _) = render(&tokens_of(&seq), style, false, &mut r);
    if t.is_empty() {
        return;
    }
    let open = is_open_list(nt);
    let mut tail = junk(&mut r, &d);
    if open {
        tail = format!(")) {}", tail);
    }
    let gap = match r.below(4) {
        // Next to a parenthesis.
        0 if t.ends_with(')') || tail.starts_with('(') || tail.starts_with(')') => String::new(),
        1 => layout::wild(&mut r, 1),
        2 => "\n".into(),
        _ => " ".into(),
    };
    // A character that no token can go on with, right after the last token.
    let glued = !open && !t.ends_with(')') && r.chance(1, 4);
    if glued {
        ctx.count("glued_tails");
        tail = format!("{}{}", r.pick(&['.', '.', '.', '%', '&', '$', '!', '"', '\'', ',', '@', '^', '~', '|', '\\']), r.pick(&["", " ", " x", ")", "(and)", "\n1", "..", "%"]));
    }
    let (gap, tail) = if glued { (String::new(), tail) } else if r.chance(1, 8) { (String::new(), String::new()) } else if gap.is_empty() && !t.ends_with(')') && !tail.starts_with(['(', ')']) { (" ".to_string(), tail) } else { (gap, tail) };
    let gap = if !glued && !tail.is_empty() && r.chance(1, 200) { format!(" {}", layout::vast(&mut r)) } else { gap };
    let head = match r.below(5) {
        _ if r.chance(1, 100) => {
            ctx.count("vast_heads");
            format!("(x ){}", layout::vast(&mut r))
        }
        0 => String::new(),
        1 => "(x ".into(),
        2 => "äöü 日本\n; c\r\n 🚀 ".into(),
        3 => format!("{}\n", junk(&mut r, &d)),
        _ => "\n\n  ".into(),
    };
    // Alone with its tail.
    let one = format!("{}{}{}", t, gap, tail);
    let judge = |whole: &str, at: usize, out: &Out, have_loc: bool| -> Option<(&'static str, String)> {
        match out {
            Out::Ok(c, l) => {
                if let Some(d) = diff(&want, c) {
                    return Some(("value", d));
                }
                if !have_loc {
                    return None;
                }
                if let Some(m) = loc_wrong(whole, l) {
                    return Some(("location", m));
                }
                let end = at + t.len();
                let tail_at = end + gap.len();
                // The remainder starts at the end of the construct, up to layout.
                let tail_tok = lex(&whole[tail_at..]).first().map_or(whole.len(), |x| tail_at + x.0);
                if l.off < end || l.off > tail_tok {
                    return Some(("remainder", format!("remainder starts at {} instead of {}..={}: {}", l.off, end, tail_tok, short(&whole[l.off..]))));
                }
                None
            }
            o => Some(("rejected", format!("valid construct followed by other text not accepted: {}", o.brief()))),
        }
    };
    let e = entry(nt);
    let mut bad: Option<(&'static str, String, String)> = None;
    ctx.input(&one);
    ctx.saw(&one);
    let mut routes = vec![("parse(str)", one.clone(), 0usize, e.parse(&one), true), ("from_str", one.clone(), 0, e.parse_value(&one), false)];
    let whole = format!("{}{}", head, one);
    ctx.input(&whole);
    routes.push(("parse(span)", whole.clone(), head.len(), e.parse_at(&whole, head.len()).0, true));
    routes.push(("parse_span", whole.clone(), head.len(), e.parse_span(&whole, head.len()), true));
    if let Some(o) = e.parse_func(&whole, head.len()) {
        routes.push(("function", whole.clone(), head.len(), o, true));
    }
    for (route, w, at, out, have) in &routes {
        ctx.count(&format!("route:{}", route));
        if let Some((kind, m)) = judge(w, *at, out, *have) {
            bad = Some((kind, format!("{} of {:?}: {}", route, nt, m), w.clone()));
            break;
        }
    }
    if let Some((kind, m, w)) = bad {
        ctx.violation(format!("{}:{:?}", kind, nt), m, w);
        return;
    }
    // Corrupted: the routes still agree.
    let (toks, _) = crate::mutate::corrupt(&seq, &mut r, &d);
    let (x, _) = render(&toks, Style::Single, false, &mut r);
    let whole = format!("{}{}", head, x);
    ctx.input(&x);
    ctx.saw(&x);
    let a0 = e.parse(&x);
    let shift = |o: &Out| match o {
        Out::Ok(c, l) => Some((c.clone(), l.off - head.len())),
        _ => None,
    };
    let base = match &a0 {
        Out::Ok(c, l) => Some((c.clone(), l.off)),
        Out::Panic(m) => {
            ctx.violation(format!("panic:{:?}", nt), m.clone(), x);
            return;
        }
        _ => None,
    };
    ctx.count(if base.is_some() { "corrupted_accepted" } else { "corrupted_refused" });
    let mut outs = vec![("parse(span)", e.parse_at(&whole, head.len()).0), ("parse_span", e.parse_span(&whole, head.len()))];
    if let Some(o) = e.parse_func(&whole, head.len()) {
        outs.push(("function", o));
    }
    for (n, o) in &outs {
        if shift(o) != base {
            ctx.violation(format!("routes:{:?}", nt), format!("{} gives {}, parse(str) gives {}", n, o.brief(), a0.brief()), whole);
            return;
        }
    }
    let v = e.parse_value(&x);
    if v.value() != base.as_ref().map(|x| &x.0) {
        ctx.violation(format!("routes:{:?}", nt), format!("from_str gives {}, parse(str) gives {}", v.brief(), a0.brief()), x);
        return;
    }
    ctx.count(&format!("construct:{:?}", nt));
    ctx.sample(|| format!("{:?} at {} of {:?}", nt, head.len(), short(&format!("{}{}", head, one))));
}
/// A sequence of constructs, read one after the other.
fn sequence(ctx: &mut Ctx, r: &mut Rng) {
    let n = r.range(2, 12);
    let mut text = String::new();
    let mut want = vec![];
    for _ in 0..n {
        let nt = *r.pick(ALL_NT);
        if is_open_list(nt) {
            continue;
        }
        let mut k = Knobs::swarm(r);
        k.fuel = 25;
        k.list = k.list.min(5);
        k.depth = k.depth.min(4);
        let Some((seq, c)) = valid(ctx, r, &k, nt) else { continue };
        text.push_str(&layout::wild(r, 1));
        let at = text.len();
        let style = *r.pick(STYLES);
        text.push_str(&render(&tokens_of(&seq), style, false, r).0);
        want.push((nt, at, text.len(), c));
        text.push('\n');
    }
    ctx.input(&text);
    ctx.saw(&text);
    let mut pos = 0usize;
    for (nt, at, end, c) in &want {
        // Continue where the previous one stopped: only layout lies before the next construct.
        if pos > *at || !is_layout(&text[pos..*at]) {
            ctx.violation(format!("sequence:{:?}", nt), format!("the remainder before {:?} starts at {} instead of {}", nt, pos, at), text);
            return;
        }
        match entry(*nt).parse_at(&text, *at).0 {
            Out::Ok(g, l) => {
                if let Some(m) = loc_wrong(&text, &l).or_else(|| diff(c, &g)).or_else(|| (l.off < *end).then(|| format!("stopped at {} before the end {}", l.off, end))) {
                    ctx.violation(format!("sequence:{:?}", nt), m, text);
                    return;
                }
                pos = l.off;
            }
            o => {
                ctx.violation(format!("sequence:{:?}", nt), format!("{:?} at {}: {}", nt, at, o.brief()), text);
                return;
            }
        }
        ctx.count("read_in_sequence");
    }
}
// ---- P17: error locations
fn error_places(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let d = ctx.dict.clone();
    let nt = if r.chance(2, 3) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(60);
    k.depth = k.depth.min(12);
    k.fuel = k.fuel.min(100);
    let Some((seq, _)) = valid(ctx, &mut r, &k, nt) else { return };
    let base = tokens_of(&seq);
    for _ in 0..4 {
        let mut toks = base.clone();
        // Index of the corrupted token; whether that token is certainly where validity ends.
        let at = r.below(toks.len() + 1);
        let (kind, certain) = match r.below(6) {
            0 | 1 if at < toks.len() => {
                toks[at] = crate::mutate::illegal_token(&mut r);
                ("replaced", true)
            }
            2 => {
                toks.insert(at, crate::mutate::illegal_token(&mut r));
                ("inserted", true)
            }
            3 => {
                toks.truncate(at);
                ("truncated", true)
            }
            4 if at < toks.len() => {
                toks.remove(at);
                ("deleted", false)
            }
            _ => {
                let p = if r.chance(1, 2) { "(" } else { ")" };
                toks.insert(at, p.into());
                ("parenthesis", false)
            }
        };
        let style = *r.pick(&[Style::Single, Style::Pretty, Style::Blank, Style::Wild, Style::Tight]);
        let outer = is_doc(nt) && kind != "truncated";
        let (text, offs) = render(&toks, style, outer, &mut r);
        // The offending token, as it is read back.
        let fault = if at < offs.len() { offs[at] } else { text.len() };
        // An illegal token glued to nothing: tokens must read back as they were.
        let back = lex(&text);
        if back.len() != toks.len() || back.iter().zip(&toks).any(|(b, t)| b.1 != *t) {
            continue;
        }
        let bad = match trees(&toks) {
            None => true,
            Some(s) => elab(nt, &s) == Err(E::Bad),
        };
        if !bad {
            continue;
        }
        // Start of the top-level section that contains the spot.
        let section = {
            let mut depth = 0;
            let mut start = 0;
            let mut cur = 0usize;
            let base_depth_known = kind != "x";
            for i in 0..at.min(base.len()) {
                let t = base[i].as_str();
                if t == "(" {
                    if depth == 1 {
                        cur = i;
                    }
                    depth += 1;
                } else if t == ")" {
                    depth -= 1;
                    if depth == 1 {
                        cur = i + 1;
                    }
                }
            }
            if depth == 1 {
                cur = at.min(base.len());
                if at == 0 || at == 1 {
                    cur = 0;
                }
            }
            if depth <= 0 {
                cur = at;
            }
            let _ = base_depth_known;
            // Token `cur` of the original is token `cur` of the corrupted text: it is not after `at`.
            if cur < offs.len() {
                start = start.max(offs[cur]);
            } else {
                start = text.len();
            }
            start
        };
        ctx.input(&text);
        ctx.saw(&text);
        // Every way to parse reports errors; the text may also be a part of a larger one.
        let en = entry(nt);
        let before = format!("{}\n", r.pick(&["", "x", "; läyout", "(p ?x)\n ; λ", "\r\n\t", "(define (domain d))"]));
        let before = if r.chance(1, 400) { format!("{}{}", before, layout::vast(&mut r)) } else { before };
        let whole = format!("{}{}", before, text);
        let out = en.parse(&text);
        let mut outs = vec![("parse", &text, 0, out.clone()), ("from_str", &text, 0, en.parse_value(&text))];
        match r.below(3) {
            0 => outs.push(("parse_span inside", &whole, before.len(), en.parse_span(&whole, before.len()))),
            1 => outs.push(("parse inside", &whole, before.len(), en.parse_at(&whole, before.len()).0)),
            _ => {
                if let Some(o) = en.parse_func(&whole, before.len()) {
                    outs.push(("function inside", &whole, before.len(), o));
                }
            }
        }
        let Out::Err(..) = &out else {
            ctx.count("not_an_error");
            continue;
        };
        ctx.count(&format!("errors:{}", kind));
        let mut m: Option<(&'static str, String)> = None;
        for (route, input, base, o) in &outs {
            let Out::Err(_, locs) = o else {
                // Agreement of the entry points is another property.
                ctx.count("other_route_accepts");
                continue;
            };
            ctx.count(&format!("errors_by:{}", route));
            if locs.is_empty() {
                m = Some(("none", format!("{}: the error has no location", route)));
                break;
            }
            for (l, _) in locs {
                ctx.count("locations_checked");
                if let Some(x) = loc_wrong(input, l) {
                    m = Some(("location", format!("{}: {}", route, x)));
                } else if l.off < *base {
                    m = Some(("outside", format!("{}: location {} lies before the parsed piece at {}", route, l.off, base)));
                }
            }
            if m.is_some() {
                break;
            }
            let top = locs[0].0.off - base;
            // Inside the offending token is not after it.
            let past = if at < toks.len() { fault + toks[at].len() } else { fault + 1 };
            if certain && top >= past {
                m = Some(("late", format!("{}: reported at {} (after the fault at {})", route, top, fault)));
            }
            if is_doc(nt) && top < section && !is_layout(&text[top..section]) {
                m = Some(("early", format!("{}: reported at {}, before the section at {} with the fault at {}", route, top, section, fault)));
            }
            if m.is_some() {
                break;
            }
        }
        if let Some((sig, what)) = m {
            ctx.violation(format!("{}:{:?}", sig, nt), format!("{:?} ({}): {}", nt, kind, what), text);
            return;
        }
        ctx.count(&format!("construct:{:?}", nt));
        ctx.sample(|| format!("{:?} ({} at {}): {} => {}", nt, kind, fault, text, out.brief()));
    }
    let _ = d;
}
pub fn props() -> Vec<Prop> {
    macro_rules! fid {
        ($id:literal, $mix:ident, $tune:ident, $q:expr, $t:expr, $floors:expr) => {
            Prop { id: $id, rule: RULE, quick: $q, thorough: $t, case: |c, _| fidelity(c, $mix, $tune), floors: $floors, ..BASE }
        };
    }
    vec![
        fid!("P01", P01, keep, 60_000, 3_000_000, &[("construct:Domain", 20_000), ("node:action", 10_000), ("node:da", 4_000), ("node:derived", 4_000), ("lists_of_66000_elements", 18), ("nesting_of_300_levels", 17)]),
        fid!("P02", P02, keep, 60_000, 3_000_000, &[("construct:Problem", 20_000), ("node:init", 20_000), ("node:metric", 5_000), ("node:length", 5_000), ("lists_of_66000_elements", 12), ("nesting_of_300_levels", 13)]),
        fid!("P03", P03, longer, 80_000, 4_000_000, &[("node:typed", 100_000), ("node:either", 20_000), ("node:fskel", 20_000), ("lists_of_66000_elements", 40), ("nesting_of_300_levels", 24)]),
        fid!("P04", P04, deeper, 100_000, 4_000_000, &[("node:imply", 10_000), ("node:exists", 10_000), ("node:pref", 5_000), ("node:pforall", 1_000), ("node:cmp", 10_000), ("lists_of_66000_elements", 22), ("nesting_of_300_levels", 29)]),
        fid!("P05", P05, keep, 100_000, 4_000_000, &[("node:add", 20_000), ("node:del", 20_000), ("node:num", 20_000), ("node:obj", 5_000), ("node:when-e", 5_000), ("lists_of_66000_elements", 16), ("nesting_of_300_levels", 17)]),
        fid!("P06", P06, keep, 80_000, 4_000_000, &[("node:da", 10_000), ("node:tcond", 10_000), ("node:tnum", 5_000), ("node:tcont", 5_000), ("node:dop", 5_000), ("lists_of_66000_elements", 15), ("nesting_of_300_levels", 32)]),
        fid!("P07", P07, deeper, 100_000, 4_000_000, &[("node:bin", 20_000), ("node:multi", 10_000), ("node:minus", 5_000), ("node:is-violated", 2_000), ("lists_of_66000_elements", 7), ("nesting_of_300_levels", 29)]),
        fid!("P08", P08, deeper, 100_000, 4_000_000, &[("node:always", 5_000), ("node:hold-during", 5_000), ("node:always-within", 5_000), ("node:c", 10_000), ("node:g", 10_000), ("node:cpref", 2_000), ("lists_of_66000_elements", 16), ("nesting_of_300_levels", 49)]),
        fid!("P09", P09, longer, 100_000, 4_000_000, &[("node:val", 20_000), ("node:objval", 10_000), ("node:at", 10_000), ("node:neg", 10_000), ("lists_of_66000_elements", 9), ("nesting_of_300_levels", 4)]),
        Prop {
            id: "P10",
            rule: "every keyword and 30 spellings near it at every identifier position of small texts of every construct; identifiers at random positions of valid texts are replaced by keywords, near-keywords and long or random names (where the reference reading stays unambiguous), parsed, and compared with the reference; names of one text are compared pairwise with their spellings; distinct = distinct texts",
            quick: 250_000,
            thorough: 10_000_000,
            case: |c, _| identifiers(c),
            floors: &[("identifier_positions_tried", 200_000), ("sweep_positions_tried", 200_000), ("name_pairs_compared", 1_000_000)],
            ..BASE
        },
        Prop {
            id: "P11",
            rule: "decimal literals at and around rounding boundaries, long, tiny, huge and random ones, in every position of the grammar that takes a number, compared bit by bit with exact big-number rounding; distinct = distinct texts",
            quick: 400_000,
            thorough: 20_000_000,
            case: |c, _| numbers(c),
            floors: &[("literals_of_many_digits", 50), ("literals_representable", 200_000), ("literals_too_large", 10_000), ("float_conversions", 200_000), ("text_conversions", 200_000)],
            ..BASE
        },
        Prop {
            id: "P12",
            rule: "each valid token sequence is rendered in 7 layouts (single spaces, minimal, indented, random blanks and CRLF, random comments three times); all must be accepted with results equal under the library's == and under the reference; distinct = distinct rendered texts",
            quick: 30_000,
            thorough: 1_500_000,
            case: |c, _| layouts(c),
            floors: &[("vast_layouts", 100), ("style:Wild", 80_000), ("style:Tight", 25_000), ("comments", 100_000), ("line_ends_crlf", 100_000)],
            ..BASE
        },
        Prop {
            id: "P13",
            rule: "valid token trees are corrupted (tokens or subtrees deleted, inserted, repeated, swapped, misspelled, replaced; sections moved or repeated; illegal characters; truncation); whatever the library consumes must be a valid text of the construct by the three-valued reference reading; distinct = distinct corrupted texts",
            quick: 100_000,
            thorough: 5_000_000,
            case: |c, _| malformed(c),
            floors: &[("outcome:refused", 200_000), ("outcome:prefix-accepted", 5_000), ("corruption:token-deleted", 10_000), ("corruption:element-repeated", 5_000)],
            ..BASE
        },
        Prop {
            id: "P14",
            rule: "a valid construct is followed by other text (constructs, junk, comments, nothing) and placed at an offset inside a larger text; value, remainder offset, line, column and pointer are compared with the truth over all entry points; sequences are read one after the other; corrupted texts are compared between entry points; distinct = distinct texts",
            quick: 80_000,
            thorough: 4_000_000,
            case: |c, _| remainder(c),
            floors: &[("vast_heads", 200), ("route:parse(str)", 50_000), ("route:parse(span)", 50_000), ("route:function", 50_000), ("read_in_sequence", 50_000), ("corrupted_refused", 20_000)],
            ..BASE
        },
        Prop {
            id: "P17",
            rule: "valid texts with one corrupted spot (token replaced or inserted that no PDDL text contains, truncation, deletion, extra parenthesis); every location of the error is checked against the text, the reported one against the first invalid token and the start of the top-level section; distinct = distinct corrupted texts",
            quick: 60_000,
            thorough: 3_000_000,
            case: |c, _| error_places(c),
            floors: &[("errors:replaced", 20_000), ("errors:inserted", 10_000), ("errors:truncated", 10_000), ("errors_by:from_str", 50_000), ("errors_by:parse inside", 10_000), ("locations_checked", 300_000)],
            ..BASE
        },
    ]
}
