//! Small workloads for the undefined-behaviour interpreter.
//!
//! `race <seed>`: a few threads create names and parse at once; the interpreter chooses a schedule (its own
//! seed) and watches for data races, deadlocks and invalid memory accesses, this program for wrong results.
//! `text <seed> <n>`: valid, corrupted and arbitrary texts through all parsers.
//!
//! Prints one line per run: `SEEN ...` or `BAD <signature>|<what>|<input>`.
#![allow(dead_code)]
#[path = "../../harness/src/canon.rs"]
mod canon;
#[path = "../../harness/src/entries.rs"]
mod entries;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/layout.rs"]
mod layout;
#[path = "../../harness/src/mk.rs"]
mod mk;
#[path = "../../harness/src/mutate.rs"]
mod mutate;
#[path = "../../harness/src/num.rs"]
mod num;
#[path = "../../harness/src/proj.rs"]
mod proj;
#[path = "../../harness/src/refel.rs"]
mod refel;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sx.rs"]
mod sx;
#[path = "../../harness/src/views.rs"]
mod views;
use entries::{entry, Out};
use pddl::{Name, Variable};
use refel::NT;
use rng::Rng;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

fn bad(sig: &str, what: &str, input: &str) -> ! {
    println!("BAD {}|{}|{}", sig, what.replace('\n', "\\n"), input.replace('\n', "\\n"));
    std::process::exit(0)
}
/// Texts that are quick to parse, with names of their own.
fn small_text(r: &mut Rng, p: &str) -> (NT, String) {
    match r.below(8) {
        0 => (NT::Gd, format!("(and ({p}-a ?{p}-x) (not (= {p}-y ?{p}-x)))")),
        1 => (NT::ListName, format!("{p}-a {p}-b - {p}-t {p}-c - (either {p}-t {p}-u)")),
        2 => (NT::ListVar, format!("?{p}-a ?{p}-b - {p}-t")),
        3 => (NT::Effect, format!("(increase ({p}-a) (+ 1 {p}-b))")),
        4 => (NT::RequireDef, "(:requirements :typing :adl)".into()),
        5 => (NT::Type, format!("(either {p}-t {p}-u)")),
        6 => (NT::Gd, format!("(and ({p}-a ?{p}-x) (not")),
        _ => (NT::PredicatesDef, format!("(:predicates ({p}-a ?{p}-x - {p}-t))")),
    }
}
/// A text whose conversion ends in a panic.
struct Panics(String);
impl AsRef<str> for Panics {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl From<Panics> for String {
    fn from(_: Panics) -> String {
        std::panic::panic_any("planned")
    }
}
fn race(seed: u64) {
    let mut r = Rng::new(seed ^ 0x9e37_79b9_7f4a_7c15);
    let threads = r.range(2, 4);
    let p = format!("m{}", seed % 1000);
    let spell: Vec<String> = (0..r.range(1, 3)).map(|i| format!("{}-{}", p, ["a", "b", "t"][i])).chain([["object".to_string(), "é-x".into(), "".into()][r.below(3)].clone()]).collect();
    // Parsing takes the interpreter a second, creating a name a few milliseconds.
    let (n_texts, most) = if r.chance(1, 3) { (r.range(1, 2), 2) } else { (0, 8) };
    let texts: Vec<(NT, String)> = (0..n_texts).map(|_| small_text(&mut r, &p)).collect();
    let panics = r.chance(1, 3);
    let jobs: Vec<Vec<usize>> = (0..threads).map(|_| (0..r.range(1, most)).map(|_| r.below(spell.len() + texts.len())).collect()).collect();
    let describe = format!("{:?} {:?} {:?}", spell, texts, jobs);
    let (spell, texts) = (Arc::new(spell), Arc::new(texts));
    let barrier = Arc::new(Barrier::new(threads));
    let clock = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = jobs
        .iter()
        .cloned()
        .map(|js| {
            let (spell, texts, barrier, clock) = (spell.clone(), texts.clone(), barrier.clone(), clock.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let (mut names, mut outs, mut ticks, mut planned) = (vec![], vec![], vec![], 0);
                for j in js {
                    ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                    if panics && j == 0 && ticks.len() == 2 {
                        let _ = std::panic::catch_unwind(|| Name::new(Panics(spell[0].clone())));
                        planned += 1;
                    } else if j < spell.len() {
                        let s = &spell[j];
                        let n = match j % 3 {
                            0 => Name::new(s.as_str()),
                            1 => Name::from(s.clone()),
                            _ => AsRef::<Name>::as_ref(&Variable::from(s.as_str())).clone(),
                        };
                        names.push((j, n));
                    } else {
                        let (nt, t) = &texts[j - spell.len()];
                        outs.push((j - spell.len(), entry(*nt).parse(t)));
                    }
                }
                (names, outs, ticks, planned)
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        match h.join() {
            Ok(x) => all.push(x),
            Err(_) => bad("thread-panic", "a thread ended in a panic", &describe),
        }
    }
    let alone: Vec<Out> = texts.iter().map(|(nt, t)| entry(*nt).parse(t)).collect();
    let mut order = vec![];
    let (mut n_names, mut n_parses, mut n_panics) = (0, 0, 0);
    for (me, (names, outs, ticks, planned)) in all.iter().enumerate() {
        n_panics += planned;
        order.extend(ticks.iter().map(|t| (*t, me)));
        for (i, o) in outs {
            n_parses += 1;
            if *o != alone[*i] {
                bad("parse-differs", &format!("concurrent: {} alone: {}", o.brief(), alone[*i].brief()), &describe);
            }
        }
        for (j, n) in names {
            n_names += 1;
            let s = &spell[*j];
            if *n != s.as_str() || &**n != s.as_str() {
                bad("spelling", &format!("a name made from {:?} reads {:?}", s, &**n), &describe);
            }
            let again = Name::new(s.as_str());
            if *n != again {
                bad("equal", &format!("a name {:?} made concurrently is not equal to one made afterwards", s), &describe);
            }
            if !s.is_empty() && n.as_ptr() != again.as_ptr() && cfg!(feature = "interning") {
                bad("sharing", &format!("names {:?} made concurrently do not share one stored string", s), &describe);
            }
        }
    }
    order.sort();
    let order: String = order.iter().map(|x| (b'A' + x.1 as u8) as char).collect();
    println!("SEEN race names={} parses={} panics={} order={} {}", n_names, n_parses, n_panics, order, describe.replace('\n', "\\n"));
}
fn text(seed: u64, n: u64) {
    let dict = gen::Dict { names: vec!["speed".into()], ints: vec![7], words: vec!["undefined".into()] };
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i) ^ 0x51_7c_c1b7);
        let nt = *r.pick(refel::ALL_NT);
        let mut k = gen::Knobs::small();
        k.depth = r.below(3);
        let seq = gen::Gen::new(r.fork(), k, &dict).gen(nt);
        let style = *r.pick(layout::STYLES);
        let t = match r.below(4) {
            0 => {
                let (toks, _) = mutate::corrupt(&seq, &mut r, &dict);
                layout::render(&toks, style, false, &mut r).0
            }
            1 => {
                let t = layout::render(&sx::tokens_of(&seq), style, false, &mut r).0;
                let mut cs: Vec<char> = t.chars().collect();
                for _ in 0..r.range(1, 4) {
                    let at = r.below(cs.len() + 1);
                    cs.insert(at, mutate::any_char(&mut r));
                }
                cs.truncate(r.range(1, cs.len() + 1));
                cs.into_iter().collect()
            }
            _ => layout::render(&sx::tokens_of(&seq), style, false, &mut r).0,
        };
        let a = entry(nt).parse(&t);
        if let Out::Panic(m) = &a {
            bad("panic", m, &t);
        }
        let b = entry(nt).parse(&t);
        if a != b {
            bad("unstable", &format!("{} then {}", a.brief(), b.brief()), &t);
        }
        let kind = match a {
            Out::Ok(..) => "ok",
            Out::Err(..) => "error",
            Out::Panic(_) => "panic",
        };
        println!("SEEN text {:?} {} len={}", nt, kind, t.len());
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<u64> = std::env::args().skip(2).filter_map(|x| x.parse().ok()).collect();
    match std::env::args().nth(1).as_deref() {
        Some("warm") => println!("WARM"),
        Some("race") => race(a[0]),
        Some("text") => text(a[0], a[1]),
        _ => std::process::exit(2),
    }
}
