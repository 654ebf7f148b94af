//! Effort monitor: allocations and processor time of parses over scaled families of texts.
use crate::entries::*;
use crate::fw::*;
use crate::mon_text::*;
use crate::mutate::*;
use crate::refel::*;
use crate::rng::Rng;
use crate::sx::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn tally(n: usize) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tally(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tally(n);
        System.realloc(p, l, n)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub allocs: u64,
    pub bytes: u64,
    pub ns: u64,
    pub ok: bool,
}
/// Effort of the parser alone (not of the monitor's projection of the result).
pub fn cost(nt: NT, text: &str) -> Cost {
    let (a, b) = (ALLOCS.with(|c| c.get()), BYTES.with(|c| c.get()));
    let t = cpu_ns(true);
    let r = entry(nt).run_only(text);
    let t2 = cpu_ns(true);
    Cost { allocs: ALLOCS.with(|c| c.get()) - a, bytes: BYTES.with(|c| c.get()) - b, ns: t2 - t, ok: r }
}
// ---- families
type W = &'static [&'static str];
const GD_W: W = &["(not @)", "(and @)", "(and @ (p))", "(and (p) @)", "(or @)", "(or @ (p))", "(or (p) @)", "(imply @ (p))", "(imply (p) @)", "(exists (?x - t) @)", "(forall (?x ?y) @)", "(exists () @)"];
const GD_L: W = &["(p ?x)", "(= ?x ?y)", "(< (f) 1)", "(p)", "(>= 1 (+ 1 2))", "(= (f) 3)", "(p (g a) ?x)"];
const EXP_W: W = &["(- @)", "(+ @ 1)", "(+ 1 @)", "(- @ 1)", "(- (f) @)", "(/ @ 2)", "(/ 2 @)", "(* @ 1 1)", "(* 1 1 @)", "(* 1 @ 1)", "(+ @ (f) (g ?x))"];
const EXP_L: W = &["1", "(f)", "f", "(f ?x a)", "0.5"];
const PRE_W: W = &["(and @)", "(and (p) @)", "(and @ (p))", "(forall (?x) @)", "(and (preference n (p)) @)"];
const EFF_W: W = &["(and @)", "(and (p) @)", "(and @ (p))", "(forall (?x) @)", "(forall (?x) (and @ (p)))"];
const EFF_L: W = &["(p)", "(not (p))", "(when (p) (q))", "(when (p) (and (q) (not (p))))", "(increase (f) 1)", "(assign (f) a)", "(forall (?x) (p ?x))"];
const CON_W: W = &[
    "(and @)", "(and @ (always (p)))", "(and (always (p)) @)", "(forall (?x) @)", "(always @)", "(sometime @)", "(within 1 @)", "(at-most-once @)", "(sometime-after @ (p))",
    "(sometime-after (p) @)", "(sometime-before @ (p))", "(sometime-before (p) @)", "(always-within 1 @ (p))", "(always-within 1 (p) @)", "(hold-during 1 2 @)", "(hold-after 1 @)",
];
const CON_L: W = &["(always (p))", "(at end (p))", "(sometime (and (p) (q)))", "(within 1 (p))"];
const PCON_W: W = &["(and @)", "(and @ (always (p)))", "(and (preference n (always (p))) @)", "(forall (?x) @)"];
const DAG_W: W = &["(and @)", "(and @ (at start (p)))", "(and (over all (p)) @)", "(forall (?x) @)"];
const DAG_L: W = &["(at start (p))", "(over all (p))", "(preference n (at end (p)))"];
const DAE_W: W = &["(and @)", "(and @ (at start (p)))", "(and (at end (p)) @)", "(forall (?x) @)"];
const DAE_L: W = &["(at start (p))", "(at end (not (p)))", "(when (at start (p)) (at end (q)))", "(at end (increase (f) ?duration))", "(increase (f) (* #t 1))"];
const TERM_W: W = &["(f @)", "(f a @)", "(f @ ?x)"];
const DUREXP_L: W = &["?duration", "1", "(f)"];
const MET_L: W = &["1", "(f)", "total-time", "(is-violated n)", "(total-time)", "(f a)"];
/// Nested constructs: how deeper levels are written, and what surrounds them.
struct Nest {
    name: &'static str,
    wraps: W,
    leaves: W,
    /// `@` in a position of this construct.
    around: &'static [(NT, &'static str)],
}
const DOM_A: &str = "(define (domain d) (:predicates (p)) (:action a :parameters (?x) :precondition @ :effect (p)))";
const DOM_E: &str = "(define (domain d) (:action a :parameters () :effect @))";
const DOM_D: &str = "(define (domain d) (:durative-action a :parameters () :duration (= ?duration 1) :condition @ :effect ()))";
const DOM_DE: &str = "(define (domain d) (:durative-action a :parameters () :duration () :condition () :effect @))";
const PRB_G: &str = "(define (problem p) (:domain d) (:init) (:goal @))";
const NESTS: &[Nest] = &[
    Nest { name: "goal", wraps: GD_W, leaves: GD_L, around: &[(NT::Gd, "@"), (NT::PreGd, "@"), (NT::PrefGd, "@"), (NT::Goal, "(:goal @)"), (NT::Domain, DOM_A), (NT::Problem, PRB_G), (NT::Derived, "(:derived (p) @)"), (NT::ConGd, "(always @)"), (NT::TimedGd, "(at start @)"), (NT::DaGd, "(at start @)"), (NT::Effect, "(when @ (p))"), (NT::PrefTimedGd, "(preference (over all @))")] },
    Nest { name: "expression", wraps: EXP_W, leaves: EXP_L, around: &[(NT::FExp, "@"), (NT::FComp, "(< @ 1)"), (NT::Gd, "(>= 1 @)"), (NT::PEffect, "(increase (f) @)"), (NT::Effect, "(and (increase (f) @))"), (NT::MetricFExp, "@"), (NT::Problem, "(define (problem p) (:domain d) (:init) (:goal (p)) (:metric minimize @))"), (NT::FExpDa, "@"), (NT::DValue, "@"), (NT::DurConstraint, "(= ?duration @)"), (NT::FExpT, "(* #t @)"), (NT::FExpT, "(* @ #t)"), (NT::Domain, DOM_E_INC), (NT::TimedEffect, "(increase (f) (* #t @))"), (NT::Effect, "(assign (f) @)")] },
    Nest { name: "timed-expression", wraps: EXP_W, leaves: DUREXP_L, around: &[(NT::FExpDa, "@"), (NT::FAssignDa, "(assign (f) @)"), (NT::TimedEffect, "(at end (increase (f) @))"), (NT::DaEffect, "(and (at start (decrease (f) @)))"), (NT::Domain, DOM_DE_INC)] },
    Nest { name: "metric", wraps: EXP_W, leaves: MET_L, around: &[(NT::MetricFExp, "@"), (NT::Metric, "(:metric maximize @)")] },
    Nest { name: "precondition", wraps: PRE_W, leaves: GD_L, around: &[(NT::PreGd, "@"), (NT::Domain, DOM_A), (NT::Problem, PRB_G), (NT::ActionDef, "(:action a :parameters () :precondition @)")] },
    Nest { name: "effect", wraps: EFF_W, leaves: EFF_L, around: &[(NT::Effect, "@"), (NT::Domain, DOM_E), (NT::CEffect, "(forall (?x) @)"), (NT::ForallC, "(forall (?x) @)"), (NT::ActionDef, "(:action a :parameters () :effect @)")] },
    Nest { name: "constraint", wraps: CON_W, leaves: CON_L, around: &[(NT::ConGd, "@"), (NT::Con2Gd, "@"), (NT::PrefConGd, "(preference n @)"), (NT::DomainConstraints, "(:constraints @)"), (NT::ProblemConstraints, "(:constraints @)"), (NT::Domain, "(define (domain d) (:constraints @))")] },
    Nest { name: "constraint-goal", wraps: CON_W, leaves: &["(p)", "(and (p) (q))", "(p ?x)"], around: &[(NT::Con2Gd, "@"), (NT::ConGd, "(always @)")] },
    Nest { name: "preferred-constraint", wraps: PCON_W, leaves: CON_L, around: &[(NT::PrefConGd, "@"), (NT::ProblemConstraints, "(:constraints @)"), (NT::Problem, "(define (problem p) (:domain d) (:init) (:goal (p)) (:constraints @))")] },
    Nest { name: "timed-condition", wraps: DAG_W, leaves: DAG_L, around: &[(NT::DaGd, "@"), (NT::Domain, DOM_D), (NT::DaDef, "(:durative-action a :parameters () :duration () :condition @ :effect ())")] },
    Nest { name: "timed-effect", wraps: DAE_W, leaves: DAE_L, around: &[(NT::DaEffect, "@"), (NT::Domain, DOM_DE)] },
    Nest { name: "term", wraps: TERM_W, leaves: &["a", "?x", "(g)"], around: &[(NT::Term, "@"), (NT::AtomTerm, "(p @)"), (NT::Gd, "(p @ ?x)"), (NT::Gd, "(= @ ?x)"), (NT::FExp, "(f @)"), (NT::Effect, "(p @)"), (NT::Effect, "(assign (f) @)"), (NT::FHead, "(f @)"), (NT::FunctionTerm, "(f @)")] },
];
const DOM_E_INC: &str = "(define (domain d) (:action a :parameters () :effect (and (increase (f) @))))";
const DOM_DE_INC: &str = "(define (domain d) (:durative-action a :parameters () :duration () :condition () :effect (and (at end (increase (f) @)))))";
/// Long lists: start, element, end.
pub const LISTS: &[(NT, &str, &str, &str)] = &[
    (NT::ListName, "", "a ", ""),
    (NT::ListName, "", "a ", "- t"),
    (NT::ListName, "", "a - t ", ""),
    (NT::ListName, "", "a b - (either t u) ", ""),
    (NT::ListVar, "", "?x ", ""),
    (NT::ListVar, "", "?x - t ", ""),
    (NT::ListVar, "", "?x ?y - t ", "- u"),
    (NT::ListFun, "", "(f ?x) ", ""),
    (NT::ListFun, "", "(f ?x) - number ", ""),
    (NT::ListFun, "", "(f) (g ?x - t) - t ", "(h)"),
    (NT::Type, "(either ", "t ", ")"),
    (NT::TypesDef, "(:types ", "a - b ", ")"),
    (NT::TypesDef, "(:types ", "a ", ")"),
    (NT::ConstantsDef, "(:constants ", "a ", "- t)"),
    (NT::Objects, "(:objects ", "a b - t ", ")"),
    (NT::PredicatesDef, "(:predicates ", "(p ?x ?y - t) ", ")"),
    (NT::FunctionsDef, "(:functions ", "(f ?x) - number ", ")"),
    (NT::RequireDef, "(:requirements ", ":typing ", ")"),
    (NT::Init, "(:init ", "(p a b) ", ")"),
    (NT::Init, "(:init ", "(not (p a b)) ", ")"),
    (NT::Init, "(:init ", "(= (f a) 1.5) ", ")"),
    (NT::Init, "(:init ", "(= (f a) b) ", ")"),
    (NT::Init, "(:init ", "(at 5 (p a)) ", ")"),
    (NT::Init, "(:init ", "(at a b) ", ")"),
    (NT::Timeless, "(:timeless ", "(p a) ", ")"),
    (NT::Gd, "(and ", "(p ?x) ", ")"),
    (NT::Gd, "(or ", "(not (p a)) ", ")"),
    (NT::Gd, "(and ", "(> (f) 1) ", ")"),
    (NT::Gd, "(forall (", "?x - t ", ") (p))"),
    (NT::Gd, "(p ", "?x ", ")"),
    (NT::Gd, "(p ", "(f a) ", ")"),
    (NT::PreGd, "(and ", "(preference n (p)) ", ")"),
    (NT::PreGd, "(and ", "(forall (?x) (p ?x)) ", ")"),
    (NT::Goal, "(:goal (and ", "(p a) ", "))"),
    (NT::Effect, "(and ", "(not (p ?x)) ", ")"),
    (NT::Effect, "(and ", "(when (p) (q)) ", ")"),
    (NT::Effect, "(and ", "(forall (?x) (p ?x)) ", ")"),
    (NT::Effect, "(and ", "(increase (f) 1) ", ")"),
    (NT::Effect, "(when (p) (and ", "(p) ", "))"),
    (NT::FExp, "(+ ", "1 ", ")"),
    (NT::FExp, "(* ", "(f) ", "2)"),
    (NT::FExpDa, "(+ ", "?duration ", ")"),
    (NT::MetricFExp, "(+ ", "(is-violated n) ", ")"),
    (NT::Metric, "(:metric minimize (+ ", "(f a) ", "))"),
    (NT::ConGd, "(and ", "(always (p)) ", ")"),
    (NT::PrefConGd, "(and ", "(preference n (at end (p))) ", ")"),
    (NT::DomainConstraints, "(:constraints (and ", "(sometime (p)) ", "))"),
    (NT::DaGd, "(and ", "(at start (p)) ", ")"),
    (NT::DaEffect, "(and ", "(at end (not (p))) ", ")"),
    (NT::DurConstraint, "(and ", "(<= ?duration 5) ", ")"),
    (NT::Domain, "(define (domain d) ", "(:action a :parameters (?x - t) :precondition (p ?x) :effect (not (p ?x))) ", ")"),
    (NT::Domain, "(define (domain d) ", "(:durative-action a :parameters () :duration (= ?duration 1) :condition (at start (p)) :effect (at end (p))) ", ")"),
    (NT::Domain, "(define (domain d) ", "(:derived (p ?x) (q ?x)) ", ")"),
    (NT::Domain, "(define (domain d) (:extends ", "e ", "))"),
    (NT::Problem, "(define (problem p) (:domain d) (:init ", "(p a) (= (f) 2) ", ") (:goal (p)))"),
    (NT::Problem, "(define (problem p) (:domain d) (:objects ", "o - t ", ") (:init) (:goal (p)))"),
    (NT::Domain, "(define (domain d) ", ";comment\n", ")"),
    (NT::Domain, "(define (domain d) ", ";\n", ")"),
    (NT::Domain, "", ";comment\n", "(define (domain d))"),
    (NT::Domain, "(define (domain d)", " ", ")"),
    (NT::Domain, "(define (domain d) (:requirements :strips)", "\n", ")"),
    (NT::Domain, "(define (domain d) ;", "c", "\n)"),
    (NT::Domain, "(define (domain ", "d", "))"),
    (NT::Name, "n", "-x", ""),
    (NT::Variable, "?", "v1", ""),
    (NT::Number, "1.", "25", ""),
    (NT::Number, "0", "0", ".5"),
];
/// A nested text.
pub fn nest_text(r: &mut Rng, max: usize) -> (NT, String) {
    let f = r.pick(NESTS);
    let (nt, around) = *r.pick(f.around);
    let mut s = r.pick(f.leaves).to_string();
    for _ in 0..r.range(1, max) {
        s = r.pick(f.wraps).replacen('@', &s, 1);
    }
    (nt, around.replacen('@', &s, 1))
}
/// Every way of nesting, to a depth: construct, name, text.
pub fn deep_texts(depth: usize) -> Vec<(NT, String, String)> {
    let mut v = vec![];
    for f in NESTS {
        for (k, w) in f.wraps.iter().enumerate() {
            let (nt, around) = f.around[k % f.around.len()];
            let (a, b) = w.split_once('@').unwrap();
            let s = format!("{}{}{}", a.repeat(depth), f.leaves[k % f.leaves.len()], b.repeat(depth));
            v.push((nt, format!("{} {}", f.name, w), around.replacen('@', &s, 1)));
        }
        let (nt, around) = f.around[0];
        // Never closed.
        let s = f.wraps[0].split_once('@').unwrap().0.repeat(depth);
        v.push((nt, format!("{} {} unclosed", f.name, f.wraps[0]), around.split_once('@').unwrap().0.to_string() + &s));
    }
    for c in ["(", "((", "(and(", "(not ", "(f ", "(- "] {
        for nt in [NT::Domain, NT::Problem, NT::Gd, NT::FExp, NT::Effect, NT::ConGd, NT::DaGd, NT::DaEffect, NT::Term, NT::MetricFExp] {
            v.push((nt, format!("repeated {:?}", c), c.repeat(depth)));
        }
    }
    v.push((NT::Domain, "comment lines".into(), format!("{}(define (domain d))", ";x\n".repeat(depth))));
    v.push((NT::Domain, "empty lines".into(), format!("(define{} (domain d))", "\n".repeat(depth))));
    v
}
fn nested(ctx: &mut Ctx, r: &mut Rng) {
    let f = r.pick(NESTS);
    let period = r.range(1, 3);
    let ws: Vec<&str> = (0..period).map(|_| *r.pick(f.wraps)).collect();
    let leaf = *r.pick(f.leaves);
    let (nt, around) = *r.pick(f.around);
    let breakage = *r.pick(&["", "", "leaf-illegal", "leaf-other", "unclosed", "leaf-extra", "outer-extra", "closing-early"]);
    let pretty = r.chance(1, 4);
    let build = |d: usize| -> String {
        let mut x = match breakage {
            "leaf-illegal" => "(p ?x %)".to_string(),
            "leaf-other" => "(preference)".to_string(),
            "leaf-extra" => format!("{} )", leaf),
            _ => leaf.to_string(),
        };
        let (mut pre, mut post) = (String::new(), vec![]);
        for i in 0..d {
            let (a, b) = ws[i % ws.len()].split_once('@').unwrap();
            pre.push_str(a);
            if pretty {
                pre.push('\n');
            }
            post.push(b);
        }
        let mut s = pre;
        s.push_str(&x);
        x.clear();
        for b in post.iter().rev() {
            s.push_str(b);
        }
        let mut t = around.replacen('@', &s, 1);
        match breakage {
            "unclosed" => {
                let n = t.trim_end_matches(')').len();
                t.truncate(n + (t.len() - n) / 2);
            }
            "outer-extra" => {
                t.pop();
                t.push_str(" % )");
            }
            "closing-early" => {
                let n = t.trim_end_matches(')').len();
                t.insert_str(n, "))");
            }
            _ => {}
        }
        t
    };
    let label = format!("{} {:?} of {:?} around {} broken:{}", f.name, nt, ws, leaf, breakage);
    let mut prev: Option<(usize, Cost)> = None;
    let top = if ctx.tier == Tier::Quick { 96 } else { 192 };
    let (mut d, mut again) = (6, 0);
    while d <= top {
        let t = build(d);
        ctx.input(&t);
        let c = cost(nt, &t);
        ctx.saw(&t);
        ctx.count("nested_parses");
        if c.ok {
            ctx.count("nested_accepted");
        }
        if let Some((pd, p)) = prev {
            // Cubic growth would be 8 per doubling; anything exponential passes every bound.
            let ra = (c.allocs + 50) as f64 / (p.allocs + 50) as f64;
            let rb = (c.bytes + 20_000) as f64 / (p.bytes + 20_000) as f64;
            ctx.max("alloc_growth_per_doubled_depth_x100", (ra * 100.0) as u64);
            let slow = c.ns > 300_000_000 && c.ns as f64 / (p.ns.max(1_000_000)) as f64 > 30.0;
            if again == 0 && (ra > 12.0 || rb > 16.0 || slow) {
                // Measured again: the table of names may just have grown.
                again = 1;
                let t0 = build(pd);
                prev = Some((pd, cost(nt, &t0)));
                continue;
            }
            if ra > 12.0 || rb > 16.0 || slow {
                ctx.violation(
                    format!("nesting:{}", f.name),
                    format!("{}: depth {} costs {} allocations, {} bytes, {} us; depth {} costs {} allocations, {} bytes, {} us", label, pd, p.allocs, p.bytes, p.ns / 1000, d, c.allocs, c.bytes, c.ns / 1000),
                    build(12),
                );
                return;
            }
        }
        // Effort per token and level.
        let toks = lex(&t).len() as u64;
        let lim = 60 * toks * (d as u64) + 5_000;
        ctx.max("allocs_per_token_nested_x100", c.allocs * 100 / toks);
        if c.allocs > lim {
            ctx.violation(format!("nesting:{}", f.name), format!("{}: depth {} ({} tokens) costs {} allocations", label, d, toks, c.allocs), build(12));
            return;
        }
        prev = Some((d, c));
        again = 0;
        d *= 2;
    }
    ctx.count(&format!("family:{}", f.name));
    ctx.sample(|| format!("{}: {}", label, build(4)));
}
fn listed(ctx: &mut Ctx, r: &mut Rng, which: usize) {
    let (nt, pre, el, post) = LISTS[which % LISTS.len()];
    let breakage = (which / LISTS.len()) % 4;
    let build = |n: usize| -> String {
        let mut s = String::from(pre);
        s.push_str(&el.repeat(n));
        match breakage {
            1 => s.push_str(" % "),
            2 => s.push_str(" (preference) "),
            3 => s.push_str(" :zzz "),
            _ => {}
        }
        s.push_str(post);
        if breakage == 3 {
            s.truncate(s.trim_end_matches(')').len());
        }
        s
    };
    let long = el.len() <= 3;
    let sizes: [usize; 4] = if ctx.tier == Tier::Quick { [64, 512, 4096, 16384] } else { [64, 1024, 8192, 65536] };
    let mut prev: Option<(usize, Cost)> = None;
    for n in sizes {
        let n = if long { n * 4 } else { n };
        let t = build(n);
        ctx.input(&t);
        let mut c = cost(nt, &t);
        ctx.saw(&t);
        ctx.count("list_parses");
        if let Some((pn, mut p)) = prev {
            let k = (n / pn) as f64;
            let ra = (c.allocs + 50) as f64 / (p.allocs + 50) as f64;
            let rb = (c.bytes + 20_000) as f64 / (p.bytes + 20_000) as f64;
            if ra > 2.0 * k || rb > 2.5 * k {
                let t0 = build(pn);
                c = cost(nt, &t);
                p = cost(nt, &t0);
            }
            let ra = (c.allocs + 50) as f64 / (p.allocs + 50) as f64;
            let rb = (c.bytes + 20_000) as f64 / (p.bytes + 20_000) as f64;
            let grows = |c: &Cost, p: &Cost| c.ns > 40_000_000 && c.ns as f64 / p.ns.max(200_000) as f64 > 3.0 * k;
            // Time is measured again before it counts.
            let mut tries = 0;
            while tries < 4 && grows(&c, &p) {
                let t0 = build(pn);
                let (c2, p2) = (cost(nt, &t), cost(nt, &t0));
                c.ns = c.ns.min(c2.ns);
                p.ns = p.ns.max(p2.ns);
                tries += 1;
            }
            ctx.max("alloc_growth_over_size_growth_x100", (ra / k * 100.0) as u64);
            ctx.max("bytes_growth_over_size_growth_x100", (rb / k * 100.0) as u64);
            if ra > 2.0 * k || rb > 2.5 * k || grows(&c, &p) {
                ctx.violation(
                    format!("list:{:?}:{}", nt, el.trim()),
                    format!("{:?} with {:?} repeated: {} elements cost {} allocations, {} bytes, {} us; {} elements cost {} allocations, {} bytes, {} us", nt, el, pn, p.allocs, p.bytes, p.ns / 1000, n, c.allocs, c.bytes, c.ns / 1000),
                    build(5),
                );
                return;
            }
            if c.ns > 20_000_000 {
                ctx.max("time_growth_over_size_growth_x100", (c.ns as f64 / p.ns.max(200_000) as f64 / k * 100.0) as u64);
            }
            ctx.max("ns_per_byte", c.ns / t.len() as u64);
        }
        prev = Some((n, c));
    }
    ctx.count("list_families");
    let _ = r;
}
/// Long lists of which every element has names of its own: start, element (`#` is the name), end.
const NAMED: &[(NT, &str, &str, &str)] = &[
    (NT::Objects, "(:objects ", "# ", ")"),
    (NT::ListVar, "", "?# - # ", ""),
    (NT::Init, "(:init ", "(# a) ", ")"),
    (NT::Gd, "(and ", "(p #) ", ")"),
    (NT::PreGd, "(and ", "(preference # (p)) ", ")"),
    (NT::MetricFExp, "(+ ", "(# a) ", ")"),
];
fn named(ctx: &mut Ctx, r: &mut Rng, which: usize) {
    let (nt, pre, el, post) = NAMED[which % NAMED.len()];
    let order = which / NAMED.len();
    let mut round = 0;
    // Every text has names that have not been seen before.
    let mut build = |n: usize, r: &mut Rng| -> String {
        round += 1;
        let mut s = String::from(pre);
        for i in 0..n {
            let x = match order {
                0 => format!("w{}r{}x{:07}", which, round, i),
                1 => format!("w{}r{}x{:07}", which, round, n - i),
                _ => format!("w{:016x}r{}", r.next(), round),
            };
            s.push_str(&el.replace('#', &x));
        }
        s.push_str(post);
        s
    };
    let mut prev: Option<(usize, Cost)> = None;
    for n in [2048usize, 16384, 131072] {
        let t = build(n, r);
        ctx.input(&t);
        let mut c = cost(nt, &t);
        ctx.saw(&t);
        ctx.count("named_list_parses");
        if let Some((pn, mut p)) = prev {
            let k = (n / pn) as f64;
            let grows = |c: &Cost, p: &Cost| c.ns > 60_000_000 && c.ns as f64 / p.ns.max(2_000_000) as f64 > 3.0 * k;
            let allocs = |c: &Cost, p: &Cost| (c.allocs + 50) as f64 / (p.allocs + 50) as f64 > 2.0 * k || c.bytes as f64 / (p.bytes + 100_000) as f64 > 4.0 * k;
            let mut tries = 0;
            while tries < 3 && (grows(&c, &p) || allocs(&c, &p)) {
                let (t0, t1) = (build(pn, r), build(n, r));
                ctx.input(&t1);
                let (p2, c2) = (cost(nt, &t0), cost(nt, &t1));
                c = Cost { ns: c.ns.min(c2.ns), allocs: c.allocs.min(c2.allocs), bytes: c.bytes.min(c2.bytes), ok: c2.ok };
                p = Cost { ns: p.ns.max(p2.ns), allocs: p.allocs.max(p2.allocs), bytes: p.bytes.max(p2.bytes), ok: p2.ok };
                tries += 1;
            }
            ctx.max("time_growth_over_names_growth_x100", (c.ns as f64 / p.ns.max(2_000_000) as f64 / k * 100.0) as u64);
            if grows(&c, &p) || allocs(&c, &p) {
                let t = build(5, r);
                ctx.violation(
                    format!("names:{:?}", nt),
                    format!("{:?} with different names: {} elements cost {} allocations, {} bytes, {} us; {} elements cost {} allocations, {} bytes, {} us", nt, pn, p.allocs, p.bytes, p.ns / 1000, n, c.allocs, c.bytes, c.ns / 1000),
                    t,
                );
                return;
            }
        }
        prev = Some((n, c));
    }
    ctx.count("named_list_families");
}
/// Any text at all: effort within a generous multiple of what its size and depth explain.
fn anything(ctx: &mut Ctx, r: &mut Rng) {
    let d = ctx.dict.clone();
    let nt = *r.pick(ALL_NT);
    let mut k = knobs(ctx, r);
    k.list = k.list.min(300);
    let Some((seq, _)) = valid(ctx, r, &k, nt) else { return };
    let (toks, _) = if r.chance(1, 4) { (tokens_of(&seq), "") } else { corrupt(&seq, r, &d) };
    let t = crate::layout::render(&toks, crate::layout::Style::Single, false, r).0;
    let depth = {
        let (mut m, mut c) = (0usize, 0usize);
        for x in &toks {
            if x == "(" {
                c += 1;
                m = m.max(c);
            } else if x == ")" {
                c = c.saturating_sub(1);
            }
        }
        m
    };
    ctx.input(&t);
    let mut c = cost(nt, &t);
    ctx.saw(&t);
    ctx.count("mixed_parses");
    // Names and numbers are read character by character.
    let n = (toks.len() + t.len()) as u64 + 1;
    ctx.max("allocs_per_character_and_level_mixed_x100", c.allocs * 100 / n / (depth as u64 + 1));
    let lim = 25 * n * (depth as u64 + 2) + 3_000;
    let lb = 4_000 * n * (depth as u64 + 2) + 500_000;
    if c.allocs > lim || c.bytes > lb {
        c = cost(nt, &t);
    }
    if c.allocs > lim || c.bytes > lb {
        ctx.violation(format!("effort:{:?}", nt), format!("{} characters of depth {} cost {} allocations, {} bytes", n, depth, c.allocs, c.bytes), t);
    }
}
fn effort(ctx: &mut Ctx, case: u64) {
    let mut r = ctx.rng();
    let n = 3 * NAMED.len() as u64;
    if case < n {
        named(ctx, &mut r, case as usize);
    } else if case - n < 4 * LISTS.len() as u64 {
        listed(ctx, &mut r, (case - n) as usize);
    } else if case % 3 == 0 {
        for _ in 0..20 {
            anything(ctx, &mut r);
        }
    } else {
        nested(ctx, &mut r);
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P16",
        rule: "a text of a scaled family (nested or long construct, valid or broken at some end); distinct texts measured",
        quick: 6_000,
        thorough: 200_000,
        case: effort,
        floors: &[("nested_parses", 15_000), ("nested_accepted", 3_000), ("list_families", 200), ("named_list_families", 18), ("mixed_parses", 20_000)],
        assumptions: &["effort is observed as allocations, allocated bytes and processor time", "bounds: per doubled depth at most 12-fold allocations; per k-fold list at most 2k-fold allocations and 3k-fold time (measured again up to four times)"],
        stack: 256,
        stall_is_violation: true,
        ..BASE
    }]
}
