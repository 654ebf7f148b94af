//! Monitors of values built in code, and of the views of collections.
use crate::canon::*;
use crate::entries::*;
use crate::fw::*;
use crate::mk::*;
use crate::mon_text::*;
use crate::proj::Proj;
use crate::refel::*;
use crate::rng::Rng;
use pddl::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
}
fn pick_nt(r: &mut Rng) -> NT {
    if r.chance(1, 5) {
        *r.pick(&[NT::Domain, NT::Problem])
    } else {
        *r.pick(ALL_NT)
    }
}
// ---------------------------------------------------------------- P24
fn built(ctx: &mut Ctx, _case: u64) {
    let mut r = ctx.rng();
    match r.below(10) {
        0 => return domain_steps(ctx, &mut r),
        1 => return problem_steps(ctx, &mut r),
        _ => {}
    }
    let nt = pick_nt(&mut r);
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(400);
    let Some((seq, want)) = valid(ctx, &mut r, &k, nt) else { return };
    let e = entry(nt);
    let text = tree_text(&seq);
    ctx.input(&text);
    let (out, Some(v)) = e.parse_held(&text) else {
        ctx.count("not_accepted");
        return;
    };
    ctx.saw(&text);
    ctx.count(&format!("construct:{:?}", nt));
    let mut last: Option<Boxed> = None;
    for _ in 0..2 {
        let mut q = r.fork();
        let b = match catch_unwind(AssertUnwindSafe(|| (e.make)(&want, &mut q))) {
            Ok(b) => b,
            Err(p) => {
                ctx.violation(format!("build-panics:{:?}", nt), format!("building the content of the text panics: {}", panic_text(p)), text.clone());
                return;
            }
        };
        ctx.count("values_built");
        if b.c() != want {
            ctx.violation(format!("parts:{:?}", nt), format!("the accessors of the built value return other parts: {}", diff(&want, &b.c()).unwrap_or_default()), text.clone());
        }
        let got = (v.eq(&*b), b.eq(&*v), v.ne(&*b), b.ne(&*v));
        if got != (true, true, false, false) {
            ctx.violation(
                format!("built-differs:{:?}", nt),
                format!("built value and parsed value: ==, swapped, !=, swapped give {:?}; built {} parsed {}", got, short(&b.dbg()), out.brief()),
                text.clone(),
            );
        }
        if let Some(l) = &last {
            ctx.count("built_pairs_compared");
            if !l.eq(&*b) || b.ne(&**l) {
                ctx.violation(format!("routes-differ:{:?}", nt), format!("values of the same content built by other routes differ: {} {}", short(&l.dbg()), short(&b.dbg())), text.clone());
            }
        }
        let w = b.views();
        for (k, n) in &w.seen {
            if k == "accessors_checked" {
                ctx.add(k, *n);
            }
        }
        for (view, sig, what) in w.bad {
            if !view {
                ctx.violation(sig, what, text.clone());
            }
        }
        last = Some(b);
    }
    for (view, sig, what) in v.views().bad {
        if !view {
            ctx.violation(sig, what, text.clone());
        }
    }
    ctx.sample(|| text.clone());
}
/// Two documents whose parts are mixed.
fn two(ctx: &mut Ctx, r: &mut Rng, nt: NT) -> Option<[(String, C); 2]> {
    let mut o = vec![];
    for _ in 0..2 {
        let mut k = knobs(ctx, r);
        k.list = k.list.min(60);
        k.depth = k.depth.min(12);
        let (seq, c) = valid(ctx, r, &k, nt)?;
        o.push((tree_text(&seq), c));
    }
    o.try_into().ok()
}
/// Follows a sequence of builder steps and says what each step did.
#[allow(clippy::too_many_arguments)]
fn follow<T: Proj + PartialEq + Clone + Mk + std::fmt::Debug>(
    ctx: &mut Ctx,
    r: &mut Rng,
    kind: &str,
    docs: &[(String, C); 2],
    start: T,
    mut want: Vec<C>,
    tag: &'static str,
    steps: &'static [usize],
    step: fn(T, usize, &C, &mut Rng) -> T,
    parsed: Option<&T>,
) {
    let input = || format!("{}\n----\n{}", docs[0].0, docs[1].0);
    let mut x = start;
    let mut log = vec![];
    let cmp = |ctx: &mut Ctx, x: &T, want: &[C], i: Option<usize>, log: &[String]| {
        let C::T(_, got) = x.c() else { unreachable!() };
        for (j, (g, w)) in got.iter().zip(want).enumerate() {
            if g == w {
                continue;
            }
            let sig = match i {
                Some(i) if i == j => format!("step-sets-its-part:{}:{}", kind, j),
                Some(i) => format!("step-leaves-others:{}:{}:{}", kind, i, j),
                None => format!("start:{}:{}", kind, j),
            };
            ctx.violation(sig, format!("after {:?}: {}", log, diff(w, g).unwrap_or_default()), input());
        }
    };
    cmp(ctx, &x, &want, None, &log);
    for _ in 0..r.range(1, 14) {
        let i = *r.pick(steps);
        let from = r.below(2);
        let part = &kids(&docs[from].1)[i];
        if !settable(part) {
            continue;
        }
        let before = r.chance(1, 4).then(|| (x.clone(), want.clone()));
        x = step(x, i, part, r);
        want[i] = part.clone();
        log.push(format!("{} from {}", i, from));
        ctx.count(&format!("step:{}:{}", kind, i));
        cmp(ctx, &x, &want, Some(i), &log);
        if let Some((y, w)) = before {
            cmp(ctx, &y, &w, None, &log);
            let z = step(y, i, part, r);
            ctx.count("steps_repeated_on_a_clone");
            if z != x {
                ctx.violation(format!("step-on-clone:{}:{}", kind, i), "the same step on a clone gives another value", input());
            }
        }
        if r.chance(1, 4) {
            let direct = T::mk(&t(tag, want.clone()), r);
            ctx.count("histories_compared_with_direct_construction");
            if direct != x || x != direct {
                ctx.violation(format!("history-matters:{}", kind), format!("after {:?} the value differs from one of the same parts built directly", log), input());
            }
        }
    }
    // The rest of the steps of the first document must lead to its value, whatever came before.
    let target = kids(&docs[0].1);
    let mut rest: Vec<usize> = steps.iter().copied().filter(|&i| want[i] != target[i]).collect();
    if rest.iter().any(|&i| !settable(&target[i])) {
        return;
    }
    r.shuffle(&mut rest);
    for i in rest {
        x = step(x, i, &target[i], r);
    }
    if let Some(p) = parsed {
        ctx.count("histories_compared_with_parsed");
        if x != *p || *p != x {
            ctx.violation(format!("history-differs-from-parsed:{}", kind), format!("{} {}", short(&format!("{:?}", x)), short(&format!("{:?}", p))), input());
        }
    }
}
fn literals(r: &mut Rng) -> C {
    let n = r.below(4);
    t(
        "timeless",
        (0..n)
            .map(|_| {
                let sign = *r.pick(&["pos", "neg"]);
                let p = s(*r.pick(&["p", "q", "at"]));
                let mut a = vec![p];
                for _ in 0..r.below(3) {
                    a.push(t("name", vec![s(*r.pick(&["a", "b", "object"]))]));
                }
                t(sign, vec![t("pred", a)])
            })
            .collect(),
    )
}
fn domain_steps(ctx: &mut Ctx, r: &mut Rng) {
    let Some(docs) = two(ctx, r, NT::Domain) else { return };
    ctx.input(&docs[0].0);
    use pddl::Parser;
    let parsed = Domain::from_str(&docs[0].0).ok();
    let v = kids(&docs[0].1);
    let empty = |x| t(x, vec![]);
    let want = vec![v[0].clone(), empty("extends"), empty("reqs"), empty("tl"), empty("tl"), empty("preds"), empty("tl"), empty("con-and"), v[8].clone()];
    let start = Domain::builder(Mk::mk(&v[0], r), Mk::mk(&v[8], r));
    ctx.saw(&format!("{}|{}", docs[0].0, docs[1].0));
    ctx.count("domain_histories");
    follow(ctx, r, "Domain", &docs, start, want, "domain", DOMAIN_STEPS, domain_step, parsed.as_ref());
    // The part without an accessor.
    let input = || format!("{}\n----\n{}", docs[0].0, docs[1].0);
    let d = Domain::mk(&docs[0].1, r);
    let (a, b) = (literals(r), literals(r));
    let x = d.clone().with_timeless(Mk::mk(&a, r));
    let y = d.clone().with_timeless(Mk::mk(&b, r));
    if x.c() != docs[0].1 {
        ctx.violation("step-leaves-others:Domain:timeless", diff(&docs[0].1, &x.c()).unwrap_or_default(), input());
    }
    ctx.count(if a == b { "timeless_same" } else { "timeless_other" });
    if (x == y) != (a == b) || (x == d) != kids(&a).is_empty() {
        ctx.violation("step-sets-its-part:Domain:timeless", format!("with {} and {}: equal {}; equal to the one without: {}", a, b, x == y, x == d), input());
    }
    let i = *r.pick(DOMAIN_STEPS);
    let part = &kids(&docs[1].1)[i];
    let p = domain_step(x, i, part, r);
    let q = domain_step(d, i, part, r).with_timeless(Mk::mk(&a, r));
    if p != q {
        ctx.violation(format!("order-of-steps:Domain:timeless:{}", i), "the order of two steps matters", input());
    }
}
fn problem_steps(ctx: &mut Ctx, r: &mut Rng) {
    let Some(docs) = two(ctx, r, NT::Problem) else { return };
    ctx.input(&docs[0].0);
    use pddl::Parser;
    let parsed = Problem::from_str(&docs[0].0).ok();
    let v = kids(&docs[0].1);
    let empty = |x| t(x, vec![]);
    let want = vec![v[0].clone(), v[1].clone(), empty("reqs"), empty("tl"), v[4].clone(), v[5].clone(), empty("prefcons"), empty("none"), empty("none")];
    let start = Problem::builder(Name::mk(&v[0], r), Name::mk(&v[1], r), Mk::mk(&v[4], r), Mk::mk(&v[5], r));
    ctx.saw(&format!("{}|{}", docs[0].0, docs[1].0));
    ctx.count("problem_histories");
    follow(ctx, r, "Problem", &docs, start, want, "problem", PROBLEM_STEPS, problem_step, parsed.as_ref());
}
// ---------------------------------------------------------------- P25
fn views(ctx: &mut Ctx, _case: u64) {
    let mut r = ctx.rng();
    const EMPTY: &[NT] = &[NT::Gd, NT::ConGd, NT::Con2Gd, NT::PrefConGd, NT::PreGd, NT::ProblemConstraints, NT::DomainConstraints, NT::PrefGd];
    let hollow = r.chance(1, 3);
    let nt = if hollow { *r.pick(EMPTY) } else { pick_nt(&mut r) };
    let mut k = knobs(ctx, &mut r);
    k.list = k.list.min(300);
    k.depth = k.depth.min(40);
    if hollow {
        k.empty = r.range(8, 16);
    }
    let Some((seq, mut want)) = valid(ctx, &mut r, &k, nt) else { return };
    let e = entry(nt);
    let text = tree_text(&seq);
    ctx.input(&text);
    let mut vals = vec![];
    if let (_, Some(v)) = e.parse_held(&text) {
        if v.c() != want {
            ctx.violation(format!("parsed-elements:{:?}", nt), format!("the collections of the parsed value have other elements: {}", diff(&want, &v.c()).unwrap_or_default()), text.clone());
        }
        vals.push(("parsed", v));
    }
    if hollow {
        // Remove atomic conditions here and there.
        hollow_out(&mut want, &mut r);
    }
    LITERALS.set(r.chance(1, 2));
    let built = catch_unwind(AssertUnwindSafe(|| (e.make)(&want, &mut r)));
    LITERALS.set(false);
    match built {
        Ok(b) => {
            if b.c() != want {
                ctx.violation(format!("built-elements:{:?}", nt), format!("the collections of the built value have other elements: {}", diff(&want, &b.c()).unwrap_or_default()), want.to_string());
            }
            vals.push(("built", b));
        }
        Err(p) => ctx.violation(format!("build-panics:{:?}", nt), panic_text(p), text.clone()),
    }
    for (how, v) in vals {
        let w = match catch_unwind(AssertUnwindSafe(|| v.views())) {
            Ok(w) => w,
            Err(p) => {
                ctx.violation(format!("view-panics:{:?}", nt), panic_text(p), text.clone());
                continue;
            }
        };
        ctx.saw(&format!("{}{}", how, v.dbg()));
        ctx.count(&format!("values:{}", how));
        for (k, n) in &w.seen {
            ctx.add(k, *n);
        }
        for (view, sig, what) in w.bad {
            if view {
                ctx.violation(sig, what, text.clone());
            }
        }
    }
    ctx.sample(|| text.clone());
}
/// Replaces conditions by empty ones.
fn hollow_out(c: &mut C, r: &mut Rng) {
    let all = r.chance(1, 2);
    fn go(c: &mut C, r: &mut Rng, all: bool) {
        let C::T(tag, v) = c else { return };
        match *tag {
            "atom" | "cmp" if all || r.chance(1, 2) => *c = t(if r.chance(1, 2) { "and" } else { "or" }, vec![]),
            "at-end" | "always" | "sometime" if r.chance(1, 30) => *c = t("con-and", vec![]),
            _ => v.iter_mut().for_each(|x| go(x, r, all)),
        }
    }
    go(c, r, all)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P24",
            rule: "a text with its content built through randomly chosen constructors and conversions, or two documents mixed by a sequence of builder steps; distinct by text",
            quick: 150_000,
            thorough: 1_500_000,
            case: built,
            floors: &[
                ("values_built", 50_000), ("built_pairs_compared", 25_000), ("domain_histories", 3_000), ("problem_histories", 3_000), ("accessors_checked", 500_000),
                ("steps_repeated_on_a_clone", 5_000), ("histories_compared_with_parsed", 3_000), ("histories_compared_with_direct_construction", 5_000),
                ("step:Domain:1", 1_500), ("step:Domain:7", 1_500), ("step:Problem:7", 800), ("step:Problem:8", 800), ("timeless_other", 2_000),
            ],
            assumptions: &["a text's content is that of the reference elaborator", "of several variants of the same content, the one the parser chooses is built (e.g. a negation, not a negated literal)"],
            ..BASE
        },
        Prop {
            id: "P25",
            rule: "a parsed or built value looked at through every public view, recursively; distinct by the value",
            quick: 250_000,
            thorough: 1_200_000,
            case: views,
            floors: &[
                ("values:parsed", 30_000), ("values:built", 30_000), ("views_checked", 10_000_000), ("TypedList:none", 10_000), ("TypedList:one", 10_000), ("TypedList:many", 500),
                ("Effects:one", 2_000), ("Effects:few", 1_000), ("PrefConGDs:none", 300), ("PrefConGDs:few", 300), ("Type:few", 3_000), ("DurationConstraint:few", 300),
                ("emptiness:GoalDefinition:empty", 3_000), ("emptiness:GoalDefinition:not_empty", 20_000), ("emptiness:ConGD:empty", 3_000), ("emptiness:PrefConGD:empty", 500),
                ("emptiness:Con2GD:empty", 500),
            ],
            assumptions: &["the elements of a parsed collection are those of the reference elaborator"],
            ..BASE
        },
    ]
}
