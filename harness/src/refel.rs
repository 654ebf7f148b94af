//! Reference elaborator: reads token trees as PDDL 3.1, independently of the library.
//!
//! Three-valued: `Ok(c)` - certainly valid, meaning `c`; `Err(Bad)` - certainly not valid;
//! `Err(Amb)` - no verdict (readings on which PDDL descriptions differ).
use crate::canon::*;
use crate::num;
use crate::sx::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum E {
    Amb,
    Bad,
}
use E::*;
pub type R = Result<C, E>;

macro_rules! nts { ($($x:ident),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    pub enum NT { $($x),* }
    #[allow(dead_code)]
    pub const ALL_NT: &[NT] = &[$(NT::$x),*];
}}
nts! {
    Domain, Problem, RequireDef, RequireKey, TypesDef, ConstantsDef, PredicatesDef, FunctionsDef,
    DomainConstraints, StructureDef, ActionDef, DaDef, Derived, Objects, Init, Goal,
    ProblemConstraints, Metric, Length, Timeless, InitEl, Gd, PreGd, PrefGd, Effect, CEffect,
    ForallC, WhenC, PEffect, CondEffect, ConGd, Con2Gd, PrefConGd, DaGd, DaEffect, TimedGd,
    TimedEffect, PrefTimedGd, DurConstraint, SimpleDur, DValue, FAssignDa, FExp, FExpDa, FExpT,
    FComp, FHead, FunctionTerm, BasicFunctionTerm, Term, MetricFExp, FormulaSkeleton,
    FunctionSkeleton, Type, FunctionType, PrimitiveType, Name, Variable, Number, Predicate,
    PrefName, ActionSymbol, DaSymbol, FunctionSymbol, AssignOp, AssignOpT, BinaryComp, BinaryOp,
    MultiOp, DOp, Interval, Optimization, TimeSpecifier, AtomTerm, AtomName, LiteralTerm,
    LiteralName, ListVar, ListName, ListFun
}

pub const RESERVED: &[&str] = &["and", "or", "not", "imply", "exists", "forall", "when", "preference"];
pub const ASSIGN_OPS: &[&str] = &["assign", "change", "scale-up", "scale-down", "increase", "decrease"];
pub const MODAL: &[&str] = &[
    "always", "sometime", "within", "at-most-once", "sometime-after", "sometime-before",
    "always-within", "hold-during", "hold-after",
];
pub const REQUIREMENTS: &[&str] = &[
    ":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality",
    ":existential-preconditions", ":universal-preconditions", ":quantified-preconditions",
    ":conditional-effects", ":fluents", ":numeric-fluents", ":object-fluents", ":adl",
    ":durative-actions", ":duration-inequalities", ":continuous-effects", ":derived-predicates",
    ":timed-initial-literals", ":preferences", ":constraints", ":action-costs",
];

/// Collects parts; the worst verdict wins.
struct Seq(Vec<C>, Option<E>);
impl Seq {
    fn new() -> Self {
        Seq(vec![], None)
    }
    fn add(&mut self, r: R) {
        match r {
            Ok(c) => self.0.push(c),
            Err(e) => self.1 = Some(self.1.map_or(e, |x| x.max(e))),
        }
    }
    fn done(self, tag: &'static str) -> R {
        self.map(|v| t(tag, v))
    }
    fn map<F: FnOnce(Vec<C>) -> C>(self, f: F) -> R {
        match self.1 {
            Some(e) => Err(e),
            None => Ok(f(self.0)),
        }
    }
}
fn node(tag: &'static str, parts: Vec<R>) -> R {
    let mut q = Seq::new();
    for p in parts {
        q.add(p);
    }
    q.done(tag)
}
fn many(tag: &'static str, xs: &[Sx], f: fn(&Sx) -> R) -> R {
    let mut q = Seq::new();
    for x in xs {
        q.add(f(x));
    }
    q.done(tag)
}
/// One reading or another: good if any is good (the first one), bad only if all are bad.
fn alt(rs: Vec<R>) -> R {
    let mut e = Bad;
    for r in rs {
        match r {
            Ok(c) => return Ok(c),
            Err(x) => e = e.min(x),
        }
    }
    Err(e)
}
fn glue(x: &str) -> E {
    if classify(x) == Tok::Glued {
        Amb
    } else {
        Bad
    }
}
/// If any atom anywhere is glued (no verdict), soften `Bad`: the tokenisation itself is unclear.
fn has_glued(x: &Sx) -> bool {
    match x {
        Sx::A(x) => classify(x) == Tok::Glued,
        Sx::L(v) => v.iter().any(has_glued),
    }
}

pub fn name(x: &Sx) -> R {
    match x {
        Sx::A(x) if is_name(x) => Ok(s(x.as_str())),
        Sx::A(x) => Err(glue(x)),
        _ => Err(Bad),
    }
}
pub fn variable(x: &Sx) -> R {
    match x {
        Sx::A(x) if classify(x) == Tok::Var => Ok(s(&x[1..])),
        Sx::A(x) => Err(glue(x)),
        _ => Err(Bad),
    }
}
pub fn number(x: &Sx) -> R {
    match x {
        Sx::A(x) if is_num(x) => num::nearest_f32(x).map(n).ok_or(Bad),
        Sx::A(x) => Err(glue(x)),
        _ => Err(Bad),
    }
}
fn reserved_like(x: &str) -> bool {
    RESERVED.contains(&x.to_ascii_lowercase().as_str())
}
/// A predicate symbol in head position of a formula.
fn pred_sym(x: &Sx) -> R {
    match x {
        Sx::A(p) if RESERVED.contains(&p.as_str()) => Err(Bad),
        Sx::A(p) if reserved_like(p) => Err(Amb),
        _ => name(x),
    }
}
fn fun_sym(x: &Sx) -> R {
    match x {
        Sx::A(p) if reserved_like(p) => Err(Amb),
        _ => name(x),
    }
}
pub fn term(x: &Sx) -> R {
    match x {
        Sx::A(y) if is_name(y) => Ok(t("name", vec![s(y.as_str())])),
        Sx::A(y) if classify(y) == Tok::Var => Ok(t("var", vec![s(&y[1..])])),
        Sx::A(y) => Err(glue(y)),
        Sx::L(_) => fterm(x),
    }
}
fn nterm(x: &Sx) -> R {
    name(x).map(|c| t("name", vec![c]))
}
pub fn fterm(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    if v.is_empty() {
        return Err(Bad);
    }
    let mut q = Seq::new();
    q.add(fun_sym(&v[0]));
    for y in &v[1..] {
        q.add(term(y));
    }
    q.done("fn")
}
/// A function with a list of arguments, or just its symbol.
pub fn fhead(x: &Sx) -> R {
    match x {
        Sx::A(_) => fun_sym(x).map(|c| t("f", vec![c])),
        Sx::L(v) => {
            if v.is_empty() {
                return Err(Bad);
            }
            let mut q = Seq::new();
            q.add(fun_sym(&v[0]));
            for y in &v[1..] {
                q.add(term(y));
            }
            q.done("f")
        }
    }
}
fn bft(x: &Sx) -> R {
    match x {
        Sx::A(_) => fun_sym(x).map(|c| t("bf", vec![c])),
        Sx::L(v) => {
            if v.is_empty() {
                return Err(Bad);
            }
            let mut q = Seq::new();
            q.add(fun_sym(&v[0]));
            for y in &v[1..] {
                q.add(name(y));
            }
            q.done("bf")
        }
    }
}
pub fn atom(x: &Sx, arg: fn(&Sx) -> R) -> R {
    let v = x.list().ok_or(Bad)?;
    match v.first() {
        Some(Sx::A(h)) if h == "=" => {
            if v.len() != 3 {
                return Err(Bad);
            }
            node("=", vec![arg(&v[1]), arg(&v[2])])
        }
        Some(h) => {
            let mut q = Seq::new();
            q.add(pred_sym(h));
            for y in &v[1..] {
                q.add(arg(y));
            }
            q.done("pred")
        }
        None => Err(Bad),
    }
}
fn literal(x: &Sx, arg: fn(&Sx) -> R) -> R {
    match x.head() {
        Some("not") => {
            let v = x.list().unwrap();
            if v.len() != 2 {
                return Err(Bad);
            }
            node("neg", vec![atom(&v[1], arg)])
        }
        _ => node("pos", vec![atom(x, arg)]),
    }
}
/// Arithmetic: `leaf` reads numbers, functions and whatever else the context allows.
fn arith(x: &Sx, leaf: fn(&Sx) -> R) -> R {
    if let Some(op @ ("+" | "-" | "*" | "/")) = x.head() {
        let v = x.list().unwrap();
        let k = v.len() - 1;
        let ok = match op {
            "-" => k == 1 || k == 2,
            "/" => k == 2,
            _ => k >= 2,
        };
        let mut q = Seq::new();
        for y in &v[1..] {
            q.add(arith(y, leaf));
        }
        if !ok {
            return Err(Bad);
        }
        return q.map(|mut a| {
            if k == 1 {
                t("minus", a)
            } else {
                a.insert(0, s(op));
                t(if k == 2 { "bin" } else { "multi" }, a)
            }
        });
    }
    leaf(x)
}
pub fn fexp(x: &Sx) -> R {
    arith(x, |y| alt(vec![number(y), fhead(y)]))
}
fn fexp_da(x: &Sx) -> R {
    arith(x, |y| match y {
        Sx::A(z) if z == "?duration" => Ok(t("duration", vec![])),
        _ => alt(vec![number(y), fhead(y)]),
    })
}
fn fexp_t(x: &Sx) -> R {
    let hash = |y: &Sx| y.atom() == Some("#t");
    if hash(x) {
        return Ok(t("#t", vec![]));
    }
    match x.head() {
        Some("*") => {
            let v = x.list().unwrap();
            if v.len() != 3 || hash(&v[1]) == hash(&v[2]) {
                return Err(if has_glued(x) { Amb } else { Bad });
            }
            node("scaled", vec![fexp(if hash(&v[1]) { &v[2] } else { &v[1] })])
        }
        _ => Err(x.atom().map_or(Bad, glue)),
    }
}
fn metric_exp(x: &Sx) -> R {
    arith(x, |y| match y {
        Sx::A(z) if z == "total-time" => Ok(t("total-time", vec![])),
        Sx::A(_) => alt(vec![number(y), fun_sym(y).map(|c| t("mf", vec![c]))]),
        Sx::L(v) => match y.head() {
            Some("is-violated") => {
                if v.len() != 2 {
                    return Err(Amb);
                }
                node("is-violated", vec![name(&v[1])])
            }
            Some(_) => {
                let mut q = Seq::new();
                q.add(fun_sym(&v[0]));
                for z in &v[1..] {
                    q.add(name(z));
                }
                q.done("mf")
            }
            None => Err(Bad),
        },
    })
}
fn is_term_shape(x: &Sx) -> bool {
    term(x) != Err(Bad)
}
fn fcomp(x: &Sx) -> R {
    match x.head() {
        Some(op @ ("=" | "<" | ">" | "<=" | ">=")) => {
            let v = x.list().unwrap();
            if v.len() != 3 {
                return Err(Bad);
            }
            node("cmp", vec![Ok(s(op)), fexp(&v[1]), fexp(&v[2])])
        }
        _ => Err(Bad),
    }
}
/// `x⁺ - type` groups followed by untyped elements.
fn typed(xs: &[Sx], el: fn(&Sx) -> R, default: &str) -> R {
    let mut out = Seq::new();
    let mut group: Vec<R> = vec![];
    let mut i = 0;
    let mk = |r: R, ty: R| -> R { node("typed", vec![r, ty]) };
    while i < xs.len() {
        if xs[i].atom() == Some("-") {
            if group.is_empty() || i + 1 >= xs.len() {
                return Err(Bad);
            }
            let ty = type_(&xs[i + 1]);
            for g in group.drain(..) {
                out.add(mk(g, ty.clone()));
            }
            i += 2;
        } else {
            group.push(el(&xs[i]));
            i += 1;
        }
    }
    for g in group {
        out.add(mk(g, Ok(t("type", vec![s(default)]))));
    }
    out.done("tl")
}
fn type_(x: &Sx) -> R {
    match x {
        Sx::A(y) if y == "either" => Err(Amb),
        Sx::A(_) => node("type", vec![name(x)]),
        Sx::L(v) => {
            if x.head() != Some("either") || v.len() < 2 {
                return Err(Bad);
            }
            many("either", &v[1..], name)
        }
    }
}
fn vars(x: &Sx) -> R {
    typed(x.list().ok_or(Bad)?, variable, "object")
}
/// `(head vars body)`
fn quant(tag: &'static str, v: &[Sx], body: fn(&Sx) -> R) -> R {
    if v.len() != 3 {
        return Err(Bad);
    }
    node(tag, vec![vars(&v[1]), body(&v[2])])
}
fn args(v: &[Sx], k: usize) -> Result<(), E> {
    if v.len() == k + 1 {
        Ok(())
    } else {
        Err(Bad)
    }
}
pub fn gd(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some("and") => many("and", &v[1..], gd),
        Some("or") => many("or", &v[1..], gd),
        Some("not") => {
            args(v, 1)?;
            node("not", vec![gd(&v[1])])
        }
        Some("imply") => {
            args(v, 2)?;
            node("imply", vec![gd(&v[1]), gd(&v[2])])
        }
        Some("exists") => quant("exists", v, gd),
        Some("forall") => quant("forall", v, gd),
        Some("=") => {
            args(v, 2)?;
            let eq = || node("atom", vec![atom(x, term)]);
            if is_term_shape(&v[1]) && is_term_shape(&v[2]) {
                return eq();
            }
            fcomp(x)
        }
        Some("<" | ">" | "<=" | ">=") => fcomp(x),
        _ => node("atom", vec![atom(x, term)]),
    }
}
fn pref_name(x: &Sx) -> R {
    name(x)
}
/// `(preference [name] body)`
fn preference(tag: &'static str, v: &[Sx], body: fn(&Sx) -> R) -> R {
    match v.len() {
        2 => node(tag, vec![Ok(t("anon", vec![])), body(&v[1])]),
        3 => node(tag, vec![pref_name(&v[1]), body(&v[2])]),
        _ => Err(Bad),
    }
}
fn pref_gd(x: &Sx) -> R {
    match x.head() {
        Some("preference") => preference("pref", x.list().unwrap(), gd),
        _ => node("goal", vec![gd(x)]),
    }
}
fn pre_items(x: &Sx, out: &mut Seq) {
    match (x.head(), x) {
        (Some("and"), Sx::L(v)) => {
            for y in &v[1..] {
                pre_items(y, out);
            }
        }
        (Some("forall"), Sx::L(v)) => out.add(quant("pforall", v, pre_gd)),
        _ => out.add(pref_gd(x)),
    }
}
pub fn pre_gd(x: &Sx) -> R {
    let mut q = Seq::new();
    pre_items(x, &mut q);
    q.done("pre")
}
pub fn p_effect(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some("not") => {
            args(v, 1)?;
            if let Some(h) = v[1].head() {
                if ASSIGN_OPS.contains(&h) {
                    return Err(Amb);
                }
            }
            node("del", vec![atom(&v[1], term)])
        }
        Some(op) if ASSIGN_OPS.contains(&op) => {
            let as_pred = match atom(x, term) {
                Err(Bad) => Bad,
                _ => Amb,
            };
            if v.len() != 3 {
                return Err(as_pred);
            }
            let sop = if op == "change" { "assign" } else { op };
            let numeric = || node("num", vec![Ok(s(sop)), fhead(&v[1]), fexp(&v[2])]);
            if op == "assign" && v[1].list().is_some() {
                if v[2].atom() == Some("undefined") {
                    return node("obj", vec![fterm(&v[1]), Ok(t("undefined", vec![]))]);
                }
                if is_term_shape(&v[2]) {
                    return node("obj", vec![fterm(&v[1]), term(&v[2])]);
                }
            }
            match numeric() {
                Err(Bad) => Err(as_pred),
                r => r,
            }
        }
        _ => node("add", vec![atom(x, term)]),
    }
}
fn cond_effect(x: &Sx) -> R {
    match x.head() {
        Some("and") => many("ceall", &x.list().unwrap()[1..], p_effect),
        _ => node("ce1", vec![p_effect(x)]),
    }
}
fn c_effect(x: &Sx) -> R {
    match x.head() {
        Some("forall") => quant("forall-e", x.list().unwrap(), effect),
        Some("when") => {
            let v = x.list().unwrap();
            args(v, 2)?;
            node("when-e", vec![gd(&v[1]), cond_effect(&v[2])])
        }
        _ => p_effect(x),
    }
}
pub fn effect(x: &Sx) -> R {
    match x.head() {
        Some("and") => many("effs", &x.list().unwrap()[1..], c_effect),
        _ => node("effs", vec![c_effect(x)]),
    }
}
fn con2(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    let con_shaped = match x.head() {
        Some(h) if MODAL.contains(&h) => true,
        Some("at") => v.len() == 3 && v[1].atom() == Some("end"),
        _ => false,
    };
    if con_shaped {
        return match node("c", vec![con(x)]) {
            Err(Bad) => {
                if gd(x) == Err(Bad) {
                    Err(Bad)
                } else {
                    Err(Amb)
                }
            }
            r => r,
        };
    }
    match x.head() {
        Some("and") | Some("forall") => {
            if x.head() == Some("and") && v.len() == 1 {
                return Err(Amb);
            }
            let c = node("c", vec![con(x)]);
            let g = node("g", vec![gd(x)]);
            match (&c, &g) {
                (Ok(_), Ok(_)) => c,
                (Ok(_), _) => c,
                (Err(Bad), _) => g,
                (Err(Amb), Err(Bad)) => Err(Amb),
                _ => Err(Amb),
            }
        }
        _ => node("g", vec![gd(x)]),
    }
}
pub fn con(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    let h = x.head().unwrap_or("");
    match h {
        "and" => many("con-and", &v[1..], con),
        "forall" => quant("con-forall", v, con),
        "at" => {
            args(v, 2)?;
            if v[1].atom() != Some("end") {
                return Err(v[1].atom().map_or(Bad, glue));
            }
            node("at-end", vec![gd(&v[2])])
        }
        "always" | "sometime" | "at-most-once" => {
            args(v, 1)?;
            let tag = match h {
                "always" => "always",
                "sometime" => "sometime",
                _ => "at-most-once",
            };
            node(tag, vec![con2(&v[1])])
        }
        "within" | "hold-after" => {
            args(v, 2)?;
            let tag = if h == "within" { "within" } else { "hold-after" };
            node(tag, vec![number(&v[1]), con2(&v[2])])
        }
        "sometime-after" | "sometime-before" => {
            args(v, 2)?;
            let tag = if h == "sometime-after" { "sometime-after" } else { "sometime-before" };
            node(tag, vec![con2(&v[1]), con2(&v[2])])
        }
        "always-within" => {
            args(v, 3)?;
            node("always-within", vec![number(&v[1]), con2(&v[2]), con2(&v[3])])
        }
        "hold-during" => {
            args(v, 3)?;
            node("hold-during", vec![number(&v[1]), number(&v[2]), con2(&v[3])])
        }
        _ => Err(Bad),
    }
}
fn pref_con_items(x: &Sx, out: &mut Seq) {
    match (x.head(), x) {
        (Some("and"), Sx::L(v)) => {
            for y in &v[1..] {
                pref_con_items(y, out);
            }
        }
        (Some("forall"), Sx::L(v)) => out.add(quant("cforall", v, pref_con)),
        (Some("preference"), Sx::L(v)) => out.add(preference("cpref", v, con)),
        _ => out.add(node("cgoal", vec![con(x)])),
    }
}
pub fn pref_con(x: &Sx) -> R {
    let mut q = Seq::new();
    pref_con_items(x, &mut q);
    q.done("prefcons")
}
fn keyword(x: &Sx, set: &[&str]) -> R {
    match x {
        Sx::A(y) if set.contains(&y.as_str()) => Ok(s(y.as_str())),
        Sx::A(y) => Err(glue(y)),
        _ => Err(Bad),
    }
}
fn timespec(x: &Sx) -> R {
    keyword(x, &["start", "end"])
}
fn timed_gd(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    args(v, 2)?;
    match x.head() {
        Some("at") => node("at", vec![timespec(&v[1]), gd(&v[2])]),
        Some("over") => node("over", vec![keyword(&v[1], &["all"]), gd(&v[2])]),
        _ => Err(Bad),
    }
}
fn pref_timed_gd(x: &Sx) -> R {
    match x.head() {
        Some("preference") => preference("tpref", x.list().unwrap(), timed_gd),
        _ => node("req", vec![timed_gd(x)]),
    }
}
fn da_gd(x: &Sx) -> R {
    match x.head() {
        Some("and") => many("dand", &x.list().unwrap()[1..], da_gd),
        Some("forall") => quant("dforall", x.list().unwrap(), da_gd),
        _ => node("dt", vec![pref_timed_gd(x)]),
    }
}
fn f_assign_da(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some(op) if ASSIGN_OPS.contains(&op) => {
            args(v, 2)?;
            let sop = if op == "change" { "assign" } else { op };
            node("fassign", vec![Ok(s(sop)), fhead(&v[1]), fexp_da(&v[2])])
        }
        _ => Err(Bad),
    }
}
fn timed_effect(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some("at") => {
            args(v, 2)?;
            let ts = timespec(&v[1]);
            match v[2].head() {
                Some(op) if ASSIGN_OPS.contains(&op) => {
                    let w = v[2].list().unwrap();
                    if w.len() == 3 && w[2].atom() == Some("undefined") {
                        let c = node("", vec![ts, Err(Amb)]);
                        return c;
                    }
                    match f_assign_da(&v[2]) {
                        Err(Bad) => node("tcond", vec![ts, cond_effect(&v[2])]),
                        r => node("tnum", vec![ts, r]),
                    }
                }
                _ => node("tcond", vec![ts, cond_effect(&v[2])]),
            }
        }
        Some(op @ ("increase" | "decrease")) => {
            args(v, 2)?;
            node("tcont", vec![Ok(s(op)), fhead(&v[1]), fexp_t(&v[2])])
        }
        _ => Err(Bad),
    }
}
fn da_effect(x: &Sx) -> R {
    match x.head() {
        Some("and") => many("eand", &x.list().unwrap()[1..], da_effect),
        Some("forall") => quant("eforall", x.list().unwrap(), da_effect),
        Some("when") => {
            let v = x.list().unwrap();
            args(v, 2)?;
            node("ewhen", vec![da_gd(&v[1]), timed_effect(&v[2])])
        }
        _ => node("et", vec![timed_effect(x)]),
    }
}
fn d_value(x: &Sx) -> R {
    match number(x) {
        Ok(c) => node("dnum", vec![Ok(c)]),
        Err(_) => node("dexp", vec![fexp(x)]),
    }
}
fn simple_dur(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some("at") => {
            args(v, 2)?;
            node("dat", vec![timespec(&v[1]), simple_dur(&v[2])])
        }
        Some(op @ ("<=" | ">=" | "=")) => {
            args(v, 2)?;
            if v[1].atom() != Some("?duration") {
                return Err(v[1].atom().map_or(Bad, glue));
            }
            node("dop", vec![Ok(s(op)), d_value(&v[2])])
        }
        _ => Err(Bad),
    }
}
fn dur(x: &Sx) -> R {
    match (x.head(), x) {
        (_, Sx::L(v)) if v.is_empty() => Ok(t("none", vec![])),
        (Some("and"), Sx::L(v)) => {
            if v.len() < 2 {
                return Err(Bad);
            }
            many("durall", &v[1..], simple_dur)
        }
        _ => node("dur1", vec![simple_dur(x)]),
    }
}
fn empty_or(x: &Sx, f: fn(&Sx) -> R) -> R {
    match x {
        Sx::L(v) if v.is_empty() => Ok(t("none", vec![])),
        _ => f(x),
    }
}
fn skel(tag: &'static str, x: &Sx, sym: fn(&Sx) -> R) -> R {
    let v = x.list().ok_or(Bad)?;
    if v.is_empty() {
        return Err(Bad);
    }
    node(tag, vec![sym(&v[0]), typed(&v[1..], variable, "object")])
}
fn decl_sym(x: &Sx) -> R {
    match x {
        Sx::A(p) if reserved_like(p) => Err(Amb),
        _ => name(x),
    }
}
fn formula_skel(x: &Sx) -> R {
    skel("skel", x, decl_sym)
}
fn function_skel(x: &Sx) -> R {
    skel("fskel", x, decl_sym)
}
fn action(x: &Sx) -> R {
    if x.head() != Some(":action") {
        return Err(Bad);
    }
    let v = x.list().unwrap();
    if v.len() < 4 || v[2].atom() != Some(":parameters") || v.len() % 2 != 0 {
        return Err(Bad);
    }
    let mut i = 4;
    let mut parts = vec![name(&v[1]), vars(&v[3])];
    if i < v.len() && v[i].atom() == Some(":precondition") {
        parts.push(match &v[i + 1] {
            Sx::L(w) if w.is_empty() => Ok(t("pre", vec![])),
            y => pre_gd(y),
        });
        i += 2;
    } else {
        parts.push(Ok(t("pre", vec![])));
    }
    if i < v.len() && v[i].atom() == Some(":effect") {
        parts.push(empty_or(&v[i + 1], effect));
        i += 2;
    } else {
        parts.push(Ok(t("none", vec![])));
    }
    if i != v.len() {
        return Err(Bad);
    }
    node("action", parts)
}
fn durative(x: &Sx) -> R {
    if x.head() != Some(":durative-action") {
        return Err(Bad);
    }
    let v = x.list().unwrap();
    let k = [":parameters", ":duration", ":condition", ":effect"];
    if v.len() != 10 || (0..4).any(|i| v[2 + 2 * i].atom() != Some(k[i])) {
        return Err(Bad);
    }
    node("da", vec![name(&v[1]), vars(&v[3]), dur(&v[5]), empty_or(&v[7], da_gd), empty_or(&v[9], da_effect)])
}
fn derived(x: &Sx) -> R {
    if x.head() != Some(":derived") {
        return Err(Bad);
    }
    let v = x.list().unwrap();
    args(v, 2)?;
    node("derived", vec![formula_skel(&v[1]), gd(&v[2])])
}
fn structure(x: &Sx) -> R {
    match x.head() {
        Some(":action") => action(x),
        Some(":durative-action") => durative(x),
        Some(":derived") => derived(x),
        _ => Err(Bad),
    }
}
fn req_key(x: &Sx) -> R {
    match x {
        Sx::A(y) if REQUIREMENTS.contains(&y.as_str()) => Ok(s(y.as_str())),
        Sx::A(y) => Err(glue(y)),
        _ => Err(Bad),
    }
}
/// `(:key item...)` read by `f` from the items.
fn section(x: &Sx, key: &str, min: usize, fun: impl Fn(&[Sx]) -> R) -> R {
    if x.head() != Some(key) {
        return Err(Bad);
    }
    let v = &x.list().unwrap()[1..];
    if v.len() < min {
        return Err(Bad);
    }
    fun(v)
}
fn one(v: &[Sx], f: fn(&Sx) -> R) -> R {
    if v.len() == 1 {
        f(&v[0])
    } else {
        Err(Bad)
    }
}
fn requirements(x: &Sx) -> R {
    section(x, ":requirements", 1, |v| many("reqs", v, req_key))
}
fn types(x: &Sx) -> R {
    section(x, ":types", 0, |v| typed(v, name, "object"))
}
fn constants(x: &Sx) -> R {
    section(x, ":constants", 0, |v| typed(v, name, "object"))
}
fn objects(x: &Sx) -> R {
    section(x, ":objects", 0, |v| typed(v, name, "object"))
}
fn predicates(x: &Sx) -> R {
    section(x, ":predicates", 1, |v| many("preds", v, formula_skel))
}
fn functions(x: &Sx) -> R {
    section(x, ":functions", 0, |v| typed(v, function_skel, "number"))
}
fn dom_constraints(x: &Sx) -> R {
    section(x, ":constraints", 1, |v| one(v, con))
}
fn prob_constraints(x: &Sx) -> R {
    section(x, ":constraints", 1, |v| one(v, pref_con))
}
fn goal(x: &Sx) -> R {
    section(x, ":goal", 1, |v| one(v, pre_gd))
}
fn init_el(x: &Sx) -> R {
    let v = x.list().ok_or(Bad)?;
    match x.head() {
        Some("at") if v.len() == 3 && v[1].atom().map_or(false, |y| matches!(classify(y), Tok::Num)) => {
            node("at", vec![number(&v[1]), literal(&v[2], nterm)])
        }
        Some("=") => {
            args(v, 2)?;
            if v[1].atom().is_some() && name(&v[1]) != Err(Bad) && name(&v[2]) != Err(Bad) {
                return node("lit", vec![literal(x, nterm)]);
            }
            if v[2].atom().map_or(false, is_num) {
                return node("val", vec![bft(&v[1]), number(&v[2])]);
            }
            node("objval", vec![bft(&v[1]), name(&v[2])])
        }
        _ => node("lit", vec![literal(x, nterm)]),
    }
}
fn init(x: &Sx) -> R {
    section(x, ":init", 0, |v| many("init", v, init_el))
}
fn timeless(x: &Sx) -> R {
    section(x, ":timeless", 1, |v| many("timeless", v, |y| literal(y, nterm)))
}
fn metric(x: &Sx) -> R {
    section(x, ":metric", 2, |v| {
        args(v, 1)?;
        node("metric", vec![keyword(&v[0], &["minimize", "maximize"]), metric_exp(&v[1])])
    })
}
fn uint(x: &Sx) -> R {
    match x {
        Sx::A(y) if !y.is_empty() && y.bytes().all(|c| c.is_ascii_digit()) => num::exact_u64(y).map(C::U).ok_or(Bad),
        Sx::A(y) => Err(glue(y)),
        _ => Err(Bad),
    }
}
fn length(x: &Sx) -> R {
    section(x, ":length", 0, |v| {
        let mut i = 0;
        let mut parts = vec![];
        for k in [":serial", ":parallel"] {
            if i < v.len() && v[i].head() == Some(k) {
                let w = v[i].list().unwrap();
                args(w, 1)?;
                parts.push(uint(&w[1]));
                i += 1;
            } else {
                parts.push(Ok(t("none", vec![])));
            }
        }
        if i != v.len() {
            return Err(Bad);
        }
        node("length", parts)
    })
}
/// Optional sections in fixed order; `i` is advanced.
fn optional(v: &[Sx], i: &mut usize, key: &str, f: fn(&Sx) -> R, absent: C) -> R {
    if *i < v.len() && v[*i].head() == Some(key) {
        *i += 1;
        f(&v[*i - 1])
    } else {
        Ok(absent)
    }
}
fn named(x: Option<&Sx>, key: &str) -> R {
    section(x.ok_or(Bad)?, key, 1, |v| one(v, name))
}
pub fn domain(x: &Sx) -> R {
    if x.head() != Some("define") {
        return Err(Bad);
    }
    let v = x.list().unwrap();
    let mut i = 2;
    let empty = |k| t(k, vec![]);
    let mut p = vec![named(v.get(1), "domain")];
    p.push(optional(v, &mut i, ":extends", |y| section(y, ":extends", 1, |v| many("extends", v, name)), empty("extends")));
    p.push(optional(v, &mut i, ":requirements", requirements, empty("reqs")));
    p.push(optional(v, &mut i, ":types", types, empty("tl")));
    p.push(optional(v, &mut i, ":constants", constants, empty("tl")));
    p.push(optional(v, &mut i, ":predicates", predicates, empty("preds")));
    p.push(optional(v, &mut i, ":functions", functions, empty("tl")));
    p.push(optional(v, &mut i, ":constraints", dom_constraints, empty("con-and")));
    p.push(many("structs", v.get(i..).unwrap_or(&[]), structure));
    node("domain", p)
}
pub fn problem(x: &Sx) -> R {
    if x.head() != Some("define") {
        return Err(Bad);
    }
    let v = x.list().unwrap();
    let mut i = 3;
    let none = || t("none", vec![]);
    let mut p = vec![named(v.get(1), "problem"), named(v.get(2), ":domain")];
    p.push(optional(v, &mut i, ":requirements", requirements, t("reqs", vec![])));
    p.push(optional(v, &mut i, ":objects", objects, t("tl", vec![])));
    p.push(v.get(i).map_or(Err(Bad), init));
    p.push(v.get(i + 1).map_or(Err(Bad), goal));
    i += 2;
    p.push(optional(v, &mut i, ":constraints", prob_constraints, t("prefcons", vec![])));
    p.push(optional(v, &mut i, ":metric", metric, none()));
    p.push(optional(v, &mut i, ":length", length, none()));
    if i < v.len() {
        return Err(Bad);
    }
    node("problem", p)
}

/// Reads a token sequence as the given construct.
pub fn elab(nt: NT, seq: &[Sx]) -> R {
    use NT::*;
    let r = match nt {
        ListVar => typed(seq, variable, "object"),
        ListName => typed(seq, name, "object"),
        ListFun => typed(seq, function_skel, "number"),
        _ if seq.len() != 1 => Err(Bad),
        _ => elab1(nt, &seq[0]),
    };
    // Where the division into tokens is itself unclear there is no verdict.
    if r.is_err() && seq.iter().any(has_glued) {
        return Err(Amb);
    }
    r
}
fn elab1(nt: NT, x: &Sx) -> R {
    match nt {
        NT::Domain => domain(x),
        NT::Problem => problem(x),
        NT::RequireDef => requirements(x),
        NT::RequireKey => req_key(x),
        NT::TypesDef => types(x),
        NT::ConstantsDef => constants(x),
        NT::PredicatesDef => predicates(x),
        NT::FunctionsDef => functions(x),
        NT::DomainConstraints => dom_constraints(x),
        NT::StructureDef => structure(x),
        NT::ActionDef => action(x),
        NT::DaDef => durative(x),
        NT::Derived => derived(x),
        NT::Objects => objects(x),
        NT::Init => init(x),
        NT::Goal => goal(x),
        NT::ProblemConstraints => prob_constraints(x),
        NT::Metric => metric(x),
        NT::Length => length(x),
        NT::Timeless => timeless(x),
        NT::InitEl => init_el(x),
        NT::Gd => gd(x),
        NT::PreGd => pre_gd(x),
        NT::PrefGd => pref_gd(x),
        NT::Effect => effect(x),
        NT::CEffect => c_effect(x),
        NT::ForallC => if x.head() == Some("forall") { c_effect(x) } else { Err(Bad) },
        NT::WhenC => if x.head() == Some("when") { c_effect(x) } else { Err(Bad) },
        NT::PEffect => p_effect(x),
        NT::CondEffect => cond_effect(x),
        NT::ConGd => con(x),
        NT::Con2Gd => con2(x),
        NT::PrefConGd => pref_con(x),
        NT::DaGd => da_gd(x),
        NT::DaEffect => da_effect(x),
        NT::TimedGd => timed_gd(x),
        NT::TimedEffect => timed_effect(x),
        NT::PrefTimedGd => pref_timed_gd(x),
        NT::DurConstraint => dur(x),
        NT::SimpleDur => simple_dur(x),
        NT::DValue => d_value(x),
        NT::FAssignDa => f_assign_da(x),
        NT::FExp => fexp(x),
        NT::FExpDa => fexp_da(x),
        NT::FExpT => fexp_t(x),
        NT::FComp => fcomp(x),
        NT::FHead => fhead(x),
        NT::FunctionTerm => fterm(x),
        NT::BasicFunctionTerm => bft(x),
        NT::Term => term(x),
        NT::MetricFExp => metric_exp(x),
        NT::FormulaSkeleton => formula_skel(x),
        NT::FunctionSkeleton => function_skel(x),
        NT::Type | NT::FunctionType => type_(x),
        NT::PrimitiveType => node("ptype", vec![name(x)]),
        NT::Name | NT::Predicate | NT::PrefName | NT::ActionSymbol | NT::DaSymbol | NT::FunctionSymbol => name(x),
        NT::Variable => variable(x),
        NT::Number => number(x),
        NT::AssignOp => keyword(x, ASSIGN_OPS).map(|c| if c == s("change") { s("assign") } else { c }),
        NT::AssignOpT => keyword(x, &["increase", "decrease"]),
        NT::BinaryComp => keyword(x, &["=", "<", ">", "<=", ">="]),
        NT::BinaryOp => keyword(x, &["+", "-", "*", "/"]),
        NT::MultiOp => keyword(x, &["+", "*"]),
        NT::DOp => keyword(x, &["=", "<=", ">="]),
        NT::Interval => keyword(x, &["all"]),
        NT::Optimization => keyword(x, &["minimize", "maximize"]),
        NT::TimeSpecifier => timespec(x),
        NT::AtomTerm => atom(x, term),
        NT::AtomName => atom(x, nterm),
        NT::LiteralTerm => literal(x, term),
        NT::LiteralName => literal(x, nterm),
        NT::ListVar | NT::ListName | NT::ListFun => unreachable!(),
    }
}
/// Is this construct a list that greedily takes all matching elements that follow?
pub fn is_open_list(nt: NT) -> bool {
    matches!(nt, NT::ListVar | NT::ListName | NT::ListFun)
}
