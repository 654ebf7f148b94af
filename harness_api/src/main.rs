//! Builds values through the public API in any feature configuration and prints what they are
//! like; the outputs of all configurations must be the same.
#![allow(dead_code)]
#[path = "../../harness/src/canon.rs"]
mod canon;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/mk.rs"]
mod mk;
#[path = "../../harness/src/num.rs"]
mod num;
#[path = "../../harness/src/proj.rs"]
mod proj;
#[path = "../../harness/src/refel.rs"]
mod refel;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sx.rs"]
mod sx;
#[path = "../../harness/src/views.rs"]
mod views;
use canon::C;
use mk::Mk;
use pddl::*;
use refel::NT;
use rng::{hash64, Rng};
use std::collections::{BTreeSet, HashMap, HashSet};

/// What a value built from the content is like.
fn look<T: Mk + proj::Proj + views::Views + PartialEq + Clone + std::fmt::Debug>(c: &C, r: &mut Rng) -> String {
    let a = T::mk(c, r);
    let b = T::mk(c, r);
    let mut w = views::W::default();
    proj::Proj::c(&a);
    views::Views::views(&a, &mut w);
    let d = format!("{:?}", a);
    format!(
        "faithful={} same={}{}{} clone={} bad={:?} content={:x} debug={:x}",
        proj::Proj::c(&a) == *c,
        a == b,
        b == a,
        a != b,
        a.clone() == a,
        w.bad.iter().map(|x| &x.1).collect::<BTreeSet<_>>(),
        proj::Proj::c(&b).hash64(),
        hash64(d.as_bytes())
    )
}
fn value(nt: NT, c: &C, r: &mut Rng) -> String {
    match nt {
        NT::Domain => look::<Domain>(c, r),
        NT::Problem => look::<Problem>(c, r),
        NT::RequireDef => look::<Requirements>(c, r),
        NT::RequireKey => look::<Requirement>(c, r),
        NT::TypesDef => look::<Types>(c, r),
        NT::ConstantsDef => look::<Constants>(c, r),
        NT::PredicatesDef => look::<PredicateDefinitions>(c, r),
        NT::FunctionsDef => look::<Functions>(c, r),
        NT::DomainConstraints => look::<DomainConstraintsDef>(c, r),
        NT::StructureDef => look::<StructureDef>(c, r),
        NT::ActionDef => look::<ActionDefinition>(c, r),
        NT::DaDef => look::<DurativeActionDefinition>(c, r),
        NT::Derived => look::<DerivedPredicate>(c, r),
        NT::Objects => look::<Objects>(c, r),
        NT::Init => look::<InitElements>(c, r),
        NT::Goal => look::<GoalDef>(c, r),
        NT::ProblemConstraints => look::<ProblemConstraintsDef>(c, r),
        NT::Metric => look::<MetricSpec>(c, r),
        NT::Length => look::<LengthSpec>(c, r),
        NT::Timeless => look::<Timeless>(c, r),
        NT::InitEl => look::<InitElement>(c, r),
        NT::Gd => look::<GoalDefinition>(c, r),
        NT::PreGd => look::<PreconditionGoalDefinitions>(c, r),
        NT::PrefGd => look::<PreferenceGD>(c, r),
        NT::Effect => look::<Effects>(c, r),
        NT::CEffect => look::<CEffect>(c, r),
        NT::ForallC => look::<ForallCEffect>(c, r),
        NT::WhenC => look::<WhenCEffect>(c, r),
        NT::PEffect => look::<PEffect>(c, r),
        NT::CondEffect => look::<ConditionalEffect>(c, r),
        NT::ConGd => look::<ConGD>(c, r),
        NT::Con2Gd => look::<Con2GD>(c, r),
        NT::PrefConGd => look::<PrefConGDs>(c, r),
        NT::DaGd => look::<DurativeActionGoalDefinition>(c, r),
        NT::DaEffect => look::<DurativeActionEffect>(c, r),
        NT::TimedGd => look::<TimedGD>(c, r),
        NT::TimedEffect => look::<TimedEffect>(c, r),
        NT::PrefTimedGd => look::<PrefTimedGD>(c, r),
        NT::DurConstraint => look::<Option<DurationConstraint>>(c, r),
        NT::SimpleDur => look::<SimpleDurationConstraint>(c, r),
        NT::DValue => look::<DurationValue>(c, r),
        NT::FAssignDa => look::<FAssignDa>(c, r),
        NT::FExp => look::<FExp>(c, r),
        NT::FExpDa => look::<FExpDa>(c, r),
        NT::FExpT => look::<FExpT>(c, r),
        NT::FComp => look::<FComp>(c, r),
        NT::FHead => look::<FHead>(c, r),
        NT::FunctionTerm => look::<FunctionTerm>(c, r),
        NT::BasicFunctionTerm => look::<BasicFunctionTerm>(c, r),
        NT::Term => look::<Term>(c, r),
        NT::MetricFExp => look::<MetricFExp>(c, r),
        NT::FormulaSkeleton => look::<AtomicFormulaSkeleton>(c, r),
        NT::FunctionSkeleton => look::<AtomicFunctionSkeleton>(c, r),
        NT::Type => look::<Type>(c, r),
        NT::FunctionType => look::<FunctionType>(c, r),
        NT::PrimitiveType => look::<PrimitiveType>(c, r),
        NT::Name => look::<Name>(c, r),
        NT::Variable => look::<Variable>(c, r),
        NT::Number => look::<Number>(c, r),
        NT::Predicate => look::<Predicate>(c, r),
        NT::PrefName => look::<PreferenceName>(c, r),
        NT::ActionSymbol => look::<ActionSymbol>(c, r),
        NT::DaSymbol => look::<DurativeActionSymbol>(c, r),
        NT::FunctionSymbol => look::<FunctionSymbol>(c, r),
        NT::AssignOp => look::<AssignOp>(c, r),
        NT::AssignOpT => look::<AssignOpT>(c, r),
        NT::BinaryComp => look::<BinaryComp>(c, r),
        NT::BinaryOp => look::<BinaryOp>(c, r),
        NT::MultiOp => look::<MultiOp>(c, r),
        NT::DOp => look::<DOp>(c, r),
        NT::Interval => look::<Interval>(c, r),
        NT::Optimization => look::<Optimization>(c, r),
        NT::TimeSpecifier => look::<TimeSpecifier>(c, r),
        NT::AtomTerm => look::<AtomicFormula<Term>>(c, r),
        NT::AtomName => look::<AtomicFormula<Name>>(c, r),
        NT::LiteralTerm => look::<Literal<Term>>(c, r),
        NT::LiteralName => look::<Literal<Name>>(c, r),
        NT::ListVar => look::<TypedList<Variable>>(c, r),
        NT::ListName => look::<TypedList<Name>>(c, r),
        NT::ListFun => look::<FunctionTypedList<AtomicFunctionSkeleton>>(c, r),
        #[allow(unreachable_patterns)]
        _ => String::new(),
    }
}
/// What names of various spellings are like to each other and in collections.
fn names(r: &mut Rng, d: &gen::Dict) -> String {
    let mut words: Vec<String> = vec!["object".into(), "number".into(), "Object".into(), "".into(), "objects".into(), "ob".into()];
    for _ in 0..r.range(2, 20) {
        let w = if r.chance(1, 2) && !d.names.is_empty() { r.pick(&d.names).clone() } else { format!("n{}", r.below(30)) };
        words.push(w);
    }
    // Names need not come from a text.
    for _ in 0..3 {
        words.push(r.pick(&["ä", "日本", "e\u{301}", "é", "obj\u{e9}ct", "ß", "SS", "\0", "a b", "?x", "-", "🚀🚀", " a", "a ", "ı", "I", "i"]).to_string());
    }
    words.push("long-".repeat(r.range(1, 100)));
    for _ in 0..4 {
        let mut w = r.pick(&words).clone();
        w.push(*r.pick(&['a', 'Z', '-']));
        words.push(w);
    }
    let made: Vec<Name> = words.iter().map(|w| Name::mk(&C::S(w.clone()), r)).collect();
    let mut o = String::new();
    for (i, a) in made.iter().enumerate() {
        o.push_str(&format!("{} {} {:?} {} {};", a.len(), a.is_empty(), a, a.as_ref() as &str, &a[..]));
        for (j, b) in made.iter().enumerate() {
            if (a == b) != (words[i] == words[j]) || (a == b) == (a != b) || (a == &b[..]) != (a == b) || (*a == b.to_string()) != (a == b) {
                o.push_str(&format!("UNEQUAL {} {};", i, j));
            }
        }
    }
    let set: HashSet<&Name> = made.iter().collect();
    let spelled: HashSet<&String> = words.iter().collect();
    let mut map: HashMap<Predicate, usize> = HashMap::new();
    for n in &made {
        *map.entry(Predicate::from(n.clone())).or_default() += 1;
    }
    let mut counts: Vec<(String, usize)> = map.iter().map(|(k, v)| (AsRef::<str>::as_ref(k).to_string(), *v)).collect();
    counts.sort();
    o.push_str(&format!("{}={} {:?}", set.len(), spelled.len(), counts));
    format!("names={:x}{}", hash64(o.as_bytes()), if o.contains("UNEQUAL") || set.len() != spelled.len() { " WRONG" } else { "" })
}
/// Numbers made in every way, against plain floats.
fn numbers(r: &mut Rng) -> String {
    use std::cmp::Ordering;
    const AT: &[f32] = &[
        0.0, -0.0, 1.0, -1.0, -0.5, 2.5, 1e-45, -1e-45, 1e-38, 0.1, -0.1, 16777216.0, -16777217.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY,
        f32::NEG_INFINITY, f32::NAN, -f32::NAN, 3.4e38, 1e10, 0.3,
    ];
    let mut vals = vec![];
    for _ in 0..r.range(2, 10) {
        vals.push(match r.below(3) {
            0 => *r.pick(AT),
            1 => f32::from_bits(r.next() as u32),
            _ => (r.below(4001) as f32 - 2000.0) / 8.0,
        });
    }
    let mut bad: Vec<String> = vec![];
    let mut made: Vec<(f32, Number)> = vec![];
    let mut wrong = |ok: bool, what: String| {
        if !ok {
            bad.push(what);
        }
    };
    let bits = |n: &Number| (**n).to_bits();
    for &x in &vals {
        let t = Number::try_new(x);
        wrong(t.is_ok() == x.is_finite(), format!("try_new {:?} {:?}", x, t));
        let text = match r.below(3) {
            0 => format!("{}", x),
            1 => format!("{:?}", x),
            _ => format!("{:e}", x),
        };
        let f: Result<Number, _> = text.parse();
        wrong(f.is_ok() == x.is_finite(), format!("from_str {:?} {:?}", text, f));
        if let Ok(f) = f {
            wrong(bits(&f) == x.to_bits(), format!("from_str {:?} gives {:?}", text, f));
        }
        if let Ok(n) = t {
            for (how, m) in [("try_new", n), ("new", Number::new(x)), ("f32", Number::from(x)), ("f64", Number::from(x as f64))] {
                wrong(bits(&m) == x.to_bits(), format!("{} {:?} {:?}", how, x, m));
                made.push((x, m));
            }
        }
        // Integers.
        let i = r.next();
        macro_rules! ints { ($($t:ty),*) => { $( { let v = i as $t; let n = Number::from(v); wrong(*n == v as f32 && n == v, format!("{} {:?}", v, n)); made.push((v as f32, n)); } )* } }
        ints!(i8, u8, i16, u16);
        let small = (i as i32) >> (8 + r.below(16));
        wrong(Number::from(small) == Number::new(small as f32) && *Number::from(small) == small as f32, format!("i32 {}", small));
        let small = (i as u32) >> (8 + r.below(16));
        wrong(Number::from(small) == Number::new(small as f32), format!("u32 {}", small));
    }
    for &(x, a) in &made {
        for &(y, b) in made.iter().take(12) {
            let o = x.partial_cmp(&y).unwrap();
            let hs = |n: &Number| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                std::hash::Hash::hash(n, &mut h);
                std::hash::Hasher::finish(&h)
            };
            wrong(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o) && (a == b) == (o == Ordering::Equal) && (a == b) != (a != b), format!("{:?} {:?} compare", a, b));
            wrong(o != Ordering::Equal || hs(&a) == hs(&b), format!("{:?} {:?} hash", a, b));
        }
    }
    wrong(Number::default() == 0 && *Number::default() == 0.0, "default".into());
    let all: Vec<String> = made.iter().map(|x| format!("{:x} {:?}", bits(&x.1), x.1)).collect();
    let tail = if bad.is_empty() { String::new() } else { format!(" WRONG {:?}", bad) };
    format!("names={:x}{}", hash64(format!("{:?}{:?}", vals, all).as_bytes()), tail)
}
/// The words of the language and what they stand for.
fn words(r: &mut Rng, d: &gen::Dict) -> String {
    let mut v: Vec<String> = refel::REQUIREMENTS.iter().map(|x| x.to_string()).collect();
    for w in [
        "assign", "change", "scale-up", "scale-down", "increase", "decrease", "+", "-", "*", "/", "=", "<", ">", "<=", ">=", "start", "end", "all", "at", "over", "minimize", "maximize", "", "strips",
        ":Strips", "Increase", "ALL", ":", "start ", " end", "=<", ">>", "scale_up",
    ] {
        v.push(w.into());
    }
    for _ in 0..4 {
        if !d.names.is_empty() {
            v.push(r.pick(&d.names).clone());
        }
    }
    let mut o = String::new();
    let mut bad: Vec<String> = vec![];
    let mut known: HashMap<String, String> = HashMap::new();
    for w in &v {
        let x = w.as_str();
        macro_rules! try_all { ($($t:ident),*) => { $( {
            let c = $t::try_from(x);
            if let Ok(c) = &c {
                if let Some(y) = known.insert(format!("{} {:?}", stringify!($t), c), x.to_string()) {
                    if y != x && x != "change" && y != "change" { bad.push(format!("{} and {} as {:?}", x, y, c)); }
                }
            }
            o.push_str(&format!("{} {:?};", stringify!($t), c.ok()));
        } )* } }
        try_all!(Requirement, AssignOp, AssignOpT, BinaryComp, BinaryOp, MultiOp, DOp, Interval, TimeSpecifier, Optimization);
        let p = PrimitiveType::from(x);
        let t = Type::from(x);
        if (p == PrimitiveType::from("object")) != (x == "object") || (t == Type::OBJECT) != (x == "object") {
            bad.push(format!("{:?} as a type is {:?} / {:?}", x, p, t));
        }
        o.push_str(&format!("{:?} {:?};", p, t));
    }
    let rs: Vec<Requirement> = refel::REQUIREMENTS.iter().filter_map(|x| Requirement::try_from(*x).ok()).collect();
    if rs.len() != refel::REQUIREMENTS.len() {
        bad.push(format!("{} requirements", rs.len()));
    }
    for a in &rs {
        o.push_str(&format!("{} {:?} {:?};", a, a, a.expand()));
        for b in &rs {
            if (a == b) != (a.as_str() == b.as_str()) || a.contains(b) != a.contains(*b) || (a == b && !a.contains(b)) {
                bad.push(format!("{:?} {:?}", a, b));
            }
            o.push_str(if a.contains(b) { "1" } else { "0" });
        }
    }
    let tail = if bad.is_empty() { String::new() } else { format!(" WRONG {:?}", bad) };
    format!("names={:x}{}", hash64(o.as_bytes()), tail)
}
fn run(seed: u64, from: u64, to: u64) {
    let d = gen::Dict::harvest();
    for case in from..to {
        let mut r = Rng::of(&["api", &seed.to_string()], case);
        if case % 8 == 0 {
            println!("{} {}", case, names(&mut r, &d));
            continue;
        }
        if case % 8 == 4 {
            println!("{} {}", case, if case % 64 == 4 { words(&mut r, &d) } else { numbers(&mut r) });
            continue;
        }
        let nt = if r.chance(1, 4) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(refel::ALL_NT) };
        let k = gen::Knobs::swarm(&mut r);
        let seq = gen::Gen::new(r.fork(), k, &d).gen(nt);
        if seq.iter().map(|x| x.size()).sum::<usize>() > 10_000 {
            continue;
        }
        let Ok(c) = refel::elab(nt, &seq) else { continue };
        println!("{} {:?} {}", case, nt, value(nt, &c, &mut r));
    }
}
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a[0], a[1], a[2])).unwrap().join().unwrap();
}
