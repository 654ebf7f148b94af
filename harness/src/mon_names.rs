//! Monitors of names: spelling, sharing, concurrent creation.
use crate::entries::*;
use crate::fw::*;
use crate::gen::*;
use crate::layout::*;
use crate::mon_text::*;
use crate::mon_values::hash_of;
use crate::refel::*;
use crate::rng::Rng;
use crate::sx::*;
use pddl::*;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

/// A string type of the caller.
struct Own(String);
impl AsRef<str> for Own {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl From<Own> for String {
    fn from(o: Own) -> String {
        o.0
    }
}
fn leak(s: &str) -> &'static str {
    // One per spelling, so that memory stays bounded.
    static L: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = L.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), x);
    x
}
/// Can this spelling be written as a name in a text?
fn in_text(s: &str) -> bool {
    is_name(s)
}
pub const ROUTES: usize = 26;
/// A name made by the given route; true if it is made at run time by interning.
fn make(s: &str, route: usize) -> (Name, bool, &'static str) {
    match route {
        0 => (Name::new(s), true, "new(&str)"),
        1 => (Name::new(s.to_string()), true, "new(String)"),
        2 => (Name::new(&s.to_string()), true, "new(&String)"),
        3 => (Name::new(Cow::Borrowed(s)), true, "new(Cow borrowed)"),
        4 => (Name::new(Cow::<str>::Owned(s.into())), true, "new(Cow owned)"),
        5 => (Name::new(s.to_string().into_boxed_str()), true, "new(Box<str>)"),
        6 => (Name::new(Own(s.into())), true, "new(caller type)"),
        7 => (Name::from(s), true, "from(&str)"),
        8 => (Name::from(s.to_string()), true, "from(String)"),
        9 => (s.into(), true, "into"),
        10 => (Name::new_static(leak(s)), false, "new_static"),
        11 => {
            if s.is_empty() {
                (Name::default(), false, "default")
            } else {
                (Name::new(leak(s)), true, "new(&'static str)")
            }
        }
        12 => (AsRef::<Name>::as_ref(&Variable::from_str(s)).clone(), true, "Variable::from_str"),
        13 => (AsRef::<Name>::as_ref(&Predicate::from_str(s)).clone(), true, "Predicate::from_str"),
        14 => (AsRef::<Name>::as_ref(&ActionSymbol::from_str(s)).clone(), true, "ActionSymbol::from_str"),
        15 => (AsRef::<Name>::as_ref(&FunctionSymbol::from_str(s)).clone(), true, "FunctionSymbol::from_str"),
        16 => (AsRef::<Name>::as_ref(&DurativeActionSymbol::from_str(s)).clone(), true, "DurativeActionSymbol::from_str"),
        17 => ((*PreferenceName::from_str(s)).clone(), true, "PreferenceName::from_str"),
        18 => ((*PreferenceName::new(s)).clone(), true, "PreferenceName::new"),
        19 => (AsRef::<Name>::as_ref(&Variable::from(s)).clone(), true, "Variable::from"),
        20 => (AsRef::<Name>::as_ref(&Predicate::from_static(leak(s))).clone(), false, "Predicate::from_static"),
        21 => (AsRef::<Name>::as_ref(&Variable::from_static(leak(s))).clone(), false, "Variable::from_static"),
        22 if in_text(s) => (<Name as Parser>::from_str(s).unwrap(), true, "parse"),
        23 if in_text(s) => {
            let t = format!("{} rest", s);
            (Name::parse(t.as_str()).unwrap().1, true, "parse with remainder")
        }
        24 if in_text(s) => {
            let t = format!("?{}", s);
            let v = <Variable as Parser>::from_str(&t).unwrap();
            (AsRef::<Name>::as_ref(&v).clone(), true, "parse variable")
        }
        25 if in_text(s) && !s.is_empty() => {
            let t = format!("({}) x", s);
            match AtomicFormulaSkeleton::parse(t.as_str()) {
                Ok((_, x)) => (AsRef::<Name>::as_ref(x.predicate()).clone(), true, "parse predicate"),
                Err(_) => (Name::new(s), true, "new(&str)"),
            }
        }
        _ => (Name::new(s).clone(), true, "clone"),
    }
}
fn spellings(ctx: &Ctx, r: &mut Rng, n: usize) -> Vec<String> {
    let d = ctx.dict.clone();
    let mut v: Vec<String> = vec![];
    let mut g = Gen::new(r.fork(), Knobs::small(), &d);
    while v.len() < n {
        let s = match r.below(14) {
            0..=3 => g.nm(),
            12 | 13 => {
                // The vocabulary of the language, in any case.
                let w = r.pick(KEYWORDS).trim_start_matches([':', '#']).to_string();
                match r.below(5) {
                    0 => w.to_uppercase(),
                    1 => {
                        let mut c: Vec<char> = w.chars().collect();
                        if let Some(x) = c.first_mut() {
                            *x = x.to_ascii_uppercase();
                        }
                        c.into_iter().collect()
                    }
                    2 => format!("{}{}", w, r.pick(&["s", "-", "_", "0"])),
                    _ => w,
                }
            }
            4 if !v.is_empty() => {
                // A close relative of an earlier one.
                let b = r.pick(&v).clone();
                let c: Vec<char> = b.chars().collect();
                match r.below(7) {
                    0 => b.to_uppercase(),
                    1 => format!("{}{}", b, r.pick(&["a", "-", "_", "0", " "])),
                    2 => c[..c.len().saturating_sub(1)].iter().collect(),
                    3 => c.iter().rev().collect(),
                    4 => b.replace('-', "_"),
                    5 => format!("{}{}", r.pick(&["a", "-", "_", "0"]), b),
                    _ => b.to_lowercase(),
                }
            }
            5 => r.pick(&["", "object", "number", "Object", "objec", "objects", "numbe", "NUMBER", "a", "b", "A", "z", "zz", "either", "and", "not"]).to_string(),
            6 => r.pick(&["ä", "äb", "λ", "λx", "é", "e\u{301}", "日本", "🚀", " ", "a b", "\0", "a\0b", "?x", "(", "-", "\u{feff}a", "ß", "SS"]).to_string(),
            7 => {
                let k = *r.pick(&[15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 70000]);
                let mut s = "n".repeat(k);
                if r.chance(1, 2) {
                    s.push(*r.pick(&['a', 'b', '-', '1']));
                }
                s
            }
            8 => format!("n{}", r.below(5000)),
            9 => {
                let k = r.range(1, 4);
                (0..k).map(|_| *r.pick(&['a', 'b', '-', '0'])).collect()
            }
            _ => {
                let k = r.range(1, 12);
                let mut s = r.pick(&["a", "Q", "z"]).to_string();
                s.push_str(&(0..k).map(|_| *r.pick(&['a', 'b', 'c', 'X', 'y', '-', '_', '0', '9'])).collect::<String>());
                s
            }
        };
        v.push(s);
    }
    v
}
fn chk(ctx: &mut Ctx, ok: bool, sig: &str, what: impl FnOnce() -> String) {
    ctx.count("observations");
    if !ok {
        let w = what();
        ctx.violation(sig, w.clone(), w);
    }
}
/// The spelling as seen from the name.
fn check_one(ctx: &mut Ctx, n: &Name, s: &str, how: &str) {
    let text: &str = n;
    let text2: &str = n.as_ref();
    chk(ctx, text == s && text2 == s, "text", || format!("a name made from {:?} by {} has the text {:?}/{:?}", s, how, text, text2));
    let e = (*n == *s, *n == s, *n == s.to_string(), *n != *s, *n != s);
    chk(ctx, e == (true, true, true, false, false), "equals-string", || format!("a name made from {:?} by {} compared with its spelling: {:?}", s, how, e));
    chk(ctx, Name::is_empty(n) == s.is_empty(), "is_empty", || format!("is_empty of {:?} ({}) is {}", s, how, Name::is_empty(n)));
    let l = Name::len(n);
    // The length counts characters; for characters outside ASCII a count of bytes is left without verdict.
    chk(ctx, l == s.chars().count() || l == s.len(), "len", || format!("the length of {:?} ({}) is {}", s, how, l));
}
struct Live {
    n: Name,
    s: String,
    shared: bool,
    how: &'static str,
    ptr: usize,
}
/// Spellings of a large population that differ in few characters, at different places.
fn member(i: usize) -> String {
    match i % 4 {
        0 => format!("{:07}-loc", i / 4).replacen('0', "o", 1),
        1 => format!("truck-{:07}-at", i / 4),
        2 => format!("n{}", i / 4),
        _ => format!("Package-{:07}", i / 4),
    }
}
/// Very many names alive at once.
fn crowd(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let n = if ctx.tier == Tier::Quick { 1_500_000 } else { 6_000_000 };
    ctx.input("a population of names: member(0), member(1), ...");
    ctx.saw(&format!("crowd {}", n));
    let mut live: Vec<Name> = Vec::with_capacity(n);
    for i in 0..n {
        live.push(Name::new(member(i)));
    }
    ctx.max("crowd_alive", n as u64);
    for round in 0..2 {
        for k in 0..n {
            let i = if round == 0 { k } else { n - 1 - k };
            let s = member(i);
            if &*live[i] != s.as_str() {
                let what = format!("among {} names alive, the one made as {:?} is now {:?}", n, s, &*live[i]);
                return ctx.violation("crowd:spelling", what.clone(), what);
            }
            if (k + round) % 3 == 0 {
                let again = Name::new(s.as_str());
                let j = r.below(n);
                let shares = again.as_ptr() == live[i].as_ptr();
                ctx.count("crowd_names_made_again");
                if again != live[i] || hash_of(&again) != hash_of(&live[i]) || (again == live[j]) != (i == j) {
                    let what = format!("among {} names alive, equality of {:?} made again with {:?} or {:?} is wrong", n, s, &*live[i], &*live[j]);
                    return ctx.violation("crowd:equal", what.clone(), what);
                }
                if cfg!(feature = "interning") && !shares {
                    let what = format!("among {} names alive, {:?} made again does not share the stored string", n, s);
                    return ctx.violation("crowd:sharing", what.clone(), what);
                }
            }
        }
    }
    let set: HashSet<&Name> = live.iter().collect();
    let mut by: HashSet<*const u8> = HashSet::new();
    if cfg!(feature = "interning") {
        by.extend(live.iter().map(|x| x.as_ptr()));
    }
    if set.len() != n || !by.is_empty() && by.len() != n {
        let what = format!("{} spellings are {} distinct names with {} stored strings", n, set.len(), by.len());
        ctx.violation("crowd:distinct", what.clone(), what);
    }
}
fn spelling(ctx: &mut Ctx, case: u64) {
    if case == 0 {
        return crowd(ctx);
    }
    let mut r = ctx.rng();
    let big = case % 200 == 7;
    let pool_n = if big { 3000 } else { r.range(2, 40) };
    let pool = spellings(ctx, &mut r, pool_n);
    let steps = if big { 9000 } else { r.range(10, 150) };
    ctx.input(&format!("{:?}", pool.iter().take(50).collect::<Vec<_>>()));
    ctx.saw(&format!("{:?}{}", pool, steps));
    let mut live: Vec<Live> = vec![];
    for _ in 0..steps {
        match r.below(10) {
            0 if !live.is_empty() && !big => {
                // Dropped, in any order.
                let i = r.below(live.len());
                live.swap_remove(i);
                ctx.count("dropped");
                continue;
            }
            1 if !live.is_empty() => {
                let i = r.below(live.len());
                let (n, s, shared, how) = (live[i].n.clone(), live[i].s.clone(), live[i].shared, live[i].how);
                let ptr = n.as_ptr() as usize;
                check_one(ctx, &n, &s, "clone");
                live.push(Live { n, s, shared, how, ptr });
                continue;
            }
            _ => {}
        }
        let s = r.pick(&pool).clone();
        let route = r.below(ROUTES);
        let (n, shared, how) = make(&s, route);
        ctx.count(&format!("route:{}", how));
        check_one(ctx, &n, &s, how);
        let h = hash_of(&n);
        // Against some of those alive.
        let tries = if live.is_empty() { 0 } else if big { 3 } else { live.len().min(30) };
        for t in 0..tries {
            let o = if t % 2 == 0 { r.below(live.len()) } else { live.len() - 1 - (t % live.len()) };
            let o = &live[o];
            let same = o.s == s;
            ctx.count(if same { "pairs_same" } else { "pairs_different" });
            let e = (n == o.n, o.n == n, n != o.n, hash_of(&o.n) == h, o.n == *s, n == o.s);
            chk(ctx, e == (same, same, !same, same, same, same), if same { "equal" } else { "unequal" }, || {
                format!("names {:?} ({}) and {:?} ({}): == {} {} != {} same hash {} compare with the other's string {} {}", s, how, o.s, o.how, e.0, e.1, e.2, e.3, e.4, e.5)
            });
            if !s.is_empty() && !o.s.is_empty() && shared && o.shared && cfg!(feature = "interning") {
                let p = n.as_ptr() as usize == o.n.as_ptr() as usize;
                ctx.count(if same { "shared_pairs" } else { "unshared_pairs" });
                chk(ctx, p == same, "sharing", || format!("names {:?} ({}) and {:?} ({}) {} one stored string", s, how, o.s, o.how, if p { "share" } else { "do not share" }));
            }
        }
        let ptr = n.as_ptr() as usize;
        live.push(Live { n, s, shared, how, ptr });
    }
    ctx.max("alive", live.len() as u64);
    // Nothing that happened later changed an earlier name.
    let mut by: HashMap<&str, usize> = HashMap::new();
    for l in &live {
        check_one(ctx, &l.n, &l.s, l.how);
        chk(ctx, l.n.as_ptr() as usize == l.ptr, "moved", || format!("the stored string of {:?} ({}) moved", l.s, l.how));
        if cfg!(feature = "interning") && l.shared && !l.s.is_empty() {
            let p = *by.entry(&l.s).or_insert(l.ptr);
            chk(ctx, p == l.ptr, "sharing", || format!("two names {:?} made at run time (one by {}) do not share their stored string", l.s, l.how));
        }
    }
    let set: HashSet<&Name> = live.iter().map(|l| &l.n).collect();
    let want: HashSet<&str> = live.iter().map(|l| l.s.as_str()).collect();
    chk(ctx, set.len() == want.len(), "set", || format!("{} distinct names for {} spellings", set.len(), want.len()));
    wrappers(ctx, &mut r, &pool);
    ctx.sample(|| format!("{} spellings, {} steps, e.g. {:?}", pool.len(), steps, pool.iter().take(8).collect::<Vec<_>>()));
}
/// Variables, symbols, types.
fn wrappers(ctx: &mut Ctx, r: &mut Rng, pool: &[String]) {
    for _ in 0..8 {
        let a = r.pick(pool).clone();
        let b = if r.chance(1, 2) { a.clone() } else { r.pick(pool).clone() };
        let same = a == b;
        let (ra, rb) = (r.below(22), r.below(22));
        let (x, y) = (make(&a, ra), make(&b, rb));
        let cx = |what: &str| format!("{} from {:?} ({}) and {:?} ({})", what, a, x.2, b, y.2);
        macro_rules! sym {
            ($t:ident) => {
                for (u, v) in [($t::new(x.0.clone()), $t::new(y.0.clone())), ($t::from_name(x.0.clone()), $t::from(b.as_str())), ($t::from(a.clone()), $t::from(y.0.clone())), ($t::from_str(&a), $t::from_str(&b))] {
                    ctx.count(concat!("wrapped:", stringify!($t)));
                    let (tu, tv): (&str, &str) = (u.as_ref(), v.as_ref());
                    chk(ctx, tu == a && tv == b, concat!("text:", stringify!($t)), || format!("{}: texts {:?} {:?}", cx(stringify!($t)), tu, tv));
                    let (nu, nv): (&Name, &Name) = (u.as_ref(), v.as_ref());
                    chk(ctx, *nu == a && *nv == b && (*u == *nu), concat!("text:", stringify!($t)), || cx(stringify!($t)));
                    chk(
                        ctx,
                        (u == v) == same && (u != v) != same && (hash_of(&u) == hash_of(&v)) == same,
                        concat!("equal:", stringify!($t)),
                        || format!("{}: == is {}, same hash {}", cx(stringify!($t)), u == v, hash_of(&u) == hash_of(&v)),
                    );
                    chk(ctx, u.clone() == u && *u == a && u.len() == x.0.len() && u.is_empty() == a.is_empty(), concat!("text:", stringify!($t)), || cx(stringify!($t)));
                }
            };
        }
        sym!(Variable);
        sym!(Predicate);
        sym!(ActionSymbol);
        sym!(DurativeActionSymbol);
        sym!(FunctionSymbol);
        for (u, v) in [(PreferenceName::new(x.0.clone()), PreferenceName::from_name(y.0.clone())), (PreferenceName::from(a.as_str()), PreferenceName::from_static(leak(&b)))] {
            ctx.count("wrapped:PreferenceName");
            chk(ctx, (u == v) == same && (u != v) != same && **u == *a && **v == *b, "equal:PreferenceName", || cx("PreferenceName"));
        }
        for (u, v) in [(PrimitiveType::new(x.0.clone()), PrimitiveType::from(b.as_str())), (PrimitiveType::from(a.clone()), PrimitiveType::new(y.0.clone()))] {
            ctx.count("wrapped:PrimitiveType");
            chk(ctx, (u == v) == same && (hash_of(&u) == hash_of(&v)) == same && &*u == a.as_str() && &*v == b.as_str(), "equal:PrimitiveType", || cx("PrimitiveType"));
            let (tu, tv) = (Type::Exactly(u.clone()), Type::Exactly(v.clone()));
            chk(ctx, (tu == tv) == same && (tu != tv) != same, "equal:Type", || cx("Type"));
            chk(ctx, (tu == Type::OBJECT) == (a == "object") && (tv == Type::NUMBER) == (b == "number"), "equal:Type", || cx("Type::OBJECT/NUMBER"));
            let (eu, ev): (Type, Type) = (vec![u.clone(), v.clone()].into(), vec![v, u].into());
            chk(ctx, (eu == ev) == same, "equal:Type", || cx("either"));
        }
    }
    chk(ctx, Name::default() == "" && *Variable::default() == "" && Type::default() == Type::OBJECT, "default", || "defaults".into());
}
// ---------------------------------------------------------------- concurrency
/// A string type whose conversion interferes.
struct Hostile {
    s: String,
    mode: u8,
    where_: u8,
}
static PLANNED: AtomicU64 = AtomicU64::new(0);
fn interfere(mode: u8, s: &str) {
    match mode {
        1 => {
            PLANNED.fetch_add(1, Ordering::Relaxed);
            std::panic::panic_any("planned")
        }
        2 => {
            let n = Name::new(format!("{}-inner", s));
            assert_eq!(n, format!("{}-inner", s));
        }
        3 => std::thread::sleep(Duration::from_micros(200)),
        4 => std::thread::yield_now(),
        5 => {
            let _ = Domain::from_str("(define (domain inner) (:predicates (inner-p ?x - inner-t)))");
        }
        _ => {}
    }
}
impl AsRef<str> for Hostile {
    fn as_ref(&self) -> &str {
        if self.where_ & 1 != 0 {
            interfere(self.mode, &self.s);
        }
        &self.s
    }
}
impl From<Hostile> for String {
    fn from(o: Hostile) -> String {
        if o.where_ & 2 != 0 {
            interfere(o.mode, &o.s);
        }
        o.s
    }
}
#[derive(Clone)]
enum Job {
    Name(String, usize),
    Hostile(String, u8, u8),
    Parse(usize),
    Drop,
    Clone,
}
/// Threads that all create the same large population at once, in different orders.
fn rush(ctx: &mut Ctx) {
    let (t, n) = (8usize, 40_000usize);
    ctx.input("8 threads create member(0) .. member(40000), each in another order");
    ctx.saw("rush");
    let barrier = Barrier::new(t);
    let start = 10_000_000;
    let got: Vec<Vec<Name>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|me| {
                let barrier = &barrier;
                sc.spawn(move || {
                    let mut names: Vec<Name> = vec![Name::default(); n];
                    barrier.wait();
                    for k in 0..n {
                        // Some go forward, some backward, some start elsewhere, two agree.
                        let i = match me {
                            0 | 1 => k,
                            2 | 3 => n - 1 - k,
                            _ => (k * 7 + me * 5001) % n,
                        };
                        names[i] = Name::new(member(start + i));
                    }
                    names
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    if got.len() != t {
        ctx.violation("thread-panic", "a thread ended in a panic", "rush".to_string());
    }
    for names in &got {
        for (i, x) in names.iter().enumerate() {
            ctx.count("rush_names");
            let s = member(start + i);
            if &**x != s.as_str() || *x != got[0][i] {
                let what = format!("{:?} made by 8 threads at once has the spellings {:?} and {:?}", s, &**x, &*got[0][i]);
                return ctx.violation("rush:spelling", what.clone(), what);
            }
            if cfg!(feature = "interning") && x.as_ptr() != got[0][i].as_ptr() {
                let what = format!("{:?} made by 8 threads at once does not share one stored string", s);
                return ctx.violation("rush:sharing", what.clone(), what);
            }
        }
    }
}
/// Deeply nested and very long texts, by several threads at the same moment.
fn deep_rush(ctx: &mut Ctx) {
    let mut r = ctx.rng();
    let (t, n) = (8usize, 6usize);
    let depth = r.range(150, 1200);
    let all = crate::mon_effort::deep_texts(depth);
    let mut texts: Vec<(NT, String)> = vec![];
    while texts.len() < n {
        let (nt, _, s) = r.pick(&all);
        // Mostly the valid ones.
        if s.matches('(').count() == s.matches(')').count() || r.chance(1, 12) {
            texts.push((*nt, s.clone()));
        }
    }
    let long: String = (0..r.range(2000, 20_000)).map(|i| format!("(p{} ?x) ", i)).collect();
    texts.push((NT::Gd, format!("(and {})", long)));
    ctx.input(&format!("8 threads parse {} levels at once: {}", depth, texts.iter().map(|x| &x.1[..40.min(x.1.len())]).collect::<Vec<_>>().join(" / ")));
    ctx.saw(&format!("{:?}", texts.iter().map(|x| crate::rng::hash64(x.1.as_bytes())).collect::<Vec<_>>()));
    let barrier = Barrier::new(t);
    let (texts, barrier) = (&texts, &barrier);
    let run = |alone: bool| {
        move || -> Vec<Out> {
            texts
                .iter()
                .map(|(nt, s)| {
                    if !alone {
                        barrier.wait();
                    }
                    entry(*nt).parse(s)
                })
                .collect()
        }
    };
    let big = || std::thread::Builder::new().stack_size(384 << 20);
    let (alone, got): (Vec<Out>, Vec<Vec<Out>>) = std::thread::scope(|sc| {
        let alone = big().spawn_scoped(sc, run(true)).unwrap().join().unwrap_or_default();
        let hs: Vec<_> = (0..t).map(|_| big().spawn_scoped(sc, run(false)).unwrap()).collect();
        (alone, hs.into_iter().map(|h| h.join().unwrap_or_default()).collect())
    });
    // Values this deep are also compared and dropped on a large stack.
    let wrong = std::thread::scope(|sc| {
        big()
            .spawn_scoped(sc, move || {
                for outs in &got {
                    if outs.len() != texts.len() || alone.len() != texts.len() {
                        return Some(("thread-panic", "a thread ended in a panic".to_string(), 0));
                    }
                    for (i, o) in outs.iter().enumerate() {
                        if *o != alone[i] {
                            return Some(("deep-rush", format!("{} levels, 8 threads at once: {}\nalone: {}", depth, o.brief(), alone[i].brief()), i));
                        }
                    }
                }
                None
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match wrong {
        Some((sig, m, i)) => ctx.violation(sig, m, texts[i].1.clone()),
        None => {
            ctx.add("deep_parses_at_once", (t * texts.len()) as u64);
            ctx.max("deepest_at_once", depth as u64);
        }
    }
}
fn concurrent(ctx: &mut Ctx, case: u64) {
    if case % 2000 == 1 {
        return rush(ctx);
    }
    if case % 600 == 2 {
        return deep_rush(ctx);
    }
    let mut r = ctx.rng();
    let t = if case % 50 == 3 { 32 } else { r.range(2, 10) };
    // Spellings not seen before in this process, so that creation itself is concurrent, and old ones.
    let prefix = format!("c{}x{}", case, r.below(1000));
    let k = r.range(1, 30);
    let mut pool: Vec<String> = (0..k).map(|i| format!("{}-{}", prefix, i)).collect();
    pool.extend(spellings(ctx, &mut r, 6).into_iter().filter(|s| s.len() < 300));
    let mut docs: Vec<(NT, String, Option<crate::canon::C>)> = vec![];
    for _ in 0..r.range(1, 6) {
        let nt = if r.chance(1, 2) { *r.pick(&[NT::Domain, NT::Problem]) } else { *r.pick(ALL_NT) };
        let mut kn = Knobs::small();
        kn.depth = r.below(3);
        if let Some((seq, want)) = valid(ctx, &mut r, &kn, nt) {
            // With fresh names.
            let d = ctx.dict.clone();
            if r.chance(1, 4) {
                let (toks, _) = crate::mutate::corrupt(&seq, &mut r, &d);
                docs.push((nt, render(&toks, Style::Pretty, false, &mut r).0, None));
            } else {
                docs.push((nt, render(&tokens_of(&seq), Style::Pretty, false, &mut r).0, Some(want)));
            }
        }
    }
    let text = format!("(define (domain {p}) (:types {p}-t {p}-u - {p}-t) (:predicates ({p}-p ?{p}-v - {p}-t) ({p}-q ?x - {p}-u)))", p = prefix);
    docs.push((NT::Domain, text, None));
    let with_panics = r.chance(1, 3);
    let jobs: Vec<Vec<Job>> = (0..t)
        .map(|_| {
            let n = r.range(5, 60);
            (0..n)
                .map(|_| match r.below(10) {
                    0..=3 => Job::Name(r.pick(&pool).clone(), r.below(22)),
                    4 | 5 => {
                        let m = *r.pick(&[0u8, 2, 3, 4, 5]);
                        Job::Hostile(r.pick(&pool).clone(), m, r.range(1, 3) as u8)
                    }
                    6 if with_panics => Job::Hostile(r.pick(&pool).clone(), 1, r.range(1, 3) as u8),
                    7 | 8 => Job::Parse(r.below(docs.len())),
                    9 => Job::Drop,
                    _ => Job::Clone,
                })
                .collect()
        })
        .collect();
    ctx.input(&format!("{} threads, {:?}\n{}", t, pool, docs.iter().map(|d| d.1.as_str()).collect::<Vec<_>>().join("\n")));
    ctx.saw(&format!("{} {} {:?}", prefix, t, docs.iter().map(|d| &d.1).collect::<Vec<_>>()));
    ctx.add("threads", t as u64);
    ctx.add("operations", jobs.iter().map(|j| j.len() as u64).sum());
    let docs = Arc::new(docs);
    let barrier = Arc::new(Barrier::new(t));
    let progress = Arc::new(AtomicU64::new(0));
    let clock = Arc::new(AtomicUsize::new(0));
    type Seen = (Vec<(Name, String, bool)>, Vec<(usize, Out)>, Vec<String>, u64, Vec<usize>);
    let (tx, rx) = std::sync::mpsc::channel::<(usize, std::thread::Result<Seen>)>();
    for (me, js) in jobs.iter().cloned().enumerate() {
        let (docs, barrier, progress, tx, clock) = (docs.clone(), barrier.clone(), progress.clone(), tx.clone(), clock.clone());
        let mut r = r.fork();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let mut names: Vec<(Name, String, bool)> = vec![];
                    let (mut outs, mut bad, mut planned, mut ticks) = (vec![], vec![], 0u64, vec![]);
                    barrier.wait();
                    for j in js {
                        ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                        match j {
                            Job::Name(s, route) => {
                                let (n, shared, _) = make(&s, route);
                                names.push((n, s, shared));
                            }
                            Job::Hostile(s, mode, where_) => {
                                let h = Hostile { s: s.clone(), mode, where_ };
                                match catch_unwind(AssertUnwindSafe(|| Name::new(h))) {
                                    Ok(n) => names.push((n, s, true)),
                                    Err(_) if mode == 1 => planned += 1,
                                    Err(p) => {
                                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                                        bad.push(format!("creating the name {:?} panicked: {}", s, m))
                                    }
                                }
                            }
                            Job::Parse(i) => outs.push((i, entry(docs[i].0).parse(&docs[i].1))),
                            Job::Drop => {
                                if !names.is_empty() {
                                    let i = r.below(names.len());
                                    names.swap_remove(i);
                                }
                            }
                            Job::Clone => {
                                if !names.is_empty() {
                                    let i = r.below(names.len());
                                    names.push(names[i].clone());
                                }
                            }
                        }
                        progress.fetch_add(1, Ordering::Relaxed);
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                        }
                    }
                    (names, outs, bad, planned, ticks)
                }));
                let _ = tx.send((me, res));
            })
            .unwrap();
    }
    drop(tx);
    let mut got: Vec<(usize, std::thread::Result<Seen>)> = vec![];
    let (mut last, mut since, mut cpu) = (0, Instant::now(), cpu_ns(false));
    while got.len() < t {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(x) => {
                got.push(x);
                since = Instant::now();
                cpu = cpu_ns(false);
            }
            Err(_) => {
                let p = progress.load(Ordering::Relaxed);
                if p != last {
                    last = p;
                    since = Instant::now();
                    cpu = cpu_ns(false);
                } else if since.elapsed() > Duration::from_secs(20) && cpu_ns(false) - cpu < 2_000_000_000 {
                    ctx.violation("deadlock", format!("{} of {} threads made no progress for 20 s without using the processor", t - got.len(), t), format!("pool {:?}", pool));
                    // The stuck threads stay; no more can be observed in this process.
                    ctx.verbose = false;
                    return finish_stuck(ctx);
                }
            }
        }
    }
    // Sequential results, now.
    let seq: Vec<Out> = docs.iter().map(|d| entry(d.0).parse(&d.1)).collect();
    let mut first: HashMap<String, usize> = HashMap::new();
    let mut interleaving: Vec<(usize, usize)> = vec![];
    for (me, res) in got {
        let (names, outs, bad, planned, ticks) = match res {
            Ok(x) => x,
            Err(_) => {
                ctx.violation("thread-panic", "a thread ended in a panic", format!("pool {:?}", pool));
                continue;
            }
        };
        interleaving.extend(ticks.iter().map(|k| (*k, me)));
        ctx.add("planned_panics", planned);
        for b in bad {
            ctx.violation("creation-failed", b.clone(), b);
        }
        for (i, o) in outs {
            ctx.count("concurrent_parses");
            if o != seq[i] {
                ctx.violation("parse-differs", format!("concurrent: {}\nalone: {}", o.brief(), seq[i].brief()), docs[i].1.clone());
            }
            if let (Some(w), Out::Ok(c, _)) = (&docs[i].2, &o) {
                if c != w {
                    ctx.violation("parse-wrong", crate::canon::diff(w, c).unwrap_or_default(), docs[i].1.clone());
                }
            }
        }
        for (n, s, shared) in names {
            ctx.count("concurrent_names");
            check_one(ctx, &n, &s, "a concurrent thread");
            let again = Name::new(s.as_str());
            chk(ctx, n == again && hash_of(&n) == hash_of(&again), "equal", || format!("a name {:?} made concurrently is not equal to one made afterwards", s));
            if shared && !s.is_empty() && cfg!(feature = "interning") {
                let p = n.as_ptr() as usize;
                let q = *first.entry(s.clone()).or_insert(p);
                ctx.count("sharing_checks");
                chk(ctx, p == q && again.as_ptr() as usize == p, "sharing", || format!("names {:?} made concurrently do not share one stored string", s));
            }
        }
    }
    interleaving.sort();
    let mut sig = String::new();
    let mut switches = 0;
    for w in interleaving.windows(2) {
        if w[0].1 != w[1].1 {
            switches += 1;
        }
    }
    for (_, m) in &interleaving {
        sig.push((b'A' + *m as u8) as char);
    }
    ctx.add("thread_switches_observed", switches);
    // Distinct interleavings are what counts here.
    ctx.distinct.insert(crate::rng::hash64(sig.as_bytes()));
    ctx.count("rounds");
    ctx.sample(|| format!("{} threads, interleaving of operations {}", t, &sig[..sig.len().min(200)]));
}
fn finish_stuck(ctx: &mut Ctx) {
    ctx.count("stuck_rounds");
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            rule: "a history of name creations (26 routes, with clones and drops) over a pool of related spellings; the first case keeps 1.5 million names alive; distinct by pool and length",
            quick: 10_000,
            thorough: 150_000,
            case: spelling,
            floors: &[("crowd_names_made_again", 1_000_000), ("pairs_same", 50_000), ("pairs_different", 500_000), ("shared_pairs", 20_000), ("dropped", 5_000), ("wrapped:Variable", 10_000), ("route:parse", 1_000), ("route:new_static", 1_000)],
            assumptions: &["64-bit hashes of different spellings do not collide", "for characters outside ASCII the length may count characters or bytes"],
            ..BASE
        },
        Prop {
            id: "P19",
            rule: "eight threads creating the same 40,000 names at once in different orders; eight threads parsing texts of 150 to 1,200 levels at the same moment; a round of 2 to 32 threads creating names (some in callers' conversions that panic, re-enter or delay) and parsing; distinct by workload and by observed interleaving",
            quick: 6_000,
            thorough: 200_000,
            case: concurrent,
            floors: &[("deep_parses_at_once", 400), ("rush_names", 320_000), ("rounds", 3_000), ("concurrent_names", 100_000), ("concurrent_parses", 50_000), ("planned_panics", 1_000), ("sharing_checks", 50_000), ("thread_switches_observed", 50_000)],
            assumptions: &["schedules are those the operating system produces under barriers, yields and delays"],
            stack: 64,
            post: Some(|p, t, s, _, tot| {
                crate::mon_hist::sanitized(p, t, s, "thread", if t == Tier::Quick { 400 } else { 20_000 }, tot);
                let (n, schedules, budget) = if t == Tier::Quick { (8, 16, 60) } else { (120, 32, 200) };
                let runs = (0..n).map(|i| vec!["race".to_string(), (s * 100_000 + i).to_string()]).collect();
                crate::mon_hist::interpreted(p, runs, schedules, budget, tot);
            }),
            ..BASE
        },
    ]
}
