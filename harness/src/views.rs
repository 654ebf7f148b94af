//! Looks at a value through all its public views and accessors and reports those that disagree.
use crate::canon::C;
use crate::proj::Proj;
use pddl::*;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct W {
    /// (is it about a collection?, signature, what)
    pub bad: Vec<(bool, String, String)>,
    /// What goes wrong when values are cloned and assigned: (signature, what)
    pub cloned: Vec<(String, String)>,
    pub seen: BTreeMap<String, u64>,
}
impl W {
    fn count(&mut self, k: String) {
        *self.seen.entry(k).or_insert(0) += 1;
    }
    fn acc(&mut self, ok: bool, sig: &str, what: impl FnOnce() -> String) {
        self.count("accessors_checked".into());
        if !ok {
            self.bad.push((false, format!("accessor:{}", sig), what()));
        }
    }
    fn view(&mut self, ok: bool, sig: &str, what: impl FnOnce() -> String) {
        self.count("views_checked".into());
        if !ok {
            self.bad.push((true, format!("view:{}", sig), what()));
        }
    }
}
/// Other ways to compare two values of a type: what they say.
pub type Compared = Vec<(&'static str, bool)>;
pub trait Views: Proj {
    fn views(&self, w: &mut W);
    fn compare(&self, _o: &Self) -> Compared
    where
        Self: Sized,
    {
        vec![]
    }
}
macro_rules! acc {
    ($w:expr, $sig:expr, $a:expr, $b:expr) => {
        $w.acc($a == $b, $sig, || format!("{:?} instead of {:?}", $a, $b))
    };
}
fn size(n: usize) -> &'static str {
    match n {
        0 => "none",
        1 => "one",
        2..=9 => "few",
        _ => "many",
    }
}
/// All ways to look at a slice, against the elements seen one by one by position.
fn slice<'a, T: Proj + Views + PartialEq + Clone + std::fmt::Debug>(w: &mut W, id: &str, s: &'a [T]) {
    let n = s.len();
    w.count(format!("{}:{}", id, size(n)));
    let mut at = vec![];
    while let Some(x) = s.get(at.len()) {
        at.push(x);
    }
    w.view(at.len() == n, &format!("{}:len", id), || format!("{} elements, len {}", at.len(), n));
    w.view(s.is_empty() == (n == 0), &format!("{}:is_empty", id), || format!("is_empty {} with {} elements", s.is_empty(), n));
    let it: Vec<&T> = s.iter().collect();
    same(w, &format!("{}:iter", id), &at, &it);
    for (i, x) in s.iter().enumerate() {
        if i < 40 {
            // Assign a neighbour to it, and the first one.
            for y in [&s[(i + 1) % n], &s[0]] {
                let mut z = x.clone();
                z.clone_from(y);
                w.count("elements_assigned".into());
                if z != *y || z.c() != y.c() {
                    w.cloned.push((format!("clone_from:{}", id), format!("{:?} after clone_from({:?}) is {:?}", x, y, z)));
                }
            }
        }
        x.views(w);
    }
}
/// A vector of the one list's elements assigned to a vector of the other's: the same as before?
fn assigned<T: PartialEq + Clone>(a: &[T], b: &[T]) -> Compared {
    let mut v = a.to_vec();
    v.clone_from(&b.to_vec());
    let eq = a == b;
    let mut u = a.to_vec();
    for (x, y) in u.iter_mut().zip(b) {
        x.clone_from(y);
    }
    let n = a.len().min(b.len());
    vec![("clone_from", if v == b { v == a } else { !eq }), ("clone_from of elements", if u[..n] == b[..n] { eq } else { !eq })]
}
fn same<T: PartialEq + std::fmt::Debug>(w: &mut W, sig: &str, want: &[T], got: &[T]) {
    w.view(want == got, sig, || {
        let i = want.iter().zip(got).position(|(a, b)| a != b);
        match i {
            Some(i) => format!("element {} is {:?} instead of {:?}", i, got[i], want[i]),
            None => format!("{} elements instead of {}", got.len(), want.len()),
        }
    });
}
/// The same elements in a vector with room to spare, as it is after pushing.
pub fn roomy<T: Clone>(v: &[T]) -> Vec<T> {
    let mut o = Vec::with_capacity(v.len() + 5);
    o.extend_from_slice(v);
    o
}
/// An iterator by value, watched step by step.
fn steps<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(w: &mut W, sig: &str, want: &[T], again: impl Fn() -> I) {
    let mut got = vec![];
    let mut it = again();
    let (lo, hi) = it.size_hint();
    w.view(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), &format!("{}:size_hint", sig), || format!("size hint {:?} for {} elements", (lo, hi), want.len()));
    while let Some(x) = it.next() {
        got.push(x);
        if got.len() > want.len() + 3 {
            break;
        }
    }
    same(w, &format!("{}:into_iter", sig), want, &got);
    let after = (0..3).filter(|_| it.next().is_some()).count();
    w.view(after == 0, &format!("{}:exhausted", sig), || format!("{} further elements after the end", after));
    let n = again().count();
    w.view(n == want.len(), &format!("{}:count", sig), || format!("count {} of {}", n, want.len()));
    let last = again().last();
    w.view(last.as_ref() == want.last(), &format!("{}:last", sig), || format!("last is {:?}", last));
    for k in [0, 1, want.len() / 2, want.len().saturating_sub(1), want.len()] {
        let x = again().nth(k);
        w.view(x.as_ref() == want.get(k), &format!("{}:nth", sig), || format!("nth({}) is {:?}", k, x));
        // Partly by hand, the rest at once.
        let mut it = again();
        let mut v: Vec<T> = it.by_ref().take(k).collect();
        v.extend(it);
        same(w, &format!("{}:continued", sig), want, &v);
    }
    let folded = again().fold(vec![], |mut v, x| {
        v.push(x);
        v
    });
    same(w, &format!("{}:fold", sig), want, &folded);
}
/// Does the content have an atomic condition?
pub fn has_atom(c: &C) -> bool {
    match c {
        C::T("pred", _) | C::T("=", _) | C::T("cmp", _) => true,
        C::T(_, v) => v.iter().any(has_atom),
        _ => false,
    }
}
fn emptiness(w: &mut W, sig: &str, c: &C, got: bool) {
    let want = !has_atom(c);
    w.count(format!("emptiness:{}:{}", sig, if want { "empty" } else { "not_empty" }));
    w.view(got == want, &format!("{}:is_empty", sig), || format!("is_empty is {} for {}", got, crate::canon::short(&c.to_string())));
}
macro_rules! plain { ($($t:ty),*) => { $( impl Views for $t { fn views(&self, w: &mut W) { w.count("plain_values".into()); } } )* } }
plain!(AssignOpT, BinaryComp, MultiOp, DOp, Interval, Optimization, TimeSpecifier, Number);

impl Views for AssignOp {
    fn views(&self, w: &mut W) {
        let s = self.as_str();
        let b: &str = std::borrow::Borrow::borrow(self);
        acc!(w, "AssignOp", (self.as_ref() as &str, b, self.to_string().as_str()), (s, s, s));
        w.acc(*self == s.to_string() && *self == s && &*self == self && *self == &*self, "AssignOp:eq", || s.to_string());
    }
    fn compare(&self, o: &Self) -> Compared {
        vec![("value == text", *self == o.as_str()), ("value == String", *self == o.to_string()), ("reference == value", &self == o), ("value == reference", *self == o)]
    }
}
impl Views for BinaryOp {
    fn views(&self, w: &mut W) {
        let m = MultiOp::try_from(*self).ok();
        let want = match self {
            BinaryOp::Multiplication => Some(MultiOp::Multiplication),
            BinaryOp::Addition => Some(MultiOp::Addition),
            _ => None,
        };
        acc!(w, "BinaryOp:MultiOp", m, want);
        if let Some(m) = want {
            acc!(w, "MultiOp:BinaryOp", BinaryOp::from(m), *self);
        }
    }
}
impl Views for Requirement {
    fn views(&self, w: &mut W) {
        let b: &str = std::borrow::Borrow::borrow(self);
        let s = self.to_string();
        acc!(w, "Requirement", (self.as_ref() as &str, b), (s.as_str(), s.as_str()));
    }
    fn compare(&self, o: &Self) -> Compared {
        vec![("value == text", *self == o.as_str()), ("value == String", *self == o.to_string()), ("reference == value", &self == o), ("value == reference", *self == o), ("cmp", self.cmp(o).is_eq()), ("partial_cmp", self.partial_cmp(o).is_some_and(|x| x.is_eq())), ("set", std::collections::HashSet::from([*self]).contains(o)), ("ordered set", std::collections::BTreeSet::from([*self]).contains(o))]
    }
}
impl Views for Name {
    fn views(&self, w: &mut W) {
        let s: &str = self;
        acc!(w, "Name:as_ref", self.as_ref() as &str, s);
        acc!(w, "Name:is_empty", self.is_empty(), s.is_empty());
        w.acc(*self == *s && *self == s && *self == s.to_string(), "Name:eq", || s.to_string());
    }
    fn compare(&self, o: &Self) -> Compared {
        let t: &str = o;
        vec![("name == text", *self == *t), ("name == &text", *self == t), ("name == String", *self == t.to_string()), ("name != text", !(*self != *t))]
    }
}
macro_rules! sym { ($($t:ident),*) => { $(
    impl Views for $t {
        fn views(&self, w: &mut W) {
            let n: &Name = self;
            let (m, s): (&Name, &str) = (self.as_ref(), self.as_ref());
            acc!(w, stringify!($t), (m, s), (n, n as &str));
        }
    }
)* } }
sym!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, Predicate, Variable);
impl Views for PreferenceName {
    fn views(&self, w: &mut W) {
        let n: &Name = self;
        n.views(w);
    }
}
impl Views for PrimitiveType {
    fn views(&self, w: &mut W) {
        let (a, b): (&str, &str) = (self.as_ref(), self);
        acc!(w, "PrimitiveType", a, b);
    }
}
impl Views for Type {
    fn views(&self, w: &mut W) {
        let v: Vec<PrimitiveType> = match self {
            Type::Exactly(x) => vec![x.clone()],
            Type::EitherOf(v) => v.clone(),
        };
        w.count(format!("Type:{}", size(v.len())));
        w.view(self.len() == v.len(), "Type:len", || format!("len {} with {} elements", self.len(), v.len()));
        steps(w, "Type", &v, || self.clone().into_iter());
        if let Type::EitherOf(v) = self {
            steps(w, "Type", v, || Type::EitherOf(roomy(v)).into_iter());
        }
        for x in &v {
            x.views(w);
        }
    }
}
impl Views for FunctionType {
    fn views(&self, w: &mut W) {
        let ty: &Type = self;
        ty.views(w);
    }
}
impl<T: Views + std::fmt::Debug + PartialEq> Views for Typed<T> {
    fn views(&self, w: &mut W) {
        let x: &T = self;
        acc!(w, "Typed:deref", x, self.value());
        x.views(w);
        self.type_().views(w);
    }
}
impl<T: Views + PartialEq + std::fmt::Debug + Clone> Views for TypedList<T> {
    fn views(&self, w: &mut W) {
        let s = self.value();
        slice(w, "TypedList", s);
        let d: &[Typed<T>] = self;
        same(w, "TypedList:deref", s, d);
        let v = s.to_vec();
        steps(w, "TypedList", &v, || self.clone().into_iter());
        steps(w, "TypedList", &v, || TypedList::new(roomy(&v)).into_iter());
        w.view(*self == v && *self == *s, "TypedList:eq", || "differs from its own elements".into());
        let mut longer = v.clone();
        if let Some(x) = v.last() {
            longer.push(x.clone());
            let shorter = &v[..v.len() - 1];
            w.view(*self != longer && *self != *shorter && *self != shorter.to_vec() && *self != longer[..], "TypedList:ne", || "equal to other elements".into());
        }
    }
    fn compare(&self, o: &Self) -> Compared {
        let v: Vec<Typed<T>> = o.value().to_vec();
        let more = assigned(self.value(), &v);
        vec![("list == Vec", *self == v), ("list == slice", *self == v[..]), ("list != Vec", !(*self != v)), ("list != slice", !(*self != v[..])), ("slices", **self == **o)].into_iter().chain(more).collect()
    }
}
impl<T: Views + PartialEq + std::fmt::Debug> Views for FunctionTyped<T> {
    fn views(&self, w: &mut W) {
        let x: &T = self;
        acc!(w, "FunctionTyped:deref", x, self.value_ref());
        x.views(w);
        self.type_ref().views(w);
    }
}
impl<T: Views + PartialEq + std::fmt::Debug + Clone> Views for FunctionTypedList<T> {
    fn views(&self, w: &mut W) {
        let s = self.values();
        slice(w, "FunctionTypedList", s);
        let d: &[FunctionTyped<T>] = self;
        same(w, "FunctionTypedList:deref", s, d);
        let v = s.to_vec();
        w.view(*self == v && *self == *s, "FunctionTypedList:eq", || "differs from its own elements".into());
        if !v.is_empty() {
            let shorter = &v[..v.len() - 1];
            w.view(*self != *shorter && *self != shorter.to_vec(), "FunctionTypedList:ne", || "equal to other elements".into());
        }
    }
    fn compare(&self, o: &Self) -> Compared {
        let v: Vec<FunctionTyped<T>> = o.values().to_vec();
        let more = assigned(self.values(), &v);
        vec![("list == Vec", *self == v), ("list == slice", *self == v[..]), ("list != Vec", !(*self != v)), ("list != slice", !(*self != v[..])), ("slices", **self == **o)].into_iter().chain(more).collect()
    }
}
macro_rules! wraps { ($($t:ident: $inner:ty),*) => { $(
    impl Views for $t {
        fn views(&self, w: &mut W) {
            let d: &$inner = self;
            w.view(d == self.values(), concat!(stringify!($t), ":deref"), || "the dereferenced list differs from values()".into());
            d.views(w);
        }
        fn compare(&self, o: &Self) -> Compared {
            let (a, b): (&$inner, &$inner) = (self, o);
            a.compare(b)
        }
    }
)* } }
wraps!(Functions: FunctionTypedList<AtomicFunctionSkeleton>, Types: TypedNames, Objects: TypedNames);
impl Views for Constants {
    fn views(&self, w: &mut W) {
        let d: &TypedNames = self;
        d.views(w);
    }
    fn compare(&self, o: &Self) -> Compared {
        let (a, b): (&TypedNames, &TypedNames) = (self, o);
        a.compare(b)
    }
}
macro_rules! lists { ($($t:ident: $e:ty),*) => { $(
    impl Views for $t {
        fn views(&self, w: &mut W) {
            let s = self.values();
            slice(w, stringify!($t), s);
            let d: &[$e] = self;
            same(w, concat!(stringify!($t), ":deref"), s, d);
        }
    }
)* } }
lists!(PredicateDefinitions: AtomicFormulaSkeleton, StructureDefs: StructureDef, Timeless: NameLiteral, InitElements: InitElement);
impl Views for Requirements {
    fn views(&self, w: &mut W) {
        slice(w, "Requirements", self);
    }
}
macro_rules! bags { ($($t:ident: $e:ident),*) => { $(
    impl Views for $t {
        fn views(&self, w: &mut W) {
            let id = stringify!($t);
            let d: &[$e] = self;
            slice(w, id, d);
            same(w, &format!("{}:as_ref", id), d, self.as_ref());
            let it: Vec<&$e> = self.iter().collect();
            same(w, &format!("{}:iter", id), &d.iter().collect::<Vec<_>>(), &it);
            w.view(self.iter().len() == d.len(), &format!("{}:iter-len", id), || format!("{} of {}", self.iter().len(), d.len()));
            w.view(self.len() == d.len(), &format!("{}:len", id), || format!("len {} with {} elements", self.len(), d.len()));
            w.view(self.is_empty() == d.is_empty(), &format!("{}:is_empty", id), || format!("is_empty {} with {} elements", self.is_empty(), d.len()));
            let v = d.to_vec();
            steps(w, id, &v, || self.clone().into_iter());
            steps(w, id, &v, || roomy(&v).into_iter().collect::<$t>().into_iter());
            let single = (v.len() == 1).then(|| v[0].clone());
            w.count(format!("{}:single:{}", id, single.is_some()));
            let got = self.clone().try_get_single();
            w.view(got == single, &format!("{}:try_get_single", id), || format!("{:?} of {} elements", got, v.len()));
            let got: Result<$e, ()> = self.clone().try_into();
            w.view(got.as_ref().ok() == single.as_ref(), &format!("{}:try_into", id), || format!("{:?} of {} elements", got, v.len()));
            extra(self, w);
            fn extra(_x: &$t, _w: &mut W) {
                bags!(@extra $t, $e, _x, _w);
            }
        }
    }
)* };
    (@extra Effects, $e:ident, $x:ident, $w:ident) => {};
    (@extra $t:ident, $e:ident, $x:ident, $w:ident) => {
        let v: Vec<$e> = $x.clone().into();
        same($w, concat!(stringify!($t), ":into_vec"), &$x.iter().cloned().collect::<Vec<_>>(), &v);
    };
}
bags!(Effects: CEffect, PreconditionGoalDefinitions: PreconditionGoalDefinition, PrefConGDs: PrefConGD);
impl Views for Term {
    fn views(&self, w: &mut W) {
        match self {
            Term::Name(x) => x.views(w),
            Term::Variable(x) => x.views(w),
            Term::Function(x) => x.views(w),
        }
    }
}
impl Views for FunctionTerm {
    fn views(&self, w: &mut W) {
        let (f, t): (&FunctionSymbol, &Vec<Term>) = (self.as_ref(), self.as_ref());
        acc!(w, "FunctionTerm", (f, t.as_slice()), (self.symbol(), self.terms()));
        f.views(w);
        slice(w, "FunctionTerm", t);
    }
}
impl Views for BasicFunctionTerm {
    fn views(&self, w: &mut W) {
        let (f, t): (&FunctionSymbol, &[Name]) = (self.as_ref(), self.as_ref());
        acc!(w, "BasicFunctionTerm", (f, t), (self.symbol(), self.names()));
        f.views(w);
        slice(w, "BasicFunctionTerm", t);
    }
}
impl<T: Views + crate::proj::Arg + PartialEq + Clone + std::fmt::Debug> Views for AtomicFormula<T> {
    fn views(&self, w: &mut W) {
        match self {
            AtomicFormula::Equality(e) => {
                e.first().views(w);
                e.second().views(w);
            }
            AtomicFormula::Predicate(p) => {
                let d: &[T] = p;
                same(w, "PredicateAtomicFormula:deref", p.values(), d);
                p.predicate().views(w);
                slice(w, "PredicateAtomicFormula", d);
            }
        }
    }
}
impl<T: Views + crate::proj::Arg + PartialEq + Clone + std::fmt::Debug> Views for Literal<T> {
    fn views(&self, w: &mut W) {
        let (n, x) = match self {
            Literal::AtomicFormula(x) => (false, x),
            Literal::NotAtomicFormula(x) => (true, x),
        };
        acc!(w, "Literal:is_negated", self.is_negated(), n);
        x.views(w);
    }
}
impl Views for FHead {
    fn views(&self, w: &mut W) {
        match self {
            FHead::Simple(x) => x.views(w),
            FHead::WithTerms(x, v) => {
                x.views(w);
                slice(w, "FHead", v);
            }
        }
    }
}
impl Views for FExp {
    fn views(&self, w: &mut W) {
        match self {
            FExp::Number(x) => x.views(w),
            FExp::Function(x) => x.views(w),
            FExp::Negative(x) => x.views(w),
            FExp::BinaryOp(o, a, b) => {
                o.views(w);
                a.views(w);
                b.views(w);
            }
            FExp::MultiOp(_, a, v) => {
                a.views(w);
                slice(w, "FExp", v);
            }
        }
    }
}
impl Views for FExpDa {
    fn views(&self, w: &mut W) {
        match self {
            FExpDa::Assign(o, h, x) => {
                o.views(w);
                h.views(w);
                x.views(w);
            }
            FExpDa::BinaryOp(o, a, b) => {
                o.views(w);
                a.views(w);
                b.views(w);
            }
            FExpDa::MultiOp(_, a, v) => {
                a.views(w);
                slice(w, "FExpDa", v);
            }
            FExpDa::Negative(x) => x.views(w),
            FExpDa::Duration => {}
            FExpDa::FExp(x) => x.views(w),
        }
    }
}
impl Views for FExpT {
    fn views(&self, w: &mut W) {
        if let FExpT::Scaled(x) = self {
            x.views(w)
        }
    }
}
impl Views for MetricFExp {
    fn views(&self, w: &mut W) {
        match self {
            MetricFExp::BinaryOp(o, a, b) => {
                o.views(w);
                a.views(w);
                b.views(w);
            }
            MetricFExp::MultiOp(_, a, v) => {
                a.views(w);
                slice(w, "MetricFExp", v);
            }
            MetricFExp::Negative(x) => x.views(w),
            MetricFExp::Function(x, v) => {
                x.views(w);
                slice(w, "MetricFExp", v);
            }
            MetricFExp::IsViolated(x) => x.views(w),
            _ => {}
        }
    }
}
impl Views for FComp {
    fn views(&self, w: &mut W) {
        self.first().views(w);
        self.second().views(w);
    }
}
impl Views for FAssignDa {
    fn views(&self, w: &mut W) {
        self.operation().views(w);
        self.function().views(w);
        self.function_expr().views(w);
    }
}
impl Views for GoalDefinition {
    fn views(&self, w: &mut W) {
        emptiness(w, "GoalDefinition", &self.c(), self.is_empty());
        match self {
            GoalDefinition::AtomicFormula(x) => x.views(w),
            GoalDefinition::Literal(x) => x.views(w),
            GoalDefinition::And(v) | GoalDefinition::Or(v) => slice(w, "GoalDefinition", v),
            GoalDefinition::Not(x) => x.views(w),
            GoalDefinition::Imply(a, b) => {
                a.views(w);
                b.views(w);
            }
            GoalDefinition::Exists(v, x) | GoalDefinition::ForAll(v, x) => {
                v.views(w);
                x.views(w);
            }
            GoalDefinition::FComp(x) => x.views(w),
        }
    }
}
impl Views for Preference {
    fn views(&self, w: &mut W) {
        emptiness(w, "Preference", &self.goal().c(), self.is_empty());
        self.goal().views(w);
    }
}
impl Views for PreferenceGD {
    fn views(&self, w: &mut W) {
        match self {
            PreferenceGD::Goal(x) => x.views(w),
            PreferenceGD::Preference(x) => x.views(w),
        }
    }
}
impl Views for PreconditionGoalDefinition {
    fn views(&self, w: &mut W) {
        match self {
            PreconditionGoalDefinition::Preference(x) => x.views(w),
            PreconditionGoalDefinition::Forall(v, x) => {
                v.views(w);
                x.views(w);
            }
        }
    }
}
impl Views for GoalDef {
    fn views(&self, w: &mut W) {
        let d: &PreconditionGoalDefinitions = self;
        let v: PreconditionGoalDefinitions = self.clone().into();
        w.acc(d == self.value() && v == *d && *self == *d, "GoalDef", || "its views differ".into());
        d.views(w);
    }
    fn compare(&self, o: &Self) -> Compared {
        vec![("definition == content", *self == *o.value()), ("definition != content", !(*self != *o.value())), ("contents", self.value() == o.value())]
    }
}
impl Views for PEffect {
    fn views(&self, w: &mut W) {
        match self {
            PEffect::AtomicFormula(x) | PEffect::NotAtomicFormula(x) => x.views(w),
            PEffect::AssignNumericFluent(o, h, x) => {
                o.views(w);
                h.views(w);
                x.views(w);
            }
            PEffect::AssignObjectFluent(f, x) => {
                f.views(w);
                x.views(w);
            }
        }
    }
}
impl<T: Views> Views for Option<T> {
    fn views(&self, w: &mut W) {
        if let Some(x) = self {
            x.views(w)
        }
    }
}
impl Views for ConditionalEffect {
    fn views(&self, w: &mut W) {
        let v = match self {
            ConditionalEffect::Single(x) => vec![x.clone()],
            ConditionalEffect::All(v) => v.clone(),
        };
        slice(w, "ConditionalEffect", &v);
        steps(w, "ConditionalEffect", &v, || self.clone().into_iter());
        if let ConditionalEffect::All(v) = self {
            steps(w, "ConditionalEffect", v, || ConditionalEffect::All(roomy(v)).into_iter());
        }
    }
}
impl Views for ForallCEffect {
    fn views(&self, w: &mut W) {
        self.variables.views(w);
        self.effects.views(w);
    }
}
impl Views for WhenCEffect {
    fn views(&self, w: &mut W) {
        self.condition.views(w);
        self.effect.views(w);
    }
}
impl Views for CEffect {
    fn views(&self, w: &mut W) {
        let a: Result<PEffect, ()> = self.clone().try_into();
        let b: Result<ForallCEffect, ()> = self.clone().try_into();
        let c: Result<WhenCEffect, ()> = self.clone().try_into();
        let ok = match self {
            CEffect::Effect(x) => a.as_ref() == Ok(x) && b.is_err() && c.is_err(),
            CEffect::Forall(x) => a.is_err() && b.as_ref() == Ok(x) && c.is_err(),
            CEffect::When(x) => a.is_err() && b.is_err() && c.as_ref() == Ok(x),
        };
        w.acc(ok, "CEffect:try_into", || format!("{:?} converts to {:?}, {:?}, {:?}", self, a, b, c));
        match self {
            CEffect::Effect(x) => x.views(w),
            CEffect::Forall(x) => x.views(w),
            CEffect::When(x) => x.views(w),
        }
    }
}
impl Views for Con2GD {
    fn views(&self, w: &mut W) {
        emptiness(w, "Con2GD", &self.c(), self.is_empty());
        match self {
            Con2GD::Goal(x) => x.views(w),
            Con2GD::Nested(x) => x.views(w),
        }
    }
}
impl Views for ConGD {
    fn views(&self, w: &mut W) {
        emptiness(w, "ConGD", &self.c(), self.is_empty());
        match self {
            ConGD::And(v) => slice(w, "ConGD", v),
            ConGD::Forall(v, x) => {
                v.views(w);
                x.views(w);
            }
            ConGD::AtEnd(x) => x.views(w),
            ConGD::Always(x) | ConGD::Sometime(x) | ConGD::AtMostOnce(x) | ConGD::Within(_, x) | ConGD::HoldDuring(_, _, x) | ConGD::HoldAfter(_, x) => x.views(w),
            ConGD::SometimeAfter(x, y) | ConGD::SometimeBefore(x, y) | ConGD::AlwaysWithin(_, x, y) => {
                x.views(w);
                y.views(w);
            }
        }
    }
}
impl Views for PrefConGD {
    fn views(&self, w: &mut W) {
        emptiness(w, "PrefConGD", &self.c(), self.is_empty());
        match self {
            PrefConGD::Goal(x) | PrefConGD::Preference(_, x) => x.views(w),
            PrefConGD::Forall(v, x) => {
                v.views(w);
                x.views(w);
            }
        }
    }
}
impl Views for DomainConstraintsDef {
    fn views(&self, w: &mut W) {
        let d: &ConGD = self;
        let v: ConGD = self.clone().into();
        w.acc(d == self.value() && v == *d && *self == *d, "DomainConstraintsDef", || "its views differ".into());
        d.views(w);
    }
    fn compare(&self, o: &Self) -> Compared {
        vec![("definition == content", *self == *o.value()), ("definition != content", !(*self != *o.value())), ("contents", self.value() == o.value())]
    }
}
impl Views for ProblemConstraintsDef {
    fn views(&self, w: &mut W) {
        let d: &PrefConGDs = self;
        let v: PrefConGDs = self.clone().into();
        w.acc(d == self.value() && v == *d && *self == *d, "ProblemConstraintsDef", || "its views differ".into());
        d.views(w);
    }
    fn compare(&self, o: &Self) -> Compared {
        vec![("definition == content", *self == *o.value()), ("definition != content", !(*self != *o.value())), ("contents", self.value() == o.value())]
    }
}
impl Views for DurationValue {
    fn views(&self, w: &mut W) {
        match self {
            DurationValue::Number(x) => x.views(w),
            DurationValue::FExp(x) => x.views(w),
        }
    }
}
impl Views for SimpleDurationConstraint {
    fn views(&self, w: &mut W) {
        match self {
            SimpleDurationConstraint::Op(_, x) => x.views(w),
            SimpleDurationConstraint::At(_, x) => x.views(w),
        }
    }
}
impl Views for DurationConstraint {
    fn views(&self, w: &mut W) {
        let v = match self {
            DurationConstraint::Single(x) => vec![x.clone()],
            DurationConstraint::All(v) => v.clone(),
        };
        slice(w, "DurationConstraint", &v);
        w.view(self.len() == v.len(), "DurationConstraint:len", || format!("len {} with {} elements", self.len(), v.len()));
        w.view(self.is_empty() == v.is_empty(), "DurationConstraint:is_empty", || format!("is_empty {} with {} elements", self.is_empty(), v.len()));
        steps(w, "DurationConstraint", &v, || self.clone().into_iter());
        if let DurationConstraint::All(v) = self {
            steps(w, "DurationConstraint", v, || DurationConstraint::All(roomy(v)).into_iter());
        }
    }
}
impl Views for TimedGD {
    fn views(&self, w: &mut W) {
        match self {
            TimedGD::At(_, x) | TimedGD::Over(_, x) => x.views(w),
        }
    }
}
impl Views for PrefTimedGD {
    fn views(&self, w: &mut W) {
        match self {
            PrefTimedGD::Required(x) | PrefTimedGD::Preference(_, x) => x.views(w),
        }
    }
}
impl Views for DurativeActionGoalDefinition {
    fn views(&self, w: &mut W) {
        match self {
            DurativeActionGoalDefinition::Timed(x) => x.views(w),
            DurativeActionGoalDefinition::And(v) => slice(w, "DurativeActionGoalDefinition", v),
            DurativeActionGoalDefinition::Forall(v, x) => {
                v.views(w);
                x.views(w);
            }
        }
    }
}
impl Views for TimedEffect {
    fn views(&self, w: &mut W) {
        match self {
            TimedEffect::Conditional(_, x) => x.views(w),
            TimedEffect::NumericFluent(_, x) => x.views(w),
            TimedEffect::ContinuousEffect(_, h, x) => {
                h.views(w);
                x.views(w);
            }
        }
    }
}
impl Views for DurativeActionEffect {
    fn views(&self, w: &mut W) {
        match self {
            DurativeActionEffect::Timed(x) => x.views(w),
            DurativeActionEffect::All(v) => slice(w, "DurativeActionEffect", v),
            DurativeActionEffect::Forall(v, x) => {
                v.views(w);
                x.views(w);
            }
            DurativeActionEffect::When(g, x) => {
                g.views(w);
                x.views(w);
            }
        }
    }
}
impl Views for AtomicFormulaSkeleton {
    fn views(&self, w: &mut W) {
        let n: &Name = self.predicate();
        acc!(w, "AtomicFormulaSkeleton:name", self.name(), n);
        self.predicate().views(w);
        self.variables().views(w);
    }
}
impl Views for AtomicFunctionSkeleton {
    fn views(&self, w: &mut W) {
        self.symbol().views(w);
        self.variables().views(w);
    }
}
impl Views for ActionDefinition {
    fn views(&self, w: &mut W) {
        let s: &ActionSymbol = self.as_ref();
        acc!(w, "ActionDefinition", s, self.symbol());
        s.views(w);
        self.parameters().views(w);
        self.precondition().views(w);
        self.effect().views(w);
    }
}
impl Views for DurativeActionDefinition {
    fn views(&self, w: &mut W) {
        let s: &DurativeActionSymbol = self.as_ref();
        acc!(w, "DurativeActionDefinition:symbol", s, self.symbol());
        let p: &TypedVariables = self.as_ref();
        acc!(w, "DurativeActionDefinition:parameters", p, self.parameters());
        let d: &Option<DurationConstraint> = self.as_ref();
        acc!(w, "DurativeActionDefinition:duration", d, self.duration());
        let g: &Option<DurativeActionGoalDefinition> = self.as_ref();
        acc!(w, "DurativeActionDefinition:condition", g, self.condition());
        let e: &Option<DurativeActionEffect> = self.as_ref();
        acc!(w, "DurativeActionDefinition:effect", e, self.effect());
        s.views(w);
        p.views(w);
        d.views(w);
        g.views(w);
        e.views(w);
    }
}
impl Views for DerivedPredicate {
    fn views(&self, w: &mut W) {
        let (s, g): (&AtomicFormulaSkeleton, &GoalDefinition) = (self.as_ref(), self.as_ref());
        acc!(w, "DerivedPredicate", (s, g), (self.predicate(), self.expression()));
        s.views(w);
        g.views(w);
    }
}
impl Views for StructureDef {
    fn views(&self, w: &mut W) {
        match self {
            StructureDef::Action(x) => x.views(w),
            StructureDef::DurativeAction(x) => x.views(w),
            StructureDef::Derived(x) => x.views(w),
        }
    }
}
impl Views for InitElement {
    fn views(&self, w: &mut W) {
        match self {
            InitElement::Literal(x) | InitElement::At(_, x) => x.views(w),
            InitElement::IsValue(x, _) => x.views(w),
            InitElement::IsObject(x, n) => {
                x.views(w);
                n.views(w);
            }
        }
    }
}
impl Views for MetricSpec {
    fn views(&self, w: &mut W) {
        self.expression().views(w);
    }
}
impl Views for LengthSpec {
    fn views(&self, w: &mut W) {
        acc!(w, "LengthSpec", LengthSpec::new(self.serial(), self.parallel()), *self);
    }
}
impl Views for Domain {
    fn views(&self, w: &mut W) {
        let r: &Requirements = self.as_ref();
        acc!(w, "Domain:requirements", r, self.requirements());
        let t: &Types = self.as_ref();
        acc!(w, "Domain:types", t, self.types());
        let p: &PredicateDefinitions = self.as_ref();
        acc!(w, "Domain:predicates", p, self.predicates());
        let f: &Functions = self.as_ref();
        acc!(w, "Domain:functions", f, self.functions());
        let s: &StructureDefs = self.as_ref();
        acc!(w, "Domain:structure", s, self.structure());
        self.name().views(w);
        slice(w, "Domain:extends", self.extends());
        r.views(w);
        t.views(w);
        self.constants().views(w);
        p.views(w);
        f.views(w);
        self.constraints().views(w);
        s.views(w);
    }
}
impl Views for Problem {
    fn views(&self, w: &mut W) {
        self.name().views(w);
        self.domain().views(w);
        self.requirements().views(w);
        self.objects().views(w);
        self.init().views(w);
        self.goals().views(w);
        self.constraints().views(w);
        self.metric_spec().views(w);
        self.length_spec().views(w);
    }
}
