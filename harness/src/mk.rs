//! Builds the library's values from canonical form through constructors, conversions and
//! builder steps, each time by other routes (the inverse of `proj`).
use crate::canon::C;
use crate::rng::Rng;
use pddl::*;

pub trait Mk: Sized {
    fn mk(c: &C, r: &mut Rng) -> Self;
}
pub fn tag(c: &C) -> &'static str {
    match c {
        C::T(t, _) => t,
        _ => "",
    }
}
pub fn kids(c: &C) -> &[C] {
    match c {
        C::T(_, v) => v,
        _ => &[],
    }
}
fn text(c: &C) -> &str {
    match c {
        C::S(x) => x,
        _ => panic!("text expected: {}", c),
    }
}
fn num(c: &C) -> f32 {
    match c {
        C::N(b) => f32::from_bits(*b),
        _ => panic!("number expected: {}", c),
    }
}
pub fn each<T: Mk>(v: &[C], r: &mut Rng) -> Vec<T> {
    // Sometimes with room to spare.
    let mut o = Vec::with_capacity(if r.chance(1, 2) { v.len() } else { v.len() + r.range(1, 9) });
    for x in v {
        o.push(T::mk(x, r));
    }
    o
}
fn bad<T>(c: &C) -> T {
    panic!("unexpected content: {}", crate::canon::short(&c.to_string()))
}
/// The parts of a node, each built by its own type.
macro_rules! parts {
    ($c:expr, $r:expr) => {{ let k = kids($c); (Mk::mk(&k[0], $r), Mk::mk(&k[1], $r)) }};
    ($c:expr, $r:expr, 3) => {{ let k = kids($c); (Mk::mk(&k[0], $r), Mk::mk(&k[1], $r), Mk::mk(&k[2], $r)) }};
}
fn leak(x: &str) -> &'static str {
    Box::leak(x.to_string().into_boxed_str())
}
impl Mk for Name {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let x = text(c);
        match r.below(40) {
            0..=9 => Name::new(x),
            10..=16 => Name::new(x.to_string()),
            17..=23 => Name::from(x),
            24..=30 => x.to_string().into(),
            31..=36 => Name::from(std::borrow::Cow::Borrowed(x)),
            37 | 38 => Name::new(x).clone(),
            _ if x.len() < 60 => Name::new_static(leak(x)),
            _ => x.into(),
        }
    }
}
macro_rules! symbol {
    ($t:ident $(, $st:ident)?) => {
        impl Mk for $t {
            fn mk(c: &C, r: &mut Rng) -> Self {
                let x = text(c);
                match r.below(20) {
                    0..=4 => $t::new(Name::mk(c, r)),
                    5..=8 => $t::from_name(Name::mk(c, r)),
                    9..=11 => $t::from(x),
                    12..=14 => x.to_string().into(),
                    15 => Name::mk(c, r).into(),
                    $(16 if x.len() < 60 => $t::$st(leak(x)),)?
                    _ => $t::from_str(x),
                }
            }
        }
    };
}
symbol!(ActionSymbol);
symbol!(DurativeActionSymbol);
symbol!(FunctionSymbol);
symbol!(Predicate, from_static);
symbol!(Variable, from_static);
symbol!(PreferenceName, from_static);
macro_rules! keyword {
    ($t:ident: $($v:ident = $s:expr),*) => {
        impl Mk for $t {
            fn mk(c: &C, r: &mut Rng) -> Self {
                let x = text(c);
                if r.chance(1, 3) {
                    return $t::try_from(x).unwrap_or_else(|_| bad(c));
                }
                match x {
                    $($s => $t::$v,)*
                    _ => bad(c),
                }
            }
        }
    };
}
keyword!(AssignOp: Assign = "assign", ScaleUp = "scale-up", ScaleDown = "scale-down", Increase = "increase", Decrease = "decrease");
keyword!(AssignOpT: Increase = "increase", Decrease = "decrease");
keyword!(BinaryComp: GreaterThan = ">", LessThan = "<", Equal = "=", GreaterOrEqual = ">=", LessThanOrEqual = "<=");
keyword!(BinaryOp: Multiplication = "*", Addition = "+", Subtraction = "-", Division = "/");
keyword!(MultiOp: Multiplication = "*", Addition = "+");
keyword!(DOp: Equal = "=", GreaterOrEqual = ">=", LessThanOrEqual = "<=");
keyword!(Interval: All = "all");
keyword!(Optimization: Minimize = "minimize", Maximize = "maximize");
keyword!(TimeSpecifier: Start = "start", End = "end");
keyword!(Requirement:
    Strips = ":strips", Typing = ":typing", NegativePreconditions = ":negative-preconditions", DisjunctivePreconditions = ":disjunctive-preconditions",
    Equality = ":equality", ExistentialPreconditions = ":existential-preconditions", UniversalPreconditions = ":universal-preconditions",
    QuantifiedPreconditions = ":quantified-preconditions", ConditionalEffects = ":conditional-effects", Fluents = ":fluents",
    NumericFluents = ":numeric-fluents", ObjectFluents = ":object-fluents", Adl = ":adl", DurativeActions = ":durative-actions",
    DurationInequalities = ":duration-inequalities", ContinuousEffects = ":continuous-effects", DerivedPredicates = ":derived-predicates",
    TimedInitialLiterals = ":timed-initial-literals", Preferences = ":preferences", Constraints = ":constraints", ActionCosts = ":action-costs");
impl Mk for Number {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let f = num(c);
        match r.below(8) {
            0 => Number::try_new(f).unwrap(),
            1 => Number::from(f),
            2 => Number::from(f as f64),
            3 if f == f.trunc() && f.abs() < 100.0 && !(f == 0.0 && f.is_sign_negative()) => Number::from(f as i8),
            4 if f == f.trunc() && f.abs() < 16_000_000.0 && !(f == 0.0 && f.is_sign_negative()) => Number::from(f as i32),
            5 if f == f.trunc() && f >= 0.0 && f < 60_000.0 && !f.is_sign_negative() => Number::from(f as u16),
            _ => Number::new(f),
        }
    }
}
impl Mk for PrimitiveType {
    fn mk(c: &C, r: &mut Rng) -> Self {
        // Both as itself and as an element of a type.
        let c = if tag(c) == "ptype" { &kids(c)[0] } else { c };
        match r.below(3) {
            0 => PrimitiveType::new(Name::mk(c, r)),
            1 => text(c).into(),
            _ => PrimitiveType::from(Name::mk(c, r)),
        }
    }
}
impl Mk for Type {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "type" => match r.below(6) {
                0 if text(&v[0]) == "object" => Type::OBJECT,
                0 if text(&v[0]) == "number" => Type::NUMBER,
                1 if text(&v[0]) == "object" => Type::default(),
                2 => Type::from(text(&v[0])),
                3 => PrimitiveType::mk(&v[0], r).into(),
                _ => Type::Exactly(PrimitiveType::mk(&v[0], r)),
            },
            "either" => match r.below(6) {
                0 => Type::from(v.iter().map(text).collect::<Vec<&str>>()),
                1 => Type::from(each::<PrimitiveType>(v, r)),
                2 => Type::from_iter(each::<PrimitiveType>(v, r)),
                3 => Type::from_iter(v.iter().map(text)),
                4 => each::<Name>(v, r).into_iter().collect(),
                _ => Type::EitherOf(each(v, r)),
            },
            _ => bad(c),
        }
    }
}
impl Mk for FunctionType {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match r.below(6) {
            0 if tag(c) == "either" => FunctionType::from_conv(v.iter().map(text).collect::<Vec<&str>>()),
            0 => FunctionType::from_conv(text(&v[0])),
            1 if tag(c) == "type" && text(&v[0]) == "number" => FunctionType::NUMBER,
            2 if tag(c) == "type" && text(&v[0]) == "number" => FunctionType::default(),
            3 => FunctionType::new(Type::mk(c, r)),
            4 => Type::mk(c, r).into(),
            _ => FunctionType::from(Type::mk(c, r)),
        }
    }
}
trait FromConv<T> {
    fn from_conv(x: T) -> Self;
}
impl<T: Into<FunctionType>> FromConv<T> for FunctionType {
    fn from_conv(x: T) -> Self {
        x.into()
    }
}
/// How a thing gets a type, besides `Typed::new`.
pub trait Typable: Sized {
    fn with_type(self, t: Type, _r: &mut Rng) -> Typed<Self> {
        Typed::new(self, t)
    }
}
macro_rules! typable {
    ($($t:ty),*) => { $(
        impl Typable for $t {
            fn with_type(self, t: Type, r: &mut Rng) -> Typed<Self> {
                match (r.below(3), t) {
                    (0, t) => self.to_typed(t),
                    (_, Type::EitherOf(v)) => self.to_typed_either(v),
                    (_, t) => Typed::new(self, t),
                }
            }
        }
    )* };
}
typable!(Name, Variable);
impl<T: Mk + Typable> Mk for Typed<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let x = T::mk(&v[0], r);
        let ty = Type::mk(&v[1], r);
        let object = tag(&v[1]) == "type" && text(&kids(&v[1])[0]) == "object";
        match r.below(5) {
            0 if object => Typed::new_object(x),
            1 if object => Typed::from(x),
            2 => Typed::new(x, ty),
            _ => x.with_type(ty, r),
        }
    }
}
impl<T> Mk for TypedList<T>
where
    Typed<T>: Mk,
{
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each(kids(c), r);
        match r.below(4) {
            0 => TypedList::new(v),
            1 => v.into(),
            2 => v.into_iter().collect(),
            _ => TypedList::from_iter(v),
        }
    }
}
impl<T: Mk> Mk for FunctionTyped<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let number = tag(&v[1]) == "type" && text(&kids(&v[1])[0]) == "number";
        let x = T::mk(&v[0], r);
        match r.below(5) {
            0 if number => FunctionTyped::new_number(x),
            1 if number => FunctionTyped::from(x),
            2 => FunctionTyped::from_type(x, Type::mk(&v[1], r)),
            _ => FunctionTyped::new(x, FunctionType::mk(&v[1], r)),
        }
    }
}
impl<T: Mk> Mk for FunctionTypedList<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each(kids(c), r);
        match r.below(3) {
            0 => FunctionTypedList::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        }
    }
}
impl Mk for Term {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let conv = r.chance(1, 2);
        match tag(c) {
            "name" if conv => Name::mk(&v[0], r).into(),
            "name" => Term::new_name(Mk::mk(&v[0], r)),
            "var" if conv => Variable::mk(&v[0], r).into(),
            "var" => Term::new_variable(Mk::mk(&v[0], r)),
            "fn" if conv => FunctionTerm::mk(c, r).into(),
            "fn" => Term::new_function(Mk::mk(c, r)),
            _ => bad(c),
        }
    }
}
impl Mk for FunctionTerm {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        FunctionTerm::new(Mk::mk(&v[0], r), each::<Term>(&v[1..], r))
    }
}
/// Arguments of formulae.
pub trait MkArg: Sized {
    fn arg(c: &C, r: &mut Rng) -> Self;
}
impl MkArg for Name {
    fn arg(c: &C, r: &mut Rng) -> Self {
        Name::mk(&kids(c)[0], r)
    }
}
impl MkArg for Term {
    fn arg(c: &C, r: &mut Rng) -> Self {
        Term::mk(c, r)
    }
}
impl<T: MkArg> Mk for AtomicFormula<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "=" => {
                let (x, y) = (T::arg(&v[0], r), T::arg(&v[1], r));
                match r.below(3) {
                    0 => AtomicFormula::new_equality(x, y),
                    1 => EqualityAtomicFormula::from((x, y)).into(),
                    _ => AtomicFormula::Equality(EqualityAtomicFormula::new(x, y)),
                }
            }
            "pred" => {
                let p = Predicate::mk(&v[0], r);
                let a: Vec<T> = v[1..].iter().map(|x| T::arg(x, r)).collect();
                match r.below(3) {
                    0 => AtomicFormula::new_predicate(p, a),
                    1 => PredicateAtomicFormula::from((p, a)).into(),
                    _ => AtomicFormula::Predicate(PredicateAtomicFormula::new(p, a)),
                }
            }
            _ => bad(c),
        }
    }
}
impl<T: MkArg> Mk for Literal<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let x = AtomicFormula::mk(&kids(c)[0], r);
        match tag(c) {
            "pos" if r.chance(1, 2) => x.into(),
            "pos" => Literal::new(x),
            "neg" => Literal::new_not(x),
            _ => bad(c),
        }
    }
}
impl Mk for FHead {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let f = FunctionSymbol::mk(&v[0], r);
        if v.len() == 1 {
            FHead::new(f)
        } else {
            FHead::new_with_terms(f, each::<Term>(&v[1..], r))
        }
    }
}
impl Mk for BasicFunctionTerm {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        BasicFunctionTerm::new(Mk::mk(&v[0], r), each::<Name>(&v[1..], r))
    }
}
impl Mk for FExp {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "" if r.chance(1, 4) => FExp::new_number(num(c)),
            "" => FExp::new_number(Number::mk(c, r)),
            "f" => FExp::new_function(Mk::mk(c, r)),
            "minus" => FExp::new_negative(Mk::mk(&v[0], r)),
            "bin" => FExp::new_binary_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "multi" => FExp::new_multi_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), each::<FExp>(&v[2..], r)),
            _ => bad(c),
        }
    }
}
impl Mk for FExpDa {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "duration" => FExpDa::new_duration(),
            "minus" => FExpDa::new_negative(Mk::mk(&v[0], r)),
            "bin" => FExpDa::new_binary_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "multi" => FExpDa::new_multi_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), each::<FExpDa>(&v[2..], r)),
            "da-assign" => FExpDa::Assign(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Box::new(Mk::mk(&v[2], r))),
            _ if r.chance(1, 2) => FExp::mk(c, r).into(),
            _ => FExpDa::new_f_exp(Mk::mk(c, r)),
        }
    }
}
impl Mk for FExpT {
    fn mk(c: &C, r: &mut Rng) -> Self {
        match tag(c) {
            "#t" if r.chance(1, 2) => FExpT::default(),
            "#t" => FExpT::new(),
            "scaled" if r.chance(1, 2) => FExp::mk(&kids(c)[0], r).into(),
            "scaled" => FExpT::new_scaled(Mk::mk(&kids(c)[0], r)),
            _ => bad(c),
        }
    }
}
impl Mk for MetricFExp {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "" if r.chance(1, 4) => MetricFExp::new_number(num(c)),
            "" => MetricFExp::new_number(Number::mk(c, r)),
            "minus" => MetricFExp::new_negative(Mk::mk(&v[0], r)),
            "bin" => MetricFExp::new_binary_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "multi" => MetricFExp::new_multi_op(Mk::mk(&v[0], r), Mk::mk(&v[1], r), each::<MetricFExp>(&v[2..], r)),
            "mf" => MetricFExp::new_function(Mk::mk(&v[0], r), each::<Name>(&v[1..], r)),
            "total-time" => MetricFExp::new_total_time(),
            "is-violated" => MetricFExp::new_is_violated(Mk::mk(&v[0], r)),
            _ => bad(c),
        }
    }
}
impl Mk for FComp {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (o, x, y): (BinaryComp, FExp, FExp) = parts!(c, r, 3);
        if r.chance(1, 2) {
            (o, x, y).into()
        } else {
            FComp::new(o, x, y)
        }
    }
}
impl Mk for FAssignDa {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (o, x, y): (AssignOp, FHead, FExpDa) = parts!(c, r, 3);
        if r.chance(1, 2) {
            (o, x, y).into()
        } else {
            FAssignDa::new(o, x, y)
        }
    }
}
thread_local! {
    /// Whether atoms and negated atoms may be built as literals, which the parser never does.
    pub static LITERALS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl Mk for GoalDefinition {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        if LITERALS.get() {
            match tag(c) {
                "atom" if r.chance(1, 2) => return GoalDefinition::new_literal(TermLiteral::new(Mk::mk(&v[0], r))),
                "not" if tag(&v[0]) == "atom" && r.chance(1, 2) => return GoalDefinition::new_literal(TermLiteral::new_not(Mk::mk(&kids(&v[0])[0], r))),
                _ => {}
            }
        }
        match tag(c) {
            "atom" => GoalDefinition::new_atomic_formula(Mk::mk(&v[0], r)),
            "and" => GoalDefinition::new_and(each::<GoalDefinition>(v, r)),
            "or" => GoalDefinition::new_or(each::<GoalDefinition>(v, r)),
            "not" => GoalDefinition::new_not(Mk::mk(&v[0], r)),
            "imply" => {
                let (x, y) = parts!(c, r);
                if r.chance(1, 2) {
                    GoalDefinition::new_imply_tuple((x, y))
                } else {
                    GoalDefinition::new_imply(x, y)
                }
            }
            "exists" => {
                let (x, y) = parts!(c, r);
                if r.chance(1, 2) {
                    GoalDefinition::new_exists_tuple((x, y))
                } else {
                    GoalDefinition::new_exists(x, y)
                }
            }
            "forall" => {
                let (x, y) = parts!(c, r);
                if r.chance(1, 2) {
                    GoalDefinition::new_forall_tuple((x, y))
                } else {
                    GoalDefinition::new_forall(x, y)
                }
            }
            "cmp" => GoalDefinition::new_f_comp(Mk::mk(c, r)),
            _ => bad(c),
        }
    }
}
fn pname(c: &C, r: &mut Rng) -> Option<PreferenceName> {
    (tag(c) != "anon").then(|| Mk::mk(c, r))
}
impl Mk for Preference {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let (n, g) = (pname(&v[0], r), GoalDefinition::mk(&v[1], r));
        match (r.below(3), n) {
            (0, n) => (n, g).into(),
            (1, None) => g.into(),
            (1, Some(n)) => (n, g).into(),
            (_, n) => Preference::new(n, g),
        }
    }
}
impl Mk for PreferenceGD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "goal" if conv => GoalDefinition::mk(&kids(c)[0], r).into(),
            "goal" => PreferenceGD::from_gd(Mk::mk(&kids(c)[0], r)),
            "pref" if conv => Preference::mk(c, r).into(),
            "pref" => PreferenceGD::from_preference(Mk::mk(c, r)),
            _ => bad(c),
        }
    }
}
impl Mk for PreconditionGoalDefinition {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (tag(c), r.below(3)) {
            ("pforall", _) => PreconditionGoalDefinition::new_forall(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            ("pref", 0) => Preference::mk(c, r).into(),
            (_, 1) => PreferenceGD::mk(c, r).into(),
            _ => PreconditionGoalDefinition::new_preference(Mk::mk(c, r)),
        }
    }
}
impl Mk for PreconditionGoalDefinitions {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (v.len(), r.below(8)) {
            (0, 0) => PreconditionGoalDefinitions::default(),
            (0, 1) => None::<PreconditionGoalDefinition>.into(),
            (0, 2) => None::<PreconditionGoalDefinitions>.into(),
            (1, 0) => PreconditionGoalDefinition::mk(&v[0], r).into(),
            (1, 1) => Some(PreconditionGoalDefinition::mk(&v[0], r)).into(),
            (1, 2) if tag(&v[0]) == "pforall" => {
                let k = kids(&v[0]);
                PreconditionGoalDefinitions::new_forall(Mk::mk(&k[0], r), Mk::mk(&k[1], r))
            }
            (1, 2) => PreconditionGoalDefinitions::new_preference(Mk::mk(&v[0], r)),
            (_, 3) => PreconditionGoalDefinition::new_and(each::<PreconditionGoalDefinition>(v, r)),
            (_, 4) => each::<PreconditionGoalDefinition>(v, r).into_iter().collect(),
            (_, 5) => Some(PreconditionGoalDefinitions::new(each(v, r))).into(),
            _ => PreconditionGoalDefinitions::new(each(v, r)),
        }
    }
}
impl Mk for GoalDef {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match r.below(4) {
            0 => GoalDef::new(Mk::mk(c, r)),
            1 if v.len() == 1 => PreconditionGoalDefinition::mk(&v[0], r).into(),
            2 => each::<PreconditionGoalDefinition>(v, r).into_iter().collect(),
            _ => PreconditionGoalDefinitions::mk(c, r).into(),
        }
    }
}
impl Mk for PEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "add" => PEffect::new(Mk::mk(&v[0], r)),
            "del" => PEffect::new_not(Mk::mk(&v[0], r)),
            "num" => PEffect::new_numeric_fluent(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "obj" => PEffect::new_object_fluent(Mk::mk(&v[0], r), (tag(&v[1]) != "undefined").then(|| Mk::mk(&v[1], r))),
            _ => bad(c),
        }
    }
}
impl Mk for ConditionalEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (tag(c), r.below(3)) {
            ("ce1", 0) => PEffect::mk(&v[0], r).into(),
            ("ce1", _) => ConditionalEffect::new(Mk::mk(&v[0], r)),
            ("ceall", 0) => each::<PEffect>(v, r).into(),
            ("ceall", 1) => each::<PEffect>(v, r).into_iter().collect(),
            ("ceall", _) => ConditionalEffect::new_and(each(v, r)),
            _ => bad(c),
        }
    }
}
impl Mk for ForallCEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (x, y): (TypedVariables, Effects) = parts!(c, r);
        match r.below(3) {
            0 => (x, y).into(),
            1 => ForallCEffect { variables: x, effects: y },
            _ => ForallCEffect::new(x, y),
        }
    }
}
impl Mk for WhenCEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (x, y): (GoalDefinition, ConditionalEffect) = parts!(c, r);
        match r.below(3) {
            0 => (x, y).into(),
            1 => WhenCEffect { condition: x, effect: y },
            _ => WhenCEffect::new(x, y),
        }
    }
}
impl Mk for CEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "forall-e" if conv => ForallCEffect::mk(c, r).into(),
            "forall-e" => {
                let (x, y) = parts!(c, r);
                CEffect::new_forall(x, y)
            }
            "when-e" if conv => WhenCEffect::mk(c, r).into(),
            "when-e" => {
                let (x, y) = parts!(c, r);
                CEffect::new_when(x, y)
            }
            _ if conv => PEffect::mk(c, r).into(),
            _ => CEffect::new_p_effect(Mk::mk(c, r)),
        }
    }
}
impl Mk for Effects {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (v.len(), r.below(5)) {
            (0, 0) => Effects::default(),
            (1, 0) => Effects::new(Mk::mk(&v[0], r)),
            (1, 1) => CEffect::mk(&v[0], r).into(),
            (_, 2) => each::<CEffect>(v, r).into(),
            (_, 3) => each::<CEffect>(v, r).into_iter().collect(),
            _ => Effects::new_and(each(v, r)),
        }
    }
}
impl Mk for Con2GD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let k = &kids(c)[0];
        let conv = r.chance(1, 2);
        match tag(c) {
            "g" if conv => GoalDefinition::mk(k, r).into(),
            "g" => Con2GD::new_goal(Mk::mk(k, r)),
            "c" if conv => ConGD::mk(k, r).into(),
            "c" => Con2GD::new_nested(Mk::mk(k, r)),
            _ => bad(c),
        }
    }
}
impl Mk for ConGD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "con-and" if v.is_empty() && r.chance(1, 3) => ConGD::default(),
            "con-and" => ConGD::new_and(each::<ConGD>(v, r)),
            "con-forall" => ConGD::new_forall(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "at-end" => ConGD::new_at_end(Mk::mk(&v[0], r)),
            "always" => ConGD::new_always(Mk::mk(&v[0], r)),
            "sometime" => ConGD::new_sometime(Mk::mk(&v[0], r)),
            "within" => ConGD::new_within(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "at-most-once" => ConGD::new_at_most_once(Mk::mk(&v[0], r)),
            "sometime-after" => ConGD::new_sometime_after(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "sometime-before" => ConGD::new_sometime_before(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "always-within" => ConGD::new_always_within(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "hold-during" => ConGD::new_hold_during(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r)),
            "hold-after" => ConGD::new_hold_after(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            _ => bad(c),
        }
    }
}
impl Mk for PrefConGD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "cgoal" => PrefConGD::new_goal(Mk::mk(&v[0], r)),
            "cforall" => PrefConGD::new_forall(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "cpref" => PrefConGD::new_preference(pname(&v[0], r), Mk::mk(&v[1], r)),
            _ => bad(c),
        }
    }
}
impl Mk for PrefConGDs {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (v.len(), r.below(8)) {
            (0, 0) => PrefConGDs::default(),
            (0, 1) => None::<PrefConGD>.into(),
            (0, 2) => None::<PrefConGDs>.into(),
            (1, 0 | 1) => {
                let k = kids(&v[0]);
                match tag(&v[0]) {
                    "cgoal" if r.chance(1, 2) => ConGD::mk(&k[0], r).into(),
                    "cgoal" => PrefConGDs::new_goal(Mk::mk(&k[0], r)),
                    "cforall" => PrefConGDs::new_forall(Mk::mk(&k[0], r), Mk::mk(&k[1], r)),
                    _ => PrefConGDs::new_preference(pname(&k[0], r), Mk::mk(&k[1], r)),
                }
            }
            (1, 2) => Some(PrefConGD::mk(&v[0], r)).into(),
            (1, 3) => PrefConGD::mk(&v[0], r).into(),
            (_, 4) => each::<PrefConGD>(v, r).into(),
            (_, 5) => each::<PrefConGD>(v, r).into_iter().collect(),
            (_, 6) => Some(PrefConGDs::new(each(v, r))).into(),
            _ => PrefConGDs::new(each(v, r)),
        }
    }
}
impl Mk for DomainConstraintsDef {
    fn mk(c: &C, r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            DomainConstraintsDef::new(Mk::mk(c, r))
        } else {
            ConGD::mk(c, r).into()
        }
    }
}
impl Mk for ProblemConstraintsDef {
    fn mk(c: &C, r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            ProblemConstraintsDef::new(Mk::mk(c, r))
        } else {
            PrefConGDs::mk(c, r).into()
        }
    }
}
impl Mk for DurationValue {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let k = &kids(c)[0];
        match (tag(c), r.below(3)) {
            ("dnum", 0) => DurationValue::new_number(num(k)),
            ("dnum", 1) => DurationValue::new_number(Number::mk(k, r)),
            ("dnum", _) => Number::mk(k, r).into(),
            ("dexp", 0) => FExp::mk(k, r).into(),
            ("dexp", _) => DurationValue::new_f_exp(Mk::mk(k, r)),
            _ => bad(c),
        }
    }
}
impl Mk for SimpleDurationConstraint {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "dop" => {
                let (x, y): (DOp, DurationValue) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    SimpleDurationConstraint::new_op(x, y)
                }
            }
            "dat" => {
                let (x, y): (TimeSpecifier, SimpleDurationConstraint) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    SimpleDurationConstraint::new_at(x, y)
                }
            }
            _ => bad(c),
        }
    }
}
impl Mk for DurationConstraint {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match (tag(c), r.below(3)) {
            ("dur1", 0) => SimpleDurationConstraint::mk(&v[0], r).into(),
            ("dur1", _) => DurationConstraint::new(Mk::mk(&v[0], r)),
            ("durall", 0) if !v.is_empty() => each::<SimpleDurationConstraint>(v, r).into_iter().collect(),
            ("durall", 1) if !v.is_empty() => DurationConstraint::new_all(each::<SimpleDurationConstraint>(v, r)),
            ("durall", _) => DurationConstraint::All(each(v, r)),
            _ => bad(c),
        }
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(c: &C, r: &mut Rng) -> Self {
        (tag(c) != "none").then(|| T::mk(c, r))
    }
}
impl Mk for TimedGD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "at" => {
                let (x, y): (TimeSpecifier, GoalDefinition) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    TimedGD::new_at(x, y)
                }
            }
            "over" => {
                let (x, y): (Interval, GoalDefinition) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    TimedGD::new_over(x, y)
                }
            }
            _ => bad(c),
        }
    }
}
impl Mk for PrefTimedGD {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let conv = r.chance(1, 2);
        match tag(c) {
            "req" if conv => TimedGD::mk(&v[0], r).into(),
            "req" => PrefTimedGD::new_required(Mk::mk(&v[0], r)),
            "tpref" if conv => (pname(&v[0], r), TimedGD::mk(&v[1], r)).into(),
            "tpref" => PrefTimedGD::new_preference(pname(&v[0], r), Mk::mk(&v[1], r)),
            _ => bad(c),
        }
    }
}
impl Mk for DurativeActionGoalDefinition {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "dt" if r.chance(1, 2) => PrefTimedGD::mk(&v[0], r).into(),
            "dt" => DurativeActionGoalDefinition::new_timed(Mk::mk(&v[0], r)),
            "dand" => DurativeActionGoalDefinition::new_and(each::<DurativeActionGoalDefinition>(v, r)),
            "dforall" => DurativeActionGoalDefinition::new_forall(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            _ => bad(c),
        }
    }
}
impl Mk for TimedEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "tcond" => {
                let (x, y): (TimeSpecifier, ConditionalEffect) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    TimedEffect::new_conditional(x, y)
                }
            }
            "tnum" => {
                let (x, y): (TimeSpecifier, FAssignDa) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    TimedEffect::new_fluent(x, y)
                }
            }
            "tcont" => {
                let (x, y, z): (AssignOpT, FHead, FExpT) = parts!(c, r, 3);
                if conv {
                    (x, y, z).into()
                } else {
                    TimedEffect::new_continuous(x, y, z)
                }
            }
            _ => bad(c),
        }
    }
}
impl Mk for DurativeActionEffect {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let conv = r.chance(1, 2);
        match tag(c) {
            "et" if conv => TimedEffect::mk(&v[0], r).into(),
            "et" => DurativeActionEffect::new_timed(Mk::mk(&v[0], r)),
            "eand" if conv => each::<DurativeActionEffect>(v, r).into_iter().collect(),
            "eand" => DurativeActionEffect::new_and(each::<DurativeActionEffect>(v, r)),
            "eforall" => {
                let (x, y): (TypedVariables, DurativeActionEffect) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    DurativeActionEffect::new_forall(x, y)
                }
            }
            "ewhen" => {
                let (x, y): (DurativeActionGoalDefinition, TimedEffect) = parts!(c, r);
                if conv {
                    (x, y).into()
                } else {
                    DurativeActionEffect::new_when(x, y)
                }
            }
            _ => bad(c),
        }
    }
}
impl Mk for AtomicFormulaSkeleton {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (x, y): (Predicate, TypedVariables) = parts!(c, r);
        if r.chance(1, 2) {
            (x, y).into()
        } else {
            AtomicFormulaSkeleton::new(x, y)
        }
    }
}
impl Mk for AtomicFunctionSkeleton {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let f = FunctionSymbol::mk(&v[0], r);
        match r.below(3) {
            0 => (f, TypedVariables::mk(&v[1], r)).into(),
            1 => (f, each::<Typed<Variable>>(kids(&v[1]), r)).into(),
            _ => AtomicFunctionSkeleton::new(f, Mk::mk(&v[1], r)),
        }
    }
}
impl Mk for ActionDefinition {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        ActionDefinition::new(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r), Mk::mk(&v[3], r))
    }
}
impl Mk for DurativeActionDefinition {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        DurativeActionDefinition::new(Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r), Mk::mk(&v[3], r), Mk::mk(&v[4], r))
    }
}
impl Mk for DerivedPredicate {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (x, y): (AtomicFormulaSkeleton, GoalDefinition) = parts!(c, r);
        if r.chance(1, 2) {
            (x, y).into()
        } else {
            DerivedPredicate::new(x, y)
        }
    }
}
impl Mk for StructureDef {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let conv = r.chance(1, 2);
        match tag(c) {
            "action" if conv => ActionDefinition::mk(c, r).into(),
            "action" => StructureDef::new_action(Mk::mk(c, r)),
            "da" if conv => DurativeActionDefinition::mk(c, r).into(),
            "da" => StructureDef::new_durative_action(Mk::mk(c, r)),
            "derived" if conv => DerivedPredicate::mk(c, r).into(),
            "derived" => StructureDef::new_derived(Mk::mk(c, r)),
            _ => bad(c),
        }
    }
}
impl Mk for StructureDefs {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each::<StructureDef>(kids(c), r);
        match r.below(3) {
            0 => v.into(),
            1 => v.into_iter().collect(),
            _ => StructureDefs::new(v),
        }
    }
}
impl Mk for Requirements {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each::<Requirement>(kids(c), r);
        match r.below(4) {
            0 => v.into(),
            1 => v.into_iter().collect(),
            2 if v.is_empty() => Requirements::default(),
            _ => Requirements::new(v),
        }
    }
}
macro_rules! names {
    ($t:ident: $($new:expr),*) => {
        impl Mk for $t {
            fn mk(c: &C, r: &mut Rng) -> Self {
                let l = TypedNames::mk(c, r);
                let routes: &[fn(TypedNames) -> $t] = &[$($new),*];
                if l.is_empty() && r.chance(1, 3) {
                    return $t::default();
                }
                r.pick(routes)(l)
            }
        }
    };
}
names!(Types: |l| Types::new(l), |l| l.into());
names!(Constants: |l| Constants::new(l), |l| l.into(), |l| l.into_iter().collect());
names!(Objects: |l| Objects::new(l), |l| l.into(), |l| l.into_iter().collect());
impl Mk for PredicateDefinitions {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each::<AtomicFormulaSkeleton>(kids(c), r);
        match r.below(5) {
            0 => v.into(),
            1 => v.into_iter().collect(),
            2 if v.is_empty() => PredicateDefinitions::default(),
            3 => PredicateDefinitions::from(v),
            _ => PredicateDefinitions::new(v),
        }
    }
}
impl Mk for Functions {
    fn mk(c: &C, r: &mut Rng) -> Self {
        match r.below(4) {
            0 => FunctionTypedList::mk(c, r).into(),
            1 => each::<FunctionTyped<AtomicFunctionSkeleton>>(kids(c), r).into_iter().collect(),
            2 if kids(c).is_empty() => Functions::default(),
            _ => Functions::new(Mk::mk(c, r)),
        }
    }
}
impl Mk for Timeless {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each::<NameLiteral>(kids(c), r);
        match r.below(3) {
            0 => v.into_iter().collect(),
            1 if v.is_empty() => Timeless::default(),
            _ => Timeless::new(v),
        }
    }
}
impl Mk for InitElement {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        match tag(c) {
            "lit" => InitElement::new_literal(Mk::mk(&v[0], r)),
            "at" => InitElement::new_at(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "val" => InitElement::new_is_value(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            "objval" => InitElement::new_is_object(Mk::mk(&v[0], r), Mk::mk(&v[1], r)),
            _ => bad(c),
        }
    }
}
impl Mk for InitElements {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = each(kids(c), r);
        if r.chance(1, 2) {
            InitElements::new(v)
        } else {
            v.into_iter().collect()
        }
    }
}
impl Mk for MetricSpec {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let (x, y) = parts!(c, r);
        MetricSpec::new(x, y)
    }
}
impl Mk for LengthSpec {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let o = |c: &C| match c {
            C::U(x) => Some(*x),
            _ => None,
        };
        let v = kids(c);
        match (o(&v[0]), o(&v[1]), r.chance(1, 2)) {
            (Some(x), None, true) => LengthSpec::new_serial(x),
            (None, Some(x), true) => LengthSpec::new_parallel(x),
            (None, None, true) => LengthSpec::default(),
            (x, y, _) => LengthSpec::new(x, y),
        }
    }
}
/// Index in the canonical form of a domain and the step that sets it.
pub const DOMAIN_STEPS: &[usize] = &[1, 2, 3, 4, 5, 6, 7];
pub fn domain_step(d: Domain, i: usize, c: &C, r: &mut Rng) -> Domain {
    let conv = r.chance(1, 2);
    match i {
        1 => d.with_extends(each::<Name>(kids(c), r)),
        2 => d.with_requirements(Mk::mk(c, r)),
        3 if conv => d.with_types(TypedNames::mk(c, r)),
        3 => d.with_types(Types::mk(c, r)),
        4 if conv => d.with_constants(TypedNames::mk(c, r)),
        4 => d.with_constants(Constants::mk(c, r)),
        5 if conv => d.with_predicates(each::<AtomicFormulaSkeleton>(kids(c), r)),
        5 => d.with_predicates(PredicateDefinitions::mk(c, r)),
        6 if conv => d.with_functions(FunctionTypedList::<AtomicFunctionSkeleton>::mk(c, r)),
        6 => d.with_functions(Functions::mk(c, r)),
        7 => d.with_constraints(Mk::mk(c, r)),
        _ => unreachable!(),
    }
}
pub const PROBLEM_STEPS: &[usize] = &[2, 3, 6, 7, 8];
pub fn problem_step(p: Problem, i: usize, c: &C, r: &mut Rng) -> Problem {
    let conv = r.chance(1, 2);
    match i {
        2 if conv => p.with_requirements(each::<Requirement>(kids(c), r)),
        2 => p.with_requirements(Requirements::mk(c, r)),
        3 if conv => p.with_objects(TypedNames::mk(c, r)),
        3 => p.with_objects(Objects::mk(c, r)),
        6 if conv => p.with_constraints(PrefConGDs::mk(c, r)),
        6 => p.with_constraints(ProblemConstraintsDef::mk(c, r)),
        // These steps cannot remove what is there.
        7 => p.with_metric_spec(MetricSpec::mk(c, r)),
        8 => p.with_length_spec(LengthSpec::mk(c, r)),
        _ => unreachable!(),
    }
}
/// Is there a step that gives this part this content?
pub fn settable(c: &C) -> bool {
    tag(c) != "none"
}
fn is_default(c: &C) -> bool {
    matches!(tag(c), "none") || (kids(c).is_empty() && matches!(c, C::T(..)))
}
impl Mk for Domain {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        let mut d = Domain::builder(Mk::mk(&v[0], r), Mk::mk(&v[8], r));
        let mut steps: Vec<usize> = DOMAIN_STEPS.iter().copied().filter(|&i| !is_default(&v[i]) || r.chance(1, 2)).collect();
        r.shuffle(&mut steps);
        for i in steps {
            d = domain_step(d, i, &v[i], r);
        }
        d
    }
}
impl Mk for Problem {
    fn mk(c: &C, r: &mut Rng) -> Self {
        let v = kids(c);
        if r.chance(1, 3) {
            return Problem::new(
                Mk::mk(&v[0], r), Mk::mk(&v[1], r), Mk::mk(&v[2], r), Mk::mk(&v[3], r), Mk::mk(&v[4], r),
                Mk::mk(&v[5], r), Mk::mk(&v[6], r), Mk::mk(&v[7], r), Mk::mk(&v[8], r),
            );
        }
        let mut p = match r.below(3) {
            0 => Problem::builder(Name::mk(&v[0], r), Name::mk(&v[1], r), Mk::mk(&v[4], r), Mk::mk(&v[5], r)),
            1 => Problem::builder(text(&v[0]), text(&v[1]), Mk::mk(&v[4], r), Mk::mk(&v[5], r)),
            _ => Problem::builder(text(&v[0]).to_string(), Name::mk(&v[1], r), Mk::mk(&v[4], r), Mk::mk(&v[5], r)),
        };
        let mut steps: Vec<usize> = PROBLEM_STEPS.iter().copied().filter(|&i| settable(&v[i]) && (!is_default(&v[i]) || r.chance(1, 2))).collect();
        r.shuffle(&mut steps);
        for i in steps {
            p = problem_step(p, i, &v[i], r);
        }
        p
    }
}
