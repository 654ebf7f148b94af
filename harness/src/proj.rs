//! Projection of the library's values to canonical form, through the public API only.
use crate::canon::*;
use pddl::*;

pub trait Proj {
    fn c(&self) -> C;
}
fn all<T: Proj>(tag: &'static str, v: &[T]) -> C {
    t(tag, v.iter().map(|x| x.c()).collect())
}
fn opt<T: Proj>(v: &Option<T>) -> C {
    v.as_ref().map_or_else(|| t("none", vec![]), |x| x.c())
}
fn with(tag: &'static str, first: Vec<C>, rest: Vec<C>) -> C {
    let mut v = first;
    v.extend(rest);
    t(tag, v)
}
fn cs<T: Proj>(v: &[T]) -> Vec<C> {
    v.iter().map(|x| x.c()).collect()
}
impl Proj for Name {
    fn c(&self) -> C {
        s(&**self)
    }
}
macro_rules! sym { ($($t:ty),*) => { $( impl Proj for $t { fn c(&self) -> C { let n: &str = self.as_ref(); s(n) } } )* } }
sym!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, Predicate, Variable);
impl Proj for PreferenceName {
    fn c(&self) -> C {
        let n: &Name = self;
        n.c()
    }
}
macro_rules! disp { ($($t:ty),*) => { $( impl Proj for $t { fn c(&self) -> C { s(self.to_string()) } } )* } }
disp!(AssignOp, AssignOpT, BinaryComp, BinaryOp, MultiOp, DOp, Interval, Optimization, TimeSpecifier, Requirement);
impl Proj for Number {
    fn c(&self) -> C {
        n(**self)
    }
}
/// Primitive types: as an element of a type, just the name.
fn pname(p: &PrimitiveType) -> C {
    let x: &str = p.as_ref();
    s(x)
}
impl Proj for PrimitiveType {
    fn c(&self) -> C {
        t("ptype", vec![pname(self)])
    }
}
impl Proj for Type {
    fn c(&self) -> C {
        match self {
            Type::Exactly(p) => t("type", vec![pname(p)]),
            Type::EitherOf(v) => t("either", v.iter().map(pname).collect()),
        }
    }
}
impl Proj for FunctionType {
    fn c(&self) -> C {
        let ty: &Type = self;
        ty.c()
    }
}
impl<O: Proj> Proj for Typed<O> {
    fn c(&self) -> C {
        t("typed", vec![self.value().c(), self.type_().c()])
    }
}
impl<O: Proj> Proj for TypedList<O> {
    fn c(&self) -> C {
        all("tl", self.value())
    }
}
impl<O: Proj> Proj for FunctionTyped<O> {
    fn c(&self) -> C {
        t("typed", vec![self.value_ref().c(), self.type_ref().c()])
    }
}
impl<O: Proj> Proj for FunctionTypedList<O> {
    fn c(&self) -> C {
        all("tl", self.values())
    }
}
impl Proj for Term {
    fn c(&self) -> C {
        match self {
            Term::Name(x) => t("name", vec![x.c()]),
            Term::Variable(x) => t("var", vec![x.c()]),
            Term::Function(x) => x.c(),
        }
    }
}
impl Proj for FunctionTerm {
    fn c(&self) -> C {
        with("fn", vec![self.symbol().c()], cs(self.terms()))
    }
}
/// A name as an argument of a formula.
struct NameArg<'a>(&'a Name);
impl<'a> Proj for NameArg<'a> {
    fn c(&self) -> C {
        t("name", vec![self.0.c()])
    }
}
pub trait Arg {
    fn arg(&self) -> C;
}
impl Arg for Name {
    fn arg(&self) -> C {
        NameArg(self).c()
    }
}
impl Arg for Term {
    fn arg(&self) -> C {
        self.c()
    }
}
impl<T: Arg> Proj for AtomicFormula<T> {
    fn c(&self) -> C {
        match self {
            AtomicFormula::Equality(e) => t("=", vec![e.first().arg(), e.second().arg()]),
            AtomicFormula::Predicate(p) => {
                with("pred", vec![p.predicate().c()], p.values().iter().map(|x| x.arg()).collect())
            }
        }
    }
}
impl<T: Arg> Proj for Literal<T> {
    fn c(&self) -> C {
        match self {
            Literal::AtomicFormula(x) => t("pos", vec![x.c()]),
            Literal::NotAtomicFormula(x) => t("neg", vec![x.c()]),
        }
    }
}
impl Proj for FHead {
    fn c(&self) -> C {
        match self {
            FHead::Simple(x) => t("f", vec![x.c()]),
            FHead::WithTerms(x, v) => with("f", vec![x.c()], cs(v)),
        }
    }
}
impl Proj for BasicFunctionTerm {
    fn c(&self) -> C {
        with("bf", vec![self.symbol().c()], cs(self.names()))
    }
}
impl Proj for FExp {
    fn c(&self) -> C {
        match self {
            FExp::Number(x) => x.c(),
            FExp::Function(x) => x.c(),
            FExp::Negative(x) => t("minus", vec![x.c()]),
            FExp::BinaryOp(o, a, b) => t("bin", vec![o.c(), a.c(), b.c()]),
            FExp::MultiOp(o, a, v) => with("multi", vec![o.c(), a.c()], cs(v)),
        }
    }
}
impl Proj for FExpDa {
    fn c(&self) -> C {
        match self {
            FExpDa::Assign(o, h, x) => t("da-assign", vec![o.c(), h.c(), x.c()]),
            FExpDa::BinaryOp(o, a, b) => t("bin", vec![o.c(), a.c(), b.c()]),
            FExpDa::MultiOp(o, a, v) => with("multi", vec![o.c(), a.c()], cs(v)),
            FExpDa::Negative(x) => t("minus", vec![x.c()]),
            FExpDa::Duration => t("duration", vec![]),
            FExpDa::FExp(x) => x.c(),
        }
    }
}
impl Proj for FExpT {
    fn c(&self) -> C {
        match self {
            FExpT::Now => t("#t", vec![]),
            FExpT::Scaled(x) => t("scaled", vec![x.c()]),
        }
    }
}
impl Proj for MetricFExp {
    fn c(&self) -> C {
        match self {
            MetricFExp::BinaryOp(o, a, b) => t("bin", vec![o.c(), a.c(), b.c()]),
            MetricFExp::MultiOp(o, a, v) => with("multi", vec![o.c(), a.c()], cs(v)),
            MetricFExp::Negative(x) => t("minus", vec![x.c()]),
            MetricFExp::Number(x) => x.c(),
            MetricFExp::Function(x, v) => with("mf", vec![x.c()], cs(v)),
            MetricFExp::TotalTime => t("total-time", vec![]),
            MetricFExp::IsViolated(x) => t("is-violated", vec![x.c()]),
        }
    }
}
impl Proj for FComp {
    fn c(&self) -> C {
        t("cmp", vec![self.comparison().c(), self.first().c(), self.second().c()])
    }
}
impl Proj for FAssignDa {
    fn c(&self) -> C {
        t("fassign", vec![self.operation().c(), self.function().c(), self.function_expr().c()])
    }
}
impl Proj for GoalDefinition {
    fn c(&self) -> C {
        match self {
            GoalDefinition::AtomicFormula(x) => t("atom", vec![x.c()]),
            // A negated literal is the negation of its atom.
            GoalDefinition::Literal(Literal::AtomicFormula(x)) => t("atom", vec![x.c()]),
            GoalDefinition::Literal(Literal::NotAtomicFormula(x)) => t("not", vec![t("atom", vec![x.c()])]),
            GoalDefinition::And(v) => all("and", v),
            GoalDefinition::Or(v) => all("or", v),
            GoalDefinition::Not(x) => t("not", vec![x.c()]),
            GoalDefinition::Imply(a, b) => t("imply", vec![a.c(), b.c()]),
            GoalDefinition::Exists(v, x) => t("exists", vec![v.c(), x.c()]),
            GoalDefinition::ForAll(v, x) => t("forall", vec![v.c(), x.c()]),
            GoalDefinition::FComp(x) => x.c(),
        }
    }
}
fn pname_opt(x: &Option<PreferenceName>) -> C {
    x.as_ref().map_or_else(|| t("anon", vec![]), |n| n.c())
}
impl Proj for Preference {
    fn c(&self) -> C {
        t("pref", vec![pname_opt(self.name()), self.goal().c()])
    }
}
impl Proj for PreferenceGD {
    fn c(&self) -> C {
        match self {
            PreferenceGD::Goal(x) => t("goal", vec![x.c()]),
            PreferenceGD::Preference(p) => p.c(),
        }
    }
}
impl Proj for PreconditionGoalDefinition {
    fn c(&self) -> C {
        match self {
            PreconditionGoalDefinition::Preference(p) => p.c(),
            PreconditionGoalDefinition::Forall(v, x) => t("pforall", vec![v.c(), x.c()]),
        }
    }
}
impl Proj for PreconditionGoalDefinitions {
    fn c(&self) -> C {
        all("pre", self)
    }
}
impl Proj for GoalDef {
    fn c(&self) -> C {
        self.value().c()
    }
}
impl Proj for PEffect {
    fn c(&self) -> C {
        match self {
            PEffect::AtomicFormula(x) => t("add", vec![x.c()]),
            PEffect::NotAtomicFormula(x) => t("del", vec![x.c()]),
            PEffect::AssignNumericFluent(o, h, x) => t("num", vec![o.c(), h.c(), x.c()]),
            PEffect::AssignObjectFluent(f, x) => {
                t("obj", vec![f.c(), x.as_ref().map_or_else(|| t("undefined", vec![]), |y| y.c())])
            }
        }
    }
}
impl Proj for ConditionalEffect {
    fn c(&self) -> C {
        match self {
            ConditionalEffect::Single(x) => t("ce1", vec![x.c()]),
            ConditionalEffect::All(v) => all("ceall", v),
        }
    }
}
impl Proj for ForallCEffect {
    fn c(&self) -> C {
        t("forall-e", vec![self.variables.c(), self.effects.c()])
    }
}
impl Proj for WhenCEffect {
    fn c(&self) -> C {
        t("when-e", vec![self.condition.c(), self.effect.c()])
    }
}
impl Proj for CEffect {
    fn c(&self) -> C {
        match self {
            CEffect::Effect(x) => x.c(),
            CEffect::Forall(x) => x.c(),
            CEffect::When(x) => x.c(),
        }
    }
}
impl Proj for Effects {
    fn c(&self) -> C {
        all("effs", self)
    }
}
impl Proj for Con2GD {
    fn c(&self) -> C {
        match self {
            Con2GD::Goal(x) => t("g", vec![x.c()]),
            Con2GD::Nested(x) => t("c", vec![x.c()]),
        }
    }
}
impl Proj for ConGD {
    fn c(&self) -> C {
        match self {
            ConGD::And(v) => all("con-and", v),
            ConGD::Forall(v, x) => t("con-forall", vec![v.c(), x.c()]),
            ConGD::AtEnd(x) => t("at-end", vec![x.c()]),
            ConGD::Always(x) => t("always", vec![x.c()]),
            ConGD::Sometime(x) => t("sometime", vec![x.c()]),
            ConGD::Within(k, x) => t("within", vec![k.c(), x.c()]),
            ConGD::AtMostOnce(x) => t("at-most-once", vec![x.c()]),
            ConGD::SometimeAfter(x, y) => t("sometime-after", vec![x.c(), y.c()]),
            ConGD::SometimeBefore(x, y) => t("sometime-before", vec![x.c(), y.c()]),
            ConGD::AlwaysWithin(k, x, y) => t("always-within", vec![k.c(), x.c(), y.c()]),
            ConGD::HoldDuring(k, l, x) => t("hold-during", vec![k.c(), l.c(), x.c()]),
            ConGD::HoldAfter(k, x) => t("hold-after", vec![k.c(), x.c()]),
        }
    }
}
impl Proj for PrefConGD {
    fn c(&self) -> C {
        match self {
            PrefConGD::Goal(x) => t("cgoal", vec![x.c()]),
            PrefConGD::Forall(v, x) => t("cforall", vec![v.c(), x.c()]),
            PrefConGD::Preference(k, x) => t("cpref", vec![pname_opt(k), x.c()]),
        }
    }
}
impl Proj for PrefConGDs {
    fn c(&self) -> C {
        all("prefcons", self)
    }
}
impl Proj for DomainConstraintsDef {
    fn c(&self) -> C {
        self.value().c()
    }
}
impl Proj for ProblemConstraintsDef {
    fn c(&self) -> C {
        self.value().c()
    }
}
impl Proj for DurationValue {
    fn c(&self) -> C {
        match self {
            DurationValue::Number(x) => t("dnum", vec![x.c()]),
            DurationValue::FExp(x) => t("dexp", vec![x.c()]),
        }
    }
}
impl Proj for SimpleDurationConstraint {
    fn c(&self) -> C {
        match self {
            SimpleDurationConstraint::Op(o, x) => t("dop", vec![o.c(), x.c()]),
            SimpleDurationConstraint::At(k, x) => t("dat", vec![k.c(), x.c()]),
        }
    }
}
impl Proj for DurationConstraint {
    fn c(&self) -> C {
        match self {
            DurationConstraint::Single(x) => t("dur1", vec![x.c()]),
            DurationConstraint::All(v) => all("durall", v),
        }
    }
}
impl<T: Proj> Proj for Option<T> {
    fn c(&self) -> C {
        opt(self)
    }
}
impl Proj for TimedGD {
    fn c(&self) -> C {
        match self {
            TimedGD::At(k, x) => t("at", vec![k.c(), x.c()]),
            TimedGD::Over(k, x) => t("over", vec![k.c(), x.c()]),
        }
    }
}
impl Proj for PrefTimedGD {
    fn c(&self) -> C {
        match self {
            PrefTimedGD::Required(x) => t("req", vec![x.c()]),
            PrefTimedGD::Preference(k, x) => t("tpref", vec![pname_opt(k), x.c()]),
        }
    }
}
impl Proj for DurativeActionGoalDefinition {
    fn c(&self) -> C {
        match self {
            DurativeActionGoalDefinition::Timed(x) => t("dt", vec![x.c()]),
            DurativeActionGoalDefinition::And(v) => all("dand", v),
            DurativeActionGoalDefinition::Forall(v, x) => t("dforall", vec![v.c(), x.c()]),
        }
    }
}
impl Proj for TimedEffect {
    fn c(&self) -> C {
        match self {
            TimedEffect::Conditional(k, x) => t("tcond", vec![k.c(), x.c()]),
            TimedEffect::NumericFluent(k, x) => t("tnum", vec![k.c(), x.c()]),
            TimedEffect::ContinuousEffect(o, h, x) => t("tcont", vec![o.c(), h.c(), x.c()]),
        }
    }
}
impl Proj for DurativeActionEffect {
    fn c(&self) -> C {
        match self {
            DurativeActionEffect::Timed(x) => t("et", vec![x.c()]),
            DurativeActionEffect::All(v) => all("eand", v),
            DurativeActionEffect::Forall(v, x) => t("eforall", vec![v.c(), x.c()]),
            DurativeActionEffect::When(g, x) => t("ewhen", vec![g.c(), x.c()]),
        }
    }
}
impl Proj for AtomicFormulaSkeleton {
    fn c(&self) -> C {
        t("skel", vec![self.predicate().c(), self.variables().c()])
    }
}
impl Proj for AtomicFunctionSkeleton {
    fn c(&self) -> C {
        t("fskel", vec![self.symbol().c(), self.variables().c()])
    }
}
impl Proj for ActionDefinition {
    fn c(&self) -> C {
        t("action", vec![self.symbol().c(), self.parameters().c(), self.precondition().c(), opt(self.effect())])
    }
}
impl Proj for DurativeActionDefinition {
    fn c(&self) -> C {
        t(
            "da",
            vec![self.symbol().c(), self.parameters().c(), opt(self.duration()), opt(self.condition()), opt(self.effect())],
        )
    }
}
impl Proj for DerivedPredicate {
    fn c(&self) -> C {
        t("derived", vec![self.predicate().c(), self.expression().c()])
    }
}
impl Proj for StructureDef {
    fn c(&self) -> C {
        match self {
            StructureDef::Action(x) => x.c(),
            StructureDef::DurativeAction(x) => x.c(),
            StructureDef::Derived(x) => x.c(),
        }
    }
}
impl Proj for StructureDefs {
    fn c(&self) -> C {
        all("structs", self.values())
    }
}
impl Proj for Requirements {
    fn c(&self) -> C {
        all("reqs", self)
    }
}
impl Proj for Types {
    fn c(&self) -> C {
        self.values().c()
    }
}
impl Proj for Constants {
    fn c(&self) -> C {
        let tl: &TypedNames = self;
        tl.c()
    }
}
impl Proj for Objects {
    fn c(&self) -> C {
        self.values().c()
    }
}
impl Proj for PredicateDefinitions {
    fn c(&self) -> C {
        all("preds", self.values())
    }
}
impl Proj for Functions {
    fn c(&self) -> C {
        self.values().c()
    }
}
impl Proj for Timeless {
    fn c(&self) -> C {
        all("timeless", self.values())
    }
}
impl Proj for InitElement {
    fn c(&self) -> C {
        match self {
            InitElement::Literal(x) => t("lit", vec![x.c()]),
            InitElement::At(k, x) => t("at", vec![k.c(), x.c()]),
            InitElement::IsValue(x, k) => t("val", vec![x.c(), k.c()]),
            InitElement::IsObject(x, k) => t("objval", vec![x.c(), k.c()]),
        }
    }
}
impl Proj for InitElements {
    fn c(&self) -> C {
        all("init", self.values())
    }
}
impl Proj for MetricSpec {
    fn c(&self) -> C {
        t("metric", vec![self.optimization().c(), self.expression().c()])
    }
}
impl Proj for LengthSpec {
    fn c(&self) -> C {
        let o = |x: Option<u64>| x.map_or_else(|| t("none", vec![]), C::U);
        t("length", vec![o(self.serial()), o(self.parallel())])
    }
}
impl Proj for Domain {
    fn c(&self) -> C {
        t(
            "domain",
            vec![
                self.name().c(),
                all("extends", self.extends()),
                self.requirements().c(),
                self.types().c(),
                self.constants().c(),
                self.predicates().c(),
                self.functions().c(),
                self.constraints().c(),
                self.structure().c(),
            ],
        )
    }
}
impl Proj for Problem {
    fn c(&self) -> C {
        t(
            "problem",
            vec![
                self.name().c(),
                self.domain().c(),
                self.requirements().c(),
                self.objects().c(),
                self.init().c(),
                self.goals().c(),
                self.constraints().c(),
                opt(self.metric_spec()),
                opt(self.length_spec()),
            ],
        )
    }
}
