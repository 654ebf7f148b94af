//! All public parsers behind one interface.
use crate::canon::C;
use crate::mk::Mk;
use crate::proj::Proj;
use crate::refel::NT;
use crate::rng::Rng;
use pddl::parsers::*;
use pddl::*;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub struct Loc {
    pub off: usize,
    pub line: u32,
    pub col: usize,
    /// The fragment is exactly the rest of the input from `off`.
    pub exact: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    /// Value and start of the remainder.
    Ok(C, Loc),
    /// Locations in the error.
    Err(&'static str, Vec<(Loc, String)>),
    Panic(String),
}
impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(c, l) => format!("ok, remainder at {}: {}", l.off, crate::canon::short(&c.to_string())),
            Out::Err(k, e) => {
                format!("error({}) at {:?}", k, e.iter().map(|(l, k)| (l.off, k.as_str())).take(4).collect::<Vec<_>>())
            }
            Out::Panic(m) => format!("panic: {}", m),
        }
    }
    pub fn value(&self) -> Option<&C> {
        match self {
            Out::Ok(c, _) => Some(c),
            _ => None,
        }
    }
}
/// A value that is kept alive.
pub trait Held: Send + Sync {
    fn c(&self) -> C;
    fn eq(&self, o: &dyn Held) -> bool;
    fn ne(&self, o: &dyn Held) -> bool;
    fn dup(&self) -> Box<dyn Held>;
    /// A clone of this value that the other is then assigned to, with `clone_from`.
    fn assigned(&self, o: &dyn Held) -> Option<Box<dyn Held>>;
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
    fn views(&self) -> crate::views::W;
    /// Comparison by other means than `==` of the same type.
    fn compare(&self, o: &dyn Held) -> crate::views::Compared;
}
struct H<T>(T);
impl<T> Held for H<T>
where
    T: Proj + PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static + crate::views::Views,
{
    fn c(&self) -> C {
        self.0.c()
    }
    fn eq(&self, o: &dyn Held) -> bool {
        o.any().downcast_ref::<H<T>>().map_or(false, |x| self.0 == x.0)
    }
    fn ne(&self, o: &dyn Held) -> bool {
        o.any().downcast_ref::<H<T>>().map_or(true, |x| self.0 != x.0)
    }
    fn dup(&self) -> Box<dyn Held> {
        Box::new(H(self.0.clone()))
    }
    fn assigned(&self, o: &dyn Held) -> Option<Box<dyn Held>> {
        let o = o.any().downcast_ref::<H<T>>()?;
        let mut x = self.0.clone();
        x.clone_from(&o.0);
        // In a container, element by element.
        let mut v = vec![Some(self.0.clone()), None];
        v.clone_from(&vec![Some(o.0.clone()), Some(x)]);
        v.pop().flatten().filter(|x| v[0].as_ref() == Some(x)).map(|x| Box::new(H(x)) as Box<dyn Held>)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn views(&self) -> crate::views::W {
        let mut w = crate::views::W::default();
        self.0.views(&mut w);
        w
    }
    fn compare(&self, o: &dyn Held) -> crate::views::Compared {
        o.any().downcast_ref::<H<T>>().map_or(vec![], |x| self.0.compare(&x.0))
    }
}
pub fn hold<T>(x: T) -> Box<dyn Held>
where
    T: Proj + PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static + crate::views::Views,
{
    Box::new(H(x))
}

pub type Boxed = Box<dyn Held>;
pub struct Entry {
    pub id: &'static str,
    pub nt: NT,
    /// parse(Span) -> value kept alive and remainder.
    raw: fn(Span) -> ParseResult<Boxed>,
    /// parse(&str)
    raw_str: fn(&str) -> ParseResult<Boxed>,
    /// The provided trait method.
    raw_span: fn(Span) -> ParseResult<Boxed>,
    from_str: fn(&str) -> Result<Boxed, nom::Err<ParseError>>,
    /// The plain function, if there is one.
    func: Option<fn(Span) -> ParseResult<Boxed>>,
    /// Builds a value from its content through the public constructors.
    pub make: fn(&C, &mut Rng) -> Boxed,
}
/// The type of value a parser yields.
fn make_like<T>(_: impl Fn(Span) -> ParseResult<T>) -> fn(&C, &mut Rng) -> Boxed
where
    T: Proj + PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static + crate::views::Views + Mk,
{
    |c, r| hold(T::mk(c, r))
}
fn loc(input: &str, sp: &Span) -> Loc {
    let off = sp.location_offset();
    let frag: &str = sp.fragment();
    // The fragment must lie inside the input, at its offset, up to the end.
    let exact = off <= input.len()
        && frag.as_ptr() as usize == input.as_ptr() as usize + off
        && frag.len() == input.len() - off;
    let (line, col) = if off <= input.len() { (sp.location_line(), sp.get_utf8_column()) } else { (0, 0) };
    Loc { off, line, col, exact }
}
pub fn conv(input: &str, r: ParseResult<Boxed>) -> (Out, Option<Boxed>) {
    match r {
        Ok((rem, v)) => (Out::Ok(v.c(), loc(input, &rem)), Some(v)),
        Err(e) => (err(input, &e), None),
    }
}
pub fn err(input: &str, e: &nom::Err<ParseError>) -> Out {
    let (k, pe) = match e {
        nom::Err::Incomplete(_) => return Out::Err("incomplete", vec![]),
        nom::Err::Error(x) => ("error", x),
        nom::Err::Failure(x) => ("failure", x),
    };
    Out::Err(k, pe.errors.iter().map(|(sp, kind)| (loc(input, sp), format!("{:?}", kind))).collect())
}
fn guard<T>(f: impl FnOnce() -> (Out, Option<T>)) -> (Out, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            (Out::Panic(m), None)
        }
    }
}
impl Entry {
    pub fn parse(&self, text: &str) -> Out {
        self.parse_held(text).0
    }
    /// Only runs the parser.
    pub fn run_only(&self, text: &str) -> bool {
        catch_unwind(AssertUnwindSafe(|| (self.raw_str)(text).is_ok())).unwrap_or(false)
    }
    pub fn parse_held(&self, text: &str) -> (Out, Option<Boxed>) {
        guard(|| conv(text, (self.raw_str)(text)))
    }
    /// Parses `whole` from byte `at` on, as an already located span.
    pub fn parse_at(&self, whole: &str, at: usize) -> (Out, Option<Boxed>) {
        use nom::Slice;
        guard(|| {
            let sp = Span::new(whole).slice(at..);
            conv(whole, (self.raw)(sp))
        })
    }
    pub fn parse_span(&self, whole: &str, at: usize) -> Out {
        use nom::Slice;
        guard(|| conv(whole, (self.raw_span)(Span::new(whole).slice(at..)))).0
    }
    pub fn parse_func(&self, whole: &str, at: usize) -> Option<Out> {
        use nom::Slice;
        let f = self.func?;
        Some(guard(|| conv(whole, f(Span::new(whole).slice(at..)))).0)
    }
    pub fn has_func(&self) -> bool {
        self.func.is_some()
    }
    /// The convenience that drops the remainder.
    pub fn parse_value(&self, text: &str) -> Out {
        guard(|| match (self.from_str)(text) {
            Ok(v) => (Out::Ok(v.c(), Loc { off: 0, line: 1, col: 1, exact: true }), Some(v)),
            Err(e) => (err(text, &e), None),
        })
        .0
    }
}
fn up<T>(r: ParseResult<T>) -> ParseResult<Boxed>
where
    T: Proj + PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static + crate::views::Views,
{
    r.map(|(s, v)| (s, hold(v)))
}
macro_rules! e {
    ($nt:ident, $t:ty) => {
        Entry {
            id: stringify!($nt),
            nt: NT::$nt,
            raw: |s| up(<$t as Parser>::parse(s)),
            raw_str: |s| up(<$t as Parser>::parse(s)),
            raw_span: |s| up(<$t as Parser>::parse_span(s)),
            from_str: |s| <$t as Parser>::from_str(s).map(|v| hold(v)),
            func: None,
            make: make_like(|s| <$t as Parser>::parse(s)),
        }
    };
    ($nt:ident, $t:ty, $f:ident) => {{
        let mut x = e!($nt, $t);
        x.func = Some(|s| up($f(s)));
        x
    }};
}
macro_rules! comb {
    ($nt:ident, $f:expr) => {
        Entry {
            id: stringify!($nt),
            nt: NT::$nt,
            raw: |s| up($f(s)),
            raw_str: |s| up($f(Span::new(s))),
            raw_span: |s| up($f(s)),
            from_str: |s| $f(Span::new(s)).map(|(_, v)| hold(v)),
            func: None,
            make: make_like($f),
        }
    };
}
/// What `empty_or` and functions without a trait are wrapped as.
pub fn entries() -> Vec<Entry> {
    vec![
        e!(Domain, Domain, parse_domain),
        e!(Problem, Problem, parse_problem),
        e!(RequireDef, Requirements, parse_require_def),
        e!(RequireKey, Requirement, parse_require_key),
        e!(TypesDef, Types, parse_types_def),
        e!(ConstantsDef, Constants, parse_constants_def),
        e!(PredicatesDef, PredicateDefinitions, parse_predicates_def),
        e!(FunctionsDef, Functions, parse_functions_def),
        e!(DomainConstraints, DomainConstraintsDef, parse_domain_constraints_def),
        e!(StructureDef, StructureDef, parse_structure_def),
        e!(ActionDef, ActionDefinition, parse_action_def),
        e!(DaDef, DurativeActionDefinition, parse_da_def),
        e!(Derived, DerivedPredicate, parse_derived_predicate),
        e!(Objects, Objects, parse_problem_objects_declaration),
        e!(Init, InitElements, parse_problem_init_def),
        e!(Goal, GoalDef, parse_problem_goal_def),
        e!(ProblemConstraints, ProblemConstraintsDef, parse_problem_constraints_def),
        e!(Metric, MetricSpec, parse_problem_metric_spec),
        e!(Length, LengthSpec, parse_problem_length_spec),
        e!(Timeless, Timeless, parse_timeless_def),
        e!(InitEl, InitElement, parse_init_el),
        e!(Gd, GoalDefinition, parse_gd),
        e!(PreGd, PreconditionGoalDefinitions, parse_pre_gd),
        e!(PrefGd, PreferenceGD, parse_pref_gd),
        e!(Effect, Effects, parse_effect),
        e!(CEffect, CEffect, parse_c_effect),
        e!(ForallC, ForallCEffect, parse_forall_c_effect),
        e!(WhenC, WhenCEffect, parse_when_c_effect),
        e!(PEffect, PEffect, parse_p_effect),
        e!(CondEffect, ConditionalEffect, parse_cond_effect),
        e!(ConGd, ConGD, parse_con_gd),
        e!(Con2Gd, Con2GD),
        e!(PrefConGd, PrefConGDs, parse_pref_con_gd),
        e!(DaGd, DurativeActionGoalDefinition, parse_da_gd),
        e!(DaEffect, DurativeActionEffect, parse_da_effect),
        e!(TimedGd, TimedGD, parse_timed_gd),
        e!(TimedEffect, TimedEffect, parse_timed_effect),
        e!(PrefTimedGd, PrefTimedGD, parse_pref_timed_gd),
        e!(DurConstraint, DurationConstraint, parse_duration_constraint),
        e!(SimpleDur, SimpleDurationConstraint, parse_simple_duration_constraint),
        e!(DValue, DurationValue, parse_d_value),
        e!(FAssignDa, FAssignDa, parse_f_assign_da),
        e!(FExp, FExp, parse_f_exp),
        e!(FExpDa, FExpDa, parse_f_exp_da),
        e!(FExpT, FExpT, parse_f_exp_t),
        e!(FComp, FComp, parse_f_comp),
        e!(FHead, FHead, parse_f_head),
        e!(FunctionTerm, FunctionTerm, parse_function_term),
        e!(BasicFunctionTerm, BasicFunctionTerm, parse_basic_function_term),
        e!(Term, Term, parse_term),
        e!(MetricFExp, MetricFExp, parse_metric_f_exp),
        e!(FormulaSkeleton, AtomicFormulaSkeleton, parse_atomic_formula_skeleton),
        e!(FunctionSkeleton, AtomicFunctionSkeleton, parse_atomic_function_skeleton),
        e!(Type, Type, parse_type),
        e!(FunctionType, FunctionType, parse_function_type),
        e!(PrimitiveType, PrimitiveType, parse_primitive_type),
        e!(Name, Name, parse_name),
        e!(Variable, Variable, parse_variable),
        e!(Number, Number, parse_number),
        e!(Predicate, Predicate, parse_predicate),
        e!(PrefName, PreferenceName, parse_pref_name),
        e!(ActionSymbol, ActionSymbol, parse_action_symbol),
        e!(DaSymbol, DurativeActionSymbol, parse_da_symbol),
        e!(FunctionSymbol, FunctionSymbol, parse_function_symbol),
        e!(AssignOp, AssignOp, parse_assign_op),
        e!(AssignOpT, AssignOpT, parse_assign_op_t),
        e!(BinaryComp, BinaryComp, parse_binary_comp),
        e!(BinaryOp, BinaryOp, parse_binary_op),
        e!(MultiOp, MultiOp, parse_multi_op),
        e!(DOp, DOp, parse_d_op),
        e!(Interval, Interval, parse_interval),
        e!(Optimization, Optimization, parse_optimization),
        e!(TimeSpecifier, TimeSpecifier, parse_time_specifier),
        comb!(AtomTerm, |s| atomic_formula(parse_term)(s)),
        comb!(AtomName, |s| atomic_formula(parse_name)(s)),
        comb!(LiteralTerm, |s| literal(parse_term)(s)),
        comb!(LiteralName, |s| literal(parse_name)(s)),
        comb!(ListVar, |s| typed_list(parse_variable)(s)),
        comb!(ListName, |s| typed_list(parse_name)(s)),
        comb!(ListFun, |s| function_typed_list(parse_atomic_function_skeleton)(s)),
    ]
}
pub fn entry(nt: NT) -> &'static Entry {
    all().iter().find(|e| e.nt == nt).unwrap()
}
pub fn all() -> &'static [Entry] {
    use std::sync::OnceLock;
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(entries)
}
