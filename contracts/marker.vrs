@note environment markers: meaning as mathematics, and the evaluator
verus! {
pub open spec fn lit(s: &str) -> Seq<char> { s@ }
// the string comparisons used by the evaluator: std's, by code points
pub open spec fn find_at(hay: Seq<char>, pin: Seq<char>, i: int) -> bool { 0 <= i && i + pin.len() <= hay.len() && hay.subrange(i, i + pin.len()) =~= pin }
pub open spec fn contains_sub(hay: Seq<char>, pin: Seq<char>) -> bool { exists|i: int| find_at(hay, pin, i) }
#[verifier::external_body]
pub fn str_contains(h: &str, n: &str) -> (r: bool) ensures r == contains_sub(h@, n@) { h.contains(n) }
#[verifier::external_body]
pub fn str_lt_(a: &str, b: &str) -> (r: bool) ensures r == str_lt(a@, b@) { *a < *b }
#[verifier::external_body]
pub fn str_le_(a: &str, b: &str) -> (r: bool) ensures r == (str_lt(a@, b@) || a@ == b@) { *a <= *b }
#[verifier::external_body]
pub fn str_gt_(a: &str, b: &str) -> (r: bool) ensures r == str_lt(b@, a@) { *a > *b }
#[verifier::external_body]
pub fn str_ge_(a: &str, b: &str) -> (r: bool) ensures r == (str_lt(b@, a@) || a@ == b@) { *a >= *b }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { *a == *b }
#[verifier::external_body]
pub fn to_owned_str(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
// Extra::try_from + normalized: contracts/N01.vrs
pub uninterp spec fn extra_norm(s: Seq<char>) -> Option<Seq<char>>;
pub struct Extra { pub given: String }
impl Extra {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<Extra, Report>) ensures r is Ok <==> extra_norm(s@) is Some, r matches Ok(x) ==> extra_norm(s@) == Some(x.norm()) { unimplemented!() }
    pub uninterp spec fn norm(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn normalized(&self) -> (r: &str) ensures r@ == self.norm() { unimplemented!() }
}
@type src/vocab/requirement.rs | mod:marker/type:Value ;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/requirement.rs | mod:marker/type:Op ;
@type src/vocab/requirement.rs | mod:marker/type:EnvMarkerExpr ;
impl Clone for EnvMarkerExpr {
    // derived Clone
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait Env {
    spec fn var(&self, name: Seq<char>) -> Option<Seq<char>>;
    fn get_marker_var(&self, var: &str) -> (r: Option<&str>)
        ensures r is Some <==> self.var(var@) is Some, r matches Some(s) ==> self.var(var@) == Some(s@);
}
pub type Vars = spec_fn(Seq<char>) -> Option<Seq<char>>;
// ---- PEP 508, environment markers
pub open spec fn value(v: Value, vars: Vars) -> Option<Seq<char>> { match v { Value::Variable(n) => vars(n@), Value::Literal(s) => Some(s@) } }
pub open spec fn names_extra(v: Value) -> bool { v matches Value::Variable(n) && n@ == lit("extra") }
// what is compared with 'extra' is compared in normalized form
pub open spec fn against_extra(other_is_extra: bool, s: Seq<char>) -> Seq<char> { if other_is_extra { match extra_norm(s) { Some(n) => n, None => s } } else { s } }
pub open spec fn compare(op: Op, l: Seq<char>, r: Seq<char>) -> Option<bool> {
    match op {
        Op::In => Some(contains_sub(r, l)),
        Op::NotIn => Some(!contains_sub(r, l)),
        Op::Compare(c) => {
            if spec_parse(l) is Some && spec_rhs(r) is Some && allowed(c, spec_rhs(r)->Some_0.0, spec_rhs(r)->Some_0.1) {
                Some(admits(c, spec_rhs(r)->Some_0.0, spec_rhs(r)->Some_0.1, spec_parse(l)->Some_0))
            } else {
                match c {
                    CompareOp::LessThanEqual => Some(str_lt(l, r) || l == r),
                    CompareOp::StrictlyLessThan => Some(str_lt(l, r)),
                    CompareOp::NotEqual => Some(l != r),
                    CompareOp::Equal => Some(l == r),
                    CompareOp::GreaterThanEqual => Some(str_lt(r, l) || l == r),
                    CompareOp::StrictlyGreaterThan => Some(str_lt(r, l)),
                    CompareOp::Compatible => None,
                }
            }
        }
    }
}
// None: the marker has no meaning there (undefined variable, ~= between texts that are no versions)
pub open spec fn meaning(e: EnvMarkerExpr, vars: Vars) -> Option<bool>
    decreases e
{
    match e {
        EnvMarkerExpr::And(a, b) => match meaning(*a, vars) { Some(true) => meaning(*b, vars), x => x },
        EnvMarkerExpr::Or(a, b) => match meaning(*a, vars) { Some(false) => meaning(*b, vars), x => x },
        EnvMarkerExpr::Operator { op, lhs, rhs } => match (value(lhs, vars), value(rhs, vars)) {
            (Some(l), Some(r)) => compare(op, against_extra(names_extra(rhs), l), against_extra(names_extra(lhs), r)),
            _ => None,
        },
    }
}
// the texts compared hold only version numbers below u32::MAX (contracts/R01.vrs)
pub open spec fn text_small(s: Seq<char>) -> bool { rhs_in_domain(s) && (spec_parse(s) matches Some(v) ==> in_domain(v)) }
pub open spec fn text_ok(s: Seq<char>) -> bool { text_small(s) && (extra_norm(s) matches Some(n) ==> text_small(n)) }
pub open spec fn value_ok(v: Value) -> bool { v matches Value::Literal(s) ==> text_ok(s@) }
pub open spec fn vars_ok(vars: Vars) -> bool { forall|n: Seq<char>| (#[trigger] vars(n)) matches Some(s) ==> text_ok(s) }
pub open spec fn literals_ok(e: EnvMarkerExpr) -> bool
    decreases e
{
    match e {
        EnvMarkerExpr::And(a, b) => literals_ok(*a) && literals_ok(*b),
        EnvMarkerExpr::Or(a, b) => literals_ok(*a) && literals_ok(*b),
        EnvMarkerExpr::Operator { op, lhs, rhs } => value_ok(lhs) && value_ok(rhs),
    }
}
impl Value {
@fn src/vocab/requirement.rs | mod:marker/Value/fn:eval
@sub? `.ok_or_else($c)` => `.ok_or(verr())`
@sub? `Ok(s)` => `Ok(s.as_str())`
@params self env
@sig pub fn eval<'a, E: Env>(&'a self, env: &'a E) -> (r: Result<&'a str, Report>)
    ensures
        r is Ok <==> value(*self, |n: Seq<char>| env.var(n)) is Some,
        r matches Ok(s) ==> value(*self, |n: Seq<char>| env.var(n)) == Some(s@),
@endfn
@fn src/vocab/requirement.rs | mod:marker/Value/fn:is_extra
@sub? `varname == $s` => `str_eq(varname.as_str(), $s)`
@params self
@sig pub fn is_extra(&self) -> (r: bool) ensures r == names_extra(*self)
@endfn
}
impl EnvMarkerExpr {
@fn src/vocab/requirement.rs | mod:marker/EnvMarkerExpr/fn:eval
@sub? `extra.normalized().to_string()` => `to_owned_str(extra.normalized())`
@sub? `rhs_val.contains(lhs_val)` => `str_contains(rhs_val, lhs_val)`
@sub? `lhs_val.contains(rhs_val)` => `str_contains(lhs_val, rhs_val)`
@sub? `lhs_val.parse()` => `parse_version(lhs_val)`
@sub? `rhs_ranges.into_iter().any(|$r| $r.contains(&$v))` => `any_contains(rhs_ranges, &$v)`
@sub? `use CompareOp::*;` => ``
@sub? `LessThanEqual => lhs_val <= rhs_val` => `CompareOp::LessThanEqual => str_le_(lhs_val, rhs_val)`
@sub? `StrictlyLessThan => lhs_val < rhs_val` => `CompareOp::StrictlyLessThan => str_lt_(lhs_val, rhs_val)`
@sub? `NotEqual => lhs_val != rhs_val` => `CompareOp::NotEqual => !str_eq(lhs_val, rhs_val)`
@sub? `Equal => lhs_val == rhs_val` => `CompareOp::Equal => str_eq(lhs_val, rhs_val)`
@sub? `GreaterThanEqual => lhs_val >= rhs_val` => `CompareOp::GreaterThanEqual => str_ge_(lhs_val, rhs_val)`
@sub? `StrictlyGreaterThan => lhs_val > rhs_val` => `CompareOp::StrictlyGreaterThan => str_gt_(lhs_val, rhs_val)`
@sub? `Compatible => { $B }` => `CompareOp::Compatible => { $B }`
@params self env
@sig pub fn eval<E: Env>(&self, env: &E) -> (r: Result<bool, Report>)
    requires literals_ok(*self), vars_ok(|n: Seq<char>| env.var(n))
    ensures
        r is Ok <==> meaning(*self, |n: Seq<char>| env.var(n)) is Some,
        r matches Ok(b) ==> meaning(*self, |n: Seq<char>| env.var(n)) == Some(b),
    decreases *self
@endfn
}
}
