@note taking 'extra' out of a marker
verus! {
#[verifier::external_body]
pub fn or_else_str<'a>(o: Option<&'a str>, d: Option<&'a str>) -> (r: Option<&'a str>) ensures r == (if o is Some { o } else { d }) { o.or(d) }
pub open spec fn extra_value(x: Option<Seq<char>>) -> Seq<char> { match x { Some(s) => s, None => lit("") } }
pub open spec fn opt_view(x: Option<&str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
// an environment that defines nothing but 'extra'
pub open spec fn only_extra(x: Option<Seq<char>>) -> Vars { |n: Seq<char>| if n == lit("extra") { Some(extra_value(x)) } else { None } }
// an environment with 'extra' set
pub open spec fn with_extra(vars: Vars, x: Option<Seq<char>>) -> Vars { |n: Seq<char>| if n == lit("extra") { Some(extra_value(x)) } else { vars(n) } }
pub open spec fn mentions_extra(e: EnvMarkerExpr) -> bool
    decreases e
{
    match e {
        EnvMarkerExpr::And(a, b) => mentions_extra(*a) || mentions_extra(*b),
        EnvMarkerExpr::Or(a, b) => mentions_extra(*a) || mentions_extra(*b),
        EnvMarkerExpr::Operator { op, lhs, rhs } => names_extra(lhs) || names_extra(rhs),
    }
}
// a comparison of 'extra' with something that is not known from 'extra' alone
pub open spec fn inseparable(e: EnvMarkerExpr, x: Option<Seq<char>>) -> bool
    decreases e
{
    match e {
        EnvMarkerExpr::And(a, b) => inseparable(*a, x) || inseparable(*b, x),
        EnvMarkerExpr::Or(a, b) => inseparable(*a, x) || inseparable(*b, x),
        EnvMarkerExpr::Operator { op, lhs, rhs } => (names_extra(lhs) || names_extra(rhs)) && meaning(e, only_extra(x)) is None,
    }
}
@type src/resolve.rs | type:ExtraEnv ;
impl<'a> Env for ExtraEnv<'a> {
    open spec fn var(&self, name: Seq<char>) -> Option<Seq<char>> { only_extra(opt_view(self.extra))(name) }
@fn src/resolve.rs | marker::Env for ExtraEnv/fn:get_marker_var
@sub? `var == $s` => `str_eq(var, $s)`
@sub? `self.extra.or($b)` => `or_else_str(self.extra, $b)`
@params self var
@sig fn get_marker_var(&self, var: &str) -> (r: Option<&str>)
@endfn
}
@type src/resolve.rs | type:Simplified
@sub? `marker::EnvMarkerExpr` => `EnvMarkerExpr`
@end
impl Simplified {
    pub open spec fn means(&self, vars: Vars) -> Option<bool> { match *self { Simplified::True => Some(true), Simplified::False => Some(false), Simplified::Expr(e) => meaning(e, vars) } }
    pub open spec fn free(&self) -> bool { *self matches Simplified::Expr(e) ==> !mentions_extra(e) }
    pub open spec fn ok(&self) -> bool { *self matches Simplified::Expr(e) ==> literals_ok(e) }
@fn src/resolve.rs | Simplified/fn:eval
@params self env
@sig pub fn eval<E: Env>(&self, env: &E) -> (r: Result<bool, Report>)
    requires self.ok(), vars_ok(|n: Seq<char>| env.var(n))
    ensures
        r is Ok <==> self.means(|n: Seq<char>| env.var(n)) is Some,
        r matches Ok(b) ==> self.means(|n: Seq<char>| env.var(n)) == Some(b),
@endfn
}
@fn src/resolve.rs | fn:simplify_out_extra
@sub? `marker::EnvMarkerExpr` => `EnvMarkerExpr`
@params expr extra
@sig pub fn simplify_out_extra(expr: &EnvMarkerExpr, extra: Option<&str>) -> (r: Result<Simplified, Report>)
    requires literals_ok(*expr), vars_ok(only_extra(opt_view(extra)))
    ensures
        r is Err <==> inseparable(*expr, opt_view(extra)),
        r matches Ok(s) ==> s.free() && s.ok(),
        // the same truth value in every environment where the marker has one
        r matches Ok(s) ==> forall|vars: Vars| (#[trigger] meaning(*expr, with_extra(vars, opt_view(extra)))) is Some ==> s.means(vars) == meaning(*expr, with_extra(vars, opt_view(extra))),
    decreases *expr
@at start
proof {
    let x = opt_view(extra);
    let ee = ExtraEnv { extra };
    assert((|n: Seq<char>| ee.var(n)) =~= only_extra(x));
    assert forall|vars: Vars| !mentions_extra(*expr) implies #[trigger] meaning(*expr, with_extra(vars, x)) == meaning(*expr, vars) by { lemma_no_extra(*expr, vars, x); }
    match expr {
        EnvMarkerExpr::Operator { op, lhs, rhs } => {
            assert forall|vars: Vars| meaning(*expr, only_extra(x)) is Some implies #[trigger] meaning(*expr, with_extra(vars, x)) == meaning(*expr, only_extra(x)) by {}
        }
        EnvMarkerExpr::And(a, b) => {
            assert forall|vars: Vars| true implies #[trigger] meaning(*expr, with_extra(vars, x)) == (match meaning(**a, with_extra(vars, x)) { Some(true) => meaning(**b, with_extra(vars, x)), y => y }) by {}
        }
        EnvMarkerExpr::Or(a, b) => {
            assert forall|vars: Vars| true implies #[trigger] meaning(*expr, with_extra(vars, x)) == (match meaning(**a, with_extra(vars, x)) { Some(false) => meaning(**b, with_extra(vars, x)), y => y }) by {}
        }
    }
}
@endfn
pub proof fn lemma_no_extra(e: EnvMarkerExpr, vars: Vars, x: Option<Seq<char>>)
    requires !mentions_extra(e)
    ensures meaning(e, with_extra(vars, x)) == meaning(e, vars)
    decreases e
{
    match e {
        EnvMarkerExpr::And(a, b) => { lemma_no_extra(*a, vars, x); lemma_no_extra(*b, vars, x); }
        EnvMarkerExpr::Or(a, b) => { lemma_no_extra(*a, vars, x); lemma_no_extra(*b, vars, x); }
        _ => {}
    }
}
}
