@include contracts/common.vrs
@include contracts/fmt.vrs
@include contracts/names_spec.vrs
@include contracts/peg.vrs
@note requirement texts: PEP 508 as a reading of texts, and how posy prints what it read
verus! {
@type src/vocab/package_name.rs | type:PackageName ;
@type src/vocab/extra.rs | type:Extra ;
@type src/vocab/requirement.rs | mod:marker/type:Value ;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/requirement.rs | mod:marker/type:Op ;
@type src/vocab/requirement.rs | mod:marker/type:EnvMarkerExpr ;
pub mod marker { pub use super::{Value, Op, EnvMarkerExpr}; }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/specifier.rs | type:CompareOp ;
@type src/vocab/specifier.rs | type:Specifier ;
@type src/vocab/specifier.rs | type:Specifiers ;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/requirement.rs | type:ParseExtra ;
@type src/vocab/requirement.rs | type:Requirement ;
@type src/vocab/requirement.rs | type:PackageRequirement ;
@type src/vocab/requirement.rs | type:UserRequirement ;
@type src/vocab/requirement.rs | type:PythonRequirement ;
@type src/vocab/requirement.rs | type:StandaloneMarkerExpr ;

// ---- what a requirement says
pub enum V { Var(S), Lit(S) }
pub enum M { And(Box<M>, Box<M>), Or(Box<M>, Box<M>), Oper(Op, V, V) }
pub struct Q { pub name: S, pub extras: Seq<S>, pub specs: Seq<(CompareOp, S)>, pub marker: Option<M> }

// ---- PEP 508: reading a text from its start; what was read and what is left
pub open spec fn after(s: S, t: S) -> Option<S> { if starts(s, t) { Some(s.skip(t.len() as int)) } else { None } }
pub open spec fn or(a: Option<(S, S)>, b: Option<(S, S)>) -> Option<(S, S)> { if a is Some { a } else { b } }
pub open spec fn word_(s: S, t: S, other: Option<(S, S)>) -> Option<(S, S)> { if starts(s, t) { Some((t, s.skip(t.len() as int))) } else { other } }
pub enum Kind { Blank, Version, Name, Single, Double }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn str_char(c: char) -> bool {
    blank(c) || alnum(c) || c == '(' || c == ')' || c == '.' || c == '{' || c == '}' || c == '-' || c == '_' || c == '*' || c == '#' || c == ':' || c == ';' || c == ','
    || c == '/' || c == '?' || c == '[' || c == ']' || c == '!' || c == '~' || c == '`' || c == '@' || c == '$' || c == '%' || c == '^' || c == '&' || c == '=' || c == '+' || c == '|' || c == '<' || c == '>'
}
pub open spec fn of(k: Kind, c: char) -> bool {
    match k {
        Kind::Blank => blank(c),
        Kind::Version => alnum(c) || c == '-' || c == '_' || c == '.' || c == '*' || c == '+' || c == '!',
        Kind::Name => alnum(c) || sep(c),
        Kind::Single => str_char(c) || c == '"',
        Kind::Double => str_char(c) || c == '\'',
    }
}
// as many characters of a kind as there are
pub open spec fn span(k: Kind, s: S) -> int decreases s.len() { if s.len() > 0 && of(k, s[0]) { 1 + span(k, s.skip(1)) } else { 0 } }
pub open spec fn past(k: Kind, s: S) -> S { s.skip(span(k, s)) }
pub open spec fn ws(s: S) -> S { past(Kind::Blank, s) }
// version_cmp
pub open spec fn p_cmp(s: S) -> Option<(S, S)> {
    word_(s, "<="@, word_(s, "<"@, word_(s, "!="@, word_(s, "=="@, word_(s, ">="@, word_(s, ">"@, word_(s, "~="@, None)))))))
}
pub open spec fn cmp_of(t: S) -> Option<CompareOp> {
    if t == "=="@ { Some(CompareOp::Equal) } else if t == "!="@ { Some(CompareOp::NotEqual) } else if t == "<="@ { Some(CompareOp::LessThanEqual) } else if t == "<"@ { Some(CompareOp::StrictlyLessThan) }
    else if t == ">="@ { Some(CompareOp::GreaterThanEqual) } else if t == ">"@ { Some(CompareOp::StrictlyGreaterThan) } else if t == "~="@ { Some(CompareOp::Compatible) } else { None }
}
pub open spec fn p_version(s: S) -> Option<(S, S)> { let n = span(Kind::Version, s); if n > 0 { Some((s.take(n), s.skip(n))) } else { None } }
pub open spec fn p_spec(s: S) -> Option<((CompareOp, S), S)> {
    match p_cmp(ws(s)) { Some((o, r)) => match p_version(ws(r)) { Some((v, r2)) => match cmp_of(o) { Some(c) => Some(((c, v), r2)), None => None }, None => None }, None => None }
}
pub open spec fn more_specs(s: S) -> (Seq<(CompareOp, S)>, S) decreases s.len() {
    match after(ws(s), ","@) {
        Some(t) => match p_spec(t) { Some((x, r)) => if r.len() < s.len() { (seq![x] + more_specs(r).0, more_specs(r).1) } else { (seq![], s) }, None => (seq![], s) },
        None => (seq![], s),
    }
}
pub open spec fn p_list(s: S) -> Option<(Seq<(CompareOp, S)>, S)> { match p_spec(s) { Some((x, r)) => Some((seq![x] + more_specs(r).0, more_specs(r).1)), None => None } }
pub open spec fn p_in_parens(s: S) -> Option<(Seq<(CompareOp, S)>, S)> {
    match after(s, "("@) { Some(t) => match p_list(t) { Some((l, r)) => match after(r, ")"@) { Some(r2) => Some((l, r2)), None => None }, None => None }, None => None }
}
pub open spec fn p_specs(s: S) -> Option<(Seq<(CompareOp, S)>, S)> { if p_in_parens(s) is Some { p_in_parens(s) } else { p_list(s) } }
// markers
pub open spec fn p_not_in(s: S) -> Option<(S, S)> { match after(s, "not"@) { Some(r) => if span(Kind::Blank, r) > 0 { match after(ws(r), "in"@) { Some(r2) => Some(("not in"@, r2)), None => None } } else { None }, None => None } }
pub open spec fn p_op(s: S) -> Option<(S, S)> { or(p_cmp(ws(s)), word_(ws(s), "in"@, p_not_in(ws(s)))) }
pub open spec fn op_of(t: S) -> Option<Op> {
    if t == "in"@ { Some(Op::In) } else if t == "not in"@ { Some(Op::NotIn) } else { match cmp_of(t) { Some(c) => Some(Op::Compare(c)), None => None } }
}
pub open spec fn p_quote(s: S, q: S, k: Kind) -> Option<(S, S)> { match after(s, q) { Some(r) => match after(past(k, r), q) { Some(r2) => Some((r.take(span(k, r)), r2)), None => None }, None => None } }
pub open spec fn p_str(s: S) -> Option<(S, S)> { or(p_quote(s, "'"@, Kind::Single), p_quote(s, "\""@, Kind::Double)) }
pub open spec fn p_var(s: S) -> Option<(S, S)> {
    word_(s, "python_version"@, word_(s, "python_full_version"@, word_(s, "os_name"@, word_(s, "sys_platform"@, word_(s, "platform_release"@, word_(s, "platform_system"@,
    word_(s, "platform_version"@, word_(s, "platform_machine"@, word_(s, "platform_python_implementation"@, word_(s, "implementation_name"@, word_(s, "implementation_version"@, word_(s, "extra"@, None))))))))))))
}
// PEP 345's spelling of the same variables
pub open spec fn p_old(s: S) -> Option<(S, S)> {
    word_(s, "os.name"@, word_(s, "sys.platform"@, word_(s, "platform.version"@, word_(s, "platform.machine"@, word_(s, "platform.python_implementation"@, None)))))
}
pub open spec fn undot(s: S) -> S { s.map_values(|c: char| if c == '.' { '_' } else { c }) }
pub open spec fn as_var(p: Option<(S, S)>) -> Option<(V, S)> { match p { Some((t, r)) => Some((V::Var(t), r)), None => None } }
pub open spec fn p_value_(s: S, x: bool) -> Option<(V, S)> {
    if p_var(s) is Some && (x || p_var(s)->Some_0.0 != "extra"@) { as_var(p_var(s)) }
    else if p_old(s) is Some { Some((V::Var(undot(p_old(s)->Some_0.0)), p_old(s)->Some_0.1)) }
    else if starts(s, "python_implementation"@) { Some((V::Var("platform_python_implementation"@), s.skip("python_implementation"@.len() as int))) }
    else { match p_str(s) { Some((t, r)) => Some((V::Lit(t), r)), None => None } }
}
pub open spec fn p_value(s: S, x: bool) -> Option<(V, S)> { p_value_(ws(s), x) }
pub open spec fn p_compare(s: S, x: bool) -> Option<(M, S)> {
    match p_value(s, x) { Some((l, r)) => match p_op(r) { Some((o, r2)) => match p_value(r2, x) { Some((v, r3)) => match op_of(o) { Some(c) => Some((M::Oper(c, l, v), r3)), None => None }, None => None }, None => None }, None => None }
}
pub open spec fn p_paren(s: S, x: bool) -> Option<(M, S)> decreases s.len(), 0int {
    match after(ws(s), "("@) {
        Some(t) => if t.len() < s.len() { match p_or(t, x) { Some((m, r)) => match after(ws(r), ")"@) { Some(r2) => Some((m, r2)), None => None }, None => None } } else { None },
        None => None,
    }
}
pub open spec fn p_one(s: S, x: bool) -> Option<(M, S)> decreases s.len(), 1int { if p_paren(s, x) is Some { p_paren(s, x) } else { p_compare(s, x) } }
// 'and' binds tighter than 'or'
pub open spec fn p_and(s: S, x: bool) -> Option<(M, S)> decreases s.len(), 2int {
    match p_one(s, x) {
        Some((l, r)) => match after(ws(r), "and"@) {
            Some(t) => if ws(t).len() < s.len() { match p_and(ws(t), x) { Some((m, r2)) => Some((M::And(Box::new(l), Box::new(m)), r2)), None => Some((l, r)) } } else { Some((l, r)) },
            None => Some((l, r)),
        },
        None => None,
    }
}
pub open spec fn p_or(s: S, x: bool) -> Option<(M, S)> decreases s.len(), 3int {
    match p_and(s, x) {
        Some((l, r)) => match after(ws(r), "or"@) {
            Some(t) => if ws(t).len() < s.len() { match p_or(ws(t), x) { Some((m, r2)) => Some((M::Or(Box::new(l), Box::new(m)), r2)), None => Some((l, r)) } } else { Some((l, r)) },
            None => Some((l, r)),
        },
        None => None,
    }
}
pub open spec fn p_marker(s: S, x: bool) -> Option<(M, S)> { match after(s, ";"@) { Some(r) => p_or(ws(r), x), None => None } }
// names
pub open spec fn p_ident(s: S) -> Option<(S, S)> { if s.len() > 0 && alnum(s[0]) { let n = 1 + span(Kind::Name, s.skip(1)); Some((s.take(n), s.skip(n))) } else { None } }
pub open spec fn p_name(s: S) -> Option<(S, S)> { match p_ident(s) { Some((n, r)) => if project_name(n) { Some((n, r)) } else { None }, None => None } }
pub open spec fn more_names(s: S) -> (Seq<S>, S) decreases s.len() {
    match after(ws(s), ","@) {
        Some(t) => match p_name(ws(t)) { Some((n, r)) => if r.len() < s.len() { (seq![n] + more_names(r).0, more_names(r).1) } else { (seq![], s) }, None => (seq![], s) },
        None => (seq![], s),
    }
}
pub open spec fn p_names(s: S) -> (Seq<S>, S) { match p_name(s) { Some((n, r)) => (seq![n] + more_names(r).0, more_names(r).1), None => (seq![], s) } }
pub open spec fn p_extras(s: S) -> Option<(Seq<S>, S)> {
    match after(s, "["@) { Some(t) => match after(ws(p_names(ws(t)).1), "]"@) { Some(r) => Some((p_names(ws(t)).0, r)), None => None }, None => None }
}
// the whole requirement; a URL in place of the versions is refused
pub open spec fn opt_extras(s: S) -> (Seq<S>, S) { match p_extras(s) { Some(e) => e, None => (seq![], s) } }
pub open spec fn opt_specs(s: S) -> (Seq<(CompareOp, S)>, S) { match p_specs(s) { Some(e) => e, None => (seq![], s) } }
pub open spec fn opt_marker(s: S, x: bool) -> (Option<M>, S) { match p_marker(s, x) { Some((m, r)) => (Some(m), r), None => (None, s) } }
pub open spec fn p_req(s: S, x: bool) -> Option<(Q, S)> {
    match p_name(s) {
        Some((name, r)) => {
            let e = opt_extras(ws(r));
            let v = opt_specs(ws(e.1));
            let m = opt_marker(ws(v.1), x);
            Some((Q { name, extras: e.0, specs: v.0, marker: m.0 }, m.1))
        }
        None => None,
    }
}
pub open spec fn all_of<T>(p: Option<(T, S)>) -> Option<T> { match p { Some((v, r)) => if r.len() == 0 { Some(v) } else { None }, None => None } }
pub open spec fn read_req(s: S, x: bool) -> Option<Q> { match p_req(ws(s), x) { Some((q, r)) => if ws(r).len() == 0 { Some(q) } else { None }, None => None } }
pub open spec fn read_marker(s: S) -> Option<M> { all_of(p_or(s, false)) }
// a list of versions with nothing in it is blank
pub uninterp spec fn wider_white(c: char) -> bool;
pub open spec fn white(c: char) -> bool { c == ' ' || ('\t' <= c && c <= '\r') || (c > '\u{7f}' && wider_white(c)) }
pub open spec fn nothing(s: S) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) }
pub open spec fn read_specs(s: S) -> Option<Seq<(CompareOp, S)>> { if nothing(s) { Some(seq![]) } else { all_of(p_specs(s)) } }

// ---- printing
pub open spec fn t_value(v: V) -> S { match v { V::Var(n) => n, V::Lit(t) => if t.contains('"') { "'"@ + t + "'"@ } else { "\""@ + t + "\""@ } } }
pub open spec fn t_cmp(c: CompareOp) -> S {
    match c { CompareOp::LessThanEqual => "<="@, CompareOp::StrictlyLessThan => "<"@, CompareOp::NotEqual => "!="@, CompareOp::Equal => "=="@, CompareOp::GreaterThanEqual => ">="@, CompareOp::StrictlyGreaterThan => ">"@, CompareOp::Compatible => "~="@ }
}
pub open spec fn t_op(o: Op) -> S { match o { Op::Compare(c) => t_cmp(c), Op::In => "in"@, Op::NotIn => "not in"@ } }
pub open spec fn t_marker(m: M) -> S decreases m {
    match m {
        M::And(a, b) => "("@ + t_marker(*a) + " and "@ + t_marker(*b) + ")"@,
        M::Or(a, b) => "("@ + t_marker(*a) + " or "@ + t_marker(*b) + ")"@,
        M::Oper(o, l, r) => t_value(l) + " "@ + t_op(o) + " "@ + t_value(r),
    }
}
pub open spec fn t_spec(x: (CompareOp, S)) -> S { t_cmp(x.0) + " "@ + x.1 }
pub open spec fn t_specs(v: Seq<(CompareOp, S)>) -> S decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { t_spec(v[0]) } else { t_specs(v.drop_last()) + ", "@ + t_spec(v.last()) } }
pub open spec fn t_names(v: Seq<S>) -> S decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { t_names(v.drop_last()) + ","@ + v.last() } }
pub open spec fn t_req(q: Q) -> S {
    q.name + (if q.extras.len() > 0 { "["@ + t_names(q.extras) + "]"@ } else { seq![] }) + (if q.specs.len() > 0 { " "@ + t_specs(q.specs) } else { seq![] })
    + (match q.marker { Some(m) => "; "@ + t_marker(m), None => seq![] })
}

// ---- the meaning of the values the code builds
pub trait Says { type M; spec fn m(&self) -> Self::M; }
impl Says for () { type M = (); open spec fn m(&self) -> () { () } }
impl<'a> Says for &'a str { type M = S; open spec fn m(&self) -> S { self@ } }
impl Says for PackageName { type M = S; open spec fn m(&self) -> S { self.as_given@ } }
impl Says for Extra { type M = S; open spec fn m(&self) -> S { self.0.as_given@ } }
impl Says for Value { type M = V; open spec fn m(&self) -> V { match *self { Value::Variable(n) => V::Var(n@), Value::Literal(t) => V::Lit(t@) } } }
pub open spec fn expr(e: EnvMarkerExpr) -> M decreases e {
    match e { EnvMarkerExpr::And(a, b) => M::And(Box::new(expr(*a)), Box::new(expr(*b))), EnvMarkerExpr::Or(a, b) => M::Or(Box::new(expr(*a)), Box::new(expr(*b))), EnvMarkerExpr::Operator { op, lhs, rhs } => M::Oper(op, lhs.m(), rhs.m()) }
}
impl Says for EnvMarkerExpr { type M = M; open spec fn m(&self) -> M { expr(*self) } }
impl Says for Option<EnvMarkerExpr> { type M = Option<M>; open spec fn m(&self) -> Option<M> { match *self { Some(e) => Some(expr(e)), None => None } } }
impl Says for Specifier { type M = (CompareOp, S); open spec fn m(&self) -> (CompareOp, S) { (self.op, self.value@) } }
pub open spec fn spec_list(v: Seq<Specifier>) -> Seq<(CompareOp, S)> { v.map_values(|x: Specifier| (x.op, x.value@)) }
impl Says for Specifiers { type M = Seq<(CompareOp, S)>; open spec fn m(&self) -> Seq<(CompareOp, S)> { spec_list(self.0@) } }
pub open spec fn extra_list(v: Seq<Extra>) -> Seq<S> { v.map_values(|x: Extra| x.0.as_given@) }
impl Says for Vec<Extra> { type M = Seq<S>; open spec fn m(&self) -> Seq<S> { extra_list(self@) } }
pub open spec fn req(r: Requirement) -> Q { Q { name: r.name.as_given@, extras: extra_list(r.extras@), specs: spec_list(r.specifiers.0@), marker: match r.env_marker_expr { Some(e) => Some(expr(e)), None => None } } }
impl Says for Requirement { type M = Q; open spec fn m(&self) -> Q { req(*self) } }
pub open spec fn gives<T: Says>(r: Option<(T, usize)>, input: S, pos: usize, want: Option<(T::M, S)>) -> bool {
    match r { Some((v, q)) => pos <= q <= input.len() && want == Some((v.m(), input.skip(q as int))), None => want is None }
}
pub open spec fn allowed(x: ParseExtra) -> bool { x == ParseExtra::Allowed }

// PackageName::try_from, Extra::try_from: contracts/N01.vrs
impl PackageName {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<PackageName, Report>) ensures r is Ok <==> project_name(s@), r matches Ok(n) ==> n.as_given@ == s@ { unimplemented!() }
@fn src/vocab/package_name.rs | PackageName/fn:as_given
@sub? `&self.as_given` => `self.as_given.as_str()`
@sub? `&self.normalized` => `self.normalized.as_str()`
@sig pub fn as_given(&self) -> (r: &str) ensures r@ == self.as_given@
@endfn
@fn src/vocab/package_name.rs | PackageName/fn:normalized
@sub? `&self.as_given` => `self.as_given.as_str()`
@sub? `&self.normalized` => `self.normalized.as_str()`
@sig pub fn normalized(&self) -> (r: &str) ensures r@ == self.normalized@
@endfn
}
impl Extra {
    #[verifier::external_body]
    pub fn try_from(s: &str) -> (r: Result<Extra, Report>) ensures r is Ok <==> project_name(s@), r matches Ok(n) ==> n.0.as_given@ == s@ { unimplemented!() }
@fn src/vocab/extra.rs | Extra/fn:as_given
@sig pub fn as_given(&self) -> (r: &str) ensures r@ == self.0.as_given@
@endfn
}
#[verifier::external_body]
pub fn undotted(s: &str) -> (r: String) ensures r@ == undot(s@) { unimplemented!() }
pub proof fn lemma_span(k: Kind, s: S) ensures 0 <= span(k, s) <= s.len(), forall|i: int| 0 <= i < span(k, s) ==> of(k, #[trigger] s[i]) decreases s.len()
{ if s.len() > 0 && of(k, s[0]) { lemma_span(k, s.skip(1)); assert forall|i: int| 0 <= i < span(k, s) implies of(k, #[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } } }
// one more character of a kind
pub proof fn lemma_step(k: Kind, s: S) requires s.len() > 0, of(k, s[0]) ensures span(k, s) == 1 + span(k, s.skip(1)) {}

pub fn or_text<T>(a: Result<T, Report>, m: &'static str) -> (r: Result<T, &'static str>) ensures a is Ok <==> r is Ok, r matches Ok(v) ==> a == Ok::<T, Report>(v) { match a { Ok(v) => Ok(v), Err(_) => Err(m) } }
// '===' begins with '==', which is tried before it, and no version begins with '='
pub proof fn lemma_equals(s: S) requires starts(s, "==="@) ensures starts(s, "=="@)
{ reveal_strlit("==="); reveal_strlit("=="); assert(s.take(2) =~= s.take(3).take(2)); assert("==="@.take(2) =~= "=="@); }
pub proof fn lemma_no_triple() ensures cmp_of("==="@) is None
{
    reveal_strlit("==="); reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<="); reveal_strlit("<"); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~=");
    assert("==="@.len() == 3);
}
pub proof fn lemma_operators()
    ensures
        cmp_of("<="@) == Some(CompareOp::LessThanEqual), cmp_of("<"@) == Some(CompareOp::StrictlyLessThan), cmp_of("!="@) == Some(CompareOp::NotEqual), cmp_of("=="@) == Some(CompareOp::Equal),
        cmp_of(">="@) == Some(CompareOp::GreaterThanEqual), cmp_of(">"@) == Some(CompareOp::StrictlyGreaterThan), cmp_of("~="@) == Some(CompareOp::Compatible),
        cmp_of("in"@) is None, cmp_of("not in"@) is None, "in"@ != "not in"@,
{
    reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<="); reveal_strlit("<"); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~="); reveal_strlit("in"); reveal_strlit("not in");
    assert("<"@.len() == 1 && ">"@.len() == 1 && "in"@.len() == 2 && "not in"@.len() == 6 && "=="@.len() == 2 && "<="@.len() == 2 && ">="@.len() == 2 && "!="@.len() == 2 && "~="@.len() == 2);
    assert("<"@[0] == '<' && ">"@[0] == '>');
    assert("<="@[0] == '<' && "<="@[1] == '=' && "!="@[0] == '!' && "=="@[0] == '=' && ">="@[0] == '>' && "~="@[0] == '~' && "in"@[0] == 'i');
}
pub proof fn lemma_cmps(s: S) ensures p_cmp(s) matches Some((o, _)) ==> cmp_of(o) is Some {}
pub proof fn lemma_ops(s: S) ensures p_op(s) matches Some((o, _)) ==> op_of(o) is Some {}
// a literal of one character
pub proof fn lemma_one_char(s: S, t: S, c: char) requires t == seq![c] ensures starts(s, t) <==> s.len() > 0 && s[0] == c
{ if s.len() > 0 { if s[0] == c { assert(s.take(1) =~= t); } else if starts(s, t) { assert(s.take(1)[0] == t[0]); } } }
pub proof fn lemma_single(s: S)
    ensures starts(s, "-"@) <==> s.len() > 0 && s[0] == '-', starts(s, "_"@) <==> s.len() > 0 && s[0] == '_', starts(s, "."@) <==> s.len() > 0 && s[0] == '.', starts(s, "*"@) <==> s.len() > 0 && s[0] == '*',
        starts(s, "+"@) <==> s.len() > 0 && s[0] == '+', starts(s, "!"@) <==> s.len() > 0 && s[0] == '!', "-"@.len() == 1, "_"@.len() == 1, "."@.len() == 1, "*"@.len() == 1, "+"@.len() == 1, "!"@.len() == 1
{
    reveal_strlit("-"); reveal_strlit("_"); reveal_strlit("."); reveal_strlit("*"); reveal_strlit("+"); reveal_strlit("!");
    assert("-"@ =~= seq!['-']); assert("_"@ =~= seq!['_']); assert("."@ =~= seq!['.']); assert("*"@ =~= seq!['*']); assert("+"@ =~= seq!['+']); assert("!"@ =~= seq!['!']);
    lemma_one_char(s, "-"@, '-'); lemma_one_char(s, "_"@, '_'); lemma_one_char(s, "."@, '.'); lemma_one_char(s, "*"@, '*'); lemma_one_char(s, "+"@, '+'); lemma_one_char(s, "!"@, '!');
}
pub proof fn lemma_quotes(s: S) ensures starts(s, "'"@) <==> s.len() > 0 && s[0] == '\'', starts(s, "\""@) <==> s.len() > 0 && s[0] == '"', "'"@.len() == 1, "\""@.len() == 1
{ reveal_strlit("'"); reveal_strlit("\""); assert("'"@ =~= seq!['\'']); assert("\""@ =~= seq!['"']); lemma_one_char(s, "'"@, '\''); lemma_one_char(s, "\""@, '"'); }

pub proof fn lemma_specs(v: Seq<(CompareOp, S)>, k: int) requires 0 <= k < v.len() ensures t_specs(v.take(k + 1)) == (if k == 0 { t_spec(v[0]) } else { t_specs(v.take(k)) + ", "@ + t_spec(v[k]) })
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); }
pub proof fn lemma_names(v: Seq<S>, k: int) requires 0 <= k < v.len() ensures t_names(v.take(k + 1)) == (if k == 0 { v[0] } else { t_names(v.take(k)) + ","@ + v[k] })
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); }
// what `{}` and to_string() print is what the type's own Display (under contract below) writes
impl Shown for CompareOp { open spec fn shown(&self) -> S { t_cmp(*self) } }
impl Shown for Value { open spec fn shown(&self) -> S { t_value(self.m()) } }
impl Shown for EnvMarkerExpr { open spec fn shown(&self) -> S { t_marker(expr(*self)) } }
impl Shown for Box<EnvMarkerExpr> { open spec fn shown(&self) -> S { t_marker(expr(**self)) } }
impl Shown for Specifier { open spec fn shown(&self) -> S { t_spec(self.m()) } }
impl Shown for Specifiers { open spec fn shown(&self) -> S { t_specs(self.m()) } }
#[verifier::external_body]
pub fn printed<T: Shown>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn has_char(s: &String, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
pub struct Out { pub s: Ghost<Seq<char>> }
impl Out {
    pub open spec fn v(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body]
    pub fn put(&mut self, t: String) -> (r: Result<(), Report>) ensures r is Ok ==> final(self).v() == old(self).v() + t@ { unimplemented!() }
}

// ---- the grammar's rules
@fn peg:src/vocab/reqparse.rs | fn:rule_wsp
@params input pos
@sig pub fn rule_wsp(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => q == pos + 1 && q <= input@.len() && blank(input@.skip(pos as int)[0]) && input@.skip(q as int) == input@.skip(pos as int).skip(1), None => input@.skip(pos as int).len() == 0 || !blank(input@.skip(pos as int)[0]) }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_letter_or_digit
@params input pos
@sig pub fn rule_letter_or_digit(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => q == pos + 1 && q <= input@.len() && alnum(input@.skip(pos as int)[0]) && input@.skip(q as int) == input@.skip(pos as int).skip(1), None => input@.skip(pos as int).len() == 0 || !alnum(input@.skip(pos as int)[0]) }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule__
@params input pos
@sig pub fn rule__(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures r is Some, pos <= r->Some_0.1 <= input@.len(), input@.skip(r->Some_0.1 as int) == ws(input@.skip(pos as int)), r->Some_0.1 - pos == span(Kind::Blank, input@.skip(pos as int))
@loop 1
    invariant
        pos <= q1 <= input@.len(), pos <= input@.len(),
        span(Kind::Blank, input@.skip(pos as int)) == q1 - pos + span(Kind::Blank, input@.skip(q1 as int)),
        more1 || span(Kind::Blank, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_version_cmp
@params input pos
@sig pub fn rule_version_cmp<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_cmp(input@.skip(pos as int)))
@at start
proof { if starts(input@.skip(pos as int), "==="@) { lemma_equals(input@.skip(pos as int)); } }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_version
@params input pos
@sig pub fn rule_version<'a>(input: &'a Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => pos < q <= input@.len() && q - pos == span(Kind::Version, input@.skip(pos as int)) && input@.skip(q as int) == input@.skip(pos as int).skip(q - pos), None => span(Kind::Version, input@.skip(pos as int)) == 0 }
@loop 1
    invariant
        pos < q1 <= input@.len(),
        span(Kind::Version, input@.skip(pos as int)) == q1 - pos + span(Kind::Version, input@.skip(q1 as int)),
        more1 || span(Kind::Version, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
proof { lemma_single(input@.skip(q1 as int)); }
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@at start
proof { lemma_single(input@.skip(pos as int)); }
@endfn
impl CompareOp {
@fn src/vocab/specifier.rs | TryFrom<&str> for CompareOp/fn:try_from
@sub? `use CompareOp::*;` => `use CompareOp::*;`
@strmatch
@params value
@sig pub fn try_from(value: &str) -> (r: Result<CompareOp, Report>)
    ensures match r { Ok(c) => cmp_of(value@) == Some(c), Err(_) => cmp_of(value@) is None }
@endfn
}
@fn peg:src/vocab/reqparse.rs | fn:rule_version_one_check1
@sub? `op == "==="` => `str_eq(op, "===")`
@sub? `op.try_into().unwrap()` => `CompareOp::try_from(op).unwrap()`
@sub? `v.into()` => `to_text(v)`
@params op v
@sig pub fn rule_version_one_check1(op: &str, v: &str) -> (r: Result<Specifier, &'static str>)
    requires cmp_of(op@) is Some
    ensures r matches Ok(x) && cmp_of(op@) == Some(x.op) && x.value@ == v@
@at start
proof { lemma_no_triple(); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_version_one
@params input pos
@sig pub fn rule_version_one<'a>(input: &'a Text, pos: usize) -> (r: Option<(Specifier, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_spec(input@.skip(pos as int)))
@at start
proof { lemma_cmps(ws(input@.skip(pos as int))); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_version_many
@params input pos
@sig pub fn rule_version_many<'a>(input: &'a Text, pos: usize) -> (r: Option<(Specifiers, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_list(input@.skip(pos as int)))
@loop 1
    invariant
        pos <= q1 <= input@.len(),
        p_list(input@.skip(pos as int)) == Some((spec_list(vs1@) + more_specs(input@.skip(q1 as int)).0, more_specs(input@.skip(q1 as int)).1)),
        more1 || more_specs(input@.skip(q1 as int)) == (Seq::<(CompareOp, S)>::empty(), input@.skip(q1 as int)),
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at start
proof { reveal_strlit(","); }
@at loop 1 before
proof { assert(spec_list(vs1@) =~= seq![v1__.m()]); }
@at loop 1 start
proof { reveal_strlit(","); }
let ghost had = vs1@;
let ghost at0 = input@.skip(q1 as int);
@at loop 1 end
proof {
    if more1 {
        let x = vs1@.last();
        assert(vs1@ =~= had.push(x)); assert(spec_list(vs1@) =~= spec_list(had).push(x.m()));
        let rest = more_specs(input@.skip(q1 as int));
        assert(more_specs(at0) == (seq![x.m()] + rest.0, rest.1));
        assert(spec_list(had) + (seq![x.m()] + rest.0) =~= spec_list(vs1@) + rest.0);
    }
}
@at loop 1 after
proof { assert(spec_list(vs1@) + Seq::<(CompareOp, S)>::empty() =~= spec_list(vs1@)); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_versionspec
@params input pos
@sig pub fn rule_versionspec<'a>(input: &'a Text, pos: usize) -> (r: Option<(Specifiers, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_specs(input@.skip(pos as int)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_urlspec_check1
@sig pub fn rule_urlspec_check1() -> (r: Result<Requirement, &'static str>) ensures r is Err
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_urlspec
@params input pos
@sig pub fn rule_urlspec<'a>(input: &'a Text, pos: usize) -> (r: Option<(Requirement, usize)>)
    requires pos <= input@.len()
    ensures r is None
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_not_in
@params input pos
@sig pub fn rule_not_in<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_not_in(input@.skip(pos as int)))
@loop 1
    invariant
        p1_1 < q1 <= input@.len(),
        span(Kind::Blank, input@.skip(p1_1 as int)) == q1 - p1_1 + span(Kind::Blank, input@.skip(q1 as int)),
        more1 || span(Kind::Blank, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { lemma_skips(input@, p1_1 as int, q1 - p1_1); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker_op
@params input pos
@sig pub fn rule_marker_op<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_op(input@.skip(pos as int)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_python_str_c
@params input pos
@sig pub fn rule_python_str_c<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => q == pos + 1 && q <= input@.len() && str_char(input@.skip(pos as int)[0]) && input@.skip(q as int) == input@.skip(pos as int).skip(1), None => input@.skip(pos as int).len() == 0 || !str_char(input@.skip(pos as int)[0]) }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_python_squote_str
@params input pos
@sig pub fn rule_python_squote_str<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_quote(input@.skip(pos as int), "'"@, Kind::Single))
@loop 1
    invariant
        p1_1 <= q1 <= input@.len(),
        span(Kind::Single, input@.skip(p1_1 as int)) == q1 - p1_1 + span(Kind::Single, input@.skip(q1 as int)),
        more1 || span(Kind::Single, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
proof { lemma_quotes(input@.skip(q1 as int)); }
@at loop 1 after
proof { lemma_skips(input@, p1_1 as int, q1 - p1_1); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_python_dquote_str
@params input pos
@sig pub fn rule_python_dquote_str<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_quote(input@.skip(pos as int), "\""@, Kind::Double))
@loop 1
    invariant
        p1_1 <= q1 <= input@.len(),
        span(Kind::Double, input@.skip(p1_1 as int)) == q1 - p1_1 + span(Kind::Double, input@.skip(q1 as int)),
        more1 || span(Kind::Double, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
proof { lemma_quotes(input@.skip(q1 as int)); }
@at loop 1 after
proof { lemma_skips(input@, p1_1 as int, q1 - p1_1); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_python_str
@sub? `s.into()` => `to_text(s)`
@params input pos
@sig pub fn rule_python_str<'a>(input: &'a Text, pos: usize) -> (r: Option<(Value, usize)>)
    requires pos <= input@.len()
    ensures match r { Some((v, q)) => pos <= q <= input@.len() && v is Literal && p_str(input@.skip(pos as int)) == Some((v->Literal_0@, input@.skip(q as int))), None => p_str(input@.skip(pos as int)) is None }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_env_var_check1
@sub? `var == $s` => `str_eq(var, $s)`
@sub? `var.to_owned()` => `to_text(var)`
@params var parse_extra
@sig pub fn rule_env_var_check1(var: &str, parse_extra: ParseExtra) -> (r: Result<Value, &'static str>)
    ensures match r { Ok(v) => v is Variable && v->Variable_0@ == var@ && (allowed(parse_extra) || var@ != "extra"@), Err(_) => !allowed(parse_extra) && var@ == "extra"@ }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_env_var
@params input pos parse_extra
@sig pub fn rule_env_var<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(Value, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, if p_var(input@.skip(pos as int)) is Some && (allowed(parse_extra) || p_var(input@.skip(pos as int))->Some_0.0 != "extra"@) { as_var(p_var(input@.skip(pos as int))) } else { None })
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_pep345_env_var
@sub? `var.replace('.', "_")` => `undotted(var)`
@params input pos
@sig pub fn rule_pep345_env_var<'a>(input: &'a Text, pos: usize) -> (r: Option<(Value, usize)>)
    requires pos <= input@.len()
    ensures match r { Some((v, q)) => pos <= q <= input@.len() && p_old(input@.skip(pos as int)) is Some && v.m() == V::Var(undot(p_old(input@.skip(pos as int))->Some_0.0)) && p_old(input@.skip(pos as int))->Some_0.1 == input@.skip(q as int), None => p_old(input@.skip(pos as int)) is None }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_setuptools_env_var
@sub? `"platform_python_implementation".into()` => `to_text("platform_python_implementation")`
@params input pos
@sig pub fn rule_setuptools_env_var<'a>(input: &'a Text, pos: usize) -> (r: Option<(Value, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, if starts(input@.skip(pos as int), "python_implementation"@) { Some((V::Var("platform_python_implementation"@), input@.skip(pos as int).skip("python_implementation"@.len() as int))) } else { None })
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker_value
@params input pos parse_extra
@sig pub fn rule_marker_value<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(Value, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_value(input@.skip(pos as int), allowed(parse_extra)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker_expr
@sub? `panic!($B)` => `unreached()`
@strmatch
@params input pos parse_extra
@sig #[verifier::exec_allows_no_decreases_clause]
pub fn rule_marker_expr<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(EnvMarkerExpr, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_one(input@.skip(pos as int), allowed(parse_extra)))
@at before `use marker::EnvMarkerExpr::Operator;`
proof { lemma_ops(input@.skip(p1_1 as int)); }
@at start
proof { reveal_strlit("("); lemma_operators(); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker_and
@params input pos parse_extra
@sig #[verifier::exec_allows_no_decreases_clause]
pub fn rule_marker_and<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(EnvMarkerExpr, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_and(input@.skip(pos as int), allowed(parse_extra)))
@at start
proof { reveal_strlit("and"); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker_or
@params input pos parse_extra
@sig #[verifier::exec_allows_no_decreases_clause]
pub fn rule_marker_or<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(EnvMarkerExpr, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_or(input@.skip(pos as int), allowed(parse_extra)))
@at start
proof { reveal_strlit("or"); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_marker
@params input pos parse_extra
@sig #[verifier::exec_allows_no_decreases_clause]
pub fn rule_marker<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(EnvMarkerExpr, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_or(input@.skip(pos as int), allowed(parse_extra)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_quoted_marker
@params input pos parse_extra
@sig pub fn rule_quoted_marker<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(EnvMarkerExpr, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_marker(input@.skip(pos as int), allowed(parse_extra)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_identifier
@params input pos
@sig pub fn rule_identifier<'a>(input: &'a Text, pos: usize) -> (r: Option<(&'a str, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_ident(input@.skip(pos as int)))
@loop 1
    invariant
        p1_1 <= q1 <= input@.len(), p1_1 == pos + 1, input@.skip(p1_1 as int) == input@.skip(pos as int).skip(1), input@.skip(pos as int).len() > 0,
        span(Kind::Name, input@.skip(p1_1 as int)) == q1 - p1_1 + span(Kind::Name, input@.skip(q1 as int)),
        more1 || span(Kind::Name, input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
proof { lemma_single(input@.skip(q1 as int)); }
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_name_check1
@sub? `$v.try_into().or(Err($m))` => `or_text(PackageName::try_from($v), $m)`
@params s
@sig pub fn rule_name_check1(s: &str) -> (r: Result<PackageName, &'static str>)
    ensures match r { Ok(n) => project_name(s@) && n.m() == s@, Err(_) => !project_name(s@) }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_name
@params input pos
@sig pub fn rule_name<'a>(input: &'a Text, pos: usize) -> (r: Option<(PackageName, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_name(input@.skip(pos as int)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_extra_check1
@sub? `$v.try_into().or(Err($m))` => `or_text(Extra::try_from($v), $m)`
@params s
@sig pub fn rule_extra_check1(s: &str) -> (r: Result<Extra, &'static str>)
    ensures match r { Ok(n) => project_name(s@) && n.m() == s@, Err(_) => !project_name(s@) }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_extra
@params input pos
@sig pub fn rule_extra<'a>(input: &'a Text, pos: usize) -> (r: Option<(Extra, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_name(input@.skip(pos as int)))
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_extras
@params input pos
@sig pub fn rule_extras<'a>(input: &'a Text, pos: usize) -> (r: Option<(Vec<Extra>, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_extras(input@.skip(pos as int)))
@loop 1
    invariant
        p1_2 <= q1 <= input@.len(),
        p_names(input@.skip(p1_2 as int)) == (extra_list(vs1@) + more_names(input@.skip(q1 as int)).0, more_names(input@.skip(q1 as int)).1),
        more1 || more_names(input@.skip(q1 as int)) == (Seq::<S>::empty(), input@.skip(q1 as int)),
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at start
proof { reveal_strlit(","); }
@at loop 1 before
proof { assert(extra_list(vs1@) =~= seq![v1__.m()]); }
@at loop 1 start
proof { reveal_strlit(","); }
let ghost had = vs1@;
let ghost at0 = input@.skip(q1 as int);
@at loop 1 end
proof {
    if more1 {
        let x = vs1@.last();
        assert(vs1@ =~= had.push(x)); assert(extra_list(vs1@) =~= extra_list(had).push(x.m()));
        let rest = more_names(input@.skip(q1 as int));
        assert(more_names(at0) == (seq![x.m()] + rest.0, rest.1));
        assert(extra_list(had) + (seq![x.m()] + rest.0) =~= extra_list(vs1@) + rest.0);
    }
}
@at loop 1 after
proof { assert(extra_list(vs1@) + Seq::<S>::empty() =~= extra_list(vs1@)); }
@at start
proof { assert(extra_list(Seq::empty()) =~= seq![]); }
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_name_req
@params input pos parse_extra
@sig pub fn rule_name_req<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(Requirement, usize)>)
    requires pos <= input@.len()
    ensures gives(r, input@, pos, p_req(input@.skip(pos as int), allowed(parse_extra)))
@at start
proof {
    reveal_strlit("");
    assert forall|k: int| 0 <= k <= input@.len() implies starts(#[trigger] input@.skip(k), ""@) by { assert(input@.skip(k).take(0) =~= ""@); }
    assert forall|k: int| 0 <= k <= input@.len() implies #[trigger] input@.skip(k).skip(0) == input@.skip(k) by { assert(input@.skip(k).skip(0) =~= input@.skip(k)); }
    assert(extra_list(Seq::empty()) =~= seq![]); assert(spec_list(Seq::empty()) =~= seq![]);
}
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_url_req
@sub? `unreachable!($B)` => `unreached()`
@sub? `unreachable!()` => `unreached()`
@params input pos parse_extra
@sig pub fn rule_url_req<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(Requirement, usize)>)
    requires pos <= input@.len()
    ensures r is None
@endfn
@fn peg:src/vocab/reqparse.rs | fn:rule_requirement
@params input pos parse_extra
@sig pub fn rule_requirement<'a>(input: &'a Text, pos: usize, parse_extra: ParseExtra) -> (r: Option<(Requirement, usize)>)
    requires pos <= input@.len()
    ensures match r { Some((v, q)) => pos <= q <= input@.len() && (p_req(ws(input@.skip(pos as int)), allowed(parse_extra)) matches Some((w, e)) && w == v.m() && ws(e) == input@.skip(q as int)), None => p_req(ws(input@.skip(pos as int)), allowed(parse_extra)) is None }
@endfn

// ---- what the parser is called with (peg: the whole text must match)
pub fn reqparse_requirement(input: &str, x: ParseExtra) -> (r: Result<Requirement, Report>)
    ensures match r { Ok(q) => read_req(input@, allowed(x)) == Some(q.m()), Err(_) => read_req(input@, allowed(x)) is None }
{
    let t = Text::new(input);
    proof { assert(input@.skip(0) =~= input@); }
    match rule_requirement(&t, 0, x) { Some((v, q)) => if q == t.len() { Ok(v) } else { Err(verr()) }, None => Err(verr()) }
}
pub fn reqparse_marker(input: &str, x: ParseExtra) -> (r: Result<EnvMarkerExpr, Report>)
    ensures match r { Ok(m) => all_of(p_or(input@, allowed(x))) == Some(m.m()), Err(_) => all_of(p_or(input@, allowed(x))) is None }
{
    let t = Text::new(input);
    proof { assert(input@.skip(0) =~= input@); }
    match rule_marker(&t, 0, x) { Some((v, q)) => if q == t.len() { Ok(v) } else { Err(verr()) }, None => Err(verr()) }
}
pub fn reqparse_versionspec(input: &str) -> (r: Result<Specifiers, Report>)
    ensures match r { Ok(v) => all_of(p_specs(input@)) == Some(v.m()), Err(_) => all_of(p_specs(input@)) is None }
{
    let t = Text::new(input);
    proof { assert(input@.skip(0) =~= input@); }
    match rule_versionspec(&t, 0) { Some((v, q)) => if q == t.len() { Ok(v) } else { Err(verr()) }, None => Err(verr()) }
}
impl Requirement {
@fn src/vocab/requirement.rs | Requirement/fn:parse
@sub? `super::reqparse::requirement($a).wrap_err_with($B)` => `reqparse_requirement($a)`
@params input parse_extra
@sig pub fn parse(input: &str, parse_extra: ParseExtra) -> (r: Result<Requirement, Report>)
    ensures match r { Ok(q) => read_req(input@, allowed(parse_extra)) == Some(q.m()), Err(_) => read_req(input@, allowed(parse_extra)) is None }
@endfn
@fn src/vocab/requirement.rs | Display for Requirement/fn:fmt
@format
@sub? `!self.extras.is_empty()` => `self.extras.len() > 0`
@sub? `!self.specifiers.0.is_empty()` => `self.specifiers.0.len() > 0`
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_req(self.m())
@loop 1 iter=it
    invariant
        it.seq().len() == self.extras@.len(), forall|i: int| 0 <= i < self.extras@.len() ==> *(#[trigger] it.seq()[i]) == self.extras@[i],
        first == (it.index() == 0), es == extra_list(self.extras@),
        f.v() == a0 + n + "["@ + t_names(es.take(it.index())),
@at start
let ghost a0 = f.v();
let ghost n = self.name.as_given@;
let ghost es = extra_list(self.extras@);
proof { assert(es.len() == self.extras@.len()); assert(self.specifiers.m().len() == self.specifiers.0@.len()); }
@at loop 1 before
proof { assert(es.take(0).len() == 0); assert(f.v() + Seq::<char>::empty() =~= f.v()); }
@at loop 1 end
proof {
    let k = it.index() as int;
    lemma_names(es, k);
    assert(es[k] == extra.m());
    let a = a0 + n + "["@;
    if k > 0 { assert(f.v() =~= a + (t_names(es.take(k)) + ","@ + es[k])); } else { assert(a + t_names(es.take(0)) =~= a); }
}
@at loop 1 after
proof { assert(es.take(es.len() as int) =~= es); }
@at before `if self.specifiers.0.len() > 0`
let ghost e = if es.len() > 0 { "["@ + t_names(es) + "]"@ } else { Seq::<char>::empty() };
proof { assert(f.v() =~= a0 + n + e); }
@at before `if let Some(env_marker)`
let ghost v = if self.specifiers.m().len() > 0 { " "@ + t_specs(self.specifiers.m()) } else { Seq::<char>::empty() };
proof {
    assert(f.v() =~= a0 + n + e + v);
    let m = match self.m().marker { Some(m) => "; "@ + t_marker(m), None => Seq::<char>::empty() };
    assert(a0 + n + e + v + m =~= a0 + (n + e + v + m));
    assert(a0 + n + e + v + Seq::<char>::empty() =~= a0 + n + e + v);
}
@endfn
}
impl PackageRequirement {
@fn src/vocab/requirement.rs | TryFrom<&str> for PackageRequirement/fn:try_from
@params value
@sig pub fn try_from(value: &str) -> (r: Result<PackageRequirement, Report>)
    ensures match r { Ok(q) => read_req(value@, true) == Some(q.0.m()), Err(_) => read_req(value@, true) is None }
@endfn
@fn src/vocab/requirement.rs | Display for PackageRequirement/fn:fmt
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_req(self.0.m())
@endfn
}
impl UserRequirement {
@fn src/vocab/requirement.rs | TryFrom<&str> for UserRequirement/fn:try_from
@params value
@sig pub fn try_from(value: &str) -> (r: Result<UserRequirement, Report>)
    ensures match r { Ok(q) => read_req(value@, false) == Some(q.0.m()), Err(_) => read_req(value@, false) is None }
@endfn
@fn src/vocab/requirement.rs | Display for UserRequirement/fn:fmt
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_req(self.0.m())
@endfn
}
pub open spec fn plain(q: Q) -> bool { q.extras.len() == 0 && q.marker is None }
impl PythonRequirement {
@fn src/vocab/requirement.rs | TryFrom<Requirement> for PythonRequirement/fn:try_from
@params r
@sig pub fn from_requirement(r: Requirement) -> (o: Result<PythonRequirement, Report>)
    ensures o is Ok <==> plain(r.m()), o matches Ok(q) ==> q.0 == r
@endfn
@fn src/vocab/requirement.rs | TryFrom<&str> for PythonRequirement/fn:try_from
@sub? `r.try_into()` => `PythonRequirement::from_requirement(r)`
@params value
@sig pub fn try_from(value: &str) -> (o: Result<PythonRequirement, Report>)
    ensures match o { Ok(q) => read_req(value@, false) == Some(q.0.m()) && plain(q.0.m()), Err(_) => read_req(value@, false) is None || !plain(read_req(value@, false)->Some_0) }
@endfn
@fn src/vocab/requirement.rs | Display for PythonRequirement/fn:fmt
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_req(self.0.m())
@endfn
}
impl StandaloneMarkerExpr {
@fn src/vocab/requirement.rs | TryFrom<&str> for StandaloneMarkerExpr/fn:try_from
@sub? `super::reqparse::marker($a).wrap_err_with($B)?` => `reqparse_marker($a)?`
@params value
@sig pub fn try_from(value: &str) -> (r: Result<StandaloneMarkerExpr, Report>)
    ensures match r { Ok(m) => read_marker(value@) == Some(m.0.m()), Err(_) => read_marker(value@) is None }
@endfn
@fn src/vocab/requirement.rs | Display for StandaloneMarkerExpr/fn:fmt
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_marker(self.0.m())
@endfn
}
pub fn no_specifiers() -> (r: Specifiers) ensures r.m() == Seq::<(CompareOp, S)>::empty() { let r = Specifiers(Vec::new()); proof { assert(r.m() =~= Seq::<(CompareOp, S)>::empty()); } r }
// str::trim drops what char::is_whitespace says is white
#[verifier::external_body]
pub fn nothing_in(s: &str) -> (r: bool) ensures r == nothing(s@) { unimplemented!() }
impl Specifiers {
@fn src/vocab/specifier.rs | TryFrom<&str> for Specifiers/fn:try_from
@sub? `input.trim().is_empty()` => `nothing_in(input)`
@sub? `Specifiers(Vec::new())` => `no_specifiers()`
@sub? `super::reqparse::versionspec($a)` => `reqparse_versionspec($a)`
@sub? `specifiers_or_err.wrap_err_with($B)` => `specifiers_or_err`
@params input
@sig pub fn try_from(input: &str) -> (r: Result<Specifiers, Report>)
    ensures match r { Ok(v) => read_specs(input@) == Some(v.m()), Err(_) => read_specs(input@) is None }
@endfn
@fn src/vocab/specifier.rs | Display for Specifiers/fn:fmt
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_specs(self.m())
@loop 1 iter=it
    invariant
        it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
        first == (it.index() == 0),
        f.v() == old(f).v() + t_specs(self.m().take(it.index())),
@at start
proof { assert(old(f).v() + Seq::<char>::empty() =~= old(f).v()); assert(self.m().take(0).len() == 0); }
@at loop 1 start
let ghost w = f.v();
@at loop 1 end
; proof {
    let k = it.index() as int; let a = old(f).v();
    lemma_specs(self.m(), k);
    assert(self.m()[k] == spec.m());
    if k > 0 { assert(f.v() =~= a + (t_specs(self.m().take(k)) + ", "@ + t_spec(self.m()[k]))); } else { assert(a + t_specs(self.m().take(0)) =~= a); }
}
@at loop 1 after
proof { assert(self.m().take(self.m().len() as int) =~= self.m()); }
@endfn
}
impl Specifier {
@fn src/vocab/specifier.rs | Display for Specifier/fn:fmt
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_spec(self.m())
@endfn
}
impl CompareOp {
@fn src/vocab/specifier.rs | Display for CompareOp/fn:fmt
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_cmp(*self)
@endfn
}
impl Value {
@fn src/vocab/requirement.rs | mod:marker/Display for Value/fn:fmt
@sub? `if $s.contains($c)` => `if has_char($s, $c)`
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_value(self.m())
@endfn
}
impl EnvMarkerExpr {
@fn src/vocab/requirement.rs | mod:marker/Display for EnvMarkerExpr/fn:fmt
@sub? `compare_op.to_string()` => `printed(compare_op)`
@sub? `"in".to_string()` => `to_text("in")`
@sub? `"not in".to_string()` => `to_text("not in")`
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_marker(self.m())
@endfn
}



// ==== what is printed reads back as the same
pub proof fn lemma_after(t: S, r: S) ensures starts(t + r, t), (t + r).skip(t.len() as int) == r, after(t + r, t) == Some(r)
{ assert((t + r).take(t.len() as int) =~= t); assert((t + r).skip(t.len() as int) =~= r); }
pub proof fn lemma_differ(s: S, t: S, i: int) requires 0 <= i < s.len(), i < t.len(), s[i] != t[i] ensures !starts(s, t)
{ if starts(s, t) { assert(s.take(t.len() as int)[i] == t[i]); } }
pub proof fn lemma_ws(s: S) requires s.len() == 0 || !blank(s[0]) ensures ws(s) == s { assert(s.skip(0) =~= s); }
pub proof fn lemma_space(r: S) requires r.len() == 0 || !blank(r[0]) ensures ws(" "@ + r) == r, span(Kind::Blank, " "@ + r) == 1
{
    reveal_strlit(" ");
    let s = " "@ + r;
    assert(s[0] == ' '); assert(s.skip(1) =~= r); assert(span(Kind::Blank, r) == 0);
}
pub proof fn lemma_run(k: Kind, t: S, r: S) requires forall|i: int| 0 <= i < t.len() ==> of(k, #[trigger] t[i]), r.len() == 0 || !of(k, r[0])
    ensures span(k, t + r) == t.len(), (t + r).take(t.len() as int) == t, past(k, t + r) == r
    decreases t.len()
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.skip(1).len() implies of(k, #[trigger] t.skip(1)[i]) by { assert(t[i + 1] == t.skip(1)[i]); }
        lemma_run(k, t.skip(1), r);
        assert((t + r)[0] == t[0]); assert((t + r).skip(1) =~= t.skip(1) + r);
    } else { assert(t + r =~= r); }
    assert((t + r).take(t.len() as int) =~= t); assert((t + r).skip(t.len() as int) =~= r);
}
pub open spec fn is_var(n: S) -> bool { n == "python_version"@ || n == "python_full_version"@ || n == "os_name"@ || n == "sys_platform"@ || n == "platform_release"@ || n == "platform_system"@ || n == "platform_version"@ || n == "platform_machine"@ || n == "platform_python_implementation"@ || n == "implementation_name"@ || n == "implementation_version"@ || n == "extra"@ }
pub proof fn lemma_var(n: S, r: S) requires is_var(n) ensures p_var(n + r) == Some((n, r)), n.len() > 0, alnum((n + r)[0])
{
    reveal_strlit("python_version"); reveal_strlit("python_full_version"); reveal_strlit("os_name"); reveal_strlit("sys_platform"); reveal_strlit("platform_release"); reveal_strlit("platform_system"); reveal_strlit("platform_version"); reveal_strlit("platform_machine"); reveal_strlit("platform_python_implementation"); reveal_strlit("implementation_name"); reveal_strlit("implementation_version"); reveal_strlit("extra");
    lemma_after(n, r);
    if n == "python_version"@ { assert(n[0] == 'p');  }
    else if n == "python_full_version"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 7); }
    else if n == "os_name"@ { assert(n[0] == 'o'); lemma_differ(n + r, "python_version"@, 0); lemma_differ(n + r, "python_full_version"@, 0); }
    else if n == "sys_platform"@ { assert(n[0] == 's'); lemma_differ(n + r, "python_version"@, 0); lemma_differ(n + r, "python_full_version"@, 0); lemma_differ(n + r, "os_name"@, 0); }
    else if n == "platform_release"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 1); lemma_differ(n + r, "python_full_version"@, 1); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); }
    else if n == "platform_system"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 1); lemma_differ(n + r, "python_full_version"@, 1); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 9); }
    else if n == "platform_version"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 1); lemma_differ(n + r, "python_full_version"@, 1); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 9); lemma_differ(n + r, "platform_system"@, 9); }
    else if n == "platform_machine"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 1); lemma_differ(n + r, "python_full_version"@, 1); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 9); lemma_differ(n + r, "platform_system"@, 9); lemma_differ(n + r, "platform_version"@, 9); }
    else if n == "platform_python_implementation"@ { assert(n[0] == 'p'); lemma_differ(n + r, "python_version"@, 1); lemma_differ(n + r, "python_full_version"@, 1); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 9); lemma_differ(n + r, "platform_system"@, 9); lemma_differ(n + r, "platform_version"@, 9); lemma_differ(n + r, "platform_machine"@, 9); }
    else if n == "implementation_name"@ { assert(n[0] == 'i'); lemma_differ(n + r, "python_version"@, 0); lemma_differ(n + r, "python_full_version"@, 0); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 0); lemma_differ(n + r, "platform_system"@, 0); lemma_differ(n + r, "platform_version"@, 0); lemma_differ(n + r, "platform_machine"@, 0); lemma_differ(n + r, "platform_python_implementation"@, 0); }
    else if n == "implementation_version"@ { assert(n[0] == 'i'); lemma_differ(n + r, "python_version"@, 0); lemma_differ(n + r, "python_full_version"@, 0); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 0); lemma_differ(n + r, "platform_system"@, 0); lemma_differ(n + r, "platform_version"@, 0); lemma_differ(n + r, "platform_machine"@, 0); lemma_differ(n + r, "platform_python_implementation"@, 0); lemma_differ(n + r, "implementation_name"@, 15); }
    else if n == "extra"@ { assert(n[0] == 'e'); lemma_differ(n + r, "python_version"@, 0); lemma_differ(n + r, "python_full_version"@, 0); lemma_differ(n + r, "os_name"@, 0); lemma_differ(n + r, "sys_platform"@, 0); lemma_differ(n + r, "platform_release"@, 0); lemma_differ(n + r, "platform_system"@, 0); lemma_differ(n + r, "platform_version"@, 0); lemma_differ(n + r, "platform_machine"@, 0); lemma_differ(n + r, "platform_python_implementation"@, 0); lemma_differ(n + r, "implementation_name"@, 0); lemma_differ(n + r, "implementation_version"@, 0); }
}
pub proof fn lemma_no_word(s: S) requires s.len() > 0, s[0] == '"' || s[0] == '\'' ensures p_var(s) is None, p_old(s) is None, !starts(s, "python_implementation"@)
{
    reveal_strlit("python_version"); reveal_strlit("python_full_version"); reveal_strlit("os_name"); reveal_strlit("sys_platform"); reveal_strlit("platform_release"); reveal_strlit("platform_system"); reveal_strlit("platform_version"); reveal_strlit("platform_machine"); reveal_strlit("platform_python_implementation"); reveal_strlit("implementation_name"); reveal_strlit("implementation_version"); reveal_strlit("extra"); reveal_strlit("os.name"); reveal_strlit("sys.platform"); reveal_strlit("platform.version"); reveal_strlit("platform.machine"); reveal_strlit("platform.python_implementation"); reveal_strlit("python_implementation");
    lemma_differ(s, "python_version"@, 0); lemma_differ(s, "python_full_version"@, 0); lemma_differ(s, "os_name"@, 0); lemma_differ(s, "sys_platform"@, 0); lemma_differ(s, "platform_release"@, 0); lemma_differ(s, "platform_system"@, 0); lemma_differ(s, "platform_version"@, 0); lemma_differ(s, "platform_machine"@, 0); lemma_differ(s, "platform_python_implementation"@, 0); lemma_differ(s, "implementation_name"@, 0); lemma_differ(s, "implementation_version"@, 0); lemma_differ(s, "extra"@, 0); lemma_differ(s, "os.name"@, 0); lemma_differ(s, "sys.platform"@, 0); lemma_differ(s, "platform.version"@, 0); lemma_differ(s, "platform.machine"@, 0); lemma_differ(s, "platform.python_implementation"@, 0); lemma_differ(s, "python_implementation"@, 0);
}
pub proof fn lemma_undot()
    ensures undot("os.name"@) == "os_name"@, undot("sys.platform"@) == "sys_platform"@, undot("platform.version"@) == "platform_version"@, undot("platform.machine"@) == "platform_machine"@, undot("platform.python_implementation"@) == "platform_python_implementation"@
{
    reveal_strlit("os.name"); reveal_strlit("sys.platform"); reveal_strlit("platform.version"); reveal_strlit("platform.machine"); reveal_strlit("platform.python_implementation"); reveal_strlit("os_name"); reveal_strlit("sys_platform"); reveal_strlit("platform_version"); reveal_strlit("platform_machine"); reveal_strlit("platform_python_implementation");
    assert(undot("os.name"@) =~= "os_name"@);
    assert(undot("sys.platform"@) =~= "sys_platform"@);
    assert(undot("platform.version"@) =~= "platform_version"@);
    assert(undot("platform.machine"@) =~= "platform_machine"@);
    assert(undot("platform.python_implementation"@) =~= "platform_python_implementation"@);
}
pub proof fn lemma_cmp(c: CompareOp, r: S) requires r.len() > 0, r[0] == ' ' ensures p_cmp(t_cmp(c) + r) == Some((t_cmp(c), r)), cmp_of(t_cmp(c)) == Some(c), op_of(t_cmp(c)) == Some(Op::Compare(c)), t_cmp(c).len() > 0, !blank(t_cmp(c)[0])
{
    lemma_operators(); reveal_strlit("<="); reveal_strlit("<"); reveal_strlit("!="); reveal_strlit("=="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~="); reveal_strlit("in"); reveal_strlit("not in");
    let t = t_cmp(c); lemma_after(t, r);
    assert(t.len() <= 2 && t.len() > 0); assert("not in"@.len() == 6); assert(t != "in"@) by { assert("in"@[0] == 'i'); }
    if c == CompareOp::LessThanEqual { assert(t == "<="@); assert(t[0] == '<');  }
    if c == CompareOp::StrictlyLessThan { assert(t == "<"@); assert(t[0] == '<'); lemma_differ(t + r, "<="@, 1); }
    if c == CompareOp::NotEqual { assert(t == "!="@); assert(t[0] == '!'); lemma_differ(t + r, "<="@, 0); lemma_differ(t + r, "<"@, 0); }
    if c == CompareOp::Equal { assert(t == "=="@); assert(t[0] == '='); lemma_differ(t + r, "<="@, 0); lemma_differ(t + r, "<"@, 0); lemma_differ(t + r, "!="@, 0); }
    if c == CompareOp::GreaterThanEqual { assert(t == ">="@); assert(t[0] == '>'); lemma_differ(t + r, "<="@, 0); lemma_differ(t + r, "<"@, 0); lemma_differ(t + r, "!="@, 0); lemma_differ(t + r, "=="@, 0); }
    if c == CompareOp::StrictlyGreaterThan { assert(t == ">"@); assert(t[0] == '>'); lemma_differ(t + r, "<="@, 0); lemma_differ(t + r, "<"@, 0); lemma_differ(t + r, "!="@, 0); lemma_differ(t + r, "=="@, 0); lemma_differ(t + r, ">="@, 1); }
    if c == CompareOp::Compatible { assert(t == "~="@); assert(t[0] == '~'); lemma_differ(t + r, "<="@, 0); lemma_differ(t + r, "<"@, 0); lemma_differ(t + r, "!="@, 0); lemma_differ(t + r, "=="@, 0); lemma_differ(t + r, ">="@, 0); lemma_differ(t + r, ">"@, 0); }
}
pub proof fn lemma_no_cmp(s: S) requires s.len() == 0 || (s[0] != '<' && s[0] != '!' && s[0] != '=' && s[0] != '>' && s[0] != '~') ensures p_cmp(s) is None
{
    reveal_strlit("<="); reveal_strlit("<"); reveal_strlit("!="); reveal_strlit("=="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~=");
    if s.len() > 0 { lemma_differ(s, "<="@, 0); lemma_differ(s, "<"@, 0); lemma_differ(s, "!="@, 0); lemma_differ(s, "=="@, 0); lemma_differ(s, ">="@, 0); lemma_differ(s, ">"@, 0); lemma_differ(s, "~="@, 0); }
}
// an operator, printed between spaces
pub proof fn lemma_op(o: Op, r: S) requires r.len() > 0, r[0] == ' ' ensures p_op(" "@ + t_op(o) + r) == Some((t_op(o), r)), op_of(t_op(o)) == Some(o)
{
    let t = t_op(o);
    assert(" "@ + t + r =~= " "@ + (t + r));
    reveal_strlit("in"); reveal_strlit("not in"); reveal_strlit("not"); reveal_strlit(" ");
    match o {
        Op::Compare(c) => { lemma_cmp(c, r); assert((t + r)[0] == t[0]); lemma_space(t + r); }
        Op::In => { assert((t + r)[0] == 'i'); lemma_space(t + r); lemma_no_cmp(t + r); lemma_after(t, r); }
        Op::NotIn => {
            assert((t + r)[0] == 'n'); lemma_space(t + r); lemma_no_cmp(t + r); lemma_operators(); lemma_differ(t + r, "in"@, 0);
            let u = "in"@ + r;
            assert(t + r =~= "not"@ + (" "@ + u)); lemma_after("not"@, " "@ + u); assert(u[0] == 'i'); lemma_space(u); lemma_after("in"@, r);
        }
    }
}
pub open spec fn all_kind(k: Kind, t: S) -> bool { forall|i: int| 0 <= i < t.len() ==> of(k, #[trigger] t[i]) }
pub open spec fn good_v(v: V, x: bool) -> bool { match v { V::Var(n) => is_var(n) && (x || n != "extra"@), V::Lit(t) => all_kind(Kind::Single, t) || all_kind(Kind::Double, t) } }
pub open spec fn good_m(m: M, x: bool) -> bool decreases m { match m { M::And(a, b) => good_m(*a, x) && good_m(*b, x), M::Or(a, b) => good_m(*a, x) && good_m(*b, x), M::Oper(_, l, r) => good_v(l, x) && good_v(r, x) } }
pub proof fn lemma_value(v: V, r: S, x: bool) requires good_v(v, x)
    ensures p_value(t_value(v) + r, x) == Some((v, r)), t_value(v).len() > 0, (t_value(v) + r)[0] == t_value(v)[0], !blank(t_value(v)[0]), t_value(v)[0] != '('
{
    let s = t_value(v) + r;
    match v {
        V::Var(n) => { lemma_var(n, r); lemma_ws(s); }
        V::Lit(t) => {
            reveal_strlit("'"); reveal_strlit("\"");
            let single = t.contains('"');
            let q = if single { "'"@ } else { "\""@ };
            let k = if single { Kind::Single } else { Kind::Double };
            assert(s =~= q + (t + (q + r)));
            assert(s[0] == q[0]);
            lemma_ws(s); lemma_no_word(s);
            if single { let i = choose|i: int| 0 <= i < t.len() && t[i] == '"'; assert(!of(Kind::Double, t[i])); }
            else { assert forall|i: int| 0 <= i < t.len() implies of(k, #[trigger] t[i]) by { assert(t.contains(t[i])); } }
            lemma_after(q, t + (q + r)); assert((q + r)[0] == q[0]); lemma_run(k, t, q + r); lemma_after(q, r);
            if !single { lemma_differ(s, "'"@, 0); }
        }
    }
}
pub proof fn lemma_compare(o: Op, l: V, v: V, r: S, x: bool) requires good_v(l, x), good_v(v, x)
    ensures p_one(t_marker(M::Oper(o, l, v)) + r, x) == Some((M::Oper(o, l, v), r)), t_marker(M::Oper(o, l, v)).len() > 0, !blank(t_marker(M::Oper(o, l, v))[0])
{
    hide(p_or); hide(p_value_); hide(p_op); hide(t_value); hide(t_op);
    let m = M::Oper(o, l, v);
    let s = t_marker(m) + r;
    reveal_strlit("("); reveal_strlit(" ");
    let s2 = " "@ + t_op(o) + (" "@ + (t_value(v) + r));
    let s3 = " "@ + (t_value(v) + r);
    assert(s =~= t_value(l) + s2);
    lemma_value(l, s2, x); lemma_value(v, r, x);
    assert(s3[0] == ' ');
    lemma_op(o, s3);
    lemma_space(t_value(v) + r);
    assert(p_value(s3, x) == p_value_(t_value(v) + r, x)); lemma_ws(t_value(v) + r); assert(p_value(t_value(v) + r, x) == p_value_(t_value(v) + r, x));
    assert(t_marker(m)[0] == t_value(l)[0]);
    lemma_ws(s); lemma_differ(s, "("@, 0);
    assert(p_paren(s, x) is None);
}
pub proof fn lemma_one(m: M, r: S, x: bool) requires good_m(m, x)
    ensures p_one(t_marker(m) + r, x) == Some((m, r)), t_marker(m).len() > 0, !blank(t_marker(m)[0])
    decreases m
{
    hide(p_one); hide(t_marker); hide(p_or);
    match m {
        M::And(a, b) => { lemma_one(*a, after_a(*b, r, true), x); lemma_one(*b, after_b(r), x); lemma_pair(*a, *b, r, x, true); assert(m == joined_(*a, *b, true)); }
        M::Or(a, b) => { lemma_one(*a, after_a(*b, r, false), x); lemma_one(*b, after_b(r), x); lemma_pair(*a, *b, r, x, false); assert(m == joined_(*a, *b, false)); }
        M::Oper(o, l, v) => { lemma_compare(o, l, v, r, x); }
    }
}
pub open spec fn joined_(a: M, b: M, and: bool) -> M { if and { M::And(Box::new(a), Box::new(b)) } else { M::Or(Box::new(a), Box::new(b)) } }
pub open spec fn op_word(and: bool) -> S { if and { "and"@ } else { "or"@ } }
pub open spec fn after_b(r: S) -> S { ")"@ + r }
pub open spec fn after_a(b: M, r: S, and: bool) -> S { " "@ + (op_word(and) + (" "@ + (t_marker(b) + after_b(r)))) }
// b, then the closing parenthesis
pub proof fn lemma_right(b: M, r: S, x: bool) requires p_one(t_marker(b) + after_b(r), x) == Some((b, after_b(r)))
    ensures p_and(t_marker(b) + after_b(r), x) == Some((b, after_b(r))), p_or(t_marker(b) + after_b(r), x) == Some((b, after_b(r))), ws(after_b(r)) == after_b(r), after(after_b(r), ")"@) == Some(r)
{
    reveal_strlit(")"); reveal_strlit("and"); reveal_strlit("or");
    let close = after_b(r);
    assert(close[0] == ')'); lemma_ws(close); lemma_differ(close, "and"@, 0); lemma_differ(close, "or"@, 0); lemma_after(")"@, r);
}
pub proof fn lemma_inside(a: M, b: M, r: S, x: bool, and: bool)
    requires p_one(t_marker(a) + after_a(b, r, and), x) == Some((a, after_a(b, r, and))), p_one(t_marker(b) + after_b(r), x) == Some((b, after_b(r))), t_marker(b).len() > 0, !blank(t_marker(b)[0])
    ensures p_or(t_marker(a) + after_a(b, r, and), x) == Some((joined_(a, b, and), after_b(r)))
{
    reveal_strlit(" "); reveal_strlit("and"); reveal_strlit("or");
    lemma_right(b, r, x);
    let close = after_b(r); let tb = t_marker(b) + close; let w = op_word(and); let mid = after_a(b, r, and); let ta = t_marker(a) + mid;
    assert(tb[0] == t_marker(b)[0]); lemma_space(tb);
    lemma_after(w, " "@ + tb); assert((w + (" "@ + tb))[0] == w[0]); lemma_space(w + (" "@ + tb));
    assert(ws(mid) == w + (" "@ + tb));
    assert(tb.len() < ta.len());
    reveal_strlit(")"); assert(close[0] == ')'); lemma_differ(close, "or"@, 0);
    if and { assert(p_and(ta, x) == Some((joined_(a, b, and), close))); }
    else { lemma_differ(w + (" "@ + tb), "and"@, 0); assert(p_and(ta, x) == Some((a, mid))); }
}
pub proof fn lemma_pair(a: M, b: M, r: S, x: bool, and: bool)
    requires p_one(t_marker(a) + after_a(b, r, and), x) == Some((a, after_a(b, r, and))), p_one(t_marker(b) + after_b(r), x) == Some((b, after_b(r))), t_marker(b).len() > 0, !blank(t_marker(b)[0])
    ensures p_one(t_marker(joined_(a, b, and)) + r, x) == Some((joined_(a, b, and), r)), t_marker(joined_(a, b, and)).len() > 0, !blank(t_marker(joined_(a, b, and))[0])
{
    hide(p_compare); hide(t_marker);
    reveal_strlit("("); reveal_strlit(")");
    let m = joined_(a, b, and); let s = t_marker(m) + r; let ta = t_marker(a) + after_a(b, r, and);
    lemma_inside(a, b, r, x, and); lemma_right(b, r, x);
    lemma_pair_text(a, b, r, and);
    lemma_after("("@, ta); assert(s[0] == '('); lemma_ws(s);
    assert(after(ws(s), "("@) == Some(ta)); assert(ta.len() < s.len()); assert(p_or(ta, x) == Some((m, after_b(r)))); assert(after(ws(after_b(r)), ")"@) == Some(r));
    assert(p_paren(s, x) == Some((m, r)));
    lemma_pair_text(a, b, seq![], and); assert(t_marker(m) + seq![] =~= t_marker(m));
    assert(t_marker(m)[0] == '(');
}
#[verifier::rlimit(60)]
pub proof fn lemma_pair_text(a: M, b: M, r: S, and: bool) ensures t_marker(joined_(a, b, and)) + r == "("@ + (t_marker(a) + after_a(b, r, and))
{
    reveal_strlit(" "); reveal_strlit("and"); reveal_strlit("or"); reveal_strlit(" and "); reveal_strlit(" or ");
    assert(" and "@ =~= " "@ + "and"@ + " "@); assert(" or "@ =~= " "@ + "or"@ + " "@);
    if and { assert(t_marker(joined_(a, b, and)) == "("@ + t_marker(a) + " and "@ + t_marker(b) + ")"@); } else { assert(t_marker(joined_(a, b, and)) == "("@ + t_marker(a) + " or "@ + t_marker(b) + ")"@); }
    assert(t_marker(joined_(a, b, and)) + r =~= "("@ + (t_marker(a) + after_a(b, r, and)));
}
// a marker that ends the text
pub proof fn lemma_marker(m: M, x: bool) requires good_m(m, x) ensures p_or(t_marker(m), x) == Some((m, Seq::<char>::empty())), t_marker(m).len() > 0, !blank(t_marker(m)[0])
{
    let e = Seq::<char>::empty();
    reveal_strlit("and"); reveal_strlit("or");
    lemma_one(m, e, x); assert(t_marker(m) + e =~= t_marker(m)); lemma_ws(e);
    assert(p_and(t_marker(m), x) == Some((m, e)));
}
// what is read can be printed
pub proof fn lemma_value_good(s: S, x: bool) ensures p_value(s, x) matches Some((v, _)) ==> good_v(v, x)
{
    lemma_undot();
    let t = ws(s);
    reveal_strlit("extra"); reveal_strlit("python_version"); reveal_strlit("python_full_version"); reveal_strlit("os_name"); reveal_strlit("sys_platform"); reveal_strlit("platform_release"); reveal_strlit("platform_system"); reveal_strlit("platform_version"); reveal_strlit("platform_machine"); reveal_strlit("platform_python_implementation"); reveal_strlit("implementation_name"); reveal_strlit("implementation_version");
    assert forall|r: S, k: Kind| all_kind(k, #[trigger] r.take(span(k, r))) by { lemma_span(k, r); assert forall|i: int| 0 <= i < r.take(span(k, r)).len() implies of(k, #[trigger] r.take(span(k, r))[i]) by { assert(r.take(span(k, r))[i] == r[i]); } }
    assert(undot("os.name"@).len() == 7); assert(undot("sys.platform"@).len() == 12); assert(undot("platform.version"@).len() == 16); assert(undot("platform.machine"@).len() == 16); assert(undot("platform.python_implementation"@).len() == 30);
    assert("extra"@.len() == 5);
}
pub proof fn lemma_or_good(s: S, x: bool) ensures p_or(s, x) matches Some((m, _)) ==> good_m(m, x) decreases s.len(), 3int
{
    lemma_and_good(s, x);
    if p_and(s, x) is Some { match after(ws(p_and(s, x)->Some_0.1), "or"@) { Some(t) => if ws(t).len() < s.len() { lemma_or_good(ws(t), x); }, None => {} } }
}
pub proof fn lemma_and_good(s: S, x: bool) ensures p_and(s, x) matches Some((m, _)) ==> good_m(m, x) decreases s.len(), 2int
{
    lemma_one_good(s, x);
    if p_one(s, x) is Some { match after(ws(p_one(s, x)->Some_0.1), "and"@) { Some(t) => if ws(t).len() < s.len() { lemma_and_good(ws(t), x); }, None => {} } }
}
pub proof fn lemma_one_good(s: S, x: bool) ensures p_one(s, x) matches Some((m, _)) ==> good_m(m, x) decreases s.len(), 1int
{
    match after(ws(s), "("@) { Some(t) => if t.len() < s.len() { lemma_or_good(t, x); }, None => {} }
    lemma_value_good(s, x);
    if p_value(s, x) is Some && p_op(p_value(s, x)->Some_0.1) is Some { lemma_value_good(p_op(p_value(s, x)->Some_0.1)->Some_0.1, x); }
}
// versions
pub open spec fn good_spec(v: (CompareOp, S)) -> bool { v.1.len() > 0 && all_kind(Kind::Version, v.1) }
pub open spec fn good_specs(v: Seq<(CompareOp, S)>) -> bool { forall|i: int| 0 <= i < v.len() ==> good_spec(#[trigger] v[i]) }
pub open spec fn spec_tail(v: Seq<(CompareOp, S)>) -> S decreases v.len() { if v.len() == 0 { seq![] } else { ", "@ + t_spec(v[0]) + spec_tail(v.skip(1)) } }
// what may follow a list of versions
pub open spec fn ends_specs(r: S) -> bool { r.len() == 0 || r[0] == ';' }
pub proof fn lemma_spec_tail(v: Seq<(CompareOp, S)>) requires v.len() > 0 ensures t_specs(v) == t_spec(v[0]) + spec_tail(v.skip(1)) decreases v.len()
{
    if v.len() == 1 { assert(v.skip(1).len() == 0); assert(t_spec(v[0]) + spec_tail(v.skip(1)) =~= t_spec(v[0])); }
    else { lemma_spec_tail(v.drop_last()); lemma_spec_tail_last(v.skip(1)); assert(v.drop_last().skip(1) =~= v.skip(1).drop_last()); assert(v.skip(1).last() == v.last());
        assert(t_specs(v) =~= t_spec(v[0]) + (spec_tail(v.skip(1).drop_last()) + ", "@ + t_spec(v.last()))); }
}
pub proof fn lemma_spec_tail_last(v: Seq<(CompareOp, S)>) requires v.len() > 0 ensures spec_tail(v) == spec_tail(v.drop_last()) + ", "@ + t_spec(v.last()) decreases v.len()
{
    if v.len() == 1 { assert(v.skip(1).len() == 0); assert(v.drop_last().len() == 0); assert(spec_tail(v.skip(1)) =~= seq![]); assert(spec_tail(v.drop_last()) =~= seq![]); assert(spec_tail(v) =~= ", "@ + t_spec(v[0])); assert(spec_tail(v.drop_last()) + ", "@ =~= ", "@); }
    else { lemma_spec_tail_last(v.skip(1)); assert(v.skip(1).drop_last() =~= v.drop_last().skip(1)); assert(v.skip(1).last() == v.last()); assert(v.drop_last()[0] == v[0]);
        assert(spec_tail(v) =~= (", "@ + t_spec(v[0]) + spec_tail(v.drop_last().skip(1))) + ", "@ + t_spec(v.last())); }
}
pub proof fn lemma_spec(v: (CompareOp, S), r: S) requires good_spec(v), r.len() == 0 || !of(Kind::Version, r[0]) ensures p_spec(t_spec(v) + r) == Some((v, r)), p_spec(" "@ + (t_spec(v) + r)) == Some((v, r)), t_spec(v).len() > 0, !blank(t_spec(v)[0]), !starts(t_spec(v) + r, "("@)
{
    reveal_strlit(" "); reveal_strlit("(");
    let s = t_spec(v) + r; let s2 = " "@ + (v.1 + r);
    assert(s =~= t_cmp(v.0) + s2); assert(s2[0] == ' '); lemma_cmp(v.0, s2);
    assert(s[0] == t_cmp(v.0)[0]); lemma_ws(s); lemma_space(s);
    assert((v.1 + r)[0] == v.1[0]); assert(of(Kind::Version, v.1[0])); lemma_space(v.1 + r);
    lemma_run(Kind::Version, v.1, r);
    lemma_first_cmp(v.0); lemma_differ(s, "("@, 0);
}
pub proof fn lemma_first_cmp(c: CompareOp) ensures t_cmp(c)[0] != '('
{ reveal_strlit("<="); reveal_strlit("<"); reveal_strlit("!="); reveal_strlit("=="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~="); }
pub proof fn lemma_more_specs(v: Seq<(CompareOp, S)>, r: S) requires good_specs(v), ends_specs(r) ensures more_specs(spec_tail(v) + r) == (v, r), (spec_tail(v) + r).len() == 0 || !of(Kind::Version, (spec_tail(v) + r)[0]) decreases v.len()
{
    reveal_strlit(","); reveal_strlit(", "); reveal_strlit(" ");
    let s = spec_tail(v) + r;
    if v.len() == 0 { assert(s =~= r); assert(v =~= seq![]); lemma_ws(r); if r.len() > 0 { lemma_differ(r, ","@, 0); } }
    else {
        let w = v.skip(1);
        assert forall|i: int| 0 <= i < w.len() implies good_spec(#[trigger] w[i]) by { assert(w[i] == v[i + 1]); }
        lemma_more_specs(w, r);
        let rest = spec_tail(w) + r;
        assert(", "@ =~= ","@ + " "@);
        let t = " "@ + (t_spec(v[0]) + rest);
        assert(s =~= ","@ + t);
        assert(s[0] == ','); lemma_ws(s); lemma_after(","@, t);
        lemma_spec(v[0], rest);
        assert(rest.len() < s.len());
        assert(seq![v[0]] + w =~= v);
    }
}
pub proof fn lemma_list(v: Seq<(CompareOp, S)>, r: S) requires good_specs(v), v.len() > 0, ends_specs(r) ensures p_specs(t_specs(v) + r) == Some((v, r)), t_specs(v).len() > 0, !blank(t_specs(v)[0])
{
    lemma_spec_tail(v);
    let w = v.skip(1);
    assert forall|i: int| 0 <= i < w.len() implies good_spec(#[trigger] w[i]) by { assert(w[i] == v[i + 1]); }
    lemma_more_specs(w, r);
    let rest = spec_tail(w) + r;
    lemma_spec(v[0], rest);
    assert(t_specs(v) + r =~= t_spec(v[0]) + rest);
    assert(seq![v[0]] + w =~= v);
}
pub proof fn lemma_spec_good(s: S) ensures p_spec(s) matches Some((v, _)) ==> good_spec(v)
{
    if p_cmp(ws(s)) is Some { let r = ws(p_cmp(ws(s))->Some_0.1); lemma_span(Kind::Version, r); let n = span(Kind::Version, r); assert forall|i: int| 0 <= i < r.take(n).len() implies of(Kind::Version, #[trigger] r.take(n)[i]) by { assert(r.take(n)[i] == r[i]); } }
}
pub proof fn lemma_more_good(s: S) ensures good_specs(more_specs(s).0) decreases s.len()
{
    match after(ws(s), ","@) { Some(t) => { lemma_spec_good(t); match p_spec(t) { Some((v, r)) => if r.len() < s.len() { lemma_more_good(r); }, None => {} } }, None => {} }
}
pub proof fn lemma_specs_good(s: S) ensures p_specs(s) matches Some((v, _)) ==> good_specs(v) && v.len() > 0
{
    lemma_list_good(s);
    match after(s, "("@) { Some(t) => lemma_list_good(t), None => {} }
}
pub proof fn lemma_list_good(s: S) ensures p_list(s) matches Some((v, _)) ==> good_specs(v) && v.len() > 0
{ lemma_spec_good(s); if p_spec(s) is Some { lemma_more_good(p_spec(s)->Some_0.1); } }
// names
pub open spec fn good_names(v: Seq<S>) -> bool { forall|i: int| 0 <= i < v.len() ==> project_name(#[trigger] v[i]) }
pub open spec fn name_tail(v: Seq<S>) -> S decreases v.len() { if v.len() == 0 { seq![] } else { ","@ + v[0] + name_tail(v.skip(1)) } }
pub proof fn lemma_name_tail(v: Seq<S>) requires v.len() > 0 ensures t_names(v) == v[0] + name_tail(v.skip(1)) decreases v.len()
{
    if v.len() == 1 { assert(v.skip(1).len() == 0); assert(v[0] + name_tail(v.skip(1)) =~= v[0]); }
    else { lemma_name_tail(v.drop_last()); lemma_name_tail_last(v.skip(1)); assert(v.drop_last().skip(1) =~= v.skip(1).drop_last()); assert(v.skip(1).last() == v.last());
        assert(t_names(v) =~= v[0] + (name_tail(v.skip(1).drop_last()) + ","@ + v.last())); }
}
pub proof fn lemma_name_tail_last(v: Seq<S>) requires v.len() > 0 ensures name_tail(v) == name_tail(v.drop_last()) + ","@ + v.last() decreases v.len()
{
    if v.len() == 1 { assert(v.skip(1).len() == 0); assert(v.drop_last().len() == 0); assert(name_tail(v.skip(1)) =~= seq![]); assert(name_tail(v.drop_last()) =~= seq![]); assert(name_tail(v) =~= ","@ + v[0]); assert(name_tail(v.drop_last()) + ","@ =~= ","@); }
    else { lemma_name_tail_last(v.skip(1)); assert(v.skip(1).drop_last() =~= v.drop_last().skip(1)); assert(v.skip(1).last() == v.last()); assert(v.drop_last()[0] == v[0]);
        assert(name_tail(v) =~= (","@ + v[0] + name_tail(v.drop_last().skip(1))) + ","@ + v.last()); }
}
pub proof fn lemma_name(n: S, r: S) requires project_name(n), r.len() == 0 || !of(Kind::Name, r[0]) ensures p_name(n + r) == Some((n, r)), ws(n + r) == n + r
{
    let t = n.skip(1);
    assert((n + r)[0] == n[0]); assert((n + r).skip(1) =~= t + r);
    assert forall|i: int| 0 <= i < t.len() implies of(Kind::Name, #[trigger] t[i]) by { assert(t[i] == n[i + 1]); }
    lemma_run(Kind::Name, t, r);
    assert((n + r).take(n.len() as int) =~= n); assert((n + r).skip(n.len() as int) =~= r);
    lemma_ws(n + r);
}
pub proof fn lemma_more_names(v: Seq<S>, r: S) requires good_names(v), r.len() > 0, r[0] == ']' ensures more_names(name_tail(v) + r) == (v, r), (name_tail(v) + r).len() > 0, !of(Kind::Name, (name_tail(v) + r)[0]) decreases v.len()
{
    reveal_strlit(",");
    let s = name_tail(v) + r;
    if v.len() == 0 { assert(s =~= r); assert(v =~= seq![]); lemma_ws(r); lemma_differ(r, ","@, 0); }
    else {
        let w = v.skip(1);
        assert forall|i: int| 0 <= i < w.len() implies project_name(#[trigger] w[i]) by { assert(w[i] == v[i + 1]); }
        lemma_more_names(w, r);
        let rest = name_tail(w) + r;
        assert(s =~= ","@ + (v[0] + rest));
        assert(s[0] == ','); lemma_ws(s); lemma_after(","@, v[0] + rest);
        lemma_name(v[0], rest);
        assert(rest.len() < s.len());
        assert(seq![v[0]] + w =~= v);
    }
}
pub proof fn lemma_extras(v: Seq<S>, r: S) requires good_names(v), v.len() > 0 ensures p_extras("["@ + t_names(v) + "]"@ + r) == Some((v, r))
{
    reveal_strlit("["); reveal_strlit("]");
    lemma_name_tail(v);
    let w = v.skip(1);
    assert forall|i: int| 0 <= i < w.len() implies project_name(#[trigger] w[i]) by { assert(w[i] == v[i + 1]); }
    let close = "]"@ + r;
    lemma_more_names(w, close);
    let rest = name_tail(w) + close;
    lemma_name(v[0], rest);
    assert("["@ + t_names(v) + "]"@ + r =~= "["@ + (v[0] + rest)); lemma_after("["@, v[0] + rest);
    assert(seq![v[0]] + w =~= v);
    lemma_ws(close); lemma_after("]"@, r);
}
pub proof fn lemma_more_names_good(s: S) ensures good_names(more_names(s).0) decreases s.len()
{
    match after(ws(s), ","@) { Some(t) => match p_name(ws(t)) { Some((n, r)) => if r.len() < s.len() { lemma_more_names_good(r); }, None => {} }, None => {} }
}
pub proof fn lemma_extras_good(s: S) ensures p_extras(s) matches Some((v, _)) ==> good_names(v)
{ match after(s, "["@) { Some(t) => if p_name(ws(t)) is Some { lemma_more_names_good(p_name(ws(t))->Some_0.1); }, None => {} } }
pub open spec fn good_req(q: Q, x: bool) -> bool { project_name(q.name) && good_names(q.extras) && good_specs(q.specs) && (q.marker matches Some(m) ==> good_m(m, x)) }
pub open spec fn txt_m(q: Q) -> S { match q.marker { Some(m) => "; "@ + t_marker(m), None => seq![] } }
pub open spec fn txt_v(q: Q) -> S { if q.specs.len() > 0 { " "@ + t_specs(q.specs) } else { seq![] } }
pub open spec fn txt_e(q: Q) -> S { if q.extras.len() > 0 { "["@ + t_names(q.extras) + "]"@ } else { seq![] } }
pub proof fn lemma_part_m(q: Q, x: bool) requires good_req(q, x) ensures opt_marker(txt_m(q), x) == (q.marker, Seq::<char>::empty()), txt_m(q).len() == 0 || txt_m(q)[0] == ';', ws(txt_m(q)) == txt_m(q)
{
    let none = Seq::<char>::empty(); let m = txt_m(q);
    reveal_strlit(" "); reveal_strlit(";"); reveal_strlit("; ");
    if q.marker is Some {
        let t = t_marker(q.marker->Some_0);
        lemma_marker(q.marker->Some_0, x);
        assert("; "@ =~= ";"@ + " "@); assert(m =~= ";"@ + (" "@ + t)); lemma_after(";"@, " "@ + t); lemma_space(t);
        assert(m[0] == ';');
    } else { assert(!starts(none, ";"@)); }
    lemma_ws(m);
}
pub proof fn lemma_part_v(q: Q, x: bool) requires good_req(q, x)
    ensures opt_specs(ws(txt_v(q) + txt_m(q))) == (q.specs, txt_m(q)), ({ let vm = txt_v(q) + txt_m(q); vm.len() == 0 || vm[0] == ';' || vm[0] == ' ' }), ({ let z = ws(txt_v(q) + txt_m(q)); ws(z) == z && (z.len() == 0 || z[0] != '[') })
{
    reveal_strlit(" "); reveal_strlit("(");
    lemma_part_m(q, x);
    let m = txt_m(q); let vm = txt_v(q) + m;
    if q.specs.len() > 0 {
        let t = t_specs(q.specs) + m;
        lemma_list(q.specs, m); lemma_first(q.specs);
        assert(vm =~= " "@ + t); assert(t[0] == t_specs(q.specs)[0]); lemma_space(t); lemma_ws(t);
        assert(vm[0] == ' ');
    } else {
        assert(vm =~= m); lemma_no_cmp(m); if m.len() > 0 { lemma_differ(m, "("@, 0); }
        assert(q.specs =~= seq![]);
        assert(p_spec(m) is None); assert(p_specs(m) is None);
    }
}
pub proof fn lemma_part_e(q: Q, x: bool) requires good_req(q, x)
    ensures ({ let evm = txt_e(q) + (txt_v(q) + txt_m(q)); &&& opt_extras(ws(evm)).0 == q.extras &&& ws(opt_extras(ws(evm)).1) == ws(txt_v(q) + txt_m(q)) &&& evm.len() == 0 || !of(Kind::Name, evm[0]) })
{
    reveal_strlit("[");
    lemma_part_v(q, x);
    let vm = txt_v(q) + txt_m(q); let evm = txt_e(q) + vm;
    if q.extras.len() > 0 {
        lemma_extras(q.extras, vm); assert(evm =~= "["@ + t_names(q.extras) + "]"@ + vm); assert(evm[0] == '['); lemma_ws(evm);
    } else {
        assert(evm =~= vm); assert(q.extras =~= seq![]);
        let z = ws(vm);
        if z.len() > 0 { lemma_differ(z, "["@, 0); }
        assert(p_extras(z) is None);
    }
}
pub proof fn lemma_req(q: Q, x: bool) requires good_req(q, x) ensures read_req(t_req(q), x) == Some(q)
{
    let evm = txt_e(q) + (txt_v(q) + txt_m(q));
    lemma_part_e(q, x); lemma_part_v(q, x); lemma_part_m(q, x);
    assert(t_req(q) == q.name + txt_e(q) + txt_v(q) + txt_m(q));
    assert(q.name + txt_e(q) + txt_v(q) + txt_m(q) =~= q.name + evm);
    lemma_name(q.name, evm);
    lemma_ws(Seq::<char>::empty());
    let none = Seq::<char>::empty();
    assert(p_req(q.name + evm, x) == Some((q, none)));
}
pub proof fn lemma_first(v: Seq<(CompareOp, S)>) requires v.len() > 0 ensures t_specs(v).len() > 0, t_specs(v)[0] != '[', !blank(t_specs(v)[0])
{ reveal_strlit("<="); reveal_strlit("<"); reveal_strlit("!="); reveal_strlit("=="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~="); lemma_spec_tail(v); let t = t_cmp(v[0].0); assert(t.len() > 0); assert(t_spec(v[0])[0] == t[0]); assert(t_specs(v)[0] == t_spec(v[0])[0]); }
// ---- the property: whatever is accepted is printed as a text that reads back as the same
pub proof fn prints_what_it_read(s: S, x: bool) ensures read_req(s, x) matches Some(q) ==> read_req(t_req(q), x) == Some(q)
{
    if read_req(s, x) is Some {
        let q = read_req(s, x)->Some_0;
        let r = ws(p_name(ws(s))->Some_0.1);
        lemma_extras_good(r);
        let r2 = ws(opt_extras(r).1);
        lemma_specs_good(r2);
        let r3 = ws(opt_specs(r2).1);
        match after(r3, ";"@) { Some(t) => lemma_or_good(ws(t), x), None => {} }
        lemma_req(q, x);
    }
}
pub proof fn prints_the_marker_it_read(s: S) ensures read_marker(s) matches Some(m) ==> read_marker(t_marker(m)) == Some(m)
{ if read_marker(s) is Some { lemma_or_good(s, false); lemma_marker(read_marker(s)->Some_0, false); } }
pub proof fn lemma_not_nothing(t: S) requires p_specs(t) is Some, t.len() > 0, !blank(t[0]) ensures !nothing(t)
{
    reveal_strlit("("); reveal_strlit("<="); reveal_strlit("<"); reveal_strlit("!="); reveal_strlit("=="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("~=");
    assert(span(Kind::Blank, t) == 0); assert(t.skip(0) =~= t);
    if p_in_parens(t) is Some { assert(t.take(1)[0] == t[0]); assert("("@[0] == '('); assert(!white(t[0])); }
    else {
        assert(p_cmp(t) is Some);
        assert(t.take(1)[0] == t[0]);
        if t.len() >= 2 { assert(t.take(2)[0] == t[0]); }
        assert("<="@[0] == '<'); assert("<"@[0] == '<'); assert("!="@[0] == '!'); assert("=="@[0] == '='); assert(">="@[0] == '>'); assert(">"@[0] == '>'); assert("~="@[0] == '~');
        assert(!white(t[0]));
    }
}
pub proof fn prints_the_versions_it_read(s: S) ensures read_specs(s) matches Some(v) ==> read_specs(t_specs(v)) == Some(v)
{
    if read_specs(s) is Some {
        let v = read_specs(s)->Some_0;
        if nothing(s) { assert(t_specs(v).len() == 0); }
        else { lemma_specs_good(s); lemma_list(v, Seq::empty()); assert(t_specs(v) + Seq::<char>::empty() =~= t_specs(v)); lemma_not_nothing(t_specs(v)); }
    }
}
}
