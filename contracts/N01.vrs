@include contracts/common.vrs
@include contracts/fmt.vrs
@include contracts/names_spec.vrs
verus! {
// what derived comparisons look at
pub trait Derived { spec fn same(&self, o: &Self) -> bool; spec fn hashed(&self) -> Seq<Seq<char>>; spec fn rank(&self) -> Seq<Seq<char>>; }
impl Derived for String {
    open spec fn same(&self, o: &String) -> bool { self@ == o@ }
    open spec fn hashed(&self) -> Seq<Seq<char>> { seq![self@] }
    open spec fn rank(&self) -> Seq<Seq<char>> { seq![self@] }
}
// ---- the two patterns (what they match is validated by the bounded part)
#[verifier::external_body] pub struct ReName { x: u8 }
#[verifier::external_body] pub struct ReRuns { x: u8 }
#[verifier::external_body] pub fn re_name() -> (r: ReName) { unimplemented!() }
#[verifier::external_body] pub fn re_runs() -> (r: ReRuns) { unimplemented!() }
impl ReName { #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == project_name(s@) { unimplemented!() } }
impl ReRuns { #[verifier::external_body] pub fn dash_all(&self, s: &str) -> (r: String) ensures r@ == dashed(s@) { unimplemented!() } }
#[verifier::external_body]
pub fn make_ascii_lowercase(s: &mut String) ensures final(s)@ == lowered(old(s)@) { unimplemented!() }

@type src/vocab/package_name.rs | type:PackageName ;
@derived src/vocab/package_name.rs | type:PackageName PartialEq Eq PartialOrd Ord Hash
@type src/vocab/extra.rs | type:Extra ;
@derived src/vocab/extra.rs | type:Extra PartialEq Eq Hash
impl PackageName {
    pub open spec fn wf(&self) -> bool { project_name(self.as_given@) && self.normalized@ == normal(self.as_given@) }
@fn src/vocab/package_name.rs | PackageName/fn:as_given
@sub? `&self.as_given` => `self.as_given.as_str()`
@sub? `&self.normalized` => `self.normalized.as_str()`
@sig pub fn as_given(&self) -> (r: &str) ensures r@ == self.as_given@
@endfn
@fn src/vocab/package_name.rs | PackageName/fn:normalized
@sub? `&self.as_given` => `self.as_given.as_str()`
@sub? `&self.normalized` => `self.normalized.as_str()`
@sig pub fn normalized(&self) -> (r: &str) ensures r@ == self.normalized@
@endfn
@fn src/vocab/package_name.rs | TryFrom<&str> for PackageName/fn:try_from
@sub `static NAME_VALIDATE: Lazy<Regex> = Lazy::new(|| { Regex::new(r"(?i-u)^([A-Z0-9]|[A-Z0-9][A-Z0-9._-]*[A-Z0-9])$").unwrap() });` => `let name_validate = re_name();`
@sub `static NAME_NORMALIZE: Lazy<Regex> = Lazy::new(|| Regex::new(r"[-_.]+").unwrap());` => `let name_normalize = re_runs();`
@sub? `NAME_VALIDATE` => `name_validate`
@sub? `NAME_NORMALIZE.replace_all(&as_given, "-").to_string()` => `name_normalize.dash_all(as_given.as_str())`
@sub? `normalized.make_ascii_lowercase();` => `make_ascii_lowercase(&mut normalized);`
@sub? `as_given.to_owned()` => `to_text(as_given)`
@params as_given0
@sig pub fn try_from(as_given0: &str) -> (r: Result<PackageName, Report>)
    ensures r is Ok <==> project_name(as_given0@), r matches Ok(n) ==> n.as_given@ == as_given0@ && n.wf()
@endfn
}
impl Extra {
@fn src/vocab/extra.rs | Extra/fn:as_given
@sig pub fn as_given(&self) -> (r: &str) ensures r@ == self.0.as_given@
@endfn
@fn src/vocab/extra.rs | Extra/fn:normalized
@sig pub fn normalized(&self) -> (r: &str) ensures r@ == self.0.normalized@
@endfn
@fn src/vocab/extra.rs | TryFrom<&str> for Extra/fn:try_from
@sub? `s.try_into()?` => `PackageName::try_from(s)?`
@params s
@sig pub fn try_from(s: &str) -> (r: Result<Extra, Report>)
    ensures r is Ok <==> project_name(s@), r matches Ok(n) ==> n.0.as_given@ == s@ && n.0.wf()
@endfn
}
// two names are the same, hash alike and sort together exactly when their normalized forms agree
pub proof fn names_compare(a: PackageName, b: PackageName) requires a.wf(), b.wf()
    ensures
        a.same(&b) <==> normal(a.as_given@) == normal(b.as_given@),
        a.hashed() == b.hashed() <==> normal(a.as_given@) == normal(b.as_given@),
        a.rank() == seq![normal(a.as_given@)],
        project_name(normal(a.as_given@)) && is_normal(normal(a.as_given@)) && normal(normal(a.as_given@)) == normal(a.as_given@)
{
    lemma_normal(a.as_given@); lemma_fixed(normal(a.as_given@));
    assert(a.hashed() == seq![a.normalized@]); assert(b.hashed() == seq![b.normalized@]);
    assert(a.hashed()[0] == a.normalized@ && b.hashed()[0] == b.normalized@);
}
pub proof fn extras_compare(a: Extra, b: Extra) requires a.0.wf(), b.0.wf()
    ensures a.same(&b) <==> normal(a.0.as_given@) == normal(b.0.as_given@), a.hashed() == b.hashed() <==> normal(a.0.as_given@) == normal(b.0.as_given@)
{ names_compare(a.0, b.0); }
}
fn main() {}
