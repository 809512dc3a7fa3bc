@note specifiers as version ranges (proved wherever included)
verus! {
use core::ops::Range;

// the dependency's parser, as an uninterpreted function; only the two literals posy itself
// writes are given meaning
pub uninterp spec fn spec_parse(s: Seq<char>) -> Option<Version>;
#[verifier::external_body]
pub proof fn axiom_parse_literals()
    ensures
        spec_parse("0.dev0"@) matches Some(v) && v.0.epoch == 0 && v.0.release@ =~= seq![0u32] && v.0.pre is None && v.0.post is None
            && v.0.dev == Some(0u32) && v.0.local@.len() == 0,
        spec_parse("0a0.dev0"@) matches Some(v) && v.0.epoch == 0 && v.0.release@ =~= seq![0u32] && v.0.pre == Some(pep440::PreRelease::A(0)) && v.0.post is None
            && v.0.dev == Some(0u32) && v.0.local@.len() == 0,
{}
#[verifier::external_body]
pub fn parse_version(s: &str) -> (r: Result<Version, Report>)
    ensures r is Ok <==> spec_parse(s@) is Some, r is Ok ==> Some(r->Ok_0) == spec_parse(s@)
{ unimplemented!() }
// `s.strip_suffix(".*")`
pub open spec fn ends_dotstar(s: Seq<char>) -> bool { s.len() >= 2 && s[s.len() - 2] == '.' && s[s.len() - 1] == '*' }
#[verifier::external_body]
pub fn strip_suffix<'a>(s: &'a str, suffix: &str) -> (r: Option<&'a str>)
    ensures
        r matches Some(p) ==> s@ =~= p@ + suffix@,
        r is None ==> !(s@.len() >= suffix@.len() && s@.subrange(s@.len() - suffix@.len(), s@.len() as int) =~= suffix@),
{ unimplemented!() }
// the specifier's right-hand side: version and whether it ends in ".*"
pub open spec fn spec_rhs(s: Seq<char>) -> Option<(Version, bool)> {
    if ends_dotstar(s) { match spec_parse(s.take(s.len() - 2)) { Some(v) => Some((v, true)), None => None } }
    else { match spec_parse(s) { Some(v) => Some((v, false)), None => None } }
}
pub open spec fn rhs_in_domain(s: Seq<char>) -> bool { spec_rhs(s) matches Some(p) ==> in_domain(p.0) }

@fn src/vocab/version.rs | const:VERSION_ZERO
@sub? `$s.try_into().unwrap()` => `parse_version($s).unwrap()`
@sig pub fn version_zero() -> (r: Version)
    ensures
        // nothing sorts below it
        forall|c: Version| in_domain(c) ==> !#[trigger] vlt(c, r),
@at start
proof { axiom_parse_literals();
    reveal_strlit("0.dev0"); reveal_strlit("0a0.dev0");
}
@endfn

@fn src/vocab/version.rs | const:VERSION_INFINITY
@sig pub fn version_infinity() -> (r: Version)
    ensures forall|c: Version| in_domain(c) ==> #[trigger] vlt(c, r), forall|c: Version| in_domain(c) ==> r.0.epoch > c.0.epoch,
@endfn

impl Version {
@fn src/vocab/version.rs | Version/fn:is_prerelease
@sig pub fn is_prerelease(&self) -> (r: bool)
    ensures r == is_pre(*self),
@endfn

@fn src/vocab/version.rs | Version/fn:next
@sig pub fn next(&self) -> (r: Version)
    requires in_domain(*self),
    ensures
        // with a local label: directly above; otherwise: above the version and all its local
        // variants, and directly above those
        self.0.local@.len() == 0 ==> forall|c: Version| #[trigger] vlt(c, r) <==> (pub_lt(c, *self) || pub_eq(c, *self)),
        self.0.local@.len() > 0 ==> forall|c: Version| (#[trigger] vlt(c, r) && !vlt(c, *self)) <==> veq(c, *self),
        self.0.local@.len() > 0 ==> forall|c: Version| #[trigger] vlt(c, *self) ==> vlt(c, r),
@at start
proof {
    assert forall|x: Local, b: Local| next_local(self.0.local@, b) implies
        ((!local_lt(x, self.0.local@) && #[trigger] local_lt(x, b)) <==> local_eq(x, self.0.local@))
        && (local_lt(x, self.0.local@) ==> local_lt(x, b)) by { lemma_local_next(x, self.0.local@, b); }
}
@endfn
}

@fn src/vocab/specifier.rs | fn:parse_version_wildcard
@sub? `input.strip_suffix($s)` => `strip_suffix(input, $s)`
@sub? `vstr.try_into()?` => `parse_version(vstr)?`
@params input
@sig fn parse_version_wildcard(input: &str) -> (r: Result<(Version, bool), Report>)
    ensures
        r is Ok <==> spec_rhs(input@) is Some,
        r is Ok ==> Some(r->Ok_0) == spec_rhs(input@),
@at start
proof {
    reveal_strlit(".*");
    assert forall|p: Seq<char>| input@ =~= #[trigger] (p + ".*"@) implies ends_dotstar(input@) && input@.take(input@.len() - 2) =~= p by {}
    if ends_dotstar(input@) { assert(input@.subrange(input@.len() - 2, input@.len() as int) =~= ".*"@); }
}
@endfn

pub open spec fn in_range(r: Range<Version>, c: Version) -> bool { !vlt(c, r.start) && vlt(c, r.end) }
pub open spec fn in_ranges(rs: Seq<Range<Version>>, c: Version) -> bool { exists|i: int| 0 <= i < rs.len() && in_range(#[trigger] rs[i], c) }

impl CompareOp {
@fn src/vocab/specifier.rs | CompareOp/fn:to_ranges
@sub? `VERSION_ZERO.clone()` => `version_zero()`
@sub? `VERSION_INFINITY.clone()` => `version_infinity()`
@sub? `(&version.0.pre, &version.0.dev) == (&None, &None)` => `version.0.pre.is_none() && version.0.dev.is_none()`
@sub? `self != &Equal` => `*self != CompareOp::Equal`
@sub? `self != &NotEqual` => `*self != CompareOp::NotEqual`
@params rhs
@sig pub fn to_ranges(&self, rhs: &str) -> (r: Result<Vec<Range<Version>>, Report>)
    requires rhs_in_domain(rhs@),
    ensures
        r is Ok <==> (spec_rhs(rhs@) matches Some(p) && allowed(*self, p.0, p.1)),
        r is Ok ==> (spec_rhs(rhs@) matches Some(p) && forall|c: Version| in_domain(c) ==>
            (#[trigger] in_ranges(r->Ok_0@, c) <==> admits(*self, p.0, p.1, c))),
@at start
proof {
    if spec_rhs(rhs@) is Some {
        let v = spec_rhs(rhs@)->Some_0.0;
        let a = v.0.release@;
        assert forall|c: Seq<u32>, b: Seq<u32>| bumped(a, b, a.len() as int) implies
            (rel_prefix(c, a, a.len() as int) <==> (!rel_lt(c, a) && #[trigger] rel_lt(c, b)))
            && (rel_eq(c, b) ==> !rel_prefix(c, a, a.len() as int)) by { lemma_prefix_interval(c, a, b); }
        if a.len() >= 2 {
            assert forall|c: Seq<u32>, b: Seq<u32>| bumped(a, b, a.len() - 1) implies
                (!rel_lt(c, a) ==> (rel_prefix(c, a, a.len() - 1) <==> #[trigger] rel_lt(c, b)))
                && (rel_eq(c, b) ==> !rel_prefix(c, a, a.len() - 1)) by { lemma_compatible(c, a, b, a.len() - 1); }
        }
        assert forall|c: Seq<u32>| #![trigger rel_lt(c, a)] #![trigger rel_lt(a, c)]
            (rel_lt(c, a) || rel_eq(c, a) || rel_lt(a, c)) && !(rel_lt(c, a) && rel_eq(c, a)) && !(rel_lt(a, c) && rel_eq(c, a))
            && !(rel_lt(c, a) && rel_lt(a, c)) && (rel_eq(a, c) <==> rel_eq(c, a)) by { lemma_rel_trichotomy(c, a); }
    }
}
@endfn
}

// Ord for pep440::Version (dependency): assumed to be the order above; v_r01_order checks it
#[verifier::external_body]
pub fn version_lt(a: &Version, b: &Version) -> (r: bool) ensures r == vlt(*a, *b) { unimplemented!() }
// Vec<Range<Version>>::into_iter().any(|r| r.contains(version))
pub fn any_contains(rs: Vec<Range<Version>>, c: &Version) -> (r: bool)
    ensures r == in_ranges(rs@, *c)
{
    let mut i = 0;
    while i < rs.len()
        invariant i <= rs.len(), forall|j: int| 0 <= j < i ==> !in_range(#[trigger] rs@[j], *c),
        decreases rs.len() - i
    {
        let r = &rs[i];
        if !version_lt(c, &r.start) && version_lt(c, &r.end) { assert(in_range(rs@[i as int], *c)); return true; }
        i += 1;
    }
    false
}
pub open spec fn spec_allowed(s: Specifier) -> bool { spec_rhs(s.value@) matches Some(p) && allowed(s.op, p.0, p.1) }
pub open spec fn spec_admits(s: Specifier, c: Version) -> bool { spec_rhs(s.value@) matches Some(p) && admits(s.op, p.0, p.1, c) }
impl Specifier {
@fn src/vocab/specifier.rs | Specifier/fn:to_ranges
@sig pub fn to_ranges(&self) -> (r: Result<Vec<Range<Version>>, Report>)
    requires rhs_in_domain(self.value@),
    ensures
        r is Ok <==> spec_allowed(*self),
        r is Ok ==> forall|c: Version| in_domain(c) ==> (#[trigger] in_ranges(r->Ok_0@, c) <==> spec_admits(*self, c)),
@endfn
@fn src/vocab/specifier.rs | Specifier/fn:satisfied_by
@sub? `$e.into_iter().any(|$r| $r.contains($v))` => `any_contains($e, $v)`
@params version
@sig pub fn satisfied_by(&self, version: &Version) -> (r: Result<bool, Report>)
    requires rhs_in_domain(self.value@), in_domain(*version),
    ensures
        r is Ok <==> spec_allowed(*self),
        r is Ok ==> r->Ok_0 == spec_admits(*self, *version),
@endfn
}
impl Specifiers {
@fn src/vocab/specifier.rs | Specifiers/fn:satisfied_by
@params version
@sig pub fn satisfied_by(&self, version: &Version) -> (r: Result<bool, Report>)
    requires forall|i: int| 0 <= i < self.0@.len() ==> rhs_in_domain((#[trigger] self.0@[i]).value@), in_domain(*version),
    ensures
        (forall|i: int| 0 <= i < self.0@.len() ==> spec_allowed(#[trigger] self.0@[i])) ==> r is Ok,
        r == Ok::<bool, Report>(true) ==> forall|i: int| 0 <= i < self.0@.len() ==> spec_allowed(self.0@[i]) && spec_admits(#[trigger] self.0@[i], *version),
        r == Ok::<bool, Report>(false) ==> exists|i: int| 0 <= i < self.0@.len() && spec_allowed(self.0@[i]) && !spec_admits(#[trigger] self.0@[i], *version),
@loop 1 iter=it
    invariant
        it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] it.seq()[i]) == self.0@[i], in_domain(*version),
        forall|i: int| 0 <= i < self.0@.len() ==> rhs_in_domain((#[trigger] self.0@[i]).value@),
        forall|i: int| 0 <= i < it.index() ==> spec_allowed(self.0@[i]) && spec_admits(#[trigger] self.0@[i], *version),
@endfn
}
}
