verus! {
// ---- where a member lands
pub struct WheelCoreMetadata { pub name: PackageName, pub version: Version, pub rest: Rest }
#[verifier::external_body] pub struct Rest { x: u8 }
@type src/vocab/artifact_formats.rs | type:WheelVitals ;
// ---- the special directories
#[verifier::external_body] pub struct PackageName { x: u8 }
#[verifier::external_body] pub struct Version { x: u8 }
// which name / version a text spells, up to equality (N01, R01); None: not one
pub uninterp spec fn name_of(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn version_of(t: Seq<char>) -> Option<int>;
impl PackageName {
    pub uninterp spec fn norm(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<PackageName, Report>) ensures r is Ok <==> name_of(s@) is Some, r is Ok ==> Some(r->Ok_0.norm()) == name_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &PackageName) -> (r: bool) ensures r == (self.norm() == o.norm()) { unimplemented!() }
}
impl Version {
    pub uninterp spec fn key(&self) -> int;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Version, Report>) ensures r is Ok <==> version_of(s@) is Some, r is Ok ==> Some(r->Ok_0.key()) == version_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &Version) -> (r: bool) ensures r == (self.key() == o.key()) { unimplemented!() }
}
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { !s.contains(c) }
// <name>-<version>.<rest>: the last '-' that some '.' follows, and the last '.'
pub open spec fn dir_parts(t: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool { exists|c: Seq<char>| t == a + "-"@ + b + "."@ + c && lacks(b, '-') && lacks(c, '.') }
#[verifier::external_body] pub struct ReDir { x: u8 }
#[verifier::external_body] pub fn re_dir() -> (r: ReDir) { unimplemented!() }
impl ReDir {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures lacks(s@, '\n') ==> match r {
            Some(c) => c.g(1) is Some && c.g(2) is Some && dir_parts(s@, c.g(1)->Some_0, c.g(2)->Some_0),
            None => forall|a: Seq<char>, b: Seq<char>| !#[trigger] dir_parts(s@, a, b),
        }, r matches Some(c) ==> c.g(1) is Some && c.g(2) is Some
    { unimplemented!() }
}
pub open spec fn ends(t: Seq<char>, s: Seq<char>) -> bool { t.len() >= s.len() && t.skip(t.len() - s.len()) == s }
#[verifier::external_body]
pub fn ends_with(t: &str, s: &str) -> (r: bool) ensures r == ends(t@, s@) { unimplemented!() }
pub fn filter_names<'a, F: Fn(&&'a str) -> bool>(v: Vec<&'a str>, f: F) -> (r: Vec<&'a str>)
    requires forall|s: &&str| #[trigger] f.requires((s,))
    ensures forall|p: spec_fn(&'a str) -> bool| (forall|s: &&'a str, o: bool| #[trigger] f.ensures((s,), o) ==> o == p(*s)) ==> r@ == v@.filter(p)
{
    let mut out: Vec<&'a str> = Vec::new();
    let ghost v0 = v@;
    let mut it = vec_iter(v);
    proof { assert(v0.take(0) =~= Seq::<&'a str>::empty()); assert forall|p: spec_fn(&'a str) -> bool| v0.take(0).filter(p) == Seq::<&'a str>::empty() by { reveal(Seq::filter); } }
    while it.more()
        invariant it.wf(), it.all@ == v0, forall|s: &&str| #[trigger] f.requires((s,)),
            forall|p: spec_fn(&'a str) -> bool| (forall|s: &&'a str, o: bool| #[trigger] f.ensures((s,), o) ==> o == p(*s)) ==> out@ == #[trigger] v0.take(it.i@ as int).filter(p)
        decreases v0.len() - it.i@
    {
        let ghost k = it.i@ as int;
        let ghost o0 = out@;
        let s = it.take();
        let keep = f(&s);
        proof {
            assert(v0.take(k + 1).drop_last() =~= v0.take(k)); assert(v0.take(k + 1).last() == s);
            assert forall|p: spec_fn(&'a str) -> bool| (forall|s: &&'a str, o: bool| #[trigger] f.ensures((s,), o) ==> o == p(*s)) implies (if keep { o0.push(s) } else { o0 }) == #[trigger] v0.take(k + 1).filter(p) by { reveal(Seq::filter); assert(o0 == v0.take(k).filter(p)); assert(keep == p(s)); }
        }
        if keep { out.push(s); }
    }
    proof { assert(v0.take(v0.len() as int) =~= v0); }
    out
}
pub open spec fn special(names: Seq<&str>, suffix: Seq<char>) -> Seq<&str> { names.filter(|s: &str| ends(s@, suffix)) }
pub open spec fn spells(t: Seq<char>, name: Seq<char>, version: int) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] dir_parts(t, a, b) && name_of(a) == Some(name) && version_of(b) == Some(version) }
pub proof fn lemma_parts_unique(t: Seq<char>, a: Seq<char>, b: Seq<char>, a2: Seq<char>, b2: Seq<char>)
    requires dir_parts(t, a, b), dir_parts(t, a2, b2)
    ensures a == a2, b == b2
{
    reveal_strlit("-"); reveal_strlit(".");
    let c = choose|c: Seq<char>| t == a + "-"@ + b + "."@ + c && lacks(b, '-') && lacks(c, '.');
    let c2 = choose|c: Seq<char>| t == a2 + "-"@ + b2 + "."@ + c && lacks(b2, '-') && lacks(c, '.');
    let e = a + "-"@ + b + "."@; let e2 = a2 + "-"@ + b2 + "."@;
    assert(t == e + c); assert(t == e2 + c2);
    let d = (a.len() + 1 + b.len()) as int; let d2 = (a2.len() + 1 + b2.len()) as int;
    assert(t[d] == '.'); assert(t[d2] == '.');
    if d < d2 { assert(t[d2] == c[d2 - d - 1]); assert(c.contains('.')); } else if d2 < d { assert((e2 + c2)[d] == c2[d - d2 - 1]); assert(c2[d - d2 - 1] == '.'); assert(c2.contains('.')); }
    let m = a.len() as int; let m2 = a2.len() as int;
    assert(t[m] == '-'); assert(t[m2] == '-');
    if m < m2 { assert(t[m2] == b[m2 - m - 1]); assert(b.contains('-')); } else if m2 < m { assert(t[m] == b2[m - m2 - 1]); assert(b2.contains('-')); }
    assert(a =~= t.take(m)); assert(a2 =~= t.take(m)); assert(b =~= t.subrange(m + 1, d)); assert(b2 =~= t.subrange(m + 1, d));
}
@fn src/vocab/artifact_formats.rs | Wheel/fn:find_special_wheel_dir
@sub `static SPECIAL_WHEEL_DIR_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^(.*)-(.*)\..*").unwrap());` => ``
@sub? `SPECIAL_WHEEL_DIR_RE` => `re_dir()`
@sub? `assert!($e);` => ``
@sub? `names.into_iter().filter(|$n| $e).collect::<Vec<_>>()` => `filter_names(names, |$n: &&str| -> (b: bool) ensures b == ends($n@, suffix@) { $e })`
@sub? `n.as_ref().ends_with($s)` => `ends_with(*n, $s)`
@sub? `candidates.is_empty()` => `(candidates.len() == 0)`
@sub? `candidate.as_ref()` => `candidate`
@sub? `: PackageName = $e.try_into()?` => `: PackageName = PackageName::parse($e)?`
@sub? `: Version = $e.try_into()?` => `: Version = Version::parse($e)?`
@sub? `name != &got_name` => `!name.same(&got_name)`
@sub? `version != &got_version` => `!version.same(&got_version)`
@params names name version suffix
@sig pub fn find_special_wheel_dir<'a>(names: Vec<&'a str>, name: &PackageName, version: &Version, suffix: &str) -> (r: Result<Option<&'a str>, Report>)
    ensures
        ({ let c = special(names@, suffix@);
            &&& c.len() == 0 ==> r is Ok && r->Ok_0 is None
            &&& c.len() > 1 ==> r is Err
            &&& c.len() == 1 && lacks(c[0]@, '\n') ==> (r is Ok <==> spells(c[0]@, name.norm(), version.key()))
            &&& r is Ok && c.len() > 0 ==> c.len() == 1 && r->Ok_0 is Some && r->Ok_0->Some_0 == c[0] && names@.contains(c[0]) && ends(c[0]@, suffix@)
        })
@at start
let ghost c = special(names@, suffix@);
proof { if c.len() > 0 { let p = |s: &str| ends(s@, suffix@); assert(c.contains(c[0])); lemma_filter_has(names@, p, c[0]); } }
proof { assert forall|t: Seq<char>, a: Seq<char>, b: Seq<char>, a2: Seq<char>, b2: Seq<char>| #[trigger] dir_parts(t, a, b) && #[trigger] dir_parts(t, a2, b2) implies a == a2 && b == b2 by { lemma_parts_unique(t, a, b, a2, b2); } }
@endfn

pub proof fn lemma_filter_has<A>(s: Seq<A>, p: spec_fn(A) -> bool, x: A) requires s.filter(p).contains(x) ensures s.contains(x), p(x) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        let i = choose|i: int| 0 <= i < s.filter(p).len() && s.filter(p)[i] == x;
        if p(s.last()) && i == s.filter(p).len() - 1 { assert(s[s.len() - 1] == x); }
        else { assert(t.filter(p)[i] == x); assert(t.filter(p).contains(x)); lemma_filter_has(t, p, x); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == x); }
    }
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub proof fn lemma_special(names: Seq<&str>, suffix: Seq<char>)
    requires strs(names).no_duplicates()
    ensures ({ let c = special(names, suffix);
        &&& c.len() == 0 ==> forall|e: Seq<char>| #[trigger] strs(names).contains(e) ==> !ends(e, suffix)
        &&& c.len() == 1 ==> strs(names).contains(c[0]@) && ends(c[0]@, suffix) && forall|e: Seq<char>| #[trigger] strs(names).contains(e) && ends(e, suffix) ==> e == c[0]@ })
{
    let c = special(names, suffix); let p = |s: &str| ends(s@, suffix);
    assert forall|i: int| 0 <= i < names.len() && ends((#[trigger] names[i])@, suffix) implies c.contains(names[i]) by { lemma_filter_keeps(names, p, i); }
    if c.len() == 0 { assert forall|e: Seq<char>| #[trigger] strs(names).contains(e) implies !ends(e, suffix) by { let i = choose|i: int| 0 <= i < strs(names).len() && strs(names)[i] == e; assert(names[i]@ == e); } }
    if c.len() == 1 {
        assert(c.contains(c[0])); lemma_filter_has(names, p, c[0]);
        let j = choose|j: int| 0 <= j < names.len() && names[j] == c[0]; assert(strs(names)[j] == c[0]@);
        assert forall|e: Seq<char>| #[trigger] strs(names).contains(e) && ends(e, suffix) implies e == c[0]@ by { let i = choose|i: int| 0 <= i < strs(names).len() && strs(names)[i] == e; assert(names[i]@ == e); assert(c.contains(names[i])); }
    }
}
pub proof fn lemma_filter_keeps<A>(s: Seq<A>, p: spec_fn(A) -> bool, i: int) requires 0 <= i < s.len(), p(s[i]) ensures s.filter(p).contains(s[i]) decreases s.len()
{
    reveal(Seq::filter);
    let t = s.drop_last(); let f = s.filter(p);
    if i == s.len() - 1 { assert(f[f.len() - 1] == s[i]); }
    else { lemma_filter_keeps(t, p, i); let j = choose|j: int| 0 <= j < t.filter(p).len() && t.filter(p)[j] == s[i]; assert(f[j] == s[i]); }
}
}
