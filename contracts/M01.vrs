@include contracts/common.vrs
@include contracts/pep440.vrs
@include contracts/fields.vrs
verus! {
use core::cmp::Ordering;
// ---- dependencies: the parsers of field values are functions of the text
pub trait FromText: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>; }
pub trait ParseText { spec fn text(&self) -> Seq<char>;
    fn parse<F: FromText>(&self) -> (r: Result<F, Report>)
        ensures r is Ok <==> F::of_text(self.text()) is Some, r is Ok ==> Some(r->Ok_0) == F::of_text(self.text());
}
impl ParseText for String { open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn parse<F: FromText>(&self) -> (r: Result<F, Report>) { unimplemented!() }
}
pub open spec fn res<T>(o: Option<T>) -> Result<T, Report> { match o { Some(v) => Ok(v), None => Err(arbitrary()) } }
pub uninterp spec fn spec_parse(s: Seq<char>) -> Option<Version>;
#[verifier::external_body]
pub proof fn axiom_parse_literals()
    ensures
        spec_parse("3.dev0"@) matches Some(v) && v.0.epoch == 0 && v.0.release@ =~= seq![3u32] && v.0.pre is None && v.0.post is None
            && v.0.dev == Some(0u32) && v.0.local@.len() == 0,
{}
impl FromText for Version { open spec fn of_text(s: Seq<char>) -> Option<Version> { spec_parse(s) } }
impl vstd::std_specs::convert::TryFromSpecImpl<String> for Version {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: String) -> Result<Version, Report> { res(spec_parse(s@)) }
}
impl TryFrom<String> for Version { type Error = Report;
    #[verifier::external_body]
    fn try_from(s: String) -> (r: Result<Version, Report>) { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a str> for Version {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: &'a str) -> Result<Version, Report> { res(spec_parse(s@)) }
}
impl<'a> TryFrom<&'a str> for Version { type Error = Report;
    #[verifier::external_body]
    fn try_from(s: &'a str) -> (r: Result<Version, Report>) { unimplemented!() }
}
// Ord for versions is the order of PEP 440 (bounded: v_r01_order)
impl vstd::std_specs::cmp::PartialEqSpecImpl for Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Version) -> bool { veq(*self, *o) }
}
impl PartialEq for Version { #[verifier::external_body] fn eq(&self, o: &Version) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Version {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Version) -> Option<Ordering> {
        if vlt(*self, *o) { Some(Ordering::Less) } else if veq(*self, *o) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl PartialOrd for Version { #[verifier::external_body] fn partial_cmp(&self, o: &Version) -> (r: Option<Ordering>) { unimplemented!() } }
// a version is below 3.dev0 exactly when its major version is below 3 (no epoch)
pub open spec fn major_below(v: Version, n: int) -> bool { v.0.epoch == 0 && at(v.0.release@, 0) < n }
pub proof fn lemma_major(v: Version, w: Version)
    requires w.0.epoch == 0, w.0.release@ =~= seq![3u32], w.0.pre is None, w.0.post is None, w.0.dev == Some(0u32), w.0.local@.len() == 0
    ensures vlt(v, w) <==> major_below(v, 3)
{
    let (a, b) = (v.0.release@, w.0.release@);
    assert(at(b, 0) == 3);
    if major_below(v, 3) { assert(less_at(a, b, 0)); }
    if vlt(v, w) {
        if pub_lt(v, w) {
            if v.0.epoch == 0 {
                if rel_lt(a, b) {
                    let i = choose|i: int| less_at(a, b, i);
                    if i > 0 { assert(at(b, i) == 0); }
                } else { assert(rel_eq(a, b)); assert(pre_key(v).0 >= 0); }
            }
        } else { lemma_no_local(v.0.local@, w.0.local@); }
    }
}
@type src/vocab/package_name.rs | type:PackageName ;
@type src/vocab/extra.rs | type:Extra ;
pub struct NicePathBuf { x: u8 }
pub struct PackageRequirement { x: u8 }
pub uninterp spec fn spec_name(s: Seq<char>) -> Option<PackageName>;
pub uninterp spec fn spec_extra(s: Seq<char>) -> Option<Extra>;
pub uninterp spec fn spec_req(s: Seq<char>) -> Option<PackageRequirement>;
pub uninterp spec fn spec_specs(s: Seq<char>) -> Option<Specifiers>;
impl FromText for PackageName { open spec fn of_text(s: Seq<char>) -> Option<PackageName> { spec_name(s) } }
impl FromText for Extra { open spec fn of_text(s: Seq<char>) -> Option<Extra> { spec_extra(s) } }
impl vstd::std_specs::convert::TryFromSpecImpl<String> for PackageRequirement {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: String) -> Result<PackageRequirement, Report> { res(spec_req(s@)) }
}
impl TryFrom<String> for PackageRequirement { type Error = Report;
    #[verifier::external_body]
    fn try_from(s: String) -> (r: Result<PackageRequirement, Report>) { unimplemented!() }
}
impl vstd::std_specs::convert::TryFromSpecImpl<String> for Specifiers {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: String) -> Result<Specifiers, Report> { res(spec_specs(s@)) }
}
impl TryFrom<String> for Specifiers { type Error = Report;
    #[verifier::external_body]
    fn try_from(s: String) -> (r: Result<Specifiers, Report>) { unimplemented!() }
}
@type src/vocab/core_metadata.rs | type:WheelCoreMetadata ;
@type src/vocab/core_metadata.rs | type:PybiCoreMetadata ;
pub fn parse_literal(s: &str) -> (r: Version) requires spec_parse(s@) is Some ensures Some(r) == spec_parse(s@) { let v: Result<Version, Report> = s.try_into(); v.unwrap() }
// what values of the type are compared by (derived Hash/Eq ignore as_given)
pub trait Keyed { spec fn key(&self) -> Seq<char>; }
impl Keyed for Extra { closed spec fn key(&self) -> Seq<char> { self.0.normalized@ } }
// std collections, by their views
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HashSet<T> { x: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn s(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) where T: Keyed ensures final(self).s() == old(self).s().insert(t.key()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }

pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Report>) ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> Some(r->Ok_0@) == utf8(b@) { unimplemented!() }

impl RFC822ish {
    // contracts/M01T.vrs
    #[verifier::external_body]
    pub fn parse(input: &str) -> (r: Result<RFC822ish, Report>)
        ensures r is Ok <==> spec_fields(input@) is Some, r is Ok ==> Some(r->Ok_0.fields.m()) == spec_fields(input@)
    { unimplemented!() }

@fn src/vocab/rfc822ish.rs | RFC822ish/fn:take_all
@params key
@sig pub fn take_all(&mut self, key: &str) -> (r: Vec<String>)
    ensures
        // every value, in order, and the field is used up
        texts(r@) == vals(old(self).fields.m(), key@),
        final(self).fields.m() == old(self).fields.m().remove(lower(key@)),
@endfn

@fn src/vocab/rfc822ish.rs | RFC822ish/fn:maybe_take_the
@params key
@sig pub fn maybe_take_the(&mut self, key: &str) -> (r: Result<Option<String>, Report>)
    ensures
        ({ let v = vals(old(self).fields.m(), key@);
           &&& v.len() == 0 ==> r is Ok && r->Ok_0 is None
           &&& v.len() == 1 ==> r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ == v[0]
           &&& v.len() > 1 ==> r is Err
        }),
        final(self).fields.m() == old(self).fields.m().remove(lower(key@)),
@endfn

@fn src/vocab/rfc822ish.rs | RFC822ish/fn:take_the
@params key
@sig pub fn take_the(&mut self, key: &str) -> (r: Result<String, Report>)
    ensures
        r is Ok <==> vals(old(self).fields.m(), key@).len() == 1,
        r is Ok ==> r->Ok_0@ == vals(old(self).fields.m(), key@)[0],
        final(self).fields.m() == old(self).fields.m().remove(lower(key@)),
@endfn
}

// ---- property text: what a metadata file says
pub open spec fn one(m: FieldMap, key: Seq<char>) -> bool { vals(m, key).len() == 1 }
pub open spec fn the(m: FieldMap, key: Seq<char>) -> Seq<char> { vals(m, key)[0] }
pub open spec fn version_ok(t: Seq<char>) -> bool { spec_parse(t) matches Some(v) && major_below(v, 3) }
pub open spec fn common_ok(m: FieldMap) -> bool {
    &&& one(m, "Metadata-Version"@) && version_ok(the(m, "Metadata-Version"@))
    &&& one(m, "Name"@) && spec_name(the(m, "Name"@)) is Some
    &&& one(m, "Version"@) && spec_parse(the(m, "Version"@)) is Some
}
pub open spec fn common(m: FieldMap, n: PackageName, v: Version) -> bool {
    common_ok(m) && spec_name(the(m, "Name"@)) == Some(n) && spec_parse(the(m, "Version"@)) == Some(v)
}
pub open spec fn lists_extra(v: Seq<Seq<char>>, s: Seq<char>) -> bool { exists|k: int| 0 <= k < v.len() && (spec_extra(#[trigger] v[k]) matches Some(e) && e.key() == s) }
pub open spec fn wheel_ok(m: FieldMap) -> bool {
    &&& common_ok(m)
    &&& forall|k: int| 0 <= k < vals(m, "Requires-Dist"@).len() ==> spec_req(#[trigger] vals(m, "Requires-Dist"@)[k]) is Some
    &&& vals(m, "Requires-Python"@).len() <= 1
    &&& one(m, "Requires-Python"@) ==> spec_specs(the(m, "Requires-Python"@)) is Some
    &&& forall|k: int| 0 <= k < vals(m, "Provides-Extra"@).len() ==> spec_extra(#[trigger] vals(m, "Provides-Extra"@)[k]) is Some
}
pub open spec fn wheel_is(m: FieldMap, w: WheelCoreMetadata) -> bool {
    &&& common(m, w.name, w.version)
    // every dependency, in order
    &&& w.requires_dist@.len() == vals(m, "Requires-Dist"@).len()
    &&& forall|k: int| 0 <= k < w.requires_dist@.len() ==> spec_req(vals(m, "Requires-Dist"@)[k]) == Some(#[trigger] w.requires_dist@[k])
    &&& if one(m, "Requires-Python"@) { spec_specs(the(m, "Requires-Python"@)) == Some(w.requires_python) } else { w.requires_python.0@.len() == 0 }
    &&& forall|s: Seq<char>| #[trigger] w.extras.s().contains(s) <==> lists_extra(vals(m, "Provides-Extra"@), s)
}
// no two of the field names are the same up to case
pub proof fn lemma_names()
    ensures
        "Metadata-Version"@.len() == 16, "Name"@.len() == 4, "Version"@.len() == 7, "Requires-Dist"@.len() == 13, "Requires-Python"@.len() == 15,
        "Provides-Extra"@.len() == 14, "Pybi-Environment-Marker-Variables"@.len() == 33, "Pybi-Wheel-Tag"@.len() == 14, "Pybi-Paths"@.len() == 10,
        forall|s: Seq<char>| (#[trigger] lower(s)).len() == s.len(),
{
    reveal_strlit("Metadata-Version"); reveal_strlit("Name"); reveal_strlit("Version"); reveal_strlit("Requires-Dist"); reveal_strlit("Requires-Python");
    reveal_strlit("Provides-Extra"); reveal_strlit("Pybi-Environment-Marker-Variables"); reveal_strlit("Pybi-Wheel-Tag"); reveal_strlit("Pybi-Paths");
}
pub open spec fn after_common(m: FieldMap) -> FieldMap { m.remove(lower("Metadata-Version"@)).remove(lower("Name"@)).remove(lower("Version"@)) }

// ---- field extraction
@fn src/vocab/core_metadata.rs | fn:parse_common
@sub? `String::from_utf8_lossy` => `from_utf8_lossy`
@sub? `static $n: Lazy<Version> = Lazy::new(|| $e.try_into().unwrap());` => `let $n: Version = parse_literal($e);`
@sub? `*NEXT_MAJOR_METADATA_VERSION` => `NEXT_MAJOR_METADATA_VERSION`
@params input0
@sig pub fn parse_common(input0: &[u8]) -> (r: Result<(PackageName, Version, RFC822ish), Report>)
    ensures
        r is Ok ==> (spec_fields(lossy(input0@)) matches Some(m) && common(m, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.2.fields.m() == after_common(m)),
        // an error only for a reason
        r is Err ==> !(spec_fields(lossy(input0@)) matches Some(m) && common_ok(m)),
@at start
proof { axiom_parse_literals(); lemma_names();
    assert forall|v: Version, w: Version| w == spec_parse("3.dev0"@)->Some_0 implies (#[trigger] vlt(v, w) <==> major_below(v, 3)) by { lemma_major(v, w); }
}
@endfn

@fn src/vocab/core_metadata.rs | TryFrom<&[u8]> for WheelCoreMetadata/fn:try_from
@sub? `.drain(..)` => ``
@params value
@sig pub fn wheel_metadata(value: &[u8]) -> (r: Result<WheelCoreMetadata, Report>)
    ensures
        r is Ok ==> (spec_fields(lossy(value@)) matches Some(m) && wheel_ok(m) && wheel_is(m, r->Ok_0)),
        r is Err ==> !(spec_fields(lossy(value@)) matches Some(m) && wheel_ok(m)),
@at start
let ghost m = spec_fields(lossy(value@))->Some_0;
proof { lemma_names(); }
@loop 1 iter=it1
    invariant
        spec_fields(lossy(value@)) == Some(m),
        texts(it1.seq()) == vals(m, "Requires-Dist"@),
        requires_dist@.len() == it1.index(),
        forall|k: int| 0 <= k < it1.index() ==> spec_req(vals(m, "Requires-Dist"@)[k]) == Some(#[trigger] requires_dist@[k]),
@at loop 1 start
proof { let i = it1.index(); assert(texts(it1.seq())[i] == it1.seq()[i]@); assert(vals(m, "Requires-Dist"@)[i] == it1.seq()[i]@); }
@at loop 1 after
proof { assert forall|k: int| 0 <= k < vals(m, "Requires-Dist"@).len() implies spec_req(#[trigger] vals(m, "Requires-Dist"@)[k]) is Some by { assert(spec_req(vals(m, "Requires-Dist"@)[k]) == Some(requires_dist@[k])); } }
@loop 2 iter=it2
    invariant
        spec_fields(lossy(value@)) == Some(m),
        texts(it2.seq()) == vals(m, "Provides-Extra"@),
        forall|k: int| 0 <= k < it2.index() ==> spec_extra(#[trigger] vals(m, "Provides-Extra"@)[k]) is Some,
        forall|s: Seq<char>| #[trigger] extras.s().contains(s) <==> lists_extra(vals(m, "Provides-Extra"@).take(it2.index()), s),
@at loop 2 start
let ghost s0 = extras.s();
proof { let i = it2.index(); assert(texts(it2.seq())[i] == it2.seq()[i]@); assert(vals(m, "Provides-Extra"@)[i] == it2.seq()[i]@); }
@at loop 2 end
proof {
    let i = it2.index();
    let v = vals(m, "Provides-Extra"@);
    let e = spec_extra(v[i])->Some_0;
    assert(v.take(i + 1)[i] == v[i]);
    assert forall|s: Seq<char>| #[trigger] extras.s().contains(s) <==> lists_extra(v.take(i + 1), s) by {
        if s0.contains(s) {
            let k = choose|k: int| 0 <= k < i && (spec_extra(#[trigger] v.take(i)[k]) matches Some(e) && e.key() == s);
            assert(v.take(i + 1)[k] == v[k]);
        }
        if lists_extra(v.take(i + 1), s) && s != e.key() {
            let k = choose|k: int| 0 <= k < i + 1 && (spec_extra(#[trigger] v.take(i + 1)[k]) matches Some(e) && e.key() == s);
            assert(v.take(i)[k] == v[k]);
        }
    }
}
@at loop 2 after
proof { let v = vals(m, "Provides-Extra"@); assert(v.take(v.len() as int) =~= v); }
@endfn

// serde_json, by what it reads from a text
pub uninterp spec fn json_map<K, V>(s: Seq<char>) -> Option<HashMap<K, V>>;
pub mod serde_json { use super::*;
#[verifier::external_body]
pub fn from_str<K, V>(s: &str) -> (r: Result<HashMap<K, V>, Report>) ensures r is Ok <==> json_map::<K, V>(s@) is Some, r is Ok ==> Some(r->Ok_0) == json_map::<K, V>(s@) { unimplemented!() }
}
pub open spec fn pybi_is(m: FieldMap, p: PybiCoreMetadata) -> bool {
    &&& common(m, p.name, p.version)
    &&& one(m, "Pybi-Environment-Marker-Variables"@) && json_map::<String, String>(the(m, "Pybi-Environment-Marker-Variables"@)) == Some(p.environment_marker_variables)
    &&& texts(p.tags@) == vals(m, "Pybi-Wheel-Tag"@)
    &&& one(m, "Pybi-Paths"@) && json_map::<String, NicePathBuf>(the(m, "Pybi-Paths"@)) == Some(p.paths)
}
pub open spec fn pybi_ok(m: FieldMap) -> bool {
    &&& common_ok(m)
    &&& one(m, "Pybi-Environment-Marker-Variables"@) && json_map::<String, String>(the(m, "Pybi-Environment-Marker-Variables"@)) is Some
    &&& one(m, "Pybi-Paths"@) && json_map::<String, NicePathBuf>(the(m, "Pybi-Paths"@)) is Some
}
@fn src/vocab/core_metadata.rs | TryFrom<&[u8]> for PybiCoreMetadata/fn:try_from
@params value
@sig pub fn pybi_metadata(value: &[u8]) -> (r: Result<PybiCoreMetadata, Report>)
    ensures
        r is Ok ==> (spec_fields(lossy(value@)) matches Some(m) && pybi_is(m, r->Ok_0)),
        r is Err ==> !(spec_fields(lossy(value@)) matches Some(m) && pybi_ok(m)),
@at start
proof { lemma_names(); }
@endfn

// WHEEL and PYBI files: only format version 1
// the value before the first dot
pub open spec fn major_text(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 || s[0] == '.' { seq![] } else { seq![s[0]] + major_text(s.drop_first()) } }
#[verifier::external_body]
pub fn starts_with(s: &String, p: &str) -> (r: bool) ensures r == (s@.len() >= p@.len() && s@.take(p@.len() as int) =~= p@) { unimplemented!() }
@fn src/vocab/artifact_formats.rs | fn:parse_format_metadata_and_check_version
@sub? `std::str::from_utf8` => `from_utf8`
@sub? `version.starts_with($e)` => `starts_with(&version, $e)`
@params input0 version_field
@sig pub fn parse_format_metadata_and_check_version(input0: &[u8], version_field: &str) -> (r: Result<RFC822ish, Report>)
    ensures
        r is Ok ==> (utf8(input0@) matches Some(t) && spec_fields(t) matches Some(m) && one(m, version_field@)
            && major_text(the(m, version_field@)) == seq!['1'] && r->Ok_0.fields.m() == m.remove(lower(version_field@))),
@at start
proof {
    reveal_strlit("1.");
    assert forall|s: Seq<char>| s.len() >= 2 && #[trigger] s.take(2) =~= "1."@ implies major_text(s) == seq!['1'] by {
        assert(s[0] == s.take(2)[0]); assert(s[1] == s.take(2)[1]);
        reveal_with_fuel(major_text, 3);
        let t = s.drop_first(); assert(t[0] == s[1]);
        assert(major_text(t) =~= seq![]);
        assert(major_text(s) =~= seq!['1']);
    }
}
@endfn
}
fn main() {}
