@include contracts/pep508.vrs
@include contracts/hash_spec.vrs
@include contracts/hash_text.vrs
@include contracts/json.vrs
verus! {
// ---- the parts written as text
impl AsText for PackageRequirement {
    type W = Q;
    open spec fn print(m: Q) -> S { t_req(m) }
    open spec fn read(s: S) -> Option<Q> { read_req(s, true) }
    open spec fn fit(m: Q) -> bool { exists|s: S| #[trigger] read_req(s, true) == Some(m) }
    proof fn again(m: Q) { let s = choose|s: S| #[trigger] read_req(s, true) == Some(m); prints_what_it_read(s, true); }
}
impl AsText for UserRequirement {
    type W = Q;
    open spec fn print(m: Q) -> S { t_req(m) }
    open spec fn read(s: S) -> Option<Q> { read_req(s, false) }
    open spec fn fit(m: Q) -> bool { exists|s: S| #[trigger] read_req(s, false) == Some(m) }
    proof fn again(m: Q) { let s = choose|s: S| #[trigger] read_req(s, false) == Some(m); prints_what_it_read(s, false); }
}
impl AsText for PythonRequirement {
    type W = Q;
    open spec fn print(m: Q) -> S { t_req(m) }
    open spec fn read(s: S) -> Option<Q> { match read_req(s, false) { Some(q) => if plain(q) { Some(q) } else { None }, None => None } }
    open spec fn fit(m: Q) -> bool { plain(m) && exists|s: S| #[trigger] read_req(s, false) == Some(m) }
    proof fn again(m: Q) { let s = choose|s: S| #[trigger] read_req(s, false) == Some(m); prints_what_it_read(s, false); }
}
impl AsText for Specifiers {
    type W = Seq<(CompareOp, S)>;
    open spec fn print(m: Seq<(CompareOp, S)>) -> S { t_specs(m) }
    open spec fn read(s: S) -> Option<Seq<(CompareOp, S)>> { read_specs(s) }
    open spec fn fit(m: Seq<(CompareOp, S)>) -> bool { exists|s: S| #[trigger] read_specs(s) == Some(m) }
    proof fn again(m: Seq<(CompareOp, S)>) { let s = choose|s: S| #[trigger] read_specs(s) == Some(m); prints_the_versions_it_read(s); }
}
impl AsText for StandaloneMarkerExpr {
    type W = M;
    open spec fn print(m: M) -> S { t_marker(m) }
    open spec fn read(s: S) -> Option<M> { read_marker(s) }
    open spec fn fit(m: M) -> bool { exists|s: S| #[trigger] read_marker(s) == Some(m) }
    proof fn again(m: M) { let s = choose|s: S| #[trigger] read_marker(s) == Some(m); prints_the_marker_it_read(s); }
}
// a package without a Requires-Python has no version specifiers: they too are read from a text
pub proof fn none_fits() ensures <Specifiers as AsText>::fit(seq![]) { assert(nothing(Seq::<char>::empty())); assert(read_specs(Seq::<char>::empty()) == Some(Seq::<(CompareOp, S)>::empty())); }
impl AsText for PackageName {
    type W = S;
    open spec fn print(m: S) -> S { m }
    open spec fn read(s: S) -> Option<S> { if project_name(s) { Some(s) } else { None } }
    open spec fn fit(m: S) -> bool { project_name(m) }
    proof fn again(m: S) {}
}
impl Keyed for PackageName { open spec fn key(m: S) -> S { normal(m) } }
impl Keyed for Extra { open spec fn key(m: S) -> S { normal(m) } }
// pep440::Version (dependency): what it prints it reads
pub struct Version { pub x: u8 }
pub struct VersionW { pub x: int }
pub uninterp spec fn version_print(m: VersionW) -> S;
pub uninterp spec fn version_read(s: S) -> Option<VersionW>;
impl AsText for Version {
    type W = VersionW;
    open spec fn print(m: VersionW) -> S { version_print(m) }
    open spec fn read(s: S) -> Option<VersionW> { version_read(s) }
    open spec fn fit(m: VersionW) -> bool { exists|s: S| #[trigger] version_read(s) == Some(m) }
    #[verifier::external_body]
    proof fn again(m: VersionW) { unimplemented!() }
}
// ---- hashes
pub open spec fn hex1(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub open spec fn hex(d: Seq<u8>) -> S decreases d.len() { if d.len() == 0 { seq![] } else { hex(d.drop_last()).push(hex1(d.last() as int / 16)).push(hex1(d.last() as int % 16)) } }
pub proof fn lemma_hex1(n: int) requires 0 <= n < 16 ensures nibble(hex1(n)) == Some(n as u8), hex1(n) != '='
{ if n < 10 { assert((48 + n) as char as u32 == 48 + n); } else { assert((87 + n) as char as u32 == 87 + n); } }
pub proof fn lemma_hex(d: Seq<u8>) ensures unhex(hex(d)) == Some(d) decreases d.len()
{
    if d.len() > 0 {
        let b = d.last() as int; let h = hex(d);
        lemma_hex(d.drop_last());
        lemma_hex1(b / 16); lemma_hex1(b % 16);
        assert(h.take(h.len() - 2) =~= hex(d.drop_last()));
        assert(((b / 16) * 16 + b % 16) == b);
        assert(d.drop_last().push(d.last()) =~= d);
    }
}
pub open spec fn t_hash(h: (S, Seq<u8>)) -> S { h.0 + "="@ + hex(h.1) }
#[verifier::external_body]
pub fn hexlower(d: &Vec<u8>) -> (r: String) ensures r@ == hex(d@) { unimplemented!() }
impl ArtifactHash {
@fn src/vocab/artifact_hash.rs | Display for ArtifactHash/fn:fmt
@sub? `data_encoding::HEXLOWER.encode(&$d)` => `hexlower(&$d)`
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + t_hash((self.mode@, self.raw_data@))
@endfn
}
impl AsText for ArtifactHash {
    type W = (S, Seq<u8>);
    open spec fn print(m: (S, Seq<u8>)) -> S { t_hash(m) }
    open spec fn read(s: S) -> Option<(S, Seq<u8>)> { read_hash(s) }
    open spec fn fit(m: (S, Seq<u8>)) -> bool { alg_of(m.0) matches Some(a) && m.1.len() == digest_len(a) }
    proof fn again(m: (S, Seq<u8>)) {
        reveal_strlit("sha256"); reveal_strlit("=");
        let s = t_hash(m);
        assert(split_eq(s, 6)) by { assert(s[6] == '='); assert forall|k: int| 0 <= k < 6 implies s[k] != '=' by { assert(s[k] == m.0[k]); } }
        assert forall|i: int| #[trigger] split_eq(s, i) implies i == 6 by {}
        assert(s.take(6) =~= m.0); assert(s.skip(7) =~= hex(m.1));
        lemma_hex(m.1);
    }
}
// every hash there is can be read back: they are only made from text
pub proof fn supported_fits(h: ArtifactHash) requires supported(h) ensures <ArtifactHash as AsText>::fit((h.mode@, h.raw_data@)) {}

// ---- serde's side of what the code does itself
pub struct Done { pub j: Ghost<J> }
#[verifier::external_body]
pub struct Ser { x: u8 }
pub open spec fn pairs(v: Seq<(String, &bool)>) -> Seq<(S, J)> { v.map_values(|p: (String, &bool)| (p.0@, J::Bool(*p.1))) }
impl Ser {
    #[verifier::external_body]
    pub fn serialize_str(self, s: &str) -> (r: Result<Done, Report>) ensures r matches Ok(d) ==> d.j@ == J::Str(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_map(self, v: Vec<(String, &bool)>) -> (r: Result<Done, Report>) ensures r matches Ok(d) ==> d.j@ == J::Obj(obj_of(pairs(v@))) { unimplemented!() }
}
pub open spec fn w_PackageName(m: S) -> J { J::Str(m) }
impl PackageName {
@fn src/vocab/package_name.rs | Serialize for PackageName/fn:serialize
@params serializer
@sig pub fn serialize(&self, serializer: Ser) -> (r: Result<Done, Report>) ensures r matches Ok(d) ==> d.j@ == w_PackageName(self.as_given@)
@endfn
}
@serde src/vocab/package_name.rs | type:PackageName
@serde src/vocab/extra.rs | type:Extra
@serde src/vocab/version.rs | type:Version
@serde src/vocab/artifact_hash.rs | type:ArtifactHash
@serde src/vocab/specifier.rs | type:Specifiers
@serde src/vocab/requirement.rs | type:PackageRequirement
@serde src/vocab/requirement.rs | type:UserRequirement
@serde src/vocab/requirement.rs | type:PythonRequirement
@serde src/vocab/requirement.rs | type:StandaloneMarkerExpr
// ---- which packages may be pre-releases
pub type Names = Set<S>;
impl HashSet<PackageName> {
    pub uninterp spec fn m(&self) -> Names;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Set::<S>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() == Set::<S>::empty()) { unimplemented!() }
}
@type src/resolve.rs | type:AllowPre ;
@type src/resolve.rs | type:AllowPreSerdeHelper
@sub? `AllowPreSerdeHelper<'a>` => `AllowPreSerdeHelper`
@sub? `Cow<'a, str>` => `String`
@sub? `&'a str` => `String`
@end
@serde src/resolve.rs | type:AllowPreSerdeHelper
pub enum AllowPreW { Some(Names), All }
impl AllowPre { pub open spec fn m(&self) -> AllowPreW { match *self { AllowPre::Some(p) => AllowPreW::Some(p.m()), AllowPre::All => AllowPreW::All } } }
impl AllowPreSerdeHelper { pub open spec fn m(&self) -> AllowPreSerdeHelperW { match *self { AllowPreSerdeHelper::Some(p) => AllowPreSerdeHelperW::Some(p.m()), AllowPreSerdeHelper::Other(s) => AllowPreSerdeHelperW::Other(s@) } } }
// everything is written ':all:', which is no list
pub open spec fn into_AllowPre(m: AllowPreW) -> AllowPreSerdeHelperW { match m { AllowPreW::Some(p) => AllowPreSerdeHelperW::Some(p), AllowPreW::All => AllowPreSerdeHelperW::Other(":all:"@) } }
pub open spec fn of_AllowPre(h: AllowPreSerdeHelperW) -> Option<AllowPreW> { match h { AllowPreSerdeHelperW::Some(p) => Option::Some(AllowPreW::Some(p)), AllowPreSerdeHelperW::Other(s) => if s == ":all:"@ { Option::Some(AllowPreW::All) } else { Option::None } } }
pub open spec fn fit_AllowPre(m: AllowPreW) -> bool { match m { AllowPreW::Some(p) => <HashSet<PackageName> as Js>::fit(p), AllowPreW::All => true } }
pub proof fn lemma_AllowPre(m: AllowPreW) requires fit_AllowPre(m) ensures of_AllowPre(into_AllowPre(m)) == Some(m), <AllowPreSerdeHelper as Js>::fit(into_AllowPre(m)) {}
impl AllowPre {
@fn src/resolve.rs | TryFrom<AllowPreSerdeHelper<'a>> for AllowPre/fn:try_from
@sub? `if $v == ":all:"` => `if str_eq(&$v, ":all:")`
@params value
@sig pub fn try_from(value: AllowPreSerdeHelper) -> (r: Result<AllowPre, Report>)
    ensures match r { Ok(a) => of_AllowPre(value.m()) == Option::Some(a.m()), Err(_) => of_AllowPre(value.m()) is None }
@endfn
@fn src/resolve.rs | Default for AllowPre/fn:default
@sig pub fn default() -> (r: AllowPre) ensures r.m() == <AllowPre as Dflt>::dflt()
@endfn
}
impl AllowPreSerdeHelper {
@fn src/resolve.rs | From<AllowPre> for AllowPreSerdeHelper<'a>/fn:from
@sub? `Cow::Borrowed($e)` => `$e`
@sub? `Cow::from($e)` => `$e`
@sub? `Other($e.into())` => `Other($e)`
@sub? `Other($e.to_string())` => `Other($e)`
@sub? `AllowPreSerdeHelper::Other($e)` => `AllowPreSerdeHelper::Other(to_text($e))`
@params value
@sig pub fn from(value: AllowPre) -> (r: AllowPreSerdeHelper) ensures r.m() == into_AllowPre(value.m())
@endfn
}
pub open spec fn skips_allow_pre_is_empty(m: AllowPreW) -> bool { m == AllowPreW::Some(Set::empty()) }
@fn src/resolve.rs | fn:allow_pre_is_empty
@params value
@sig pub fn allow_pre_is_empty(value: &AllowPre) -> (r: bool) ensures r == skips_allow_pre_is_empty(value.m())
@endfn
pub proof fn lemma_skips_allow_pre_is_empty(m: AllowPreW) ensures skips_allow_pre_is_empty(m) ==> m == <AllowPre as Dflt>::dflt() {}
@serde src/resolve.rs | type:AllowPre
impl Dflt for AllowPre { open spec fn dflt() -> AllowPreW { AllowPreW::Some(Set::empty()) } }
@serde src/resolve.rs | type:Brief
pub struct Brief { pub x: u8 }

// ---- the marker expressions of a blueprint, and what they were
pub type Table = Map<M, bool>;
impl HashMap<StandaloneMarkerExpr, bool> {
    pub uninterp spec fn m(&self) -> Table;
}
// the entries of a table, in whatever order
pub open spec fn listing(v: Seq<(M, bool)>, m: Table) -> bool {
    &&& forall|i: int, k: int| 0 <= i < k < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[k]).0
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1
    &&& forall|k: M| #[trigger] m.contains_key(k) ==> v.contains((k, m[k]))
}
pub open spec fn said(v: Seq<(&StandaloneMarkerExpr, &bool)>) -> Seq<(M, bool)> { v.map_values(|p: (&StandaloneMarkerExpr, &bool)| (p.0.0.m(), *p.1)) }
#[verifier::external_body]
pub fn entries<'a>(t: &'a HashMap<StandaloneMarkerExpr, bool>) -> (r: Vec<(&'a StandaloneMarkerExpr, &'a bool)>) ensures listing(said(r@), t.m()) { unimplemented!() }
impl Shown for StandaloneMarkerExpr { open spec fn shown(&self) -> S { t_marker(self.0.m()) } }
pub open spec fn rearranged(a: Seq<(S, J)>, b: Seq<(S, J)>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    &&& apart(a) ==> apart(b)
}
#[verifier::external_body]
pub fn sorted<'a>(v: &mut Vec<(String, &'a bool)>) ensures rearranged(pairs(old(v)@), pairs(final(v)@)) { unimplemented!() }
pub open spec fn written(v: Seq<(M, bool)>) -> Seq<(S, J)> { v.map_values(|p: (M, bool)| (t_marker(p.0), J::Bool(p.1))) }
// each expression, as its text, with what it was
pub open spec fn wrote(m: Table, o: O) -> bool {
    &&& !o.twice
    &&& forall|s: S| #[trigger] o.m.contains_key(s) ==> exists|k: M| #[trigger] m.contains_key(k) && t_marker(k) == s
    &&& forall|k: M| #[trigger] m.contains_key(k) ==> o.m.contains_key(t_marker(k)) && o.m[t_marker(k)] == J::Bool(m[k])
}
pub open spec fn fit_table(m: Table) -> bool { m.dom().finite() && forall|k: M| #[trigger] m.contains_key(k) ==> <StandaloneMarkerExpr as AsText>::fit(k) }
pub open spec fn the_order(m: Table) -> Seq<(M, bool)> { order(m.dom()).map_values(|k: M| (k, m[k])) }
pub open spec fn w_serialize_marker_exprs(m: Table) -> J { J::Obj(obj_of(written(the_order(m)))) }
pub proof fn lemma_apart(v: Seq<(M, bool)>, m: Table) requires fit_table(m), listing(v, m) ensures apart(written(v))
{
    let l = written(v);
    assert forall|i: int, k: int| 0 <= i < k < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[k]).0 by {
        <StandaloneMarkerExpr as AsText>::again(v[i].0); <StandaloneMarkerExpr as AsText>::again(v[k].0);
    }
}
pub proof fn lemma_wrote(v: Seq<(M, bool)>, l: Seq<(S, J)>, m: Table) requires fit_table(m), listing(v, m), rearranged(written(v), l) ensures wrote(m, obj_of(l))
{
    lemma_apart(v, m);
    lemma_obj(l);
    let o = obj_of(l);
    assert forall|s: S| #[trigger] o.m.contains_key(s) implies exists|k: M| #[trigger] m.contains_key(k) && t_marker(k) == s by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == (s, o.m[s]);
        assert(written(v).contains(l[i]));
        let j = choose|j: int| 0 <= j < written(v).len() && written(v)[j] == l[i];
        assert(m.contains_key(v[j].0));
    }
    assert forall|k: M| #[trigger] m.contains_key(k) implies o.m.contains_key(t_marker(k)) && o.m[t_marker(k)] == J::Bool(m[k]) by {
        let j = choose|j: int| 0 <= j < v.len() && v[j] == (k, m[k]);
        assert(l.contains(written(v)[j]));
        let i = choose|i: int| 0 <= i < l.len() && l[i] == written(v)[j];
        assert(o.m.contains_key(l[i].0));
    }
}
pub proof fn lemma_one_way(m: Table, a: O, b: O) requires wrote(m, a), wrote(m, b) ensures a == b
{
    assert forall|s: S| a.m.contains_key(s) == b.m.contains_key(s) by {}
    assert forall|s: S| #[trigger] a.m.contains_key(s) implies a.m[s] == b.m[s] by { let k = choose|k: M| #[trigger] m.contains_key(k) && t_marker(k) == s; }
    assert(a.m =~= b.m);
}
pub proof fn lemma_the_order(m: Table) requires m.dom().finite() ensures listing(the_order(m), m)
{
    some_order(m.dom());
    let v = the_order(m); let l = order(m.dom());
    assert forall|i: int, k: int| 0 <= i < k < v.len() implies (#[trigger] v[i]).0 != (#[trigger] v[k]).0 by { assert(l[i] != l[k]); }
    assert forall|i: int| 0 <= i < v.len() implies m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1 by { assert(l.contains(l[i])); }
    assert forall|k: M| #[trigger] m.contains_key(k) implies v.contains((k, m[k])) by { assert(l.contains(k)); let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(v[i] == (k, m[k])); }
}
pub proof fn lemma_serialize_marker_exprs(m: Table) requires fit_table(m) ensures wrote(m, members(w_serialize_marker_exprs(m))), w_serialize_marker_exprs(m) is Obj
{ lemma_the_order(m); let v = the_order(m); lemma_wrote(v, written(v), m); }
@fn src/resolve.rs | fn:serialize_marker_exprs
@sub? `= $m.iter().map(|($k, $v)| ($e, $x)).collect::<Vec<_>>();` => `: Vec<(String, &bool)> = { let all = entries($m); let ghost src = said(all@); let mut list: Vec<(String, &bool)> = Vec::new(); for ($k, $v) in all { list.push(($e, $x)); } list };`
@sub? `$k.to_string()` => `printed($k)`
@sub? `stringized.sort_unstable();` => `sorted(&mut stringized);`
@sub? `stringized.into_iter()` => `stringized`
@params marker_exprs s
@sig pub fn serialize_marker_exprs(marker_exprs: &HashMap<StandaloneMarkerExpr, bool>, s: Ser) -> (r: Result<Done, Report>)
    ensures fit_table(marker_exprs.m()) ==> (r matches Ok(d) ==> d.j@ == w_serialize_marker_exprs(marker_exprs.m()))
@loop 1 iter=it
    invariant
        said(it.seq()) == src, 0 <= it.index() <= src.len(),
        pairs(list@) == written(src.take(it.index())),
@at loop 1 end
proof {
    let k = it.index() as int; let n = list@.len() - 1;
    assert(n == k) by { assert(pairs(list@.drop_last()).len() == written(src.take(k)).len()); }
    assert(src.take(k + 1).drop_last() =~= src.take(k));
    assert(pairs(list@).drop_last() =~= pairs(list@.drop_last()));
    assert(pairs(list@).last() == (t_marker(src[k].0), J::Bool(src[k].1)));
    assert(written(src.take(k + 1)).drop_last() =~= written(src.take(k)));
    assert(src[k] == (it.seq()[k].0.0.m(), *it.seq()[k].1));
    let a = pairs(list@); let b = written(src.take(k + 1));
    assert(src.take(k + 1).last() == src[k]);
    assert(b.last() == (t_marker(src[k].0), J::Bool(src[k].1)));
    assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
}
@at loop 1 after
proof { assert(src.take(src.len() as int) =~= src); assert(pairs(list@) == written(src)); listed = src; }
@at start
let ghost mut listed: Seq<(M, bool)> = Seq::empty();
@at before `s.collect_map($e)`
proof {
    let m = marker_exprs.m(); let l = pairs(stringized@);
    if fit_table(m) {
        lemma_apart(listed, m);
        assert(rearranged(written(listed), l));
        lemma_wrote(listed, l, m); lemma_serialize_marker_exprs(m); lemma_one_way(m, obj_of(l), members(w_serialize_marker_exprs(m)));
    }
}
@endfn
impl Js for HashMap<StandaloneMarkerExpr, bool> {
    type W = Table;
    open spec fn w(m: Table) -> J { J::Obj(obj_of(written(the_order(m)))) }
    open spec fn r(j: J) -> Option<Table> { r_table::<StandaloneMarkerExpr, bool>(j) }
    open spec fn fit(m: Table) -> bool { fit_table(m) }
    proof fn back(m: Table) {
        lemma_serialize_marker_exprs(m);
        let o = members(Self::w(m));
        lemma_read_table(m, o);
    }
}
pub proof fn lemma_read_table(m: Table, o: O) requires fit_table(m), wrote(m, o) ensures r_table::<StandaloneMarkerExpr, bool>(J::Obj(o)) == Some(m)
{
    assert forall|k: M| #[trigger] m.contains_key(k) implies read_marker(t_marker(k)) == Some(k) by { <StandaloneMarkerExpr as AsText>::again(k); }
    assert(same_table::<StandaloneMarkerExpr, bool>(o, m));
    let g = choose|g: Table| same_table::<StandaloneMarkerExpr, bool>(o, g);
    assert forall|k: M| g.contains_key(k) == m.contains_key(k) by {
        if m.contains_key(k) { assert(o.m.contains_key(t_marker(k))); }
        if g.contains_key(k) { let s = choose|s: S| #[trigger] o.m.contains_key(s) && read_marker(s) == Some(k); let k2 = choose|k2: M| #[trigger] m.contains_key(k2) && t_marker(k2) == s; }
    }
    assert forall|k: M| #[trigger] m.contains_key(k) implies g[k] == m[k] by { assert(o.m.contains_key(t_marker(k))); }
    assert(g =~= m);
}
pub struct PinnedPackage { pub x: u8 }
pub struct WheelResolveMetadata { pub x: u8 }
pub struct WheelResolveMetadataInner { pub x: u8 }
pub struct Blueprint { pub x: u8 }
@serde src/resolve.rs | type:PinnedPackage
@serde src/resolve.rs | type:WheelResolveMetadataInner
@serde src/resolve.rs | type:WheelResolveMetadata
@serde src/resolve.rs | type:Blueprint
// ---- the property: what is written is read again as what it was
pub proof fn briefs_read_back(b: BriefW) requires <Brief as Js>::fit(b) ensures <Brief as Js>::r(<Brief as Js>::w(b)) == Some(b) { <Brief as Js>::back(b); }
pub proof fn blueprints_read_back(b: BlueprintW) requires <Blueprint as Js>::fit(b) ensures <Blueprint as Js>::r(<Blueprint as Js>::w(b)) == Some(b) { <Blueprint as Js>::back(b); }
}
fn main() {}
