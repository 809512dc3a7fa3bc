@include contracts/common.vrs
@include contracts/pep440.vrs
@include contracts/ranges.vrs
verus! {
// ---- files, as the index lists them
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct ArtifactName { x: u8 }
pub struct ArtifactHash { pub mode: String, pub raw_data: Vec<u8> }
@type src/package_db/simple_api/project_info.rs | type:Yanked ;
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
pub type AI = ArtifactInfo;
pub struct PackageName { pub as_given: String, pub normalized: String }
impl PackageName { pub open spec fn norm(&self) -> Seq<char> { self.normalized@ } }
impl Clone for PackageName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// IndexMap<Version, Vec<ArtifactInfo>>: contracts/P01.vrs
pub type Ent = (Version, Seq<AI>);
#[verifier::external_body] pub struct Table { x: u8 }
pub open spec fn distinct(e: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> !veq(#[trigger] e[i].0, #[trigger] e[j].0) }
pub open spec fn all_pre(e: Seq<Ent>) -> bool { forall|i: int| 0 <= i < e.len() ==> is_pre(#[trigger] e[i].0) }
impl Table {
    pub uninterp spec fn e(&self) -> Seq<Ent>;
    // .iter()
    #[verifier::external_body]
    pub fn pairs(&self) -> (r: Vec<(&Version, &Vec<AI>)>)
        ensures r@.len() == self.e().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.e()[i].0 && r@[i].1@ == self.e()[i].1
    { unimplemented!() }
}
// .iter().all(|(version, _)| ..)
pub fn all_versions<F: Fn(&Version) -> bool>(t: &Table, f: F) -> (r: bool)
    requires forall|v: &Version| #[trigger] f.requires((v,)), forall|v: &Version, b: bool| #[trigger] f.ensures((v,), b) ==> b == is_pre(*v)
    ensures r == all_pre(t.e())
{
    let l = t.pairs();
    let mut i: usize = 0;
    while i < l.len()
        invariant i <= l@.len(), l@.len() == t.e().len(), forall|i: int| 0 <= i < l@.len() ==> *(#[trigger] l@[i]).0 == t.e()[i].0,
            forall|v: &Version| #[trigger] f.requires((v,)), forall|v: &Version, b: bool| #[trigger] f.ensures((v,), b) ==> b == is_pre(*v),
            forall|j: int| 0 <= j < i ==> is_pre(#[trigger] t.e()[j].0),
        decreases l@.len() - i
    {
        if !f(l[i].0) { return false; }
        i += 1;
    }
    true
}
pub fn file_refs<'a>(v: &'a Vec<AI>) -> (r: Vec<&'a AI>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i]
{
    let mut out: Vec<&'a AI> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == v@[j] decreases v@.len() - i { out.push(&v[i]); i += 1; }
    out
}

// ---- the brief
#[verifier::external_body] pub struct NameSet { x: u8 }
impl NameSet {
    pub uninterp spec fn holds(&self, n: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, n: &PackageName) -> (r: bool) ensures r == self.holds(n.norm()) { unimplemented!() }
}
@type src/resolve.rs | type:AllowPre
@sub `HashSet<PackageName>` => `NameSet`
@end
pub open spec fn pre_allowed(a: AllowPre, n: Seq<char>) -> bool { match a { AllowPre::All => true, AllowPre::Some(s) => s.holds(n) } }
impl AllowPre {
@fn src/resolve.rs | AllowPre/fn:allow_pre_for
@params self package
@sig pub fn allow_pre_for(&self, package: &PackageName) -> (r: bool) ensures r == pre_allowed(*self, package.norm())
@endfn
}
pub struct Requirement { pub name: PackageName, pub specifiers: Specifiers }
pub struct Brief { pub python: Requirement, pub allow_pre: AllowPre }

// ---- the pins of an earlier blueprint
pub open spec fn same_hash(a: ArtifactHash, b: ArtifactHash) -> bool { a.mode@ == b.mode@ && a.raw_data@ == b.raw_data@ }
#[verifier::external_body] pub struct Hashes<'a> { x: &'a u8 }
impl<'a> Hashes<'a> {
    pub uninterp spec fn holds(&self, h: ArtifactHash) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, h: &ArtifactHash) -> (r: bool) ensures r == self.holds(*h) { unimplemented!() }
}
// .iter().collect::<HashSet<_>>()
#[verifier::external_body]
pub fn hash_set<'a>(v: &'a Vec<ArtifactHash>) -> (r: Hashes<'a>) ensures forall|h: ArtifactHash| #[trigger] r.holds(h) <==> listed_hash(v@, h) { unimplemented!() }
pub open spec fn listed_hash(v: Seq<ArtifactHash>, h: ArtifactHash) -> bool { exists|i: int| 0 <= i < v.len() && same_hash(#[trigger] v[i], h) }
@type src/resolve.rs | type:PinnedPackage ;
pub struct WheelResolveMetadata { pub inner: WheelResolveMetadataInner }
pub struct WheelResolveMetadataInner { pub requires_python: Specifiers }
pub struct Blueprint { pub pybi: PinnedPackage, pub wheels: Vec<(PinnedPackage, WheelResolveMetadata)> }
// HashMap<&PackageName, (&Version, HashSet<&ArtifactHash>)>
#[verifier::external_body] pub struct HintMap<'a> { x: &'a u8 }
impl<'a> HintMap<'a> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, (&'a Version, Hashes<'a>)>;
    #[verifier::external_body]
    pub fn new() -> (r: HintMap<'a>) ensures r.m() == Map::<Seq<char>, (&'a Version, Hashes<'a>)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, n: &PackageName) -> (r: Option<&(&'a Version, Hashes<'a>)>)
        ensures match r { Some(x) => self.m().dom().contains(n.norm()) && *x == self.m()[n.norm()], None => !self.m().dom().contains(n.norm()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: &'a PackageName, x: (&'a Version, Hashes<'a>)) ensures final(self).m() == old(self).m().insert(n.norm(), x) { unimplemented!() }
}
pub struct VersionHints<'a>(pub HintMap<'a>);
// what is pinned for a name: version and hashes
pub open spec fn hint(h: VersionHints, n: Seq<char>) -> Option<Version> { if h.0.m().dom().contains(n) { Some(*h.0.m()[n].0) } else { None } }
pub open spec fn hash_hint(h: VersionHints, n: Seq<char>, x: ArtifactHash) -> bool { h.0.m().dom().contains(n) && h.0.m()[n].1.holds(x) }
pub open spec fn pins_of(b: Blueprint) -> Seq<PinnedPackage> { seq![b.pybi] + b.wheels@.map_values(|w: (PinnedPackage, WheelResolveMetadata)| w.0) }
pub open spec fn pin_at(ps: Seq<PinnedPackage>, n: int, k: Seq<char>, i: int) -> bool { 0 <= i < n && ps[i].name.norm() == k && forall|j: int| i < j < n ==> (#[trigger] ps[j]).name.norm() != k }
pub open spec fn hints_say(h: VersionHints, ps: Seq<PinnedPackage>, n: int) -> bool {
    forall|k: Seq<char>| #![trigger hint(h, k)]
        (hint(h, k) is None ==> forall|i: int| 0 <= i < n ==> (#[trigger] ps[i]).name.norm() != k)
        && (hint(h, k) matches Some(v) ==> exists|i: int| #[trigger] pin_at(ps, n, k, i) && v == ps[i].version && forall|x: ArtifactHash| #[trigger] hash_hint(h, k, x) <==> listed_hash(ps[i].hashes@, x))
}
impl<'a> VersionHints<'a> {
@fn src/resolve.rs | VersionHints/fn:new
@sub? `HashMap::new()` => `HintMap::new()`
@sig pub fn new() -> (r: VersionHints<'a>) ensures forall|k: Seq<char>| #[trigger] hint(r, k) is None
@endfn
@fn src/resolve.rs | VersionHints/fn:add_pinned
@sub? `pin.hashes.iter().collect()` => `hash_set(&pin.hashes)`
@params self pin
@sig pub fn add_pinned(&mut self, pin: &'a PinnedPackage)
    ensures
        forall|k: Seq<char>| #[trigger] hint(*final(self), k) == (if k == pin.name.norm() { Some(pin.version) } else { hint(*old(self), k) }),
        forall|k: Seq<char>, x: ArtifactHash| #[trigger] hash_hint(*final(self), k, x) <==> (if k == pin.name.norm() { listed_hash(pin.hashes@, x) } else { hash_hint(*old(self), k, x) }),
@endfn
@fn src/resolve.rs | VersionHints/fn:from
@sub? `for (wheel, _) in &blueprint.wheels {` => `for pair in &blueprint.wheels { let wheel = &pair.0;`
@params blueprint
@sig pub fn from(blueprint: &'a Blueprint) -> (r: VersionHints<'a>) ensures hints_say(r, pins_of(*blueprint), pins_of(*blueprint).len() as int)
@loop 1 iter=it
    invariant it.seq().len() == blueprint.wheels@.len(), forall|q: int| 0 <= q < blueprint.wheels@.len() ==> *(#[trigger] it.seq()[q]) == blueprint.wheels@[q],
        hints_say(hints, pins_of(*blueprint), it.index@ + 1),
@at loop 1 start
let ghost h0 = hints;
@at loop 1 end
proof { lemma_hints(h0, hints, pins_of(*blueprint), it.index@ + 1); }
@at loop 1 before
proof { assert(hints_say(hints, pins_of(*blueprint), 1)) by { assert forall|k: Seq<char>| #![trigger hint(hints, k)] true implies (hint(hints, k) matches Some(v) ==> exists|i: int| #[trigger] pin_at(pins_of(*blueprint), 1, k, i) && v == pins_of(*blueprint)[i].version && forall|x: ArtifactHash| #[trigger] hash_hint(hints, k, x) <==> listed_hash(pins_of(*blueprint)[i].hashes@, x)) by { if hint(hints, k) is Some { assert(pin_at(pins_of(*blueprint), 1, k, 0)); } } } }
@endfn
}
pub proof fn lemma_hints(h0: VersionHints, h1: VersionHints, ps: Seq<PinnedPackage>, n: int)
    requires 0 <= n < ps.len(), hints_say(h0, ps, n),
        forall|k: Seq<char>| #[trigger] hint(h1, k) == (if k == ps[n].name.norm() { Some(ps[n].version) } else { hint(h0, k) }),
        forall|k: Seq<char>, x: ArtifactHash| #[trigger] hash_hint(h1, k, x) <==> (if k == ps[n].name.norm() { listed_hash(ps[n].hashes@, x) } else { hash_hint(h0, k, x) }),
    ensures hints_say(h1, ps, n + 1)
{
    assert forall|k: Seq<char>| #![trigger hint(h1, k)] 
        (hint(h1, k) is None ==> forall|i: int| 0 <= i < n + 1 ==> (#[trigger] ps[i]).name.norm() != k)
        && (hint(h1, k) matches Some(v) ==> exists|i: int| #[trigger] pin_at(ps, n + 1, k, i) && v == ps[i].version && forall|x: ArtifactHash| #[trigger] hash_hint(h1, k, x) <==> listed_hash(ps[i].hashes@, x)) by {
        if k == ps[n].name.norm() { assert(pin_at(ps, n + 1, k, n)); }
        else if hint(h0, k) is Some {
            let i = choose|i: int| #[trigger] pin_at(ps, n, k, i) && hint(h0, k)->Some_0 == ps[i].version && forall|x: ArtifactHash| #[trigger] hash_hint(h0, k, x) <==> listed_hash(ps[i].hashes@, x);
            assert(pin_at(ps, n + 1, k, i));
        }
    }
}

// ---- the package index
#[verifier::external_body] pub struct PackageDB { x: u8 }
impl PackageDB {
    pub uninterp spec fn has_page(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn entries(&self, n: Seq<char>) -> Seq<Ent>;
    // contracts/P01.vrs
    #[verifier::external_body]
    pub fn available_artifacts(&self, n: &PackageName) -> (r: Result<&Table, Report>) ensures r is Ok <==> self.has_page(n.norm()), r matches Ok(t) ==> t.e() == self.entries(n.norm()) && distinct(t.e()) { unimplemented!() }
}
pub uninterp spec fn spec_text(s: Seq<char>) -> Option<Specifiers>;
// the numbers in the text stay below u32::MAX
pub uninterp spec fn small_text(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn parse_specifiers(s: &String) -> (r: Result<Specifiers, Report>)
    requires small_text(s@)
    ensures r is Ok <==> spec_text(s@) is Some, r matches Ok(x) ==> Some(x) == spec_text(s@) && forall|i: int| 0 <= i < x.0@.len() ==> rhs_in_domain((#[trigger] x.0@[i]).value@)
{ unimplemented!() }
pub open spec fn specs_admit(s: Specifiers, v: Version) -> bool { forall|i: int| 0 <= i < s.0@.len() ==> spec_admits(#[trigger] s.0@[i], v) }

// ---- the promise
pub open spec fn runs_on(a: AI, py: Option<Version>) -> bool { (py matches Some(p) && a.requires_python matches Some(t)) ==> (spec_text(a.requires_python->Some_0@) matches Some(s) && specs_admit(s, py->Some_0)) }
pub open spec fn usable(a: AI, h: VersionHints, n: Seq<char>, py: Option<Version>) -> bool {
    (a.yanked.yanked ==> (a.hash matches Some(x) && hash_hint(h, n, x))) && runs_on(a, py)
}
pub open spec fn any_usable(fs: Seq<AI>, h: VersionHints, n: Seq<char>, py: Option<Version>) -> bool { exists|i: int| 0 <= i < fs.len() && usable(#[trigger] fs[i], h, n, py) }
pub open spec fn offered(x: Ent, pre: bool, h: VersionHints, n: Seq<char>, py: Option<Version>) -> bool { (pre || !is_pre(x.0)) && any_usable(x.1, h, n, py) }
pub open spec fn in_list(vs: Seq<&Version>, v: Version) -> bool { exists|j: int| 0 <= j < vs.len() && *(#[trigger] vs[j]) == v }
pub open spec fn in_table(e: Seq<Ent>, n: int, v: Version, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0 == v && offered(e[i], pre, h, k, py) }
// vs is exactly the offered ones among the first n entries, each once
pub open spec fn gathered(vs: Seq<&Version>, e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>) -> bool {
    (forall|j: int| 0 <= j < vs.len() ==> in_table(e, n, *(#[trigger] vs[j]), pre, h, k, py))
    && (forall|i: int| 0 <= i < n && offered(#[trigger] e[i], pre, h, k, py) ==> in_list(vs, e[i].0))
    && (forall|i: int, j: int| 0 <= i < j < vs.len() ==> !veq(*(#[trigger] vs[i]), *(#[trigger] vs[j])) && !veq(*vs[j], *vs[i]))
}
pub proof fn lemma_skip(vs: Seq<&Version>, e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>)
    requires 0 <= n < e.len(), gathered(vs, e, n, pre, h, k, py), !offered(e[n], pre, h, k, py)
    ensures gathered(vs, e, n + 1, pre, h, k, py)
{
    assert forall|j: int| 0 <= j < vs.len() implies in_table(e, n + 1, *(#[trigger] vs[j]), pre, h, k, py) by { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == *vs[j] && offered(e[i], pre, h, k, py); assert(e[i].0 == *vs[j]); }
}
pub proof fn lemma_add(vs: Seq<&Version>, e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>, v: &Version)
    requires 0 <= n < e.len(), distinct(e), gathered(vs, e, n, pre, h, k, py), offered(e[n], pre, h, k, py), *v == e[n].0
    ensures gathered(vs.push(v), e, n + 1, pre, h, k, py)
{
    let ws = vs.push(v);
    assert forall|j: int| 0 <= j < ws.len() implies in_table(e, n + 1, *(#[trigger] ws[j]), pre, h, k, py) by {
        if j < vs.len() { assert(ws[j] == vs[j]); let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == *vs[j] && offered(e[i], pre, h, k, py); assert(e[i].0 == *ws[j]); } else { assert(e[n].0 == *ws[j]); }
    }
    assert forall|i: int| 0 <= i < n + 1 && offered(#[trigger] e[i], pre, h, k, py) implies in_list(ws, e[i].0) by {
        if i < n { let j = choose|j: int| 0 <= j < vs.len() && *(#[trigger] vs[j]) == e[i].0; assert(*ws[j] == e[i].0); } else { assert(*ws[vs.len() as int] == e[n].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < ws.len() implies !veq(*(#[trigger] ws[i]), *(#[trigger] ws[j])) && !veq(*ws[j], *ws[i]) by {
        if j < vs.len() { assert(ws[i] == vs[i] && ws[j] == vs[j]); }
        else { let m = choose|m: int| 0 <= m < n && (#[trigger] e[m]).0 == *vs[i] && offered(e[m], pre, h, k, py); assert(in_table(e, n, *vs[i], pre, h, k, py)); assert(ws[i] == vs[i]); assert(!veq(e[m].0, e[n].0) && !veq(e[n].0, e[m].0)); }
    }
}
// the pinned version first, then from newest to oldest
pub open spec fn goes_before(a: Version, b: Version, pin: Option<Version>) -> bool {
    match pin { Some(p) => (veq(p, a) && !veq(p, b)) || (veq(p, a) == veq(p, b) && !vlt(a, b)), None => !vlt(a, b) }
}
pub open spec fn in_order(vs: Seq<&Version>, pin: Option<Version>) -> bool { forall|i: int, j: int| 0 <= i < j < vs.len() ==> goes_before(*(#[trigger] vs[i]), *(#[trigger] vs[j]), pin) }

// ---- sorting by a key: keys compare as their parts do
pub trait KeyOrd: Sized { spec fn klt(self, o: Self) -> bool; spec fn keq(self, o: Self) -> bool; }
impl KeyOrd for bool { open spec fn klt(self, o: bool) -> bool { !self && o } open spec fn keq(self, o: bool) -> bool { self == o } }
impl<'a> KeyOrd for &'a Version { open spec fn klt(self, o: &'a Version) -> bool { vlt(*self, *o) } open spec fn keq(self, o: &'a Version) -> bool { veq(*self, *o) } }
pub struct Reverse<T>(pub T);
impl<T: KeyOrd> KeyOrd for Reverse<T> { open spec fn klt(self, o: Self) -> bool { o.0.klt(self.0) } open spec fn keq(self, o: Self) -> bool { self.0.keq(o.0) } }
impl<A: KeyOrd, B: KeyOrd> KeyOrd for (A, B) { open spec fn klt(self, o: Self) -> bool { self.0.klt(o.0) || (self.0.keq(o.0) && self.1.klt(o.1)) } open spec fn keq(self, o: Self) -> bool { self.0.keq(o.0) && self.1.keq(o.1) } }
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && (forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k))
}
pub open spec fn permuted(a: Seq<&Version>, b: Seq<&Version>) -> bool { a.len() == b.len() && exists|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]] }
pub open spec fn key_not_after<'a, K: KeyOrd, F: Fn(&&'a Version) -> K>(f: F, a: &'a Version, b: &'a Version) -> bool { exists|x: K, y: K| #[trigger] f.ensures((&a,), x) && #[trigger] f.ensures((&b,), y) && !y.klt(x) }
#[verifier::external_body]
pub fn sort_by_key_<'a, K: KeyOrd, F: Fn(&&'a Version) -> K>(v: &mut Vec<&'a Version>, f: F)
    requires forall|a: &&'a Version| #[trigger] f.requires((a,))
    ensures permuted(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key_not_after(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j])
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_somehow_<'a>(v: &mut Vec<&'a Version>) ensures permuted(old(v)@, final(v)@) { unimplemented!() }
pub proof fn lemma_permuted(a: Seq<&Version>, b: Seq<&Version>, e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>)
    requires permuted(a, b), gathered(a, e, n, pre, h, k, py)
    ensures gathered(b, e, n, pre, h, k, py)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|i: int| 0 <= i < n && offered(#[trigger] e[i], pre, h, k, py) implies in_list(b, e[i].0) by {
        let j = choose|j: int| 0 <= j < a.len() && *(#[trigger] a[j]) == e[i].0;
        assert(p.contains(j)); let q = choose|q: int| 0 <= q < p.len() && p[q] == j; assert(*b[q] == e[i].0);
    }
    assert forall|j: int| 0 <= j < b.len() implies in_table(e, n, *(#[trigger] b[j]), pre, h, k, py) by { assert(b[j] == a[p[j]]); assert(in_table(e, n, *a[p[j]], pre, h, k, py)); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies !veq(*(#[trigger] b[i]), *(#[trigger] b[j])) && !veq(*b[j], *b[i]) by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]); assert(p[i] != p[j]);
    }
}
pub fn sort_by_key<'a, K: KeyOrd, F: Fn(&&'a Version) -> K>(v: &mut Vec<&'a Version>, f: F)
    requires forall|a: &&'a Version| #[trigger] f.requires((a,))
    ensures forall|e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>| #[trigger] gathered(old(v)@, e, n, pre, h, k, py) ==> gathered(final(v)@, e, n, pre, h, k, py),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key_not_after(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j])
{
    let ghost a = v@;
    sort_by_key_(v, f);
    proof { assert forall|e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>| #[trigger] gathered(a, e, n, pre, h, k, py) implies gathered(v@, e, n, pre, h, k, py) by { lemma_permuted(a, v@, e, n, pre, h, k, py); } }
}
pub fn sort_somehow<'a>(v: &mut Vec<&'a Version>)
    ensures forall|e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>| #[trigger] gathered(old(v)@, e, n, pre, h, k, py) ==> gathered(final(v)@, e, n, pre, h, k, py),
{
    let ghost a = v@;
    sort_somehow_(v);
    proof { assert forall|e: Seq<Ent>, n: int, pre: bool, h: VersionHints, k: Seq<char>, py: Option<Version>| #[trigger] gathered(a, e, n, pre, h, k, py) implies gathered(v@, e, n, pre, h, k, py) by { lemma_permuted(a, v@, e, n, pre, h, k, py); } }
}
#[verifier::external_body]
pub fn is_hint(h: Option<&&Version>, v: &&Version) -> (r: bool) ensures r == (h matches Some(p) && veq(**p, **v)) { unimplemented!() }

pub open spec fn texts_small(db: PackageDB, n: Seq<char>) -> bool {
    forall|i: int, j: int| 0 <= i < db.entries(n).len() && 0 <= j < db.entries(n)[i].1.len() ==> ((#[trigger] db.entries(n)[i].1[j]).requires_python matches Some(t) ==> small_text(t@))
}
// the versions on offer for a package, in the order in which they are tried
pub open spec fn listing(db: PackageDB, brief: Brief, n: Seq<char>, py: Option<Version>, h: VersionHints, vs: Seq<&Version>) -> bool {
    let e = db.entries(n);
    gathered(vs, e, e.len() as int, all_pre(e) || pre_allowed(brief.allow_pre, n), h, n, py) && in_order(vs, hint(h, n))
}
@fn src/resolve.rs | fn:fetch_and_sort_versions
@sub? `artifacts.iter().all(|($v, _)| $e)` => `all_versions(artifacts, |$v: &Version| -> (b: bool) ensures b == is_pre(*$v) { $e })`
@sub? `hints.0.get(&package)` => `hints.0.get(package)`
@sub? `hints.contains(&$x)` => `hints.contains($x)`
@sub? `requires_python.parse()` => `parse_specifiers(requires_python)`
@sub? `in artifacts.iter()` => `in artifacts.pairs()`
@sub? `for ai in ais` => `for ai in file_refs(ais)`
@sub? `Vec::new()` => `Vec::<&'a Version>::new()`
@sub? `std::cmp::Reverse` => `Reverse`
@sub? `versions.sort_unstable_by_key(|v| { if $B })` => `sort_somehow(&mut versions)`
@sub? `versions.sort_unstable_by_key(|v| Reverse(*v))` => `sort_somehow(&mut versions)`
@sub? `version_hint != Some($x)` => `!is_hint(version_hint, $x)`
@sub? `version_hint == Some($x)` => `is_hint(version_hint, $x)`
@sub? `versions.sort_unstable_by_key(|v| {$B})` => `sort_by_key(&mut versions, |v: &&'a Version| -> (k: (bool, Reverse<&'a Version>)) ensures k.0 == !(version_hint matches Some(p) && veq(**p, **v)), k.1.0 == *v { $B })`
@forwhile 1
@forwhile 2
@params db brief package python_version hints
@sig pub fn fetch_and_sort_versions<'a>(db: &'a PackageDB, brief: &Brief, package: &PackageName, python_version: Option<&Version>, hints: &VersionHints) -> (r: Result<Vec<&'a Version>, Report>)
    requires python_version matches Some(p) ==> in_domain(*p),
        texts_small(*db, package.norm()),
    ensures r matches Ok(vs) ==> listing(*db, *brief, package.norm(), deref_v(python_version), *hints, vs@)
@at start
let ghost e = db.entries(package.norm());
let ghost n = package.norm();
let ghost py = deref_v(python_version);
let ghost hs = *hints;
let ghost pre = all_pre(e) || pre_allowed(brief.allow_pre, package.norm());
@loop 1
    invariant it1.wf(), it1.all@.len() == e.len(), forall|i: int| 0 <= i < e.len() ==> *(#[trigger] it1.all@[i]).0 == e[i].0 && it1.all@[i].1@ == e[i].1, distinct(e),
        e == db.entries(package.norm()), python_version matches Some(p) ==> in_domain(*p), py == deref_v(python_version), allow_prerelease == pre, hs == *hints, n == package.norm(),
        match hash_hints { Some(h) => hs.0.m().dom().contains(n) && *h == hs.0.m()[n].1, None => !hs.0.m().dom().contains(n) },
        match version_hint { Some(h) => hs.0.m().dom().contains(n) && *h == hs.0.m()[n].0, None => !hs.0.m().dom().contains(n) },
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e[i].1.len() ==> ((#[trigger] e[i].1[j]).requires_python matches Some(t) ==> small_text(t@)),
        gathered(versions@, e, it1.i@, pre, hs, n, py),
    decreases e.len() - it1.i@
@at loop 1 start
let ghost i1 = it1.i@;
proof { if !offered(e[i1], pre, hs, n, py) { lemma_skip(versions@, e, i1, pre, hs, n, py); } }
@loop 2
    invariant_except_break versions@ == vs0, forall|j: int| 0 <= j < it2.i@ ==> !usable(#[trigger] ais@[j], hs, n, py),
    invariant it2.wf(), it2.all@.len() == ais@.len(), forall|j: int| 0 <= j < ais@.len() ==> *(#[trigger] it2.all@[j]) == ais@[j], 0 <= i1 < e.len(), ais@ == e[i1].1, *version == e[i1].0, distinct(e),
        e == db.entries(package.norm()), python_version matches Some(p) ==> in_domain(*p), py == deref_v(python_version), hs == *hints, pre || !is_pre(e[i1].0),
        match hash_hints { Some(h) => hs.0.m().dom().contains(n) && *h == hs.0.m()[n].1, None => !hs.0.m().dom().contains(n) },
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e[i].1.len() ==> ((#[trigger] e[i].1[j]).requires_python matches Some(t) ==> small_text(t@)),
        gathered(vs0, e, i1, pre, hs, n, py), !offered(e[i1], pre, hs, n, py) ==> gathered(vs0, e, i1 + 1, pre, hs, n, py),
    ensures gathered(versions@, e, i1 + 1, pre, hs, n, py),
    decreases ais@.len() - it2.i@
@at loop 2 before
let ghost vs0 = versions@;
@at after `versions.push($v);`
proof { assert(usable(ais@[it2.i@ - 1], hs, n, py)); lemma_add(vs0, e, i1, pre, hs, n, py, version); }
@at before `Ok(versions)`
proof { assert forall|i: int, j: int| 0 <= i < j < versions@.len() implies goes_before(*(#[trigger] versions@[i]), *(#[trigger] versions@[j]), hint(hs, n)) by {} }
@endfn
pub open spec fn deref_v(v: Option<&Version>) -> Option<Version> { match v { Some(x) => Some(*x), None => None } }

// ---- what the solver is told
// elsa::FrozenMap: what is inserted for an equal key stays; every entry satisfies what insert required
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct FrozenMap<K, V> { k: K, v: V }
impl<K, V> FrozenMap<K, V> {
    pub uninterp spec fn good(&self, k: K, v: V) -> bool;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r matches Some(v) ==> self.good(*k, *v) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, k: K, v: V) -> (r: &V) requires self.good(k, v) ensures self.good(k, *r) { unimplemented!() }
}
pub trait ToOwned_: Sized { fn to_owned(&self) -> (r: Self) ensures r == *self; }
impl ToOwned_ for PackageName { #[verifier::external_body] fn to_owned(&self) -> (r: Self) { unimplemented!() } }
@fn src/resolve.rs | fn:get_or_fill
@params map key f
@sig pub fn get_or_fill<'a, K: ToOwned_, V, F: FnOnce() -> Result<V, Report>>(map: &'a FrozenMap<K, V>, key: &K, f: F) -> (r: Result<&'a V, Report>)
    requires f.requires(()), forall|v: V| #[trigger] f.ensures((), Ok(v)) ==> map.good(*key, v)
    ensures r matches Ok(v) ==> map.good(*key, *v)
@endfn
#[verifier::external_body] pub struct Extra { x: u8 }
@type src/resolve.rs | type:ResPkg ;
#[verifier::external_body] pub struct PRange { x: u8 }
impl PRange {
    pub uninterp spec fn holds(&self, v: Version) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, v: &Version) -> (r: bool) ensures r == self.holds(*v) { unimplemented!() }
}
// the packages the solver still has to decide on
pub struct Cands { pub l: Vec<(ResPkg, PRange)> }
impl Cands {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(ResPkg, PRange)>) ensures match r { Some(x) => old(self).l@.len() > 0 && x == old(self).l@[0], None => old(self).l@.len() == 0 } { unimplemented!() }
}
pub uninterp spec fn root_v() -> Version;
#[verifier::external_body]
pub fn root_version() -> (r: Version) ensures r == root_v() { unimplemented!() }
pub fn each<'a, 'b>(v: &'a Vec<&'b Version>) -> (r: Vec<&'b Version>) ensures r@ == v@ {
    let mut out: Vec<&'b Version> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), out@ == v@.take(i as int) decreases v@.len() - i { out.push(v[i]); proof { assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int])); } i += 1; }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
pub struct PubgrubState<'a> {
    pub db: &'a PackageDB, pub brief: &'a Brief, pub version_hints: &'a VersionHints<'a>, pub python_full_version: Version,
    pub versions: FrozenMap<PackageName, Vec<&'a Version>>,
}
impl<'a> PubgrubState<'a> {
    pub open spec fn on_offer(&self, n: Seq<char>, vs: Seq<&Version>) -> bool { listing(*self.db, *self.brief, n, Some(self.python_full_version), *self.version_hints, vs) }
    pub open spec fn wf(&self) -> bool {
        in_domain(self.python_full_version) && (forall|n: Seq<char>| #[trigger] texts_small(*self.db, n))
        && forall|n: PackageName, vs: Vec<&'a Version>| #[trigger] self.versions.good(n, vs) <==> self.on_offer(n.norm(), vs@)
    }
    #[verifier::external_body]
    pub fn metadata(&self, release: &(PackageName, Version)) -> (r: Result<&WheelResolveMetadataInner, Report>)
        ensures r matches Ok(m) ==> forall|i: int| 0 <= i < m.requires_python.0@.len() ==> rhs_in_domain((#[trigger] m.requires_python.0@[i]).value@)
    { unimplemented!() }
@fn src/resolve.rs | PubgrubState/fn:versions
@sub? `|| {$B}` => `|| -> (r: Result<Vec<&'a Version>, Report>) requires self.wf() ensures r matches Ok(vs) ==> self.on_offer(package.norm(), vs@) {$B}`
@params self package
@sig pub fn versions(&self, package: &PackageName) -> (r: Result<&Vec<&'a Version>, Report>)
    requires self.wf()
    ensures r matches Ok(vs) ==> self.on_offer(package.norm(), vs@)
@endfn
@fn src/resolve.rs | pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState/fn:choose_package_version
@sub? `respkg.borrow()` => `&respkg`
@sub? `range.borrow()` => `(&range)`
@sub? `ROOT_VERSION.clone()` => `root_version()`
@sub? `for &version in self.versions($n)? { }` => `self.versions($n)?;`
@sub? `for &version in self.versions($n)? {$B}` => `let list = self.versions($n)?; for version in each(list) {$B}`
@sub? `Err(verr())?;` => `return Err(verr());`
@forwhile 1
@params self cands
@sig pub fn choose_package_version(&self, cands: Cands) -> (r: Result<(ResPkg, Option<Version>), Report>)
    requires self.wf(), cands.l@.len() > 0
    ensures r matches Ok((p, v)) ==> {
        let (p0, range) = cands.l@[0];
        p == p0 && match p0 {
            ResPkg::Root => v == Some(root_v()),
            // the first version on offer that the constraints admit
            ResPkg::Package(name, _) => exists|vs: Seq<&Version>| #[trigger] self.on_offer(name.norm(), vs) && match v {
                Some(x) => exists|i: int| 0 <= i < vs.len() && *(#[trigger] vs[i]) == x && range.holds(x) && forall|j: int| 0 <= j < i ==> !range.holds(*(#[trigger] vs[j])),
                None => forall|j: int| 0 <= j < vs.len() ==> !range.holds(*(#[trigger] vs[j])),
            },
        }
    }
@at before `return Ok($e)`
proof { assert(*list@[it1.i@ - 1] == *version); assert(self.on_offer(name.norm(), list@)); }
@at start
let ghost first = cands.l@[0];
@loop 1
    invariant it1.wf(), self.wf(), it1.all@ == list@, self.on_offer(name.norm(), list@), forall|j: int| 0 <= j < it1.i@ ==> !range.holds(*(#[trigger] list@[j])),
        first == cands.l@[0], respkg == first.0, range == first.1, match respkg { ResPkg::Package(n0, _) => n0 == *name, _ => false },
    decreases list@.len() - it1.i@
@endfn
}
// ---- which interpreter
#[verifier::external_body] pub struct PybiPlatform { x: u8 }
pub uninterp spec fn picked(fs: Seq<AI>, ps: Seq<&PybiPlatform>, r: Option<(AI, PybiPlatform)>) -> bool;
// contracts/R06.vrs
#[verifier::external_body]
pub fn pick_best_pybi<'a, 'b>(artifact_infos: &'a [ArtifactInfo], platforms: &[&'b PybiPlatform]) -> (r: Option<(&'a ArtifactInfo, &'b PybiPlatform)>)
    ensures match r { Some((a, p)) => picked(artifact_infos@, platforms@, Some((*a, *p))), None => picked(artifact_infos@, platforms@, None) } { unimplemented!() }
pub open spec fn files_for(e: Seq<Ent>, v: Version, fs: Seq<AI>) -> bool { exists|i: int| 0 <= i < e.len() && veq((#[trigger] e[i]).0, v) && fs == e[i].1 }
impl PackageDB {
    #[verifier::external_body]
    pub fn artifacts_for_version(&self, n: &PackageName, v: &Version) -> (r: Result<&[ArtifactInfo], Report>)
        ensures r matches Ok(x) ==> x@ == self.files(n.norm(), *v) { unimplemented!() }
    pub uninterp spec fn files(&self, n: Seq<char>, v: Version) -> Seq<AI>;
}
pub open spec fn suits(db: PackageDB, brief: Brief, ps: Seq<&PybiPlatform>, v: Version) -> bool { specs_admit(brief.python.specifiers, v) && !picked(db.files(brief.python.name.norm(), v), ps, None) }
@fn src/resolve.rs | fn:resolve_pybi
@sub? `for version in versions.iter()` => `for version in each(&versions)`
@sub? `Err(PosyError::$x)?` => `return Err(verr())`
@forwhile 1
@params db brief platforms hints
@sig pub fn resolve_pybi<'a, 'b>(db: &'a PackageDB, brief: &Brief, platforms: &[&'b PybiPlatform], hints: &VersionHints) -> (r: Result<(&'a ArtifactInfo, &'b PybiPlatform), Report>)
    requires texts_small(*db, brief.python.name.norm()), forall|i: int| 0 <= i < brief.python.specifiers.0@.len() ==> rhs_in_domain((#[trigger] brief.python.specifiers.0@[i]).value@),
        forall|i: int| 0 <= i < db.entries(brief.python.name.norm()).len() ==> in_domain((#[trigger] db.entries(brief.python.name.norm())[i]).0),
    // a file of the first version on offer that the brief admits and that has one for these platforms
    ensures r matches Ok((a, p)) ==> exists|vs: Seq<&Version>| #[trigger] listing(*db, *brief, brief.python.name.norm(), None, *hints, vs)
        && exists|i: int| 0 <= i < vs.len() && specs_admit(brief.python.specifiers, *(#[trigger] vs[i])) && picked(db.files(brief.python.name.norm(), *vs[i]), platforms@, Some((*a, *p)))
            && forall|j: int| 0 <= j < i ==> !specs_admit(brief.python.specifiers, *(#[trigger] vs[j])) || picked(db.files(brief.python.name.norm(), *vs[j]), platforms@, None)
@loop 1
    invariant it1.wf(), it1.all@ == versions@, *name == brief.python.name, listing(*db, *brief, brief.python.name.norm(), None, *hints, versions@),
        forall|i: int| 0 <= i < brief.python.specifiers.0@.len() ==> rhs_in_domain((#[trigger] brief.python.specifiers.0@[i]).value@),
        forall|i: int| 0 <= i < db.entries(brief.python.name.norm()).len() ==> in_domain((#[trigger] db.entries(brief.python.name.norm())[i]).0),
        forall|j: int| 0 <= j < it1.i@ ==> !specs_admit(brief.python.specifiers, *(#[trigger] versions@[j])) || picked(db.files(brief.python.name.norm(), *versions@[j]), platforms@, None),
    decreases versions@.len() - it1.i@
@at loop 1 start
proof { let e = db.entries(brief.python.name.norm()); let n = brief.python.name.norm();
    assert(in_table(e, e.len() as int, *versions@[it1.i@], all_pre(e) || pre_allowed(brief.allow_pre, n), *hints, n, None)); }
@at loop 1 end
proof { assert(*versions@[it1.i@ - 1] == *version);  assert(!specs_admit(brief.python.specifiers, *version) || picked(db.files(brief.python.name.norm(), *version), platforms@, None)); }
@at before `return Ok($e)`
proof { assert(*versions@[it1.i@ - 1] == *version); assert(specs_admit(brief.python.specifiers, *version)); assert(picked(db.files(brief.python.name.norm(), *version), platforms@, Some((*ai, *platform)))); }
@endfn
}
fn main() {}
