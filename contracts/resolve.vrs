@include contracts/common.vrs
@include contracts/pep440.vrs
@include contracts/ranges.vrs
@include contracts/marker.vrs
@include contracts/simplify.vrs
verus! {
impl Version {
@fn src/vocab/version.rs | pubgrub::version::Version for Version/fn:lowest
@sub? `VERSION_ZERO.to_owned()` => `version_zero()`
@sub? `VERSION_ZERO.clone()` => `version_zero()`
@sig pub fn lowest() -> (r: Version) ensures forall|c: Version| in_domain(c) ==> !#[trigger] vlt(c, r),
@endfn
@fn src/vocab/version.rs | pubgrub::version::Version for Version/fn:bump
@params self
@sig pub fn bump(&self) -> (r: Version)
    // the next version up: nothing lies between
    ensures forall|c: Version| (!vlt(c, *self) && #[trigger] vlt(c, r)) <==> veq(c, *self),
@at start
proof {
    assert forall|x: Local, b: Local| next_local(self.0.local@, b) implies
        ((!local_lt(x, self.0.local@) && #[trigger] local_lt(x, b)) <==> local_eq(x, self.0.local@))
        && (local_lt(x, self.0.local@) ==> local_lt(x, b)) by { lemma_local_next(x, self.0.local@, b); }
    assert forall|c: Seq<u32>| #![trigger rel_lt(c, self.0.release@)]
        !(rel_lt(c, self.0.release@) && rel_eq(c, self.0.release@)) by { lemma_rel_trichotomy(c, self.0.release@); }
}
@endfn
}
// ---- pubgrub::range::Range: a set of versions
#[verifier::external_body] pub struct PRange { x: u8 }
impl PRange {
    pub uninterp spec fn has_(&self, v: Version) -> bool;
    #[verifier::external_body]
    pub fn none() -> (r: PRange) ensures forall|v: Version| !#[trigger] r.has_(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn higher_than(v: Version) -> (r: PRange) ensures forall|c: Version| #[trigger] r.has_(c) <==> !vlt(c, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn between(a: Version, b: Version) -> (r: PRange) ensures forall|c: Version| #[trigger] r.has_(c) <==> !vlt(c, a) && vlt(c, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn strictly_lower_than(a: Version) -> (r: PRange) ensures forall|c: Version| in_domain(c) ==> (#[trigger] r.has_(c) <==> vlt(c, a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn union(&self, o: &PRange) -> (r: PRange) ensures forall|c: Version| #[trigger] r.has_(c) <==> self.has_(c) || o.has_(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(&self, o: &PRange) -> (r: PRange) ensures forall|c: Version| #[trigger] r.has_(c) <==> self.has_(c) && o.has_(c) { unimplemented!() }
@fn dep:pubgrub-0.2.1/src/range.rs | Range/fn:any
@sub? `V::lowest()` => `Version::lowest()`
@sig pub fn any() -> (r: PRange) ensures forall|c: Version| in_domain(c) ==> #[trigger] r.has_(c)
@endfn
    // one segment from v up to v.bump()
    pub fn exact(v: Version) -> (r: PRange) ensures forall|c: Version| #[trigger] r.has_(c) <==> veq(c, v)
    { let b = v.bump(); Self::between(v, b) }
}
pub proof fn lemma_above_all(c: Version, e: Version, inf: Version)
    requires in_domain(c), !vlt(e, inf), inf.0.epoch > c.0.epoch
    ensures vlt(c, e)
{}
pub open spec fn specs_admit(s: Specifiers, v: Version) -> bool { forall|i: int| 0 <= i < s.0@.len() ==> spec_admits(#[trigger] s.0@[i], v) }
pub open spec fn specs_ok(s: Specifiers) -> bool { forall|i: int| 0 <= i < s.0@.len() ==> spec_allowed(#[trigger] s.0@[i]) }
pub open spec fn specs_small(s: Specifiers) -> bool { forall|i: int| 0 <= i < s.0@.len() ==> rhs_in_domain((#[trigger] s.0@[i]).value@) }
pub fn range_at(v: &Vec<Range<Version>>, i: usize) -> (r: Range<Version>) requires i < v@.len() ensures r == v@[i as int] { Range { start: v[i].start.clone(), end: v[i].end.clone() } }

@fn src/resolve.rs | fn:specifiers_to_pubgrub
@sub `= $e.into_iter().fold(Range::none(), |accum, r| { $B })` => `= { let rs = $e; let mut accum = PRange::none(); let mut i: usize = 0; while i < rs.len() { let r = range_at(&rs, i); accum = { $B }; i += 1; } accum }`
@sub? `r.end < *VERSION_INFINITY` => `version_lt(&r.end, &version_infinity())`
@sub? `Range::any` => `PRange::any`
@sub? `Range::none` => `PRange::none`
@sub? `Range::between` => `PRange::between`
@sub? `Range::higher_than` => `PRange::higher_than`
@params specs
@sig pub fn specifiers_to_pubgrub(specs: &Specifiers) -> (r: Result<PRange, Report>)
    requires specs_small(*specs)
    ensures
        r is Ok <==> specs_ok(*specs),
        r matches Ok(p) ==> forall|v: Version| in_domain(v) ==> (#[trigger] p.has_(v) <==> specs_admit(*specs, v)),
@at start
proof { assert forall|c: Version, e: Version, inf: Version| in_domain(c) && inf.0.epoch > c.0.epoch && !#[trigger] vlt(e, inf) implies #[trigger] vlt(c, e) by { lemma_above_all(c, e, inf); } }
@loop 1 iter=it
    invariant
        it.seq().len() == specs.0@.len(), forall|i: int| 0 <= i < specs.0@.len() ==> *(#[trigger] it.seq()[i]) == specs.0@[i],
        specs_small(*specs),
        forall|c: Version, e: Version, inf: Version| in_domain(c) && inf.0.epoch > c.0.epoch && !#[trigger] vlt(e, inf) ==> #[trigger] vlt(c, e),
        forall|i: int| 0 <= i < it.index@ ==> spec_allowed(#[trigger] specs.0@[i]),
        forall|v: Version| in_domain(v) ==> (#[trigger] final_range.has_(v) <==> (forall|i: int| 0 <= i < it.index@ ==> spec_admits(#[trigger] specs.0@[i], v))),
@loop 2
    invariant
        i <= rs@.len(), forall|c: Version| in_domain(c) ==> (#[trigger] in_ranges(rs@, c) <==> spec_admits(specs.0@[it.index@], c)),
        forall|c: Version, e: Version, inf: Version| in_domain(c) && inf.0.epoch > c.0.epoch && !#[trigger] vlt(e, inf) ==> #[trigger] vlt(c, e),
        forall|v: Version| in_domain(v) ==> (#[trigger] accum.has_(v) <==> (exists|j: int| 0 <= j < i && in_range(#[trigger] rs@[j], v))),
    decreases rs@.len() - i
@at loop 2 after
proof { assert forall|v: Version| in_domain(v) implies (#[trigger] accum.has_(v) <==> spec_admits(specs.0@[it.index@], v)) by { assert(in_ranges(rs@, v) <==> (exists|j: int| 0 <= j < rs@.len() && in_range(#[trigger] rs@[j], v))); } }
@endfn

// ---- what is required of what
pub struct PackageName { pub as_given: String, pub normalized: String }
// names are equal when their normalized spellings are
impl PackageName {
    pub open spec fn norm(&self) -> Seq<char> { self.normalized@ }
    #[verifier::external_body]
    pub fn as_given(&self) -> (r: &str) { unimplemented!() }
}
impl Clone for PackageName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Extra { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@type src/resolve.rs | type:ResPkg ;
@type src/vocab/requirement.rs | type:Requirement
@sub? `marker::EnvMarkerExpr` => `EnvMarkerExpr`
@end
pub enum Key { Root, Pkg(Seq<char>, Option<Seq<char>>) }
pub open spec fn extra_key(x: Option<Extra>) -> Option<Seq<char>> { match x { Some(e) => Some(e.norm()), None => None } }
pub open spec fn key_of(p: ResPkg) -> Key { match p { ResPkg::Root => Key::Root, ResPkg::Package(n, x) => Key::Pkg(n.norm(), extra_key(x)) } }
// HashMap<ResPkg, Range<Version>>
#[verifier::external_body] pub struct Dc { x: u8 }
impl Dc {
    pub uninterp spec fn m(&self) -> Map<Key, PRange>;
    #[verifier::external_body]
    pub fn new() -> (r: Dc) ensures r.m() == Map::<Key, PRange>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &ResPkg) -> (r: Option<&PRange>)
        ensures match r { Some(x) => self.m().dom().contains(key_of(*k)) && *x == self.m()[key_of(*k)], None => !self.m().dom().contains(key_of(*k)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: ResPkg, v: PRange) -> (r: Option<PRange>) ensures final(self).m() == old(self).m().insert(key_of(k), v) { unimplemented!() }
}
pub open spec fn lets(m: Map<Key, PRange>, k: Key, v: Version) -> bool { m.dom().contains(k) ==> m[k].has_(v) }
@fn src/resolve.rs | fn:add_constraint
@params dc pkg range
@sig pub fn add_constraint(dc: &mut Dc, pkg: ResPkg, range: PRange)
    ensures
        // everything that was asked of the package still is, and this too; other packages are as before
        forall|k: Key| #[trigger] final(dc).m().dom().contains(k) <==> old(dc).m().dom().contains(k) || k == key_of(pkg),
        forall|k: Key, v: Version| #[trigger] lets(final(dc).m(), k, v) <==> lets(old(dc).m(), k, v) && (k == key_of(pkg) ==> range.has_(v)),
@endfn
pub open spec fn targets(r: Requirement, k: Key) -> bool {
    k matches Key::Pkg(n, x) && n == r.name.norm() && match x { None => r.extras@.len() == 0, Some(e) => exists|j: int| 0 <= j < r.extras@.len() && #[trigger] r.extras@[j].norm() == e }
}
// whether a requirement applies: its marker holds, with 'extra' set as asked for
pub open spec fn applies(r: Requirement, x: Option<Seq<char>>, vars: Vars, b: bool) -> bool {
    match r.env_marker_expr { None => b, Some(e) => meaning(e, with_extra(vars, x)) is Some ==> b == meaning(e, with_extra(vars, x))->Some_0 }
}
pub open spec fn req_ok(r: Requirement) -> bool {
    specs_small(r.specifiers) && (r.env_marker_expr matches Some(e) ==> literals_ok(e)) && forall|j: int| 0 <= j < r.extras@.len() ==> text_ok(#[trigger] r.extras@[j].norm())
}
pub open spec fn decided(rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, app: Seq<bool>, n: int) -> bool { app.len() == n && forall|i: int| 0 <= i < n ==> applies(rs[i], x, vars, #[trigger] app[i]) }
pub open spec fn asked(rs: Seq<Requirement>, app: Seq<bool>, k: Key, v: Version) -> bool { forall|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k) ==> specs_admit(rs[i].specifiers, v) }
pub open spec fn named(rs: Seq<Requirement>, app: Seq<bool>, k: Key) -> bool { exists|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k) }
// m1 is m0 plus exactly what the applicable requirements ask for
pub open spec fn constrained(m0: Map<Key, PRange>, m1: Map<Key, PRange>, rs: Seq<Requirement>, app: Seq<bool>) -> bool {
    (forall|k: Key| #[trigger] m1.dom().contains(k) <==> m0.dom().contains(k) || named(rs, app, k))
    && (forall|k: Key, v: Version| in_domain(v) ==> (#[trigger] lets(m1, k, v) <==> lets(m0, k, v) && asked(rs, app, k, v)))
}
// PackageRequirement, UserRequirement: wrappers around a Requirement
pub trait Req { spec fn req(&self) -> Requirement; fn deref(&self) -> (r: &Requirement) ensures *r == self.req(); }
pub open spec fn reqs_of<R: Req>(s: Seq<&R>) -> Seq<Requirement> { s.map_values(|r: &R| r.req()) }
pub struct PackageRequirement(pub Requirement);
pub struct UserRequirement(pub Requirement);
impl Req for PackageRequirement { open spec fn req(&self) -> Requirement { self.0 } fn deref(&self) -> (r: &Requirement) { &self.0 } }
impl Req for UserRequirement { open spec fn req(&self) -> Requirement { self.0 } fn deref(&self) -> (r: &Requirement) { &self.0 } }
// .iter().map(|e| Some(e.clone())).collect()
#[verifier::external_body]
pub fn some_each(v: &Vec<Extra>) -> (r: Vec<Option<Extra>>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == Some(v@[i]) { unimplemented!() }
pub open spec fn opt_norm(x: Option<&Extra>) -> Option<Seq<char>> { match x { Some(e) => Some(e.norm()), None => None } }
pub fn norm_of<'a>(x: Option<&'a Extra>) -> (r: Option<&'a str>) ensures opt_view(r) == opt_norm(x) { match x { Some(e) => Some(e.normalized()), None => None } }

// one more requirement that applies
pub open spec fn step(m1: Map<Key, PRange>, m2: Map<Key, PRange>, r: Requirement) -> bool {
    (forall|k: Key| #[trigger] m2.dom().contains(k) <==> m1.dom().contains(k) || targets(r, k))
    && (forall|k: Key, v: Version| in_domain(v) ==> (#[trigger] lets(m2, k, v) <==> lets(m1, k, v) && (targets(r, k) ==> specs_admit(r.specifiers, v))))
}
pub open spec fn so_far(m0: Map<Key, PRange>, m: Map<Key, PRange>, rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, n: int) -> bool {
    exists|app: Seq<bool>| #[trigger] decided(rs, x, vars, app, n) && constrained(m0, m, rs, app)
}
pub proof fn lemma_skip(m0: Map<Key, PRange>, m1: Map<Key, PRange>, rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, n: int)
    requires so_far(m0, m1, rs, x, vars, n), 0 <= n < rs.len(), applies(rs[n], x, vars, false)
    ensures so_far(m0, m1, rs, x, vars, n + 1)
{
    let app = choose|app: Seq<bool>| #[trigger] decided(rs, x, vars, app, n) && constrained(m0, m1, rs, app);
    let a1 = app.push(false);
    assert(decided(rs, x, vars, a1, n + 1));
    assert forall|k: Key| named(rs, a1, k) <==> #[trigger] named(rs, app, k) by {
        if named(rs, app, k) { let i = choose|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k); assert(a1[i]); }
        if named(rs, a1, k) { let i = choose|i: int| 0 <= i < a1.len() && #[trigger] a1[i] && targets(rs[i], k); assert(app[i]); }
    }
    assert forall|k: Key, v: Version| asked(rs, a1, k, v) <==> #[trigger] asked(rs, app, k, v) by {
        if asked(rs, a1, k, v) { assert forall|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k) implies specs_admit(rs[i].specifiers, v) by { assert(a1[i]); } }
    }
    assert forall|k: Key| #[trigger] m1.dom().contains(k) <==> m0.dom().contains(k) || named(rs, a1, k) by { assert(named(rs, app, k) || !named(rs, app, k)); }
    assert forall|k: Key, v: Version| in_domain(v) implies (#[trigger] lets(m1, k, v) <==> lets(m0, k, v) && asked(rs, a1, k, v)) by { assert(asked(rs, app, k, v) || !asked(rs, app, k, v)); }
}
pub proof fn lemma_step(m0: Map<Key, PRange>, m1: Map<Key, PRange>, m2: Map<Key, PRange>, rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, n: int)
    requires so_far(m0, m1, rs, x, vars, n), 0 <= n < rs.len(), applies(rs[n], x, vars, true), step(m1, m2, rs[n])
    ensures so_far(m0, m2, rs, x, vars, n + 1)
{
    let app = choose|app: Seq<bool>| #[trigger] decided(rs, x, vars, app, n) && constrained(m0, m1, rs, app);
    let a1 = app.push(true);
    assert(decided(rs, x, vars, a1, n + 1));
    assert forall|k: Key| named(rs, a1, k) <==> #[trigger] named(rs, app, k) || targets(rs[n], k) by {
        if named(rs, app, k) { let i = choose|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k); assert(a1[i]); }
        if targets(rs[n], k) { assert(a1[n]); }
        if named(rs, a1, k) { let i = choose|i: int| 0 <= i < a1.len() && #[trigger] a1[i] && targets(rs[i], k); if i < n { assert(app[i]); } }
    }
    assert forall|k: Key, v: Version| asked(rs, a1, k, v) <==> #[trigger] asked(rs, app, k, v) && (targets(rs[n], k) ==> specs_admit(rs[n].specifiers, v)) by {
        if asked(rs, a1, k, v) { assert(a1[n]); assert forall|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k) implies specs_admit(rs[i].specifiers, v) by { assert(a1[i]); } }
        if asked(rs, app, k, v) && (targets(rs[n], k) ==> specs_admit(rs[n].specifiers, v)) { assert forall|i: int| 0 <= i < a1.len() && #[trigger] a1[i] && targets(rs[i], k) implies specs_admit(rs[i].specifiers, v) by { if i < n { assert(app[i]); } } }
    }
    assert forall|k: Key| #[trigger] m2.dom().contains(k) <==> m0.dom().contains(k) || named(rs, a1, k) by { assert(named(rs, app, k) || !named(rs, app, k)); assert(m1.dom().contains(k) || !m1.dom().contains(k)); }
    assert forall|k: Key, v: Version| in_domain(v) implies (#[trigger] lets(m2, k, v) <==> lets(m0, k, v) && asked(rs, a1, k, v)) by { assert(asked(rs, app, k, v) || !asked(rs, app, k, v)); assert(lets(m1, k, v) || !lets(m1, k, v)); }
}
// the first n of the packages xs (of one name) got this constraint
pub open spec fn hit(nm: Seq<char>, xs: Seq<Option<Extra>>, n: int, k: Key) -> bool { exists|j: int| 0 <= j < n && k == Key::Pkg(nm, extra_key(#[trigger] xs[j])) }
pub open spec fn part(m1: Map<Key, PRange>, m2: Map<Key, PRange>, r: Requirement, xs: Seq<Option<Extra>>, n: int) -> bool {
    (forall|k: Key| #[trigger] m2.dom().contains(k) <==> m1.dom().contains(k) || hit(r.name.norm(), xs, n, k))
    && (forall|k: Key, v: Version| in_domain(v) ==> (#[trigger] lets(m2, k, v) <==> lets(m1, k, v) && (hit(r.name.norm(), xs, n, k) ==> specs_admit(r.specifiers, v))))
}
pub proof fn lemma_hits(r: Requirement, xs: Seq<Option<Extra>>)
    requires
        r.extras@.len() == 0 ==> xs =~= seq![None::<Extra>],
        r.extras@.len() > 0 ==> xs.len() == r.extras@.len() && forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i] == Some(r.extras@[i]),
    ensures forall|k: Key| #[trigger] hit(r.name.norm(), xs, xs.len() as int, k) <==> targets(r, k)
{
    assert forall|k: Key| #[trigger] hit(r.name.norm(), xs, xs.len() as int, k) <==> targets(r, k) by {
        if targets(r, k) {
            if r.extras@.len() == 0 { assert(k == Key::Pkg(r.name.norm(), extra_key(xs[0]))); }
            else { let j = choose|j: int| 0 <= j < r.extras@.len() && #[trigger] r.extras@[j].norm() == k->Pkg_1->Some_0; assert(k == Key::Pkg(r.name.norm(), extra_key(xs[j]))); }
        }
        if hit(r.name.norm(), xs, xs.len() as int, k) {
            let j = choose|j: int| 0 <= j < xs.len() && k == Key::Pkg(r.name.norm(), extra_key(#[trigger] xs[j]));
            if r.extras@.len() > 0 { assert(r.extras@[j].norm() == k->Pkg_1->Some_0); }
        }
    }
}
// HashMap<String, String>
pub struct EnvMap { pub x: u8 }
impl EnvMap {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == (self.var(k@) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(s) => self.var(k@) == Some(s@), None => self.var(k@) is None } { unimplemented!() }
    // insert(k.into(), v.into())
    #[verifier::external_body]
    pub fn put(&mut self, k: &str, v: &str) ensures forall|n: Seq<char>| #[trigger] final(self).var(n) == (if n == k@ { Some(v@) } else { old(self).var(n) }) { unimplemented!() }
}
impl Env for EnvMap { uninterp spec fn var(&self, name: Seq<char>) -> Option<Seq<char>>; #[verifier::external_body] fn get_marker_var(&self, var: &str) -> (r: Option<&str>) { unimplemented!() } }
// ---- files and what they say about themselves
#[verifier::external_body] pub struct Url { x: u8 }
impl Url { pub uninterp spec fn t(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct Yanked { x: u8 }
#[verifier::external_body] pub struct ArtifactName { x: u8 }
#[verifier::external_body] pub struct PythonRequirement { x: u8 }
#[verifier::external_body] pub struct AllowPre { x: u8 }
pub struct ArtifactHash { pub mode: String, pub raw_data: Vec<u8> }
impl Clone for ArtifactHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
pub type AI = ArtifactInfo;
@type src/vocab/core_metadata.rs | type:WheelCoreMetadata
@sub? `HashSet<Extra>` => `ExtraSet`
@end
@type src/resolve.rs | type:WheelResolveMetadata ;
impl Clone for PackageRequirement { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ExtraSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Specifiers { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for WheelResolveMetadata { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// Vec::clone of a list of requirements
#[verifier::external_body]
pub fn clone_reqs(v: &Vec<PackageRequirement>) -> (r: Vec<PackageRequirement>) ensures r@ == v@ { unimplemented!() }
// what the solver is told of a file: its requirements, python requirement and extras, and where they come from
pub open spec fn told(ai: AI, m: WheelCoreMetadata, w: WheelResolveMetadata) -> bool {
    w.provenance@ == ai.url.t() && w.inner.requires_dist@ == m.requires_dist@ && w.inner.requires_python == m.requires_python && w.inner.extras == m.extras
}
impl WheelResolveMetadata {
@fn src/resolve.rs | WheelResolveMetadata/fn:from
@sub? `m.requires_dist.clone()` => `clone_reqs(&m.requires_dist)`
@params ai m
@sig pub fn from(ai: &ArtifactInfo, m: &WheelCoreMetadata) -> (r: WheelResolveMetadata)
    ensures told(*ai, *m, r)
@endfn
}
#[verifier::external_body] pub struct WheelBuilder { x: u8 }
#[verifier::external_body] pub struct PackageDB { x: u8 }
impl PackageDB {
    // contracts/P01.vrs
    pub uninterp spec fn arts(&self, n: Seq<char>, v: Version) -> Seq<AI>;
    #[verifier::external_body]
    pub fn artifacts_for_version(&self, n: &PackageName, v: &Version) -> (r: Result<&[AI], Report>) ensures r matches Ok(a) ==> a@ == self.arts(n.norm(), *v) { unimplemented!() }
    // contracts/D01.vrs: the metadata of one of the files
    pub uninterp spec fn says(&self, ai: AI, m: WheelCoreMetadata) -> bool;
    #[verifier::external_body]
    pub fn wheel_metadata<'b>(&self, ais: &'b [AI], builder: Option<&WheelBuilder>) -> (r: Result<(&'b AI, WheelCoreMetadata), Report>)
        ensures r matches Ok(x) ==> (exists|i: int| 0 <= i < ais@.len() && *x.0 == #[trigger] ais@[i]) && self.says(*x.0, x.1)
    { unimplemented!() }
    // whatever is on offer, its version and its requirements are ones the contracts speak about
    pub open spec fn tame(&self) -> bool {
        (forall|n: Seq<char>, v: Version| #[trigger] self.arts(n, v).len() > 0 ==> in_domain(v))
        && (forall|n: Seq<char>, v: Version, w: WheelResolveMetadata| #[trigger] self.from_files(n, v, w) ==> forall|i: int| 0 <= i < w.inner.requires_dist@.len() ==> req_ok((#[trigger] w.inner.requires_dist@[i]).0))
    }
    pub open spec fn from_files(&self, n: Seq<char>, v: Version, w: WheelResolveMetadata) -> bool {
        exists|i: int, m: WheelCoreMetadata| 0 <= i < self.arts(n, v).len() && #[trigger] self.says(self.arts(n, v)[i], m) && told(self.arts(n, v)[i], m, w)
    }
}
// elsa::FrozenMap: what is inserted for an equal key stays (`at`); every entry satisfies what insert required (`good`)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct FrozenMap<K, V> { k: K, v: V }
impl<K, V> FrozenMap<K, V> {
    pub uninterp spec fn good(&self, k: K, v: V) -> bool;
    pub uninterp spec fn at(&self, k: K) -> V;
    // whether there is an entry in the end
    pub uninterp spec fn there(&self, k: K) -> bool;
    #[verifier::external_body]
    pub fn fresh(p: Ghost<spec_fn(K, V) -> bool>) -> (r: Self) ensures forall|k: K, v: V| #[trigger] r.good(k, v) <==> p@(k, v) { unimplemented!() }
    // get(k).unwrap()
    #[verifier::external_body]
    pub fn known(&self, k: &K) -> (r: &V) requires self.there(*k) ensures self.good(*k, *r), *r == self.at(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r matches Some(v) ==> self.good(*k, *v) && *v == self.at(*k) && self.there(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, k: K, v: V) -> (r: &V) requires self.good(k, v) ensures self.good(k, *r), *r == self.at(k), self.there(k) { unimplemented!() }
}
pub trait ToOwned_: Sized { fn to_owned(&self) -> (r: Self) ensures r == *self; }
impl ToOwned_ for (PackageName, Version) { #[verifier::external_body] fn to_owned(&self) -> (r: Self) { unimplemented!() } }
impl ToOwned_ for PackageName { #[verifier::external_body] fn to_owned(&self) -> (r: Self) { unimplemented!() } }
@fn src/resolve.rs | fn:get_or_fill
@params map key f
@sig pub fn get_or_fill<'a, K: ToOwned_, V, F: FnOnce() -> Result<V, Report>>(map: &'a FrozenMap<K, V>, key: &K, f: F) -> (r: Result<&'a V, Report>)
    requires f.requires(()), forall|v: V| #[trigger] f.ensures((), Ok(v)) ==> map.good(*key, v)
    ensures r matches Ok(v) ==> map.good(*key, *v) && *v == map.at(*key) && map.there(*key)
@endfn
pub type Rel = (PackageName, Version);
// RefCell<HashMap<StandaloneMarkerExpr, bool>>: what is noted satisfies what noting it required
pub struct StandaloneMarkerExpr(pub EnvMarkerExpr);
#[verifier::external_body] pub struct Markers { x: u8 }
#[verifier::external_body] pub struct MarkerMap { x: u8 }
impl MarkerMap { pub uninterp spec fn says(&self, e: EnvMarkerExpr, b: bool) -> bool; }
impl Markers {
    pub uninterp spec fn good(&self, e: EnvMarkerExpr, b: bool) -> bool;
    #[verifier::external_body]
    pub fn fresh(p: Ghost<spec_fn(EnvMarkerExpr, bool) -> bool>) -> (r: Self) ensures forall|e: EnvMarkerExpr, b: bool| #[trigger] r.good(e, b) <==> p@(e, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn note(&self, e: StandaloneMarkerExpr, b: bool) requires self.good(e.0, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: MarkerMap) ensures forall|e: EnvMarkerExpr, b: bool| #[trigger] r.says(e, b) ==> self.good(e, b) { unimplemented!() }
}
#[verifier::external_body] pub struct VersionHints { x: u8 }
@type src/resolve.rs | type:PubgrubState
@sub? `&'a PackageDB<'a>` => `&'a PackageDB`
@sub? `&'a HashMap<String, String>` => `&'a EnvMap`
@sub? `&'a VersionHints<'a>` => `&'a VersionHints`
@sub? `&'a WheelBuilder<'a>` => `&'a WheelBuilder`
@sub? `RefCell<HashMap<StandaloneMarkerExpr, bool>>` => `Markers`
@end
@type src/resolve.rs | type:Brief ;
impl<'a> PubgrubState<'a> {
    pub open spec fn vars(&self) -> Vars { |n: Seq<char>| self.env.var(n) }
    // what is noted of a marker is what it is worth in this environment
    pub open spec fn judged(&self) -> bool { forall|e: EnvMarkerExpr, b: bool| #[trigger] self.marker_exprs.good(e, b) <==> meaning(e, self.vars()) == Some(b) }
@fn src/resolve.rs | PubgrubState/fn:requirements_to_pubgrub
@sub? `self.marker_exprs.borrow_mut().insert($e,)` => `self.marker_exprs.borrow_mut().insert($e)`
@sub? `self.marker_exprs.borrow_mut().insert($e)` => `self.marker_exprs.note($e)`
@sub? `extra.map(|e| e.normalized())` => `norm_of(extra)`
@sub? `req.extras.iter().map(|e| Some(e.clone())).collect()` => `some_each(&req.extras)`
@sub `for req in reqs { $B }` => `for req0 in reqs { let req = req0.deref(); $B }`
@forwhile 1
@forwhile 2
@params self reqs dc extra
@sig pub fn requirements_to_pubgrub<'r, R: Req>(&self, reqs: Vec<&'r R>, dc: &mut Dc, extra: Option<&Extra>) -> (r: Result<(), Report>)
    requires
        forall|i: int| 0 <= i < reqs@.len() ==> req_ok((#[trigger] reqs@[i]).req()), vars_ok(self.vars()), self.judged(), extra is Some ==> text_ok(extra->Some_0.norm()), text_ok(lit("")),
    ensures
        r is Ok ==> so_far(old(dc).m(), final(dc).m(), reqs_of(reqs@), opt_norm(extra), self.vars(), reqs@.len() as int),
@at start
let ghost d1 = *final(dc);
let ghost m0 = dc.m();
let ghost all = reqs@;
let ghost rs = reqs_of(reqs@);
let ghost x = opt_norm(extra);
proof {
    assert(decided(rs, x, self.vars(), Seq::<bool>::empty(), 0));
    assert(constrained(m0, m0, rs, Seq::<bool>::empty()));
    assert((|n: Seq<char>| self.env.var(n)) =~= self.vars());
}
@loop 1
    invariant
        it1.wf(), it1.all@ == all, rs == reqs_of(all), rs.len() == all.len(), x == opt_norm(extra), *final(dc) == d1,
        forall|i: int| 0 <= i < all.len() ==> req_ok((#[trigger] all[i]).req()), vars_ok(self.vars()), self.judged(), extra is Some ==> text_ok(extra->Some_0.norm()), text_ok(lit("")),
        so_far(m0, dc.m(), rs, x, self.vars(), it1.i@),
    decreases all.len() - it1.i@
@at loop 1 start
let ghost k = it1.i@;
let ghost m1 = dc.m();
proof {
    assert(rs[k] == all[k].req());
    if applies(rs[k], x, self.vars(), false) { lemma_skip(m0, m1, rs, x, self.vars(), k); }
    assert forall|m2: Map<Key, PRange>| applies(rs[k], x, self.vars(), true) && #[trigger] step(m1, m2, rs[k]) implies so_far(m0, m2, rs, x, self.vars(), k + 1) by { lemma_step(m0, m1, m2, rs, x, self.vars(), k); }
}
@loop 2
    invariant
        it2.wf(), it2.all@ == xs, *req == rs[k], 0 <= k < rs.len(), rs == reqs_of(all), rs.len() == all.len(), req_ok(*req), *final(dc) == d1,
        part(m1, dc.m(), *req, xs, it2.i@),
    decreases xs.len() - it2.i@
@at loop 2 before
let ghost xs = maybe_extras@;
proof { lemma_hits(*req, xs); assert(part(m1, m1, *req, xs, 0)); }
@at loop 2 start
let ghost m2 = dc.m();
@at loop 2 end
proof {
    let n = it2.i@;
    let nm = req.name.norm();
    assert forall|q: Key| #[trigger] hit(nm, xs, n, q) <==> hit(nm, xs, n - 1, q) || q == Key::Pkg(nm, extra_key(xs[n - 1])) by {
        if hit(nm, xs, n - 1, q) { let j = choose|j: int| 0 <= j < n - 1 && q == Key::Pkg(nm, extra_key(#[trigger] xs[j])); assert(q == Key::Pkg(nm, extra_key(xs[j]))); }
        if q == Key::Pkg(nm, extra_key(xs[n - 1])) { assert(hit(nm, xs, n, q)); }
    }
    assert forall|q: Key| #[trigger] dc.m().dom().contains(q) <==> m1.dom().contains(q) || hit(nm, xs, n, q) by { assert(m2.dom().contains(q) || !m2.dom().contains(q)); }
    assert forall|q: Key, v: Version| in_domain(v) implies (#[trigger] lets(dc.m(), q, v) <==> lets(m1, q, v) && (hit(nm, xs, n, q) ==> specs_admit(req.specifiers, v))) by { assert(lets(m2, q, v) || !lets(m2, q, v)); }
}
@at loop 2 after
proof { assert(step(m1, dc.m(), rs[k])); }
@endfn

    pub open spec fn kept(&self) -> bool {
        forall|k: Rel, w: Box<WheelResolveMetadata>| #[trigger] self.expected_metadata.good(k, w) <==> self.db.from_files(k.0.norm(), k.1, *w)
    }
    // the metadata of a release, as recorded: what one of its files says
    pub open spec fn meta(&self, n: PackageName, v: Version) -> WheelResolveMetadataInner { self.expected_metadata.at((n, v)).inner }
@fn src/resolve.rs | PubgrubState/fn:metadata
@sub? `|| { $B }` => `|| -> (r: Result<Box<WheelResolveMetadata>, Report>) requires self.kept() ensures r matches Ok(w) ==> self.db.from_files(release.0.norm(), release.1, *w) { $B }`
@sub? `.get_metadata::<Wheel, _>($a)` => `.wheel_metadata($a)`
@params self release
@sig pub fn metadata(&self, release: &Rel) -> (r: Result<&WheelResolveMetadataInner, Report>)
    requires self.kept()
    ensures r matches Ok(m) ==> *m == self.meta(release.0, release.1) && self.expected_metadata.there(*release) && self.db.from_files(release.0.norm(), release.1, *self.expected_metadata.at(*release))
@endfn
    // every requirement in sight is one the contracts speak about
    pub open spec fn ready(&self) -> bool {
        self.kept() && self.judged() && self.db.tame() && vars_ok(self.vars()) && text_ok(lit(""))
        && (forall|i: int| 0 <= i < self.brief.requirements@.len() ==> req_ok((#[trigger] self.brief.requirements@[i]).0))
    }
    // a package and version that may be asked about
    pub open spec fn fit(&self, pkg: ResPkg, version: Version) -> bool {
        self.ready() && self.offered(pkg, version) && (pkg matches ResPkg::Package(n, Some(e)) ==> text_ok(e.norm()))
    }
    pub open spec fn offered(&self, pkg: ResPkg, version: Version) -> bool { pkg matches ResPkg::Package(n, x) ==> self.db.arts(n.norm(), version).len() > 0 }
    // what a package is said to depend on
    pub open spec fn asks(&self, pkg: ResPkg, version: Version, m: Map<Key, PRange>) -> bool {
        match pkg {
            // the root package asks for what the user requires
            ResPkg::Root => so_far(Map::empty(), m, vals(self.brief.requirements@), None, self.vars(), self.brief.requirements@.len() as int),
            // a package asks for what its metadata requires
            ResPkg::Package(n, None) => so_far(Map::empty(), m, vals(self.meta(n, version).requires_dist@), None, self.vars(), self.meta(n, version).requires_dist@.len() as int),
            // with an extra, which must exist, for that with 'extra' set, and for the plain package in the very same version
            ResPkg::Package(n, Some(e)) => {
                let md = self.meta(n, version);
                md.extras.norms().contains(e.norm()) && exists|d: Map<Key, PRange>| #[trigger] so_far(Map::empty(), d, vals(md.requires_dist@), Some(e.norm()), self.vars(), md.requires_dist@.len() as int)
                    && pinned_too(d, m, Key::Pkg(n.norm(), None), version)
            }
        }
    }
    // ... and its metadata, which is that of one of its files, has been kept
    pub open spec fn answered(&self, pkg: ResPkg, version: Version, m: Map<Key, PRange>) -> bool {
        self.asks(pkg, version, m)
        && (pkg matches ResPkg::Package(n, x) ==> self.expected_metadata.there((n, version)) && self.db.from_files(n.norm(), version, *self.expected_metadata.at((n, version))))
    }
@fn src/resolve.rs | pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState/fn:get_dependencies
@sub? `DependencyConstraints<ResPkg, Version>` => `Dc`
@sub? `vec![].into_iter().collect()` => `Dc::new()`
@sub? `Default::default()` => `Dc::new()`
@sub `self.requirements_to_pubgrub($e.iter(), $b)` => `self.requirements_to_pubgrub(refs(&$e), $b)`
@sub? `Range::exact` => `PRange::exact`
@params self pkg version
@sig pub fn get_dependencies(&self, pkg: &ResPkg, version: &Version) -> (r: Result<Dependencies, Report>)
    requires
        self.fit(*pkg, *version),
    ensures
        r is Ok ==> r->Ok_0 is Known && self.answered(*pkg, *version, r->Ok_0->Known_0.m()),
@endfn
}
pub open spec fn pinned_too(d: Map<Key, PRange>, m: Map<Key, PRange>, plain: Key, v0: Version) -> bool {
    (forall|k: Key| #[trigger] m.dom().contains(k) <==> d.dom().contains(k) || k == plain)
    && (forall|k: Key, v: Version| #[trigger] lets(m, k, v) <==> lets(d, k, v) && (k == plain ==> veq(v, v0)))
}
pub open spec fn vals<R: Req>(s: Seq<R>) -> Seq<Requirement> { s.map_values(|r: R| r.req()) }
// .iter()
#[verifier::external_body]
pub fn refs<R: Req>(v: &Vec<R>) -> (r: Vec<&R>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i], reqs_of(r@) == vals(v@)
{ unimplemented!() }
pub enum Dependencies { Unknown, Known(Dc) }
#[verifier::external_body] pub struct ExtraSet { x: u8 }
impl ExtraSet {
    pub uninterp spec fn norms(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, e: &Extra) -> (r: bool) ensures r == self.norms().contains(e.norm()) { unimplemented!() }
}
@type src/resolve.rs | type:WheelResolveMetadataInner
@sub? `HashSet<Extra>` => `ExtraSet`
@end
}
