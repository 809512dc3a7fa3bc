@include contracts/common.vrs
verus! {
use core::cmp::Ordering;
// ---- versions: equality class and order (contracts/R01.vrs)
pub struct Version { pub x: u8 }
pub uninterp spec fn canon(v: Version) -> int;
pub uninterp spec fn vcmp(a: Version, b: Version) -> Ordering;
impl Clone for Version { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Version {
    #[verifier::external_body]
    pub fn cmp(&self, o: &Version) -> (r: Ordering) ensures r == vcmp(*self, *o) { unimplemented!() }
}
pub struct SdistName { pub version: Version }
pub struct WheelName { pub version: Version }
pub struct PybiName { pub version: Version }
@type src/vocab/artifact_name.rs | type:ArtifactName ;
pub open spec fn version_of(n: ArtifactName) -> Version { match n { ArtifactName::Sdist(i) => i.version, ArtifactName::Wheel(i) => i.version, ArtifactName::Pybi(i) => i.version } }
impl ArtifactName {
    #[verifier::external_body]
    pub fn cmp(&self, o: &ArtifactName) -> (r: Ordering) { unimplemented!() }
@fn src/vocab/artifact_name.rs | ArtifactName/fn:version
@params self
@sig pub fn version(&self) -> (r: &Version) ensures *r == version_of(*self)
@endfn
}
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct ArtifactHash { x: u8 }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct Yanked { x: u8 }
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
@type src/package_db/simple_api/project_info.rs | type:Meta ;
@type src/package_db/simple_api/project_info.rs | type:ProjectInfo ;
pub type AI = ArtifactInfo;
pub open spec fn class_of(a: AI) -> int { canon(version_of(a.name)) }

// ---- IndexMap: a sequence of entries, keys distinct
pub type Ent = (Version, Seq<AI>);
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { k: K, v: V }
pub type Table = IndexMap<Version, Vec<ArtifactInfo>>;
pub open spec fn distinct(e: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> canon(#[trigger] e[i].0) != canon(#[trigger] e[j].0) }
pub open spec fn under(e: Seq<Ent>, c: int) -> bool { exists|i: int| at(e, c, i) }
pub open spec fn at(e: Seq<Ent>, c: int, i: int) -> bool { 0 <= i < e.len() && canon(e[i].0) == c }
impl Table {
    pub uninterp spec fn e(&self) -> Seq<Ent>;
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r.e() == Seq::<Ent>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.e().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, v: &Version) -> (r: Option<&Vec<ArtifactInfo>>)
        ensures r is None ==> forall|i: int| !at(self.e(), canon(*v), i), r matches Some(x) ==> exists|i: int| #[trigger] at(self.e(), canon(*v), i) && x@ == self.e()[i].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: Version) -> (r: Entry<'_>) ensures r.cur() == old(self).e(), r.k == k, final(r.m).e() == final(self).e() { unimplemented!() }
    #[verifier::external_body]
    pub fn value_mut(&mut self, i: usize) -> (r: &mut Vec<ArtifactInfo>)
        requires i < old(self).e().len()
        ensures r@ == old(self).e()[i as int].1, final(self).e() == old(self).e().update(i as int, (old(self).e()[i as int].0, final(r)@))
    { unimplemented!() }
    // sorts the entries by the given comparison
    #[verifier::external_body]
    pub fn sort_unstable_by<F: Fn(&Version, &Vec<ArtifactInfo>, &Version, &Vec<ArtifactInfo>) -> Ordering>(&mut self, f: F)
        requires forall|a: &Version, b: &Vec<ArtifactInfo>, c: &Version, d: &Vec<ArtifactInfo>| #[trigger] f.requires((a, b, c, d))
        ensures permuted(old(self).e(), final(self).e()), forall|i: int, j: int| 0 <= i < j < final(self).e().len() ==> in_order(f, #[trigger] final(self).e()[i].0, #[trigger] final(self).e()[j].0)
    { unimplemented!() }
}
pub open spec fn in_order<F: Fn(&Version, &Vec<ArtifactInfo>, &Version, &Vec<ArtifactInfo>) -> Ordering>(f: F, x: Version, y: Version) -> bool {
    exists|b: &Vec<ArtifactInfo>, d: &Vec<ArtifactInfo>, o: Ordering| #[trigger] f.ensures((&x, b, &y, d), o) && o != Ordering::Greater
}
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && (forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k))
}
pub open spec fn permuted(a: Seq<Ent>, b: Seq<Ent>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
pub struct Entry<'a> { pub m: &'a mut Table, pub k: Version }
impl<'a> Entry<'a> {
    pub open spec fn cur(&self) -> Seq<Ent> { (*self.m).e() }
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut Vec<ArtifactInfo>)
        ensures entered(self.cur(), self.k, r@, final(self.m).e(), final(r)@)
    { unimplemented!() }
    pub fn or_insert_with<F: FnOnce() -> Vec<ArtifactInfo>>(self, f: F) -> (r: &'a mut Vec<ArtifactInfo>)
        requires f.requires(()), forall|v: Vec<ArtifactInfo>| #[trigger] f.ensures((), v) ==> v@ == Seq::<AI>::empty()
        ensures entered(self.cur(), self.k, r@, final(self.m).e(), final(r)@)
    { self.or_default() }
}
// the entry of key k, made if there is none: it holds v0 when handed out and v1 in the end
pub open spec fn entered(e0: Seq<Ent>, k: Version, v0: Seq<AI>, e1: Seq<Ent>, v1: Seq<AI>) -> bool {
    (forall|i: int| #[trigger] at(e0, canon(k), i) ==> v0 == e0[i].1 && e1 == e0.update(i, (e0[i].0, v1)))
    && ((forall|i: int| !at(e0, canon(k), i)) ==> v0 == Seq::<AI>::empty() && e1 == e0.push((k, v1)))
}
#[verifier::external_body]
pub fn no_artifacts() -> (r: &'static [ArtifactInfo]) ensures r@ == Seq::<AI>::empty() { unimplemented!() }
pub fn empty_list() -> (r: Vec<ArtifactInfo>) ensures r@ == Seq::<AI>::empty() { Vec::new() }
#[verifier::external_body]
pub fn starts_with(s: &String, p: &str) -> (r: bool) ensures r == (s@.len() >= p@.len() && s@.take(p@.len() as int) =~= p@) { unimplemented!() }
#[verifier::external_body]
pub fn sort_by<F: Fn(&AI, &AI) -> Ordering>(v: &mut Vec<ArtifactInfo>, f: F)
    requires forall|a: &AI, b: &AI| #[trigger] f.requires((a, b))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset()
{ unimplemented!() }

// ---- property text
pub open spec fn of_class(arts: Seq<AI>, c: int) -> Seq<AI> { arts.filter(|a: AI| class_of(a) == c) }
// the table files exactly arts, each under its own version, in order
pub open spec fn filed(e: Seq<Ent>, arts: Seq<AI>) -> bool {
    distinct(e)
    && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 == of_class(arts, canon(e[i].0)) && e[i].1.len() > 0)
    && (forall|k: int| 0 <= k < arts.len() ==> under(e, class_of(#[trigger] arts[k])))
}
// the same up to the order of the files of one version
pub open spec fn filed_any(e: Seq<Ent>, arts: Seq<AI>) -> bool {
    distinct(e)
    && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1.to_multiset() == of_class(arts, canon(e[i].0)).to_multiset() && e[i].1.len() > 0)
    && (forall|k: int| 0 <= k < arts.len() ==> under(e, class_of(#[trigger] arts[k])))
}
pub open spec fn newest_first(e: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> vcmp(#[trigger] e[j].0, #[trigger] e[i].0) != Ordering::Greater }
pub open spec fn known_api(m: Meta) -> bool { m.version@.len() >= 2 && m.version@[0] == '1' && m.version@[1] == '.' }
pub proof fn lemma_of_class_push(arts: Seq<AI>, x: AI, c: int)
    ensures of_class(arts.push(x), c) == (if class_of(x) == c { of_class(arts, c).push(x) } else { of_class(arts, c) })
{
    let f = |a: AI| class_of(a) == c;
    assert(arts.push(x).drop_last() =~= arts);
    reveal(Seq::filter);
}
pub proof fn lemma_of_class_len(arts: Seq<AI>, c: int)
    ensures (of_class(arts, c).len() > 0) <==> exists|k: int| 0 <= k < arts.len() && class_of(#[trigger] arts[k]) == c
    decreases arts.len()
{
    reveal(Seq::filter);
    if arts.len() > 0 {
        let r = arts.drop_last();
        lemma_of_class_len(r, c);
        lemma_of_class_push(r, arts.last(), c);
        assert(r.push(arts.last()) =~= arts);
        if class_of(arts.last()) == c { assert(class_of(arts[arts.len() - 1]) == c); }
        if of_class(r, c).len() > 0 { let k = choose|k: int| 0 <= k < r.len() && class_of(#[trigger] r[k]) == c; assert(class_of(arts[k]) == c); }
        if exists|k: int| 0 <= k < arts.len() && class_of(#[trigger] arts[k]) == c {
            let k = choose|k: int| 0 <= k < arts.len() && class_of(#[trigger] arts[k]) == c;
            if k < r.len() { assert(class_of(r[k]) == c); }
        }
    } else { assert(of_class(arts, c).len() == 0); }
}
pub proof fn lemma_filed_push(e0: Seq<Ent>, arts: Seq<AI>, x: AI, k: Version, v0: Seq<AI>, e1: Seq<Ent>)
    requires filed(e0, arts), canon(k) == class_of(x), entered(e0, k, v0, e1, v0.push(x))
    ensures filed(e1, arts.push(x))
{
    let a1 = arts.push(x);
    let c = canon(k);
    assert forall|d: int| #[trigger] of_class(a1, d) == (if d == c { of_class(arts, d).push(x) } else { of_class(arts, d) }) by { lemma_of_class_push(arts, x, d); }
    if under(e0, c) {
        let i = choose|i: int| at(e0, c, i);
        assert(e1 == e0.update(i, (e0[i].0, v0.push(x))));
        assert(distinct(e1)) by { assert forall|p: int, q: int| 0 <= p < q < e1.len() implies canon(#[trigger] e1[p].0) != canon(#[trigger] e1[q].0) by { assert(canon(e0[p].0) != canon(e0[q].0)); } }
        assert forall|j: int| 0 <= j < e1.len() implies (#[trigger] e1[j]).1 == of_class(a1, canon(e1[j].0)) && e1[j].1.len() > 0 by {
            assert(e0[j].1 == of_class(arts, canon(e0[j].0)));
            if j < i { assert(canon(e0[j].0) != canon(e0[i].0)); }
            if j > i { assert(canon(e0[i].0) != canon(e0[j].0)); }
        }
        assert forall|m: int| 0 <= m < a1.len() implies under(e1, class_of(#[trigger] a1[m])) by {
            if m < arts.len() { assert(a1[m] == arts[m]); let j = choose|j: int| at(e0, class_of(arts[m]), j); assert(at(e1, class_of(a1[m]), j)); } else { assert(at(e1, class_of(a1[m]), i)); }
        }
    } else {
        assert(forall|i: int| !at(e0, c, i));
        assert(e1 == e0.push((k, v0.push(x))));
        lemma_of_class_len(arts, c);
        if of_class(arts, c).len() > 0 { let m = choose|m: int| 0 <= m < arts.len() && class_of(#[trigger] arts[m]) == c; let j = choose|j: int| at(e0, class_of(arts[m]), j); assert(at(e0, c, j)); assert(false); }
        assert(of_class(arts, c) =~= Seq::<AI>::empty());
        assert forall|i: int, j: int| 0 <= i < j < e1.len() implies canon(#[trigger] e1[i].0) != canon(#[trigger] e1[j].0) by { if j == e0.len() { assert(!at(e0, c, i)); } }
        assert forall|i: int| 0 <= i < e1.len() implies (#[trigger] e1[i]).1 == of_class(a1, canon(e1[i].0)) && e1[i].1.len() > 0 by { if i < e0.len() { assert(!at(e0, c, i)); assert(e1[i] == e0[i]); } }
        assert forall|m: int| 0 <= m < a1.len() implies under(e1, class_of(#[trigger] a1[m])) by {
            if m < arts.len() { assert(a1[m] == arts[m]); let j = choose|j: int| at(e0, class_of(arts[m]), j); assert(at(e1, class_of(a1[m]), j)); } else { assert(at(e1, class_of(a1[m]), e0.len() as int)); }
        }
    }
}

@fn src/package_db/simple_api/project_info.rs | fn:pack_by_version
@sub? `pi.artifacts.into_iter()` => `pi.artifacts`
@sub? `pi.meta.version.starts_with($e)` => `starts_with(&pi.meta.version, $e)`
@sub? `or_insert_with(Default::default)` => `or_insert_with(|| -> (z: Vec<ArtifactInfo>) ensures z@ == Seq::<AI>::empty() { empty_list() })`
@sub? `or_insert_with(Vec::new)` => `or_default()`
@forwhile 1
@params pi map
@sig pub fn pack_by_version(pi: ProjectInfo, map: &mut Table, arts: Ghost<Seq<AI>>) -> (r: Result<(), Report>)
    requires filed(old(map).e(), arts@)
    ensures
        r is Ok <==> known_api(pi.meta),
        r is Ok ==> filed(final(map).e(), arts@ + pi.artifacts@),
@at start
let ghost m1 = *final(map);
let ghost all = pi.artifacts@;
proof { reveal_strlit("1."); assert("1."@ =~= seq!['1', '.']); assert(arts@ + all.take(0) =~= arts@); 
    if pi.meta.version@.len() >= 2 { let t = pi.meta.version@.take(2); assert(t[0] == pi.meta.version@[0] && t[1] == pi.meta.version@[1]); if known_api(pi.meta) { assert(t =~= seq!['1', '.']); } } }
@loop 1
    invariant it1.wf(), it1.all@ == all, filed(map.e(), arts@ + all.take(it1.i@)), *final(map) == m1
    decreases all.len() - it1.i@
@at loop 1 start
let ghost k0 = it1.i@;
let ghost e0 = map.e();
@at loop 1 end
proof {
    let x = all[k0];
    let a0 = arts@ + all.take(k0);
    assert(arts@ + all.take(k0 + 1) =~= a0.push(x));
    lemma_filed_push(e0, a0, x, version_of(x.name), entry_now(e0, version_of(x.name)), map.e());
}
@at loop 1 after
proof { assert(all.take(all.len() as int) =~= all); }
@endfn
pub open spec fn entry_now(e: Seq<Ent>, k: Version) -> Seq<AI> { if exists|i: int| at(e, canon(k), i) { e[choose|i: int| at(e, canon(k), i)].1 } else { seq![] } }

// ---- asking every index
#[verifier::external_body] pub struct PackageName { x: u8 }
impl PackageName {
    pub uninterp spec fn norm(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn normalized(&self) -> (r: &str) ensures r@ == self.norm() { unimplemented!() }
}
impl Clone for PackageName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn joined(u: Url, s: Seq<char>) -> Url;
impl Url {
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, Report>) ensures r matches Ok(u) ==> u == joined(*self, s@) { unimplemented!() }
}
// format!("{}<text>", s)
#[verifier::external_body]
pub fn with_suffix(s: &str, t: &str) -> (r: String) ensures r@ == s@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn string_ref(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
// the project's page in an index
pub open spec fn page_of(u: Url, p: PackageName) -> Url { joined(u, p.norm() + seq!['/']) }
// this is what the index sent for that page (None: there is no such page)
pub uninterp spec fn served(page: Url, a: Option<ProjectInfo>) -> bool;
#[verifier::external_body] pub struct Http { x: u8 }
#[verifier::external_body] pub struct KVFileStore { x: u8 }
#[verifier::external_body] pub struct KVDirStore { x: u8 }
#[verifier::external_body] pub struct EnvForest { x: u8 }
#[verifier::external_body]
pub fn fetch_simple_api(http: &Http, url: &Url) -> (r: Result<Option<ProjectInfo>, Report>) ensures r matches Ok(a) ==> served(*url, a) { unimplemented!() }

pub open spec fn files_of(a: Option<ProjectInfo>) -> Seq<AI> { match a { Some(p) => p.artifacts@, None => Seq::empty() } }
pub open spec fn all_files(pages: Seq<Option<ProjectInfo>>) -> Seq<AI> decreases pages.len() { if pages.len() == 0 { Seq::empty() } else { all_files(pages.drop_last()) + files_of(pages.last()) } }
pub open spec fn answers(urls: Seq<Url>, p: PackageName, pages: Seq<Option<ProjectInfo>>, n: int) -> bool {
    pages.len() == n && forall|i: int| 0 <= i < n ==> served(page_of(urls[i], p), #[trigger] pages[i]) && (pages[i] matches Some(pi) ==> known_api(pi.meta))
}
// the table holds exactly the files that all the indexes together list
pub open spec fn complete(urls: Seq<Url>, p: PackageName, e: Seq<Ent>) -> bool {
    exists|pages: Seq<Option<ProjectInfo>>| #[trigger] answers(urls, p, pages, urls.len() as int) && filed_any(e, all_files(pages))
}
// elsa::FrozenMap: what was inserted for an equal key stays; every entry satisfies what insert required
#[verifier::external_body] pub struct Frozen { x: u8 }
impl Frozen {
    pub uninterp spec fn urls(&self) -> Seq<Url>;
    pub open spec fn good(&self, p: PackageName, t: Table) -> bool { complete(self.urls(), p, t.e()) && newest_first(t.e()) }
    #[verifier::external_body]
    pub fn get(&self, p: &PackageName) -> (r: Option<&Table>) ensures r matches Some(t) ==> self.good(*p, *t) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, p: PackageName, t: Box<Table>) -> (r: &Table) requires self.good(p, *t) ensures self.good(p, *r) { unimplemented!() }
}
@type src/package_db/package_db.rs | type:PackageDB
@sub? `FrozenMap<PackageName, Box<IndexMap<Version, Vec<ArtifactInfo>>>>` => `Frozen`
@end
pub proof fn lemma_sorted_files(e0: Seq<Ent>, e1: Seq<Ent>, arts: Seq<AI>, n: int)
    requires filed(e0, arts), sorted_upto(e0, e1, n), n == e0.len()
    ensures filed_any(e1, arts)
{
    assert forall|i: int, j: int| 0 <= i < j < e1.len() implies canon(#[trigger] e1[i].0) != canon(#[trigger] e1[j].0) by { assert(canon(e0[i].0) != canon(e0[j].0)); }
    assert forall|i: int| 0 <= i < e1.len() implies (#[trigger] e1[i]).1.to_multiset() == of_class(arts, canon(e1[i].0)).to_multiset() && e1[i].1.len() > 0 by {
        assert(e0[i].1 == of_class(arts, canon(e0[i].0)));
        e1[i].1.to_multiset_ensures(); e0[i].1.to_multiset_ensures();
    }
    assert forall|k: int| 0 <= k < arts.len() implies under(e1, class_of(#[trigger] arts[k])) by {
        assert(under(e0, class_of(arts[k])));
        let i = choose|i: int| at(e0, class_of(arts[k]), i);
        assert(at(e1, class_of(arts[k]), i));
    }
}
pub open spec fn sorted_upto(e0: Seq<Ent>, e1: Seq<Ent>, n: int) -> bool {
    e1.len() == e0.len()
    && (forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e1[i]).0 == e0[i].0)
    && (forall|i: int| 0 <= i < n ==> (#[trigger] e1[i]).1.to_multiset() == e0[i].1.to_multiset())
    && (forall|i: int| n <= i < e0.len() ==> (#[trigger] e1[i]).1 == e0[i].1)
}
pub proof fn lemma_permuted_files(e0: Seq<Ent>, e1: Seq<Ent>, arts: Seq<AI>)
    requires filed_any(e0, arts), permuted(e0, e1)
    ensures filed_any(e1, arts)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, e0.len() as int) && forall|i: int| 0 <= i < e0.len() ==> #[trigger] e1[i] == e0[p[i]];
    assert forall|i: int, j: int| 0 <= i < j < e1.len() implies canon(#[trigger] e1[i].0) != canon(#[trigger] e1[j].0) by {
        assert(e1[i] == e0[p[i]] && e1[j] == e0[p[j]]);
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(canon(e0[p[i]].0) != canon(e0[p[j]].0)); } else { assert(canon(e0[p[j]].0) != canon(e0[p[i]].0)); }
    }
    assert forall|i: int| 0 <= i < e1.len() implies (#[trigger] e1[i]).1.to_multiset() == of_class(arts, canon(e1[i].0)).to_multiset() && e1[i].1.len() > 0 by { assert(e1[i] == e0[p[i]]); }
    assert forall|k: int| 0 <= k < arts.len() implies under(e1, class_of(#[trigger] arts[k])) by {
        assert(under(e0, class_of(arts[k])));
        let i = choose|i: int| at(e0, class_of(arts[k]), i);
        assert(p.contains(i));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
        assert(e1[j] == e0[i]);
        assert(at(e1, class_of(arts[k]), j));
    }
}
impl<'db> PackageDB<'db> {
    pub open spec fn wf(&self) -> bool { self.artifacts.urls() == self.index_urls@ }
@fn src/package_db/package_db.rs | PackageDB/fn:available_artifacts
@sub? `IndexMap<Version, Vec<ArtifactInfo>> = Default::default()` => `Table = Table::new()`
@sub `pack_by_version($a, $b)` => `pack_by_version($a, $b, Ghost(all_files(pages)))`
@sub? `format!("{}/", $e)` => `with_suffix($e, "/")`
@sub? `&with_suffix($e, "/")` => `string_ref(&with_suffix($e, "/"))`
@sub `for artifact_infos in packed.values_mut() { $B }` => `let mut i: usize = 0; while i < packed.len() { let artifact_infos = packed.value_mut(i); $B i += 1; }`
@sub? `artifact_infos.sort_by(|$a, $b| $e)` => `sort_by(artifact_infos, |$a: &AI, $b: &AI| -> (o: Ordering) { $e })`
@sub? `packed.sort_unstable_by(|$a, _, $b, _| $e)` => `packed.sort_unstable_by(|$a: &Version, _x: &Vec<ArtifactInfo>, $b: &Version, _y: &Vec<ArtifactInfo>| -> (o: Ordering) ensures o == vcmp(*$b, *$a) { $e })`
@params self p
@sig pub fn available_artifacts(&self, p: &PackageName) -> (r: Result<&Table, Report>)
    requires self.wf()
    ensures r matches Ok(t) ==> complete(self.index_urls@, *p, t.e()) && newest_first(t.e()),
@at start
let ghost mut pages: Seq<Option<ProjectInfo>> = Seq::empty();
@loop 1 iter=it
    invariant
        it.seq().map_values(|u: &Url| *u) == self.index_urls@,
        answers(self.index_urls@, *p, pages, it.index@), filed(packed.e(), all_files(pages)),
@at loop 1 start
let ghost pages0 = pages;
proof { assert(all_files(pages0) + Seq::<AI>::empty() =~= all_files(pages0)); assert("/"@ =~= seq!['/']) by { reveal_strlit("/"); } }
@at loop 1 end
proof {
    let k = it.index@;
    let pg = page_of(self.index_urls@[k], *p);
    assert(it.seq().map_values(|u: &Url| *u)[k] == self.index_urls@[k]);
    let a = choose|a: Option<ProjectInfo>| #[trigger] served(pg, a) && (a matches Some(pi) ==> known_api(pi.meta)) && filed(packed.e(), all_files(pages0) + files_of(a));
    pages = pages0.push(a);
    assert(pages.drop_last() =~= pages0);
    assert(all_files(pages) == all_files(pages0) + files_of(a));
}
@loop 2
    invariant sorted_upto(e0, packed.e(), i as int), filed(e0, arts), i <= packed.e().len()
    decreases packed.e().len() - i
@at loop 2 before
let ghost e0 = packed.e();
let ghost arts = all_files(pages);
@at loop 2 after
proof { lemma_sorted_files(e0, packed.e(), arts, e0.len() as int); }
let ghost e1 = packed.e();
@at after `packed.sort_unstable_by($b);`
proof {
    lemma_permuted_files(e1, packed.e(), arts);
    assert(answers(self.index_urls@, *p, pages, self.index_urls@.len() as int));
}
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:artifacts_for_version
@sub? `Ok(&NO_ARTIFACTS)` => `Ok(no_artifacts())`
@sub? `Ok(artifacts)` => `Ok(artifacts.as_slice())`
@params self p v
@sig pub fn artifacts_for_version(&self, p: &PackageName, v: &Version) -> (r: Result<&[ArtifactInfo], Report>)
    requires self.wf()
    ensures r matches Ok(a) ==> exists|pages: Seq<Option<ProjectInfo>>| #[trigger] answers(self.index_urls@, *p, pages, self.index_urls@.len() as int) && a@.to_multiset() == of_class(all_files(pages), canon(*v)).to_multiset(),
@at start
proof {
    assert forall|pages: Seq<Option<ProjectInfo>>, e: Seq<Ent>| #[trigger] answers(self.index_urls@, *p, pages, self.index_urls@.len() as int) && #[trigger] filed_any(e, all_files(pages)) && !under(e, canon(*v)) implies of_class(all_files(pages), canon(*v)) =~= Seq::<AI>::empty() by {
        let arts = all_files(pages);
        lemma_of_class_len(arts, canon(*v));
        if of_class(arts, canon(*v)).len() > 0 { let m = choose|m: int| 0 <= m < arts.len() && class_of(#[trigger] arts[m]) == canon(*v); assert(under(e, class_of(arts[m]))); }
    }
}
@endfn
}
}
fn main() {}
