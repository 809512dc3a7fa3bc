@note package metadata
@include contracts/common.vrs
verus! {
// ---- files and their hashes
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct Yanked { x: u8 }
#[verifier::external_body] pub struct ArtifactName { x: u8 }
#[verifier::external_body] pub struct PackageName { x: u8 }
#[verifier::external_body] pub struct Version { x: u8 }
impl PackageName { pub uninterp spec fn norm(&self) -> Seq<char>; #[verifier::external_body] pub fn same(&self, o: &PackageName) -> (r: bool) ensures r == (self.norm() == o.norm()) { unimplemented!() } }
pub uninterp spec fn veq(a: Version, b: Version) -> bool;
impl Version { #[verifier::external_body] pub fn same(&self, o: &Version) -> (r: bool) ensures r == veq(*self, *o) { unimplemented!() } }
pub struct ArtifactHash { pub mode: String, pub raw_data: Vec<u8> }
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
pub type AI = ArtifactInfo;
pub open spec fn same_hash(a: ArtifactHash, b: ArtifactHash) -> bool { a.mode@ == b.mode@ && a.raw_data@ == b.raw_data@ }
// the bytes have the digest named (contracts/C01.vrs)
pub uninterp spec fn named_by(h: ArtifactHash, d: Seq<u8>) -> bool;
// what the index's server answers for a file
pub uninterp spec fn served(ai: AI, d: Seq<u8>) -> bool;
// the core metadata member of a file's bytes, under that name (contracts/A04.vrs)
pub uninterp spec fn member(n: ArtifactName, d: Seq<u8>, blob: Seq<u8>) -> bool;
// the metadata of a wheel built from a source archive (contracts/B01.vrs)
pub uninterp spec fn built_from(ai: AI, blob: Seq<u8>) -> bool;
pub open spec fn own_metadata(ai: AI, blob: Seq<u8>) -> bool { (exists|d: Seq<u8>| #[trigger] served(ai, d) && member(ai.name, d, blob)) || built_from(ai, blob) }
// a file, or another listing of the same one
pub open spec fn same_file(a: AI, b: AI) -> bool { a == b || (a.hash matches Some(x) && b.hash matches Some(y) && same_hash(x, y)) }
pub open spec fn metadata_of(ai: AI, blob: Seq<u8>) -> bool { exists|o: AI| #[trigger] same_file(o, ai) && own_metadata(o, blob) }
// what may be cached under a hash: the metadata of a file with that hash
pub open spec fn cacheable(h: ArtifactHash, blob: Seq<u8>) -> bool { exists|o: AI| (#[trigger] o.hash matches Some(x) && same_hash(x, h)) && own_metadata(o, blob) }

// ---- the metadata cache (contracts/C02.vrs); `looked` and `kept` record what has been done
pub struct Entry { pub d: Ghost<Seq<u8>> }
pub struct Sink { pub d: Ghost<Seq<u8>> }
impl Sink {
    pub open spec fn out(&self) -> Seq<u8> { self.d@ }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Report>) ensures r is Ok ==> final(self).out() == old(self).out() + b@ { unimplemented!() }
}
// &ArtifactHash, however often borrowed
pub trait HashKey { spec fn h(&self) -> ArtifactHash; }
impl HashKey for ArtifactHash { open spec fn h(&self) -> ArtifactHash { *self } }
impl<K: HashKey> HashKey for &K { open spec fn h(&self) -> ArtifactHash { (**self).h() } }
#[verifier::external_body] pub struct KVFileStore { x: u8 }
impl KVFileStore {
    pub uninterp spec fn looked(&self, h: ArtifactHash) -> bool;
    pub uninterp spec fn kept(&self, h: ArtifactHash) -> bool;
    #[verifier::external_body]
    pub fn get<K: HashKey>(&self, h: &K) -> (r: Option<Entry>) ensures self.looked(h.h()), r matches Some(e) ==> cacheable(h.h(), e.d@) && self.kept(h.h()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_set<K: HashKey, F: FnOnce(&mut Sink) -> Result<(), Report>>(&self, h: &K, f: F) -> (r: Result<Entry, Report>)
        requires
            forall|m: &mut Sink| m.out() == Seq::<u8>::empty() ==> #[trigger] f.requires((m,)),
            forall|m: &mut Sink, x: Result<(), Report>| #[trigger] f.ensures((m,), x) && m.out() == Seq::<u8>::empty() && x is Ok ==> cacheable(h.h(), (*final(m)).out()),
        ensures
            r is Ok ==> self.kept(h.h())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn slurp(e: &mut Entry) -> (r: Result<Vec<u8>, Report>) ensures r matches Ok(v) ==> v@ == old(e).d@ { unimplemented!() }
// Result::ok, Option::as_ref
pub fn result_ok<T>(r: Result<T, Report>) -> (o: Option<T>) ensures match r { Ok(v) => o == Some(v), Err(e) => o is None } { match r { Ok(v) => Some(v), Err(e) => None } }

// ---- fetching
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/package_db/http/http.rs | type:CacheMode ;
pub struct Body { pub d: Ghost<Seq<u8>> }
#[verifier::external_body] pub struct HttpInner { x: u8 }
impl HttpInner {
    pub uninterp spec fn tried(&self, ai: AI) -> bool;
    // contracts/C01.vrs: what comes back has the hash asked for
    #[verifier::external_body]
    pub fn get_hashed(&self, url: &Url, maybe_hash: Option<&ArtifactHash>, cache_mode: CacheMode, ai: Ghost<AI>) -> (r: Result<Body, Report>)
        requires ai@.url == *url, maybe_hash matches Some(h) ==> ai@.hash == Some(*h), maybe_hash is None ==> ai@.hash is None,
        ensures self.tried(ai@), r matches Ok(b) ==> served(ai@, b.d@) && (maybe_hash matches Some(h) ==> named_by(*h, b.d@))
    { unimplemented!() }
    pub fn clone_(&self) -> (r: &Self) ensures r == self { self }
}
pub struct LazyRemoteFile {}
impl LazyRemoteFile {
    // contracts/H03.vrs: reads as what the server has
    #[verifier::external_body]
    pub fn new(http: &HttpInner, url: &Url, ai: Ghost<AI>) -> (r: Result<Body, Report>) requires ai@.url == *url ensures r matches Ok(b) ==> served(ai@, b.d@) { unimplemented!() }
}
// err.downcast_ref::<PosyError>() is LazyRemoteFileNotSupported
#[verifier::external_body]
pub fn is_posy_error(e: &Report) -> (r: Option<&PosyError>) { unimplemented!() }
pub enum PosyError { LazyRemoteFileNotSupported, Other }
pub struct Http(pub HttpInner);
impl Http {
@fn src/package_db/http/http.rs | Http/fn:get_hashed
@sub? `self.0.get_hashed($a)` => `self.0.get_hashed($a, ai)`
@params self url maybe_hash cache_mode
@sig pub fn get_hashed(&self, url: &Url, maybe_hash: Option<&ArtifactHash>, cache_mode: CacheMode, ai: Ghost<AI>) -> (r: Result<Body, Report>)
    requires ai@.url == *url, maybe_hash matches Some(h) ==> ai@.hash == Some(*h), maybe_hash is None ==> ai@.hash is None,
    ensures self.0.tried(ai@), r matches Ok(b) ==> served(ai@, b.d@) && (maybe_hash matches Some(h) ==> named_by(*h, b.d@))
@endfn
@fn src/package_db/http/http.rs | Http/fn:get_lazy
@sub? `Rc::clone(&self.0)` => `self.0.clone_()`
@sub? `self.0.clone()` => `self.0.clone_()`
@sub? `LazyRemoteFile::new($a,)` => `LazyRemoteFile::new($a)`
@sub? `LazyRemoteFile::new($a)` => `LazyRemoteFile::new($a, Ghost(*ai))`
@sub? `self.get_hashed($a,)` => `self.get_hashed($a)`
@sub? `self.get_hashed($a)` => `self.get_hashed($a, Ghost(*ai))`
@sub? `Box::new(lazy)` => `lazy`
@sub? `err.downcast_ref::<PosyError>()` => `is_posy_error(&err)`
@params self ai
@sig pub fn get_lazy(&self, ai: &ArtifactInfo) -> (r: Result<Body, Report>)
    ensures r matches Ok(b) ==> served(*ai, b.d@)
@endfn
}

// ---- kinds of file
pub trait Artifact: Sized {
    spec fn name_(&self) -> ArtifactName;
    spec fn content(&self) -> Seq<u8>;
    spec fn is_one(n: ArtifactName) -> bool;
    type Name;
    spec fn as_(n: ArtifactName) -> Self::Name;
    // ArtifactName::inner_as
    fn inner(n: &ArtifactName) -> (r: Option<&Self::Name>) ensures r is Some <==> Self::is_one(*n), r matches Some(x) ==> *x == Self::as_(*n);
    // .clone()
    fn own(n: &Self::Name) -> (r: Self::Name) ensures r == *n;
    fn new(name: Self::Name, f: Body) -> (r: Result<Self, Report>) ensures r matches Ok(a) ==> Self::is_one(a.name_()) && Self::as_(a.name_()) == name && a.content() == f.d@;
}
pub trait BinaryArtifact: Artifact {
    type Metadata;
    type Builder;
    spec fn parsed(blob: Seq<u8>) -> Option<Self::Metadata>;
    fn parse_metadata(value: &[u8]) -> (r: Result<Self::Metadata, Report>) ensures r matches Ok(m) ==> Self::parsed(value@) == Some(m);
    fn metadata(&self) -> (r: Result<(Vec<u8>, Self::Metadata), Report>) ensures r matches Ok(x) ==> member(self.name_(), self.content(), x.0@) && Self::parsed(x.0@) == Some(x.1);
    fn locally_built_metadata(ctx: &Self::Builder, ai: &ArtifactInfo) -> (r: Option<Result<(Vec<u8>, Self::Metadata), Report>>)
        ensures r matches Some(Ok(x)) ==> built_from(*ai, x.0@) && Self::parsed(x.0@) == Some(x.1);
}
// two names of a kind are the same when they are the same as names of that kind
#[verifier::external_body]
pub proof fn axiom_name<T: Artifact>(a: ArtifactName, b: ArtifactName) requires T::is_one(a), T::is_one(b), T::as_(a) == T::as_(b) ensures a == b {}
impl ArtifactInfo {
    // ArtifactInfo::is
    pub fn is_<T: Artifact>(&self) -> (r: bool) ensures r == T::is_one(self.name) { T::inner(&self.name).is_some() }
}
// Borrow<ArtifactInfo>
pub trait Listed { spec fn ai(&self) -> AI; fn borrow(&self) -> (r: &AI) ensures *r == self.ai(); }
impl Listed for ArtifactInfo { open spec fn ai(&self) -> AI { *self } fn borrow(&self) -> (r: &AI) { self } }
impl Listed for &ArtifactInfo { open spec fn ai(&self) -> AI { **self } fn borrow(&self) -> (r: &AI) { self } }
pub open spec fn among<B: Listed>(s: Seq<B>, ai: AI) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].ai() == ai }
// .iter().map(|b| b.borrow())
#[verifier::external_body]
pub fn borrowed<'a, B: Listed>(s: &'a [B]) -> (r: Vec<&'a AI>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r@[i]) == s@[i].ai() { unimplemented!() }
// .iter().map(|b| b.borrow()).filter(f), as often as it is called
pub struct Matching<'a> { pub v: Vec<&'a AI> }
#[verifier::external_body]
pub fn filtered<'a, T: Artifact, B: Listed, F: Fn(&AI) -> bool>(s: &'a [B], f: F) -> (r: Matching<'a>)
    requires forall|a: &AI| #[trigger] f.requires((a,)), forall|a: &AI, b: bool| #[trigger] f.ensures((a,), b) ==> b == T::is_one(a.name)
    ensures
        forall|i: int| 0 <= i < r.v@.len() ==> T::is_one((#[trigger] r.v@[i]).name) && among(s@, *r.v@[i]),
        forall|j: int| 0 <= j < s@.len() && T::is_one((#[trigger] s@[j]).ai().name) ==> exists|i: int| 0 <= i < r.v@.len() && *(#[trigger] r.v@[i]) == s@[j].ai(),
{ unimplemented!() }
impl<'a> Matching<'a> {
    #[verifier::external_body]
    pub fn all(&self) -> (r: Vec<&'a AI>) ensures r@ == self.v@ { unimplemented!() }
    // .next()
    pub fn first(&self) -> (r: Option<&'a AI>) ensures match r { Some(x) => self.v@.len() > 0 && x == self.v@[0], None => self.v@.len() == 0 } { if self.v.len() > 0 { Some(self.v[0]) } else { None } }
}
// err.downcast_ref::<NotCached>()
#[verifier::external_body]
pub fn not_cached(e: &Report) -> (r: Option<&u8>) { unimplemented!() }

pub struct PackageDB { pub http: Http, pub metadata_cache: KVFileStore }
impl PackageDB {
    // everything that is at hand has been looked at: cached metadata of any of the files, and cached files of the right kind
    pub open spec fn looked_up<B: Listed>(&self, s: Seq<B>) -> bool { forall|j: int| 0 <= j < s.len() ==> ((#[trigger] s[j]).ai().hash matches Some(h) ==> self.metadata_cache.looked(h)) }
    pub open spec fn looked_at<T: Artifact, B: Listed>(&self, s: Seq<B>) -> bool { forall|j: int| 0 <= j < s.len() && T::is_one((#[trigger] s[j]).ai().name) ==> self.http.0.tried(s[j].ai()) }
    pub open spec fn binaries<T: Artifact, B: Listed>(&self, s: Seq<B>) -> bool { exists|j: int| 0 <= j < s.len() && T::is_one((#[trigger] s[j]).ai().name) }
@fn src/package_db/package_db.rs | PackageDB/fn:metadata_from_cache
@sub? `slurp($e).ok()` => `result_ok(slurp($e))`
@params self ai
@sig pub fn metadata_from_cache(&self, ai: &ArtifactInfo) -> (r: Option<Vec<u8>>)
    ensures
        r matches Some(v) ==> metadata_of(*ai, v@) && ai.hash is Some && self.metadata_cache.kept(ai.hash->Some_0),
        ai.hash matches Some(h) ==> self.metadata_cache.looked(h),
@at start
proof {
    assert forall|v: Seq<u8>| #[trigger] cacheable(ai.hash->Some_0, v) && ai.hash is Some implies metadata_of(*ai, v) by {
        let o = choose|o: AI| (#[trigger] o.hash matches Some(x) && same_hash(x, ai.hash->Some_0)) && own_metadata(o, v);
        assert(same_file(o, *ai));
    }
}
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:put_metadata_in_cache
@sub? `get_or_set($h, |$w| $e)` => `get_or_set($h, |$w: &mut Sink| -> (x: Result<(), Report>) requires $w.out() == Seq::<u8>::empty() ensures x is Ok ==> (*final($w)).out() == blob@ { proof { assert(Seq::<u8>::empty() + blob@ =~= blob@); } $e })`
@params self ai blob
@sig pub fn put_metadata_in_cache(&self, ai: &ArtifactInfo, blob: &[u8]) -> (r: Result<(), Report>)
    requires own_metadata(*ai, blob@)
    ensures r is Ok ==> (ai.hash matches Some(h) ==> self.metadata_cache.kept(h)), metadata_of(*ai, blob@)
@at start
proof { assert(same_file(*ai, *ai)); }
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:open_artifact
@sub? `ai.name.inner_as::<T::Name>().ok_or_else($c)?.clone()` => `(match T::inner(&ai.name) { Some(n_) => T::own(n_), None => return Err(verr()) })`
@sub? `T::new($a)` => `{ let r_ = T::new($a); proof { if r_ is Ok { axiom_name::<T>(r_->Ok_0.name_(), ai.name); } } r_ }`
@params self ai body
@sig pub fn open_artifact<T: Artifact>(&self, ai: &ArtifactInfo, body: Body) -> (r: Result<T, Report>)
    ensures r matches Ok(a) ==> T::is_one(ai.name) && a.name_() == ai.name && a.content() == body.d@
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:_get_artifact
@sub? `.get_hashed($a,)` => `.get_hashed($a)`
@sub? `.get_hashed($a)` => `.get_hashed($a, Ghost(*ai))`
@params self ai cache_mode
@sig pub fn _get_artifact<T: Artifact>(&self, ai: &ArtifactInfo, cache_mode: CacheMode) -> (r: Result<T, Report>)
    ensures
        self.http.0.tried(*ai),
        r matches Ok(a) ==> a.name_() == ai.name && served(*ai, a.content()) && (ai.hash matches Some(h) ==> named_by(h, a.content())),
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:get_artifact
@params self ai
@sig pub fn get_artifact<T: Artifact>(&self, ai: &ArtifactInfo) -> (r: Result<T, Report>)
    ensures r matches Ok(a) ==> a.name_() == ai.name && served(*ai, a.content()) && (ai.hash matches Some(h) ==> named_by(h, a.content())),
@endfn
@fn src/package_db/package_db.rs | PackageDB/fn:get_metadata
@sub? `let matching = || { artifacts.iter().map(|$x| $x.borrow()).filter(|$y| $p) };` => `let matching = filtered::<T, B, _>(artifacts, |$y: &AI| -> (b: bool) ensures b == T::is_one($y.name) { $p });`
@sub? `$y.is::<T>()` => `$y.is_::<T>()`
@sub? `artifacts.iter().map(|$x| $x.borrow())` => `borrowed(artifacts)`
@sub? `matching().next()` => `matching.first()`
@sub? `in matching()` => `in matching.all()`
@sub? `err.downcast_ref::<NotCached>()` => `not_cached(&err)`
@sub? `self.http.get_lazy($a)` => `{ assert(self.looked_up(artifacts@) && self.looked_at::<T, B>(artifacts@)); self.http.get_lazy($a) }`
@sub? `T::locally_built_metadata($a)` => `{ assert(self.looked_up(artifacts@) && !self.binaries::<T, B>(artifacts@)); T::locally_built_metadata($a) }`
@forwhile 1
@forwhile 2
@forwhile 3
@params self artifacts builder
@sig pub fn get_metadata<'a, T: BinaryArtifact, B: Listed>(&self, artifacts: &'a [B], builder: Option<&T::Builder>) -> (r: Result<(&'a ArtifactInfo, T::Metadata), Report>)
    ensures
        // the metadata of one of the files, which is kept for the next time
        r matches Ok(x) ==> among(artifacts@, *x.0) && (exists|blob: Seq<u8>| #[trigger] metadata_of(*x.0, blob) && T::parsed(blob) == Some(x.1))
            && (x.0.hash matches Some(h) ==> self.metadata_cache.kept(h)),
@loop 1
    invariant it1.wf(), it1.all@.len() == artifacts@.len(), forall|i: int| 0 <= i < artifacts@.len() ==> *(#[trigger] it1.all@[i]) == artifacts@[i].ai(),
        forall|j: int| 0 <= j < it1.i@ ==> ((#[trigger] artifacts@[j]).ai().hash matches Some(h) ==> self.metadata_cache.looked(h)),
    decreases it1.all@.len() - it1.i@
@loop 2
    invariant it2.wf(), it2.all@ == matching.v@, forall|i: int| 0 <= i < it2.i@ ==> self.http.0.tried(*(#[trigger] it2.all@[i])),
        forall|i: int| 0 <= i < matching.v@.len() ==> T::is_one((#[trigger] matching.v@[i]).name) && among(artifacts@, *matching.v@[i]),
        self.looked_up(artifacts@),
    decreases it2.all@.len() - it2.i@
@loop 3
    invariant it3.wf(), it3.all@.len() == artifacts@.len(), forall|i: int| 0 <= i < artifacts@.len() ==> *(#[trigger] it3.all@[i]) == artifacts@[i].ai(),
        self.looked_up(artifacts@), !self.binaries::<T, B>(artifacts@),
    decreases it3.all@.len() - it3.i@
@endfn
}
}
fn main() {}
