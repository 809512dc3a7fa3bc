@note environments
@include contracts/common.vrs
@include contracts/tree_spec.vrs
@include contracts/fmt.vrs
@include contracts/special_dir.vrs
verus! {
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct Yanked { x: u8 }
#[verifier::external_body] pub struct ArtifactName { x: u8 }
pub struct ArtifactHash { pub mode: String, pub raw_data: Vec<u8> }
pub open spec fn same_hash(a: ArtifactHash, b: ArtifactHash) -> bool { a.mode@ == b.mode@ && a.raw_data@ == b.raw_data@ }
impl ArtifactHash { #[verifier::external_body] pub fn same(&self, o: &ArtifactHash) -> (r: bool) ensures r == same_hash(*self, *o) { unimplemented!() } }
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
@type src/resolve.rs | type:PinnedPackage ;
@type src/resolve.rs | type:WheelResolveMetadata ;
@type src/resolve.rs | type:WheelResolveMetadataInner
@sub `Vec<PackageRequirement>` => `Reqs`
@sub `HashSet<Extra>` => `Extras`
@end
#[verifier::external_body] pub struct Reqs { x: u8 }
#[verifier::external_body] pub struct Specifiers { x: u8 }
#[verifier::external_body] pub struct Extras { x: u8 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Reqs { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Reqs) -> bool { *self == *o } }
impl PartialEq for Reqs { #[verifier::external_body] fn eq(&self, o: &Reqs) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Specifiers { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Specifiers) -> bool { *self == *o } }
impl PartialEq for Specifiers { #[verifier::external_body] fn eq(&self, o: &Specifiers) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Extras { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Extras) -> bool { *self == *o } }
impl PartialEq for Extras { #[verifier::external_body] fn eq(&self, o: &Extras) -> (r: bool) { unimplemented!() } }
impl WheelResolveMetadataInner { #[verifier::external_body] pub fn same(&self, o: &WheelResolveMetadataInner) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
// the part of the metadata that is kept (contracts/resolve.vrs)
pub uninterp spec fn kept(m: WheelCoreMetadata) -> WheelResolveMetadataInner;
impl WheelResolveMetadata { #[verifier::external_body] pub fn from(ai: &ArtifactInfo, m: &WheelCoreMetadata) -> (r: WheelResolveMetadata) ensures r.inner == kept(*m) { unimplemented!() } }
pub struct Blueprint { pub pybi: PinnedPackage, pub wheels: Vec<(PinnedPackage, WheelResolveMetadata)> }
pub type AI = ArtifactInfo;
pub open spec fn pinned_hash(pin: PinnedPackage, h: ArtifactHash) -> bool { exists|i: int| 0 <= i < pin.hashes@.len() && same_hash(#[trigger] pin.hashes@[i], h) }
// Vec::contains
#[verifier::external_body]
pub fn has_hash(v: &Vec<ArtifactHash>, h: &ArtifactHash) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && same_hash(#[trigger] v@[i], *h) { unimplemented!() }
impl ArtifactInfo {
@fn src/package_db/simple_api/project_info.rs | ArtifactInfo/fn:require_hash
@sub? `self.hash.as_ref().ok_or_else($c)` => `(match &self.hash { Some(h_) => Ok(h_), None => Err(verr()) })`
@params self
@sig pub fn require_hash(&self) -> (r: Result<&ArtifactHash, Report>)
    ensures r matches Ok(h) ==> self.hash == Some(*h)
@endfn
    pub fn is_<T: Artifact>(&self) -> (r: bool) ensures r == T::is_one(self.name) { T::inner(&self.name) }
}

// ---- paths, and what is found there
#[verifier::external_body] pub struct P { x: u8 }
// the entry of a directory with that name; what a relative path of pieces leads to
pub uninterp spec fn sub(p: P, name: Seq<char>) -> P;
pub uninterp spec fn along(p: P, rel: Seq<Seq<char>>) -> P;
pub struct PathBuf { pub g: Ghost<P> }
pub struct Native { pub g: Ghost<Seq<Seq<char>>> }
pub trait AsPath { spec fn p(&self) -> P; }
impl AsPath for PathBuf { open spec fn p(&self) -> P { self.g@ } }
impl<T: AsPath> AsPath for &T { open spec fn p(&self) -> P { (**self).p() } }
pub trait Below { spec fn under(&self, p: P) -> P; }
impl Below for &str { open spec fn under(&self, p: P) -> P { sub(p, self@) } }
impl Below for &String { open spec fn under(&self, p: P) -> P { sub(p, self@) } }
impl Below for String { open spec fn under(&self, p: P) -> P { sub(p, self@) } }
impl Below for &&str { open spec fn under(&self, p: P) -> P { sub(p, self@) } }
impl Below for Native { open spec fn under(&self, p: P) -> P { along(p, self.g@) } }
impl PathBuf {
    #[verifier::external_body]
    pub fn join<B: Below>(&self, b: B) -> (r: PathBuf) ensures r.p() == b.under(self.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
pub open spec fn ps(v: Seq<PathBuf>) -> Seq<P> { v.map_values(|x: PathBuf| x.p()) }
// what was read there, what was written there, what names were found there
pub uninterp spec fn was_read(p: P, b: Seq<u8>) -> bool;
pub uninterp spec fn written(p: P, b: Seq<u8>) -> bool;
pub uninterp spec fn listed(p: P, names: Seq<Seq<char>>) -> bool;
pub struct DirEntry { pub n: Ghost<Option<Seq<char>>> }
pub struct OsName { pub n: Ghost<Option<Seq<char>>> }
impl DirEntry { pub fn file_name(&self) -> (r: OsName) ensures r.n@ == self.n@ { OsName { n: Ghost(self.n@) } } }
impl OsName { #[verifier::external_body] pub fn into_string(self) -> (r: Result<String, OsName>) ensures match r { Ok(s) => self.n@ == Some(s@), Err(_) => self.n@ is None } { unimplemented!() } }
// names that are text; all of them, unless an entry could not be read
pub open spec fn names_of(v: Seq<Result<DirEntry, Report>>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { seq![] } else { let r = names_of(v, n - 1); match v[n - 1] { Ok(e) => match e.n@ { Some(s) => r.push(s), None => r }, Err(_) => r } }
}
pub open spec fn whole(v: Seq<Result<DirEntry, Report>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok }
pub struct Fs {}
impl Fs {
    #[verifier::external_body]
    pub fn read<A: AsPath>(p: A) -> (r: Result<Vec<u8>, Report>) ensures r matches Ok(b) ==> was_read(p.p(), b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<A: AsPath>(p: A, b: &[u8]) -> (r: Result<(), Report>) ensures r is Ok ==> written(p.p(), b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<A: AsPath>(p: A) -> (r: Result<(), Report>) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir<A: AsPath>(p: A) -> (r: Result<Vec<Result<DirEntry, Report>>, Report>)
        ensures r matches Ok(v) ==> (whole(v@) ==> listed(p.p(), names_of(v@, v@.len() as int))) && finished(p.p(), v@)
    { unimplemented!() }
    // a finished wheel (`rename`) is there
    #[verifier::external_body]
    pub fn exists<A: AsPath>(p: A, h: Ghost<ArtifactHash>, n: Ghost<Seq<char>>) -> (r: bool)
        requires p.p() == sub(dir_of(h@), n@)
        ensures r ==> local(h@, n@, p.p())
    { unimplemented!() }
    // property text: only a finished wheel gets a name in the directory of a source archive
    #[verifier::external_body]
    pub fn rename<A: AsPath, B: AsPath>(from: A, to: B, h: Ghost<ArtifactHash>, n: Ghost<Seq<char>>) -> (r: Result<(), Report>)
        requires to.p() == sub(dir_of(h@), n@), local(h@, n@, from.p())
        ensures r is Ok ==> local(h@, n@, to.p())
    { unimplemented!() }
}
// in the directory of a source archive: only finished wheels have such a name (`rename`)
pub open spec fn finished(p: P, v: Seq<Result<DirEntry, Report>>) -> bool {
    forall|h: ArtifactHash, n: Seq<char>, k: int| p == dir_of(h) && 0 <= k <= v.len() && #[trigger] names_of(v, k).contains(n) && #[trigger] whl(h, n) ==> local(h, n, sub(p, n))
}
pub open spec fn whl(h: ArtifactHash, n: Seq<char>) -> bool { ends(n, ".whl"@) }
pub uninterp spec fn data_file(name: Seq<char>) -> Seq<u8>;
// include_bytes!
#[verifier::external_body]
pub fn data_bytes(name: &str) -> (r: Vec<u8>) ensures r@ == data_file(name@) { unimplemented!() }

// ---- unpacked trees
// the files of an interpreter archive with these bytes, as they are in the archive (contracts/A03.vrs)
pub uninterp spec fn pybi_files(d: Seq<u8>, p: P) -> bool;
// the files of a wheel with these bytes: where each category goes, how launchers find the interpreter (contracts/A04.vrs)
pub uninterp spec fn wheel_files(d: Seq<u8>, to: spec_fn(Seq<char>) -> Option<Seq<char>>, find: FindPython, p: P) -> bool;
pub struct WriteTreeFS { pub root: Ghost<P> }
impl WriteTreeFS { #[verifier::external_body] pub fn new<A: AsPath>(p: A) -> (r: WriteTreeFS) ensures r.root@ == p.p() { unimplemented!() } }
@type src/trampolines/mod.rs | type:FindPython ;
@type src/trampolines/mod.rs | type:ScriptPlatform ;
pub struct TrampolineMaker { pub f: Ghost<FindPython>, pub s: Ghost<ScriptPlatform> }
impl TrampolineMaker { #[verifier::external_body] pub fn new(f: FindPython, s: ScriptPlatform) -> (r: TrampolineMaker) ensures r.f@ == f, r.s@ == s { unimplemented!() } }
#[verifier::external_body] pub struct Paths { x: u8 }
impl Paths { pub uninterp spec fn at(&self, k: Seq<char>) -> Option<Seq<char>>; }
// HashMap::from
#[verifier::external_body]
pub fn paths_from(v: Vec<(&str, &str)>) -> (r: Paths)
    ensures forall|k: Seq<char>| #[trigger] r.at(k) == lookup(v@, k)
{ unimplemented!() }
pub open spec fn lookup(v: Seq<(&str, &str)>, k: Seq<char>) -> Option<Seq<char>> decreases v.len() { if v.len() == 0 { None } else if v.last().0@ == k { Some(v.last().1@) } else { lookup(v.drop_last(), k) } }
// property text: every wheel is laid out the same way
pub open spec fn lay() -> spec_fn(Seq<char>) -> Option<Seq<char>> { |k: Seq<char>| layout(k) }
pub open spec fn layout(k: Seq<char>) -> Option<Seq<char>> {
    if k == "scripts"@ { Some("bin"@) } else if k == "purelib"@ || k == "platlib"@ { Some("lib"@) } else if k == "data"@ { Some("."@) } else { None }
}
pub open spec fn pybi_at(d: Seq<u8>, p: P) -> bool { pybi_files(d, p) && exists|b: Seq<u8>, m: PybiCoreMetadata| #[trigger] pybi_meta(b) == Some(m) && of_pybi(d, b) && #[trigger] managed(p, m) }
pub open spec fn wheel_at(d: Seq<u8>, p: P) -> bool { wheel_files(d, lay(), FindPython::FromEnv, p) }

// ---- interpreter archives and wheels
pub struct NicePath { pub pieces: Ghost<Seq<Seq<char>>> }
impl NicePath { #[verifier::external_body] pub fn to_native(&self) -> (r: Native) ensures r.g@ == self.pieces@ { unimplemented!() } }
#[verifier::external_body] pub struct PathMap { x: u8 }
impl PathMap {
    pub uninterp spec fn at(&self, k: Seq<char>) -> Option<NicePath>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&NicePath>) ensures match r { Some(x) => self.at(k@) == Some(*x), None => self.at(k@) is None } { unimplemented!() }
}
pub struct PybiCoreMetadata { pub name: PackageName, pub version: Version, pub paths: PathMap, pub rest: Rest }
impl PybiCoreMetadata {
@fn src/vocab/core_metadata.rs | PybiCoreMetadata/fn:path
@sub? `.ok_or_else(|| verr())` => `.ok_or(verr())`
@params self key
@sig pub fn path(&self, key: &str) -> (r: Result<&NicePath, Report>)
    ensures match r { Ok(x) => self.paths.at(key@) == Some(*x), Err(_) => self.paths.at(key@) is None }
@endfn
}
pub uninterp spec fn pybi_meta(b: Seq<u8>) -> Option<PybiCoreMetadata>;
// the metadata member of an interpreter archive (contracts/D01m.vrs)
pub uninterp spec fn of_pybi(d: Seq<u8>, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn parse_pybi(b: &[u8]) -> (r: Result<PybiCoreMetadata, Report>) ensures r matches Ok(m) ==> pybi_meta(b@) == Some(m) { unimplemented!() }
pub uninterp spec fn named_by(h: ArtifactHash, d: Seq<u8>) -> bool;
pub trait Artifact: Sized {
    spec fn is_one(n: ArtifactName) -> bool;
    spec fn content(&self) -> Seq<u8>;
    fn inner(n: &ArtifactName) -> (r: bool) ensures r == Self::is_one(*n);
}
pub trait Binary: Artifact {
    type Platform;
    // it runs there (contracts/R06.vrs)
    spec fn runs(p: Self::Platform, n: ArtifactName) -> bool;
}
pub struct Sdist {}
pub uninterp spec fn is_sdist(n: ArtifactName) -> bool;
impl Artifact for Sdist { open spec fn is_one(n: ArtifactName) -> bool { is_sdist(n) } open spec fn content(&self) -> Seq<u8> { seq![] } #[verifier::external_body] fn inner(n: &ArtifactName) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn is_wheel(n: ArtifactName) -> bool;
pub struct Wheel { pub d: Ghost<Seq<u8>>, pub n: Ghost<Seq<char>> }
pub struct WName { pub n: Ghost<Seq<char>> }
impl WName { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.n@ { unimplemented!() } }
impl Artifact for Wheel { open spec fn is_one(n: ArtifactName) -> bool { is_wheel(n) } open spec fn content(&self) -> Seq<u8> { self.d@ } #[verifier::external_body] fn inner(n: &ArtifactName) -> (r: bool) { unimplemented!() } }
impl Binary for Wheel { type Platform = WheelPlatform; uninterp spec fn runs(p: WheelPlatform, n: ArtifactName) -> bool; }
impl Wheel {
    #[verifier::external_body]
    pub fn name(&self) -> (r: WName) ensures r.n@ == self.n@ { unimplemented!() }
    #[verifier::external_body]
    pub fn unpack(&self, paths: &Paths, maker: &TrampolineMaker, to: WriteTreeFS) -> (r: Result<(), Report>)
        ensures r is Ok ==> forall|f: spec_fn(Seq<char>) -> Option<Seq<char>>| (forall|k: Seq<char>| #[trigger] f(k) == paths.at(k)) ==> #[trigger] wheel_files(self.d@, f, maker.f@, to.root@)
    { unimplemented!() }
}
pub uninterp spec fn is_pybi(n: ArtifactName) -> bool;
pub struct Pybi { pub d: Ghost<Seq<u8>> }
impl Artifact for Pybi { open spec fn is_one(n: ArtifactName) -> bool { is_pybi(n) } open spec fn content(&self) -> Seq<u8> { self.d@ } #[verifier::external_body] fn inner(n: &ArtifactName) -> (r: bool) { unimplemented!() } }
impl Binary for Pybi { type Platform = PybiPlatform; uninterp spec fn runs(p: PybiPlatform, n: ArtifactName) -> bool; }
impl Pybi {
    #[verifier::external_body]
    pub fn unpack(&self, to: &mut WriteTreeFS) -> (r: Result<(), Report>) ensures r is Ok ==> pybi_files(self.d@, old(to).root@), final(to).root@ == old(to).root@ { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<(Vec<u8>, PybiCoreMetadata), Report>) ensures r matches Ok(x) ==> of_pybi(self.d@, x.0@) && pybi_meta(x.0@) == Some(x.1) { unimplemented!() }
}
#[verifier::external_body] pub struct WheelPlatform { x: u8 }
#[verifier::external_body] pub struct PybiPlatform { x: u8 }
pub struct WheelName { pub t: Ghost<Seq<char>> }
#[verifier::external_body] pub struct TagsOf { x: u8 }
impl TagsOf { pub uninterp spec fn of(&self) -> Seq<char>; }
// a text read as the name of a wheel file (contracts/N02.vrs)
#[verifier::external_body]
pub fn read_wheel_name(s: &str) -> (r: Result<WheelName, Report>) ensures r matches Ok(n) ==> n.t@ == s@ { unimplemented!() }
impl WheelName { #[verifier::external_body] pub fn all_tags(&self) -> (r: TagsOf) ensures r.of() == self.t@ { unimplemented!() } }
impl WheelPlatform {
    // how well a wheel of that name suits (contracts/R06.vrs)
    pub uninterp spec fn score(&self, n: Seq<char>) -> Option<i32>;
    #[verifier::external_body]
    pub fn max_compatibility(&self, t: TagsOf) -> (r: Option<i32>) ensures r == self.score(t.of()) { unimplemented!() }
}
// the platform for wheels (contracts/R07.vrs)
pub uninterp spec fn wheels_for(p: PybiPlatform, m: PybiCoreMetadata) -> WheelPlatform;
impl PybiPlatform {
    #[verifier::external_body]
    pub fn wheel_platform(&self, m: &PybiCoreMetadata) -> (r: Result<WheelPlatform, Report>) ensures r matches Ok(w) ==> w == wheels_for(*self, *m) { unimplemented!() }
    pub uninterp spec fn core(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn core_tag(&self) -> (r: &str) ensures r@ == self.core() { unimplemented!() }
}

// ---- the package database
#[verifier::external_body] pub struct PackageDB { x: u8 }
pub struct WheelBuilder<'a> { pub db: &'a PackageDB, pub py: Ghost<(PackageName, Version, PybiPlatform)> }
// a wheel of that name built from a source archive, for an interpreter (contracts/B01.vrs)
pub uninterp spec fn built(h: ArtifactHash, n: Seq<char>, d: Seq<u8>) -> bool;
pub open spec fn local(h: ArtifactHash, n: Seq<char>, p: P) -> bool { exists|d: Seq<u8>| #[trigger] built(h, n, d) && wheel_at(d, p) }
impl PackageDB {
    pub uninterp spec fn lists(&self, n: Seq<char>, v: int, ai: AI) -> bool;
    #[verifier::external_body]
    pub fn artifacts_for_version(&self, n: &PackageName, v: &Version) -> (r: Result<&Vec<ArtifactInfo>, Report>) ensures r matches Ok(x) ==> forall|i: int| 0 <= i < x@.len() ==> self.lists(n.norm(), v.key(), #[trigger] x@[i]) { unimplemented!() }
    // contracts/D01.vrs, B01.vrs
    #[verifier::external_body]
    pub fn get_artifact<T: Artifact>(&self, ai: &ArtifactInfo) -> (r: Result<T, Report>) ensures r matches Ok(a) ==> T::is_one(ai.name) && (ai.hash matches Some(h) ==> named_by(h, a.content())) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_locally_built_binary<T>(&self, ai: &ArtifactInfo, b: &WheelBuilder, p: &WheelPlatform) -> (r: Option<Result<Wheel, Report>>)
        ensures r is Some <==> is_sdist(ai.name), r matches Some(Ok(w)) ==> p.score(w.n@) is Some && (ai.hash matches Some(h) ==> built(h, w.n@, w.d@))
    { unimplemented!() }
}
impl<'a> WheelBuilder<'a> {
    #[verifier::external_body]
    pub fn new(db: &'a PackageDB, n: &PackageName, v: &Version, ps: &Vec<&PybiPlatform>, stack: &[&PackageName]) -> (r: Result<WheelBuilder<'a>, Report>)
        ensures r matches Ok(b) ==> ps@.len() > 0 && b.py@ == (*n, *v, *ps@[0])
    { unimplemented!() }
}
// some file of a release satisfies f: the first that does
#[verifier::external_body]
pub fn find_file<'a, F: Fn(&&'a AI) -> bool>(v: &'a Vec<ArtifactInfo>, f: F) -> (r: Option<&'a AI>)
    requires forall|a: &&'a AI| #[trigger] f.requires((a,))
    ensures r matches Some(a) ==> f.ensures((&a,), true) && v@.contains(*a)
{ unimplemented!() }
pub enum PosyError { NoCompatibleBinaries { x: u8 }, Other }
#[verifier::external_body]
pub fn is_posy_error(e: &Report) -> (r: Option<&PosyError>) { unimplemented!() }
// property text: the file installed for a pin is one the index lists for exactly that release, and its hash is pinned
pub open spec fn from_pin(db: PackageDB, pin: PinnedPackage, ai: AI) -> bool { db.lists(pin.name.norm(), pin.version.key(), ai) && (ai.hash matches Some(h) && pinned_hash(pin, h)) }
// contracts/R06.vrs
#[verifier::external_body]
pub fn pick_pinned_binary<'a, 'b, T: Binary>(db: &'a PackageDB, platforms: &[&'b T::Platform], pin: &PinnedPackage) -> (r: Result<(&'a ArtifactInfo, &'b T::Platform), Report>)
    ensures r matches Ok(x) ==> from_pin(*db, *pin, *x.0) && T::is_one(x.0.name) && T::runs(*x.1, x.0.name) && exists|i: int| 0 <= i < platforms@.len() && #[trigger] platforms@[i] == x.1
{ unimplemented!() }

// ---- the store of unpacked trees (contracts/C02.vrs): a tree appears under a hash only when it is complete.
// Assumed: no hash is that of both an interpreter archive and a wheel
pub enum Kind { Pybi, Wheel }
pub uninterp spec fn dir_of(h: ArtifactHash) -> P;
pub open spec fn made(k: Kind, h: ArtifactHash, p: P) -> bool { exists|d: Seq<u8>| #[trigger] named_by(h, d) && match k { Kind::Pybi => pybi_at(d, p), Kind::Wheel => wheel_at(d, p) } }
pub trait HashKey { spec fn h(&self) -> ArtifactHash; }
impl HashKey for ArtifactHash { open spec fn h(&self) -> ArtifactHash { *self } }
impl<K: HashKey> HashKey for &K { open spec fn h(&self) -> ArtifactHash { (**self).h() } }
pub struct KVDirStore {}
pub struct KVDirLock { pub g: Ghost<P> }
impl AsPath for KVDirLock { open spec fn p(&self) -> P { self.g@ } }
pub struct TempDir { pub g: Ghost<P> }
impl AsPath for TempDir { open spec fn p(&self) -> P { self.g@ } }
impl TempDir { #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r.p() == self.p() { unimplemented!() } }
impl KVDirLock {
    #[verifier::external_body]
    pub fn join<B: Below>(&self, b: B) -> (r: PathBuf) ensures r.p() == b.under(self.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn tempdir(&self) -> (r: Result<TempDir, Report>) { unimplemented!() }
}
impl KVDirStore {
    #[verifier::external_body]
    pub fn get_or_set<K: HashKey, F: FnOnce(&PathBuf) -> Result<(), Report>>(&self, h: &K, f: F, k: Ghost<Kind>) -> (r: Result<PathBuf, Report>)
        requires
            forall|p: &PathBuf| #[trigger] f.requires((p,)),
            forall|p: &PathBuf, x: Result<(), Report>| #[trigger] f.ensures((p,), x) && x is Ok ==> made(k@, h.h(), p.p()),
        ensures r matches Ok(p) ==> p.p() == dir_of(h.h()) && made(k@, h.h(), p.p())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock<K: HashKey>(&self, h: &K) -> (r: Result<KVDirLock, Report>) ensures r matches Ok(l) ==> l.p() == dir_of(h.h()) { unimplemented!() }
}

// ---- the interpreter is told that it is managed, and not to look into the user's own packages
// property text: the first line that says ENABLE_USER_SITE = None says False instead, nothing else changes
pub open spec fn says_at(s: Seq<u8>, i: int, t: Seq<u8>) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t && (i == 0 || s[i - 1] == 10) }
pub open spec fn edited(s: Seq<u8>, i: int, t: Seq<u8>, u: Seq<u8>) -> Seq<u8> { s.take(i) + u + s.skip(i + t.len()) }
pub open spec fn unuser(s: Seq<u8>, r: Seq<u8>) -> bool {
    exists|i: int| #[trigger] says_at(s, i, user_site()) && (forall|j: int| 0 <= j < i ==> !#[trigger] says_at(s, j, user_site())) && r == edited(s, i, user_site(), no_user_site())
}
pub open spec fn ascii(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
pub open spec fn user_site() -> Seq<u8> { ascii("ENABLE_USER_SITE = None"@) }
pub open spec fn no_user_site() -> Seq<u8> { ascii("ENABLE_USER_SITE = False"@) }
pub enum Cow { Borrowed(Vec<u8>), Owned(Vec<u8>) }
impl Cow {
    pub open spec fn v(&self) -> Seq<u8> { match *self { Cow::Borrowed(v) => v@, Cow::Owned(v) => v@ } }
    pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self.v() { match self { Cow::Borrowed(v) => v.as_slice(), Cow::Owned(v) => v.as_slice() } }
}
// the regex (?m)^ENABLE_USER_SITE = None
#[verifier::external_body] pub struct ReUser { x: u8 }
#[verifier::external_body] pub fn re_user() -> (r: ReUser) { unimplemented!() }
impl ReUser {
    #[verifier::external_body]
    pub fn replace(&self, s: &Vec<u8>, by: &str) -> (r: Cow)
        ensures match r {
            Cow::Borrowed(v) => v@ == s@ && forall|i: int| !#[trigger] says_at(s@, i, user_site()),
            Cow::Owned(v) => exists|i: int| #[trigger] says_at(s@, i, user_site()) && (forall|j: int| 0 <= j < i ==> !#[trigger] says_at(s@, j, user_site())) && v@ == edited(s@, i, user_site(), ascii(by@)),
        }
    { unimplemented!() }
}
pub open spec fn managed(p: P, m: PybiCoreMetadata) -> bool {
    &&& m.paths.at("stdlib"@) matches Some(lib) && m.paths.at("purelib"@) matches Some(pure)
        && written(sub(along(p, lib.pieces@), "EXTERNALLY-MANAGED"@), data_file("data-files/EXTERNALLY-MANAGED"@))
        && written(sub(along(p, pure.pieces@), "sitecustomize.py"@), data_file("data-files/sitecustomize.py"@))
        && exists|s: Seq<u8>, t: Seq<u8>| #[trigger] unuser(s, t) && was_read(sub(along(p, lib.pieces@), "site.py"@), s) && written(sub(along(p, lib.pieces@), "site.py"@), t)
}

#[verifier::external_body]
pub fn parse_wheel(b: &[u8]) -> (r: Result<WheelCoreMetadata, Report>) ensures r matches Ok(m) ==> wheel_meta(b@) == Some(m) { unimplemented!() }
pub uninterp spec fn wheel_meta(b: Seq<u8>) -> Option<WheelCoreMetadata>;
pub open spec fn strings(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
pub fn as_strs<'a>(v: &'a Vec<String>) -> (r: Vec<&'a str>) ensures strs(r@) == strings(v@) { unimplemented!() }
// iterating a Vec by reference
#[verifier::external_body]
pub fn refs<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
// .iter().max_by_key(|c| c.0)
#[verifier::external_body]
pub fn best<'a>(v: &'a Vec<(i32, String)>) -> (r: Option<&'a (i32, String)>)
    ensures match r { Some(x) => v@.contains(*x) && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 <= x.0, None => v@.len() == 0 }
{ unimplemented!() }
// .iter().map(f)
pub fn map_paths<F: Fn(&PathBuf) -> PathBuf>(v: &Vec<PathBuf>, f: F, to: Ghost<spec_fn(P) -> P>) -> (r: Vec<PathBuf>)
    requires forall|x: &PathBuf| #[trigger] f.requires((x,)), forall|x: &PathBuf, o: PathBuf| #[trigger] f.ensures((x,), o) ==> o.p() == to@(x.p())
    ensures ps(r@) == ps(v@).map_values(to@)
{
    let mut out: Vec<PathBuf> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|x: &PathBuf| #[trigger] f.requires((x,)), forall|x: &PathBuf, o: PathBuf| #[trigger] f.ensures((x,), o) ==> o.p() == to@(x.p()),
            forall|j: int| 0 <= j < i ==> (#[trigger] out@[j]).p() == to@(v@[j].p())
        decreases v@.len() - i
    {
        out.push(f(&v[i]));
        i += 1;
    }
    proof { assert(ps(out@) =~= ps(v@).map_values(to@)); }
    out
}
pub fn find_among<'a>(names: &'a Vec<String>, name: &PackageName, version: &Version, suffix: &str) -> (r: Result<Option<&'a str>, Report>)
    ensures r matches Ok(Some(d)) ==> only(strings(names@), suffix@, d@) && (lacks(d@, '\n') ==> spells(d@, name.norm(), version.key()))
{
    let v = as_strs(names);
    let ghost v0 = v@;
    let r = find_special_wheel_dir(v, name, version, suffix);
    proof {
        if let Ok(Some(d)) = r {
            assert(v0.contains(d)); let i = choose|i: int| 0 <= i < v0.len() && v0[i] == d; assert(strs(v0)[i] == d@); assert(strings(names@)[i] == d@);
            assert forall|e: Seq<char>| #[trigger] strings(names@).contains(e) && ends(e, suffix@) implies e == d@ by {
                let j = choose|j: int| 0 <= j < strings(names@).len() && strings(names@)[j] == e;
                assert(strs(v0)[j] == e); assert(v0[j]@ == e);
                lemma_filter_keeps(v0, |s: &str| ends(s@, suffix@), j);
                assert(special(v0, suffix@).contains(v0[j]));
            }
        }
    }
    r
}
// cfg!(unix)
pub uninterp spec fn unix() -> bool;
#[verifier::external_body]
pub fn on_unix() -> (r: bool) ensures r == unix() { unimplemented!() }

pub proof fn lemma_lits()
    ensures "scripts"@ != "purelib"@, "scripts"@ != "platlib"@, "scripts"@ != "data"@, "purelib"@ != "platlib"@, "purelib"@ != "data"@, "platlib"@ != "data"@
{ reveal_strlit("scripts"); reveal_strlit("purelib"); reveal_strlit("platlib"); reveal_strlit("data"); assert("scripts"@[0] == 's'); assert("purelib"@[1] == 'u'); assert("platlib"@[1] == 'l'); assert("data"@[0] == 'd'); assert("purelib"@[0] == 'p'); assert("platlib"@[0] == 'p'); }
pub proof fn lemma_names(v: Seq<Result<DirEntry, Report>>, n: int)
    requires 0 <= n < v.len()
    ensures forall|y: Seq<char>| #[trigger] names_of(v, n).contains(y) ==> names_of(v, n + 1).contains(y), v[n] matches Ok(e) ==> (e.n@ matches Some(s) ==> names_of(v, n + 1).contains(s))
{
    let a = names_of(v, n);
    assert forall|y: Seq<char>, x: Seq<char>| #[trigger] a.contains(y) implies #[trigger] a.push(x).contains(y) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(a.push(x)[i] == y); }
    if let Ok(e) = v[n] { if let Some(s) = e.n@ { assert(a.push(s)[a.len() as int] == s); } }
}
// ---- what an environment is
pub open spec fn only(names: Seq<Seq<char>>, suffix: Seq<char>, d: Seq<char>) -> bool { names.contains(d) && ends(d, suffix) && forall|e: Seq<char>| #[trigger] names.contains(e) && ends(e, suffix) ==> e == d }
// property text: the metadata found is that the blueprint expects
pub open spec fn as_expected(pin: PinnedPackage, exp: WheelResolveMetadata, root: P) -> bool {
    exists|names: Seq<Seq<char>>, d: Seq<char>, b: Seq<u8>, m: WheelCoreMetadata| #[trigger] listed(sub(root, "lib"@), names) && #[trigger] only(names, ".dist-info"@, d) && (lacks(d, '\n') ==> spells(d, pin.name.norm(), pin.version.key()))
        && #[trigger] was_read(sub(sub(sub(root, "lib"@), d), "METADATA"@), b) && wheel_meta(b) == Some(m) && #[trigger] kept(m) == exp.inner
}
// where a wheel file is unpacked; where one built from a source archive is
pub open spec fn unpacked(wp: WheelPlatform, ai: AI, root: P) -> bool {
    ||| is_wheel(ai.name) && Wheel::runs(wp, ai.name) && root == dir_of(ai.hash->Some_0) && made(Kind::Wheel, ai.hash->Some_0, root)
    ||| is_sdist(ai.name) && exists|n: Seq<char>| root == sub(dir_of(ai.hash->Some_0), n) && #[trigger] local(ai.hash->Some_0, n, root) && wp.score(n) is Some
}
pub open spec fn installed(db: PackageDB, wp: WheelPlatform, pin: PinnedPackage, exp: WheelResolveMetadata, root: P) -> bool {
    (exists|ai: AI| #[trigger] from_pin(db, pin, ai) && unpacked(wp, ai, root)) && as_expected(pin, exp, root)
}
pub open spec fn interpreter(db: PackageDB, bp: Blueprint, ai: AI, pl: PybiPlatform, root: P, m: PybiCoreMetadata) -> bool {
    &&& from_pin(db, bp.pybi, ai) && is_pybi(ai.name) && Pybi::runs(pl, ai.name)
    &&& root == dir_of(ai.hash->Some_0) && made(Kind::Pybi, ai.hash->Some_0, root)
    &&& exists|b: Seq<u8>| #[trigger] was_read(sub(sub(root, "pybi-info"@), "METADATA"@), b) && pybi_meta(b) == Some(m)
}
pub open spec fn bins() -> spec_fn(P) -> P { |r: P| sub(r, "bin"@) }
pub open spec fn libs() -> spec_fn(P) -> P { |r: P| sub(r, "lib"@) }
pub proof fn show_env(db: PackageDB, bp: Blueprint, e: Env, ai: AI, pl: PybiPlatform, root: P, m: PybiCoreMetadata, roots: Seq<P>)
    requires interpreter(db, bp, ai, pl, root, m), e.wheel_platform == wheels_for(pl, m), e.platform_core_tag@ == pl.core(),
        roots.len() == bp.wheels@.len(), forall|i: int| 0 <= i < roots.len() ==> installed(db, e.wheel_platform, (#[trigger] bp.wheels@[i]).0, bp.wheels@[i].1, roots[i]),
        m.paths.at("scripts"@) is Some, env_is(e, along(root, m.paths.at("scripts"@)->Some_0.pieces@), roots),
    ensures pinned_env(db, bp, e)
{ assert(env_ok(db, bp, e, ai, pl, root, m, roots)); }
// property text
pub open spec fn env_is(e: Env, bin: P, roots: Seq<P>) -> bool {
    &&& e.python.p() == sub(bin, if unix() { "python"@ } else { "python.exe"@ }) && e.pythonw.p() == sub(bin, if unix() { "python"@ } else { "pythonw.exe"@ })
    &&& ps(e.bin_dirs@) == seq![bin] + roots.map_values(bins())
    &&& ps(e.lib_dirs@) == roots.map_values(libs())
}
pub open spec fn env_ok(db: PackageDB, bp: Blueprint, e: Env, ai: AI, pl: PybiPlatform, root: P, m: PybiCoreMetadata, roots: Seq<P>) -> bool {
    &&& interpreter(db, bp, ai, pl, root, m)
    &&& e.wheel_platform == wheels_for(pl, m) && e.platform_core_tag@ == pl.core()
    &&& roots.len() == bp.wheels@.len() && forall|i: int| 0 <= i < roots.len() ==> installed(db, e.wheel_platform, (#[trigger] bp.wheels@[i]).0, bp.wheels@[i].1, roots[i])
    &&& m.paths.at("scripts"@) matches Some(s) && env_is(e, along(root, s.pieces@), roots)
}
pub open spec fn pinned_env(db: PackageDB, bp: Blueprint, e: Env) -> bool { exists|ai: AI, pl: PybiPlatform, root: P, m: PybiCoreMetadata, roots: Seq<P>| #[trigger] env_ok(db, bp, e, ai, pl, root, m, roots) }
pub struct EnvForest { pub store: KVDirStore }
@type src/env.rs | type:Env ;
impl EnvForest {
@fn src/env.rs | EnvForest/fn:munge_unpacked_pybi
@sub `static USER_SITE_RE: Lazy<regex::bytes::Regex> = Lazy::new(|| { regex::bytes::Regex::new(r"(?m)^ENABLE_USER_SITE = None").unwrap() });` => ``
@sub? `USER_SITE_RE.replace($s, &$b[..])` => `re_user().replace($s, $b)`
@sub? `b"ENABLE_USER_SITE = False"` => `"ENABLE_USER_SITE = False"`
@sub? `include_bytes!($n)` => `data_bytes($n).as_slice()`
@sub? `,)?` => `)?`
@sub? `fs::` => `Fs::`
@sub? `&new_site_py)` => `new_site_py.bytes())`
@params path metadata
@sig pub fn munge_unpacked_pybi(path: &PathBuf, metadata: &PybiCoreMetadata) -> (r: Result<(), Report>)
    ensures r is Ok ==> managed(path.p(), *metadata)
@at after `let new_site_py = $e;`
proof { if let Cow::Owned(_) = new_site_py { assert(unuser(site_py@, new_site_py.v())); } }
@endfn
@fn src/env.rs | EnvForest/fn:get_env
@sub? `wheel_root.exists()` => `Fs::exists(&wheel_root, Ghost(*sdist_hash), Ghost(local_wheel.n@))`
@sub? `drop(handle);` => ``
@sub? `fs::rename($a, &$r)` => `Fs::rename($a, &$r, Ghost(*sdist_hash), Ghost(local_wheel.n@))`
@sub? `fs::` => `Fs::`
@sub? `&[&wheel_platform]` => `vec![&wheel_platform].as_slice()`
@sub? `let pybi_platform_slice = [pybi_platform];` => `let pybi_platform_slice = vec![pybi_platform];`
@sub? `.unpack($a,)` => `.unpack($a)`
@sub? `WheelBuilder::new($a,)` => `WheelBuilder::new($a)`
@sub? `.get_locally_built_binary::<Wheel>($a,)` => `.get_locally_built_binary::<Wheel>($a)`
@sub? `Wheel::find_special_wheel_dir($a,)` => `Wheel::find_special_wheel_dir($a)`
@sub? `Wheel::find_special_wheel_dir(top_levels, $a)` => `find_among(&top_levels, $a)`
@sub? `: PybiCoreMetadata = $e.try_into()?` => `: PybiCoreMetadata = parse_pybi($e)?`
@sub? `: WheelCoreMetadata = $e.try_into()?` => `: WheelCoreMetadata = parse_wheel($e)?`
@sub? `: WheelName = $e.try_into()?` => `: WheelName = read_wheel_name($e)?`
@sub? `HashMap<String, NicePathBuf>` => `Paths`
@sub? `($k.into(), $v.try_into().unwrap())` => `($k, $v)`
@sub? `HashMap::from([$B])` => `{ let v_ = vec![$B]; proof { lemma_lits(); reveal_with_fuel(lookup, 9); assert forall|k: Seq<char>| #[trigger] lay()(k) == lookup(v_@, k) by {} } paths_from(v_) }`
@sub? `let pybi_root = self.store.get_or_set($h, |path| { $B })` => `let pybi_root = self.store.get_or_set($h, |path: &PathBuf| -> (x: Result<(), Report>) ensures x is Ok ==> made(Kind::Pybi, *pybi_hash, path.p()) { $B }, Ghost(Kind::Pybi))`
@sub? `let wheel_root = self.store.get_or_set($h, |path| { $B })` => `let wheel_root = self.store.get_or_set($h, |path: &PathBuf| -> (x: Result<(), Report>) ensures x is Ok ==> made(Kind::Wheel, *wheel_hash, path.p()) { $B }, Ghost(Kind::Wheel))`
@sub? `err.downcast_ref::<PosyError>()` => `is_posy_error(&err)`
@sub? `db.artifacts_for_version($x)?.iter().find(|$a| $e)` => `find_file(db.artifacts_for_version($x)?, |$a: &&ArtifactInfo| -> (b: bool) ensures b ==> is_sdist($a.name) && ($a.hash matches Some(h_) && pinned_hash(*pin, h_)) { $e })`
@sub? `pin.hashes.contains($h)` => `has_hash(&pin.hashes, $h)`
@sub? `ai.is::<Sdist>()` => `ai.is_::<Sdist>()`
@sub? `name.ends_with($s)` => `ends_with(name.as_str(), $s)`
@sub? `candidates.iter().max_by_key(|$c| $e)` => `best(&candidates)`
@sub? `found_metadata.inner != expected_metadata.inner {` => `!found_metadata.inner.same(&expected_metadata.inner) {`
@sub? `bin_dirs.extend(wheel_roots.iter().map(|root| $e))` => `bin_dirs.append(&mut map_paths(&wheel_roots, |root: &PathBuf| -> (o: PathBuf) ensures o.p() == sub(root.p(), "bin"@) { $e }, Ghost(bins())))`
@sub? `wheel_roots.iter().map(|root| $e).collect()` => `map_paths(&wheel_roots, |root: &PathBuf| -> (o: PathBuf) ensures o.p() == sub(root.p(), "lib"@) { $e }, Ghost(libs()))`
@sub? `let mut wheel_roots = Vec::new();` => `let mut wheel_roots: Vec<PathBuf> = Vec::new();`
@sub? `let mut top_levels = Vec::new();` => `let mut top_levels: Vec<String> = Vec::new();`
@sub? `let mut candidates = Vec::new();` => `let mut candidates: Vec<(i32, String)> = Vec::new();`
@sub? `Ok(Env { $B })` => `{ let e_ = Env { $B }; proof { assert(ps(e_.bin_dirs@) =~= seq![along(pybi_root.p(), pybi_metadata.paths.at("scripts"@)->Some_0.pieces@)] + ps(wheel_roots@).map_values(bins())); assert(ps(e_.lib_dirs@) =~= ps(wheel_roots@).map_values(libs())); show_env(*db, *blueprint, e_, *pybi_ai, *pybi_platform, pybi_root.p(), pybi_metadata, ps(wheel_roots@)); } Ok(e_) }`
@sub? `cfg!(unix)` => `on_unix()`
@sub? `pybi_platform.core_tag().into()` => `to_text(pybi_platform.core_tag())`
@sub `for ($p, $m) in &blueprint.wheels { $B }` => `for pe in refs(&blueprint.wheels) { let $p = &pe.0; let $m = &pe.1; $B }`
@forwhile 1
@forwhile 2
@forwhile 3
@params self db blueprint pybi_platforms build_stack
@sig pub fn get_env(&self, db: &PackageDB, blueprint: &Blueprint, pybi_platforms: &[&PybiPlatform], build_stack: &[&PackageName]) -> (r: Result<Env, Report>)
    ensures r matches Ok(e) ==> pinned_env(*db, *blueprint, e)
@loop 1
    invariant it1.wf(), it1.all@.len() == blueprint.wheels@.len(), forall|i: int| 0 <= i < blueprint.wheels@.len() ==> *(#[trigger] it1.all@[i]) == blueprint.wheels@[i],
        wheel_roots@.len() == it1.i@, forall|i: int| 0 <= i < it1.i@ ==> installed(*db, wheel_platform, (#[trigger] blueprint.wheels@[i]).0, blueprint.wheels@[i].1, wheel_roots@[i].p()),
        forall|k: Seq<char>| #[trigger] lay()(k) == paths.at(k), trampoline_maker.f@ == FindPython::FromEnv,
    decreases it1.all@.len() - it1.i@
@loop 2
    invariant it2.wf(), finished(handle.p(), it2.all@), forall|j: int| 0 <= j < candidates@.len() ==> names_of(it2.all@, it2.i@).contains((#[trigger] candidates@[j]).1@) && whl(*sdist_hash, candidates@[j].1@) && wheel_platform.score(candidates@[j].1@) is Some
    decreases it2.all@.len() - it2.i@
@loop 3
    invariant it3.wf(), whole(it3.all@) ==> listed(lib.p(), names_of(it3.all@, it3.all@.len() as int)), strings(top_levels@) =~= names_of(it3.all@, it3.i@), forall|j: int| 0 <= j < it3.i@ ==> (#[trigger] it3.all@[j]) is Ok
    decreases it3.all@.len() - it3.i@
@at loop 2 start
proof { lemma_names(it2.all@, it2.i@); }
@at loop 3 after
proof { assert(listed(lib.p(), strings(top_levels@))); }
@at before `(wheel_ai, wheel_root)`
proof { assert(unpacked(wheel_platform, *wheel_ai, wheel_root.p())); }
@at before `(sdist_ai, handle.join(name))`
proof { assert(local(*sdist_hash, name@, sub(handle.p(), name@))); }
@at before `(sdist_ai, wheel_root)`
proof { assert(local(*sdist_hash, local_wheel.n@, wheel_root.p())); }
@at before `wheel_roots.push(wheel_root)`
proof {
    assert(as_expected(*pin, *expected_metadata, wheel_root.p()));
    assert(from_pin(*db, *pin, *ai));
    assert(unpacked(wheel_platform, *ai, wheel_root.p()));
}
@endfn
}
// ---- what a process started in an environment is told
#[verifier::external_body] pub struct OsString { x: u8 }
impl OsString {
    pub uninterp spec fn path(&self) -> P;
    // a list of paths joined by the separator; none of them contains it
    pub uninterp spec fn list(&self) -> Seq<P>;
}
pub uninterp spec fn var(k: Seq<char>) -> Option<OsString>;
#[verifier::external_body]
pub fn var_os(k: &str) -> (r: Option<OsString>) ensures r == var(k@) { unimplemented!() }
#[verifier::external_body]
pub fn split_paths(s: &OsString) -> (r: Vec<PathBuf>) ensures ps(r@) == s.list() { unimplemented!() }
#[verifier::external_body]
pub fn join_paths(v: &Vec<PathBuf>) -> (r: Result<OsString, Report>) ensures r matches Ok(s) ==> s.list() == ps(v@) { unimplemented!() }
#[verifier::external_body]
pub fn copy_of(v: &Vec<PathBuf>) -> (r: Vec<PathBuf>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn os_string(p: &PathBuf) -> (r: OsString) ensures r.path() == p.p() { unimplemented!() }
pub open spec fn tells(v: Seq<(&str, OsString)>, k: Seq<char>, f: spec_fn(OsString) -> bool) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k && f(v[i].1) && forall|j: int| 0 <= j < v.len() && j != i ==> (#[trigger] v[j]).0@ != k }
// property text: its scripts are found before any other; scripts and the interpreter find it and its packages
pub open spec fn env_told(e: Env, v: Seq<(&str, OsString)>) -> bool {
    &&& var("PATH"@) matches Some(old) && tells(v, "PATH"@, |o: OsString| o.list() == ps(e.bin_dirs@) + old.list())
    &&& tells(v, "POSY_PYTHON"@, |o: OsString| o.path() == e.python.p())
    &&& tells(v, "POSY_PYTHONW"@, |o: OsString| o.path() == e.pythonw.p())
    &&& tells(v, "POSY_PYTHON_PACKAGES"@, |o: OsString| o.list() == ps(e.lib_dirs@))
}
pub open spec fn known(s: Seq<char>) -> bool { s == "PATH"@ || s == "POSY_PYTHON"@ || s == "POSY_PYTHONW"@ || s == "POSY_PYTHON_PACKAGES"@ }
pub proof fn lemma_vars()
    ensures "PATH"@ != "POSY_PYTHON"@, "PATH"@ != "POSY_PYTHONW"@, "PATH"@ != "POSY_PYTHON_PACKAGES"@, "POSY_PYTHON"@ != "POSY_PYTHONW"@, "POSY_PYTHON"@ != "POSY_PYTHON_PACKAGES"@, "POSY_PYTHONW"@ != "POSY_PYTHON_PACKAGES"@
{ reveal_strlit("PATH"); reveal_strlit("POSY_PYTHON"); reveal_strlit("POSY_PYTHONW"); reveal_strlit("POSY_PYTHON_PACKAGES"); assert("PATH"@.len() == 4); assert("POSY_PYTHON"@.len() == 11); assert("POSY_PYTHONW"@.len() == 12); assert("POSY_PYTHON_PACKAGES"@.len() == 20); }
impl Env {
@fn src/env.rs | Env/fn:env_vars
@sub? `join_paths(&self.lib_dirs)?,` => `join_paths(&self.lib_dirs)?`
@sub? `let mut vars = Vec::new();` => `let mut vars: Vec<(&'static str, OsString)> = Vec::new();`
@sub? `std::env::var_os($k)` => `var_os($k)`
@sub? `std::env::join_paths($k)` => `join_paths($k)`
@sub? `new_paths.extend(std::env::split_paths(&old_path))` => `new_paths.append(&mut split_paths(&old_path))`
@sub? `self.bin_dirs.clone()` => `copy_of(&self.bin_dirs)`
@sub? `self.python.clone().into_os_string()` => `os_string(&self.python)`
@sub? `self.pythonw.clone().into_os_string()` => `os_string(&self.pythonw)`
@sub? `.ok_or(eyre!($e))` => `.ok_or(verr())`
@params self
@sig pub fn env_vars(&self) -> (r: Result<Vec<(&'static str, OsString)>, Report>)
    ensures r matches Ok(v) ==> env_told(*self, v@)
@at before `Ok(vars)`
proof {
    lemma_vars();
    assert(ps(new_paths@) =~= ps(self.bin_dirs@) + var("PATH"@)->Some_0.list());
    assert(vars@.len() > 3 ==> known(vars@[0].0@) && known(vars@[1].0@) && known(vars@[2].0@) && known(vars@[3].0@));
}
@endfn
}
}
fn main() {}
