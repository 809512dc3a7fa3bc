@include contracts/common.vrs
@include contracts/fmt.vrs
verus! {
// ---- names and versions
@type src/vocab/package_name.rs | type:PackageName ;
impl PackageName { pub closed spec fn key(&self) -> Seq<char> { self.normalized@ } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PackageName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PackageName) -> bool { self.key() == o.key() }
}
impl PartialEq for PackageName { #[verifier::external_body] fn eq(&self, o: &PackageName) -> (r: bool) { unimplemented!() } }
impl Clone for PackageName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub mod pep440 {
use super::*;
@type dep:pep440-0.2.0/src/lib.rs | type:Version ;
@type dep:pep440-0.2.0/src/lib.rs | type:LocalVersion ;
@type dep:pep440-0.2.0/src/lib.rs | type:PreRelease ;
}
@type src/vocab/version.rs | type:Version ;
impl Version {
    // equal under PEP 440 (contracts/R01.vrs)
    pub uninterp spec fn key(&self) -> int;
    // as it is printed
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
@fn src/vocab/version.rs | Version/fn:is_prerelease
@params self
@sig pub fn is_prerelease(&self) -> (r: bool)
    ensures r == prerelease(*self)
@endfn
}
pub open spec fn prerelease(v: Version) -> bool { v.0.pre is Some || v.0.dev is Some }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Version) -> bool { self.key() == o.key() }
}
impl PartialEq for Version { #[verifier::external_body] fn eq(&self, o: &Version) -> (r: bool) { unimplemented!() } }
impl Shown for pep440::Version { open spec fn shown(&self) -> Seq<char> { ver_text(*self) } }
pub uninterp spec fn ver_text(v: pep440::Version) -> Seq<char>;
@type src/vocab/specifier.rs | type:Specifier ;
@type src/vocab/specifier.rs | type:Specifiers ;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/specifier.rs | type:CompareOp ;
pub struct Extra { x: u8 }
pub mod marker { pub struct EnvMarkerExpr { x: u8 } }
@type src/vocab/requirement.rs | type:Requirement ;
@type src/vocab/requirement.rs | type:PythonRequirement ;
#[verifier::external_body] pub struct UserRequirement { x: u8 }
// `.unwrap()` of the conversion: it fails only on extras and markers
#[verifier::external_body]
pub fn py_req(q: Requirement) -> (r: PythonRequirement) requires q.extras@.len() == 0, q.env_marker_expr is None ensures r.0 == q { unimplemented!() }
#[verifier::external_body]
pub fn refs<T>(v: &[T]) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
#[verifier::external_body]
pub fn prefix(v: &Vec<u32>, n: usize) -> (r: Vec<u32>) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
pub fn least(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn none_of<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }

// ---- paths, and what is found there
#[verifier::external_body] pub struct P { x: u8 }
pub uninterp spec fn sub(p: P, name: Seq<char>) -> P;
pub struct PathBuf { pub g: Ghost<P> }
pub trait AsPath { spec fn p(&self) -> P; }
impl AsPath for PathBuf { open spec fn p(&self) -> P { self.g@ } }
impl<T: AsPath> AsPath for &T { open spec fn p(&self) -> P { (**self).p() } }
pub struct OsString { pub s: Ghost<Option<Seq<char>>>, pub n: Ghost<Seq<char>> }
impl OsString { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r matches Some(t) ==> t@ == self.n@ { unimplemented!() } }
pub trait Below { spec fn name(&self) -> Seq<char>; }
impl Below for &str { open spec fn name(&self) -> Seq<char> { self@ } }
impl Below for &String { open spec fn name(&self) -> Seq<char> { self@ } }
impl Below for String { open spec fn name(&self) -> Seq<char> { self@ } }
impl Below for OsString { open spec fn name(&self) -> Seq<char> { self.n@ } }
impl PathBuf {
    #[verifier::external_body] pub fn join<B: Below>(&self, b: B) -> (r: PathBuf) ensures r.p() == sub(self.p(), b.name()), scratch(self.p()) ==> scratch(r.p()), came(r.p(), r.p()) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r ==> present(self.p()) { unimplemented!() }
}
pub uninterp spec fn present(p: P) -> bool;
// the bytes read from a file
pub uninterp spec fn holds(p: P, b: Seq<u8>) -> bool;
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn says(p: P, t: Seq<char>) -> bool { exists|b: Seq<u8>| #[trigger] holds(p, b) && utf8(b) == Some(t) }
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, Report>) ensures r matches Ok(s) ==> utf8(v@) == Some(s@) { unimplemented!() }
// the file at p came, complete, from q
pub uninterp spec fn came(p: P, q: P) -> bool;
pub open spec fn carried(a: P, b: P) -> bool { forall|q: P| #[trigger] came(a, q) ==> came(b, q) }
// a place nobody else looks at
pub uninterp spec fn scratch(p: P) -> bool;
pub struct DirEntry { pub n: Ghost<Seq<char>>, pub d: Ghost<P> }
impl DirEntry {
    #[verifier::external_body] pub fn file_name(&self) -> (r: OsString) ensures r.n@ == self.n@ { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.p() == sub(self.d@, self.n@) { unimplemented!() }
}
pub uninterp spec fn listed(p: P, n: Seq<char>) -> bool;
pub open spec fn listing(p: P, v: Seq<Result<DirEntry, Report>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches Ok(e) ==> e.d@ == p && listed(p, e.n@))
    // all of it, unless an entry could not be read
    &&& forall|n: Seq<char>| #[trigger] listed(p, n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i] matches Ok(e) ==> e.n@ == n)
}
pub struct File { pub g: Ghost<P> }
pub struct Fs {}
impl Fs {
    #[verifier::external_body]
    pub fn read<A: AsPath>(p: A) -> (r: Result<Vec<u8>, Report>) ensures r matches Ok(b) ==> holds(p.p(), b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_io<A: AsPath>(p: A) -> (r: Result<Vec<u8>, IoError>) ensures r matches Ok(b) ==> holds(p.p(), b@), r matches Err(e) ==> e.gone() ==> missing(p.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<A: AsPath>(p: A, b: &[u8]) -> (r: Result<(), Report>) requires scratch(p.p()) ensures r is Ok ==> written(p.p(), b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<A: AsPath>(p: A) -> (r: Result<(), Report>) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir<A: AsPath>(p: A) -> (r: Result<Vec<Result<DirEntry, Report>>, Report>) ensures r matches Ok(v) ==> listing(p.p(), v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<A: AsPath>(p: A) -> (r: Result<File, Report>) ensures r matches Ok(f) ==> f.g@ == p.p() { unimplemented!() }
    // property text: what may appear, in one step, where others look for it: an unpacked source archive
    // in its build directory, a finished wheel under its name in the directory of the source archive
    #[verifier::external_body]
    pub fn rename<A: AsPath, B: AsPath>(from: A, to: B, h: Ghost<ArtifactHash>) -> (r: Result<(), Report>)
        requires
            scratch(to.p()) || (to.p() == build_dir(h@) && build_ready(h@, from.p()))
            || (exists|n: Seq<char>| to.p() == #[trigger] sub(cache_dir(h@), n) && finished(h@, n, from.p()))
        ensures r is Ok ==> carried(from.p(), to.p())
    { unimplemented!() }
    // a copy takes time: nobody may look at it meanwhile
    #[verifier::external_body]
    pub fn copy<A: AsPath, B: AsPath>(from: A, to: B) -> (r: Result<u64, Report>)
        requires scratch(to.p())
        ensures r is Ok ==> carried(from.p(), to.p())
    { unimplemented!() }
}
pub uninterp spec fn written(p: P, b: Seq<u8>) -> bool;
pub uninterp spec fn missing(p: P) -> bool;
pub struct IoError { x: u8 }
impl IoError { pub uninterp spec fn gone(&self) -> bool; #[verifier::external_body] pub fn not_found(&self) -> (r: bool) ensures r == self.gone() { unimplemented!() } }

// ---- artifacts
#[verifier::external_body] pub struct ArtifactHash { x: u8 }
pub struct ArtifactName { pub d: PackageName, pub v: Version }
impl ArtifactName {
    pub fn distribution(&self) -> (r: &PackageName) ensures *r == self.d { &self.d }
    pub fn version(&self) -> (r: &Version) ensures *r == self.v { &self.v }
}
pub struct ArtifactInfo { pub name: ArtifactName, pub hash: Option<ArtifactHash> }
impl ArtifactInfo {
    #[verifier::external_body] pub fn require_hash(&self) -> (r: Result<&ArtifactHash, Report>) ensures r matches Ok(h) ==> self.hash == Some(*h) { unimplemented!() }
}
@type src/vocab/artifact_name.rs | type:WheelName ;
// the parts of the name of a wheel file; how it is read and written (contracts/N02.vrs)
pub struct NameV { pub d: PackageName, pub v: Version, pub num: Option<u32>, pub rest: Seq<char>, pub py: Seq<Seq<char>>, pub abi: Seq<Seq<char>>, pub arch: Seq<Seq<char>> }
impl WheelName {
    pub open spec fn parts(&self) -> NameV { NameV { d: self.distribution, v: self.version, num: self.build_number, rest: self.build_name@, py: texts(self.py_tags@), abi: texts(self.abi_tags@), arch: texts(self.arch_tags@) } }
    #[verifier::external_body] pub fn all_tags(&self) -> (r: Tags) ensures r.g@ == self.parts() { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == write_name(self.parts()) { unimplemented!() }
}
pub uninterp spec fn write_name(n: NameV) -> Seq<char>;
pub uninterp spec fn read_name(s: Seq<char>) -> Option<NameV>;
#[verifier::external_body]
pub fn parse_wheel_name(s: &str) -> (r: Result<WheelName, Report>) ensures r matches Ok(n) ==> read_name(s@) == Some(n.parts()) { unimplemented!() }
pub struct Tags { pub g: Ghost<NameV> }
#[verifier::external_body] pub struct WheelPlatform { x: u8 }
impl WheelPlatform {
    // how well a wheel of that name suits (contracts/R06.vrs)
    pub uninterp spec fn score(&self, n: NameV) -> Option<i32>;
    #[verifier::external_body] pub fn max_compatibility(&self, t: Tags) -> (r: Option<i32>) ensures r == self.score(t.g@) { unimplemented!() }
    pub uninterp spec fn first(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn first_tag(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.first() == Some(t@), None => self.first() is None } { unimplemented!() }
}
@type src/vocab/core_metadata.rs | type:WheelCoreMetadata
@sub `Vec<PackageRequirement>` => `UserRequirement`
@sub `HashSet<Extra>` => `Extra`
@end
pub uninterp spec fn read_metadata(b: Seq<u8>) -> Option<WheelCoreMetadata>;
#[verifier::external_body]
pub fn parse_metadata(b: &Vec<u8>) -> (r: Result<WheelCoreMetadata, Report>) ensures r matches Ok(m) ==> read_metadata(b@) == Some(m) { unimplemented!() }
// a wheel file opened under a name
pub struct Wheel { pub n: WheelName, pub p: Ghost<P> }
// the metadata member of a wheel file (contracts/D01m.vrs)
pub uninterp spec fn member(p: P, b: Seq<u8>) -> bool;
impl Wheel {
    pub fn name(&self) -> (r: &WheelName) ensures *r == self.n { &self.n }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<(Vec<u8>, WheelCoreMetadata), Report>) ensures r matches Ok(x) ==> member(self.p@, x.0@) && read_metadata(x.0@) == Some(x.1) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(name: WheelName, f: Box<File>) -> (r: Result<Wheel, Report>) ensures r matches Ok(w) ==> w.n == name && w.p@ == f.g@ { unimplemented!() }
}
pub struct Sdist { pub g: Ghost<ArtifactInfo> }
pub struct WriteTreeFS { pub g: Ghost<P> }
impl WriteTreeFS { #[verifier::external_body] pub fn new<A: AsPath>(p: A) -> (r: WriteTreeFS) ensures r.g@ == p.p() { unimplemented!() } }
pub uninterp spec fn unpacked(h: ArtifactHash, p: P) -> bool;
impl Sdist {
    // contracts/A03.vrs
    #[verifier::external_body]
    pub fn unpack(&self, t: &mut WriteTreeFS) -> (r: Result<(), Report>) ensures r is Ok ==> (self.g@.hash matches Some(h) ==> unpacked(h, old(t).g@)) { unimplemented!() }
}

// ---- the directories: one for the wheels of a source archive, one where it is built
pub uninterp spec fn cache_dir(h: ArtifactHash) -> P;
pub uninterp spec fn build_dir(h: ArtifactHash) -> P;
pub uninterp spec fn frontend() -> Seq<u8>;
#[verifier::external_body] pub fn frontend_bytes() -> (r: &'static [u8]) ensures r@ == frontend() { unimplemented!() }
pub open spec fn build_ready(h: ArtifactHash, p: P) -> bool { unpacked(h, sub(p, "sdist"@)) && written(sub(p, "build-frontend.py"@), frontend()) }
pub struct KVDirStore { pub builds: Ghost<bool> }
impl KVDirStore {
    #[verifier::external_body]
    pub fn lock(&self, k: &ArtifactHash) -> (r: Result<KVDirLock, Report>) ensures r matches Ok(l) ==> l.p() == (if self.builds@ { build_dir(*k) } else { cache_dir(*k) }) { unimplemented!() }
}
pub struct KVDirLock { pub g: Ghost<P> }
impl AsPath for KVDirLock { open spec fn p(&self) -> P { self.g@ } }
pub struct TempDir { pub g: Ghost<P> }
impl TempDir {
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.p() == self.g@, scratch(r.p()) { unimplemented!() }
    #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r.p() == self.g@ { unimplemented!() }
}
impl KVDirLock {
    #[verifier::external_body] pub fn join<B: Below>(&self, b: B) -> (r: PathBuf) ensures r.p() == sub(self.p(), b.name()) { unimplemented!() }
    #[verifier::external_body] pub fn tempdir(&self) -> (r: Result<TempDir, Report>) ensures r matches Ok(t) ==> scratch(t.g@) { unimplemented!() }
    // a build directory appears only by `rename`
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r ==> forall|h: ArtifactHash| self.p() == build_dir(h) ==> #[trigger] build_ready(h, self.p()) { unimplemented!() }
}
pub struct PackageDB<'a> { pub wheel_cache: KVDirStore, pub build_store: &'a KVDirStore, pub build_forest: &'a EnvForest }
impl<'a> PackageDB<'a> {
    pub open spec fn wf(&self) -> bool { !self.wheel_cache.builds@ && self.build_store.builds@ }
    // contracts/D01.vrs
    #[verifier::external_body]
    pub fn get_sdist(&self, ai: &ArtifactInfo) -> (r: Result<Sdist, Report>) ensures r matches Ok(s) ==> s.g@ == *ai { unimplemented!() }
}

// ---- resolving and installing what the build needs (contracts/T01.vrs, V01.vrs)
#[verifier::external_body] pub struct PybiPlatform { x: u8 }
impl PybiPlatform {
    #[verifier::external_body] pub fn is_native(&self) -> (r: Result<bool, Report>) ensures r matches Ok(b) ==> b == native(*self) { unimplemented!() }
    #[verifier::external_body] pub fn native_platforms<'a>() -> (r: Result<Vec<&'a PybiPlatform>, Report>) ensures r matches Ok(v) ==> plain(v@) == own_platforms() && forall|i: int| 0 <= i < v@.len() ==> native(*(#[trigger] v@[i])) { unimplemented!() }
}
// contracts/B02N.vrs: what this machine runs, the preferred first
pub uninterp spec fn native(p: PybiPlatform) -> bool;
pub uninterp spec fn own_platforms() -> Seq<PybiPlatform>;
pub open spec fn plain<'a>(v: Seq<&'a PybiPlatform>) -> Seq<PybiPlatform> { v.map_values(|p: &'a PybiPlatform| *p) }
// those of them that run here, in order
pub open spec fn runnable(v: Seq<PybiPlatform>) -> Seq<PybiPlatform> decreases v.len() {
    if v.len() == 0 { seq![] } else if native(v.last()) { runnable(v.drop_last()).push(v.last()) } else { runnable(v.drop_last()) }
}
pub open spec fn built_on(v: Seq<PybiPlatform>) -> Seq<PybiPlatform> { if runnable(v).len() > 0 { runnable(v) } else { own_platforms() } }
#[verifier::external_body]
pub fn extend<'a>(v: &mut Vec<&'a PybiPlatform>, w: Vec<&'a PybiPlatform>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
#[verifier::external_body]
pub fn to_vec<'a>(v: &'a [&'a PackageName]) -> (r: Vec<&'a PackageName>) ensures r@ == v@ { v.into() }
#[derive(Clone)]
pub enum AllowPre { Some(Names), All }
#[verifier::external_body] pub struct Names { x: u8 }
impl Clone for Names { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Names {
    pub uninterp spec fn v(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn one(n: PackageName) -> (r: Names) ensures r.v() == set![n.key()] { unimplemented!() }
    #[verifier::external_body] pub fn none() -> (r: Names) ensures r.v() == Set::<Seq<char>>::empty() { unimplemented!() }
}
pub fn no_pre() -> (r: AllowPre) ensures r == AllowPre::Some(r->Some_0), r->Some_0.v() == Set::<Seq<char>>::empty() { AllowPre::Some(Names::none()) }
pub fn same_pre(a: &AllowPre) -> (r: AllowPre) ensures r == *a { match a { AllowPre::Some(n) => AllowPre::Some(n.clone()), AllowPre::All => AllowPre::All } }
#[verifier::external_body] pub struct Blueprint { x: u8 }
pub struct Brief { pub python: PythonRequirement, pub requirements: Vec<UserRequirement>, pub allow_pre: AllowPre }
#[verifier::external_body] pub fn reqs_copy(v: &[UserRequirement]) -> (r: Vec<UserRequirement>) ensures r@ == v@ { unimplemented!() }
// the parts of a brief
pub struct Ask { pub name: Seq<char>, pub specs: Seq<(CompareOp, Seq<char>)>, pub reqs: Seq<UserRequirement>, pub pre: Option<Set<Seq<char>>> }
pub open spec fn spec_seq(s: Seq<Specifier>) -> Seq<(CompareOp, Seq<char>)> { s.map_values(|x: Specifier| (x.op, x.value@)) }
pub open spec fn pre_of(a: AllowPre) -> Option<Set<Seq<char>>> { match a { AllowPre::Some(n) => Some(n.v()), AllowPre::All => None } }
impl Brief { pub open spec fn ask(&self) -> Ask { Ask { name: self.python.0.name.key(), specs: spec_seq(self.python.0.specifiers.0@), reqs: self.requirements@, pre: pre_of(self.allow_pre) } } }
// b resolves the brief for these platforms, near a blueprint made before; no interpreter does
pub uninterp spec fn resolves(db: PackageDB, a: Ask, ps: Seq<&PybiPlatform>, like: Option<Blueprint>, b: Blueprint) -> bool;
pub uninterp spec fn no_python(db: PackageDB, a: Ask, ps: Seq<&PybiPlatform>) -> bool;
pub open spec fn given(b: Option<&Blueprint>) -> Option<Blueprint> { match b { Some(x) => Some(*x), None => None } }
pub enum PosyError { NoPybiFound, Other }
pub uninterp spec fn is_no_pybi(e: Report) -> bool;
#[verifier::external_body]
pub fn is_posy_error(e: &Report) -> (r: Option<&PosyError>) ensures r matches Some(PosyError::NoPybiFound) ==> is_no_pybi(*e) { unimplemented!() }
impl Brief {
    #[verifier::external_body]
    pub fn resolve(&self, db: &PackageDB, ps: &Vec<&PybiPlatform>, like: Option<&Blueprint>, stack: &[&PackageName]) -> (r: Result<Blueprint, Report>)
        ensures
            r matches Ok(b) ==> resolves(*db, self.ask(), ps@, given(like), b),
            r matches Err(e) ==> is_no_pybi(e) ==> no_python(*db, self.ask(), ps@),
    { unimplemented!() }
}
pub struct EnvForest { x: u8 }
pub struct Env { pub wheel_platform: WheelPlatform, pub rest: u8 }
pub uninterp spec fn env_of(db: PackageDB, b: Blueprint, ps: Seq<&PybiPlatform>, e: Env) -> bool;
impl EnvForest {
    #[verifier::external_body]
    pub fn get_env(&self, db: &PackageDB, b: &Blueprint, ps: &Vec<&PybiPlatform>, stack: &[&PackageName]) -> (r: Result<Env, Report>) ensures r matches Ok(e) ==> env_of(*db, *b, ps@, e) { unimplemented!() }
}
#[verifier::external_body] pub struct Vars { x: u8 }
impl Env { pub uninterp spec fn vars(&self) -> Vars; #[verifier::external_body] pub fn env_vars(&self) -> (r: Result<Vars, Report>) ensures r matches Ok(v) ==> v == self.vars() { unimplemented!() } }

#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/package_db/build_wheel.rs | type:Pep517Goal ;
@type src/package_db/build_wheel.rs | type:Pep517Succeeded ;
@type src/package_db/build_wheel.rs | type:WheelBuilder ;
@type src/package_db/build_wheel.rs | type:PyprojectBuildSystemStanza ;

// ---- property text
// the last piece of a tag
pub open spec fn no_dash(s: Seq<char>) -> bool { !s.contains('-') }
pub open spec fn arch_in(tag: Seq<char>, a: Seq<char>) -> bool { exists|x: Seq<char>| tag == #[trigger] (x + seq!['-']) + a && no_dash(a) }
// a wheel for any architecture stays that; any other is for the architecture it was built on
pub open spec fn retag(n: NameV, a: Seq<char>) -> NameV { if forall|i: int| 0 <= i < n.arch.len() ==> #[trigger] n.arch[i] == "any"@ { n } else { NameV { arch: seq![a], ..n } } }
// what the backend says it made of the source archive h: the name, the best tag of the environment it was made in
pub open spec fn product(h: ArtifactHash, name: Seq<char>, tag: Seq<char>, p: P) -> bool {
    &&& says(sub(build_dir(h), "build_wheel.out"@), name)
    &&& says(sub(build_dir(h), "build_wheel.binary_wheel_tag"@), tag)
    &&& p == sub(sub(build_dir(h), "build_wheel"@), name)
}
// the file at p is, complete, such a wheel, and n is its name
pub open spec fn finished(h: ArtifactHash, n: Seq<char>, p: P) -> bool {
    exists|name: Seq<char>, tag: Seq<char>, a: Seq<char>, q: P| #[trigger] product(h, name, tag, q) && came(p, q) && #[trigger] arch_in(tag, a)
        && (read_name(name) matches Some(v) && n == write_name(retag(v, a)))
}
// what the wheel is called when it is opened is what it says it is
pub open spec fn fresh(h: ArtifactHash, w: Wheel) -> bool {
    exists|name: Seq<char>, tag: Seq<char>, a: Seq<char>| #[trigger] product(h, name, tag, sub(sub(build_dir(h), "build_wheel"@), name)) && came(w.p@, sub(sub(build_dir(h), "build_wheel"@), name)) && #[trigger] arch_in(tag, a)
        && (read_name(name) matches Some(v) && w.n.parts() == retag(v, a)) && w.p@ == sub(cache_dir(h), write_name(w.n.parts()))
}
// made in an earlier run: a file of that name in the directory of the source archive (only finished ones have one)
pub open spec fn kept(h: ArtifactHash, w: Wheel) -> bool { exists|n: Seq<char>| w.p@ == #[trigger] sub(cache_dir(h), n) && whl(n) && listed(cache_dir(h), n) && read_name(n) == Some(w.n.parts()) }
pub open spec fn whl(n: Seq<char>) -> bool { n.len() >= 4 && n.skip(n.len() - 4) == ".whl"@ }
#[verifier::external_body] pub fn ends_with(a: &str, b: &str) -> (r: bool) ensures r == (a@.len() >= b@.len() && a@.skip(a@.len() - b@.len()) == b@) { unimplemented!() }
pub open spec fn of_release(ai: ArtifactInfo, d: PackageName, v: Version) -> bool { d.key() == ai.name.d.key() && v.key() == ai.name.v.key() }
// no wheel at hand suits
pub open spec fn nothing_at_hand(h: ArtifactHash, wp: WheelPlatform) -> bool { forall|n: Seq<char>| #[trigger] listed(cache_dir(h), n) && whl(n) ==> (read_name(n) matches Some(v) && wp.score(v) is None) }
pub open spec fn best_at_hand(h: ArtifactHash, wp: WheelPlatform, w: Wheel) -> bool {
    wp.score(w.n.parts()) matches Some(s) && forall|n: Seq<char>| #[trigger] listed(cache_dir(h), n) && whl(n) ==> (read_name(n) matches Some(v) && (wp.score(v) matches Some(t) ==> t <= s))
}
// the interpreters that may be used to build, in this order
pub open spec fn minor(v: pep440::Version, r: Vec<u32>, l: Vec<pep440::LocalVersion>) -> bool { r@ == v.release@.take(if v.release@.len() < 2 { v.release@.len() as int } else { 2 }) && l@.len() == 0 }
pub open spec fn wanted(v: Version, i: int, s: Seq<(CompareOp, Seq<char>)>) -> bool {
    if i == 0 { s == seq![(CompareOp::Equal, v.text())] }
    else if i == 1 { exists|r: Vec<u32>, l: Vec<pep440::LocalVersion>| #[trigger] minor(v.0, r, l) && s == seq![(CompareOp::Equal, ver_text(pep440::Version { epoch: v.0.epoch, release: r, pre: None, post: None, dev: None, local: l }) + ".*"@)] }
    else { s == Seq::<(CompareOp, Seq<char>)>::empty() }
}
}
verus! {
// ---- running the build
// format!("{:?}", goal)
pub open spec fn goal_text(g: Pep517Goal) -> Seq<char> { match g { Pep517Goal::WheelMetadata => "WheelMetadata"@, Pep517Goal::Wheel => "Wheel"@ } }
#[verifier::external_body] pub fn goal_debug(g: Pep517Goal) -> (r: String) ensures r@ == goal_text(g) { unimplemented!() }
pub uninterp spec fn path_text(p: P) -> Seq<char>;
pub struct Arg { pub t: Ghost<Seq<char>> }
impl PathBuf { #[verifier::external_body] pub fn as_os_str(&self) -> (r: Arg) ensures r.t@ == path_text(self.p()) { unimplemented!() } }
impl KVDirLock { #[verifier::external_body] pub fn as_os_str(&self) -> (r: Arg) ensures r.t@ == path_text(self.p()) { unimplemented!() } }
#[verifier::external_body] pub fn text_arg(s: String) -> (r: Arg) ensures r.t@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn str_arg(s: &str) -> (r: Arg) ensures r.t@ == s@ { unimplemented!() }
pub open spec fn arg_texts(v: Seq<Arg>) -> Seq<Seq<char>> { v.map_values(|a: Arg| a.t@) }
// the environment's python ran to its end, with success, on these arguments in this directory
pub uninterp spec fn ran(args: Seq<Seq<char>>, dir: P, vars: Vars) -> bool;
pub struct Child { pub a: Ghost<Seq<Seq<char>>>, pub d: Ghost<P>, pub v: Ghost<Vars> }
pub struct Status { pub ok: bool }
impl Status { pub fn success(&self) -> (r: bool) ensures r == self.ok { self.ok } }
#[verifier::external_body]
pub fn spawn_python<A: AsPath>(args: Vec<Arg>, dir: A, vars: Vars) -> (r: Result<Child, Report>) ensures r matches Ok(c) ==> c.a@ == arg_texts(args@) && c.d@ == dir.p() && c.v@ == vars { unimplemented!() }
impl Child { #[verifier::external_body] pub fn wait(&mut self) -> (r: Result<Status, Report>) ensures *final(self) == *old(self), r matches Ok(s) ==> s.ok ==> ran(old(self).a@, old(self).d@, old(self).v@) { unimplemented!() } }
// pyproject.toml, and what is written for the frontend to read
pub open spec fn no_stanza() -> (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>) { (seq!["setuptools"@, "wheel"@], "setuptools.build_meta:__legacy__"@, seq![]) }
impl PyprojectBuildSystemStanza {
    pub open spec fn v(&self) -> (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>) { (texts(self.requires@), self.build_backend@, texts(self.backend_path@)) }
    #[verifier::external_body] pub fn parse_from(s: &str) -> (r: Result<PyprojectBuildSystemStanza, Report>) ensures r matches Ok(x) ==> toml_says(s@, x.v()) { unimplemented!() }
@fn src/package_db/build_wheel.rs | Default for PyprojectBuildSystemStanza/fn:default
@sub? `"setuptools".into()` => `to_text("setuptools")`
@sub? `"wheel".into()` => `to_text("wheel")`
@sub? `"setuptools.build_meta:__legacy__".into()` => `to_text("setuptools.build_meta:__legacy__")`
@params
@sig pub fn default() -> (r: Self)
    ensures r.v() == no_stanza()
@at start
proof { assert(texts(seq![]) =~= Seq::<Seq<char>>::empty()); }
@endfn
}
// the [build-system] table
pub uninterp spec fn toml_says(s: Seq<char>, v: (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>)) -> bool;
pub uninterp spec fn stanza_at(p: P, v: (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>)) -> bool;
pub uninterp spec fn blueprint_at(p: P, b: Blueprint) -> bool;
pub uninterp spec fn list_at(p: P, v: Seq<Seq<char>>) -> bool;
#[verifier::external_body] pub fn write_stanza<A: AsPath>(p: A, s: &PyprojectBuildSystemStanza) -> (r: Result<(), Report>) ensures r is Ok ==> stanza_at(p.p(), s.v()) { unimplemented!() }
#[verifier::external_body] pub fn write_blueprint<A: AsPath>(p: A, s: &Blueprint) -> (r: Result<(), Report>) ensures r is Ok ==> blueprint_at(p.p(), *s) { unimplemented!() }
#[verifier::external_body] pub fn read_blueprint<A: AsPath>(p: A) -> (r: Option<Blueprint>) ensures r matches Some(b) ==> blueprint_at(p.p(), b) { unimplemented!() }
#[verifier::external_body] pub fn open_io<A: AsPath>(p: A) -> (r: Result<File, IoError>) ensures r matches Ok(f) ==> f.g@ == p.p(), r matches Err(e) ==> e.gone() ==> missing(p.p()) { unimplemented!() }
#[verifier::external_body] pub fn read_list(f: File) -> (r: Result<Vec<String>, Report>) ensures r matches Ok(v) ==> list_at(f.g@, texts(v@)) { unimplemented!() }
#[verifier::external_body] pub fn extend_texts(v: &mut Vec<String>, w: Vec<String>) ensures texts(final(v)@) == texts(old(v)@) + texts(w@) { unimplemented!() }
pub uninterp spec fn read_req(s: Seq<char>) -> Option<UserRequirement>;
pub open spec fn read_reqs(s: Seq<Seq<char>>, v: Seq<UserRequirement>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> read_req(#[trigger] s[i]) == Some(v[i]) }
#[verifier::external_body] pub fn parse_reqs(v: Vec<String>) -> (r: Result<Vec<UserRequirement>, Report>) ensures r matches Ok(x) ==> read_reqs(texts(v@), x@) { unimplemented!() }
#[verifier::external_body]
pub fn read_dir_all<A: AsPath>(p: A) -> (r: Result<Vec<DirEntry>, Report>) ensures r matches Ok(v) ==> (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).d@ == p.p() && listed(p.p(), v@[i].n@)) && (forall|n: Seq<char>| #[trigger] listed(p.p(), n) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).n@ == n) { unimplemented!() }
// property text: one step of a build in the directory d
pub open spec fn sole(p: P, n: Seq<char>) -> bool { forall|m: Seq<char>| #[trigger] listed(p, m) <==> m == n }
pub open spec fn its_system(root: P, v: (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>)) -> bool {
    (exists|t: Seq<char>| #[trigger] says(sub(root, "pyproject.toml"@), t) && toml_says(t, v)) || (missing(sub(root, "pyproject.toml"@)) && v == no_stanza())
}
pub open spec fn more_needs(d: P, v: Seq<Seq<char>>) -> bool { list_at(sub(d, "get_requires_for_build_wheel"@), v) || (missing(sub(d, "get_requires_for_build_wheel"@)) && v == Seq::<Seq<char>>::empty()) }
pub open spec fn told(d: P, g: Pep517Goal, tag: Seq<char>) -> Seq<Seq<char>> { seq![path_text(sub(d, "build-frontend.py"@)), path_text(d), goal_text(g), tag] }

pub fn all_of<F: Fn(&String) -> bool>(v: &Vec<String>, f: F) -> (r: bool)
    requires forall|t: &String| f.requires((t,)), forall|t: &String, b: bool| #[trigger] f.ensures((t,), b) ==> b == (t@ == "any"@)
    ensures r == forall|i: int| 0 <= i < v@.len() ==> #[trigger] texts(v@)[i] == "any"@
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|t: &String| f.requires((t,)), forall|t: &String, b: bool| #[trigger] f.ensures((t,), b) ==> b == (t@ == "any"@), forall|j: int| 0 <= j < i ==> #[trigger] texts(v@)[j] == "any"@,
        decreases v@.len() - i
    {
        if !f(&v[i]) { proof { assert(texts(v@)[i as int] != "any"@); } return false; }
        i = i + 1;
    }
    true
}
// str::rsplit_once('-').unwrap()
#[verifier::external_body]
pub fn rsplit_dash<'a>(s: &'a String) -> (r: (&'a str, &'a str)) ensures s@ == (r.0@ + seq!['-']) + r.1@, no_dash(r.1@) { unimplemented!() }
#[verifier::external_body]
pub fn clone_stack<'a>(v: &Vec<&'a PackageName>) -> (r: Vec<&'a PackageName>) ensures r@ == v@ { v.clone() }

@fn src/package_db/build_wheel.rs | fn:check_built_from
@params sdist_ai name version
@sig pub fn check_built_from(sdist_ai: &ArtifactInfo, name: &PackageName, version: &Version) -> (r: Result<(), Report>)
    ensures r is Ok <==> of_release(*sdist_ai, *name, *version)
@endfn
}
