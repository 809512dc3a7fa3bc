@include contracts/common.vrs
@include contracts/store.vrs
verus! {
// ---- opening a store
#[verifier::external_body]
pub fn current_dir() -> (r: Result<PathBuf, IoError>) { unimplemented!() }
#[verifier::external_body]
pub fn joined(a: PathBuf, b: &Path) -> (r: PathBuf) { unimplemented!() }
impl KVFileStore {
@fn src/kvstore.rs | KVFileStore/fn:new
@sub? `std::env::current_dir()?.join(base)` => `joined(current_dir()?, base)`
@sub? `fs::create_dir_all($d)` => `fs::create_dir_all($d, w)`
@params base0
@sig pub fn new(base0: &Path, w: &mut World) -> (r: Result<KVFileStore, Report>)
    ensures final(w).files == old(w).files, final(w).trees == old(w).trees,
        // temporary files are made on the same filesystem, in a directory no key names
        r is Ok ==> r->Ok_0.tmp.c() == r->Ok_0.base.c() + seq!["tmp"@],
@at start
proof { lemma_tmp(); }
@endfn
}
// ---- stores of directories
// what f may leave in a directory when it returns Ok
pub uninterp spec fn complete<F>(f: F, t: Tree) -> bool;
// the producer writes in the directory it is given and nowhere else
#[verifier::external_body]
pub fn run_in<F: FnOnce(&Path) -> Result<(), Report>>(f: F, dir: &Path, w: &mut World) -> (r: Result<(), Report>)
    requires f.requires((dir,)), old(w).trees.dom().contains(dir.c())
    ensures
        final(w).files == old(w).files,
        r is Ok ==> complete(f, final(w).trees[dir.c()]),
        final(w).trees == old(w).trees.insert(dir.c(), final(w).trees[dir.c()]),
{ unimplemented!() }
#[verifier::external_body]
pub struct TempDir { x: u8 }
impl TempDir {
    pub uninterp spec fn at(&self) -> Pth;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &PathBuf) ensures r.c() == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_path(self) -> (r: PathBuf) ensures r.c() == self.at() { unimplemented!() }
}
// a new directory of its own
#[verifier::external_body]
pub fn tempdir_in(d: &PathBuf, w: &mut World) -> (r: Result<TempDir, IoError>)
    ensures
        final(w).files == old(w).files,
        r is Err ==> final(w).trees == old(w).trees,
        r is Ok ==> !old(w).trees.dom().contains(r->Ok_0.at()) && (exists|n: Seq<char>| r->Ok_0.at() == d.c() + seq![n]) && (exists|t: Tree| final(w).trees == old(w).trees.insert(r->Ok_0.at(), t)),
{ unimplemented!() }
#[verifier::external_body]
pub fn exists_dir(p: &PathBuf, w: &mut World) -> (r: bool) ensures *final(w) == *old(w), r == old(w).trees.dom().contains(p.c()) { unimplemented!() }
@type src/kvstore.rs | type:KVDirStore ;
@type src/kvstore.rs | type:KVDirLock ;
impl KVDirLock {
@fn src/kvstore.rs | KVDirLock/fn:tempdir
@sub? `tempfile::tempdir_in($e)` => `tempdir_in($e, w)`
@params self
@sig pub fn tempdir(&self, w: &mut World) -> (r: Result<TempDir, Report>)
    ensures
        final(w).files == old(w).files,
        r is Err ==> final(w).trees == old(w).trees,
        r is Ok ==> !old(w).trees.dom().contains(r->Ok_0.at()) && (exists|n: Seq<char>| r->Ok_0.at() == self.tmp.c() + seq![n]) && (exists|t: Tree| final(w).trees == old(w).trees.insert(r->Ok_0.at(), t)),
@endfn
@fn src/kvstore.rs | Deref for KVDirLock/fn:deref
@sub? `self.path.deref()` => `&self.path`
@params self
@sig pub fn deref(&self) -> (r: &PathBuf) ensures *r == self.path
@endfn
}
impl KVDirStore {
@fn src/kvstore.rs | KVDirStore/fn:new
@sub? `std::env::current_dir()?.join(base)` => `joined(current_dir()?, base)`
@sub? `fs::create_dir_all($d)` => `fs::create_dir_all($d, w)`
@params base0
@sig pub fn new(base0: &Path, w: &mut World) -> (r: Result<KVDirStore, Report>)
    ensures final(w).files == old(w).files, final(w).trees == old(w).trees, r is Ok ==> r->Ok_0.ok(),
@at start
proof { lemma_tmp(); }
@endfn
    pub open spec fn ok(&self) -> bool { self.tmp.c() == self.base.c() + seq!["tmp"@] }
    pub open spec fn entry(&self, k: Pth) -> Pth { self.base.c() + k }
@fn src/kvstore.rs | KVDirStore/fn:lock
@sub? `= lock($p, $m)` => `= lock($p, $m, w)`
@params self key
@sig pub fn lock<K: PathKey>(&self, key: &K, w: &mut World) -> (r: Result<KVDirLock, Report>)
    requires key.key_ok(), key.k().len() > 0, plain(key.k().last())
    ensures
        same_but(old(w).files, final(w).files, lock_of(self.entry(key.k()))), final(w).trees == old(w).trees,
        r is Ok ==> r->Ok_0.path.c() == self.entry(key.k()) && r->Ok_0.tmp == self.tmp,
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVDirStore/fn:get_or_set
@sub? `self.lock($k)` => `self.lock($k, w)`
@sub? `lock.exists()` => `exists_dir(lock.deref(), w)`
@sub? `lock.tempdir()` => `lock.tempdir(w)`
@sub? `f($e)?` => `run_in(f, $e, w)?`
@sub? `fs::rename($a, &*lock)` => `fs::rename($a, lock.deref(), w)`
@params self key f
@sig pub fn get_or_set<K: PathKey, F>(&self, key: &K, f: F, w: &mut World) -> (r: Result<PathBuf, Report>)
    where F: FnOnce(&Path) -> Result<(), Report>
    requires
        self.ok(),
        key.key_ok(), key.k().len() > 2, plain(key.k().last()),
        // the producer may only be run when there is no entry yet, and not on the entry itself
        forall|m: &Path| !old(w).trees.dom().contains(self.entry(key.k())) && m.c() != self.entry(key.k()) ==> #[trigger] f.requires((m,)),
    ensures
        same_but(old(w).files, final(w).files, lock_of(self.entry(key.k()))),
        r is Ok ==> r->Ok_0.c() == self.entry(key.k()),
        // there already: unchanged
        old(w).trees.dom().contains(self.entry(key.k())) ==> final(w).trees == old(w).trees,
        // new: complete, or not there
        r is Err && !old(w).trees.dom().contains(self.entry(key.k())) ==> !final(w).trees.dom().contains(self.entry(key.k())),
        r is Ok && !old(w).trees.dom().contains(self.entry(key.k())) ==> final(w).trees.dom().contains(self.entry(key.k()))
            && complete(f, final(w).trees[self.entry(key.k())]),
        // other entries
        forall|x: Pth| x != self.entry(key.k()) && old(w).trees.dom().contains(x) ==> final(w).trees.dom().contains(x) && #[trigger] final(w).trees[x] == old(w).trees[x],
@at start
proof {
    let e = self.entry(key.k());
    assert forall|n: Seq<char>| #[trigger] (self.tmp.c() + seq![n]) != e by { assert((self.tmp.c() + seq![n]).len() != e.len()); }
}
@endfn
}
// ---- the key of a request
pub uninterp spec fn le8(n: int) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_le8()
    ensures forall|n: int| (#[trigger] le8(n)).len() == 8, forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 0x1_0000_0000_0000_0000 && #[trigger] le8(a) == #[trigger] le8(b) ==> a == b
{ unimplemented!() }
#[verifier::external_body]
pub fn le_bytes(n: usize) -> (r: Vec<u8>) ensures r@ == le8(n as int) { unimplemented!() }
pub fn extend(v: &mut Vec<u8>, mut x: Vec<u8>) ensures final(v)@ == old(v)@ + x@ { v.append(&mut x); }
pub mod http { use super::*;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Request<T> { x: T }
    impl<T> Request<T> {
        pub uninterp spec fn method_text(&self) -> Seq<u8>;
        pub uninterp spec fn uri_text(&self) -> Seq<u8>;
    }
}
#[verifier::external_body]
pub fn method_bytes<T>(r: &http::Request<T>) -> (x: Vec<u8>) ensures x@ == r.method_text() { unimplemented!() }
#[verifier::external_body]
pub fn uri_bytes<T>(r: &http::Request<T>) -> (x: Vec<u8>) ensures x@ == r.uri_text() { unimplemented!() }
pub open spec fn request_key(m: Seq<u8>, u: Seq<u8>) -> Seq<u8> { le8(m.len() as int) + m + le8(u.len() as int) + u }
@fn src/package_db/http/http.rs | fn:key_for_request
@sub? `= Default::default();` => `= Vec::new();`
@sub? `req.method().to_string().into_bytes()` => `method_bytes(req)`
@sub? `req.uri().to_string().into_bytes()` => `uri_bytes(req)`
@sub? `$x.len().to_le_bytes()` => `le_bytes($x.len())`
@sub? `key.extend($e)` => `extend(&mut key, $e)`
@params req
@sig pub fn key_for_request<T>(req: &http::Request<T>) -> (r: Vec<u8>)
    ensures r@ == request_key(req.method_text(), req.uri_text()),
@endfn
// equal keys, equal requests
pub proof fn lemma_request_key(m: Seq<u8>, u: Seq<u8>, m2: Seq<u8>, u2: Seq<u8>)
    requires m.len() <= usize::MAX, u.len() <= usize::MAX, m2.len() <= usize::MAX, u2.len() <= usize::MAX, request_key(m, u) == request_key(m2, u2)
    ensures m == m2, u == u2
{
    axiom_le8();
    let (a, b) = (request_key(m, u), request_key(m2, u2));
    assert(a.take(8) =~= le8(m.len() as int)); assert(b.take(8) =~= le8(m2.len() as int));
    let n = m.len() as int;
    assert(a.subrange(8, 8 + n) =~= m); assert(b.subrange(8, 8 + n) =~= m2);
    assert(a.skip(16 + n) =~= u); assert(b.skip(16 + n) =~= u2);
}
}
fn main() {}
