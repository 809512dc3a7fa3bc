@include contracts/common.vrs
@include contracts/paths.vrs
verus! {
// Rely and guarantee.  Any other process may do to the store, at any moment, what this code may do to it:
// read or change an entry only while holding the exclusive lock on that entry's lock file, and put only
// complete values in place, in one step.  So what is seen of an entry under its lock stays so until the
// lock is dropped, and C02's sequential contracts hold of everything between taking and dropping it.
// Below: that the code keeps its half.  A lock is held as long as its File lives (flock(2)).
pub open spec fn lock_of(p: Pth) -> Pth { p.drop_last().push(p.last() + seq!['.', 'l', 'o', 'c', 'k']) }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    // where it was opened, and for what
    pub uninterp spec fn at(&self) -> Pth;
    pub uninterp spec fn writable(&self) -> bool;
    // an exclusive lock on it was granted
    pub uninterp spec fn locked(&self) -> bool;
    // the entry this lock is for was looked at under it and was not there
    pub uninterp spec fn absent(&self) -> bool;
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<(), IoError>) ensures final(self).at() == old(self).at() { unimplemented!() }
}
pub open spec fn guards(f: File, p: Pth) -> bool { f.locked() && f.at() == lock_of(p) }
// flock(2), again as long as it is interrupted (contracts/H02.vrs); opened for writing, as Windows wants it
#[verifier::external_body]
pub fn lock_exclusive(f: &File) -> (r: Result<(), IoError>) requires f.writable() ensures r is Ok ==> f.locked() { unimplemented!() }
#[verifier::external_body]
pub fn lock_shared(f: &File) -> (r: Result<(), IoError>) { unimplemented!() }
#[verifier::external_body]
pub fn append_lock(s: &mut OsStr, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
// a directory that nobody else knows, and whether a producer has filled it without error
pub uninterp spec fn private(p: Pth) -> bool;
pub struct World { pub done: Set<Pth> }
pub mod std { pub use core::*; pub mod io { pub use super::super::IoKind as ErrorKind; }
pub mod fs { use super::super::*;
    pub type RResult<T> = core::result::Result<T, IoError>;
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf) -> (r: RResult<()>) { unimplemented!() }
    pub struct OpenOptions { pub w: bool, pub c: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions) ensures !r.w && !r.c { OpenOptions { w: false, c: false } }
        pub fn write(&mut self, b: bool) ensures final(self).w == b, final(self).c == old(self).c { self.w = b; }
        pub fn create(&mut self, b: bool) ensures final(self).c == b, final(self).w == old(self).w { self.c = b; }
        #[verifier::external_body]
        pub fn open(&self, p: &PathBuf) -> (r: RResult<File>) ensures r is Ok ==> r->Ok_0.at() == p.c() && r->Ok_0.writable() == self.w { unimplemented!() }
    }
    // what happens to an entry: only under its lock
    #[verifier::external_body]
    pub fn open_entry(p: &PathBuf, lk: Ghost<File>) -> (r: RResult<File>) requires guards(lk@, p.c()) ensures r is Err ==> lk@.absent() { unimplemented!() }
    #[verifier::external_body]
    pub fn exists_entry(p: &PathBuf, lk: Ghost<File>) -> (r: bool) requires guards(lk@, p.c()) ensures !r ==> lk@.absent() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(p: PathBuf, lk: Ghost<File>) -> (r: RResult<()>) requires guards(lk@, p.c()) { unimplemented!() }
    // a directory is put in place once, whole, where there is none
    #[verifier::external_body]
    pub fn rename_entry(from: PathBuf, to: &PathBuf, w: &mut World, lk: Ghost<File>) -> (r: RResult<()>)
        requires guards(lk@, to.c()), lk@.absent(), private(from.c()), old(w).done.contains(from.c())
    { unimplemented!() }
} }
use crate::std::fs;
pub mod tempfile { use super::*;
    #[verifier::external_body]
    pub struct NamedTempFile { x: u8 }
    impl NamedTempFile {
        // a new file that nobody else knows, with a name of its own
        #[verifier::external_body]
        pub fn new_in(dir: &PathBuf) -> (r: core::result::Result<NamedTempFile, IoError>) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_file(&self) -> (r: Handle) { unimplemented!() }
        // replaces the target in one step
        #[verifier::external_body]
        pub fn persist_entry(self, p: &PathBuf, lk: Ghost<File>) -> (r: core::result::Result<File, IoError>) requires guards(lk@, p.c()) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Handle { x: u8 }
    impl Handle {
        #[verifier::external_body]
        pub fn sync_data(&self) -> (r: core::result::Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_all(&self) -> (r: core::result::Result<(), IoError>) { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct TempDir { x: u8 }
impl TempDir {
    pub uninterp spec fn at(&self) -> Pth;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &PathBuf) ensures r.c() == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_path(self) -> (r: PathBuf) ensures r.c() == self.at() { unimplemented!() }
}
#[verifier::external_body]
pub fn tempdir_in(d: &PathBuf) -> (r: Result<TempDir, IoError>) ensures r is Ok ==> private(r->Ok_0.at()) { unimplemented!() }
// ---- keys: where they lead is the business of C02
pub trait PathKey {
    spec fn k(&self) -> Pth;
    fn key(&self) -> (r: PathBuf) ensures r.c() == self.k(), r.relative(), self.k().len() > 0, plain(self.k().last());
}
impl<T: PathKey + ?Sized> PathKey for &T {
    open spec fn k(&self) -> Pth { (**self).k() }
    fn key(&self) -> (r: PathBuf) { (**self).key() }
}
// ---- taking a lock
@type src/kvstore.rs | type:LockMode ;
@fn src/kvstore.rs | fn:lock
@sub? `basename.push($e)` => `append_lock(&mut basename, $e)`
@sub? `retry_interrupted(|| $f.lock_exclusive())` => `lock_exclusive(&$f)`
@sub? `retry_interrupted(|| $f.lock_shared())` => `lock_shared(&$f)`
@sub? `.wrap_err_with($c)` => ``
@params path mode
@sig pub fn lock(path: &Path, mode: LockMode) -> (r: Result<File, Report>)
    requires path.c().len() > 0, plain(path.c().last())
    // whatever the mode
    ensures r is Ok ==> guards(r->Ok_0, path.c())
@at start
proof { reveal_strlit(".lock"); assert(".lock"@ =~= seq!['.', 'l', 'o', 'c', 'k']); }
@endfn
// ---- stores of files
@type src/kvstore.rs | type:KVFileStore ;
@type src/kvstore.rs | type:KVFileLock ;
pub struct LockedRead { pub f: File }
// the lock it borrows from, for as long as it lives
@type src/kvstore.rs | type:LockedWrite
@sub `_lifetime: PhantomData<&'a ()>,` => `pub lk: Ghost<File>,`
@end
impl<'a> LockedWrite<'a> {
    pub open spec fn wf(&self) -> bool { guards(self.lk@, self.path.c()) }
    // its producer has finished without error
    pub uninterp spec fn whole(&self) -> bool;
}
// runs the producer
#[verifier::external_body]
pub fn produce<'a, F: FnOnce(&mut LockedWrite<'a>) -> Result<(), Report>>(f: F, to: &mut LockedWrite<'a>) -> (r: Result<(), Report>)
    // one at a time, and only where there is nothing yet
    requires old(to).wf(), old(to).lk@.absent()
    ensures final(to).path == old(to).path, final(to).lk == old(to).lk, r is Ok ==> final(to).whole()
{ unimplemented!() }
impl KVFileLock {
    pub open spec fn wf(&self) -> bool { guards(self._lock, self.path.c()) }
@fn src/kvstore.rs | KVFileLock/fn:reader
@sub? `_lifetime: Default::default(),` => ``
@sub? `File::open($p)` => `fs::open_entry($p, Ghost(self._lock))`
@params self
@sig pub fn reader(&self) -> (r: Option<LockedRead>) requires self.wf() ensures r is None ==> self._lock.absent()
@endfn
@fn src/kvstore.rs | KVFileLock/fn:begin
@sub? `_lifetime: Default::default(),` => `lk: Ghost(self._lock),`
@params self
@sig pub fn begin(&self) -> (r: Result<LockedWrite<'_>, Report>) requires self.wf() ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.lk@ == self._lock
@endfn
@fn src/kvstore.rs | KVFileLock/fn:remove
@sub? `match fs::remove_file(self.path) { Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()), res => Ok(res?), }` => `match fs::remove_entry(self.path, Ghost(self._lock)) { Err(err) => if err.kind() == IoKind::NotFound { Ok(()) } else { let res: Result<(), IoError> = Err(err); Ok(res?) }, res => Ok(res?), }`
@sub? `fs::remove_file($p)` => `fs::remove_entry($p, Ghost(self._lock))`
@params self
@sig pub fn remove(self) -> (r: Result<(), Report>) requires self.wf()
@endfn
}
impl LockedRead {
@fn src/kvstore.rs | LockedRead/fn:detach_unlocked
@params self
@sig pub fn detach_unlocked(self) -> (r: File) ensures r == self.f
@endfn
}
impl<'a> LockedWrite<'a> {
@fn src/kvstore.rs | LockedWrite/fn:commit
@sub? `.persist($p)` => `.persist_entry($p, self.lk)`
@sub? `_lifetime: self._lifetime,` => ``
@params self
@sig pub fn commit(self) -> (r: Result<LockedRead, Report>) requires self.wf(), self.whole()
@endfn
}
impl KVFileStore {
    pub open spec fn entry(&self, k: Pth) -> Pth { self.base.c() + k }
@fn src/kvstore.rs | KVFileStore/fn:lock
@params self key
@sig pub fn lock<K: PathKey>(&self, key: &K) -> (r: Result<KVFileLock, Report>)
    requires key.k().len() > 0, plain(key.k().last())
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.path.c() == self.entry(key.k())
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVFileStore/fn:lock_if_exists
@params self key
@sig pub fn lock_if_exists<K: PathKey>(&self, key: &K) -> (r: Option<KVFileLock>)
    requires key.k().len() > 0, plain(key.k().last())
    ensures r is Some ==> r->Some_0.wf() && r->Some_0.path.c() == self.entry(key.k())
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVFileStore/fn:get
@params self key
@sig pub fn get<K: PathKey>(&self, key: &K) -> (r: Option<Box<File>>)
    requires key.k().len() > 0, plain(key.k().last())
@endfn
@fn src/kvstore.rs | KVFileStore/fn:get_or_set
@sub? `f(&mut writer)?` => `produce(f, &mut writer)?`
@params self key f
@sig pub fn get_or_set<K: PathKey, F>(&self, key: &K, f: F) -> (r: Result<Box<File>, Report>)
    where F: FnOnce(&mut LockedWrite<'_>) -> Result<(), Report>
    requires key.k().len() > 0, plain(key.k().last())
@endfn
}
// ---- stores of directories
@type src/kvstore.rs | type:KVDirStore ;
@type src/kvstore.rs | type:KVDirLock ;
// runs the producer in a directory of its own
#[verifier::external_body]
pub fn produce_in<F: FnOnce(&Path) -> Result<(), Report>>(f: F, dir: &Path, w: &mut World, lk: Ghost<File>) -> (r: Result<(), Report>)
    requires lk@.locked(), lk@.absent(), private(dir.c())
    ensures final(w).done == (if r is Ok { old(w).done.insert(dir.c()) } else { old(w).done })
{ unimplemented!() }
impl KVDirLock {
    pub open spec fn wf(&self) -> bool { guards(self._lock, self.path.c()) }
@fn src/kvstore.rs | KVDirLock/fn:tempdir
@sub? `tempfile::tempdir_in($e)` => `tempdir_in($e)`
@params self
@sig pub fn tempdir(&self) -> (r: Result<TempDir, Report>) ensures r is Ok ==> private(r->Ok_0.at())
@endfn
@fn src/kvstore.rs | Deref for KVDirLock/fn:deref
@sub? `self.path.deref()` => `&self.path`
@params self
@sig pub fn deref(&self) -> (r: &PathBuf) ensures *r == self.path
@endfn
@fn src/kvstore.rs | AsRef<Path> for KVDirLock/fn:as_ref
@params self
@sig pub fn as_ref(&self) -> (r: &PathBuf) ensures *r == self.path
@endfn
}
impl KVDirStore {
    pub open spec fn entry(&self, k: Pth) -> Pth { self.base.c() + k }
@fn src/kvstore.rs | KVDirStore/fn:lock
@params self key
@sig pub fn lock<K: PathKey>(&self, key: &K) -> (r: Result<KVDirLock, Report>)
    requires key.k().len() > 0, plain(key.k().last())
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.path.c() == self.entry(key.k())
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVDirStore/fn:get_or_set
@sub? `lock.exists()` => `fs::exists_entry(lock.deref(), Ghost(lock._lock))`
@sub? `f($e)?` => `produce_in(f, $e, w, Ghost(lock._lock))?`
@sub? `fs::rename($a, &*lock)` => `fs::rename_entry($a, lock.deref(), w, Ghost(lock._lock))`
@params self key f
@sig pub fn get_or_set<K: PathKey, F>(&self, key: &K, f: F, w: &mut World) -> (r: Result<PathBuf, Report>)
    where F: FnOnce(&Path) -> Result<(), Report>
    requires key.k().len() > 0, plain(key.k().last())
    ensures r is Ok ==> r->Ok_0.c() == self.entry(key.k())
@endfn
}
}
fn main() {}
