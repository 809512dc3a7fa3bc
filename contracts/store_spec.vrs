@include contracts/paths.vrs
verus! {
// ---- bytes written somewhere
pub trait Write: Sized {
    spec fn wf(&self) -> bool;
    // everything written so far
    spec fn out(&self) -> Seq<u8>;
    // what writing leaves alone
    spec fn fixed(&self) -> Fixed;
    // for a mutable borrow: what has been written through it when it ends
    #[verifier::prophetic] spec fn later(&self) -> (Seq<u8>, Pth);
    // std::io::Write: a prefix of buf is written; nothing when it fails
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        requires (*old(self)).wf()
        ensures
            (*final(self)).wf(), (*final(self)).fixed() == (*old(self)).fixed(), (*final(self)).later() == (*old(self)).later(),
            r is Ok ==> r->Ok_0 <= buf@.len() && (*final(self)).out() == (*old(self)).out() + buf@.take(r->Ok_0 as int),
            r is Err ==> (*final(self)).out() == (*old(self)).out();
    fn flush(&mut self) -> (r: Result<(), IoError>)
        requires (*old(self)).wf()
        ensures (*final(self)).wf(), (*final(self)).fixed() == (*old(self)).fixed(), (*final(self)).later() == (*old(self)).later(), (*final(self)).out() == (*old(self)).out();
}
impl<T: Write> Write for &mut T {
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn out(&self) -> Seq<u8> { (**self).out() }
    open spec fn fixed(&self) -> Fixed { (**self).fixed() }
    #[verifier::prophetic] open spec fn later(&self) -> (Seq<u8>, Pth) { ((*final(*self)).out(), (*final(*self)).fixed().at) }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { (**self).write(buf) }
    fn flush(&mut self) -> (r: Result<(), IoError>) { (**self).flush() }
}
pub ghost struct Fixed { pub base: Seq<u8>, pub alg: int, pub raw: Seq<u8>, pub at: Pth }
// ---- files
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn open(p: &PathBuf, w: &mut World) -> (r: Result<File, IoError>)
        ensures
            *final(w) == *old(w),
            r is Ok <==> old(w).files.dom().contains(p.c()),
            r is Ok ==> r->Ok_0.data() == old(w).files[p.c()] && r->Ok_0.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<(), IoError>) ensures final(self).data() == old(self).data(), r is Ok ==> final(self).pos() == 0 { unimplemented!() }
}
impl Write for File {
    // freshly made temporary file, positioned at its end
    open spec fn wf(&self) -> bool { self.pos() == self.data().len() }
    open spec fn out(&self) -> Seq<u8> { self.data() }
    open spec fn fixed(&self) -> Fixed { Fixed { base: seq![], alg: 0, raw: seq![], at: seq![] } }
    #[verifier::prophetic] open spec fn later(&self) -> (Seq<u8>, Pth) { (seq![], seq![]) }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub mod tempfile { use super::*;
    // a new anonymous file
    #[verifier::external_body]
    pub fn tempfile() -> (r: core::result::Result<File, IoError>) ensures r is Ok ==> r->Ok_0.data() == Seq::<u8>::empty() && r->Ok_0.pos() == 0 { unimplemented!() }
    // a new file with a name of its own in the given directory
    #[verifier::external_body]
    pub struct NamedTempFile { x: u8 }
    impl NamedTempFile {
        pub uninterp spec fn data(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new_in(dir: &PathBuf) -> (r: core::result::Result<NamedTempFile, IoError>) ensures r is Ok ==> r->Ok_0.data() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, IoError>)
            ensures r is Ok ==> r->Ok_0 <= buf@.len() && final(self).data() == old(self).data() + buf@.take(r->Ok_0 as int), r is Err ==> final(self).data() == old(self).data() { unimplemented!() }
        #[verifier::external_body]
        pub fn flush(&mut self) -> (r: core::result::Result<(), IoError>) ensures final(self).data() == old(self).data() { unimplemented!() }
        #[verifier::external_body]
        pub fn as_file(&self) -> (r: Handle) { unimplemented!() }
        // atomic rename over the target
        #[verifier::external_body]
        pub fn persist(self, p: &PathBuf, w: &mut World) -> (r: core::result::Result<File, IoError>)
            ensures
                r is Ok ==> final(w).files == old(w).files.insert(p.c(), self.data()) && r->Ok_0.data() == self.data() && final(w).trees == old(w).trees && final(w).dirs == old(w).dirs,
                r is Err ==> *final(w) == *old(w),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Handle { x: u8 }
    impl Handle {
        #[verifier::external_body]
        pub fn sync_data(&self) -> (r: core::result::Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_all(&self) -> (r: core::result::Result<(), IoError>) { unimplemented!() }
    }
}
// ---- the filesystem: regular files by path, directories that exist, contents of whole trees
pub ghost struct Tree { pub id: int }
pub mod std { pub use core::*; pub mod io { pub use super::super::IoKind as ErrorKind; }
pub mod fs { use super::super::*;
    pub type RResult<T> = core::result::Result<T, IoError>;
    // creates the directory and its parents, nothing else
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf, w: &mut World) -> (r: RResult<()>) ensures final(w).files == old(w).files, final(w).trees == old(w).trees { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: PathBuf, w: &mut World) -> (r: RResult<()>)
        ensures
            final(w).trees == old(w).trees && final(w).dirs == old(w).dirs,
            r is Ok ==> old(w).files.dom().contains(p.c()) && final(w).files == old(w).files.remove(p.c()),
            r matches Err(e) ==> final(w).files == old(w).files && (e.k == IoKind::NotFound ==> !old(w).files.dom().contains(p.c())),
    { unimplemented!() }
    // directories only
    #[verifier::external_body]
    pub fn rename(from: PathBuf, to: &PathBuf, w: &mut World) -> (r: RResult<()>)
        ensures
            final(w).files == old(w).files,
            r is Ok ==> old(w).trees.dom().contains(from.c()) && final(w).trees == old(w).trees.remove(from.c()).insert(to.c(), old(w).trees[from.c()]),
            r is Err ==> final(w).trees == old(w).trees,
    { unimplemented!() }
    pub struct OpenOptions { pub w: bool, pub c: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions) ensures !r.w && !r.c { OpenOptions { w: false, c: false } }
        pub fn write(&mut self, b: bool) ensures final(self).w == b, final(self).c == old(self).c { self.w = b; }
        pub fn create(&mut self, b: bool) ensures final(self).c == b, final(self).w == old(self).w { self.c = b; }
        // neither truncates nor writes; creates an empty file if told to
        #[verifier::external_body]
        pub fn open(&self, p: &PathBuf, w: &mut World) -> (r: RResult<File>)
            ensures
                final(w).trees == old(w).trees && final(w).dirs == old(w).dirs,
                !self.c || r is Err || old(w).files.dom().contains(p.c()) ==> final(w).files == old(w).files,
                self.c && r is Ok && !old(w).files.dom().contains(p.c()) ==> final(w).files == old(w).files.insert(p.c(), seq![]),
                !self.c && !old(w).files.dom().contains(p.c()) ==> r is Err,
        { unimplemented!() }
    }
} }
use crate::std::fs;
pub struct World { pub files: Map<Pth, Seq<u8>>, pub dirs: Set<Pth>, pub trees: Map<Pth, Tree> }
}
