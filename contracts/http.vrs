@include contracts/common.vrs
@include contracts/store.vrs
verus! {
pub type IoErr = IoError;
pub enum ErrorKind { InvalidInput }
#[verifier::external_body]
pub fn io_error_new(k: ErrorKind, msg: &str) -> (r: IoErr) { unimplemented!() }
}
@include contracts/slice.vrs
verus! {
impl Seek for File {
    open spec fn data(&self) -> Seq<u8> { File::data(self) }
    open spec fn pos(&self) -> int { File::pos(self) }
    open spec fn reliable(&self) -> bool { true }
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoErr>) { unimplemented!() }
}
// std: stream_position is seek(Current(0)), rewind is seek(Start(0))
pub fn stream_position<T: Seek>(f: &mut T) -> (r: Result<u64, IoErr>)
    ensures
        Seek::data(&*final(f)) == Seek::data(&*old(f)), Seek::pos(&*final(f)) == Seek::pos(&*old(f)),
        r is Ok ==> r->Ok_0 == Seek::pos(&*old(f)),
{ f.seek(SeekFrom::Current(0)) }
pub fn rewind_slice<T: Seek>(f: &mut SeekSlice<T>) -> (r: Result<(), IoErr>)
    requires old(f).wf()
    ensures final(f).wf(), final(f).outer() == old(f).outer(), final(f).lo() == old(f).lo(), final(f).hi() == old(f).hi(), r is Ok ==> final(f).at() == 0,
{ let x = f.seek(SeekFrom::Start(0))?; Ok(()) }
// a new temporary file written front to back: its position is its end
impl tempfile::NamedTempFile {
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoErr>)
        requires to == SeekFrom::Current(0)
        ensures final(self).data() == old(self).data(), r is Ok ==> r->Ok_0 == old(self).data().len(),
    { unimplemented!() }
}
impl<'a> LockedWrite<'a> {
@fn src/kvstore.rs | Seek for LockedWrite/fn:seek
@params self pos
@sig pub fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64, IoErr>)
    requires pos == SeekFrom::Current(0)
    ensures final(self).f.data() == old(self).f.data(), final(self).path == old(self).path, r is Ok ==> r->Ok_0 == old(self).f.data().len(),
@endfn
    // std: seek(Current(0))
    pub fn stream_position(&mut self) -> (r: Result<u64, IoErr>)
        ensures final(self).f.data() == old(self).f.data(), final(self).path == old(self).path, r is Ok ==> r->Ok_0 == old(self).f.data().len(),
    { self.seek(SeekFrom::Current(0)) }
}
// ---- what there is to read
pub trait Source: Sized { spec fn content(&self) -> Seq<u8>; }
pub mod io { use super::*;
    // std::io::copy: everything there is to read, through `write`
    #[verifier::external_body]
    pub fn copy<R: Source, W: Write>(r: &mut R, w: &mut W) -> (x: core::result::Result<u64, IoError>)
        requires (*old(w)).wf()
        ensures
            (*final(w)).wf(), (*final(w)).fixed() == (*old(w)).fixed(), (*final(w)).later() == (*old(w)).later(),
            x is Ok ==> (*final(w)).out() == (*old(w)).out() + (*old(r)).content(),
    { unimplemented!() }
}
pub struct Body { pub d: Ghost<Seq<u8>> }
impl Source for Body { open spec fn content(&self) -> Seq<u8> { self.d@ } }
// what SeekSlice's read returns from its position to its end (read's contract)
impl Source for SeekSlice<File> { open spec fn content(&self) -> Seq<u8> { self.contents().skip(self.at()) } }
impl Source for File { open spec fn content(&self) -> Seq<u8> { File::data(self).skip(File::pos(self)) } }
// a Box<dyn ReadPlusSeek>, a Box<dyn Read>
#[verifier::external_body] pub struct SeekStream { x: u8 }
#[verifier::external_body] pub struct Stream { x: u8 }
impl SeekStream { pub uninterp spec fn d(&self) -> Seq<u8>; }
impl Stream { pub uninterp spec fn d(&self) -> Seq<u8>; }
impl Source for SeekStream { open spec fn content(&self) -> Seq<u8> { self.d() } }
impl Source for Stream { open spec fn content(&self) -> Seq<u8> { self.d() } }
// the coercions
#[verifier::external_body] pub fn dyn_seek<T: Source>(x: T) -> (r: Box<SeekStream>) ensures r.d() == x.content() { unimplemented!() }
#[verifier::external_body] pub fn dyn_read<T: Source>(x: T) -> (r: Box<Stream>) ensures r.d() == x.content() { unimplemented!() }
impl<T: Source> Source for Box<T> { open spec fn content(&self) -> Seq<u8> { (**self).content() } }
@type src/package_db/http/http.rs | type:ReadPlusMaybeSeek
@sub `Box<dyn ReadPlusSeek>` => `Box<SeekStream>`
@sub `Box<dyn Read>` => `Box<Stream>`
@end
impl Source for ReadPlusMaybeSeek {
    open spec fn content(&self) -> Seq<u8> { match *self { ReadPlusMaybeSeek::CanSeek(f) => f.d(), ReadPlusMaybeSeek::CannotSeek(b) => b.d() } }
}
impl ReadPlusMaybeSeek {
@fn src/package_db/http/http.rs | ReadPlusMaybeSeek/fn:force_seek
@sub? `std::io::copy` => `io::copy`
@sub? `Box::new($x)` => `dyn_seek($x)`
@params self
@sig pub fn force_seek(self) -> (r: Result<Box<SeekStream>, Report>)
    ensures r is Ok ==> r->Ok_0.d() == self.content(),
@at start
proof { assert(Seq::<u8>::empty() + self.content() =~= self.content()); assert(self.content().skip(0) =~= self.content()); }
@endfn
}
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/package_db/http/http.rs | type:CacheMode ;
}
