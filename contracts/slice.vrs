verus! {
// std::io::Seek / Read of a file, and SeekSlice over it; needs IoErr, ErrorKind, io_error_new
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

// std::io::Seek / std::io::Read of the underlying file, with the contract std documents:
// the stream is a byte sequence and a position; a failing operation leaves both unchanged.
pub trait Seek: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    // the underlying file accepts every absolute seek
    spec fn reliable(&self) -> bool;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoErr>)
        ensures
            final(self).data() == old(self).data(),
            final(self).reliable() == old(self).reliable(),
            old(self).reliable() && to is Start ==> r is Ok,
            r is Err ==> final(self).pos() == old(self).pos(),
            r is Ok ==> r->Ok_0 == seek_goal(to, old(self).data().len() as int, old(self).pos()) && final(self).pos() == r->Ok_0;
}
pub trait Read: Seek {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoErr>)
        ensures
            final(self).data() == old(self).data(),
            final(buf)@.len() == old(buf)@.len(),
            r is Err ==> final(self).pos() == old(self).pos(),
            r is Ok ==> ({
                let n = r->Ok_0 as int;
                &&& n <= old(buf)@.len()
                &&& final(self).pos() == old(self).pos() + n
                &&& n > 0 ==> old(self).pos() + n <= old(self).data().len()
                &&& n > 0 ==> final(buf)@.subrange(0, n) == old(self).data().subrange(old(self).pos(), old(self).pos() + n)
                &&& forall|k: int| n <= k < old(buf)@.len() ==> final(buf)@[k] == old(buf)@[k]
                // 0 bytes only at the end of the data or for an empty buffer
                &&& (n == 0 ==> old(buf)@.len() == 0 || old(self).pos() >= old(self).data().len())
            });
}

// `&mut buf[..n]` passed to the underlying read: the rest of `buf` is untouched
pub fn read_prefix<T: Read>(inner: &mut T, buf: &mut [u8], n: usize) -> (r: Result<usize, IoErr>)
    requires n <= old(buf)@.len(),
    ensures
        final(inner).data() == old(inner).data(),
        final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(inner).pos() == old(inner).pos(),
        r is Ok ==> ({
            let m = r->Ok_0 as int;
            &&& m <= n
            &&& final(inner).pos() == old(inner).pos() + m
            &&& m > 0 ==> old(inner).pos() + m <= old(inner).data().len()
            &&& m > 0 ==> final(buf)@.subrange(0, m) == old(inner).data().subrange(old(inner).pos(), old(inner).pos() + m)
            &&& forall|k: int| m <= k < old(buf)@.len() ==> final(buf)@[k] == old(buf)@[k]
            &&& (m == 0 ==> n == 0 || old(inner).pos() >= old(inner).data().len())
        }),
{
    let ghost b0 = old(buf)@;
    let (front, back) = buf.split_at_mut(n);
    let ghost back0 = back@;
    let r = inner.read(front);
    proof {
        assert(final(buf)@ == front@ + back@);
        if r is Ok {
            let m = r->Ok_0 as int;
            assert((front@ + back@).subrange(0, m) == front@.subrange(0, m));
        }
    }
    r
}

pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });

pub fn usize_of(x: u64) -> (r: usize)
    ensures r == (if x <= usize::MAX { x as usize } else { usize::MAX }),
{ if x <= usize::MAX as u64 { x as usize } else { usize::MAX } }

pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

@type src/seek_slice.rs | type:SeekSlice ;

// ---- property text: the window is the file data[start..end]; its own position is current - start
impl<T: Seek> SeekSlice<T> {
    pub closed spec fn wf(&self) -> bool {
        self.start <= self.current <= self.end && self.inner.pos() == self.current
            && self.end <= self.inner.data().len()
    }
    // contents and position of the separate file the window stands for
    pub closed spec fn contents(&self) -> Seq<u8> { self.inner.data().subrange(self.start as int, self.end as int) }
    pub closed spec fn at(&self) -> int { self.current - self.start }
    pub closed spec fn reliable(&self) -> bool { self.inner.reliable() }
    pub closed spec fn outer(&self) -> Seq<u8> { self.inner.data() }
    pub closed spec fn lo(&self) -> u64 { self.start }
    pub closed spec fn hi(&self) -> u64 { self.end }
}

// where a seek on a file of length len at position at goes, in mathematical integers
pub open spec fn seek_goal(to: SeekFrom, len: int, at: int) -> int {
    match to {
        SeekFrom::Start(n) => n as int,
        SeekFrom::End(n) => len + n,
        SeekFrom::Current(n) => at + n,
    }
}

impl<T: Seek> SeekSlice<T> {
@fn src/seek_slice.rs | SeekSlice/fn:new
@sig
pub fn new(inner: T, start: u64, end: u64) -> (r: Result<SeekSlice<T>, IoErr>)
    requires start <= end <= inner.data().len(),
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.at() == 0 && r->Ok_0.outer() == inner.data()
            && r->Ok_0.lo() == start && r->Ok_0.hi() == end,
@endfn

@fn src/seek_slice.rs | Seek for SeekSlice/fn:seek
@sub? `io::Error::new` => `io_error_new`
@sub? `io::ErrorKind` => `ErrorKind`
@sig
pub fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64, IoErr>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).outer() == old(self).outer() && final(self).lo() == old(self).lo() && final(self).hi() == old(self).hi(),
        // success: position is the goal, which lies in [0, len]
        r is Ok ==> r->Ok_0 == seek_goal(pos, old(self).contents().len() as int, old(self).at())
                 && final(self).at() == r->Ok_0
                 && 0 <= r->Ok_0 <= old(self).contents().len(),
        // failure leaves the position
        r is Err ==> final(self).at() == old(self).at(),
        // a goal inside the window (its end included, as for a file) is accepted
        old(self).reliable() && 0 <= seek_goal(pos, old(self).contents().len() as int, old(self).at()) <= old(self).contents().len()
            ==> r is Ok,
        // a goal outside the window is always refused (a file would refuse negative ones; a
        // window must refuse everything outside itself)
        !(0 <= seek_goal(pos, old(self).contents().len() as int, old(self).at()) <= old(self).contents().len()) ==> r is Err,
@endfn
}

@fn src/seek_slice.rs | fn:checked_add_signed
@sig
fn checked_add_signed(a: u64, b: i64) -> (r: Option<u64>)
    ensures
        0 <= a + b <= u64::MAX ==> r == Some((a + b) as u64),
        !(0 <= a + b <= u64::MAX) ==> r is None,
@endfn

impl<T: Read> SeekSlice<T> {
@fn src/seek_slice.rs | Read for SeekSlice/fn:read
@sub? `($e).try_into().unwrap_or(usize::MAX)` => `usize_of($e)`
@sub? `std::cmp::min` => `cmp_min`
@sub `self.inner.read(&mut buf[..$n])` => `read_prefix(&mut self.inner, buf, $n)`
@sig
pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoErr>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).outer() == old(self).outer() && final(self).lo() == old(self).lo() && final(self).hi() == old(self).hi(),
        final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(self).at() == old(self).at(),
        r is Ok ==> ({
            let n = r->Ok_0 as int;
            &&& n <= old(buf)@.len() && old(self).at() + n <= old(self).contents().len()
            &&& final(self).at() == old(self).at() + n
            &&& n > 0 ==> final(buf)@.subrange(0, n) == old(self).contents().subrange(old(self).at(), old(self).at() + n)
            &&& forall|k: int| n <= k < old(buf)@.len() ==> final(buf)@[k] == old(buf)@[k]
            // end of file is reported exactly at the end of the window
            &&& (n == 0 ==> old(buf)@.len() == 0 || old(self).at() == old(self).contents().len())
        }),
@at end
@endfn
}
}
