@include contracts/common.vrs
verus! {
global size_of usize == 8;
// ---- a map from offsets to chunks, with the queries BTreeMap answers
#[verifier::external_body]
pub struct Chunks { x: u8 }
pub open spec fn is_floor(m: Map<u64, Seq<u8>>, x: u64, k: u64) -> bool { m.dom().contains(k) && k <= x && forall|j: u64| #[trigger] m.dom().contains(j) && j <= x ==> j <= k }
pub open spec fn is_ceil(m: Map<u64, Seq<u8>>, x: u64, k: u64) -> bool { m.dom().contains(k) && k >= x && forall|j: u64| #[trigger] m.dom().contains(j) && j >= x ==> j >= k }
impl Chunks {
    pub uninterp spec fn m(&self) -> Map<u64, Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: Chunks) ensures r.m() == Map::<u64, Seq<u8>>::empty() { unimplemented!() }
    // range(..=x).next_back()
    #[verifier::external_body]
    pub fn last_upto(&self, x: u64) -> (r: Option<(&u64, &Vec<u8>)>)
        ensures
            r is None ==> forall|j: u64| #[trigger] self.m().dom().contains(j) ==> j > x,
            r is Some ==> is_floor(self.m(), x, *r->Some_0.0) && self.m()[*r->Some_0.0] == r->Some_0.1@,
    { unimplemented!() }
    // range(x..).next()
    #[verifier::external_body]
    pub fn first_from(&self, x: u64) -> (r: Option<(&u64, &Vec<u8>)>)
        ensures
            r is None ==> forall|j: u64| #[trigger] self.m().dom().contains(j) ==> j < x,
            r is Some ==> is_ceil(self.m(), x, *r->Some_0.0) && self.m()[*r->Some_0.0] == r->Some_0.1@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: Vec<u8>) -> (r: Option<Vec<u8>>) ensures final(self).m() == old(self).m().insert(k, v@) { unimplemented!() }
}
// ---- the server
#[verifier::external_body] pub struct HttpInner { x: u8 }
#[verifier::external_body] pub struct Url { x: u8 }
// the remote file
pub uninterp spec fn remote(h: HttpInner, u: Url) -> Seq<u8>;
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Rc<T> { pub v: T }
impl Rc<HttpInner> { pub fn inner(&self) -> (r: &HttpInner) ensures *r == self.v { &self.v } }
pub struct ByteRange { pub first: u64, pub last: u64 }
pub fn byte_range(a: u64, b: u64) -> (r: ByteRange) ensures r.first == a, r.last == b { ByteRange { first: a, last: b } }
pub struct Data { pub d: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn slurp(d: &mut Box<Data>) -> (r: Result<Vec<u8>, Report>) ensures r is Ok ==> r->Ok_0@ == old(d).d@ { unimplemented!() }
@type src/package_db/http/lazy_remote_file.rs | type:RangeResponse
@sub `Box<dyn Read>` => `Box<Data>`
@end
// a server that answers range requests faithfully
#[verifier::external_body]
pub fn fetch_range(http: &HttpInner, method: &str, url: &Url, range: &ByteRange) -> (r: Result<RangeResponse, Report>)
    requires method@ == "GET"@ ==> range.first <= range.last < remote(*http, *url).len()
    ensures r matches Ok(x) ==> match x {
        RangeResponse::NotSatisfiable { total_len } => total_len == remote(*http, *url).len(),
        RangeResponse::Partial { offset, total_len, data } => total_len == remote(*http, *url).len() && offset == range.first && range.first < total_len
            && data.d@ == remote(*http, *url).subrange(range.first as int, if range.last < total_len { range.last + 1 } else { total_len as int }),
        RangeResponse::Complete(_) => true,
    }
{ unimplemented!() }

// ---- property text
@type src/package_db/http/lazy_remote_file.rs | type:LazyRemoteFile
@sub `BTreeMap<u64, Vec<u8>>` => `Chunks`
@end
pub open spec fn end_of(m: Map<u64, Seq<u8>>, k: u64) -> int { k + m[k].len() }
// some chunk holds position p
pub open spec fn covered(m: Map<u64, Seq<u8>>, p: int) -> bool { exists|k: u64| #[trigger] m.dom().contains(k) && k <= p < end_of(m, k) }
impl LazyRemoteFile {
    pub open spec fn file(&self) -> Seq<u8> { remote(self.http.v, self.url) }
    // what is loaded is what the remote file has there, nothing twice
    pub open spec fn wf(&self) -> bool {
        let m = self.loaded.m();
        &&& self.length == self.file().len()
        &&& forall|k: u64| #[trigger] m.dom().contains(k) ==> m[k].len() > 0 && end_of(m, k) <= self.length && m[k] == self.file().subrange(k as int, end_of(m, k))
        &&& forall|j: u64, k: u64| #[trigger] m.dom().contains(j) && #[trigger] m.dom().contains(k) && j < k ==> end_of(m, j) <= k
    }
    pub open spec fn same_file(&self, o: &LazyRemoteFile) -> bool { self.http == o.http && self.url == o.url && self.length == o.length }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub mod io { pub struct Error { pub k: u8 } pub type Result<T> = core::result::Result<T, Error>; }
#[verifier::external_body]
pub fn io_error() -> (r: io::Error) { unimplemented!() }
pub open spec fn seek_target(pos: SeekFrom, cur: int, len: int) -> int {
    match pos { SeekFrom::Start(x) => x as int, SeekFrom::End(x) => len + x, SeekFrom::Current(x) => cur + x }
}
#[verifier::external_body]
pub fn wrapping_neg(x: i64) -> (r: i64) ensures x > i64::MIN ==> r == -x, x == i64::MIN ==> r == x { x.wrapping_neg() }
impl LazyRemoteFile {
@fn src/package_db/http/lazy_remote_file.rs | Seek for LazyRemoteFile/fn:seek
@sub? `io::Error::new($a, $b $C)` => `io_error()`
@sub? `offset.wrapping_neg()` => `wrapping_neg(offset)`
@params self pos
@sig pub fn seek(&mut self, pos: SeekFrom) -> (r: io::Result<u64>)
    ensures
        // anywhere from the start up, also past the end; otherwise an error and no move
        r is Ok <==> 0 <= seek_target(pos, old(self).seek_pos as int, old(self).length as int) <= u64::MAX,
        r is Ok ==> r->Ok_0 == seek_target(pos, old(self).seek_pos as int, old(self).length as int) && final(self).seek_pos == r->Ok_0,
        r is Err ==> final(self).seek_pos == old(self).seek_pos,
        final(self).same_file(old(self)), final(self).loaded == old(self).loaded,
@at start
proof { assert((i64::MIN as u64) == 0x8000_0000_0000_0000u64) by (bit_vector); }
@endfn
}

pub fn umin(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn zmin(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// Ord::clamp; panics unless a <= b
pub fn clamp(x: u64, a: u64, b: u64) -> (r: u64) requires a <= b ensures r == (if x < a { a } else if x > b { b } else { x }) { if x < a { a } else if x > b { b } else { x } }
pub fn usize_of(x: u64) -> (r: Result<usize, u8>) ensures r is Ok, r->Ok_0 == x { Ok(x as usize) }
#[verifier::external_body]
pub fn bytes_from(v: &Vec<u8>, a: usize) -> (r: &[u8]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { unimplemented!() }
// buf[..n].copy_from_slice(&src[..m]); panics unless n == m and both are long enough
#[verifier::external_body]
pub fn copy_prefix(buf: &mut [u8], n: usize, src: &[u8], m: usize)
    requires n == m, n <= old(buf)@.len(), m <= src@.len()
    ensures final(buf)@.len() == old(buf)@.len(), final(buf)@.take(n as int) == src@.take(m as int), forall|k: int| n <= k < final(buf)@.len() ==> final(buf)@[k] == old(buf)@[k]
{ unimplemented!() }
pub fn fix_err<T>(r: Result<T, Report>) -> (x: io::Result<T>) ensures r is Ok <==> x is Ok, r is Ok ==> x->Ok_0 == r->Ok_0 { match r { Ok(t) => Ok(t), Err(e) => Err(io_error()) } }

@fn src/package_db/http/lazy_remote_file.rs | Read for LazyRemoteFile/fn:read/fn:copy_loaded
@sub? `loaded.range(..=$x).next_back()` => `loaded.last_upto($x)`
@sub? `usize::try_from($e)` => `usize_of($e)`
@sub? `&loaded_data[$a..]` => `bytes_from(loaded_data, $a)`
@sub? `buf[..$n].copy_from_slice(&$s[..$m])` => `copy_prefix(buf, $n, $s, $m)`
@sub? `cmp::min` => `zmin`
@params offset loaded buf
@sig pub fn copy_loaded(offset: u64, loaded: &Chunks, buf: &mut [u8]) -> (r: Option<usize>)
    requires forall|k: u64| #[trigger] loaded.m().dom().contains(k) ==> loaded.m()[k].len() > 0 && end_of(loaded.m(), k) <= u64::MAX
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r is None ==> !covered_by_floor(loaded.m(), offset) && final(buf)@ == old(buf)@,
        // the bytes loaded there, as many as fit
        r matches Some(n) ==> exists|k: u64| #[trigger] is_floor(loaded.m(), offset, k) && offset + n <= end_of(loaded.m(), k)
            && (n > 0 || old(buf)@.len() == 0) && n <= old(buf)@.len()
            && final(buf)@.take(n as int) == loaded.m()[k].subrange(offset - k, offset - k + n)
            && forall|i: int| n <= i < final(buf)@.len() ==> final(buf)@[i] == old(buf)@[i],
@endfn
pub open spec fn covered_by_floor(m: Map<u64, Seq<u8>>, p: u64) -> bool { exists|k: u64| #[trigger] is_floor(m, p, k) && p < end_of(m, k) }

impl LazyRemoteFile {
@fn src/package_db/http/lazy_remote_file.rs | LazyRemoteFile/fn:load_range
@sub? `&format!("bytes={}-{}", $a, $b)` => `&byte_range($a, $b)`
@sub? `&self.http,` => `self.http.inner(),`
@params self offset length
@sig pub fn load_range(&mut self, offset: u64, length: u64) -> (r: Result<(), Report>)
    requires
        old(self).wf(),
        // only what is part of the file and not there yet is asked for
        length > 0, offset + length <= old(self).length, forall|p: int| offset <= p < offset + length ==> !covered(old(self).loaded.m(), p),
    ensures
        final(self).same_file(old(self)), final(self).seek_pos == old(self).seek_pos, final(self).wf(),
        r is Ok ==> final(self).loaded.m() == old(self).loaded.m().insert(offset, old(self).file().subrange(offset as int, offset + length)),
        // ... and a position in there is looked up in this chunk
        r is Ok ==> forall|p: u64| offset <= p < offset + length ==> is_floor(final(self).loaded.m(), p, offset) && #[trigger] covered_by_floor(final(self).loaded.m(), p),
        r is Err ==> final(self).loaded == old(self).loaded,
@at start
let ghost m0 = self.loaded.m();
proof {
    let d = self.file().subrange(offset as int, offset + length);
    let m1 = m0.insert(offset, d);
    assert forall|j: u64, k: u64| #[trigger] m1.dom().contains(j) && #[trigger] m1.dom().contains(k) && j < k implies end_of(m1, j) <= k by {
        if j == offset && m0.dom().contains(k) { if end_of(m1, j) > k { assert(covered(m0, k as int)); } }
        if k == offset && m0.dom().contains(j) { if end_of(m0, j) > k { assert(covered(m0, offset as int)); } }
    }
    assert forall|p: u64| offset <= p < offset + length implies is_floor(m1, p, offset) && #[trigger] covered_by_floor(m1, p) by {
        assert forall|j: u64| #[trigger] m1.dom().contains(j) && j <= p implies j <= offset by { if j > offset { assert(covered(m0, j as int)); } }
        assert(is_floor(m1, p, offset));
    }
}
@endfn
@fn src/package_db/http/lazy_remote_file.rs | const:LAZY_FETCH_SIZE
@sig pub fn lazy_fetch_size() -> (r: u64) ensures 0 < r < 0x1_0000_0000
@endfn
@fn src/package_db/http/lazy_remote_file.rs | Read for LazyRemoteFile/fn:read
@hoist copy_loaded
@hoist fix_err
@sub? `cmp::min` => `umin`
@sub? `fix_err($x.try_into())?` => `($x as u64)`
@sub? `self.loaded.range(..=$x).next_back()` => `self.loaded.last_upto($x)`
@sub? `self.loaded.range($x..).next()` => `self.loaded.first_from($x)`
@sub? `loaded_offset + $e` => `*loaded_offset + $e`
@sub? `LAZY_FETCH_SIZE` => `fetch_size0`
@sub? `fetch_start.clamp($a, $b)` => `clamp(fetch_start, $a, $b)`
@sub? `fetch_end.clamp($a, $b)` => `clamp(fetch_end, $a, $b)`
@params self buf
@sig pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same_file(old(self)), final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(self).seek_pos == old(self).seek_pos,
        r matches Ok(n) ==> {
            &&& n <= old(buf)@.len()
            &&& final(self).seek_pos == old(self).seek_pos + n
            // the file's bytes at the position
            &&& n > 0 ==> old(self).seek_pos + n <= old(self).length && final(buf)@.take(n as int) == old(self).file().subrange(old(self).seek_pos as int, old(self).seek_pos + n)
            &&& forall|i: int| n <= i < final(buf)@.len() ==> final(buf)@[i] == old(buf)@[i]
            // end of file exactly at its end, progress before
            &&& n == 0 <==> old(buf)@.len() == 0 || old(self).seek_pos >= old(self).length
        },
@at start
let fetch_size0 = LazyRemoteFile::lazy_fetch_size();
let ghost m0 = self.loaded.m();
let ghost s0 = *self;
@endfn

@fn src/package_db/http/lazy_remote_file.rs | LazyRemoteFile/fn:new
@sub? `fetch_range(&http, "HEAD", url, "bytes=0-1")` => `fetch_range(http.inner(), "HEAD", url, &byte_range(0, 1))`
@sub? `RangeResponse::Complete(_) => Err($e)?,` => `RangeResponse::Complete(_) => return Err(verr()),`
@sub? `BTreeMap::new()` => `Chunks::new()`
@params http url
@sig pub fn new(http: Rc<HttpInner>, url: &Url) -> (r: Result<LazyRemoteFile, Report>)
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.http == http && r->Ok_0.url == *url && r->Ok_0.seek_pos == 0,
@at start
proof { reveal_strlit("HEAD"); reveal_strlit("GET"); assert("HEAD"@.len() == 4); assert("GET"@.len() == 3); }
@endfn
}
}
fn main() {}
