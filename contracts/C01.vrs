@include contracts/common.vrs
@include contracts/store.vrs
verus! {
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { *a == *b }
pub fn bytes_eq(a: &Vec<u8>, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() invariant 0 <= i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k] decreases a@.len() - i { if a[i] != b[i] { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); }
    true
}
#[verifier::external_body]
pub fn prefix(b: &[u8], n: usize) -> (r: &[u8]) requires n <= b@.len() ensures r@ == b@.take(n as int) { unimplemented!() }
}
@include contracts/hash_text.vrs
verus! {
@type src/vocab/artifact_hash.rs | type:HashChecker ;
impl ArtifactHash {
@fn src/vocab/artifact_hash.rs | ArtifactHash/fn:checker
@params self inner
@sig pub fn checker<T: Write>(&self, inner: T) -> (r: Result<HashChecker<'_, T>, Report>)
    requires inner.wf()
    ensures
        r is Err ==> alg_of(self.mode@) is None,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.inner == inner && Some(r->Ok_0.fixed().alg) == alg_of(self.mode@) && r->Ok_0.fixed().raw == self.raw_data@
            && r->Ok_0.fixed().base == inner.out() && r->Ok_0.fixed().at == inner.fixed().at,
@at start
proof { assert(inner.out() =~= inner.out() + Seq::<u8>::empty()); assert(inner.out().take(inner.out().len() as int) =~= inner.out()); }
@endfn
}
impl<'a, T: Write> HashChecker<'a, T> {
    // what was in the sink before the checker was put in front of it
    pub open spec fn base(&self) -> Seq<u8> { self.inner.out().take(self.inner.out().len() - self.state.fed().len()) }
    // exactly what went through is what the digest was computed over
    pub open spec fn inv(&self) -> bool {
        self.inner.wf() && self.inner.out().len() >= self.state.fed().len() && self.inner.out() == self.base() + self.state.fed()
            && alg_of(self.expected.mode@) == Some(self.state.alg())
    }
@fn src/vocab/artifact_hash.rs | HashChecker/fn:finish
@sub? `self.expected.raw_data != digest.as_ref()` => `!bytes_eq(&self.expected.raw_data, digest.as_ref())`
@params self
@sig pub fn finish(self) -> (r: Result<T, Report>)
    requires self.wf()
    ensures
        r is Ok ==> r->Ok_0 == self.inner && digest(self.fixed().alg, self.inner.out().skip(self.fixed().base.len() as int)) == self.fixed().raw,
        r is Ok && self.fixed().base.len() == 0 ==> digest(self.fixed().alg, self.inner.out()) == self.fixed().raw,
        r is Err ==> digest(self.fixed().alg, self.inner.out().skip(self.fixed().base.len() as int)) != self.fixed().raw,
@at start
proof { assert(self.inner.out().skip(self.base().len() as int) =~= self.state.fed()); if self.base().len() == 0 { assert(self.inner.out() =~= self.state.fed()); } }
@endfn
}
impl<'a, T: Write> Write for HashChecker<'a, T> {
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn out(&self) -> Seq<u8> { self.inner.out() }
    open spec fn fixed(&self) -> Fixed { Fixed { base: self.base(), alg: self.state.alg(), raw: self.expected.raw_data@, at: self.inner.fixed().at } }
    #[verifier::prophetic] open spec fn later(&self) -> (Seq<u8>, Pth) { self.inner.later() }
@fn src/vocab/artifact_hash.rs | Write for HashChecker/fn:write
@sub? `&buf[..$n]` => `prefix(buf, $n)`
@params self buf
@sig fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
@at start
let ghost s0 = *self;
@at before `Ok(written)`
proof {
    assert(self.inner.out() =~= s0.base() + (s0.state.fed() + buf@.take(written as int)));
    assert(self.base() =~= s0.base());
}
@endfn
@fn src/vocab/artifact_hash.rs | Write for HashChecker/fn:flush
@params self
@sig fn flush(&mut self) -> (r: Result<(), IoError>)
@endfn
}
// ---- fetching
pub trait Read: Sized { spec fn content(&self) -> Seq<u8>; }
pub mod io { use super::*;
    // std::io::copy: everything there is to read, through `write`
    #[verifier::external_body]
    pub fn copy<R: Read, W: Write>(r: &mut R, w: &mut W) -> (x: core::result::Result<u64, IoError>)
        requires (*old(w)).wf()
        ensures
            (*final(w)).wf(), (*final(w)).fixed() == (*old(w)).fixed(), (*final(w)).later() == (*old(w)).later(),
            x is Ok ==> (*final(w)).out() == (*old(w)).out() + (*old(r)).content(),
    { unimplemented!() }
}
pub struct Body { pub d: Ghost<Seq<u8>> }
impl Read for Body { open spec fn content(&self) -> Seq<u8> { self.d@ } }
impl<T: Read> Read for Box<T> { open spec fn content(&self) -> Seq<u8> { (**self).content() } }
@type src/package_db/http/http.rs | type:ReadPlusMaybeSeek
@sub `Box<dyn ReadPlusSeek>` => `Box<File>`
@sub `Box<dyn Read>` => `Box<Body>`
@end
impl Read for ReadPlusMaybeSeek {
    open spec fn content(&self) -> Seq<u8> { match *self { ReadPlusMaybeSeek::CanSeek(f) => f.data(), ReadPlusMaybeSeek::CannotSeek(b) => b.d@ } }
}
impl ReadPlusMaybeSeek {
@fn src/package_db/http/http.rs | ReadPlusMaybeSeek/fn:force_seek
@sub? `std::io::copy` => `io::copy`
@params self
@sig pub fn force_seek(self) -> (r: Result<Box<File>, Report>)
    ensures r is Ok ==> r->Ok_0.data() == self.content(), r is Ok && self is CannotSeek ==> r->Ok_0.pos() == 0,
@endfn
}
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/package_db/http/http.rs | type:CacheMode ;
#[verifier::external_body] pub struct Url { x: u8 }
pub struct Request { pub u: Seq<char> }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct StatusCode { pub n: u16 }
impl StatusCode {
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.n < 300) { 200 <= self.n && self.n < 300 }
    pub fn as_u16(&self) -> (r: u16) ensures r == self.n { self.n }
    pub fn is_informational(&self) -> (r: bool) ensures r == (100 <= self.n < 200) { 100 <= self.n && self.n < 200 }
    pub fn is_redirection(&self) -> (r: bool) ensures r == (300 <= self.n < 400) { 300 <= self.n && self.n < 400 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.n < 500) { 400 <= self.n && self.n < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.n < 600) { 500 <= self.n && self.n < 600 }
    pub const OK: StatusCode = StatusCode { n: 200 };
    pub const NOT_MODIFIED: StatusCode = StatusCode { n: 304 };
    pub const NOT_FOUND: StatusCode = StatusCode { n: 404 };
}
pub struct Response { pub s: StatusCode, pub b: ReadPlusMaybeSeek }
impl Response {
    pub fn status(&self) -> (r: StatusCode) ensures r == self.s { self.s }
    pub fn into_body(self) -> (r: ReadPlusMaybeSeek) ensures r == self.b { self.b }
}
// what the server (or the cache) answers (contracts/H01.vrs)
pub uninterp spec fn answered(u: Seq<char>, mode: CacheMode, r: Response) -> bool;
pub open spec fn file_answered(u: Seq<char>, mode: CacheMode, d: Seq<u8>) -> bool { exists|r: Response| #[trigger] answered(u, mode, r) && 200 <= r.s.n < 300 && r.b.content() == d }
impl Url { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body]
pub fn build_request(u: &str) -> (r: Result<Request, Report>) ensures r is Ok ==> r->Ok_0.u == u@ { unimplemented!() }
#[verifier::external_body] pub struct Agent { x: u8 }
@type src/package_db/http/http.rs | type:HttpInner
@sub `ureq::Agent` => `Agent`
@end
impl HttpInner {
    // contracts/H01.vrs; uses http_cache only
    #[verifier::external_body]
    pub fn request(&self, request: Request, mode: CacheMode) -> (r: Result<Response, Report>) ensures r is Ok ==> answered(request.u, mode, r->Ok_0) { unimplemented!() }
@fn src/package_db/http/http.rs | HttpInner/fn:get_hashed
@sub? `http::Request::builder().uri($u).body(())` => `build_request($u)`
@sub? `self.hash_cache.get_or_set(&hash, |mut w| { $B })` => `self.hash_cache.get_or_set(&hash, |w: &mut LockedWrite<'_>| -> (x: Result<(), Report>) requires w.out() == Seq::<u8>::empty() ensures x is Ok ==> (*final(w)).fixed().at == (*old(w)).fixed().at, x is Ok ==> named_by(*hash, (*final(w)).out()) { $B }, Ghost(|d: Seq<u8>| named_by(*hash, d)), fs_w)`
@sub? `hash.checker(&mut w)` => `hash.checker(w)`
@sub? `self.hash_cache.get(&hash).ok_or_else($c)` => `or_err(self.hash_cache.get(&hash, fs_w))`
@sub? `std::io::copy` => `io::copy`
@sub? `tempfile::tempfile()` => `tempfile::tempfile()`
@params self url maybe_hash cache_mode
@sig pub fn get_hashed(&self, url: &Url, maybe_hash: Option<&ArtifactHash>, cache_mode: CacheMode, fs_w: &mut World) -> (r: Result<Box<File>, Report>)
    requires
        sound(self.hash_cache, old(fs_w).files), maybe_hash matches Some(h) ==> supported(*h)
    ensures
        sound(self.hash_cache, final(fs_w).files),
        maybe_hash matches Some(h) ==> r is Ok ==> named_by(*h, r->Ok_0.data()) && r->Ok_0.pos() == 0,
        maybe_hash is None ==> r is Ok ==> file_answered(url.text(), cache_mode, r->Ok_0.data()),
@at start
proof { if maybe_hash is Some { lemma_hash_entry(self.hash_cache, *maybe_hash->Some_0); } }
@endfn
}
pub proof fn lemma_hash_entry(s: KVFileStore, h: ArtifactHash)
    requires supported(h)
    ensures
        hash_key(h).len() > 0, plain(hash_key(h).last()), !hash_key(h).last().contains('.'),
        forall|h2: ArtifactHash| supported(h2) ==> #[trigger] s.entry(hash_key(h2)) != lock_of(s.entry(hash_key(h))),
        forall|h2: ArtifactHash| supported(h2) && #[trigger] s.entry(hash_key(h2)) == s.entry(hash_key(h)) ==> h2.mode@ == h.mode@ && h2.raw_data@ == h.raw_data@,
{
    lemma_keys(Key::Hash(h), Key::Hash(h), s.base.c());
    assert forall|h2: ArtifactHash| supported(h2) implies #[trigger] s.entry(hash_key(h2)) != lock_of(s.entry(hash_key(h)))
        && (s.entry(hash_key(h2)) == s.entry(hash_key(h)) ==> h2.mode@ == h.mode@ && h2.raw_data@ == h.raw_data@) by {
        lemma_keys(Key::Hash(h), Key::Hash(h2), s.base.c());
    }
}
// what the by-hash store may contain
pub open spec fn sound(s: KVFileStore, f: Map<Pth, Seq<u8>>) -> bool {
    forall|h: ArtifactHash| supported(h) && f.dom().contains(s.entry(hash_key(h))) ==> #[trigger] named_by(h, f[s.entry(hash_key(h))])
}
}
fn main() {}
