verus! {
#[verifier::external_body] pub struct CachePolicy { x: u8 }
// ciborium: a policy written, whatever follows it, reads back as itself
pub uninterp spec fn ser(p: CachePolicy) -> Seq<u8>;
pub uninterp spec fn de(b: Seq<u8>) -> Option<(CachePolicy, int)>;
#[verifier::external_body]
pub proof fn axiom_cbor(p: CachePolicy, rest: Seq<u8>) ensures de(ser(p) + rest) == Some((p, ser(p).len() as int)) { unimplemented!() }
#[verifier::external_body]
pub fn into_writer<W: Write>(p: &CachePolicy, w: &mut W) -> (r: Result<(), Report>)
    requires (*old(w)).wf()
    ensures (*final(w)).wf(), (*final(w)).fixed() == (*old(w)).fixed(), (*final(w)).later() == (*old(w)).later(), r is Ok ==> (*final(w)).out() == (*old(w)).out() + ser(*p),
{ unimplemented!() }
#[verifier::external_body]
pub fn from_reader(f: &mut File) -> (r: Result<CachePolicy, Report>)
    requires 0 <= old(f).pos() <= old(f).data().len()
    ensures
        final(f).data() == old(f).data(),
        r is Ok ==> de(old(f).data().skip(old(f).pos())) == Some((r->Ok_0, final(f).pos() - old(f).pos())) && old(f).pos() <= final(f).pos() <= old(f).data().len(),
{ unimplemented!() }

// ---- property text: cache entries
// what the entry's bytes hold: how it may be used, and the body
pub open spec fn holds(b: Seq<u8>, p: CachePolicy, body: Seq<u8>) -> bool { de(b) matches Some((q, n)) && q == p && 0 <= n <= b.len() && body == b.skip(n) }
pub open spec fn written(p: CachePolicy, body: Seq<u8>) -> Seq<u8> { ser(p) + body }
pub proof fn lemma_round_trip(p: CachePolicy, body: Seq<u8>) ensures holds(written(p, body), p, body) { axiom_cbor(p, body); assert((ser(p) + body).skip(ser(p).len() as int) =~= body); }

@fn src/package_db/http/http.rs | fn:fill_cache
@sub? `ciborium::ser::into_writer` => `into_writer`
@sub? `std::io::copy` => `io::copy`
@sub? `drop(body);` => ``
@sub? `.commit()` => `.commit(w)`
@params policy body0 handle
@sig pub fn fill_cache<R: Source>(policy: &CachePolicy, body0: R, handle: KVFileLock, w: &mut World) -> (r: Result<SeekSlice<File>, Report>)
    ensures
        // all of it or nothing
        final(w).files == old(w).files || final(w).files == old(w).files.insert(handle.path.c(), written(*policy, body0.content())),
        r is Ok ==> final(w).files == old(w).files.insert(handle.path.c(), written(*policy, body0.content())) && r->Ok_0.content() == body0.content(),
@at start
let ghost f0 = w.files;
@at after `let body_end = $e;`
proof {
    assert(Seq::<u8>::empty() + ser(*policy) =~= ser(*policy));
    assert(cache_writer.out() == written(*policy, body0.content()));
    assert(written(*policy, body0.content()).subrange(ser(*policy).len() as int, written(*policy, body0.content()).len() as int) =~= body0.content());
    assert(body0.content().skip(0) =~= body0.content());
}
@endfn
@fn src/package_db/http/http.rs | fn:read_cache
@sub? `ciborium::de::from_reader(&mut f)` => `from_reader(&mut f)`
@sub? `f.stream_position()` => `stream_position(&mut f)`
@sub? `body.rewind()` => `rewind_slice(&mut body)`
@params f0
@sig pub fn read_cache(f0: File) -> (r: Result<(CachePolicy, SeekSlice<File>), Report>)
    requires File::pos(&f0) == 0
    ensures r is Ok ==> holds(File::data(&f0), r->Ok_0.0, r->Ok_0.1.content()),
@at start
proof { assert(File::data(&f0).skip(0) =~= File::data(&f0)); }
@at before `Ok((policy, body))`
proof { assert(body.contents().skip(0) =~= File::data(&f0).skip(start as int)); }
@endfn

}
