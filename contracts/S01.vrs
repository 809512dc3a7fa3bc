@include contracts/http.vrs
@include contracts/cachebody.vrs
verus! {
// ---- property text: what fill_cache stored, read_cache reads back: the body exactly, also an empty one
pub fn stored_is_read_back<R: Source>(policy: &CachePolicy, body: R, handle: KVFileLock, again: KVFileLock, w: &mut World) -> (r: Result<(CachePolicy, SeekSlice<File>), Report>)
    requires again.path.c() == handle.path.c()
    ensures r is Ok ==> r->Ok_0.0 == *policy && r->Ok_0.1.content() == body.content(),
{
    let ghost b = body.content();
    let first = fill_cache(policy, body, handle, w)?;
    proof { lemma_round_trip(*policy, b); }
    match again.reader(w) {
        Some(f) => read_cache(f.detach_unlocked()),
        None => Err(verr()),
    }
}
}
fn main() {}
