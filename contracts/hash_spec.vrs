verus! {
// ---- digests
pub open spec fn SHA256() -> int { 256 }
pub uninterp spec fn digest(alg: int, data: Seq<u8>) -> Seq<u8>;
pub open spec fn digest_len(alg: int) -> int { 32 }
pub mod ring { use super::*; pub mod digest { use super::*;
    pub struct Algorithm { pub output_len: usize, pub id: Ghost<int> }
    impl Algorithm { pub open spec fn ok(&self) -> bool { self.output_len == digest_len(self.id@) } }
    #[verifier::external_body]
    pub fn sha256() -> (r: &'static Algorithm) ensures r.ok(), r.id@ == SHA256() { unimplemented!() }
    #[verifier::external_body]
    pub struct Context { x: u8 }
    impl Context {
        pub uninterp spec fn alg(&self) -> int;
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new(a: &'static Algorithm) -> (r: Context) ensures r.alg() == a.id@, r.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &[u8]) ensures final(self).alg() == old(self).alg(), final(self).fed() == old(self).fed() + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Digest) ensures r.data() == super::super::digest(self.alg(), self.fed()) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Digest { x: u8 }
    impl Digest {
        pub uninterp spec fn data(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.data() { unimplemented!() }
    }
} }
@type src/vocab/artifact_hash.rs | type:ArtifactHash ;
// the algorithm a name stands for
pub open spec fn alg_of(mode: Seq<char>) -> Option<int> { if mode == "sha256"@ { Some(SHA256()) } else { None } }
// every hash accepted from text
pub open spec fn supported(h: ArtifactHash) -> bool { alg_of(h.mode@) matches Some(a) && h.raw_data@.len() == digest_len(a) }
// data is what the hash names
pub open spec fn named_by(h: ArtifactHash, data: Seq<u8>) -> bool { alg_of(h.mode@) matches Some(a) && digest(a, data) == h.raw_data@ }
}
