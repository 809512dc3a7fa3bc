verus! {
// data_encoding: the bytes a hexadecimal text spells, when it does
pub open spec fn nibble(c: char) -> Option<u8> { if '0' <= c <= '9' { Some((c as u32 - 48) as u8) } else if 'a' <= c <= 'f' { Some((c as u32 - 87) as u8) } else if 'A' <= c <= 'F' { Some((c as u32 - 55) as u8) } else { None } }
pub open spec fn unhex(s: Seq<char>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) } else if s.len() == 1 { None }
    else { match (unhex(s.take(s.len() - 2)), nibble(s[s.len() - 2]), nibble(s[s.len() - 1])) { (Some(d), Some(a), Some(b)) => Some(d.push((a * 16 + b) as u8)), _ => None } }
}
#[verifier::external_body]
pub fn hex_decode(s: &str) -> (r: Result<Vec<u8>, Report>) ensures r is Ok <==> unhex(s@) is Some, r is Ok ==> Some(r->Ok_0@) == unhex(s@) { unimplemented!() }
#[verifier::external_body]
pub fn to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn split_eq(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '=' && forall|k: int| 0 <= k < i ==> s[k] != '=' }
#[verifier::external_body]
pub fn split_once_eq<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures
        r is None <==> forall|k: int| 0 <= k < s@.len() ==> s@[k] != '=',
        r is Some ==> exists|i: int| #[trigger] split_eq(s@, i) && r->Some_0.0@ == s@.take(i) && r->Some_0.1@ == s@.skip(i + 1),
{ unimplemented!() }
#[verifier::external_body]
pub fn or_err<T>(o: Option<T>) -> (r: Result<T, Report>) ensures o is Some ==> r is Ok && r->Ok_0 == o->Some_0, o is None ==> r is Err { unimplemented!() }

@fn src/vocab/artifact_hash.rs | fn:digest_algorithm
@sub? `match $m { "sha256" => $a, _ => $b, }` => `if str_eq($m, "sha256") { $a } else { $b }`
@sub? `&ring::digest::SHA256` => `ring::digest::sha256()`
@params mode
@sig pub fn digest_algorithm(mode: &str) -> (r: Result<&'static ring::digest::Algorithm, Report>)
    ensures
        alg_of(mode@) is None ==> r is Err,
        alg_of(mode@) matches Some(a) ==> r is Ok && r->Ok_0.ok() && r->Ok_0.id@ == a,
@endfn
@fn src/vocab/artifact_hash.rs | ArtifactHash/fn:from_hex
@sub? `data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())` => `hex_decode(hex)`
@sub? `mode.into()` => `to_string(mode)`
@params mode hex
@sig pub fn from_hex(mode: &str, hex: &str) -> (r: Result<ArtifactHash, Report>)
    ensures
        r is Ok ==> supported(r->Ok_0) && r->Ok_0.mode@ == mode@ && Some(r->Ok_0.raw_data@) == unhex(hex@),
        r is Err ==> alg_of(mode@) is None || unhex(hex@) is None || unhex(hex@)->Some_0.len() != digest_len(alg_of(mode@)->Some_0),
@endfn
// the hash a text names: an algorithm, '=' and as many bytes as the algorithm gives
pub open spec fn read_hash(s: Seq<char>) -> Option<(Seq<char>, Seq<u8>)> {
    if exists|i: int| #[trigger] split_eq(s, i) {
        let i = choose|i: int| #[trigger] split_eq(s, i);
        match (alg_of(s.take(i)), unhex(s.skip(i + 1))) { (Some(a), Some(d)) => if d.len() == digest_len(a) { Some((s.take(i), d)) } else { None }, _ => None }
    } else { None }
}
@fn src/vocab/artifact_hash.rs | TryFrom<&str> for ArtifactHash/fn:try_from
@sub? `value.split_once('=').ok_or_else($c)` => `or_err(split_once_eq(value))`
@sub? `ArtifactHash::from_hex` => `from_hex`
@params value
@sig pub fn try_from(value: &str) -> (r: Result<ArtifactHash, Report>)
    ensures
        r is Ok ==> supported(r->Ok_0) && read_hash(value@) == Some((r->Ok_0.mode@, r->Ok_0.raw_data@)),
        r is Err ==> read_hash(value@) is None,
@at start
proof { assert forall|i: int, j: int| #[trigger] split_eq(value@, i) && #[trigger] split_eq(value@, j) implies i == j by {} }
@endfn
}
