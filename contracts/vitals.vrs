@include contracts/special_dir.vrs
verus! {
// ---- the wheel's own files
#[verifier::external_body] pub struct ZipArchive { x: u8 }
impl ZipArchive {
    pub uninterp spec fn names(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn file(&self, name: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn file_names<'a>(&'a self) -> (r: Vec<&'a str>) ensures strs(r@) == self.names() { unimplemented!() }
}
#[verifier::external_body]
pub fn slurp_from_zip(z: &ZipArchive, name: &str) -> (r: Result<Vec<u8>, Report>) ensures r is Ok ==> Some(r->Ok_0@) == z.file(name@) { unimplemented!() }
// the top level entry a member name lies in
pub open spec fn is_sep(c: char) -> bool { c == '/' || c == '\\' }
pub open spec fn top(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 || is_sep(s[0]) { seq![] } else { seq![s[0]] + top(s.skip(1)) } }
#[verifier::external_body]
pub fn split_sep<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some(t) => t.0@ == top(s@), None => forall|i: int| 0 <= i < s@.len() ==> !is_sep(#[trigger] s@[i]) }
{ unimplemented!() }
pub proof fn lemma_top_whole(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> !is_sep(#[trigger] s[i]) ensures top(s) == s decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies !is_sep(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } lemma_top_whole(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= seq![]); } }
pub open spec fn tops(names: Seq<Seq<char>>) -> Seq<Seq<char>> { names.map_values(|n: Seq<char>| top(n)) }
pub fn map_names<'a, F: Fn(&'a str) -> &'a str>(v: Vec<&'a str>, f: F) -> (r: Vec<&'a str>)
    requires forall|s: &'a str| #[trigger] f.requires((s,)), forall|s: &'a str, o: &'a str| #[trigger] f.ensures((s,), o) ==> o@ == top(s@)
    ensures strs(r@) == tops(strs(v@))
{
    let mut out: Vec<&'a str> = Vec::new();
    let ghost v0 = v@;
    let mut it = vec_iter(v);
    while it.more()
        invariant it.wf(), it.all@ == v0, forall|s: &'a str| #[trigger] f.requires((s,)), forall|s: &'a str, o: &'a str| #[trigger] f.ensures((s,), o) ==> o@ == top(s@),
            strs(out@) =~= tops(strs(v0)).take(it.i@ as int)
        decreases v0.len() - it.i@
    {
        let ghost k = it.i@ as int;
        let s = it.take();
        proof { assert(tops(strs(v0)).take(k + 1) =~= tops(strs(v0)).take(k).push(top(s@))); assert forall|o: &'a str| #[trigger] strs(out@.push(o)) == strs(out@).push(o@) by { assert(strs(out@.push(o)) =~= strs(out@).push(o@)); } }
        out.push(f(s));
    }
    proof { assert(tops(strs(v0)).take(v0.len() as int) =~= tops(strs(v0))); }
    out
}
// the same texts, each once
#[verifier::external_body]
pub fn distinct<'a>(v: Vec<&'a str>) -> (r: Vec<&'a str>) ensures strs(r@).no_duplicates(), forall|t: Seq<char>| #[trigger] strs(r@).contains(t) <==> strs(v@).contains(t) { unimplemented!() }
#[verifier::external_body]
pub fn copied<'a>(v: &Vec<&'a str>) -> (r: Vec<&'a str>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn strip<'a>(s: &'a str, suffix: &str) -> (r: Option<&'a str>)
    ensures match r { Some(p) => s@ == p@ + suffix@, None => !ends(s@, suffix@) }
{ unimplemented!() }
#[verifier::external_body]
pub fn text_of(s: String) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }
// fields of a WHEEL file whose format version is supported (contracts/M01.vrs); a field that occurs exactly once
#[verifier::external_body] pub struct RFC822ish { x: u8 }
pub uninterp spec fn fields_of(b: Seq<u8>, version_field: Seq<char>) -> Option<RFC822ish>;
pub uninterp spec fn the(f: RFC822ish, key: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn parse_format_metadata_and_check_version(b: &[u8], version_field: &str) -> (r: Result<RFC822ish, Report>) ensures r is Ok ==> Some(r->Ok_0) == fields_of(b@, version_field@) { unimplemented!() }
pub uninterp spec fn metadata_of(b: Seq<u8>) -> Option<WheelCoreMetadata>;
#[verifier::external_body]
pub fn parse_metadata(b: &[u8]) -> (r: Result<WheelCoreMetadata, Report>) ensures r is Ok ==> Some(r->Ok_0) == metadata_of(b@) { unimplemented!() }
impl RFC822ish {
    #[verifier::external_body]
    pub fn take_the(&mut self, key: &str) -> (r: Result<String, Report>) ensures r is Ok ==> Some(r->Ok_0@) == the(*old(self), key@) { unimplemented!() }
}
// a directory name parsed as a path and printed (contracts/A01.vrs)
pub uninterp spec fn clean(s: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn cleaned(s: String) -> (r: Result<String, Report>) ensures r is Ok ==> Some(r->Ok_0@) == clean(s@) && lacks(s@, '\n') { unimplemented!() }
pub struct WheelName { pub distribution: PackageName, pub version: Version }
pub struct Wheel { pub name: WheelName, pub z: ZipArchive }
// property text: the only entry with this ending, if there is one
pub open spec fn the_dir(names: Seq<Seq<char>>, suffix: Seq<char>, d: Seq<char>) -> bool { tops(names).contains(d) && ends(d, suffix) && forall|e: Seq<char>| #[trigger] tops(names).contains(e) && ends(e, suffix) ==> e == d }
pub open spec fn no_dir(names: Seq<Seq<char>>, suffix: Seq<char>) -> bool { forall|e: Seq<char>| #[trigger] tops(names).contains(e) ==> !ends(e, suffix) }
pub open spec fn vitals_ok(w: Wheel, v: WheelVitals) -> bool {
    &&& exists|d: Seq<char>, t: Seq<char>| #[trigger] dirs(w, d, t) && Some(v.dist_info@) == clean(d) && Some(v.data@) == clean(t) && files(w, d, v)
    &&& v.metadata.name.norm() == w.name.distribution.norm() && v.metadata.version.key() == w.name.version.key()
}
pub open spec fn dirs(w: Wheel, d: Seq<char>, t: Seq<char>) -> bool {
    let names = w.z.names();
    &&& the_dir(names, ".dist-info"@, d) && spells(d, w.name.distribution.norm(), w.name.version.key())
    &&& (the_dir(names, ".data"@, t) && spells(t, w.name.distribution.norm(), w.name.version.key()))
        || (no_dir(names, ".data"@) && exists|p: Seq<char>| d == #[trigger] (p + ".dist-info"@) && t == p + ".data"@)
}
pub open spec fn files(w: Wheel, d: Seq<char>, v: WheelVitals) -> bool {
    &&& w.z.file(d + "/WHEEL"@) matches Some(b) && fields_of(b, "Wheel-Version"@) matches Some(f) && the(f, "Root-Is-Purelib"@) == Some(if v.root_is_purelib { "true"@ } else { "false"@ })
    &&& w.z.file(d + "/METADATA"@) == Some(v.metadata_blob@) && metadata_of(v.metadata_blob@) == Some(v.metadata)
}
}
