@note the metadata held in a file
@include contracts/common.vrs
@include contracts/tree_spec.vrs
@include contracts/fmt.vrs
@include contracts/vitals.vrs
verus! {
// property text: what the metadata of a wheel is
pub open spec fn core_ok(w: Wheel, blob: Seq<u8>, m: WheelCoreMetadata) -> bool {
    &&& exists|d: Seq<char>| #[trigger] the_dir(w.z.names(), ".dist-info"@, d) && spells(d, w.name.distribution.norm(), w.name.version.key()) && w.z.file(d + "/METADATA"@) == Some(blob)
            && (w.z.file(d + "/WHEEL"@) matches Some(b) && fields_of(b, "Wheel-Version"@) is Some)
    &&& metadata_of(blob) == Some(m) && m.name.norm() == w.name.distribution.norm() && m.version.key() == w.name.version.key()
}
impl Wheel {
@fn src/vocab/artifact_formats.rs | Wheel/fn:get_vitals
@sub? `let mut z = self.z.borrow_mut();` => `let z = &self.z;`
@sub? `&mut z` => `z`
@sub? `z.file_names().map(|$n| $e).collect::<HashSet<_>>().into_iter().collect::<Vec<_>>()` => `distinct(map_names(z.file_names(), |$n| -> (o: &str) ensures o@ == top($n@) $e))`
@sub? `n.split_once(['/', '\\'])` => `split_sep(n)`
@sub? `Wheel::find_special_wheel_dir(&top_levels, $B)` => `find_special_wheel_dir(copied(&top_levels), $B)`
@sub? `dist_info = $e.to_string();` => `dist_info = to_text($e);`
@sub? `data = d.to_string();` => `data = to_text(d);`
@sub? `.ok_or_else(|| verr())` => `.ok_or(verr())`
@sub? `dist_info.strip_suffix($e)` => `strip(dist_info.as_str(), $e)`
@sub? `&parsed.take_the($k)?[..]` => `text_of(parsed.take_the($k)?)`
@sub? `let metadata: WheelCoreMetadata = $e.try_into()?` => `let metadata: WheelCoreMetadata = parse_metadata($e)?`
@sub? `metadata.name != $e {` => `!metadata.name.same(&$e) {`
@sub? `metadata.version != $e {` => `!metadata.version.same(&$e) {`
@sub? `TryInto::<NicePathBuf>::try_into($e)?.to_string()` => `cleaned($e)?`
@strmatch
@format
@sig pub fn get_vitals(&self) -> (r: Result<WheelVitals, Report>)
    ensures r matches Ok(v) ==> core_ok(*self, v.metadata_blob@, v.metadata)
@at start
let ghost names = self.z.names();
proof { assert forall|s: Seq<char>| (forall|i: int| 0 <= i < s.len() ==> !is_sep(#[trigger] s[i])) implies #[trigger] top(s) == s by { lemma_top_whole(s); } }
@at after `let top_levels = $e;`
proof { lemma_special(top_levels@, ".dist-info"@); assert forall|e: Seq<char>| #[trigger] tops(names).contains(e) implies strs(top_levels@).contains(e) by {} }
@at after `dist_info = to_text($e);`
let ghost d = dist_info@;
proof { assert(the_dir(names, ".dist-info"@, d)); assert(lacks(d, '\n') ==> spells(d, self.name.distribution.norm(), self.name.version.key())); }
@at before `let wheel_path = $e;`
let ghost d = dist_info@;
@at before `Ok(WheelVitals`
proof { assert(dist_info@ == d); assert(self.z.file(d + "/METADATA"@) == Some(metadata_blob@)); }
@endfn

// the metadata member alone, of a wheel and of an interpreter archive
@fn src/vocab/artifact_formats.rs | BinaryArtifact for Wheel/fn:metadata
@sub? `Self::Metadata` => `WheelCoreMetadata`
@sig pub fn metadata(&self) -> (r: Result<(Vec<u8>, WheelCoreMetadata), Report>)
    ensures r matches Ok(x) ==> core_ok(*self, x.0@, x.1)
@endfn
}
#[verifier::external_body] pub struct PybiFields { x: u8 }
pub struct PybiCoreMetadata { pub name: PackageName, pub version: Version, pub rest: PybiFields }
pub uninterp spec fn pybi_metadata_of(b: Seq<u8>) -> Option<PybiCoreMetadata>;
#[verifier::external_body]
pub fn parse_pybi_metadata(b: &[u8]) -> (r: Result<PybiCoreMetadata, Report>) ensures r is Ok ==> Some(r->Ok_0) == pybi_metadata_of(b@) { unimplemented!() }
pub struct PybiName { pub distribution: PackageName, pub version: Version }
pub struct Pybi { pub name: PybiName, pub z: ZipArchive }
impl Pybi {
@fn src/vocab/artifact_formats.rs | BinaryArtifact for Pybi/fn:metadata
@sub? `let mut z = self.z.borrow_mut();` => `let z = &self.z;`
@sub? `&mut z` => `z`
@sub? `Self::Metadata` => `PybiCoreMetadata`
@sub? `let metadata: PybiCoreMetadata = $e.try_into()?` => `let metadata: PybiCoreMetadata = parse_pybi_metadata($e)?`
@sub? `metadata.name != $e {` => `!metadata.name.same(&$e) {`
@sub? `metadata.version != $e {` => `!metadata.version.same(&$e) {`
@sig pub fn metadata(&self) -> (r: Result<(Vec<u8>, PybiCoreMetadata), Report>)
    ensures r matches Ok(x) ==> pybi_metadata_of(x.0@) == Some(x.1) && x.1.name.norm() == self.name.distribution.norm() && x.1.version.key() == self.name.version.key()
        && self.z.file("pybi-info/METADATA"@) == Some(x.0@)
        && (self.z.file("pybi-info/PYBI"@) matches Some(b) && fields_of(b, "Pybi-Version"@) is Some)
@endfn
}
}
fn main() {}
