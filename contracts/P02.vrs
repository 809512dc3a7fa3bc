@note index pages
@include contracts/common.vrs
@include contracts/fmt.vrs
verus! {
// ---- html5ever: names, attributes
pub struct Atom { pub t: Ghost<Seq<char>> }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Atom { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Atom) -> bool { self.t@ == o.t@ } }
impl PartialEq for Atom { #[verifier::external_body] fn eq(&self, o: &Atom) -> (r: bool) { unimplemented!() } }
pub struct ExpandedName { pub html: Ghost<bool>, pub local: Ghost<Seq<char>> }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExpandedName { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ExpandedName) -> bool { self.html@ == o.html@ && self.local@ == o.local@ } }
impl PartialEq for ExpandedName { #[verifier::external_body] fn eq(&self, o: &ExpandedName) -> (r: bool) { unimplemented!() } }
pub struct QualName { pub html: Ghost<bool>, pub local: Atom }
impl QualName { #[verifier::external_body] pub fn expanded(&self) -> (r: ExpandedName) ensures r.html@ == self.html@, r.local@ == self.local.t@ { unimplemented!() } }
pub struct Tendril { pub t: Ghost<Seq<char>> }
impl Tendril { #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.t@ { unimplemented!() } }
pub struct Attribute { pub name: QualName, pub value: Tendril }
pub struct ElementFlags {}
#[verifier::external_body] pub fn atom(s: &str) -> (r: Atom) ensures r.t@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn html_name(s: &str) -> (r: ExpandedName) ensures r.html@, r.local@ == s@ { unimplemented!() }
#[verifier::external_body] pub struct Names { x: u8 }
impl Names { #[verifier::external_body] pub fn insert(&mut self, k: usize, v: QualName) { unimplemented!() } #[verifier::external_body] pub fn new() -> Names { unimplemented!() } }
// the tags and attributes that count
@fn src/package_db/simple_api/html.rs | const:META_TAG
@sub `expanded_name!(html $e)` => `html_name($e)`
@sig pub fn meta_tag() -> (r: ExpandedName) ensures r.html@, r.local@ == "meta"@
@endfn
@fn src/package_db/simple_api/html.rs | const:BASE_TAG
@sub `expanded_name!(html $e)` => `html_name($e)`
@sig pub fn base_tag() -> (r: ExpandedName) ensures r.html@, r.local@ == "base"@
@endfn
@fn src/package_db/simple_api/html.rs | const:A_TAG
@sub `expanded_name!(html $e)` => `html_name($e)`
@sig pub fn a_tag() -> (r: ExpandedName) ensures r.html@, r.local@ == "a"@
@endfn
@fn src/package_db/simple_api/html.rs | const:HREF_ATTR
@sub `html5ever::local_name!($e)` => `atom($e)`
@sig pub fn href_attr() -> (r: Atom) ensures r.t@ == "href"@
@endfn
@fn src/package_db/simple_api/html.rs | const:NAME_ATTR
@sub `html5ever::local_name!($e)` => `atom($e)`
@sig pub fn name_attr() -> (r: Atom) ensures r.t@ == "name"@
@endfn
@fn src/package_db/simple_api/html.rs | const:CONTENT_ATTR
@sub `html5ever::local_name!($e)` => `atom($e)`
@sig pub fn content_attr() -> (r: Atom) ensures r.t@ == "content"@
@endfn
@fn src/package_db/simple_api/html.rs | const:REQUIRES_PYTHON_ATTR
@sub `Atom::from($e)` => `atom($e)`
@sig pub fn requires_python_attr() -> (r: Atom) ensures r.t@ == "data-requires-python"@
@endfn
@fn src/package_db/simple_api/html.rs | const:YANKED_ATTR
@sub `Atom::from($e)` => `atom($e)`
@sig pub fn yanked_attr() -> (r: Atom) ensures r.t@ == "data-yanked"@
@endfn
@fn src/package_db/simple_api/html.rs | const:DATA_DIST_INFO_METADATA
@sub `Atom::from($e)` => `atom($e)`
@sig pub fn data_dist_info_metadata() -> (r: Atom) ensures r.t@ == "data-dist-info-metadata"@
@endfn

// ---- addresses, file names, hashes
#[verifier::external_body] pub struct Url { x: u8 }
pub uninterp spec fn joined(u: Url, s: Seq<char>) -> Option<Url>;
pub uninterp spec fn last_piece(u: Url) -> Option<Seq<char>>;
pub uninterp spec fn fragment(u: Url) -> Option<Seq<char>>;
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Url {
    pub uninterp spec fn parsed(s: Seq<char>) -> Option<Url>;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, Report>) ensures match r { Ok(u) => Url::parsed(s@) == Some(u), Err(_) => Url::parsed(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, Report>) ensures match r { Ok(u) => joined(*self, s@) == Some(u), Err(_) => joined(*self, s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn fragment(&self) -> (r: Option<&str>) ensures match r { Some(f) => fragment(*self) == Some(f@), None => fragment(*self) is None } { unimplemented!() }
}
// url.path_segments()?.next_back()?
#[verifier::external_body]
pub fn last_of(u: &Url) -> (r: Option<&str>) ensures match r { Some(f) => last_piece(*u) == Some(f@), None => last_piece(*u) is None } { unimplemented!() }
#[verifier::external_body] pub struct ArtifactName { x: u8 }
impl Clone for ArtifactName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// a file name read (contracts/N02.vrs); the names of the single-platform archives it stands for
pub uninterp spec fn read_as(s: Seq<char>) -> Option<ArtifactName>;
pub uninterp spec fn split_of(n: ArtifactName) -> Seq<ArtifactName>;
#[verifier::external_body]
pub fn read_name(s: &str) -> (r: Result<ArtifactName, Report>) ensures match r { Ok(n) => read_as(s@) == Some(n), Err(_) => read_as(s@) is None } { unimplemented!() }
impl ArtifactName { #[verifier::external_body] pub fn split_multiplatform_pybis(&self) -> (r: Vec<ArtifactName>) ensures r@ == split_of(*self) { unimplemented!() } }
#[verifier::external_body] pub struct ArtifactHash { x: u8 }
impl Clone for ArtifactHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// contracts/C01.vrs
pub uninterp spec fn hex_hash(mode: Seq<char>, hex: Seq<char>) -> Option<ArtifactHash>;
impl ArtifactHash { #[verifier::external_body] pub fn from_hex(mode: &str, hex: &str) -> (r: Result<ArtifactHash, Report>) ensures match r { Ok(h) => hex_hash(mode@, hex@) == Some(h), Err(_) => hex_hash(mode@, hex@) is None } { unimplemented!() } }
pub open spec fn first_eq(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '=' && forall|k: int| 0 <= k < i ==> s[k] != '=' }
#[verifier::external_body]
pub fn split_once_eq<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some(x) => exists|i: int| #[trigger] first_eq(s@, i) && x.0@ == s@.take(i) && x.1@ == s@.skip(i + 1), None => forall|k: int| 0 <= k < s@.len() ==> s@[k] != '=' },
{ unimplemented!() }
// property text: <algorithm>=<hex>, else nothing
pub open spec fn hash_in(s: Seq<char>) -> Option<ArtifactHash> { if exists|i: int| first_eq(s, i) { let i = choose|i: int| first_eq(s, i); hex_hash(s.take(i), s.skip(i + 1)) } else { None } }
@fn src/package_db/simple_api/html.rs | fn:parse_hash
@sub? `s.split_once('=')` => `split_once_eq(s)`
@params s
@sig pub fn parse_hash(s: &str) -> (r: Option<ArtifactHash>) ensures r == hash_in(s@)
@at start
proof { assert forall|i: int, j: int| #[trigger] first_eq(s@, i) && #[trigger] first_eq(s@, j) implies i == j by {} }
@endfn
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn dec_utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub struct Bytes { pub v: Vec<u8>, pub i: usize }
impl Bytes {
    pub open spec fn rest(&self) -> Seq<u8> { self.v@.skip(self.i as int) }
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn next(&mut self) -> (r: Option<u8>)
        requires old(self).wf()
        ensures final(self).wf(), match r { Some(b) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest().len() == 0 }
    {
        if self.i < self.v.len() {
            let b = self.v[self.i];
            self.i = self.i + 1;
            proof { assert(self.rest() =~= old(self).rest().skip(1)); }
            Some(b)
        } else { None }
    }
}
#[verifier::external_body]
pub fn bytes_of(s: &str) -> (r: Bytes) ensures r.wf(), r.rest() == enc(s@) { unimplemented!() }
pub open spec fn hex_val(b: u8) -> Option<u32> { if 48 <= b <= 57 { Some((b - 48) as u32) } else if 97 <= b <= 102 { Some((b - 87) as u32) } else if 65 <= b <= 70 { Some((b - 55) as u32) } else { None } }
// char::from(b).to_digit(16)
#[verifier::external_body]
pub fn hex_digit(b: u8) -> (r: Option<u32>) ensures r == hex_val(b) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(v: Vec<u8>) -> (r: Option<String>) ensures match r { Some(s) => dec_utf8(v@) == Some(s@), None => dec_utf8(v@) is None } { unimplemented!() }
// property text: %xx stands for the byte xx; nothing else may follow a %
pub open spec fn pct(b: Seq<u8>) -> Option<Seq<u8>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) }
    else if b[0] == 37 {
        if b.len() < 3 { None } else { match (hex_val(b[1]), hex_val(b[2]), pct(b.skip(3))) { (Some(h), Some(l), Some(r)) => Some(seq![(h * 16 + l) as u8] + r), _ => None } }
    } else { match pct(b.skip(1)) { Some(r) => Some(seq![b[0]] + r), None => None } }
}
pub open spec fn pct_more(d: Seq<u8>, rest: Option<Seq<u8>>) -> Option<Seq<u8>> { match rest { Some(r) => Some(d + r), None => None } }
pub open spec fn unpct(s: Seq<char>) -> Option<Seq<char>> { match pct(enc(s)) { Some(b) => dec_utf8(b), None => None } }
@fn src/package_db/simple_api/html.rs | fn:percent_decode
@sub? `Vec::with_capacity(s.len())` => `Vec::<u8>::new()`
@sub? `s.bytes()` => `bytes_of(s)`
@sub? `while let Some($x) = bytes.next() { $B }` => `loop { let $x = match bytes.next() { Some(x_) => x_, None => break }; $B }`
@sub? `byte == b'%'` => `byte == 37`
@sub? `char::from($e).to_digit(16)` => `hex_digit($e)`
@sub? `String::from_utf8($e).ok()` => `from_utf8($e)`
@params s
@sig pub fn percent_decode(s: &str) -> (r: Option<String>)
    ensures match r { Some(t) => unpct(s@) == Some(t@), None => unpct(s@) is None }
@loop 1
    invariant bytes.wf(), pct(enc(s@)) == pct_more(decoded@, pct(bytes.rest())),
    ensures bytes.rest().len() == 0, bytes.wf(), pct(enc(s@)) == pct_more(decoded@, pct(bytes.rest())),
    decreases bytes.rest().len()
@at loop 1 start
let ghost r0 = bytes.rest();
let ghost d0 = decoded@;
proof { assert(r0.len() > 2 ==> r0.skip(1).skip(1).skip(1) =~= r0.skip(3) && r0.skip(1).skip(1)[0] == r0[2] && r0.skip(1)[0] == r0[1]); assert(r0.len() == 2 ==> r0.skip(1).skip(1).len() == 0); }
@at loop 1 end
proof {
    match pct(bytes.rest()) { Some(r) => { assert(d0 + (seq![decoded@.last()] + r) =~= decoded@ + r); assert(decoded@ =~= d0.push(decoded@.last())); } None => {} }
}
@at start
proof { match pct(enc(s@)) { Some(r) => { assert(Seq::<u8>::empty() + r =~= r); } None => {} } }
@at loop 1 after
proof { assert(decoded@ + Seq::<u8>::empty() =~= decoded@); assert(bytes.rest() =~= Seq::<u8>::empty()); }
@endfn

// ---- what a link says
@type src/package_db/simple_api/project_info.rs | type:DistInfoMetadata ;
@type src/package_db/simple_api/project_info.rs | type:Yanked ;
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
@type src/package_db/simple_api/project_info.rs | type:Meta ;
@type src/package_db/simple_api/project_info.rs | type:ProjectInfo ;
pub type AI = ArtifactInfo;
pub open spec fn same(a: Option<String>, b: Option<Seq<char>>) -> bool { match a { Some(s) => b == Some(s@), None => b is None } }
pub open spec fn saying(v: Seq<Attribute>, n: Seq<char>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None } else if v[0].name.local.t@ == n { Some(v[0].value.t@) } else { saying(v.skip(1), n) }
}
pub open spec fn shown(r: Option<&str>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
@fn src/package_db/simple_api/html.rs | fn:get_attr
@sub? `in attrs {` => `in attrs.iter() {`
@params name attrs
@sig pub fn get_attr<'a>(name: &Atom, attrs: &'a Vec<Attribute>) -> (r: Option<&'a str>) ensures shown(r) == saying(attrs@, name.t@)
@loop 1 iter=it
    invariant it.seq() == attrs@.map_values(|a: Attribute| &a), saying(attrs@.skip(it.index@), name.t@) == saying(attrs@, name.t@)
@at loop 1 start
proof { assert(it.seq()[it.index@] == &attrs@[it.index@]); assert(attrs@.skip(it.index@).skip(1) =~= attrs@.skip(it.index@ + 1)); assert(attrs@.skip(it.index@)[0] == attrs@[it.index@]); }
@at start
proof { assert(attrs@.skip(0) =~= attrs@); }
@endfn
pub fn owned(s: Option<&str>) -> (r: Option<String>) ensures same(r, shown(s)) { match s { Some(t) => Some(to_text(t)), None => None } }
pub fn is_text(s: Option<&str>, t: &str) -> (r: bool) ensures r == (shown(s) == Some(t@)) { match s { Some(x) => str_eq(x, t), None => false } }
// property text: the address, hash, Python versions, metadata and yanking of a link are what the page says
pub open spec fn as_said(ai: AI, url: Url, v: Seq<Attribute>) -> bool {
    &&& ai.url == url
    &&& ai.hash == (match fragment(url) { Some(f) => hash_in(f), None => None })
    &&& same(ai.requires_python, saying(v, "data-requires-python"@))
    &&& match saying(v, "data-dist-info-metadata"@) {
        None => !ai.dist_info_metadata.available && ai.dist_info_metadata.hash is None,
        Some(t) => ai.dist_info_metadata.available && ai.dist_info_metadata.hash == (if t == "true"@ { None } else { hash_in(t) }),
    }
    &&& ai.yanked.yanked == (saying(v, "data-yanked"@) is Some) && same(ai.yanked.reason, saying(v, "data-yanked"@))
}
pub open spec fn name_at(url: Url) -> Option<ArtifactName> { match last_piece(url) { Some(p) => match unpct(p) { Some(f) => read_as(f), None => None }, None => None } }
// the files a link stands for: none, unless its address can be read and ends in the name of a file
pub open spec fn link(base: Url, href: Seq<char>, v: Seq<Attribute>, out: Seq<AI>) -> bool {
    match joined(base, href) {
        Some(url) => match name_at(url) {
            Some(n) => out.len() == split_of(n).len() && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).name == split_of(n)[i] && as_said(out[i], url, v),
            None => out.len() == 0,
        },
        None => out.len() == 0,
    }
}
#[verifier::external_body]
pub fn clone_info(a: &AI) -> (r: AI) ensures r == *a { unimplemented!() }
// .into_iter().map(f).collect()
pub fn each<F: Fn(ArtifactName) -> AI>(v: Vec<ArtifactName>, f: F, t: Ghost<AI>) -> (r: Vec<AI>)
    requires forall|n: ArtifactName| #[trigger] f.requires((n,)), forall|n: ArtifactName, a: AI| #[trigger] f.ensures((n,), a) ==> a == (AI { name: n, ..t@ })
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (AI { name: v@[i], ..t@ })
{
    let mut out: Vec<AI> = Vec::new();
    let mut it = vec_iter(v);
    while it.more()
        invariant it.wf(), it.all@ == v@, out@.len() == it.i@, forall|n: ArtifactName| #[trigger] f.requires((n,)), forall|n: ArtifactName, a: AI| #[trigger] f.ensures((n,), a) ==> a == (AI { name: n, ..t@ }),
            forall|i: int| 0 <= i < it.i@ ==> #[trigger] out@[i] == (AI { name: v@[i], ..t@ })
        decreases it.all@.len() - it.i@
    {
        let n = it.take();
        out.push(f(n));
    }
    out
}
@type src/package_db/simple_api/html.rs | type:Sink
@sub? `HashMap<usize, QualName>` => `Names`
@end
// ---- what a page says
pub struct Elem { pub html: bool, pub tag: Seq<char>, pub v: Seq<Attribute> }
pub open spec fn tagged(e: Elem, t: Seq<char>) -> bool { e.html && e.tag == t }
// property text: relative addresses are relative to the page, or to the first <base> that has an address
pub open spec fn sets_base(e: Elem) -> bool { tagged(e, "base"@) && saying(e.v, "href"@) is Some }
pub open spec fn first_base(es: Seq<Elem>) -> Option<Seq<char>> decreases es.len() { if es.len() == 0 { None } else { match first_base(es.drop_last()) { Some(b) => Some(b), None => if sets_base(es.last()) { saying(es.last().v, "href"@) } else { None } } } }
pub open spec fn base_of(page: Url, es: Seq<Elem>) -> Url { match first_base(es) { Some(h) => match joined(page, h) { Some(u) => u, None => page }, None => page } }
pub open spec fn says_version(e: Elem) -> Option<Seq<char>> { if tagged(e, "meta"@) && saying(e.v, "name"@) == Some("pypi:repository-version"@) { saying(e.v, "content"@) } else { None } }
pub open spec fn version_of(es: Seq<Elem>) -> Seq<char> decreases es.len() { if es.len() == 0 { "1.0"@ } else { match says_version(es.last()) { Some(t) => t, None => version_of(es.drop_last()) } } }
// the files of the links of a page, in order
pub open spec fn files(page: Url, es: Seq<Elem>, out: Seq<AI>) -> bool decreases es.len() {
    if es.len() == 0 { out.len() == 0 }
    else {
        exists|k: int| 0 <= k <= out.len() && files(page, es.drop_last(), #[trigger] out.take(k)) && element(base_of(page, es), es.last(), out.skip(k))
    }
}
pub open spec fn element(base: Url, e: Elem, out: Seq<AI>) -> bool {
    if tagged(e, "a"@) { match saying(e.v, "href"@) { Some(h) => link(base, h, e.v, out), None => out.len() == 0 } } else { out.len() == 0 }
}
pub open spec fn page_is(page: Url, es: Seq<Elem>, pi: ProjectInfo) -> bool { pi.meta.version@ == version_of(es) && files(page, es, pi.artifacts@) }
impl Sink {
    // where the parser is after the elements es
    pub open spec fn at(&self, page: Url, es: Seq<Elem>) -> bool {
        self.base == base_of(page, es) && self.changed_base == (first_base(es) is Some) && page_is(page, es, self.project_info)
    }
@fn src/package_db/simple_api/html.rs | Sink/fn:get_id
@sig pub fn get_id(&mut self) -> (r: usize)
    requires old(self).next_id < usize::MAX - 2
    ensures r == old(self).next_id, final(self).next_id == old(self).next_id + 2, final(self).base == old(self).base, final(self).changed_base == old(self).changed_base, final(self).project_info == old(self).project_info
@endfn
@fn src/package_db/simple_api/html.rs | Sink/fn:try_parse_link
@sub? `url.path_segments()?.next_back()?` => `last_of(&url)?`
@sub? `let name: ArtifactName = $e.try_into().ok()?;` => `let name = read_name($e).ok()?;`
@sub? `url.fragment().and_then(parse_hash)` => `(match url.fragment() { Some(f_) => parse_hash(f_), None => None })`
@sub? `get_attr($e).map(String::from)` => `owned(get_attr($e))`
@sub? `REQUIRES_PYTHON_ATTR.borrow()` => `&requires_python_attr()`
@sub? `YANKED_ATTR.borrow()` => `&yanked_attr()`
@sub? `DATA_DIST_INFO_METADATA.borrow()` => `&data_dist_info_metadata()`
@sub? `Some("true") =>` => `Some(value_) if str_eq(value_, "true") =>`
@sub? `reason: Some(reason.into()),` => `reason: Some(to_text(reason)),`
@sub? `template.clone()` => `clone_info(&template)`
@sub? `names.into_iter().map(|name| $e).collect(),` => `each(names, |name: ArtifactName| -> (o: AI) ensures o == (AI { name: name, ..template }) { $e }, Ghost(template))`
@params self url_str attrs
@sig pub fn try_parse_link(&self, url_str: &str, attrs: &Vec<Attribute>) -> (r: Option<Vec<ArtifactInfo>>)
    ensures link(self.base, url_str@, attrs@, match r { Some(v) => v@, None => Seq::empty() })
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:create_element
@sub? `META_TAG` => `meta_tag()`
@sub? `BASE_TAG` => `base_tag()`
@sub? `A_TAG` => `a_tag()`
@sub? `&HREF_ATTR` => `&href_attr()`
@sub? `&NAME_ATTR` => `&name_attr()`
@sub? `&CONTENT_ATTR` => `&content_attr()`
@sub? `if let Some("pypi:repository-version") = $e { $B }` => `if is_text($e, "pypi:repository-version") { $B }`
@sub? `= version.into();` => `= to_text(version);`
@sub? `self.project_info.artifacts.extend($e)` => `{ let mut x_ = $e; self.project_info.artifacts.append(&mut x_) }`
@params self name attrs _
@sig pub fn create_element(&mut self, name: QualName, attrs: Vec<Attribute>, _f: ElementFlags, page: Ghost<Url>, es: Ghost<Seq<Elem>>) -> (r: usize)
    requires old(self).next_id < usize::MAX - 2, old(self).at(page@, es@)
    ensures final(self).at(page@, es@.push(Elem { html: name.html@, tag: name.local.t@, v: attrs@ }))
@at start
let ghost e = Elem { html: name.html@, tag: name.local.t@, v: attrs@ };
let ghost out0 = self.project_info.artifacts@;
proof { assert(es@.push(e).drop_last() =~= es@); reveal_strlit("meta"); reveal_strlit("base"); reveal_strlit("a"); }
@at before `let id = $e;`
proof {
    let out = self.project_info.artifacts@; let k = out0.len() as int;
    assert(out.take(k) =~= out0);
    assert(element(self.base, e, out.skip(k)));
    assert(self.base == base_of(page@, es@.push(e)));
    assert(self.changed_base == (first_base(es@.push(e)) is Some));
    assert(version_of(es@.push(e)) == self.project_info.meta.version@);
    assert(0 <= k <= out.len() && files(page@, es@.push(e).drop_last(), out.take(k)) && element(base_of(page@, es@.push(e)), es@.push(e).last(), out.skip(k)));
    assert(files(page@, es@.push(e), out));
}
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:finish
@params self
@sig pub fn finish(self) -> (r: Sink) ensures r == self
@endfn
    // html5ever's tree-building calls: they touch neither the files, nor the base, nor the version
    pub open spec fn like(&self, o: Sink) -> bool { self.base == o.base && self.changed_base == o.changed_base && self.project_info == o.project_info }
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:get_document
@params self
@sig pub fn get_document(&mut self) -> (r: usize) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:get_template_contents
@params self target
@sig pub fn get_template_contents(&mut self, target: &usize) -> (r: usize) requires *target < usize::MAX ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:create_comment
@params self _text
@sig pub fn create_comment(&mut self, _text: Tendril) -> (r: usize) requires old(self).next_id < usize::MAX - 2 ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:append
@params self _parent _child
@sig pub fn append(&mut self, _parent: &usize, _child: NodeOrText) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:append_before_sibling
@params self _sibling _new_node
@sig pub fn append_before_sibling(&mut self, _sibling: &usize, _new_node: NodeOrText) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:append_based_on_parent_node
@params self _element _prev_element _new_node
@sig pub fn append_based_on_parent_node(&mut self, _element: &usize, _prev_element: &usize, _new_node: NodeOrText) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:append_doctype_to_document
@params self _ _ _
@sig pub fn append_doctype_to_document(&mut self, _a: Tendril, _b: Tendril, _c: Tendril) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:add_attrs_if_missing
@params self _target _attrs
@sig pub fn add_attrs_if_missing(&mut self, _target: &usize, _attrs: Vec<Attribute>) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:remove_from_parent
@params self _target
@sig pub fn remove_from_parent(&mut self, _target: &usize) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:reparent_children
@params self _node _new_parent
@sig pub fn reparent_children(&mut self, _node: &usize, _new_parent: &usize) ensures final(self).like(*old(self))
@endfn
@fn src/package_db/simple_api/html.rs | TreeSink for Sink/fn:mark_script_already_started
@params self _node
@sig pub fn mark_script_already_started(&mut self, _node: &usize) ensures final(self).like(*old(self))
@endfn
}
pub enum NodeOrText { AppendNode(usize), AppendText(Tendril) }

// ---- reading a page
pub trait Source: Sized { spec fn content(&self) -> Seq<u8>; }
// the elements the HTML parser makes of a page, in order
pub uninterp spec fn elements(body: Seq<u8>) -> Seq<Elem>;
// parse_document(sink, Default::default()).from_utf8().read_from(body): the parser calls create_element for
// each element of the page, in order, the calls above in between, and finish at the end
#[verifier::external_body]
pub fn run_parser<T: Source>(sink: Sink, body: &mut T, page: Ghost<Url>) -> (r: Result<Sink, Report>)
    requires sink.at(page@, Seq::empty()), sink.next_id < 1000
    ensures r matches Ok(s) ==> s.at(page@, elements(old(body).content()))
{ unimplemented!() }
pub struct Mime { pub a: String, pub b: String }
pub uninterp spec fn mime(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
// mime's parse: type and subtype, in lower case
#[verifier::external_body]
pub fn parse_mime(s: &str) -> (r: Result<Mime, Report>) ensures match r { Ok(m) => mime(s@) == Some((m.a@, m.b@)), Err(_) => mime(s@) is None } { unimplemented!() }
impl Mime {
    pub fn type_(&self) -> (r: &String) ensures r@ == self.a@ { &self.a }
    pub fn subtype(&self) -> (r: &String) ensures r@ == self.b@ { &self.b }
}
impl Meta {
@fn src/package_db/simple_api/project_info.rs | Default for Meta/fn:default
@sub? `version: $e.into(),` => `version: to_text($e),`
@sig pub fn default() -> (r: Meta) ensures r.version@ == "1.0"@
@endfn
}
// derived
pub fn default_info() -> (r: ProjectInfo) ensures r.artifacts@.len() == 0, r.meta.version@ == "1.0"@ { ProjectInfo { meta: Meta::default(), artifacts: Vec::new() } }
@fn src/package_db/simple_api/html.rs | fn:parse_html
@sub? `let content_type: mime::Mime = content_type.parse()?;` => `let content_type = parse_mime(content_type)?;`
@sub? `("text", "html") => {$B}` => `(t_, s_) if str_eq(t_, "text") && str_eq(s_, "html") => {$B}`
@sub? `HashMap::new()` => `Names::new()`
@sub? `project_info: Default::default(),` => `project_info: default_info(),`
@sub? `parse_document(sink, Default::default()).from_utf8().read_from($e)?` => `run_parser(sink, $e, Ghost(*url))?`
@params url content_type body0
@sig pub fn parse_html<T: Source>(url: &Url, content_type: &str, body0: T) -> (r: Result<ProjectInfo, Report>)
    ensures r matches Ok(pi) ==> page_is(*url, elements(body0.content()), pi) && mime(content_type@) == Some(("text"@, "html"@)),
        !(mime(content_type@) == Some(("text"@, "html"@))) ==> r is Err,
@endfn

// ---- fetching it
pub struct Request { pub u: Ghost<Seq<char>>, pub cc: Ghost<Seq<char>> }
#[verifier::external_body] pub struct HeaderValue { x: u8 }
impl HeaderValue {
    pub uninterp spec fn t(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, Report>) ensures match r { Ok(s) => self.t() == Some(s@), Err(_) => self.t() is None } { unimplemented!() }
}
#[verifier::external_body] pub struct Body { x: u8 }
impl Body { pub uninterp spec fn d(&self) -> Seq<u8>; }
impl Source for Body { open spec fn content(&self) -> Seq<u8> { self.d() } }
pub struct Response { pub code: u16, pub ty: Option<HeaderValue>, pub url: Option<Url>, pub b: Body }
impl Response {
    pub fn code(&self) -> (r: u16) ensures r == self.code { self.code }
    pub fn content_type(&self) -> (r: Option<&HeaderValue>) ensures match r { Some(h) => self.ty == Some(*h), None => self.ty is None } { match &self.ty { Some(h) => Some(h), None => None } }
    pub fn url(&self) -> (r: Option<&Url>) ensures match r { Some(h) => self.url == Some(*h), None => self.url is None } { match &self.url { Some(h) => Some(h), None => None } }
    pub fn into_body(self) -> (r: Body) ensures r == self.b { self.b }
}
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/package_db/http/http.rs | type:CacheMode ;
impl Url { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
#[verifier::external_body]
pub fn build_request(u: &str, cc: &str) -> (r: Result<Request, Report>) ensures r is Ok ==> r->Ok_0.u@ == u@ && r->Ok_0.cc@ == cc@ { unimplemented!() }
pub struct Http {}
// what the server (or the cache, if the server says it is still current) answers, and the address it answered from (contracts/H01.vrs)
pub uninterp spec fn answered(u: Seq<char>, cache_control: Seq<char>, mode: CacheMode, r: Response) -> bool;
impl Http {
    #[verifier::external_body]
    pub fn request(&self, request: Request, mode: CacheMode) -> (r: Result<Response, Report>) ensures r matches Ok(a) ==> answered(request.u@, request.cc@, mode, a) && a.url is Some { unimplemented!() }
}
pub open spec fn type_of(r: Response) -> Option<Seq<char>> { match r.ty { Some(h) => h.t(), None => Some("text/html"@) } }
// property text: a project the index does not know is absent; any other failure is reported, never taken for a page without files
pub open spec fn outcome(a: Response, r: Option<ProjectInfo>) -> bool {
    match r {
        None => a.code == 404,
        Some(pi) => a.code < 400 && a.url is Some && page_is(a.url->Some_0, elements(a.b.d()), pi) && type_of(a) is Some && mime(type_of(a)->Some_0) == Some(("text"@, "html"@)),
    }
}
@fn src/package_db/simple_api/fetch.rs | fn:fetch_simple_api
@sub? `Request::builder().uri($u).header("Cache-Control", $v).body(())` => `build_request($u, $v)`
@sub? `Request::builder().uri($u).body(())` => `build_request($u, "")`
@sub? `response.status().as_u16()` => `response.code()`
@sub? `response.extensions().get::<Url>().unwrap().to_owned()` => `response.url().unwrap().clone()`
@sub? `response.headers().get("Content-Type")` => `response.content_type()`
@sub? `super::parse_html` => `parse_html`
@sub? `let content_type = $e.to_owned();` => `let content_type = to_text($e);`
@sub? `&content_type` => `content_type.as_str()`
@params http url
@sig pub fn fetch_simple_api(http: &Http, url: &Url) -> (r: Result<Option<ProjectInfo>, Report>)
    ensures r matches Ok(p) ==> exists|a: Response| #[trigger] answered(url.text(), "max-age=0"@, CacheMode::Default, a) && outcome(a, p)
@endfn
}
fn main() {}
