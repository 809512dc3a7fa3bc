@include contracts/http.vrs
@include contracts/cachebody.vrs
verus! {
#[derive(Copy, Clone)]
@type src/package_db/http/http.rs | type:CacheStatus ;
pub type Text = Seq<char>;
// ---- addresses: the url and http crates
#[verifier::external_body] pub struct Url { x: u8 }
impl Url {
    pub uninterp spec fn text(&self) -> Text;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, Report>) ensures r is Ok ==> Some(r->Ok_0.text()) == url_parse(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, Report>) ensures r is Ok ==> Some(r->Ok_0.text()) == url_join(self.text(), s@) { unimplemented!() }
}
pub uninterp spec fn url_parse(s: Text) -> Option<Text>;
pub uninterp spec fn url_join(base: Text, s: Text) -> Option<Text>;
// http::Uri: parsing drops the fragment
pub uninterp spec fn uri_parse(s: Text) -> Option<Text>;
#[verifier::external_body] pub struct Uri { x: u8 }
impl Uri {
    pub uninterp spec fn text(&self) -> Text;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body] pub struct Bytes { x: u8 }
impl Bytes { pub uninterp spec fn b(&self) -> Seq<u8>; #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() } }
// the text UTF-8 bytes spell
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Text>;
#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Report>) ensures r is Ok ==> utf8(b@) == Some(r->Ok_0@) { unimplemented!() }
#[verifier::external_body]
pub fn string_bytes(s: String) -> (r: Vec<u8>) ensures utf8(r@) == Some(s@) { unimplemented!() }

// ---- requests and responses: the http crate
pub type HeaderPairs = Seq<(Text, Seq<u8>)>;
#[verifier::external_body] pub struct ReqParts { x: u8 }
impl ReqParts {
    pub uninterp spec fn method(&self) -> Text;
    pub uninterp spec fn uri(&self) -> Text;
    pub uninterp spec fn heads(&self) -> HeaderPairs;
}
pub struct Request { pub p: ReqParts }
#[verifier::external_body] pub struct Method { x: u8 }
impl Method {
    pub uninterp spec fn text(&self) -> Text;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_get(&self) -> (r: bool) ensures r == (self.text() == "GET"@) { unimplemented!() }
}
#[verifier::external_body] pub struct HeaderName { x: u8 }
impl HeaderName { pub uninterp spec fn text(&self) -> Text; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() } }
impl Request {
    pub open spec fn method_text(&self) -> Text { self.p.method() }
    pub open spec fn uri_text(&self) -> Text { self.p.uri() }
    pub fn from_parts(p: ReqParts, b: ()) -> (r: Request) ensures r.p == p { Request { p } }
    #[verifier::external_body]
    pub fn method(&self) -> (r: &Method) ensures r.text() == self.method_text() { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &Uri) ensures r.text() == self.uri_text() { unimplemented!() }
    // `*request.uri_mut() = text.try_into()?`: only the address changes
    #[verifier::external_body]
    pub fn set_uri(&mut self, t: String) -> (r: Result<(), Report>)
        ensures
            r is Err ==> *final(self) == *old(self),
            r is Ok ==> Some(final(self).uri_text()) == uri_parse(t@) && final(self).method_text() == old(self).method_text() && final(self).p.heads() == old(self).p.heads(),
    { unimplemented!() }
    // the header fields in order
    #[verifier::external_body]
    pub fn header_list(&self) -> (r: Vec<(HeaderName, Bytes)>)
        ensures r@.len() == self.p.heads().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.text() == self.p.heads()[i].0 && r@[i].1.b() == self.p.heads()[i].1,
    { unimplemented!() }
}
#[verifier::external_body] pub struct Heads { x: u8 }
pub uninterp spec fn lookup(h: Heads, name: Text) -> Option<Seq<u8>>;
// header names do not distinguish case
#[verifier::external_body]
pub proof fn axiom_case() ensures forall|h: Heads| #[trigger] lookup(h, "location"@) == lookup(h, "Location"@) { unimplemented!() }
impl Heads {
    // every field, in order
    pub uninterp spec fn pairs(&self) -> Seq<(Text, Text)>;
    #[verifier::external_body]
    pub fn get(&self, name: &str) -> (r: Option<&Bytes>)
        ensures r is Some <==> lookup(*self, name@) is Some, r is Some ==> lookup(*self, name@) == Some(r->Some_0.b())
    { unimplemented!() }
}
pub struct Parts { pub status: u16, pub heads: Heads, pub url: Option<Url>, pub cache: Option<CacheStatus> }
pub struct Response<B> { pub parts: Parts, pub body: B }
pub trait Extension: Sized { spec fn put(self, p: Parts) -> Parts; fn insert(self, p: &mut Parts) ensures *final(p) == self.put(*old(p)); }
impl Extension for CacheStatus {
    open spec fn put(self, p: Parts) -> Parts { Parts { cache: Some(self), ..p } }
    fn insert(self, p: &mut Parts) { p.cache = Some(self); }
}
impl Extension for Url {
    open spec fn put(self, p: Parts) -> Parts { Parts { url: Some(self), ..p } }
    fn insert(self, p: &mut Parts) { p.url = Some(self); }
}
impl<B> Response<B> {
    pub fn from_parts(parts: Parts, body: B) -> (r: Response<B>) ensures r.parts == parts, r.body == body { Response { parts, body } }
    pub fn into_parts(self) -> (r: (Parts, B)) ensures r.0 == self.parts, r.1 == self.body { (self.parts, self.body) }
    pub fn into_body(self) -> (r: B) ensures r == self.body { self.body }
    pub fn headers(&self) -> (r: &Heads) ensures *r == self.parts.heads { &self.parts.heads }
    pub fn status_u16(&self) -> (r: u16) ensures r == self.parts.status { self.parts.status }
    pub fn put<E: Extension>(&mut self, e: E) ensures final(self).parts == e.put(old(self).parts), final(self).body == old(self).body { e.insert(&mut self.parts); }
}
// http::response::Builder
pub struct Builder { pub st: u16, pub hs: Ghost<Seq<(Text, Text)>> }
impl Builder {
    pub fn new() -> (r: Builder) ensures r.hs@ == Seq::<(Text, Text)>::empty() { Builder { st: 200, hs: Ghost(Seq::empty()) } }
    pub fn status(self, s: u16) -> (r: Builder) ensures r.st == s, r.hs@ == self.hs@ { Builder { st: s, hs: self.hs } }
    #[verifier::external_body]
    pub fn header(self, n: &String, v: &str) -> (r: Builder) ensures r.st == self.st, r.hs@ == self.hs@.push((n@, v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn body<B>(self, b: B) -> (r: Result<Response<B>, Report>) ensures r is Ok ==> r->Ok_0.body == b && r->Ok_0.parts.status == self.st && r->Ok_0.parts.heads.pairs() == self.hs@ { unimplemented!() }
}

// ---- the network: what was sent, and what came back
pub ghost struct Sent { pub method: Text, pub url: Text, pub heads: WireHeads, pub got: Option<Reply> }
#[verifier::external_body] pub ghost struct WireHeads { x: int }
#[verifier::external_body] pub ghost struct Reply { x: int }
impl Reply {
    pub uninterp spec fn status(self) -> u16;
    // names as ureq lists them, and the values of one
    pub uninterp spec fn names(self) -> Seq<Text>;
    pub uninterp spec fn values(self, name: Text) -> Seq<Text>;
    pub uninterp spec fn body(self) -> Seq<u8>;
}
pub struct Net { pub log: Ghost<Seq<Sent>> }
#[verifier::external_body] pub struct Agent { x: u8 }
#[verifier::external_body] pub struct UreqRequest { x: u8 }
#[verifier::external_body] pub struct UreqResponse { x: u8 }
// ureq::Request::set
pub uninterp spec fn no_heads() -> WireHeads;
pub uninterp spec fn with_head(h: WireHeads, n: Text, v: Text) -> WireHeads;
impl Agent {
    #[verifier::external_body]
    pub fn request_url(&self, m: &str, u: &Url) -> (r: UreqRequest) ensures r.method() == m@, r.url() == u.text(), r.heads() == no_heads() { unimplemented!() }
}
impl UreqRequest {
    pub uninterp spec fn method(&self) -> Text;
    pub uninterp spec fn url(&self) -> Text;
    pub uninterp spec fn heads(&self) -> WireHeads;
    #[verifier::external_body]
    pub fn set(self, n: &str, v: &str) -> (r: UreqRequest) ensures r.method() == self.method(), r.url() == self.url(), r.heads() == with_head(self.heads(), n@, v@) { unimplemented!() }
}
impl UreqResponse {
    pub uninterp spec fn rep(&self) -> Reply;
    #[verifier::external_body]
    pub fn status(&self) -> (r: u16) ensures r == self.rep().status() { unimplemented!() }
    #[verifier::external_body]
    pub fn headers_names(&self) -> (r: Vec<String>) ensures r@.len() == self.rep().names().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.rep().names()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn all(&self, n: &String) -> (r: Vec<&str>) ensures r@.len() == self.rep().values(n@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.rep().values(n@)[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_reader(self) -> (r: Body) ensures r.d@ == self.rep().body() { unimplemented!() }
}
// call_with_retry (contracts/H02.vrs), any status accepted: one exchange, its retries included
#[verifier::external_body]
pub fn exchange(q: UreqRequest, net: &mut Net) -> (r: Result<UreqResponse, Report>)
    ensures final(net).log@ == old(net).log@.push(Sent { method: q.method(), url: q.url(), heads: q.heads(), got: if r is Ok { Some(r->Ok_0.rep()) } else { None } }),
{ unimplemented!() }

// ---- property text: one exchange
pub open spec fn wire_heads(hs: HeaderPairs) -> WireHeads
    decreases hs.len()
{ if hs.len() == 0 { no_heads() } else { with_head(wire_heads(hs.drop_last()), hs.last().0, utf8(hs.last().1)->Some_0) } }
pub open spec fn flat_values(n: Text, vs: Seq<Text>) -> Seq<(Text, Text)> { vs.map_values(|v: Text| (n, v)) }
pub open spec fn flat(rep: Reply, ns: Seq<Text>) -> Seq<(Text, Text)>
    decreases ns.len()
{ if ns.len() == 0 { seq![] } else { flat(rep, ns.drop_last()) + flat_values(ns.last(), rep.values(ns.last())) } }
// the request went out as it is: method, address, every header
pub open spec fn sent(req: Request, x: Sent) -> bool { x.method == req.method_text() && Some(x.url) == url_parse(req.uri_text()) && x.heads == wire_heads(req.p.heads()) }
// the parts are the reply's: status and every header
pub open spec fn came(x: Sent, p: Parts) -> bool { x.got is Some && p.status == x.got->Some_0.status() && p.heads.pairs() == flat(x.got->Some_0, x.got->Some_0.names()) }
pub open spec fn reply_body(x: Sent) -> Seq<u8> { x.got->Some_0.body() }

@fn src/package_db/http/ureq_glue.rs | fn:do_request_ureq
@sub? `&Url::parse(&req.uri().to_string())?` => `&Url::parse(req.uri().to_string().as_str())?`
@sub? `req.headers().into_iter()` => `req.header_list()`
@sub? `std::str::from_utf8($x)` => `from_utf8($x)`
@sub? `call_with_retry(ureq_req).or_any_status()` => `exchange(ureq_req, net)`
@sub? `http::Response::builder()` => `Builder::new()`
@forwhile 1
@forwhile 2
@forwhile 3
@params agent req
@sig pub fn do_request_ureq(agent: &Agent, req: &Request, net: &mut Net) -> (r: Result<Response<Body>, Report>)
    ensures
        r is Ok ==> final(net).log@.len() == old(net).log@.len() + 1,
        final(net).log@ == old(net).log@ || (final(net).log@ == old(net).log@.push(final(net).log@.last()) && sent(*req, final(net).log@.last())),
        r is Ok ==> came(final(net).log@.last(), r->Ok_0.parts) && r->Ok_0.body.d@ == reply_body(final(net).log@.last()),
@loop 1
    invariant
        it1.wf(), it1.all@.len() == req.p.heads().len(),
        forall|i: int| 0 <= i < it1.all@.len() ==> (#[trigger] it1.all@[i]).0.text() == req.p.heads()[i].0 && it1.all@[i].1.b() == req.p.heads()[i].1,
        ureq_req.method() == req.method_text(), Some(ureq_req.url()) == url_parse(req.uri_text()), ureq_req.heads() == wire_heads(req.p.heads().take(it1.i@)), net.log@ == old(net).log@,
    decreases it1.all@.len() - it1.i@
@at loop 1 before
proof { assert(req.p.heads().take(0).len() == 0); }
@at loop 1 start
proof { assert(req.p.heads().take(it1.i@ + 1).drop_last() =~= req.p.heads().take(it1.i@)); }
@at loop 1 after
proof { assert(req.p.heads().take(req.p.heads().len() as int) =~= req.p.heads()); }
@loop 2
    invariant
        it2.wf(), it2.all@.len() == ureq_response.rep().names().len(),
        forall|i: int| 0 <= i < it2.all@.len() ==> (#[trigger] it2.all@[i])@ == ureq_response.rep().names()[i],
        response.st == ureq_response.rep().status(), response.hs@ == flat(ureq_response.rep(), ureq_response.rep().names().take(it2.i@)),
    decreases it2.all@.len() - it2.i@
@at loop 2 before
proof { assert(ureq_response.rep().names().take(0).len() == 0); }
@at loop 2 start
proof { assert(ureq_response.rep().names().take(it2.i@ + 1).drop_last() =~= ureq_response.rep().names().take(it2.i@)); }
let ghost b0 = response.hs@;
@at loop 2 after
proof { assert(ureq_response.rep().names().take(ureq_response.rep().names().len() as int) =~= ureq_response.rep().names()); }
@loop 3
    invariant
        it3.wf(), it3.all@.len() == ureq_response.rep().values(name@).len(),
        forall|i: int| 0 <= i < it3.all@.len() ==> (#[trigger] it3.all@[i])@ == ureq_response.rep().values(name@)[i],
        response.st == ureq_response.rep().status(), response.hs@ == b0 + flat_values(name@, ureq_response.rep().values(name@).take(it3.i@)),
    decreases it3.all@.len() - it3.i@
@at loop 3 before
proof { assert(b0 + flat_values(name@, ureq_response.rep().values(name@).take(0)) =~= b0); }
@at loop 3 start
let ghost i3 = it3.i@;
@at loop 3 end
proof { assert(b0 + flat_values(name@, ureq_response.rep().values(name@).take(i3 + 1)) =~= (b0 + flat_values(name@, ureq_response.rep().values(name@).take(i3))).push((name@, value@))); }
@at loop 3 after
proof { assert(ureq_response.rep().values(name@).take(ureq_response.rep().values(name@).len() as int) =~= ureq_response.rep().values(name@)); }
@endfn

// ---- the rules of HTTP caching: http-cache-semantics, as it is
#[verifier::external_body] pub struct Time { x: u8 }
#[verifier::external_body] pub fn now() -> (r: Time) { unimplemented!() }
@type dep:http-cache-semantics-1.0.1/src/lib.rs | type:BeforeRequest
@sub `http::response::Parts` => `Parts`
@sub `http::request::Parts` => `ReqParts`
@end
@type dep:http-cache-semantics-1.0.1/src/lib.rs | type:AfterResponse
@sub `http::response::Parts` => `Parts`
@end
pub uninterp spec fn policy_of(req: Request, p: Parts) -> CachePolicy;
impl CachePolicy {
    pub uninterp spec fn before(&self, req: Request, t: Time) -> BeforeRequest;
    pub uninterp spec fn after(&self, req: Request, p: Parts, t: Time) -> AfterResponse;
    pub uninterp spec fn storable(&self) -> bool;
    #[verifier::external_body]
    pub fn new<B>(req: &Request, resp: &Response<B>) -> (r: CachePolicy) ensures r == policy_of(*req, resp.parts) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_storable(&self) -> (r: bool) ensures r == self.storable() { unimplemented!() }
    #[verifier::external_body]
    pub fn before_request(&self, req: &Request, t: Time) -> (r: BeforeRequest) ensures r == self.before(*req, t) { unimplemented!() }
    #[verifier::external_body]
    pub fn after_response<B>(&self, req: &Request, resp: &Response<B>, t: Time) -> (r: AfterResponse) ensures r == self.after(*req, resp.parts, t) { unimplemented!() }
}
@fn src/package_db/http/http.rs | fn:make_response
@sub? `http::Response::from_parts` => `Response::from_parts`
@sub? `response.extensions_mut().insert(cache_status)` => `response.put(cache_status)`
@params parts body cache_status
@sig pub fn make_response(parts: Parts, body: ReadPlusMaybeSeek, cache_status: CacheStatus) -> (r: Response<ReadPlusMaybeSeek>)
    ensures r.body == body, r.parts == cache_status.put(parts),
@endfn
// ---- keys: no two requests with different method or address share one
pub uninterp spec fn le8(n: nat) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_le8() ensures forall|n: nat| (#[trigger] le8(n)).len() == 8, forall|a: nat, b: nat| a <= usize::MAX && b <= usize::MAX && #[trigger] le8(a) == #[trigger] le8(b) ==> a == b { unimplemented!() }
#[verifier::external_body]
pub fn le_bytes(n: usize) -> (r: Vec<u8>) ensures r@ == le8(n as nat) { unimplemented!() }
pub fn extend_bytes(k: &mut Vec<u8>, b: Vec<u8>) ensures final(k)@ == old(k)@ + b@ { let mut b = b; k.append(&mut b); }
pub open spec fn key_of(m: Seq<u8>, u: Seq<u8>) -> Seq<u8> { le8(m.len()) + m + le8(u.len()) + u }
pub proof fn lemma_key(m: Seq<u8>, u: Seq<u8>, m2: Seq<u8>, u2: Seq<u8>)
    requires m.len() <= usize::MAX, m2.len() <= usize::MAX, u.len() <= usize::MAX, u2.len() <= usize::MAX, key_of(m, u) == key_of(m2, u2)
    ensures m == m2, u == u2
{
    axiom_le8();
    let (k, k2) = (key_of(m, u), key_of(m2, u2));
    assert(k.take(8) =~= le8(m.len())); assert(k2.take(8) =~= le8(m2.len()));
    let n = m.len() as int;
    assert(k.subrange(8, 8 + n) =~= m); assert(k2.subrange(8, 8 + n) =~= m2);
    assert(k.skip(16 + n) =~= u); assert(k2.skip(16 + n) =~= u2);
}
// the bytes of a text
pub open spec fn spells(b: Seq<u8>, t: Text) -> bool { utf8(b) == Some(t) }
pub open spec fn key_for(req: Request, k: Seq<u8>) -> bool {
    exists|m: Seq<u8>, u: Seq<u8>| m.len() <= usize::MAX && u.len() <= usize::MAX && #[trigger] spells(m, req.method_text()) && #[trigger] spells(u, req.uri_text()) && k == key_of(m, u)
}
// property: requests sharing a key have the same method and address
pub proof fn lemma_key_for(a: Request, b: Request, k: Seq<u8>)
    requires key_for(a, k), key_for(b, k)
    ensures a.method_text() == b.method_text(), a.uri_text() == b.uri_text()
{
    let (m, u) = choose|m: Seq<u8>, u: Seq<u8>| m.len() <= usize::MAX && u.len() <= usize::MAX && #[trigger] spells(m, a.method_text()) && #[trigger] spells(u, a.uri_text()) && k == key_of(m, u);
    let (m2, u2) = choose|m: Seq<u8>, u: Seq<u8>| m.len() <= usize::MAX && u.len() <= usize::MAX && #[trigger] spells(m, b.method_text()) && #[trigger] spells(u, b.uri_text()) && k == key_of(m, u);
    lemma_key(m, u, m2, u2);
}
@fn src/package_db/http/http.rs | fn:key_for_request
@sub? `Default::default()` => `Vec::new()`
@sub? `req.method().to_string().into_bytes()` => `string_bytes(req.method().to_string())`
@sub? `req.uri().to_string().into_bytes()` => `string_bytes(req.uri().to_string())`
@sub? `key.extend(method.len().to_le_bytes())` => `extend_bytes(&mut key, le_bytes(method.len()))`
@sub? `key.extend(uri.len().to_le_bytes())` => `extend_bytes(&mut key, le_bytes(uri.len()))`
@sub? `key.extend(method)` => `extend_bytes(&mut key, method)`
@sub? `key.extend(uri)` => `extend_bytes(&mut key, uri)`
@params req
@sig pub fn key_for_request(req: &Request) -> (r: Vec<u8>)
    ensures key_for(*req, r@),
@at start
let ghost mut mb: Seq<u8> = seq![];
let ghost mut ub: Seq<u8> = seq![];
@at after `let method = $e;`
proof { mb = method@; assert(method.len() <= usize::MAX); }
@at after `let uri = $e;`
proof { ub = uri@; assert(uri.len() <= usize::MAX); }
@at after `extend_bytes(&mut key, uri);`
proof { assert(key@ =~= key_of(mb, ub)); assert(spells(mb, req.method_text()) && spells(ub, req.uri_text())); }
@endfn

@type src/package_db/http/http.rs | type:HttpInner
@sub `ureq::Agent` => `Agent`
@end
// ---- property text: one request in a cache mode
pub type Files = Map<Pth, Seq<u8>>;
// the answer given to the caller: these parts (but for the note on where it came from) and this body
pub open spec fn given(r: Response<ReadPlusMaybeSeek>, p: Parts, body: Seq<u8>) -> bool {
    r.parts.status == p.status && r.parts.heads == p.heads && r.parts.url == p.url && r.body.content() == body
}
// stored exactly when it is storable
pub open spec fn kept(e: Pth, p: CachePolicy, body: Seq<u8>, f0: Files, f1: Files) -> bool {
    if p.storable() { f1 == f0.insert(e, written(p, body)) } else { f1 =~= f0.remove(e) }
}
// nothing, all of it, or nothing there anymore
pub open spec fn kept_or_not(e: Pth, p: CachePolicy, body: Seq<u8>, f0: Files, f1: Files) -> bool { f1 == f0 || kept(e, p, body, f0, f1) }
// what an answer to a request for which nothing was cached is given and stored as
pub open spec fn from_network(req: Request, x: Sent, e: Pth, f0: Files, f1: Files, r: Response<ReadPlusMaybeSeek>) -> bool {
    exists|p: Parts| #[trigger] came(x, p) && given(r, p, reply_body(x)) && kept(e, policy_of(req, p), reply_body(x), f0, f1)
}
// the cached entry is stale at t: req2 went out for revalidation and was answered
pub open spec fn revalidated(pol: CachePolicy, body: Seq<u8>, req: Request, t: Time, req2: Request, p: Parts, t2: Time, x: Sent, e: Pth, f0: Files, f1: Files, r: Response<ReadPlusMaybeSeek>) -> bool {
    &&& pol.before(req, t) matches BeforeRequest::Stale { request, .. } && req2.p == request
    &&& sent(req2, x) && came(x, p)
    &&& match pol.after(req2, p, t2) {
        // still good: its body, under the renewed policy
        AfterResponse::NotModified(np, parts) => given(r, parts, body) && f1 == f0.insert(e, written(np, body)),
        AfterResponse::Modified(np, parts) => given(r, parts, reply_body(x)) && kept(e, np, reply_body(x), f0, f1),
    }
}
pub open spec fn fresh(pol: CachePolicy, body: Seq<u8>, req: Request, t: Time, r: Response<ReadPlusMaybeSeek>) -> bool {
    pol.before(req, t) matches BeforeRequest::Fresh(parts) && given(r, parts, body)
}
// what exchanges took place
pub open spec fn none_sent(l0: Seq<Sent>, l1: Seq<Sent>) -> bool { l1 == l0 }
pub open spec fn one_sent(l0: Seq<Sent>, l1: Seq<Sent>) -> bool { l1.len() == l0.len() + 1 && l1 == l0.push(l1.last()) }
pub open spec fn cached(e: Pth, f0: Files, pol: CachePolicy, body: Seq<u8>) -> bool { f0.dom().contains(e) && holds(f0[e], pol, body) }

pub open spec fn from_cache(e: Pth, req: Request, f0: Files, l0: Seq<Sent>, f1: Files, l1: Seq<Sent>, r: Response<ReadPlusMaybeSeek>) -> bool {
    none_sent(l0, l1) && f1 == f0 && f0.dom().contains(e)
        && exists|pol: CachePolicy, body: Seq<u8>, t: Time| #![trigger holds(f0[e], pol, body), pol.before(req, t)] holds(f0[e], pol, body) && fresh(pol, body, req, t, r)
}
pub open spec fn from_revalidation(e: Pth, req: Request, f0: Files, l0: Seq<Sent>, f1: Files, l1: Seq<Sent>, r: Response<ReadPlusMaybeSeek>) -> bool {
    one_sent(l0, l1) && f0.dom().contains(e)
        && exists|pol: CachePolicy, body: Seq<u8>, t: Time, req2: Request, p: Parts, t2: Time| #![trigger holds(f0[e], pol, body), pol.before(req, t), pol.after(req2, p, t2)]
            holds(f0[e], pol, body) && revalidated(pol, body, req, t, req2, p, t2, l1.last(), e, f0, f1, r)
}
pub open spec fn served(e: Pth, req: Request, mode: CacheMode, f0: Files, l0: Seq<Sent>, f1: Files, l1: Seq<Sent>, r: Response<ReadPlusMaybeSeek>) -> bool {
    match mode {
        // neither reads nor changes the cache
        CacheMode::NoStore => f1 == f0 && one_sent(l0, l1) && sent(req, l1.last()) && exists|p: Parts| #[trigger] came(l1.last(), p) && given(r, p, reply_body(l1.last())),
        // never contacts the network
        CacheMode::OnlyIfCached => from_cache(e, req, f0, l0, f1, l1, r),
        CacheMode::Default =>
            // fresh: served from the cache, nothing sent; stale: revalidated; not there: fetched
            from_cache(e, req, f0, l0, f1, l1, r)
            || from_revalidation(e, req, f0, l0, f1, l1, r)
            || (!f0.dom().contains(e) && one_sent(l0, l1) && sent(req, l1.last()) && from_network(req, l1.last(), e, f0, f1, r)),
    }
}
// the same, seen apart from the lock file
pub open spec fn served_under_lock(e: Pth, req: Request, mode: CacheMode, f0: Files, l0: Seq<Sent>, f1: Files, l1: Seq<Sent>, r: Response<ReadPlusMaybeSeek>) -> bool {
    exists|fl: Files| #[trigger] same_but(f0, fl, lock_of(e)) && served(e, req, mode, fl, l0, f1, l1, r)
}
// nothing but the request's entry and its lock changes; without leave to use the network not the entry either
pub open spec fn only_entry(e: Pth, mode: CacheMode, f0: Files, f1: Files) -> bool {
    forall|x: Pth| #![trigger f1.dom().contains(x)] #![trigger f1[x]] x != lock_of(e) && (x != e || mode is OnlyIfCached) ==> (f1.dom().contains(x) <==> f0.dom().contains(x)) && (f0.dom().contains(x) ==> f1[x] == f0[x])
}
#[verifier::external_body]
pub proof fn axiom_digest_len() ensures forall|b: Seq<u8>| (#[trigger] digest(SHA256(), b)).len() == 32 { unimplemented!() }
pub open spec fn handled(e: Pth, np: CachePolicy, parts: Parts, body: Seq<u8>, f0: Files, f1: Files, r: Result<Response<ReadPlusMaybeSeek>, Report>) -> bool {
    kept_or_not(e, np, body, f0, f1) && (r is Ok ==> given(r->Ok_0, parts, body) && kept(e, np, body, f0, f1))
}
impl HttpInner {
    pub open spec fn entry(&self, k: Seq<u8>) -> Pth { self.http_cache.entry(bytes_key(k)) }
@fn src/package_db/http/http.rs | HttpInner/fn:one_request
@sub? `do_request_ureq(&self.agent, $r)` => `do_request_ureq(&self.agent, $r, net)`
@sub? `self.http_cache.lock(&key.as_slice())` => `self.http_cache.lock(&key.as_slice(), w)`
@sub? `let handle_new = |new_policy: CachePolicy, new_parts, body, cache_status, lock: KVFileLock| {` => `let handle_new = |new_policy: CachePolicy, new_parts: Parts, body: Body, cache_status: CacheStatus, lock: KVFileLock, w: &mut World| -> (r: Result<Response<ReadPlusMaybeSeek>, Report>) ensures handled(lock.path.c(), new_policy, new_parts, body.d@, (*old(w)).files, (*final(w)).files, r) {`
@sub? `lock.remove()` => `lock.remove(w)`
@sub? `lock.reader()` => `lock.reader(w)`
@sub? `fill_cache($x)` => `fill_cache($x, w)`
@sub? `handle_new($x,)` => `handle_new($x)`
@sub? `handle_new($x)` => `handle_new($x, w)`
@sub? `SystemTime::now()` => `now()`
@sub? `drop(old_body);` => ``
@sub? `NotCached {}.into()` => `verr()`
@sub? `http::Request::from_parts` => `Request::from_parts`
@sub? `ReadPlusMaybeSeek::CannotSeek(Box::new($x))` => `ReadPlusMaybeSeek::CannotSeek(dyn_read($x))`
@sub? `ReadPlusMaybeSeek::CanSeek(Box::new($x))` => `ReadPlusMaybeSeek::CanSeek(dyn_seek($x))`
@params self request cache_mode
@sig pub fn one_request(&self, request: &Request, cache_mode: CacheMode, w: &mut World, net: &mut Net) -> (r: Result<Response<ReadPlusMaybeSeek>, Report>)
    ensures
        // whatever happens: at most one exchange, none at all in OnlyIfCached; no file but the request's entry and its lock changes
        none_sent(old(net).log@, final(net).log@) || (one_sent(old(net).log@, final(net).log@) && cache_mode !is OnlyIfCached),
        cache_mode is NoStore ==> final(w).files == old(w).files,
        cache_mode is NoStore && r is Ok ==> served(seq![], *request, cache_mode, old(w).files, old(net).log@, final(w).files, final(net).log@, r->Ok_0),
        cache_mode !is NoStore ==> exists|k: Seq<u8>| #[trigger] key_for(*request, k)
            && only_entry(self.entry(k), cache_mode, old(w).files, final(w).files)
            && (r is Ok ==> served_under_lock(self.entry(k), *request, cache_mode, old(w).files, old(net).log@, final(w).files, final(net).log@, r->Ok_0)),
@at after `let key = $e;`
let ghost e = self.entry(key@);
proof { axiom_digest_len(); lemma_keys(Key::Bytes(key@), Key::Bytes(key@), self.http_cache.base.c()); assert(self.entry(key@).last() == bytes_key(key@).last()); assert(Pth::empty() + bytes_key(key@) =~= bytes_key(key@)); }
@endfn

@fn src/package_db/http/http.rs | HttpInner/fn:request
@sub? `request.method() == http::method::Method::GET` => `request.method().is_get()`
@sub? `MAX_REDIRECTS` => `max_redirects_const()`
@sub? `0..=$n {` => `upto($n) {`
@sub? `Url::parse(&request.uri().to_string())` => `Url::parse(request.uri().to_string().as_str())`
@sub? `self.one_request($r)` => `self.one_request($r, w, net)`
@sub? `REDIRECT_STATUSES.contains(&$s)` => `has_status(redirect_statuses(), &$s)`
@sub? `response.status().as_u16()` => `response.status_u16()`
@sub? `std::str::from_utf8($x)` => `from_utf8($x)`
@sub? `*request.uri_mut() = full_target.to_string().try_into()?;` => `request.set_uri(full_target.to_string())?;`
@sub? `response.extensions_mut().insert(url)` => `response.put(url)`
@forwhile 1
@params self request0 cache_mode
@sig pub fn request(&self, request0: Request, cache_mode: CacheMode, w: &mut World, net: &mut Net) -> (r: Result<Response<ReadPlusMaybeSeek>, Report>)
    ensures
        // whatever happens
        cache_mode is OnlyIfCached ==> final(net).log@ == old(net).log@,
        cache_mode is NoStore ==> final(w).files == old(w).files,
        final(net).log@.len() <= old(net).log@.len() + 1 + limit(request0),
        // an answer is the end of a chain of redirects from the request
        r is Ok ==> exists|c: Chain| #[trigger] chain(*self, cache_mode, c, St { files: old(w).files, log: old(net).log@ }, St { files: final(w).files, log: final(net).log@ })
            && c.reqs[0] == request0 && c.reqs.len() <= 1 + limit(request0)
            && !(redirects(c.resps.last()) && (target(c.resps.last()) is Some || c.reqs.len() == 1 + limit(request0)))
            && r->Ok_0.body == c.resps.last().body && r->Ok_0.parts.status == c.resps.last().parts.status && r->Ok_0.parts.heads == c.resps.last().parts.heads
            // the address it came from
            && r->Ok_0.parts.url is Some && Some(r->Ok_0.parts.url->Some_0.text()) == url_parse(c.reqs.last().uri_text()),
@at start
let ghost s0 = St { files: w.files, log: net.log@ };
let ghost mut c = Chain { reqs: seq![request0], resps: seq![], sts: seq![s0] };
proof { axiom_case(); }
@loop 1
    invariant
        s0 == (St { files: old(w).files, log: old(net).log@ }), cache_mode == old_mode,
        it1.wf(), it1.all@.len() == max_redirects + 1, forall|i: int| 0 <= i < it1.all@.len() ==> #[trigger] it1.all@[i] == i,
        max_redirects == limit(request0), it1.i@ <= max_redirects,
        c.resps.len() == it1.i@, linked(*self, cache_mode, c), c.reqs[0] == request0, c.sts[0] == s0, c.sts.last() == (St { files: w.files, log: net.log@ }), c.reqs.last() == request,
        request.method_text() == request0.method_text(),
        cache_mode is OnlyIfCached ==> net.log@ == old(net).log@,
        cache_mode is NoStore ==> w.files == old(w).files,
        net.log@.len() <= old(net).log@.len() + it1.i@,
    decreases it1.all@.len() - it1.i@
@at loop 1 before
let ghost old_mode = cache_mode;
@at loop 1 start
let ghost c0 = c;
let ghost i0 = it1.i@;
@at after `let mut response = $e;`
let ghost resp0 = response;
proof {
    c = Chain { reqs: c0.reqs, resps: c0.resps.push(response), sts: c0.sts.push(St { files: w.files, log: net.log@ }) };
    assert(answered(*self, cache_mode, c.reqs[i0], c.sts[i0], c.sts[i0 + 1], c.resps[i0]));
    assert forall|i: int| 0 <= i < c.resps.len() implies answered(*self, cache_mode, c.reqs[i], c.sts[i], c.sts[i + 1], #[trigger] c.resps[i]) by { if i < i0 { assert(answered(*self, cache_mode, c0.reqs[i], c0.sts[i], c0.sts[i + 1], c0.resps[i])); } }
    assert forall|i: int| 0 <= i < c.reqs.len() - 1 implies follows(#[trigger] c.reqs[i], c.resps[i], c.reqs[i + 1]) by { assert(follows(c0.reqs[i], c0.resps[i], c0.reqs[i + 1])); }
    assert(chain(*self, cache_mode, c, s0, St { files: w.files, log: net.log@ }));
}
@at after `request.set_uri(full_target.to_string())?;`
proof {
    let c1 = c;
    c = Chain { reqs: c1.reqs.push(request), resps: c1.resps, sts: c1.sts };
    assert(follows(c1.reqs[i0], c1.resps[i0], request));
    assert forall|i: int| 0 <= i < c.reqs.len() - 1 implies follows(#[trigger] c.reqs[i], c.resps[i], c.reqs[i + 1]) by { if i < i0 { assert(follows(c1.reqs[i], c1.resps[i], c1.reqs[i + 1])); } }
    assert forall|i: int| 0 <= i < c.resps.len() implies answered(*self, cache_mode, c.reqs[i], c.sts[i], c.sts[i + 1], #[trigger] c.resps[i]) by { assert(answered(*self, cache_mode, c1.reqs[i], c1.sts[i], c1.sts[i + 1], c1.resps[i])); }
}
@endfn
}
// ---- property text: redirects
@fn src/package_db/http/http.rs | const:MAX_REDIRECTS
@sig pub fn max_redirects_const() -> (r: u16) ensures r == 5,
@endfn
@fn src/package_db/http/http.rs | const:REDIRECT_STATUSES
@sig pub fn redirect_statuses() -> (r: &'static [u16])
    ensures forall|s: u16| r@.contains(s) <==> redirect_status(s),
@endfn
pub fn has_status(v: &[u16], x: &u16) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x decreases v@.len() - i { if v[i] == *x { assert(v@[i as int] == *x); return true; } i = i + 1; }
    false
}
// 0..=n
pub fn upto(n: u16) -> (r: Vec<u16>) ensures r@.len() == n + 1, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == i {
    let mut v: Vec<u16> = Vec::new();
    let mut k: u16 = 0;
    while k < n invariant k <= n, v@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == i decreases n - k { v.push(k); k = k + 1; }
    v.push(n);
    v
}
pub open spec fn redirect_status(s: u16) -> bool { s == 301 || s == 302 || s == 303 || s == 307 || s == 308 }
pub open spec fn redirects<B>(r: Response<B>) -> bool { redirect_status(r.parts.status) }
pub open spec fn target<B>(r: Response<B>) -> Option<Seq<u8>> { lookup(r.parts.heads, "Location"@) }
// only for GET, at most five times
pub open spec fn limit(req: Request) -> int { if req.method_text() == "GET"@ { 5 } else { 0 } }
pub ghost struct St { pub files: Files, pub log: Seq<Sent> }
// requests made, the answers to them, and what the world was before each and after the last
pub ghost struct Chain { pub reqs: Seq<Request>, pub resps: Seq<Response<ReadPlusMaybeSeek>>, pub sts: Seq<St> }
pub open spec fn answered(h: HttpInner, mode: CacheMode, req: Request, a: St, b: St, r: Response<ReadPlusMaybeSeek>) -> bool {
    if mode is NoStore { served(seq![], req, mode, a.files, a.log, b.files, b.log, r) }
    else { exists|k: Seq<u8>| #[trigger] key_for(req, k) && only_entry(h.entry(k), mode, a.files, b.files) && served_under_lock(h.entry(k), req, mode, a.files, a.log, b.files, b.log, r) }
}
// the redirect was followed: same request, at the address relative to the one that issued it
pub open spec fn follows(a: Request, r: Response<ReadPlusMaybeSeek>, b: Request) -> bool {
    &&& redirects(r) && target(r) is Some && utf8(target(r)->Some_0) is Some
    &&& b.method_text() == a.method_text() && b.p.heads() == a.p.heads()
    &&& url_parse(a.uri_text()) matches Some(u) && url_join(u, utf8(target(r)->Some_0)->Some_0) matches Some(v) && Some(b.uri_text()) == uri_parse(v)
}
pub open spec fn linked(h: HttpInner, mode: CacheMode, c: Chain) -> bool {
    &&& c.reqs.len() == c.resps.len() + 1 && c.sts.len() == c.resps.len() + 1
    &&& forall|i: int| 0 <= i < c.resps.len() ==> answered(h, mode, c.reqs[i], c.sts[i], c.sts[i + 1], #[trigger] c.resps[i])
    &&& forall|i: int| 0 <= i < c.reqs.len() - 1 ==> follows(#[trigger] c.reqs[i], c.resps[i], c.reqs[i + 1])
}
pub open spec fn chain(h: HttpInner, mode: CacheMode, c: Chain, a: St, b: St) -> bool {
    &&& c.resps.len() > 0 && c.reqs.len() == c.resps.len() && c.sts.len() == c.resps.len() + 1 && c.sts[0] == a && c.sts.last() == b
    &&& forall|i: int| 0 <= i < c.resps.len() ==> answered(h, mode, c.reqs[i], c.sts[i], c.sts[i + 1], #[trigger] c.resps[i])
    &&& forall|i: int| 0 <= i < c.reqs.len() - 1 ==> follows(#[trigger] c.reqs[i], c.resps[i], c.reqs[i + 1])
}
}
fn main() {}
