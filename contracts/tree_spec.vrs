verus! {
// ---- property text (A01/A02): which components are safe, and textual resolution
// characters that are unsafe on some platform, or separators
pub open spec fn naughty(c: char) -> bool {
    c == '<' || c == '>' || c == ':' || c == '"' || c == '/' || c == '\\' || c == '|' || c == '?' || c == '*'
}
pub open spec fn control(c: char) -> bool { (c as u32) < 0x20 || c as u32 == 0x7f }
pub open spec fn safe_name(s: Seq<char>) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 0 <= i < s.len() ==> !naughty(#[trigger] s[i]) && !control(s[i])
    &&& s.last() != '.' && s.last() != ' '
}
// UTF-8 decoding (std), uninterpreted
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn safe_piece(b: Seq<u8>) -> bool { utf8(b) matches Some(s) && safe_name(s) }

pub ghost enum Comp { Root, Cur, Parent, Normal(Seq<u8>) }
// how typed_path splits a path into components; uninterpreted here, checked against a
// byte-level splitter by the bounded part
pub uninterp spec fn comps(b: Seq<u8>) -> Seq<Comp>;

// textual resolution starting in directory `start`; None: absolute, unsafe or above the root
pub open spec fn resolve(start: Seq<Seq<char>>, cs: Seq<Comp>) -> Option<Seq<Seq<char>>>
    decreases cs.len()
{
    if cs.len() == 0 { Some(start) } else {
        match resolve(start, cs.drop_last()) {
            None => None,
            Some(at) => match cs.last() {
                Comp::Root => None,
                Comp::Cur => Some(at),
                Comp::Parent => if at.len() > 0 { Some(at.drop_last()) } else { None },
                Comp::Normal(b) => if safe_piece(b) { Some(at.push(utf8(b)->Some_0)) } else { None },
            },
        }
    }
}
// a prefix that cannot be resolved makes the whole unresolvable
pub proof fn lemma_resolve_prefix(start: Seq<Seq<char>>, cs: Seq<Comp>, i: int)
    requires 0 <= i <= cs.len(), resolve(start, cs.take(i)) is None
    ensures resolve(start, cs) is None
    decreases cs.len()
{
    if i < cs.len() {
        assert(cs.drop_last().take(i) =~= cs.take(i));
        lemma_resolve_prefix(start, cs.drop_last(), i);
    } else { assert(cs.take(i) =~= cs); }
}
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }

// ---- stand-ins for std / typed_path
#[verifier::external_body]
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Report>)
    ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> Some(r->Ok_0@) == utf8(b@)
{ unimplemented!() }
pub enum UnixComponent<'a> { RootDir, CurDir, ParentDir, Normal(&'a [u8]) }
pub open spec fn cv(c: UnixComponent) -> Comp {
    match c { UnixComponent::RootDir => Comp::Root, UnixComponent::CurDir => Comp::Cur, UnixComponent::ParentDir => Comp::Parent, UnixComponent::Normal(b) => Comp::Normal(b@) }
}
pub open spec fn cvs(v: Seq<UnixComponent>) -> Seq<Comp> { v.map_values(|c: UnixComponent| cv(c)) }
pub struct UnixPath<'a> { pub b: &'a [u8] }
impl<'a> UnixPath<'a> {
    pub open spec fn bytes(&self) -> Seq<u8> { self.b@ }
    pub fn new(b: &'a [u8]) -> (r: UnixPath<'a>) ensures r.bytes() == b@ { UnixPath { b } }
    #[verifier::external_body]
    pub fn components(&self) -> (r: Vec<UnixComponent<'a>>) ensures cvs(r@) == comps(self.bytes()) { unimplemented!() }
}
#[verifier::external_body]
pub fn contains_any(s: &str, set: Vec<char>) -> (r: bool)
    ensures r <==> exists|i: int| 0 <= i < s@.len() && set@.contains(#[trigger] s@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn contains_by<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,)),
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn is_ascii_control(c: char) -> (r: bool) ensures r == control(c) { unimplemented!() }
#[verifier::external_body]
pub fn ends_with_char(s: &str, c: char) -> (r: bool) ensures r <==> s@.len() > 0 && s@.last() == c { unimplemented!() }
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r <==> s@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// text of a list of names
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
#[verifier::external_body]
pub fn join_strs(v: &[String], sep: &str) -> (r: String) ensures r@ == joined(sviews(v@), sep@) { unimplemented!() }

@fn src/tree.rs | const:NAUGHTY_CHARS
@sub? `&[$x]` => `vec![$x]`
@sig pub fn naughty_chars() -> (r: Vec<char>)
    ensures forall|c: char| r@.contains(c) <==> naughty(c)
@at end
@endfn

@fn src/tree.rs | fn:check_path_piece
@sub? `std::str::from_utf8` => `from_utf8`
@sub? `piece.is_empty()` => `str_is_empty(piece)`
@sub? `piece.contains(NAUGHTY_CHARS)` => `contains_any(piece, naughty_chars())`
@sub? `piece.contains(|$c: char| $e)` => `contains_by(piece, |$c: char| -> (b: bool) ensures b == control($c) { $e })`
@sub? `$c.is_ascii_control()` => `is_ascii_control($c)`
@sub? `piece.ends_with($c)` => `ends_with_char(piece, $c)`
@params piece0
@sig pub fn check_path_piece<'a>(piece0: &'a [u8]) -> (r: Result<&'a str, Report>)
    ensures
        r is Ok <==> safe_piece(piece0@),
        r is Ok ==> Some(r->Ok_0@) == utf8(piece0@),
@endfn

@type src/tree.rs | type:NicePathBuf
@sub `pieces: Vec<String>` => `pub pieces: Vec<String>`
@end
impl NicePathBuf {
    pub open spec fn at(&self) -> Seq<Seq<char>> { sviews(self.pieces@) }
    // every component is a safe name
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.pieces@.len() ==> safe_name(#[trigger] self.pieces@[i]@) }
}
pub open spec fn all_safe(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> safe_name(#[trigger] v[i]) }
}
