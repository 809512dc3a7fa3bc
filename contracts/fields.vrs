@include contracts/peg.vrs
@note how a metadata file is read (PEP 566 and email.parser): header lines, a blank line, a body
verus! {
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if 'A' <= c <= 'Z' { (c as u8 + 32) as char } else { c }) }
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// lowercased name -> values in file order
pub type FieldMap = Map<Seq<char>, Seq<Seq<char>>>;
#[verifier::external_body]
pub struct Fields { x: u8 }
impl Fields {
    pub uninterp spec fn m(&self) -> FieldMap;
    #[verifier::external_body]
    pub fn new() -> (r: Fields) ensures r.m() == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() }
    // entry(k).or_default().push(v)
    #[verifier::external_body]
    pub fn put(&mut self, k: String, v: String) ensures final(self).m() == also(old(self).m(), (k@, v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<Vec<String>>)
        ensures
            final(self).m() == old(self).m().remove(k@),
            r is Some <==> old(self).m().contains_key(k@),
            r is Some ==> texts(r->Some_0@) == old(self).m()[k@],
    { unimplemented!() }
}
@type src/vocab/rfc822ish.rs | type:RFC822ish ;

// ---- lines
// a line ends with CR LF, CR or LF
pub open spec fn eol(s: S) -> int { if s.len() == 0 { 0 } else if s[0] == '\r' { if s.len() > 1 && s[1] == '\n' { 2 } else { 1 } } else if s[0] == '\n' { 1 } else { 0 } }
pub open spec fn gap(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn gaps(s: S) -> int decreases s.len() { if s.len() > 0 && gap(s[0]) { 1 + gaps(s.skip(1)) } else { 0 } }
// a field's name: printable ASCII other than the colon
pub open spec fn name_char(c: char) -> bool { '!' <= c && c <= '~' && c != ':' }
pub open spec fn name_len(s: S) -> int decreases s.len() { if s.len() > 0 && name_char(s[0]) { 1 + name_len(s.skip(1)) } else { 0 } }
// a value goes on to the end of its line, and over each line that begins with a blank
pub open spec fn value_len(s: S) -> int decreases s.len() {
    if s.len() == 0 { 0 }
    else if eol(s) == 0 { 1 + value_len(s.skip(1)) }
    else if s.len() > eol(s) && gap(s[eol(s)]) { eol(s) + 1 + value_len(s.skip(eol(s) + 1)) }
    else { 0 }
}
pub open spec fn value_of(s: S) -> S { s.skip(gaps(s)) }
pub open spec fn one_field(s: S) -> Option<((S, S), S)> {
    let n = name_len(s);
    if 0 < n < s.len() && s[n] == ':' {
        let v = value_of(s.skip(n + 1));
        Some(((lower(s.take(n)), v.take(value_len(v))), v.skip(value_len(v))))
    } else { None }
}
pub open spec fn more_fields(s: S) -> (Seq<(S, S)>, S) decreases s.len() {
    if eol(s) > 0 {
        match one_field(s.skip(eol(s))) {
            Some((f, r)) => if r.len() < s.len() { (seq![f] + more_fields(r).0, more_fields(r).1) } else { (seq![], s) },
            None => (seq![], s),
        }
    } else { (seq![], s) }
}
pub open spec fn all_fields(s: S) -> (Seq<(S, S)>, S) { match one_field(s) { Some((f, r)) => (seq![f] + more_fields(r).0, more_fields(r).1), None => (seq![], s) } }
// what follows the fields: nothing, the last line's end, or an empty line and the body
pub open spec fn body_of(s: S) -> Option<Option<S>> {
    if s.len() == eol(s) { Some(None) }
    else if eol(s) > 0 && eol(s.skip(eol(s))) > 0 { Some(Some(s.skip(eol(s)).skip(eol(s.skip(eol(s)))))) }
    else { None }
}
pub open spec fn also(m: FieldMap, f: (S, S)) -> FieldMap { m.insert(f.0, (if m.contains_key(f.0) { m[f.0] } else { seq![] }).push(f.1)) }
pub open spec fn collected(v: Seq<(S, S)>) -> FieldMap decreases v.len() { if v.len() == 0 { Map::empty() } else { also(collected(v.drop_last()), v.last()) } }
pub open spec fn spec_fields(t: S) -> Option<FieldMap> { if body_of(all_fields(t).1) is Some { Some(collected(all_fields(t).0)) } else { None } }
// the values a file lists for a field, whatever the case of its name
pub open spec fn vals(m: FieldMap, key: S) -> Seq<S> { if m.contains_key(lower(key)) { m[lower(key)] } else { seq![] } }
}
