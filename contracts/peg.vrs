verus! {
pub type S = Seq<char>;
pub open spec fn starts(s: S, t: S) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
// ---- what peg provides
pub struct Text { pub c: Vec<char> }
impl View for Text { type V = S; open spec fn view(&self) -> S { self.c@ } }
impl Text {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
    pub fn at(&self, pos: usize) -> (r: Option<char>)
        requires pos <= self@.len()
        ensures match r { Some(c) => pos < self@.len() && pos < usize::MAX && self@.skip(pos as int).len() > 0 && self@.skip(pos as int)[0] == c && self@.skip(pos + 1) == self@.skip(pos as int).skip(1), None => self@.skip(pos as int).len() == 0 }
    { if pos < self.c.len() { proof { assert(self@.skip(pos + 1) =~= self@.skip(pos as int).skip(1)); } Some(self.c[pos]) } else { None } }
    #[verifier::external_body]
    pub fn slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b <= self@.len()
        ensures r@ == self@.skip(a as int).take(b - a)
    { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.c.len() }
}
#[verifier::external_body]
pub fn lit(input: &Text, pos: usize, t: &str) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r {
        Some((_, q)) => q == pos + t@.len() && q <= input@.len() && starts(input@.skip(pos as int), t@) && input@.skip(q as int) == input@.skip(pos as int).skip(t@.len() as int),
        None => !starts(input@.skip(pos as int), t@),
    }
{ unimplemented!() }
pub fn no_match<T>() -> (r: Option<T>) ensures r is None { None }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
pub proof fn lemma_skips(s: S, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
}
