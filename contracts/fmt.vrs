@note text: formatting, decimal numbers, comparison with literals
verus! {
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn num(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn digit(n: int) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
// how a number is printed
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub proof fn lemma_dec(n: int)
    requires n >= 0
    ensures digits(dec(n)), num(dec(n)) == n
    decreases n
{
    if n >= 10 {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(0 <= n % 10 < 10); assert(dec(n).last() == digit(n % 10)); assert(dec(n).len() > 0); assert(num(dec(n)) == num(dec(n).drop_last()) * 10 + (dec(n).last() as int - '0' as int));
    } else {
        assert(dec(n).drop_last() =~= Seq::<char>::empty()); assert(dec(n).last() == digit(n)); assert(num(dec(n).drop_last()) == 0); assert(num(dec(n)) == num(dec(n).drop_last()) * 10 + (dec(n).last() as int - '0' as int));
    }
}
pub proof fn lemma_dec_injective(a: int, b: int) requires a >= 0, b >= 0, dec(a) == dec(b) ensures a == b { lemma_dec(a); lemma_dec(b); }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
// format!(..): the pieces one after the other
#[verifier::external_body] pub struct Fmt { x: u8 }
impl Fmt {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Fmt) ensures r.v() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: Fmt) ensures r.v() == (if self.v().len() == 0 { s@ } else { self.v() + s@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Shown>(self, x: &T) -> (r: Fmt) ensures r.v() == (if self.v().len() == 0 { x.shown() } else { self.v() + x.shown() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn dbg<T>(self, x: &T) -> (r: Fmt) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self.v() { unimplemented!() }
}
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn to_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn parse_u32(s: &str) -> (r: Result<u32, Report>) requires digits(s@) ensures r is Ok <==> num(s@) <= u32::MAX, r matches Ok(n) ==> n == num(s@) { unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn in_word(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || is_digit(c) || c == '_' }
pub open spec fn word(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_word(#[trigger] s[i]) }
// what a regular expression found: the text of its groups
#[verifier::external_body] pub struct Captures { x: u8 }
#[verifier::external_body] pub struct Match { x: u8 }
impl Captures {
    pub uninterp spec fn g(&self, i: int) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match>) ensures match r { Some(m) => self.g(i as int) == Some(m.s()), None => self.g(i as int) is None } { unimplemented!() }
}
impl Match {
    pub uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str<'a>(self) -> (r: &'a str) ensures r@ == self.s() { unimplemented!() }
}
}
