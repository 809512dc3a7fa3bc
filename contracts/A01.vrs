@include contracts/common.vrs
@include contracts/tree_spec.vrs
verus! {
// the accepted place has only safe names: no '..', '.', separators, empty names
pub proof fn lemma_resolve_safe(start: Seq<Seq<char>>, cs: Seq<Comp>)
    requires all_safe(start), resolve(start, cs) is Some
    ensures all_safe(resolve(start, cs)->Some_0)
    decreases cs.len()
{ if cs.len() > 0 { lemma_resolve_safe(start, cs.drop_last()); } }

@fn src/tree.rs | TryFrom<&UnixPath> for NicePathBuf/fn:try_from
@sub? `vec![]` => `Vec::new()`
@sub? `check_path_piece($p)?.into()` => `owned(check_path_piece($p)?)`
@params value
@sig pub fn nice_from_unix(value: &UnixPath) -> (r: Result<NicePathBuf, Report>)
    ensures
        // accepted exactly when it resolves inside, and then it denotes the resolved place
        r is Ok <==> resolve(seq![], comps(value.bytes())) is Some,
        r is Ok ==> Some(r->Ok_0.at()) == resolve(seq![], comps(value.bytes())) && r->Ok_0.wf(),
@at start
let ghost cs = comps(value.bytes());
@loop 1 iter=it
    invariant
        cs == comps(value.bytes()),
        cvs(it.seq()) == cs,
        resolve(seq![], cs.take(it.index())) == Some(new.at()),
@at loop 1 before
proof { assert(cs.take(0) =~= seq![]); assert(sviews(Seq::<String>::empty()) =~= seq![]); }
@at loop 1 start
let ghost at0 = new.at();
proof {
    let i = it.index();
    assert(cs[i] == cv(c));
    assert(cs.take(i + 1).drop_last() =~= cs.take(i));
    assert(cs.take(i + 1).last() == cs[i]);
    if resolve(seq![], cs.take(i + 1)) is None { lemma_resolve_prefix(seq![], cs, i + 1); }
}
@at loop 1 end
proof {
    let i = it.index();
    assert(resolve(seq![], cs.take(i + 1)) == Some(new.at())) by {
        match cs[i] {
            Comp::Normal(b) => { assert(new.at() =~= at0.push(utf8(b)->Some_0)); }
            Comp::Parent => { assert(new.at() =~= at0.drop_last()); }
            _ => {}
        }
    }
}
@at loop 1 after
proof {
    assert(cs.take(cs.len() as int) =~= cs);
    lemma_resolve_safe(seq![], cs);
    assert forall|i: int| 0 <= i < new.pieces@.len() implies safe_name(#[trigger] new.pieces@[i]@) by { assert(new.at()[i] == new.pieces@[i]@); }
}
@endfn

@fn src/tree.rs | TryFrom<&[u8]> for NicePathBuf/fn:try_from
@sub `$e.try_into()` => `nice_from_unix(&$e)`
@params value
@sig pub fn nice_from_bytes(value: &[u8]) -> (r: Result<NicePathBuf, Report>)
    ensures
        r is Ok <==> resolve(seq![], comps(value@)) is Some,
        r is Ok ==> Some(r->Ok_0.at()) == resolve(seq![], comps(value@)) && r->Ok_0.wf(),
@endfn

pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn as_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == bytes_of(s@) { unimplemented!() }
@fn src/tree.rs | TryFrom<&str> for NicePathBuf/fn:try_from
@sub? `value.as_bytes()` => `as_bytes(value)`
@sub `$e.try_into()` => `nice_from_bytes($e)`
@params value
@sig pub fn nice_from_str(value: &str) -> (r: Result<NicePathBuf, Report>)
    ensures
        r is Ok <==> resolve(seq![], comps(bytes_of(value@))) is Some,
        r is Ok ==> Some(r->Ok_0.at()) == resolve(seq![], comps(bytes_of(value@))) && r->Ok_0.wf(),
@endfn

#[verifier::external_body]
pub fn starts_with(v: &Vec<String>, p: &Vec<String>) -> (r: bool)
    ensures r <==> p@.len() <= v@.len() && sviews(v@).take(p@.len() as int) =~= sviews(p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn clone_pieces(v: &Vec<String>) -> (r: Vec<String>) ensures sviews(r@) == sviews(v@) { unimplemented!() }
#[verifier::external_body]
pub fn clone_string(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
// a subrange of the components (`self.pieces[index].into()` for a range index)
pub struct Rng { pub lo: usize, pub hi: usize }
#[verifier::external_body]
pub fn sub_pieces(v: &Vec<String>, i: Rng) -> (r: Vec<String>)
    requires i.lo <= i.hi <= v@.len()
    ensures sviews(r@) == sviews(v@).subrange(i.lo as int, i.hi as int)
{ unimplemented!() }
pub struct Formatter { pub out: String }
impl Formatter {
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) -> (r: Result<(), Report>) ensures r is Ok ==> final(self).out@ == old(self).out@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_string(&mut self, s: String) -> (r: Result<(), Report>) ensures r is Ok ==> final(self).out@ == old(self).out@ + s@ { unimplemented!() }
}
impl NicePathBuf {
@fn src/tree.rs | NicePathBuf/fn:len
@sig pub fn len(&self) -> (r: usize) ensures r == self.at().len()
@endfn
@fn src/tree.rs | NicePathBuf/fn:contains
@sub? `$a.starts_with($b)` => `starts_with(&$a, $b)`
@params other
@sig pub fn contains(&self, other: &NicePathBuf) -> (r: bool)
    ensures r <==> self.at().len() <= other.at().len() && other.at().take(self.at().len() as int) =~= self.at()
@endfn
@fn src/tree.rs | NicePathBuf/fn:join
@sub? `self.pieces.clone()` => `clone_pieces(&self.pieces)`
@sub? `piece.clone()` => `clone_string(piece)`
@params other
@sig pub fn join(&self, other: &NicePathBuf) -> (r: NicePathBuf)
    ensures r.at() == self.at() + other.at(), self.wf() && other.wf() ==> r.wf()
@loop 1 iter=it
    invariant
        it.seq().len() == other.pieces@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == other.pieces@[i],
        sviews(pieces@) =~= self.at() + other.at().take(it.index()),
@at loop 1 before
proof { assert(other.at().take(0) =~= seq![]); }
@at loop 1 start
let ghost p0 = sviews(pieces@);
@at loop 1 end
proof {
    let i = it.index();
    assert(other.at().take(i + 1) =~= other.at().take(i).push(other.at()[i]));
    assert(sviews(pieces@) =~= p0.push(other.at()[i]));
}
@at loop 1 after
proof {
    assert(other.at().take(other.at().len() as int) =~= other.at());
    if self.wf() && other.wf() {
        assert forall|i: int| 0 <= i < pieces@.len() implies safe_name(#[trigger] pieces@[i]@) by {
            assert(sviews(pieces@)[i] == pieces@[i]@);
            if i < self.at().len() { assert(self.at()[i] == self.pieces@[i]@); } else { assert(other.at()[i - self.at().len()] == other.pieces@[i - self.at().len()]@); }
        }
    }
}
@endfn
@fn src/tree.rs | NicePathBuf/fn:slice
@sub? `self.pieces[index].into()` => `sub_pieces(&self.pieces, index)`
@params index
@sig pub fn slice(&self, index: Rng) -> (r: NicePathBuf)
    requires index.lo <= index.hi <= self.at().len()
    ensures r.at() == self.at().subrange(index.lo as int, index.hi as int)
@endfn
@fn src/tree.rs | Display for NicePathBuf/fn:fmt
@sub? `self.pieces.is_empty()` => `(self.pieces.len() == 0)`
@sub? `write!(f, ".")` => `f.put(".")`
@sub? `write!(f, "{}", self.pieces.as_slice().join($s))` => `f.put_string(join_strs(self.pieces.as_slice(), $s))`
@params f
@sig pub fn fmt(&self, f: &mut Formatter) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).out@ == old(f).out@ + (if self.at().len() == 0 { "."@ } else { joined(self.at(), "/"@) })
@endfn
}
}
fn main() {}
