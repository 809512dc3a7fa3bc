verus! {
// ---- sets of tags
#[verifier::external_body] pub struct TagSet { x: u8 }
impl TagSet {
    pub uninterp spec fn holds(&self, t: Tag) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: TagSet) ensures forall|t: Tag| !#[trigger] r.holds(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, s: String) -> (r: bool) ensures forall|t: Tag| #[trigger] final(self).holds(t) <==> (old(self).holds(t) || t == s@) { unimplemented!() }
}
pub open spec fn has_text(s: Seq<String>, t: Tag) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == t }
#[verifier::external_body]
pub fn tag_set(v: &Vec<String>) -> (r: TagSet) ensures forall|t: Tag| #[trigger] r.holds(t) <==> has_text(v@, t) { unimplemented!() }
pub trait Tags: Sized {
    spec fn t(&self, t: Tag) -> bool;
    // .into_iter().collect()
    fn listed(self) -> (r: Vec<String>) ensures forall|t: Tag| #[trigger] self.t(t) <==> has_text(r@, t);
}
impl<'a> Tags for &'a TagSet { open spec fn t(&self, t: Tag) -> bool { (**self).holds(t) } #[verifier::external_body] fn listed(self) -> (r: Vec<String>) { unimplemented!() } }
impl<'a> Tags for &'a Vec<String> { open spec fn t(&self, t: Tag) -> bool { has_text((**self)@, t) } #[verifier::external_body] fn listed(self) -> (r: Vec<String>) { unimplemented!() } }
// format!("{}-{}-{}", a, b, c)
pub open spec fn dashed(a: Tag, b: Tag, c: Tag) -> Tag { a + seq!['-'] + b + seq!['-'] + c }
#[verifier::external_body]
pub fn fmt_dashed(a: &String, b: &String, c: &String) -> (r: String) ensures r@ == dashed(a@, b@, c@) { unimplemented!() }

// ---- which tags a file name stands for
pub open spec fn wheel_tag(n: WheelName, i: int, j: int, k: int) -> Tag { dashed(n.py_tags@[i]@, n.abi_tags@[j]@, n.arch_tags@[k]@) }
pub open spec fn before(n: WheelName, i: int, j: int, k: int, a: int, b: int, c: int) -> bool {
    0 <= i < n.py_tags@.len() && 0 <= j < n.abi_tags@.len() && 0 <= k < n.arch_tags@.len() && (i < a || (i == a && (j < b || (j == b && k < c))))
}
pub open spec fn tags_upto(n: WheelName, a: int, b: int, c: int, t: Tag) -> bool { exists|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, b, c) && t == wheel_tag(n, i, j, k) }
pub trait BinaryName: Sized {
    spec fn of(n: ArtifactName) -> Option<Self>;
    spec fn tag(&self, t: Tag) -> bool;
    fn all_tags(&self) -> (r: TagSet) ensures forall|t: Tag| #[trigger] r.holds(t) <==> self.tag(t);
    // ArtifactName::inner_as
    fn named(n: &ArtifactName) -> (r: Option<&Self>) ensures match r { Some(x) => Self::of(*n) == Some(*x), None => Self::of(*n) is None };
}
impl BinaryName for WheelName {
    open spec fn of(n: ArtifactName) -> Option<Self> { match n { ArtifactName::Wheel(w) => Some(w), _ => None } }
    open spec fn tag(&self, t: Tag) -> bool { tags_upto(*self, self.py_tags@.len() as int, 0, 0, t) }
    #[verifier::external_body] fn named(n: &ArtifactName) -> (r: Option<&Self>) { unimplemented!() }
@fn src/vocab/artifact_name.rs | BinaryName for WheelName/fn:all_tags
@sub? `HashSet::new()` => `TagSet::new()`
@sub? `format!("{}-{}-{}", $a, $b, $c)` => `fmt_dashed($a, $b, $c)`
@params self
@sig fn all_tags(&self) -> (r: TagSet)
@loop 1 iter=i1
    invariant i1.seq().len() == self.py_tags@.len(), forall|q: int| 0 <= q < self.py_tags@.len() ==> *(#[trigger] i1.seq()[q]) == self.py_tags@[q],
        forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@, 0, 0, t),
@loop 2 iter=i2
    invariant i2.seq().len() == self.abi_tags@.len(), forall|q: int| 0 <= q < self.abi_tags@.len() ==> *(#[trigger] i2.seq()[q]) == self.abi_tags@[q],
        0 <= i1.index@ < self.py_tags@.len(), *py == self.py_tags@[i1.index@],
        forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@, i2.index@, 0, t),
@at loop 2 after
    proof { assert forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@ + 1, 0, 0, t) by { lemma_row(*self, i1.index@, t); } }
@loop 3 iter=i3
    invariant i3.seq().len() == self.arch_tags@.len(), forall|q: int| 0 <= q < self.arch_tags@.len() ==> *(#[trigger] i3.seq()[q]) == self.arch_tags@[q],
        0 <= i1.index@ < self.py_tags@.len(), *py == self.py_tags@[i1.index@], 0 <= i2.index@ < self.abi_tags@.len(), *abi == self.abi_tags@[i2.index@],
        forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@, i2.index@, i3.index@, t),
@at loop 3 end
    proof { assert forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@, i2.index@, i3.index@ + 1, t) by { lemma_one(*self, i1.index@, i2.index@, i3.index@, t); } }
@at loop 3 after
    proof { assert forall|t: Tag| #[trigger] retval.holds(t) <==> tags_upto(*self, i1.index@, i2.index@ + 1, 0, t) by { lemma_col(*self, i1.index@, i2.index@, t); } }
@endfn
}
proof fn lemma_one(n: WheelName, a: int, b: int, c: int, t: Tag)
    requires 0 <= a < n.py_tags@.len(), 0 <= b < n.abi_tags@.len(), 0 <= c < n.arch_tags@.len()
    ensures tags_upto(n, a, b, c + 1, t) <==> (tags_upto(n, a, b, c, t) || t == wheel_tag(n, a, b, c))
{
    if tags_upto(n, a, b, c + 1, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, b, c + 1) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a, b, c) || (i == a && j == b && k == c));
    }
    if tags_upto(n, a, b, c, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, b, c) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a, b, c + 1));
    }
    assert(before(n, a, b, c, a, b, c + 1));
}
proof fn lemma_col(n: WheelName, a: int, b: int, t: Tag)
    ensures tags_upto(n, a, b, n.arch_tags@.len() as int, t) <==> tags_upto(n, a, b + 1, 0, t)
{
    let l = n.arch_tags@.len() as int;
    if tags_upto(n, a, b, l, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, b, l) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a, b + 1, 0));
    }
    if tags_upto(n, a, b + 1, 0, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, b + 1, 0) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a, b, l));
    }
}
proof fn lemma_row(n: WheelName, a: int, t: Tag)
    ensures tags_upto(n, a, n.abi_tags@.len() as int, 0, t) <==> tags_upto(n, a + 1, 0, 0, t)
{
    let l = n.abi_tags@.len() as int;
    if tags_upto(n, a, l, 0, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a, l, 0) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a + 1, 0, 0));
    }
    if tags_upto(n, a + 1, 0, 0, t) {
        let (i, j, k) = choose|i: int, j: int, k: int| #[trigger] before(n, i, j, k, a + 1, 0, 0) && t == wheel_tag(n, i, j, k);
        assert(before(n, i, j, k, a, l, 0));
    }
}
impl BinaryName for PybiName {
    open spec fn of(n: ArtifactName) -> Option<Self> { match n { ArtifactName::Pybi(w) => Some(w), _ => None } }
    open spec fn tag(&self, t: Tag) -> bool { has_text(self.arch_tags@, t) }
    #[verifier::external_body] fn named(n: &ArtifactName) -> (r: Option<&Self>) { unimplemented!() }
@fn src/vocab/artifact_name.rs | BinaryName for PybiName/fn:all_tags
@sub? `self.arch_tags.iter().cloned().collect()` => `tag_set(&self.arch_tags)`
@params self
@sig fn all_tags(&self) -> (r: TagSet)
@endfn
}
}
