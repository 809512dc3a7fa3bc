@note JSON as serde writes and reads it
verus! {
pub enum J { Null, Bool(bool), Str(S), List(Seq<J>), Obj(O) }
// the members of an object; whether one of them is there twice
pub struct O { pub m: Map<S, J>, pub twice: bool }
pub open spec fn nothing_yet() -> O { O { m: Map::empty(), twice: false } }
impl O {
    pub open spec fn put(self, n: S, j: J) -> O { O { m: self.m.insert(n, j), twice: self.twice || self.m.contains_key(n) } }
    pub open spec fn merge(self, o: O) -> O { O { m: self.m.union_prefer_right(o.m), twice: self.twice || o.twice || exists|n: S| self.m.contains_key(n) && o.m.contains_key(n) } }
    pub open spec fn rest(self, ns: Set<S>) -> O { O { m: self.m.remove_keys(ns), twice: self.twice } }
}
pub open spec fn members(j: J) -> O { j->Obj_0 }
// what values of a type say (W), how that is written and read, and for which values reading gives back what was written
pub trait Js {
    type W;
    spec fn w(m: Self::W) -> J;
    spec fn r(j: J) -> Option<Self::W>;
    spec fn fit(m: Self::W) -> bool;
    proof fn back(m: Self::W) requires Self::fit(m) ensures Self::r(Self::w(m)) == Some(m);
}
// ..those written as their text (SerializeDisplay, DeserializeFromStr)
pub trait AsText { type W; spec fn print(m: Self::W) -> S; spec fn read(s: S) -> Option<Self::W>; spec fn fit(m: Self::W) -> bool; proof fn again(m: Self::W) requires Self::fit(m) ensures Self::read(Self::print(m)) == Some(m); }
// ..those compared by part of what they say
pub trait Keyed: Js { spec fn key(m: Self::W) -> S; }
pub trait Dflt: Js { spec fn dflt() -> Self::W; }
pub open spec fn need<T: Js>(o: O, n: S) -> Option<T::W> { if o.m.contains_key(n) { T::r(o.m[n]) } else { None } }
pub open spec fn or_default<T: Dflt>(o: O, n: S) -> Option<T::W> { if o.m.contains_key(n) { T::r(o.m[n]) } else { Some(T::dflt()) } }
impl Js for bool {
    type W = bool;
    open spec fn w(m: bool) -> J { J::Bool(m) }
    open spec fn r(j: J) -> Option<bool> { match j { J::Bool(b) => Some(b), _ => None } }
    open spec fn fit(m: bool) -> bool { true }
    proof fn back(m: bool) {}
}
impl Js for String {
    type W = S;
    open spec fn w(m: S) -> J { J::Str(m) }
    open spec fn r(j: J) -> Option<S> { match j { J::Str(s) => Some(s), _ => None } }
    open spec fn fit(m: S) -> bool { true }
    proof fn back(m: S) {}
}
// text that can only be borrowed from what is read: there is none to borrow from when reading a file or a value
pub struct Borrowed { pub x: u8 }
impl Js for Borrowed {
    type W = S;
    open spec fn w(m: S) -> J { J::Str(m) }
    open spec fn r(j: J) -> Option<S> { None }
    open spec fn fit(m: S) -> bool { false }
    proof fn back(m: S) {}
}
impl<T: Js> Js for Vec<T> {
    type W = Seq<T::W>;
    open spec fn w(m: Seq<T::W>) -> J { J::List(m.map_values(|x: T::W| T::w(x))) }
    open spec fn fit(m: Seq<T::W>) -> bool { forall|i: int| 0 <= i < m.len() ==> T::fit(#[trigger] m[i]) }
    open spec fn r(j: J) -> Option<Seq<T::W>> { match j { J::List(l) => if forall|i: int| 0 <= i < l.len() ==> T::r(#[trigger] l[i]) is Some { Some(l.map_values(|x: J| T::r(x)->Some_0)) } else { None }, _ => None } }
    proof fn back(m: Seq<T::W>) {
        let l = m.map_values(|x: T::W| T::w(x));
        assert forall|i: int| 0 <= i < l.len() implies T::r(#[trigger] l[i]) == Some(m[i]) by { T::back(m[i]); }
        assert(l.map_values(|x: J| T::r(x)->Some_0) =~= m);
    }
}
impl<A: Js, B: Js> Js for (A, B) {
    type W = (A::W, B::W);
    open spec fn w(m: (A::W, B::W)) -> J { J::List(seq![A::w(m.0), B::w(m.1)]) }
    open spec fn r(j: J) -> Option<(A::W, B::W)> { match j { J::List(l) => if l.len() == 2 { match (A::r(l[0]), B::r(l[1])) { (Some(a), Some(b)) => Some((a, b)), _ => None } } else { None }, _ => None } }
    open spec fn fit(m: (A::W, B::W)) -> bool { A::fit(m.0) && B::fit(m.1) }
    proof fn back(m: (A::W, B::W)) { A::back(m.0); B::back(m.1); }
}
// a set is listed in some order, each element once
pub uninterp spec fn order<X>(s: Set<X>) -> Seq<X>;
pub open spec fn lists<X>(v: Seq<X>, s: Set<X>) -> bool { v.no_duplicates() && forall|x: X| #[trigger] v.contains(x) <==> s.contains(x) }
#[verifier::external_body]
pub proof fn some_order<X>(s: Set<X>) requires s.finite() ensures lists(order(s), s) { unimplemented!() }
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { pub v: Vec<T> }
// inserting one after the other: an element equal to one already there changes nothing
pub open spec fn gather<T: Keyed>(l: Seq<T::W>) -> Set<T::W> decreases l.len() {
    if l.len() == 0 { Set::empty() } else { let s = gather::<T>(l.drop_last()); if exists|x: T::W| s.contains(x) && T::key(x) == T::key(l.last()) { s } else { s.insert(l.last()) } }
}
pub proof fn lemma_gather<T: Keyed>(l: Seq<T::W>)
    requires forall|i: int, k: int| 0 <= i < k < l.len() ==> T::key(#[trigger] l[i]) != T::key(#[trigger] l[k])
    ensures forall|x: T::W| #[trigger] gather::<T>(l).contains(x) <==> l.contains(x), gather::<T>(l).finite()
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int, k: int| 0 <= i < k < d.len() implies T::key(#[trigger] d[i]) != T::key(#[trigger] d[k]) by { assert(d[i] == l[i] && d[k] == l[k]); }
        lemma_gather::<T>(d);
        let s = gather::<T>(d);
        assert forall|x: T::W| s.contains(x) implies T::key(x) != T::key(l.last()) by { assert(d.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(l[i] == x); }
        assert forall|x: T::W| gather::<T>(l).contains(x) <==> l.contains(x) by {
            if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; if i < d.len() { assert(d[i] == x); } }
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(l[i] == x); }
            assert(l[l.len() - 1] == l.last());
        }
    }
}
impl<T: Keyed> Js for HashSet<T> {
    type W = Set<T::W>;
    open spec fn w(m: Set<T::W>) -> J { <Vec<T> as Js>::w(order(m)) }
    open spec fn r(j: J) -> Option<Set<T::W>> { match <Vec<T> as Js>::r(j) { Some(l) => Some(gather::<T>(l)), None => None } }
    open spec fn fit(m: Set<T::W>) -> bool { m.finite() && (forall|x: T::W| #[trigger] m.contains(x) ==> T::fit(x)) && forall|x: T::W, y: T::W| #[trigger] m.contains(x) && #[trigger] m.contains(y) && T::key(x) == T::key(y) ==> x == y }
    proof fn back(m: Set<T::W>) {
        some_order(m);
        let l = order(m);
        assert forall|i: int| 0 <= i < l.len() implies T::fit(#[trigger] l[i]) by { assert(l.contains(l[i])); }
        <Vec<T> as Js>::back(l);
        assert forall|i: int, k: int| 0 <= i < k < l.len() implies T::key(#[trigger] l[i]) != T::key(#[trigger] l[k]) by { assert(l.contains(l[i]) && l.contains(l[k])); }
        lemma_gather::<T>(l);
        assert forall|x: T::W| gather::<T>(l).contains(x) == m.contains(x) by { assert(l.contains(x) <==> m.contains(x)); }
        assert(gather::<T>(l) =~= m);
    }
}
// a table whose keys are written as their text
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { pub k: Vec<K>, pub v: Vec<V> }
pub open spec fn same_table<K: AsText, V: Js>(o: O, m: Map<K::W, V::W>) -> bool {
    &&& forall|s: S| #[trigger] o.m.contains_key(s) ==> (K::read(s) matches Some(k) && m.contains_key(k) && V::r(o.m[s]) == Some(m[k]))
    &&& forall|k: K::W| #[trigger] m.contains_key(k) ==> exists|s: S| #[trigger] o.m.contains_key(s) && K::read(s) == Some(k)
}
pub open spec fn r_table<K: AsText, V: Js>(j: J) -> Option<Map<K::W, V::W>> {
    match j { J::Obj(o) => if !o.twice && exists|m: Map<K::W, V::W>| same_table::<K, V>(o, m) { Some(choose|m: Map<K::W, V::W>| same_table::<K, V>(o, m)) } else { None }, _ => None }
}
// the members a list of pairs is written as
pub open spec fn obj_of(l: Seq<(S, J)>) -> O decreases l.len() { if l.len() == 0 { nothing_yet() } else { obj_of(l.drop_last()).put(l.last().0, l.last().1) } }
pub open spec fn apart(l: Seq<(S, J)>) -> bool { forall|i: int, k: int| 0 <= i < k < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[k]).0 }
pub proof fn lemma_obj(l: Seq<(S, J)>)
    requires apart(l)
    ensures !obj_of(l).twice, forall|s: S| #[trigger] obj_of(l).m.contains_key(s) ==> l.contains((s, obj_of(l).m[s])), forall|i: int| 0 <= i < l.len() ==> obj_of(l).m.contains_key((#[trigger] l[i]).0) && obj_of(l).m[l[i].0] == l[i].1
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int, k: int| 0 <= i < k < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[k]).0 by { assert(d[i] == l[i] && d[k] == l[k]); }
        lemma_obj(d);
        let o = obj_of(d);
        if o.m.contains_key(l.last().0) { let i = choose|i: int| 0 <= i < d.len() && d[i] == (l.last().0, o.m[l.last().0]); assert(l[i].0 != l[l.len() - 1].0); }
        assert forall|s: S| #[trigger] obj_of(l).m.contains_key(s) implies l.contains((s, obj_of(l).m[s])) by {
            if s == l.last().0 { assert(l[l.len() - 1] == (s, obj_of(l).m[s])); }
            else { let i = choose|i: int| 0 <= i < d.len() && d[i] == (s, o.m[s]); assert(l[i] == (s, obj_of(l).m[s])); }
        }
        assert forall|i: int| 0 <= i < l.len() implies obj_of(l).m.contains_key((#[trigger] l[i]).0) && obj_of(l).m[l[i].0] == l[i].1 by { if i < d.len() { assert(d[i] == l[i]); assert(l[i].0 != l[l.len() - 1].0); } }
    }
}
}
