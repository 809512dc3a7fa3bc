@note PEP 440 versions: the dependency's own types, and the order as mathematics
verus! {
pub mod pep440 {
use super::*;
@type dep:pep440-0.2.0/src/lib.rs | type:Version ;
@type dep:pep440-0.2.0/src/lib.rs | type:LocalVersion ;
@type dep:pep440-0.2.0/src/lib.rs | type:PreRelease ;
}
@type src/vocab/version.rs | type:Version ;
@type src/vocab/specifier.rs | type:Specifier ;
@type src/vocab/specifier.rs | type:Specifiers ;
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type src/vocab/specifier.rs | type:CompareOp ;

impl Clone for Version {
    // derived Clone
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- the order of PEP 440, "Summary of permitted suffixes and relative ordering"
pub open spec fn at(s: Seq<u32>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
// release segments compare with zero padding
pub open spec fn rel_eq(a: Seq<u32>, b: Seq<u32>) -> bool {
    forall|i: int| #![trigger at(a, i)] #![trigger at(b, i)] 0 <= i ==> at(a, i) == at(b, i)
}
pub open spec fn less_at(a: Seq<u32>, b: Seq<u32>, i: int) -> bool {
    0 <= i && at(a, i) < at(b, i) && forall|j: int| #![trigger at(a, j)] #![trigger at(b, j)] 0 <= j < i ==> at(a, j) == at(b, j)
}
pub open spec fn rel_lt(a: Seq<u32>, b: Seq<u32>) -> bool { exists|i: int| less_at(a, b, i) }
pub open spec fn pre_key(v: Version) -> (int, int) {
    if v.0.pre is None && v.0.post is None && v.0.dev is Some { (0, 0) } else {
        match v.0.pre {
            None => (4, 0),
            Some(pep440::PreRelease::A(n)) => (1, n as int),
            Some(pep440::PreRelease::B(n)) => (2, n as int),
            Some(pep440::PreRelease::RC(n)) => (3, n as int),
        }
    }
}
pub open spec fn post_key(v: Version) -> int { match v.0.post { None => 0, Some(n) => n + 1 } }
pub open spec fn dev_key(v: Version) -> int { match v.0.dev { None => 0x1_0000_0000, Some(n) => n as int } }
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= a.len() && i < b.len() && a.take(i) =~= b.take(i) && (i == a.len() || (a[i] as int) < (b[i] as int))
}
pub open spec fn seg_lt(a: pep440::LocalVersion, b: pep440::LocalVersion) -> bool {
    match (a, b) {
        (pep440::LocalVersion::NumericComponent(x), pep440::LocalVersion::NumericComponent(y)) => x < y,
        (pep440::LocalVersion::StringComponent(x), pep440::LocalVersion::StringComponent(y)) => str_lt(x@, y@),
        (pep440::LocalVersion::NumericComponent(_), pep440::LocalVersion::StringComponent(_)) => false,
        (pep440::LocalVersion::StringComponent(_), pep440::LocalVersion::NumericComponent(_)) => true,
    }
}
pub open spec fn seg_eq(a: pep440::LocalVersion, b: pep440::LocalVersion) -> bool {
    match (a, b) {
        (pep440::LocalVersion::NumericComponent(x), pep440::LocalVersion::NumericComponent(y)) => x == y,
        (pep440::LocalVersion::StringComponent(x), pep440::LocalVersion::StringComponent(y)) => x@ == y@,
        _ => false,
    }
}
pub type Local = Seq<pep440::LocalVersion>;
pub open spec fn local_less_at(a: Local, b: Local, i: int) -> bool {
    0 <= i <= a.len() && i < b.len() && (forall|j: int| 0 <= j < i ==> seg_eq(#[trigger] a[j], b[j])) && (i == a.len() || seg_lt(a[i], b[i]))
}
pub open spec fn local_lt(a: Local, b: Local) -> bool { exists|i: int| local_less_at(a, b, i) }
pub open spec fn local_eq(a: Local, b: Local) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> seg_eq(#[trigger] a[j], b[j]) }

// without local labels
pub open spec fn suffix_eq(a: Version, b: Version) -> bool { pre_key(a) == pre_key(b) && post_key(a) == post_key(b) && dev_key(a) == dev_key(b) }
pub open spec fn suffix_lt(a: Version, b: Version) -> bool {
    let (p, q) = (pre_key(a), pre_key(b));
    p.0 < q.0 || (p.0 == q.0 && (p.1 < q.1 || (p.1 == q.1 && (post_key(a) < post_key(b)
        || (post_key(a) == post_key(b) && dev_key(a) < dev_key(b))))))
}
pub open spec fn pub_eq(a: Version, b: Version) -> bool {
    a.0.epoch == b.0.epoch && rel_eq(a.0.release@, b.0.release@) && suffix_eq(a, b)
}
pub open spec fn pub_lt(a: Version, b: Version) -> bool {
    a.0.epoch < b.0.epoch || (a.0.epoch == b.0.epoch && (rel_lt(a.0.release@, b.0.release@)
        || (rel_eq(a.0.release@, b.0.release@) && suffix_lt(a, b))))
}
// with local labels: this is what Ord for pep440::Version computes
pub open spec fn vlt(a: Version, b: Version) -> bool { pub_lt(a, b) || (pub_eq(a, b) && local_lt(a.0.local@, b.0.local@)) }
pub open spec fn veq(a: Version, b: Version) -> bool { pub_eq(a, b) && local_eq(a.0.local@, b.0.local@) }

// versions the property quantifies over: every component below 2^32-1 and at least one release segment
pub open spec fn in_domain(v: Version) -> bool {
    &&& v.0.release@.len() > 0
    &&& v.0.epoch < u32::MAX
    &&& forall|i: int| 0 <= i < v.0.release@.len() ==> (#[trigger] v.0.release@[i]) < u32::MAX
    &&& (v.0.post matches Some(n) ==> n < u32::MAX)
    &&& (v.0.dev matches Some(n) ==> n < u32::MAX)
    &&& match v.0.pre { None => true, Some(pep440::PreRelease::A(n)) => n < u32::MAX, Some(pep440::PreRelease::B(n)) => n < u32::MAX, Some(pep440::PreRelease::RC(n)) => n < u32::MAX }
}

pub open spec fn is_pre(v: Version) -> bool { v.0.pre is Some || v.0.dev is Some }
pub open spec fn same_base(c: Version, v: Version) -> bool { c.0.epoch == v.0.epoch && rel_eq(c.0.release@, v.0.release@) }
// `n` leading release segments agree, zero padded
pub open spec fn rel_prefix(c: Seq<u32>, v: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] at(c, i) == at(v, i) }
pub open spec fn prefix_match(c: Version, v: Version) -> bool {
    if v.0.post is Some { same_base(c, v) && c.0.pre == v.0.pre && c.0.post == v.0.post }
    else if v.0.pre is Some { same_base(c, v) && c.0.pre == v.0.pre }
    else { c.0.epoch == v.0.epoch && rel_prefix(c.0.release@, v.0.release@, v.0.release@.len() as int) }
}
// ---- PEP 440 "Version specifiers": which specifiers exist, and what each admits
pub open spec fn allowed(op: CompareOp, v: Version, wild: bool) -> bool {
    if wild { v.0.dev is None && v.0.local@.len() == 0 && (op is Equal || op is NotEqual) }
    else { (op is Equal || op is NotEqual || v.0.local@.len() == 0) && (op is Compatible ==> v.0.release@.len() >= 2) }
}
pub open spec fn admits(op: CompareOp, v: Version, wild: bool, c: Version) -> bool {
    if wild { if op is Equal { prefix_match(c, v) } else { !prefix_match(c, v) } }
    else {
        match op {
            CompareOp::Equal => if v.0.local@.len() == 0 { pub_eq(c, v) } else { veq(c, v) },
            CompareOp::NotEqual => !(if v.0.local@.len() == 0 { pub_eq(c, v) } else { veq(c, v) }),
            CompareOp::LessThanEqual => pub_lt(c, v) || pub_eq(c, v),
            CompareOp::GreaterThanEqual => pub_lt(v, c) || pub_eq(v, c),
            CompareOp::StrictlyLessThan => pub_lt(c, v) && (is_pre(v) || !(is_pre(c) && same_base(c, v)
                && (v.0.post is None || (c.0.pre == v.0.pre && c.0.post == v.0.post)))),
            CompareOp::StrictlyGreaterThan => pub_lt(v, c) && (v.0.post is Some
                || !(c.0.post is Some && same_base(c, v) && c.0.pre == v.0.pre && v.0.dev is None)),
            CompareOp::Compatible => (pub_lt(v, c) || pub_eq(v, c)) && c.0.epoch == v.0.epoch
                && rel_prefix(c.0.release@, v.0.release@, v.0.release@.len() - 1),
        }
    }
}

// ---- lemmas about the order
pub proof fn lemma_rel_total(a: Seq<u32>, b: Seq<u32>, n: int)
    requires 0 <= n,
    ensures
        (exists|i: int| i < n && less_at(a, b, i)) || (exists|i: int| i < n && less_at(b, a, i)) || rel_prefix(a, b, n),
    decreases n,
{
    if n > 0 {
        lemma_rel_total(a, b, n - 1);
        if rel_prefix(a, b, n - 1) {
            if at(a, n - 1) < at(b, n - 1) { assert(less_at(a, b, n - 1)); }
            else if at(b, n - 1) < at(a, n - 1) { assert(less_at(b, a, n - 1)); }
        }
    }
}
pub proof fn lemma_rel_trichotomy(a: Seq<u32>, b: Seq<u32>)
    ensures
        rel_lt(a, b) || rel_eq(a, b) || rel_lt(b, a),
        !(rel_lt(a, b) && rel_eq(a, b)), !(rel_lt(b, a) && rel_eq(a, b)), !(rel_lt(a, b) && rel_lt(b, a)),
        rel_eq(a, b) <==> rel_eq(b, a),
{
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    lemma_rel_total(a, b, n as int);
    if rel_lt(a, b) && rel_lt(b, a) {
        let i = choose|i: int| less_at(a, b, i);
        let j = choose|j: int| less_at(b, a, j);
        if i < j { assert(at(b, i) == at(a, i)); } else if j < i { assert(at(a, j) == at(b, j)); }
        assert(false);
    }
}
// a <= c < (a with its n-th segment raised by one)  <=>  c starts with a's first n segments
pub open spec fn bumped(a: Seq<u32>, b: Seq<u32>, n: int) -> bool {
    0 < n <= a.len() && b.len() == n && (forall|i: int| 0 <= i < n - 1 ==> #[trigger] b[i] == a[i]) && b[n - 1] == a[n - 1] + 1
}
pub proof fn lemma_prefix_interval(c: Seq<u32>, a: Seq<u32>, b: Seq<u32>)
    requires bumped(a, b, a.len() as int),
    ensures
        rel_prefix(c, a, a.len() as int) <==> (!rel_lt(c, a) && rel_lt(c, b)),
        rel_eq(c, b) ==> !rel_prefix(c, a, a.len() as int),
{
    let n = a.len() as int;
    if rel_prefix(c, a, n) {
        assert(less_at(c, b, n - 1));
        if rel_lt(c, a) {
            let i = choose|i: int| less_at(c, a, i);
            assert(at(c, i) < at(a, i));
            assert(false);
        }
    }
    if !rel_lt(c, a) && rel_lt(c, b) {
        let i = choose|i: int| less_at(c, b, i);
        assert(i < n);
        assert forall|j: int| 0 <= j < i implies at(c, j) == at(a, j) by { assert(at(c, j) == at(b, j)); assert(b[j] == a[j]); }
        if i < n - 1 { assert(b[i] == a[i]); assert(less_at(c, a, i)); }
        assert(i == n - 1);
        assert(at(c, n - 1) <= at(a, n - 1));
        if at(c, n - 1) < at(a, n - 1) { assert(less_at(c, a, n - 1)); }
        assert forall|j: int| 0 <= j < n implies #[trigger] at(c, j) == at(a, j) by {}
    }
    if rel_eq(c, b) { assert(at(c, n - 1) == at(b, n - 1)); assert(at(b, n - 1) == b[n - 1]); }
}
// X.Y.suffix <= c < (X with its last segment raised)  <=>  X.Y.suffix <= c and c starts with X
pub proof fn lemma_compatible(c: Seq<u32>, a: Seq<u32>, b: Seq<u32>, n: int)
    requires bumped(a, b, n), n <= a.len(),
    ensures
        !rel_lt(c, a) ==> (rel_prefix(c, a, n) <==> rel_lt(c, b)),
        rel_eq(c, b) ==> !rel_prefix(c, a, n),
{
    let p = a.take(n);
    assert(bumped(p, b, n));
    lemma_prefix_interval(c, p, b);
    assert forall|i: int| 0 <= i < n implies at(p, i) == at(a, i) by {}
    if rel_prefix(c, a, n) { assert(rel_prefix(c, p, n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] at(c, i) == at(p, i) by { assert(at(p, i) == at(a, i)); } } }
    if !rel_lt(c, a) && rel_lt(c, b) {
        if rel_lt(c, p) {
            let i = choose|i: int| less_at(c, p, i);
            assert(i < n);
            assert forall|j: int| 0 <= j < i implies at(c, j) == at(a, j) by { assert(at(c, j) == at(p, j)); }
            assert(less_at(c, a, i));
        }
        assert(rel_prefix(c, p, n));
        assert forall|i: int| 0 <= i < n implies #[trigger] at(c, i) == at(a, i) by { assert(at(c, i) == at(p, i)); }
    }
    if rel_eq(c, b) {
        assert(at(c, n - 1) == at(b, n - 1)); assert(at(b, n - 1) == b[n - 1]); assert(at(a, n - 1) == a[n - 1]);
    }
}
pub proof fn lemma_str_irreflexive(a: Seq<char>) ensures !str_lt(a, a) {}
pub open spec fn next_local(a: Local, b: Local) -> bool {
    b.len() == a.len() + 1 && (forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == a[j])
        && (b[a.len() as int] matches pep440::LocalVersion::StringComponent(s) && s@.len() == 0)
}
pub proof fn lemma_local_next(x: Local, a: Local, b: Local)
    requires next_local(a, b),
    ensures (!local_lt(x, a) && local_lt(x, b)) <==> local_eq(x, a),
        local_lt(x, a) ==> local_lt(x, b),
{
    if local_eq(x, a) {
        if local_lt(x, a) {
            let i = choose|i: int| local_less_at(x, a, i);
            assert(seg_eq(x[i], a[i]));
            assert(seg_lt(x[i], a[i]));
        }
        assert(local_less_at(x, b, a.len() as int));
    }
    if local_lt(x, a) {
        let i = choose|i: int| local_less_at(x, a, i);
        assert(b[i] == a[i]);
        assert forall|j: int| 0 <= j < i implies seg_eq(#[trigger] x[j], b[j]) by { assert(b[j] == a[j]); }
        assert(local_less_at(x, b, i));
    }
    if !local_lt(x, a) && local_lt(x, b) {
        let i = choose|i: int| local_less_at(x, b, i);
        assert forall|j: int| 0 <= j < i implies seg_eq(#[trigger] x[j], a[j]) by { assert(seg_eq(x[j], b[j])); assert(b[j] == a[j]); }
        if i < a.len() { assert(b[i] == a[i]); assert(local_less_at(x, a, i)); }
        assert(i == a.len());
        if i < x.len() { assert(seg_lt(x[i], b[i])); }
    }
}
pub proof fn lemma_no_local(x: Local, a: Local) requires a.len() == 0 ensures !local_lt(x, a) {}
}
