@note the environment a resolution comes to
@include contracts/resolve.vrs
verus! {
// ---- what is assumed of pubgrub::solver::resolve, beyond what is proved of the provider it is given:
// every package it decides on was offered and asked about, everything those asked for is decided on in a version that is let,
// and nothing is decided on that no other decided package asked for
pub type Sol = Seq<(ResPkg, Version)>;
pub open spec fn holds(s: Sol, k: Key, i: int) -> bool { 0 <= i < s.len() && key_of(s[i].0) == k }
pub open spec fn wanted_by(s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, i: int, j: int) -> bool {
    0 <= j < s.len() && rank[j] < rank[i] && d[j].dom().contains(key_of(s[i].0))
}
impl<'a> PubgrubState<'a> {
    pub open spec fn solution(&self, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>) -> bool {
        d.len() == s.len() && rank.len() == s.len()
        && (exists|i: int| #[trigger] holds(s, key_of(root), i))
        && (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && key_of(#[trigger] s[i].0) == key_of(#[trigger] s[j].0) ==> i == j)
        && (forall|i: int| 0 <= i < s.len() ==> self.answered((#[trigger] s[i]).0, s[i].1, d[i]) && self.offered(s[i].0, s[i].1))
        && (forall|i: int, k: Key| 0 <= i < s.len() && #[trigger] d[i].dom().contains(k) ==> exists|j: int| #[trigger] holds(s, k, j) && d[i][k].has_(s[j].1))
        && (forall|i: int| 0 <= i < s.len() && key_of((#[trigger] s[i]).0) != key_of(root) ==> exists|j: int| #[trigger] wanted_by(s, d, rank, i, j))
    }
}
#[verifier::external_body] pub struct PubGrubError { x: u8 }
#[verifier::external_body]
pub fn solve(state: &PubgrubState, root: ResPkg, version: Version) -> (r: Result<Vec<(ResPkg, Version)>, PubGrubError>)
    requires
        // it asks about the root, and about what is asked for, in versions on offer
        state.fit(root, version),
        forall|p: ResPkg, v: Version, m: Map<Key, PRange>, q: ResPkg, u: Version| state.fit(p, v) && #[trigger] state.answered(p, v, m) && m.dom().contains(key_of(q)) && #[trigger] state.offered(q, u) ==> state.fit(q, u),
    ensures
        r matches Ok(s) ==> exists|d: Seq<Map<Key, PRange>>, rank: Seq<nat>| #[trigger] state.solution(root, s@, d, rank),
{ unimplemented!() }
// equal keys of a map lead to the same entry, and equal versions to the same files
#[verifier::external_body]
pub proof fn axiom_same_release(m: FrozenMap<Rel, Box<WheelResolveMetadata>>, a: Rel, b: Rel)
    requires a.0.norm() == b.0.norm(), veq(a.1, b.1)
    ensures m.at(a) == m.at(b)
{}

// ---- the environment
@type src/resolve.rs | type:PinnedPackage ;
pub type Pins = Seq<(PinnedPackage, WheelResolveMetadata)>;
pub open spec fn hashes_of(s: Seq<AI>) -> Seq<ArtifactHash> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last().hash { Some(h) => hashes_of(s.drop_last()).push(h), None => hashes_of(s.drop_last()) } }
}
// .iter().filter_map(f).collect::<Vec<_>>()
pub fn filter_hashes<F: Fn(&AI) -> Option<ArtifactHash>>(s: &[AI], f: F) -> (r: Vec<ArtifactHash>)
    requires forall|a: &AI| #[trigger] f.requires((a,)), forall|a: &AI, o: Option<ArtifactHash>| #[trigger] f.ensures((a,), o) ==> o == a.hash
    ensures r@ == hashes_of(s@)
{
    let mut out: Vec<ArtifactHash> = Vec::new();
    let mut i: usize = 0;
    proof { assert(s@.subrange(0, 0) =~= Seq::<AI>::empty()); }
    while i < s.len()
        invariant i <= s@.len(), forall|a: &AI| #[trigger] f.requires((a,)), forall|a: &AI, o: Option<ArtifactHash>| #[trigger] f.ensures((a,), o) ==> o == a.hash, out@ == hashes_of(s@.subrange(0, i as int))
        decreases s@.len() - i
    {
        let o = f(&s[i]);
        proof { assert(s@.subrange(0, i + 1).drop_last() =~= s@.subrange(0, i as int)); assert(s@.subrange(0, i + 1).last() == s@[i as int]); }
        match o { Some(h) => out.push(h), None => {} }
        i += 1;
    }
    proof { assert(s@.subrange(0, i as int) =~= s@); }
    out
}
#[verifier::external_body]
pub fn opt_hash(h: &Option<ArtifactHash>) -> (r: Option<ArtifactHash>) ensures r == *h { unimplemented!() }
#[verifier::external_body]
pub fn copy_metadata(m: &WheelResolveMetadata) -> (r: WheelResolveMetadata) ensures r == *m { unimplemented!() }
@fn src/resolve.rs | fn:pinned
@sub? `.iter().filter_map(|$a| $e).collect::<Vec<_>>()` => `.hashes_by_(|$a: &AI| -> (o: Option<ArtifactHash>) ensures o == $a.hash { $e })`
@sub? `$r.hash.clone()` => `opt_hash(&$r.hash)`
@sub? `let hashes = $e.hashes_by_($f)` => `let hashes = filter_hashes($e, $f)`
@params db name version
@sig pub fn pinned(db: &PackageDB, name: PackageName, version: Version) -> (r: Result<PinnedPackage, Report>)
    ensures r matches Ok(p) ==> p.name == name && p.version == version && p.hashes@ == hashes_of(db.arts(name.norm(), version))
@endfn

// a package (perhaps with an extra) and what it asks for, in the environment
pub open spec fn pin_at(pins: Pins, n: Seq<char>, i: int) -> bool { 0 <= i < pins.len() && pins[i].0.name.norm() == n }
pub type Act = spec_fn(Seq<char>, Seq<char>) -> bool;
// a requirement is met: the package is there, in a version that is let, and with the extras
pub open spec fn met(r: Requirement, pins: Pins, act: Act) -> bool {
    (exists|i: int| #[trigger] pin_at(pins, r.name.norm(), i) && exists|v: Version| #[trigger] veq(v, pins[i].0.version) && specs_admit(r.specifiers, v))
    && forall|j: int| 0 <= j < r.extras@.len() ==> act(r.name.norm(), #[trigger] r.extras@[j].norm())
}
// every requirement that applies is met
pub open spec fn all_met(rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, pins: Pins, act: Act) -> bool {
    exists|app: Seq<bool>| #[trigger] decided(rs, x, vars, app, rs.len() as int) && forall|i: int| 0 <= i < rs.len() && app[i] ==> met(#[trigger] rs[i], pins, act)
}
pub open spec fn reqs_at(pins: Pins, i: int) -> Seq<Requirement> { vals(pins[i].1.inner.requires_dist@) }
pub open spec fn complete(top: Seq<Requirement>, vars: Vars, pins: Pins, act: Act) -> bool {
    all_met(top, None, vars, pins, act)
    && (forall|i: int| 0 <= i < pins.len() ==> #[trigger] all_met(reqs_at(pins, i), None, vars, pins, act))
    // extras in use exist, and bring their requirements
    && (forall|n: Seq<char>, e: Seq<char>| #[trigger] act(n, e) ==> exists|i: int| #[trigger] pin_at(pins, n, i) && pins[i].1.inner.extras.norms().contains(e) && all_met(reqs_at(pins, i), Some(e), vars, pins, act))
}
// rs, with the extra x, names k in a requirement that applies
pub open spec fn names_it(rs: Seq<Requirement>, x: Option<Seq<char>>, vars: Vars, k: Key) -> bool {
    exists|app: Seq<bool>| #[trigger] decided(rs, x, vars, app, rs.len() as int) && named(rs, app, k)
}
pub open spec fn leads(top: Seq<Requirement>, vars: Vars, pins: Pins, act: Act, a: Key, k: Key) -> bool {
    match a {
        Key::Root => names_it(top, None, vars, k),
        Key::Pkg(n, x) => exists|i: int| #[trigger] pin_at(pins, n, i) && names_it(reqs_at(pins, i), x, vars, k) || (x is Some && k == Key::Pkg(n, None)),
    }
}
pub open spec fn is_pinned(pins: Pins, n: Seq<char>) -> bool { exists|i: int| #[trigger] pin_at(pins, n, i) }
pub open spec fn present(pins: Pins, act: Act, k: Key) -> bool {
    match k { Key::Root => true, Key::Pkg(n, x) => if x is Some { act(n, x->Some_0) } else { is_pinned(pins, n) } }
}
// everything present is reached from the root in finitely many steps
pub open spec fn nothing_more(top: Seq<Requirement>, vars: Vars, pins: Pins, act: Act) -> bool {
    exists|rank: spec_fn(Key) -> nat| #[trigger] ranked(top, vars, pins, act, rank)
}
pub open spec fn step_to(top: Seq<Requirement>, vars: Vars, pins: Pins, act: Act, rank: spec_fn(Key) -> nat, a: Key, k: Key) -> bool {
    rank(a) < rank(k) && present(pins, act, a) && leads(top, vars, pins, act, a, k)
}
pub open spec fn ranked(top: Seq<Requirement>, vars: Vars, pins: Pins, act: Act, rank: spec_fn(Key) -> nat) -> bool {
    forall|k: Key| #[trigger] present(pins, act, k) && !(k is Root) ==> exists|a: Key| #[trigger] step_to(top, vars, pins, act, rank, a, k)
}
pub open spec fn pins_are(db: &PackageDB, pins: Pins) -> bool {
    (forall|i: int, j: int| 0 <= i < pins.len() && 0 <= j < pins.len() && (#[trigger] pins[i]).0.name.norm() == (#[trigger] pins[j]).0.name.norm() ==> i == j)
    && forall|i: int| 0 <= i < pins.len() ==> {
        let p = (#[trigger] pins[i]).0;
        p.hashes@ == hashes_of(db.arts(p.name.norm(), p.version)) && db.arts(p.name.norm(), p.version).len() > 0 && db.from_files(p.name.norm(), p.version, pins[i].1)
    }
}
pub open spec fn sound(db: &PackageDB, top: Seq<Requirement>, vars: Vars, pins: Pins) -> bool {
    pins_are(db, pins) && exists|act: Act| #[trigger] complete(top, vars, pins, act) && nothing_more(top, vars, pins, act)
}
// the pins made of the first n of the decided packages
pub open spec fn taken(st: PubgrubState, s: Sol, n: int, pins: Pins, from: Seq<int>) -> bool {
    from.len() == pins.len()
    && (forall|a: int, b: int| 0 <= a < b < from.len() ==> #[trigger] from[a] < #[trigger] from[b])
    && (forall|a: int| 0 <= a < pins.len() ==> {
        let i = #[trigger] from[a];
        0 <= i < n && s[i].0 is Package && s[i].0->Package_1 is None && pins[a].0.name == s[i].0->Package_0 && pins[a].0.version == s[i].1
        && pins[a].0.hashes@ == hashes_of(st.db.arts(s[i].0->Package_0.norm(), s[i].1)) && pins[a].1 == *st.expected_metadata.at((s[i].0->Package_0, s[i].1))
    })
    && (forall|i: int| 0 <= i < n && (#[trigger] s[i]).0 is Package && s[i].0->Package_1 is None ==> exists|a: int| 0 <= a < from.len() && #[trigger] from[a] == i)
}

pub open spec fn act_of(s: Sol) -> Act { |n: Seq<char>, e: Seq<char>| exists|j: int| #[trigger] holds(s, Key::Pkg(n, Some(e)), j) }
pub open spec fn setting(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>) -> bool {
    root is Root && st.solution(root, s, d, rank) && taken(st, s, s.len() as int, pins, from) && st.ready()
}
pub proof fn lemma_plain(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>, n: Seq<char>, j: int) -> (a: int)
    requires setting(st, root, s, d, rank, pins, from), holds(s, Key::Pkg(n, None), j)
    ensures pin_at(pins, n, a), 0 <= a < from.len(), from[a] == j, pins[a].0.version == s[j].1, pins[a].0.name == s[j].0->Package_0, pins[a].1.inner == st.meta(s[j].0->Package_0, s[j].1)
{
    let a = choose|a: int| 0 <= a < from.len() && #[trigger] from[a] == j;
    assert(s[j].0 is Package && s[j].0->Package_1 is None);
    assert(pin_at(pins, n, a));
    a
}
// a package with an extra brings the plain package in the same version
pub proof fn lemma_with_extra(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>, n: Seq<char>, e: Seq<char>, j: int) -> (a: int)
    requires setting(st, root, s, d, rank, pins, from), holds(s, Key::Pkg(n, Some(e)), j)
    ensures pin_at(pins, n, a), veq(s[j].1, pins[a].0.version), pins[a].1.inner == st.meta(s[j].0->Package_0, s[j].1)
{
    assert(st.answered(s[j].0, s[j].1, d[j]));
    let k = Key::Pkg(n, None);
    let nm = s[j].0->Package_0;
    let dd = choose|x: Map<Key, PRange>| #[trigger] so_far(Map::empty(), x, vals(st.meta(nm, s[j].1).requires_dist@), Some(e), st.vars(), st.meta(nm, s[j].1).requires_dist@.len() as int) && pinned_too(x, d[j], k, s[j].1);
    assert(d[j].dom().contains(k));
    let p = choose|p: int| #[trigger] holds(s, k, p) && d[j][k].has_(s[p].1);
    assert(lets(d[j], k, s[p].1));
    assert(veq(s[p].1, s[j].1));
    let a = lemma_plain(st, root, s, d, rank, pins, from, n, p);
    axiom_same_release(st.expected_metadata, (s[p].0->Package_0, s[p].1), (nm, s[j].1));
    lemma_veq_sym(s[p].1, s[j].1);
    a
}
pub proof fn lemma_all_met(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>, b: int, m: Map<Key, PRange>, rs: Seq<Requirement>, x: Option<Seq<char>>)
    requires setting(st, root, s, d, rank, pins, from), 0 <= b < s.len(), so_far(Map::empty(), m, rs, x, st.vars(), rs.len() as int),
        forall|k: Key| #[trigger] m.dom().contains(k) ==> d[b].dom().contains(k),
        forall|k: Key, v: Version| in_domain(v) && #[trigger] lets(d[b], k, v) ==> lets(m, k, v),
    ensures all_met(rs, x, st.vars(), pins, act_of(s))
{
    let app = choose|app: Seq<bool>| #[trigger] decided(rs, x, st.vars(), app, rs.len() as int) && constrained(Map::empty(), m, rs, app);
    let act = act_of(s);
    assert forall|i: int| 0 <= i < rs.len() && app[i] implies met(#[trigger] rs[i], pins, act) by {
        let r = rs[i];
        let n = r.name.norm();
        // a package the requirement names
        assert forall|k: Key| #[trigger] targets(r, k) implies exists|j: int| #[trigger] holds(s, k, j) && specs_admit(r.specifiers, s[j].1) by {
            assert(named(rs, app, k));
            assert(m.dom().contains(k));
            assert(d[b].dom().contains(k));
            let j = choose|j: int| #[trigger] holds(s, k, j) && d[b][k].has_(s[j].1);
            let v = s[j].1;
            assert(st.offered(s[j].0, v));
            assert(in_domain(v));
            assert(lets(d[b], k, v));
            assert(lets(m, k, v));
            assert(asked(rs, app, k, v));
            assert(app[i]);
        }
        assert forall|l: int| 0 <= l < r.extras@.len() implies act(n, #[trigger] r.extras@[l].norm()) by {
            assert(targets(r, Key::Pkg(n, Some(r.extras@[l].norm()))));
        }
        if r.extras@.len() == 0 {
            let k = Key::Pkg(n, None);
            assert(targets(r, k));
            let j = choose|j: int| #[trigger] holds(s, k, j) && specs_admit(r.specifiers, s[j].1);
            let a = lemma_plain(st, root, s, d, rank, pins, from, n, j);
            lemma_veq_refl(s[j].1);
            assert(pin_at(pins, n, a) && veq(s[j].1, pins[a].0.version) && specs_admit(r.specifiers, s[j].1));
        } else {
            let e = r.extras@[0].norm();
            let k = Key::Pkg(n, Some(e));
            assert(targets(r, k));
            let j = choose|j: int| #[trigger] holds(s, k, j) && specs_admit(r.specifiers, s[j].1);
            let a = lemma_with_extra(st, root, s, d, rank, pins, from, n, e, j);
            assert(pin_at(pins, n, a) && veq(s[j].1, pins[a].0.version) && specs_admit(r.specifiers, s[j].1));
        }
    }
}
pub proof fn lemma_present(pins: Pins, act: Act, n: Seq<char>, p: int) requires pin_at(pins, n, p) ensures present(pins, act, Key::Pkg(n, None)) {}
pub proof fn lemma_veq_sym(a: Version, b: Version) requires veq(a, b) ensures veq(b, a) {}
pub proof fn lemma_veq_refl(a: Version) ensures veq(a, a) {}
pub proof fn lemma_complete(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>)
    requires setting(st, root, s, d, rank, pins, from)
    ensures complete(vals(st.brief.requirements@), st.vars(), pins, act_of(s))
{
    let act = act_of(s);
    let ri = choose|i: int| #[trigger] holds(s, key_of(root), i);
    assert(st.answered(s[ri].0, s[ri].1, d[ri]));
    lemma_all_met(st, root, s, d, rank, pins, from, ri, d[ri], vals(st.brief.requirements@), None);
    assert forall|i: int| 0 <= i < pins.len() implies #[trigger] all_met(reqs_at(pins, i), None, st.vars(), pins, act) by {
        let j = from[i];
        assert(st.answered(s[j].0, s[j].1, d[j]));
        assert(pins[i].1.inner == st.meta(s[j].0->Package_0, s[j].1));
        lemma_all_met(st, root, s, d, rank, pins, from, j, d[j], reqs_at(pins, i), None);
    }
    assert forall|n: Seq<char>, e: Seq<char>| #[trigger] act(n, e) implies exists|i: int| #[trigger] pin_at(pins, n, i) && pins[i].1.inner.extras.norms().contains(e) && all_met(reqs_at(pins, i), Some(e), st.vars(), pins, act) by {
        let j = choose|j: int| #[trigger] holds(s, Key::Pkg(n, Some(e)), j);
        let a = lemma_with_extra(st, root, s, d, rank, pins, from, n, e, j);
        assert(st.answered(s[j].0, s[j].1, d[j]));
        let md = st.meta(s[j].0->Package_0, s[j].1);
        let dd = choose|x: Map<Key, PRange>| #[trigger] so_far(Map::empty(), x, vals(md.requires_dist@), Some(e), st.vars(), md.requires_dist@.len() as int) && pinned_too(x, d[j], Key::Pkg(n, None), s[j].1);
        lemma_all_met(st, root, s, d, rank, pins, from, j, dd, reqs_at(pins, a), Some(e));
        assert(pin_at(pins, n, a));
    }
}
pub open spec fn rank_of(s: Sol, rank: Seq<nat>) -> spec_fn(Key) -> nat { |k: Key| rank[choose|i: int| #[trigger] holds(s, k, i)] }
pub proof fn lemma_nothing_more(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>)
    requires setting(st, root, s, d, rank, pins, from)
    ensures nothing_more(vals(st.brief.requirements@), st.vars(), pins, act_of(s))
{
    let act = act_of(s);
    let top = vals(st.brief.requirements@);
    let rk = rank_of(s, rank);
    assert forall|i: int| 0 <= i < s.len() implies rk(key_of((#[trigger] s[i]).0)) == rank[i] by {
        let k = key_of(s[i].0);
        assert(holds(s, k, i));
        let c = choose|c: int| #[trigger] holds(s, k, c);
        assert(key_of(s[c].0) == key_of(s[i].0));
    }
    assert forall|k: Key| #[trigger] present(pins, act, k) && !(k is Root) implies exists|a: Key| #[trigger] step_to(top, st.vars(), pins, act, rk, a, k) by {
        let n = k->Pkg_0;
        // it is one of the decided packages
        let i: int = if k->Pkg_1 is None { from[choose|i: int| #[trigger] pin_at(pins, n, i)] } else { choose|j: int| #[trigger] holds(s, k, j) };
        if k->Pkg_1 is None { let p = choose|i: int| #[trigger] pin_at(pins, n, i); assert(from[p] == i); assert(pins[p].0.name == s[i].0->Package_0); } else { assert(act(n, k->Pkg_1->Some_0)); }
        assert(holds(s, k, i));
        let j = choose|j: int| #[trigger] wanted_by(s, d, rank, i, j);
        let a = key_of(s[j].0);
        assert(holds(s, a, j));
        assert(st.answered(s[j].0, s[j].1, d[j]));
        assert(rk(a) == rank[j] && rk(k) == rank[i]);
        match s[j].0 {
            ResPkg::Root => {
                let app = choose|app: Seq<bool>| #[trigger] decided(top, None, st.vars(), app, top.len() as int) && constrained(Map::empty(), d[j], top, app);
                assert(named(top, app, k));
            }
            ResPkg::Package(nm, None) => {
                let p = lemma_plain(st, root, s, d, rank, pins, from, nm.norm(), j);
                lemma_present(pins, act, nm.norm(), p);
                let rs = reqs_at(pins, p);
                let app = choose|app: Seq<bool>| #[trigger] decided(rs, None, st.vars(), app, rs.len() as int) && constrained(Map::empty(), d[j], rs, app);
                assert(named(rs, app, k));
                assert(pin_at(pins, nm.norm(), p) && names_it(rs, None, st.vars(), k));
            }
            ResPkg::Package(nm, Some(e)) => {
                let p = lemma_with_extra(st, root, s, d, rank, pins, from, nm.norm(), e.norm(), j);
                let rs = reqs_at(pins, p);
                let md = st.meta(nm, s[j].1);
                let dd = choose|x: Map<Key, PRange>| #[trigger] so_far(Map::empty(), x, vals(md.requires_dist@), Some(e.norm()), st.vars(), md.requires_dist@.len() as int) && pinned_too(x, d[j], Key::Pkg(nm.norm(), None), s[j].1);
                if k != Key::Pkg(nm.norm(), None) {
                    let app = choose|app: Seq<bool>| #[trigger] decided(rs, Some(e.norm()), st.vars(), app, rs.len() as int) && constrained(Map::empty(), dd, rs, app);
                    assert(d[j].dom().contains(k));
                    assert(dd.dom().contains(k));
                    assert(named(rs, app, k));
                    assert(names_it(rs, Some(e.norm()), st.vars(), k));
                }
                assert(pin_at(pins, nm.norm(), p));
                assert(a == Key::Pkg(nm.norm(), Some(e.norm())));
                assert(act(nm.norm(), e.norm()));
                assert(present(pins, act, a));
            }
        }
        assert(present(pins, act, a));
        assert(leads(top, st.vars(), pins, act, a, k));
        assert(step_to(top, st.vars(), pins, act, rk, a, k));
    }
    assert(ranked(top, st.vars(), pins, act, rk));
}
pub proof fn lemma_sound(st: PubgrubState, root: ResPkg, s: Sol, d: Seq<Map<Key, PRange>>, rank: Seq<nat>, pins: Pins, from: Seq<int>)
    requires setting(st, root, s, d, rank, pins, from)
    ensures sound(st.db, vals(st.brief.requirements@), st.vars(), pins)
{
    lemma_complete(st, root, s, d, rank, pins, from);
    lemma_nothing_more(st, root, s, d, rank, pins, from);
    assert forall|i: int, j: int| 0 <= i < pins.len() && 0 <= j < pins.len() && (#[trigger] pins[i]).0.name.norm() == (#[trigger] pins[j]).0.name.norm() implies i == j by {
        assert(key_of(s[from[i]].0) == key_of(s[from[j]].0));
        assert(from[i] == from[j]);
        if i < j { assert(from[i] < from[j]); }
        if j < i { assert(from[j] < from[i]); }
    }
    assert forall|i: int| 0 <= i < pins.len() implies {
        let p = (#[trigger] pins[i]).0;
        p.hashes@ == hashes_of(st.db.arts(p.name.norm(), p.version)) && st.db.arts(p.name.norm(), p.version).len() > 0 && st.db.from_files(p.name.norm(), p.version, pins[i].1)
    } by { let j = from[i]; assert(st.offered(s[j].0, s[j].1)); }
}
// what is asked for can be asked about
pub proof fn lemma_fit(st: PubgrubState, p: ResPkg, v: Version, m: Map<Key, PRange>, q: ResPkg, u: Version)
    requires st.fit(p, v), st.answered(p, v, m), m.dom().contains(key_of(q)), st.offered(q, u)
    ensures st.fit(q, u)
{
    if q is Package && q->Package_1 is Some {
        let k = key_of(q);
        let n = q->Package_0.norm();
        let e = q->Package_1->Some_0.norm();
        let rs = if p is Root { vals(st.brief.requirements@) } else { vals(st.meta(p->Package_0, v).requires_dist@) };
        assert forall|i: int| 0 <= i < rs.len() implies req_ok(#[trigger] rs[i]) by {
            if p is Root { assert(req_ok(st.brief.requirements@[i].0)); } else { assert(req_ok(st.meta(p->Package_0, v).requires_dist@[i].0)); }
        }
        let x = if p is Root { None } else { extra_key(p->Package_1) };
        let mm = if x is Some { choose|d: Map<Key, PRange>| #[trigger] so_far(Map::empty(), d, rs, x, st.vars(), rs.len() as int) && pinned_too(d, m, Key::Pkg(p->Package_0.norm(), None), v) } else { m };
        assert(mm.dom().contains(k));
        let app = choose|app: Seq<bool>| #[trigger] decided(rs, x, st.vars(), app, rs.len() as int) && constrained(Map::empty(), mm, rs, app);
        assert(named(rs, app, k));
        let i = choose|i: int| 0 <= i < app.len() && #[trigger] app[i] && targets(rs[i], k);
        let j = choose|j: int| 0 <= j < rs[i].extras@.len() && #[trigger] rs[i].extras@[j].norm() == e;
        assert(req_ok(rs[i]));
    }
}
@fn src/resolve.rs | fn:resolve_wheels
@sub? `HashMap<StandaloneMarkerExpr, bool>` => `MarkerMap`
@sub? `use pubgrub::error::PubGrubError::*;` => ``
@sub? `marker_exprs: Default::default()` => `marker_exprs: Markers::fresh(Ghost(|e: EnvMarkerExpr, b: bool| meaning(e, |n: Seq<char>| env.var(n)) == Some(b)))`
@sub? `expected_metadata: Default::default()` => `expected_metadata: FrozenMap::fresh(Ghost(|k: Rel, w: Box<WheelResolveMetadata>| db.from_files(k.0.norm(), k.1, *w)))`
@sub? `versions: Default::default()` => `versions: FrozenMap::fresh(Ghost(|k: PackageName, w: Vec<&Version>| true))`
@sub? `env.get($a).ok_or($b)?.parse()?` => `(match env.get($a) { Some(s_) => parse_version(s_)?, None => return Err(verr()) })`
@sub? `pubgrub::solver::resolve($a)` => `solve($a)`
@sub? `ROOT_VERSION.clone()` => `version_zero()`
@sub? `ROOT_VERSION.to_owned()` => `version_zero()`
@sub `Err(err) => Err(match err { $B }),` => `Err(err) => Err(verr()),`
@sub `for (pkg, v) in solution { $B }` => `for pv in solution { let (pkg, v) = pv; $B }`
@sub? `state.expected_metadata.get($k).unwrap().clone()` => `copy_metadata(state.expected_metadata.known($k))`
@forwhile 1
@params db brief env version_hints wheel_builder
@sig pub fn resolve_wheels(db: &PackageDB, brief: &Brief, env: &EnvMap, version_hints: &VersionHints, wheel_builder: &WheelBuilder) -> (r: Result<(Vec<(PinnedPackage, WheelResolveMetadata)>, MarkerMap), Report>)
    requires
        db.tame(), vars_ok(|n: Seq<char>| env.var(n)), text_ok(lit("")), forall|i: int| 0 <= i < brief.requirements@.len() ==> req_ok((#[trigger] brief.requirements@[i]).0),
    ensures
        r matches Ok(x) ==> sound(db, vals(brief.requirements@), |n: Seq<char>| env.var(n), x.0@)
            && forall|e: EnvMarkerExpr, b: bool| #[trigger] x.1.says(e, b) ==> meaning(e, |n: Seq<char>| env.var(n)) == Some(b),
@at before `let result`
let ghost vs = |n: Seq<char>| env.var(n);
proof {
    assert(state.vars() =~= vs);
    assert forall|p: ResPkg, v: Version, m: Map<Key, PRange>, q: ResPkg, u: Version| state.fit(p, v) && #[trigger] state.answered(p, v, m) && m.dom().contains(key_of(q)) && #[trigger] state.offered(q, u) implies state.fit(q, u) by { lemma_fit(state, p, v, m, q, u); }
}
@at before `let mut pins`
let ghost sol = solution@;
let ghost (d, rank) = choose|d: Seq<Map<Key, PRange>>, rank: Seq<nat>| #[trigger] state.solution(ResPkg::Root, sol, d, rank);
let ghost mut from: Seq<int> = Seq::empty();
@loop 1
    invariant
        it1.wf(), it1.all@ == sol, state.solution(ResPkg::Root, sol, d, rank), state.kept(), *db == *state.db,
        taken(state, sol, it1.i@, pins@, from),
    decreases sol.len() - it1.i@
@at loop 1 start
let ghost at = it1.i@;
let ghost from0 = from;
let ghost pins0 = pins@;
proof { if sol[at].0 is Package && sol[at].0->Package_1 is None { from = from.push(at); } assert(state.answered(sol[at].0, sol[at].1, d[at])); }
@at loop 1 end
proof {
    if sol[at].0 is Package && sol[at].0->Package_1 is None {
        assert(from0.len() == pins0.len() && pins@.len() == from.len());
        assert forall|a: int| 0 <= a < pins@.len() implies {
            let i = #[trigger] from[a];
            0 <= i < at + 1 && sol[i].0 is Package && sol[i].0->Package_1 is None && pins@[a].0.name == sol[i].0->Package_0 && pins@[a].0.version == sol[i].1
            && pins@[a].0.hashes@ == hashes_of(state.db.arts(sol[i].0->Package_0.norm(), sol[i].1)) && pins@[a].1 == *state.expected_metadata.at((sol[i].0->Package_0, sol[i].1))
        } by { if a < from0.len() { assert(from[a] == from0[a]); assert(pins@[a] == pins0[a]); } }
        assert forall|i: int| 0 <= i < at + 1 && (#[trigger] sol[i]).0 is Package && sol[i].0->Package_1 is None implies exists|a: int| 0 <= a < from.len() && #[trigger] from[a] == i by {
            if i < at { let a = choose|a: int| 0 <= a < from0.len() && #[trigger] from0[a] == i; assert(from[a] == i); } else { assert(from[from0.len() as int] == at); }
        }
        assert forall|a: int, b: int| 0 <= a < b < from.len() implies #[trigger] from[a] < #[trigger] from[b] by { if b < from0.len() { assert(from0[a] < from0[b]); } else { assert(from0[a] < at); } }
    } else { assert(from == from0 && pins@ == pins0); }
}
@at loop 1 after
proof { lemma_sound(state, ResPkg::Root, sol, d, rank, pins@, from); }
@endfn

// ---- from the brief to the blueprint
@type src/resolve.rs | type:Blueprint
@sub? `HashMap<StandaloneMarkerExpr, bool>` => `MarkerMap`
@end
pub struct PybiName { pub distribution: PackageName, pub version: Version }
#[verifier::external_body] pub struct PybiPlatform { x: u8 }
impl PybiPlatform {
    pub uninterp spec fn ts(&self) -> Seq<Seq<char>>;
    pub open spec fn takes(&self, t: Seq<char>) -> bool { exists|i: int| 0 <= i < self.ts().len() && #[trigger] self.ts()[i] == t }
    // contracts/R06.vrs: the place of a tag among those of the platform
    #[verifier::external_body]
    pub fn compatibility(&self, tag: &str) -> (r: Option<i32>) ensures r is Some <==> self.takes(tag@) { unimplemented!() }
    #[verifier::external_body]
    pub fn native_platforms() -> (r: Result<Platforms, Report>) { unimplemented!() }
}
#[verifier::external_body] pub struct Platforms { x: u8 }
impl ArtifactName {
    pub uninterp spec fn pybi(&self) -> Option<PybiName>;
    #[verifier::external_body]
    pub fn distribution(&self) -> (r: &PackageName) { unimplemented!() }
    #[verifier::external_body]
    pub fn version(&self) -> (r: &Version) { unimplemented!() }
    // inner_as::<PybiName>()
    #[verifier::external_body]
    pub fn as_pybi(&self) -> (r: Option<&PybiName>) ensures match r { Some(n) => self.pybi() == Some(*n), None => self.pybi() is None } { unimplemented!() }
}
impl WheelBuilder {
    #[verifier::external_body]
    pub fn new(db: &PackageDB, name: &PackageName, version: &Version, platforms: Platforms, build_stack: &[&PackageName]) -> (r: Result<WheelBuilder, Report>) { unimplemented!() }
}
pub struct PybiCoreMetadata { pub environment_marker_variables: EnvMap }
pub uninterp spec fn hints_from(like: Option<&Blueprint>) -> VersionHints;
// .map(VersionHints::from).unwrap_or_else(VersionHints::new): contracts/R05.vrs
#[verifier::external_body]
pub fn hints_of(like: Option<&Blueprint>) -> (r: VersionHints) ensures r == hints_from(like) { unimplemented!() }
impl PackageDB {
    // contracts/R05.vrs, contracts/R06.vrs: the interpreter chosen for a brief
    pub uninterp spec fn chosen(&self, brief: Brief, platforms: Seq<&PybiPlatform>, hints: VersionHints, ai: AI, p: PybiPlatform) -> bool;
    pub uninterp spec fn says_pybi(&self, ai: AI, m: PybiCoreMetadata) -> bool;
    // get_metadata::<Pybi, _>, of one file
    #[verifier::external_body]
    pub fn pybi_metadata<'b>(&self, ais: &[&'b AI], builder: Option<&WheelBuilder>) -> (r: Result<(&'b AI, PybiCoreMetadata), Report>)
        ensures r matches Ok(x) ==> (exists|i: int| 0 <= i < ais@.len() && *x.0 == *(#[trigger] ais@[i])) && self.says_pybi(*x.0, x.1)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn resolve_pybi<'a, 'b>(db: &'a PackageDB, brief: &Brief, platforms: &[&'b PybiPlatform], hints: &VersionHints) -> (r: Result<(&'a AI, &'b PybiPlatform), Report>)
    ensures r matches Ok(x) ==> db.chosen(*brief, platforms@, *hints, *x.0, *x.1) && x.0.name.pybi() is Some
{ unimplemented!() }
// .to_owned()
pub trait Own_: Sized { fn own_(&self) -> (r: Self) ensures r == *self; }
impl Own_ for PackageName { #[verifier::external_body] fn own_(&self) -> (r: Self) { unimplemented!() } }
impl Own_ for Version { #[verifier::external_body] fn own_(&self) -> (r: Self) { unimplemented!() } }
// what markers are judged by: what the interpreter says, and the machine when it does not say and the platform leaves no doubt
pub open spec fn machine(p: PybiPlatform) -> Option<Seq<char>> {
    if p.takes(lit("macosx_10_0_arm64")) && !p.takes(lit("macosx_10_0_x86_64")) { Some(lit("arm64")) }
    else if !p.takes(lit("macosx_10_0_arm64")) && p.takes(lit("macosx_10_0_x86_64")) { Some(lit("x86_64")) }
    else { None }
}
pub open spec fn vars_of(m: PybiCoreMetadata, p: PybiPlatform) -> Vars {
    |n: Seq<char>| if n == lit("platform_machine") && m.environment_marker_variables.var(n) is None { machine(p) } else { m.environment_marker_variables.var(n) }
}
pub open spec fn blueprint_for(db: &PackageDB, brief: Brief, platforms: Seq<&PybiPlatform>, like: Option<&Blueprint>, ai: AI, p: PybiPlatform, m: PybiCoreMetadata, b: Blueprint) -> bool {
    db.chosen(brief, platforms, hints_from(like), ai, p) && db.says_pybi(ai, m)
    && b.pybi.name == ai.name.pybi()->Some_0.distribution && b.pybi.version == ai.name.pybi()->Some_0.version && b.pybi.hashes@ == hashes_of(db.arts(b.pybi.name.norm(), b.pybi.version))
    && sound(db, vals(brief.requirements@), vars_of(m, p), b.wheels@)
    && forall|e: EnvMarkerExpr, x: bool| #[trigger] b.marker_expressions.says(e, x) ==> meaning(e, vars_of(m, p)) == Some(x)
}
impl Brief {
@fn src/resolve.rs | Brief/fn:resolve
@sub? `like.map(VersionHints::from).unwrap_or_else(VersionHints::new)` => `hints_of(like)`
@sub? `.get_metadata::<Pybi, _>($a)` => `.pybi_metadata($a)`
@sub? `.inner_as::<PybiName>()` => `.as_pybi()`
@sub? `.wrap_err_with(|| $e)` => ``
@sub? `.wrap_err($e)` => ``
@sub? `Ok(Blueprint { $b })` => `let bp = Blueprint { $b }; proof { assert(blueprint_for(db, *self, platforms@, like, *pybi_ai, *platform, m0, bp)); } Ok(bp)`
@sub? `.insert($a.into(), $b.into(),)` => `.insert($a.into(), $b.into())`
@sub? `.insert($a.into(), $b.into())` => `.put($a, $b)`
@sub? `.distribution.to_owned()` => `.distribution.own_()`
@sub? `.version.to_owned()` => `.version.own_()`
@sub? `.distribution.clone()` => `.distribution.own_()`
@sub? `.version.clone()` => `.version.own_()`
@params self db platforms like build_stack
@sig pub fn resolve(&self, db: &PackageDB, platforms: &[&PybiPlatform], like: Option<&Blueprint>, build_stack: &[&PackageName]) -> (r: Result<Blueprint, Report>)
    requires
        db.tame(), text_ok(lit("")), text_ok(lit("arm64")), text_ok(lit("x86_64")), forall|i: int| 0 <= i < self.requirements@.len() ==> req_ok((#[trigger] self.requirements@[i]).0),
        forall|ai: AI, m: PybiCoreMetadata, n: Seq<char>| #[trigger] db.says_pybi(ai, m) ==> ((#[trigger] m.environment_marker_variables.var(n)) matches Some(s) ==> text_ok(s)),
    ensures
        r matches Ok(b) ==> exists|ai: AI, p: PybiPlatform, m: PybiCoreMetadata| #[trigger] blueprint_for(db, *self, platforms@, like, ai, p, m, b),
@at before `let mut env_marker_vars`
let ghost m0 = pybi_metadata;
@at before `let (wheels, marker_exprs)`
proof {
    assert(vars_of(m0, *platform) =~= (|n: Seq<char>| env_marker_vars.var(n)));
    assert(db.says_pybi(*pybi_ai, m0));
}
@endfn
}
}
fn main() {}
