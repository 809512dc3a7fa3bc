@include contracts/common.vrs
@include contracts/tree_spec.vrs
verus! {
// ---- the stored target: `ups` leading '..' and then names
pub open spec fn dd() -> Seq<char> { ".."@ }
pub open spec fn target_view(ups: int, names: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ups as nat, |i: int| dd()) + names }
// the comps a stored target consists of
pub open spec fn is_rel(names: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < names.len() ==> safe_name(#[trigger] names[i]) }
// resolution relative to a directory, in normal form: levels climbed and names below; None if
// absolute or unsafe
pub open spec fn climb(cs: Seq<Comp>) -> Option<(int, Seq<Seq<char>>)>
    decreases cs.len()
{
    if cs.len() == 0 { Some((0, seq![])) } else {
        match climb(cs.drop_last()) {
            None => None,
            Some((k, n)) => match cs.last() {
                Comp::Root => None,
                Comp::Cur => Some((k, n)),
                Comp::Parent => if n.len() > 0 { Some((k, n.drop_last())) } else { Some((k + 1, n)) },
                Comp::Normal(b) => if safe_piece(b) { Some((k, n.push(utf8(b)->Some_0))) } else { None },
            },
        }
    }
}
pub proof fn lemma_climb_safe(cs: Seq<Comp>)
    requires climb(cs) is Some
    ensures is_rel(climb(cs)->Some_0.1), 0 <= climb(cs)->Some_0.0 <= cs.len()
    decreases cs.len()
{ if cs.len() > 0 { lemma_climb_safe(cs.drop_last()); } }
pub proof fn lemma_climb_prefix(cs: Seq<Comp>, i: int)
    requires 0 <= i <= cs.len(), climb(cs.take(i)) is None
    ensures climb(cs) is None
    decreases cs.len()
{
    if i < cs.len() {
        assert(cs.drop_last().take(i) =~= cs.take(i));
        lemma_climb_prefix(cs.drop_last(), i);
    } else { assert(cs.take(i) =~= cs); }
}
// the property's notion (textual resolution from the link's directory, never above the root)
// agrees with the normal form
pub proof fn lemma_climb_is_resolve(dir: Seq<Seq<char>>, cs: Seq<Comp>)
    ensures
        resolve(dir, cs) is Some <==> (climb(cs) matches Some(p) && p.0 <= dir.len()),
        resolve(dir, cs) is Some ==> (climb(cs) matches Some(p) && resolve(dir, cs)->Some_0 == dir.take(dir.len() - p.0) + p.1),
    decreases cs.len()
{
    if cs.len() > 0 {
        let c0 = cs.drop_last();
        lemma_climb_is_resolve(dir, c0);
        if climb(c0) is Some {
            lemma_climb_safe(c0);
            let (k, n) = climb(c0)->Some_0;
            if k <= dir.len() {
                let at = dir.take(dir.len() - k) + n;
                match cs.last() {
                    Comp::Parent => {
                        if n.len() > 0 { assert(at.drop_last() =~= dir.take(dir.len() - k) + n.drop_last()); }
                        else if k < dir.len() { assert(at.drop_last() =~= dir.take(dir.len() - k - 1) + n); }
                        else { assert(at.len() == 0); }
                    }
                    Comp::Normal(b) => { if safe_piece(b) { assert(at.push(utf8(b)->Some_0) =~= dir.take(dir.len() - k) + n.push(utf8(b)->Some_0)); } }
                    _ => {}
                }
            }
        }
    } else { assert(dir.take(dir.len() as int) + Seq::<Seq<char>>::empty() =~= dir); }
}

// `sanitized.last().map(|s| s.as_str())` against None / Some("..") / other
pub fn last_dotdot(v: &Vec<String>) -> (r: Option<bool>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()@ =~= dd())
{ if v.len() == 0 { None } else { Some(string_is(&v[v.len() - 1], "..")) } }
#[verifier::external_body]
pub fn string_is(s: &String, t: &str) -> (r: bool) ensures r <==> s@ =~= t@ { unimplemented!() }
#[verifier::external_body]
pub fn nice_clone(s: &NicePathBuf) -> (r: NicePathBuf) ensures r.at() == s.at() { unimplemented!() }
impl NicePathBuf {
@fn src/tree.rs | NicePathBuf/fn:len
@sig pub fn len(&self) -> (r: usize) ensures r == self.at().len()
@endfn
}
pub fn ok_or<T>(o: Option<T>, e: Report) -> (r: Result<T, Report>) ensures o matches Some(t) ==> r == Ok::<T, Report>(t), o is None ==> r is Err
{ match o { Some(t) => Ok(t), None => Err(e) } }
@type src/tree.rs | type:NiceSymlinkPaths ;

pub open spec fn stored_text(ups: int, names: Seq<Seq<char>>) -> Seq<char> {
    if ups + names.len() == 0 { "."@ } else { joined(target_view(ups, names), "/"@) }
}
impl NiceSymlinkPaths {
@fn src/tree.rs | NiceSymlinkPaths/fn:new
@sub? `check_path_piece($p)?.into()` => `owned(check_path_piece($p)?)`
@sub? `sanitized.last().map(|$s| $s.as_str())` => `last_dotdot(&sanitized)`
@sub? `Some("..")` => `Some(true)`
@sub? `"..".into()` => `owned("..")`
@sub? `".".into()` => `owned(".")`
@sub? `source.pieces.is_empty()` => `(source.pieces.len() == 0)`
@sub? `sanitized.is_empty()` => `(sanitized.len() == 0)`
@sub? `sanitized.as_slice().join($s)` => `join_strs(sanitized.as_slice(), $s)`
@sub? `dotdots.checked_add(1).ok_or($e)` => `ok_or(dotdots.checked_add(1), $e)`
@sub? `source.clone()` => `nice_clone(source)`
@params source target_bytes
@sig pub fn new(source: &NicePathBuf, target_bytes: &[u8]) -> (r: Result<NiceSymlinkPaths, Report>)
    requires source.pieces@.len() < usize::MAX - 1, comps(target_bytes@).len() < usize::MAX - 1,
    ensures
        // accepted exactly when the target resolves inside the tree from the link's directory
        r is Ok <==> source.at().len() > 0 && resolve(source.at().drop_last(), comps(target_bytes@)) is Some,
        r is Ok ==> ({
            let p = climb(comps(target_bytes@))->Some_0;
            let dir = source.at().drop_last();
            &&& r->Ok_0.source.at() == source.at()
            // stored: leading '..'s, then safe names, leading to the same place
            &&& r->Ok_0.target@ == stored_text(p.0, p.1)
            &&& 0 <= p.0 <= dir.len() && is_rel(p.1)
            &&& resolve(dir, comps(target_bytes@))->Some_0 == dir.take(dir.len() - p.0) + p.1
        }),
@at start
let ghost cs = comps(target_bytes@);
proof { reveal_strlit(".."); lemma_climb_is_resolve(source.at().drop_last(), cs); if climb(cs) is Some { lemma_climb_safe(cs); } }
@loop 1 iter=it
    invariant
        cs == comps(target_bytes@),
        cs.len() < usize::MAX - 1,
        cvs(it.seq()) == cs,
        source.at().len() > 0,
        climb(cs.take(it.index())) is Some,
        dotdots == 1 + climb(cs.take(it.index()))->Some_0.0,
        is_rel(climb(cs.take(it.index()))->Some_0.1),
        1 <= dotdots <= it.index() + 1,
        sviews(sanitized@) == target_view(dotdots - 1, climb(cs.take(it.index()))->Some_0.1),
        dd() == seq!['.', '.'],
        resolve(source.at().drop_last(), cs) is Some ==> climb(cs) is Some,
@at loop 1 before
proof { assert(cs.take(0) =~= seq![]); assert(sviews(sanitized@) =~= target_view(0, seq![])); }
@at loop 1 start
let ghost s0 = sviews(sanitized@);
let ghost p0 = climb(cs.take(it.index()))->Some_0;
proof {
    let i = it.index();
    assert(cs[i] == cv(c));
    assert(cs.take(i + 1).drop_last() =~= cs.take(i));
    assert(cs.take(i + 1).last() == cs[i]);
    if climb(cs.take(i + 1)) is None { lemma_climb_prefix(cs, i + 1); }
    if s0.len() > 0 {
        assert(sanitized@.last()@ == s0.last());
        if p0.1.len() > 0 { assert(s0.last() == p0.1.last()); assert(safe_name(p0.1[p0.1.len() - 1])); assert(s0.last() != dd()); }
        else { assert(s0.last() == dd()); }
    }
}
@at loop 1 end
proof {
    let i = it.index();
    let p1 = climb(cs.take(i + 1))->Some_0;
    match cs[i] {
        Comp::Normal(b) => {
            assert(sviews(sanitized@) =~= s0.push(utf8(b)->Some_0));
            assert(sviews(sanitized@) =~= target_view(dotdots - 1, p1.1));
        }
        Comp::Parent => {
            if p0.1.len() > 0 { assert(sviews(sanitized@) =~= s0.drop_last()); assert(sviews(sanitized@) =~= target_view(dotdots - 1, p1.1)); }
            else { assert(sviews(sanitized@) =~= s0.push(dd())); assert(target_view(p1.0, p1.1) =~= target_view(p0.0, p0.1).push(dd())); assert(sviews(sanitized@) =~= target_view(dotdots - 1, p1.1)); }
        }
        _ => { assert(sviews(sanitized@) =~= target_view(dotdots - 1, p1.1)); }
    }
    lemma_climb_safe(cs.take(i + 1));
}
@at loop 1 after
proof { assert(cs.take(cs.len() as int) =~= cs); assert(sviews(sanitized@).len() == sanitized@.len()); }
@endfn
}
}
fn main() {}
