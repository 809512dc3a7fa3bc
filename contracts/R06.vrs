@include contracts/common.vrs
verus! {
pub type Tag = Seq<char>;
#[verifier::external_body] pub struct Version { x: u8 }
#[verifier::external_body] pub struct PackageName { x: u8 }
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct DistInfoMetadata { x: u8 }
#[verifier::external_body] pub struct Yanked { x: u8 }
pub struct ArtifactHash { pub mode: String, pub raw_data: Vec<u8> }
pub struct SdistName { pub x: u8 }
@type src/vocab/artifact_name.rs | type:WheelName ;
@type src/vocab/artifact_name.rs | type:PybiName ;
@type src/vocab/artifact_name.rs | type:ArtifactName ;
@type src/package_db/simple_api/project_info.rs | type:ArtifactInfo ;
@type src/resolve.rs | type:PinnedPackage ;
pub type AI = ArtifactInfo;

}
@include contracts/tags.vrs
verus! {
// ---- platforms: an ordered set of tags, the best first
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { t: T }
impl IndexSet<String> {
    pub uninterp spec fn v(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub fn get_index_of(&self, tag: &str) -> (r: Option<usize>)
        ensures match r { Some(i) => i < self.v().len() && self.v()[i as int] == tag@ && (forall|j: int| 0 <= j < i ==> #[trigger] self.v()[j] != tag@), None => forall|j: int| 0 <= j < self.v().len() ==> #[trigger] self.v()[j] != tag@ }
    { unimplemented!() }
}
// r is the score of the tag: the earlier it is listed the better
pub open spec fn score_of(ts: Seq<Tag>, tag: Tag, r: Option<i32>) -> bool {
    match r {
        Some(s) => 0 <= -s < ts.len() && ts[-s as int] == tag && forall|j: int| 0 <= j < -s ==> #[trigger] ts[j] != tag,
        None => forall|j: int| 0 <= j < ts.len() ==> #[trigger] ts[j] != tag,
    }
}
// r is the score of a file with the tags h: that of its best tag
pub open spec fn score_is(ts: Seq<Tag>, h: spec_fn(Tag) -> bool, r: Option<i32>) -> bool {
    match r {
        Some(s) => 0 <= -s < ts.len() && h(ts[-s as int]) && forall|j: int| 0 <= j < -s ==> !h(#[trigger] ts[j]),
        None => forall|j: int| 0 <= j < ts.len() ==> !h(#[trigger] ts[j]),
    }
}
@fn src/platform_tags/platform.rs | fn:compatibility
@sub? `.map(|score| -(score as i32))` => `.map(|score: usize| -> (r: i32) requires score < i32::MAX ensures r == -(score as int) { -(score as i32) })`
@params tags tag
@sig pub fn compatibility(tags: &IndexSet<String>, tag: &str) -> (r: Option<i32>)
    requires tags.v().len() <= i32::MAX
    ensures score_of(tags.v(), tag@, r)
@endfn
pub open spec fn upto(v: Seq<String>, n: int, t: Tag) -> bool { exists|i: int| 0 <= i < n && #[trigger] v[i]@ == t }
pub open spec fn list_score(ts: Seq<Tag>, v: Seq<String>, n: int, r: Option<i32>) -> bool {
    match r {
        Some(s) => 0 <= -s < ts.len() && upto(v, n, ts[-s as int]) && forall|j: int| 0 <= j < -s ==> !upto(v, n, #[trigger] ts[j]),
        None => forall|j: int| 0 <= j < ts.len() ==> !upto(v, n, #[trigger] ts[j]),
    }
}
// .filter_map(f).max()
pub fn max_of<F: Fn(&String) -> Option<i32>>(v: Vec<String>, f: F, ts: Ghost<Seq<Tag>>) -> (r: Option<i32>)
    requires forall|t: &String| #[trigger] f.requires((t,)), forall|t: &String, o: Option<i32>| #[trigger] f.ensures((t,), o) ==> score_of(ts@, t@, o)
    ensures list_score(ts@, v@, v@.len() as int, r)
{
    let mut best: Option<i32> = None;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|t: &String| #[trigger] f.requires((t,)), forall|t: &String, o: Option<i32>| #[trigger] f.ensures((t,), o) ==> score_of(ts@, t@, o),
            list_score(ts@, v@, i as int, best)
        decreases v@.len() - i
    {
        let o = f(&v[i]);
        let ghost old_best = best;
        match o { Some(x) => { if best.is_none() || best.unwrap() <= x { best = Some(x); } } None => {} }
        proof {
            assert(score_of(ts@, v@[i as int]@, o));
            assert forall|t: Tag| #[trigger] upto(v@, i + 1, t) <==> (upto(v@, i as int, t) || t == v@[i as int]@) by {
                if upto(v@, i as int, t) { let k = choose|k: int| 0 <= k < i && #[trigger] v@[k]@ == t; assert(v@[k]@ == t); }
                if t == v@[i as int]@ { assert(upto(v@, i + 1, t)); }
            }
        }
        i += 1;
    }
    best
}
pub trait Platform: Sized {
    spec fn ts(&self) -> Seq<Tag>;
    fn compatibility(&self, tag: &str) -> (r: Option<i32>)
        requires self.ts().len() <= i32::MAX
        ensures score_of(self.ts(), tag@, r);
@fn src/platform_tags/platform.rs | trait:Platform/fn:max_compatibility
@sub? `tags.into_iter().filter_map(|$t| $e).max()` => `max_of(tags.listed(), |$t: &String| -> (r: Option<i32>) requires self.ts().len() <= i32::MAX ensures score_of(self.ts(), $t@, r) { $e }, Ghost(self.ts()))`
@sub? `t.as_ref()` => `t.as_str()`
@params self tags
@sig fn max_compatibility<T: Tags>(&self, tags: T) -> (r: Option<i32>)
    requires self.ts().len() <= i32::MAX
    ensures score_is(self.ts(), |t: Tag| tags.t(t), r)
@endfn
}
@type src/platform_tags/platform.rs | type:PybiPlatform ;
@type src/platform_tags/platform.rs | type:WheelPlatform ;
impl Platform for PybiPlatform {
    open spec fn ts(&self) -> Seq<Tag> { self.tags.v() }
@fn src/platform_tags/platform.rs | Platform for PybiPlatform/fn:compatibility
@params self tag
@sig fn compatibility(&self, tag: &str) -> (r: Option<i32>)
@endfn
}
impl Platform for WheelPlatform {
    open spec fn ts(&self) -> Seq<Tag> { self.tags.v() }
@fn src/platform_tags/platform.rs | Platform for WheelPlatform/fn:compatibility
@params self tag
@sig fn compatibility(&self, tag: &str) -> (r: Option<i32>)
@endfn
}

// ---- choosing a file
// the score of a file on a platform, None if it is of another kind or does not run there
pub open spec fn ranked<N: BinaryName>(ts: Seq<Tag>, a: AI, r: Option<i32>) -> bool {
    match N::of(a.name) { Some(n) => score_is(ts, |t: Tag| n.tag(t), r), None => r is None }
}
pub open spec fn has_rank<N: BinaryName>(ts: Seq<Tag>, a: AI) -> bool { exists|s: i32| ranked::<N>(ts, a, Some(s)) }
pub proof fn lemma_rank<N: BinaryName>(ts: Seq<Tag>, a: AI, r: Option<i32>, q: Option<i32>)
    requires ranked::<N>(ts, a, r), ranked::<N>(ts, a, q)
    ensures r == q
{
    if let Some(n) = N::of(a.name) {
        let h = |t: Tag| n.tag(t);
        if let (Some(x), Some(y)) = (r, q) { if x < y { assert(h(ts[-y as int])); } else if y < x { assert(h(ts[-x as int])); } }
        if r is Some && q is None { assert(h(ts[-r.unwrap() as int])); }
        if q is Some && r is None { assert(h(ts[-q.unwrap() as int])); }
    }
}
// b is no better than the file with score s
pub open spec fn no_better<N: BinaryName>(ts: Seq<Tag>, b: AI, s: i32) -> bool { forall|q: i32| #[trigger] ranked::<N>(ts, b, Some(q)) ==> q <= s }
pub open spec fn listed<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, n: int, out: Seq<(&AI, i32)>) -> bool {
    (forall|k: int| 0 <= k < out.len() ==> arts.take(n).contains(*(#[trigger] out[k]).0) && ranked::<N>(ts, *out[k].0, Some(out[k].1)))
    && (forall|i: int| 0 <= i < n ==> ranked::<N>(ts, #[trigger] arts[i], None) || exists|k: int| 0 <= k < out.len() && *(#[trigger] out[k]).0 == arts[i])
}
// .iter().filter_map(f).collect()
pub fn scored<'a, N: BinaryName, F: Fn(&'a AI) -> Option<(&'a AI, i32)>>(v: &'a [ArtifactInfo], f: F, ts: Ghost<Seq<Tag>>) -> (r: Vec<(&'a AI, i32)>)
    requires forall|a: &'a AI| #[trigger] f.requires((a,)),
        forall|a: &'a AI, o: Option<(&'a AI, i32)>| #[trigger] f.ensures((a,), o) ==> match o { Some(p) => *p.0 == *a && ranked::<N>(ts@, *a, Some(p.1)), None => ranked::<N>(ts@, *a, None) }
    ensures listed::<N>(ts@, v@, v@.len() as int, r@)
{
    let mut out: Vec<(&'a AI, i32)> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|a: &'a AI| #[trigger] f.requires((a,)),
            forall|a: &'a AI, o: Option<(&'a AI, i32)>| #[trigger] f.ensures((a,), o) ==> match o { Some(p) => *p.0 == *a && ranked::<N>(ts@, *a, Some(p.1)), None => ranked::<N>(ts@, *a, None) },
            listed::<N>(ts@, v@, i as int, out@)
        decreases v@.len() - i
    {
        let ghost out0 = out@;
        match f(&v[i]) { Some(p) => { out.push(p); } None => {} }
        proof {
            assert(v@.take(i + 1) =~= v@.take(i as int).push(v@[i as int]));
            assert(v@.take(i + 1)[i as int] == v@[i as int]);
            assert forall|a: AI| v@.take(i as int).contains(a) implies #[trigger] v@.take(i + 1).contains(a) by {
                let k = choose|k: int| 0 <= k < i && v@.take(i as int)[k] == a; assert(v@.take(i + 1)[k] == a);
            }
            assert forall|j: int| 0 <= j < i + 1 implies ranked::<N>(ts@, #[trigger] v@[j], None) || exists|k: int| 0 <= k < out@.len() && *(#[trigger] out@[k]).0 == v@[j] by {
                if j < i && !ranked::<N>(ts@, v@[j], None) { let k = choose|k: int| 0 <= k < out0.len() && *(#[trigger] out0[k]).0 == v@[j]; assert(out@[k] == out0[k]); }
                if j == i && out@.len() > out0.len() { assert(*out@[out0.len() as int].0 == v@[j]); }
            }
        }
        i += 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}
// .max_by_key(|(_, score)| *score).map(|(ai, _)| ai)
pub fn best_of<'a>(v: Vec<(&'a AI, i32)>) -> (r: Option<&'a AI>)
    ensures match r { Some(a) => exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).0 == a && forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).1 <= v@[k].1, None => v@.len() == 0 }
{
    if v.len() == 0 { return None; }
    let mut b: usize = 0;
    let mut i: usize = 1;
    while i < v.len()
        invariant 0 <= b < i <= v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).1 <= v@[b as int].1
        decreases v@.len() - i
    {
        if v[i].1 >= v[b].1 { b = i; }
        i += 1;
    }
    Some(v[b].0)
}
// ai is the file to use on this platform
pub open spec fn best_for<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, elig: spec_fn(AI) -> bool, a: AI) -> bool {
    arts.contains(a) && elig(a) && exists|s: i32| #[trigger] ranked::<N>(ts, a, Some(s)) && forall|i: int| 0 <= i < arts.len() && elig(#[trigger] arts[i]) ==> no_better::<N>(ts, arts[i], s)
}
pub open spec fn none_for<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, elig: spec_fn(AI) -> bool) -> bool {
    forall|i: int| 0 <= i < arts.len() && elig(#[trigger] arts[i]) ==> ranked::<N>(ts, arts[i], None)
}
pub open spec fn anything(a: AI) -> bool { true }
pub proof fn lemma_none<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, out: Seq<(&AI, i32)>)
    requires listed::<N>(ts, arts, arts.len() as int, out), out.len() == 0
    ensures none_for::<N>(ts, arts, |x: AI| anything(x))
{}
pub proof fn lemma_best<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, out: Seq<(&AI, i32)>, k: int)
    requires listed::<N>(ts, arts, arts.len() as int, out), 0 <= k < out.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] out[j]).1 <= out[k].1
    ensures best_for::<N>(ts, arts, |x: AI| anything(x), *out[k].0)
{
    assert(arts.take(arts.len() as int) =~= arts);
    let s = out[k].1;
    assert(ranked::<N>(ts, *out[k].0, Some(s)));
    assert forall|i: int| 0 <= i < arts.len() implies no_better::<N>(ts, #[trigger] arts[i], s) by {
        assert forall|q: i32| #[trigger] ranked::<N>(ts, arts[i], Some(q)) implies q <= s by {
            if ranked::<N>(ts, arts[i], None) { lemma_rank::<N>(ts, arts[i], None, Some(q)); }
            let j = choose|j: int| 0 <= j < out.len() && *(#[trigger] out[j]).0 == arts[i];
            lemma_rank::<N>(ts, arts[i], Some(q), Some(out[j].1));
        }
    }
}
@fn src/resolve.rs | fn:pick_best_pybi
@sub? `artifact_infos.iter().filter_map(|ai| {$B}).max_by_key(|(_, $s)| *$t).map(|(ai, _)| ai)` => `best_of(scored::<PybiName, _>(artifact_infos, |ai: &'a AI| -> (o: Option<(&'a AI, i32)>) requires (**platform).ts().len() <= i32::MAX ensures match o { Some(p) => *p.0 == *ai && ranked::<PybiName>((**platform).ts(), *ai, Some(p.1)), None => ranked::<PybiName>((**platform).ts(), *ai, None) } {$B}, Ghost((**platform).ts())))`
@sub? `platform.max_compatibility(name.arch_tags.iter()).map(|$s| (ai, $u))` => `pair(ai, platform.max_compatibility(&name.arch_tags))`
@sub? `Some((ai, platform))` => `Some((ai, *platform))`
@params artifact_infos platforms
@sig pub fn pick_best_pybi<'a, 'b>(artifact_infos: &'a [ArtifactInfo], platforms: &[&'b PybiPlatform]) -> (r: Option<(&'a ArtifactInfo, &'b PybiPlatform)>)
    requires forall|k: int| 0 <= k < platforms@.len() ==> (#[trigger] platforms@[k]).ts().len() <= i32::MAX
    ensures match r {
        Some((a, p)) => exists|k: int| 0 <= k < platforms@.len() && #[trigger] platforms@[k] == p && best_for::<PybiName>(p.ts(), artifact_infos@, |x: AI| anything(x), *a)
            && forall|m: int| 0 <= m < k ==> none_for::<PybiName>((#[trigger] platforms@[m]).ts(), artifact_infos@, |x: AI| anything(x)),
        None => forall|m: int| 0 <= m < platforms@.len() ==> none_for::<PybiName>((#[trigger] platforms@[m]).ts(), artifact_infos@, |x: AI| anything(x)),
    }
@loop 1 iter=it
    invariant it.seq().len() == platforms@.len(), forall|q: int| 0 <= q < platforms@.len() ==> *(#[trigger] it.seq()[q]) == platforms@[q],
        forall|k: int| 0 <= k < platforms@.len() ==> (#[trigger] platforms@[k]).ts().len() <= i32::MAX,
        forall|m: int| 0 <= m < it.index@ ==> none_for::<PybiName>((#[trigger] platforms@[m]).ts(), artifact_infos@, |x: AI| anything(x)),
@endfn
pub fn pair<'a>(a: &'a AI, s: Option<i32>) -> (r: Option<(&'a AI, i32)>) ensures match s { Some(x) => r == Some((a, x)), None => r is None } { match s { Some(x) => Some((a, x)), None => None } }

// ---- installing: only files whose hash is pinned
pub trait BinaryArtifact: Sized { type Name: BinaryName; type Platform: Platform; }
#[verifier::external_body] pub struct PackageDB { x: u8 }
impl PackageDB {
    // contracts/P01.vrs: the files filed under that version
    pub uninterp spec fn arts(&self, n: PackageName, v: Version) -> Seq<AI>;
    #[verifier::external_body]
    pub fn artifacts_for_version(&self, n: &PackageName, v: &Version) -> (r: Result<&[ArtifactInfo], Report>) ensures r is Ok <==> self.lists(*n, *v), r matches Ok(x) ==> x@ == self.arts(*n, *v) { unimplemented!() }
    pub uninterp spec fn lists(&self, n: PackageName, v: Version) -> bool;
}
// derive(PartialEq) of ArtifactHash: same algorithm, same digest
pub open spec fn same_hash(a: ArtifactHash, b: ArtifactHash) -> bool { a.mode@ == b.mode@ && a.raw_data@ == b.raw_data@ }
pub open spec fn pinned_hash(p: PinnedPackage, h: ArtifactHash) -> bool { exists|i: int| 0 <= i < p.hashes@.len() && same_hash(#[trigger] p.hashes@[i], h) }
pub open spec fn pinned(p: PinnedPackage, a: AI) -> bool { a.hash matches Some(h) && pinned_hash(p, h) }
#[verifier::external_body]
pub fn hash_among(v: &Vec<ArtifactHash>, h: &ArtifactHash) -> (r: bool) ensures r <==> exists|i: int| 0 <= i < v@.len() && same_hash(#[trigger] v@[i], *h) { unimplemented!() }
// a permutation keeps what is in the list
pub open spec fn same_members(a: Seq<(&AI, i32)>, b: Seq<(&AI, i32)>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]))
}
#[verifier::external_body]
pub fn sort_desc<'a>(v: &mut Vec<(&'a AI, i32)>) ensures same_members(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).1 >= (#[trigger] final(v)@[j]).1 { unimplemented!() }
#[verifier::external_body]
pub fn sort_asc<'a>(v: &mut Vec<(&'a AI, i32)>) ensures same_members(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).1 <= (#[trigger] final(v)@[j]).1 { unimplemented!() }
pub proof fn lemma_sorted<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, out: Seq<(&AI, i32)>, srt: Seq<(&AI, i32)>)
    requires listed::<N>(ts, arts, arts.len() as int, out), same_members(out, srt)
    ensures listed::<N>(ts, arts, arts.len() as int, srt)
{
    assert forall|k: int| 0 <= k < srt.len() implies arts.take(arts.len() as int).contains(*(#[trigger] srt[k]).0) && ranked::<N>(ts, *srt[k].0, Some(srt[k].1)) by {
        let j = choose|j: int| 0 <= j < out.len() && out[j] == srt[k];
        assert(out[j] == srt[k]);
    }
    assert forall|i: int| 0 <= i < arts.len() implies ranked::<N>(ts, #[trigger] arts[i], None) || exists|k: int| 0 <= k < srt.len() && *(#[trigger] srt[k]).0 == arts[i] by {
        if !ranked::<N>(ts, arts[i], None) {
            let j = choose|j: int| 0 <= j < out.len() && *(#[trigger] out[j]).0 == arts[i];
            assert(srt.contains(out[j]));
            let k = choose|k: int| 0 <= k < srt.len() && srt[k] == out[j];
            assert(*srt[k].0 == arts[i]);
        }
    }
}
pub proof fn lemma_pick<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, pin: PinnedPackage, out: Seq<(&AI, i32)>, k: int)
    requires listed::<N>(ts, arts, arts.len() as int, out), 0 <= k < out.len(), forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).1 >= (#[trigger] out[j]).1,
        forall|j: int| 0 <= j < k ==> !pinned(pin, *(#[trigger] out[j]).0), pinned(pin, *out[k].0)
    ensures best_for::<N>(ts, arts, |x: AI| pinned(pin, x), *out[k].0)
{
    assert(arts.take(arts.len() as int) =~= arts);
    let s = out[k].1;
    assert(ranked::<N>(ts, *out[k].0, Some(s)));
    assert forall|i: int| 0 <= i < arts.len() && pinned(pin, #[trigger] arts[i]) implies no_better::<N>(ts, arts[i], s) by {
        assert forall|q: i32| #[trigger] ranked::<N>(ts, arts[i], Some(q)) implies q <= s by {
            if ranked::<N>(ts, arts[i], None) { lemma_rank::<N>(ts, arts[i], None, Some(q)); }
            let j = choose|j: int| 0 <= j < out.len() && *(#[trigger] out[j]).0 == arts[i];
            lemma_rank::<N>(ts, arts[i], Some(q), Some(out[j].1));
            assert(j >= k);
        }
    }
}
pub proof fn lemma_pick_none<N: BinaryName>(ts: Seq<Tag>, arts: Seq<AI>, pin: PinnedPackage, out: Seq<(&AI, i32)>)
    requires listed::<N>(ts, arts, arts.len() as int, out), forall|j: int| 0 <= j < out.len() ==> !pinned(pin, *(#[trigger] out[j]).0)
    ensures none_for::<N>(ts, arts, |x: AI| pinned(pin, x))
{}
@fn src/env.rs | fn:pick_pinned_binary
@sub? `.iter().filter_map(|ai| {$B}).collect::<Vec<_>>()` => `.LISTED(|ai: &'a AI| -> (o: Option<(&'a AI, i32)>) requires (**platform).ts().len() <= i32::MAX ensures match o { Some(p) => *p.0 == *ai && ranked::<T::Name>((**platform).ts(), *ai, Some(p.1)), None => ranked::<T::Name>((**platform).ts(), *ai, None) } {$B})`
@sub? `= $e.LISTED($B)` => `= scored::<T::Name, _>($e, $B, Ghost((**platform).ts()))`
@sub? `ai.name.inner_as::<T::Name>()` => `<T::Name>::named(&ai.name)`
@sub? `name.all_tags().iter()` => `&name.all_tags()`
@sub? `scored_candidates.sort_unstable_by_key(|(_, $s)| std::cmp::Reverse(*$t))` => `let ghost out0 = scored_candidates@; sort_desc(&mut scored_candidates); let ghost srt = scored_candidates@; proof { lemma_sorted::<T::Name>((**platform).ts(), db.arts(pin.name, pin.version), out0, srt); }`
@sub? `scored_candidates.sort_unstable_by_key(|(_, $s)| *$t)` => `let ghost out0 = scored_candidates@; sort_asc(&mut scored_candidates); let ghost srt = scored_candidates@; proof { lemma_sorted::<T::Name>((**platform).ts(), db.arts(pin.name, pin.version), out0, srt); }`
@sub? `pin.hashes.contains($e)` => `hash_among(&pin.hashes, $e)`
@sub? `Ok((ai, platform))` => `Ok((ai, *platform))`
@sub? `Err(PosyError::$x {$B})?` => `return Err(verr())`
@forwhile 2
@params db platforms pin
@sig pub fn pick_pinned_binary<'a, 'b, T: BinaryArtifact>(db: &'a PackageDB, platforms: &[&'b T::Platform], pin: &PinnedPackage) -> (r: Result<(&'a ArtifactInfo, &'b T::Platform), Report>)
    requires forall|k: int| 0 <= k < platforms@.len() ==> (#[trigger] platforms@[k]).ts().len() <= i32::MAX
    ensures r matches Ok((a, p)) ==> exists|k: int| 0 <= k < platforms@.len() && #[trigger] platforms@[k] == p && best_for::<T::Name>(p.ts(), db.arts(pin.name, pin.version), |x: AI| pinned(*pin, x), *a)
            && forall|m: int| 0 <= m < k ==> none_for::<T::Name>((#[trigger] platforms@[m]).ts(), db.arts(pin.name, pin.version), |x: AI| pinned(*pin, x)),
        r is Err && db.lists(pin.name, pin.version) ==> forall|m: int| 0 <= m < platforms@.len() ==> none_for::<T::Name>((#[trigger] platforms@[m]).ts(), db.arts(pin.name, pin.version), |x: AI| pinned(*pin, x)),
@loop 1 iter=it
    invariant it.seq().len() == platforms@.len(), forall|q: int| 0 <= q < platforms@.len() ==> *(#[trigger] it.seq()[q]) == platforms@[q],
        forall|k: int| 0 <= k < platforms@.len() ==> (#[trigger] platforms@[k]).ts().len() <= i32::MAX,
        forall|m: int| 0 <= m < it.index@ ==> none_for::<T::Name>((#[trigger] platforms@[m]).ts(), db.arts(pin.name, pin.version), |x: AI| pinned(*pin, x)),
@loop 2
    invariant it2.wf(), it2.all@ == srt, listed::<T::Name>((**platform).ts(), db.arts(pin.name, pin.version), db.arts(pin.name, pin.version).len() as int, srt),
        0 <= it.index@ < platforms@.len(), *platform == platforms@[it.index@],
        forall|m: int| 0 <= m < it.index@ ==> none_for::<T::Name>((#[trigger] platforms@[m]).ts(), db.arts(pin.name, pin.version), |x: AI| pinned(*pin, x)),
        forall|i: int, j: int| 0 <= i < j < srt.len() ==> (#[trigger] srt[i]).1 >= (#[trigger] srt[j]).1,
        forall|j: int| 0 <= j < it2.i@ ==> !pinned(*pin, *(#[trigger] srt[j]).0),
    decreases srt.len() - it2.i@
@at before `return Ok`
    proof { assert(pinned(*pin, *ai)); lemma_pick::<T::Name>((**platform).ts(), db.arts(pin.name, pin.version), *pin, srt, it2.i@ - 1); }
@at loop 2 after
    proof { lemma_pick_none::<T::Name>((**platform).ts(), db.arts(pin.name, pin.version), *pin, srt); }
@endfn
}
fn main() {}
