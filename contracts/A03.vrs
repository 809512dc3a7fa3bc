@include contracts/common.vrs
@include contracts/tree_spec.vrs
verus! {
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub open spec fn place_of(b: Seq<u8>) -> Option<Seq<Seq<char>>> { resolve(seq![], comps(b)) }
// text stored for a link target (contracts/A02.vrs says what it denotes)
pub uninterp spec fn link_text(b: Seq<u8>) -> Seq<char>;
pub type Path = Seq<Seq<char>>;
pub open spec fn link_of(name: Seq<u8>, target: Seq<u8>) -> Option<(Path, Seq<char>)> {
    match place_of(name) {
        None => None,
        Some(p) => if p.len() > 0 && resolve(p.drop_last(), comps(target)) is Some { Some((p, link_text(target))) } else { None },
    }
}
// callee contracts, proved in contracts/A01.vrs and contracts/A02.vrs
#[verifier::external_body]
pub fn nice_from_str(s: &str) -> (r: Result<NicePathBuf, Report>)
    ensures r is Ok <==> place_of(bytes_of(s@)) is Some, r is Ok ==> Some(r->Ok_0.at()) == place_of(bytes_of(s@)) && r->Ok_0.wf()
{ unimplemented!() }
#[verifier::external_body]
pub fn nice_from_bytes(s: &[u8]) -> (r: Result<NicePathBuf, Report>)
    ensures r is Ok <==> place_of(s@) is Some, r is Ok ==> Some(r->Ok_0.at()) == place_of(s@) && r->Ok_0.wf()
{ unimplemented!() }
pub uninterp spec fn link_wf(l: NiceSymlinkPaths) -> bool;
@type src/tree.rs | type:NiceSymlinkPaths ;
impl NiceSymlinkPaths {
    #[verifier::external_body]
    pub fn new(source: &NicePathBuf, target_bytes: &[u8]) -> (r: Result<NiceSymlinkPaths, Report>)
        ensures
            r is Ok <==> source.at().len() > 0 && resolve(source.at().drop_last(), comps(target_bytes@)) is Some,
            r is Ok ==> r->Ok_0.source.at() == source.at() && r->Ok_0.target@ == link_text(target_bytes@) && link_wf(r->Ok_0)
    { unimplemented!() }
}

// ---- operations received by a destination tree
pub ghost enum Op { Dir(Path), File(Path, Seq<u8>, bool), Link(Path, Seq<char>) }
pub trait Member {
    spec fn content(&self) -> Seq<u8>;
}
pub trait WriteTree: Sized {
    spec fn trace(&self) -> Seq<Op>;
    fn mkdir(&mut self, path: &NicePathBuf) -> (r: Result<(), Report>)
        requires path.wf()
        ensures r is Ok ==> final(self).trace() == old(self).trace().push(Op::Dir(path.at()));
    fn write_file<M: Member>(&mut self, path: &NicePathBuf, data: &mut M, executable: bool) -> (r: Result<(), Report>)
        requires path.wf()
        ensures r is Ok ==> final(self).trace() == old(self).trace().push(Op::File(path.at(), old(data).content(), executable));
    fn write_symlink(&mut self, symlink: &NiceSymlinkPaths) -> (r: Result<(), Report>)
        requires link_wf(*symlink)
        ensures r is Ok ==> final(self).trace() == old(self).trace().push(link_op(*symlink));
}
pub open spec fn link_op(l: NiceSymlinkPaths) -> Op { Op::Link(l.source.at(), l.target@) }

// ---- zip archives
pub ghost struct ZEnt { pub name: Seq<char>, pub mode: Option<u32>, pub is_dir: bool, pub data: Seq<u8> }
#[verifier::external_body]
pub struct ZipFile { x: u8 }
impl ZipFile {
    pub uninterp spec fn ent(&self) -> ZEnt;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.ent().name { unimplemented!() }
    #[verifier::external_body]
    pub fn unix_mode(&self) -> (r: Option<u32>) ensures r == self.ent().mode { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.ent().is_dir { unimplemented!() }
}
impl Member for ZipFile { open spec fn content(&self) -> Seq<u8> { self.ent().data } }
#[verifier::external_body]
pub fn slurp<M: Member>(m: &mut M) -> (r: Result<Vec<u8>, Report>) ensures r is Ok ==> r->Ok_0@ == old(m).content() { unimplemented!() }
#[verifier::external_body]
pub struct ZipArchive { x: u8 }
impl ZipArchive {
    pub uninterp spec fn entries(&self) -> Seq<ZEnt>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn by_index(&mut self, i: usize) -> (r: Result<ZipFile, Report>)
        requires i < old(self).entries().len()
        ensures final(self).entries() == old(self).entries(), r is Ok ==> r->Ok_0.ent() == old(self).entries()[i as int]
    { unimplemented!() }
}
// ---- property text: what each member stands for; None: unsafe
pub open spec fn is_link(e: ZEnt) -> bool { e.mode matches Some(m) && m & 0xf000 == 0xa000 }
pub open spec fn exec(e: ZEnt) -> bool { e.mode matches Some(m) && m & 0o111 != 0 }
pub open spec fn ops_of(es: Seq<ZEnt>) -> Option<(Seq<Op>, Seq<Op>)>
    decreases es.len()
{
    if es.len() == 0 { Some((seq![], seq![])) } else {
        match ops_of(es.drop_last()) {
            None => None,
            Some((f, l)) => {
                let e = es.last();
                if is_link(e) {
                    match link_of(bytes_of(e.name), e.data) { None => None, Some(p) => Some((f, l.push(Op::Link(p.0, p.1)))) }
                } else {
                    match place_of(bytes_of(e.name)) {
                        None => None,
                        Some(p) => Some((f.push(if e.is_dir { Op::Dir(p) } else { Op::File(p, e.data, exec(e)) }), l)),
                    }
                }
            }
        }
    }
}
pub proof fn lemma_ops_prefix(es: Seq<ZEnt>, i: int)
    requires 0 <= i <= es.len(), ops_of(es.take(i)) is None
    ensures ops_of(es) is None
    decreases es.len()
{
    if i < es.len() { assert(es.drop_last().take(i) =~= es.take(i)); lemma_ops_prefix(es.drop_last(), i); } else { assert(es.take(i) =~= es); }
}
pub open spec fn lops(v: Seq<NiceSymlinkPaths>) -> Seq<Op> { v.map_values(|l: NiceSymlinkPaths| link_op(l)) }
pub open spec fn deepest_first(v: Seq<Op>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i] matches Op::Link(a, _) && (#[trigger] v[j] matches Op::Link(b, _) && a.len() >= b.len()))
}
pub open spec fn key_le<T, F: Fn(&T) -> usize>(f: F, x: T, y: T) -> bool { exists|a: usize, b: usize| #[trigger] f.ensures((&x,), a) && #[trigger] f.ensures((&y,), b) && a <= b }
#[verifier::external_body]
pub fn sort_by_key<T, F: Fn(&T) -> usize>(v: &mut Vec<T>, f: F)
    requires forall|t: &T| f.requires((t,))
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
#[verifier::external_body]
pub fn rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
pub broadcast proof fn lemma_map_multiset(a: Seq<NiceSymlinkPaths>, b: Seq<NiceSymlinkPaths>)
    requires #[trigger] a.to_multiset() == #[trigger] b.to_multiset()
    ensures lops(a).to_multiset() == lops(b).to_multiset(), a.len() == b.len(), forall|l: NiceSymlinkPaths| a.contains(l) <==> b.contains(l)
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|l: NiceSymlinkPaths| a.contains(l) <==> b.contains(l) by { assert(a.contains(l) <==> a.to_multiset().count(l) > 0); assert(b.contains(l) <==> b.to_multiset().count(l) > 0); }
    if a.len() > 0 {
        let x = a.last();
        assert(a.contains(x));
        assert(a.to_multiset().count(x) > 0);
        assert(b.to_multiset().contains(x));
        assert(b.contains(x));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        let a2 = a.drop_last();
        let b2 = b.remove(k);
        assert(a2 =~= a.remove(a.len() - 1));
        assert(a2.to_multiset() =~= b2.to_multiset());
        lemma_map_multiset(a2, b2);
        assert(lops(a) =~= lops(a2).push(link_op(x)));
        lops(a2).to_multiset_ensures();
        lops(b2).to_multiset_ensures();
        lops(b).to_multiset_ensures();
        assert(lops(b).remove(k) =~= lops(b2));
        assert(lops(b)[k] == link_op(x));
        assert(lops(b).to_multiset() =~= lops(b2).to_multiset().insert(link_op(x)));
        assert(lops(a).to_multiset() =~= lops(a2).to_multiset().insert(link_op(x)));
    } else {
        assert(b.len() == 0);
        assert(lops(a) =~= lops(b));
    }
}
pub proof fn lemma_reverse_multiset<A>(s: Seq<A>)
    ensures s.reverse().to_multiset() == s.to_multiset()
    decreases s.len()
{
    if s.len() > 0 {
        let x = s.last();
        let t = s.drop_last();
        lemma_reverse_multiset(t);
        assert(s =~= t.push(x));
        assert(s.reverse() =~= seq![x] + t.reverse());
        t.to_multiset_ensures();
        t.reverse().to_multiset_ensures();
        vstd::seq_lib::lemma_multiset_commutative(seq![x], t.reverse());
        assert(seq![x] =~= Seq::<A>::empty().push(x));
        Seq::<A>::empty().to_multiset_ensures();
        s.to_multiset_ensures();
        assert(s.reverse().to_multiset() =~= s.to_multiset());
    } else { assert(s.reverse() =~= s); }
}

@fn src/tree.rs | fn:unpack_zip_carefully
@sub? `zip_file.name().try_into()` => `nice_from_str(zip_file.name())`
@sub? `zip_file.unix_mode().map(|$v| $e).unwrap_or($d)` => `match zip_file.unix_mode() { Some($v) => $e, None => $d }`
@sub? `symlinks.sort_unstable_by_key(|$s| $k)` => `sort_by_key(&mut symlinks, |$s: &NiceSymlinkPaths| -> (key: usize) ensures key == $s.source.pieces@.len() { $k })`
@sub? `symlinks.into_iter().rev()` => `rev(symlinks)`
@sub? `symlink.source.len()` => `symlink.source.pieces.len()`
@forwhile 1
@params z dest
@sig pub fn unpack_zip_carefully<W: WriteTree>(z: &mut ZipArchive, dest: &mut W) -> (r: Result<(), Report>)
    ensures
        // success: exactly the archive's members, files and directories first and in order,
        // then the links, deepest first.  (Every path and link handed to the tree is valid even
        // when it fails later: that is the tree's precondition.)
        r is Ok ==> (ops_of(old(z).entries()) matches Some(fl) && exists|l: Seq<Op>|
            final(dest).trace() == #[trigger] (old(dest).trace() + fl.0 + l)
            && l.to_multiset() == fl.1.to_multiset() && deepest_first(l)),
        // an unsafe member makes it fail
        ops_of(old(z).entries()) is None ==> r is Err,
@at start
let ghost es = z.entries();
let ghost t0 = dest.trace();
@loop 1
    invariant
        z.entries() == es, 0 <= cur1 <= end1, end1 == es.len(),
        ops_of(es.take(cur1 as int)) matches Some(fl) && dest.trace() == t0 + fl.0 && lops(symlinks@) == fl.1,
        forall|k: int| 0 <= k < symlinks@.len() ==> link_wf(#[trigger] symlinks@[k]),
    decreases end1 - cur1
@at loop 1 before
proof { assert(es.take(0) =~= seq![]); assert(lops(symlinks@) =~= seq![]); assert(t0 + Seq::<Op>::empty() =~= t0); }
@at loop 1 start
let ghost k0 = cur1 as int;
let ghost fl0 = ops_of(es.take(cur1 as int))->Some_0;
let ghost sl0 = symlinks@;
let ghost tr0 = dest.trace();
proof {
    assert(es.take(k0 + 1).drop_last() =~= es.take(k0));
    assert(es.take(k0 + 1).last() == es[k0]);
    if ops_of(es.take(k0 + 1)) is None { lemma_ops_prefix(es, k0 + 1); }
    assert forall|x: NiceSymlinkPaths| #[trigger] lops(sl0.push(x)) == lops(sl0).push(link_op(x)) by { assert(lops(sl0.push(x)) =~= lops(sl0).push(link_op(x))); }
    assert forall|x: Op| #[trigger] (t0 + fl0.0).push(x) == t0 + fl0.0.push(x) by { assert((t0 + fl0.0).push(x) =~= t0 + fl0.0.push(x)); }
}
@at loop 1 after
let ghost s1 = symlinks@;
let ghost t1 = dest.trace();
proof { assert(es.take(es.len() as int) =~= es); }
@at loop 2 before
let ghost s2 = symlinks@;
proof {
    broadcast use lemma_map_multiset;
    assert(s1.to_multiset() == s2.to_multiset());
    assert forall|k: int| 0 <= k < s2.len() implies link_wf(#[trigger] s2[k]) by { assert(s2.contains(s2[k])); assert(s1.contains(s2[k])); }
    lemma_reverse_multiset(s2);
    assert(lops(s2.reverse()).to_multiset() == lops(s1).to_multiset());
    assert(deepest_first(lops(s2.reverse()))) by {
        assert forall|i: int, j: int| 0 <= i < j < s2.len() implies s2.reverse()[i].source.at().len() >= s2.reverse()[j].source.at().len() by {
            assert(s2.reverse()[i] == s2[s2.len() - 1 - i]);
            assert(s2.reverse()[j] == s2[s2.len() - 1 - j]);
        }
        let v = lops(s2.reverse());
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i] matches Op::Link(a, _) && (#[trigger] v[j] matches Op::Link(b, _) && a.len() >= b.len())) by {
            assert(v[i] == link_op(s2.reverse()[i]));
            assert(v[j] == link_op(s2.reverse()[j]));
        }
    }
    assert(t1 + Seq::<Op>::empty() =~= t1);
}
@loop 2 iter=it2
    invariant
        it2.seq() == s2.reverse(),
        forall|k: int| 0 <= k < s2.len() ==> link_wf(#[trigger] s2[k]),
        dest.trace() =~= t1 + lops(s2.reverse()).take(it2.index()),
@at loop 2 start
let ghost tr1 = dest.trace();
proof { assert(s2.reverse()[it2.index()] == s2[s2.len() - 1 - it2.index()]); }
@at loop 2 end
proof {
    let i = it2.index();
    let v = lops(s2.reverse());
    assert(v.take(i + 1) =~= v.take(i).push(v[i]));
    assert(dest.trace() =~= t1 + v.take(i + 1));
}
@at loop 2 after
proof {
    let v = lops(s2.reverse());
    assert(v.take(v.len() as int) =~= v);
    let fl = ops_of(es)->Some_0;
    assert(dest.trace() == t0 + fl.0 + v);
}
@endfn

// ---- tar.gz source archives
pub mod tar { pub enum EntryType { Regular, Link, Symlink, Char, Block, Directory, Fifo, Continuous, GNULongName, GNULongLink, GNUSparse, XGlobalHeader, XHeader, Other } }
pub ghost struct TEnt { pub name: Seq<u8>, pub kind: tar::EntryType, pub mode: Option<u32>, pub data: Seq<u8> }
#[verifier::external_body]
pub struct Entry { x: u8 }
#[verifier::external_body]
pub struct Header { x: u8 }
impl Header {
    pub uninterp spec fn ent(&self) -> TEnt;
    #[verifier::external_body]
    pub fn entry_type(&self) -> (r: tar::EntryType) ensures r == self.ent().kind { unimplemented!() }
    #[verifier::external_body]
    pub fn mode(&self) -> (r: Result<u32, Report>) ensures r is Ok <==> self.ent().mode is Some, r is Ok ==> Some(r->Ok_0) == self.ent().mode { unimplemented!() }
}
impl Entry {
    pub uninterp spec fn ent(&self) -> TEnt;
    #[verifier::external_body]
    pub fn path_bytes(&self) -> (r: &[u8]) ensures r@ == self.ent().name { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (r: &Header) ensures r.ent() == self.ent() { unimplemented!() }
}
impl Member for Entry { open spec fn content(&self) -> Seq<u8> { self.ent().data } }
#[verifier::external_body]
pub struct Body { x: u8 }
// MultiGzDecoder + tar::Archive::entries: the members of the archive in order, possibly ending in an error
pub uninterp spec fn members(b: Body) -> Seq<TEnt>;
#[verifier::external_body]
pub fn open_entries(b: Body) -> (r: Result<Vec<Result<Entry, Report>>, Report>)
    ensures r is Ok ==> ({
        let v = r->Ok_0@;
        (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Ok) ==> v.len() == members(b).len()
    }),
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i] is Ok ==> i < members(b).len() && r->Ok_0@[i]->Ok_0.ent() == members(b)[i])
{ unimplemented!() }
// property text
pub open spec fn forbidden(k: tar::EntryType) -> bool { k is Link || k is Symlink || k is Char || k is Block || k is Fifo }
// extension headers are no members
pub open spec fn no_member(k: tar::EntryType) -> bool { k is GNULongName || k is GNULongLink || k is XGlobalHeader || k is XHeader }
pub open spec fn tar_ops(es: Seq<TEnt>) -> Option<Seq<Op>>
    decreases es.len()
{
    if es.len() == 0 { Some(seq![]) } else {
        match tar_ops(es.drop_last()) {
            None => None,
            Some(f) => {
                let e = es.last();
                match place_of(e.name) {
                    None => None,
                    Some(p) =>
                        if forbidden(e.kind) || e.mode is None { None }
                        else if no_member(e.kind) { Some(f) }
                        else if e.kind is Directory { Some(f.push(Op::Dir(p))) }
                        else { Some(f.push(Op::File(p, e.data, e.mode->Some_0 & 0o100 != 0))) },
                }
            }
        }
    }
}
pub proof fn lemma_tar_prefix(es: Seq<TEnt>, i: int)
    requires 0 <= i <= es.len(), tar_ops(es.take(i)) is None
    ensures tar_ops(es) is None
    decreases es.len()
{
    if i < es.len() { assert(es.drop_last().take(i) =~= es.take(i)); lemma_tar_prefix(es.drop_last(), i); } else { assert(es.take(i) =~= es); }
}
@fn src/tree.rs | fn:unpack_tar_gz_carefully
@sub `let $u = flate2::read::MultiGzDecoder::new(body);` => ``
@sub `let mut $a = tar::Archive::new($u);` => ``
@sub `archive.entries()?` => `open_entries(body)?`
@sub? `entry.path_bytes().deref().try_into()` => `nice_from_bytes(entry.path_bytes())`
@params body dest0
@sig pub fn unpack_tar_gz_carefully<W: WriteTree>(body: Body, dest0: &mut W) -> (r: Result<(), Report>)
    ensures
        r is Ok ==> (tar_ops(members(body)) matches Some(f) && final(dest0).trace() == old(dest0).trace() + f),
        tar_ops(members(body)) is None ==> r is Err,
@at start
let ghost es = members(body);
let ghost t0 = dest.trace();
@loop 1 iter=it
    invariant
        es == members(body),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] it.seq()[i] is Ok,
        (forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] is Ok) ==> it.seq().len() == es.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i] is Ok ==> i < es.len() && it.seq()[i]->Ok_0.ent() == es[i]),
        it.index() <= es.len(),
        tar_ops(es.take(it.index())) matches Some(f) && dest.trace() == t0 + f,
@at loop 1 before
proof { assert(es.take(0) =~= seq![]); assert(t0 + Seq::<Op>::empty() =~= t0); }
@at loop 1 start
let ghost k0 = it.index();
let ghost f0 = tar_ops(es.take(it.index()))->Some_0;
proof {
    if k0 < es.len() {
        assert(es.take(k0 + 1).drop_last() =~= es.take(k0));
        assert(es.take(k0 + 1).last() == es[k0]);
        if tar_ops(es.take(k0 + 1)) is None { lemma_tar_prefix(es, k0 + 1); }
    }
    assert forall|x: Op| #[trigger] (t0 + f0).push(x) == t0 + f0.push(x) by { assert((t0 + f0).push(x) =~= t0 + f0.push(x)); }
}
@at loop 1 after
proof { assert(es.take(es.len() as int) =~= es); }
@endfn
}
fn main() {}
