@note the tree on disk
@include contracts/common.vrs
@include contracts/tree_spec.vrs
verus! {
pub type Pieces = Seq<Seq<char>>;
// ---- std::path: a path below some directory (root), the directory above it, or a relative path
pub ghost enum Base { Relative, Root(Seq<char>), Above(Seq<char>) }
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub open spec fn last_slash(t: Seq<char>, i: int) -> bool { 0 <= i < t.len() && t[i] == '/' && forall|k: int| i < k < t.len() ==> #[trigger] t[k] != '/' }
pub open spec fn one(s: Seq<char>) -> Pieces { if s.len() == 0 || s == "."@ { Seq::empty() } else { seq![s] } }
// the components of a relative path, as unix reads them
pub open spec fn native(t: Seq<char>) -> Pieces decreases t.len() {
    if exists|i: int| last_slash(t, i) { let i = choose|i: int| last_slash(t, i); if 0 <= i < t.len() { native(t.take(i)) + one(t.skip(i + 1)) } else { Seq::empty() } } else { one(t) }
}
pub open spec fn absolute(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '/' }
impl PathBuf {
    pub uninterp spec fn base(&self) -> Base;
    pub uninterp spec fn rel(&self) -> Pieces;
    // PathBuf::from(String), for a text that is no absolute path
    #[verifier::external_body]
    pub fn from_text(s: String) -> (r: PathBuf) requires !absolute(s@) ensures r.base() is Relative, r.rel() == native(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, o: PathBuf) -> (r: PathBuf) requires o.base() is Relative ensures r.base() == self.base(), r.rel() == self.rel() + o.rel() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<PathBuf>)
        ensures self.base() is Root && self.rel().len() > 0 ==> (r matches Some(p) && p.base() == self.base() && p.rel() == self.rel().drop_last()),
            self.rel().len() == 0 ==> (self.base() matches Base::Root(t) ==> (r matches Some(p) ==> p.base() == Base::Above(t)))
    { unimplemented!() }
}
// ---- what is below the root
pub ghost enum Node { Dir, File(Seq<u8>, bool), Link(Seq<char>) }
pub type Tree = Map<Pieces, Node>;
pub struct World { pub root: Ghost<Seq<char>>, pub t: Ghost<Tree> }
pub open spec fn under(q: Pieces, p: Pieces) -> bool { 0 < q.len() <= p.len() && q == p.take(q.len() as int) }
pub broadcast proof fn lemma_under(q: Pieces, p: Pieces)
    requires #[trigger] under(q, p.drop_last()), p.len() > 0
    ensures under(q, p), q != p
{ assert(p.drop_last().take(q.len() as int) =~= p.take(q.len() as int)); }
pub proof fn lemma_safe(n: &NicePathBuf)
    requires n.wf()
    ensures all_safe(n.at())
{ assert forall|i: int| 0 <= i < n.at().len() implies safe_name(#[trigger] n.at()[i]) by { assert(safe_name(n.pieces@[i]@)); } }
// nothing on the way to p (p itself included) is a link: what is done at p is done there and not elsewhere
pub open spec fn clear(t: Tree, p: Pieces) -> bool { forall|q: Pieces| #[trigger] under(q, p) && t.dom().contains(q) ==> !(t[q] is Link) }
// b is a with directories made on the way to p
pub open spec fn grown(a: Tree, b: Tree, p: Pieces) -> bool { forall|q: Pieces| (a.dom().contains(q) ==> b.dom().contains(q) && b[q] == a[q]) && (#[trigger] b.dom().contains(q) && !a.dom().contains(q) ==> under(q, p) && b[q] is Dir) }
pub open spec fn dirs(b: Tree, p: Pieces) -> bool { forall|q: Pieces| #[trigger] under(q, p) ==> b.dom().contains(q) && b[q] is Dir }
impl World {
    // p is a place below the root, reached without links
    pub open spec fn inside(&self, p: PathBuf) -> bool { p.base() == Base::Root(self.root@) && all_safe(p.rel()) && clear(self.t@, p.rel()) }
}
pub mod fs { use super::*;
    // the directory above the root exists, as the root does
    #[verifier::external_body]
    pub fn create_dir_all(p: PathBuf, w: &mut World) -> (r: Result<(), Report>)
        requires old(w).inside(p) || p.base() == Base::Above(old(w).root@)
        ensures final(w).root@ == old(w).root@,
            p.base() is Above ==> final(w).t@ == old(w).t@,
            p.base() is Root ==> grown(old(w).t@, final(w).t@, p.rel()) && (r is Ok ==> dirs(final(w).t@, p.rel()))
    { unimplemented!() }
    pub struct OpenOptions { pub write: Ghost<bool>, pub create_new: Ghost<bool>, pub mode: Ghost<u32> }
    impl OpenOptions {
        #[verifier::external_body] pub fn new() -> (r: OpenOptions) ensures !r.write@, !r.create_new@, r.mode@ == 0o666 { unimplemented!() }
        #[verifier::external_body] pub fn write(&mut self, b: bool) -> (r: &mut OpenOptions) ensures r.write@ == b, r.create_new@ == old(self).create_new@, r.mode@ == old(self).mode@, *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn create_new(&mut self, b: bool) -> (r: &mut OpenOptions) ensures r.create_new@ == b, r.write@ == old(self).write@, r.mode@ == old(self).mode@, *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn mode(&mut self, m: u32) -> (r: &mut OpenOptions) ensures r.mode@ == m, r.write@ == old(self).write@, r.create_new@ == old(self).create_new@, *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn create(&mut self, b: bool) -> (r: &mut OpenOptions) ensures r.write@ == old(self).write@, r.create_new@ == old(self).create_new@, r.mode@ == old(self).mode@, *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body] pub fn truncate(&mut self, b: bool) -> (r: &mut OpenOptions) ensures r.write@ == old(self).write@, r.create_new@ == old(self).create_new@, r.mode@ == old(self).mode@, *final(self) == *final(r) { unimplemented!() }
        // create_new: the file did not exist (a link in its place would count as existing); its directory does.
        // The mode is subject to the umask, which is taken to leave the owner's bits alone.
        #[verifier::external_body]
        pub fn open(&self, p: PathBuf, w: &mut World) -> (r: Result<File, Report>)
            requires self.write@, self.create_new@, p.base() == Base::Root(old(w).root@), all_safe(p.rel()), p.rel().len() > 0 ==> clear(old(w).t@, p.rel().drop_last())
            ensures final(w).root@ == old(w).root@,
                match r {
                    Ok(f) => p.rel().len() > 0 && f.at@ == p.rel() && f.runs@ == (self.mode@ & 0o100 != 0) && !old(w).t@.dom().contains(p.rel()) && dirs(old(w).t@, p.rel().drop_last()) && final(w).t@ == old(w).t@.insert(p.rel(), Node::File(Seq::empty(), f.runs@)),
                    Err(_) => final(w).t@ == old(w).t@,
                }
        { unimplemented!() }
    }
    pub struct File { pub at: Ghost<Pieces>, pub runs: Ghost<bool> }
    // std::os::unix::fs::symlink
    #[verifier::external_body]
    pub fn symlink(target: &String, p: PathBuf, w: &mut World) -> (r: Result<(), Report>)
        requires p.base() == Base::Root(old(w).root@), all_safe(p.rel()), p.rel().len() > 0 ==> clear(old(w).t@, p.rel().drop_last())
        ensures final(w).root@ == old(w).root@,
            match r {
                Ok(_) => p.rel().len() > 0 && !old(w).t@.dom().contains(p.rel()) && dirs(old(w).t@, p.rel().drop_last()) && final(w).t@ == old(w).t@.insert(p.rel(), Node::Link(target@)),
                Err(_) => final(w).t@ == old(w).t@,
            }
    { unimplemented!() }
}
pub trait Member { spec fn content(&self) -> Seq<u8>; }
pub mod io { use super::*;
    // std::io::copy into a new file: everything there is to read
    #[verifier::external_body]
    pub fn copy<M: Member>(data: &mut M, f: &mut fs::File, w: &mut World) -> (r: Result<u64, Report>)
        requires old(w).t@.dom().contains(old(f).at@) && old(w).t@[old(f).at@] == Node::File(Seq::empty(), old(f).runs@)
        ensures final(w).root@ == old(w).root@, exists|d: Seq<u8>| #[trigger] filled(old(w).t@, final(w).t@, *old(f), d) && (r is Ok ==> d == old(data).content())
    { unimplemented!() }
}
pub open spec fn filled(a: Tree, b: Tree, f: fs::File, d: Seq<u8>) -> bool { b == a.insert(f.at@, Node::File(d, f.runs@)) }

// ---- the operations
impl NicePathBuf {
    // contracts/A01.vrs (Display)
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == (if self.at().len() == 0 { "."@ } else { joined(self.at(), "/"@) }) { unimplemented!() }
}
pub proof fn lemma_joined(v: Pieces)
    requires all_safe(v), v.len() > 0
    ensures native(joined(v, "/"@)) == v, joined(v, "/"@).len() > 0, joined(v, "/"@)[0] != '/'
    decreases v.len()
{
    reveal_strlit("/");
    reveal_strlit(".");
    let t = joined(v, "/"@);
    let l = v.last();
    assert(safe_name(v[v.len() - 1]));
    assert(one(l) =~= seq![l]) by { if l == "."@ { assert(l.last() == '.'); } }
    if v.len() == 1 {
        assert(t == l);
        assert forall|i: int| !last_slash(t, i) by { if 0 <= i < l.len() { assert(!naughty(l[i])); } }
        assert(v =~= seq![l]);
        assert(!naughty(l[0]));
    } else {
        let u = v.drop_last();
        assert(all_safe(u)) by { assert forall|i: int| 0 <= i < u.len() implies safe_name(#[trigger] u[i]) by { assert(u[i] == v[i]); } }
        lemma_joined(u);
        let ju = joined(u, "/"@);
        let n = ju.len() as int;
        assert(t =~= ju + "/"@ + l);
        assert(last_slash(t, n)) by { assert forall|k: int| n < k < t.len() implies #[trigger] t[k] != '/' by { assert(t[k] == l[k - n - 1]); assert(!naughty(l[k - n - 1])); } }
        let i = choose|i: int| last_slash(t, i);
        assert(i == n) by { if i < n { assert(t[n] == '/'); } else if i > n { assert(t[i] == '/'); } }
        assert(t.take(n) =~= ju);
        assert(t.skip(n + 1) =~= l);
        assert(native(t) == native(ju) + one(l));
        assert(u + seq![l] =~= v);
        assert(t[0] == ju[0]);
    }
}
@fn src/tree.rs | From<&NicePathBuf> for PathBuf/fn:from
@sub? `$e.to_string().into()` => `PathBuf::from_text($e.to_string())`
@params value
@sig pub fn nice_to_native(value: &NicePathBuf) -> (r: PathBuf) requires value.wf() ensures r.base() is Relative, r.rel() == value.at()
@at start
proof {
    reveal_strlit(".");
    if value.at().len() > 0 { assert(all_safe(value.at())) by { assert forall|i: int| 0 <= i < value.at().len() implies safe_name(#[trigger] value.at()[i]) by { assert(safe_name(value.pieces@[i]@)); } } lemma_joined(value.at()); }
    else { assert(value.at() =~= Seq::empty()); assert forall|i: int| !last_slash("."@, i) by {} assert(one("."@) =~= Seq::empty()); }
}
@endfn
impl NicePathBuf {
@fn src/tree.rs | NicePathBuf/fn:len
@sig pub fn len(&self) -> (r: usize) ensures r == self.at().len()
@endfn
@fn src/tree.rs | NicePathBuf/fn:pieces
@sig pub fn pieces(&self) -> (r: &[String]) ensures sviews(r@) == self.at()
@endfn
@fn src/tree.rs | NicePathBuf/fn:to_native
@sub? `self.into()` => `nice_to_native(self)`
@params self
@sig pub fn to_native(&self) -> (r: PathBuf) requires self.wf() ensures r.base() is Relative, r.rel() == self.at()
@endfn
}
@type src/tree.rs | type:NiceSymlinkPaths ;
@type src/tree.rs | type:WriteTreeFS
@sub `root: PathBuf` => `pub root: PathBuf`
@end
pub ghost enum Op { Dir(Pieces), File(Pieces, Seq<u8>, bool), Link(Pieces, Seq<char>) }
pub open spec fn place(op: Op) -> Pieces { match op { Op::Dir(p) => p, Op::File(p, _, _) => p, Op::Link(p, _) => p } }
pub open spec fn way(op: Op) -> Pieces { if op is Dir { place(op) } else if place(op).len() > 0 { place(op).drop_last() } else { Seq::empty() } }
pub open spec fn node(op: Op) -> Node { match op { Op::Dir(_) => Node::Dir, Op::File(_, d, x) => Node::File(d, x), Op::Link(_, t) => Node::Link(t) } }
// b is a but for what is at p, and for directories made on the way there
pub open spec fn at_most(a: Tree, p: Pieces, b: Tree) -> bool { forall|q: Pieces| #![trigger b.dom().contains(q)] q != p ==> (a.dom().contains(q) ==> b.dom().contains(q) && b[q] == a[q]) && (b.dom().contains(q) && !a.dom().contains(q) ==> under(q, p) && b[q] is Dir) }
// property text: an operation makes exactly what it says, and the directories on the way there, and replaces nothing
pub open spec fn done(a: Tree, op: Op, b: Tree) -> bool {
    let p = place(op);
    if op is Dir { grown(a, b, p) && dirs(b, p) } else { p.len() > 0 && !a.dom().contains(p) && b.dom().contains(p) && b[p] == node(op) && at_most(a, p, b) && dirs(b, way(op)) }
}
// AsRef<Path>, and a copy of the path
pub fn same_path(p: PathBuf) -> (r: PathBuf) ensures r == p { p }
impl WriteTreeFS {
    pub open spec fn over(&self, w: World) -> bool { self.root.base() == Base::Root(w.root@) && self.root.rel().len() == 0 }
@fn src/tree.rs | WriteTreeFS/fn:new
@sub? `root.as_ref().into()` => `same_path(root)`
@params root
@sig pub fn new(root: PathBuf) -> (r: WriteTreeFS) ensures r.root.base() == root.base(), r.root.rel() == root.rel()
@endfn
@fn src/tree.rs | WriteTreeFS/fn:full_path
@sub? `fs::create_dir_all($e)` => `fs::create_dir_all($e, w)`
@params self path
@sig pub fn full_path(&self, path: &NicePathBuf, w: &mut World) -> (r: Result<PathBuf, Report>)
    requires path.wf(), self.over(*old(w)), path.at().len() > 0 ==> clear(old(w).t@, path.at().drop_last())
    ensures final(w).root@ == old(w).root@,
        path.at().len() == 0 ==> final(w).t@ == old(w).t@,
        path.at().len() > 0 ==> grown(old(w).t@, final(w).t@, path.at().drop_last()),
        r matches Ok(p) ==> p.base() == self.root.base() && p.rel() == path.at() && (path.at().len() > 0 ==> dirs(final(w).t@, path.at().drop_last()))
@at start
proof { assert(self.root.rel() + path.at() =~= path.at()); assert(all_safe(path.at())) by { assert forall|i: int| 0 <= i < path.at().len() implies safe_name(#[trigger] path.at()[i]) by { assert(safe_name(path.pieces@[i]@)); } } }
@endfn
@fn src/tree.rs | WriteTree for WriteTreeFS/fn:mkdir
@sub? `fs::create_dir_all($e)` => `fs::create_dir_all($e, w)`
@sub? `self.full_path($e)` => `self.full_path($e, w)`
@params self path
@sig pub fn mkdir(&mut self, path: &NicePathBuf, w: &mut World) -> (r: Result<(), Report>)
    requires path.wf(), old(self).over(*old(w)), clear(old(w).t@, path.at())
    ensures final(self).root == old(self).root, final(w).root@ == old(w).root@, grown(old(w).t@, final(w).t@, path.at()),
        r is Ok ==> done(old(w).t@, Op::Dir(path.at()), final(w).t@)
@at start
proof { broadcast use lemma_under; lemma_safe(path); }
@endfn
@fn src/tree.rs | WriteTree for WriteTreeFS/fn:write_file
@sub? `self.full_path($e)` => `self.full_path($e, w)`
@sub? `options.open($e)` => `options.open($e, w)`
@sub? `io::copy($a, $b)` => `io::copy($a, $b, w)`
@params self path data executable
@sig pub fn write_file<M: Member>(&mut self, path: &NicePathBuf, data: &mut M, executable: bool, w: &mut World) -> (r: Result<(), Report>)
    requires path.wf(), old(self).over(*old(w)), clear(old(w).t@, way(Op::File(path.at(), Seq::empty(), false)))
    ensures final(self).root == old(self).root, final(w).root@ == old(w).root@, at_most(old(w).t@, path.at(), final(w).t@),
        r is Ok ==> done(old(w).t@, Op::File(path.at(), old(data).content(), executable), final(w).t@)
@at start
proof { broadcast use lemma_under; lemma_safe(path); }
proof { assert(0o777u32 & 0o100u32 != 0) by (bit_vector); assert(0o666u32 & 0o100u32 == 0) by (bit_vector); }
@endfn
@fn src/tree.rs | WriteTree for WriteTreeFS/fn:write_symlink
@sub? `self.full_path($e)` => `self.full_path($e, w)`
@sub? `std::os::unix::fs::symlink($a, $b,)` => `fs::symlink($a, $b, w)`
@params self symlink
@sig pub fn write_symlink(&mut self, symlink: &NiceSymlinkPaths, w: &mut World) -> (r: Result<(), Report>)
    requires symlink.source.wf(), old(self).over(*old(w)), clear(old(w).t@, way(Op::Link(symlink.source.at(), symlink.target@)))
    ensures final(self).root == old(self).root, final(w).root@ == old(w).root@, at_most(old(w).t@, symlink.source.at(), final(w).t@),
        r is Ok ==> done(old(w).t@, Op::Link(symlink.source.at(), symlink.target@), final(w).t@)
@at start
proof { broadcast use lemma_under; lemma_safe(&symlink.source); }
@endfn
}
// ---- the operations of a whole archive (contracts/A03.vrs), into a fresh directory
pub open spec fn from(op: Op, q: Pieces, x: Node) -> bool { (q == place(op) && q.len() > 0 && x == node(op)) || (under(q, way(op)) && x is Dir) }
pub open spec fn from_some(ops: Seq<Op>, k: int, q: Pieces, x: Node) -> bool { exists|i: int| 0 <= i < k && #[trigger] from(ops[i], q, x) }
// the files and directories first, then the links, deepest first; and the tree after each operation
pub open spec fn history(ops: Seq<Op>, n: int, ts: Seq<Tree>) -> bool {
    &&& 0 <= n <= ops.len() && ts.len() == ops.len() + 1 && ts[0] == Map::<Pieces, Node>::empty()
    &&& forall|i: int| 0 <= i < ops.len() ==> ((#[trigger] ops[i] is Link) == (i >= n))
    &&& forall|i: int, j: int| n <= i < j < ops.len() ==> place(#[trigger] ops[i]).len() >= place(#[trigger] ops[j]).len()
    // what WriteTreeFS does
    &&& forall|i: int| 0 <= i < ops.len() && clear(#[trigger] ts[i], way(ops[i])) ==> done(ts[i], ops[i], ts[i + 1])
}
pub open spec fn holds(ops: Seq<Op>, k: int, t: Tree) -> bool {
    &&& forall|i: int| 0 <= i < k && place(#[trigger] ops[i]).len() > 0 ==> t.dom().contains(place(ops[i])) && t[place(ops[i])] == node(ops[i])
    &&& forall|q: Pieces| #[trigger] t.dom().contains(q) ==> from_some(ops, k, q, t[q])
}
proof fn lemma_clear(ops: Seq<Op>, n: int, k: int, a: Tree)
    requires 0 <= n <= ops.len(), 0 <= k < ops.len(), holds(ops, k, a), forall|i: int| 0 <= i < ops.len() ==> ((#[trigger] ops[i] is Link) == (i >= n)),
        forall|i: int, j: int| n <= i < j < ops.len() ==> place(#[trigger] ops[i]).len() >= place(#[trigger] ops[j]).len()
    ensures clear(a, way(ops[k]))
{
    assert forall|q: Pieces| #[trigger] under(q, way(ops[k])) && a.dom().contains(q) implies !(a[q] is Link) by {
        if a[q] is Link {
            assert(from_some(ops, k, q, a[q]));
            let i = choose|i: int| 0 <= i < k && #[trigger] from(ops[i], q, a[q]);
            assert(ops[i] is Link);
            assert(ops[k] is Link);
        }
    }
}
// what is made new comes from the operation
proof fn lemma_new(a: Tree, op: Op, b: Tree, q: Pieces)
    requires done(a, op, b), b.dom().contains(q), !a.dom().contains(q) || (q == place(op) && !(op is Dir))
    ensures from(op, q, b[q])
{
    if !(op is Dir) && q != place(op) {
        let p = place(op);
        assert(under(q, p));
        if q.len() == p.len() { assert(p.take(q.len() as int) =~= p); }
        assert(p.drop_last().take(q.len() as int) =~= p.take(q.len() as int));
    }
}
proof fn lemma_old(a: Tree, op: Op, b: Tree, q: Pieces)
    requires done(a, op, b), a.dom().contains(q)
    ensures b.dom().contains(q), b[q] == a[q], op is Dir || q != place(op)
{}
proof fn lemma_own(a: Tree, op: Op, b: Tree)
    requires done(a, op, b), place(op).len() > 0
    ensures b.dom().contains(place(op)), b[place(op)] == node(op)
{ if op is Dir { let p = place(op); assert(p.take(p.len() as int) =~= p); assert(under(p, p)); } }
proof fn lemma_step(ops: Seq<Op>, k: int, a: Tree, b: Tree)
    requires 0 <= k < ops.len(), holds(ops, k, a), done(a, ops[k], b)
    ensures holds(ops, k + 1, b)
{
    let op = ops[k];
    assert forall|q: Pieces| #[trigger] b.dom().contains(q) implies from_some(ops, k + 1, q, b[q]) by {
        if a.dom().contains(q) {
            lemma_old(a, op, b, q);
            assert(from_some(ops, k, q, a[q]));
            let i = choose|i: int| 0 <= i < k && #[trigger] from(ops[i], q, a[q]);
            assert(from(ops[i], q, b[q]));
        } else { lemma_new(a, op, b, q); }
    }
    assert forall|i: int| 0 <= i < k + 1 && place(#[trigger] ops[i]).len() > 0 implies b.dom().contains(place(ops[i])) && b[place(ops[i])] == node(ops[i]) by {
        if i < k { lemma_old(a, op, b, place(ops[i])); } else { lemma_own(a, op, b); }
    }
}
proof fn lemma_none(ops: Seq<Op>) ensures holds(ops, 0, Map::<Pieces, Node>::empty()) {}
// property text: every operation happens at its own place, never through a link of the archive; in the end
// there is exactly what the archive lists, and the directories on the way there
pub proof fn lemma_unpacked(ops: Seq<Op>, n: int, ts: Seq<Tree>, k: int)
    requires history(ops, n, ts), 0 <= k <= ops.len()
    ensures forall|i: int| 0 <= i < k ==> clear(#[trigger] ts[i], way(ops[i])) && done(ts[i], ops[i], ts[i + 1]), holds(ops, k, ts[k])
    decreases k
{
    hide(done);
    hide(clear);
    hide(holds);
    if k == 0 { lemma_none(ops); }
    if k > 0 { lemma_unpacked(ops, n, ts, k - 1); lemma_clear(ops, n, k - 1, ts[k - 1]); lemma_step(ops, k - 1, ts[k - 1], ts[k]); }
}
}
fn main() {}
