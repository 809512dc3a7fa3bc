@include contracts/store_spec.vrs
@include contracts/hash_spec.vrs
verus! {
// ---- property text: where a key's entry lives
// data_encoding::BASE64URL_NOPAD
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub open spec fn b64_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '_' }
#[verifier::external_body]
pub proof fn axiom_b64()
    ensures
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] b64(a) == #[trigger] b64(b) ==> a == b,
        forall|a: Seq<u8>, i: int| 0 <= i < b64(a).len() ==> b64_char(#[trigger] b64(a)[i]),
        forall|a: Seq<u8>| (#[trigger] b64(a)).len() >= a.len() && b64(a).len() <= 2 * a.len() && (a.len() > 0 ==> b64(a).len() > a.len())
{ unimplemented!() }
#[verifier::external_body]
pub fn b64_encode(b: &[u8]) -> (r: String) ensures r@ == b64(b@) { unimplemented!() }
#[verifier::external_body]
pub fn text(s: &String, a: usize, b: usize) -> (r: &str)
    requires a <= b <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> b64_char(#[trigger] s@[i])
    ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
pub open spec fn long_enough(b: Seq<u8>) -> bool { b.len() >= 3 }
pub open spec fn suffix(b: Seq<u8>) -> Pth {
    let e = b64(b);
    seq![e.subrange(0, 1), e.subrange(1, 2), e.subrange(2, 3), e.subrange(3, e.len() as int)]
}
pub proof fn lemma_plain_b64(e: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= e.len(), forall|i: int| 0 <= i < e.len() ==> b64_char(#[trigger] e[i])
    ensures plain(e.subrange(a, b)), forall|i: int| 0 <= i < b - a ==> #[trigger] e.subrange(a, b)[i] != '.'
{
    let s = e.subrange(a, b);
    assert(forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == e[a + i]);
    assert(b64_char(s[0]));
    assert forall|i: int| 0 <= i < s.len() implies b64_char(#[trigger] s[i]) by { assert(b64_char(e[a + i])); }
    assert(s != seq!['.']) by { assert(seq!['.'][0] == '.'); }
    assert(s != seq!['.', '.']) by { assert(seq!['.', '.'][0] == '.'); }
}
pub open spec fn no_dots(p: Pth) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].len() ==> #[trigger] p[i][j] != '.' }
pub proof fn lemma_suffix(b: Seq<u8>)
    requires long_enough(b)
    ensures all_plain(suffix(b)), no_dots(suffix(b)), suffix(b).len() == 4, suffix(b)[0].len() == 1, suffix(b)[1].len() == 1, suffix(b)[2].len() == 1
{
    axiom_b64();
    let e = b64(b);
    lemma_plain_b64(e, 0, 1); lemma_plain_b64(e, 1, 2); lemma_plain_b64(e, 2, 3); lemma_plain_b64(e, 3, e.len() as int);
}
// different bytes, different places
pub proof fn lemma_suffix_injective(a: Seq<u8>, b: Seq<u8>)
    requires long_enough(a), long_enough(b), suffix(a) == suffix(b)
    ensures a == b
{
    axiom_b64();
    let (x, y) = (b64(a), b64(b));
    assert(suffix(a)[0] == suffix(b)[0] && suffix(a)[1] == suffix(b)[1] && suffix(a)[2] == suffix(b)[2] && suffix(a)[3] == suffix(b)[3]);
    assert(x =~= x.subrange(0, 1) + x.subrange(1, 2) + x.subrange(2, 3) + x.subrange(3, x.len() as int));
    assert(y =~= y.subrange(0, 1) + y.subrange(1, 2) + y.subrange(2, 3) + y.subrange(3, y.len() as int));
}
@fn src/kvstore.rs | const:DIR_NEST_DEPTH
@sig pub fn dir_nest_depth() -> (r: usize) ensures r == 3
@endfn
@fn src/kvstore.rs | fn:bytes_to_path_suffix
@sub? `data_encoding::BASE64URL_NOPAD.encode(bytes)` => `b64_encode(bytes)`
@sub? `DIR_NEST_DEPTH` => `dir_nest_depth()`
@sub? `&enc[$a..]` => `text(&enc, $a, enc.len())`
@sub? `&enc[$a..$b]` => `text(&enc, $a, $b)`
@sub? `enc.len()` => `enc_len(&enc)`
@forwhile 1
@params bytes
@sig pub fn bytes_to_path_suffix(bytes: &[u8]) -> (r: PathBuf)
    requires long_enough(bytes@)
    ensures r.c() == suffix(bytes@), r.relative()
@at start
proof { axiom_b64(); lemma_suffix(bytes@); }
let ghost e = b64(bytes@);
@loop 1
    invariant
        long_enough(bytes@), e == b64(bytes@), enc@ == e, e.len() > 3, 0 <= cur1 <= end1, end1 == 3, path.relative(), path.c() == suffix(bytes@).take(cur1 as int),
        forall|i: int| 0 <= i < e.len() ==> b64_char(#[trigger] e[i]), all_plain(suffix(bytes@)), suffix(bytes@).len() == 4,
    decreases end1 - cur1
@at loop 1 before
proof { assert(path.c() =~= suffix(bytes@).take(0)); }
@at loop 1 start
let ghost k0 = cur1 as int;
proof { lemma_plain_b64(e, k0, k0 + 1); assert(suffix(bytes@).take(k0) + seq![e.subrange(k0, k0 + 1)] =~= suffix(bytes@).take(k0 + 1)); }
@at loop 1 after
proof { lemma_plain_b64(e, 3, e.len() as int); assert(suffix(bytes@).take(3) + seq![e.subrange(3, e.len() as int)] =~= suffix(bytes@)); }
@endfn
#[verifier::external_body]
pub fn enc_len(s: &String) -> (r: usize) requires forall|i: int| 0 <= i < s@.len() ==> b64_char(#[trigger] s@[i]) ensures r == s@.len() { unimplemented!() }

// ---- keys
pub trait PathKey {
    spec fn key_ok(&self) -> bool;
    spec fn k(&self) -> Pth;
    fn key(&self) -> (r: PathBuf)
        requires self.key_ok()
        ensures r.c() == self.k(), r.relative();
}
impl<T: PathKey + ?Sized> PathKey for &T {
    open spec fn key_ok(&self) -> bool { (**self).key_ok() }
    open spec fn k(&self) -> Pth { (**self).k() }
    fn key(&self) -> (r: PathBuf) { (**self).key() }
}
#[verifier::external_body]
pub fn sha256_of(b: &[u8]) -> (r: ring::digest::Digest) ensures r.data() == digest(SHA256(), b@), r.data().len() == 32 { unimplemented!() }
pub open spec fn bytes_key(b: Seq<u8>) -> Pth { suffix(digest(SHA256(), b)) }
pub open spec fn hash_key(h: ArtifactHash) -> Pth { seq![h.mode@] + suffix(h.raw_data@) }
impl PathKey for [u8] {
    open spec fn key_ok(&self) -> bool { true }
    open spec fn k(&self) -> Pth { bytes_key(self@) }
@fn src/kvstore.rs | PathKey for [u8]/fn:key
@sub? `digest::digest(&digest::SHA256, self)` => `sha256_of(self)`
@params self
@sig fn key(&self) -> (r: PathBuf)
@endfn
}
impl PathKey for ArtifactHash {
    open spec fn key_ok(&self) -> bool { supported(*self) }
    open spec fn k(&self) -> Pth { hash_key(*self) }
@fn src/kvstore.rs | PathKey for ArtifactHash/fn:key
@params self
@sig fn key(&self) -> (r: PathBuf)
@at start
proof {
    reveal_strlit("sha256"); lemma_suffix(self.raw_data@);
    assert("sha256"@[0] == 's');
    assert("sha256"@ =~= seq!['s', 'h', 'a', '2', '5', '6']);
    assert(seq!['.'][0] == '.'); assert(seq!['.', '.'][0] == '.');
    assert(seq![self.mode@] + suffix(self.raw_data@) =~= hash_key(*self));
    assert(Pth::empty() + seq![self.mode@] =~= seq![self.mode@]);
}
@endfn
}

// ---- locking
pub open spec fn lock_of(p: Pth) -> Pth { p.drop_last().push(p.last() + seq!['.', 'l', 'o', 'c', 'k']) }
// nothing else than the file at q differs
pub open spec fn same_but(a: Map<Pth, Seq<u8>>, b: Map<Pth, Seq<u8>>, q: Pth) -> bool { forall|x: Pth| #![trigger a[x]] #![trigger b[x]] #![trigger a.dom().contains(x)] #![trigger b.dom().contains(x)] x != q ==> (a.dom().contains(x) <==> b.dom().contains(x)) && (a.dom().contains(x) ==> a[x] == b[x]) }
@type src/kvstore.rs | type:LockMode ;
// flock(2) through retry_interrupted (contracts/H02.vrs)
#[verifier::external_body]
pub fn lock_file(f: &File) -> (r: Result<(), IoError>) { unimplemented!() }
#[verifier::external_body]
pub fn append_lock(s: &mut OsStr, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
@fn src/kvstore.rs | fn:lock
@sub? `basename.push($e)` => `append_lock(&mut basename, $e)`
@sub? `retry_interrupted(|| lock.lock_exclusive())` => `lock_file(&lock)`
@sub? `.wrap_err_with($c)` => ``
@sub? `fs::create_dir_all($d)` => `fs::create_dir_all($d, w)`
@sub? `.open($p)` => `.open($p, w)`
@params path mode
@sig pub fn lock(path: &Path, mode: LockMode, w: &mut World) -> (r: Result<File, Report>)
    requires path.c().len() > 0, plain(path.c().last())
    ensures
        same_but(old(w).files, final(w).files, lock_of(path.c())), final(w).trees == old(w).trees,
        // only asked for: creates nothing
        mode is IfExists ==> *final(w) == *old(w),
        mode is IfExists && r is Ok ==> old(w).files.dom().contains(lock_of(path.c())),
@at start
proof { reveal_strlit(".lock"); assert(".lock"@ =~= seq!['.', 'l', 'o', 'c', 'k']); }
@endfn

@type src/kvstore.rs | type:KVFileStore ;
@type src/kvstore.rs | type:KVFileLock ;
@type src/kvstore.rs | type:LockedRead
@sub `<'a>` => ``
@sub `_lifetime: PhantomData<&'a ()>,` => ``
@end
@type src/kvstore.rs | type:LockedWrite
@sub `_lifetime: PhantomData<&'a ()>,` => ``
@end
impl KVFileLock {
    pub open spec fn ok(&self) -> bool { self.path.c().len() > 0 }
@fn src/kvstore.rs | KVFileLock/fn:reader
@sub? `_lifetime: Default::default(),` => ``
@sub? `File::open($p)` => `File::open($p, w)`
@params self
@sig pub fn reader(&self, w: &mut World) -> (r: Option<LockedRead>)
    ensures
        *final(w) == *old(w),
        r is Some <==> old(w).files.dom().contains(self.path.c()),
        r is Some ==> r->Some_0.f.data() == old(w).files[self.path.c()] && r->Some_0.f.pos() == 0,
@endfn
@fn src/kvstore.rs | KVFileLock/fn:begin
@sub? `_lifetime: Default::default(),` => ``
@params self
@sig pub fn begin(&self) -> (r: Result<LockedWrite<'_>, Report>)
    ensures r is Ok ==> r->Ok_0.out() == Seq::<u8>::empty() && *r->Ok_0.path == self.path,
@endfn
@fn src/kvstore.rs | KVFileLock/fn:remove
@sub? `match fs::remove_file(self.path) { Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()), res => Ok(res?), }` => `match fs::remove_file(self.path, w) { Err(err) => if err.kind() == IoKind::NotFound { Ok(()) } else { let res: Result<(), IoError> = Err(err); Ok(res?) }, res => Ok(res?), }`
@sub? `fs::remove_file(self.path)` => `fs::remove_file(self.path, w)`
@params self
@sig pub fn remove(self, w: &mut World) -> (r: Result<(), Report>)
    ensures
        r is Ok ==> final(w).files =~= old(w).files.remove(self.path.c()),
        r is Err ==> final(w).files == old(w).files,
        final(w).trees == old(w).trees,
@endfn
}
impl LockedRead {
@fn src/kvstore.rs | LockedRead/fn:detach_unlocked
@params self
@sig pub fn detach_unlocked(self) -> (r: File) ensures r == self.f,
@endfn
}
impl<'a> Write for LockedWrite<'a> {
    open spec fn wf(&self) -> bool { true }
    open spec fn out(&self) -> Seq<u8> { self.f.data() }
    open spec fn fixed(&self) -> Fixed { Fixed { base: seq![], alg: 0, raw: seq![], at: self.path.c() } }
    #[verifier::prophetic] open spec fn later(&self) -> (Seq<u8>, Pth) { (seq![], seq![]) }
@fn src/kvstore.rs | Write for LockedWrite/fn:write
@params self buf
@sig fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
@endfn
@fn src/kvstore.rs | Write for LockedWrite/fn:flush
@params self
@sig fn flush(&mut self) -> (r: Result<(), IoError>)
@endfn
}
impl<'a> LockedWrite<'a> {
@fn src/kvstore.rs | LockedWrite/fn:commit
@sub? `.persist($p)` => `.persist($p, w)`
@sub? `_lifetime: self._lifetime,` => ``
@params self
@sig pub fn commit(self, w: &mut World) -> (r: Result<LockedRead, Report>)
    ensures
        // all of it or nothing
        final(w).files == old(w).files || final(w).files == old(w).files.insert(self.path.c(), self.out()),
        r is Ok ==> final(w).files == old(w).files.insert(self.path.c(), self.out()) && r->Ok_0.f.data() == self.out() && r->Ok_0.f.pos() == 0,
        final(w).trees == old(w).trees,
@endfn
}
impl KVFileStore {
    // its files live below base
    pub open spec fn entry(&self, k: Pth) -> Pth { self.base.c() + k }
@fn src/kvstore.rs | KVFileStore/fn:lock
@sub? `= lock($p, $m)` => `= lock($p, $m, w)`
@params self key
@sig pub fn lock<K: PathKey>(&self, key: &K, w: &mut World) -> (r: Result<KVFileLock, Report>)
    requires key.key_ok(), self.base.c().len() >= 0, key.k().len() > 0, plain(key.k().last())
    ensures
        same_but(old(w).files, final(w).files, lock_of(self.entry(key.k()))), final(w).trees == old(w).trees,
        r is Ok ==> r->Ok_0.path.c() == self.entry(key.k()),
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVFileStore/fn:lock_if_exists
@sub? `= lock($p, $m)` => `= lock($p, $m, w)`
@params self key
@sig pub fn lock_if_exists<K: PathKey>(&self, key: &K, w: &mut World) -> (r: Option<KVFileLock>)
    requires key.key_ok(), key.k().len() > 0, plain(key.k().last())
    ensures
        *final(w) == *old(w),
        r is Some ==> r->Some_0.path.c() == self.entry(key.k()),
@at start
proof { assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
@fn src/kvstore.rs | KVFileStore/fn:get
@sub? `self.lock_if_exists(key)` => `self.lock_if_exists(key, w)`
@sub? `.reader()` => `.reader(w)`
@params self key
@sig pub fn get<K: PathKey>(&self, key: &K, w: &mut World) -> (r: Option<Box<File>>)
    requires key.key_ok(), key.k().len() > 0, plain(key.k().last())
    ensures
        // asking changes nothing
        *final(w) == *old(w),
        r is Some ==> old(w).files.dom().contains(self.entry(key.k())) && r->Some_0.data() == old(w).files[self.entry(key.k())] && r->Some_0.pos() == 0,
@endfn
@fn src/kvstore.rs | KVFileStore/fn:get_or_set
@sub? `self.lock($k)` => `self.lock($k, w)`
@sub? `.reader()` => `.reader(w)`
@sub? `.commit()` => `.commit(w)`
@params self key f
@sig pub fn get_or_set<K: PathKey, F>(&self, key: &K, f: F, good: Ghost<spec_fn(Seq<u8>) -> bool>, w: &mut World) -> (r: Result<Box<File>, Report>)
    where F: FnOnce(&mut LockedWrite<'_>) -> Result<(), Report>
    requires
        key.key_ok(), key.k().len() > 0, plain(key.k().last()), !key.k().last().contains('.'),
        // the producer may only be run when there is no entry yet, on an empty file
        forall|m: &mut LockedWrite<'_>| !old(w).files.dom().contains(self.entry(key.k())) && m.out() == Seq::<u8>::empty() ==> #[trigger] f.requires((m,)),
        forall|m: &mut LockedWrite<'_>, x: Result<(), Report>| #[trigger] f.ensures((m,), x) && m.out() == Seq::<u8>::empty() && x is Ok ==> (*final(m)).fixed().at == m.fixed().at && good@((*final(m)).out()),
    ensures
        final(w).trees == old(w).trees,
        // there already: handed back, unchanged
        old(w).files.dom().contains(self.entry(key.k())) ==> same_but(old(w).files, final(w).files, lock_of(self.entry(key.k())))
            && (r is Ok ==> r->Ok_0.data() == old(w).files[self.entry(key.k())] && r->Ok_0.pos() == 0),
        // new: what the producer wrote, when it succeeded
        !old(w).files.dom().contains(self.entry(key.k())) ==>
            same_but(old(w).files, final(w).files, lock_of(self.entry(key.k())))
            || exists|d: Seq<u8>| #[trigger] good@(d) && same_but(old(w).files.insert(self.entry(key.k()), d), final(w).files, lock_of(self.entry(key.k()))),
        !old(w).files.dom().contains(self.entry(key.k())) && r is Ok ==>
            good@(r->Ok_0.data()) && r->Ok_0.pos() == 0 && final(w).files.dom().contains(self.entry(key.k())) && final(w).files[self.entry(key.k())] == r->Ok_0.data(),
@at start
let ghost f0 = w.files;
let ghost e = self.entry(key.k());
proof { lemma_lock_differs(self.entry(key.k())); assert(self.entry(key.k()).last() == key.k().last()); }
@endfn
}
pub proof fn lemma_lock_differs(p: Pth)
    requires p.len() > 0, !p.last().contains('.')
    ensures lock_of(p) != p
{
    let l = p.last() + seq!['.', 'l', 'o', 'c', 'k'];
    assert(l[p.last().len() as int] == '.');
    assert(l.contains('.'));
    assert(lock_of(p).last() == l);
}
pub proof fn lemma_tmp()
    ensures plain("tmp"@), "tmp"@.len() == 3, "tmp"@[0] == 't'
{ reveal_strlit("tmp"); assert("tmp"@ =~= seq!['t', 'm', 'p']); assert(seq!['.'][0] == '.'); assert(seq!['.', '.'].len() == 2); }

// ---- different keys, different entries (of whatever kinds), and no lock or temporary file among them
pub ghost enum Key { Bytes(Seq<u8>), Hash(ArtifactHash) }
pub open spec fn key_path(k: Key) -> Pth { match k { Key::Bytes(b) => bytes_key(b), Key::Hash(h) => hash_key(h) } }
pub open spec fn key_okay(k: Key) -> bool { match k { Key::Bytes(b) => digest(SHA256(), b).len() == 32, Key::Hash(h) => supported(h) } }
// same key: for raw bytes up to a collision of SHA-256
pub open spec fn same_key(a: Key, b: Key) -> bool {
    match (a, b) {
        (Key::Bytes(x), Key::Bytes(y)) => digest(SHA256(), x) == digest(SHA256(), y),
        (Key::Hash(x), Key::Hash(y)) => x.mode@ == y.mode@ && x.raw_data@ == y.raw_data@,
        _ => false,
    }
}
pub proof fn lemma_keys(a: Key, b: Key, base: Pth)
    requires key_okay(a), key_okay(b)
    ensures
        base + key_path(a) == base + key_path(b) ==> same_key(a, b),
        all_plain(key_path(a)), key_path(a).len() > 2, !key_path(a).last().contains('.'),
        lock_of(base + key_path(a)) != base + key_path(b),
        (base + key_path(a))[base.len() as int] != "tmp"@,
{
    lemma_tmp();
    reveal_strlit("sha256");
    assert("sha256"@.len() == 6);
    assert("sha256"@ =~= seq!['s', 'h', 'a', '2', '5', '6']);
    assert(seq!['.'][0] == '.'); assert(seq!['.', '.'][0] == '.');
    let (ra, rb) = (match a { Key::Bytes(x) => digest(SHA256(), x), Key::Hash(h) => h.raw_data@ }, match b { Key::Bytes(x) => digest(SHA256(), x), Key::Hash(h) => h.raw_data@ });
    lemma_suffix(ra); lemma_suffix(rb);
    let (p, q) = (key_path(a), key_path(b));
    match a { Key::Bytes(_) => { assert(p =~= suffix(ra)); assert(p.skip(p.len() - 4) =~= suffix(ra)); }, Key::Hash(_) => { assert(p.skip(1) =~= suffix(ra)); assert(p.last() == suffix(ra)[3]); } }
    match b { Key::Bytes(_) => { assert(q =~= suffix(rb)); }, Key::Hash(_) => { assert(q.skip(1) =~= suffix(rb)); assert(q.last() == suffix(rb)[3]); } }
    if base + p == base + q {
        assert((base + p).skip(base.len() as int) =~= p); assert((base + q).skip(base.len() as int) =~= q);
        assert(p[0] == q[0]);
        lemma_suffix_injective(ra, rb);
    }
    assert((base + q).last() == suffix(rb)[3]);
    assert(!suffix(rb)[3].contains('.'));
    let l = (base + p).last() + seq!['.', 'l', 'o', 'c', 'k'];
    assert(l[(base + p).last().len() as int] == '.');
    assert(l.contains('.'));
    assert(lock_of(base + p).last() == l);
    assert((base + p)[base.len() as int] == p[0]);
}
}
