@include contracts/common.vrs
@include contracts/tree_spec.vrs
@include contracts/fmt.vrs
verus! {
pub type Path = Seq<Seq<char>>;
// ---- bytes
pub open spec fn abytes(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
#[verifier::external_body]
pub fn ascii(s: &'static str) -> (r: &'static [u8]) ensures r@ == abytes(s@) { unimplemented!() }
pub open spec fn begins<A>(b: Seq<A>, p: Seq<A>) -> bool { p.len() <= b.len() && b.take(p.len() as int) == p }
#[verifier::external_body]
pub fn starts_with(b: &[u8], p: &[u8]) -> (r: bool) ensures r == begins(b@, p@) { unimplemented!() }
// what follows the first line
pub open spec fn after_line(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() == 0 { b } else if b[0] == 10 { b.skip(1) } else { after_line(b.skip(1)) } }
// UTF-8 encoding of a text (std)
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == enc(s@) { unimplemented!() }
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn replace(s: &str, a: &str, b: &str) -> (r: String) ensures r@ == replaced(s@, a@, b@) { unimplemented!() }

// ---- things that can be read: what is left to read
pub trait Member { spec fn content(&self) -> Seq<u8>; }
pub struct Mem { pub c: Ghost<Seq<u8>> }
impl Member for Mem { open spec fn content(&self) -> Seq<u8> { self.c@ } }
#[verifier::external_body]
pub fn read_upto<M: Member>(m: &mut M, n: u64, out: &mut Vec<u8>) -> (r: Result<(), Report>)
    ensures r is Ok ==> ({ let k = if n <= old(m).content().len() { n as int } else { old(m).content().len() as int }; final(out)@ == old(out)@ + old(m).content().take(k) && final(m).content() == old(m).content().skip(k) })
{ unimplemented!() }
#[verifier::external_body]
pub fn chained<M: Member>(a: &[u8], m: &mut M) -> (r: Mem) ensures r.content() == a@ + old(m).content() { unimplemented!() }
#[verifier::external_body]
pub fn skip_line<M: Member>(m: &mut M) -> (r: Result<usize, Report>) ensures r is Ok ==> final(m).content() == after_line(old(m).content()) { unimplemented!() }
#[verifier::external_body]
pub fn slurp<M: Member>(m: &mut M) -> (r: Result<Vec<u8>, Report>) ensures r is Ok ==> r->Ok_0@ == old(m).content() { unimplemented!() }
#[verifier::external_body]
pub fn reading(v: &Vec<u8>) -> (r: Mem) ensures r.content() == v@ { unimplemented!() }

// ---- the operations a tree receives, whether or not they succeed
pub ghost enum Op { Dir(Path), File(Path, Seq<u8>, bool), Link(Path, Seq<char>) }
@type src/tree.rs | type:NiceSymlinkPaths ;
pub open spec fn link_op(l: NiceSymlinkPaths) -> Op { Op::Link(l.source.at(), l.target@) }
pub trait WriteTree: Sized {
    spec fn trace(&self) -> Seq<Op>;
    fn mkdir(&mut self, path: &NicePathBuf) -> (r: Result<(), Report>)
        requires path.wf()
        ensures final(self).trace() == old(self).trace().push(Op::Dir(path.at()));
    fn write_file<M: Member>(&mut self, path: &NicePathBuf, data: &mut M, executable: bool) -> (r: Result<(), Report>)
        requires path.wf()
        ensures final(self).trace() == old(self).trace().push(Op::File(path.at(), old(data).content(), executable));
    fn write_symlink(&mut self, symlink: &NiceSymlinkPaths) -> (r: Result<(), Report>)
        ensures final(self).trace() == old(self).trace().push(link_op(*symlink));
}
// what a tree received is a beginning of what it should receive, and all of it on success
pub open spec fn got(before: Seq<Op>, after: Seq<Op>, all: Seq<Op>, ok: bool) -> bool {
    exists|k: int| 0 <= k <= all.len() && after == before + #[trigger] all.take(k) && (ok ==> k == all.len())
}
pub proof fn lemma_got(before: Seq<Op>, all: Seq<Op>)
    ensures got(before, before, all, false), all.len() == 0 ==> got(before, before, all, true),
        all.len() >= 1 ==> got(before, before.push(all[0]), all, all.len() == 1),
        all.len() == 2 ==> got(before, before.push(all[0]).push(all[1]), all, true)
{
    assert(before + all.take(0) =~= before);
    if all.len() >= 1 { assert(before + all.take(1) =~= before.push(all[0])); }
    if all.len() == 2 { assert(before + all.take(2) =~= before.push(all[0]).push(all[1])); }
}

// ---- launchers
#[derive(Clone, Copy)]
@type src/trampolines/mod.rs | type:ScriptType ;
@type src/trampolines/mod.rs | type:FindPython ;
@type src/trampolines/mod.rs | type:ScriptPlatform ;
@type src/trampolines/mod.rs | type:TrampolineMaker ;
pub uninterp spec fn unix_template() -> Seq<char>;
pub uninterp spec fn exe_console() -> Seq<u8>;
pub uninterp spec fn exe_gui() -> Seq<u8>;
// a zip archive with the given members, stored
pub uninterp spec fn zip_of(ms: Seq<(Seq<char>, Seq<u8>)>) -> Seq<u8>;
#[verifier::external_body]
pub fn template_text() -> (r: &'static str) ensures r@ == unix_template() { unimplemented!() }
#[verifier::external_body]
pub fn console_bytes() -> (r: &'static [u8]) ensures r@ == exe_console() { unimplemented!() }
#[verifier::external_body]
pub fn gui_bytes() -> (r: &'static [u8]) ensures r@ == exe_gui() { unimplemented!() }
@fn src/trampolines/mod.rs | const:WINDOWS_CONSOLE
@sub `include_bytes!("windows-trampolines/posy-trampoline-console.exe")` => `console_bytes()`
@sig pub fn windows_console() -> (r: &'static [u8]) ensures r@ == exe_console()
@endfn
@fn src/trampolines/mod.rs | const:WINDOWS_GUI
@sub `include_bytes!("windows-trampolines/posy-trampoline-gui.exe")` => `gui_bytes()`
@sig pub fn windows_gui() -> (r: &'static [u8]) ensures r@ == exe_gui()
@endfn
pub open spec fn unix_launcher(script: Seq<u8>, gui: bool) -> Seq<u8> {
    enc(if gui { replaced(unix_template(), "POSY_PYTHON"@, "POSY_PYTHONW"@) } else { unix_template() }) + script
}
pub open spec fn windows_launcher(script: Seq<u8>, gui: bool) -> Seq<u8> { (if gui { exe_gui() } else { exe_console() }) + zip_of(seq![("__main__.py"@, script)]) }
pub open spec fn on_unix(p: ScriptPlatform) -> bool { p is Unix || p is Both }
pub open spec fn on_windows(p: ScriptPlatform) -> bool { p is Windows || p is Both }
pub open spec fn with_exe(p: Path) -> Path { if p.len() == 0 { seq![".."@ + "exe"@] } else { p.drop_last().push(p.last() + ".exe"@) } }
pub open spec fn launchers(m: TrampolineMaker, p: Path, script: Seq<u8>, gui: bool) -> Seq<Op> {
    (if on_unix(m.platform) { seq![Op::File(p, unix_launcher(script, gui), true)] } else { seq![] })
    + (if on_windows(m.platform) { seq![Op::File(with_exe(p), windows_launcher(script, gui), true)] } else { seq![] })
}
pub struct ZipOut { pub ms: Ghost<Seq<(Seq<char>, Seq<u8>)>> }
impl ZipOut {
    pub fn new() -> (r: ZipOut) ensures r.ms@ == Seq::<(Seq<char>, Seq<u8>)>::empty() { let ghost ms: Seq<(Seq<char>, Seq<u8>)> = seq![]; ZipOut { ms: Ghost(ms) } }
    #[verifier::external_body]
    pub fn start_file(&mut self, name: &str) ensures final(self).ms@ == old(self).ms@.push((name@, seq![])) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) requires old(self).ms@.len() > 0 ensures final(self).ms@ == old(self).ms@.drop_last().push((old(self).ms@.last().0, old(self).ms@.last().1 + b@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == zip_of(self.ms@) { unimplemented!() }
}
#[verifier::external_body]
pub fn to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
// a path printed, ".exe" appended, parsed again
pub open spec fn shown(p: Path) -> Seq<char> { if p.len() == 0 { "."@ } else { joined(p, "/"@) } }
#[verifier::external_body]
pub fn path_text(p: &NicePathBuf) -> (r: String) ensures r@ == shown(p.at()) { unimplemented!() }
#[verifier::external_body]
pub fn push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
pub open spec fn denotes(t: Seq<char>, p: Path) -> bool { (exists|q: Path| all_safe(q) && t == #[trigger] (shown(q) + ".exe"@) && p == with_exe(q)) }
#[verifier::external_body]
pub fn parse_path(s: String) -> (r: Result<NicePathBuf, Report>)
    ensures forall|q: Path| all_safe(q) && s@ == #[trigger] (shown(q) + ".exe"@) ==> r is Ok && r->Ok_0.wf() && r->Ok_0.at() == with_exe(q)
{ unimplemented!() }
impl TrampolineMaker {
@fn src/trampolines/mod.rs | TrampolineMaker/fn:unix_trampoline
@sub? `UNIX_TEMPLATE.into()` => `to_text(template_text())`
@sub? `UNIX_TEMPLATE.replace($a, $b)` => `replace(template_text(), $a, $b)`
@sub? `prefix.into_bytes()` => `into_bytes(prefix)`
@params script script_type
@sig pub fn unix_trampoline(&self, script: &[u8], script_type: ScriptType) -> (r: Vec<u8>)
    ensures r@ == unix_launcher(script@, script_type is GUI)
@endfn
@fn src/trampolines/mod.rs | TrampolineMaker/fn:windows_trampoline
@sub? `WINDOWS_CONSOLE` => `windows_console()`
@sub? `WINDOWS_GUI` => `windows_gui()`
@sub? `std::io::Cursor::new(Vec::<u8>::new())` => `ZipOut::new()`
@sub? `let mut z = zip::ZipWriter::new(&mut suffix);` => ``
@sub? `let options = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Stored);` => ``
@sub? `z.start_file($n, options).unwrap();` => `suffix.start_file($n);`
@sub? `z.write_all($b).unwrap();` => `suffix.write_all($b);`
@sub? `z.finish().unwrap();` => ``
@sub? `let mut out: Vec<u8> = prefix.into();` => `let mut out: Vec<u8> = to_vec(prefix); let mut tail: Vec<u8>;`
@sub? `out.extend($e.into_iter());` => `tail = $e; out.append(&mut tail);`
@params script script_type
@sig pub fn windows_trampoline(&self, script: &[u8], script_type: ScriptType) -> (r: Vec<u8>)
    ensures r@ == windows_launcher(script@, script_type is GUI)
@at end
@at before `let mut out: Vec<u8> = $e`
proof { assert(suffix.ms@ =~= seq![("__main__.py"@, script@)]) by { assert(Seq::<u8>::empty() + script@ =~= script@); } }
@endfn
@fn src/trampolines/mod.rs | TrampolineMaker/fn:make_trampoline
@sub? `assert_eq!($a, $b);` => ``
@sub? `self.platform == ScriptPlatform::$v` => `matches!(self.platform, ScriptPlatform::$v)`
@sub? `&mut out.as_slice()` => `&mut reading(&out)`
@sub? `path.to_string()` => `path_text(path)`
@sub? `path_str.push_str($e)` => `push_str(&mut path_str, $e)`
@sub? `path_str.try_into()` => `parse_path(path_str)`
@params path script script_type tree
@sig pub fn make_trampoline<W: WriteTree>(&self, path: &NicePathBuf, script: &[u8], script_type: ScriptType, tree: &mut W) -> (r: Result<(), Report>)
    requires path.wf()
    ensures got(old(tree).trace(), final(tree).trace(), launchers(*self, path.at(), script@, script_type is GUI), r is Ok)
@at start
let ghost t0 = tree.trace();
let ghost all = launchers(*self, path.at(), script@, script_type is GUI);
proof { lemma_got(t0, all); assert(all_safe(path.at())) by { assert forall|i: int| 0 <= i < path.at().len() implies safe_name(#[trigger] path.at()[i]) by { assert(path.at()[i] == path.pieces@[i]@); } } }
@endfn
}

#[verifier::external_body] pub struct Paths { x: u8 }
impl Paths {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, NicePathBuf>;
    pub open spec fn wf(&self) -> bool { forall|k: Seq<char>| self.m().dom().contains(k) ==> (#[trigger] self.m()[k]).wf() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&NicePathBuf>) ensures match r { Some(p) => self.m().dom().contains(k@) && *p == self.m()[k@], None => !self.m().dom().contains(k@) } { unimplemented!() }
}
@type src/vocab/artifact_formats.rs | type:WheelTreeTransformer
@sub `&'a HashMap<String, NicePathBuf>` => `&'a Paths`
@sub `&'a mut W` => `W`
@end
impl NicePathBuf {
    // contracts/A01.vrs
    #[verifier::external_body]
    pub fn join(&self, other: &NicePathBuf) -> (r: NicePathBuf) ensures r.at() == self.at() + other.at(), self.wf() && other.wf() ==> r.wf() { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_from(&self, lo: usize) -> (r: NicePathBuf) requires lo <= self.at().len() ensures r.at() == self.at().skip(lo as int), self.wf() ==> r.wf() { unimplemented!() }
}
#[verifier::external_body]
pub fn piece_at(p: &NicePathBuf, i: usize) -> (r: Option<&String>) ensures match r { Some(s) => i < p.at().len() && s@ == p.at()[i as int], None => i >= p.at().len() } { unimplemented!() }
pub fn piece_is(p: &NicePathBuf, i: usize, s: &str) -> (r: bool) ensures r == (i < p.at().len() && p.at()[i as int] == s@) { match piece_at(p, i) { Some(t) => str_eq(t.as_str(), s), None => false } }
// property text: the category of a member and what is left of its path
pub open spec fn category(v: WheelVitals, p: Path) -> Seq<char> { if p.len() > 0 && p[0] == v.data@ { p[1] } else if v.root_is_purelib { "purelib"@ } else { "platlib"@ } }
pub open spec fn within(v: WheelVitals, p: Path) -> Path { if p.len() > 0 && p[0] == v.data@ { p.skip(2) } else { p } }
pub open spec fn only_data(v: WheelVitals, p: Path) -> bool { p.len() == 1 && p[0] == v.data@ }
// what becomes of a file
pub open spec fn file_ops(paths: Map<Seq<char>, NicePathBuf>, v: WheelVitals, m: TrampolineMaker, p: Path, data: Seq<u8>) -> Option<Seq<Op>> {
    if only_data(v, p) { Some(seq![]) }
    else if !paths.dom().contains(category(v, p)) { None }
    else {
        let to = paths[category(v, p)].at() + within(v, p);
        Some(
            if category(v, p) != "scripts"@ { seq![Op::File(to, data, false)] }
            else if begins(data, abytes("#!python"@)) { launchers(m, to, after_line(data), begins(data, abytes("#!pythonw"@))) }
            else { seq![Op::File(to, data, true)] }
        )
    }
}
pub proof fn lemma_peek(b: Seq<u8>)
    ensures ({
        let k = if 9 <= b.len() { 9 } else { b.len() as int };
        &&& "#!pythonw"@.len() == 9 && "#!python"@.len() == 8
        &&& begins(b.take(k), abytes("#!python"@)) == begins(b, abytes("#!python"@))
        &&& begins(b.take(k), abytes("#!pythonw"@)) == begins(b, abytes("#!pythonw"@))
        &&& b.take(k) + b.skip(k) == b && Seq::<u8>::empty() + b.take(k) == b.take(k)
        &&& begins(b, abytes("#!pythonw"@)) ==> begins(b, abytes("#!python"@))
    })
{
    reveal_strlit("#!python"); reveal_strlit("#!pythonw");
    let k = if 9 <= b.len() { 9 } else { b.len() as int };
    assert(b.take(k) + b.skip(k) =~= b);
    assert(Seq::<u8>::empty() + b.take(k) =~= b.take(k));
    if b.len() >= 8 { assert(b.take(k).take(8) =~= b.take(8)); }
    if b.len() >= 9 { assert(b.take(k).take(9) =~= b.take(9)); }
    if begins(b, abytes("#!pythonw"@)) {
        let w = abytes("#!pythonw"@); let p = abytes("#!python"@);
        assert(w.take(8) =~= p);
        assert(b.take(8) =~= b.take(9).take(8));
    }
}
impl<'a, W: WriteTree> WheelTreeTransformer<'a, W> {
    pub open spec fn pm(&self) -> Map<Seq<char>, NicePathBuf> { self.paths.m() }
    pub open spec fn same(&self, o: &Self) -> bool { self.paths == o.paths && self.vitals == o.vitals && self.trampoline_maker == o.trampoline_maker }
@fn src/vocab/artifact_formats.rs | WheelTreeTransformer/fn:analyze_path
@sub? `path.pieces().get($i) == Some($x)` => `piece_is(path, $i, $x)`
@sub? `path.pieces().get($i)` => `piece_at(path, $i)`
@sub? `.as_str(), $n..` => `.as_str(), $n`
@sub? `else {$B}, $n..,` => `else {$B}, $n,`
@sub? `path.slice(range)` => `path.slice_from(range)`
@sub? `$e.ok_or_else(|| verr())?` => `$e.ok_or(verr())?`
@sub? `category == $e,` => `str_eq(category, $e),`
@params path
@sig pub fn analyze_path(&self, path: &NicePathBuf) -> (r: Result<Option<(NicePathBuf, bool)>, Report>)
    requires path.wf(), self.paths.wf()
    ensures
        r is Ok <==> only_data(*self.vitals, path.at()) || self.pm().dom().contains(category(*self.vitals, path.at())),
        r is Ok ==> match r->Ok_0 {
            None => only_data(*self.vitals, path.at()),
            Some(t) => !only_data(*self.vitals, path.at()) && t.0.wf() && t.0.at() == self.pm()[category(*self.vitals, path.at())].at() + within(*self.vitals, path.at()) && t.1 == (category(*self.vitals, path.at()) == "scripts"@),
        }
@at start
proof { assert(path.at().skip(0) =~= path.at()); }
@endfn
@fn src/vocab/artifact_formats.rs | WriteTree for WheelTreeTransformer/fn:mkdir
@params path
@sig pub fn mkdir(&mut self, path: &NicePathBuf) -> (r: Result<(), Report>)
    requires path.wf(), old(self).paths.wf()
    ensures
        final(self).same(old(self)),
        ({ let v = *old(self).vitals; let p = path.at();
            if only_data(v, p) { r is Ok && final(self).dest.trace() == old(self).dest.trace() }
            else if !old(self).pm().dom().contains(category(v, p)) { r is Err && final(self).dest.trace() == old(self).dest.trace() }
            else { final(self).dest.trace() == old(self).dest.trace().push(Op::Dir(old(self).pm()[category(v, p)].at() + within(v, p))) } })
@endfn
@fn src/vocab/artifact_formats.rs | WriteTree for WheelTreeTransformer/fn:write_file
@bytes
@sub? `(&mut data).take($n as u64).read_to_end(&mut script_start)?` => `read_upto(data, $n as u64, &mut script_start)?`
@sub? `BufReader::new(script_start.as_slice().chain(&mut data))` => `chained(script_start.as_slice(), data)`
@sub? `script_start.starts_with($p)` => `starts_with(script_start.as_slice(), $p)`
@sub? `bufread.read_line(&mut String::new())?` => `skip_line(&mut bufread)?`
@sub? `&mut self.dest,` => `&mut self.dest`
@params path data _executable
@sig pub fn write_file<M: Member>(&mut self, path: &NicePathBuf, data: &mut M, _executable: bool) -> (r: Result<(), Report>)
    requires path.wf(), old(self).paths.wf()
    ensures
        final(self).same(old(self)),
        match file_ops(old(self).pm(), *old(self).vitals, *old(self).trampoline_maker, path.at(), old(data).content()) {
            Some(all) => got(old(self).dest.trace(), final(self).dest.trace(), all, r is Ok),
            None => r is Err && final(self).dest.trace() == old(self).dest.trace(),
        }
@at start
let ghost b = data.content();
let ghost ops = file_ops(self.pm(), *self.vitals, *self.trampoline_maker, path.at(), b);
let ghost t0 = self.dest.trace();
proof { lemma_peek(b); if ops is Some { lemma_got(t0, ops->Some_0); } }
@endfn
@fn src/vocab/artifact_formats.rs | WriteTree for WheelTreeTransformer/fn:write_symlink
@params _symlink
@sig pub fn write_symlink(&mut self, _symlink: &NiceSymlinkPaths) -> (r: Result<(), Report>)
    ensures r is Err, final(self).same(old(self)), final(self).dest.trace() == old(self).dest.trace()
@endfn
}
}
@include contracts/vitals.vrs
verus! {
impl Wheel {
@fn src/vocab/artifact_formats.rs | Wheel/fn:get_vitals
@sub? `let mut z = self.z.borrow_mut();` => `let z = &self.z;`
@sub? `&mut z` => `z`
@sub? `z.file_names().map(|$n| $e).collect::<HashSet<_>>().into_iter().collect::<Vec<_>>()` => `distinct(map_names(z.file_names(), |$n| -> (o: &str) ensures o@ == top($n@) $e))`
@sub? `n.split_once(['/', '\\'])` => `split_sep(n)`
@sub? `Wheel::find_special_wheel_dir(&top_levels, $B)` => `find_special_wheel_dir(copied(&top_levels), $B)`
@sub? `dist_info = $e.to_string();` => `dist_info = to_text($e);`
@sub? `data = d.to_string();` => `data = to_text(d);`
@sub? `.ok_or_else(|| verr())` => `.ok_or(verr())`
@sub? `dist_info.strip_suffix($e)` => `strip(dist_info.as_str(), $e)`
@sub? `&parsed.take_the($k)?[..]` => `text_of(parsed.take_the($k)?)`
@sub? `let metadata: WheelCoreMetadata = $e.try_into()?` => `let metadata: WheelCoreMetadata = parse_metadata($e)?`
@sub? `metadata.name != $e {` => `!metadata.name.same(&$e) {`
@sub? `metadata.version != $e {` => `!metadata.version.same(&$e) {`
@sub? `TryInto::<NicePathBuf>::try_into($e)?.to_string()` => `cleaned($e)?`
@strmatch
@format
@sig pub fn get_vitals(&self) -> (r: Result<WheelVitals, Report>)
    ensures r is Ok ==> vitals_ok(*self, r->Ok_0)
@at start
let ghost names = self.z.names();
proof { assert forall|s: Seq<char>| (forall|i: int| 0 <= i < s.len() ==> !is_sep(#[trigger] s[i])) implies #[trigger] top(s) == s by { lemma_top_whole(s); } }
@at after `let top_levels = $e;`
proof { lemma_special(top_levels@, ".dist-info"@); lemma_special(top_levels@, ".data"@); assert forall|e: Seq<char>| #[trigger] tops(names).contains(e) implies strs(top_levels@).contains(e) by {} }
@at after `dist_info = to_text($e);`
let ghost d = dist_info@;
proof { assert(the_dir(names, ".dist-info"@, d)); assert(lacks(d, '\n') ==> spells(d, self.name.distribution.norm(), self.name.version.key())); }
@at after `data = to_text($e);`
proof { assert(the_dir(names, ".data"@, data@)); assert(lacks(data@, '\n') ==> spells(data@, self.name.distribution.norm(), self.name.version.key())); }
@at after `data = Fmt::$e;`
proof { assert(no_dir(names, ".data"@)); let p = choose|p: Seq<char>| d == #[trigger] (p + ".dist-info"@) && data@ =~= p + ".data"@; assert(data@ == p + ".data"@); }
@at before `let wheel_path = $e;`
let ghost d = dist_info@; let ghost t = data@;
proof { assert(lacks(d, '\n') && lacks(t, '\n') ==> dirs(*self, d, t)); }
@at before `Ok(WheelVitals`
proof { assert(dist_info@ == d && data@ == t); assert(self.z.file(d + "/METADATA"@) == Some(metadata_blob@)); }
@endfn
}
}
fn main() {}
