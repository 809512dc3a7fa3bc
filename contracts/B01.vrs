@note the record of builds in progress
@include contracts/build.vrs
verus! {
pub type Stack = Seq<Seq<char>>;
pub open spec fn names(v: Seq<&PackageName>) -> Stack { v.map_values(|p: &PackageName| p.key()) }
pub fn position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|t: &T| f.requires((t,))
    ensures
        r matches Some(i) ==> i < v@.len() && f.ensures((&v@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|t: &T| f.requires((t,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return Some(i); }
        i = i + 1;
    }
    None
}
impl Brief {
    #[verifier::external_body]
    pub fn resolve_under(&self, g: Ghost<Stack>, db: &PackageDB, ps: &Vec<&PybiPlatform>, like: Option<&Blueprint>, stack: &[&PackageName]) -> (r: Result<Blueprint, Report>)
        requires names(stack@) =~= g@
    { unimplemented!() }
}
impl EnvForest {
    #[verifier::external_body]
    pub fn get_env_under(&self, g: Ghost<Stack>, db: &PackageDB, b: &Blueprint, ps: &Vec<&PybiPlatform>, stack: &[&PackageName]) -> (r: Result<Env, Report>)
        requires names(stack@) =~= g@
    { unimplemented!() }
}
impl Fs {
    #[verifier::external_body] pub fn rename_any<A: AsPath, B: AsPath>(from: A, to: B) -> (r: Result<(), Report>) { unimplemented!() }
    #[verifier::external_body] pub fn copy_any<A: AsPath, B: AsPath>(from: A, to: B) -> (r: Result<u64, Report>) { unimplemented!() }
    #[verifier::external_body] pub fn write_any<A: AsPath>(p: A, b: &[u8]) -> (r: Result<(), Report>) { unimplemented!() }
}
impl<'a> WheelBuilder<'a> {
    pub closed spec fn wf(&self) -> bool { self.db.wf() }
    pub closed spec fn stack(&self) -> Stack { names(self.build_stack@) }
@fn src/package_db/build_wheel.rs | WheelBuilder/fn:new_build_stack
@sub? `self.build_stack.iter().position(|$p| $e)` => `position(&self.build_stack, |$p: &&'a PackageName| -> (b: bool) ensures b == ($p.key() == package.key()) { $e })`
@sub? `let bad = $e;` => ``
@sub? `self.build_stack.clone()` => `clone_stack(&self.build_stack)`
@params package
@sig pub fn new_build_stack(&'a self, package: &'a PackageName) -> (r: Result<Vec<&'a PackageName>, Report>)
    ensures
        // refused exactly when the package is already being built
        r is Err <==> self.stack().contains(package.key()),
        // otherwise the record grows by that package, at its end
        r is Ok ==> names(r->Ok_0@) =~= self.stack().push(package.key()),
@at start
proof { assert forall|j: int| 0 <= j < self.build_stack@.len() implies names(self.build_stack@)[j] == (#[trigger] self.build_stack@[j]).key() by {} }
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:new
@sub? `build_platforms.extend($e)` => `extend(&mut build_platforms, $e)`
@sub? `build_stack.into()` => `to_vec(build_stack)`
@loops any
@params db target_python target_python_version target_platforms build_stack
@sig pub fn new(
        db: &'a PackageDB,
        target_python: &'a PackageName,
        target_python_version: &'a Version,
        target_platforms: &'a [&'a PybiPlatform],
        build_stack: &'a [&'a PackageName],
    ) -> (r: Result<WheelBuilder<'a>, Report>)
    ensures r is Ok ==> r->Ok_0.stack() == names(build_stack@),
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:get_env_for_build
@sub? `PythonRequirement::try_from(Requirement { $B }).unwrap()` => `py_req(Requirement { $B })`
@sub? `extras: Default::default()` => `extras: none_of()`
@sub? `specifiers: Default::default()` => `specifiers: Specifiers(none_of())`
@sub? `env_marker_expr: Default::default()` => `env_marker_expr: None`
@sub? `requirements: reqs.into()` => `requirements: reqs_copy(reqs)`
@sub? `requirements: Vec::new()` => `requirements: none_of()`
@sub? `AllowPre::Some([$e].into())` => `AllowPre::Some(Names::one($e))`
@sub? `else { Default::default() }` => `else { no_pre() }`
@sub? `allow_pre: Default::default()` => `allow_pre: no_pre()`
@sub? `allow_pre.clone()` => `same_pre(&allow_pre)`
@sub? `.resolve($a,)` => `.resolve($a)`
@sub? `.get_env($a,)` => `.get_env($a)`
@sub? `Brief { $B }.resolve(` => `({ let b_ = Brief { $B }; b_ }).resolve(`
@sub? `self.target_python_version.0.release[..$r].into()` => `prefix(&self.target_python_version.0.release, $r)`
@sub? `std::cmp::min` => `least`
@sub? `let candidate_pyreqs = [$B];` => `let candidate_pyreqs = vec![$B];`
@sub? `let mut found_python = None;` => `let mut found_python: Option<(PythonRequirement, Blueprint)> = None;`
@sub? `err.downcast_ref::<PosyError>()` => `is_posy_error(&err)`
@sub? `found_python.ok_or_else($c)?` => `(match found_python { Some(x) => x, None => return Err(verr()) })`
@format
@forwhile 1
@sub? `.resolve($a)` => `.resolve_under(Ghost(g), $a)`
@sub? `.get_env($a)` => `.get_env_under(Ghost(g), $a)`
@params self reqs like new_build_stack
@sig fn get_env_for_build(&self, Ghost(g): Ghost<Stack>, reqs: &[UserRequirement], like: Option<&Blueprint>, new_build_stack: &[&PackageName]) -> (r: Result<(Blueprint, Env), Report>)
    requires names(new_build_stack@) =~= g
@loop 1
    invariant it1.wf(), names(new_build_stack@) =~= g
    decreases it1.all@.len() - it1.i@
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:pep517_step
@sub? `fs::read_dir($e)?.collect::<Result<Vec<_>, io::Error>>()?` => `read_dir_all($e)?`
@sub? `match fs::read($e) {` => `match Fs::read_io($e) {`
@sub? `String::from_utf8` => `string_from_utf8`
@sub? `Err(ref e) if e.kind() == io::ErrorKind::NotFound =>` => `Err(e) if e.not_found() =>`
@sub? `Err(e) => Err(e)?` => `Err(e) => return Err(verr())`
@sub? `=> Default::default(),` => `=> PyprojectBuildSystemStanza::default(),`
@sub? `serde_json::to_writer(fs::File::create(build_system_path)?, $x)?` => `write_stanza(build_system_path, $x)?`
@sub? `serde_json::to_writer(fs::File::create($p)?, $x)?` => `write_blueprint($p, $x)?`
@sub? `fs::File::open(&saved_blueprint_path).ok().and_then(|f| serde_json::from_reader(f).ok())` => `read_blueprint(&saved_blueprint_path)`
@sub? `match fs::File::open($p) {` => `match open_io($p) {`
@sub? `serde_json::from_reader(f)?` => `read_list(f)?`
@sub? `build_requires.extend($e)` => `extend_texts(&mut build_requires, $e)`
@sub? `build_requires.into_iter().map(|s| s.parse()).collect::<Result<Vec<_>>>()?` => `parse_reqs(build_requires)?`
@sub? `env.wheel_platform.tags().next().ok_or_else($c)?` => `(match env.wheel_platform.first_tag() { Some(x) => x, None => return Err(verr()) })`
@sub? `self.get_env_for_build($a,)` => `self.get_env_for_build($a)`
@sub? `OsString::from(format!("{:?}", $g)).as_ref()` => `text_arg(goal_debug($g))`
@sub? `OsString::from($e).as_ref()` => `str_arg($e)`
@sub? `std::process::Command::new("python").args([$B]).stdin($s).current_dir($d).envs($v).spawn()?` => `spawn_python(vec![$B], $d, $v)?`
@sub? `self.get_env_for_build($a)` => `self.get_env_for_build(Ghost(g), $a)`
@params self handle goal new_build_stack
@sig fn pep517_step(&self, Ghost(g): Ghost<Stack>, handle: &KVDirLock, goal: Pep517Goal, new_build_stack: &[&PackageName]) -> (r: Result<(), Report>)
    requires names(new_build_stack@) =~= g
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:pep517
@sub? `fs::rename($a, &*handle)?` => `(Fs::rename_any($a, &handle))?`
@sub? `fs::write($a)` => `Fs::write_any($a)`
@sub? `fs::rename($a, &target_path)` => `Fs::rename_any($a, &target_path)`
@sub? `fs::copy($a)` => `Fs::copy_any($a)`
@sub? `const BUILD_FRONTEND_PY: &[u8] = include_bytes!($e);` => `let frontend_py = frontend_bytes();`
@sub? `BUILD_FRONTEND_PY` => `frontend_py`
@sub? `self.db.get_artifact::<Sdist>($e)?` => `self.db.get_sdist($e)?`
@sub? `String::from_utf8` => `string_from_utf8`
@sub? `fs::File::open($p)?` => `Fs::open($p)?`
@sub? `fs::` => `Fs::`
@sub? `: WheelName = $e.parse()?` => `: WheelName = parse_wheel_name(&$e)?`
@sub? `= $e.rsplit_once('-').unwrap()` => `= rsplit_dash(&$e)`
@sub? `wheel_name.arch_tags.iter().all(|t| $e)` => `all_of(&wheel_name.arch_tags, |t: &String| -> (b: bool) ensures b == (t@ == "any"@) { $e })`
@sub? `t == "any"` => `str_eq(t, "any")`
@sub? `vec![build_arch.into()]` => `vec![to_text(build_arch)]`
@sub? `self.pep517_step($a)` => `self.pep517_step(Ghost(g), $a)`
@params self sdist_ai goal wheel_cache_handle new_build_stack
@sig #[verifier::exec_allows_no_decreases_clause]
    fn pep517(&self, Ghost(g): Ghost<Stack>, sdist_ai: &ArtifactInfo, goal: Pep517Goal, wheel_cache_handle: Option<KVDirLock>, new_build_stack: &[&PackageName]) -> (r: Result<Pep517Succeeded, Report>)
    requires names(new_build_stack@) =~= g
    ensures r is Ok ==> goal is Wheel ==> r->Ok_0 is Wheel
@loop 1
    invariant names(new_build_stack@) =~= g
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:locally_built_wheel
@sub? `os_name.to_str().ok_or_else($e)?` => `(match os_name.to_str() { Some(s) => s, None => return Err(verr()) })`
@sub? `str_name.ends_with($e)` => `ends_with(str_name, $e)`
@sub? `str_name.parse()?` => `parse_wheel_name(str_name)?`
@sub? `fs::File::open(path)?` => `Fs::open(path)?`
@sub? `fs::` => `Fs::`
@sub? `self.pep517($a,)` => `self.pep517($a)`
@forwhile 1
@sub? `self.pep517($a)` => `self.pep517(Ghost(self.stack().push(sdist_ai.name.d.key())), $a)`
@params self sdist_ai wheel_platform
@sig pub fn locally_built_wheel(&self, sdist_ai: &ArtifactInfo, wheel_platform: &WheelPlatform) -> (r: Result<Wheel, Report>)
    ensures self.stack().contains(sdist_ai.name.d.key()) ==> r is Err,
@loop 1
    invariant it1.wf(), !self.stack().contains(sdist_ai.name.d.key()), names(new_build_stack@) =~= self.stack().push(sdist_ai.name.d.key()),
    decreases it1.all@.len() - it1.i@
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:locally_built_metadata
@sub? `metadata_buf.as_slice().try_into()?` => `parse_metadata(&metadata_buf)?`
@sub? `self.pep517($a,)` => `self.pep517($a)`
@sub? `fs::` => `Fs::`
@sub? `self.pep517($a)` => `self.pep517(Ghost(self.stack().push(sdist_ai.name.d.key())), $a)`
@params self sdist_ai
@sig pub fn locally_built_metadata(&self, sdist_ai: &ArtifactInfo) -> (r: Result<(Vec<u8>, WheelCoreMetadata), Report>)
    ensures self.stack().contains(sdist_ai.name.d.key()) ==> r is Err,
@endfn

}
}
fn main() {}
