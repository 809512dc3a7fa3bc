@note wheels built from source archives
@include contracts/build.vrs
verus! {
proof fn show_candidates(v: Version, c: Seq<PythonRequirement>, m: pep440::Version)
    requires c.len() == 3, c[0].0.specifiers.0@.len() == 1, c[1].0.specifiers.0@.len() == 1, c[2].0.specifiers.0@.len() == 0,
        c[0].0.specifiers.0@[0].op == CompareOp::Equal, c[0].0.specifiers.0@[0].value@ == v.text(),
        c[1].0.specifiers.0@[0].op == CompareOp::Equal, c[1].0.specifiers.0@[0].value@ == ver_text(m) + ".*"@, m.epoch == v.0.epoch, m.pre is None, m.post is None, m.dev is None, minor(v.0, m.release, m.local),
    ensures forall|i: int| 0 <= i < 3 ==> wanted(v, i, spec_seq((#[trigger] c[i]).0.specifiers.0@))
{
    assert(spec_seq(c[0].0.specifiers.0@) =~= seq![(CompareOp::Equal, v.text())]);
    assert(spec_seq(c[1].0.specifiers.0@) =~= seq![(CompareOp::Equal, ver_text(pep440::Version { epoch: v.0.epoch, release: m.release, pre: None, post: None, dev: None, local: m.local }) + ".*"@)]);
    assert(spec_seq(c[2].0.specifiers.0@) =~= Seq::<(CompareOp, Seq<char>)>::empty());
    assert(wanted(v, 0, spec_seq(c[0].0.specifiers.0@)));
    assert(wanted(v, 1, spec_seq(c[1].0.specifiers.0@)));
    assert(wanted(v, 2, spec_seq(c[2].0.specifiers.0@)));
}
impl<'a> WheelBuilder<'a> {
    // what it is for; where it builds: on the platforms asked for that run here, or any that runs here
    pub closed spec fn wf(&self) -> bool { self.db.wf() }
    pub closed spec fn where_(&self) -> Seq<&PybiPlatform> { self.build_platforms@ }
    pub closed spec fn base(&self) -> PackageDB { *self.db }
    pub closed spec fn target(&self) -> (PackageName, Version) { (*self.target_python, *self.target_python_version) }
    pub open spec fn pre(&self) -> Option<Set<Seq<char>>> { Some(if prerelease(self.target().1) { set![self.target().0.key()] } else { Set::empty() }) }
    pub open spec fn asks(&self, s: Seq<(CompareOp, Seq<char>)>, reqs: Seq<UserRequirement>) -> Ask { Ask { name: self.target().0.key(), specs: s, reqs, pre: self.pre() } }
    // property text: the first interpreter there is: the very release of the target, another of the same minor release, any
    pub open spec fn first_python(&self, i: int, s: Seq<(CompareOp, Seq<char>)>, b: Blueprint) -> bool {
        &&& 0 <= i < 3 && wanted(self.target().1, i, s) && resolves(self.base(), self.asks(s, seq![]), self.where_(), None, b)
        &&& forall|j: int| 0 <= j < i ==> self.not_there(j)
    }
    pub open spec fn found(&self, q: PythonRequirement, b: Blueprint) -> bool { q.0.name.key() == self.target().0.key() && exists|i: int| #[trigger] self.first_python(i, spec_seq(q.0.specifiers.0@), b) }
    pub open spec fn not_there(&self, j: int) -> bool { exists|t: Seq<(CompareOp, Seq<char>)>| #[trigger] wanted(self.target().1, j, t) && no_python(self.base(), self.asks(t, seq![]), self.where_()) }
    pub open spec fn env_for_build(&self, reqs: Seq<UserRequirement>, like: Option<Blueprint>, b: Blueprint, e: Env) -> bool {
        &&& env_of(self.base(), b, self.where_(), e)
        &&& match like {
            Some(l) => resolves(self.base(), self.asks(seq![], reqs), self.where_(), Some(l), b),
            None => exists|i: int, s: Seq<(CompareOp, Seq<char>)>, b0: Blueprint| #[trigger] self.first_python(i, s, b0) && resolves(self.base(), self.asks(s, reqs), self.where_(), Some(b0), b),
        }
    }
@fn src/package_db/build_wheel.rs | WheelBuilder/fn:new
@sub? `build_platforms.extend($e)` => `extend(&mut build_platforms, $e)`
@sub? `build_stack.into()` => `to_vec(build_stack)`
@sub? `let mut build_platforms = Vec::new();` => `let mut build_platforms: Vec<&'a PybiPlatform> = Vec::new();`
@sub? `for p in target_platforms { $B }` => `for p in refs(target_platforms) { $B }`
@forwhile 1
@params db target_python target_python_version target_platforms build_stack
@sig pub fn new(
        db: &'a PackageDB,
        target_python: &'a PackageName,
        target_python_version: &'a Version,
        target_platforms: &'a [&'a PybiPlatform],
        build_stack: &'a [&'a PackageName],
    ) -> (r: Result<WheelBuilder<'a>, Report>)
    ensures r matches Ok(b) ==> b.base() == *db && b.target() == (*target_python, *target_python_version)
        && plain(b.where_()) == built_on(plain(target_platforms@)),
@at start
let ghost all = plain(target_platforms@);
proof { assert(all.take(0) =~= seq![]); assert(plain(Seq::<&'a PybiPlatform>::empty()) =~= seq![]); }
@at loop 1 start
let ghost n = it1.i@ as int;
let ghost before = build_platforms@;
proof { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); }
@at loop 1 end
proof { if native(**p) { assert(build_platforms@ == before.push(*p)); assert(plain(build_platforms@) =~= plain(before).push(**p)); } assert(plain(build_platforms@) == runnable(all.take(n + 1))); }
@at loop 1 after
proof { assert(all.take(all.len() as int) =~= all); }
@loop 1
    invariant it1.wf(), all == plain(target_platforms@), it1.all@.len() == target_platforms@.len(), forall|i: int| 0 <= i < it1.all@.len() ==> *(#[trigger] it1.all@[i]) == target_platforms@[i],
        plain(build_platforms@) == runnable(all.take(it1.i@ as int)),
    decreases it1.all@.len() - it1.i@
@endfn

    // contracts/B01.vrs
    #[verifier::external_body]
    fn new_build_stack(&'a self, package: &'a PackageName) -> (r: Result<Vec<&'a PackageName>, Report>) { unimplemented!() }

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:get_env_for_build
@sub? `PythonRequirement::try_from(Requirement { $B }).unwrap()` => `py_req(Requirement { $B })`
@sub? `extras: Default::default()` => `extras: none_of()`
@sub? `specifiers: Default::default()` => `specifiers: Specifiers(none_of())`
@sub? `env_marker_expr: Default::default()` => `env_marker_expr: None`
@sub? `requirements: reqs.into()` => `requirements: reqs_copy(reqs)`
@sub? `requirements: Vec::new()` => `requirements: none_of()`
@sub? `AllowPre::Some([$e].into())` => `AllowPre::Some(Names::one($e))`
@sub? `else { Default::default() }` => `else { no_pre() }`
@sub? `allow_pre: Default::default()` => `allow_pre: no_pre()`
@sub? `allow_pre.clone()` => `same_pre(&allow_pre)`
@sub? `.resolve($a,)` => `.resolve($a)`
@sub? `.get_env($a,)` => `.get_env($a)`
@sub? `Brief { $B }.resolve(` => `({ let b_ = Brief { $B }; proof { assert(b_.ask().specs =~= seq![]); assert(b_.ask().pre =~= self.pre()); assert(b_.ask() == self.asks(seq![], reqs@)); } b_ }).resolve(`
@sub? `self.target_python_version.0.release[..$r].into()` => `prefix(&self.target_python_version.0.release, $r)`
@sub? `std::cmp::min` => `least`
@sub? `let candidate_pyreqs = [$B];` => `let candidate_pyreqs = vec![$B];`
@sub? `let mut found_python = None;` => `let mut found_python: Option<(PythonRequirement, Blueprint)> = None;`
@sub? `err.downcast_ref::<PosyError>()` => `is_posy_error(&err)`
@sub? `found_python.ok_or_else($c)?` => `(match found_python { Some(x) => x, None => return Err(verr()) })`
@format
@forwhile 1
@params self reqs like new_build_stack
@sig fn get_env_for_build(&self, reqs: &[UserRequirement], like: Option<&Blueprint>, new_build_stack: &[&PackageName]) -> (r: Result<(Blueprint, Env), Report>)
    requires self.wf()
    ensures r matches Ok(x) ==> self.env_for_build(reqs@, given(like), x.0, x.1)
@at before `let mut found_python`
proof { show_candidates(self.target().1, candidate_pyreqs@, same_minor); }
let ghost cands = candidate_pyreqs@;
@loop 1
    invariant_except_break it1.wf(), it1.all@ == cands, cands.len() == 3, self.wf(), pre_of(allow_pre) == self.pre(),
        forall|i: int| 0 <= i < 3 ==> (#[trigger] cands[i]).0.name.key() == self.target().0.key() && wanted(self.target().1, i, spec_seq(cands[i].0.specifiers.0@)),
        found_python is None, forall|j: int| 0 <= j < it1.i@ ==> #[trigger] self.not_there(j),
    ensures found_python matches Some(x) ==> self.found(x.0, x.1)
    decreases it1.all@.len() - it1.i@
@at before `let result`
let ghost k = it1.i@ - 1;
proof { assert(brief.ask().reqs =~= seq![]); assert(brief.ask() == self.asks(spec_seq(cands[k].0.specifiers.0@), seq![])); }
@at before `found_python = Some`
proof {
    assert(brief.python == cands[k]);
    assert(wanted(self.target().1, k, spec_seq(cands[k].0.specifiers.0@)));
    assert(self.first_python(k, spec_seq(cands[k].0.specifiers.0@), blueprint));
    assert(cands[k].0.name.key() == self.target().0.key());
    assert(self.found(brief.python, blueprint));
}
@at after `let result = $e;`
proof { if result is Err { if is_no_pybi(result->Err_0) { assert(wanted(self.target().1, k, spec_seq(cands[k].0.specifiers.0@))); assert(self.not_there(k)); } } }
@at before `let blueprint = brief.resolve`
proof { assert(brief.ask() == self.asks(spec_seq(brief.python.0.specifiers.0@), reqs@)); }
@endfn
    pub open spec fn stepped(&self, d: P, g: Pep517Goal) -> bool {
        exists|n: Seq<char>, v: (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>), needs: Seq<Seq<char>>, reqs: Seq<UserRequirement>, like: Option<Blueprint>, b: Blueprint, e: Env|
            #[trigger] sole(sub(d, "sdist"@), n) && #[trigger] its_system(sub(sub(d, "sdist"@), n), v) && stanza_at(sub(d, "build-system.json"@), v)
            && #[trigger] more_needs(d, needs) && #[trigger] read_reqs(v.0 + needs, reqs) && #[trigger] self.env_for_build(reqs, like, b, e)
            && (like matches Some(l) ==> blueprint_at(sub(d, "saved-blueprint.json"@), l)) && blueprint_at(sub(d, "saved-blueprint.json"@), b)
            && e.wheel_platform.first() is Some && ran(told(d, g, e.wheel_platform.first()->Some_0), sub(sub(d, "sdist"@), n), e.vars())
    }
@fn src/package_db/build_wheel.rs | WheelBuilder/fn:pep517_step
@sub? `fs::read_dir($e)?.collect::<Result<Vec<_>, io::Error>>()?` => `read_dir_all($e)?`
@sub? `match fs::read($e) {` => `match Fs::read_io($e) {`
@sub? `String::from_utf8` => `string_from_utf8`
@sub? `Err(ref e) if e.kind() == io::ErrorKind::NotFound =>` => `Err(e) if e.not_found() =>`
@sub? `Err(e) => Err(e)?` => `Err(e) => return Err(verr())`
@sub? `=> Default::default(),` => `=> PyprojectBuildSystemStanza::default(),`
@sub? `serde_json::to_writer(fs::File::create(build_system_path)?, $x)?` => `write_stanza(build_system_path, $x)?`
@sub? `serde_json::to_writer(fs::File::create($p)?, $x)?` => `write_blueprint($p, $x)?`
@sub? `fs::File::open(&saved_blueprint_path).ok().and_then(|f| serde_json::from_reader(f).ok())` => `read_blueprint(&saved_blueprint_path)`
@sub? `match fs::File::open($p) {` => `match open_io($p) {`
@sub? `serde_json::from_reader(f)?` => `read_list(f)?`
@sub? `build_requires.extend($e)` => `extend_texts(&mut build_requires, $e)`
@sub? `build_requires.into_iter().map(|s| s.parse()).collect::<Result<Vec<_>>>()?` => `parse_reqs(build_requires)?`
@sub? `env.wheel_platform.tags().next().ok_or_else($c)?` => `(match env.wheel_platform.first_tag() { Some(x) => x, None => return Err(verr()) })`
@sub? `self.get_env_for_build($a,)` => `self.get_env_for_build($a)`
@sub? `OsString::from(format!("{:?}", $g)).as_ref()` => `text_arg(goal_debug($g))`
@sub? `OsString::from($e).as_ref()` => `str_arg($e)`
@sub? `std::process::Command::new("python").args([$B]).stdin($s).current_dir($d).envs($v).spawn()?` => `spawn_python(vec![$B], $d, $v)?`
@params self handle goal new_build_stack
@sig fn pep517_step(&self, handle: &KVDirLock, goal: Pep517Goal, new_build_stack: &[&PackageName]) -> (r: Result<(), Report>)
    requires self.wf()
    ensures r is Ok ==> self.stepped(handle.p(), goal)
@at before `let build_system = $e;`
let ghost top = sdist_root.g@;
let ghost n0 = choose|n: Seq<char>| top == sub(sub(handle.p(), "sdist"@), n) && sole(sub(handle.p(), "sdist"@), n);
@at before `let build_system_path`
let ghost bs = build_system.v();
@at before `let saved_blueprint_path`
let ghost needs = texts(dynamic_requires@);
proof { if dynamic_requires@.len() == 0 { assert(needs =~= Seq::<Seq<char>>::empty()); } }
@at after `let pyproject_str = $e;`
proof { assert(says(sub(sdist_root.p(), "pyproject.toml"@), pyproject_str@)); }
@at before `Ok(())`
proof {
    assert(sole(sub(handle.p(), "sdist"@), n0));
    assert(its_system(sub(sub(handle.p(), "sdist"@), n0), bs));
    assert(more_needs(handle.p(), needs));
    assert(read_reqs(bs.0 + needs, build_requires@));
    assert(self.env_for_build(build_requires@, saved_blueprint, blueprint, env));
    assert(child.a@ =~= told(handle.p(), goal, env.wheel_platform.first()->Some_0));
}
@endfn
    // property text: metadata the backend prepared for the source archive
    pub open spec fn prepared(&self, h: ArtifactHash, q: P) -> bool { exists|name: Seq<char>| #[trigger] says(sub(build_dir(h), "prepare_metadata_for_build_wheel.out"@), name) && q == sub(sub(build_dir(h), "prepare_metadata_for_build_wheel"@), name) }
@fn src/package_db/build_wheel.rs | WheelBuilder/fn:pep517
@sub? `fs::rename($a, &*handle)?` => `Fs::rename($a, &handle, Ghost(h0))?`
@sub? `fs::rename($a, &target_path)` => `Fs::rename($a, &target_path, Ghost(h0))`
@sub? `fs::copy($a)` => `Fs::copy($a)`
@sub? `const BUILD_FRONTEND_PY: &[u8] = include_bytes!($e);` => `let frontend_py = frontend_bytes();`
@sub? `BUILD_FRONTEND_PY` => `frontend_py`
@sub? `self.db.get_artifact::<Sdist>($e)?` => `self.db.get_sdist($e)?`
@sub? `String::from_utf8` => `string_from_utf8`
@sub? `fs::File::open($p)?` => `Fs::open($p)?`
@sub? `fs::` => `Fs::`
@sub? `: WheelName = $e.parse()?` => `: WheelName = parse_wheel_name(&$e)?`
@sub? `= $e.rsplit_once('-').unwrap()` => `= rsplit_dash(&$e)`
@sub? `wheel_name.arch_tags.iter().all(|t| $e)` => `all_of(&wheel_name.arch_tags, |t: &String| -> (b: bool) ensures b == (t@ == "any"@) { $e })`
@sub? `t == "any"` => `str_eq(t, "any")`
@sub? `vec![build_arch.into()]` => `vec![to_text(build_arch)]`
@params self sdist_ai goal wheel_cache_handle new_build_stack
@sig #[verifier::exec_allows_no_decreases_clause]
    fn pep517(&self, sdist_ai: &ArtifactInfo, goal: Pep517Goal, wheel_cache_handle: Option<KVDirLock>, new_build_stack: &[&PackageName]) -> (r: Result<Pep517Succeeded, Report>)
    requires
        self.wf(), wheel_cache_handle matches Some(l) ==> (sdist_ai.hash matches Some(h) && l.p() == cache_dir(h)),
    ensures
        r matches Ok(x) ==> (sdist_ai.hash matches Some(h) && match x {
            Pep517Succeeded::Wheel { wheel } => fresh(h, wheel),
            Pep517Succeeded::WheelMetadata { handle, dist_info } => goal is WheelMetadata && self.prepared(h, dist_info.p()),
        }),
@loop 1
    invariant
        self.wf(), h0 == *sdist_hash, sdist_ai.hash == Some(h0), handle.p() == build_dir(h0), build_wheel.p() == sub(build_dir(h0), "build_wheel"@),
        prepare_metadata_for_build_wheel.p() == sub(build_dir(h0), "prepare_metadata_for_build_wheel"@),
        wheel_cache_handle matches Some(l) ==> l.p() == cache_dir(h0),
@at after `let sdist_hash = $e;`
let ghost h0 = *sdist_hash;
@at before `let mut wheel_name`
let ghost said = name@;
@at after `let (_, build_arch) = $e;`
let ghost v0 = wheel_name.parts();
@at after `let target_path = $e;`
proof {
    assert(says(sub(build_dir(h0), "build_wheel.out"@), said));
    assert(says(sub(build_dir(h0), "build_wheel.binary_wheel_tag"@), build_env_tag@));
    assert(product(h0, said, build_env_tag@, wheel_path.p()));
    assert(arch_in(build_env_tag@, build_arch@));
    assert(came(wheel_path.p(), wheel_path.p()));
    assert(wheel_name.parts().arch == v0.arch || wheel_name.parts().arch =~= seq![build_arch@]);
    assert(wheel_name.parts().arch == v0.arch ==> (forall|i: int| 0 <= i < v0.arch.len() ==> #[trigger] v0.arch[i] == "any"@) || v0.arch == seq![build_arch@]);
    assert(wheel_name.parts() == retag(v0, build_arch@));
    assert(finished(h0, write_name(wheel_name.parts()), wheel_path.p()));
}
let ghost parts = wheel_name.parts();
@at after `let opened = $e;`
proof { assert(came(opened.g@, wheel_path.p())); }
@at before `return Ok(Pep517Succeeded::WheelMetadata`
proof { assert(says(sub(build_dir(h0), "prepare_metadata_for_build_wheel.out"@), name@)); }
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:locally_built_wheel
@sub? `os_name.to_str().ok_or_else($e)?` => `(match os_name.to_str() { Some(s) => s, None => return Err(verr()) })`
@sub? `str_name.ends_with($e)` => `ends_with(str_name, $e)`
@sub? `str_name.parse()?` => `parse_wheel_name(str_name)?`
@sub? `fs::File::open(path)?` => `Fs::open(path)?`
@sub? `fs::` => `Fs::`
@sub? `self.pep517($a,)` => `self.pep517($a)`
@forwhile 1
@params self sdist_ai wheel_platform
@sig pub fn locally_built_wheel(&self, sdist_ai: &ArtifactInfo, wheel_platform: &WheelPlatform) -> (r: Result<Wheel, Report>)
    requires self.wf()
    ensures r matches Ok(w) ==> of_release(*sdist_ai, w.n.distribution, w.n.version) && wheel_platform.score(w.n.parts()) is Some && (sdist_ai.hash matches Some(h) && (
        // the best of those made before, or, if none suits, one made for it
        (kept(h, w) && best_at_hand(h, *wheel_platform, w)) || (nothing_at_hand(h, *wheel_platform) && fresh(h, w))))
@loop 1
    invariant
        it1.wf(), self.wf(), sdist_ai.hash matches Some(h) && handle.p() == cache_dir(h), listing(handle.p(), it1.all@),
        forall|i: int| 0 <= i < it1.i@ ==> (#[trigger] it1.all@[i]) is Ok,
        match best {
            None => forall|i: int| 0 <= i < it1.i@ ==> (#[trigger] it1.all@[i] matches Ok(e) && (whl(e.n@) ==> (read_name(e.n@) matches Some(v) && wheel_platform.score(v) is None))),
            Some(b) => listed(handle.p(), b.1.n@) && whl(b.1.n@) && read_name(b.1.n@) == Some(b.2.parts()) && wheel_platform.score(b.2.parts()) == Some(b.0)
                && forall|i: int| 0 <= i < it1.i@ ==> (#[trigger] it1.all@[i] matches Ok(e) && (whl(e.n@) ==> (read_name(e.n@) matches Some(v) && (wheel_platform.score(v) matches Some(t) ==> t <= b.0)))),
        },
    decreases it1.all@.len() - it1.i@
@at loop 1 start
proof { reveal_strlit(".whl"); }
@endfn

@fn src/package_db/build_wheel.rs | WheelBuilder/fn:locally_built_metadata
@sub? `metadata_buf.as_slice().try_into()?` => `parse_metadata(&metadata_buf)?`
@sub? `self.pep517($a,)` => `self.pep517($a)`
@sub? `fs::` => `Fs::`
@params self sdist_ai
@sig pub fn locally_built_metadata(&self, sdist_ai: &ArtifactInfo) -> (r: Result<(Vec<u8>, WheelCoreMetadata), Report>)
    requires self.wf()
    ensures r matches Ok(x) ==> read_metadata(x.0@) == Some(x.1) && of_release(*sdist_ai, x.1.name, x.1.version) && (sdist_ai.hash matches Some(h) && (
        (exists|q: P| #[trigger] self.prepared(h, q) && holds(sub(q, "METADATA"@), x.0@)) || (exists|w: Wheel| #[trigger] fresh(h, w) && member(w.p@, x.0@))))
@endfn
}
}
fn main() {}
