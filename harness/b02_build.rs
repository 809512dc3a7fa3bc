//@attach src/package_db/build_wheel.rs
// B02: wheels and metadata built from source archives, by the real build frontend
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;
use std::io::Write as _;
use std::path::Path;

fn zip_modes(files: &[(String, Vec<u8>, u32)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (n, b, m) in files {
        z.start_file(n.as_str(), zip::write::FileOptions::default().unix_permissions(*m)).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}

/// an interpreter that notes its version in `log` and runs the script with the system's python3
fn python(version: &str, platform: &str, log: &Path) -> WFile {
    let minor: String = version.splitn(3, '.').take(2).collect::<Vec<_>>().join("");
    let mut m = format!("Metadata-Version: 2.1\nName: cpython\nVersion: {version}\n");
    m += &format!("Pybi-Environment-Marker-Variables: {{\"python_full_version\": \"{version}\", \"python_version\": \"{}\"}}\n",
        version.splitn(3, '.').take(2).collect::<Vec<_>>().join("."));
    m += &format!("Pybi-Wheel-Tag: cp{minor}-cp{minor}-PLATFORM\nPybi-Wheel-Tag: py3-none-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n");
    m += "Pybi-Paths: {\"stdlib\": \"lib/python3\", \"purelib\": \"lib/site\", \"platlib\": \"lib/site\", \"scripts\": \"bin\", \"data\": \".\", \"include\": \"include\"}\n";
    let sh = format!("#!/bin/sh\n# for {platform}\necho \"python {version} $3 $4\" >> '{}'\nexec /usr/bin/python3 -S -B \"$@\"\n", log.display());
    let files = vec![
        ("pybi-info/PYBI".to_string(), b"Pybi-Version: 1.0\n".to_vec(), 0o644),
        ("pybi-info/METADATA".to_string(), m.into_bytes(), 0o644),
        ("lib/python3/site.py".to_string(), b"ENABLE_USER_SITE = None\n".to_vec(), 0o644),
        ("lib/site/README".to_string(), b"x".to_vec(), 0o644),
        ("bin/python".to_string(), sh.into_bytes(), 0o755),
    ];
    WFile { name: format!("cpython-{version}-{platform}.pybi"), bytes: zip_modes(&files), hash: true, ..Default::default() }
}

fn tgz(name: &str, files: &[(String, Vec<u8>)]) -> WFile {
    let mut t = tar::Builder::new(flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast()));
    for (n, b) in files {
        let mut h = tar::Header::new_gnu();
        h.set_size(b.len() as u64);
        h.set_mode(0o644);
        h.set_cksum();
        t.append_data(&mut h, n, b.as_slice()).unwrap();
    }
    let bytes = t.into_inner().unwrap().finish().unwrap();
    WFile { name: name.into(), bytes, hash: true, ..Default::default() }
}

/// what a source archive does when built
#[derive(Clone, Debug)]
struct Src {
    name: &'static str,
    version: &'static str,
    /// release that the metadata hook names; no hook if none
    meta: Option<(&'static str, &'static str)>,
    /// file built, and release in it
    wheel: WFile,
    requires: Vec<&'static str>,
    dynamic: Vec<&'static str>,
    tops: usize,
    fails: bool,
    /// where the backend object is, and in which of the backend's directories
    object: &'static str,
    paths: &'static [&'static str],
}

const BACKEND: &str = r#"
import os, json, shutil
def log(x):
    with open(LOG, "a") as f: f.write(x + "\n")
def libs(): return ",".join(sorted(n for d in os.environ["POSY_PYTHON_PACKAGES"].split(":") if d and os.path.isdir(d) for n in os.listdir(d) if n.startswith("helper")))
def get_requires_for_build_wheel(config_settings=None):
    log("requires " + libs())
    return json.load(open("requires.json"))
if os.path.exists("meta"):
    def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):
        log("metadata " + libs())
        [n] = os.listdir("meta")
        shutil.copytree("meta/" + n, os.path.join(metadata_directory, n))
        return n
def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    log("wheel " + libs())
    if metadata_directory is not None:
        log("metadata_directory " + str(os.path.isfile(os.path.join(metadata_directory, "METADATA"))))
    if os.path.exists("fails"): raise SystemExit(3)
    [n] = os.listdir("wheel")
    shutil.copyfile("wheel/" + n, os.path.join(wheel_directory, n))
    return n
"#;

fn sdist(s: &Src, log: &Path) -> WFile {
    let d = format!("{}-{}", s.name, s.version);
    let first = if s.paths[0] == "." { String::new() } else { format!("{}/", s.paths[0]) };
    let hooks = format!("LOG = {:?}\n{BACKEND}", log.display().to_string());
    // the hooks are on the object the archive names and nowhere else
    let code = if s.object.is_empty() { hooks.clone() } else {
        let names: Vec<&str> = s.object.split('.').collect();
        format!("import hooks_of_thing as _h\nclass _O: pass\ntop = _O()\no = top\nfor n in {:?}:\n    setattr(o, n, _O())\n    o = getattr(o, n)\nfor k in dir(_h):\n    if k.endswith('_wheel'): setattr(o, k, getattr(_h, k))\n{} = top\ndel o\n", &names[1..], names[0])
    };
    let back = if s.object.is_empty() { "back".to_string() } else { format!("back:{}", s.object) };
    let mut f = vec![
        (format!("{d}/pyproject.toml"), format!("[build-system]\nrequires = {:?}\nbuild-backend = {back:?}\nbackend-path = {:?}\n", s.requires, s.paths).into_bytes()),
        (format!("{d}/{first}back.py"), code.into_bytes()),
        (format!("{d}/{first}hooks_of_thing.py"), hooks.into_bytes()),
        (format!("{d}/requires.json"), format!("{:?}", s.dynamic).into_bytes()),
        (format!("{d}/wheel/{}", s.wheel.name), s.wheel.bytes.clone()),
    ];
    if let Some((n, v)) = s.meta {
        f.push((format!("{d}/meta/{n}-{v}.dist-info/METADATA"), format!("Metadata-Version: 2.1\nName: {n}\nVersion: {v}\nSummary: from the hook\n").into_bytes()));
    }
    // a module of that name in a later directory is not the backend
    for p in &s.paths[1..] { f.push((format!("{d}/{p}/back.py"), b"raise SystemExit(9)\n".to_vec())); }
    if s.fails { f.push((format!("{d}/fails"), vec![])); }
    for i in 1..s.tops { f.push((format!("other{i}/x"), vec![])); }
    tgz(&format!("{d}.tar.gz"), &f)
}

fn lines(log: &Path) -> Vec<String> {
    fs::read_to_string(log).unwrap_or_default().lines().map(|s| s.to_string()).collect()
}

fn natives() -> Vec<String> {
    PybiPlatform::native_platforms().map(|p| p.iter().map(|p| p.core_tag().to_string()).collect()).unwrap_or_default()
}

fn ai(db: &PackageDB, p: &str, v: &str) -> Result<ArtifactInfo> {
    let p: PackageName = p.try_into()?;
    let v: Version = v.try_into()?;
    Ok(db.artifacts_for_version(&p, &v)?.iter().find(|a| a.name.inner_as::<SdistName>().is_some()).ok_or_else(|| eyre!("no source archive listed"))?.clone())
}

fn platform_for(v: &str, plat: &PybiPlatform) -> WheelPlatform {
    let minor: String = v.splitn(3, '.').take(2).collect::<Vec<_>>().join("");
    let m = format!("Metadata-Version: 2.1\nName: cpython\nVersion: {v}\nPybi-Environment-Marker-Variables: {{}}\nPybi-Paths: {{}}\nPybi-Wheel-Tag: cp{minor}-cp{minor}-PLATFORM\nPybi-Wheel-Tag: py3-none-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n");
    let m: PybiCoreMetadata = m.as_bytes().try_into().unwrap();
    plat.wheel_platform(&m).unwrap()
}

/// scratch on the memory file system if `mem`, otherwise beside everything else
fn build_dir(mem: bool) -> tempfile::TempDir {
    if mem { if let Ok(d) = tempfile::Builder::new().prefix("posyb02").tempdir_in("/dev/shm") { return d; } }
    tempfile::tempdir().unwrap()
}

#[test]
fn v_b02_builds() {
    let mut r = Report::new("B02", "v_b02_builds",
        "source archives with and without a metadata hook, static and dynamic build requirements, pure and platform wheels, failing builds, several top directories, metadata or wheels of another release, builds on the same or another file system, asked for metadata and wheels in any order: the results are those of the archive's backend, refused if they are of another release, retagged for the build platform, cached whole, built once. Non-trivial: something is built");
    let mut rng = Rng::new("b02");
    let plats = natives();
    if plats.is_empty() { return; }
    let (srv, pages) = server();
    for case in 0..cases(60, 6) {
        pages.lock().unwrap().clear();
        let scratch = tempfile::tempdir().unwrap();
        let log = scratch.path().join("log");
        let other = *rng.pick(&["", "", "", "", "", "meta-name", "meta-version", "wheel-name", "wheel-version", "wheel-inner"]);
        let tag = *rng.pick(&["py3-none-any", "py3-none-any", "cp310-cp310-linux_x86_64", "py3-none-linux_x86_64", "cp39-cp39-linux_x86_64"]);
        let wn = if other == "wheel-name" { "thong" } else { "thing" };
        let wv = if other == "wheel-version" { "1.1" } else { "1.0" };
        let mut w = wheel(wn, wv, tag, "Summary: from the wheel\n", &[("thing.py", "x = 1\n")]);
        if other == "wheel-inner" {
            w = wheel("thing", "1.1", tag, "Summary: from the wheel\n", &[("thing.py", "x = 1\n")]);
            w.name = format!("thing-1.0-{tag}.whl");
        }
        let hook = rng.chance(1, 2);
        let src = Src {
            name: "thing", version: "1.0",
            meta: hook.then(|| (if other == "meta-name" { "thong" } else { "thing" }, if other == "meta-version" { "1.1" } else { "1.0" })),
            wheel: w.clone(),
            requires: if rng.chance(1, 2) { vec!["helper1"] } else { vec![] },
            dynamic: rng.pick(&[&[] as &[&str], &["helper2"], &["helper2; python_version >= '3.8'"], &["helper3; python_version < '3'", "helper2"]]).to_vec(),
            tops: if rng.chance(1, 12) { 2 } else { 1 },
            fails: rng.chance(1, 12),
            object: *rng.pick(&["", "", "hooks", "hooks.inner", "hooks.far.in"]),
            paths: *rng.pick(&[&["."] as &[&str], &["."], &["bk", "."], &["bk", "ck"]]),
        };
        let mem = rng.chance(1, 2);
        let ask: Vec<bool> = if rng.chance(1, 2) { vec![true, false, false] } else { vec![false, false] };
        let input = format!("hook={hook} {other} tag={tag} requires={:?} dynamic={:?} tops={} fails={} backend={:?} in {:?} other-fs={mem} metadata/wheel={ask:?}", src.requires, src.dynamic, src.tops, src.fails, src.object, src.paths);
        r.case(&input, true);
        publish(&pages, "i", "cpython", &[python("3.10.4", &plats[0], &log)]);
        publish(&pages, "i", "helper1", &[wheel("helper1", "1.0", "py3-none-any", "", &[("helper1.py", "")])]);
        publish(&pages, "i", "helper2", &[wheel("helper2", "1.0", "py3-none-any", "", &[("helper2.py", "")])]);
        publish(&pages, "i", "thing", &[sdist(&src, &log)]);
        let dirs = Dirs::new();
        let bd = build_dir(mem);
        let builds = crate::kvstore::KVDirStore::new(bd.path()).unwrap();
        let urls = [Url::parse(&format!("{}i/", srv.base())).unwrap()];
        let py: PackageName = "cpython".try_into().unwrap();
        let pv: Version = "3.10.4".try_into().unwrap();
        let ps: Vec<PybiPlatform> = plats.iter().map(|c| PybiPlatform::new(c)).collect();
        let refs: Vec<&PybiPlatform> = ps.iter().collect();
        let wp = platform_for("3.10.4", refs[0]);
        let broken = src.tops != 1 || src.fails;
        let fits = !tag.starts_with("cp39");
        let want_tag = if tag.ends_with("any") { tag.to_string() } else { format!("{}-{}", tag.rsplit_once('-').unwrap().0, PybiPlatform::new(&plats[0]).tags().next().unwrap()) };
        let mut done_wheel = false;
        for m in ask {
            let got = r.run(&input, || -> Result<(String, Vec<u8>)> {
                let db = PackageDB::new(&urls, &dirs.tmp.path().join("cache"), &dirs.forest, &builds)?;
                let b = WheelBuilder::new(&db, &py, &pv, &refs, &[])?;
                let a = ai(&db, "thing", "1.0")?;
                if m {
                    let (raw, meta) = b.locally_built_metadata(&a)?;
                    Ok((format!("{} {}", meta.name.as_given(), meta.version), raw))
                } else {
                    let w = b.locally_built_wheel(&a, &wp)?;
                    Ok((w.name().to_string(), w.metadata()?.0))
                }
            });
            let Some(got) = got else { break };
            let from_hook = m && hook;
            let wrong = if from_hook { other.starts_with("meta") } else { other.starts_with("wheel") };
            let ok = (from_hook && src.tops == 1 || !broken) && !wrong && (m || fits);
            match got {
                Err(e) => {
                    r.check(!ok, "failed", &input, || format!("metadata={m}: {e:#}"));
                    break;
                }
                Ok((n, raw)) => {
                    if !r.check(ok, if wrong { "other-release" } else { "succeeded" }, &input, || format!("metadata={m}: {n}")) { break; }
                    let sum = if from_hook { "from the hook" } else { "from the wheel" };
                    r.check(String::from_utf8_lossy(&raw).contains(sum), "metadata", &input, || format!("metadata={m}: {}", String::from_utf8_lossy(&raw)));
                    if m { r.check(n == "thing 1.0", "release", &input, || n.clone()); } else {
                        done_wheel = true;
                        r.check(n == format!("thing-1.0-{want_tag}.whl"), "tag", &input, || n.clone());
                    }
                }
            }
        }
        let l = lines(&log);
        let has = |x: &str| src.requires.contains(&x) as usize * 1 + src.dynamic.iter().any(|d| d.starts_with(x)) as usize * 2;
        let (h1, h2) = (has("helper1") > 0, has("helper2") > 0);
        let all = [h1.then_some("helper1.py"), h2.then_some("helper2.py")].iter().flatten().cloned().collect::<Vec<_>>().join(",");
        for x in &l {
            if let Some(rest) = x.strip_prefix("wheel ").or_else(|| x.strip_prefix("metadata ")) {
                r.check(all.split(',').all(|h| h.is_empty() || rest.split(',').any(|y| y == h)), "build-requires", &input, || format!("{l:?}"));
            }
            if let Some(rest) = x.strip_prefix("requires ") { r.check(!h1 || rest.contains("helper1.py"), "static-requires", &input, || format!("{l:?}")); }
            if let Some(rest) = x.strip_prefix("metadata_directory ") { r.check(rest == "True", "metadata-directory", &input, || format!("{l:?}")); }
            if let Some(rest) = x.strip_prefix("python ") { r.check(rest.starts_with("3.10.4 Wheel"), "python", &input, || format!("{l:?}")); }
        }
        if done_wheel {
            r.check(l.iter().filter(|x| x.starts_with("wheel ")).count() == 1, "built-once", &input, || format!("{l:?}"));
            // the wheel cache holds the whole wheel and nothing else that passes for one
            let mut found = 0;
            for e in walkdir(&dirs.tmp.path().join("cache").join("local-wheels")) {
                if e.extension().map_or(false, |x| x == "whl") {
                    found += 1;
                    r.check(fs::read(&e).map_or(false, |b| b == src.wheel.bytes), "cached-bytes", &input, || e.display().to_string());
                }
            }
            r.check(found == 1, "cached", &input, || format!("{found} wheels in the cache"));
        }
    }
}

fn walkdir(d: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    if let Ok(rd) = fs::read_dir(d) {
        for e in rd.flatten() {
            if e.path().is_dir() { out.extend(walkdir(&e.path())); } else { out.push(e.path()); }
        }
    }
    out
}

#[test]
fn v_b02_cached() {
    let mut r = Report::new("B02", "v_b02_cached",
        "wheel caches holding 0-5 wheels of any tags, now and then of another release, and files that are no wheels: the most compatible one is used without building, and a build is only tried when none is compatible. Non-trivial: one is compatible");
    let mut rng = Rng::new("b02c");
    let plats = natives();
    if plats.is_empty() { return; }
    let (srv, pages) = server();
    // the archive cannot be built: no backend
    publish(&pages, "i", "thing", &[tgz("thing-1.0.tar.gz", &[("a/x".into(), vec![]), ("b/x".into(), vec![])])]);
    let urls = [format!("{}i/", srv.base())];
    let plat = PybiPlatform::new(&plats[0]);
    let refs = [&plat];
    let wp = platform_for("3.10.4", &plat);
    let all: Vec<String> = wp.tags().cloned().collect();
    for _ in 0..cases(400, 8) {
        let dirs = Dirs::new();
        let db = dirs.db(&urls);
        let a = match ai(&db, "thing", "1.0") { Ok(a) => a, Err(e) => { r.fail("index", "", &format!("{e:#}")); return; } };
        let py: PackageName = "cpython".try_into().unwrap();
        let pv: Version = "3.10.4".try_into().unwrap();
        let mut names = vec![];
        for _ in 0..rng.below(6) {
            let t = if rng.chance(2, 3) { rng.pick(&all).clone() } else { rng.pick(&["cp39-cp39-linux_x86_64", "py3-none-win32", "cp310-cp310-macosx_11_0_arm64"]).to_string() };
            let rel = if rng.chance(1, 12) { *rng.pick(&["thing-1.1", "thong-1.0"]) } else { "thing-1.0" };
            let junk = rng.chance(1, 10);
            names.push((format!("{rel}-{t}.{}", if junk { "part" } else { "whl" }), rel, t, junk));
        }
        let input = format!("{:?}", names.iter().map(|n| n.0.clone()).collect::<Vec<_>>());
        {
            let h = db.wheel_cache.lock(a.require_hash().unwrap()).unwrap();
            fs::create_dir_all(&h).unwrap();
            for (i, (n, rel, t, _)) in names.iter().enumerate() {
                let (d, v) = rel.split_once('-').unwrap();
                fs::write(h.join(n), wheel(d, v, t, &format!("Summary: {i} {n}\n"), &[]).bytes).unwrap();
            }
        }
        let best = names.iter().filter(|n| !n.3).filter_map(|n| wp.compatibility(&n.2)).max();
        r.case(&input, best.is_some());
        let got = r.run(&input, || -> Result<(String, String)> {
            let b = WheelBuilder::new(&db, &py, &pv, &refs, &[])?;
            let w = b.locally_built_wheel(&a, &wp)?;
            Ok((w.name().to_string(), String::from_utf8_lossy(&w.metadata()?.0).into_owned()))
        });
        let tops: Vec<_> = names.iter().filter(|n| !n.3 && wp.compatibility(&n.2) == best && best.is_some()).collect();
        match got {
            None => {}
            Some(Ok((n, m))) => {
                if r.check(tops.iter().any(|t| t.0 == n), "best", &input, || n.clone()) {
                    r.check(n.starts_with("thing-1.0-"), "other-release", &input, || n.clone());
                    r.check(m.contains(&format!(" {n}\n")), "contents", &input, || m.clone());
                }
            }
            Some(Err(e)) => {
                r.check(best.is_none() || tops.iter().any(|t| t.1 != "thing-1.0"), "refused", &input, || format!("{e:#}"));
            }
        }
    }
}

#[test]
fn v_b02_python() {
    let mut r = Report::new("B02", "v_b02_python",
        "any set of available interpreters and a target version, prereleases and postreleases included: the build runs on the target version if it is there, otherwise on the newest release of the same minor version, otherwise on the newest one. Non-trivial: several are available");
    let mut rng = Rng::new("b02p");
    let plats = natives();
    if plats.is_empty() { return; }
    let (srv, pages) = server();
    let vs = ["3.9.1", "3.9.7", "3.10.0", "3.10.4", "3.10.12", "3.11.0", "3.11.0rc1", "3.12.0b2", "3.1.4"];
    for case in 0..cases(40, 6) {
        pages.lock().unwrap().clear();
        let scratch = tempfile::tempdir().unwrap();
        let log = scratch.path().join("log");
        let mut have: Vec<&str> = vs.iter().cloned().filter(|_| rng.chance(1, 2)).collect();
        let target = *rng.pick(&vs);
        if case % 4 == 0 && !have.contains(&target) { have.push(target); }
        rng.shuffle(&mut have);
        let input = format!("target {target} among {have:?}");
        r.case(&input, have.len() > 1);
        let files: Vec<WFile> = have.iter().map(|v| python(v, &plats[0], &log)).collect();
        publish(&pages, "i", "cpython", &files);
        let src = Src { name: "thing", version: "1.0", meta: Some(("thing", "1.0")), wheel: wheel("thing", "1.0", "py3-none-any", "", &[]), requires: vec![], dynamic: vec![], tops: 1, fails: false, object: "", paths: &["."] };
        publish(&pages, "i", "thing", &[sdist(&src, &log)]);
        let dirs = Dirs::new();
        let db = dirs.db(&[format!("{}i/", srv.base())]);
        let py: PackageName = "cpython".try_into().unwrap();
        let pv: Version = target.try_into().unwrap();
        let plat = PybiPlatform::new(&plats[0]);
        let refs = [&plat];
        // a later step may pick among all versions, but has to stay with the first choice
        let got = r.run(&input, || -> Result<()> {
            let b = WheelBuilder::new(&db, &py, &pv, &refs, &[])?;
            b.locally_built_metadata(&ai(&db, "thing", "1.0")?)?;
            b.locally_built_wheel(&ai(&db, "thing", "1.0")?, &platform_for(target, &plat))?;
            Ok(())
        });
        let key = |v: &str| -> Version { v.try_into().unwrap() };
        let minor = |v: &str| { let p: Vec<&str> = v.split('.').collect(); format!("{}.{}", p[0], p[1]) };
        let pre = |v: &str| v.contains("rc") || v.contains('b');
        let ok = |v: &&&str| pre(target) || !pre(v);
        let newest = |c: Vec<&&str>| -> Option<String> {
            // a prerelease is only taken when nothing else is there, or prereleases are asked for
            c.into_iter().max_by_key(|v| key(v)).map(|s| s.to_string())
        };
        let want = if have.contains(&target) { Some(target.to_string()) }
            else { newest(have.iter().filter(ok).filter(|v| minor(v) == minor(target)).collect()).or_else(|| newest(have.iter().filter(ok).collect())) };
        let used: Vec<String> = lines(&log).iter().filter_map(|l| l.strip_prefix("python ").map(|s| s.split(' ').next().unwrap().to_string())).collect();
        match (got, want) {
            (None, _) => {}
            (Some(Ok(())), Some(w)) => { r.check(!used.is_empty() && used.iter().all(|u| *u == w), "python", &input, || format!("wanted {w}, used {used:?}")); }
            (Some(Ok(())), None) => r.fail("python", &input, &format!("used {used:?}")),
            (Some(Err(e)), Some(w)) => r.fail("refused", &input, &format!("wanted {w}: {e:#}")),
            (Some(Err(_)), None) => {}
        }
    }
}

#[test]
fn v_b02_platforms() {
    let mut r = Report::new("B02", "v_b02_platforms",
        "lists of 0-6 target platforms, those of this machine, older and newer ones, other architectures, C libraries and systems: the builder's platforms are the runnable ones in order, or this machine's. Non-trivial: at least two runnable and one not");
    let mut rng = Rng::new("b02p");
    let own = natives();
    if own.is_empty() { return; }
    let parts = |t: &str| -> Option<(String, u32, u32, String)> { let p: Vec<&str> = t.splitn(4, '_').collect(); Some((p[0].to_string(), p.get(1)?.parse().ok()?, p.get(2)?.parse().ok()?, p.get(3)?.to_string())) };
    let runs = |t: &str| own.iter().any(|o| o == t || match (parts(o), parts(t)) {
        (Some(a), Some(b)) => a.0 == b.0 && a.0.ends_with("linux") && a.1 == b.1 && a.3 == b.3 && b.2 <= a.2,
        _ => false,
    });
    let mut pool: Vec<String> = ["win_amd64", "macosx_11_0_arm64", "macosx_10_15_x86_64", "manylinux_2_17_aarch64", "manylinux_2_17_riscv64", "musllinux_1_1_aarch64", "linux_x86_64", "any"].iter().map(|s| s.to_string()).collect();
    for o in &own {
        pool.push(o.clone());
        if let Some((l, a, b, arch)) = parts(o) {
            for (a, b) in [(a, b + 1), (a, 0), (a, b / 2), (a, b.saturating_sub(1)), (a + 1, 0), (a + 1, b)] { pool.push(format!("{l}_{a}_{b}_{arch}")); }
        }
    }
    for _ in 0..cases(2000, 10) {
        let targets: Vec<String> = (0..rng.below(7)).map(|_| rng.pick(&pool).clone()).collect();
        let want: Vec<String> = targets.iter().filter(|t| runs(t)).cloned().collect();
        let input = format!("targets {targets:?} on a machine with {own:?}");
        r.case(&input, want.len() >= 2 && want.len() < targets.len());
        let want = if want.is_empty() { own.clone() } else { want };
        let got = r.run(&input, || -> Result<Vec<String>> {
            let dirs = Dirs::new();
            let db = dirs.db(&[]);
            let plats: Vec<PybiPlatform> = targets.iter().map(|t| PybiPlatform::new(t)).collect();
            let refs: Vec<&PybiPlatform> = plats.iter().collect();
            let (n, v): (PackageName, Version) = ("cpython".parse()?, "3.10.4".try_into()?);
            let b = WheelBuilder::new(&db, &n, &v, &refs, &[])?;
            Ok(b.build_platforms.iter().map(|p| p.core_tag().to_string()).collect())
        });
        match got { None => {}, Some(Err(e)) => r.fail("error", &input, &format!("{e:#}")), Some(Ok(g)) => { r.check(g == want, "platforms", &input, || format!("builds on {g:?}, must be {want:?}")); } }
    }
}

#[test]
fn v_b02_environment() {
    let mut r = Report::new("B02", "v_b02_environment",
        "an environment of a pinned source archive, with the interpreter pinned for one of several platforms this machine runs: the wheel is built with an interpreter for that platform and suits the environment. Non-trivial: the platform is not the first");
    let mut rng = Rng::new("b02e");
    let plats: Vec<String> = natives();
    if plats.len() < 2 { return; }
    let (srv, pages) = server();
    for _ in 0..cases(6, 4) {
        pages.lock().unwrap().clear();
        let scratch = tempfile::tempdir().unwrap();
        let log = scratch.path().join("log");
        let mut pl: Vec<String> = Vec::new();
        while pl.len() < 2 { let p = rng.pick(&plats).clone(); if !pl.contains(&p) { pl.push(p); } }
        pl.sort_by_key(|p| plats.iter().position(|x| x == p));
        let k = if rng.chance(3, 4) { 1 } else { 0 };
        let input = format!("platforms {pl:?}, pinned for {}", pl[k]);
        r.case(&input, k > 0);
        let src = Src { name: "thing", version: "1.0", meta: None, wheel: wheel("thing", "1.0", "py3-none-linux_x86_64", "", &[("thing.py", "x = 1\n")]), requires: vec![], dynamic: vec![], tops: 1, fails: false, object: "", paths: &["."] };
        let pys: Vec<WFile> = pl.iter().map(|p| python("3.10.4", p, &log)).collect();
        let hash = format!("sha256={}", sha256_hex(&pys[k].bytes));
        publish(&pages, "i", "cpython", &pys);
        publish(&pages, "i", "thing", &[sdist(&src, &log)]);
        let urls = [Url::parse(&format!("{}i/", srv.base())).unwrap()];
        let got = r.run(&input, || -> Result<(String, Vec<PathBuf>)> {
            let dirs = Dirs::new();
            let db = dirs.db(&[urls[0].to_string()]);
            let ps: Vec<PybiPlatform> = pl.iter().map(|c| PybiPlatform::new(c)).collect();
            let refs: Vec<&PybiPlatform> = ps.iter().collect();
            let brief = Brief { python: "cpython".parse()?, requirements: vec!["thing".parse()?], allow_pre: Default::default() };
            let mut bp = brief.resolve(&db, &[refs[k]], None, &[])?;
            let h: ArtifactHash = hash.parse()?;
            bp.pybi.hashes.retain(|x| *x == h);
            fs::write(&log, b"")?;
            for e in walkdir(&dirs.tmp.path().join("cache").join("local-wheels")) { if e.extension().map_or(false, |x| x == "whl") { fs::remove_file(e)?; } }
            // nothing of the first build is at hand
            let fresh = tempfile::tempdir()?;
            let builds = crate::kvstore::KVDirStore::new(fresh.path())?;
            let db = PackageDB::new(&urls, &dirs.tmp.path().join("cache"), &dirs.forest, &builds)?;
            let env = dirs.forest.get_env(&db, &bp, &refs, &[])?;
            Ok((env.platform_core_tag.clone(), env.lib_dirs.iter().map(|l| l.join("thing.py")).filter(|p| p.is_file()).collect()))
        });
        match got {
            None => {}
            Some(Err(e)) => r.fail("failed", &input, &format!("{e:#}")),
            Some(Ok((core, mods))) => {
                r.check(core == pl[k] && mods.len() == 1, "environment", &input, || format!("{core} {mods:?}"));
                let l = lines(&log);
                r.check(l.iter().any(|x| x.starts_with("wheel ")), "built", &input, || format!("{l:?}"));
                for x in l.iter().filter(|x| x.starts_with("python ")) { r.check(x.ends_with(&format!("-{}", pl[k])), "platform", &input, || format!("{x:?}")); }
            }
        }
    }
}
