//@attach src/env.rs
// V01: an environment is exactly what the blueprint pins
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

const PLATFORMS: &[&str] = &["manylinux_2_17_x86_64", "macosx_11_0_arm64", "win_amd64"];
const METAS: &[&str] = &["", "Requires-Dist: qq\n", "Requires-Dist: qq\nRequires-Dist: rr ; extra == 'x'\nProvides-Extra: x\n", "Requires-Python: >=3.7\n", "Requires-Dist: qq[x]\n", "Provides-Extra: x\n", "Requires-Dist: qq\nRequires-Python: >=3.7\n", "Requires-Dist: qq\nRequires-Dist: rr ; extra == 'x'\n"];
// metadata that differs from that one in one respect
fn near(m: usize, rng: &mut Rng) -> usize { *match m { 0 => rng.pick(&[1, 3, 5]), 1 => rng.pick(&[0, 4, 6]), 2 => &7, 3 => rng.pick(&[0, 6]), 4 => &1, 5 => &0, 6 => rng.pick(&[1, 3]), _ => &2 } }
const LINE: &str = "ENABLE_USER_SITE = None";

fn meta_of(v: usize) -> WheelResolveMetadataInner {
    let m: WheelCoreMetadata = format!("Metadata-Version: 2.1\nName: a\nVersion: 1\n{}", METAS[v]).as_bytes().try_into().unwrap();
    WheelResolveMetadataInner { requires_dist: m.requires_dist, requires_python: m.requires_python, extras: m.extras }
}
use crate::resolve::WheelResolveMetadataInner;

fn zip_x(files: &[(String, Vec<u8>, bool)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (n, b, x) in files {
        z.start_file(n.as_str(), zip::write::FileOptions::default().unix_permissions(if *x { 0o755 } else { 0o644 })).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}

#[derive(Clone)]
struct Py { stdlib: Option<&'static str>, purelib: Option<&'static str>, scripts: Option<&'static str>, site: String, id: String }
fn stub(purelib: &str) -> String {
    format!("#!/bin/sh\nexec python3 -I -S -c 'import sys, runpy, os\nroot = sys.argv[1]\nn = len(sys.path)\nrunpy.run_path(os.path.join(root, \"{purelib}\", \"sitecustomize.py\"))\nprint(\"added\", sys.path[n:])\nsys.argv = sys.argv[2:]\nif sys.argv: runpy.run_path(sys.argv[0], run_name=\"__main__\")\n' \"$(cd \"$(dirname \"$POSY_PYTHON\")/$POSY_UP\" && pwd)\" \"$@\"\n")
}
fn pybi_file(p: &Py, version: &str, platform: &str) -> WFile {
    let mut paths: Vec<String> = vec!["\"platlib\": \"plat/site\"".into(), "\"platstdlib\": \"plat/std\"".into(), "\"data\": \".\"".into()];
    for (k, v) in [("stdlib", p.stdlib), ("purelib", p.purelib), ("scripts", p.scripts)] { if let Some(v) = v { paths.push(format!("\"{k}\": \"{v}\"")); } }
    let m = format!("Metadata-Version: 2.1\nName: cpython\nVersion: {version}\nPybi-Environment-Marker-Variables: {{}}\nPybi-Wheel-Tag: cp310-cp310-PLATFORM\nPybi-Wheel-Tag: py3-none-any\nPybi-Paths: {{{}}}\n", paths.join(", "));
    let mut files = vec![
        ("pybi-info/PYBI".to_string(), b"Pybi-Version: 1.0\n".to_vec(), false),
        ("pybi-info/METADATA".to_string(), m.into_bytes(), false),
        ("who.txt".to_string(), p.id.as_bytes().to_vec(), false),
    ];
    if let Some(s) = p.stdlib { files.push((format!("{s}/site.py"), p.site.as_bytes().to_vec(), false)); }
    for d in ["plat/site", "plat/std"] { files.push((format!("{d}/keep"), b"k".to_vec(), false)); }
    for d in [p.purelib, p.scripts].into_iter().flatten() { files.push((format!("{d}/keep"), b"k".to_vec(), false)); }
    if let Some(s) = p.scripts { files.push((format!("{s}/python"), stub(p.purelib.unwrap_or(".")).into_bytes(), true)); }
    WFile { name: format!("cpython-{version}-{platform}.pybi"), bytes: zip_x(&files), hash: true, ..Default::default() }
}
fn wheel_file(p: &str, v: &str, tag: &str, meta: usize, plat: bool) -> WFile {
    let di = format!("{p}-{v}.dist-info");
    let id = format!("{p}-{v}-{tag}");
    let files = vec![
        (format!("{p}/__init__.py"), format!("who = '{id}'\n").into_bytes(), false),
        (format!("{p}/__main__.py"), format!("def go():\n    import os, sys; print('ran', who(), sys.argv[0])\ndef who():\n    import {p}; return {p}.who\n").into_bytes(), false),
        (format!("{p}-{v}.data/scripts/raw-{p}"), format!("#!python\nprint('raw {id}')\n").into_bytes(), true),
        (format!("{p}-{v}.data/data/share/{p}.txt"), id.clone().into_bytes(), false),
        (format!("{p}-{v}.data/platlib/{p}_plat.py"), id.clone().into_bytes(), false),
        (format!("{p}-{v}.data/purelib/{p}_pure.py"), id.clone().into_bytes(), false),
        (format!("{di}/entry_points.txt"), format!("[console_scripts]\ngo-{p} = {p}.__main__:go\n").into_bytes(), false),
        (format!("{di}/WHEEL"), format!("Wheel-Version: 1.0\nRoot-Is-Purelib: {}\n", !plat).into_bytes(), false),
        (format!("{di}/METADATA"), format!("Metadata-Version: 2.1\nName: {p}\nVersion: {v}\n{}", METAS[meta]).into_bytes(), false),
    ];
    WFile { name: format!("{id}.whl"), bytes: zip_x(&files), hash: true, ..Default::default() }
}
fn site_edit(s: &str) -> Option<String> {
    let mut at = 0;
    loop {
        if s[at..].starts_with(LINE) { return Some(format!("{}ENABLE_USER_SITE = False{}", &s[..at], &s[at + LINE.len()..])); }
        at += s[at..].find('\n')? + 1;
    }
}
struct W { file: WFile, pinned: bool, served: bool, meta: usize, id: String, tag: &'static str }
struct Pkg { name: String, files: Vec<W>, sdist: Option<(WFile, bool)>, local: Vec<(&'static str, usize)>, expect: usize }

#[test]
fn v_v01_env() {
    let mut r = Report::new("V01", "v_v01_env",
        "an interpreter (1-3 archives: several platforms, where things are inside it, several forms of site.py) and 0-4 packages (1-3 wheels and a source archive each, with or without a hash, some of them pinned, some missing or wrong on the server, with the metadata the blueprint expects or other; wheels built before), asked for by EnvForest::get_env, twice: the interpreter used, what is in each directory of the environment, in which order, and the variables; some environments are started. Non-trivial: the environment has a package");
    // as a user may have it: directories that are not there, twice, relative ones
    let path = std::env::var("PATH").unwrap();
    if !path.contains("/nowhere/at/all") { std::env::set_var("PATH", format!("{path}:/nowhere/at/all:/usr/bin:.posy-none:/usr/bin")); }
    let mut rng = Rng::new("v01");
    let (srv, pages) = server();
    let py3 = std::process::Command::new("python3").arg("-V").output().map_or(false, |o| o.status.success());
    let mut started = 0;
    for case in 0..cases(260, 8) {
        let dirs = Dirs::new();
        pages.lock().unwrap().clear();
        // half of the time nothing stands in the way
        let clean = rng.chance(2, 3);
        // the interpreter
        let mut plats: Vec<&str> = PLATFORMS.to_vec();
        rng.shuffle(&mut plats);
        let wanted: Vec<&str> = plats[..rng.range(1, 3)].to_vec();
        let mut pys: Vec<(WFile, Py, &str, bool)> = Vec::new();
        let pver = *rng.pick(&["3.10.4", "3.11"]);
        for plat in PLATFORMS {
            if !rng.chance(2, 3) && *plat != wanted[0] { continue; }
            let site = match rng.range(if clean { 1 } else { 0 }, if clean { 4 } else { 8 }) { 0 => format!("import sys\n# {LINE}\n"), 1 => format!("{LINE}\nx = 1\n{LINE}\n"), 2 => format!("import os\nif 1:\n    {LINE}\n{LINE}  # why\n"), 3 => format!("a\r\n{LINE}\r\nb\r\n"), 4 => format!("\u{e9}\n{LINE}"), 5 => "x = 1\n".to_string(), 6 => format!("{LINE}\n"), _ => format!("import sys\n{LINE}\ndef main(): pass\n") };
            let py = Py {
                stdlib: if !clean && rng.chance(1, 12) { None } else { Some(*rng.pick(&["lib/python3", "Lib", "l/i/b"])) },
                purelib: if !clean && rng.chance(1, 12) { None } else { Some(*rng.pick(&["lib/site", "Lib/site-packages", "Lib"])) },
                scripts: if !clean && rng.chance(1, 12) { None } else { Some(*rng.pick(&["bin", "Scripts", "a/b"])) },
                site, id: format!("py {case} {plat}"),
            };
            let mut f = pybi_file(&py, pver, plat);
            f.hash = clean && *plat == wanted[0] || rng.chance(7, 8);
            pys.push((f, py, plat, clean && *plat == wanted[0] || rng.chance(7, 8)));
        }
        // the packages
        let mut pkgs: Vec<Pkg> = Vec::new();
        for k in 0..rng.range(0, 4) {
            let name = format!("{}{case}", ["zz", "ee", "aa", "mm"][k]);
            let main_meta = rng.below(METAS.len());
            let mut other = |rng: &mut Rng| if !clean && rng.chance(1, 9) { if rng.chance(2, 3) { near(main_meta, rng) } else { rng.below(METAS.len()) } } else { main_meta };
            let mut tags = vec!["py3-none-any", "cp310-cp310-manylinux_2_5_x86_64", "cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-macosx_11_0_arm64", "cp310-cp310-win_amd64", "cp310-cp310-manylinux_2_30_x86_64"];
            rng.shuffle(&mut tags);
            let n = if rng.chance(1, 4) { 0 } else { rng.range(1, 3) };
            let only_sdist = n == 0 || clean;
            let files: Vec<W> = tags[..n].iter().map(|t| {
                let meta = other(&mut rng);
                let mut file = wheel_file(&name, "1.5", t, meta, rng.chance(1, 2));
                file.hash = rng.chance(9, 10);
                W { id: format!("{name}-1.5-{t}"), file, pinned: rng.chance(7, 8), served: clean || rng.chance(20, 21), meta, tag: t }
            }).collect();
            let sdist = if only_sdist || rng.chance(1, 3) { Some((WFile { name: format!("{name}-1.5.tar.gz"), bytes: format!("junk {name}").into_bytes(), hash: clean || rng.chance(9, 10), ..Default::default() }, if clean { rng.chance(19, 20) } else { rng.chance(9, 10) })) } else { None };
            let local = if clean || rng.chance(4, 5) { let mut t = vec!["py3-none-any", "cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-win_amd64", "cp310-cp310-macosx_11_0_arm64"]; rng.shuffle(&mut t); if clean { let k = t.iter().position(|x| x.starts_with("py3")).unwrap(); t.swap(0, k); } t[..rng.range(1, 3)].iter().map(|t| (*t, other(&mut rng))).collect() } else { vec![] };
            let odd = if clean && rng.chance(1, 10) { Some(near(main_meta, &mut rng)) } else { None };
            pkgs.push(Pkg { expect: odd.unwrap_or_else(|| other(&mut rng)), name, files, sdist, local });
        }
        let url = format!("{}i/", srv.base());
        publish(&pages, "i", "cpython", &pys.iter().map(|p| p.0.clone()).collect::<Vec<_>>());
        for p in &pkgs {
            let mut fs: Vec<WFile> = p.files.iter().map(|w| w.file.clone()).collect();
            fs.extend(p.sdist.iter().map(|s| s.0.clone()));
            // another release, pinned nowhere
            fs.push(wheel_file(&p.name, "2.0", "py3-none-any", p.expect, false));
            rng.shuffle(&mut fs);
            publish(&pages, "i", &p.name, &fs);
            for w in &p.files { if !w.served { pages.lock().unwrap().insert(format!("/files/i/{}", w.file.name), Resp::new(200, b"something else")); } }
        }
        let h = |f: &WFile| ArtifactHash::from_hex("sha256", &sha256_hex(&f.bytes)).unwrap();
        // unpacked before from a wheel built from the source archive
        for p in &pkgs {
            if let Some((s, _)) = &p.sdist {
                let lock = dirs.forest.store.lock(&h(s)).unwrap();
                for (t, m) in &p.local {
                    let root = lock.join(format!("{}-1.5-{t}.whl", p.name));
                    let di = root.join("lib").join(format!("{}-1.5.dist-info", p.name));
                    fs::create_dir_all(&di).unwrap();
                    fs::create_dir_all(root.join("bin")).unwrap();
                    fs::create_dir_all(root.join("share")).unwrap();
                    fs::create_dir_all(root.join("lib").join(&p.name)).unwrap();
                    fs::write(di.join("METADATA"), format!("Metadata-Version: 2.1\nName: {}\nVersion: 1.5\n{}", p.name, METAS[*m])).unwrap();
                    let id = format!("built {}-1.5-{t}", p.name);
                    fs::write(root.join("lib").join(&p.name).join("__init__.py"), format!("who = '{id}'\n")).unwrap();
                    fs::write(root.join("share").join(format!("{}.txt", p.name)), &id).unwrap();
                }
                fs::create_dir_all(lock.join("notes")).unwrap();
            }
        }
        let desc = format!("platforms {wanted:?}; interpreter {pver} {:?}; packages {:?}",
            pys.iter().map(|(f, p, plat, pin)| format!("{plat}{}{} {:?} {:?} {:?} site.py {:?}", if f.hash { "" } else { " unhashed" }, if *pin { "" } else { " unpinned" }, p.stdlib, p.purelib, p.scripts, p.site)).collect::<Vec<_>>(),
            pkgs.iter().map(|p| format!("{} expects {}: {:?} source {:?} built {:?}", p.name, p.expect, p.files.iter().map(|w| format!("{}{}{}{} {}", w.tag, if w.file.hash { "" } else { " unhashed" }, if w.pinned { "" } else { " unpinned" }, if w.served { "" } else { " broken" }, w.meta)).collect::<Vec<_>>(), p.sdist.as_ref().map(|s| (s.0.hash, s.1)), p.local)).collect::<Vec<_>>());
        // what is to come of it
        let python = wanted.iter().find_map(|w| pys.iter().find(|p| p.2 == *w && p.0.hash && p.3));
        let mut refuse: Option<String> = None;
        let mut tags_of: Vec<String> = Vec::new();
        match python {
            None => refuse = Some("no interpreter is pinned".into()),
            Some((_, py, plat, _)) => {
                if py.stdlib.is_none() || py.purelib.is_none() || py.scripts.is_none() { refuse = Some("the interpreter does not say where things are".into()); }
                else if site_edit(&py.site).is_none() { refuse = Some("user packages cannot be switched off".into()); }
                let m: PybiCoreMetadata = b"Metadata-Version: 2.1\nName: cpython\nVersion: 3\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\nPybi-Wheel-Tag: cp310-cp310-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n".as_slice().try_into().unwrap();
                tags_of = PybiPlatform::new(plat).wheel_platform(&m).unwrap().tags().cloned().collect();
            }
        }
        let rank = |t: &str| tags_of.iter().position(|x| x == t);
        let mut want: Vec<String> = Vec::new();
        for p in &pkgs {
            let best = p.files.iter().filter(|w| w.file.hash && w.pinned).filter_map(|w| rank(w.tag).map(|k| (k, w))).min_by_key(|x| x.0);
            let src = p.sdist.as_ref().filter(|s| s.0.hash && s.1);
            let built = p.local.iter().filter_map(|(t, m)| rank(t).map(|k| (k, *t, *m))).min();
            match (best, src, built) {
                (Some((_, w)), _, _) => {
                    if !w.served { refuse.get_or_insert(format!("{} has other content", w.id)); }
                    if w.meta != p.expect { refuse.get_or_insert(format!("{} has other metadata", w.id)); }
                    want.push(w.id.clone());
                }
                (None, Some(_), Some((_, t, m))) => {
                    if m != p.expect { refuse.get_or_insert(format!("the built {} has other metadata", p.name)); }
                    want.push(format!("built {}-1.5-{t}", p.name));
                }
                _ => { refuse.get_or_insert(format!("nothing pinned to install for {}", p.name)); }
            }
        }
        r.case(&desc, refuse.is_none() && !pkgs.is_empty());
        for round in 0..2 {
            let got = r.run(&desc, || -> Result<Env> {
                let db = dirs.db(&[url.clone()]);
                let bp = Blueprint {
                    pybi: PinnedPackage { name: "cpython".parse()?, version: pver.try_into()?, hashes: pys.iter().filter(|p| p.3).map(|p| h(&p.0)).collect() },
                    wheels: pkgs.iter().map(|p| {
                        let mut hashes: Vec<ArtifactHash> = p.files.iter().filter(|w| w.pinned).map(|w| h(&w.file)).collect();
                        if case % 2 == 0 { hashes.push(ArtifactHash::from_hex("sha256", &sha256_hex(b"of something else")).unwrap()); }
                        hashes.extend(p.sdist.iter().filter(|s| s.1).map(|s| h(&s.0)));
                        (PinnedPackage { name: p.name.parse().unwrap(), version: "1.5".try_into().unwrap(), hashes }, WheelResolveMetadata { provenance: if case % 3 == 0 { "before".into() } else { format!("{}files/i/{}", srv.base(), p.files.get(case % 3 - 1).map(|w| &w.file).or(p.sdist.as_ref().map(|s| &s.0)).map_or(String::new(), |f| if f.hash { format!("{}#sha256={}", f.name, sha256_hex(&f.bytes)) } else { f.name.clone() })) }, inner: meta_of(p.expect) })
                    }).collect(),
                    marker_expressions: Default::default(),
                };
                let pl: Vec<PybiPlatform> = wanted.iter().map(|w| PybiPlatform::new(w)).collect();
                dirs.forest.get_env(&db, &bp, &pl.iter().collect::<Vec<_>>(), &[])
            });
            let env = match (got, &refuse) {
                (None, _) => break,
                (Some(Err(_)), Some(_)) => continue,
                (Some(Err(e)), None) => { r.fail("refused", &desc, &format!("round {round}: {e:#}")); break; }
                (Some(Ok(_)), Some(w)) => { r.fail("made", &desc, &format!("round {round}: made an environment although {w}")); break; }
                (Some(Ok(e)), None) => e,
            };
            let (f, py, plat, _) = python.unwrap();
            let root = env.python.ancestors().find(|a| a.join("pybi-info").is_dir()).map(|p| p.to_path_buf()).unwrap_or_default();
            let text = |p: PathBuf| fs::read_to_string(&p).unwrap_or_else(|e| format!("{p:?}: {e}"));
            r.check(text(root.join("who.txt")) == py.id, "interpreter", &desc, || format!("interpreter of {:?}, must be {}", env.python, f.name));
            let bin = root.join(py.scripts.unwrap());
            r.check(env.python == bin.join("python") && env.pythonw == bin.join("python"), "python", &desc, || format!("python is {:?} and {:?}", env.python, env.pythonw));
            r.check(env.platform_core_tag == *plat, "platform", &desc, || format!("platform {}", env.platform_core_tag));
            r.check(env.wheel_platform.tags().cloned().collect::<Vec<_>>() == tags_of, "wheel-platform", &desc, || "other tags".into());
            let (std_, pure_) = (root.join(py.stdlib.unwrap()), root.join(py.purelib.unwrap()));
            r.check(text(std_.join("site.py")) == site_edit(&py.site).unwrap(), "site", &desc, || format!("site.py is {:?}", text(std_.join("site.py"))));
            r.check(text(std_.join("EXTERNALLY-MANAGED")) == include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/data-files/EXTERNALLY-MANAGED")), "managed", &desc, || format!("EXTERNALLY-MANAGED is {:?}", text(std_.join("EXTERNALLY-MANAGED"))));
            r.check(text(pure_.join("sitecustomize.py")) == include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/data-files/sitecustomize.py")), "customize", &desc, || format!("sitecustomize.py is {:?}", text(pure_.join("sitecustomize.py"))));
            let ok = r.check(env.lib_dirs.len() == want.len() && env.bin_dirs.len() == want.len() + 1 && env.bin_dirs[0] == bin, "dirs", &desc, || format!("{:?} {:?}", env.bin_dirs, env.lib_dirs));
            if !ok { break; }
            for (i, w) in want.iter().enumerate() {
                let p = &pkgs[i];
                let (lib, b) = (&env.lib_dirs[i], &env.bin_dirs[i + 1]);
                let rt = lib.parent().unwrap();
                let who = text(lib.join(&p.name).join("__init__.py"));
                r.check(who == format!("who = '{w}'\n"), "package", &desc, || format!("package {i} is {who:?}, must be {w}"));
                r.check(*b == rt.join("bin") && *lib == rt.join("lib"), "place", &desc, || format!("{b:?} and {lib:?}"));
                r.check(text(rt.join("share").join(format!("{}.txt", p.name))) == *w, "data", &desc, || format!("no data files of {w} in {rt:?}"));
                if w.starts_with("built") { continue; }
                for k in ["plat", "pure"] { r.check(text(lib.join(format!("{}_{k}.py", p.name))) == *w, "category", &desc, || format!("{k} files of {w} are not in {lib:?}")); }
                r.check(text(b.join(format!("raw-{}", p.name))).contains(&format!("print('raw {w}')")), "script", &desc, || format!("no script of {w} in {b:?}"));
            }
            let vars: HashMap<String, std::ffi::OsString> = match r.run(&desc, || env.env_vars().map(|v| v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())) { Some(Ok(v)) => v, Some(Err(e)) => { r.fail("vars", &desc, &format!("{e:#}")); break; } None => break };
            let mut path = env.bin_dirs.clone();
            path.extend(std::env::split_paths(&std::env::var_os("PATH").unwrap()));
            let expected: HashMap<String, std::ffi::OsString> = [("PATH", std::env::join_paths(&path).unwrap()), ("POSY_PYTHON", env.python.clone().into()), ("POSY_PYTHONW", env.pythonw.clone().into()), ("POSY_PYTHON_PACKAGES", std::env::join_paths(&env.lib_dirs).unwrap())].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            r.check(vars == expected, "vars", &desc, || format!("{vars:?}"));
            // start something in it
            if !py3 || round == 1 || started >= cases(30, 6) && !want.is_empty() || !wanted.contains(plat) { continue; }
            started += 1;
            let up = py.scripts.unwrap().split('/').map(|_| "..").collect::<Vec<_>>().join("/");
            let bare = std::process::Command::new(&env.python).envs(&vars).env("POSY_UP", &up).current_dir(dirs.tmp.path()).output().unwrap();
            let out = String::from_utf8_lossy(&bare.stdout).to_string();
            let says = format!("added [{}]", env.lib_dirs.iter().map(|l| format!("'{}'", l.display())).collect::<Vec<_>>().join(", "));
            let cwd = format!("added ['{}']", dirs.tmp.path().canonicalize().unwrap().display());
            if want.is_empty() && out.trim() == cwd { r.fail("sys.path-cwd", &desc, "the current directory is added to sys.path"); continue; }
            r.check(out.trim() == says, "sys.path", &desc, || format!("sys.path: {out} {}", String::from_utf8_lossy(&bare.stderr)));
            if let Some(i) = want.iter().position(|w| !w.starts_with("built")) {
                let go = std::process::Command::new("/bin/sh").arg("-c").arg(format!("exec go-{}", pkgs[i].name)).envs(&vars).env("POSY_UP", &up).current_dir(dirs.tmp.path()).output().unwrap();
                let out = String::from_utf8_lossy(&go.stdout).to_string();
                r.check(out.contains(&format!("ran {} {}", want[i], env.bin_dirs[i + 1].join(format!("go-{}", pkgs[i].name)).display())), "launch", &desc, || format!("go-{}: {out} {}", pkgs[i].name, String::from_utf8_lossy(&go.stderr)));
            }
        }
    }
}
