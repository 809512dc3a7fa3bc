//@attach src/resolve.rs
// R06: choosing the interpreter to resolve against
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

const PLATS: &[&str] = &["manylinux_2_20_x86_64", "manylinux_2_17_x86_64", "manylinux_2_5_x86_64", "manylinux2014_x86_64", "manylinux1_x86_64", "macosx_11_0_arm64", "macosx_10_9_x86_64", "macosx_10_9_universal2", "win_amd64", "manylinux_2_12_i686"];

// does a machine with core tag `core` run `tag`, and how good is it?  (larger is better)
fn score(core: &str, tag: &str) -> Option<i64> {
    let p = |t: &str| -> Option<(&'static str, u32, u32, String)> {
        let t = match t.split_once('_') { Some(("manylinux2014", a)) => format!("manylinux_2_17_{a}"), Some(("manylinux1", a)) => format!("manylinux_2_5_{a}"), _ => t.to_string() };
        let mut it = t.splitn(4, '_');
        let (k, a, b, c) = (it.next()?.to_string(), it.next()?.to_string(), it.next()?.to_string(), it.next()?.to_string());
        let k = match k.as_str() { "manylinux" => "l", "macosx" => "m", _ => return None };
        Some((k, a.parse().ok()?, b.parse().ok()?, c))
    };
    match (p(core), p(tag)) {
        (Some((k, a, b, arch)), Some((k2, a2, b2, arch2))) if k == k2 && (a2, b2) <= (a, b) => {
            if arch == arch2 { Some((a2 * 100 + b2) as i64 * 10 + 5) }
            else if k == "m" && arch2 == "universal2" && (arch == "arm64" || arch == "x86_64") { Some((a2 * 100 + b2) as i64 * 10) }
            else { None }
        }
        (None, None) if core == tag => Some(0),
        _ => None,
    }
}

#[test]
fn v_r06_pybi() {
    let mut r = Report::new("R06", "v_r06_pybi",
        "resolving with 1-4 platforms against 1-3 interpreter versions with 1-5 files each (interpreters for other platforms, source archives, wheels): the interpreter version and platform chosen. Non-trivial: several files are eligible for the chosen platform");
    let mut rng = Rng::new("r06p");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    for _ in 0..cases(700, 10) {
        let mut cores: Vec<&str> = PLATS.iter().copied().filter(|t| !t.contains("universal2")).collect();
        rng.shuffle(&mut cores);
        cores.truncate(rng.range(1, 4));
        let mut tags: Vec<&str> = PLATS.to_vec();
        rng.shuffle(&mut tags);
        tags.truncate(rng.range(1, 5));
        let mut files: Vec<WFile> = tags.iter().map(|t| WFile { name: format!("cpython-3.10.4-{t}.pybi"), bytes: t.as_bytes().to_vec(), hash: true, ..Default::default() }).collect();
        if rng.chance(1, 3) { files.push(WFile { name: "cpython-3.10.4.tar.gz".into(), bytes: b"s".to_vec(), hash: true, ..Default::default() }); }
        if rng.chance(1, 3) { files.push(WFile { name: "cpython-3.10.4-py3-none-any.whl".into(), bytes: b"w".to_vec(), hash: true, ..Default::default() }); }
        let multi = rng.chance(1, 4);
        if multi { files.push(WFile { name: "cpython-3.10.4-1-win_amd64.macosx_10_9_x86_64.pybi".into(), bytes: b"m".to_vec(), hash: true, ..Default::default() }); }
        rng.shuffle(&mut files);
        publish(&pages, "i", "cpython", &files);
        let input = format!("platforms={:?} files={:?}", cores, files.iter().map(|f| &f.name).collect::<Vec<_>>());
        // eligible (file, tag)
        // (an index entry for universal2 stands for one entry per architecture)
        let mut elig: Vec<String> = tags.iter().flat_map(|t| match t.strip_suffix("_universal2") {
            Some(p) => vec![format!("{p}_arm64"), format!("{p}_x86_64")],
            None => vec![t.to_string()],
        }).collect();
        if multi { elig.push("win_amd64".into()); elig.push("macosx_10_9_x86_64".into()); }
        let want: Option<(String, i64, usize)> = cores.iter().find_map(|c| {
            let s: Vec<i64> = elig.iter().filter_map(|t| score(c, t)).collect();
            s.iter().max().map(|m| (c.to_string(), *m, s.len()))
        });
        r.case(&input, want.as_ref().map_or(false, |w| w.2 > 1));
        let got = r.run(&input, || -> Result<(String, String)> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let ps: Vec<PybiPlatform> = cores.iter().map(|c| PybiPlatform::new(c)).collect();
            let refs: Vec<&PybiPlatform> = ps.iter().collect();
            let brief = Brief { python: "cpython".try_into()?, requirements: vec![], allow_pre: Default::default() };
            let (ai, plat) = resolve_pybi(&db, &brief, &refs, &VersionHints::new())?;
            Ok((ai.name.to_string(), plat.core_tag().to_string()))
        });
        match (got, want) {
            (None, _) | (Some(Err(_)), None) => {}
            (Some(Err(e)), Some(w)) => r.fail("none-found", &input, &format!("{e:#}, but {w:?} is there")),
            (Some(Ok(g)), None) => r.fail("ineligible", &input, &format!("chose {g:?}")),
            (Some(Ok((n, p))), Some((wp, ws, _))) => {
                let n2 = n.trim_end_matches(".pybi").rsplit('-').next().unwrap().to_string();
                if !r.check(n.ends_with(".pybi"), "kind", &input, || format!("chose {n}")) { continue; }
                r.check(p == PybiPlatform::new(&wp).core_tag(), "platform", &input, || format!("chose platform {p}, the first with a file is {wp}"));
                let best = n2.split('.').filter_map(|t| score(&wp, t)).max();
                r.check(best == Some(ws), "best", &input, || format!("chose {n} with score {best:?}, the best is {ws}"));
            }
        }
        pages.lock().unwrap().clear();
    }
}

#[test]
fn v_r06_versions() {
    let mut r = Report::new("R06", "v_r06_versions",
        "several interpreter versions, with a Python requirement: the newest one that satisfies it and has a file for one of the platforms. Non-trivial: the newest version of all is not it");
    let mut rng = Rng::new("r06v");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    let vers = ["3.8.1", "3.9.0", "3.9.7", "3.10.4", "3.11.0"];
    for _ in 0..cases(150, 10) {
        let mut have: Vec<(usize, Vec<&str>)> = Vec::new();
        for i in 0..vers.len() { if rng.chance(3, 4) {
            let t: Vec<&str> = ["manylinux_2_17_x86_64", "win_amd64", "macosx_10_9_x86_64"].iter().copied().filter(|_| rng.chance(1, 2)).collect();
            if !t.is_empty() { have.push((i, t)); }
        } }
        let (spec, ok): (&str, fn(usize) -> bool) = *rng.pick(&[("", (|_| true) as fn(usize) -> bool), ("<3.10", |i| i < 3), (">=3.9", |i| i >= 1), ("==3.9.*", |i| i == 1 || i == 2), ("!=3.11.0", |i| i != 4)]);
        let cores: Vec<&str> = if rng.chance(1, 2) { vec!["manylinux_2_17_x86_64"] } else { vec!["win_amd64", "macosx_10_9_x86_64"] };
        let files: Vec<WFile> = have.iter().flat_map(|(i, ts)| ts.iter().map(move |t| WFile { name: format!("cpython-{}-{t}.pybi", vers[*i]), bytes: t.as_bytes().to_vec(), hash: true, ..Default::default() })).collect();
        publish(&pages, "i", "cpython", &files);
        let input = format!("cpython {spec} on {cores:?} files={:?}", files.iter().map(|f| &f.name).collect::<Vec<_>>());
        let want = have.iter().rev().find(|(i, ts)| ok(*i) && ts.iter().any(|t| cores.contains(t))).map(|(i, ts)| (vers[*i], *cores.iter().find(|c| ts.contains(c)).unwrap()));
        r.case(&input, want.is_some() && have.last().map(|h| vers[h.0]) != want.map(|w| w.0));
        let got = r.run(&input, || -> Result<(String, String)> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let ps: Vec<PybiPlatform> = cores.iter().map(|c| PybiPlatform::new(c)).collect();
            let refs: Vec<&PybiPlatform> = ps.iter().collect();
            let brief = Brief { python: format!("cpython {spec}").as_str().try_into()?, requirements: vec![], allow_pre: Default::default() };
            let (ai, plat) = resolve_pybi(&db, &brief, &refs, &VersionHints::new())?;
            Ok((ai.name.version().to_string(), plat.core_tag().to_string()))
        });
        match got {
            None => {}
            Some(g) => { let g = g.ok(); r.check(g.as_ref().map(|(a, b)| (a.as_str(), b.as_str())) == want, "version", &input, || format!("chose {g:?}, must be {want:?}")); }
        }
        pages.lock().unwrap().clear();
    }
}
