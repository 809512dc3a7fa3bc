//@attach src/env.rs
// R06: choosing the file to install for a pin
use super::*;
use crate::package_db::ArtifactInfo;
use crate::resolve::PinnedPackage;
use crate::verif_support::*;
use crate::verif_world::*;

const TAGS: &[&str] = &["cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-manylinux_2_5_x86_64", "cp310-abi3-manylinux_2_17_x86_64", "py3-none-any", "py2.py3-none-any", "cp310-cp310-macosx_11_0_arm64", "cp310-cp310-manylinux2014_x86_64.manylinux_2_17_x86_64", "cp39-cp39-manylinux_2_17_x86_64", "py310-none-any", "cp310-cp310-win_amd64"];

fn expand(tag: &str) -> Vec<String> {
    let p: Vec<Vec<&str>> = tag.split('-').map(|x| x.split('.').collect()).collect();
    let mut v = Vec::new();
    for a in &p[0] { for b in &p[1] { for c in &p[2] { v.push(format!("{a}-{b}-{c}")); } } }
    v
}

#[test]
fn v_r06_wheel() {
    let mut r = Report::new("R06", "v_r06_wheel",
        "a pin with some of the hashes of 1-6 files (wheels with one or several tags, source archives, with and without a hash) and 1-3 wheel platforms: the file and platform pick_pinned_binary chooses. Non-trivial: several files are eligible for the chosen platform");
    let mut rng = Rng::new("r06w");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    let mk = |core: &str, tags: &[&str]| {
        let mut m = String::from("Metadata-Version: 2.1\nName: cpython\nVersion: 3.10.4\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n");
        for t in tags { m += &format!("Pybi-Wheel-Tag: {t}\n"); }
        PybiPlatform::new(core).wheel_platform(&m.as_bytes().try_into().unwrap()).unwrap()
    };
    let all = [
        mk("manylinux_2_20_x86_64", &["cp310-cp310-PLATFORM", "cp310-abi3-PLATFORM", "py310-none-any", "py3-none-any"]),
        mk("manylinux_2_12_x86_64", &["cp310-cp310-PLATFORM", "py3-none-any"]),
        mk("macosx_11_0_arm64", &["cp310-cp310-PLATFORM", "py3-none-any"]),
        mk("win_amd64", &["cp310-cp310-PLATFORM"]),
        mk("manylinux_2_20_x86_64", &["py3-none-any", "cp310-abi3-PLATFORM", "cp310-cp310-PLATFORM"]),
    ];
    for case in 0..cases(900, 10) {
        let mut idx: Vec<usize> = (0..all.len()).collect();
        rng.shuffle(&mut idx);
        idx.truncate(rng.range(1, 3));
        let platforms: Vec<&WheelPlatform> = idx.iter().map(|i| &all[*i]).collect();
        let mut tags: Vec<&str> = TAGS.to_vec();
        rng.shuffle(&mut tags);
        tags.truncate(rng.range(1, 6));
        let name = format!("w{case}");
        let mut files: Vec<WFile> = tags.iter().map(|t| WFile { name: format!("{name}-1.0-{t}.whl"), bytes: t.as_bytes().to_vec(), hash: !rng.chance(1, 6), ..Default::default() }).collect();
        files.push(WFile { name: format!("{name}-1.0.tar.gz"), bytes: b"s".to_vec(), hash: true, ..Default::default() });
        files.push(WFile { name: format!("{name}-2.0-py3-none-any.whl"), bytes: b"other".to_vec(), hash: true, ..Default::default() });
        rng.shuffle(&mut files);
        publish(&pages, "i", &name, &files);
        let pinned: Vec<String> = files.iter().filter(|_| rng.chance(3, 4)).map(|f| sha256_hex(&f.bytes)).collect();
        let input = format!("platforms={:?} files={:?} pinned={:?}", idx, files.iter().map(|f| (&f.name, f.hash)).collect::<Vec<_>>(), files.iter().filter(|f| pinned.contains(&sha256_hex(&f.bytes))).map(|f| &f.name).collect::<Vec<_>>());
        let score = |p: &WheelPlatform, f: &WFile| -> Option<i64> {
            if !f.hash || !pinned.contains(&sha256_hex(&f.bytes)) || !f.name.starts_with(&format!("{name}-1.0-")) || !f.name.ends_with(".whl") { return None; }
            let tag = f.name.trim_end_matches(".whl").splitn(3, '-').nth(2).unwrap().to_string();
            let pos: Vec<String> = p.tags().cloned().collect();
            expand(&tag).iter().filter_map(|t| pos.iter().position(|x| x == t)).min().map(|x| -(x as i64))
        };
        let want = platforms.iter().enumerate().find_map(|(i, p)| {
            let s: Vec<i64> = files.iter().filter_map(|f| score(p, f)).collect();
            s.iter().max().map(|m| (i, *m, s.len()))
        });
        r.case(&input, want.map_or(false, |w| w.2 > 1));
        let got = r.run(&input, || -> Result<(String, usize)> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let pin = PinnedPackage { name: name.parse()?, version: "1.0".try_into()?, hashes: pinned.iter().map(|h| ArtifactHash::from_hex("sha256", h).unwrap()).collect() };
            let (ai, p) = pick_pinned_binary::<Wheel>(&db, &platforms, &pin)?;
            let i = platforms.iter().position(|q| std::ptr::eq(*q, p)).ok_or(eyre!("unknown platform"))?;
            Ok((ai.name.to_string(), i))
        });
        match (got, want) {
            (None, _) => {}
            (Some(Err(e)), None) => { r.check(matches!(e.downcast_ref::<PosyError>(), Some(PosyError::NoCompatibleBinaries { .. })), "error", &input, || format!("{e:#}")); }
            (Some(Err(e)), Some(w)) => r.fail("none-found", &input, &format!("{e:#}, but {w:?}")),
            (Some(Ok(g)), None) => r.fail("ineligible", &input, &format!("chose {g:?}")),
            (Some(Ok((n, i))), Some((wi, ws, _))) => {
                r.check(i == wi, "platform", &input, || format!("chose platform number {i}, must be {wi}"));
                match files.iter().find(|f| f.name == n).and_then(|f| score(platforms[wi], f)) {
                    None => r.fail("ineligible", &input, &format!("chose {n}")),
                    Some(s) => { r.check(s == ws, "best", &input, || format!("chose {n} with score {s}, the best is {ws}")); }
                }
            }
        }
        pages.lock().unwrap().clear();
    }
}

// from outside: which files end up installed
#[test]
fn v_r06_env() {
    let mut r = Report::new("R06", "v_r06_env",
        "get_env from a blueprint pinning an interpreter and a package with several files: which of them were unpacked. Non-trivial: always");
    let mut rng = Rng::new("r06e");
    let (srv, pages) = server();
    for case in 0..cases(25, 6) {
        let dirs = Dirs::new();
        let name = format!("e{case}");
        let vars = "{\"python_full_version\": \"3.10.4\"}";
        let wt = &["cp310-cp310-PLATFORM", "py3-none-any"];
        let mut pys: Vec<&str> = vec!["manylinux_2_5_x86_64", "manylinux_2_12_x86_64", "manylinux_2_17_x86_64", "win_amd64"];
        rng.shuffle(&mut pys);
        pys.truncate(rng.range(1, 4));
        let pf: Vec<WFile> = pys.iter().map(|p| pybi("cpython", "3.10.4", p, wt, vars)).collect();
        publish(&pages, "i", "cpython", &pf);
        let mut tags: Vec<&str> = vec!["py3-none-any", "cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-manylinux_2_5_x86_64", "cp310-cp310-win_amd64"];
        rng.shuffle(&mut tags);
        tags.truncate(rng.range(1, 4));
        let wf: Vec<WFile> = tags.iter().map(|t| wheel(&name, "1.0", t, "", &[("which.txt", t)])).collect();
        publish(&pages, "i", &name, &wf);
        let ppin: Vec<usize> = (0..pf.len()).filter(|_| rng.chance(4, 5)).collect();
        let wpin: Vec<usize> = (0..wf.len()).filter(|_| rng.chance(4, 5)).collect();
        let prank = |t: &str| ["manylinux_2_17_x86_64", "manylinux_2_12_x86_64", "manylinux_2_5_x86_64"].iter().position(|x| *x == t);
        let wrank = |t: &str| ["cp310-cp310-manylinux_2_17_x86_64", "cp310-cp310-manylinux_2_5_x86_64", "py3-none-any"].iter().position(|x| *x == t);
        let wp = ppin.iter().map(|i| pys[*i]).filter(|t| prank(t).is_some()).min_by_key(|t| prank(t));
        let ww = wpin.iter().map(|i| tags[*i]).filter(|t| wrank(t).is_some()).min_by_key(|t| wrank(t));
        let want = match (wp, ww) { (Some(a), Some(b)) => Some((a.to_string(), b.to_string())), _ => None };
        let input = format!("interpreters={:?} pinned {:?}, wheels={:?} pinned {:?}", pys, ppin, tags, wpin);
        r.case(&input, true);
        let h = |f: &WFile| ArtifactHash::from_hex("sha256", &sha256_hex(&f.bytes)).unwrap();
        let got = r.run(&input, || -> Result<(String, String)> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let m: WheelCoreMetadata = format!("Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n").as_bytes().try_into()?;
            let info = db.artifacts_for_version(&name.parse()?, &"1.0".try_into()?)?[0].clone();
            let b = Blueprint {
                pybi: PinnedPackage { name: "cpython".parse()?, version: "3.10.4".try_into()?, hashes: ppin.iter().map(|i| h(&pf[*i])).collect() },
                wheels: vec![(PinnedPackage { name: name.parse()?, version: "1.0".try_into()?, hashes: wpin.iter().map(|i| h(&wf[*i])).collect() }, WheelResolveMetadata::from(&info, &m))],
                marker_expressions: Default::default(),
            };
            let plat = PybiPlatform::new("manylinux_2_17_x86_64");
            let env = dirs.forest.get_env(&db, &b, &[&plat], &[])?;
            Ok((fs::read_to_string(&env.python)?, fs::read_to_string(env.lib_dirs[0].join("which.txt"))?))
        });
        match got {
            None => {}
            Some(g) => match (g, want) {
                (Ok(g), Some(w)) => { r.check(g == w, "installed", &input, || format!("installed {g:?}, must be {w:?}")); }
                (Ok(g), None) => r.fail("ineligible", &input, &format!("installed {g:?}")),
                (Err(e), Some(w)) => r.fail("none-found", &input, &format!("{e:#}; must be {w:?}")),
                (Err(_), None) => {}
            },
        }
        pages.lock().unwrap().clear();
    }
}
