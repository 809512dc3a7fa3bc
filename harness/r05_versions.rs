//@attach src/resolve.rs
// R05: which versions are offered, and in which order
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

struct Rel { ver: &'static str, pre: bool, files: Vec<WFile> }

// from oldest to newest, all different
const POOL: &[(&str, bool)] = &[
    ("0.1.dev1", true), ("0.1a1", true), ("0.1", false), ("0.1.post1", false), ("0.9", false), ("0.10", false), ("1.0.dev3", true), ("1.0a1.dev2", true),
    ("1.0b2", true), ("1.0rc1", true), ("1.0", false), ("1.0+loc", false), ("1.0.post1.dev1", true), ("1.0.post2", false),
    ("1.1", false), ("2.0.1", false), ("10.0", false), ("1!0.5", false), ("1!1.0a1", true),
];

#[test]
fn v_r05_offered() {
    let mut r = Report::new("R05", "v_r05_offered",
        "a generated index page for one package (1-7 versions, 1-3 files each: yanked or not, with or without hash, requires-python satisfied or not), a pin with a random version and hashes, allow-pre on or off; the list fetch_and_sort_versions returns is compared with the promise. Non-trivial: at least one version is left out and at least one offered");
    let mut rng = Rng::new("r05");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    let pys = [("3.10.4", vec![(None, true), (Some(">=3.7"), true), (Some("<3"), false), (Some(">=3.11"), false), (Some(">=3.8,!=3.10.4"), false), (Some("==3.10.*"), true), (Some("~=3.9"), true), (Some(">3.10.3"), true)])];
    for case in 0..cases(400, 10) {
        let py = &pys[0];
        let n = rng.range(1, 7);
        let mut idx: Vec<usize> = (0..POOL.len()).collect();
        rng.shuffle(&mut idx);
        let only_pre = rng.chance(1, 4);
        let mut chosen: Vec<usize> = idx.into_iter().filter(|i| !only_pre || POOL[*i].1).take(n).collect();
        chosen.sort();
        let name = format!("pkg{case}");
        let mut rels: Vec<Rel> = Vec::new();
        let mut rp_ok: HashMap<String, bool> = HashMap::new();
        for &i in &chosen {
            let (ver, pre) = POOL[i];
            let mut files = Vec::new();
            for k in 0..rng.range(1, 3) {
                let (rp, ok) = rng.pick(&py.1).clone();
                let fname = if k == 0 { format!("{name}-{ver}.tar.gz") } else { format!("{name}-{ver}-{k}-py3-none-any.whl") };
                rp_ok.insert(fname.clone(), ok);
                files.push(WFile { name: fname.clone(), bytes: fname.into_bytes(), yanked: rng.chance(1, 3), requires_python: rp.map(|s| s.to_string()), hash: !rng.chance(1, 6) });
            }
            rels.push(Rel { ver, pre, files });
        }
        if case % 12 == 0 {
            // a package with a long history of prereleases, newer than everything else
            for k in 0..rng.range(20, 60) {
                let ver: &'static str = Box::leak(format!("2!1.0.dev{k}").into_boxed_str());
                let fname = format!("{name}-{ver}.tar.gz");
                rp_ok.insert(fname.clone(), true);
                rels.push(Rel { ver, pre: true, files: vec![WFile { name: fname.clone(), bytes: fname.into_bytes(), yanked: false, requires_python: None, hash: false }] });
            }
        }
        let mut all: Vec<WFile> = rels.iter().flat_map(|x| x.files.clone()).collect();
        rng.shuffle(&mut all);
        publish(&pages, "i", &name, &all);
        // a pin for the package: some version (perhaps one that is not there), some hashes
        let pinned: Option<(String, Vec<String>)> = if rng.chance(2, 3) {
            let v = if rng.chance(1, 6) { "7.7".to_string() } else { rng.pick(&rels).ver.to_string() };
            let mut hs = Vec::new();
            for f in &all { if f.hash && rng.chance(1, 2) { hs.push(sha256_hex(&f.bytes)); } }
            Some((v, hs))
        } else { None };
        let allow = rng.below(4);
        let with_py = !rng.chance(1, 6);
        let input = format!("files={:?} pin={:?} allow={} python={}", all.iter().map(|f| (f.name.clone(), f.yanked, f.requires_python.clone(), f.hash)).collect::<Vec<_>>(), pinned, allow, with_py);
        // what must come out
        let allow_pre = allow == 0 || allow == 1 || rels.iter().all(|x| x.pre);
        let usable = |f: &WFile| {
            (!f.yanked || (f.hash && pinned.as_ref().map_or(false, |(_, hs)| hs.contains(&sha256_hex(&f.bytes)))))
                && (!with_py || rp_ok[&f.name])
        };
        let mut want: Vec<String> = rels.iter().rev().filter(|x| (!x.pre || allow_pre) && x.files.iter().any(usable)).map(|x| x.ver.to_string()).collect();
        if let Some((v, _)) = &pinned {
            if let Some(p) = want.iter().position(|w| w == v) { let x = want.remove(p); want.insert(0, x); }
        }
        r.case(&input, want.len() < rels.len() && !want.is_empty());
        let got = r.run(&input, || -> Result<Vec<String>> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let pname: PackageName = name.parse()?;
            let other: PackageName = "other".parse()?;
            let brief = Brief {
                python: "cpython".try_into()?,
                requirements: vec![],
                allow_pre: match allow { 0 => AllowPre::All, 1 => AllowPre::Some(HashSet::from([pname.clone()])), 2 => AllowPre::Some(HashSet::from([other.clone()])), _ => Default::default() },
            };
            let pin = pinned.as_ref().map(|(v, hs)| PinnedPackage {
                name: name.to_uppercase().parse().unwrap(),
                version: v.as_str().try_into().unwrap(),
                hashes: hs.iter().map(|h| ArtifactHash::from_hex("sha256", h).unwrap()).collect(),
            });
            let otherpin = PinnedPackage { name: other, version: rels[0].ver.try_into()?, hashes: vec![] };
            let mut hints = VersionHints::new();
            hints.add_pinned(&otherpin);
            if let Some(p) = &pin { hints.add_pinned(p); }
            let pyv: Version = py.0.try_into()?;
            let vs = fetch_and_sort_versions(&db, &brief, &pname, if with_py { Some(&pyv) } else { None }, &hints)?;
            Ok(vs.iter().map(|v| v.to_string()).collect())
        });
        match got {
            None => {}
            Some(Err(e)) => r.fail("error", &input, &format!("{e:#}")),
            Some(Ok(got)) => {
                let (mut a, mut b) = (got.clone(), want.clone());
                a.sort(); b.sort();
                if a != b { r.fail("offered", &input, &format!("offered {got:?}, must be {want:?}")); }
                else if got != want { r.fail("order", &input, &format!("order {got:?}, must be {want:?}")); }
            }
        }
        pages.lock().unwrap().clear();
    }
}

// the same promise seen from outside: a resolve of one unconstrained package picks the first
#[test]
fn v_r05_resolve() {
    let mut r = Report::new("R05", "v_r05_resolve",
        "Brief::resolve of one package with 1-5 versions, from scratch and like a previous blueprint; the pin must be the first version promised. Non-trivial: more than one version is offered");
    let mut rng = Rng::new("r05r");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    let plat = PybiPlatform::new("manylinux_2_17_x86_64");
    let py = pybi("cpython", "3.10.4", "manylinux_2_17_x86_64", &["py3-none-any"], "{\"python_full_version\": \"3.10.4\", \"python_version\": \"3.10\"}");
    for case in 0..cases(80, 8) {
        publish(&pages, "i", "cpython", &[py.clone()]);
        let mut idx: Vec<usize> = (0..POOL.len()).filter(|i| !POOL[*i].0.contains('!')).collect();
        rng.shuffle(&mut idx);
        let mut chosen: Vec<usize> = idx.into_iter().take(rng.range(1, 5)).collect();
        chosen.sort();
        let name = format!("q{case}");
        let mut files: Vec<WFile> = chosen.iter().map(|i| wheel(&name, POOL[*i].0, "py3-none-any", "", &[])).collect();
        for f in files.iter_mut() {
            f.yanked = rng.chance(1, 5);
            if rng.chance(1, 4) { f.requires_python = Some(rng.pick(&["<3", ">=3.6"]).to_string()); }
        }
        publish(&pages, "i", &name, &files);
        let all_pre = chosen.iter().all(|i| POOL[*i].1);
        let ok = |k: usize, hinted: bool| {
            let f = &files[k];
            (!f.yanked || hinted) && f.requires_python.as_deref() != Some("<3") && (!POOL[chosen[k]].1 || all_pre)
        };
        let like = if rng.chance(1, 2) { Some(rng.below(files.len())) } else { None };
        let mut order: Vec<usize> = (0..files.len()).rev().filter(|k| ok(*k, like == Some(*k))).collect();
        if let Some(l) = like { if let Some(p) = order.iter().position(|k| *k == l) { let x = order.remove(p); order.insert(0, x); } }
        let input = format!("files={:?} like={:?}", files.iter().map(|f| (f.name.clone(), f.yanked, f.requires_python.clone())).collect::<Vec<_>>(), like.map(|l| files[l].name.clone()));
        r.case(&input, order.len() > 1);
        let got = r.run(&input, || -> Result<Vec<String>> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let brief = Brief { python: "cpython".try_into()?, requirements: vec![name.as_str().try_into()?], allow_pre: Default::default() };
            let like = like.map(|l| Blueprint {
                pybi: PinnedPackage { name: "cpython".parse().unwrap(), version: "3.10.4".try_into().unwrap(), hashes: vec![] },
                wheels: vec![(
                    PinnedPackage { name: name.parse().unwrap(), version: POOL[chosen[l]].0.try_into().unwrap(), hashes: vec![ArtifactHash::from_hex("sha256", &sha256_hex(&files[l].bytes)).unwrap()] },
                    WheelResolveMetadata { provenance: "x".into(), inner: WheelResolveMetadataInner { requires_dist: vec![], requires_python: Default::default(), extras: Default::default() } },
                )],
                marker_expressions: Default::default(),
            });
            let b = brief.resolve(&db, &[&plat], like.as_ref(), &[])?;
            Ok(b.wheels.iter().map(|(p, _)| format!("{}={}", p.name.normalized(), p.version)).collect())
        });
        match (got, order.first()) {
            (None, _) => {}
            (Some(Err(_)), None) => {}
            (Some(Err(e)), Some(_)) => r.fail("error", &input, &format!("{e:#}")),
            (Some(Ok(g)), None) => r.fail("offered", &input, &format!("resolved to {g:?} although nothing is usable")),
            (Some(Ok(g)), Some(k)) => {
                let want = vec![format!("{}={}", name, POOL[chosen[*k]].0)];
                r.check(g == want, "picked", &input, || format!("resolved to {g:?}, must be {want:?}"));
            }
        }
        pages.lock().unwrap().clear();
    }
}
