//@attach src/main.rs
// R02 from outside: resolve small worlds served from a loopback index and compare with all
// assignments of versions
use crate::prelude::*;
use crate::resolve::{AllowPre, Brief};
use crate::verif_support::*;
use crate::verif_world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Q { pkg: usize, extras: Vec<&'static str>, spec: (&'static str, fn(u32) -> bool), marker: (&'static str, fn(Option<&str>, &str) -> bool) }
// versions are "1.0" .. "4.0", numbered 1..4
const SPECS: &[(&str, fn(u32) -> bool)] = &[("", |_| true), ("", |_| true), (">=2.0", |v| v >= 2), ("<4", |v| v < 4), ("!=2.0", |v| v != 2), ("==3.*", |v| v == 3), ("<=2.0", |v| v <= 2), (">1.0", |v| v > 1), ("~=1.0", |v| v == 1)];
const MARKERS: &[(&str, fn(Option<&str>, &str) -> bool)] = &[("", |_, _| true), ("", |_, _| true), ("", |_, _| true), ("python_version < '3'", |_, _| false), ("os_name == 'posix'", |_, _| true), ("extra == 'x'", |e, _| e == Some("x")), ("extra == 'X' and os_name == 'nt'", |_, _| false), ("extra != 'x'", |e, _| e != Some("x"))];
const MORE: &[(&str, fn(Option<&str>, &str) -> bool)] = &[("platform_machine == 'arm64'", |_, m| m == "arm64"), ("platform_machine != 'x86_64'", |_, m| m != "x86_64"), ("extra == 'x' and platform_machine == 'x86_64'", |e, m| e == Some("x") && m == "x86_64")];
const NAMES: &[&str] = &["aa", "bb", "cc", "dd"];

fn text(q: &Q) -> String {
    format!("{}{}{}{}", NAMES[q.pkg], if q.extras.is_empty() { String::new() } else { format!("[{}]", q.extras.join(",")) },
        if q.spec.0.is_empty() { String::new() } else { format!(" ({})", q.spec.0) }, if q.marker.0.is_empty() { String::new() } else { format!("; {}", q.marker.0) })
}

type World = Vec<BTreeMap<u32, Vec<Q>>>;

/// the packages reached under an assignment, or None when a requirement is not met
fn reach(w: &World, user: &[Q], asg: &[u32], mach: &str) -> Option<Vec<usize>> {
    let mut seen: Vec<(usize, Option<&str>)> = Vec::new();
    let mut todo: Vec<(usize, Option<&str>)> = Vec::new();
    let add = |q: &Q, e: Option<&str>, todo: &mut Vec<(usize, Option<&'static str>)>| -> bool {
        if !(q.marker.1)(e, mach) { return true; }
        if asg[q.pkg] == 0 || !(q.spec.1)(asg[q.pkg]) { return false; }
        todo.push((q.pkg, None));
        for x in &q.extras { todo.push((q.pkg, Some(x))); }
        true
    };
    for q in user { if !add(q, None, &mut todo) { return None; } }
    while let Some(n) = todo.pop() {
        if seen.contains(&n) { continue; }
        seen.push(n);
        for q in &w[n.0][&asg[n.0]] { if !add(q, n.1, &mut todo) { return None; } }
    }
    let mut v: Vec<usize> = seen.iter().map(|n| n.0).collect();
    v.sort(); v.dedup();
    Some(v)
}

#[test]
fn v_r02_e2e() {
    let mut r = Report::new("R02", "v_r02_e2e",
        "Brief::resolve on worlds of 2-4 packages with up to 4 versions, extras and markers: it succeeds exactly when some assignment of versions meets all applicable requirements, and its pins are such an assignment, closed and without unreached packages. Non-trivial: the requirements exclude at least one assignment");
    e2e(&mut r, "r02e", cases(110, 10), false);
}

#[test]
fn v_t01_e2e() {
    let mut r = Report::new("T01", "v_t01_e2e",
        "Brief::resolve on worlds of 2-4 packages with up to 4 versions, extras, markers (also on the machine of interpreters that do not say it) and several files a version, some yanked or without a hash: the pins meet every applicable requirement, are closed and without unreached packages, list every known hash of their version, and the metadata recorded is that of the version; noted markers have the value they have here. Non-trivial: the requirements exclude at least one assignment");
    e2e(&mut r, "t01e", cases(110, 10), true);
}

fn e2e(r: &mut Report, seed: &str, n: usize, more: bool) {
    let mut rng = Rng::new(seed);
    let (srv, pages) = server();
    for _ in 0..n {
        let (tag, mach) = if more { *rng.pick(&[("manylinux_2_17_x86_64", ""), ("macosx_11_0_arm64", "arm64"), ("macosx_12_0_x86_64", "x86_64"), ("macosx_10_15_x86_64", "x86_64")]) } else { ("manylinux_2_17_x86_64", "") };
        // the interpreter may say it itself
        let (mach, said) = if more && rng.chance(1, 3) { let m = *rng.pick(&["arm64", "x86_64", "other"]); (m, format!(", \"platform_machine\": \"{m}\"")) } else { (mach, String::new()) };
        let plat = PybiPlatform::new(tag);
        let py = pybi("cpython", "3.10.4", tag, &["py3-none-any"], &format!("{{\"python_full_version\": \"3.10.4\", \"python_version\": \"3.10\", \"os_name\": \"posix\"{said}}}"));
        let dirs = Dirs::new();
        let np = rng.range(2, 4);
        let gen = |rng: &mut Rng, from: Option<usize>| -> Q {
            let pkg = loop { let p = rng.below(np); if Some(p) != from { break p; } };
            let marker = loop { let m = if more && mach != "" && rng.chance(1, 3) { *rng.pick(MORE) } else { *rng.pick(MARKERS) }; if from.is_some() || !m.0.contains("extra") { break m; } };
            Q { pkg, extras: if rng.chance(1, 4) { vec!["x"] } else { vec![] }, spec: *rng.pick(SPECS), marker }
        };
        let mut w: World = Vec::new();
        for p in 0..np {
            let mut m = BTreeMap::new();
            for v in 1..=4u32 { if rng.chance(2, 3) || (v == 4 && m.is_empty()) {
                let n = *rng.pick(&[0, 0, 1, 1, 2, 3]);
                m.insert(v, (0..n).map(|_| gen(&mut rng, Some(p))).collect::<Vec<_>>());
            } }
            w.push(m);
        }
        let user: Vec<Q> = (0..rng.range(1, 3)).map(|_| gen(&mut rng, None)).collect();
        // a set of requirements no version at all can meet is reported as an error by the
        // solver itself, wherever it meets it; keep those out
        let contradictory = |qs: &[Q]| (0..np).any(|p| [None, Some("x")].iter().any(|e| {
            let on: Vec<&Q> = qs.iter().filter(|q| q.pkg == p && (q.marker.1)(*e, mach)).collect();
            !on.is_empty() && !(1..=6).any(|v| on.iter().all(|q| (q.spec.1)(v)))
        }));
        if contradictory(&user) || w.iter().any(|m| m.values().any(|qs| contradictory(qs))) { continue; }
        let input = format!("{tag} {said} user={:?} world={:?}", user.iter().map(text).collect::<Vec<_>>(),
            w.iter().enumerate().map(|(p, m)| m.iter().map(|(v, q)| format!("{} {}.0: {:?}", NAMES[p], v, q.iter().map(text).collect::<Vec<_>>())).collect::<Vec<_>>()).collect::<Vec<_>>());
        // all assignments (0: not installed)
        let mut sols = 0; let mut tried = 0;
        let mut asg = vec![0u32; np];
        loop {
            if (0..np).all(|p| asg[p] == 0 || w[p].contains_key(&asg[p])) { tried += 1; if reach(&w, &user, &asg, mach).is_some() { sols += 1; } }
            let mut i = 0;
            while i < np { asg[i] += 1; if asg[i] <= 4 { break; } asg[i] = 0; i += 1; }
            if i == np { break; }
        }
        r.case(&input, sols < tried);
        publish(&pages, "i", "cpython", &[py.clone()]);
        let mut published: Vec<Vec<WFile>> = Vec::new();
        for p in 0..np {
            let mut files: Vec<WFile> = Vec::new();
            for (v, qs) in &w[p] {
                let mut meta = String::from("Provides-Extra: x\n");
                for q in qs { meta += &format!("Requires-Dist: {}\n", text(q)); }
                files.push(wheel(NAMES[p], &format!("{v}.0"), "py3-none-any", &meta, &[]));
                if more {
                    // other files of the same version
                    if rng.chance(1, 3) { files.push(wheel(NAMES[p], &format!("{v}.0"), "cp27-none-any", &meta, &[])); }
                    if rng.chance(1, 4) { let mut f = wheel(NAMES[p], &format!("{v}.0"), "cp26-none-any", &meta, &[]); f.yanked = true; files.push(f); }
                    if rng.chance(1, 5) { let mut f = wheel(NAMES[p], &format!("{v}.0"), "cp25-none-any", &meta, &[]); f.hash = false; files.push(f); }
                    if rng.chance(1, 5) { let mut f = wheel(NAMES[p], &format!("{v}.0"), "cp24-none-any", &meta, &[]); f.requires_python = Some("<3".into()); files.push(f); }
                }
            }
            publish(&pages, "i", NAMES[p], &files);
            published.push(files);
        }
        let got = r.run(&input, || -> Result<crate::resolve::Blueprint> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let brief = Brief { python: "cpython".try_into()?, requirements: user.iter().map(|q| text(q).as_str().try_into()).collect::<Result<_>>()?, allow_pre: AllowPre::default() };
            brief.resolve(&db, &[&plat], None, &[])
        });
        match got {
            None => {}
            Some(Err(e)) => { r.check(sols == 0, "solvable", &input, || format!("no solution found ({e:#}) although there are {sols}")); }
            Some(Ok(b)) => {
                let pins: Vec<(String, String)> = b.wheels.iter().map(|(p, _)| (p.name.normalized().to_string(), p.version.to_string())).collect();
                if more {
                    for (p, m) in &b.wheels {
                        let at = NAMES.iter().position(|x| *x == p.name.normalized()).unwrap();
                        let v = p.version.to_string();
                        let num: u32 = v.split('.').next().unwrap().parse().unwrap();
                        let of_it: Vec<&WFile> = published[at].iter().filter(|f| f.name.split('-').nth(1) == Some(v.as_str())).collect();
                        let mut want: Vec<String> = of_it.iter().filter(|f| f.hash).map(|f| format!("sha256={}", sha256_hex(&f.bytes))).collect();
                        let mut have: Vec<String> = p.hashes.iter().map(|h| h.to_string()).collect();
                        want.sort(); have.sort();
                        r.check(want == have, "hashes", &input, || format!("{} {v}: {} files with a hash, {} hashes pinned", NAMES[at], want.len(), have.len()));
                        let want: Vec<PackageRequirement> = w[at][&num].iter().map(|q| text(q).as_str().try_into().unwrap()).collect();
                        r.check(format!("{want:?}") == format!("{:?}", m.inner.requires_dist), "metadata", &input, || format!("{} {v}: recorded {:?}", NAMES[at], m.inner.requires_dist));
                        r.check(of_it.iter().any(|f| m.provenance.contains(&f.name)), "provenance", &input, || format!("{} {v}: {}", NAMES[at], m.provenance));
                    }
                    let mut env: HashMap<String, String> = HashMap::new();
                    for (k, v) in [("python_full_version", "3.10.4"), ("python_version", "3.10"), ("os_name", "posix")] { env.insert(k.into(), v.into()); }
                    if mach != "" { env.insert("platform_machine".into(), mach.into()); }
                    for (e, x) in &b.marker_expressions { r.check(e.0.eval(&env).ok() == Some(*x), "marker", &input, || format!("{e} noted as {x}")); }
                }
                let mut a = vec![0u32; np];
                for (n, v) in &pins { a[NAMES.iter().position(|x| x == n).unwrap()] = v.split('.').next().unwrap().parse().unwrap(); }
                match reach(&w, &user, &a, mach) {
                    None => r.fail("unmet", &input, &format!("the pins {pins:?} do not meet every applicable requirement")),
                    Some(reached) => { r.check(pins.len() == reached.len(), "unreached", &input, || format!("pins {pins:?}, but only {reached:?} are reached")); }
                }
            }
        }
        pages.lock().unwrap().clear();
    }
}
