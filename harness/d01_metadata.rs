//@attach src/package_db/package_db.rs
// D01: where a release's metadata comes from, and when it is asked for again
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

#[derive(Clone)]
struct F { name: String, hash: bool, says: String, kind: u8, good: bool, there: bool }

fn pybi_says(v: &str, inner: (&str, &str), says: &str) -> WFile {
    let m = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\nSummary: {says}\nRequires-Dist: {says}\nPybi-Environment-Marker-Variables: {{\"python_version\": \"3.{says_n}\"}}\nPybi-Wheel-Tag: py3-none-any\nPybi-Paths: {{\"stdlib\": \"{says}\"}}\n", inner.0, inner.1, says_n = says.len());
    let files = vec![("pybi-info/PYBI".to_string(), b"Pybi-Version: 1.0\n".to_vec()), ("pybi-info/METADATA".to_string(), m.into_bytes())];
    WFile { name: format!("dd-{v}-win_amd64.pybi"), bytes: zip_of(&files), hash: true, ..Default::default() }
}

fn wheel_says(v: &str, build: usize, inner: (&str, &str), says: &str) -> WFile {
    let di = format!("dd-{v}.dist-info");
    let files = vec![
        ("dd/__init__.py".to_string(), vec![b'x'; 9000]),
        (format!("{di}/WHEEL"), b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\n".to_vec()),
        (format!("{di}/METADATA"), format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\nRequires-Dist: {says}\n", inner.0, inner.1).into_bytes()),
    ];
    WFile { name: format!("dd-{v}-{build}-py3-none-any.whl"), bytes: zip_of(&files), hash: true, ..Default::default() }
}

// 0 wheel, 1 interpreter archive, 2 source archive
fn ask(db: &PackageDB, ais: &[&ArtifactInfo], kind: u8) -> Result<(String, String)> {
    if kind == 0 {
        let (ai, m) = db.get_metadata::<Wheel, _>(ais, None)?;
        Ok((ai.url.to_string(), m.requires_dist.iter().map(|r| r.name.as_given().to_string()).collect::<Vec<_>>().join(",")))
    } else {
        let (ai, m) = db.get_metadata::<Pybi, _>(ais, None)?;
        Ok((ai.url.to_string(), m.paths.get("stdlib").map(|p| p.to_string()).unwrap_or_default()))
    }
}

#[test]
fn v_d01_metadata() {
    let mut r = Report::new("D01", "v_d01_metadata",
        "a release of 1-5 files (wheels, interpreter archives, source archives; with and without a hash; some missing on the server, some naming another package or version inside) on a server with or without range requests; some are downloaded, then its metadata is asked for repeatedly, in any order of the files, by new and old processes: the metadata is that of the file named, wrong ones are refused, and what is at hand is used before the network. Non-trivial: an answer came from what is at hand");
    let mut rng = Rng::new("d01");
    let ranged = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(true));
    let (r2, pages): (_, Pages) = (ranged.clone(), Default::default());
    let p2 = pages.clone();
    let srv = Server::new(move |req| {
        match p2.lock().unwrap().get(&req.path) {
            Some(x) if x.status == 200 && r2.load(std::sync::atomic::Ordering::SeqCst) => { let mut y = serve_range(req, &x.body); y.headers.extend(x.headers.clone()); y }
            Some(x) => x.clone(),
            None => Resp::new(404, b"no"),
        }
    });
    for case in 0..cases(260, 10) {
        pages.lock().unwrap().clear();
        ranged.store(rng.chance(2, 3), std::sync::atomic::Ordering::SeqCst);
        let dirs = Dirs::new();
        let v = *rng.pick(&["1.0", "2.0.post1", "3"]);
        let mut files: Vec<F> = Vec::new();
        let mut listed = Vec::new();
        for k in 0..rng.range(1, 5) {
            let kind = *rng.pick(&[0u8, 0, 0, 1, 2]);
            if kind == 1 && files.iter().any(|f| f.kind == 1) { continue; }
            if kind == 2 && files.iter().any(|f| f.kind == 2) { continue; }
            let good = rng.chance(5, 6);
            let inner = if good { (*rng.pick(&["dd", "DD", "Dd"]), v) } else if rng.chance(1, 2) { ("ee", v) } else { ("dd", *rng.pick(&["1.0.post2", "9", "2.0"])) };
            let says = format!("q{case}x{k}");
            let mut w = match kind { 0 => wheel_says(v, k, inner, &says), 1 => pybi_says(v, inner, &says), _ => WFile { name: format!("dd-{v}.tar.gz"), bytes: b"junk".to_vec(), hash: true, ..Default::default() } };
            w.hash = rng.chance(3, 4);
            let there = rng.chance(7, 8);
            files.push(F { name: w.name.clone(), hash: w.hash, says, kind, good: good && kind != 2, there });
            listed.push(w);
        }
        publish(&pages, "i", "dd", &listed);
        for f in &files { if !f.there { pages.lock().unwrap().remove(&format!("/files/i/{}", f.name)); } }
        let url = format!("{}i/", srv.base());
        let mut desc = format!("{}{:?}", if ranged.load(std::sync::atomic::Ordering::SeqCst) { "ranges " } else { "" }, files.iter().map(|f| format!("{}{}{}{}", f.name, if f.hash { "" } else { " unhashed" }, if f.good { "" } else { " wrong" }, if f.there { "" } else { " missing" })).collect::<Vec<_>>());
        let mut nontrivial = false;
        let out = r.run(&desc.clone(), || -> Result<Vec<(String, bool)>> {
            let mut faults: Vec<(String, bool)> = Vec::new();
            let mut db = dirs.db(&[url.clone()]);
            let p: PackageName = "dd".try_into()?;
            let mut ais: Vec<ArtifactInfo> = db.available_artifacts(&p)?.values().flatten().cloned().collect();
            let find = |u: &str| files.iter().find(|f| u.contains(&format!("/{}", f.name))).unwrap();
            let mut kept: HashSet<String> = HashSet::new();   // metadata at hand
            let mut local: HashSet<String> = HashSet::new();  // file at hand
            for _ in 0..rng.range(2, 7) {
                if rng.chance(1, 3) { db = dirs.db(&[url.clone()]); desc += " restart"; }
                rng.shuffle(&mut ais);
                let n = rng.range(1, ais.len());
                let sub: Vec<&ArtifactInfo> = ais[..n].iter().collect();
                if rng.chance(1, 4) {
                    let f = find(sub[0].url.as_str());
                    desc += &format!(" get({})", f.name);
                    let ok = match f.kind { 0 => db.get_artifact::<Wheel>(sub[0]).is_ok(), 1 => db.get_artifact::<Pybi>(sub[0]).is_ok(), _ => db.get_artifact::<Sdist>(sub[0]).is_ok() };
                    let wrong = match f.kind { 0 => db.get_artifact::<Pybi>(sub[0]).is_ok(), _ => db.get_artifact::<Wheel>(sub[0]).is_ok() };
                    if wrong { faults.push(("kind".into(), false)); }
                    if ok != f.there && !local.contains(&f.name) { faults.push((format!("get {} {ok}", f.name), false)); }
                    if ok && f.hash { local.insert(f.name.clone()); }
                    continue;
                }
                let kind = rng.below(2) as u8;
                srv.take_log();
                let names: Vec<String> = sub.iter().map(|a| find(a.url.as_str()).name.clone()).collect();
                desc += &format!(" ask{kind}{names:?}");
                let got = ask(&db, &sub, kind);
                let reqs = srv.take_log().len();
                let fs: Vec<&F> = sub.iter().map(|a| find(a.url.as_str())).collect();
                // the first at hand decides
                let expect_kept = fs.iter().find(|f| f.hash && kept.contains(&f.name));
                let expect_local = fs.iter().find(|f| f.kind == kind && f.hash && local.contains(&f.name));
                let first = fs.iter().find(|f| f.kind == kind);
                // files without a hash may be at hand in the ordinary cache
                let unsure = fs.iter().any(|f| f.kind == kind && !f.hash);
                match &got {
                    Ok((u, says)) => {
                        let f = find(u);
                        if !names.contains(&f.name) { faults.push((format!("answered for {} not asked about", f.name), false)); }
                        if expect_kept.is_none() && f.kind != kind { faults.push((format!("answered with {}", f.name), false)); }
                        if f.kind == kind && *says != f.says { faults.push((format!("metadata of {} is {says}, not {}", f.name, f.says), false)); }
                        if !f.good { faults.push((format!("{} names something else inside", f.name), false)); }
                        if f.hash { kept.insert(f.name.clone()); }
                    }
                    Err(e) => {
                        // refused for a reason
                        if let Some(k) = expect_kept { if k.kind == kind { faults.push((format!("had {} but: {e}", k.name), false)); } }
                        else if let Some(l) = expect_local { if l.good && !unsure { faults.push((format!("had the file {} but: {e}", l.name), false)); } }
                        else if let Some(f) = first { if !unsure && f.good && f.there { faults.push((format!("{} is there but: {e}", f.name), false)); } }
                    }
                }
                if expect_kept.is_some() || (expect_local.is_some() && !unsure) {
                    nontrivial = true;
                    if reqs > 0 { faults.push((format!("{reqs} requests although it is at hand"), false)); }
                }
                if first.is_none() && reqs > 0 { faults.push((format!("{reqs} requests although no file is of the kind"), false)); }
                // a whole file fetched in place of parts of it may be at hand from now on
                if reqs > 0 { if let Some(f) = first { if f.hash && f.there && !ranged.load(std::sync::atomic::Ordering::SeqCst) { local.insert(f.name.clone()); } } }
            }
            Ok(faults)
        });
        r.case(&desc, nontrivial);
        match out {
            Some(Ok(fs)) => for (f, _) in fs { r.check(false, "metadata", &desc, || f.clone()); },
            Some(Err(e)) => { r.check(false, "error", &desc, || e.to_string()); }
            None => {}
        }
    }
}

#[test]
fn v_d01_cached() {
    let mut r = Report::new("D01", "v_d01_cached",
        "metadata written and read back under the hashes of files, as well as for files without one: what is read is what was first written under that hash. Non-trivial: two files");
    let mut rng = Rng::new("d01c");
    let dirs = Dirs::new();
    let db = dirs.db(&[]);
    let mut have: HashMap<String, Vec<u8>> = HashMap::new();
    let mut pool: Vec<String> = Vec::new();
    for i in 0..cases(1500, 10) {
        if pool.len() < 3 || rng.chance(1, 3) { let h = sha256_hex(format!("d01-{i}").as_bytes()); pool.push(h); }
        let hash = if rng.chance(1, 8) { None } else { Some(rng.pick(&pool).clone()) };
        let name = format!("dd-1.{i}-py3-none-any.whl");
        let input = format!("{name} {hash:?}");
        r.case(&input, have.len() > 1);
        let n = rng.below(5000);
        let blob = rng.bytes(n);
        let got = r.run(&input, || -> Result<(Option<Vec<u8>>, Option<Vec<u8>>)> {
            let ai = ArtifactInfo { name: ArtifactName::try_from(name.as_str())?, url: Url::parse("http://x.example/")?, hash: match &hash { Some(h) => Some(format!("sha256={h}").as_str().try_into()?), None => None }, requires_python: None, dist_info_metadata: Default::default(), yanked: Default::default() };
            let before = db.metadata_from_cache(&ai);
            db.put_metadata_in_cache(&ai, &blob)?;
            Ok((before, db.metadata_from_cache(&ai)))
        });
        match got {
            Some(Ok((b, a))) => {
                let old = hash.as_ref().and_then(|h| have.get(h).cloned());
                r.check(b == old, "before", &input, || "what was in the cache is not what was put there".into());
                let want = hash.as_ref().map(|_| old.unwrap_or(blob.clone()));
                r.check(a == want, "after", &input, || "what is read back is not what was put there".into());
                if let (Some(h), Some(w)) = (hash, want) { have.insert(h, w); }
            }
            Some(Err(e)) => { r.check(false, "error", &input, || e.to_string()); }
            None => {}
        }
    }
}
