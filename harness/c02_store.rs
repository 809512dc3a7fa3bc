//@attach src/kvstore.rs
// C02: the store against a map, with producers that fail
use super::*;
use crate::verif_support::*;
use std::collections::{BTreeMap, BTreeSet};

enum K { B(Vec<u8>), H(ArtifactHash) }
impl PathKey for K {
    fn key(&self) -> PathBuf { match self { K::B(b) => b.as_slice().key(), K::H(h) => h.key() } }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { K::B(b) => write!(f, "{b:?}"), K::H(h) => write!(f, "{h}") } }
}
fn some_keys(rng: &mut Rng) -> Vec<K> {
    let mut res: Vec<K> = Vec::new();
    let mut seen = BTreeSet::new();
    for _ in 0..rng.range(1, 5) {
        let b = match rng.below(3) { 0 => vec![], 1 => vec![rng.below(3) as u8; rng.below(4)], _ => { let n = rng.below(40); rng.bytes(n) } };
        if seen.insert((0, b.clone())) { res.push(K::B(b)); }
    }
    for _ in 0..rng.below(3) {
        let mut raw = vec![rng.below(2) as u8; 32];
        if rng.chance(1, 2) { raw[31] = rng.below(3) as u8; }
        if seen.insert((1, raw.clone())) { res.push(K::H(ArtifactHash { mode: "sha256".into(), raw_data: raw })); }
    }
    res
}
// every regular file and directory below p
fn all(p: &Path) -> Vec<String> {
    let mut res = Vec::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_dir() { todo.push(e.path()); }
            res.push(e.path().strip_prefix(p).unwrap().display().to_string());
        }
    }
    res.sort();
    res
}

#[test]
fn v_c02_files() {
    let mut r = Report::new("C02", "v_c02_files",
        "1-8 keys (byte strings and hashes), 3-14 random operations on a file store (get_or_set with producers that succeed, fail or panic part-way, get, lock/begin/commit, abandoned writes, remove, reopening the store), compared with a map after each. Non-trivial: a producer failed and some value was stored");
    let mut rng = Rng::new("c02");
    for _ in 0..cases(400, 20) {
        let outer = tempfile::tempdir().unwrap();
        let base = outer.path().join("a").join("store");
        let mut store = KVFileStore::new(&base).unwrap();
        let keys = some_keys(&mut rng);
        let mut model: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        let mut desc = format!("keys={keys:?} ops:");
        let (mut failed, mut stored) = (false, false);
        for _ in 0..rng.range(3, 14) {
            let k = rng.below(keys.len());
            let key = &keys[k];
            let val = { let n = match rng.below(4) { 0 => 0, 1 => rng.range(9000, 20000), _ => rng.below(50) }; rng.bytes(n) };
            let op = rng.below(8);
            let cut = rng.below(val.len() + 1);
            desc += &format!(" {}({k},{})", ["set", "set", "setfail", "setpanic", "get", "write", "abandon", "remove"][op], val.len());
            let before = all(&base);
            let d2 = desc.clone();
            let mut called = false;
            let got: Option<Result<Option<Vec<u8>>>> = r.run(&d2, || Ok(match op {
                0 | 1 => Some(slurp(&mut store.get_or_set(key, |w| { called = true; w.write_all(&val[..cut])?; w.flush()?; w.write_all(&val[cut..])?; Ok(()) })?)?),
                2 => { let x = store.get_or_set(key, |w| { called = true; w.write_all(&val[..cut])?; bail!("producer failed") });
                    match x { Ok(mut f) => Some(slurp(&mut f)?), Err(_) => None } }
                3 => { let hook = std::panic::take_hook(); std::panic::set_hook(Box::new(|_| {}));
                    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| store.get_or_set(key, |w| { called = true; w.write_all(&val[..cut])?; panic!("producer panicked") })));
                    std::panic::set_hook(hook);
                    match x { Ok(Ok(mut f)) => Some(slurp(&mut f)?), _ => None } }
                4 => match store.get(key) { Some(mut f) => Some(slurp(&mut f)?), None => None },
                5 => { let l = store.lock(key)?; let mut w = l.begin()?; w.write_all(&val)?; Some(slurp(&mut w.commit()?)?) }
                6 => { let l = store.lock(key)?; let mut w = l.begin()?; w.write_all(&val[..cut])?; drop(w); None }
                _ => { if let Some(l) = store.lock_if_exists(key) { l.remove()?; } None }
            }));
            let had = model.get(&k).cloned();
            let want: Option<Vec<u8>> = match op {
                0 | 1 => { stored = true; model.entry(k).or_insert_with(|| val.clone()); model.get(&k).cloned() }
                2 | 3 => { failed = true; had.clone() }
                4 => had.clone(),
                5 => { stored = true; model.insert(k, val.clone()); Some(val.clone()) }
                6 => None,
                _ => { model.remove(&k); None }
            };
            if op < 4 { r.check(called == had.is_none(), "produced-again", &desc, || format!("producer called: {called}, entry was there: {}", had.is_some())); }
            match got {
                None => break,
                Some(Err(e)) => { r.fail("error", &desc, &format!("{e:#}")); break; }
                Some(Ok(g)) => { r.check(g == want, "value", &desc, || format!("got {:?} bytes, must be {:?}", g.as_ref().map(|x| x.len()), want.as_ref().map(|x| x.len()))); }
            }
            if op == 4 && had.is_none() { r.check(all(&base) == before, "get-creates", &desc, || "asking for an absent entry created something".into()); }
            if rng.chance(1, 6) { store = KVFileStore::new(&base).unwrap(); desc += " reopen"; }
            for (i, q) in keys.iter().enumerate() {
                let v = r.run(&desc, || store.get(q).and_then(|mut f| slurp(&mut f).ok()));
                r.check(v == Some(model.get(&i).cloned()), "entry", &desc, || format!("key {i} holds {:?} bytes, must be {:?}", v.map(|v| v.map(|x| x.len())), model.get(&i).map(|x| x.len())));
            }
            let out = all(outer.path());
            r.check(out.iter().all(|p| p == "a" || p.starts_with("a/store")), "outside", &desc, || format!("{out:?}"));
            let tmps = all(&base.join("tmp"));
            r.check(tmps.is_empty(), "leftover", &desc, || format!("temporary files left: {tmps:?}"));
        }
        r.case(&desc, failed && stored);
    }
}

#[test]
fn v_c02_dirs() {
    let mut r = Report::new("C02", "v_c02_dirs",
        "the same for a directory store: producers that write 0-4 files and then succeed, fail or panic. Non-trivial: a producer failed and some value was stored");
    let mut rng = Rng::new("c02d");
    for _ in 0..cases(250, 20) {
        let outer = tempfile::tempdir().unwrap();
        let base = outer.path().join("a").join("store");
        let store = KVDirStore::new(&base).unwrap();
        let keys = some_keys(&mut rng);
        let mut model: BTreeMap<usize, Vec<(String, Vec<u8>)>> = BTreeMap::new();
        let mut desc = format!("keys={keys:?} ops:");
        let (mut failed, mut stored) = (false, false);
        for _ in 0..rng.range(3, 9) {
            let k = rng.below(keys.len());
            let nf = rng.below(5);
            let files: Vec<(String, Vec<u8>)> = (0..nf).map(|i| (format!("f{i}"), { let n = rng.below(20); rng.bytes(n) })).collect();
            let op = rng.below(5);
            desc += &format!(" {}({k},{})", ["set", "set", "setfail", "setpanic", "setgone"][op], files.len());
            let mut called = false;
            let d2 = desc.clone();
            let got = r.run(&d2, || {
                let hook = std::panic::take_hook(); std::panic::set_hook(Box::new(|_| {}));
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| store.get_or_set(&keys[k], |p| {
                    called = true;
                    for (n, b) in &files { fs::write(p.join(n), b)?; }
                    match op { 0 | 1 => Ok(()), 4 => { fs::remove_dir_all(p)?; Ok(()) } 2 => bail!("producer failed"), _ => panic!("producer panicked") }
                })));
                std::panic::set_hook(hook);
                x.ok().and_then(|x| x.ok())
            });
            let had = model.contains_key(&k);
            r.check(called == !had, "produced-again", &desc, || format!("producer called: {called}, entry was there: {had}"));
            if op < 2 { stored = true; model.entry(k).or_insert(files); } else { failed = true; }
            match got {
                None => break,
                Some(g) => { r.check(g.is_some() == (op < 2 || had), "outcome", &desc, || format!("{g:?}")); }
            }
            for (i, q) in keys.iter().enumerate() {
                let p = base.join(q.key());
                let v = if p.exists() { let mut v: Vec<(String, Vec<u8>)> = all(&p).into_iter().map(|n| { let b = fs::read(p.join(&n)).unwrap(); (n, b) }).collect(); v.sort(); Some(v) } else { None };
                r.check(v == model.get(&i).cloned(), "entry", &desc, || format!("key {i} holds {v:?}"));
                r.check(p.starts_with(&base) && p != base, "outside-key", &desc, || p.display().to_string());
            }
            let out = all(outer.path());
            r.check(out.iter().all(|p| p == "a" || p.starts_with("a/store")), "outside", &desc, || format!("{out:?}"));
            let tmps = all(&base.join("tmp"));
            r.check(tmps.is_empty(), "leftover", &desc, || format!("temporary files left: {tmps:?}"));
        }
        r.case(&desc, failed && stored);
    }
}

#[test]
fn v_c02_keys() {
    let mut r = Report::new("C02", "v_c02_keys",
        "all byte strings of length 0-2 and 20000 random ones, and random hashes from text: the entry paths (and their lock files) are relative, made of plain names, and no path is another's or inside another. Non-trivial: every case");
    let mut rng = Rng::new("c02k");
    let mut keys: Vec<K> = vec![K::B(vec![])];
    for a in 0..=255u8 { keys.push(K::B(vec![a])); for b in 0..=255u8 { keys.push(K::B(vec![a, b])); } }
    let mut seen = BTreeSet::new();
    for _ in 0..cases(20000, 10) {
        let n = rng.range(3, 40);
        let b = rng.bytes(n);
        if seen.insert(b.clone()) { keys.push(K::B(b)); }
    }
    let mut hs = BTreeSet::new();
    for _ in 0..cases(5000, 10) {
        let n = rng.below(70);
        let mode = *rng.pick(&["sha256", "sha256", "md5", "a", "..", "tmp", "", "/"]);
        let hex: String = (0..if rng.chance(1, 2) { 64 } else { n }).map(|_| *rng.pick(&['0', '1', 'f', 'a', '9'])).collect();
        if let Ok(h) = ArtifactHash::from_hex(mode, &hex) { if hs.insert(h.to_string()) { keys.push(K::H(h)); } }
    }
    let mut paths: HashMap<PathBuf, usize> = HashMap::new();
    let mut dirs: HashSet<PathBuf> = HashSet::new();
    for (i, k) in keys.iter().enumerate() {
        let d = format!("{k:?}");
        r.case(&d, true);
        let Some(p) = r.run(&d, || k.key()) else { continue };
        r.check(p.is_relative() && p.components().count() > 0 && p.components().all(|c| matches!(c, std::path::Component::Normal(_))), "path", &d, || p.display().to_string());
        let mut lockp = p.clone();
        lockp.set_file_name(format!("{}.lock", p.file_name().unwrap_or_default().to_string_lossy()));
        for q in [p.clone(), lockp] {
            if let Some(j) = paths.insert(q.clone(), i) { r.fail("shared", &d, &format!("shares {} with {:?}", q.display(), keys[j])); }
        }
        let mut up = p.parent();
        while let Some(u) = up { if u.as_os_str().is_empty() { break; } dirs.insert(u.to_path_buf()); up = u.parent(); }
        r.check(p.components().next().map_or(true, |c| c.as_os_str() != "tmp"), "tmp", &d, || "collides with the temporary directory".into());
    }
    for q in paths.keys() { if dirs.contains(q) { r.fail("nested", &q.display().to_string(), "an entry's path is also a directory that holds others"); } }
}
