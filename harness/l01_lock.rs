//@attach src/kvstore.rs
// L01: several processes, and several threads, at one store at once
use super::*;
use crate::verif_support::*;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// what a value looks like: many blocks, all with the same tag, then an end mark
const BLOCKS: usize = 40;
fn value(tag: &str) -> Vec<u8> { let mut v = Vec::new(); for i in 0..BLOCKS { v.extend_from_slice(format!("{tag} {i}\n").as_bytes()); } v.extend_from_slice(b"end\n"); v }
fn whole(v: &[u8]) -> Option<String> {
    let t = std::str::from_utf8(v).ok()?;
    let tag = t.split(' ').next()?.to_string();
    if v == value(&tag).as_slice() { Some(tag) } else { None }
}
fn note(log: &Path, text: &str) {
    let mut f = fs::OpenOptions::new().append(true).create(true).open(log).unwrap();
    f.write_all(format!("{text}\n").as_bytes()).unwrap();
}
fn key(k: usize) -> Vec<u8> { vec![k as u8; 3] }
// one worker: random operations, each noted with what was seen
fn work(dir: &Path, who: &str, seed: u64, ops: usize) {
    let log = dir.join("log");
    let files = KVFileStore::new(&dir.join("files")).unwrap();
    let dirs = KVDirStore::new(&dir.join("dirs")).unwrap();
    let mut rng = Rng::new(&format!("l01 {who} {seed}"));
    for n in 0..ops {
        let k = rng.below(2);
        let tag = format!("{who}.{n}");
        let slow = Duration::from_millis(rng.range(1, 25) as u64);
        let fails = rng.chance(1, 6);
        match rng.below(6) {
            0 | 1 => {
                let r = files.get_or_set(&key(k).as_slice(), |w| {
                    note(&log, &format!("start f{k} {tag}"));
                    let v = value(&tag);
                    let h = v.len() / 2;
                    w.write_all(&v[..h])?;
                    w.flush()?;
                    std::thread::sleep(slow);
                    let res = if fails { Err(eyre!("no")) } else { w.write_all(&v[h..]).map_err(|e| e.into()) };
                    note(&log, &format!("stop f{k} {tag} {}", if fails { "fail" } else { "ok" }));
                    res
                });
                match r {
                    Ok(mut f) => { std::thread::sleep(slow / 2); let v = slurp(&mut f).unwrap(); note(&log, &match whole(&v) { Some(t) => format!("saw f{k} {t}"), None => format!("partial f{k} {:?}", String::from_utf8_lossy(&v[..v.len().min(60)])) }) }
                    Err(e) => note(&log, &format!("error f{k} {e:#}")),
                }
            }
            2 => if let Some(mut f) = files.get(&key(k).as_slice()) {
                std::thread::sleep(slow / 4);
                let v = slurp(&mut f).unwrap();
                note(&log, &match whole(&v) { Some(t) => format!("saw f{k} {t}"), None => format!("partial f{k} {:?}", String::from_utf8_lossy(&v[..v.len().min(60)])) });
            }
            3 => if let Some(l) = files.lock_if_exists(&key(k).as_slice()) {
                // under the lock: nobody else is here
                note(&log, &format!("start f{k} {tag}"));
                std::thread::sleep(slow / 2);
                note(&log, &format!("stop f{k} {tag} gone"));
                l.remove().unwrap();
            }
            _ => {
                let k = rng.below(3);
                let r = dirs.get_or_set(&key(k).as_slice(), |d| {
                    note(&log, &format!("start d{k} {tag}"));
                    for i in 0..6 { fs::write(d.join(format!("{i}")), value(&tag))?; std::thread::sleep(slow / 4); }
                    note(&log, &format!("stop d{k} {tag} {}", if fails { "fail" } else { "ok" }));
                    if fails { bail!("no") }
                    Ok(())
                });
                match r {
                    Ok(p) => {
                        let tags: Vec<Option<String>> = (0..6).map(|i| fs::read(p.join(format!("{i}"))).ok().and_then(|v| whole(&v))).collect();
                        note(&log, &match &tags[0] { Some(t) if tags.iter().all(|x| x.as_ref() == Some(t)) => format!("saw d{k} {t}"), _ => format!("partial d{k} {tags:?}") });
                    }
                    Err(e) => note(&log, &format!("error d{k} {e:#}")),
                }
            }
        }
    }
}
// run in other processes, by v_l01_processes
#[test]
fn l01_child() {
    let (Ok(dir), Ok(who), Ok(seed)) = (std::env::var("L01_DIR"), std::env::var("L01_WHO"), std::env::var("L01_CASE")) else { return };
    if who == "doomed" {
        // stops for good half-way through producing
        let dir = Path::new(&dir);
        let k = key(0);
        let stop = || -> ! { fs::write(dir.join("ready"), b"").unwrap(); loop { std::thread::sleep(Duration::from_secs(1)) } };
        if seed == "file" { let _ = KVFileStore::new(&dir.join("files")).unwrap().get_or_set(&k.as_slice(), |w| { w.write_all(b"half")?; w.flush()?; stop() }); }
        else { let _ = KVDirStore::new(&dir.join("dirs")).unwrap().get_or_set(&k.as_slice(), |d| { fs::write(d.join("0"), b"half")?; stop() }); }
        return;
    }
    work(Path::new(&dir), &who, seed.parse().unwrap(), 14);
}
fn child(dir: &Path, who: &str, case: &str) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap()).args(["--exact", "--nocapture", "--test-threads", "1", "kvstore::verif_l01_lock::l01_child"])
        .env("L01_DIR", dir).env("L01_WHO", who).env("L01_CASE", case).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap()
}
// the log, judged: producers of one key never overlap; what is there is not produced again; all seen is whole
fn judge(r: &mut Report, d: &str, log: &Path) -> bool {
    let t = fs::read_to_string(log).unwrap_or_default();
    let mut busy: BTreeMap<String, String> = BTreeMap::new();
    let mut made: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut there: BTreeMap<String, bool> = BTreeMap::new();
    let mut several = 0;
    for l in t.lines() {
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        let (k, tag) = (w[1].to_string(), w[2].to_string());
        match w[0] {
            "start" => {
                if let Some(o) = busy.insert(k.clone(), tag.clone()) { r.fail("two-at-once", d, &format!("{tag} works on {k} while {o} does")); }
            }
            "stop" => {
                busy.remove(&k);
                match w[3] {
                    "ok" => { several += 1; if there.insert(k.clone(), true) == Some(true) { r.fail("made-again", d, &format!("{tag} made {k}, which was there")); } made.entry(k).or_default().push(tag) }
                    "gone" => { there.insert(k, false); }
                    _ => {}
                }
            }
            "saw" => { r.check(made.get(&k).map(|m| m.contains(&tag)).unwrap_or(false), "unmade", d, || format!("{k} held {tag}, which nobody finished: {l}")); }
            "partial" => r.fail("partial", d, l),
            _ => { r.check(l.ends_with(" no"), "error", d, || l.to_string()); }
        }
    }
    several > 1
}
#[test]
fn v_l01_processes() {
    let mut r = Report::new("L01", "v_l01_processes", "4 processes with 14 random operations each on one file store and one directory store (producers that take their time or fail, reads, removals under the lock), every start, end and value seen noted; non-trivial: several values were made");
    for c in 0..cases(3, 8) {
        let tmp = tempfile::tempdir().unwrap();
        let d = format!("processes, case {c}");
        let seed = c as u64;
        let mut kids: Vec<_> = (0..4).map(|i| child(tmp.path(), &format!("p{i}"), &seed.to_string())).collect();
        let t0 = Instant::now();
        for k in kids.iter_mut() {
            let ok = loop { if let Some(s) = k.try_wait().unwrap() { break Some(s.success()); } if t0.elapsed() > Duration::from_secs(45) { k.kill().ok(); k.wait().ok(); break None; } std::thread::sleep(Duration::from_millis(5)); };
            r.check(ok == Some(true), "stuck", &d, || format!("a process {}", if ok.is_none() { "does not end" } else { "failed" }));
        }
        let many = judge(&mut r, &d, &tmp.path().join("log"));
        r.case(&d, many);
    }
}
#[test]
fn v_l01_threads() {
    let mut r = Report::new("L01", "v_l01_threads", "6 threads with 12 random operations each on one file store and one directory store, as for processes; non-trivial: several values were made");
    for c in 0..cases(6, 8) {
        let tmp = tempfile::tempdir().unwrap();
        let d = format!("threads, case {c}");
        let hs: Vec<_> = (0..6).map(|i| { let p = tmp.path().to_path_buf(); std::thread::spawn(move || work(&p, &format!("t{i}"), c as u64, 12)) }).collect();
        let ok = r.run(&d, || hs.into_iter().all(|h| h.join().is_ok()));
        r.check(ok == Some(true), "stuck", &d, || "a thread failed".into());
        let many = judge(&mut r, &d, &tmp.path().join("log"));
        r.case(&d, many);
    }
}
#[test]
fn v_l01_killed() {
    let mut r = Report::new("L01", "v_l01_killed", "a process is killed half-way through producing an entry, then another asks for it; non-trivial: all");
    for kind in ["file", "dir"] {
        let tmp = tempfile::tempdir().unwrap();
        let dir = tmp.path();
        let d = format!("killed while making a {kind}");
        let mut k = child(dir, "doomed", kind);
        let t0 = Instant::now();
        while !dir.join("ready").exists() && t0.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(5)); }
        // nothing to be seen while it is being made, and nobody else may make it
        let (tx, rx) = std::sync::mpsc::channel();
        let (p, kd) = (dir.to_path_buf(), kind.to_string());
        std::thread::spawn(move || {
            let v = if kd == "file" { KVFileStore::new(&p.join("files")).unwrap().get_or_set(&key(0).as_slice(), |w| Ok(w.write_all(b"all of it")?)).ok().and_then(|mut f| slurp(&mut f).ok()) }
                else { KVDirStore::new(&p.join("dirs")).unwrap().get_or_set(&key(0).as_slice(), |d| Ok(fs::write(d.join("0"), b"all of it")?)).ok().and_then(|p| fs::read(p.join("0")).ok()) };
            tx.send(v).ok();
        });
        let early = rx.recv_timeout(Duration::from_millis(300)).ok();
        r.check(early.is_none(), "not-waited", &d, || format!("another got {early:?} while the entry was being made"));
        k.kill().unwrap();
        k.wait().unwrap();
        let v = if early.is_some() { early.flatten() } else { r.run(&d, || rx.recv_timeout(Duration::from_secs(20)).ok().flatten()).flatten() };
        r.check(v.as_deref() == Some(b"all of it".as_slice()), "after", &d, || format!("the next one got {:?}", v.map(|v| String::from_utf8_lossy(&v).into_owned())));
        r.case(&d, true);
    }
}
