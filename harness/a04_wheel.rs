//@attach src/vocab/artifact_formats.rs
// A04: where the members of a wheel land; E01: the scripts made from entry points
use super::*;
use crate::trampolines::{FindPython, ScriptPlatform};
use crate::tree::NiceSymlinkPaths;
use crate::verif_support::*;
use std::collections::BTreeMap;

#[derive(Default)]
struct Rec(Vec<(char, String, Vec<u8>, bool)>);
impl WriteTree for Rec {
    fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> { self.0.push(('d', path.to_string(), vec![], false)); Ok(()) }
    fn write_file(&mut self, path: &NicePathBuf, data: &mut dyn Read, executable: bool) -> Result<()> {
        let mut v = Vec::new(); data.read_to_end(&mut v)?;
        self.0.push(('f', path.to_string(), v, executable)); Ok(())
    }
    fn write_symlink(&mut self, l: &NiceSymlinkPaths) -> Result<()> { self.0.push(('l', l.source.to_string(), vec![], false)); Ok(()) }
}
// a reader that returns at most `step` bytes at a time
struct Slow { c: std::io::Cursor<Vec<u8>>, step: usize }
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.step); self.c.read(&mut b[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.c.seek(p) } }

#[derive(Clone)]
struct M { name: String, data: Vec<u8>, link: bool }
fn zip_of(ms: &[M]) -> Vec<u8> {
    let mut c = std::io::Cursor::new(Vec::new());
    {
        let mut z = zip::ZipWriter::new(&mut c);
        for (i, m) in ms.iter().enumerate() {
            let o = zip::write::FileOptions::default().compression_method(if i % 2 == 0 { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated }).unix_permissions(0o644);
            if m.link { z.add_symlink(m.name.as_str(), std::str::from_utf8(&m.data).unwrap(), o).unwrap(); }
            else if m.name.ends_with('/') { z.add_directory(m.name.as_str(), o).unwrap(); }
            else { z.start_file(m.name.as_str(), o).unwrap(); z.write_all(&m.data).unwrap(); }
        }
        z.finish().unwrap();
    }
    c.into_inner()
}
fn file(name: &str, data: &[u8]) -> M { M { name: name.into(), data: data.to_vec(), link: false } }
fn base(dist: &str, ver: &str, pure_: impl std::fmt::Display) -> Vec<M> {
    vec![
        file(&format!("{dist}-{ver}.dist-info/WHEEL"), format!("Wheel-Version: 1.0\nRoot-Is-Purelib: {pure_}\nTag: py3-none-any\n").as_bytes()),
        file(&format!("{dist}-{ver}.dist-info/METADATA"), b"Metadata-Version: 2.1\nName: Foo_Bar\nVersion: 1.0\n"),
    ]
}
fn paths() -> HashMap<String, NicePathBuf> {
    [("purelib", "lib/pure"), ("platlib", "lib64/plat"), ("scripts", "bin"), ("data", "."), ("include", "inc/x")].into_iter().map(|(k, v)| (k.to_string(), v.try_into().unwrap())).collect()
}
fn base_of(cat: &str) -> Option<&'static str> { match cat { "purelib" => Some("lib/pure"), "platlib" => Some("lib64/plat"), "scripts" => Some("bin"), "data" => Some(""), "include" => Some("inc/x"), _ => None } }
fn join(a: &str, b: &str) -> String { match (a, b) { ("", "") => ".".into(), ("", b) => b.into(), (a, "") => a.into(), (a, b) => format!("{a}/{b}") } }
fn windows_payload(data: &[u8]) -> Option<(u16, Vec<u8>)> {
    // PE subsystem: 2 = windowed, 3 = console
    let pe = u32::from_le_bytes(data.get(0x3c..0x40)?.try_into().ok()?) as usize;
    let sub = u16::from_le_bytes(data.get(pe + 24 + 68..pe + 24 + 70)?.try_into().ok()?);
    let mut z = ZipArchive::new(std::io::Cursor::new(data)).ok()?;
    let mut v = Vec::new();
    z.by_name("__main__.py").ok()?.read_to_end(&mut v).ok()?;
    Some((sub, v))
}
fn check_unix_launcher(data: &[u8], gui: bool, rest: &[u8]) -> bool {
    if !data.starts_with(b"#!/bin/sh\n") || !data.ends_with(rest) { return false }
    let head = String::from_utf8_lossy(&data[..data.len() - rest.len()]).into_owned();
    let var = if gui { "${POSY_PYTHONW}" } else { "${POSY_PYTHON}" };
    head.contains(&format!("exec \"{var}\" \"$0\" \"$@\"")) && head.ends_with("' '''\n") && head.contains("POSY_PYTHONW") == gui
}
struct Want { kind: char, data: Option<Vec<u8>>, exec: bool, script: Option<(bool, Vec<u8>)> }

fn check_wheel(rep: &mut Report, ms: &[M], pure_: bool, data_dir: Option<&str>, plat: ScriptPlatform, step: usize, entries: &[(&str, &str, &str, Option<&str>)]) {
    let desc = format!("purelib={} platform={:?} reads of {} bytes: {:?} entry points {:?}", pure_, plat, step, ms.iter().map(|m| (m.name.as_str(), m.data[..m.data.len().min(24)].escape_ascii().to_string(), m.link)).collect::<Vec<_>>(), entries);
    rep.case(&desc, ms.len() > 3 || !entries.is_empty());
    // expected
    let mut want: Option<Vec<(String, Want)>> = Some(vec![]);
    for m in ms {
        let parts: Vec<&str> = m.name.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
        if m.link { want = None; break }
        let (cat, rest) = if Some(parts[0]) == data_dir {
            if parts.len() == 1 { continue }
            (parts[1], parts[2..].join("/"))
        } else { (if pure_ { "purelib" } else { "platlib" }, parts.join("/")) };
        let b = match base_of(cat) { Some(b) => b, None => { want = None; break } };
        let to = join(b, &rest);
        let w = want.as_mut().unwrap();
        if m.name.ends_with('/') { w.push((to, Want { kind: 'd', data: None, exec: false, script: None })); }
        else if cat == "scripts" && m.data.starts_with(b"#!python") {
            let rest = match m.data.iter().position(|b| *b == b'\n') { Some(i) => m.data[i + 1..].to_vec(), None => vec![] };
            w.push((to, Want { kind: 'f', data: None, exec: true, script: Some((m.data.starts_with(b"#!pythonw"), rest)) }));
        } else { w.push((to, Want { kind: 'f', data: Some(m.data.clone()), exec: cat == "scripts", script: None })); }
    }
    if let Some(w) = want.as_mut() {
        w.push((join(if pure_ { "lib/pure" } else { "lib64/plat" }, &format!("{}/INSTALLER", ms[0].name.split('/').next().unwrap())), Want { kind: 'f', data: Some(b"posy\n".to_vec()), exec: false, script: None }));
    }
    let name: WheelName = "foo.bar-1.0-py3-none-any.whl".try_into().unwrap();
    let mut rec = Rec::default();
    let bytes = zip_of(ms);
    let r = match rep.run(&desc, || -> Result<()> {
        let w = Wheel::new(name, Box::new(Slow { c: std::io::Cursor::new(bytes), step }))?;
        w.unpack(&paths(), &TrampolineMaker::new(FindPython::FromEnv, plat), &mut rec)
    }) { Some(r) => r, None => return };
    let want = match (want, r) {
        (None, Err(_)) => return,
        (None, Ok(())) => { rep.fail("accepted", &desc, "installed although it has a symlink or an unknown category"); return }
        (Some(_), Err(e)) => { rep.fail("refused", &desc, &format!("failed: {:#}", e)); return }
        (Some(w), Ok(())) => w,
    };
    // flatten to one expectation per written path
    let mut exp: Vec<(String, char, bool, Box<dyn Fn(&[u8]) -> bool>)> = Vec::new();
    let unix = plat != ScriptPlatform::Windows; let win = plat != ScriptPlatform::Unix;
    for (to, w) in want {
        if let Some((gui, rest)) = w.script {
            let r2 = rest.clone();
            if unix { exp.push((to.clone(), 'f', true, Box::new(move |d| check_unix_launcher(d, gui, &rest)))); }
            if win { exp.push((format!("{to}.exe"), 'f', true, Box::new(move |d| windows_payload(d) == Some((if gui { 2 } else { 3 }, r2.clone()))))); }
        } else { let data = w.data.unwrap_or_default(); exp.push((to, w.kind, w.exec, Box::new(move |d| d == data))); }
    }
    for (kind, n, m, o) in entries {
        let gui = *kind == "gui_scripts";
        if *kind != "console_scripts" && !gui { continue }
        let (m, o) = (m.to_string(), o.map(|o| o.to_string()));
        let good = move |body: &[u8]| {
            let t = String::from_utf8_lossy(body).into_owned();
            let call = match &o { Some(o) => format!("{m}.{o}()"), None => format!("{m}()") };
            t.lines().any(|l| l == format!("import {m}")) && t.lines().any(|l| l.trim() == format!("sys.exit({call})")) && t.lines().any(|l| l == "import sys") && !t.starts_with("#!python")
        };
        let g2 = good.clone();
        if unix { exp.push((format!("bin/{n}"), 'f', true, Box::new(move |d| { let i = d.windows(6).position(|w| w == b"' '''\n").map(|i| i + 6); match i { Some(i) => check_unix_launcher(d, gui, &d[i..]) && good(&d[i..]), None => false } }))); }
        if win { exp.push((format!("bin/{n}.exe"), 'f', true, Box::new(move |d| match windows_payload(d) { Some((s, b)) => s == (if gui { 2 } else { 3 }) && g2(&b), None => false }))); }
    }
    let mut got: BTreeMap<String, Vec<&(char, String, Vec<u8>, bool)>> = BTreeMap::new();
    for g in &rec.0 { got.entry(g.1.clone()).or_default().push(g); }
    for (to, kind, exec, pred) in &exp {
        let c = got.get_mut(to);
        let hit = c.and_then(|v| v.iter().position(|g| g.0 == *kind && (*kind == 'd' || (g.3 == *exec && pred(&g.2)))).map(|i| v.remove(i)));
        if hit.is_none() {
            let near: Vec<String> = rec.0.iter().map(|g| format!("{} {} exec={} {}", g.0, g.1, g.3, g.2[..g.2.len().min(300)].escape_ascii())).collect();
            rep.fail("missing", &desc, &format!("nothing matching was written to {} (kind {}, executable {}); writes: {:?}", to, kind, exec, near));
            return;
        }
    }
    let left: Vec<&str> = got.values().flatten().map(|g| g.1.as_str()).collect();
    rep.check(left.is_empty(), "extra", &desc, || format!("also written: {:?}", left));
}

#[test]
fn v_a04_unpack() {
    let mut rep = Report::new("A04", "v_a04_unpack", "random wheels (all categories, both library kinds, scripts with and without #!python lines of every length, symlinks, unknown categories), read 1 byte to 64 KB at a time, launchers for both platforms; non-trivial: more than the two mandatory members");
    let mut rng = Rng::new("a04");
    let scripts: &[&[u8]] = &[b"#!python\nprint(1)\n", b"#!pythonw\nx", b"#!python -E\r\ny\n", b"#!python", b"#!pythonw", b"#!python3\nz", b"#!/usr/bin/python\nq", b"#!pytho", b"", b"\x7fELF\x00\x01", b"#!Python\n", b" #!python\n", b"#!python\n\xff\xfe", b"#!python\n\n\n", b"MZ#!python\n"];
    for i in 0..cases(1500, 20) {
        let pure_ = rng.chance(1, 2);
        let dist = *rng.pick(&["foo_bar", "Foo.Bar", "foo-bar"]);
        let ver = *rng.pick(&["1.0", "1.0.0", "1"]);
        let ddist = *rng.pick(&["foo_bar", "FOO_bar"]);
        let ddir = format!("{ddist}-{ver}.data");
        let mut ms = base(dist, ver, pure_);
        let n = rng.below(6);
        let mut has_data = false;
        for k in 0..n {
            let nm = format!("{}f{}", rng.pick(&["", "pkg/", "a/b/", "foo_bar-1.0/"]), k);
            match rng.below(9) {
                8 => { let other = [ddir.to_uppercase(), format!("{ddir}x"), ddir.replace(".data", ".DATA"), format!("x{ddir}y")]; let other = rng.pick(&other).clone(); if other != ddir { ms.push(file(&format!("{other}/{}/{}", rng.pick(&["purelib", "scripts", "x"]), nm), *rng.pick(scripts))) } }
                0 | 1 => ms.push(file(&nm, &rng.bytes(20))),
                2 => { let s = *rng.pick(scripts); ms.push(file(&nm, s)) }
                3 if i % 10 == 0 => ms.push(M { name: nm, data: b"x".to_vec(), link: true }),
                4 if i % 10 == 1 => { ms.push(file(&format!("{ddir}/{}/{}", rng.pick(&["bogus", "headers", "Scripts", "purelib2"]), nm), b"x")); has_data = true }
                5 if rng.chance(1, 3) => { ms.push(file(&format!("{ddir}/{}", rng.pick(&["", "scripts/", "purelib/sub/"])), b"")); has_data = true }
                6 => { ms.push(file(&format!("{ddir}/scripts/{}", nm), *rng.pick(scripts))); has_data = true }
                _ => { ms.push(file(&format!("{ddir}/{}/{}", rng.pick(&["purelib", "platlib", "data", "include", "scripts"]), nm), *rng.pick(scripts))); has_data = true }
            }
        }
        let plat = *rng.pick(&[ScriptPlatform::Unix, ScriptPlatform::Unix, ScriptPlatform::Windows, ScriptPlatform::Both]);
        let step = *rng.pick(&[1usize, 3, 7, 100, 65536]);
        check_wheel(&mut rep, &ms, pure_, if has_data { Some(&ddir) } else { None }, plat, step, &[]);
    }
}

#[test]
fn v_a04_root() {
    let mut rep = Report::new("A04", "v_a04_root", "wheels whose WHEEL file gives a Root-Is-Purelib other than true and false, a Wheel-Version other than 1.x, or either of them twice or not at all; must be refused");
    let good = "Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n";
    let mut texts: Vec<String> = ["True", "TRUE", "yes", "1", "", "truee", "False", "no", "0", "true false"].iter().map(|v| good.replace("true", v)).collect();
    for v in ["2.0", "0.9", "11.0", "1", "", "x1.0", "2", "1x.0"] { if v != "1" { texts.push(good.replace("1.0", v)); } }
    texts.push(good.replace("Wheel-Version: 1.0\n", ""));
    texts.push(good.replace("Root-Is-Purelib: true\n", ""));
    texts.push(format!("Root-Is-Purelib: true\n{good}"));
    texts.push(format!("Wheel-Version: 1.0\n{good}"));
    for t in texts {
        rep.case(&t, true);
        let mut ms = base("foo_bar", "1.0", true);
        ms[0].data = t.clone().into_bytes();
        let bytes = zip_of(&ms);
        let got = rep.run(&t, || -> Result<usize> {
            let mut rec = Rec::default();
            let name: WheelName = "foo.bar-1.0-py3-none-any.whl".try_into().unwrap();
            let w = Wheel::new(name, Box::new(std::io::Cursor::new(bytes)))?;
            w.unpack(&paths(), &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix), &mut rec)?;
            Ok(rec.0.len())
        });
        if let Some(g) = got { rep.check(g.is_err(), "accepted", &t, || "installed".into()); }
    }
}

#[test]
fn v_e01_scripts() {
    let mut rep = Report::new("E01", "v_e01_scripts", "wheels with random console, windowed and other entry points installed for every platform choice: which launchers appear, of which kind, importing and calling what; every case is non-trivial");
    let mut rng = Rng::new("e01s");
    for _ in 0..cases(400, 20) {
        let mut ms = base("foo_bar", "1.0", true);
        let mut es: Vec<(&str, String, &str, Option<&str>)> = Vec::new();
        for k in 0..rng.below(5) { es.push((*rng.pick(&["console_scripts", "gui_scripts", "other"]), format!("{}{}", rng.pick(&["c", "run-", "x.y", "w"]), k), *rng.pick(&["m", "pkg.mod", "_a"]), *rng.pick(&[Some("o"), Some("main"), Some("Cls.run"), None]))); }
        let mut t = String::new();
        for e in &es { t.push_str(&format!("[{}]\n{} = {}{}\n", e.0, e.1, e.2, e.3.map_or(String::new(), |o| format!(":{o}")))); }
        ms.push(file("foo_bar-1.0.dist-info/entry_points.txt", t.as_bytes()));
        let es2: Vec<(&str, &str, &str, Option<&str>)> = es.iter().map(|e| (e.0, e.1.as_str(), e.2, e.3)).collect();
        let plat = *rng.pick(&[ScriptPlatform::Unix, ScriptPlatform::Windows, ScriptPlatform::Both]);
        check_wheel(&mut rep, &ms, true, None, plat, 65536, &es2);
    }
}

#[test]
fn v_a01_script_names() {
    let mut rep = Report::new("A01", "v_a01_script_names", "entry points whose script name tries to leave the scripts directory; every case is non-trivial");
    for n in ["../purelib/x", "../x", "../../x", "../../../x", "/x", "a/../../x", "..", "../data/y", "sub/ok", "./ok"] {
        let mut ms = base("foo_bar", "1.0", true);
        ms.push(file("foo_bar-1.0.dist-info/entry_points.txt", format!("[console_scripts]\n{n} = m:o\n").as_bytes()));
        rep.case(n, true);
        let mut rec = Rec::default();
        let bytes = zip_of(&ms);
        let r = rep.run(n, || Wheel::new("foo.bar-1.0-py3-none-any.whl".try_into().unwrap(), Box::new(std::io::Cursor::new(bytes))).and_then(|w| w.unpack(&paths(), &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix), &mut rec)));
        let bad: Vec<&String> = rec.0.iter().map(|g| &g.1).filter(|p| !p.starts_with("bin/") && !p.starts_with("lib/pure/foo_bar-1.0.dist-info/")).collect();
        rep.check(bad.is_empty(), "escape", n, || format!("wrote {:?}", bad));
        if let Some(r) = r { if n.ends_with("ok") { rep.check(r.is_ok(), "refused", n, || format!("{:#}", r.unwrap_err())); } }
    }
}

#[test]
fn v_a04_special_dir() {
    let mut rep = Report::new("A04", "v_a04_special_dir", "random lists of top-level names against one name, version and suffix; non-trivial: at least one name has the suffix");
    let mut rng = Rng::new("a04d");
    let norm = |s: &str| { let mut o = String::new(); let mut sep = false; for c in s.chars() { if "-_.".contains(c) { if !sep { o.push('-') } sep = true } else { o.push(c.to_ascii_lowercase()); sep = false } } o };
    for _ in 0..cases(20000, 10) {
        let name = *rng.pick(&["foo", "foo-bar", "Foo_Bar"]);
        let ver = *rng.pick(&["1.0", "2", "1.0a1", "1.0+x.1"]);
        let suffix = *rng.pick(&[".dist-info", ".data"]);
        let n = rng.below(4);
        let items: Vec<String> = (0..n).map(|_| match rng.below(4) { 0 => rng.pick(&["foo", "bar.py", "x.dist-infos", "dist-info", "data"]).to_string(), _ => format!("{}-{}{}", rng.pick(&["foo", "foo_bar", "foo-bar", "FOO", "fo"]), rng.pick(&["1.0", "1", "2.0", "1.0a1", "1.0.a1", "1.0+x-1", "zz"]), rng.pick(&[".dist-info", ".data", ".egg-info"])) }).collect();
        let d = format!("{:?} for {} {} {}", items, name, ver, suffix);
        let cand: Vec<&String> = items.iter().filter(|i| i.ends_with(suffix)).collect();
        rep.case(&d, !cand.is_empty());
        let pn: PackageName = name.try_into().unwrap(); let v: Version = ver.try_into().unwrap();
        let want: std::result::Result<Option<&String>, ()> = match cand.len() {
            0 => Ok(None),
            1 => { let c = &cand[0][..cand[0].len() - suffix.len()]; match c.rsplit_once('-') { Some((n2, v2)) if norm(n2) == norm(name) && Version::try_from(v2).map_or(false, |x| x == v) => Ok(Some(cand[0])), _ => Err(()) } }
            _ => Err(()),
        };
        let got = match rep.run(&d, || Wheel::find_special_wheel_dir(items.iter(), &pn, &v, suffix)) { Some(g) => g, None => continue };
        match (want, got) { (Err(()), Err(_)) => {} (Ok(w), Ok(g)) if w == g => {} (w, g) => rep.fail("dir", &d, &format!("got {:?}, expected {:?}", g.map_err(|e| e.to_string()), w)) }
    }
}
