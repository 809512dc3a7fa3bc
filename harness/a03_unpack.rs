//@attach src/tree.rs
// A03: what unpacking an archive does to the destination tree
use super::*;
use crate::verif_support::*;
use std::collections::BTreeMap;
use std::io::Cursor;

#[derive(Clone, PartialEq, Eq, Debug)]
enum Op { Dir(String), File(String, Vec<u8>, bool), Link(String, String) }
#[derive(Default)]
struct Rec(Vec<Op>);
impl WriteTree for Rec {
    fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> { self.0.push(Op::Dir(path.to_string())); Ok(()) }
    fn write_file(&mut self, path: &NicePathBuf, data: &mut dyn Read, executable: bool) -> Result<()> {
        let mut v = Vec::new(); data.read_to_end(&mut v)?;
        self.0.push(Op::File(path.to_string(), v, executable)); Ok(())
    }
    fn write_symlink(&mut self, l: &NiceSymlinkPaths) -> Result<()> { self.0.push(Op::Link(l.source.to_string(), l.target.clone())); Ok(()) }
}

// ---- oracle, from the property text
fn piece_ok(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| (c as u32) >= 0x20 && c as u32 != 0x7f && !r#"<>:"/\|?*"#.contains(c)) && !s.ends_with('.') && !s.ends_with(' ') }
fn place(dir: &[String], p: &str) -> Option<Vec<String>> {
    if p.starts_with('/') { return None }
    let mut cur = dir.to_vec();
    for c in p.split('/') { match c { "" | "." => {} ".." => { cur.pop()?; } _ => { if !piece_ok(c) { return None } cur.push(c.to_string()) } } }
    Some(cur)
}
fn text(p: &[String]) -> String { if p.is_empty() { ".".into() } else { p.join("/") } }

#[derive(Clone, Debug)]
struct ZEnt { name: String, mode: Option<u32>, data: Vec<u8> }

fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } } } !c }
fn zip_bytes(es: &[ZEnt]) -> Vec<u8> {
    let (mut out, mut cd) = (Vec::new(), Vec::new());
    for e in es {
        let off = out.len() as u32;
        let c = crc(&e.data); let n = e.data.len() as u32;
        let common = |v: &mut Vec<u8>| { v.extend_from_slice(&20u16.to_le_bytes()); v.extend_from_slice(&0x0800u16.to_le_bytes()); v.extend_from_slice(&0u16.to_le_bytes()); v.extend_from_slice(&0u16.to_le_bytes()); v.extend_from_slice(&0x21u16.to_le_bytes());
            v.extend_from_slice(&c.to_le_bytes()); v.extend_from_slice(&n.to_le_bytes()); v.extend_from_slice(&n.to_le_bytes()); v.extend_from_slice(&(e.name.len() as u16).to_le_bytes()); v.extend_from_slice(&0u16.to_le_bytes()); };
        out.extend_from_slice(b"PK\x03\x04"); common(&mut out); out.extend_from_slice(e.name.as_bytes()); out.extend_from_slice(&e.data);
        cd.extend_from_slice(b"PK\x01\x02"); cd.extend_from_slice(&[20, 3]); common(&mut cd);
        cd.extend_from_slice(&[0; 6]); cd.extend_from_slice(&(e.mode.unwrap_or(0) << 16).to_le_bytes()); cd.extend_from_slice(&off.to_le_bytes()); cd.extend_from_slice(e.name.as_bytes());
    }
    let o = out.len() as u32; let n = es.len() as u16;
    out.extend_from_slice(&cd);
    out.extend_from_slice(b"PK\x05\x06\0\0\0\0"); out.extend_from_slice(&n.to_le_bytes()); out.extend_from_slice(&n.to_le_bytes());
    out.extend_from_slice(&(cd.len() as u32).to_le_bytes()); out.extend_from_slice(&o.to_le_bytes()); out.extend_from_slice(&[0, 0]);
    out
}
// expected (directories and files in archive order, links)
fn expect_zip(es: &[ZEnt]) -> Option<(Vec<Op>, Vec<(usize, Op)>)> {
    let (mut ops, mut links) = (Vec::new(), Vec::new());
    for e in es {
        let p = place(&[], &e.name)?;
        if e.mode.map_or(false, |m| m & 0xf000 == 0xa000) {
            if p.is_empty() { return None }
            let t = std::str::from_utf8(&e.data).ok()?;
            let dir = &p[..p.len() - 1];
            let w = place(dir, t)?;
            links.push((p.len(), Op::Link(text(&p), text(&w))));
        } else if e.name.ends_with('/') { ops.push(Op::Dir(text(&p))) }
        else { ops.push(Op::File(text(&p), e.data.clone(), e.mode.map_or(false, |m| m & 0o111 != 0))) }
    }
    Some((ops, links))
}
fn check_zip(rep: &mut Report, es: &[ZEnt]) {
    let d = format!("zip {:?}", es.iter().map(|e| (e.name.as_str(), e.mode.map(|m| format!("{:o}", m)), if e.mode.map_or(false, |m| m & 0xf000 == 0xa000) { e.data.escape_ascii().to_string() } else { format!("{} bytes", e.data.len()) })).collect::<Vec<_>>());
    rep.case(&d, es.len() > 1);
    let bytes = zip_bytes(es);
    let mut rec = Rec::default();
    let r = match rep.run(&d, || -> std::result::Result<(), String> { let mut z = ZipArchive::new(Cursor::new(bytes)).map_err(|e| format!("HARNESS {e}"))?; unpack_zip_carefully(&mut z, &mut rec).map_err(|e| format!("{e:#}")) }) { Some(r) => r, None => return };
    match (expect_zip(es), r) {
        (None, Err(_)) => {}
        (None, Ok(())) => rep.fail("accepted", &d, "unpacking succeeded although a member is unsafe"),
        (Some(_), Err(e)) => rep.fail("refused", &d, &format!("failed: {}", e)),
        (Some((ops, links)), Ok(())) => {
            let n = ops.len();
            rep.check(rec.0.len() == n + links.len() && rec.0[..n] == ops[..], "members", &d, || format!("files and directories: {:?} expected {:?}", rec.0, ops));
            let tail: Vec<Op> = rec.0.iter().skip(n).cloned().collect();
            // resolve the links that were made
            let mut depth = usize::MAX; let mut rest = links.clone(); let mut good = true;
            for op in &tail {
                match op {
                    Op::Link(s, t) => {
                        let sp: Vec<String> = s.split('/').map(|x| x.to_string()).collect();
                        if sp.len() > depth { good = false; }
                        depth = sp.len();
                        let w = place(&sp[..sp.len() - 1], t).map(|w| text(&w));
                        match rest.iter().position(|(_, o)| matches!(o, Op::Link(s2, w2) if s2 == s && Some(w2) == w.as_ref())) { Some(i) => { rest.remove(i); } None => good = false }
                    }
                    _ => good = false,
                }
            }
            rep.check(good && rest.is_empty(), "links", &d, || format!("after the files: {:?}; expected deepest first: {:?}", tail, links));
        }
    }
}
const NAMES: &[&str] = &["a", "b", "a/b", "a/b/c", "d/e", "d/e/f/g", "./x", "y//z", "m/../n", "p/./q", "caf\u{e9}/r"];
const BAD: &[&str] = &["../a", "/a", "a/../../b", "a\\b", "c:x", "a.", "a/b ", "x/\u{1}", "..", "a/..../b"];
const TARGETS: &[&str] = &["a", "b", "../x", "../../x", "..", ".", "a/../b", "./c", "../../../x", "/etc/passwd", "a/../../b", "x\\y", "", "d/e/../../.."];
fn zent(rng: &mut Rng, bad: bool) -> ZEnt {
    let mut name = if bad && rng.chance(1, 2) { rng.pick(BAD).to_string() } else { rng.pick(NAMES).to_string() };
    match rng.below(10) {
        0..=2 => ZEnt { name, mode: Some(0o120777), data: (if bad { *rng.pick(TARGETS) } else { *rng.pick(&["a", "a/../b", "./c", "zz", "."]) }).as_bytes().to_vec() },
        3 => { name.push('/'); ZEnt { name, mode: *rng.pick(&[Some(0o40755), None, Some(0o40700)]), data: vec![] } }
        _ => { let n = *rng.pick(&[0usize, 1, 5, 300]); ZEnt { name, mode: *rng.pick(&[None, Some(0o100644), Some(0o100755), Some(0o100001), Some(0o100010), Some(0o100100), Some(0o100666), Some(0o644), Some(0o755)]), data: rng.bytes(n) } }
    }
}

#[test]
fn v_a03_zip() {
    let mut rep = Report::new("A03", "v_a03_zip", "random hand-made zip files of up to 7 members (files, directories, symlinks, unsafe names and targets, all mode shapes), unpacked into a recording tree; non-trivial: more than one member");
    let mut rng = Rng::new("a03z");
    for n in NAMES.iter().chain(BAD) { check_zip(&mut rep, &[ZEnt { name: n.to_string(), mode: Some(0o100755), data: b"x".to_vec() }]); check_zip(&mut rep, &[ZEnt { name: format!("{}/", n), mode: None, data: vec![] }]);
        for t in TARGETS { check_zip(&mut rep, &[ZEnt { name: n.to_string(), mode: Some(0o120777), data: t.as_bytes().to_vec() }]); } }
    for m in 0..16u32 { for x in [0, 0o111u32, 0o644, 0o4755, 0o2644] { check_zip(&mut rep, &[ZEnt { name: "a/b".into(), mode: Some((m << 12) | x), data: b"../c".to_vec() }]); } }
    for i in 0..cases(15000, 20) { let n = rng.below(8); let bad = i % 4 == 0; let es: Vec<ZEnt> = (0..n).map(|_| zent(&mut rng, bad)).collect(); check_zip(&mut rep, &es); }
}

#[derive(Clone, Debug)]
struct TEnt { name: Vec<u8>, kind: u8, mode: u32, data: Vec<u8> }
fn tar_gz(es: &[TEnt]) -> Vec<u8> {
    let mut raw = Vec::new();
    for e in es {
        let mut add = |name: &[u8], kind: u8, mode: u32, data: &[u8]| {
            let mut h = tar::Header::new_gnu();
            let n = name.len().min(100);
            h.as_old_mut().name[..n].copy_from_slice(&name[..n]);
            h.set_mode(mode); h.set_size(data.len() as u64); h.set_entry_type(tar::EntryType::new(kind)); h.set_uid(0); h.set_gid(0); h.set_mtime(0);
            if kind == b'S' {
                // a sparse file: hole of 512 bytes, then the data
                let total = 512 + data.len() as u64;
                let g = h.as_gnu_mut().unwrap();
                let oct = |v: u64, f: &mut [u8]| { let s = format!("{:0w$o}\0", v, w = f.len() - 1); f.copy_from_slice(s.as_bytes()); };
                oct(512, &mut g.sparse[0].offset); oct(data.len() as u64, &mut g.sparse[0].numbytes);
                oct(total, &mut g.realsize);
            }
            h.set_cksum();
            raw.extend_from_slice(h.as_bytes()); raw.extend_from_slice(data);
            while raw.len() % 512 != 0 { raw.push(0); }
        };
        if e.name.len() > 99 { let mut l = e.name.clone(); l.push(0); add(b"././@LongLink", b'L', 0o644, &l); }
        add(&e.name, e.kind, e.mode, &e.data);
    }
    raw.extend_from_slice(&[0; 1024]);
    let mut gz = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    gz.write_all(&raw).unwrap();
    gz.finish().unwrap()
}
fn expect_tar(es: &[TEnt]) -> Option<Vec<Op>> {
    let mut ops = Vec::new();
    for e in es {
        let p = place(&[], std::str::from_utf8(&e.name).ok()?)?;
        match e.kind {
            b'1' | b'2' | b'3' | b'4' | b'6' => return None,
            b'5' => ops.push(Op::Dir(text(&p))),
            b'g' => {}
            b'S' => ops.push(Op::File(text(&p), [vec![0; 512], e.data.clone()].concat(), e.mode & 0o100 != 0)),
            _ => ops.push(Op::File(text(&p), e.data.clone(), e.mode & 0o100 != 0)),
        }
    }
    Some(ops)
}
fn check_tar(rep: &mut Report, es: &[TEnt]) {
    let d = format!("tar {:?}", es.iter().map(|e| (e.name.escape_ascii().to_string(), e.kind as char, format!("{:o}", e.mode), e.data.len())).collect::<Vec<_>>());
    rep.case(&d, es.len() > 1);
    let bytes = tar_gz(es);
    let mut rec = Rec::default();
    let r = match rep.run(&d, || unpack_tar_gz_carefully(Cursor::new(bytes), &mut rec).map_err(|e| format!("{e:#}"))) { Some(r) => r, None => return };
    match (expect_tar(es), r) {
        (None, Err(_)) => {}
        (None, Ok(())) => rep.fail("accepted", &d, "unpacking succeeded although a member is unsafe or unsupported"),
        (Some(_), Err(e)) => rep.fail("refused", &d, &format!("failed: {}", e)),
        (Some(ops), Ok(())) => { rep.check(rec.0 == ops, "members", &d, || format!("did {:?} expected {:?}", rec.0, ops)); }
    }
}
#[test]
fn v_a03_tar() {
    let mut rep = Report::new("A03", "v_a03_tar", "random tar.gz files of up to 6 members of every entry type (sparse and long names included), unpacked into a recording tree; non-trivial: more than one member");
    let mut rng = Rng::new("a03t");
    let kinds = [b'0', b'\0', b'7', b'5', b'S', b'g', b'1', b'2', b'3', b'4', b'6'];
    for k in kinds { for m in [0o644, 0o755, 0o100, 0o10, 0o1] { check_tar(&mut rep, &[TEnt { name: b"a/b".to_vec(), kind: k, mode: m, data: if matches!(k, b'0' | b'7' | b'S' | 0) { b"hello".to_vec() } else { vec![] } }]); } }
    for i in 0..cases(8000, 20) {
        let n = rng.below(7);
        let es: Vec<TEnt> = (0..n).map(|_| {
            let kind = if i % 5 == 0 { *rng.pick(&kinds) } else { *rng.pick(&kinds[..6]) };
            let mut name = if i % 7 == 0 && rng.chance(1, 4) { rng.pick(BAD).as_bytes().to_vec() } else { rng.pick(NAMES).as_bytes().to_vec() };
            if rng.chance(1, 12) { name = [&b"long/"[..], &vec![b'n'; 120 + rng.below(60)], b"/", &name].concat(); }
            let data = if matches!(kind, b'0' | b'7' | b'S' | 0) { let n = *rng.pick(&[0usize, 3, 511, 512, 513, 900]); let n = if kind == b'S' { n.max(3) } else { n }; rng.bytes(n) } else { vec![] };
            TEnt { name, kind, mode: *rng.pick(&[0o644, 0o755, 0o700, 0o600, 0o111, 0o11]), data }
        }).collect();
        check_tar(&mut rep, &es);
    }
}

// ---- the real filesystem
fn listing(root: &Path, rel: &str, out: &mut BTreeMap<String, (char, Vec<u8>, bool)>) {
    use std::os::unix::fs::PermissionsExt;
    for e in fs::read_dir(root.join(rel)).unwrap() {
        let e = e.unwrap();
        let name = e.file_name().into_string().unwrap();
        let r = if rel.is_empty() { name } else { format!("{}/{}", rel, name) };
        let m = fs::symlink_metadata(e.path()).unwrap();
        if m.file_type().is_symlink() { out.insert(r, ('l', fs::read_link(e.path()).unwrap().to_str().unwrap().as_bytes().to_vec(), false)); }
        else if m.is_dir() { out.insert(r.clone(), ('d', vec![], false)); listing(root, &r, out) }
        else { out.insert(r, ('f', fs::read(e.path()).unwrap(), m.permissions().mode() & 0o100 != 0)); }
    }
}
#[test]
fn v_a03_fs() {
    let mut rep = Report::new("A03", "v_a03_fs", "random archives, with and without name clashes (which must be refused) (directory entries in any order and repeated, root entry included) unpacked by WriteTreeFS into a scratch directory and listed back; non-trivial: has a directory entry");
    let mut rng = Rng::new("a03f");
    for i in 0..cases(1500, 10) {
        // leaves all have distinct names that are no directory name
        let dirs = ["a", "a/b", "c", "c/d/e", "f"];
        let n = rng.below(8);
        let mut es: Vec<(String, char, Vec<u8>, bool)> = Vec::new();
        for k in 0..n {
            match rng.below(6) {
                0 | 1 => es.push((format!("{}/", rng.pick(&dirs)), 'd', vec![], false)),
                2 if i % 2 == 0 => es.push((format!("{}/l{}", rng.pick(&dirs), k), 'l', rng.pick(&["../t", "t", "../a/b", "."]).as_bytes().to_vec(), false)),
                3 if rng.chance(1, 4) => es.push(("./".into(), 'd', vec![], false)),
                _ => { let n = rng.below(40); es.push((if rng.chance(1, 5) { format!("r{}", k) } else { format!("{}/f{}", rng.pick(&dirs), k) }, 'f', rng.bytes(n), rng.chance(1, 2))) }
            }
        }
        // sometimes two members want the same place, or one wants to be inside another that is no directory
        if i % 4 < 2 && es.len() > 1 {
            let to = rng.pick(&es).0.trim_end_matches('/').to_string();
            let k = rng.below(es.len());
            let end = if es[k].1 == 'd' { "/" } else { "" };
            if to != "." { es[k].0 = format!("{}{}{}", to, rng.pick(&["", "", "/x", "/x/y"]), end); }
        }
        let at: Vec<Vec<String>> = es.iter().map(|e| place(&[], &e.0).unwrap()).collect();
        let clash = (0..es.len()).any(|j| es[j].1 != 'd' && (0..es.len()).any(|k| k != j && at[k].starts_with(&at[j])));
        let mut want: BTreeMap<String, (char, Vec<u8>, bool)> = BTreeMap::new();
        for (name, k, data, x) in &es {
            let p = place(&[], name).unwrap();
            for j in 1..p.len() { want.insert(p[..j].join("/"), ('d', vec![], false)); }
            if !p.is_empty() { want.insert(p.join("/"), (*k, data.clone(), *x)); }
        }
        let tar = i % 2 == 1;
        let d = format!("{} on disk: {:?}", if tar { "tar" } else { "zip" }, es.iter().map(|e| (e.0.as_str(), e.1, e.3)).collect::<Vec<_>>());
        rep.case(&d, es.iter().any(|e| e.1 == 'd'));
        let scratch = tempfile::TempDir::new().unwrap();
        let dest = scratch.path().join("in/dest");
        fs::create_dir_all(&dest).unwrap();
        let r = rep.run(&d, || if tar {
            let b = tar_gz(&es.iter().map(|e| TEnt { name: e.0.as_bytes().to_vec(), kind: if e.1 == 'd' { b'5' } else { b'0' }, mode: if e.3 { 0o755 } else { 0o644 }, data: e.2.clone() }).collect::<Vec<_>>());
            unpack_tar_gz_carefully(Cursor::new(b), WriteTreeFS::new(&dest))
        } else {
            let b = zip_bytes(&es.iter().map(|e| ZEnt { name: e.0.clone(), mode: Some(match e.1 { 'd' => 0o40755, 'l' => 0o120777, _ => if e.3 { 0o100755 } else { 0o100644 } }), data: e.2.clone() }).collect::<Vec<_>>());
            unpack_zip_carefully(&mut ZipArchive::new(Cursor::new(b)).unwrap(), &mut WriteTreeFS::new(&dest))
        });
        match r {
            Some(Ok(())) if clash => rep.fail("replaced", &d, "two members want the same place, or one is inside another"),
            Some(Ok(())) => {
                let mut got = BTreeMap::new();
                listing(&dest, "", &mut got);
                rep.check(got == want, "disk", &d, || format!("on disk {:?}\nexpected {:?}", got, want));
                let mut outer = BTreeMap::new();
                listing(scratch.path(), "", &mut outer);
                rep.check(outer.keys().all(|k| k == "in" || k.starts_with("in/dest")), "outside", &d, || "something was written outside the destination".into());
            }
            Some(Err(_)) if clash => {
                let mut outer = BTreeMap::new();
                listing(scratch.path(), "", &mut outer);
                rep.check(outer.keys().all(|k| k == "in" || k.starts_with("in/dest")), "outside", &d, || "something was written outside the destination".into());
            }
            Some(Err(e)) => rep.fail("disk-refused", &d, &format!("failed: {:#}", e)),
            None => {}
        }
    }
}
