//@attach src/tree.rs
// A02: symlinks against an independent textual resolution, and against the kernel's
use super::*;
use crate::verif_support::*;

fn piece_ok(p: &[u8]) -> bool {
    let s = match std::str::from_utf8(p) { Ok(s) => s, Err(_) => return false };
    !s.is_empty() && s.chars().all(|c| (c as u32) >= 0x20 && c as u32 != 0x7f && !r#"<>:"/\|?*"#.contains(c)) && !s.ends_with('.') && !s.ends_with(' ')
}
// absolute place (from the root of the tree) of `target` seen from directory `dir`
fn place(dir: &[String], target: &[u8]) -> Option<Vec<String>> {
    if target.first() == Some(&b'/') { return None; }
    let mut cur = dir.to_vec();
    for c in target.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => { cur.pop()?; }
            _ => { if !piece_ok(c) { return None } cur.push(String::from_utf8(c.to_vec()).unwrap()) }
        }
    }
    Some(cur)
}
fn gen_target(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    if rng.chance(1, 15) { v.push(b'/'); }
    let ups = rng.chance(2, 3);
    for i in 0..rng.below(9) {
        if i > 0 { v.push(b'/'); }
        let p: &[u8] = if ups { *rng.pick(&[&b".."[..], b"..", b"..", b"a", b"b", b".", b""]) } else { *rng.pick(&[&b"a"[..], b"b", b"..", b".", b"", b"a b", b"...", b"a.", b"x\\y", b"\xff", b"c:", b"..a"]) };
        v.extend_from_slice(p);
    }
    v
}

fn check_link(rep: &mut Report, src: &NicePathBuf, t: &[u8]) {
    let d = format!("{} -> {}", src, t.escape_ascii());
    rep.case(&d, t.windows(2).any(|w| w == b".."));
    let got = match rep.run(&d, || NiceSymlinkPaths::new(src, t)) { Some(g) => g.ok(), None => return };
    let want = if src.pieces().is_empty() { None } else { place(&src.pieces()[..src.pieces().len() - 1], t) };
    match (want, got) {
        (None, None) => {}
        (None, Some(g)) => rep.fail("accepted", &d, &format!("accepted with target {:?}", g.target)),
        (Some(w), None) => rep.fail("refused", &d, &format!("refused although it stays inside at {:?}", w)),
        (Some(w), Some(g)) => {
            rep.check(&g.source == src, "source", &d, || format!("source became {}", g.source));
            let p2 = place(&src.pieces()[..src.pieces().len() - 1], g.target.as_bytes());
            rep.check(p2.as_ref() == Some(&w), "target", &d, || format!("stored target {:?} leads to {:?}, original to {:?}", g.target, p2, w));
            let mut seen_name = false;
            let mut shape = !g.target.is_empty() && !g.target.starts_with('/');
            if g.target != "." {
                for c in g.target.split('/') {
                    if c == ".." { if seen_name { shape = false } } else { seen_name = true; if !piece_ok(c.as_bytes()) { shape = false } }
                }
            }
            rep.check(shape, "shape", &d, || format!("stored target {:?} is not '..'s followed by safe names", g.target));
        }
    }
}

#[test]
fn v_a02_links() {
    let mut rep = Report::new("A02", "v_a02_links", "links at depth 0 to 5 with all targets of up to 5 components from {.., ., a, empty} and random targets; non-trivial: target has '..'");
    let mk = |n: usize| NicePathBuf::try_from((0..n).map(|i| format!("d{}", i)).collect::<Vec<_>>().join("/").as_str()).unwrap();
    let al: [&[u8]; 4] = [b"..", b".", b"a", b""];
    for depth in 0..6 {
        for len in 0..6u32 {
            for code in 0..4usize.pow(len) {
                let mut c = code;
                let parts: Vec<&[u8]> = (0..len).map(|_| { let p = al[c % 4]; c /= 4; p }).collect();
                check_link(&mut rep, &mk(depth), &parts.join(&b'/'));
            }
        }
    }
    let mut rng = Rng::new("a02");
    for _ in 0..cases(60000, 20) { let n = rng.below(6); let t = gen_target(&mut rng); check_link(&mut rep, &mk(n), &t); }
}
