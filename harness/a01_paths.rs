//@attach src/tree.rs
// A01: which path strings are accepted and what they denote; A02: symlinks
use super::*;
use crate::verif_support::*;

// ---- oracle: byte-level textual resolution, written from the property text
fn piece_ok(p: &[u8]) -> bool {
    let s = match std::str::from_utf8(p) { Ok(s) => s, Err(_) => return false };
    !s.is_empty()
        && s.chars().all(|c| (c as u32) >= 0x20 && c as u32 != 0x7f && !r#"<>:"/\|?*"#.contains(c))
        && !s.ends_with('.') && !s.ends_with(' ')
}
enum R { Bad, At(usize, Vec<String>) }
// resolve against a directory `depth` levels below the root; At(k, names): k of the directory's
// own levels are left
fn resolve(depth: usize, p: &[u8]) -> R {
    if p.first() == Some(&b'/') { return R::Bad; }
    let (mut k, mut names) = (depth, Vec::<String>::new());
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => if names.pop().is_none() { if k == 0 { return R::Bad } k -= 1 },
            _ => { if !piece_ok(c) { return R::Bad } names.push(String::from_utf8(c.to_vec()).unwrap()) }
        }
    }
    R::At(k, names)
}
fn want(p: &[u8]) -> Option<Vec<String>> { match resolve(0, p) { R::At(_, n) => Some(n), R::Bad => None } }

const PARTS: &[&[u8]] = &[
    b"a", b"b", b"foo", b"bar.txt", b"..", b"..", b"..", b".", b"", b"...", b".a", b"a.", b"a ", b" a", b"a b", b"a:b", b"c:", b"a\\b", b"\\", b"a*",
    b"a?", b"<", b">", b"|", b"\"", b"\x00", b"a\x1f", b"\x7f", b"\x80", b"\xff", b"caf\xc3\xa9", b"\xc3", b"\xe2\x80\xa8", b"\xc2\x85", b"..a", b"a..", b". ", b".. ", b"-", b"~", b"con", b"a\n", b"\t", b"\xc2\xa0",
];
fn gen(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    if rng.chance(1, 12) { v.push(b'/'); }
    let plain = rng.chance(1, 2);
    for i in 0..rng.below(9) {
        if i > 0 { v.push(b'/'); if rng.chance(1, 10) { v.push(b'/'); } }
        if plain { v.extend_from_slice([&b"a"[..], b"b", b"..", b".", b"c", b""][rng.below(6)]) }
        else if rng.chance(3, 4) { v.extend_from_slice(PARTS[rng.below(9)]) } else { v.extend_from_slice(*rng.pick(PARTS)) }
    }
    if rng.chance(1, 6) { v.push(b'/'); }
    v
}
fn show(p: &[u8]) -> String { p.escape_ascii().to_string() }

fn check_path(rep: &mut Report, p: &[u8]) {
    let w = want(p);
    let d = show(p);
    rep.case(&d, p.iter().any(|b| *b == b'/' || *b == b'.'));
    let got = match rep.run(&d, || NicePathBuf::try_from(p)) { Some(g) => g.ok(), None => return };
    match (&w, &got) {
        (Some(w), Some(g)) => {
            rep.check(g.pieces() == &w[..], "wrong-place", &d, || format!("denotes {:?}, should be {:?}", g.pieces(), w));
            rep.check(g.len() == w.len() && g.pieces() == w.as_slice(), "len", &d, || "len/pieces".into());
            let text = if w.is_empty() { ".".to_string() } else { w.join("/") };
            rep.check(g.to_string() == text, "text", &d, || format!("prints as {:?}", g.to_string()));
            rep.check(g.to_native().as_os_str().to_str() == Some(&text), "native", &d, || format!("native form {:?}", g.to_native()));
            rep.check(NicePathBuf::try_from(text.as_str()).ok().as_ref() == Some(g), "reparse", &d, || "text form does not parse back".into());
        }
        (None, None) => {}
        (None, Some(g)) => rep.fail("accepted", &d, &format!("unsafe path accepted as {:?}", g.pieces())),
        (Some(w), None) => rep.fail("refused", &d, &format!("safe path refused, denotes {:?}", w)),
    }
    if let Ok(s) = std::str::from_utf8(p) {
        let g2 = NicePathBuf::try_from(s).ok();
        rep.check(g2 == got, "str-bytes", &d, || "string and byte forms differ".into());
        let g3: Option<NicePathBuf> = s.parse().ok();
        rep.check(g3 == got, "fromstr", &d, || "FromStr differs".into());
    }
}

#[test]
fn v_a01_paths() {
    let mut rep = Report::new("A01", "v_a01_paths", "all sequences of up to 3 of 44 odd components, every single byte as a component, and random longer paths; non-trivial: has a '/' or '.'");
    for a in PARTS { check_path(&mut rep, a); for b in PARTS { let ab = [*a, b"/", *b].concat(); check_path(&mut rep, &ab); } }
    for a in PARTS { for b in PARTS.iter().take(12) { for c in PARTS { check_path(&mut rep, &[*a, b"/", *b, b"/", *c].concat()); } } }
    for b in 0..=255u8 { for t in [vec![b], vec![b'a', b], vec![b, b'a'], vec![b'x', b'/', b, b'/', b'y'], vec![b'a', b, b'b']] { check_path(&mut rep, &t); } }
    let mut rng = Rng::new("a01");
    for _ in 0..cases(60000, 20) { let p = gen(&mut rng); check_path(&mut rep, &p); }
}

#[test]
fn v_a01_ops() {
    let mut rep = Report::new("A01", "v_a01_ops", "random pairs of accepted paths: join, slice and contains against the component lists; non-trivial: both non-empty");
    let mut rng = Rng::new("a01o");
    let mk = |rng: &mut Rng| -> NicePathBuf { let n = rng.below(5); NicePathBuf::try_from((0..n).map(|_| *rng.pick(&["a", "b", "ab", "a.b"])).collect::<Vec<_>>().join("/").as_str()).unwrap() };
    for _ in 0..cases(40000, 10) {
        let (a, b) = (mk(&mut rng), mk(&mut rng));
        let d = format!("{} and {}", a, b);
        rep.case(&d, a.len() > 0 && b.len() > 0);
        let (pa, pb) = (a.pieces().to_vec(), b.pieces().to_vec());
        rep.run(&d, || ()).unwrap();
        let j = a.join(&b);
        rep.check(j.pieces() == [pa.clone(), pb.clone()].concat(), "join", &d, || format!("join gives {:?}", j.pieces()));
        let c = a.contains(&b);
        rep.check(c == (pb.len() >= pa.len() && pb[..pa.len()] == pa[..]), "contains", &d, || format!("contains says {}", c));
        rep.check(a.contains(&j), "contains-join", &d, || "join result not contained".into());
        rep.check(a.pieces() == pa && b.pieces() == pb, "frame", &d, || "operand changed".into());
        if !pa.is_empty() {
            let i = rng.below(pa.len() + 1); let k = rng.range(i, pa.len());
            let s = a.slice(i..k);
            rep.check(s.pieces() == &pa[i..k], "slice", &d, || format!("slice {}..{} gives {:?}", i, k, s.pieces()));
            rep.check(a.slice(i..).pieces() == &pa[i..] && a.slice(..k).pieces() == &pa[..k], "slice", &d, || "open slices".into());
        }
        rep.check((a == b) == (pa == pb), "eq", &d, || "equality".into());
    }
}
