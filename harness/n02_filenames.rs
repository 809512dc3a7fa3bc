//@attach src/vocab/artifact_name.rs
// N02: artifact file names against a hand-written splitter
use super::*;
use crate::verif_support::*;

type Parsed = (String, String, Option<u64>, String, Vec<Vec<String>>);
fn legal(c: char) -> bool { c.is_ascii_alphanumeric() || "_.+!-".contains(c) }
// distribution and version as spelled, build tag, tag sets; None: must be rejected
fn oracle_binary(s: &str, suffix: &str, tags: usize) -> Option<Parsed> {
    if !s.chars().all(legal) { return None }
    let stem = s.strip_suffix(suffix)?;
    let p: Vec<&str> = stem.split('-').collect();
    let (mut num, mut name) = (None, String::new());
    let rest = if p.len() == 3 + tags {
        if p[2].is_empty() { return None }
        let d = p[2].chars().take_while(|c| c.is_ascii_digit()).count();
        if d > 0 { num = Some(p[2][..d].parse::<u64>().ok()?); if num > Some(u32::MAX as u64) { return None } }
        name = p[2][d..].to_string();
        &p[3..]
    } else if p.len() == 2 + tags { &p[2..] } else { return None };
    Some((p[0].into(), p[1].into(), num, name, rest.iter().map(|t| t.split('.').map(String::from).collect()).collect()))
}
fn name_of(s: &str) -> Option<PackageName> { s.try_into().ok() }
fn ver_of(s: &str) -> Option<Version> {
    // numbers that do not fit are not to be misread (judged here, not by the parser)
    if s.split('+').next().unwrap().split(|c: char| !c.is_ascii_digit()).any(|d| d.trim_start_matches('0').len() > 10 || d.parse::<u64>().map_or(false, |x| x > u32::MAX as u64)) { return None }
    s.try_into().ok()
}
fn check_binary(rep: &mut Report, s: &str) {
    let d = format!("{:?}", s);
    let whl = s.ends_with(".whl");
    let o = if whl { oracle_binary(s, ".whl", 3) } else { oracle_binary(s, ".pybi", 1) };
    let o = o.and_then(|o| Some((name_of(&o.0)?, ver_of(&o.1)?, o)));
    rep.case(&d, o.is_some());
    let an = match rep.run(&d, || ArtifactName::try_from(s)) { Some(a) => a, None => return };
    let (n, v, o) = match (o, &an) {
        (None, Err(_)) => return,
        (None, Ok(a)) => { rep.fail("accepted", &d, &format!("accepted as {a}")); return }
        (Some(_), Err(e)) => { rep.fail("refused", &d, &format!("{e:#}")); return }
        (Some(o), Ok(_)) => o,
    };
    let an = an.unwrap();
    rep.check(an.distribution() == &n && an.distribution().as_given() == o.0, "dist", &d, || format!("distribution {:?}", an.distribution()));
    rep.check(an.version() == &v, "version", &d, || format!("version {}", an.version()));
    let (bn, bname, sets, all): (Option<u32>, String, Vec<Vec<String>>, HashSet<String>) = match &an {
        ArtifactName::Wheel(w) if whl => (w.build_number, w.build_name.clone(), vec![w.py_tags.clone(), w.abi_tags.clone(), w.arch_tags.clone()], w.all_tags()),
        ArtifactName::Pybi(p) if !whl => (p.build_number, p.build_name.clone(), vec![p.arch_tags.clone()], p.all_tags()),
        _ => { rep.fail("kind", &d, "parsed as the wrong kind of file"); return }
    };
    rep.check(bn.map(|x| x as u64) == o.2 && bname == o.3, "build", &d, || format!("build tag {:?} {:?}", bn, bname));
    rep.check(sets == o.4, "tags", &d, || format!("tag sets {:?}", sets));
    let mut want = HashSet::new();
    if whl { for a in &o.4[0] { for b in &o.4[1] { for c in &o.4[2] { want.insert(format!("{a}-{b}-{c}")); } } } } else { want.extend(o.4[0].iter().cloned()) }
    rep.check(all == want, "all-tags", &d, || format!("concrete tags {:?}", all));
    round(rep, &d, &an);
    // splitting
    let split = match rep.run(&d, || an.split_multiplatform_pybis()) { Some(x) => x, None => return };
    if let ArtifactName::Pybi(p) = &an {
        let mut want = Vec::new();
        for t in &p.arch_tags {
            if t.starts_with("macosx_") && t.ends_with("_universal2") { let b = t.strip_suffix("universal2").unwrap(); want.push(format!("{b}arm64")); want.push(format!("{b}x86_64")); } else { want.push(t.clone()) }
        }
        let got: Vec<Vec<String>> = split.iter().map(|a| match a { ArtifactName::Pybi(q) => { let mut q2 = q.clone(); q2.arch_tags = p.arch_tags.clone(); if &q2 == p { q.arch_tags.clone() } else { vec!["changed".into()] } } _ => vec![] }).collect();
        rep.check(got == want.iter().map(|t| vec![t.clone()]).collect::<Vec<_>>(), "split", &d, || format!("split into {:?}", got));
    } else { rep.check(split == vec![an.clone()], "split-other", &d, || "a wheel was split".into()); }
}
fn round(rep: &mut Report, d: &str, an: &ArtifactName) {
    let p = an.to_string();
    match ArtifactName::try_from(p.as_str()) {
        Ok(b) => { rep.check(&b == an && b.to_string() == p && b.distribution().as_given() == an.distribution().as_given(), "round-trip", d, || format!("prints {p:?}, which parses as {b:?}")); }
        Err(e) => rep.fail("round-trip", d, &format!("prints {p:?}, which is refused: {e:#}")),
    }
}
fn check_sdist(rep: &mut Report, s: &str) {
    let d = format!("{:?}", s);
    let fmt = if s.ends_with(".zip") { Some((".zip", SdistFormat::Zip)) } else if s.ends_with(".tar.gz") { Some((".tar.gz", SdistFormat::TarGz)) } else { None };
    let o = fmt.and_then(|(suf, f)| { let stem = s.strip_suffix(suf).unwrap(); let (n, v) = stem.rsplit_once('-')?; if !stem.chars().all(legal) { return None } Some((n.to_string(), name_of(n)?, ver_of(v)?, f)) });
    rep.case(&d, o.is_some());
    let an = match rep.run(&d, || ArtifactName::try_from(s)) { Some(a) => a, None => return };
    match (o, an) {
        (None, Err(_)) => {}
        (None, Ok(a)) => rep.fail("accepted", &d, &format!("accepted as {a}")),
        (Some(_), Err(e)) => rep.fail("refused", &d, &format!("{e:#}")),
        (Some((given, n, v, f)), Ok(an)) => {
            rep.check(an.distribution() == &n && an.distribution().as_given() == given, "dist", &d, || format!("distribution {:?}", an.distribution()));
            rep.check(an.version() == &v, "version", &d, || format!("version {}", an.version()));
            rep.check(matches!(&an, ArtifactName::Sdist(x) if x.format == f), "kind", &d, || format!("parsed as {an:?}"));
            round(rep, &d, &an);
            rep.check(an.split_multiplatform_pybis() == vec![an.clone()], "split-other", &d, || "split".into());
        }
    }
}

const DIST: &[&str] = &["foo", "foo.bar", "Foo_Bar", "a", "foo__bar", "x--y", "_x", "x_", "", "foo bar", "2to3"];
const VER: &[&str] = &["1.0", "0.1b3", "1!2.0", "1.0+local.1", "1.0.post1.dev2", "v1.0", "1_0", "", "1.0rc1", "3.10", "1.0.dev20230101120000", "1.0.post99999999999", "1.0a99999999999", "99999999999", "1.0.dev4294967295", "1.0+x_y"];
const BUILD: &[&str] = &["1", "1local", "007", "x", "0", "0b", "00x", "0.1", "99999999999", "99999999999x", "4294967295", "4294967296", "1.2", "a+b", "_"];
const TAG: &[&str] = &["py3", "py2.py3", "none", "any", "cp37.cp38.cp39", "abi3", "manylinux_2_17_x86_64", "macosx_11_0_universal2", "macosx_10_15_x86_64.macosx_11_0_universal2", "win32.win_amd64", "macosx_universal2", "linux_universal2", "a..b", "", "universal2", "macosx_11_0_universal2.any"];

#[test]
fn v_n02_binary() {
    let mut rep = Report::new("N02", "v_n02_binary", "wheel and interpreter file names put together from lists of parts with too few, too many, empty and illegal ones; non-trivial: the name is acceptable");
    let mut rng = Rng::new("n02");
    for _ in 0..cases(60000, 20) {
        let whl = rng.chance(1, 2);
        let mut p: Vec<&str> = vec![if rng.chance(2, 3) { *rng.pick(&DIST[..5]) } else { *rng.pick(DIST) }, if rng.chance(1, 2) { "1.0" } else { *rng.pick(VER) }];
        if rng.chance(1, 2) { p.push(if rng.chance(1, 12) { "" } else { *rng.pick(BUILD) }); }
        for _ in 0..(if whl { 3 } else { 1 }) { p.push(*rng.pick(TAG)); }
        if rng.chance(1, 10) { let i = rng.below(p.len()); p.remove(i); }
        if rng.chance(1, 10) { let i = rng.below(p.len() + 1); p.insert(i, *rng.pick(TAG)); }
        let mut s = p.join("-");
        s += if whl { ".whl" } else { ".pybi" };
        if rng.chance(1, 12) { let i = rng.below(s.len() - 5); if s.is_char_boundary(i) { s.insert_str(i, *rng.pick(&[" ", "\n", "/", "\u{e9}", "%", "\0", "~", ":"])); } }
        check_binary(&mut rep, &s);
    }
}
#[test]
fn v_n02_sdist() {
    let mut rep = Report::new("N02", "v_n02_sdist", "source archive file names put together from lists of parts, with missing ones and illegal characters; non-trivial: the name is acceptable");
    let mut rng = Rng::new("n02s");
    for _ in 0..cases(30000, 20) {
        let mut s = format!("{}{}", if rng.chance(1, 2) { "foo-bar" } else { *rng.pick(DIST) }, if rng.chance(1, 15) { "" } else { "-" });
        s += if rng.chance(1, 2) { "1.0" } else { *rng.pick(VER) };
        s += *rng.pick(&[".zip", ".tar.gz", ".tar.gz", ".tgz", ".tar", "", "zip", ".tar.gz.zip", ".ZIP"]);
        if rng.chance(1, 12) && !s.is_empty() { let i = rng.below(s.len()); s.insert_str(i, *rng.pick(&[" ", "\n", "/", "\u{e9}", "%", "\0", "-"])); }
        if s.ends_with(".whl") || s.ends_with(".pybi") { continue }
        check_sdist(&mut rep, &s);
    }
}
