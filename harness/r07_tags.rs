//@attach src/platform_tags/platform.rs
// R07: platform tags against an oracle that asks, tag by tag, "does a machine that supports T run W?"
use super::*;
use crate::verif_support::*;

#[derive(Clone, Debug, PartialEq)]
enum T { Linux { musl: bool, major: u32, minor: u32, arch: String }, Mac { major: u32, minor: u32, arch: String }, Other(String) }
fn word(s: &str) -> bool { s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }
fn num(s: &str) -> Option<u32> { if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) { s.parse().ok() } else { None } }
fn parse(s: &str) -> T {
    for (p, mi) in [("manylinux2014_", 17), ("manylinux2010_", 12), ("manylinux1_", 5)] {
        if let Some(a) = s.strip_prefix(p) { if word(a) { return T::Linux { musl: false, major: 2, minor: mi, arch: a.into() } } }
    }
    for (p, musl) in [("manylinux_", Some(false)), ("musllinux_", Some(true)), ("macosx_", None)] {
        if let Some(r) = s.strip_prefix(p) {
            let v: Vec<&str> = r.splitn(3, '_').collect();
            if v.len() == 3 && word(v[2]) {
                if let (Some(major), Some(minor)) = (num(v[0]), num(v[1])) {
                    return match musl { Some(musl) => T::Linux { musl, major, minor, arch: v[2].into() }, None if major >= 10 => T::Mac { major, minor, arch: v[2].into() }, None => T::Other(s.into()) };
                }
            }
        }
    }
    T::Other(s.into())
}
// architectures inside a fat format (distutils.util.get_platform)
fn in_fat(fat: &str, arch: &str) -> bool {
    match arch { "x86_64" => ["universal2", "intel", "fat64", "fat3", "universal"].contains(&fat), "arm64" => fat == "universal2", _ => false }
}
// does every machine that supports `have` run binaries tagged `w`?
fn runs(have: &T, w: &T) -> bool {
    match (have, w) {
        (T::Linux { musl: a, major: b, minor: c, arch: d }, T::Linux { musl: e, major: f, minor: g, arch: h }) => a == e && b == f && g <= c && d == h,
        (T::Mac { major: b, minor: c, arch: d }, T::Mac { major: f, minor: g, arch: h }) => {
            // releases from 11 on are named N_0; 10 ended with 10.15
            let older = if *f == 10 { if *b == 10 { g <= c } else { *g <= 15 } } else { *g == 0 && f <= b };
            older && (h == d || in_fat(h, d))
        }
        (T::Other(a), T::Other(b)) => a == b,
        _ => false,
    }
}
// newer before older; within a release the architecture itself before fat formats, plain names before aliases
fn key(w: &str, t: &T) -> (i64, i64, i64) {
    match t {
        T::Linux { minor, .. } => (0, -(*minor as i64), if w.starts_with("manylinux_") || w.starts_with("musllinux_") { 0 } else { 1 }),
        T::Mac { major, minor, arch } => (-(*major as i64), -(*minor as i64), if in_fat(arch, "x86_64") { 1 } else { 0 }),
        T::Other(_) => (0, 0, 0),
    }
}
fn universe(t: &T) -> Vec<String> {
    let mut v = Vec::new();
    let (arches, hi) = match t { T::Linux { arch, minor, .. } => (vec![arch.clone(), "x86_64".into(), "zz".into()], minor + 3), T::Mac { arch, major, minor } => (vec![arch.clone(), "x86_64".into(), "arm64".into(), "universal2".into(), "intel".into(), "fat64".into(), "fat3".into(), "fat".into(), "universal".into(), "i386".into()], (*major).max(*minor).max(18) + 2), T::Other(s) => return vec![s.clone(), "any".into(), "win32".into(), "manylinux1_x86_64".into(), "macosx_10_0_x86_64".into(), "macosx_11_0_arm64".into()] };
    for a in &arches {
        match t {
            T::Linux { major, .. } => { for maj in [*major, major.wrapping_sub(1), major + 1] { for mi in 0..=hi { v.push(format!("manylinux_{maj}_{mi}_{a}")); v.push(format!("musllinux_{maj}_{mi}_{a}")); } } for l in ["2014", "2010", "1"] { v.push(format!("manylinux{l}_{a}")); } }
            _ => { for maj in 8..=hi { for mi in 0..(if maj == 10 { hi.max(20) } else { 4 }) { v.push(format!("macosx_{maj}_{mi}_{a}")); } } }
        }
    }
    v.sort(); v.dedup(); v
}
fn one(rep: &mut Report, tag: &str) {
    let d = format!("{:?}", tag);
    let t = parse(tag);
    rep.case(&d, !matches!(t, T::Other(_)));
    let p = match rep.run(&d, || PybiPlatform::new(tag)) { Some(p) => p, None => return };
    let got: Vec<String> = p.tags().cloned().collect();
    let raw = expand_platform_tag(tag);
    rep.check(raw.len() == got.len(), "duplicates", &d, || format!("expansion {:?}", raw));
    for w in universe(&t) {
        let want = runs(&t, &parse(&w));
        rep.check(p.compatibility(&w).is_some() == want, "set", &d, || format!("{w} is {}in the expansion {:?}", if want { "not " } else { "" }, got));
    }
    for w in &got { rep.check(runs(&t, &parse(w)), "extra", &d, || format!("{w} is in the expansion {:?}", got)); }
    for i in 0..got.len() {
        rep.check(p.compatibility(&got[i]) == Some(-(i as i32)), "score", &d, || format!("{} has score {:?} at position {}", got[i], p.compatibility(&got[i]), i));
        if i > 0 { rep.check(key(&got[i - 1], &parse(&got[i - 1])) <= key(&got[i], &parse(&got[i])), "order", &d, || format!("{} comes before {}", got[i - 1], got[i])); }
    }
    if let T::Other(s) = &t { rep.check(&got == &vec![s.clone()], "other", &d, || format!("expansion {:?}", got)); }
}
const ARCH: &[&str] = &["x86_64", "arm64", "aarch64", "i686", "universal2", "universal", "intel", "ppc64le", "armv7l", "", "fat64", "_x", "x86_64_v2"];

#[test]
fn v_r07_expand() {
    let mut rep = Report::new("R07", "v_r07_expand", "all Linux tags with majors 0..3 and minors 0..40, all macOS tags with majors 8..16 and minors 0..18, legacy names, for 13 architectures, and near misses; each expansion is compared tag by tag with the oracle over all neighbouring tags; non-trivial: a tag that implies others");
    for a in ARCH {
        for maj in 0..=3 { for mi in 0..=40 { if maj == 2 || mi % 5 == 0 { one(&mut rep, &format!("manylinux_{maj}_{mi}_{a}")); one(&mut rep, &format!("musllinux_{maj}_{mi}_{a}")); } } }
        for maj in 8..=16 { for mi in 0..=(if maj == 10 { 18 } else { 4 }) { one(&mut rep, &format!("macosx_{maj}_{mi}_{a}")); } }
        for l in ["2014", "2010", "1", "2", "2013", "20144"] { one(&mut rep, &format!("manylinux{l}_{a}")); }
    }
    for s in ["win32", "win_amd64", "any", "", "linux_x86_64", "manylinux2014_x86-64", "manylinux1_x86_64.manylinux2010_x86_64", "manylinux_2_17_x86-64", "manylinux_2_17", "manylinux_2_x_x86_64", "macosx_11_0_arm-64", "macosx_11_arm64", "xmanylinux1_x86_64", "manylinux2014", "manylinux2010_x86_64 ", "macosx_10_9_x86_64\n", "manylinux1_x86_64\nfoo", "MANYLINUX1_x86_64", "xmacosx_11_0_arm64", "linux_2_17_x86_64", "manylinux_2_17_\u{e9}", "manylinux_\u{0662}_1_x", "freebsd_13_amd64"] { one(&mut rep, s); }
    rep.exhaustive();
}
#[test]
fn v_r07_wheel() {
    let mut rep = Report::new("R07", "v_r07_wheel", "random interpreter tag lists (with and without -PLATFORM, with repeats) on random platforms: the resulting list, its scores, and the best score of random tag sets; non-trivial: at least one -PLATFORM tag");
    let mut rng = Rng::new("r07");
    for _ in 0..cases(4000, 20) {
        let core = *rng.pick(&["manylinux_2_17_x86_64", "manylinux_2_5_i686", "musllinux_1_2_aarch64", "macosx_11_0_arm64", "macosx_10_3_x86_64", "macosx_12_0_universal2", "win32", "win_amd64"]);
        let n = rng.below(6);
        let tags: Vec<String> = (0..n).map(|_| format!("{}{}", rng.pick(&["cp311-cp311", "cp311-abi3", "py3-none", "foo-PLATFORM", "cp310-abi3"]), rng.pick(&["-PLATFORM", "-PLATFORM", "-any", "-PLATFORMS", "-platform", "PLATFORM", "-win32"]))).collect();
        let d = format!("{:?} on {}", tags, core);
        rep.case(&d, tags.iter().any(|t| t.ends_with("-PLATFORM")));
        let mut md = String::from("Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n");
        for t in &tags { md += &format!("Pybi-Wheel-Tag: {t}\n"); }
        let r = rep.run(&d, || -> Result<(PybiPlatform, WheelPlatform)> { let p = PybiPlatform::new(core); let m: PybiCoreMetadata = md.as_bytes().try_into()?; let w = p.wheel_platform(&m)?; Ok((p, w)) });
        let (p, w) = match r { Some(Ok(r)) => r, Some(Err(e)) => { rep.fail("refused", &d, &format!("{e:#}")); continue } None => continue };
        let mut want: Vec<String> = Vec::new();
        for t in &tags {
            let l: Vec<String> = match t.strip_suffix("-PLATFORM") { Some(x) => p.tags().map(|q| format!("{x}-{q}")).collect(), None => vec![t.clone()] };
            for x in l { if !want.contains(&x) { want.push(x) } }
        }
        let got: Vec<String> = w.tags().cloned().collect();
        if !rep.check(got == want, "wheel-tags", &d, || format!("got {:?}", got)) { continue }
        for (i, t) in want.iter().enumerate() { rep.check(w.compatibility(t) == Some(-(i as i32)), "wheel-score", &d, || format!("{t}: {:?}", w.compatibility(t))); }
        let m = rng.below(4);
        let mut set: Vec<String> = (0..m).map(|_| if want.is_empty() || rng.chance(1, 3) { "zz-none-any".to_string() } else { rng.pick(&want).clone() }).collect();
        if rng.chance(1, 2) { set.reverse(); }
        let best = set.iter().filter_map(|t| want.iter().position(|x| x == t)).min().map(|i| -(i as i32));
        rep.check(w.max_compatibility(set.iter()) == best, "max", &d, || format!("best of {:?} is {:?}", set, w.max_compatibility(set.iter())));
    }
}
