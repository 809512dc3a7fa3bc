//@attach src/vocab/specifier.rs
// R01: specifiers against an oracle written from PEP 440's text (not from ranges)
use super::*;
use crate::verif_support::*;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
enum Seg { S(String), N(u32) }
#[derive(Clone, Debug, PartialEq)]
struct V { epoch: u32, rel: Vec<u32>, pre: Option<(u8, u32)>, post: Option<u32>, dev: Option<u32>, local: Vec<Seg> }

impl V {
    fn show(&self, rng: &mut Rng) -> String {
        let mut s = String::new();
        if rng.chance(1, 12) { s.push('v'); }
        if self.epoch != 0 || rng.chance(1, 15) { s += &format!("{}!", self.epoch); }
        s += &self.rel.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
        let sep = |rng: &mut Rng| *rng.pick(&["", "", "", ".", "-", "_"]);
        if let Some((l, n)) = self.pre {
            s += sep(rng);
            s += *rng.pick(match l { 1 => &["a", "a", "alpha", "A"][..], 2 => &["b", "b", "beta", "B"], _ => &["rc", "rc", "c", "RC"] });
            s += &n.to_string();
        }
        if let Some(n) = self.post {
            if rng.chance(1, 10) && self.pre.is_none() { s += &format!("-{}", n); }
            else { s += *rng.pick(&[".post", ".post", "post", "-r", ".rev"]); s += &n.to_string(); }
        }
        if let Some(n) = self.dev { s += *rng.pick(&[".dev", ".dev", "dev", "-dev"]); s += &n.to_string(); }
        if !self.local.is_empty() {
            s.push('+');
            s += &self.local.iter().map(|x| match x { Seg::S(a) => a.clone(), Seg::N(n) => n.to_string() }).collect::<Vec<_>>().join(".");
        }
        s
    }
    fn is_pre(&self) -> bool { self.pre.is_some() || self.dev.is_some() }
}

fn cmp_rel(a: &[u32], b: &[u32]) -> Ordering {
    let n = a.len().max(b.len());
    for i in 0..n {
        let o = a.get(i).unwrap_or(&0).cmp(b.get(i).unwrap_or(&0));
        if o != Ordering::Equal { return o; }
    }
    Ordering::Equal
}
// PEP 440 "Summary of permitted suffixes and relative ordering"
fn cmp_pub(a: &V, b: &V) -> Ordering {
    let prek = |v: &V| match (v.pre, v.post, v.dev) {
        (None, None, Some(_)) => (0u8, 0u32),   // .devN sorts before aN
        (None, _, _) => (9, 0),
        (Some((l, n)), _, _) => (l, n),
    };
    let postk = |v: &V| match v.post { None => -1i64, Some(n) => n as i64 };
    let devk = |v: &V| match v.dev { Some(n) => n as i64, None => i64::MAX };
    a.epoch.cmp(&b.epoch)
        .then_with(|| cmp_rel(&a.rel, &b.rel))
        .then_with(|| prek(a).cmp(&prek(b)))
        .then_with(|| postk(a).cmp(&postk(b)))
        .then_with(|| devk(a).cmp(&devk(b)))
}
fn cmp_local(a: &[Seg], b: &[Seg]) -> Ordering {
    for i in 0..a.len().max(b.len()) {
        let o = match (a.get(i), b.get(i)) {
            (None, Some(_)) => Ordering::Less,
            (Some(_), None) => Ordering::Greater,
            (Some(Seg::S(x)), Some(Seg::S(y))) => x.cmp(y),
            (Some(Seg::N(x)), Some(Seg::N(y))) => x.cmp(y),
            (Some(Seg::S(_)), Some(Seg::N(_))) => Ordering::Less,
            (Some(Seg::N(_)), Some(Seg::S(_))) => Ordering::Greater,
            _ => Ordering::Equal,
        };
        if o != Ordering::Equal { return o; }
    }
    Ordering::Equal
}
fn cmp_full(a: &V, b: &V) -> Ordering { cmp_pub(a, b).then_with(|| cmp_local(&a.local, &b.local)) }

fn same_base(c: &V, v: &V) -> bool { c.epoch == v.epoch && cmp_rel(&c.rel, &v.rel) == Ordering::Equal }
fn prefix(c: &V, v: &V) -> bool {
    if v.post.is_some() { same_base(c, v) && c.pre == v.pre && c.post == v.post }
    else if v.pre.is_some() { same_base(c, v) && c.pre == v.pre }
    else { c.epoch == v.epoch && (0..v.rel.len()).all(|i| *c.rel.get(i).unwrap_or(&0) == v.rel[i]) }
}
// None: PEP 440 forbids the specifier
fn pep440(op: &str, v: &V, wild: bool, c: &V) -> Option<bool> {
    if wild {
        if v.dev.is_some() || !v.local.is_empty() { return None; }
        return match op { "==" => Some(prefix(c, v)), "!=" => Some(!prefix(c, v)), _ => None };
    }
    let eq = || if v.local.is_empty() { cmp_pub(c, v) == Ordering::Equal } else { cmp_full(c, v) == Ordering::Equal };
    match op {
        "==" => return Some(eq()),
        "!=" => return Some(!eq()),
        _ => {}
    }
    if !v.local.is_empty() { return None; }
    Some(match op {
        "<=" => cmp_pub(c, v) != Ordering::Greater,
        ">=" => cmp_pub(c, v) != Ordering::Less,
        "<" => {
            let own_pre = c.is_pre() && same_base(c, v) && (v.post.is_none() || (c.pre == v.pre && c.post == v.post));
            cmp_pub(c, v) == Ordering::Less && (v.is_pre() || !own_pre)
        }
        ">" => {
            let own_post = c.post.is_some() && same_base(c, v) && c.pre == v.pre && v.dev.is_none();
            cmp_pub(c, v) == Ordering::Greater && (v.post.is_some() || !own_post)
        }
        "~=" => {
            if v.rel.len() < 2 { return None; }
            let mut stem = v.clone();
            stem.rel.pop();
            stem.pre = None; stem.post = None; stem.dev = None;
            cmp_pub(c, v) != Ordering::Less && prefix(c, &stem)
        }
        _ => unreachable!(),
    })
}

const OPS: &[&str] = &["==", "!=", "<=", "<", ">=", ">", "~="];

fn gen(rng: &mut Rng, big: bool) -> V {
    let small = [0u32, 0, 1, 1, 2, 9, 10];
    let num = |rng: &mut Rng| if big && rng.chance(1, 12) { *rng.pick(&[u32::MAX - 1, 65535, 2147483647, 20230101]) } else { *rng.pick(&small) };
    let n = rng.range(1, 4);
    V {
        epoch: if rng.chance(1, 6) { rng.range(1, 2) as u32 } else { 0 },
        rel: (0..n).map(|_| num(rng)).collect(),
        pre: if rng.chance(1, 3) { Some((rng.range(1, 3) as u8, num(rng))) } else { None },
        post: if rng.chance(1, 3) { Some(num(rng)) } else { None },
        dev: if rng.chance(1, 3) { Some(num(rng)) } else { None },
        local: if rng.chance(1, 4) {
            (0..rng.range(1, 3)).map(|_| if rng.chance(1, 2) { Seg::N(num(rng)) } else { Seg::S(rng.pick(&["foo", "ubuntu", "abc", "zzz", "a1"]).to_string()) }).collect()
        } else { vec![] },
    }
}
// a version close to v, so that the interesting boundaries are hit
fn near(rng: &mut Rng, v: &V) -> V {
    let mut c = v.clone();
    for _ in 0..rng.range(0, 3) {
        match rng.below(11) {
            0 => { let i = rng.below(c.rel.len()); c.rel[i] = c.rel[i].saturating_add(1).min(u32::MAX - 1); }
            1 => { let i = rng.below(c.rel.len()); c.rel[i] = c.rel[i].saturating_sub(1); }
            2 => c.rel.push(*rng.pick(&[0, 0, 1])),
            3 => { if c.rel.len() > 1 { c.rel.pop(); } }
            4 => c.pre = match c.pre { None => Some((rng.range(1, 3) as u8, rng.below(3) as u32)), Some((l, n)) => *rng.pick(&[None, Some((l, n.saturating_add(1).min(u32::MAX - 1))), Some((l, n.saturating_sub(1))), Some((l % 3 + 1, n))]) },
            5 => c.post = match c.post { None => Some(rng.below(3) as u32), Some(n) => *rng.pick(&[None, Some(n.saturating_add(1).min(u32::MAX - 1)), Some(n.saturating_sub(1))]) },
            6 => c.dev = match c.dev { None => Some(rng.below(3) as u32), Some(n) => *rng.pick(&[None, Some(n.saturating_add(1).min(u32::MAX - 1)), Some(n.saturating_sub(1))]) },
            7 => c.local = vec![],
            8 => c.local.push(if rng.chance(1, 2) { Seg::N(rng.below(3) as u32) } else { Seg::S("foo".into()) }),
            9 => { c.pre = None; c.post = None; c.dev = None; c.local = vec![]; }
            _ => { if rng.chance(1, 4) { c.epoch ^= 1; } }
        }
    }
    c
}

fn one(rep: &mut Report, rng: &mut Rng, op: &str, v: &V, wild: bool, c: &V) {
    let vs = format!("{}{}", v.show(rng), if wild { ".*" } else { "" });
    let cs = c.show(rng);
    let desc = format!("{} against {} {}", cs, op, vs);
    let want = pep440(op, v, wild, c);
    rep.case(&desc, want.is_some());
    let got = rep.run(&desc, || -> Result<(Version, Option<bool>)> {
        let cv: Version = cs.as_str().try_into()?;
        let spec = Specifier { op: op.try_into()?, value: vs.clone() };
        Ok((cv.clone(), spec.satisfied_by(&cv).ok()))
    });
    match got {
        Some(Ok((_, got))) => { rep.check(got == want, op, &desc, || format!("PEP 440 says {:?}, posy says {:?} (None = rejected)", want, got)); }
        Some(Err(e)) => rep.fail("parse", &desc, &format!("{:#}", e)),
        None => {}
    }
}

#[test]
fn v_r01_grid() {
    let mut rep = Report::new("R01", "v_r01_grid",
        "every operator (and .* with == and !=) with every specifier version of a grid (releases 0..2 segments over {0,1}, pre/post/dev/local absent or small) against every candidate of the same grid; non-trivial when PEP 440 allows the specifier");
    let mut rng = Rng::new("r01g");
    let mut grid = Vec::new();
    for rel in [vec![1], vec![1, 0], vec![1, 1], vec![0]] {
        for pre in [None, Some((1, 0)), Some((1, 1)), Some((3, 1))] {
            for post in [None, Some(0), Some(1)] {
                for dev in [None, Some(0), Some(1)] {
                    for local in [vec![], vec![Seg::S("foo".into())], vec![Seg::S("foo".into()), Seg::N(1)]] {
                        if !local.is_empty() && rel.len() > 1 && pre.is_some() && post.is_some() { continue; }
                        grid.push(V { epoch: 0, rel: rel.clone(), pre, post, dev, local: local.clone() });
                    }
                }
            }
        }
    }
    // parse once; the texts are in canonical spelling
    let plain = |v: &V| {
        let mut s = v.rel.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
        if let Some((l, n)) = v.pre { s += &format!("{}{}", ["", "a", "b", "rc"][l as usize], n); }
        if let Some(n) = v.post { s += &format!(".post{}", n); }
        if let Some(n) = v.dev { s += &format!(".dev{}", n); }
        if !v.local.is_empty() { s.push('+'); s += &v.local.iter().map(|x| match x { Seg::S(a) => a.clone(), Seg::N(n) => n.to_string() }).collect::<Vec<_>>().join("."); }
        s
    };
    let texts: Vec<String> = grid.iter().map(plain).collect();
    let parsed: Vec<Version> = texts.iter().map(|t| t.as_str().try_into().unwrap()).collect();
    rep.exhaustive();
    let _ = &mut rng;
    for (i, v) in grid.iter().enumerate() {
        for (op, wild) in OPS.iter().map(|o| (*o, false)).chain([("==", true), ("!=", true), ("<", true)]) {
            let value = format!("{}{}", texts[i], if wild { ".*" } else { "" });
            let sd = format!("{} {} against the whole grid", op, value);
            let ranges = match rep.run(&sd, || Specifier { op: op.try_into().unwrap(), value: value.clone() }.to_ranges().ok()) { Some(r) => r, None => continue };
            let mut bad = None;
            for (j, c) in grid.iter().enumerate() {
                let want = pep440(op, v, wild, c);
                let got = ranges.as_ref().map(|rs| rs.iter().any(|r| r.contains(&parsed[j])));
                if want != got && bad.is_none() { bad = Some((j, want, got)); }
            }
            rep.case(&sd, ranges.is_some());
            if let Some((j, want, got)) = bad {
                rep.fail(op, &format!("{} against {} {}", texts[j], op, value), &format!("PEP 440 says {:?}, posy says {:?} (None = rejected)", want, got));
            }
        }
    }
}

#[test]
fn v_r01_random() {
    let mut rep = Report::new("R01", "v_r01_random",
        "random operator, specifier version and candidate (half of them a few edits away from the specifier version), in varied spellings, components up to 2^32-2; non-trivial when PEP 440 allows the specifier");
    let mut rng = Rng::new("r01r");
    for _ in 0..cases(60000, 25) {
        let v = gen(&mut rng, true);
        let c = if rng.chance(2, 3) { near(&mut rng, &v) } else { gen(&mut rng, true) };
        let op = *rng.pick(OPS);
        let wild = rng.chance(1, 4);
        one(&mut rep, &mut rng, op, &v, wild, &c);
    }
}

#[test]
fn v_r01_lists() {
    let mut rep = Report::new("R01", "v_r01_lists",
        "random comma-separated specifier lists parsed from text (0-4 members, varied spacing) against random candidates: the list holds exactly when every member does; non-trivial with two or more members");
    let mut rng = Rng::new("r01l");
    for _ in 0..cases(20000, 20) {
        let base = gen(&mut rng, false);
        let n = rng.range(1, 4);
        let mut text = String::new();
        let mut want = Some(true);
        let c = near(&mut rng, &base);
        for i in 0..n {
            let v = near(&mut rng, &base);
            let op = *rng.pick(OPS);
            let wild = rng.chance(1, 6);
            if i > 0 { text += *rng.pick(&[",", ", ", " , "]); }
            text += op;
            text += *rng.pick(&["", " "]);
            text += &v.show(&mut rng);
            if wild { text += ".*"; }
            want = match (want, pep440(op, &v, wild, &c)) { (Some(a), Some(b)) => Some(a && b), _ => None };
        }
        let cs = c.show(&mut rng);
        let desc = format!("{} against {:?}", cs, text);
        rep.case(&desc, n > 1);
        let got = rep.run(&desc, || -> Result<Option<bool>> {
            let cv: Version = cs.as_str().try_into()?;
            let specs: Specifiers = match text.as_str().try_into() { Ok(s) => s, Err(_) => return Ok(None) };
            // a member that is false may hide a later forbidden one: ask every member
            if specs.0.iter().any(|s| s.to_ranges().is_err()) { return Ok(None); }
            if specs.0.len() != n { bail!("{} members parsed", specs.0.len()); }
            Ok(Some(specs.satisfied_by(&cv)?))
        });
        match got {
            Some(Ok(g)) => { rep.check(g == want, "list", &desc, || format!("expected {:?}, got {:?}", want, g)); }
            Some(Err(e)) => rep.fail("list", &desc, &format!("{:#}", e)),
            None => {}
        }
    }
}

#[test]
fn v_r01_order() {
    let mut rep = Report::new("R01", "v_r01_order",
        "random pairs of versions: posy's order against PEP 440's, is_prerelease, and that the smallest version lies below and the largest above; every case is non-trivial");
    let mut rng = Rng::new("r01o");
    for _ in 0..cases(40000, 20) {
        let a = gen(&mut rng, true);
        let b = if rng.chance(1, 2) { near(&mut rng, &a) } else { gen(&mut rng, true) };
        let (x, y) = (a.show(&mut rng), b.show(&mut rng));
        let desc = format!("{} vs {}", x, y);
        rep.case(&desc, true);
        let r = rep.run(&desc, || -> Result<Vec<String>> {
            let (va, vb): (Version, Version) = (x.as_str().try_into()?, y.as_str().try_into()?);
            let mut e = vec![];
            if va.cmp(&vb) != cmp_full(&a, &b) { e.push(format!("order {:?}, expected {:?}", va.cmp(&vb), cmp_full(&a, &b))); }
            if (va == vb) != (cmp_full(&a, &b) == Ordering::Equal) { e.push("equality".into()); }
            if va.is_prerelease() != a.is_pre() { e.push(format!("is_prerelease {}", va.is_prerelease())); }
            if va < *VERSION_ZERO || va >= *VERSION_INFINITY { e.push("outside [VERSION_ZERO, VERSION_INFINITY)".into()); }
            // pubgrub relies on bump() being above the version and admitting nothing public in between
            let n = va.next();
            if n <= va { e.push(format!("next {} is not larger", n)); }
            let inside = vb >= va && vb < n;
            let want = if a.local.is_empty() { cmp_pub(&a, &b) == Ordering::Equal } else { cmp_full(&a, &b) == Ordering::Equal };
            if inside != want { e.push(format!("[v, next(v)) with next(v) = {}: contains the second one: {}, expected {}", n, inside, want)); }
            Ok(e)
        });
        match r {
            Some(Ok(es)) => for e in es { rep.fail("order", &desc, &e); },
            Some(Err(e)) => rep.fail("parse", &desc, &format!("{:#}", e)),
            None => {}
        }
    }
}
