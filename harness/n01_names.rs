//@attach src/vocab/package_name.rs
// N01: names against PEP 503 / PEP 508 written out character by character
use super::*;
use crate::verif_support::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn valid(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    !c.is_empty() && c[0].is_ascii_alphanumeric() && c[c.len() - 1].is_ascii_alphanumeric() && c.iter().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(*c))
}
fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut sep = false;
    for c in s.chars() {
        if "-_.".contains(c) { if !sep { o.push('-') } sep = true } else { o.push(c.to_ascii_lowercase()); sep = false }
    }
    o
}
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn one(rep: &mut Report, s: &str) -> Option<PackageName> {
    let d = format!("{:?}", s);
    rep.case(&d, valid(s) && norm(s) != s);
    let p = rep.run(&d, || PackageName::try_from(s))?;
    let e = rep.run(&d, || Extra::try_from(s))?;
    rep.check(p.is_ok() == valid(s), "accept", &d, || format!("accepted: {}", p.is_ok()));
    rep.check(e.is_ok() == valid(s), "accept-extra", &d, || format!("extra accepted: {}", e.is_ok()));
    if let Ok(e) = e {
        rep.check(e.normalized() == norm(s), "norm-extra", &d, || format!("normalized {:?}", e.normalized()));
        rep.check(e.as_given() == s, "given-extra", &d, || format!("as given {:?}", e.as_given()));
    }
    let p = p.ok()?;
    rep.check(p.normalized() == norm(s), "norm", &d, || format!("normalized {:?}", p.normalized()));
    rep.check(p.as_given() == s, "given", &d, || format!("as given {:?}", p.as_given()));
    let js = serde_json::to_string(&p).unwrap();
    let back: PackageName = serde_json::from_str(&js).unwrap();
    rep.check(back.as_given() == s && back.normalized() == norm(s), "serde", &d, || js);
    Some(p)
}
fn pair(rep: &mut Report, a: &PackageName, b: &PackageName) {
    let d = format!("{:?} and {:?}", a.as_given(), b.as_given());
    let (x, y) = (norm(a.as_given()), norm(b.as_given()));
    rep.case(&d, x == y && a.as_given() != b.as_given());
    rep.check((a == b) == (x == y), "eq", &d, || format!("equal: {}", a == b));
    rep.check((a.cmp(b) == Ordering::Equal) == (x == y), "cmp", &d, || format!("cmp gives {:?}", a.cmp(b)));
    rep.check(a.partial_cmp(b) == Some(a.cmp(b)), "partial-cmp", &d, || format!("partial_cmp {:?}, cmp {:?}", a.partial_cmp(b), a.cmp(b)));
    rep.check(a.cmp(b) == b.cmp(a).reverse(), "cmp-sym", &d, || "cmp is not antisymmetric".into());
    if x == y { rep.check(h(a) == h(b), "hash", &d, || "equal names hash differently".into()); }
    let (ea, eb) = (Extra::try_from(a.as_given()), Extra::try_from(b.as_given()));
    if let (Ok(ea), Ok(eb)) = (ea, eb) {
        rep.check((ea == eb) == (x == y), "eq-extra", &d, || format!("equal as extras: {}", ea == eb));
        if x == y { rep.check(h(&ea) == h(&eb), "hash-extra", &d, || "equal extras hash differently".into()); }
    }
}

#[test]
fn v_n01_short() {
    let mut rep = Report::new("N01", "v_n01_short", "every string of up to 5 characters over {a,B,7,-,_,.} plus a blank and a non-ASCII letter, as package name and as extra; every pair of the accepted ones of up to 4; non-trivial: a valid name that is not in normal form, or different spellings of the same name");
    let abc: Vec<char> = "aB7-_. \u{e9}".chars().collect();
    let mut all: Vec<String> = vec![String::new()];
    let mut lvl = all.clone();
    for _ in 0..5 {
        lvl = lvl.iter().flat_map(|s| abc.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(lvl.iter().cloned());
    }
    let mut names = Vec::new();
    for s in &all { if let Some(p) = one(&mut rep, s) { if s.len() <= 4 && s.starts_with('a') { names.push(p) } } }
    for a in &names { for b in &names { pair(&mut rep, a, b); } }
    rep.exhaustive();
}

#[test]
fn v_n01_long() {
    let mut rep = Report::new("N01", "v_n01_long", "random names of up to 40 characters with runs of separators, line ends and letters that only case-fold to ASCII, and respellings of each; non-trivial as in v_n01_short");
    let mut rng = Rng::new("n01");
    for _ in 0..cases(20000, 20) {
        let n = rng.range(1, 12);
        let s: String = (0..n).map(|_| *rng.pick(&["a", "b", "Z", "0", "-", "_", ".", "--", "-_.", "...", "foo", "\n", " ", "\u{212a}", "\u{17f}", "/", "+", "A"])).collect();
        let s = if rng.chance(2, 3) { s.chars().filter(|c| c.is_ascii_alphanumeric() || "-_.".contains(*c)).collect() } else { s };
        let p = one(&mut rep, &s);
        let t: String = s.chars().flat_map(|c| { let r = rng.below(4); if "-_.".contains(c) { (0..=r).map(|i| ['-', '_', '.'][(i + r) % 3]).collect::<Vec<_>>() } else if r == 0 { vec![c.to_ascii_uppercase()] } else if r == 1 { vec![c.to_ascii_lowercase()] } else { vec![c] } }).collect();
        let t = if rng.chance(1, 5) { t.replace('a', "b") } else { t };
        if let (Some(p), Some(q)) = (p, one(&mut rep, &t)) { pair(&mut rep, &p, &q); }
    }
}
