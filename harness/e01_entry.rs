//@attach src/vocab/entry_points.rs
// E01: entry point files against an independent line-based reading
use super::*;
use crate::verif_support::*;

fn ident_ok(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.')
}
type Sections = Vec<(String, Vec<(String, String, Option<String>)>)>;
// None: must be refused
fn oracle(text: &str) -> Option<Sections> {
    let mut out: Sections = Vec::new();
    let mut cur: Option<usize> = None;
    for line in text.split('\n') {
        let line = match line.find(|c| c == '#' || c == ';') { Some(i) => &line[..i], None => line };
        let line = line.trim();
        if line.is_empty() { continue }
        if line.starts_with('[') && line.ends_with(']') && line.len() > 2 {
            let name = line[1..line.len() - 1].to_string();
            cur = Some(match out.iter().position(|s| s.0 == name) { Some(i) => i, None => { out.push((name, vec![])); out.len() - 1 } });
            continue;
        }
        let (name, value) = line.split_once('=')?;
        let (name, mut value) = (name.trim(), value.trim());
        if name.is_empty() { return None }
        if value.ends_with(']') { if let Some(i) = value.find('[') { value = value[..i].trim_end(); } }
        let (module, object) = match value.split_once(':') { Some((m, o)) => (m.trim(), Some(o.trim())), None => (value, None) };
        if !ident_ok(module) || !object.map_or(true, ident_ok) { return None }
        out[cur?].1.push((name.into(), module.into(), object.map(|s| s.into())));
    }
    out.retain(|s| !s.1.is_empty());
    out.sort();
    Some(out)
}
fn check(rep: &mut Report, text: &str) {
    rep.case(text, text.contains('='));
    let got = match rep.run(text, || parse_entry_points(text)) { Some(g) => g.ok(), None => return };
    let got = got.map(|m| { let mut v: Sections = m.into_iter().map(|(k, es)| (k, es.into_iter().map(|e| (e.name, e.module, e.object)).collect::<Vec<_>>())).filter(|s: &(String, Vec<_>)| !s.1.is_empty()).collect(); v.sort(); v });
    let want = oracle(text);
    match (&want, &got) {
        (None, Some(g)) => rep.fail("accepted", text, &format!("accepted as {:?}", g)),
        (Some(w), None) => rep.fail("refused", text, &format!("refused; it spells {:?}", w)),
        (Some(w), Some(g)) => { rep.check(w == g, "entries", text, || format!("got {:?}\nexpected {:?}", g, w)); }
        _ => {}
    }
}
fn pick<'a>(rng: &mut Rng, xs: &[&'a str]) -> &'a str { *rng.pick(xs) }
fn line(rng: &mut Rng) -> String {
    let ws = |rng: &mut Rng| pick(rng, &["", "", " ", "  ", "\t"]).to_string();
    match rng.below(12) {
        0 => ws(rng),
        1 => format!("{}{} comment = x:y", ws(rng), pick(rng, &["#", ";"])),
        2 | 3 => format!("{}[{}]{}{}", ws(rng), pick(rng, &["console_scripts", "gui_scripts", "a.b", "x", "foo bar"]), ws(rng), pick(rng, &["", "", " # c", "\r"])),
        4 if rng.chance(1, 3) => pick(rng, &["junk", "= a:b", "x =", "x = 1a", "x = a:1", "x = a:b:c", "x = :b", "[", "[]", "x = a b", "x = a [b] c", "x : a", "x = a-b"]).to_string(),
        _ => format!("{}{}{}={}{}{}{}{}", ws(rng), pick(rng, &["foo", "f", "foo-bar", "foo.py", "a b", "F_1", "x[1]", "../x", "a:b"]), ws(rng), ws(rng),
            pick(rng, &["m", "mod", "mod.sub", "_m", "a.b.c", "M1"]),
            if rng.chance(3, 4) { format!("{}:{}{}", ws(rng), ws(rng), pick(rng, &["o", "main", "Cls.run", "_x", "a.b.c.d"])) } else { String::new() },
            if rng.chance(1, 4) { format!("{}[{}]", ws(rng), pick(rng, &["", "bar", "bar, baz"])) } else { String::new() },
            pick(rng, &["", "", " ", "\t ", " # c", ";c", "\r"])),
    }
}
#[test]
fn v_e01_parse() {
    let mut rep = Report::new("E01", "v_e01_parse", "random entry point files of up to 9 lines (sections repeated, comments, blanks, CRLF, extras, malformed lines); non-trivial: has an entry");
    let mut rng = Rng::new("e01");
    for t in ["", "\n\n", "a = b\n", "[s]\na = b", "[s]\na = b:c\n[s]\nd = e:f\n", "[s]\n[t]\na=b", "[s]\r\na = b:c\r\n", "[s]\n = b\n", "[console_scripts]\nx = m:o [e]\n# c\n\ny=n:p\n"] { check(&mut rep, t); }
    for i in 0..cases(40000, 20) {
        let n = rng.below(10);
        let mut ls: Vec<String> = (0..n).map(|_| line(&mut rng)).collect();
        if i % 3 != 0 { ls.insert(0, format!("[{}]", pick(&mut rng, &["console_scripts", "x"]))); }
        let t = ls.join("\n"); check(&mut rep, &t);
    }
}
