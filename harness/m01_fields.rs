//@attach src/vocab/rfc822ish.rs
// M01: the take helpers
use super::*;
use crate::verif_support::*;

#[test]
fn v_m01_take() {
    let mut r = Report::new("M01", "v_m01_take",
        "fields repeated 0-3 times and the three ways to take them, with keys in any case, repeatedly. Non-trivial: the field occurs");
    let mut rng = Rng::new("m01t");
    let keys = ["a", "b-c", "name", "x9"];
    for _ in 0..cases(6000, 10) {
        let mut model: HashMap<&str, Vec<String>> = HashMap::new();
        for k in keys { let n = rng.below(4); if n > 0 { model.insert(k, (0..n).map(|i| format!("{k}{i}{}", rng.below(100))).collect()); } }
        let mut f = RFC822ish { fields: model.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), body: None };
        let mut input = format!("{model:?}");
        for _ in 0..rng.range(1, 4) {
            let k = *rng.pick(&keys);
            let q: String = k.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            let have = model.remove(k).unwrap_or_default();
            let op = rng.below(3);
            input += &format!(" {}({q})", ["all", "maybe", "the"][op]);
            r.case(&input, !have.is_empty());
            let Some(got) = r.run(&input.clone(), || match op { 0 => Ok(f.take_all(&q)), 1 => f.maybe_take_the(&q).map(|x| x.into_iter().collect::<Vec<_>>()), _ => f.take_the(&q).map(|x| vec![x]) }) else { break };
            let want = match op { 0 => Some(have.clone()), 1 => if have.len() < 2 { Some(have.clone()) } else { None }, _ => if have.len() == 1 { Some(have.clone()) } else { None } };
            r.check(got.as_ref().ok() == want.as_ref(), "take", &input, || format!("{:?}, must be {want:?}", got.as_ref().map_err(|e| e.to_string())));
        }
    }
}

// line by line, as email.parser documents it
fn read_lines(t: &str) -> Option<(HashMap<String, Vec<String>>, Option<String>)> {
    let mut lines: Vec<(String, String)> = Vec::new(); // text and its line end
    let c: Vec<char> = t.chars().collect();
    let mut cur = String::new();
    let mut i = 0;
    while i < c.len() {
        let e = if c[i] == '\r' { if c.get(i + 1) == Some(&'\n') { "\r\n" } else { "\r" } } else if c[i] == '\n' { "\n" } else { "" };
        if e.is_empty() { cur.push(c[i]); i += 1 } else { lines.push((std::mem::take(&mut cur), e.into())); i += e.len() }
    }
    lines.push((cur, String::new()));
    let mut fields: HashMap<String, Vec<String>> = HashMap::new();
    let mut k = 0;
    while k < lines.len() {
        let l = &lines[k].0;
        let n = l.find(':').unwrap_or(0);
        if n == 0 || !l[..n].chars().all(|c| c.is_ascii_graphic()) { break }
        let mut v = l[n + 1..].trim_start_matches(|c| c == ' ' || c == '\t').to_string();
        let mut end = lines[k].1.clone();
        k += 1;
        while k < lines.len() && lines[k].0.starts_with([' ', '\t']) { v += &end; v += &lines[k].0; end = lines[k].1.clone(); k += 1 }
        fields.entry(l[..n].to_ascii_lowercase()).or_default().push(v);
    }
    let rest: String = lines[k.min(lines.len())..].iter().map(|(a, b)| format!("{a}{b}")).collect();
    if k == 0 {
        // no fields: nothing, a line end, or two and the body
        let l0 = &lines[0];
        if !l0.0.is_empty() { return None }
        if rest == l0.1 { return Some((fields, None)) }
        return if lines[1].0.is_empty() && !lines[1].1.is_empty() { Some((fields, Some(lines[2..].iter().map(|(a, b)| format!("{a}{b}")).collect()))) } else { None };
    }
    if rest.is_empty() { return Some((fields, None)) }
    if lines[k].0.is_empty() && !lines[k].1.is_empty() { return Some((fields, Some(lines[k + 1..].iter().map(|(a, b)| format!("{a}{b}")).collect()))) }
    None
}

#[test]
fn v_m01_lines() {
    let mut r = Report::new("M01", "v_m01_lines",
        "texts of 0-40 pieces (names, colons, blanks, the three line ends, letters, accents) against a reading line by line. Non-trivial: accepted with a field");
    let mut rng = Rng::new("m01l");
    let bits = ["Name", "a", "B-1", ":", ": ", ":\t", " ", "\t", "\n", "\n", "\r\n", "\r", "\n ", "\r\n\t", "x y", "\u{e9}", "Name: z\n", "\n\n", "\u{0b}", "\u{2028}", "~!", ";", "#9"];
    for _ in 0..cases(20000, 10) {
        let n = if rng.chance(1, 3) { rng.below(40) } else { rng.below(9) };
        let mut t: String = (0..n).map(|_| *rng.pick(&bits)).collect();
        if rng.chance(1, 2) { t = format!("{}: v{t}", rng.pick(&["Name", "x", "A"])) }
        let Some(got) = r.run(&t.clone(), || RFC822ish::parse(&t).ok().map(|x| (x.fields, x.body))) else { continue };
        let want = read_lines(&t);
        r.case(&t, want.as_ref().map_or(false, |w| !w.0.is_empty()));
        r.check(got == want, "lines", &t, || format!("{got:?}, must be {want:?}"));
    }
}
