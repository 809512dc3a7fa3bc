//@attach src/vocab/requirement.rs
// Q01: requirement texts against a parser of their own, and printed and read again
use super::*;
use super::marker::*;
use crate::verif_support::*;

#[derive(Clone, Debug, PartialEq)]
enum V { Var(String), Lit(String) }
#[derive(Clone, Debug, PartialEq)]
enum M { And(Box<M>, Box<M>), Or(Box<M>, Box<M>), Op(V, String, V) }
#[derive(Clone, Debug, PartialEq)]
struct Q { name: String, extras: Vec<String>, specs: Vec<(String, String)>, marker: Option<M> }
const VARS: &[&str] = &["python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system", "platform_version", "platform_machine", "platform_python_implementation", "implementation_name", "implementation_version", "extra"];
const OLD: &[(&str, &str)] = &[("os.name", "os_name"), ("sys.platform", "sys_platform"), ("platform.version", "platform_version"), ("platform.machine", "platform_machine"), ("platform.python_implementation", "platform_python_implementation"), ("python_implementation", "platform_python_implementation")];
const CMP: &[&str] = &["<=", "<", "!=", "==", ">=", ">", "~="];
const STR: &str = " \t()._{}-*#:;,/?[]!~`@$%^&=+|<>";
// ---- reading, by hand
struct P<'a> { s: &'a [u8], i: usize, extra: bool }
impl<'a> P<'a> {
    fn at(&self, t: &str) -> bool { self.s[self.i..].starts_with(t.as_bytes()) }
    fn eat(&mut self, t: &str) -> bool { let r = self.at(t); if r { self.i += t.len(); } r }
    fn sp(&mut self) -> usize { let a = self.i; while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } self.i - a }
    fn run(&mut self, ok: impl Fn(char) -> bool) -> String { let a = self.i; while self.i < self.s.len() && ok(self.s[self.i] as char) { self.i += 1; } String::from_utf8(self.s[a..self.i].to_vec()).unwrap() }
    fn ident(&mut self) -> Option<String> {
        let t = self.run(|c| c.is_ascii_alphanumeric() || "-_.".contains(c));
        if t.is_empty() || !t.starts_with(|c: char| c.is_ascii_alphanumeric()) || !t.ends_with(|c: char| c.is_ascii_alphanumeric()) { None } else { Some(t) }
    }
    fn cmp(&mut self) -> Option<String> { if self.at("===") { return None } CMP.iter().find(|o| self.at(o)).map(|o| { self.i += o.len(); o.to_string() }) }
    fn specs(&mut self) -> Option<Vec<(String, String)>> {
        let mut r = Vec::new();
        loop {
            self.sp();
            let o = self.cmp()?;
            self.sp();
            let v = self.run(|c| c.is_ascii_alphanumeric() || "-_.*+!".contains(c));
            if v.is_empty() { return None }
            r.push((o, v));
            let back = self.i;
            self.sp();
            if !self.eat(",") { self.i = back; return Some(r) }
        }
    }
    fn spec(&mut self) -> Option<Vec<(String, String)>> { if self.eat("(") { let r = self.specs()?; if self.eat(")") { Some(r) } else { None } } else { self.specs() } }
    fn value(&mut self) -> Option<V> {
        self.sp();
        for q in ["'", "\""] { if self.eat(q) { let other = if q == "'" { '"' } else { '\'' }; let t = self.run(|c| c.is_ascii_alphanumeric() || STR.contains(c) || c == other); return if self.eat(q) { Some(V::Lit(t)) } else { None } } }
        for v in VARS { if self.at(v) && (*v != "extra" || self.extra) { self.i += v.len(); return Some(V::Var(v.to_string())) } }
        for (o, v) in OLD { if self.eat(o) { return Some(V::Var(v.to_string())) } }
        None
    }
    fn one(&mut self) -> Option<M> {
        self.sp();
        if self.eat("(") { let m = self.marker()?; self.sp(); return if self.eat(")") { Some(m) } else { None } }
        let a = self.value()?;
        self.sp();
        let o = if let Some(o) = self.cmp() { o } else if self.eat("in") { "in".into() } else if self.eat("not") { if self.sp() == 0 || !self.eat("in") { return None } "not in".to_string() } else { return None };
        Some(M::Op(a, o, self.value()?))
    }
    fn and(&mut self) -> Option<M> {
        let a = self.one()?;
        let back = self.i;
        self.sp();
        if self.eat("and") { Some(M::And(Box::new(a), Box::new(self.and()?))) } else { self.i = back; Some(a) }
    }
    fn marker(&mut self) -> Option<M> {
        let a = self.and()?;
        let back = self.i;
        self.sp();
        if self.eat("or") { Some(M::Or(Box::new(a), Box::new(self.marker()?))) } else { self.i = back; Some(a) }
    }
    fn req(&mut self) -> Option<Q> {
        self.sp();
        let name = self.ident()?;
        self.sp();
        let mut extras = Vec::new();
        if self.eat("[") {
            self.sp();
            if !self.at("]") { loop { extras.push(self.ident()?); self.sp(); if self.eat(",") { self.sp(); } else { break } } }
            if !self.eat("]") { return None }
        }
        self.sp();
        let specs = if self.i < self.s.len() && !self.at(";") { self.spec()? } else { vec![] };
        self.sp();
        let marker = if self.eat(";") { Some(self.marker()?) } else { None };
        self.sp();
        if self.i == self.s.len() { Some(Q { name, extras, specs, marker }) } else { None }
    }
}
fn read(s: &str, extra: bool) -> Option<Q> { P { s: s.as_bytes(), i: 0, extra }.req() }
fn read_marker(s: &str) -> Option<M> { let mut p = P { s: s.as_bytes(), i: 0, extra: false }; let m = p.marker()?; if p.i == s.len() { Some(m) } else { None } }
fn read_specs(s: &str) -> Option<Vec<(String, String)>> { let mut p = P { s: s.as_bytes(), i: 0, extra: false }; let m = p.spec()?; if p.i == s.len() { Some(m) } else { None } }
// ---- what the code made of it, in the same shape
fn v_of(v: &Value) -> V { match v { Value::Variable(x) => V::Var(x.clone()), Value::Literal(x) => V::Lit(x.clone()) } }
fn op_of(o: CompareOp) -> &'static str { match o { CompareOp::LessThanEqual => "<=", CompareOp::StrictlyLessThan => "<", CompareOp::NotEqual => "!=", CompareOp::Equal => "==", CompareOp::GreaterThanEqual => ">=", CompareOp::StrictlyGreaterThan => ">", CompareOp::Compatible => "~=" } }
fn m_of(m: &EnvMarkerExpr) -> M { match m {
    EnvMarkerExpr::And(a, b) => M::And(Box::new(m_of(a)), Box::new(m_of(b))),
    EnvMarkerExpr::Or(a, b) => M::Or(Box::new(m_of(a)), Box::new(m_of(b))),
    EnvMarkerExpr::Operator { op, lhs, rhs } => M::Op(v_of(lhs), match op { Op::Compare(c) => op_of(*c).to_string(), Op::In => "in".into(), Op::NotIn => "not in".into() }, v_of(rhs)),
} }
fn s_of(s: &Specifiers) -> Vec<(String, String)> { s.0.iter().map(|x| (op_of(x.op).to_string(), x.value.clone())).collect() }
fn q_of(r: &Requirement) -> Q { Q { name: r.name.as_given().to_string(), extras: r.extras.iter().map(|e| e.as_given().to_string()).collect(), specs: s_of(&r.specifiers), marker: r.env_marker_expr.as_ref().map(m_of) } }
// ---- texts
fn ident(rng: &mut Rng) -> String { let n = rng.below(4); let mut s = String::from(*rng.pick(&["a", "B", "9", "foo", "Zope", "in", "not", "and"])); for _ in 0..n { s.push_str(*rng.pick(&["-", "_", ".", "x", "7", "or"])); } if rng.chance(4, 5) { s.push_str(*rng.pick(&["1", "q", "IN"])); } s }
fn space(rng: &mut Rng) -> &'static str { *rng.pick(&["", "", " ", " ", "\t", "  "]) }
fn lit(rng: &mut Rng) -> String {
    let q = *rng.pick(&['\'', '"']);
    let other = if q == '\'' { '"' } else { '\'' };
    let n = rng.below(6);
    let mut t: String = (0..n).map(|_| match rng.below(4) { 0 => STR.chars().nth(rng.below(STR.len())).unwrap(), 1 => other, _ => *rng.pick(&['a', 'Z', '3', '.', ')', '(', 'o', 'r']) }).collect();
    if rng.chance(1, 30) { t.push(*rng.pick(&['\\', '\n', '\u{e9}', '"', '\''])); }
    format!("{q}{t}{q}")
}
fn val(rng: &mut Rng, extra: bool) -> String { match rng.below(7) { 0 | 1 | 2 => { let v = *rng.pick(VARS); if v == "extra" && !extra { "os_name".into() } else { v.into() } } 3 => rng.pick(OLD).0.into(), 4 if rng.chance(1, 8) => rng.pick(&["python", "extras", "platform", "OS_NAME", "python-version"]).to_string(), _ => lit(rng) } }
fn mark(rng: &mut Rng, depth: usize, extra: bool) -> String {
    let m = match if depth == 0 { 0 } else { rng.below(5) } {
        0 | 1 => { let o = match rng.below(9) { 0 => "in".to_string(), 1 => format!("not{}in", rng.pick(&[" ", "\t ", " ", ""])), 2 if rng.chance(1, 6) => "===".into(), k => CMP[k % 7].to_string() }; format!("{}{}{}{}{}", val(rng, extra), space(rng), o, space(rng), val(rng, extra)) }
        2 => format!("{}{}({}){}", space(rng), space(rng), mark(rng, depth - 1, extra), space(rng)),
        k => { let (a, b) = (mark(rng, depth - 1, extra), mark(rng, depth - 1, extra)); format!("{a}{}{}{}{b}", if rng.chance(1, 6) { "" } else { " " }, if k == 3 { "and" } else { "or" }, space(rng)) }
    };
    if rng.chance(1, 6) { format!("({m})") } else { m }
}
fn specs(rng: &mut Rng) -> String {
    let n = rng.range(1, 3);
    let l: Vec<String> = (0..n).map(|_| format!("{}{}{}{}", space(rng), if rng.chance(1, 15) { "===" } else { *rng.pick(CMP) }, space(rng), rng.pick(&["1", "2.0.*", "1!3", "0a1.dev2", "1.0+local-x_y", "7-1", "x*", "1.0rc1"]))).collect();
    let t = l.join(*rng.pick(&[",", " ,", ", ", "\t, "]));
    if rng.chance(1, 3) { format!("({t})") } else { t }
}
fn text(rng: &mut Rng, extra: bool) -> String {
    let mut t = format!("{}{}{}", space(rng), ident(rng), space(rng));
    if rng.chance(1, 3) { let n = rng.below(4); let l: Vec<String> = (0..n).map(|_| ident(rng)).collect(); t += &format!("[{}{}{}]", space(rng), l.join(*rng.pick(&[",", " , ", ",\t"])), space(rng)); }
    t += space(rng);
    if rng.chance(1, 2) { t += &specs(rng); }
    if rng.chance(1, 25) { t += "@ https://x/y.whl"; }
    if rng.chance(2, 3) { let d = rng.below(4); t += &format!("{};{}{}", space(rng), space(rng), mark(rng, d, extra)); }
    t + space(rng)
}
fn damage(rng: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(c.len() + 1);
        match rng.below(3) { 0 if i < c.len() => { c.remove(i); } 1 if i < c.len() => { c[i] = *rng.pick(&['(', ')', '\'', '"', ' ', ';', ',', '=', 'x', '-', '[', ']', '@']); } _ => c.insert(i, *rng.pick(&['(', ')', '\'', '"', ' ', ';', ',', '=', '<', 'a', '.', '\n'])) }
    }
    c.into_iter().collect()
}
fn check(r: &mut Report, t: &str, extra: bool) {
    let d = format!("{t:?} extra={extra}");
    let want = read(t, extra);
    r.case(&d, want.as_ref().map(|q| q.marker.is_some()).unwrap_or(false));
    let got = r.run(&d, || if extra { PackageRequirement::try_from(t).ok().map(|x| x.0) } else { UserRequirement::try_from(t).ok().map(|x| x.0) });
    let Some(got) = got else { return };
    if !r.check(got.as_ref().map(q_of) == want, "reading", &d, || format!("read as {:?}, must be {:?}", got.as_ref().map(q_of), want)) { return }
    if let Some(q) = got {
        let again = if extra { PackageRequirement(q.clone()).to_string() } else { UserRequirement(q.clone()).to_string() };
        let back = r.run(&d, || Requirement::parse(&again, if extra { ParseExtra::Allowed } else { ParseExtra::NotAllowed }).ok());
        r.check(back.as_ref().map(|b| b.as_ref().map(q_of)) == Some(want.clone()), "round-trip", &d, || format!("printed as {again:?}, which reads as {:?}", back.map(|b| b.map(|b| q_of(&b)))));
        // an interpreter requirement: the same, without extras and marker
        let py = r.run(&d, || PythonRequirement::try_from(t).ok());
        let w = read(t, false).filter(|w| w.extras.is_empty() && w.marker.is_none());
        r.check(py.as_ref().map(|p| p.as_ref().map(|p| q_of(&p.0))) == Some(w.clone()), "python", &d, || format!("as an interpreter requirement {:?}, must be {:?}", py.as_ref().map(|p| p.as_ref().map(|p| q_of(&p.0))), w));
    }
}
#[test]
fn v_q01_requirements() {
    let mut r = Report::new("Q01", "v_q01_requirements", "random requirement texts (names, extras, version lists, markers up to four operators deep, any spacing, old variable names, some damaged), read with and without 'extra' allowed by the code and by a parser written for this check; what is accepted is printed and read again. Non-trivial: accepted, with a marker");
    let mut rng = Rng::new("q01");
    for v in VARS { for o in CMP.iter().chain(&["in", "not in"]) { for e in [true, false] { check(&mut r, &format!("a;{v}{o}'x'"), e); check(&mut r, &format!("a; \"x\" {o} {v}"), e); } } }
    for (v, _) in OLD { check(&mut r, &format!("a; {v} == 'x'"), false); }
    for c in 0..=0x7fu8 { for t in [format!("a; os_name == '{}'", c as char), format!("a; os_name == \"{}\"", c as char), format!("a{}b", c as char), format!("a [x{}y]", c as char), format!("a >= 1{}2", c as char), format!("a{}", c as char)] { check(&mut r, &t, false); } }
    for i in 0..cases(40000, 15) {
        let extra = rng.chance(1, 2);
        let allow = extra || rng.chance(1, 6);
        let mut t = text(&mut rng, allow);
        if i % 3 == 0 { t = damage(&mut rng, &t); }
        check(&mut r, &t, extra);
    }
}
#[test]
fn v_q01_parts() {
    let mut r = Report::new("Q01", "v_q01_parts", "random markers and version lists on their own, as in v_q01_requirements. Non-trivial: accepted");
    let mut rng = Rng::new("q01p");
    for i in 0..cases(15000, 15) {
        let d = rng.below(4);
        let mut t = mark(&mut rng, d, i % 9 == 0);
        if i % 4 == 0 { t = damage(&mut rng, &t); }
        let want = read_marker(&t);
        let d = format!("marker {t:?}");
        r.case(&d, want.is_some());
        let got = r.run(&d, || StandaloneMarkerExpr::try_from(t.as_str()).ok());
        let Some(got) = got else { continue };
        if r.check(got.as_ref().map(|m| m_of(&m.0)) == want, "reading", &d, || format!("read as {:?}, must be {:?}", got.as_ref().map(|m| m_of(&m.0)), want)) {
            if let Some(m) = got { let p = m.to_string(); let back = r.run(&d, || StandaloneMarkerExpr::try_from(p.as_str()).ok()); r.check(back == Some(Some(m)), "round-trip", &d, || format!("printed as {p:?}, which reads as {back:?}")); }
        }
        let mut t = specs(&mut rng);
        if i % 4 == 0 { t = damage(&mut rng, &t); }
        let want = if t.is_empty() { None } else { read_specs(&t) };
        let d = format!("versions {t:?}");
        r.case(&d, want.is_some());
        let got = r.run(&d, || Specifiers::try_from(t.as_str()).ok());
        let Some(got) = got else { continue };
        if t.is_empty() { continue }
        if r.check(got.as_ref().map(s_of) == want, "reading", &d, || format!("read as {:?}, must be {:?}", got.as_ref().map(s_of), want)) {
            if let Some(m) = got { let p = m.to_string(); let back = r.run(&d, || Specifiers::try_from(p.as_str()).ok()); r.check(back == Some(Some(m)), "round-trip", &d, || format!("printed as {p:?}, which reads as {back:?}")); }
        }
    }
}
#[test]
fn v_q01_long() {
    let mut r = Report::new("Q01", "v_q01_long", "markers with up to 60 operators in a row or parentheses 60 deep, read, printed and read again (60 s at most each). Non-trivial: all");
    for n in [5usize, 10, 20, 40, 60] {
        for (k, t) in [vec!["os_name == 'a'"; n].join(" and "), vec!["os_name == 'a'"; n].join(" or "), format!("{}os_name == 'a'{}", "(".repeat(n), ")".repeat(n)), (0..n).fold("extra == 'a'".to_string(), |m, i| if i % 2 == 0 { format!("({m}) and os_name in 'b'") } else { format!("os_name in 'b' or ({m})") })].into_iter().enumerate() {
            let t = format!("a; {t}");
            let d = format!("shape {k}, {n} long");
            r.case(&d, true);
            let want = read(&t, true);
            let got = r.run(&d, || Requirement::parse(&t, ParseExtra::Allowed).ok()).flatten();
            if !r.check(got.as_ref().map(q_of) == want && want.is_some(), "reading", &d, || format!("read as {:?}", got.as_ref().map(q_of))) { continue }
            let p = got.unwrap().to_string();
            let back = r.run(&d, || Requirement::parse(&p, ParseExtra::Allowed).ok()).flatten();
            r.check(back.as_ref().map(q_of) == want, "round-trip", &d, || format!("printed as {p:?}"));
        }
    }
}
