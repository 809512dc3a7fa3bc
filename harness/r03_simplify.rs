//@attach src/resolve.rs
// R03: taking 'extra' out of a marker
use super::*;
use crate::verif_support::*;
use marker::{EnvMarkerExpr, Op, Value};

const VARS: &[&str] = &["python_version", "os_name", "sys_platform", "extra", "extra", "extra"];
const LITS: &[&str] = &["3.8", "3.10", "posix", "nt", "foo", "Foo", "foo-bar", "Foo_Bar", "FOO.bar", "", "bar", "foo bar", "1.0", "1-0", "fo", "quux-foo-bar"];
const COPS: &[CompareOp] = &[CompareOp::LessThanEqual, CompareOp::StrictlyLessThan, CompareOp::NotEqual, CompareOp::Equal, CompareOp::Equal, CompareOp::GreaterThanEqual, CompareOp::StrictlyGreaterThan, CompareOp::Compatible];

fn value(rng: &mut Rng) -> Value {
    if rng.chance(1, 2) { Value::Variable(rng.pick(VARS).to_string()) } else { Value::Literal(rng.pick(LITS).to_string()) }
}
fn expr(rng: &mut Rng, depth: usize) -> EnvMarkerExpr {
    if depth > 0 && rng.chance(3, 4) {
        let (a, b) = (Box::new(expr(rng, depth - 1)), Box::new(expr(rng, depth - 1)));
        return if rng.chance(1, 2) { EnvMarkerExpr::And(a, b) } else { EnvMarkerExpr::Or(a, b) };
    }
    let op = match rng.below(6) { 0 => Op::In, 1 => Op::NotIn, _ => Op::Compare(*rng.pick(COPS)) };
    EnvMarkerExpr::Operator { op, lhs: value(rng), rhs: value(rng) }
}
fn is_extra(v: &Value) -> bool { matches!(v, Value::Variable(n) if n == "extra") }
fn mentions(e: &EnvMarkerExpr) -> bool {
    match e { EnvMarkerExpr::And(a, b) | EnvMarkerExpr::Or(a, b) => mentions(a) || mentions(b), EnvMarkerExpr::Operator { lhs, rhs, .. } => is_extra(lhs) || is_extra(rhs) }
}
/// some comparison of 'extra' with something that is not fixed, or that has no value
fn inseparable(e: &EnvMarkerExpr, extra: &str) -> bool {
    match e {
        EnvMarkerExpr::And(a, b) | EnvMarkerExpr::Or(a, b) => inseparable(a, extra) || inseparable(b, extra),
        EnvMarkerExpr::Operator { lhs, rhs, .. } => {
            if !is_extra(lhs) && !is_extra(rhs) { return false; }
            let env: HashMap<String, String> = HashMap::from([("extra".to_string(), extra.to_string())]);
            e.eval(&env).is_err()
        }
    }
}
fn has_error(e: &EnvMarkerExpr, env: &HashMap<String, String>) -> bool {
    match e { EnvMarkerExpr::And(a, b) | EnvMarkerExpr::Or(a, b) => has_error(a, env) || has_error(b, env), _ => e.eval(env).is_err() }
}

#[test]
fn v_r03_simplify() {
    let mut r = Report::new("R03", "v_r03_simplify",
        "all markers with up to two comparisons from 12, and generated ones with up to 16, for no extra and five extras, evaluated in 8 environments. Non-trivial: the marker mentions extra");
    let mut rng = Rng::new("r03");
    let mut envs: Vec<HashMap<String, String>> = Vec::new();
    for py in ["3.8", "3.10"] { for os in ["posix", "nt"] { for sp in ["linux", "foo"] {
        envs.push([("python_version", py), ("os_name", os), ("sys_platform", sp)].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect());
    } } }
    let v = |s: &str| Value::Variable(s.into());
    let l = |s: &str| Value::Literal(s.into());
    let o = |op: Op, lhs: Value, rhs: Value| EnvMarkerExpr::Operator { op, lhs, rhs };
    let eq = Op::Compare(CompareOp::Equal);
    let ne = Op::Compare(CompareOp::NotEqual);
    let atoms = vec![
        o(eq, v("extra"), l("foo")), o(eq, l("Foo"), v("extra")), o(ne, v("extra"), l("foo")), o(eq, v("extra"), l("Foo_Bar")), o(Op::In, v("extra"), l("foo bar")), o(Op::NotIn, l("foo"), v("extra")),
        o(eq, v("os_name"), l("posix")), o(Op::Compare(CompareOp::StrictlyLessThan), v("python_version"), l("3.9")), o(eq, l("a"), l("a")), o(ne, l("a"), l("a")), o(eq, v("sys_platform"), l("foo")), o(eq, v("extra"), v("sys_platform")),
    ];
    let mut exprs = atoms.clone();
    for a in &atoms { for b in &atoms { exprs.push(EnvMarkerExpr::And(Box::new(a.clone()), Box::new(b.clone()))); exprs.push(EnvMarkerExpr::Or(Box::new(a.clone()), Box::new(b.clone()))); } }
    for _ in 0..cases(6000, 20) { let d = rng.range(1, 4); exprs.push(expr(&mut rng, d)); }
    for e in &exprs { for extra in [None, Some("foo"), Some("bar"), Some("foo-bar"), Some("1-0"), Some("quux-foo-bar")] {
        let input = format!("{} with extra {:?}", e, extra);
        r.case(&input, mentions(e));
        let Some(got) = r.run(&input, || simplify_out_extra(e, extra)) else { continue };
        let ex = extra.unwrap_or("");
        let insep = inseparable(e, ex);
        match got {
            Err(x) => { r.check(insep, "error", &input, || format!("an error although every comparison with extra is fixed: {x:#}")); }
            Ok(s) => {
                if !r.check(!insep, "guessed", &input, || "a comparison of extra that is not fixed was accepted".into()) { continue; }
                if let Simplified::Expr(x) = &s { r.check(!mentions(x), "mentions", &input, || format!("still mentions extra: {x}")); }
                for env in &envs {
                    let mut full = env.clone();
                    full.insert("extra".into(), ex.into());
                    if let Ok(w) = e.eval(&full) {
                        match s.eval(env) {
                            Ok(g) => { if !r.check(g == w, "value", &input, || format!("{g} instead of {w} in {full:?}")) { break; } }
                            Err(x) => { if !r.check(has_error(e, &full), "lost", &input, || format!("no value in {full:?}: {x:#}")) { break; } }
                        }
                    }
                }
            }
        }
    } }
}

// what is recorded while resolving: markers without extra, with their value
#[test]
fn v_r03_recorded() {
    use crate::verif_world::*;
    let mut r = Report::new("R03", "v_r03_recorded",
        "resolving packages whose requirements have markers with and without extra: the markers recorded in the blueprint do not mention extra and carry the value they have. Non-trivial: something is recorded");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    let plat = PybiPlatform::new("manylinux_2_17_x86_64");
    publish(&pages, "i", "cpython", &[pybi("cpython", "3.10.4", "manylinux_2_17_x86_64", &["py3-none-any"], "{\"python_full_version\": \"3.10.4\", \"python_version\": \"3.10\", \"os_name\": \"posix\"}")]);
    let env: HashMap<String, String> = [("python_full_version", "3.10.4"), ("python_version", "3.10"), ("os_name", "posix")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    publish(&pages, "i", "leaf", &[wheel("leaf", "1.0", "py3-none-any", "", &[])]);
    for (k, (m, rec)) in [
        ("extra == 'x' and os_name == 'posix'", Some(true)), ("extra == 'x' and os_name == 'nt'", Some(false)), ("extra == 'X'", None), ("extra == 'other' and os_name == 'nt'", None),
        ("extra == 'x' or os_name == 'nt'", None), ("os_name == 'nt'", Some(false)), ("python_version >= '3.9' and (extra == 'x' or extra == 'y')", Some(true)),
    ].iter().enumerate() {
        let name = format!("r{k}");
        publish(&pages, "i", &name, &[wheel(&name, "1.0", "py3-none-any", &format!("Provides-Extra: x\nRequires-Dist: leaf; {m}\n"), &[])]);
        let got = r.run(m, || -> Result<(HashMap<StandaloneMarkerExpr, bool>, usize)> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let b = Brief { python: "cpython".try_into()?, requirements: vec![format!("{name}[x]").as_str().try_into()?], allow_pre: Default::default() }.resolve(&db, &[&plat], None, &[])?;
            Ok((b.marker_expressions, b.wheels.len()))
        });
        match got {
            None => {}
            Some(Err(e)) => r.fail("error", m, &format!("{e:#}")),
            Some(Ok((ms, n))) => {
                r.case(m, !ms.is_empty());
                let mut full = env.clone();
                full.insert("extra".into(), "x".into());
                let q: PackageRequirement = format!("leaf; {m}").as_str().try_into().unwrap();
                let truth = q.env_marker_expr.as_ref().unwrap().eval(&full).unwrap();
                r.check((n == 2) == truth, "applied", m, || format!("{n} packages although the marker is {truth}"));
                for (e, v) in &ms {
                    r.check(!mentions(&e.0), "mentions", m, || format!("{e} is recorded"));
                    r.check(e.0.eval(&env).ok() == Some(*v), "value", m, || format!("{e} is recorded as {v}"));
                }
                if let Some(v) = rec { r.check(ms.values().any(|x| x == v), "missing", m, || format!("recorded: {ms:?}")); }
            }
        }
    }
}
