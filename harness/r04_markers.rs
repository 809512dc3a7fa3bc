//@attach src/vocab/requirement.rs
// R04: evaluating environment markers
use super::marker::{EnvMarkerExpr, Op, Value};
use super::*;
use crate::verif_support::*;

const VARS: &[&str] = &["python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_version", "platform_machine", "implementation_version", "extra"];
const VALS: &[&str] = &["3.8", "3.10", "3.10.1", "3.9.0rc1", "posix", "nt", "linux", "linux2", "win32", "5.4.0-90-generic", "#1 SMP 2.0", "x86_64", "", "3", "2.7.18", "foo", "foo-bar", "foo_bar", "Foo.Bar", "FOO", "3.*", "3.10.*", "1.0+x", "1.0", "01.0", "v1.0", "darwin", "win", "in", " 3.8"];
const COPS: &[CompareOp] = &[CompareOp::LessThanEqual, CompareOp::StrictlyLessThan, CompareOp::NotEqual, CompareOp::Equal, CompareOp::GreaterThanEqual, CompareOp::StrictlyGreaterThan, CompareOp::Compatible];

pub fn norm(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let an = |c: u8| c.is_ascii_alphanumeric();
    if b.is_empty() || !an(b[0]) || !an(b[b.len() - 1]) || !b.iter().all(|c| an(*c) || b"-_.".contains(c)) { return None; }
    let mut o = String::new();
    for c in s.chars() {
        if "-_.".contains(c) { if !o.ends_with('-') { o.push('-'); } } else { o.push(c.to_ascii_lowercase()); }
    }
    Some(o)
}

// Err: the marker has no value
fn leaf(op: &Op, l: &Value, r: &Value, env: &HashMap<String, String>) -> Result<bool, ()> {
    let get = |v: &Value| match v { Value::Variable(n) => env.get(n.as_str()).cloned().ok_or(()), Value::Literal(s) => Ok(s.clone()) };
    let (mut a, mut b) = (get(l)?, get(r)?);
    let ex = |v: &Value| matches!(v, Value::Variable(n) if n == "extra");
    let (la, lb) = (a.clone(), b.clone());
    if ex(l) { if let Some(n) = norm(&lb) { b = n; } }
    if ex(r) { if let Some(n) = norm(&la) { a = n; } }
    Ok(match op {
        Op::In => b.contains(&a),
        Op::NotIn => !b.contains(&a),
        Op::Compare(c) => {
            let sym = c.to_string();
            if let Ok(v) = Version::try_from(a.as_str()) {
                // a valid specifier: PEP 440 semantics
                let sp = Specifier { op: *c, value: b.clone() };
                if let Ok(x) = sp.satisfied_by(&v) { return Ok(x); }
            }
            match sym.as_str() {
                "<=" => a <= b, "<" => a < b, ">=" => a >= b, ">" => a > b, "==" => a == b, "!=" => a != b,
                _ => return Err(()),
            }
        }
    })
}

// strict: also errors in parts a short circuit would skip
fn eval(e: &EnvMarkerExpr, env: &HashMap<String, String>, skipped_err: &mut bool) -> Result<bool, ()> {
    match e {
        EnvMarkerExpr::And(a, b) => {
            let x = eval(a, env, skipped_err)?;
            let y = eval(b, env, skipped_err);
            if !x { if y.is_err() { *skipped_err = true; } return Ok(false); }
            y
        }
        EnvMarkerExpr::Or(a, b) => {
            let x = eval(a, env, skipped_err)?;
            let y = eval(b, env, skipped_err);
            if x { if y.is_err() { *skipped_err = true; } return Ok(true); }
            y
        }
        EnvMarkerExpr::Operator { op, lhs, rhs } => leaf(op, lhs, rhs, env),
    }
}

fn value(rng: &mut Rng) -> Value {
    if rng.chance(1, 2) { Value::Variable(rng.pick(VARS).to_string()) } else { Value::Literal(rng.pick(VALS).to_string()) }
}
pub fn expr(rng: &mut Rng, depth: usize) -> EnvMarkerExpr {
    if depth > 0 && rng.chance(3, 5) {
        let (a, b) = (Box::new(expr(rng, depth - 1)), Box::new(expr(rng, depth - 1)));
        return if rng.chance(1, 2) { EnvMarkerExpr::And(a, b) } else { EnvMarkerExpr::Or(a, b) };
    }
    let op = match rng.below(5) { 0 => Op::In, 1 => Op::NotIn, _ => Op::Compare(*rng.pick(COPS)) };
    EnvMarkerExpr::Operator { op, lhs: value(rng), rhs: value(rng) }
}

#[test]
fn v_r04_eval() {
    let mut r = Report::new("R04", "v_r04_eval",
        "every comparison of two values from a list of 30 texts with every operator (literals, and each side also as the variable extra), and generated and/or expressions of up to 4 levels over 9 variables, some undefined. Non-trivial: the marker has a value");
    let mut rng = Rng::new("r04");
    let go = |r: &mut Report, e: &EnvMarkerExpr, env: &HashMap<String, String>| {
        let mut keys: Vec<_> = env.iter().collect();
        keys.sort();
        let input = format!("{} in {:?}", e, keys);
        let mut sk = false;
        let want = eval(e, env, &mut sk);
        r.case(&input, want.is_ok());
        let Some(got) = r.run(&input, || e.eval(env)) else { return };
        match (got, want) {
            (Ok(g), Ok(w)) => { r.check(g == w, "value", &input, || format!("is {g}, must be {w}")); }
            (Err(_), Err(())) => {}
            (Ok(g), Err(())) => r.fail("no-error", &input, &format!("is {g}, must be an error")),
            (Err(x), Ok(_)) => { r.check(sk, "error", &input, || format!("is an error: {x:#}")); }
        }
    };
    let mut ops: Vec<Op> = COPS.iter().map(|c| Op::Compare(*c)).collect();
    ops.push(Op::In);
    ops.push(Op::NotIn);
    for a in VALS { for b in VALS { for op in &ops { for m in 0..3 {
        let mut env = HashMap::new();
        let (mut l, mut rr) = (Value::Literal(a.to_string()), Value::Literal(b.to_string()));
        // the value of `extra` is always a normalized name (or empty)
        if m == 1 { l = Value::Variable("extra".into()); env.insert("extra".to_string(), norm(a).unwrap_or_default()); }
        if m == 2 { rr = Value::Variable("extra".into()); env.insert("extra".to_string(), norm(b).unwrap_or_default()); }
        go(&mut r, &EnvMarkerExpr::Operator { op: *op, lhs: l, rhs: rr }, &env);
    } } } }
    for _ in 0..cases(15000, 20) {
        let mut env = HashMap::new();
        for v in VARS {
            if rng.chance(6, 7) {
                let x = rng.pick(VALS).to_string();
                env.insert(v.to_string(), if *v == "extra" { norm(&x).unwrap_or_default() } else { x });
            }
        }
        let d = rng.below(5);
        go(&mut r, &expr(&mut rng, d), &env);
    }
    // through the parser, as written in metadata
    for (t, env, w) in [
        ("a; python_version >= '3.8' and os_name == 'posix'", vec![("python_version", "3.10"), ("os_name", "posix")], Some(true)),
        ("a; python_version >= '3.8'", vec![("python_version", "3.10")], Some(true)),
        ("a; python_version < '3.8'", vec![("python_version", "3.10")], Some(false)),
        ("a; '3.8' <= python_version", vec![("python_version", "3.10")], Some(true)),
        ("a; 'linux' in sys_platform", vec![("sys_platform", "linux2")], Some(true)),
        ("a; sys_platform in 'linux'", vec![("sys_platform", "linux2")], Some(false)),
        ("a; sys_platform not in 'linux darwin'", vec![("sys_platform", "win32")], Some(true)),
        ("a; os_name == 'a' or os_name == 'b' and os_name == 'c'", vec![("os_name", "a")], Some(true)),
        ("a; (os_name == 'a' or os_name == 'b') and os_name == 'c'", vec![("os_name", "a")], Some(false)),
        ("a; os_name == 'b' and os_name == 'c' or os_name == 'a'", vec![("os_name", "a")], Some(true)),
        ("a; extra == 'Foo_Bar'", vec![("extra", "foo-bar")], Some(true)),
        ("a; 'Foo.Bar' == extra", vec![("extra", "foo-bar")], Some(true)),
        ("a; python_full_version ~= '3.10.0'", vec![("python_full_version", "3.10.4")], Some(true)),
        ("a; os_name ~= '3.10.0'", vec![("os_name", "posix")], None),
        ("a; os_name == 'posix'", vec![], None),
        ("a; python_version == '3.*'", vec![("python_version", "3.10")], Some(true)),
        ("a; platform_release >= '5.4'", vec![("platform_release", "5.10.0-generic-1!")], Some("5.10.0-generic-1!" >= "5.4")),
        ("a; os.name == 'nt' and python_implementation == 'CPython'", vec![("os_name", "nt"), ("platform_python_implementation", "CPython")], Some(true)),
    ] {
        let input = format!("{t} in {env:?}");
        r.case(&input, w.is_some());
        let env: HashMap<String, String> = env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let got = r.run(&input, || PackageRequirement::try_from(t).map(|q| q.env_marker_expr.as_ref().unwrap().eval(&env).ok()));
        match got {
            None => {}
            Some(Err(e)) => r.fail("parse", &input, &format!("{e:#}")),
            Some(Ok(g)) => { r.check(g == w, "written", &input, || format!("is {g:?}, must be {w:?}")); }
        }
    }
}
