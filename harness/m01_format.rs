//@attach src/vocab/artifact_formats.rs
// M01: format version of WHEEL and PYBI files
use super::*;
use crate::verif_support::*;

#[test]
fn v_m01_format() {
    let mut r = Report::new("M01", "v_m01_format",
        "WHEEL/PYBI texts whose format version is absent, once or twice, of major version 1 or another: accepted exactly when there is one and its major version is 1. Non-trivial: one version field");
    let mut rng = Rng::new("m01f");
    for _ in 0..cases(2000, 10) {
        let field = *rng.pick(&["Wheel-Version", "Pybi-Version"]);
        let vs = ["1.0", "1.1", "1.0", "1.99", "2.0", "0.9", "10.0", "11", "12.1", "100.0", "2", "21.0", "01.0", "v1.0", "-1.0", ".1.0", "a1.0", ""];
        let n = match rng.below(12) { 0 => 0, 1 => 2, _ => 1 };
        let chosen: Vec<&str> = (0..n).map(|_| *rng.pick(&vs)).collect();
        let other = if field == "Wheel-Version" { "Pybi-Version" } else { "Wheel-Version" };
        let mut lines: Vec<String> = chosen.iter().map(|v| format!("{}: {v}", if rng.chance(1, 2) { field.to_string() } else { field.to_ascii_uppercase() })).collect();
        if rng.chance(1, 3) { lines.push(format!("{other}: 1.0")); }
        lines.push("Root-Is-Purelib: true".into());
        rng.shuffle(&mut lines);
        let text = lines.join("\n") + "\n";
        let ok = n == 1 && chosen[0].starts_with("1.");
        r.case(&text, n == 1);
        match r.run(&text, || parse_format_metadata_and_check_version(text.as_bytes(), field).map(|mut m| m.take_all("root-is-purelib"))) {
            None => {}
            Some(Err(e)) => { r.check(!ok, "refused", &text, || format!("{e:#}")); }
            Some(Ok(p)) => { r.check(ok && p == ["true"], "accepted", &text, || format!("must be an error, got {p:?}")); }
        }
    }
}
