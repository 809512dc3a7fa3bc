//@attach src/vocab/core_metadata.rs
// M01: package metadata
use super::*;
use crate::verif_support::*;

fn cased(n: &str, rng: &mut Rng) -> String {
    match rng.below(4) { 0 => n.to_ascii_lowercase(), 1 => n.to_ascii_uppercase(), 2 => n.to_string(), _ => n.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
}

#[test]
fn v_m01_wheel() {
    let mut r = Report::new("M01", "v_m01_wheel",
        "metadata files with mandatory and optional fields absent, once or twice, in any order and case, with foreign fields, continuation lines, CRLF and a body: what is read is exactly what is listed, or an error. Non-trivial: the metadata is well-formed and has at least two requirements");
    let mut rng = Rng::new("m01");
    let reqs = ["attrs (>=19.2.0)", "sortedcontainers", "contextvars[foo] (>=2.1) ; python_version < \"3.7\"", "a", "b.c_d>=1,<2", "e; extra == 'x'", "f[x,y]"];
    let extras = ["foo", "bar-baz", "Foo", "q_z"];
    let vers = [("2.1", true), ("1.0", true), ("1.2", true), ("2.99", true), ("2.3", true), ("3", false), ("3.0", false), ("3.dev0", false), ("3a1", false), ("3.0.dev1", false), ("4.0", false), ("10.1", false), ("1!2.0", false), ("0.1", true), ("2.1.post4", true)];
    for _ in 0..cases(6000, 15) {
        let mut fields: Vec<(String, String)> = Vec::new();
        let mut ok = true;
        let count = |rng: &mut Rng| match rng.below(20) { 0 => 0usize, 1 => 2, _ => 1 };
        let nm = count(&mut rng);
        let mut mv_ok = true;
        for _ in 0..nm { let (v, o) = if rng.chance(3, 4) { vers[0] } else { *rng.pick(&vers) }; mv_ok &= o; fields.push(("Metadata-Version".into(), v.into())); }
        ok &= nm == 1 && mv_ok;
        for (k, v) in [("Name", "Some.Name"), ("Version", "1.5.2")] {
            let n = count(&mut rng);
            ok &= n == 1;
            for _ in 0..n { fields.push((k.into(), v.into())); }
        }
        let nrp = match rng.below(8) { 0 => 2, 1 | 2 => 0, _ => 1 };
        ok &= nrp < 2;
        let rps: Vec<&str> = (0..nrp).map(|_| *rng.pick(&[">=3.6", ">= 3.6, <4", "~=3.8"])).collect();
        for x in &rps { fields.push(("Requires-Python".into(), x.to_string())); }
        let rs: Vec<&str> = (0..rng.below(5)).map(|_| *rng.pick(&reqs)).collect();
        let mut es: Vec<&str> = (0..rng.below(4)).map(|_| *rng.pick(&extras)).collect();
        if rng.chance(1, 12) { es.push(*rng.pick(&["!bad", "a b", "-x", "y_", "caf\u{e9}"])); ok = false; }
        let mut rq: Vec<(String, String)> = rs.iter().map(|x| ("Requires-Dist".to_string(), x.to_string())).collect();
        rq.extend(es.iter().map(|x| ("Provides-Extra".to_string(), x.to_string())));
        for _ in 0..rng.below(4) { fields.push((rng.pick(&["Summary", "Classifier", "Requires", "Requires-Dists", "Provides-Extras", "X-Name"]).to_string(), "anything: at all".into())); }
        // interleave, keeping the order of the repeated ones
        let mut out: Vec<(String, String)> = Vec::new();
        rng.shuffle(&mut fields);
        let (mut i, mut j) = (0, 0);
        while i < fields.len() || j < rq.len() {
            if j >= rq.len() || (i < fields.len() && rng.chance(1, 2)) { out.push(fields[i].clone()); i += 1; } else { out.push(rq[j].clone()); j += 1; }
        }
        let nl = *rng.pick(&["\n", "\n", "\r\n"]);
        let mut text = String::new();
        for (k, v) in &out {
            text += &format!("{}:{}{v}{nl}", cased(k, &mut rng), rng.pick(&[" ", "", "  ", "\t"]));
            if k == "Summary" && rng.chance(1, 2) { text += &format!("  continued{nl}"); }
        }
        if rng.chance(1, 2) { text += &format!("{nl}Body text{nl}Requires-Dist: not-a-field{nl}Name: nope{nl}"); }
        r.case(&text, ok && rs.len() > 1);
        let got = r.run(&text, || WheelCoreMetadata::try_from(text.as_bytes()));
        match got {
            None => {}
            Some(Err(e)) => { r.check(!ok, "refused", &text, || format!("{e:#}")); }
            Some(Ok(m)) => {
                if !r.check(ok, "accepted", &text, || "must be an error".into()) { continue; }
                let want: Vec<PackageRequirement> = rs.iter().map(|x| x.to_string().try_into().unwrap()).collect();
                r.check(m.requires_dist.iter().map(|x| x.to_string()).eq(want.iter().map(|x| x.to_string())), "requires", &text, || format!("{:?}", m.requires_dist.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                let wrp = rps.first().map(|x| Specifiers::try_from(x.to_string()).unwrap().to_string()).unwrap_or_default();
                r.check(m.requires_python.to_string() == wrp, "python", &text, || m.requires_python.to_string());
                let we: HashSet<Extra> = es.iter().map(|e| e.parse().unwrap()).collect();
                r.check(m.extras == we, "extras", &text, || format!("{:?}", m.extras));
                r.check(m.name.as_given() == "Some.Name" && m.version.to_string() == "1.5.2", "name", &text, || format!("{} {}", m.name.as_given(), m.version));
            }
        }
    }
}

#[test]
fn v_m01_pybi() {
    let mut r = Report::new("M01", "v_m01_pybi",
        "interpreter metadata with mandatory fields absent, once or twice: tags in order, variables and paths complete, or an error. Non-trivial: well-formed with at least two tags");
    let mut rng = Rng::new("m01p");
    for _ in 0..cases(3000, 15) {
        let mut lines: Vec<String> = Vec::new();
        let mut ok = true;
        for l in ["Metadata-Version: 2.1", "Name: cpython", "Version: 3.11.2", "Pybi-Environment-Marker-Variables: {\"os_name\": \"posix\", \"x\": \"y\"}", "Pybi-Paths: {\"data\": \".\", \"include\": \"include/python3.11\"}"] {
            let n = match rng.below(20) { 0 => 0, 1 => 2, _ => 1 };
            ok &= n == 1;
            let (k, v) = l.split_once(':').unwrap();
            for _ in 0..n { lines.push(format!("{}:{v}", cased(k, &mut rng))); }
        }
        let tags: Vec<String> = (0..rng.below(5)).map(|i| format!("cp3{}-none-{}", rng.below(3), ["any", "PLATFORM", "x"][i % 3])).collect();
        rng.shuffle(&mut lines);
        let mut at = 0;
        for t in &tags { at = rng.range(at, lines.len()); lines.insert(at, format!("{}: {t}", cased("Pybi-Wheel-Tag", &mut rng))); at += 1; }
        let text = lines.join("\n") + *rng.pick(&["", "\n", "\n\nbody\n"]);
        r.case(&text, ok && tags.len() > 1);
        match r.run(&text, || PybiCoreMetadata::try_from(text.as_bytes())) {
            None => {}
            Some(Err(e)) => { r.check(!ok, "refused", &text, || format!("{e:#}")); }
            Some(Ok(m)) => {
                if !r.check(ok, "accepted", &text, || "must be an error".into()) { continue; }
                r.check(m.tags == tags, "tags", &text, || format!("{:?}", m.tags));
                r.check(m.environment_marker_variables == HashMap::from([("os_name".to_string(), "posix".to_string()), ("x".to_string(), "y".to_string())]), "vars", &text, || format!("{:?}", m.environment_marker_variables));
                let mut p: Vec<(String, String)> = m.paths.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
                p.sort();
                r.check(p == [("data".to_string(), "".to_string()), ("include".to_string(), "include/python3.11".to_string())] || p[0].1 == ".", "paths", &text, || format!("{p:?}"));
            }
        }
    }
}
