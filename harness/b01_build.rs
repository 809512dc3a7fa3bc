//@attach src/package_db/build_wheel.rs
// B01: the stack of builds in progress
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

fn spell(n: &str, rng: &mut Rng) -> String {
    n.chars().map(|c| if c == '-' { *rng.pick(&['-', '_', '.']) } else if rng.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}

#[test]
fn v_b01_stack() {
    let mut r = Report::new("B01", "v_b01_stack",
        "stacks of 0-8 package names in any spelling and a package: refused exactly when a name equal to it is on the stack, otherwise the stack plus the package. Non-trivial: the stack is not empty");
    let mut rng = Rng::new("b01");
    let names = ["a", "b", "a-b", "ab", "a1", "foo-bar-baz", "c", "foo"];
    let dirs = Dirs::new();
    let db = dirs.db(&[]);
    let (py, pv): (PackageName, Version) = ("cpython".try_into().unwrap(), "3.10".try_into().unwrap());
    for _ in 0..cases(4000, 10) {
        let n = rng.below(9);
        let st: Vec<String> = (0..n).map(|_| { let n = *rng.pick(&names); spell(n, &mut rng) }).collect();
        let base = *rng.pick(&names);
        let p = spell(base, &mut rng);
        let names: Vec<PackageName> = st.iter().map(|s| s.as_str().try_into().unwrap()).collect();
        let refs: Vec<&PackageName> = names.iter().collect();
        let me: PackageName = p.as_str().try_into().unwrap();
        let input = format!("{st:?} + {p}");
        r.case(&input, n > 0);
        let there = st.iter().any(|s| s.to_ascii_lowercase().replace(['_', '.'], "-") == base);
        let b = WheelBuilder { db: &db, target_python: &py, target_python_version: &pv, build_platforms: vec![], build_stack: refs.clone() };
        let Some(got) = r.run(&input, || b.new_build_stack(&me).map(|v| v.iter().map(|p| p.as_given().to_string()).collect::<Vec<_>>()).map_err(|e| e.to_string())) else { continue };
        match got {
            Err(e) => { r.check(there, "refused", &input, || e.clone()); }
            Ok(v) => {
                let mut w = st.clone();
                w.push(p.clone());
                if r.check(!there, "loop-missed", &input, || format!("{v:?}")) { r.check(v == w, "stack", &input, || format!("{v:?}")); }
            }
        }
    }
}

fn sdist(name: &str, requires: &[&str]) -> WFile {
    let mut t = tar::Builder::new(flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast()));
    let toml = format!("[build-system]\nrequires = {requires:?}\nbuild-backend = \"nope\"\n");
    let mut h = tar::Header::new_gnu();
    h.set_size(toml.len() as u64);
    h.set_mode(0o644);
    h.set_cksum();
    t.append_data(&mut h, format!("{name}-1.0/pyproject.toml"), toml.as_bytes()).unwrap();
    let bytes = t.into_inner().unwrap().finish().unwrap();
    WFile { name: format!("{name}-1.0.tar.gz"), bytes, hash: true, ..Default::default() }
}

#[test]
fn v_b01_e2e() {
    let mut r = Report::new("B01", "v_b01_e2e",
        "packages that only exist as source and need each other to build (loops of length 1-4, entered directly or through a tail, names spelt differently, some with metadata at hand): resolving them fails naming the loop, without hanging. Non-trivial: every case");
    let mut rng = Rng::new("b01e");
    let (srv, pages) = server();
    let plats: Vec<String> = match PybiPlatform::native_platforms() { Ok(p) => p.iter().map(|p| p.core_tag().to_string()).collect(), Err(_) => return };
    for case in 0..cases(24, 5) {
        pages.lock().unwrap().clear();
        let dirs = Dirs::new();
        let len = rng.range(1, 4);
        let tail = rng.below(3);
        let n = len + tail;
        let pk: Vec<String> = (0..n).map(|i| format!("p{case}-{i}")).collect();
        let mut desc = String::new();
        for i in 0..n {
            let next = if i + 1 < n { i + 1 } else { tail };
            let s = spell(&pk[next], &mut rng);
            desc += &format!(" {} needs {s};", pk[i]);
            let mut files = vec![sdist(&pk[i].replace('-', "_"), &[&s])];
            // metadata without a build; the build comes when it is installed
            if i > 0 && rng.chance(1, 2) {
                files.push(wheel(&pk[i].replace('-', "_"), "1.0", "cp27-cp27m-win32", "", &[]));
                desc += "(metadata at hand)";
            }
            publish(&pages, "i", &pk[i], &files);
        }
        publish(&pages, "i", "cpython", &[pybi("cpython", "3.10.4", &plats[0], &["py3-none-any"], "{\"python_full_version\": \"3.10.4\", \"python_version\": \"3.10\"}")]);
        r.case(&desc, true);
        let got = r.run(&desc, || -> Result<()> {
            let db = dirs.db(&[format!("{}i/", srv.base())]);
            let ps: Vec<PybiPlatform> = plats.iter().map(|c| PybiPlatform::new(c)).collect();
            let refs: Vec<&PybiPlatform> = ps.iter().collect();
            let brief = Brief { python: "cpython".try_into()?, requirements: vec![pk[0].as_str().try_into()?], allow_pre: Default::default() };
            brief.resolve(&db, &refs, None, &[])?;
            Ok(())
        });
        match got {
            None => {}
            Some(Ok(())) => r.fail("resolved", &desc, "a package that cannot be built was resolved"),
            Some(Err(e)) => { let e = format!("{e:#}"); r.check(e.contains("build dependency loop"), "message", &desc, || e.clone()); }
        }
    }
}
