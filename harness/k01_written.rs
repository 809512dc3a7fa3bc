//@attach src/resolve.rs
// K01: a brief and a blueprint written down read back as themselves
use super::*;
use crate::verif_support::*;

const NAMES: &[&str] = &["a", "Foo.Bar_baz", "x9", "CPython_unofficial", "z-_.Z"];
const VERSIONS: &[&str] = &["1", "1.0.0", "2.0rc1", "1!3.4.post2.dev0", "0.0.1+ab.12.CD", "1.0+0", "4294967295.1a4294967294", "2022.1.1", "1.0.post0", "1a0.post1.dev2"];
const SPECS: &[&str] = &["", ">=1", "~= 2.1", "==1.*", "!=2.0.*, <3", "==1.0+local.7", ">=1!2,<=3rc1", "<2.0.dev0"];
const MARKERS: &[&str] = &["", "os_name == 'nt'", "extra == 'x' or (python_version >= '3' and 'a\"b' in platform_version)", "'x' not in sys_platform and os_name != \"q'q\"", "platform.machine == 'x86' or os_name == '' and extra == \"Foo_bar\""];

fn req(rng: &mut Rng, package: bool) -> String {
    let mut t = rng.pick(NAMES).to_string();
    if rng.chance(1, 3) { t += "["; for k in 0..rng.range(0, 2) { if k > 0 { t += ", "; } t += *rng.pick(NAMES); } t += "]"; }
    t += " "; t += *rng.pick(SPECS);
    let m = *rng.pick(MARKERS);
    if !m.is_empty() && (package || !m.contains("extra")) { t += " ; "; t += m; }
    t
}
fn pin(rng: &mut Rng) -> PinnedPackage {
    PinnedPackage {
        name: rng.pick(NAMES).parse().unwrap(), version: rng.pick(VERSIONS).parse().unwrap(),
        hashes: (0..rng.below(4)).map(|_| ArtifactHash::from_hex("sha256", &sha256_hex(&rng.bytes(3))).unwrap()).collect(),
    }
}
fn same_pin(a: &PinnedPackage, b: &PinnedPackage) -> bool { a == b && a.name.as_given() == b.name.as_given() && a.version.to_string() == b.version.to_string() }
fn given(x: &HashSet<Extra>) -> Vec<(String, String)> { let mut v: Vec<_> = x.iter().map(|e| (e.normalized().to_string(), e.as_given().to_string())).collect(); v.sort(); v }
fn names(x: &AllowPre) -> Option<Vec<String>> { match x { AllowPre::All => None, AllowPre::Some(s) => { let mut v: Vec<_> = s.iter().map(|e| format!("{} {}", e.normalized(), e.as_given())).collect(); v.sort(); Some(v) } } }

// written and read in each of the ways serde_json has
fn ways<T: Serialize + serde::de::DeserializeOwned>(x: &T) -> Vec<(&'static str, String, Result<T>)> {
    let a = serde_json::to_string(x).unwrap();
    let b = serde_json::to_string_pretty(x).unwrap();
    let c = serde_json::to_value(x).unwrap();
    vec![
        ("text", a.clone(), serde_json::from_str(&a).map_err(|e| e.into())),
        ("pretty", b.clone(), serde_json::from_slice(b.as_bytes()).map_err(|e| e.into())),
        ("file", a.clone(), serde_json::from_reader(std::io::Cursor::new(a.clone())).map_err(|e| e.into())),
        ("value", c.to_string(), serde_json::from_value(c).map_err(|e| e.into())),
    ]
}

#[test]
fn v_k01_brief() {
    let mut r = Report::new("K01", "v_k01_brief",
        "briefs of an interpreter, 0-4 requirements and pre-releases allowed for nothing, some packages or everything, written and read as JSON in four ways. Non-trivial: has a requirement");
    let mut rng = Rng::new("k01b");
    for _ in 0..cases(2500, 10) {
        let reqs: Vec<String> = (0..rng.below(5)).map(|_| req(&mut rng, false)).collect();
        let py = format!("{} {}", rng.pick(NAMES), rng.pick(SPECS));
        let allow_pre = match rng.below(3) { 0 => AllowPre::default(), 1 => AllowPre::All, _ => AllowPre::Some((0..rng.below(4)).map(|_| rng.pick(NAMES).parse().unwrap()).collect()) };
        let b = Brief { python: py.as_str().try_into().unwrap(), requirements: reqs.iter().map(|x| x.as_str().try_into().unwrap()).collect(), allow_pre };
        let desc = format!("{py:?} {reqs:?} {:?}", names(&b.allow_pre));
        r.case(&desc, !reqs.is_empty());
        let Some(ws) = r.run(&desc, || ways(&b)) else { continue };
        for (way, text, got) in ws {
            match got {
                Err(e) => r.fail("refused", &desc, &format!("{way}: {text}: {e}")),
                Ok(g) => { r.check(g.python == b.python && g.requirements == b.requirements && names(&g.allow_pre) == names(&b.allow_pre), "other", &desc, || format!("{way}: {text} read as {g:?}")); }
            }
        }
    }
}

#[test]
fn v_k01_blueprint() {
    let mut r = Report::new("K01", "v_k01_blueprint",
        "blueprints of an interpreter, 0-4 packages with their metadata and 0-4 marker expressions, written and read as JSON in four ways. Non-trivial: has a package");
    let mut rng = Rng::new("k01p");
    for _ in 0..cases(2500, 10) {
        let b = Blueprint {
            pybi: pin(&mut rng),
            wheels: (0..rng.below(5)).map(|_| (pin(&mut rng), WheelResolveMetadata {
                provenance: rng.pick(&["", "https://x/y%20z#a", "\u{e9}\"\\\n"]).to_string(),
                inner: WheelResolveMetadataInner {
                    requires_dist: (0..rng.below(4)).map(|_| { let t = req(&mut rng, true); t.as_str().try_into().unwrap() }).collect(),
                    requires_python: (*rng.pick(&SPECS[1..])).try_into().unwrap(),
                    extras: (0..rng.below(3)).map(|_| (*rng.pick(NAMES)).try_into().unwrap()).collect(),
                } })).collect(),
            marker_expressions: (0..rng.below(5)).map(|_| { let m = *rng.pick(MARKERS); let m = if m.is_empty() || m.contains("extra") { "os_name == 'a' or os_name == 'b'" } else { m }; (m.try_into().unwrap(), rng.chance(1, 2)) }).collect(),
        };
        let mut b = b;
        if let Some(w) = b.wheels.first_mut() { if rng.chance(1, 3) { w.1.inner.requires_python = Default::default(); } }
        let desc = format!("{b:?}");
        r.case(&desc, !b.wheels.is_empty());
        let Some(ws) = r.run(&desc, || ways(&b)) else { continue };
        for (way, text, got) in ws {
            match got {
                Err(e) => r.fail("refused", &desc, &format!("{way}: {text}: {e}")),
                Ok(g) => {
                    let ok = same_pin(&g.pybi, &b.pybi) && g.marker_expressions == b.marker_expressions && g.wheels.len() == b.wheels.len()
                        && g.wheels.iter().zip(&b.wheels).all(|(x, y)| same_pin(&x.0, &y.0) && x.1.provenance == y.1.provenance && x.1.inner == y.1.inner && given(&x.1.inner.extras) == given(&y.1.inner.extras));
                    r.check(ok, "other", &desc, || format!("{way}: {text} read as {g:?}"));
                }
            }
        }
        // what is written does not depend on the order of the marker table
        let Some(t) = r.run(&desc, || serde_json::to_string(&b.clone().marker_expressions.into_iter().collect::<HashMap<_, _>>().into_iter().map(|(k, v)| (k.to_string(), v)).collect::<std::collections::BTreeMap<_, _>>()).unwrap()) else { continue };
        let v = serde_json::to_string(&b).unwrap();
        r.check(v.ends_with(&format!("\"marker-expressions\":{t}}}")), "order", &desc, || format!("markers written as {v}"));
    }
}
