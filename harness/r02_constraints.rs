//@attach src/resolve.rs
// R02: what the solver is told about each package, against the requirements themselves
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;
use pubgrub::solver::DependencyProvider;

const VERS: &[&str] = &["0.9", "1.0.dev1", "1.0a1", "1.0", "1.0+loc", "1.0.post1", "1.1", "1.2rc1", "2.0", "2.0+x.1", "2.5", "3.0", "1!0.1"];
const SPECS: &[&str] = &["", "", ">=1.0", "!=2.0", "<3", ">0.9", "==1.*", "!=1.1", "~=1.0", "==1.0", "<=2.0", "==1.0+loc", ">=1.0,<2.5", "!=1.0,!=2.5", ">=1.0a1"];
// marker, truth for (python 3.10 on linux), given the extra in force
const MARKERS: &[(&str, fn(Option<&str>) -> bool)] = &[
    ("", |_| true), ("", |_| true), ("", |_| true),
    ("python_version >= '3.8'", |_| true), ("python_version < '3'", |_| false), ("sys_platform == 'linux'", |_| true), ("sys_platform == 'win32'", |_| false),
    ("extra == 'x'", |e| e == Some("x")), ("extra == 'y-z'", |e| e == Some("y-z")), ("extra == 'Y_z' and python_version >= '3.8'", |e| e == Some("y-z")),
    ("extra == 'x' and sys_platform == 'win32'", |_| false), ("extra != 'x'", |e| e != Some("x")), ("extra == 'x' or sys_platform == 'linux'", |_| true),
    ("extra == 'x' or sys_platform == 'win32'", |e| e == Some("x")), ("python_version == '3.10' and (extra == 'x' or extra == 'y_z')", |e| e.is_some()),
];

struct Fix { dirs: Dirs, env: HashMap<String, String>, py: PackageName, pyv: Version }

fn with_state<T>(fx: &Fix, brief: &Brief, f: impl FnOnce(&PubgrubState) -> Result<T>) -> Result<T> {
    let db = fx.dirs.db(&[]);
    let hints = VersionHints::new();
    let stack: [&PackageName; 0] = [];
    let wb = WheelBuilder::new(&db, &fx.py, &fx.pyv, PybiPlatform::native_platforms()?, &stack)?;
    let st = PubgrubState {
        db: &db, env: &fx.env, brief, version_hints: &hints, wheel_builder: &wb,
        marker_exprs: Default::default(), python_full_version: fx.pyv.clone(), expected_metadata: Default::default(), versions: Default::default(),
    };
    f(&st)
}

fn fixture() -> Fix {
    Fix {
        dirs: Dirs::new(),
        env: [("python_version", "3.10"), ("python_full_version", "3.10.4"), ("sys_platform", "linux"), ("os_name", "posix")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        py: "cpython".parse().unwrap(),
        pyv: "3.10.4".try_into().unwrap(),
    }
}

#[derive(Clone, Debug)]
struct R { pkg: &'static str, extras: Vec<&'static str>, spec: &'static str, marker: usize }
impl R {
    fn text(&self) -> String {
        let mut s = self.pkg.to_string();
        if !self.extras.is_empty() { s += &format!("[{}]", self.extras.join(",")); }
        if !self.spec.is_empty() { s += &format!(" ({})", self.spec); }
        if !MARKERS[self.marker].0.is_empty() { s += &format!("; {}", MARKERS[self.marker].0); }
        s
    }
    fn applies(&self, e: Option<&str>) -> bool { (MARKERS[self.marker].1)(e) }
}

fn gen(rng: &mut Rng, user: bool, spellings: &[&'static str]) -> R {
    let mut extras: Vec<&'static str> = Vec::new();
    for e in ["x", "Y.z"] { if rng.chance(1, 5) { extras.push(e); } }
    loop {
        let marker = rng.below(MARKERS.len());
        if user && MARKERS[marker].0.contains("extra") { continue; }
        return R { pkg: spellings[rng.below(spellings.len())], extras, spec: SPECS[rng.below(SPECS.len())], marker };
    }
}

fn norm(s: &str) -> String { s.to_lowercase().replace(['.', '_'], "-") }

fn show(p: &ResPkg) -> String {
    match p { ResPkg::Root => "<root>".into(), ResPkg::Package(n, None) => norm(n.as_given()), ResPkg::Package(n, Some(e)) => format!("{}[{}]", norm(n.as_given()), norm(e.as_given())) }
}

#[test]
fn v_r02_constraints() {
    let mut r = Report::new("R02", "v_r02_constraints",
        "1-5 generated requirements of the user, or of a package with or without an extra, with several on the same package; the set of constrained packages and, for each of 13 versions, whether the constraint admits it. Non-trivial: some package is required twice by applicable requirements");
    let mut rng = Rng::new("r02");
    let fx = fixture();
    let vers: Vec<Version> = VERS.iter().map(|v| (*v).try_into().unwrap()).collect();
    for _ in 0..cases(2500, 12) {
        let user = rng.chance(1, 3);
        let extra: Option<&str> = if user { None } else { *rng.pick(&[None, Some("x"), Some("Y-Z"), Some("x")]) };
        let reqs: Vec<R> = (0..rng.range(1, 5)).map(|_| gen(&mut rng, user, &["a", "b", "A", "c-d", "c_d"])).collect();
        let own = rng.pick(&["1.0", "1.0+loc", "2.0", "1.0.post1", "1.2rc1", "2.0+x.1"]).to_string();
        let texts: Vec<String> = reqs.iter().map(|q| q.text()).collect();
        let input = format!("{} requires {:?}", if user { "user".into() } else { format!("p{} {own}", extra.map(|e| format!("[{e}]")).unwrap_or_default()) }, texts);
        let e = extra.map(norm);
        let app: Vec<&R> = reqs.iter().filter(|q| q.applies(e.as_deref())).collect();
        let mut want: HashMap<String, Vec<&R>> = HashMap::new();
        for q in &app {
            if q.extras.is_empty() { want.entry(norm(q.pkg)).or_default().push(q); }
            for x in &q.extras { want.entry(format!("{}[{}]", norm(q.pkg), norm(x))).or_default().push(q); }
        }
        r.case(&input, want.values().any(|v| v.len() > 1));
        let got = r.run(&input, || -> Result<HashMap<String, Vec<bool>>> {
            let brief = Brief {
                python: "cpython".try_into()?,
                requirements: if user { texts.iter().map(|t| t.as_str().try_into()).collect::<Result<_>>()? } else { vec![] },
                allow_pre: Default::default(),
            };
            with_state(&fx, &brief, |st| {
                let (pkg, v): (ResPkg, Version) = if user { (ResPkg::Root, ROOT_VERSION.clone()) } else {
                    let name: PackageName = "p".parse()?;
                    let v: Version = own.as_str().try_into()?;
                    st.expected_metadata.insert((name.clone(), v.clone()), Box::new(WheelResolveMetadata { provenance: "t".into(), inner: WheelResolveMetadataInner {
                        requires_dist: texts.iter().map(|t| t.as_str().try_into()).collect::<Result<_>>()?, requires_python: Default::default(),
                        extras: ["X", "y_z"].iter().map(|e| e.parse().unwrap()).collect() } }));
                    (ResPkg::Package(name, extra.map(|e| e.parse().unwrap())), v)
                };
                match st.get_dependencies(&pkg, &v).map_err(|e| eyre!("{e}"))? {
                    Dependencies::Unknown => bail!("Dependencies::Unknown"),
                    Dependencies::Known(dc) => Ok(dc.iter().map(|(p, range)| (show(p), vers.iter().map(|v| range.contains(v)).collect())).collect()),
                }
            })
        });
        let Some(got) = got else { continue };
        let mut got = match got { Ok(g) => g, Err(e) => { r.fail("error", &input, &format!("{e:#}")); continue } };
        if extra.is_some() {
            match got.remove("p") {
                None => r.fail("pin", &input, "no constraint on the plain package"),
                Some(adm) => for (v, a) in VERS.iter().zip(adm) {
                    if a != (*v == own) { r.fail("pin", &input, &format!("p[..] {own} {} p {v}", if a { "admits" } else { "excludes" })); break; }
                },
            }
        }
        let mut keys: Vec<&String> = want.keys().chain(got.keys()).collect::<HashSet<_>>().into_iter().collect();
        keys.sort();
        for k in keys {
            match (want.get(k), got.get(k)) {
                (Some(_), None) => r.fail("dropped", &input, &format!("nothing about {k}")),
                (None, Some(_)) => r.fail("extra", &input, &format!("a constraint on {k}, which no applicable requirement names")),
                (Some(qs), Some(adm)) => {
                    for (i, v) in vers.iter().enumerate() {
                        let w = qs.iter().all(|q| Specifiers::try_from(q.spec).map_or(q.spec.is_empty(), |s| s.satisfied_by(v).unwrap()));
                        if w != adm[i] { r.fail("admits", &input, &format!("{k} {} is {}, but must be {}", VERS[i], if adm[i] { "admitted" } else { "excluded" }, if w { "admitted" } else { "excluded" })); break; }
                    }
                }
                _ => {}
            }
        }
    }
}

#[test]
fn v_r02_extra() {
    let mut r = Report::new("R02", "v_r02_extra",
        "for every own version and every candidate version of the pool: the constraint of p[x] on p admits exactly the own version; a missing extra is an error");
    let fx = fixture();
    let brief = Brief { python: "cpython".try_into().unwrap(), requirements: vec![], allow_pre: Default::default() };
    let meta = |extras: &[&str]| Box::new(WheelResolveMetadata { provenance: "t".into(), inner: WheelResolveMetadataInner {
        requires_dist: vec!["p (>=0)".try_into().unwrap()], requires_python: Default::default(), extras: extras.iter().map(|e| e.parse().unwrap()).collect() } });
    for own in VERS {
        let got = r.run(own, || with_state(&fx, &brief, |st| {
            let name: PackageName = "p".parse()?;
            let v: Version = (*own).try_into()?;
            st.expected_metadata.insert((name.clone(), v.clone()), meta(&["x"]));
            let known = match st.get_dependencies(&ResPkg::Package(name.clone(), Some("X".parse()?)), &v).map_err(|e| eyre!("{e}"))? {
                Dependencies::Known(dc) => {
                    let ranges: Vec<_> = dc.iter().filter(|(p, _)| show(p) == "p").collect();
                    if ranges.len() != 1 { bail!("{} constraints on p", ranges.len()); }
                    VERS.iter().map(|c| ranges[0].1.contains(&(*c).try_into().unwrap())).collect::<Vec<bool>>()
                }
                _ => bail!("unknown"),
            };
            let missing = st.get_dependencies(&ResPkg::Package(name.clone(), Some("nope".parse()?)), &v).is_err();
            Ok((known, missing))
        }));
        let Some(got) = got else { continue };
        match got {
            Err(e) => r.fail("error", own, &format!("{e:#}")),
            Ok((adm, missing)) => {
                r.check(missing, "missing-extra", own, || "an extra the package does not have is accepted".into());
                for (c, a) in VERS.iter().zip(adm) {
                    let input = format!("p[x] {own}, p {c}");
                    r.case(&input, true);
                    r.check(a == (c == own), "pin", &input, || if a { "admitted".into() } else { "excluded".into() });
                }
            }
        }
    }
    r.exhaustive();
}
