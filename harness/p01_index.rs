//@attach src/package_db/package_db.rs
// P01: what several indexes list is what the package database offers
use super::*;
use crate::verif_support::*;
use crate::verif_world::*;

const VERS: &[(&str, &str)] = &[("1.0", "1.0"), ("1.0.0", "1.0"), ("1.0.post1", "1.0.post1"), ("2.0a1", "2.0a1"), ("2.0.alpha1", "2.0a1"), ("1.1", "1.1"), ("0.9.dev3", "0.9.dev3"), ("1!0.1", "1!0.1"), ("1.0+cpu", "1.0+cpu"), ("1.0+cpu.2", "1.0+cpu.2"), ("10.0", "10.0"), ("9", "9"), ("2.0", "2.0"), ("1.0rc1", "1.0rc1")];
// newest first, one spelling each
const ORDER: &[&str] = &["1!0.1", "10.0", "9", "2.0", "2.0a1", "1.1", "1.0.post1", "1.0+cpu.2", "1.0+cpu", "1.0", "1.0rc1", "0.9.dev3"];

fn enc(s: &str, rng: &mut Rng, all: bool) -> String {
    s.bytes().map(|b| if (all && rng.chance(1, 3)) || (b == b'+' && rng.chance(1, 2)) || (b == b'!' && rng.chance(1, 2)) { if rng.chance(1, 2) { format!("%{b:02X}") } else { format!("%{b:02x}") } } else { (b as char).to_string() }).collect()
}

#[test]
fn v_p01_filed() {
    let mut r = Report::new("P01", "v_p01_filed",
        "1-3 indexes, each with a page (or none, or an empty one) of 0-8 links: wheels, source archives, interpreter archives with one or several platforms, links that are no files; versions in several spellings, percent-encoded addresses, <base>, repository versions; the whole table available_artifacts returns is compared with the lists. Non-trivial: some version has files from several links");
    let mut rng = Rng::new("p01");
    let (srv, pages) = server();
    let dirs = Dirs::new();
    for case in 0..cases(500, 15) {
        pages.lock().unwrap().clear();
        let proj = format!("pkg{case}");
        let nidx = rng.range(1, 3);
        let mut want: Vec<(String, String, String)> = Vec::new(); // version, name, address
        let mut urls = Vec::new();
        let mut desc = String::new();
        let mut refused = false;
        for i in 0..nidx {
            urls.push(format!("{}i{i}/", srv.base()));
            if rng.chance(1, 6) { desc += " [none]"; continue; }
            let api = *rng.pick(&["1.0", "1.0", "1.0", "1.0", "1.1", "1.9", "", "", "2.0", "10.0", "0.9", "11.0"]);
            let api = if rng.chance(3, 4) { "1.0" } else { api };
            let mut h = String::from("<!DOCTYPE html><html><head>");
            if !api.is_empty() { h += &format!("<meta name=\"pypi:repository-version\" content=\"{api}\">"); }
            if !(api.is_empty() || api.starts_with("1.")) { refused = true; }
            let based = rng.chance(1, 4);
            if based { h += &format!("<base href=\"/elsewhere{i}/\">"); }
            h += "</head><body>";
            desc += &format!(" [api={api:?}{}", if based { " base" } else { "" });
            for k in 0..rng.below(9) {
                let (spell, ver) = *rng.pick(VERS);
                let (name, outs): (String, Vec<String>) = match rng.below(7) {
                    0 | 1 => { let n = format!("{proj}-{spell}.tar.gz"); (n.clone(), vec![n]) }
                    2 | 3 => { let n = format!("{proj}-{spell}-{k}-py3-none-any.whl"); (n.clone(), vec![n]) }
                    4 => (format!("{proj}-{spell}-win_amd64.pybi"), vec![format!("{proj}-{spell}-win_amd64.pybi")]),
                    5 => (format!("{proj}-{spell}-{k}-win_amd64.macosx_11_0_universal2.pybi"), vec![format!("{proj}-{spell}-{k}-win_amd64.pybi"), format!("{proj}-{spell}-{k}-macosx_11_0_arm64.pybi"), format!("{proj}-{spell}-{k}-macosx_11_0_x86_64.pybi")]),
                    _ => (rng.pick(&["index.html", "pkg-1.0.exe", "pkg.whl", "a-b-c-d-e-f-g.whl", "../"]).to_string(), vec![]),
                };
                let all = rng.chance(1, 6);
                let e = if outs.is_empty() { name.clone() } else { enc(&name, &mut rng, all) };
                let frag = if rng.chance(1, 2) { format!("#sha256={}", "ab".repeat(32)) } else { String::new() };
                let href = match rng.below(4) { 0 => format!("/files/{i}/{e}"), 1 => e.clone(), 2 => format!("../x/{e}"), _ => format!("http://files.example/{i}/{e}?q=1") };
                desc += &format!(" {href}");
                h += &format!("<a href=\"{href}{frag}\">{}</a><br>", html_esc(&name));
                let base = Url::parse(&urls[i]).unwrap().join(&format!("{proj}/")).unwrap();
                let base = if based { base.join(&format!("/elsewhere{i}/")).unwrap() } else { base };
                let full = base.join(&format!("{href}{frag}")).unwrap().to_string();
                for o in outs {
                    let o = o.replace(spell, &Version::try_from(spell).unwrap().to_string());
                    want.push((ver.to_string(), o, full.clone()));
                }
            }
            desc += "]";
            h += "</body></html>";
            pages.lock().unwrap().insert(format!("/i{i}/{proj}/"), Resp::new(200, h.as_bytes()).h("Content-Type", "text/html; charset=utf-8").h("Cache-Control", "no-store"));
        }
        let mut nver: HashMap<&str, HashSet<&str>> = HashMap::new();
        for w in &want { nver.entry(&w.0).or_default().insert(&w.2); }
        r.case(&desc, !refused && nver.values().any(|s| s.len() > 1));
        let got = r.run(&desc, || -> Result<Vec<(String, Vec<(String, String)>)>> {
            let db = dirs.db(&urls);
            let p: PackageName = (if case % 3 == 0 { proj.to_uppercase() } else { proj.clone() }).as_str().try_into()?;
            let t = db.available_artifacts(&p)?;
            let again = db.available_artifacts(&p)?;
            if !t.iter().eq(again.iter()) { bail!("asked twice, got two answers"); }
            let mut res = Vec::new();
            for (v, ais) in t {
                if db.artifacts_for_version(&p, v)? != ais.as_slice() { bail!("artifacts_for_version({v}) differs"); }
                res.push((v.to_string(), ais.iter().map(|a| (a.name.to_string(), a.url.to_string())).collect()));
            }
            if db.artifacts_for_version(&p, &"77.7".try_into()?)?.len() != 0 { bail!("files for a version that is not there"); }
            Ok(res)
        });
        match got {
            None => {}
            Some(Err(e)) => { r.check(refused, "error", &desc, || format!("{e:#}")); }
            Some(Ok(got)) => {
                if !r.check(!refused, "api", &desc, || "a page of an unknown format version was accepted".into()) { continue; }
                let canon = |v: &str| VERS.iter().find(|x| x.0 == v).map(|x| x.1.to_string()).unwrap_or(v.to_string());
                let order: Vec<String> = got.iter().map(|x| canon(&x.0)).collect();
                let worder: Vec<String> = ORDER.iter().filter(|v| want.iter().any(|w| w.0 == **v)).map(|v| v.to_string()).collect();
                r.check(order == worder, "order", &desc, || format!("{order:?}, must be {worder:?}"));
                let mut flat: Vec<(String, String, String)> = got.iter().flat_map(|(v, fs)| fs.iter().map(|f| (canon(v), f.0.clone(), f.1.clone())).collect::<Vec<_>>()).collect();
                flat.sort();
                want.sort();
                r.check(flat == want, "files", &desc, || format!("missing {:?}, extra {:?}", want.iter().filter(|x| !flat.contains(x)).collect::<Vec<_>>(), flat.iter().filter(|x| !want.contains(x)).collect::<Vec<_>>()));
            }
        }
    }
}
