//@attach src/package_db/simple_api/fetch.rs
// P02: what an index page says is what is read from it, over a real server
use super::*;
use crate::verif_support::*;
use std::collections::HashMap as Map;
use std::sync::{Arc, Mutex};

fn esc_attr(s: &str, q: char) -> String {
    s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), c if c == q => format!("&#{};", c as u32), c => c.to_string() }).collect()
}
fn attr(rng: &mut Rng, name: &str, value: &str) -> String {
    let q = if rng.chance(1, 2) { '"' } else { '\'' };
    let n = if rng.chance(1, 5) { name.to_uppercase() } else { name.to_string() };
    format!(" {n}={q}{}{q}", esc_attr(value, q))
}
// an address: where it is (scheme and host, directories); computed here, not with the url crate
#[derive(Clone, Debug, PartialEq)]
struct Place { host: String, dirs: Vec<String> }
impl Place {
    fn text(&self) -> String { format!("{}/{}", self.host, self.dirs.iter().map(|d| format!("{d}/")).collect::<String>()) }
    // a reference to something in another directory, and that directory
    fn refer(&self, rng: &mut Rng) -> (String, Place) {
        let mut p = self.clone();
        match rng.below(6) {
            0 => (String::new(), p),
            1 => { let d = rng.pick(&["x", "files", "a-1.0.zip"]).to_string(); p.dirs.push(d.clone()); (format!("{d}/"), p) }
            2 => { p.dirs.pop(); ("../".into(), p) }
            3 => { p.dirs = vec!["root".into(), "d".into()]; ("/root/d/".into(), p) }
            4 => { let h = rng.pick(&["https://files.example", "http://other.example:8080"]).to_string(); p = Place { host: h.clone(), dirs: vec!["z".into()] }; (format!("{h}/z/"), p) }
            _ => { let s = self.host.split("//").next().unwrap().to_string(); p = Place { host: format!("{s}//cdn.example"), dirs: vec![] }; ("//cdn.example/".into(), p) }
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Said { name: String, url: String, hash: Option<String>, py: Option<String>, meta: (bool, Option<String>), yanked: Option<String> }

// (what is written in the address, the names of the files it stands for)
const FILES: &[(&str, &[&str])] = &[
    ("foo-1.0.tar.gz", &["foo-1.0.tar.gz"]), ("foo-1.0.zip", &["foo-1.0.zip"]), ("foo-1.0-py3-none-any.whl", &["foo-1.0-py3-none-any.whl"]),
    ("foo-1.0%2Bcpu-py3-none-any.whl", &["foo-1.0+cpu-py3-none-any.whl"]), ("foo-1.0%2bcpu.zip", &["foo-1.0+cpu.zip"]), ("foo-1.0+cpu.zip", &["foo-1.0+cpu.zip"]),
    ("%66oo-1%2E0.tar.gz", &["foo-1.0.tar.gz"]), ("foo-1%2110-py3-none-any.whl", &["foo-1!10-py3-none-any.whl"]),
    ("cpython-3.11.0-linux_x86_64.pybi", &["cpython-3.11.0-linux_x86_64.pybi"]),
    ("cpython-3.11.0-win_amd64.win32.pybi", &["cpython-3.11.0-win_amd64.pybi", "cpython-3.11.0-win32.pybi"]),
    ("foo-1.0%2Bcpu.egg", &[]), ("index.html", &[]), ("", &[]), ("foo-1.0%2.zip", &[]), ("foo-1.0%.zip", &[]), ("foo-1.0%2", &[]), ("foo-1.0%zz.zip", &[]), ("foo-1.0%2Gcpu.zip", &[]), ("foo-1.0%ff.zip", &[]), ("foo-1.0%25.zip", &[]),
];
const H: &str = "0123456789abcdef0123456789ABCDEF0123456789abcdef0123456789abcdef";
fn good_hash(s: &str) -> Option<String> { (s == format!("sha256={H}")).then(|| format!("sha256={}", H.to_lowercase())) }

struct Page { html: String, said: Vec<Said>, version: String }
fn page(rng: &mut Rng, at: &Place) -> Page {
    let mut h = String::new();
    let mut base = at.clone();
    let mut version = "1.0".to_string();
    let mut said = Vec::new();
    if rng.chance(2, 3) { h += "<!DOCTYPE html><html>"; }
    h += "<head><meta charset=\"utf-8\"><title>Links for foo</title>";
    let mut metas = Vec::new();
    for _ in 0..rng.below(3) { metas.push(0) }
    for _ in 0..rng.below(4) { metas.push(1) }
    rng.shuffle(&mut metas);
    let mut based = false;
    for m in metas {
        if m == 0 {
            let v = rng.pick(&["1.0", "1.1", "1.97", "2.0", "x<y"]).to_string();
            match rng.below(5) {
                0 => h += &format!("<meta{}{}>", attr(rng, "name", "pypi:repository-versions"), attr(rng, "content", &v)),
                1 => h += &format!("<meta{}{}>", attr(rng, "name", "pypi:repository-version"), attr(rng, "value", &v)),
                _ => { h += &(if rng.chance(1, 2) { format!("<meta{}{}>", attr(rng, "name", "pypi:repository-version"), attr(rng, "content", &v)) } else { format!("<META{}{}/>", attr(rng, "content", &v), attr(rng, "name", "pypi:repository-version")) }); version = v; }
            }
        } else {
            match rng.below(4) {
                0 => h += "<base target=\"_blank\">",
                // cannot be read as an address: still the first one
                1 if rng.chance(1, 3) => { h += "<base href=\"http://[bad/\">"; based = true; }
                _ => { let (r, p) = at.refer(rng); h += &format!("<base{}>", attr(rng, "href", &r)); if !based { base = p; based = true; } }
            }
        }
    }
    h += "</head><body>\n";
    for _ in 0..rng.below(7) {
        let (file, names) = *rng.pick(FILES);
        let (r, p) = base.refer(rng);
        let mut href = format!("{r}{file}");
        let mut url = format!("{}{file}", p.text());
        if file.is_empty() && r.is_empty() { continue }
        if rng.chance(1, 6) { href += "?a=1&b=foo-2.0.zip"; url += "?a=1&b=foo-2.0.zip"; }
        let frag = match rng.below(6) { 0 | 1 => Some(format!("sha256={H}")), 2 => Some(rng.pick(&["egg=foo", &format!("egg=foo&sha256={H}"), &format!("sha256={H}&egg=foo"), &format!("x#sha256={H}"), "sha256=00", "md5", "", "sha256", "sha256==00", "rot13=00"]).to_string()), _ => None };
        if let Some(f) = &frag { href += &format!("#{f}"); url += &format!("#{f}"); }
        let py = rng.chance(1, 3).then(|| rng.pick(&[">=3.6", ">=2.7,!=3.0.*", "", "<4 & \"odd\""]).to_string());
        let meta = rng.chance(1, 3).then(|| match rng.below(4) { 0 => "true".to_string(), 1 => "sha256=12".to_string(), _ => format!("sha256={H}") });
        let yank = rng.chance(1, 3).then(|| rng.pick(&["", "broken & <bad>", "'quoted' \"reason\""]).to_string());
        let mut at = vec![attr(rng, "href", &href)];
        if let Some(x) = &py { at.push(attr(rng, "data-requires-python", x)) }
        if let Some(x) = &meta { at.push(attr(rng, "data-dist-info-metadata", x)) }
        if let Some(x) = &yank { if x.is_empty() && rng.chance(1, 2) { at.push(" data-yanked".into()) } else { at.push(attr(rng, "data-yanked", x)) } }
        if rng.chance(1, 4) { at.push(" rel=\"internal\"".into()) }
        if rng.chance(1, 4) { at.push(" data-gpg-sig=\"true\"".into()) }
        rng.shuffle(&mut at);
        // an attribute given twice counts once
        if rng.chance(1, 8) { at.push(" href=\"second-9.9.zip\"".into()) }
        let at = at.concat();
        let mut counts = true;
        h += &match rng.below(12) {
            0 => { counts = false; format!("<!-- <a{at}>x</a> -->") }
            1 => { counts = false; format!("<area{at}>") }
            2 => { counts = false; format!("<svg><a{at}>x</a></svg>") }
            3 => { counts = false; format!("<script>\"<a{at}>x<\\/a>\"</script>") }
            4 => { counts = false; "<a name=\"foo-1.0.zip\">foo-1.0.zip</a>".into() }
            5 => format!("<A{at}>x</A>"),
            6 => format!("<ul><li><div><a{at}><b>x</b></a></div></li></ul>"),
            7 => format!("<table><tr><td><a{at}>x</a></td></tr></table>"),
            _ => format!("<a{at}>foo-7.7.zip</a><br/>\n"),
        };
        if counts {
            for n in names {
                said.push(Said { name: n.to_string(), url: url.clone(), hash: frag.as_deref().and_then(good_hash), py: py.clone(),
                    meta: (meta.is_some(), meta.as_deref().and_then(good_hash)), yanked: yank.clone() });
            }
        }
    }
    if rng.chance(1, 2) { h += "</body></html>"; }
    Page { html: h, said, version }
}

#[test]
fn v_p02_page() {
    let mut r = Report::new("P02", "v_p02_page",
        "index pages of 0-6 links in several kinds of HTML (attributes in any order and case, entities, comments, tables, look-alikes), 0-3 <base>, 0-2 repository versions, percent-encoded names that can and cannot be read, hashes, yanking, metadata; behind 0-2 redirects, some of them changed since they were cached; with several statuses and content types; the whole table fetch_simple_api returns is compared with what was written. Non-trivial: a page with a file");
    let mut rng = Rng::new("p02");
    let pages: Arc<Mutex<Map<String, Resp>>> = Default::default();
    let p2 = pages.clone();
    let srv = Server::new(move |q| p2.lock().unwrap().get(&q.path).cloned().unwrap_or(Resp::new(404, b"none")));
    let root = format!("http://127.0.0.1:{}", srv.port);
    let d = tempfile::tempdir().unwrap();
    let http = Http::new(crate::kvstore::KVFileStore::new(&d.path().join("h")).unwrap(), crate::kvstore::KVFileStore::new(&d.path().join("b")).unwrap());
    let mut case = 0;
    for k in 0..cases(800, 15) {
        // sometimes the page has changed since the last time, though it was said to last
        if !rng.chance(1, 5) || k == 0 { case = k }
        let start = Place { host: root.clone(), dirs: vec!["simple".into(), format!("foo{case}")] };
        let mut at = start.clone();
        let mut map = Map::new();
        for k in 0..(if case == k { rng.below(3) } else { 0 }) {
            let to = Place { host: root.clone(), dirs: vec![format!("m{k}"), format!("c{case}"), "foo".into()] };
            map.insert(at.text()[root.len()..].to_string(), Resp::new(*rng.pick(&[301, 302, 303, 307, 308]), b"moved").h("Location", &to.text()));
            at = to;
        }
        let status = if rng.chance(1, 5) { *rng.pick(&[404, 403, 410, 401, 400, 418]) } else { 200 };
        let ty = if rng.chance(1, 4) { *rng.pick(&[None, Some("text/html; charset=utf-8"), Some("TEXT/HTML"), Some("text/plain"), Some("application/json"), Some("application/html"), Some("nonsense"), Some("text/xhtml")]) } else { Some("text/html") };
        let p = page(&mut rng, &at);
        let mut resp = Resp::new(status, p.html.as_bytes());
        if let Some(t) = ty { resp = resp.h("Content-Type", t); }
        resp.chunked = rng.chance(1, 3);
        if rng.chance(3, 4) { resp = resp.h("Cache-Control", "public, max-age=86400").h("ETag", &format!("\"{k}\"")); }
        map.insert(at.text()[root.len()..].to_string(), resp);
        *pages.lock().unwrap() = map;
        let desc = format!("{}status {status} type {ty:?} from {} at {}: {}", if case == k { "" } else { "again, " }, start.text(), at.text(), p.html).replace(&root, "ROOT");
        r.case(&desc, status == 200 && !p.said.is_empty());
        let Some(got) = r.run(&desc, || fetch_simple_api(&http, &Url::parse(&start.text()).unwrap())) else { continue };
        let is_html = matches!(ty, None | Some("text/html") | Some("text/html; charset=utf-8") | Some("TEXT/HTML"));
        match got {
            Ok(None) => { r.check(status == 404, "absent", &desc, || "the project is taken to be absent".into()); }
            Err(e) => { r.check(status >= 400 && status != 404 || status == 200 && !is_html, "refused", &desc, || format!("{e:?}")); }
            Ok(Some(pi)) => {
                if !r.check(status == 200 && is_html, "accepted", &desc, || "taken for a page".into()) { continue }
                r.check(pi.meta.version == p.version, "version", &desc, || format!("{:?} instead of {:?}", pi.meta.version, p.version));
                let got: Vec<Said> = pi.artifacts.iter().map(|a| Said { name: a.name.to_string(), url: a.url.to_string(), hash: a.hash.as_ref().map(|h| h.to_string()), py: a.requires_python.clone(),
                    meta: (a.dist_info_metadata.available, a.dist_info_metadata.hash.as_ref().map(|h| h.to_string())), yanked: if a.yanked.yanked { Some(a.yanked.reason.clone().unwrap_or("(none)".into())) } else { None } }).collect();
                r.check(got == p.said, "files", &desc, || format!("{got:?} instead of {:?}", p.said));
            }
        }
    }
}
