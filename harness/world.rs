//@attach src/main.rs
// a small package index on a loopback port, with wheels, source archives and interpreters
#![allow(dead_code)]
use crate::prelude::*;
use crate::verif_support::*;
use std::io::Write as _;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct WFile {
    pub name: String,
    pub bytes: Vec<u8>,
    pub yanked: bool,
    pub requires_python: Option<String>,
    pub hash: bool,
}

pub fn zip_of(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (n, b) in files {
        z.start_file(n.as_str(), zip::write::FileOptions::default()).unwrap();
        z.write_all(b).unwrap();
    }
    z.finish().unwrap().into_inner()
}

pub fn wheel(dist: &str, version: &str, tag: &str, meta: &str, extra: &[(&str, &str)]) -> WFile {
    let di = format!("{dist}-{version}.dist-info");
    let mut files = vec![
        (format!("{di}/WHEEL"), b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\n".to_vec()),
        (format!("{di}/METADATA"), format!("Metadata-Version: 2.1\nName: {dist}\nVersion: {version}\n{meta}").into_bytes()),
    ];
    for (n, b) in extra { files.push((n.to_string(), b.as_bytes().to_vec())); }
    WFile { name: format!("{dist}-{version}-{tag}.whl"), bytes: zip_of(&files), hash: true, ..Default::default() }
}

pub fn pybi(dist: &str, version: &str, platform: &str, tags: &[&str], vars: &str) -> WFile {
    let mut m = format!("Metadata-Version: 2.1\nName: {dist}\nVersion: {version}\n");
    m += &format!("Pybi-Environment-Marker-Variables: {vars}\n");
    for t in tags { m += &format!("Pybi-Wheel-Tag: {t}\n"); }
    m += "Pybi-Paths: {\"stdlib\": \"lib/python3\", \"purelib\": \"lib/site\", \"platlib\": \"lib/site\", \"scripts\": \"bin\", \"data\": \".\", \"include\": \"include\"}\n";
    let files = vec![
        ("pybi-info/PYBI".to_string(), b"Pybi-Version: 1.0\n".to_vec()),
        ("pybi-info/METADATA".to_string(), m.into_bytes()),
        ("lib/python3/site.py".to_string(), b"import sys\nENABLE_USER_SITE = None\n".to_vec()),
        ("lib/site/README".to_string(), b"x".to_vec()),
        ("bin/python".to_string(), platform.as_bytes().to_vec()),
    ];
    WFile { name: format!("{dist}-{version}-{platform}.pybi"), bytes: zip_of(&files), hash: true, ..Default::default() }
}

pub fn html_esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

pub type Pages = Arc<Mutex<HashMap<String, Resp>>>;

/// serves whatever `pages` holds at the moment, with range support
pub fn server() -> (Server, Pages) {
    let pages: Pages = Default::default();
    let p2 = pages.clone();
    let s = Server::new(move |req| {
        let p = p2.lock().unwrap();
        match p.get(&req.path) {
            Some(r) if r.status == 200 => {
                let mut x = serve_range(req, &r.body);
                x.headers.extend(r.headers.clone());
                x
            }
            Some(r) => r.clone(),
            None => Resp::new(404, b"no"),
        }
    });
    (s, pages)
}

/// one index under `/<idx>/`: project page and files
pub fn publish(pages: &Pages, idx: &str, project: &str, files: &[WFile]) {
    let mut h = String::from("<!DOCTYPE html><html><head><meta name=\"pypi:repository-version\" content=\"1.0\"></head><body>\n");
    let mut p = pages.lock().unwrap();
    for f in files {
        let frag = if f.hash { format!("#sha256={}", sha256_hex(&f.bytes)) } else { String::new() };
        let mut attrs = String::new();
        if f.yanked { attrs += " data-yanked=\"bad\""; }
        if let Some(rp) = &f.requires_python { attrs += &format!(" data-requires-python=\"{}\"", html_esc(rp)); }
        h += &format!("<a href=\"/files/{idx}/{}{frag}\"{attrs}>{}</a><br>\n", f.name, f.name);
        p.insert(format!("/files/{idx}/{}", f.name), Resp::new(200, &f.bytes));
    }
    h += "</body></html>";
    p.insert(format!("/{idx}/{project}/"), Resp::new(200, h.as_bytes()).h("Content-Type", "text/html").h("Cache-Control", "no-store"));
}

/// everything a PackageDB needs, in a scratch directory
pub struct Dirs {
    pub tmp: tempfile::TempDir,
    pub forest: crate::env::EnvForest,
    pub builds: crate::kvstore::KVDirStore,
}
impl Dirs {
    pub fn new() -> Dirs {
        let tmp = tempfile::tempdir().unwrap();
        let forest = crate::env::EnvForest::new(&tmp.path().join("forest")).unwrap();
        let builds = crate::kvstore::KVDirStore::new(&tmp.path().join("builds")).unwrap();
        Dirs { tmp, forest, builds }
    }
    pub fn db(&self, urls: &[String]) -> crate::package_db::PackageDB<'_> {
        let urls: Vec<Url> = urls.iter().map(|u| Url::parse(u).unwrap()).collect();
        crate::package_db::PackageDB::new(&urls, &self.tmp.path().join("cache"), &self.forest, &self.builds).unwrap()
    }
}
