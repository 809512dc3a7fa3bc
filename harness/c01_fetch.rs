//@attach src/package_db/http/http.rs
// C01: fetching content for an expected hash
use super::*;
use crate::verif_support::*;
use std::sync::{Arc, Mutex};

fn snapshot(p: &std::path::Path) -> Vec<(String, Vec<u8>)> {
    let mut res = Vec::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_dir() { todo.push(e.path()); }
            else if !e.path().to_string_lossy().ends_with(".lock") { res.push((e.path().display().to_string(), std::fs::read(e.path()).unwrap())); }
        }
    }
    res.sort();
    res
}

#[test]
fn v_c01_fetch() {
    let mut r = Report::new("C01", "v_c01_fetch",
        "a server that sends right, wrong, shortened, extended or cut-off content for a hash, 1-4 requests in different cache modes: what is returned has the hash, or the request fails and nothing new is stored. Non-trivial: some answer is wrong");
    let mut rng = Rng::new("c01f");
    let page: Arc<Mutex<Resp>> = Arc::new(Mutex::new(Resp::new(200, b"")));
    let p2 = page.clone();
    let srv = Server::new(move |_| p2.lock().unwrap().clone());
    let url = Url::parse(&srv.base()).unwrap().join("f").unwrap();
    for i in 0..cases(250, 10) {
        let dir = tempfile::tempdir().unwrap();
        let http = HttpInner::new(KVFileStore::new(&dir.path().join("h")).unwrap(), KVFileStore::new(&dir.path().join("b")).unwrap());
        let n = match rng.below(4) { 0 => rng.below(3), 1 => rng.below(200), 2 => rng.range(8000, 20000), _ => rng.below(3000) };
        let mut data = rng.bytes(n);
        data.extend(i.to_le_bytes());
        let hash = ArtifactHash::from_hex("sha256", &sha256_hex(&data)).unwrap();
        let mut have = false;
        let mut desc = format!("{} bytes:", data.len());
        let mut wrong = false;
        for _ in 0..rng.range(1, 4) {
            let k = rng.below(9);
            let mode = *rng.pick(&[CacheMode::Default, CacheMode::Default, CacheMode::NoStore, CacheMode::OnlyIfCached]);
            let mut resp = Resp::new(200, &data).h("Cache-Control", *rng.pick(&["max-age=1000", "no-store"]));
            let mut good = true;
            match k {
                0 => { resp.body.pop(); good = false; }
                1 => { resp.body.push(7); good = false; }
                2 => { let j = rng.below(data.len()); resp.body[j] ^= 0x20; good = false; }
                3 => { resp.body.clear(); good = false; }
                4 => { resp.cut = Some(rng.below(data.len())); good = false; }
                5 => { resp.chunked = true; }
                6 => { resp.status = 404; resp.body = b"not here".to_vec(); good = false; }
                _ => {}
            }
            desc += &format!(" {mode:?}/{}", ["shortened", "extended", "changed", "empty", "cut", "chunked", "404", "good", "good"][k]);
            wrong |= !good;
            *page.lock().unwrap() = resp;
            let before = snapshot(dir.path());
            let d2 = desc.clone();
            let got = r.run(&d2, || http.get_hashed(&url, Some(&hash), mode).and_then(|mut x| { let mut v = Vec::new(); x.read_to_end(&mut v)?; Ok(v) }));
            let after = snapshot(dir.path());
            let Some(got) = got else { continue };
            match &got {
                Ok(v) => { r.check(*v == data, "wrong-bytes", &desc, || format!("returned {} bytes with another hash", v.len())); }
                Err(_) => { r.check(before == after, "stored-on-failure", &desc, || format!("the store changed: {:?}", after.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>())); }
            }
            let must = match mode { CacheMode::Default => have || good, CacheMode::NoStore => good, CacheMode::OnlyIfCached => have };
            r.check(got.is_ok() == must, "outcome", &desc, || format!("got {:?}, must succeed: {must}", got.as_ref().map(|v| v.len()).map_err(|e| e.to_string())));
            if mode == CacheMode::Default && got.is_ok() { have = true; }
            for (p, b) in &after { r.check(*b == data, "stored", &desc, || format!("{p} holds {} bytes with another hash", b.len())); }
        }
        r.case(&desc, wrong);
    }
}

#[test]
fn v_c01_unhashed() {
    let mut r = Report::new("C01", "v_c01_unhashed",
        "fetching a file without an expected hash from a server that answers with various statuses, cacheable or not, 1-4 requests: what is returned is the body of a success answer, from its first byte. Non-trivial: some answer is an error");
    let mut rng = Rng::new("c01u");
    let page: Arc<Mutex<Resp>> = Arc::new(Mutex::new(Resp::new(200, b"")));
    let p2 = page.clone();
    let srv = Server::new(move |_| p2.lock().unwrap().clone());
    let url = Url::parse(&srv.base()).unwrap().join("f").unwrap();
    for i in 0..cases(250, 10) {
        let dir = tempfile::tempdir().unwrap();
        let http = HttpInner::new(KVFileStore::new(&dir.path().join("h")).unwrap(), KVFileStore::new(&dir.path().join("b")).unwrap());
        let mut good: Vec<Vec<u8>> = Vec::new();
        let mut desc = String::new();
        let mut bad = false;
        for k in 0..rng.range(1, 4) {
            let status = *rng.pick(&[200u16, 200, 404, 403, 410, 451, 300, 302, 307, 305]);
            let n = rng.below(3000);
            let mut data = rng.bytes(n);
            data.extend((i * 10 + k).to_le_bytes());
            let mode = *rng.pick(&[CacheMode::Default, CacheMode::Default, CacheMode::NoStore, CacheMode::OnlyIfCached]);
            let mut resp = Resp::new(status, &data).h("Cache-Control", *rng.pick(&["max-age=1000", "no-store", "max-age=0"]));
            resp.chunked = rng.chance(1, 4);
            *page.lock().unwrap() = resp;
            if status == 200 { good.push(data.clone()); } else { bad = true; }
            desc += &format!(" {mode:?}/{status}");
            let d2 = desc.clone();
            let got = r.run(&d2, || http.get_hashed(&url, None, mode).and_then(|mut x| { let mut v = Vec::new(); x.read_to_end(&mut v)?; Ok(v) }));
            match got {
                Some(Ok(v)) => { r.check(good.contains(&v), "not-the-file", &desc, || format!("returned {} bytes that no success answer held", v.len())); }
                Some(Err(e)) => { r.check(mode == CacheMode::OnlyIfCached || bad, "refused", &desc, || e.to_string()); }
                None => {}
            }
        }
        r.case(&desc, bad);
    }
}
