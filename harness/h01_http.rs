//@attach src/package_db/http/http.rs
// H01: cache modes and redirects, against a server whose resources change
use super::*;
use crate::verif_support::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
// Renew: stale at once, but confirmed by ETag for a long time; Renewed: a stored one so confirmed
enum Kind { Long, Validate, ValidateMod, NoStore, Plain, Renew, Renewed }
impl Kind { fn conditional(&self) -> bool { matches!(self, Kind::Validate | Kind::ValidateMod | Kind::Renew | Kind::Renewed) } }
#[derive(Clone, Debug)]
struct Res { kind: Kind, gen: usize, body: Vec<u8>, status: u16 }

fn answer(req: &Req, r: &Res) -> Resp {
    let etag = format!("\"g{}\"", r.gen);
    // 2020-01-01 was a Wednesday; one day per generation
    let lm = format!("{}, {:02} Jan 2020 00:00:00 GMT", ["Wed", "Thu", "Fri", "Sat", "Sun", "Mon", "Tue"][r.gen % 7], r.gen + 1);
    let cc = |x: Resp| match r.kind {
        Kind::Long => x.h("Cache-Control", "max-age=100000"),
        Kind::Validate => x.h("Cache-Control", "max-age=0").h("ETag", &etag),
        Kind::ValidateMod => x.h("Cache-Control", "max-age=0").h("Last-Modified", &lm),
        Kind::NoStore => x.h("Cache-Control", "no-store"),
        Kind::Plain => x.h("Cache-Control", "max-age=0"),
        Kind::Renew | Kind::Renewed => { let age = if x.status == 304 { "max-age=100000" } else { "max-age=0" }; x.h("Cache-Control", age).h("ETag", &etag) }
    };
    let same = match r.kind {
        Kind::Validate | Kind::Renew | Kind::Renewed => req.header("if-none-match") == Some(etag.as_str()),
        Kind::ValidateMod => req.header("if-modified-since") == Some(lm.as_str()),
        _ => false,
    };
    if same { return cc(Resp::new(304, b"")); }
    let mut x = cc(Resp::new(r.status, &r.body));
    x.chunked = r.gen % 3 == 1;
    x
}

fn snapshot(p: &std::path::Path) -> Vec<(String, Vec<u8>)> {
    let mut res = Vec::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_dir() { todo.push(e.path()); } else { res.push((e.path().display().to_string(), std::fs::read(e.path()).unwrap())); }
        }
    }
    res.sort();
    res
}

#[test]
fn v_h01_modes() {
    let mut r = Report::new("H01", "v_h01_modes",
        "2-10 steps on 1-2 addresses: the resource changes (body, and whether it may be stored, must be revalidated by ETag or date), the answer is cut off, or a request is made in one of the three cache modes with or without max-age=0; requests sent, body, and what is cached afterwards are compared with the promise. Non-trivial: a cached entry is used or revalidated");
    let mut rng = Rng::new("h01");
    let world: Arc<Mutex<(HashMap<String, Res>, bool)>> = Default::default();
    let w2 = world.clone();
    let srv = Server::new(move |req| {
        let w = w2.lock().unwrap();
        let mut x = match w.0.get(&req.path) { Some(r) => answer(req, r), None => Resp::new(404, b"none") };
        if w.1 && x.body.len() > 1 { x.cut = Some(x.body.len() / 2); x.chunked = false; }
        x
    });
    for _ in 0..cases(300, 15) {
        let dir = tempfile::tempdir().unwrap();
        let http = HttpInner::new(KVFileStore::new(&dir.path().join("h")).unwrap(), KVFileStore::new(&dir.path().join("b")).unwrap());
        let paths = ["/x", "/y"];
        let mut cached: HashMap<&str, Res> = HashMap::new();
        let mut gen = 0;
        let mut mk = |rng: &mut Rng, gen: &mut usize| {
            *gen += 1;
            let n = match rng.below(4) { 0 => 0, 1 => rng.range(9000, 30000), _ => rng.below(100) };
            let mut body = rng.bytes(n);
            if n > 0 { body.push(*gen as u8); }
            Res { kind: rng.pick(&[Kind::Long, Kind::Validate, Kind::ValidateMod, Kind::NoStore, Kind::Plain, Kind::Renew]).clone(), gen: *gen, body, status: if rng.chance(1, 8) { 404 } else { 200 } }
        };
        for p in paths { let x = mk(&mut rng, &mut gen); world.lock().unwrap().0.insert(p.into(), x); }
        let mut desc = String::new();
        let mut used = false;
        for _ in 0..rng.range(2, 10) {
            let p = *rng.pick(&paths);
            if rng.chance(1, 3) {
                let x = mk(&mut rng, &mut gen);
                desc += &format!(" {p}:={:?}/{}/{}", x.kind, x.status, x.body.len());
                world.lock().unwrap().0.insert(p.into(), x);
                continue;
            }
            let cur = world.lock().unwrap().0[p].clone();
            let cut = rng.chance(1, 10);
            let is_cut = cut && cur.body.len() > 1;
            world.lock().unwrap().1 = cut;
            let mode = *rng.pick(&[CacheMode::Default, CacheMode::Default, CacheMode::OnlyIfCached, CacheMode::NoStore]);
            let age0 = rng.chance(1, 4);
            desc += &format!(" {mode:?}({p}{}{})", if age0 { ",max-age=0" } else { "" }, if cut { ",cut" } else { "" });
            let before = snapshot(&dir.path().join("h"));
            srv.take_log();
            let mut b = http::Request::builder().uri(format!("{}{}", srv.base().trim_end_matches('/'), p));
            if age0 { b = b.header("Cache-Control", "max-age=0"); }
            let rq = b.body(()).unwrap();
            let d2 = desc.clone();
            let got = r.run(&d2, || http.request(rq, mode).map(|x| {
                let st = x.status().as_u16();
                let mut v = Vec::new();
                let e = x.into_body().read_to_end(&mut v);
                (st, e.map(|_| v).map_err(|e| e.to_string()))
            }));
            let Some(got) = got else { break };
            let reqs = srv.take_log();
            let after = snapshot(&dir.path().join("h"));
            let old = cached.get(p).cloned();
            let fresh = old.as_ref().map_or(false, |o| matches!(o.kind, Kind::Long | Kind::Renewed) && !age0);
            match mode {
                CacheMode::NoStore => {
                    r.check(reqs.len() == 1 && !reqs[0].headers.iter().any(|h| h.0.to_ascii_lowercase().starts_with("if-")), "nostore-requests", &desc, || format!("{reqs:?}"));
                    r.check(before == after, "nostore-cache", &desc, || "the cache changed".into());
                    if is_cut { r.check(!matches!(got, Ok((_, Ok(_)))), "nostore-cut", &desc, || "a truncated answer was accepted".into()); }
                    else { r.check(matches!(&got, Ok((s, Ok(v))) if *s == cur.status && *v == cur.body), "nostore-body", &desc, || format!("{:?}", got.as_ref().map(|x| x.0))); }
                }
                CacheMode::OnlyIfCached => {
                    r.check(reqs.is_empty(), "offline-requests", &desc, || format!("{reqs:?}"));
                    if fresh {
                        let o = old.unwrap();
                        used = true;
                        r.check(matches!(&got, Ok((s, Ok(v))) if *s == o.status && *v == o.body), "offline-body", &desc, || format!("{got:?}"));
                    } else {
                        r.check(matches!(&got, Err(e) if e.downcast_ref::<NotCached>().is_some()), "offline-miss", &desc, || "must be NotCached".into());
                    }
                }
                CacheMode::Default => {
                    if fresh {
                        let o = old.unwrap();
                        used = true;
                        r.check(reqs.is_empty(), "fresh-requests", &desc, || format!("{reqs:?}"));
                        r.check(matches!(&got, Ok((s, Ok(v))) if *s == o.status && *v == o.body), "fresh-body", &desc, || format!("{:?}", got.as_ref().map(|x| x.0)));
                        r.check(before == after, "fresh-cache", &desc, || "the cache changed".into());
                        continue;
                    }
                    r.check(reqs.len() == 1, "requests", &desc, || format!("{} requests", reqs.len()));
                    let valid = old.as_ref().map_or(false, |o| o.gen == cur.gen && o.kind.conditional());
                    if let Some(o) = &old {
                        used = true;
                        let cond = reqs.iter().any(|q| q.header("if-none-match").is_some() || q.header("if-modified-since").is_some());
                        r.check(cond == o.kind.conditional(), "revalidate", &desc, || format!("conditional: {cond}"));
                    }
                    if valid {
                        r.check(matches!(&got, Ok((s, Ok(v))) if *s == cur.status && *v == cur.body), "validated-body", &desc, || format!("{:?}", got.as_ref().map(|x| x.0).map_err(|e| format!("{e:#}"))));
                        // the confirmation says how long the entry may now be used
                        if cur.kind == Kind::Renew { cached.get_mut(p).unwrap().kind = Kind::Renewed; }
                    } else if is_cut {
                        r.check(!matches!(got, Ok((_, Ok(_)))), "cut", &desc, || "a truncated answer was accepted".into());
                        if cur.kind != Kind::NoStore { r.check(before.iter().filter(|x| !x.0.ends_with(".lock")).collect::<Vec<_>>() == after.iter().filter(|x| !x.0.ends_with(".lock")).collect::<Vec<_>>(), "cut-stored", &desc, || "a truncated answer changed the cache".into()); }
                        else { cached.remove(p); }
                    } else {
                        r.check(matches!(&got, Ok((s, Ok(v))) if *s == cur.status && *v == cur.body), "body", &desc, || format!("{:?}", got.as_ref().map(|x| x.0).map_err(|e| format!("{e:#}"))));
                        if cur.kind == Kind::NoStore { cached.remove(p); } else { cached.insert(p, cur.clone()); }
                    }
                }
            }
            // what is stored now: exactly the entries that should be
            let stored: Vec<&Vec<u8>> = after.iter().filter(|x| !x.0.ends_with(".lock")).map(|x| &x.1).collect();
            r.check(stored.len() == cached.len(), "entries", &desc, || format!("{} entries, must be {}", stored.len(), cached.len()));
            for o in cached.values() {
                r.check(stored.iter().any(|b| b.ends_with(&o.body)), "stored-body", &desc, || format!("no entry with the {} bytes", o.body.len()));
            }
        }
        r.case(&desc, used);
    }
}

#[test]
fn v_h01_redirects() {
    let mut r = Report::new("H01", "v_h01_redirects",
        "redirect chains of 0-8 steps (all redirect statuses; absolute, host-relative, path-relative, parent and query targets), ending in a normal answer, a redirect without target or another 3xx; GET or HEAD, all cache modes. Non-trivial: at least two redirects");
    let mut rng = Rng::new("h01r");
    let pages: Arc<Mutex<HashMap<String, Resp>>> = Default::default();
    let p2 = pages.clone();
    let srv = Server::new(move |req| p2.lock().unwrap().get(&req.path).cloned().unwrap_or(Resp::new(404, b"none")));
    let base = Url::parse(&srv.base()).unwrap();
    for _ in 0..cases(400, 15) {
        let dir = tempfile::tempdir().unwrap();
        let http = HttpInner::new(KVFileStore::new(&dir.path().join("h")).unwrap(), KVFileStore::new(&dir.path().join("b")).unwrap());
        let n = rng.below(9);
        let mut map = HashMap::new();
        let start = base.join(*rng.pick(&["/s", "/d/e/s", "/d/s/"])).unwrap();
        let mut at = start.clone();
        let mut chain = vec![at.clone()];
        let cc = *rng.pick(&["no-store", "max-age=1000"]);
        let mut desc = String::new();
        for i in 0..n {
            let tgt = match rng.below(6) { 0 => format!("/p{i}/q"), 1 => format!("r{i}/t"), 2 => format!("../u{i}"), 3 => format!("?v={i}"), 4 => format!("{}w/{i}", srv.base()), _ => format!("//127.0.0.1:{}/z{i}", srv.port) };
            let st = *rng.pick(REDIRECT_STATUSES);
            let next = at.join(&tgt).unwrap();
            desc += &format!(" {st}->{tgt}");
            let key = &at[url::Position::BeforePath..url::Position::AfterQuery];
            if chain.contains(&next) { break; }
            map.insert(key.to_string(), Resp::new(st, b"moved").h("Location", &tgt).h("Cache-Control", cc));
            chain.push(next.clone());
            at = next;
        }
        let endk = rng.below(4);
        let end = match endk { 0 => Resp::new(302, b"lost"), 1 => Resp::new(300, b"multi").h("Location", "/nowhere"), _ => Resp::new(200, b"final") }.h("Cache-Control", cc);
        let key = &at[url::Position::BeforePath..url::Position::AfterQuery];
        map.insert(key.to_string(), end.clone());
        *pages.lock().unwrap() = map;
        let hops = chain.len() - 1;
        let get = !rng.chance(1, 4);
        let mode = if rng.chance(1, 2) { CacheMode::NoStore } else { CacheMode::Default };
        let input = format!("{} {start}{desc} end={} {mode:?} {cc}", if get { "GET" } else { "HEAD" }, ["302 without target", "300", "200", "200"][endk]);
        r.case(&input, hops >= 2);
        srv.take_log();
        let rq = http::Request::builder().method(if get { "GET" } else { "HEAD" }).uri(start.as_str()).body(()).unwrap();
        let got = r.run(&input, || http.request(rq, mode).and_then(|x| {
            let (st, url) = (x.status().as_u16(), x.extensions().get::<Url>().cloned());
            Ok((st, url, slurp(&mut x.into_body())?))
        }));
        let reqs = srv.take_log();
        let Some(got) = got else { continue };
        let limit = if get { MAX_ALLOWED } else { 0 };
        let seen: Vec<String> = reqs.iter().map(|q| q.path.clone()).collect();
        let wantreq: Vec<String> = chain.iter().take(limit + 1).map(|u| u[url::Position::BeforePath..url::Position::AfterQuery].to_string()).collect();
        r.check(seen == wantreq, "requests", &input, || format!("requested {seen:?}, must be {wantreq:?}"));
        if hops > limit {
            r.check(got.is_err(), "limit", &input, || format!("{:?}", got.as_ref().map(|x| x.0)));
        } else if !(endk == 0 && hops == limit) {
            let want = (end.status, Some(chain.last().unwrap().clone()), if get { end.body.clone() } else { vec![] });
            let g = got.map_err(|e| format!("{e:#}"));
            r.check(g.as_ref().ok() == Some(&want), "result", &input, || format!("{g:?}, must be {want:?}"));
        }
    }
}
const MAX_ALLOWED: usize = 5;

#[test]
fn v_h01_seekable() {
    let mut r = Report::new("H01", "v_h01_seekable",
        "a file fetched without a hash, storable or not, cached or not: the handle returned gives the whole body from its start, and again after seeking. Non-trivial: every case");
    let mut rng = Rng::new("h01s");
    let page: Arc<Mutex<Resp>> = Arc::new(Mutex::new(Resp::new(200, b"")));
    let p2 = page.clone();
    let srv = Server::new(move |_| p2.lock().unwrap().clone());
    let url = Url::parse(&srv.base()).unwrap().join("f").unwrap();
    for _ in 0..cases(80, 10) {
        let dir = tempfile::tempdir().unwrap();
        let http = HttpInner::new(KVFileStore::new(&dir.path().join("h")).unwrap(), KVFileStore::new(&dir.path().join("b")).unwrap());
        let n = match rng.below(3) { 0 => rng.below(3), 1 => rng.below(400), _ => rng.range(8000, 40000) };
        let data = rng.bytes(n);
        let cc = *rng.pick(&["no-store", "max-age=1000", "max-age=0"]);
        let mode = *rng.pick(&[CacheMode::Default, CacheMode::Default, CacheMode::NoStore]);
        *page.lock().unwrap() = Resp { chunked: rng.chance(1, 2), ..Resp::new(200, &data).h("Cache-Control", cc) };
        let again = rng.range(1, 3);
        let input = format!("{n} bytes {cc} {mode:?} x{again}");
        r.case(&input, true);
        for _ in 0..again {
            let got = r.run(&input, || -> Result<(Vec<u8>, Vec<u8>, u64)> {
                let mut f = http.get_hashed(&url, None, mode)?;
                let a = slurp(&mut f)?;
                let m = f.seek(SeekFrom::Start((n / 2) as u64))?;
                let b = slurp(&mut f)?;
                Ok((a, b, m))
            });
            match got {
                None => {}
                Some(Err(e)) => r.fail("error", &input, &format!("{e:#}")),
                Some(Ok((a, b, _))) => {
                    r.check(a == data, "body", &input, || format!("read {} bytes", a.len()));
                    r.check(b == data[n / 2..], "seek", &input, || format!("read {} bytes after seeking to the middle", b.len()));
                }
            }
        }
    }
}
