//@attach src/package_db/http/lazy_remote_file.rs
// H03: lazily fetched files against a cursor over the same bytes
use super::*;
use crate::kvstore::KVFileStore;
use crate::package_db::http::Http;
use crate::verif_support::*;
use std::sync::{Arc, Mutex};

// byte i of the (possibly enormous) file; cheap, and not periodic in the fetch size
fn byte_at(i: u64) -> u8 { (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8 }

fn server(len: Arc<Mutex<u64>>) -> Server {
    Server::new(move |req| {
        let n = *len.lock().unwrap();
        let Some((a, b)) = req.header("range").and_then(|r| r.strip_prefix("bytes=")).and_then(|s| s.split_once('-')) else { return Resp::new(500, b"no range") };
        let (Ok(a), Ok(b)) = (a.parse::<u64>(), b.parse::<u64>()) else { return Resp::new(400, b"bad range") };
        if a > b { return Resp::new(400, b"bad range"); }
        if a >= n { return Resp::new(416, b"").h("Content-Range", &format!("bytes */{n}")); }
        let b = b.min(n - 1);
        if b - a > 1_000_000 { return Resp::new(400, b"too much"); }
        let body: Vec<u8> = (a..=b).map(byte_at).collect();
        Resp::new(206, &body).h("Content-Range", &format!("bytes {a}-{b}/{n}"))
    })
}
fn tmp_http() -> (tempfile::TempDir, Rc<HttpInner>) {
    let d = tempfile::tempdir().unwrap();
    let h = HttpInner::new(KVFileStore::new(&d.path().join("h")).unwrap(), KVFileStore::new(&d.path().join("b")).unwrap());
    (d, Rc::new(h))
}

#[test]
fn v_h03_reads() {
    let mut r = Report::new("H03", "v_h03_reads",
        "files of 0 to 60000 bytes (around the multiples of the fetch size) and of up to 2^64-1 bytes, 2-25 random seeks and reads (all seek kinds, extreme offsets, empty buffers), compared operation by operation; the ranges requested must lie inside the file and not overlap. Non-trivial: at least three ranges were fetched");
    let mut rng = Rng::new("h03");
    let len: Arc<Mutex<u64>> = Default::default();
    let srv = server(len.clone());
    let url = Url::parse(&srv.base()).unwrap().join("f").unwrap();
    let (_d, http) = tmp_http();
    for _ in 0..cases(500, 20) {
        let n: u64 = match rng.below(10) {
            0 => rng.below(4) as u64,
            1 | 2 => { let k = rng.range(1, 5) as u64; k * 10_000 + rng.below(5) as u64 - 2 }
            3 => rng.below(10_000) as u64,
            4 => u64::MAX - rng.below(20_000) as u64,
            5 => (1 << rng.range(32, 63)) + rng.below(30_000) as u64,
            _ => rng.below(60_000) as u64,
        };
        *len.lock().unwrap() = n;
        srv.take_log();
        let mut input = format!("length {n}:");
        let Some(f) = r.run(&input.clone(), || LazyRemoteFile::new(http.clone(), &url)) else { continue };
        let mut f = match f { Ok(f) => f, Err(e) => { r.fail("open", &input, &format!("{e:#}")); continue; } };
        let mut pos: u64 = 0;
        let mut ranges: Vec<(u64, u64)> = Vec::new();
        srv.take_log();
        let mut spots: Vec<u64> = vec![0, n, n / 2];
        for _ in 0..rng.range(2, 25) {
            let d2;
            if rng.chance(1, 2) {
                let near = *rng.pick(&spots);
                let tgt = near.saturating_add(rng.below(25_000) as u64).saturating_sub(rng.below(25_000) as u64);
                let sk = match rng.below(8) {
                    0 | 1 => SeekFrom::Start(tgt),
                    2 => SeekFrom::Start(*rng.pick(&[0, n, n.saturating_add(1), u64::MAX, n.saturating_sub(1)])),
                    3 => SeekFrom::End(-((n.saturating_sub(tgt)).min(i64::MAX as u64) as i64)),
                    4 => SeekFrom::End(*rng.pick(&[0, 1, -1, i64::MIN, i64::MAX, -22, -9999, -10000, -10001])),
                    5 => SeekFrom::Current(*rng.pick(&[0, 1, -1, i64::MIN, i64::MAX])),
                    6 => SeekFrom::Current(rng.below(30_000) as i64 - 15_000),
                    _ => SeekFrom::Start(rng.below(n.min(70_000) as usize + 1) as u64),
                };
                input += &format!(" {sk:?}");
                d2 = input.clone();
                let want: Option<u64> = match sk {
                    SeekFrom::Start(p) => Some(p),
                    SeekFrom::End(o) => { let t = n as i128 + o as i128; u64::try_from(t).ok() }
                    SeekFrom::Current(o) => { let t = pos as i128 + o as i128; u64::try_from(t).ok() }
                };
                let Some(got) = r.run(&d2, || f.seek(sk).ok()) else { break };
                r.check(got == want, "seek", &input, || format!("{got:?}, must be {want:?}"));
                if let Some(p) = want { pos = p; }
            } else {
                let k = match rng.below(5) { 0 => rng.below(3), 1 => rng.range(9_990, 10_010), 2 => rng.below(25_000), _ => rng.below(600) };
                input += &format!(" read({k})");
                d2 = input.clone();
                let mut buf = vec![0xEEu8; k];
                let Some(got) = r.run(&d2, || f.read(&mut buf)) else { break };
                let avail = n.saturating_sub(pos).min(k as u64) as usize;
                match got {
                    Err(e) => { r.fail("read-error", &input, &e.to_string()); break; }
                    Ok(m) => {
                        r.check(m <= avail && (m > 0) == (avail > 0), "progress", &input, || format!("{m} bytes, {avail} are there"));
                        let m = m.min(k);
                        r.check((0..m).all(|i| buf[i] == byte_at(pos.wrapping_add(i as u64))), "bytes", &input, || format!("wrong bytes at {pos}"));
                        r.check(buf[m..].iter().all(|b| *b == 0xEE), "beyond", &input, || "bytes after those read were changed".into());
                        pos += m as u64;
                    }
                }
                spots.push(pos);
                if let Some(p) = r.run(&d2, || f.stream_position().ok()) { r.check(p == Some(pos), "position", &input, || format!("{p:?}, must be {pos}")); }
            }
            for q in srv.take_log() {
                let rg = q.header("range").unwrap_or("none").to_string();
                let ab = rg.strip_prefix("bytes=").and_then(|s| s.split_once('-')).and_then(|(a, b)| Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?)));
                match ab {
                    Some((a, b)) => {
                        r.check(a <= b && b < n, "range-outside", &input, || format!("requested {rg} of {n}"));
                        r.check(!ranges.iter().any(|(x, y)| a <= *y && *x <= b), "range-again", &input, || format!("requested {rg}, had {ranges:?}"));
                        ranges.push((a, b));
                    }
                    None => r.fail("range", &input, &rg),
                }
            }
        }
        r.case(&input, ranges.len() >= 3);
    }
}

#[test]
fn v_h03_whole() {
    let mut r = Report::new("H03", "v_h03_whole",
        "get_lazy on servers that support ranges and on ones that ignore them, with and without a hash: the handle reads as the whole file, from the start, the end and after seeking. Non-trivial: the server ignores ranges");
    let mut rng = Rng::new("h03w");
    let page: Arc<Mutex<(Vec<u8>, bool, &'static str)>> = Arc::new(Mutex::new((vec![], true, "no-store")));
    let p2 = page.clone();
    let srv = Server::new(move |req| { let p = p2.lock().unwrap(); if p.1 { serve_range(req, &p.0) } else { Resp::new(200, &p.0) }.h("Cache-Control", p.2) });
    for _ in 0..cases(60, 10) {
        let n = match rng.below(4) { 0 => rng.below(3), 1 => rng.range(9_998, 10_003), _ => rng.below(45_000) };
        let data = rng.bytes(n);
        let (ranged, cc, hashed) = (rng.chance(1, 2), *rng.pick(&["no-store", "max-age=100"]), rng.chance(1, 2));
        *page.lock().unwrap() = (data.clone(), ranged, cc);
        let d = tempfile::tempdir().unwrap();
        let http = Http::new(KVFileStore::new(&d.path().join("h")).unwrap(), KVFileStore::new(&d.path().join("b")).unwrap());
        let ai = crate::package_db::ArtifactInfo {
            name: "a-1.0.tar.gz".try_into().unwrap(), url: Url::parse(&srv.base()).unwrap().join("a-1.0.tar.gz").unwrap(),
            hash: if hashed { Some(ArtifactHash::from_hex("sha256", &sha256_hex(&data)).unwrap()) } else { None },
            requires_python: None, dist_info_metadata: Default::default(), yanked: Default::default(),
        };
        let input = format!("{n} bytes ranged={ranged} {cc} hashed={hashed}");
        r.case(&input, !ranged);
        let got = r.run(&input, || -> Result<(Vec<u8>, Vec<u8>, u64)> {
            let mut f = http.get_lazy(&ai)?;
            let a = slurp(&mut f)?;
            let e = f.seek(SeekFrom::End(0))?;
            f.seek(SeekFrom::Start((n / 3) as u64))?;
            Ok((a, slurp(&mut f)?, e))
        });
        match got {
            None => {}
            Some(Err(e)) => r.fail("error", &input, &format!("{e:#}")),
            Some(Ok((a, b, e))) => {
                r.check(a == data, "whole", &input, || format!("read {} bytes from the start", a.len()));
                r.check(b == data[n / 3..], "part", &input, || format!("read {} bytes after seeking", b.len()));
                r.check(e == n as u64, "end", &input, || format!("end at {e}"));
            }
        }
    }
}
