//@attach src/package_db/http/http.rs
// S01: a body stored in the HTTP cache reads back as itself, as a separate file, whatever
// the policy record in front of it looks like
use super::*;
use crate::verif_support::*;

#[test]
fn v_s01_cache() {
    let mut rep = Report::new(
        "S01", "v_s01_cache",
        "random cache policy and body (0 to 70000 bytes, CBOR-looking bytes included) written with fill_cache and read back with read_cache and through the handle fill_cache returns; every case is non-trivial",
    );
    let mut rng = Rng::new("s01c");
    let dir = tempfile::TempDir::new().unwrap();
    let store = KVFileStore::new(dir.path()).unwrap();
    for i in 0..cases(150, 10) {
        let n = match rng.below(5) { 0 => 0, 1 => 1, 2 => rng.below(40), 3 => rng.below(9000), _ => rng.range(60000, 70000) };
        let body = if rng.chance(1, 2) { vec![[0xa1u8, 0x60, 0x00, 0xf6][rng.below(4)]; n] } else { rng.bytes(n) };
        let mut rq = http::Request::builder().uri(format!("http://example.com/{}", rng.below(1000)));
        let mut rs = http::Response::builder().status(200).header("cache-control", "max-age=1000");
        for k in 0..rng.below(6) {
            rs = rs.header(format!("x-h{}", k), "v".repeat(rng.below(300)));
            rq = rq.header(format!("x-q{}", k), "w".repeat(rng.below(30)));
        }
        let policy = CachePolicy::new(&rq.body(()).unwrap(), &rs.body(()).unwrap());
        let desc = format!("#{}: body of {} bytes starting {:?}", i, n, &body[..n.min(8)]);
        rep.case(&desc, true);
        let key = (i as u64).to_le_bytes();
        let r = rep.run(&desc, || -> Result<Vec<String>> {
            let mut errs = Vec::new();
            let mut h = fill_cache(&policy, body.as_slice(), store.lock(&key.as_slice())?)?;
            let mut verify = |name: &str, h: &mut dyn ReadPlusSeek| -> Result<()> {
                let mut got = Vec::new();
                h.read_to_end(&mut got)?;
                if got != body { errs.push(format!("{}: first read gave {} bytes", name, got.len())); }
                if h.stream_position()? != body.len() as u64 { errs.push(format!("{}: position after reading", name)); }
                h.rewind().wrap_err(format!("{}: rewind", name))?;
                got.clear();
                h.read_to_end(&mut got)?;
                if got != body { errs.push(format!("{}: second read gave {} bytes", name, got.len())); }
                if h.seek(SeekFrom::End(0)).wrap_err(format!("{}: seek to end", name))? != body.len() as u64 { errs.push(format!("{}: end", name)); }
                if !body.is_empty() {
                    h.seek(SeekFrom::End(-1))?;
                    let mut one = [0u8; 4];
                    if h.read(&mut one)? != 1 || one[0] != *body.last().unwrap() { errs.push(format!("{}: last byte", name)); }
                }
                Ok(())
            };
            verify("handle from storing", &mut h)?;
            let f = store.lock(&key.as_slice())?.reader().ok_or_else(|| eyre!("entry vanished"))?.detach_unlocked();
            let (p2, mut h2) = read_cache(f)?;
            verify("handle from reading", &mut h2)?;
            if format!("{:?}", p2) != format!("{:?}", policy) { errs.push("policy changed".into()); }
            Ok(errs)
        });
        match r {
            Some(Ok(errs)) => for e in errs { rep.fail("body", &desc, &e); },
            Some(Err(e)) => rep.fail("io", &desc, &format!("{:#}", e)),
            None => {}
        }
    }
}
