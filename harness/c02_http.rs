//@attach src/package_db/http/http.rs
// C02: cache keys of requests
use super::*;
use crate::verif_support::*;

#[test]
fn v_c02_reqkey() {
    let mut r = Report::new("C02", "v_c02_reqkey",
        "pairs of requests (method and address assembled from the same few pieces, so that concatenations collide): equal keys exactly when method and address are equal. Non-trivial: they differ");
    let mut rng = Rng::new("c02q");
    let methods = ["GET", "HEAD", "GETH", "G", "ETH", "GE", "T"];
    let parts = ["/", "a", "b", "GET", "?", "x=1", "HEAD", "/a", "%20"];
    for _ in 0..cases(20000, 10) {
        let mut mk = |rng: &mut Rng| {
            let m = *rng.pick(&methods);
            let mut u = String::from(*rng.pick(&["http://h", "https://h", "http://hh", "http://h:80"]));
            u.push('/');
            for _ in 0..rng.below(4) { u += *rng.pick(&parts[..]); }
            (m, u)
        };
        let (a, b) = (mk(&mut rng), mk(&mut rng));
        let d = format!("{a:?} {b:?}");
        let (ra, rb) = match (http::Request::builder().method(a.0).uri(&a.1).body(()), http::Request::builder().method(b.0).uri(&b.1).body(())) { (Ok(x), Ok(y)) => (x, y), _ => continue };
        let same = ra.method() == rb.method() && ra.uri().to_string() == rb.uri().to_string();
        r.case(&d, !same);
        if let Some((ka, kb)) = r.run(&d, || (key_for_request(&ra), key_for_request(&rb))) {
            r.check((ka == kb) == same, "key", &d, || format!("keys equal: {}", ka == kb));
        }
    }
}
