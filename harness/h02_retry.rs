//@attach src/package_db/http/ureq_glue.rs
// H02: attempts and delays of one network request
use super::*;
use crate::verif_support::*;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { St(u16), Drop }
const DELAYS: [u64; 5] = [250, 500, 1000, 2000, 4000];
fn transient(o: Out) -> bool { matches!(o, Out::Drop | Out::St(500) | Out::St(503) | Out::St(520) | Out::St(527)) }

#[test]
fn v_h02_attempts() {
    let mut r = Report::new("H02", "v_h02_attempts",
        "scripted sequences of outcomes (statuses 200-599, connections closed without an answer): number of attempts, delay before each, and the outcome returned. The scripts run side by side because of the real delays. Non-trivial: at least one retry");
    let mut rng = Rng::new("h02");
    let (mut scripts, t): (Vec<Vec<Out>>, _) = (Vec::new(), [Out::St(500), Out::St(503), Out::St(520), Out::St(527), Out::Drop]);
    for x in t { scripts.push(vec![x; 8]); }
    for st in [200u16, 204, 301, 302, 304, 307, 400, 401, 403, 404, 408, 410, 418, 425, 429, 501, 502, 504, 505, 521, 522, 526, 528, 599] { scripts.push(vec![Out::St(st); 3]); }
    for k in 1..=5 { let mut s: Vec<Out> = (0..k).map(|_| *rng.pick(&t)).collect(); s.push(*rng.pick(&[Out::St(200), Out::St(404), Out::St(502)])); s.push(Out::St(200)); scripts.push(s); }
    for _ in 0..cases(16, 10) {
        let n = rng.range(1, 3);
        let mut s: Vec<Out> = (0..n).map(|_| *rng.pick(&t)).collect();
        s.push(*rng.pick(&[Out::St(200), Out::St(404), Out::St(302), Out::St(501), Out::St(429), Out::St(206)]));
        s.push(Out::St(200));
        scripts.push(s);
    }
    let results: Vec<_> = scripts.chunks(64).flat_map(|ch| std::thread::scope(|sc| {
        let hs: Vec<_> = ch.iter().map(|script| sc.spawn(move || {
            let i = Arc::new(Mutex::new(0usize));
            let s2 = script.clone();
            let srv = Server::new(move |_| {
                let mut i = i.lock().unwrap();
                let o = s2[(*i).min(s2.len() - 1)];
                *i += 1;
                match o {
                    Out::Drop => Resp { drop: true, ..Default::default() },
                    Out::St(s) => Resp::new(s, format!("attempt {}", *i).as_bytes()).h("Connection", "close").h("X-Attempt", &i.to_string()),
                }
            });
            let agent = new_ureq_agent();
            let rq = http::Request::builder().uri(srv.base()).body(()).unwrap();
            let t0 = Instant::now();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| do_request_ureq(&agent, &rq).map(|x| (x.status().as_u16(), x.headers().get("X-Attempt").map(|v| v.to_str().unwrap().to_string()))).map_err(|e| format!("{e:#}"))));
            (script.clone(), srv.take_log(), got, t0.elapsed())
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    })).collect();
    for (script, log, got, _) in results {
        let input = format!("{script:?}");
        let n = script.iter().position(|o| !transient(*o)).map_or(6, |p| (p + 1).min(6));
        r.case(&input, n > 1);
        let Ok(got) = got else { r.fail("panic", &input, "panicked"); continue };
        r.check(log.len() == n, "attempts", &input, || format!("{} attempts, must be {n}", log.len()));
        for (i, w) in log.windows(2).enumerate() {
            let ms = w[1].when.duration_since(w[0].when).as_millis() as u64;
            let want = DELAYS[i.min(4)];
            r.check(ms + 8 >= want && ms <= want + 6000, "delay", &input, || format!("{ms} ms before attempt {}, must be {want}", i + 2));
        }
        let ok = match script[(n - 1).min(script.len() - 1)] {
            Out::Drop => got.is_err(),
            Out::St(s) => got == Ok((s, Some(n.to_string()))),
        };
        r.check(ok, "outcome", &input, || format!("{got:?}, the last attempt was number {n}"));
    }
}

#[test]
fn v_h02_refused() {
    let mut r = Report::new("H02", "v_h02_refused", "a port nobody listens on: the request fails after the full schedule of delays. Non-trivial: the one case");
    let port = { let l = std::net::TcpListener::bind(("127.0.0.1", 0)).unwrap(); l.local_addr().unwrap().port() };
    let input = "connection refused";
    r.case(input, true);
    let t0 = Instant::now();
    let rq = http::Request::builder().uri(format!("http://127.0.0.1:{port}/")).body(()).unwrap();
    let got = r.run(input, || do_request_ureq(&new_ureq_agent(), &rq).map(|x| x.status().as_u16()).ok());
    let ms = t0.elapsed().as_millis();
    r.check(got == Some(None), "outcome", input, || format!("{got:?}"));
    r.check(ms >= 7700 && ms < 20000, "delay", input, || format!("took {ms} ms, must be 7750"));
}
