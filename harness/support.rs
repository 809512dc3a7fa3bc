// Support for the bounded checks: case counting, failure records, a seeded generator and a
// watchdog.  Attached to a scratch copy of /repo as `crate::verif_support`.
#![allow(dead_code)]
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(stream: &str) -> Rng {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        seed.hash(&mut h);
        stream.hash(&mut h);
        Rng(h.finish())
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// number of generated cases: `quick`, or `mult` times as many in the thorough tier
pub fn cases(quick: usize, mult: usize) -> usize {
    if thorough() { quick * mult } else { quick }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Report {
    prop: String,
    test: String,
    rule: String,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<(String, String, String)>,
    fail_kinds: HashMap<String, usize>,
    exhaustive: bool,
    cur: Arc<Mutex<Option<(Instant, String)>>>,
    trace: bool,
}

impl Report {
    /// `rule`: how the cases are made and what makes one non-trivial
    pub fn new(prop: &str, test: &str, rule: &str) -> Report {
        let cur: Arc<Mutex<Option<(Instant, String)>>> = Arc::new(Mutex::new(None));
        let weak = Arc::downgrade(&cur);
        let (p, t) = (prop.to_string(), test.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let Some(c) = weak.upgrade() else { return };
            let stuck = match &*c.lock().unwrap() {
                Some((when, what)) if when.elapsed() > Duration::from_secs(60) => Some(what.clone()),
                _ => None,
            };
            if let Some(what) = stuck {
                write_out(
                    &t,
                    "hang",
                    &format!(
                        "{{\"prop\":{},\"test\":{},\"rule\":\"\",\"evaluations\":1,\"distinct\":1,\"exhaustive\":false,\"samples\":[],\"failures\":[{{\"kind\":\"hang\",\"input\":{},\"what\":\"did not return within 60 s\"}}]}}\n",
                        esc(&p), esc(&t), esc(&what)
                    ),
                );
                std::process::exit(101);
            }
        });
        Report {
            prop: prop.into(),
            test: test.into(),
            rule: rule.into(),
            evals: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            fails: Vec::new(),
            fail_kinds: HashMap::new(),
            exhaustive: false,
            cur,
            trace: std::env::var("VERIF_TRACE").is_ok(),
        }
    }

    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }

    /// one evaluated case; `nontrivial` by the rule
    pub fn case(&mut self, input: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 {
                self.samples.push(input.chars().take(400).collect());
            }
        }
    }

    /// run the code under test on a case; a panic is a failure of the case
    pub fn run<T>(&mut self, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        *self.cur.lock().unwrap() = Some((Instant::now(), input.to_string()));
        if self.trace {
            write_out(&self.test, "cur", input);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *self.cur.lock().unwrap() = None;
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                let msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                self.fail("panic", input, &format!("panicked: {}", msg));
                None
            }
        }
    }

    /// `kind` is a short stable name for the clause that fails
    pub fn fail(&mut self, kind: &str, input: &str, what: &str) {
        let n = self.fail_kinds.entry(kind.to_string()).or_insert(0);
        *n += 1;
        if *n <= 10 {
            self.fails.push((kind.into(), input.chars().take(2000).collect(), what.chars().take(2000).collect()));
        }
    }

    pub fn check(&mut self, ok: bool, kind: &str, input: &str, what: impl FnOnce() -> String) -> bool {
        if !ok {
            let w = what();
            self.fail(kind, input, &w);
        }
        ok
    }

    pub fn failed(&self) -> usize {
        self.fails.len()
    }
}

fn write_out(test: &str, ext: &str, text: &str) {
    if let Ok(dir) = std::env::var("VERIF_OUT") {
        let _ = std::fs::write(std::path::Path::new(&dir).join(format!("{}.{}", test, ext)), text);
    } else if ext != "cur" {
        println!("{}", text);
    }
}

impl Drop for Report {
    fn drop(&mut self) {
        let list = |xs: &[String]| xs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        let fails = self
            .fails
            .iter()
            .map(|(k, i, w)| format!("{{\"kind\":{},\"input\":{},\"what\":{}}}", esc(k), esc(i), esc(w)))
            .collect::<Vec<_>>()
            .join(",");
        let text = format!(
            "{{\"prop\":{},\"test\":{},\"rule\":{},\"evaluations\":{},\"distinct\":{},\"exhaustive\":{},\"samples\":[{}],\"failures\":[{}]}}\n",
            esc(&self.prop), esc(&self.test), esc(&self.rule), self.evals, self.distinct.len(), self.exhaustive,
            list(&self.samples), fails
        );
        write_out(&self.test, if std::thread::panicking() { "aborted" } else { "json" }, &text);
    }
}

// ------------------------------------------------------------------ a loopback HTTP server

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub when: Instant,
}
impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}
#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// close the connection without answering
    pub drop: bool,
    /// send a Content-Length of the whole body but only this many bytes of it
    pub cut: Option<usize>,
    /// use chunked framing
    pub chunked: bool,
}
impl Resp {
    pub fn new(status: u16, body: &[u8]) -> Resp {
        Resp { status, body: body.to_vec(), ..Default::default() }
    }
    pub fn h(mut self, n: &str, v: &str) -> Resp {
        self.headers.push((n.into(), v.into()));
        self
    }
}
/// answers every request on a loopback port with `handler`, and keeps a log
pub struct Server {
    pub port: u16,
    pub log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<std::sync::atomic::AtomicBool>,
}
impl Server {
    pub fn new(handler: impl Fn(&Req) -> Resp + Send + Sync + 'static) -> Server {
        use std::io::{BufRead, BufReader, Read, Write};
        let l = std::net::TcpListener::bind(("127.0.0.1", 0)).unwrap();
        let port = l.local_addr().unwrap().port();
        let log: Arc<Mutex<Vec<Req>>> = Default::default();
        let stop: Arc<std::sync::atomic::AtomicBool> = Default::default();
        let (log2, stop2) = (log.clone(), stop.clone());
        let handler = Arc::new(handler);
        std::thread::spawn(move || {
            for c in l.incoming() {
                if stop2.load(std::sync::atomic::Ordering::SeqCst) { return; }
                let Ok(c) = c else { continue };
                let (log, handler) = (log2.clone(), handler.clone());
                std::thread::spawn(move || {
                    let _ = c.set_nodelay(true);
                    let mut out = match c.try_clone() { Ok(o) => o, Err(_) => return };
                    let mut inp = BufReader::new(c);
                    loop {
                        let mut line = String::new();
                        match inp.read_line(&mut line) { Ok(n) if n > 0 => {}, _ => return }
                        let mut it = line.split_whitespace();
                        let (m, p) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
                        let mut headers = Vec::new();
                        loop {
                            let mut h = String::new();
                            match inp.read_line(&mut h) { Ok(n) if n > 0 => {}, _ => return }
                            let h = h.trim_end();
                            if h.is_empty() { break; }
                            if let Some((n, v)) = h.split_once(':') { headers.push((n.trim().to_string(), v.trim().to_string())); }
                        }
                        let mut req = Req { method: m, path: p, headers, when: Instant::now() };
                        if let Some(n) = req.header("content-length").and_then(|n| n.parse::<usize>().ok()) {
                            let mut b = vec![0; n];
                            if inp.read_exact(&mut b).is_err() { return; }
                        }
                        req.when = Instant::now();
                        log.lock().unwrap().push(req.clone());
                        let r = handler(&req);
                        if r.drop { return; }
                        let mut o = format!("HTTP/1.1 {} X\r\n", r.status).into_bytes();
                        for (n, v) in &r.headers { o.extend(format!("{}: {}\r\n", n, v).bytes()); }
                        let bodyless = req.method == "HEAD" || r.status == 304 || r.status == 204;
                        if r.chunked && !bodyless { o.extend(b"Transfer-Encoding: chunked\r\n"); }
                        else if r.status != 304 && !r.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case("content-length")) {
                            o.extend(format!("Content-Length: {}\r\n", r.body.len()).bytes());
                        }
                        o.extend(b"\r\n");
                        if !bodyless {
                            if r.chunked {
                                for c in r.body.chunks(97) {
                                    o.extend(format!("{:x}\r\n", c.len()).bytes());
                                    o.extend(c);
                                    o.extend(b"\r\n");
                                }
                                o.extend(b"0\r\n\r\n");
                            } else {
                                o.extend(&r.body[..r.cut.unwrap_or(r.body.len())]);
                            }
                        }
                        if out.write_all(&o).is_err() { return; }
                        let _ = out.flush();
                        if r.cut.is_some() { let _ = out.shutdown(std::net::Shutdown::Both); return; }
                    }
                });
            }
        });
        Server { port, log, stop }
    }
    pub fn base(&self) -> String { format!("http://127.0.0.1:{}/", self.port) }
    pub fn take_log(&self) -> Vec<Req> { std::mem::take(&mut *self.log.lock().unwrap()) }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = std::net::TcpStream::connect(("127.0.0.1", self.port));
    }
}

/// faithful answer to a (possibly ranged) GET or HEAD of `data`, like a static file server
pub fn serve_range(req: &Req, data: &[u8]) -> Resp {
    let n = data.len() as u64;
    if let Some(spec) = req.header("range").and_then(|r| r.strip_prefix("bytes=")) {
        if let Some((a, b)) = spec.split_once('-') {
            let r = match (a.parse::<u64>(), b.parse::<u64>()) {
                (Ok(a), Ok(b)) if a <= b => Some((a, b)),
                (Ok(a), Err(_)) if b.is_empty() => Some((a, u64::MAX)),
                (Err(_), Ok(b)) if a.is_empty() && b > 0 => Some((n.saturating_sub(b), u64::MAX)),
                _ => None,
            };
            if let Some((a, b)) = r {
                if a >= n {
                    return Resp::new(416, b"").h("Content-Range", &format!("bytes */{}", n));
                }
                let b = b.min(n - 1);
                return Resp::new(206, &data[a as usize..=b as usize])
                    .h("Content-Range", &format!("bytes {}-{}/{}", a, b, n)).h("Accept-Ranges", "bytes");
            }
        }
    }
    Resp::new(200, data).h("Accept-Ranges", "bytes")
}

/// sha256, written from FIPS 180-4 (so that the hash checks have an oracle of their own)
pub fn sha256_hex(data: &[u8]) -> String {
    fn primes() -> Vec<u64> { (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect() }
    // fractional part of p^(1/k), 32 bits, by integer search
    fn frac(p: u64, k: u32) -> u32 {
        // largest x with x^k <= p * 2^(32k)
        let (mut lo, mut hi) = (0u128, 1u128 << 37);
        let le = |x: u128| if k == 2 { x * x <= (p as u128) << 64 } else {
            // x^3 <= p * 2^96 without overflow: compare in two halves
            let sq = x * x; // < 2^74
            let (hi_, lo_) = (sq >> 64, sq & 0xffff_ffff_ffff_ffff);
            let l = lo_ * x; // < 2^101
            let h = hi_ * x + (l >> 64); // units of 2^64
            // p * 2^96 = (p << 32) units of 2^64
            h < (p as u128) << 32
        };
        while hi - lo > 1 { let m = (lo + hi) / 2; if le(m) { lo = m } else { hi = m } }
        lo as u32
    }
    let pr = primes();
    let k: Vec<u32> = pr.iter().map(|p| frac(*p, 3)).collect();
    let mut h: Vec<u32> = pr[..8].iter().map(|p| frac(*p, 2)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    h.iter().map(|x| format!("{:08x}", x)).collect()
}
