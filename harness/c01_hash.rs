//@attach src/vocab/artifact_hash.rs
// C01: the hash checker and the text form of hashes
use super::*;
use crate::verif_support::*;
use std::io::{Error, ErrorKind};

// a writer that takes only part of what it is offered, is sometimes interrupted, and may fail
struct Part { got: Vec<u8>, rng: Rng, fail_at: Option<usize>, max: usize, calls: usize }
impl Write for Part {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if Some(self.calls) == self.fail_at { return Err(Error::new(ErrorKind::Other, "disk full")); }
        if self.rng.chance(1, 7) { return Err(Error::new(ErrorKind::Interrupted, "eintr")); }
        let n = if buf.is_empty() { 0 } else { self.rng.range(1, buf.len().min(self.max)) };
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

#[test]
fn v_c01_checker() {
    let mut r = Report::new("C01", "v_c01_checker",
        "0-300 random bytes written through a HashChecker in random pieces to a writer that takes parts, is interrupted and may fail; the expected hash is that of the data, of a prefix, of an extension or random: finish accepts exactly when the bytes that reached the writer have the hash. Non-trivial: more than one piece was written");
    let mut rng = Rng::new("c01");
    for i in 0..cases(4000, 20) {
        let n = rng.below(300);
        let data = rng.bytes(n);
        let kind = rng.below(6);
        let mut other = data.clone();
        match kind { 0 | 1 => {}, 2 => { other.pop(); } 3 => other.push(0), 4 => {} _ => if n > 0 { let k = rng.below(n); other[k] ^= 1 << rng.below(8); } }
        let mut hex = sha256_hex(&other);
        // a hash that differs in a single digit, anywhere
        if kind == 4 { let k = rng.below(64); let c = hex.as_bytes()[k]; hex.replace_range(k..k + 1, if c == b'0' { "1" } else { "0" }); }
        let fail_at = if rng.chance(1, 4) { Some(rng.range(1, 12)) } else { None };
        let part = Part { got: vec![], rng: Rng::new(&format!("c01w{i}")), fail_at, max: rng.range(1, 60), calls: 0 };
        let mut cuts: Vec<usize> = (0..rng.below(5)).map(|_| rng.below(n + 1)).collect();
        cuts.push(n);
        cuts.sort();
        let input = format!("{} bytes {:?}.. kind={kind} max={} fail_at={:?} cuts={:?}", n, &data[..n.min(8)], part.max, fail_at, cuts);
        r.case(&input, cuts.len() > 1 && n > 1);
        let res = r.run(&input, || -> Result<(Option<Vec<u8>>, bool)> {
            let h = ArtifactHash::from_hex("sha256", &hex)?;
            let mut c = h.checker(part)?;
            let mut at = 0;
            let mut werr = false;
            for x in &cuts { if c.write_all(&data[at..*x]).is_err() { werr = true; break; } at = *x; }
            let _ = c.flush();
            Ok((c.finish().ok().map(|p| p.got), werr))
        });
        match res {
            None => {}
            Some(Err(e)) => r.fail("setup", &input, &format!("{e:#}")),
            Some(Ok((Some(got), _))) => { r.check(sha256_hex(&got) == hex, "accepted-wrong", &input, || format!("accepted {} bytes with digest {}", got.len(), sha256_hex(&got))); }
            Some(Ok((None, werr))) => { r.check(werr || other != data || kind == 4, "refused-right", &input, || "the bytes written have the hash, but finish refused them".into()); }
        }
    }
}

#[test]
fn v_c01_text() {
    let mut r = Report::new("C01", "v_c01_text",
        "algorithm names (supported, unsupported, path-like) with digests of many lengths and alphabets: accepted exactly when sha256 with 64 hex digits, keeping the value. Non-trivial: the digest is valid hex");
    let mut rng = Rng::new("c01t");
    let modes = ["sha256", "sha256", "sha256", "md5", "sha1", "sha512", "SHA256", "sha256 ", "", "..", "../..", "/", "a/b", "tmp", "sha-256", "sha25", "sha2566"];
    for _ in 0..cases(6000, 10) {
        let mode = *rng.pick(&modes);
        let len = match rng.below(4) { 0 => rng.below(80), 1 => *rng.pick(&[0usize, 1, 2, 4, 6, 32, 40, 62, 63, 65, 66, 128]), _ => 64 };
        let alpha: &[u8] = match rng.below(4) { 0 => b"0123456789abcdef", 1 => b"0123456789ABCDEF", 2 => b"0123456789abcdefABCDEF", _ => b"0123456789abcdefg.-/ " };
        let hex: String = (0..len).map(|_| alpha[rng.below(alpha.len())] as char).collect();
        let good = hex.bytes().all(|c| c.is_ascii_hexdigit());
        let want = mode == "sha256" && len == 64 && good;
        let text = format!("{mode}={hex}");
        r.case(&text, good && len > 0);
        let Some((a, b)) = r.run(&text, || (ArtifactHash::from_hex(mode, &hex).ok(), ArtifactHash::try_from(text.as_str()).ok())) else { continue };
        r.check(a.is_some() == want, "accept", &text, || format!("accepted={}, must be {}", a.is_some(), want));
        r.check(a == b, "two-ways", &text, || "from_hex and the text form differ".into());
        if let (Some(a), true) = (a, want) {
            r.check(a.to_string() == text.to_ascii_lowercase(), "text", &text, || a.to_string());
        }
    }
}
