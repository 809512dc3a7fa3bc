//@attach src/seek_slice.rs
// S01: a SeekSlice over data[start..end] against std's own Cursor over a copy of that slice
use super::*;
use crate::verif_support::*;
use std::io::Cursor;

// a reader that returns short reads, to exercise the position arithmetic
struct Short<T>(T, usize);
impl<T: Read> Read for Short<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1);
        self.0.read(&mut buf[..n])
    }
}
impl<T: Seek> Seek for Short<T> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

#[test]
fn v_s01_window() {
    let mut rep = Report::new(
        "S01", "v_s01_window",
        "random file up to 24 bytes, random window (empty ones included), 1-12 random seek/read operations, compared op by op with a Cursor over a copy of the window; non-trivial when at least one read and one seek succeed",
    );
    let mut rng = Rng::new("s01");
    for _ in 0..cases(60000, 20) {
        let n = rng.below(25);
        let data = rng.bytes(n);
        let a = rng.below(n + 1);
        let b = rng.range(a, n);
        let short = rng.range(1, 30);
        let nops = rng.range(1, 12);
        let mut ops = Vec::new();
        for _ in 0..nops {
            let len = (b - a) as i64;
            ops.push(match rng.below(8) {
                0 | 1 | 2 => (0u8, rng.below(28) as i64),
                3 => (1, rng.below((len + 3) as usize) as i64),
                4 => (2, rng.below((2 * len + 4) as usize) as i64 - len - 2),
                5 => (3, rng.below((2 * len + 4) as usize) as i64 - len - 2),
                6 => (4, 0),
                _ => match rng.below(6) {
                    0 => (1, i64::MAX), 1 => (2, i64::MIN), 2 => (3, i64::MAX), 3 => (3, i64::MIN), 4 => (2, i64::MAX),
                    _ => (5, 0),
                },
            });
        }
        let desc = format!("file={} bytes window={}..{} short={} ops={:?}", n, a, b, short, ops);
        let mut good = (false, false);
        let mut errs: Vec<(String, String)> = Vec::new();
        rep.run(&desc, || {
            let mut win = match SeekSlice::new(Short(Cursor::new(data.clone()), short), a as u64, b as u64) {
                Ok(w) => w,
                Err(e) => { errs.push(("open".into(), e.to_string())); return; }
            };
            let model = data[a..b].to_vec();
            let mut at: usize = 0;
            for (i, (k, v)) in ops.iter().enumerate() {
                match k {
                    0 => {
                        let mut buf = vec![0xEEu8; *v as usize];
                        match win.read(&mut buf) {
                            Ok(m) => {
                                let want_max = (*v as usize).min(model.len() - at);
                                if m > want_max || (m == 0 && want_max > 0) || buf[..m.min(want_max)] != model[at..at + m.min(want_max)] || buf[m..].iter().any(|x| *x != 0xEE) {
                                    errs.push(("read".into(), format!("op {}: read {} bytes {:?} at {} of window {:?}", i, m, buf, at, model)));
                                    return;
                                }
                                if m > 0 { good.0 = true; }
                                at += m;
                            }
                            Err(e) => { errs.push(("read".into(), format!("op {}: read failed: {}", i, e))); return; }
                        }
                    }
                    4 => {
                        let mut rest = Vec::new();
                        match win.read_to_end(&mut rest) {
                            Ok(_) if rest == model[at..] => { at = model.len(); good.0 = true; }
                            r => { errs.push(("read_to_end".into(), format!("op {}: {:?} -> {:?}, window {:?} at {}", i, r, rest, model, at))); return; }
                        }
                    }
                    _ => {
                        let (pos, goal) = match k {
                            1 => (SeekFrom::Start(*v as u64), *v as i128),
                            2 => (SeekFrom::End(*v), model.len() as i128 + *v as i128),
                            3 => (SeekFrom::Current(*v), at as i128 + *v as i128),
                            _ => (SeekFrom::Start(u64::MAX), u64::MAX as i128),
                        };
                        let r = win.seek(pos);
                        let inside = goal >= 0 && goal <= model.len() as i128;
                        match (inside, r) {
                            (true, Ok(p)) if p as i128 == goal => { at = p as usize; good.1 = true; }
                            (false, Err(_)) => {}
                            (_, r) => { errs.push(("seek".into(), format!("op {}: seek {:?} -> {:?}, window of {} bytes at {}", i, pos, r, model.len(), at))); return; }
                        }
                        match win.stream_position() {
                            Ok(p) if p as usize == at => {}
                            r => { errs.push(("position".into(), format!("op {}: position {:?}, expected {}", i, r, at))); return; }
                        }
                    }
                }
            }
        });
        rep.case(&desc, good.0 && good.1);
        for (k, w) in errs { rep.fail(&k, &desc, &w); }
    }
}
