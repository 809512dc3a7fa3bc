//@attach src/util.rs
// H02: interrupted system calls
use super::*;
use crate::verif_support::*;
use std::io::{Error, ErrorKind};

#[test]
fn v_h02_interrupted() {
    let mut r = Report::new("H02", "v_h02_interrupted",
        "0-40 interruptions followed by a success or one of many other errors: called until the first other outcome, which is returned. Non-trivial: at least one interruption");
    let kinds = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::ConnectionAborted, ErrorKind::ConnectionReset, ErrorKind::AlreadyExists];
    for n in 0..40usize {
        for k in 0..=kinds.len() {
            let input = format!("{n} interruptions, then {:?}", kinds.get(k));
            r.case(&input, n > 0);
            let mut calls = 0;
            let got = r.run(&input, || retry_interrupted(|| {
                calls += 1;
                if calls <= n { if calls % 2 == 0 { Err(Error::from(ErrorKind::Interrupted)) } else { Err(Error::new(ErrorKind::Interrupted, "sig")) } }
                else if calls > n + 1 { Ok(999) }
                else if k == kinds.len() { Ok(7) } else { Err(Error::from(kinds[k])) }
            }));
            r.check(calls == n + 1, "calls", &input, || format!("{calls} calls"));
            if let Some(g) = got {
                let ok = if k == kinds.len() { matches!(g, Ok(7)) } else { matches!(&g, Err(e) if e.kind() == kinds[k]) };
                r.check(ok, "outcome", &input, || format!("{g:?}"));
            }
        }
    }
}
