@include contracts/common.vrs
verus! {
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@type dep:ureq-2.6.2/src/error.rs | type:ErrorKind ;
pub mod ureq { use super::*; pub use super::ErrorKind;
#[verifier::external_body] pub struct Response { x: u8 }
#[verifier::external_body] pub struct Transport { x: u8 }
#[verifier::external_body] pub struct Request { x: u8 }
@type dep:ureq-2.6.2/src/error.rs | type:Error ;
impl Transport { pub uninterp spec fn k(&self) -> ErrorKind; }
impl Error {
    pub open spec fn k(&self) -> ErrorKind { match *self { Error::Status(_, _) => ErrorKind::HTTP, Error::Transport(t) => t.k() } }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
}
impl Clone for Request { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
use ureq::Error::{Status, Transport};
use ureq::ErrorKind::*;
pub type Outcome = Result<ureq::Response, ureq::Error>;
// ---- what the function does to the outside world: requests sent with their outcomes, and waiting
pub ghost enum Event { Call(ureq::Request, Outcome), Sleep(int) }
pub struct World { pub log: Ghost<Seq<Event>> }
impl World {
    // any outcome is possible
    #[verifier::external_body]
    pub fn call(&mut self, req: ureq::Request) -> (r: Outcome) ensures final(self).log@ == old(self).log@.push(Event::Call(req, r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sleep_ms(&mut self, ms: u64) ensures final(self).log@ == old(self).log@.push(Event::Sleep(ms as int)) { unimplemented!() }
}
pub struct Cursor<'a> { pub v: &'a [u64], pub i: usize }
impl<'a> Cursor<'a> {
    pub fn next(&mut self) -> (r: Option<&'a u64>)
        requires old(self).i <= old(self).v@.len()
        ensures
            final(self).v@ == old(self).v@,
            old(self).i < old(self).v@.len() ==> r is Some && *r->Some_0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.v.len() { let r = &self.v[self.i]; self.i = self.i + 1; Some(r) } else { None }
    }
}
pub fn iter<'a>(v: &'a [u64]) -> (r: Cursor<'a>) ensures r.v@ == v@, r.i == 0 { Cursor { v, i: 0 } }
pub fn has_status(v: &[u16], x: &u16) -> (r: bool) ensures r == v@.contains(*x) { 
    let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x decreases v@.len() - i { if v[i] == *x { assert(v@[i as int] == *x); return true; } i = i + 1; }
    false
}
pub fn has_kind(v: &[ureq::ErrorKind], x: &ureq::ErrorKind) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x decreases v@.len() - i { if v[i] == *x { assert(v@[i as int] == *x); return true; } i = i + 1; }
    false
}
// ---- property text
pub open spec fn transient_status(s: u16) -> bool { s == 500 || s == 503 || s == 520 || s == 527 }
pub open spec fn transient_kind(k: ureq::ErrorKind) -> bool { k is Dns || k is ConnectionFailed || k is TooManyRedirects || k is Io || k is ProxyConnect }
pub open spec fn transient(o: Outcome) -> bool {
    match o { Ok(_) => false, Err(ureq::Error::Status(s, _)) => transient_status(s), Err(ureq::Error::Transport(t)) => transient_kind(t.k()) }
}
pub open spec fn delay(i: int) -> int { if i == 0 { 250 } else if i == 1 { 500 } else if i == 2 { 1000 } else if i == 3 { 2000 } else { 4000 } }
// the first outcomes os, each followed by its wait
pub open spec fn tries(req: ureq::Request, os: Seq<Outcome>) -> Seq<Event>
    decreases os.len()
{
    if os.len() == 0 { seq![] } else { tries(req, os.drop_last()).push(Event::Call(req, os.last())).push(Event::Sleep(delay(os.len() - 1))) }
}

@fn src/package_db/http/ureq_glue.rs | const:SLEEP_TIMES
@sig pub fn sleep_times() -> (r: &'static [u64])
    ensures r@.len() == 5, forall|i: int| 0 <= i < 5 ==> #[trigger] r@[i] == delay(i),
@endfn
@fn src/package_db/http/ureq_glue.rs | const:RETRY_STATUS
@sig pub fn retry_status() -> (r: &'static [u16])
    ensures forall|s: u16| r@.contains(s) <==> transient_status(s),
@endfn
@fn src/package_db/http/ureq_glue.rs | const:RETRY_ERRORKIND
@sig pub fn retry_errorkind() -> (r: &'static [ureq::ErrorKind])
    ensures forall|k: ureq::ErrorKind| r@.contains(k) <==> transient_kind(k),
@endfn

@fn src/package_db/http/ureq_glue.rs | fn:call_with_retry
@sub? `SLEEP_TIMES.iter()` => `iter(sleep_times())`
@sub? `RETRY_STATUS.contains($x)` => `has_status(retry_status(), $x)`
@sub? `RETRY_ERRORKIND.contains($x)` => `has_kind(retry_errorkind(), $x)`
@sub? `= $e.call();` => `= world.call($e);`
@sub? `std::thread::sleep(Duration::from_millis($t))` => `world.sleep_ms($t)`
@params req0
@sig pub fn call_with_retry(req0: ureq::Request, world: &mut World) -> (r: Outcome)
    ensures
        // at most six attempts; each but the last failed transiently and is followed by its delay;
        // the last one's outcome is the result, and it is final or the sixth
        exists|os: Seq<Outcome>| os.len() <= 5
            && final(world).log@ == old(world).log@ + #[trigger] tries(req0, os) + seq![Event::Call(req0, r)]
            && (forall|i: int| 0 <= i < os.len() ==> transient(#[trigger] os[i]))
            && (os.len() == 5 || !transient(r)),
@at start
let ghost mut os: Seq<Outcome> = seq![];
let ghost l0 = world.log@;
proof { assert(l0 + tries(req0, os) =~= l0); }
@loop 1
    invariant
        l0 == old(world).log@, req == req0, iterator.v@.len() == 5, forall|i: int| 0 <= i < 5 ==> #[trigger] iterator.v@[i] == delay(i),
        iterator.i == os.len(), os.len() <= 5,
        forall|i: int| 0 <= i < os.len() ==> transient(#[trigger] os[i]),
        world.log@ == l0 + tries(req0, os),
    decreases 5 - os.len()
@at after `let result = $e;`
let ghost os1 = os;
proof { assert(world.log@ =~= l0 + tries(req0, os1) + seq![Event::Call(req0, result)]); }
@at before `match iterator.next() { $a }`
proof {
    os = os.push(result);
    assert(os.drop_last() =~= os1);
}
@at loop 1 end
proof { assert(world.log@ =~= l0 + tries(req0, os)); }
@endfn

// ---- interrupted system calls
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum IoKind { Interrupted, Other }
pub mod std { pub mod io {
    pub use super::super::IoKind as ErrorKind;
    pub struct Error { pub k: ErrorKind }
    impl Error { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k } }
    pub type Result<T> = core::result::Result<T, Error>;
} }
pub trait Operation<T> {
    spec fn outcomes(&self) -> Seq<core::result::Result<T, std::io::Error>>;
    fn run(&mut self) -> (r: core::result::Result<T, std::io::Error>) ensures final(self).outcomes() == old(self).outcomes().push(r);
}
pub open spec fn interrupted<T>(o: core::result::Result<T, std::io::Error>) -> bool { o matches Err(e) && e.k == std::io::ErrorKind::Interrupted }
@fn src/util.rs | fn:retry_interrupted
@sub `f()` => `f.run()`
@params f0
@sig #[verifier::exec_allows_no_decreases_clause]
pub fn retry_interrupted<F: Operation<T>, T>(f0: &mut F) -> (r: std::io::Result<T>)
    ensures
        // some number of interrupted runs, then one with another outcome, which is returned
        exists|os: Seq<std::io::Result<T>>| final(f0).outcomes() == #[trigger] (old(f0).outcomes() + os)
            && os.len() > 0 && os.last() == r && !interrupted(r)
            && forall|i: int| 0 <= i < os.len() - 1 ==> interrupted(#[trigger] os[i]),
@at start
let ghost o0 = f.outcomes();
let ghost mut os: Seq<std::io::Result<T>> = seq![];
@loop 1
    invariant
        o0 == old(f0).outcomes(), *final(f) == *final(f0), f.outcomes() =~= o0 + os, forall|i: int| 0 <= i < os.len() ==> interrupted(#[trigger] os[i]),
@at after `let res = f.run();`
proof { os = os.push(res); assert(f.outcomes() =~= o0 + os); }
@endfn
}
fn main() {}
