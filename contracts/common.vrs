#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unreachable_code, unused_parens, unused_must_use, unused_braces)]
use vstd::prelude::*;
verus! {
// ---- stand-ins shared by all units
#[derive(Debug)]
pub struct Report { pub code: u8 }
// the value of every eyre!/bail! error: which error it is carries no meaning in the contracts
#[verifier::external_body]
pub fn verr() -> (r: Report) { Report { code: 0 } }
// iterating a Vec by value, for loops rewritten by @forwhile
pub struct VecIter<T> { pub v: Vec<T>, pub all: Ghost<Seq<T>>, pub i: Ghost<int> }
impl<T> VecIter<T> {
    pub open spec fn wf(&self) -> bool { 0 <= self.i@ <= self.all@.len() && self.v@ == self.all@.skip(self.i@) }
    pub fn more(&self) -> (r: bool) requires self.wf() ensures r <==> self.i@ < self.all@.len() { self.v.len() > 0 }
    pub fn take(&mut self) -> (r: T)
        requires old(self).wf(), old(self).i@ < old(self).all@.len()
        ensures final(self).wf(), final(self).i@ == old(self).i@ + 1, final(self).all@ == old(self).all@, r == old(self).all@[old(self).i@]
    {
        let r = self.v.remove(0);
        let ghost k = self.i@ + 1;
        self.i = Ghost(k);
        proof { assert(self.v@ =~= self.all@.skip(self.i@)); }
        r
    }
}
pub fn vec_iter<T>(v: Vec<T>) -> (r: VecIter<T>) ensures r.wf(), r.i@ == 0, r.all@ == v@
{ let ghost all = v@; proof { assert(all.skip(0) =~= all); } VecIter { v, all: Ghost(all), i: Ghost(0) } }
}
