@include contracts/common.vrs
verus! {
// which platforms this machine can run
pub type Tag = Seq<char>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { t: T }
impl IndexSet<String> {
    pub uninterp spec fn v(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub fn get_index_of(&self, tag: &str) -> (r: Option<usize>)
        ensures match r { Some(i) => i < self.v().len() && self.v()[i as int] == tag@ && (forall|j: int| 0 <= j < i ==> #[trigger] self.v()[j] != tag@), None => forall|j: int| 0 <= j < self.v().len() ==> #[trigger] self.v()[j] != tag@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: &str) requires self.v().len() > 0 ensures r@ == self.v()[0] { unimplemented!() }
}
// what a core tag implies (contracts/R07.vrs); a list of tags fits an i32
pub uninterp spec fn implied(t: Tag) -> Seq<Tag>;
pub open spec fn sized(p: PybiPlatform) -> bool { 0 < p.tags.v().len() <= i32::MAX }
// the core tags of this machine, the preferred first (linux.rs, macos.rs, windows.rs)
pub uninterp spec fn machine() -> Seq<Tag>;
#[verifier::external_body]
pub fn core_platform_tags() -> (r: Result<Vec<String>, Report>) ensures r matches Ok(v) ==> v@.len() == machine().len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ == machine()[i] { unimplemented!() }
pub open spec fn natives_(ps: Seq<PybiPlatform>) -> bool { ps.len() == machine().len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).tags.v() == implied(machine()[i]) && sized(ps[i]) }
// p can run here: one of this machine's core tags implies p's
pub open spec fn native(p: PybiPlatform) -> bool { exists|i: int| 0 <= i < machine().len() && implied(#[trigger] machine()[i]).contains(p.tags.v()[0]) }

@fn src/platform_tags/platform.rs | fn:compatibility
@sub? `.map(|score| -(score as i32))` => `.map(|score: usize| -> (r: i32) requires score < i32::MAX ensures r == -(score as int) { -(score as i32) })`
@params tags tag
@sig pub fn compatibility(tags: &IndexSet<String>, tag: &str) -> (r: Option<i32>)
    requires tags.v().len() <= i32::MAX
    ensures r is Some <==> tags.v().contains(tag@)
@endfn
@type src/platform_tags/platform.rs | type:PybiPlatform ;
impl PybiPlatform {
    // contracts/R07.vrs
    #[verifier::external_body]
    pub fn new(core_tag: &str) -> (r: PybiPlatform) ensures r.tags.v() == implied(core_tag@), sized(r) { unimplemented!() }
@fn src/platform_tags/platform.rs | Platform for PybiPlatform/fn:compatibility
@params self tag
@sig pub fn compatibility(&self, tag: &str) -> (r: Option<i32>)
    requires sized(*self)
    ensures r is Some <==> self.tags.v().contains(tag@)
@endfn
@fn src/platform_tags/platform.rs | PybiPlatform/fn:core_tag
@sub? `&self.tags[0]` => `self.tags.first()`
@params self
@sig pub fn core_tag(&self) -> (r: &str)
    requires sized(*self)
    ensures r@ == self.tags.v()[0]
@endfn
@fn src/platform_tags/platform.rs | PybiPlatform/fn:native_platforms
@sub? `NATIVE_PLATFORMS.get_or_try_init(|| -> Result<_> { $B })` => `once(|| -> (r: Result<Vec<PybiPlatform>, Report>) ensures r matches Ok(v) ==> natives_(v@) { $B })`
@sub? `super::core_platform_tags` => `core_platform_tags`
@sub? `.iter().map(|s| $e).collect()` => `.each(|s: &String| -> (r: PybiPlatform) ensures r.tags.v() == implied(s@), sized(r) { $e })`
@sub? `NATIVE_PLATFORM_REFS.get_or_init(|| $e.iter().collect())` => `references($e)`
@params
@sig pub fn native_platforms() -> (r: Result<&'static [&'static PybiPlatform], Report>)
    ensures r matches Ok(v) ==> natives_(deref_all(v@))
@endfn
@fn src/platform_tags/platform.rs | PybiPlatform/fn:is_native
@sub? `natives.iter().any(|native| $e)` => `any_of(natives, |native: &PybiPlatform| -> (r: bool) requires sized(*native), sized(*self) ensures r == native.tags.v().contains(self.tags.v()[0]) { $e }, Ghost(|p: PybiPlatform| p.tags.v().contains(self.tags.v()[0])))`
@params self
@sig pub fn is_native(&self) -> (r: Result<bool, Report>)
    requires sized(*self)
    ensures r matches Ok(b) ==> b == native(*self)
@at after `let natives = $e;`
proof {
    let ps = deref_all(natives@); let core = self.tags.v()[0];
    assert(natives_(ps));
    assert forall|i: int| 0 <= i < natives@.len() implies *(#[trigger] natives@[i]) == ps[i] && sized(*natives@[i]) && (natives@[i].tags.v().contains(core) <==> implied(machine()[i]).contains(core)) by { assert(sized(ps[i])); }
    assert(native(*self) <==> exists|i: int| 0 <= i < natives@.len() && (*(#[trigger] natives@[i])).tags.v().contains(core)) by {
        if native(*self) { let i = choose|i: int| 0 <= i < machine().len() && implied(#[trigger] machine()[i]).contains(core); assert((*natives@[i]).tags.v().contains(core)); }
    }
}
@endfn
}
pub open spec fn deref_all(v: Seq<&'static PybiPlatform>) -> Seq<PybiPlatform> { v.map_values(|p: &'static PybiPlatform| *p) }
// once_cell: the value is what some run of f made
#[verifier::external_body]
pub fn once<F: Fn() -> Result<Vec<PybiPlatform>, Report>>(f: F) -> (r: Result<&'static Vec<PybiPlatform>, Report>)
    requires f.requires(())
    ensures r matches Ok(v) ==> f.ensures((), Ok(*v))
{ unimplemented!() }
#[verifier::external_body]
pub fn references(v: &'static Vec<PybiPlatform>) -> (r: &'static Vec<&'static PybiPlatform>) ensures deref_all(r@) == v@ { unimplemented!() }
pub trait Each {
    spec fn texts(&self) -> Seq<String>;
    fn each<F: Fn(&String) -> PybiPlatform>(&self, f: F) -> (r: Vec<PybiPlatform>)
        requires forall|s: &String| #[trigger] f.requires((s,))
        ensures r@.len() == self.texts().len(), forall|k: int| 0 <= k < r@.len() ==> f.ensures((&self.texts()[k],), #[trigger] r@[k]);
}
impl Each for Vec<String> {
    open spec fn texts(&self) -> Seq<String> { self@ }
    fn each<F: Fn(&String) -> PybiPlatform>(&self, f: F) -> (r: Vec<PybiPlatform>)
    {
        let mut out: Vec<PybiPlatform> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), out@.len() == i, forall|s: &String| #[trigger] f.requires((s,)), forall|k: int| 0 <= k < i ==> f.ensures((&self@[k],), #[trigger] out@[k])
            decreases self@.len() - i
        { out.push(f(&self[i])); i += 1; }
        out
    }
}
// .iter().any(f)
pub fn any_of<F: Fn(&PybiPlatform) -> bool>(v: &'static [&'static PybiPlatform], f: F, p: Ghost<spec_fn(PybiPlatform) -> bool>) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)), forall|x: &PybiPlatform, b: bool| #[trigger] f.ensures((x,), b) ==> b == p@(*x)
    ensures r == exists|i: int| 0 <= i < v@.len() && p@(*#[trigger] v@[i])
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)), forall|x: &PybiPlatform, b: bool| #[trigger] f.ensures((x,), b) ==> b == p@(*x), forall|k: int| 0 <= k < i ==> !p@(*#[trigger] v@[k])
        decreases v@.len() - i
    { if f(v[i]) { return true; } i += 1; }
    false
}
// this machine's own platforms run on it
pub proof fn own_are_native(ps: Seq<PybiPlatform>, i: int) requires natives_(ps), 0 <= i < ps.len() ensures native(ps[i]) { assert(implied(machine()[i]).contains(ps[i].tags.v()[0])); }
}
fn main() {}
