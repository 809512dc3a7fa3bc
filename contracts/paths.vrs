verus! {
// ---- paths: sequence of components; only what the store does with paths
pub type Comp = Seq<char>;
pub type Pth = Seq<Seq<char>>;
// a single normal component: what joining it does is to append it
pub open spec fn plain(c: Seq<char>) -> bool {
    c.len() > 0 && c != seq!['.'] && c != seq!['.', '.'] && (forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != '/' && c[i] != '\\' && c[i] != ':' && c[i] != '\0')
}
pub open spec fn all_plain(p: Pth) -> bool { forall|i: int| 0 <= i < p.len() ==> plain(#[trigger] p[i]) }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
pub trait AsComps { spec fn comps(&self) -> Pth; spec fn rel(&self) -> bool; }
impl AsComps for PathBuf { open spec fn comps(&self) -> Pth { self.c() } open spec fn rel(&self) -> bool { self.relative() } }
impl AsComps for str { open spec fn comps(&self) -> Pth { seq![self@] } open spec fn rel(&self) -> bool { plain(self@) } }
impl AsComps for String { open spec fn comps(&self) -> Pth { seq![self@] } open spec fn rel(&self) -> bool { plain(self@) } }
impl<T: AsComps + ?Sized> AsComps for &T { open spec fn comps(&self) -> Pth { (**self).comps() } open spec fn rel(&self) -> bool { (**self).rel() } }
impl PathBuf {
    pub uninterp spec fn c(&self) -> Pth;
    // relative and made of plain components
    pub uninterp spec fn relative(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r.c() == Pth::empty(), r.relative() { unimplemented!() }
    // std: pushing a relative path appends its components
    #[verifier::external_body]
    pub fn push<P: AsComps>(&mut self, p: P) ensures p.rel() ==> final(self).c() == old(self).c() + p.comps() && final(self).relative() == old(self).relative() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: AsComps>(&self, p: P) -> (r: PathBuf) ensures p.rel() ==> r.c() == self.c() + p.comps() && r.relative() == self.relative() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<OsStr>)
        ensures self.c().len() > 0 && plain(self.c().last()) ==> r is Some && r->Some_0@ == self.c().last() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_file_name(&mut self, n: OsStr) ensures old(self).c().len() > 0 && plain(old(self).c().last()) ==> final(self).c() == old(self).c().drop_last().push(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>) ensures self.c().len() > 0 ==> r is Some && r->Some_0.c() == self.c().drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
pub struct OsStr { pub s: String }
impl View for OsStr { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl OsStr {
    pub fn to_os_string(self) -> (r: OsStr) ensures r == self { self }
    #[verifier::external_body]
    pub fn push(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
}

pub struct IoError { pub k: IoKind }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum IoKind { NotFound, Other }
impl IoError { pub fn kind(&self) -> (r: IoKind) ensures r == self.k { self.k } }
impl core::convert::From<IoError> for Report {
    #[verifier::external_body]
    fn from(e: IoError) -> (r: Report) { unimplemented!() }
}
}
