@include contracts/common.vrs
@include contracts/tree_spec.vrs
@include contracts/fmt.vrs
verus! {
// ---- property text: the lines of an entry-point file
pub open spec fn space(c: char) -> bool {
    let n = c as u32;
    9 <= n <= 13 || n == 32 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn all_in(p: spec_fn(char) -> bool, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub open spec fn spaces(s: Seq<char>) -> bool { all_in(|c: char| space(c), s) }
pub open spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn in_ident(c: char) -> bool { alpha(c) || is_digit(c) || c == '.' }
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && all_in(|c: char| in_ident(c), s) }
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else if s[0] == '\n' { seq![Seq::<char>::empty()] + lines(s.skip(1)) } else { let r = lines(s.skip(1)); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
pub open spec fn uncomment(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 || s[0] == '#' || s[0] == ';' { seq![] } else { seq![s[0]] + uncomment(s.skip(1)) } }
pub open spec fn header_parts(l: Seq<char>, n: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| n.len() > 0 && spaces(a) && spaces(b) && l == a + (seq!['['] + (n + (seq![']'] + b))) }
pub open spec fn extras(s: Seq<char>) -> bool { s.len() == 0 || exists|y: Seq<char>, g: Seq<char>| spaces(g) && s == seq!['['] + y + seq![']'] + g }
pub ghost struct Ent { pub name: Seq<char>, pub module: Seq<char>, pub object: Option<Seq<char>> }
// what may follow the module: spaces, the object, spaces, extras
pub open spec fn tail_parts(s: Seq<char>, o: Option<Seq<char>>) -> bool {
    exists|d: Seq<char>, t: Seq<char>| spaces(d) && s == d + t && match o {
        Some(p) => ident(p) && exists|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x,
        None => extras(t),
    }
}
pub open spec fn entry_parts(l: Seq<char>, v: Ent) -> bool {
    &&& v.name.len() > 0 && !space(v.name[0]) && v.name[0] != '=' && !space(v.name.last()) && ident(v.module)
    &&& exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, s: Seq<char>| spaces(a) && spaces(b) && spaces(c) && #[trigger] tail_parts(s, v.object)
        && l == #[trigger] (a + (v.name + (b + (seq!['='] + (c + (v.module + s))))))
}
// the name is as short as possible
pub open spec fn entry_is(l: Seq<char>, v: Ent) -> bool { entry_parts(l, v) && forall|w: Ent| #[trigger] entry_parts(l, w) ==> v.name.len() <= w.name.len() }
pub open spec fn header_of(l: Seq<char>) -> Option<Seq<char>> { if exists|n: Seq<char>| header_parts(l, n) { Some(choose|n: Seq<char>| header_parts(l, n)) } else { None } }
pub open spec fn entry_of(l: Seq<char>) -> Option<Ent> { if exists|v: Ent| entry_is(l, v) { Some(choose|v: Ent| entry_is(l, v)) } else { None } }
// sections so far and the current one; None: malformed
pub ghost struct St { pub cur: Option<Seq<char>>, pub m: Map<Seq<char>, Seq<Ent>> }
pub open spec fn at(m: Map<Seq<char>, Seq<Ent>>, k: Seq<char>) -> Seq<Ent> { if m.dom().contains(k) { m[k] } else { seq![] } }
pub open spec fn step(s: St, line: Seq<char>) -> Option<St> {
    let l = uncomment(line);
    if spaces(l) { Some(s) }
    else { match header_of(l) {
        Some(n) => Some(St { cur: Some(n), m: s.m }),
        None => match (entry_of(l), s.cur) { (Some(e), Some(c)) => Some(St { cur: s.cur, m: s.m.insert(c, at(s.m, c).push(e)) }), _ => None },
    } }
}
pub open spec fn read(ls: Seq<Seq<char>>) -> Option<St> decreases ls.len() {
    if ls.len() == 0 { Some(St { cur: None, m: Map::empty() }) } else { match read(ls.drop_last()) { Some(s) => step(s, ls.last()), None => None } }
}
pub proof fn lemma_read_prefix(ls: Seq<Seq<char>>, i: int) requires 0 <= i <= ls.len(), read(ls.take(i)) is None ensures read(ls) is None decreases ls.len()
{ if i < ls.len() { assert(ls.drop_last().take(i) =~= ls.take(i)); lemma_read_prefix(ls.drop_last(), i); } else { assert(ls.take(i) =~= ls); } }

// ---- each line has one reading
// a run of characters of a class, followed by something that is not of the class
pub open spec fn stops(p: spec_fn(char) -> bool, y: Seq<char>) -> bool { y.len() == 0 || !p(y[0]) }
pub proof fn lemma_run(p: spec_fn(char) -> bool, x: Seq<char>, y: Seq<char>, x2: Seq<char>, y2: Seq<char>)
    requires all_in(p, x), all_in(p, x2), stops(p, y), stops(p, y2), x + y == x2 + y2
    ensures x == x2, y == y2
{
    let t = x + y;
    if x.len() < x2.len() { assert(t[x.len() as int] == x2[x.len() as int]); assert((x2 + y2).len() == t.len()); assert(y.len() > 0); assert(t[x.len() as int] == y[0]); }
    if x2.len() < x.len() { assert(t[x2.len() as int] == x[x2.len() as int]); assert((x2 + y2)[x2.len() as int] == y2[0]); }
    assert(x =~= t.take(x.len() as int)); assert(x2 =~= (x2 + y2).take(x.len() as int));
    assert(y =~= t.skip(x.len() as int)); assert(y2 =~= (x2 + y2).skip(x.len() as int));
}
pub proof fn lemma_after(k: int, x: Seq<char>, y: Seq<char>, x2: Seq<char>, y2: Seq<char>) requires x.len() == k, x2.len() == k, x + y == x2 + y2 ensures x == x2, y == y2
{ assert(x =~= (x + y).take(k)); assert(x2 =~= (x2 + y2).take(k)); assert(y =~= (x + y).skip(k)); assert(y2 =~= (x2 + y2).skip(k)); }
pub proof fn lemma_header_unique(l: Seq<char>, n: Seq<char>, n2: Seq<char>) requires header_parts(l, n), header_parts(l, n2) ensures n == n2
{
    let sp = |c: char| space(c);
    let (a, b) = choose|a: Seq<char>, b: Seq<char>| n.len() > 0 && spaces(a) && spaces(b) && l == a + (seq!['['] + (n + (seq![']'] + b)));
    let (a2, b2) = choose|a: Seq<char>, b: Seq<char>| n2.len() > 0 && spaces(a) && spaces(b) && l == a + (seq!['['] + (n2 + (seq![']'] + b)));
    lemma_run(sp, a, seq!['['] + (n + (seq![']'] + b)), a2, seq!['['] + (n2 + (seq![']'] + b2)));
    lemma_after(1, seq!['['], n + (seq![']'] + b), seq!['['], n2 + (seq![']'] + b2));
    let t = n + (seq![']'] + b); let t2 = n2 + (seq![']'] + b2);
    let k = n.len() as int; let k2 = n2.len() as int;
    assert(t[k] == ']'); assert(t2[k2] == ']');
    if k < k2 { assert(t[k2] == b[k2 - k - 1]); assert(space(b[k2 - k - 1])); } else if k2 < k { assert(t2[k] == b2[k - k2 - 1]); assert(space(b2[k - k2 - 1])); }
    assert(n =~= t.take(k)); assert(n2 =~= t2.take(k));
}
pub proof fn lemma_extras_stop(x: Seq<char>) requires extras(x) ensures stops(|c: char| space(c), x), stops(|c: char| in_ident(c), x), x.len() > 0 ==> x[0] == '['
{ if x.len() > 0 { let (y, g) = choose|y: Seq<char>, g: Seq<char>| spaces(g) && x == seq!['['] + y + seq![']'] + g; assert(x[0] == '['); } }
pub proof fn lemma_tail_stop(s: Seq<char>, o: Option<Seq<char>>) requires tail_parts(s, o) ensures stops(|c: char| in_ident(c), s)
{
    let (d, t) = choose|d: Seq<char>, t: Seq<char>| spaces(d) && s == d + t && match o {
        Some(p) => ident(p) && exists|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x,
        None => extras(t),
    };
    if d.len() > 0 { assert(s[0] == d[0]); assert(space(d[0])); }
    else { assert(s =~= t); match o { Some(p) => { assert(t[0] == ':'); } None => { lemma_extras_stop(t); } } }
}
pub proof fn lemma_tail_unique(s: Seq<char>, o: Option<Seq<char>>, o2: Option<Seq<char>>) requires tail_parts(s, o), tail_parts(s, o2) ensures o == o2
{
    let sp = |c: char| space(c); let id = |c: char| in_ident(c);
    let (d, t) = choose|d: Seq<char>, t: Seq<char>| spaces(d) && s == d + t && match o {
        Some(p) => ident(p) && exists|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x,
        None => extras(t),
    };
    let (d2, t2) = choose|d: Seq<char>, t: Seq<char>| spaces(d) && s == d + t && match o2 {
        Some(p) => ident(p) && exists|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x,
        None => extras(t),
    };
    if o is None { lemma_extras_stop(t); } else { assert(t[0] == ':'); }
    if o2 is None { lemma_extras_stop(t2); } else { assert(t2[0] == ':'); }
    lemma_run(sp, d, t, d2, t2);
    if o is Some && o2 is Some {
        let p = o->Some_0; let p2 = o2->Some_0;
        let (e, u) = choose|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x;
        let (e2, u2) = choose|e: Seq<char>, u: Seq<char>| spaces(e) && t == seq![':'] + (e + (p2 + u)) && exists|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x;
        lemma_after(1, seq![':'], e + (p + u), seq![':'], e2 + (p2 + u2));
        assert((p + u)[0] == p[0]); assert((p2 + u2)[0] == p2[0]);
        lemma_run(sp, e, p + u, e2, p2 + u2);
        let (f, x) = choose|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u == f + x;
        let (f2, x2) = choose|f: Seq<char>, x: Seq<char>| spaces(f) && extras(x) && u2 == f + x;
        lemma_extras_stop(x); lemma_extras_stop(x2);
        if f.len() > 0 { assert(u[0] == f[0]); assert(space(f[0])); } else { assert(u =~= x); }
        if f2.len() > 0 { assert(u2[0] == f2[0]); assert(space(f2[0])); } else { assert(u2 =~= x2); }
        lemma_run(id, p, u, p2, u2);
    }
}
pub proof fn lemma_entry_unique(l: Seq<char>, v: Ent, w: Ent) requires entry_is(l, v), entry_is(l, w) ensures v == w
{
    let sp = |c: char| space(c); let id = |c: char| in_ident(c);
    let (a, b, c, s) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, s: Seq<char>| spaces(a) && spaces(b) && spaces(c) && #[trigger] tail_parts(s, v.object) && l == #[trigger] (a + (v.name + (b + (seq!['='] + (c + (v.module + s))))));
    let (a2, b2, c2, s2) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, s: Seq<char>| spaces(a) && spaces(b) && spaces(c) && #[trigger] tail_parts(s, w.object) && l == #[trigger] (a + (w.name + (b + (seq!['='] + (c + (w.module + s))))));
    let r = b + (seq!['='] + (c + (v.module + s))); let r2 = b2 + (seq!['='] + (c2 + (w.module + s2)));
    assert((v.name + r)[0] == v.name[0]); assert((w.name + r2)[0] == w.name[0]);
    lemma_run(sp, a, v.name + r, a2, w.name + r2);
    assert(v.name.len() == w.name.len());
    lemma_after(v.name.len() as int, v.name, r, w.name, r2);
    lemma_run(sp, b, seq!['='] + (c + (v.module + s)), b2, seq!['='] + (c2 + (w.module + s2)));
    lemma_after(1, seq!['='], c + (v.module + s), seq!['='], c2 + (w.module + s2));
    assert((v.module + s)[0] == v.module[0]); assert((w.module + s2)[0] == w.module[0]);
    lemma_run(sp, c, v.module + s, c2, w.module + s2);
    lemma_tail_stop(s, v.object); lemma_tail_stop(s2, w.object);
    lemma_run(id, v.module, s, w.module, s2);
    lemma_tail_unique(s, v.object, w.object);
}

// ---- the patterns (what they match is validated by the bounded part)
#[verifier::external_body] pub struct Groups { x: u8 }
impl Groups {
    pub uninterp spec fn n(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn name(&self, k: &str) -> (r: Option<Match>) ensures match r { Some(m) => self.n(k@) == Some(m.s()), None => self.n(k@) is None } { unimplemented!() }
}
#[verifier::external_body] pub struct ReComment { x: u8 }
#[verifier::external_body] pub struct ReEmpty { x: u8 }
#[verifier::external_body] pub struct ReHeader { x: u8 }
#[verifier::external_body] pub struct ReEntry { x: u8 }
#[verifier::external_body] pub fn re_comment() -> (r: ReComment) { unimplemented!() }
#[verifier::external_body] pub fn re_empty() -> (r: ReEmpty) { unimplemented!() }
#[verifier::external_body] pub fn re_header() -> (r: ReHeader) { unimplemented!() }
#[verifier::external_body] pub fn re_entry() -> (r: ReEntry) { unimplemented!() }
impl ReComment { #[verifier::external_body] pub fn drop_first(&self, s: &str) -> (r: String) ensures r@ == uncomment(s@) { unimplemented!() } }
impl ReEmpty { #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == spaces(s@) { unimplemented!() } }
impl ReHeader {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Groups>)
        ensures match r { Some(c) => c.n("name"@) is Some && header_parts(s@, c.n("name"@)->Some_0), None => forall|n: Seq<char>| !#[trigger] header_parts(s@, n) }
    { unimplemented!() }
}
impl ReEntry {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Groups>)
        ensures match r { Some(c) => c.n("name"@) is Some && c.n("module"@) is Some && entry_is(s@, Ent { name: c.n("name"@)->Some_0, module: c.n("module"@)->Some_0, object: c.n("object"@) }), None => forall|v: Ent| !#[trigger] entry_is(s@, v) }
    { unimplemented!() }
}
@fn src/vocab/entry_points.rs | const:COMMENT
@sub `Regex::new(r"[#;][^\n]*").unwrap()` => `re_comment()`
@sig pub fn comment() -> (r: ReComment)
@endfn
@fn src/vocab/entry_points.rs | const:EMPTY_LINE
@sub `Regex::new(r"^\s*$").unwrap()` => `re_empty()`
@sig pub fn empty_line() -> (r: ReEmpty)
@endfn
@fn src/vocab/entry_points.rs | const:HEADER_LINE
@sub `Regex::new(r"^\s*\[(?P<name>.+)\]\s*$").unwrap()` => `re_header()`
@sig pub fn header_line() -> (r: ReHeader)
@endfn
@fn src/vocab/entry_points.rs | const:ENTRY_LINE
@pin fe08732a06f1
@sub `Regex::new($e).unwrap()` => `re_entry()`
@sig pub fn entry_line() -> (r: ReEntry)
@endfn
#[verifier::external_body]
pub fn split_lines<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures strs(r@) == lines(s@) { unimplemented!() }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
@type src/vocab/entry_points.rs | type:Entrypoint ;
pub open spec fn ent(e: Entrypoint) -> Ent { Ent { name: e.name@, module: e.module@, object: match e.object { Some(o) => Some(o@), None => None } } }
pub open spec fn ents(v: Seq<Entrypoint>) -> Seq<Ent> { v.map_values(|e: Entrypoint| ent(e)) }
#[verifier::external_body] pub struct Sections { x: u8 }
impl Sections {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, Seq<Ent>>;
    #[verifier::external_body]
    pub fn new() -> (r: Sections) ensures r.m() == Map::<Seq<char>, Seq<Ent>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_at(&mut self, k: String, v: Vec<Entrypoint>) ensures final(self).m() == old(self).m().insert(k@, at(old(self).m(), k@) + ents(v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Vec<Entrypoint>>) ensures match r { Some(v) => self.m().dom().contains(k@) && ents(v@) == self.m()[k@], None => !self.m().dom().contains(k@) } { unimplemented!() }
}
// the sections once the entries still to be filed are filed
pub open spec fn filed(m: Map<Seq<char>, Seq<Ent>>, cur: Option<String>, pending: Seq<Entrypoint>) -> Map<Seq<char>, Seq<Ent>> {
    if pending.len() == 0 { m } else { match cur { Some(c) => m.insert(c@, at(m, c@) + ents(pending)), None => m } }
}
pub open spec fn cur_of(c: Option<String>) -> Option<Seq<char>> { match c { Some(s) => Some(s@), None => None } }
@fn src/vocab/entry_points.rs | fn:parse_entry_points
@sub? `HashMap::<String, Vec<Entrypoint>>::new()` => `Sections::new()`
@sub? `contents.split('\n')` => `split_lines(contents)`
@sub? `COMMENT.replace($e, "")` => `comment().drop_first($e)`
@sub? `EMPTY_LINE` => `empty_line()`
@sub? `HEADER_LINE` => `header_line()`
@sub? `ENTRY_LINE` => `entry_line()`
@sub? `line.as_ref()` => `line.as_str()`
@sub? `m.as_str().to_string()` => `to_text(m.as_str())`
@sub? `= $e.as_str().to_string();` => `= to_text($e.as_str());`
@sub? `captures.name($n).map(|$m| $e)` => `(match captures.name($n) { Some($m) => Some($e), None => None })`
@sub? `section_name.into()` => `to_text(section_name)`
@sub? `current_entries.is_empty()` => `(current_entries.len() == 0)`
@sub? `result.entry($k).or_default().extend($v)` => `result.extend_at($k, $v)`
@forwhile 1
@params contents
@sig pub fn parse_entry_points(contents: &str) -> (r: Result<Sections, Report>)
    ensures match read(lines(contents@)) { Some(s) => r is Ok && r->Ok_0.m() == s.m, None => r is Err }
@at start
let ghost ls = lines(contents@);
proof {
    assert(ls.take(0) =~= Seq::<Seq<char>>::empty());
    assert forall|l: Seq<char>, n: Seq<char>| #[trigger] header_parts(l, n) implies header_of(l) == Some(n) by { lemma_header_unique(l, n, header_of(l)->Some_0); }
    assert forall|l: Seq<char>, v: Ent| #[trigger] entry_is(l, v) implies entry_of(l) == Some(v) by { lemma_entry_unique(l, v, entry_of(l)->Some_0); }
}
@loop 1
    invariant
        it1.wf(), strs(it1.all@) == ls,
        forall|l: Seq<char>, n: Seq<char>| #[trigger] header_parts(l, n) ==> header_of(l) == Some(n),
        forall|l: Seq<char>, v: Ent| #[trigger] entry_is(l, v) ==> entry_of(l) == Some(v),
        read(ls.take(it1.i@ as int)) matches Some(s) && s.cur == cur_of(current_section_name) && s.m =~= filed(result.m(), current_section_name, current_entries@),
        current_entries@.len() > 0 ==> current_section_name is Some,
        lines(contents@) == ls
    decreases it1.all@.len() - it1.i@
@at loop 1 start
let ghost k = it1.i@ as int;
let ghost p0 = current_entries@;
let ghost m0 = result.m();
proof {
    assert(ls.take(k + 1).drop_last() =~= ls.take(k)); assert(ls.take(k + 1).last() == ls[k]); assert(ls[k] == it1.all@[k]@);
    if read(ls.take(k + 1)) is None { lemma_read_prefix(ls, k + 1); }
    assert(ents(Seq::<Entrypoint>::empty()) =~= Seq::<Ent>::empty());
    assert forall|e: Entrypoint| #[trigger] ents(p0.push(e)) == ents(p0).push(ent(e)) by { assert(ents(p0.push(e)) =~= ents(p0).push(ent(e))); }
    assert forall|e: Entrypoint, c: Seq<char>| #[trigger] (at(m0, c) + ents(p0.push(e))) == (at(m0, c) + ents(p0)).push(ent(e)) by { assert(at(m0, c) + ents(p0.push(e)) =~= (at(m0, c) + ents(p0)).push(ent(e))); }
    assert forall|c: Seq<char>| #[trigger] at(m0, c) + Seq::<Ent>::empty() == at(m0, c) by { assert(at(m0, c) + Seq::<Ent>::empty() =~= at(m0, c)); }
}
@at loop 1 after
proof { assert(ls.take(ls.len() as int) =~= ls); }
@endfn

// ---- the script for an entry
#[derive(Clone, Copy)]
@type src/trampolines/mod.rs | type:ScriptType ;
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == enc(s@) { unimplemented!() }
pub open spec fn object_suffix(e: Ent) -> Seq<char> { match e.object { Some(o) => "."@ + o, None => seq![] } }
// how a script starts, what it imports, what it calls
pub open spec fn begins_with(t: Seq<char>, h: Seq<char>) -> bool { exists|x: Seq<char>| t == #[trigger] (h + x) }
pub open spec fn starts_as(t: Seq<char>, gui: bool) -> bool { begins_with(t, if gui { "#!pythonw\n"@ } else { "#!python\n"@ }) }
pub open spec fn has_line(t: Seq<char>, line: Seq<char>) -> bool { exists|x: Seq<char>, y: Seq<char>| t == #[trigger] (x + (seq!['\n'] + (line + (seq!['\n'] + y)))) }
pub open spec fn script_ok(t: Seq<char>, e: Ent, gui: bool) -> bool {
    &&& starts_as(t, gui)
    &&& has_line(t, "import sys"@) && has_line(t, "import "@ + e.module)
    &&& has_line(t, "    sys.exit("@ + (e.module + (object_suffix(e) + "())"@)))
}
pub open spec fn script(e: Ent, gui: bool) -> Seq<char> {
    "#!python"@ + (if gui { "w"@ } else { ""@ }) + "\n# -*- coding: utf-8 -*-\nimport sys\nimport "@ + e.module
    + "\nif __name__ == \"__main__\":\n    if sys.argv[0].endswith(\".exe\"):\n        sys.argv[0] = sys.argv[0][:-4]\n    sys.exit("@ + e.module + object_suffix(e) + "())\n"@
}
#[verifier::rlimit(90)]
pub proof fn lemma_script(e: Ent, gui: bool) ensures script_ok(script(e, gui), e, gui)
{
    let t = script(e, gui); let m = e.module; let o = object_suffix(e);
    let w = if gui { "w"@ } else { ""@ };
    reveal_strlit("#!python"); reveal_strlit("#!python\n"); reveal_strlit("#!pythonw\n"); reveal_strlit("w"); reveal_strlit("");
    reveal_strlit("\n# -*- coding: utf-8 -*-\nimport sys\nimport "); reveal_strlit("import sys"); reveal_strlit("import "); reveal_strlit("())"); reveal_strlit("())\n"); reveal_strlit("    sys.exit(");
    reveal_strlit("\nif __name__ == \"__main__\":\n    if sys.argv[0].endswith(\".exe\"):\n        sys.argv[0] = sys.argv[0][:-4]\n    sys.exit(");
    let l1 = "\n# -*- coding: utf-8 -*-\nimport sys\nimport "@;
    let l2 = "\nif __name__ == \"__main__\":\n    if sys.argv[0].endswith(\".exe\"):\n        sys.argv[0] = sys.argv[0][:-4]\n    sys.exit("@;
    let h = if gui { "#!pythonw\n"@ } else { "#!python\n"@ };
    let z = m + l2 + m + o + "())\n"@;
    assert(t =~= h + (l1.skip(1) + z));
    let p = "#!python"@ + w;
    assert(t =~= (p + l1.take(24)) + (seq!['\n'] + ("import sys"@ + (seq!['\n'] + (l1.skip(36) + z)))));
    let y = l2.skip(1) + m + o + "())\n"@;
    assert(t =~= (p + l1.take(35)) + (seq!['\n'] + (("import "@ + m) + (seq!['\n'] + y))));
    let n = l2.len() - 14;
    let call = "    sys.exit("@ + (m + (o + "())"@));
    assert(t =~= (p + l1 + m + l2.take(n)) + (seq!['\n'] + (call + (seq!['\n'] + Seq::<char>::empty()))));
}
@fn src/vocab/artifact_formats.rs | fn:script_for_entrypoint
@sub? `script_type == ScriptType::$v {` => `matches!(script_type, ScriptType::$v) {`
@sub? `"".into()` => `to_text("")`
@sub? `indoc::formatdoc! {$B}.into()` => `into_bytes(formatdoc! {$B})`
@format
@params entry script_type
@sig pub fn script_for_entrypoint(entry: &Entrypoint, script_type: ScriptType) -> (r: Vec<u8>)
    ensures r@ == enc(script(ent(*entry), script_type is GUI)), script_ok(script(ent(*entry), script_type is GUI), ent(*entry), script_type is GUI)
@at start
proof { lemma_script(ent(*entry), script_type is GUI); reveal_strlit(""); reveal_strlit("#!python"); assert(""@ =~= Seq::<char>::empty()); }
@endfn

// ---- unpacking a wheel: what the transformed tree (contracts/A04.vrs) receives
pub type Path = Seq<Seq<char>>;
pub ghost enum Op { Dir(Path), File(Path, Seq<u8>, bool), Link(Path, Seq<char>) }
pub open spec fn abytes(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
#[verifier::external_body]
pub fn ascii(s: &'static str) -> (r: &'static [u8]) ensures r@ == abytes(s@) { unimplemented!() }
// which place a text denotes (contracts/A01.vrs)
pub uninterp spec fn place(t: Seq<char>) -> Option<Path>;
#[verifier::external_body]
pub fn parse_path(t: &str) -> (r: Result<NicePathBuf, Report>) ensures r is Ok <==> place(t@) is Some, r is Ok ==> Some(r->Ok_0.at()) == place(t@) { unimplemented!() }
impl NicePathBuf {
    #[verifier::external_body]
    pub fn join(&self, other: &NicePathBuf) -> (r: NicePathBuf) ensures r.at() == self.at() + other.at() { unimplemented!() }
}
// a directory name that was printed from a parsed path
pub uninterp spec fn printed(s: Seq<char>) -> bool;
#[verifier::external_body]
pub proof fn axiom_printed(s: Seq<char>) requires printed(s) ensures place(s + "/INSTALLER"@) is Some {}
#[verifier::external_body] pub struct Paths { x: u8 }
#[verifier::external_body] pub struct TrampolineMaker { x: u8 }
#[verifier::external_body] pub struct WheelCoreMetadata { x: u8 }
@type src/vocab/artifact_formats.rs | type:WheelVitals ;
#[verifier::external_body] pub struct ZipArchive { x: u8 }
impl ZipArchive {
    pub uninterp spec fn ops(&self) -> Seq<Op>;
    pub uninterp spec fn readable(&self, name: Seq<char>) -> Option<Seq<u8>>;
}
#[verifier::external_body]
pub fn slurp_from_zip(z: &ZipArchive, name: &str) -> (r: Result<Vec<u8>, Report>) ensures match r { Ok(b) => z.readable(name@) == Some(b@), Err(e) => z.readable(name@) is None } { unimplemented!() }
#[verifier::external_body] pub struct Tree { x: u8 }
impl Tree {
    // what it received, and for which installation
    pub uninterp spec fn trace(&self) -> Seq<Op>;
    pub uninterp spec fn set(&self) -> (Paths, TrampolineMaker, WheelVitals);
    #[verifier::external_body]
    pub fn transform(&mut self, paths: &Paths, maker: &TrampolineMaker, vitals: &WheelVitals) ensures final(self).trace() == old(self).trace(), final(self).set() == (*paths, *maker, *vitals) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_file(&mut self, path: &NicePathBuf, data: &[u8], executable: bool) -> (r: Result<(), Report>)
        ensures final(self).set() == old(self).set(), r is Ok ==> final(self).trace() == old(self).trace().push(Op::File(path.at(), data@, executable))
    { unimplemented!() }
}
// contracts/A03.vrs: on success the tree received exactly the archive's members
#[verifier::external_body]
pub fn unpack_zip_carefully(z: &ZipArchive, t: &mut Tree) -> (r: Result<(), Report>)
    ensures final(t).set() == old(t).set(), r is Ok ==> final(t).trace() == old(t).trace() + z.ops()
{ unimplemented!() }
pub struct WheelName { pub x: u8 }
pub struct Wheel { pub name: WheelName, pub z: ZipArchive }
pub uninterp spec fn vitals_of(w: Wheel) -> WheelVitals;
// property text
pub open spec fn entry_op(v: WheelVitals, e: Ent, gui: bool) -> Op { Op::File(place(v.data@ + "/scripts"@)->Some_0 + place(e.name)->Some_0, enc(script(e, gui)), true) }
pub open spec fn entry_ops(v: WheelVitals, es: Seq<Ent>, gui: bool) -> Seq<Op> { es.map_values(|e: Ent| entry_op(v, e, gui)) }
pub open spec fn script_ops(v: WheelVitals, m: Map<Seq<char>, Seq<Ent>>) -> Seq<Op> { entry_ops(v, at(m, "console_scripts"@), false) + entry_ops(v, at(m, "gui_scripts"@), true) }
pub open spec fn installer_op(v: WheelVitals) -> Op { Op::File(place(v.dist_info@ + "/INSTALLER"@)->Some_0, abytes("posy\n"@), false) }
pub open spec fn unpacked(w: Wheel, v: WheelVitals, got: Seq<Op>) -> bool {
    match w.z.readable(v.dist_info@ + "/entry_points.txt"@) {
        None => got == w.z.ops().push(installer_op(v)),
        Some(b) => utf8(b) matches Some(t) && read(lines(t)) matches Some(s) && got == w.z.ops().push(installer_op(v)) + script_ops(v, s.m),
    }
}
impl Wheel {
    #[verifier::external_body]
    pub fn get_vitals(&self) -> (r: Result<WheelVitals, Report>) ensures r is Ok ==> r->Ok_0 == vitals_of(*self) && printed(r->Ok_0.dist_info@) { unimplemented!() }
@fn src/vocab/artifact_formats.rs | Wheel/fn:unpack
@inline write_scripts
@bytes
@sub? `Result<()>` => `Result<(), Report>`
@sub `let mut transformer = WheelTreeTransformer { paths, trampoline_maker, dest: &mut dest, vitals: &vitals, };` => `dest.transform(paths, trampoline_maker, &vitals);`
@sub? `let mut z = self.z.borrow_mut();` => `let z = &self.z;`
@sub? `&mut transformer` => `dest`
@sub? `transformer.write_file($B)` => `dest.write_file($B)`
@sub? `&mut z` => `z`
@sub? `&mut installer` => `installer`
@sub? `&mut &body[..]` => `body.as_slice()`
@sub? `&format!($B).as_str().try_into().unwrap()` => `&parse_path(format!($B).as_str()).unwrap()`
@sub? `format!($B).try_into()?` => `parse_path(format!($B).as_str())?`
@sub? `entrypoint.$f.as_str().try_into()?` => `parse_path(entrypoint.$f.as_str())?`
@sub? `std::str::from_utf8` => `from_utf8`
@format
@params paths trampoline_maker dest
@sig pub fn unpack(&self, paths: &Paths, trampoline_maker: &TrampolineMaker, dest: &mut Tree) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(dest).set() == (*paths, *trampoline_maker, vitals_of(*self)) && exists|g: Seq<Op>| final(dest).trace() == old(dest).trace() + g && #[trigger] unpacked(*self, vitals_of(*self), g)
@at start
let ghost t0 = dest.trace();
let ghost v = vitals_of(*self);
@at before `let mut installer`
proof { axiom_printed(v.dist_info@); }
@at before `if let Ok(entry_points)`
let ghost g1 = self.z.ops().push(installer_op(v));
proof { assert(dest.trace() =~= t0 + g1); reveal_strlit("/"); reveal_strlit("entry_points.txt"); reveal_strlit("/entry_points.txt"); assert(v.dist_info@ + "/"@ + "entry_points.txt"@ =~= v.dist_info@ + "/entry_points.txt"@); assert(g1 + Seq::<Op>::empty() =~= g1); assert(self.z.readable(v.dist_info@ + "/entry_points.txt"@) is None ==> unpacked(*self, v, g1)); }
@at before `let entry_points = parse_entry_points`
let ghost raw = entry_points@;
@at before `{ let name = "console_scripts"`
let ghost m = entry_points.m();
let ghost c = at(m, "console_scripts"@);
let ghost d = at(m, "gui_scripts"@);
let ghost none = Seq::<Op>::empty();
proof {
    assert(self.z.readable(v.dist_info@ + "/entry_points.txt"@) == Some(raw));
    assert(utf8(raw) is Some && read(lines(utf8(raw)->Some_0)) is Some && m == read(lines(utf8(raw)->Some_0))->Some_0.m);
    assert(entry_ops(v, Seq::<Ent>::empty(), false) =~= none); assert(entry_ops(v, Seq::<Ent>::empty(), true) =~= none);
    assert forall|t: Seq<Op>| #[trigger] (t + none) == t by { assert(t + none =~= t); }
}
@at before `{ let name = "gui_scripts"`
proof { assert(dest.trace() =~= t0 + g1 + entry_ops(v, c, false)); }
@at after `{ let name = "gui_scripts"; $B }?;`
proof { let g = g1 + script_ops(v, m); assert(dest.trace() =~= t0 + g); assert(unpacked(*self, v, g)); }
@at loop 1 before
let ghost ba = dest.trace(); let ghost ra = script_entrypoints@;
proof { assert(ents(ra) =~= c); assert(ba + entry_ops(v, ents(ra).take(0), false) =~= ba); }
@at loop 1 start
proof { let k = ita.index@; assert(ents(ra).take(k + 1) =~= ents(ra).take(k).push(ent(*entrypoint))); assert(ba + entry_ops(v, ents(ra).take(k + 1), false) =~= (ba + entry_ops(v, ents(ra).take(k), false)).push(entry_op(v, ent(*entrypoint), false))); reveal_strlit("/scripts"); }
@at loop 1 after
proof { assert(ents(ra).take(ra.len() as int) =~= ents(ra)); }
@loop 1 iter=ita
    invariant dest.set() == (*paths, *trampoline_maker, v), vitals == v, script_type is Console, ita.seq().len() == ra.len(), forall|i: int| 0 <= i < ita.seq().len() ==> *(#[trigger] ita.seq()[i]) == ra[i],
        dest.trace() == ba + entry_ops(v, ents(ra).take(ita.index@), false)
@at loop 2 before
let ghost bb = dest.trace(); let ghost rb = script_entrypoints@;
proof { assert(ents(rb) =~= d); assert(bb + entry_ops(v, ents(rb).take(0), true) =~= bb); }
@at loop 2 start
proof { let k = itb.index@; assert(ents(rb).take(k + 1) =~= ents(rb).take(k).push(ent(*entrypoint))); assert(bb + entry_ops(v, ents(rb).take(k + 1), true) =~= (bb + entry_ops(v, ents(rb).take(k), true)).push(entry_op(v, ent(*entrypoint), true))); reveal_strlit("/scripts"); }
@at loop 2 after
proof { assert(ents(rb).take(rb.len() as int) =~= ents(rb)); }
@loop 2 iter=itb
    invariant dest.set() == (*paths, *trampoline_maker, v), vitals == v, script_type is GUI, itb.seq().len() == rb.len(), forall|i: int| 0 <= i < itb.seq().len() ==> *(#[trigger] itb.seq()[i]) == rb[i],
        dest.trace() == bb + entry_ops(v, ents(rb).take(itb.index@), true)
@endfn
}
}
fn main() {}
