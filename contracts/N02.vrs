@include contracts/common.vrs
@include contracts/fmt.vrs
verus! {
pub type Tag = Seq<char>;
// a project name (contracts/N01.vrs) and a version: what a text reads as, and how it prints
#[verifier::external_body] pub struct PackageName { x: u8 }
#[verifier::external_body] pub struct Version { x: u8 }
pub uninterp spec fn pkg(t: Seq<char>) -> Option<PackageName>;
pub uninterp spec fn ver(t: Seq<char>) -> Option<Version>;
impl PackageName {
    pub uninterp spec fn given(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_given(&self) -> (r: &str) ensures r@ == self.given() { unimplemented!() }
}
impl Shown for Version { uninterp spec fn shown(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn parse_pkg(t: &str) -> (r: Result<PackageName, Report>) ensures r is Ok <==> pkg(t@) is Some, r matches Ok(p) ==> pkg(t@) == Some(p) { unimplemented!() }
#[verifier::external_body]
pub fn parse_ver(t: &str) -> (r: Result<Version, Report>) ensures r is Ok <==> ver(t@) is Some, r matches Ok(v) ==> ver(t@) == Some(v) { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_pkg(t: Seq<char>) ensures pkg(t) matches Some(p) ==> p.given() == t {}
// printed versions read as themselves (validated by the bounded part)
#[verifier::external_body]
pub proof fn axiom_ver(t: Seq<char>) ensures ver(t) matches Some(v) ==> ver(v.shown()) == Some(v) && all_legal(v.shown()) && without(v.shown(), '-') {}
#[derive(Clone, Copy)]
@type src/vocab/artifact_name.rs | type:SdistFormat ;
@type src/vocab/artifact_name.rs | type:SdistName ;
@type src/vocab/artifact_name.rs | type:WheelName ;
@type src/vocab/artifact_name.rs | type:PybiName ;
@type src/vocab/artifact_name.rs | type:ArtifactName ;
}
@include contracts/tags.vrs
verus! {
// ---- texts cut at a separator
pub open spec fn without(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else {
        let r = split(s.drop_last(), c);
        if s.last() == c { r.push(seq![]) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}
pub open spec fn join(v: Seq<Seq<char>>, c: char) -> Seq<char> decreases v.len() {
    if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { join(v.drop_last(), c) + (seq![c] + v.last()) }
}
pub proof fn lemma_split(s: Seq<char>, c: char)
    ensures split(s, c).len() > 0, join(split(s, c), c) == s, forall|i: int| 0 <= i < split(s, c).len() ==> without(#[trigger] split(s, c)[i], c)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_split(s.drop_last(), c);
        let r = split(s.drop_last(), c); let q = split(s, c);
        assert(s =~= s.drop_last().push(s.last()));
        if s.last() == c {
            assert(q.drop_last() =~= r); assert(seq![c] + q.last() =~= seq![c]); assert(join(q, c) =~= s);
            assert forall|i: int| 0 <= i < q.len() implies without(#[trigger] q[i], c) by { if i < r.len() { assert(q[i] == r[i]); } }
        } else {
            assert(q.drop_last() =~= r.drop_last());
            assert(r.last() == r[r.len() - 1]);
            assert forall|i: int| 0 <= i < q.len() implies without(#[trigger] q[i], c) by { if i < r.len() - 1 { assert(q[i] == r[i]); } else { assert(without(r[i], c)); assert(q[i] == r[i].push(s.last())); } }
            if r.len() == 1 { assert(q.len() == 1); assert(join(q, c) == q[0]); assert(q[0] =~= s); }
            else { assert(join(q, c) =~= join(r, c).push(s.last())); }
        }
    }
}
pub proof fn lemma_split_whole(s: Seq<char>, c: char) requires without(s, c) ensures split(s, c) == seq![s] decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != c by { assert(d[i] == s[i]); }
        lemma_split_whole(d, c);
        assert(s[s.len() - 1] != c);
        assert(d.push(s.last()) =~= s);
        assert(split(s, c) =~= seq![s]);
    } else { assert(s =~= seq![]); assert(split(s, c) =~= seq![s]); }
}
pub proof fn lemma_split_at(a: Seq<char>, b: Seq<char>, c: char) requires without(b, c) ensures split(a + (seq![c] + b), c) == split(a, c).push(b) decreases b.len()
{
    let s = a + (seq![c] + b);
    lemma_split(a, c);
    if b.len() == 0 { assert(s.drop_last() =~= a); assert(b =~= seq![]); }
    else {
        let d = b.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != c by { assert(d[i] == b[i]); }
        lemma_split_at(a, d, c);
        assert(s.drop_last() =~= a + (seq![c] + d));
        assert(b[b.len() - 1] != c); assert(s.last() == b.last());
        assert(d.push(b.last()) =~= b);
        assert(split(a, c).push(d).drop_last() =~= split(a, c));
    }
}
pub proof fn lemma_split_join(v: Seq<Seq<char>>, c: char) requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> without(#[trigger] v[i], c) ensures split(join(v, c), c) == v decreases v.len()
{
    if v.len() == 1 { lemma_split_whole(v[0], c); assert(v =~= seq![v[0]]); }
    else {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies without(#[trigger] d[i], c) by { assert(d[i] == v[i]); }
        lemma_split_join(d, c);
        assert(without(v[v.len() - 1], c));
        lemma_split_at(join(d, c), v.last(), c);
        assert(d.push(v.last()) =~= v);
    }
}
// every character of a piece is one of the text
pub proof fn lemma_split_legal(s: Seq<char>, c: char) requires all_legal(s) ensures forall|i: int| 0 <= i < split(s, c).len() ==> all_legal(#[trigger] split(s, c)[i]) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies legal(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_split_legal(d, c); lemma_split(d, c);
        let r = split(d, c); let q = split(s, c);
        assert(legal(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < q.len() implies all_legal(#[trigger] q[i]) by { if i < r.len() { assert(all_legal(r[i])); if i == r.len() - 1 && s.last() != c { assert(q[i] == r[i].push(s.last())); } else { assert(q[i] == r[i]); } } }
    }
}
pub proof fn lemma_join_legal(v: Seq<Seq<char>>, c: char) requires legal(c), forall|i: int| 0 <= i < v.len() ==> all_legal(#[trigger] v[i]) ensures all_legal(join(v, c)) decreases v.len()
{ if v.len() == 1 { assert(all_legal(v[0])); } else if v.len() > 1 { let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies all_legal(#[trigger] d[i]) by { assert(d[i] == v[i]); } lemma_join_legal(d, c); assert(all_legal(v[v.len() - 1])); } }

// ---- property text: what a file name spells
pub open spec fn legal(c: char) -> bool { in_word(c) || c == '.' || c == '+' || c == '!' || c == '-' }
pub open spec fn all_legal(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> legal(#[trigger] s[i]) }
pub open spec fn lead(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 || !is_digit(t[0]) { 0 } else { 1 + lead(t.skip(1)) } }
pub ghost struct Bin { pub dist: PackageName, pub ver: Version, pub num: Option<int>, pub name: Seq<char>, pub tags: Seq<Seq<Seq<char>>> }
// the build number and the rest of a build tag; None: no number of ours
pub open spec fn build(t: Seq<char>) -> Option<(Option<int>, Seq<char>)> {
    if lead(t) == 0 { Some((None, t)) } else if num(t.take(lead(t))) <= u32::MAX { Some((Some(num(t.take(lead(t)))), t.skip(lead(t)))) } else { None }
}
pub open spec fn dots(v: Seq<Seq<char>>) -> Seq<Seq<Seq<char>>> { v.map_values(|t: Seq<char>| split(t, '.')) }
pub open spec fn finish(p: Seq<Seq<char>>, b: (Option<int>, Seq<char>)) -> Option<Bin> {
    match (pkg(p[0]), ver(p[1])) { (Some(d), Some(v)) => Some(Bin { dist: d, ver: v, num: b.0, name: b.1, tags: dots(p.skip(2)) }), _ => None }
}
pub open spec fn ends(s: Seq<char>, e: Seq<char>) -> bool { s.len() >= e.len() && s.skip(s.len() - e.len()) == e }
pub open spec fn read(s: Seq<char>, e: Seq<char>, n: int) -> Option<Bin> {
    if !all_legal(s) || !ends(s, e) { None } else {
        let p = split(s.take(s.len() - e.len()), '-');
        if p.len() == 3 + n { if p[2].len() == 0 { None } else { match build(p[2]) { Some(b) => finish(p.remove(2), b), None => None } } }
        else if p.len() == 2 + n { finish(p, (None, seq![])) } else { None }
    }
}
pub open spec fn undots(v: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>> { v.map_values(|t: Seq<Seq<char>>| join(t, '.')) }
pub open spec fn build_text(num: Option<int>, name: Seq<char>) -> Seq<char> { match num { Some(k) => dec(k) + name, None => name } }
pub open spec fn parts(b: Bin) -> Seq<Seq<char>> {
    let t = build_text(b.num, b.name);
    (if t.len() == 0 { seq![b.dist.given(), b.ver.shown()] } else { seq![b.dist.given(), b.ver.shown(), t] }) + undots(b.tags)
}
pub open spec fn print(b: Bin, e: Seq<char>) -> Seq<char> { join(parts(b), '-') + e }
pub proof fn lemma_lead(t: Seq<char>) ensures 0 <= lead(t) <= t.len(), lead(t) > 0 ==> digits(t.take(lead(t))), lead(t) < t.len() ==> !is_digit(t[lead(t)]), lead(t) == 0 ==> t.len() == 0 || !is_digit(t[0]) decreases t.len()
{
    if t.len() > 0 && is_digit(t[0]) {
        let u = t.skip(1);
        lemma_lead(u);
        let k = lead(t);
        assert forall|i: int| 0 <= i < k implies is_digit(#[trigger] t.take(k)[i]) by { if i > 0 { assert(u.take(lead(u))[i - 1] == t[i]); } }
        if k < t.len() { assert(t[k] == u[k - 1]); }
    }
}
pub proof fn lemma_lead_is(a: Seq<char>, b: Seq<char>) requires forall|i: int| 0 <= i < a.len() ==> is_digit(#[trigger] a[i]), b.len() == 0 || !is_digit(b[0]) ensures lead(a + b) == a.len() decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        let u = a.skip(1);
        assert forall|i: int| 0 <= i < u.len() implies is_digit(#[trigger] u[i]) by { assert(u[i] == a[i + 1]); }
        lemma_lead_is(u, b);
        assert(is_digit(a[0])); assert((a + b)[0] == a[0]); assert((a + b).skip(1) =~= u + b);
    }
}
// printing what was read and reading it again gives the same
pub proof fn round_trip(s: Seq<char>, e: Seq<char>, n: int, b: Bin)
    requires n >= 1, all_legal(e), read(s, e, n) == Some(b)
    ensures read(print(b, e), e, n) == Some(b)
{
    let st = s.take(s.len() - e.len());
    let p = split(st, '-');
    assert forall|i: int| 0 <= i < st.len() implies legal(#[trigger] st[i]) by { assert(st[i] == s[i]); }
    lemma_split(st, '-'); lemma_split_legal(st, '-');
    axiom_pkg(p[0]); axiom_ver(p[1]);
    let built = p.len() == 3 + n;
    let r = if built { p.remove(2) } else { p };
    let ts = r.skip(2);
    assert(b.tags == dots(ts));
    assert forall|i: int| 0 <= i < ts.len() implies undots(b.tags)[i] == #[trigger] ts[i] by { lemma_split(ts[i], '.'); assert(b.tags[i] == split(ts[i], '.')); }
    assert(undots(b.tags) =~= ts);
    let t = build_text(b.num, b.name);
    if built {
        let g = p[2]; let k = lead(g);
        lemma_lead(g);
        assert(without(p[2], '-') && all_legal(p[2]));
        if k > 0 {
            let v = num(g.take(k));
            lemma_num_pos(g.take(k)); lemma_dec(v);
            let rest = g.skip(k);
            if rest.len() > 0 { assert(rest[0] == g[k]); }
            lemma_lead_is(dec(v), rest);
            assert(t.take(dec(v).len() as int) =~= dec(v)); assert(t.skip(dec(v).len() as int) =~= rest);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '-' && legal(t[i]) by { if i < dec(v).len() { assert(is_digit(dec(v)[i])); } else { assert(t[i] == g[k + i - dec(v).len()]); } }
        }
        assert(t.len() > 0); assert(build(t) == build(g)); assert(without(t, '-') && all_legal(t));
    }
    let q = parts(b);
    assert forall|i: int| 0 <= i < q.len() implies without(#[trigger] q[i], '-') && all_legal(q[i]) by {
        let m = if built { 3int } else { 2int };
        assert(without(p[0], '-') && all_legal(p[0]));
        if i >= m { assert(q[i] == ts[i - m]); assert(ts[i - m] == p[i]); assert(without(p[i], '-') && all_legal(p[i])); }
    }
    lemma_split_join(q, '-'); lemma_join_legal(q, '-');
    let w = print(b, e);
    assert(w.take(w.len() - e.len()) =~= join(q, '-')); assert(w.skip(w.len() - e.len()) =~= e);
    if built { assert(q.remove(2) =~= seq![b.dist.given(), b.ver.shown()] + ts); assert(q.remove(2).skip(2) =~= ts); } else { assert(q.skip(2) =~= ts); }
}
pub proof fn lemma_num_pos(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) ensures num(s) >= 0 decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { assert(d[i] == s[i]); } lemma_num_pos(d); assert(is_digit(s[s.len() - 1])); } }

// ---- stand-ins for std and the patterns (what they match is validated by the bounded part)
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn vtexts(v: Seq<Vec<String>>) -> Seq<Seq<Seq<char>>> { v.map_values(|x: Vec<String>| texts(x@)) }
#[verifier::external_body] pub struct ReValid { x: u8 }
#[verifier::external_body] pub struct ReBuild { x: u8 }
#[verifier::external_body] pub struct ReSdist { x: u8 }
#[verifier::external_body] pub fn re_valid() -> (r: ReValid) { unimplemented!() }
#[verifier::external_body] pub fn re_build() -> (r: ReBuild) { unimplemented!() }
#[verifier::external_body] pub fn re_sdist() -> (r: ReSdist) { unimplemented!() }
impl ReValid { #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == all_legal(s@) { unimplemented!() } }
impl ReBuild {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>) ensures without(s@, '\n') ==> r is Some, r matches Some(c) ==> c.g(1) == Some(s@.take(lead(s@))) && c.g(2) == Some(s@.skip(lead(s@))) { unimplemented!() }
}
// name, version and format of a source archive: the version follows the last '-'
pub open spec fn last_dash(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == '-' { s.len() - 1 } else { last_dash(s.drop_last()) } }
pub open spec fn stem(s: Seq<char>) -> Option<(Seq<char>, SdistFormat)> {
    if ends(s, ".zip"@) { Some((s.take(s.len() - 4), SdistFormat::Zip)) } else if ends(s, ".tar.gz"@) { Some((s.take(s.len() - 7), SdistFormat::TarGz)) } else { None }
}
pub open spec fn sdist_parts(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, SdistFormat)> {
    match stem(s) { Some((t, f)) => if last_dash(t) >= 0 && without(t.take(last_dash(t)), '\n') { Some((t.take(last_dash(t)), t.skip(last_dash(t) + 1), f)) } else { None }, None => None }
}
pub open spec fn format_text(f: SdistFormat) -> Seq<char> { match f { SdistFormat::Zip => "zip"@, SdistFormat::TarGz => "tar.gz"@ } }
impl ReSdist {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match sdist_parts(s@) { Some((a, b, f)) => r matches Some(c) && c.g(1) == Some(a) && c.g(2) == Some(b) && c.g(3) == Some(format_text(f)), None => r is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn strip_end<'a>(s: &'a str, e: &str) -> (r: Result<&'a str, Report>) ensures r is Ok <==> ends(s@, e@), r matches Ok(t) ==> t@ == s@.take(s@.len() - e@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn ends_with(s: &str, e: &str) -> (r: bool) ensures r == ends(s@, e@) { unimplemented!() }
pub open spec fn starts(s: Seq<char>, a: Seq<char>) -> bool { s.len() >= a.len() && s.take(a.len() as int) == a }
#[verifier::external_body]
pub fn starts_with(s: &str, a: &str) -> (r: bool) ensures r == starts(s@, a@) { unimplemented!() }
#[verifier::external_body]
pub fn split_on<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures strs(r@) == split(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn split_each(v: &Vec<&str>, from: usize, c: char) -> (r: Vec<Vec<String>>) requires from <= v@.len() ensures vtexts(r@) == strs(v@).skip(from as int).map_values(|t: Seq<char>| split(t, c)) { unimplemented!() }
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r <==> s@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn join_texts(v: &Vec<String>, sep: &str) -> (r: String) ensures forall|c: char| sep@ == seq![c] ==> r@ == #[trigger] join(texts(v@), c) { unimplemented!() }
#[verifier::external_body]
pub fn reversed<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
pub struct Out { pub s: Ghost<Seq<char>> }
impl Out {
    pub open spec fn v(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body]
    pub fn put(&mut self, t: String) -> (r: Result<(), Report>) ensures r is Ok ==> final(self).v() == old(self).v() + t@ { unimplemented!() }
}
pub open spec fn opt_int(n: Option<u32>) -> Option<int> { match n { Some(k) => Some(k as int), None => None } }
pub open spec fn bin5(r: (PackageName, Version, Option<u32>, String, Vec<Vec<String>>)) -> Bin { Bin { dist: r.0, ver: r.1, num: opt_int(r.2), name: r.3@, tags: vtexts(r.4@) } }
pub open spec fn wheel_bin(w: WheelName) -> Bin { Bin { dist: w.distribution, ver: w.version, num: opt_int(w.build_number), name: w.build_name@, tags: seq![texts(w.py_tags@), texts(w.abi_tags@), texts(w.arch_tags@)] } }
pub open spec fn pybi_bin(w: PybiName) -> Bin { Bin { dist: w.distribution, ver: w.version, num: opt_int(w.build_number), name: w.build_name@, tags: seq![texts(w.arch_tags@)] } }

@fn src/vocab/artifact_name.rs | fn:generic_parse
@sub `static VALID_CHARS: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Za-z0-9_.+!-]*$").unwrap());` => `let valid_chars = re_valid();`
@sub `static BUILD_TAG_SPLIT: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^[0-9]*)(.*)$").unwrap());` => `let build_tag_split = re_build();`
@sub? `VALID_CHARS` => `valid_chars`
@sub? `BUILD_TAG_SPLIT` => `build_tag_split`
@sub? `= value.strip_suffix(suffix).ok_or_else($B)?` => `= strip_end(value, suffix)?`
@sub? `stem.split($c).collect()` => `split_on(stem, $c)`
@sub? `build_tag.is_empty()` => `str_is_empty(build_tag)`
@sub? `digits.parse().wrap_err($B)?` => `parse_u32(digits)?`
@sub? `build_name = $e.as_str().into();` => `build_name = to_text($e.as_str());`
@sub? `build_name = $s.to_owned();` => `build_name = to_text($s);`
@sub? `distribution: PackageName = pieces[$i].try_into()?` => `distribution: PackageName = parse_pkg(pieces[$i])?`
@sub? `version: Version = pieces[$i].try_into()?` => `version: Version = parse_ver(pieces[$i])?`
@sub? `pieces[$a..].iter().map(|$t| $t.split($c).map(|$u| $u.into()).collect()).collect()` => `split_each(&pieces, $a, $c)`
@strmatch
@params value suffix tag_parts
@sig pub fn generic_parse(value: &str, suffix: &str, tag_parts: u8) -> (r: Result<(PackageName, Version, Option<u32>, String, Vec<Vec<String>>), Report>)
    ensures match read(value@, suffix@, tag_parts as int) { Some(b) => r matches Ok(x) && bin5(x) == b, None => r is Err }
@at before `let build_tag_split`
let ghost p = strs(pieces@);
proof {
    lemma_split(stem@, '-'); reveal_strlit("");
    if all_legal(value@) {
        assert forall|i: int| 0 <= i < stem@.len() implies legal(#[trigger] stem@[i]) by { assert(stem@[i] == value@[i]); }
        lemma_split_legal(stem@, '-');
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == pieces@[i]@ by {}
}
@at before `let captures`
proof {
    let t = build_tag@;
    assert(t == p[2]); assert(all_legal(p[2])); assert(strs(pieces@) =~= p.remove(2));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' by { assert(legal(t[i])); }
    lemma_lead(t);
    assert(t.skip(0) =~= t); assert(t.take(0) =~= ""@); assert(lead(t) > 0 ==> t.take(lead(t)) != ""@);
}
@at before `let distribution`
proof {
    assert(""@ =~= Seq::<char>::empty());
    assert(strs(pieces@) =~= if p.len() == 3 + tag_parts { p.remove(2) } else { p });
    assert(strs(pieces@)[0] == pieces@[0]@); assert(strs(pieces@)[1] == pieces@[1]@);
}
@endfn

// ---- printing
pub proof fn lemma_join_push(v: Seq<Seq<char>>, x: Seq<char>, c: char) requires v.len() > 0 ensures join(v.push(x), c) == join(v, c) + (seq![c] + x) { assert(v.push(x).drop_last() =~= v); }
pub open spec fn build_part(num: Option<int>, name: Seq<char>) -> Seq<char> { let t = build_text(num, name); if t.len() == 0 { t } else { seq!['-'] + t } }
// the printed parts, written out
pub proof fn lemma_print(b: Bin, e: Seq<char>)
    ensures
        b.tags.len() == 1 ==> print(b, e) == b.dist.given() + seq!['-'] + b.ver.shown() + build_part(b.num, b.name) + seq!['-'] + join(b.tags[0], '.') + e,
        b.tags.len() == 3 ==> print(b, e) == b.dist.given() + seq!['-'] + b.ver.shown() + build_part(b.num, b.name) + seq!['-'] + join(b.tags[0], '.') + seq!['-'] + join(b.tags[1], '.') + seq!['-'] + join(b.tags[2], '.') + e,
{
    let t = build_text(b.num, b.name); let u = undots(b.tags);
    let h1 = seq![b.dist.given()]; let h2 = h1.push(b.ver.shown());
    lemma_join_push(h1, b.ver.shown(), '-'); assert(join(h1, '-') == b.dist.given());
    lemma_join_push(h2, t, '-');
    let h = if t.len() == 0 { h2 } else { h2.push(t) };
    assert(join(h, '-') =~= b.dist.given() + seq!['-'] + b.ver.shown() + build_part(b.num, b.name));
    if b.tags.len() >= 1 { lemma_join_push(h, u[0], '-'); }
    if b.tags.len() == 1 { assert(parts(b) =~= h.push(u[0])); assert(print(b, e) =~= b.dist.given() + seq!['-'] + b.ver.shown() + build_part(b.num, b.name) + seq!['-'] + join(b.tags[0], '.') + e); }
    if b.tags.len() == 3 {
        let g = h.push(u[0]);
        lemma_join_push(g, u[1], '-'); lemma_join_push(g.push(u[1]), u[2], '-');
        assert(parts(b) =~= g.push(u[1]).push(u[2]));
        assert(print(b, e) =~= b.dist.given() + seq!['-'] + b.ver.shown() + build_part(b.num, b.name) + seq!['-'] + join(b.tags[0], '.') + seq!['-'] + join(b.tags[1], '.') + seq!['-'] + join(b.tags[2], '.') + e);
    }
}
@fn src/vocab/artifact_name.rs | fn:format_build_tag
@sub? `(None, "") => $e,` => `(None, n0) if str_eq(n0, "") => $e,`
@sub? `String::from($e)` => `to_text($e)`
@format
@params build_number build_name
@sig pub fn format_build_tag(build_number: Option<u32>, build_name: &str) -> (r: String)
    ensures r@ == build_part(opt_int(build_number), build_name@)
@at start
proof {
    reveal_strlit(""); reveal_strlit("-"); assert("-"@ =~= seq!['-']); assert(build_name@.len() == 0 ==> build_name@ =~= ""@); assert(""@ =~= Seq::<char>::empty());
    match build_number { Some(k) => { lemma_dec(k as int); assert("-"@ + dec(k as int) + build_name@ =~= seq!['-'] + (dec(k as int) + build_name@)); } None => {} }
}
@endfn
impl WheelName {
@fn src/vocab/artifact_name.rs | TryFrom<&str> for WheelName/fn:try_from
@sub? `tag_sets.reverse();` => `reversed(&mut tag_sets);`
@params value
@sig pub fn try_from(value: &str) -> (r: Result<WheelName, Report>)
    ensures match read(value@, ".whl"@, 3) { Some(b) => r matches Ok(w) && wheel_bin(w) == b, None => r is Err }
@at start
proof { lemma_read_tags(value@, ".whl"@, 3); }
@at before `reversed(&mut tag_sets);`
let ghost ts = tag_sets@;
proof { assert(vtexts(ts).len() == 3); assert(ts.len() == 3); assert forall|i: int| 0 <= i < 3 implies #[trigger] vtexts(ts)[i] == texts(ts[i]@) by {} assert(vtexts(ts) =~= seq![texts(ts[0]@), texts(ts[1]@), texts(ts[2]@)]); }
@endfn
@fn src/vocab/artifact_name.rs | Display for WheelName/fn:fmt
@sub? `self.py_tags.join($s)` => `join_texts(&self.py_tags, $s)`
@sub? `self.abi_tags.join($s)` => `join_texts(&self.abi_tags, $s)`
@sub? `self.arch_tags.join($s)` => `join_texts(&self.arch_tags, $s)`
@sub? `&self.build_name` => `self.build_name.as_str()`
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + print(wheel_bin(*self), ".whl"@)
@at start
let ghost b = wheel_bin(*self);
proof { lemma_print(b, ".whl"@); reveal_strlit("-"); reveal_strlit("."); assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']); assert(b.dist.given() + seq!['-'] =~= b.dist.given() + "-"@); }
@endfn
}
impl PybiName {
@fn src/vocab/artifact_name.rs | TryFrom<&str> for PybiName/fn:try_from
@params value
@sig pub fn try_from(value: &str) -> (r: Result<PybiName, Report>)
    ensures match read(value@, ".pybi"@, 1) { Some(b) => r matches Ok(w) && pybi_bin(w) == b, None => r is Err }
@at start
proof { lemma_read_tags(value@, ".pybi"@, 1); }
@at before `Ok(PybiName $x)`
let ghost ts = tag_sets@;
proof { assert(vtexts(ts).len() == 1); assert(ts.len() == 1); assert(vtexts(ts)[0] == texts(ts[0]@)); assert(vtexts(ts) =~= seq![texts(ts[0]@)]); }
@endfn
@fn src/vocab/artifact_name.rs | Display for PybiName/fn:fmt
@sub? `self.py_tags.join($s)` => `join_texts(&self.py_tags, $s)`
@sub? `self.abi_tags.join($s)` => `join_texts(&self.abi_tags, $s)`
@sub? `self.arch_tags.join($s)` => `join_texts(&self.arch_tags, $s)`
@sub? `&self.build_name` => `self.build_name.as_str()`
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + print(pybi_bin(*self), ".pybi"@)
@at start
let ghost b = pybi_bin(*self);
proof { lemma_print(b, ".pybi"@); reveal_strlit("-"); reveal_strlit("."); assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']); }
@endfn
}
pub proof fn lemma_read_tags(s: Seq<char>, e: Seq<char>, n: int) requires n >= 0 ensures read(s, e, n) matches Some(b) ==> b.tags.len() == n {}

// ---- source archives
pub ghost struct Src { pub dist: PackageName, pub ver: Version, pub format: SdistFormat }
pub open spec fn read_sdist(s: Seq<char>) -> Option<Src> {
    match sdist_parts(s) { Some((a, b, f)) => match (pkg(a), ver(b)) { (Some(d), Some(v)) => Some(Src { dist: d, ver: v, format: f }), _ => None }, None => None }
}
pub open spec fn print_sdist(x: Src) -> Seq<char> { x.dist.given() + seq!['-'] + x.ver.shown() + seq!['.'] + format_text(x.format) }
pub open spec fn src(n: SdistName) -> Src { Src { dist: n.distribution, ver: n.version, format: n.format } }
pub proof fn lemma_last_dash(a: Seq<char>, b: Seq<char>) requires without(b, '-') ensures last_dash(a + (seq!['-'] + b)) == a.len() decreases b.len()
{
    let s = a + (seq!['-'] + b);
    if b.len() == 0 { assert(s.last() == '-'); } else {
        let d = b.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != '-' by { assert(d[i] == b[i]); }
        lemma_last_dash(a, d);
        assert(b[b.len() - 1] != '-');
        assert(s.drop_last() =~= a + (seq!['-'] + d));
    }
}
pub proof fn lemma_format(f: SdistFormat) ensures format_text(f) == "zip"@ ==> f is Zip, format_text(f) == "tar.gz"@ ==> f is TarGz, "zip"@ != "tar.gz"@ { reveal_strlit("zip"); reveal_strlit("tar.gz"); assert("zip"@.len() != "tar.gz"@.len()); }
pub proof fn sdist_round_trip(s: Seq<char>, x: Src)
    requires read_sdist(s) == Some(x)
    ensures read_sdist(print_sdist(x)) == Some(x)
{
    let (a, b, f) = sdist_parts(s)->Some_0;
    axiom_pkg(a); axiom_ver(b);
    let p = print_sdist(x);
    let t = a + (seq!['-'] + x.ver.shown());
    reveal_strlit("zip"); reveal_strlit("tar.gz"); reveal_strlit(".zip"); reveal_strlit(".tar.gz");
    assert(p =~= t + (seq!['.'] + format_text(f)));
    if f is Zip { assert(p.skip(p.len() - 4) =~= ".zip"@); assert(p.take(p.len() - 4) =~= t); }
    else {
        assert(p.skip(p.len() - 7) =~= ".tar.gz"@); assert(p.take(p.len() - 7) =~= t);
        if ends(p, ".zip"@) { assert(p[p.len() - 1] == 'z'); assert(p.skip(p.len() - 4)[3] == ".zip"@[3]); }
    }
    lemma_last_dash(a, x.ver.shown());
    assert(t.take(a.len() as int) =~= a); assert(t.skip(a.len() as int + 1) =~= x.ver.shown());
}
impl SdistName {
@fn src/vocab/artifact_name.rs | TryFrom<&str> for SdistName/fn:try_from
@sub `static SDIST_NAME_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^(.*)-([^-]*)\.(zip|tar\.gz)$").unwrap());` => `let sdist_name_re = re_sdist();`
@sub? `SDIST_NAME_RE` => `sdist_name_re`
@sub? `distribution: PackageName = $e.parse()?` => `distribution: PackageName = parse_pkg($e)?`
@sub? `version: Version = $e.parse()?` => `version: Version = parse_ver($e)?`
@strmatch
@params value
@sig pub fn try_from(value: &str) -> (r: Result<SdistName, Report>)
    ensures match read_sdist(value@) { Some(x) => r matches Ok(n) && src(n) == x, None => r is Err }
@at start
proof { if sdist_parts(value@) is Some { lemma_format(sdist_parts(value@)->Some_0.2); } }
@endfn
@fn src/vocab/artifact_name.rs | Display for SdistName/fn:fmt
@format
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + print_sdist(src(*self))
@at start
proof { reveal_strlit("-"); reveal_strlit("."); assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']); }
@endfn
}

// ---- any file name
pub open spec fn is_artifact(s: Seq<char>, n: ArtifactName) -> bool {
    if ends(s, ".whl"@) { n matches ArtifactName::Wheel(w) && read(s, ".whl"@, 3) == Some(wheel_bin(w)) }
    else if ends(s, ".pybi"@) { n matches ArtifactName::Pybi(w) && read(s, ".pybi"@, 1) == Some(pybi_bin(w)) }
    else { n matches ArtifactName::Sdist(x) && read_sdist(s) == Some(src(x)) }
}
pub open spec fn readable(s: Seq<char>) -> bool { if ends(s, ".whl"@) { read(s, ".whl"@, 3) is Some } else if ends(s, ".pybi"@) { read(s, ".pybi"@, 1) is Some } else { read_sdist(s) is Some } }
pub open spec fn text_of(n: ArtifactName) -> Seq<char> { match n { ArtifactName::Sdist(x) => print_sdist(src(x)), ArtifactName::Wheel(w) => print(wheel_bin(w), ".whl"@), ArtifactName::Pybi(w) => print(pybi_bin(w), ".pybi"@) } }
// the property: printing and reading again
pub proof fn artifact_round_trip(s: Seq<char>, n: ArtifactName, m: ArtifactName)
    requires is_artifact(s, n), is_artifact(text_of(n), m)
    ensures match (n, m) { (ArtifactName::Sdist(a), ArtifactName::Sdist(b)) => src(a) == src(b), (ArtifactName::Wheel(a), ArtifactName::Wheel(b)) => wheel_bin(a) == wheel_bin(b), (ArtifactName::Pybi(a), ArtifactName::Pybi(b)) => pybi_bin(a) == pybi_bin(b), _ => false }
{ lemma_readable_again(s, n); }
pub proof fn lemma_readable_again(s: Seq<char>, n: ArtifactName)
    requires is_artifact(s, n)
    ensures readable(text_of(n)), is_artifact(text_of(n), n)
{
    reveal_strlit(".whl"); reveal_strlit(".pybi"); reveal_strlit("zip"); reveal_strlit("tar.gz");
    let t = text_of(n);
    match n {
        ArtifactName::Wheel(w) => { round_trip(s, ".whl"@, 3, wheel_bin(w)); assert(t.skip(t.len() - 4) =~= ".whl"@); }
        ArtifactName::Pybi(w) => { round_trip(s, ".pybi"@, 1, pybi_bin(w)); assert(t.skip(t.len() - 5) =~= ".pybi"@); if ends(t, ".whl"@) { assert(t.skip(t.len() - 4)[3] == t.skip(t.len() - 5)[4]); } }
        ArtifactName::Sdist(x) => {
            sdist_round_trip(s, src(x));
            let f = x.format;
            assert(t.last() == format_text(f).last()); assert(t.last() == t[t.len() - 1]);
            if ends(t, ".whl"@) { assert(t.skip(t.len() - 4)[3] == ".whl"@[3]); }
            if ends(t, ".pybi"@) { assert(t.skip(t.len() - 5)[4] == ".pybi"@[4]); }
        }
    }
}
impl ArtifactName {
@fn src/vocab/artifact_name.rs | TryFrom<&str> for ArtifactName/fn:try_from
@sub? `value.ends_with($e)` => `ends_with(value, $e)`
@sub? `ArtifactName::Wheel(value.try_into()?)` => `ArtifactName::Wheel(WheelName::try_from(value)?)`
@sub? `ArtifactName::Pybi(value.try_into()?)` => `ArtifactName::Pybi(PybiName::try_from(value)?)`
@sub? `ArtifactName::Sdist(value.try_into()?)` => `ArtifactName::Sdist(SdistName::try_from(value)?)`
@params value
@sig pub fn try_from(value: &str) -> (r: Result<ArtifactName, Report>)
    ensures r is Ok <==> readable(value@), r matches Ok(n) ==> is_artifact(value@, n)
@endfn
@fn src/vocab/artifact_name.rs | Display for ArtifactName/fn:fmt
@sub? `write!(f, "{}", &inner)` => `inner.fmt(f)`
@params f
@sig pub fn fmt(&self, f: &mut Out) -> (r: Result<(), Report>)
    ensures r is Ok ==> final(f).v() == old(f).v() + text_of(*self)
@endfn
@fn src/vocab/artifact_name.rs | ArtifactName/fn:distribution
@sig pub fn distribution(&self) -> (r: &PackageName)
    ensures *r == (match *self { ArtifactName::Sdist(x) => x.distribution, ArtifactName::Wheel(x) => x.distribution, ArtifactName::Pybi(x) => x.distribution })
@endfn
@fn src/vocab/artifact_name.rs | ArtifactName/fn:version
@sig pub fn version(&self) -> (r: &Version)
    ensures *r == (match *self { ArtifactName::Sdist(x) => x.version, ArtifactName::Wheel(x) => x.version, ArtifactName::Pybi(x) => x.version })
@endfn
}

// ---- one entry per platform
pub open spec fn universal(t: Tag) -> bool { starts(t, "macosx_"@) && ends(t, "_universal2"@) }
pub open spec fn platforms(t: Tag) -> Seq<Tag> { if universal(t) { let p = t.take(t.len() - 11); seq![p + "_arm64"@, p + "_x86_64"@] } else { seq![t] } }
pub open spec fn all_platforms(v: Seq<Tag>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { all_platforms(v.drop_last()) + platforms(v.last()) } }
// v.iter().flat_map(f).collect(), for an f whose result for a text is a function of it
pub open spec fn flat(v: Seq<Tag>, f: spec_fn(Tag) -> Seq<Tag>) -> Seq<Tag> decreases v.len() { if v.len() == 0 { seq![] } else { flat(v.drop_last(), f) + f(v.last()) } }
pub fn flat_map_all<F: Fn(&String) -> Vec<String>>(v: &Vec<String>, f: F, Ghost(sf): Ghost<spec_fn(Tag) -> Seq<Tag>>) -> (r: Vec<String>)
    requires forall|s: &String| #[trigger] f.requires((s,)), forall|s: &String, o: Vec<String>| #[trigger] f.ensures((s,), o) ==> texts(o@) == sf(s@)
    ensures texts(r@) == flat(texts(v@), sf)
{
    let mut out: Vec<String> = Vec::new();
    let mut i: usize = 0;
    proof { assert(texts(out@) =~= flat(texts(v@).take(0), sf)); }
    while i < v.len()
        invariant i <= v@.len(), texts(out@) == flat(texts(v@).take(i as int), sf),
            forall|s: &String| #[trigger] f.requires((s,)), forall|s: &String, o: Vec<String>| #[trigger] f.ensures((s,), o) ==> texts(o@) == sf(s@),
        decreases v@.len() - i
    {
        let ghost o0 = texts(out@);
        let mut o = f(&v[i]);
        let ghost o1 = texts(o@);
        out.append(&mut o);
        proof {
            assert(texts(v@).take(i + 1).drop_last() =~= texts(v@).take(i as int)); assert(texts(v@).take(i + 1).last() == v@[i as int]@);
            assert(texts(out@) =~= o0 + o1);
        }
        i += 1;
    }
    proof { assert(texts(v@).take(v@.len() as int) =~= texts(v@)); }
    out
}
// v.into_iter().map(f).collect()
pub fn map_all<T, F: Fn(String) -> T>(v: Vec<String>, f: F) -> (r: Vec<T>)
    requires forall|s: String| #[trigger] f.requires((s,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{
    let ghost all = v@;
    let mut it = vec_iter(v);
    let mut out: Vec<T> = Vec::new();
    while it.more()
        invariant it.wf(), it.all@ == all, out@.len() == it.i@, forall|s: String| #[trigger] f.requires((s,)), forall|i: int| 0 <= i < it.i@ ==> f.ensures((all[i],), #[trigger] out@[i])
        decreases all.len() - it.i@
    {
        let x = it.take();
        let y = f(x);
        out.push(y);
    }
    out
}
pub proof fn lemma_flat(v: Seq<Tag>, f: spec_fn(Tag) -> Seq<Tag>) requires forall|t: Tag| #[trigger] f(t) == platforms(t) ensures flat(v, f) == all_platforms(v) decreases v.len() { if v.len() > 0 { lemma_flat(v.drop_last(), f); } }
#[verifier::external_body]
pub fn strip_end_opt<'a>(s: &'a str, e: &str) -> (r: Option<&'a str>) ensures match r { Some(t) => ends(s@, e@) && t@ == s@.take(s@.len() - e@.len()), None => !ends(s@, e@) } { unimplemented!() }
#[verifier::external_body]
pub fn clone_pybi(n: &PybiName) -> (r: PybiName) ensures r == *n { unimplemented!() }
#[verifier::external_body]
pub fn clone_name(n: &ArtifactName) -> (r: ArtifactName) ensures r == *n { unimplemented!() }
// the same interpreter archive, for one platform
pub open spec fn single(n: PybiName, t: Tag, a: ArtifactName) -> bool {
    a matches ArtifactName::Pybi(q) && q.distribution == n.distribution && q.version == n.version && q.build_number == n.build_number && q.build_name == n.build_name && texts(q.arch_tags@) == seq![t]
}
impl ArtifactName {
@fn src/vocab/artifact_name.rs | ArtifactName/fn:split_multiplatform_pybis
@sub? `.flat_map($c,)` => `.flat_map($c)`
@sub? `name.arch_tags.iter().flat_map($c).map($d).collect()` => `map_all(flat_map_all(&name.arch_tags, $c, Ghost(|t: Tag| platforms(t))), $d)`
@sub? `|tag| { if` => `|tag: &String| -> (r: Vec<String>) ensures texts(r@) == platforms(tag@) { proof { reveal_strlit("macosx_"); reveal_strlit("_universal2"); reveal_strlit("_arm64"); reveal_strlit("_x86_64"); } if`
@sub? `|tag| { ArtifactName` => `|tag: String| -> (r: ArtifactName) ensures single(*name, tag@, r) { ArtifactName`
@sub? `tag.starts_with($e)` => `starts_with(tag.as_str(), $e)`
@sub? `tag.ends_with($e)` => `ends_with(tag.as_str(), $e)`
@sub? `tag.strip_suffix($e)` => `strip_end_opt(tag.as_str(), $e)`
@sub? `tag.to_string()` => `to_text(tag.as_str())`
@sub? `name.clone()` => `clone_pybi(name)`
@sub? `self.clone()` => `clone_name(self)`
@format
@sig pub fn split_multiplatform_pybis(&self) -> (r: Vec<ArtifactName>)
    ensures match *self {
        ArtifactName::Pybi(n) => { let t = all_platforms(texts(n.arch_tags@)); r@.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> single(n, t[i], #[trigger] r@[i]) },
        _ => r@ == seq![*self],
    }
@at start
proof {
    assert forall|v: Vec<String>| v@.len() == 1 implies #[trigger] texts(v@) == seq![v@[0]@] by { assert(texts(v@) =~= seq![v@[0]@]); }
    assert forall|v: Vec<String>| v@.len() == 2 implies #[trigger] texts(v@) == seq![v@[0]@, v@[1]@] by { assert(texts(v@) =~= seq![v@[0]@, v@[1]@]); }
}
proof { match self { ArtifactName::Pybi(n) => { lemma_flat(texts(n.arch_tags@), |t: Tag| platforms(t)); } _ => {} } }
@endfn
}
}
fn main() {}
