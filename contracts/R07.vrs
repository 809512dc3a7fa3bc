@include contracts/common.vrs
@include contracts/fmt.vrs
verus! {
// ---- what the three patterns match (validated against the regex crate by the bounded part)
pub open spec fn us() -> Seq<char> { "_"@ }
pub open spec fn linux_tag(v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>) -> Seq<char> { v + "linux_"@ + a + us() + b + us() + arch }
pub open spec fn linux_parts(t: Seq<char>, v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>) -> bool {
    (v == "many"@ || v == "musl"@) && digits(a) && digits(b) && word(arch) && t == linux_tag(v, a, b, arch)
}
pub open spec fn legacy_parts(t: Seq<char>, w: Seq<char>, arch: Seq<char>) -> bool { (w == "2014"@ || w == "2010"@ || w == "1"@) && word(arch) && t == "manylinux"@ + w + us() + arch }
pub open spec fn mac_tag(a: Seq<char>, b: Seq<char>, arch: Seq<char>) -> Seq<char> { "macosx_"@ + a + us() + b + us() + arch }
pub open spec fn mac_parts(t: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>) -> bool { digits(a) && digits(b) && word(arch) && t == mac_tag(a, b, arch) }
#[verifier::external_body] pub struct ReLinux { x: u8 }
#[verifier::external_body] pub struct ReLegacy { x: u8 }
#[verifier::external_body] pub struct ReMac { x: u8 }
#[verifier::external_body] pub fn re_linux() -> (r: ReLinux) { unimplemented!() }
#[verifier::external_body] pub fn re_legacy() -> (r: ReLegacy) { unimplemented!() }
#[verifier::external_body] pub fn re_mac() -> (r: ReMac) { unimplemented!() }
impl ReLinux {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match r {
            Some(c) => c.g(1) is Some && c.g(2) is Some && c.g(3) is Some && c.g(4) is Some && linux_parts(s@, c.g(1)->Some_0, c.g(2)->Some_0, c.g(3)->Some_0, c.g(4)->Some_0),
            None => !is_linux(s@),
        }
    { unimplemented!() }
}
impl ReLegacy {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match r { Some(c) => c.g(1) is Some && c.g(2) is Some && legacy_parts(s@, c.g(1)->Some_0, c.g(2)->Some_0), None => !is_legacy(s@) }
    { unimplemented!() }
}
impl ReMac {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match r { Some(c) => c.g(1) is Some && c.g(2) is Some && c.g(3) is Some && mac_parts(s@, c.g(1)->Some_0, c.g(2)->Some_0, c.g(3)->Some_0), None => !is_mac(s@) }
    { unimplemented!() }
}
pub open spec fn is_linux(t: Seq<char>) -> bool { exists|v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>| linux_parts(t, v, a, b, arch) }
pub open spec fn is_legacy(t: Seq<char>) -> bool { exists|w: Seq<char>, arch: Seq<char>| legacy_parts(t, w, arch) }
pub open spec fn is_mac(t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, arch: Seq<char>| mac_parts(t, a, b, arch) }
@fn src/platform_tags/expand.rs | const:LINUX_RE
@sub `Regex::new(r"^(many|musl)linux_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap()` => `re_linux()`
@sig pub fn linux_re() -> (r: ReLinux)
@endfn
@fn src/platform_tags/expand.rs | const:LEGACY_MANYLINUX_RE
@sub `Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap()` => `re_legacy()`
@sig pub fn legacy_re() -> (r: ReLegacy)
@endfn
@fn src/platform_tags/expand.rs | const:MACOSX_RE
@sub `Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap()` => `re_mac()`
@sig pub fn mac_re() -> (r: ReMac)
@endfn

// ---- which tags a tag implies, best first
// the old names of glibc 2.17, 2.12 and 2.5
pub open spec fn alias(v: Seq<char>, major: int, minor: int, arch: Seq<char>) -> Seq<Seq<char>> {
    if v == "many"@ && major == 2 && minor == 17 { seq!["manylinux2014_"@ + arch] }
    else if v == "many"@ && major == 2 && minor == 12 { seq!["manylinux2010_"@ + arch] }
    else if v == "many"@ && major == 2 && minor == 5 { seq!["manylinux1_"@ + arch] }
    else { seq![] }
}
pub open spec fn linux_one(v: Seq<char>, major: int, minor: int, arch: Seq<char>) -> Seq<Seq<char>> { seq![linux_tag(v, dec(major), dec(minor), arch)] + alias(v, major, minor, arch) }
// minor versions from hi down to lo
pub open spec fn linux_list(v: Seq<char>, major: int, hi: int, lo: int, arch: Seq<char>) -> Seq<Seq<char>> decreases hi - lo + 1 {
    if hi < lo { seq![] } else { linux_list(v, major, hi, lo + 1, arch) + linux_one(v, major, lo, arch) }
}
// the formats that contain code for the architecture
pub open spec fn mac_arches(arch: Seq<char>) -> Seq<Seq<char>> {
    if arch == "x86_64"@ { seq!["x86_64"@, "universal2"@, "intel"@, "fat64"@, "fat3"@, "universal"@] }
    else if arch == "arm64"@ { seq!["arm64"@, "universal2"@] }
    else { seq![arch] }
}
// releases: 11 and later are numbered N.0, and 10.15 came before 11
pub open spec fn mac_vers(major: int, minor: int) -> Seq<(u32, u32)> {
    if major == 10 { Seq::new((minor + 1) as nat, |i: int| (10u32, (minor - i) as u32)) }
    else { Seq::new((major - 10) as nat, |i: int| ((major - i) as u32, 0u32)) + Seq::new(16, |i: int| (10u32, (15 - i) as u32)) }
}
pub open spec fn mac_row(v: (u32, u32), arches: Seq<Seq<char>>) -> Seq<Seq<char>> { arches.map_values(|a: Seq<char>| mac_tag(dec(v.0 as int), dec(v.1 as int), a)) }
pub open spec fn mac_list(vers: Seq<(u32, u32)>, arches: Seq<Seq<char>>) -> Seq<Seq<char>> decreases vers.len() {
    if vers.len() == 0 { seq![] } else { mac_list(vers.drop_last(), arches) + mac_row(vers.last(), arches) }
}
pub open spec fn fits(s: Seq<char>) -> bool { num(s) <= u32::MAX }
pub open spec fn small(t: Seq<char>) -> bool {
    (forall|v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] linux_parts(t, v, a, b, arch) ==> fits(a) && fits(b))
    && (forall|a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] mac_parts(t, a, b, arch) ==> fits(a) && fits(b))
}
pub open spec fn implied(t: Seq<char>, r: Seq<Seq<char>>) -> bool {
    if is_linux(t) { exists|v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] linux_parts(t, v, a, b, arch) && r == linux_list(v, num(a), num(b), 0, arch) }
    else if is_mac(t) { exists|a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] mac_parts(t, a, b, arch) && r == (if num(a) >= 10 { mac_list(mac_vers(num(a), num(b)), mac_arches(arch)) } else { seq![t] }) }
    else { r == seq![t] }
}
pub open spec fn modern(w: Seq<char>, arch: Seq<char>) -> Seq<char> {
    linux_tag("many"@, seq!['2'], if w == "2014"@ { seq!['1', '7'] } else if w == "2010"@ { seq!['1', '2'] } else { seq!['5'] }, arch)
}
pub proof fn lemma_unique(t: Seq<char>, v: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, v2: Seq<char>, a2: Seq<char>, b2: Seq<char>, c2: Seq<char>)
    requires linux_parts(t, v, a, b, c), linux_parts(t, v2, a2, b2, c2)
    ensures v == v2, a == a2, b == b2, c == c2
{
    reveal_strlit("many"); reveal_strlit("musl"); reveal_strlit("linux_"); reveal_strlit("_");
    assert(v =~= t.take(4)); assert(v2 =~= t.take(4));
    let n = a.len(); let n2 = a2.len();
    assert(t[10 + n as int] == '_'); assert(t[10 + n2 as int] == '_');
    if n < n2 { assert(t[10 + n as int] == a2[n as int]); } else if n2 < n { assert(t[10 + n2 as int] == a[n2 as int]); }
    assert(a =~= t.subrange(10, 10 + n as int)); assert(a2 =~= t.subrange(10, 10 + n as int));
    let m = b.len(); let m2 = b2.len(); let o = 11 + n as int;
    assert(t[o + m as int] == '_'); assert(t[o + m2 as int] == '_');
    if m < m2 { assert(t[o + m as int] == b2[m as int]); } else if m2 < m { assert(t[o + m2 as int] == b[m2 as int]); }
    assert(b =~= t.subrange(o, o + m as int)); assert(b2 =~= t.subrange(o, o + m as int));
    assert(c =~= t.skip(o + m as int + 1)); assert(c2 =~= t.skip(o + m as int + 1));
}

// (a..=b).rev().map(f)
pub fn rev_map<F: Fn(u32) -> (u32, u32)>(a: u32, b: u32, f: F) -> (r: Vec<(u32, u32)>)
    requires forall|i: u32| a <= i <= b ==> #[trigger] f.requires((i,))
    ensures r@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> f.ensures(((b - i) as u32,), #[trigger] r@[i])
{
    let mut out: Vec<(u32, u32)> = Vec::new();
    let mut left: u64 = if a <= b { (b - a) as u64 + 1 } else { 0 };
    while left > 0
        invariant left + out@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: u32| a <= i <= b ==> #[trigger] f.requires((i,)),
            forall|i: int| 0 <= i < out@.len() ==> f.ensures(((b - i) as u32,), #[trigger] out@[i])
        decreases left
    {
        left -= 1;
        let k = a + left as u32;
        out.push(f(k));
    }
    out
}
pub fn chain(mut a: Vec<(u32, u32)>, mut b: Vec<(u32, u32)>) -> (r: Vec<(u32, u32)>) ensures r@ == a@ + b@ { a.append(&mut b); a }
// vers.flat_map(|(a, b)| arches.iter().map(f))
pub fn cross<F: Fn(u32, u32, &str) -> String>(vers: Vec<(u32, u32)>, arches: &Vec<&str>, f: F) -> (r: Vec<String>)
    requires forall|a: u32, b: u32, c: &str| #[trigger] f.requires((a, b, c)), forall|a: u32, b: u32, c: &str, o: String| #[trigger] f.ensures((a, b, c), o) ==> o@ == mac_tag(dec(a as int), dec(b as int), c@)
    ensures texts(r@) == mac_list(vers@, strs(arches@))
{
    let mut out: Vec<String> = Vec::new();
    let mut i: usize = 0;
    while i < vers.len()
        invariant i <= vers@.len(), forall|a: u32, b: u32, c: &str| #[trigger] f.requires((a, b, c)), forall|a: u32, b: u32, c: &str, o: String| #[trigger] f.ensures((a, b, c), o) ==> o@ == mac_tag(dec(a as int), dec(b as int), c@),
            texts(out@) == mac_list(vers@.take(i as int), strs(arches@)),
        decreases vers@.len() - i
    {
        let ghost before = mac_list(vers@.take(i as int), strs(arches@));
        let ghost row = mac_row(vers@[i as int], strs(arches@));
        let (a, b) = vers[i];
        let mut j: usize = 0;
        proof { assert(before + row.take(0) =~= before); }
        while j < arches.len()
            invariant i < vers@.len(), j <= arches@.len(), (a, b) == vers@[i as int], forall|a: u32, b: u32, c: &str| #[trigger] f.requires((a, b, c)), forall|a: u32, b: u32, c: &str, o: String| #[trigger] f.ensures((a, b, c), o) ==> o@ == mac_tag(dec(a as int), dec(b as int), c@),
                row == mac_row(vers@[i as int], strs(arches@)), texts(out@) == before + row.take(j as int),
            decreases arches@.len() - j
        {
            let o = f(a, b, arches[j]);
            proof { assert(row[j as int] == o@); assert(texts(out@.push(o)) =~= texts(out@).push(o@)); assert(row.take(j + 1) =~= row.take(j as int).push(o@)); assert(before + row.take(j + 1) =~= (before + row.take(j as int)).push(o@)); }
            out.push(o);
            j += 1;
        }
        proof { assert(row.take(row.len() as int) =~= row); assert(vers@.take(i + 1).drop_last() =~= vers@.take(i as int)); }
        i += 1;
    }
    proof { assert(vers@.take(vers@.len() as int) =~= vers@); }
    out
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub proof fn lemma_num1(c: char) requires is_digit(c) ensures num(seq![c]) == c as int - '0' as int, fits(seq![c]), digits(seq![c])
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(num(Seq::<char>::empty()) == 0); assert(seq![c].last() == c); assert(num(seq![c]) == num(seq![c].drop_last()) * 10 + (c as int - '0' as int)); }
pub proof fn lemma_num2(c: char, d: char) requires is_digit(c), is_digit(d) ensures num(seq![c, d]) == (c as int - '0' as int) * 10 + (d as int - '0' as int), fits(seq![c, d]), digits(seq![c, d])
{ lemma_num1(c); assert(seq![c, d].drop_last() =~= seq![c]); assert(seq![c, d].last() == d); assert(num(seq![c, d]) == num(seq![c, d].drop_last()) * 10 + (d as int - '0' as int)); }
pub proof fn lemma_modern(w: Seq<char>, arch: Seq<char>)
    requires w == "2014"@ || w == "2010"@ || w == "1"@, word(arch)
    ensures small(modern(w, arch)), is_linux(modern(w, arch))
{
    let t = modern(w, arch);
    let b = if w == "2014"@ { seq!['1', '7'] } else if w == "2010"@ { seq!['1', '2'] } else { seq!['5'] };
    assert(linux_parts(t, "many"@, seq!['2'], b, arch));
    lemma_num1('2'); lemma_num1('1'); lemma_num1('5'); lemma_num2('1', '7'); lemma_num2('1', '2');
    assert forall|v: Seq<char>, a: Seq<char>, b2: Seq<char>, c: Seq<char>| #[trigger] linux_parts(t, v, a, b2, c) implies fits(a) && fits(b2) by { lemma_unique(t, v, a, b2, c, "many"@, seq!['2'], b, arch); }
    assert forall|a: Seq<char>, b2: Seq<char>, c: Seq<char>| #[trigger] mac_parts(t, a, b2, c) implies fits(a) && fits(b2) by { reveal_strlit("macosx_"); reveal_strlit("many"); assert(t[1] == 'a'); assert(t[2] == 'n'); assert(t[2] == 'c'); }
}
@fn src/platform_tags/expand.rs | fn:expand_platform_tag
@sub? `Cow::Borrowed($e)` => `to_text($e)`
@sub? `Cow::Owned($e)` => `$e`
@sub? `LEGACY_MANYLINUX_RE` => `legacy_re()`
@sub? `LINUX_RE` => `linux_re()`
@sub? `MACOSX_RE` => `mac_re()`
@sub? `tag.as_ref()` => `tag.as_str()`
@sub? `vec![tag.to_string()]` => `one(to_text(tag.as_str()))`
@sub? `= $e.parse().unwrap()` => `= parse_u32($e).unwrap()`
@sub? `for minor in (0..=$e).rev() {$B}` => `let mut left: u64 = $e as u64 + 1; while left > 0 { left -= 1; let minor = left as u32; $B }`
@sub? `($a..=$b).rev().map(|$x| $e)` => `rev_map($a, $b, |$x: u32| -> (r: (u32, u32)) ensures r == $e { $e })`
@sub? `= $a.chain($b)` => `= chain($a, $b)`
@sub? `all_vers.flat_map(|($a, $b)| { arches.iter().map(move |$c| $e) }).collect()` => `cross(all_vers, &arches, |$a: u32, $b: u32, $c: &str| -> (r: String) ensures r@ == mac_tag(dec($a as int), dec($b as int), $c@) { $e })`
@sub? `variant == $e {` => `str_eq(variant, $e) {`
@strmatch
@format
@params tag
@sig pub fn expand_platform_tag(tag: &str) -> (r: Vec<String>)
    requires small(tag@)
    ensures
        !is_legacy(tag@) ==> implied(tag@, texts(r@)),
        is_legacy(tag@) ==> exists|w: Seq<char>, arch: Seq<char>| #[trigger] legacy_parts(tag@, w, arch) && implied(modern(w, arch), texts(r@)),
@at after `let new_prefix = $e;`
proof { let w = which@; let a = arch@;
  reveal_strlit("manylinux_2_17"); reveal_strlit("manylinux_2_12"); reveal_strlit("manylinux_2_5"); reveal_strlit("many"); reveal_strlit("linux_"); reveal_strlit("_"); reveal_strlit("2014"); reveal_strlit("2010"); reveal_strlit("1");
  assert(new_prefix@ + us() + a =~= modern(w, a)); lemma_modern(w, a); }
@at before `if let Some(captures) = linux_re()`
let ghost t = tag@;
proof { assert(small(t)); assert(t == tag0 || exists|w: Seq<char>, arch: Seq<char>| #[trigger] legacy_parts(tag0, w, arch) && t == modern(w, arch)); }
@at start
let ghost tag0 = tag@;
@loop 1
    invariant left <= max_minor + 1, str_many(variant@), texts(tags@) == linux_list(variant@, major as int, max_minor as int, left as int, arch@)
    decreases left
@at loop 1 start
proof { assert forall|s: Seq<String>, x: String| #[trigger] texts(s.push(x)) == texts(s).push(x@) by { assert(texts(s.push(x)) =~= texts(s).push(x@)); } }
let ghost l0 = texts(tags@);
@at loop 1 end
proof { assert(texts(tags@) =~= l0 + linux_one(variant@, major as int, left as int, arch@)); }
@at loop 1 before
proof { assert(texts(tags@) =~= Seq::<Seq<char>>::empty()); }
@at loop 1 after
proof { assert(linux_parts(t, variant@, captures.g(2)->Some_0, captures.g(3)->Some_0, arch@)); assert(is_linux(t)); }
@at before `return cross`
proof {
    let a = captures.g(1)->Some_0; let b = captures.g(2)->Some_0; let c = arch@;
    assert(mac_parts(t, a, b, c));
    assert(!is_linux(t));
    assert(all_vers@ =~= mac_vers(num(a), num(b)));
    assert(strs(arches@) =~= mac_arches(c));
    assert(is_mac(t));
}
@endfn
pub open spec fn str_many(v: Seq<char>) -> bool { v == "many"@ || v == "musl"@ }
pub fn one(s: String) -> (r: Vec<String>) ensures texts(r@) == seq![s@] { let mut v = Vec::new(); v.push(s); proof { assert(texts(v@) =~= seq![s@]); } v }

// ---- the list has no duplicates and is exactly the set described
pub open spec fn from_minor(v: Seq<char>, major: int, hi: int, lo: int, arch: Seq<char>, x: Seq<char>) -> bool { exists|m: int| lo <= m <= hi && #[trigger] linux_one(v, major, m, arch).contains(x) }
pub proof fn lemma_linux_set(v: Seq<char>, major: int, hi: int, lo: int, arch: Seq<char>)
    ensures forall|x: Seq<char>| linux_list(v, major, hi, lo, arch).contains(x) <==> #[trigger] from_minor(v, major, hi, lo, arch, x)
    decreases hi - lo + 1
{
    if hi >= lo {
        lemma_linux_set(v, major, hi, lo + 1, arch);
        let a = linux_list(v, major, hi, lo + 1, arch); let b = linux_one(v, major, lo, arch);
        assert forall|x: Seq<char>| linux_list(v, major, hi, lo, arch).contains(x) <==> #[trigger] from_minor(v, major, hi, lo, arch, x) by {
            lemma_concat_has(a, b, x);
            assert(a.contains(x) == from_minor(v, major, hi, lo + 1, arch, x));
            if from_minor(v, major, hi, lo, arch, x) {
                let m = choose|m: int| lo <= m <= hi && #[trigger] linux_one(v, major, m, arch).contains(x);
                if m != lo { assert(from_minor(v, major, hi, lo + 1, arch, x)); }
            }
            if b.contains(x) { assert(from_minor(v, major, hi, lo, arch, x)); }
            if from_minor(v, major, hi, lo + 1, arch, x) { let m = choose|m: int| lo + 1 <= m <= hi && #[trigger] linux_one(v, major, m, arch).contains(x); assert(linux_one(v, major, m, arch).contains(x)); }
        }
    }
}
pub proof fn lemma_concat_has<A>(a: Seq<A>, b: Seq<A>, x: A) ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn lemma_concat_distinct<A>(a: Seq<A>, b: Seq<A>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: A| #[trigger] a.contains(x) ==> !b.contains(x)
    ensures (a + b).no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < (a + b).len() && 0 <= j < (a + b).len() && i != j implies #[trigger] (a + b)[i] != #[trigger] (a + b)[j] by {
        if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        if j < a.len() && i >= a.len() { assert(a.contains(a[j])); assert(b.contains(b[i - a.len()])); }
    }
}
pub proof fn lemma_linux_one(v: Seq<char>, major: int, m: int, arch: Seq<char>)
    requires str_many(v), major >= 0, m >= 0, word(arch)
    ensures linux_parts(linux_tag(v, dec(major), dec(m), arch), v, dec(major), dec(m), arch), linux_one(v, major, m, arch).no_duplicates(),
        forall|x: Seq<char>| #[trigger] linux_one(v, major, m, arch).contains(x) <==> x == linux_tag(v, dec(major), dec(m), arch) || alias(v, major, m, arch) == seq![x],
        alias(v, major, m, arch).len() == 1 ==> alias(v, major, m, arch)[0][9] != '_' && alias(v, major, m, arch)[0].len() > 9,
        linux_tag(v, dec(major), dec(m), arch)[9] == '_'
{
    lemma_dec(major); lemma_dec(m);
    reveal_strlit("many"); reveal_strlit("musl"); reveal_strlit("linux_"); reveal_strlit("_"); reveal_strlit("manylinux2014_"); reveal_strlit("manylinux2010_"); reveal_strlit("manylinux1_");
    let t = linux_tag(v, dec(major), dec(m), arch);
    assert(t[9] == '_');
    let al = alias(v, major, m, arch);
    let all = linux_one(v, major, m, arch);
    if al.len() == 1 { assert(al[0][9] != '_'); assert(all[0] == t); assert(all[1] == al[0]); }
    assert forall|x: Seq<char>| #[trigger] all.contains(x) <==> x == t || al == seq![x] by {
        lemma_concat_has(seq![t], al, x);
        assert(seq![t].contains(x) <==> x == t) by { assert(seq![t][0] == t); }
        if al.len() == 1 { assert(al =~= seq![al[0]]); assert(al.contains(x) <==> x == al[0]); if al == seq![x] { assert(al[0] == x); } } else if al == seq![x] { assert(al.len() == 1); }
    }
}
pub proof fn lemma_linux_apart(v: Seq<char>, major: int, m: int, n: int, arch: Seq<char>, x: Seq<char>)
    requires str_many(v), major >= 0, m >= 0, n >= 0, m != n, word(arch), linux_one(v, major, m, arch).contains(x), linux_one(v, major, n, arch).contains(x)
    ensures false
{
    lemma_linux_one(v, major, m, arch); lemma_linux_one(v, major, n, arch);
    lemma_dec(m); lemma_dec(n);
    let t = linux_tag(v, dec(major), dec(m), arch); let u = linux_tag(v, dec(major), dec(n), arch);
    if x == t && x == u { lemma_unique(x, v, dec(major), dec(m), arch, v, dec(major), dec(n), arch); }
    else if x == t { assert(alias(v, major, n, arch)[0] == x); }
    else if x == u { assert(alias(v, major, m, arch)[0] == x); }
    else {
        assert(alias(v, major, m, arch)[0] == x); assert(alias(v, major, n, arch)[0] == x);
        reveal_strlit("manylinux2014_"); reveal_strlit("manylinux2010_"); reveal_strlit("manylinux1_");
        assert(m == 17 ==> x[12] == '4'); assert(m == 17 ==> x[9] == '2'); assert(m == 12 ==> x[12] == '0' && x[9] == '2'); assert(m == 5 ==> x[9] == '1');
        assert(n == 17 ==> x[12] == '4'); assert(n == 17 ==> x[9] == '2'); assert(n == 12 ==> x[12] == '0' && x[9] == '2'); assert(n == 5 ==> x[9] == '1');
    }
}
pub proof fn lemma_linux_distinct(v: Seq<char>, major: int, hi: int, lo: int, arch: Seq<char>)
    requires str_many(v), major >= 0, lo >= 0, word(arch)
    ensures linux_list(v, major, hi, lo, arch).no_duplicates()
    decreases hi - lo + 1
{
    if hi >= lo {
        lemma_linux_distinct(v, major, hi, lo + 1, arch); lemma_linux_set(v, major, hi, lo + 1, arch); lemma_linux_one(v, major, lo, arch);
        let a = linux_list(v, major, hi, lo + 1, arch); let b = linux_one(v, major, lo, arch);
        assert forall|x: Seq<char>| #[trigger] a.contains(x) implies !b.contains(x) by {
            assert(from_minor(v, major, hi, lo + 1, arch, x));
            let m = choose|m: int| lo + 1 <= m <= hi && #[trigger] linux_one(v, major, m, arch).contains(x);
            if b.contains(x) { lemma_linux_apart(v, major, m, lo, arch, x); }
        }
        lemma_concat_distinct(a, b);
    }
}
pub proof fn lemma_mac_unique(a: Seq<char>, b: Seq<char>, c: Seq<char>, a2: Seq<char>, b2: Seq<char>, c2: Seq<char>)
    requires digits(a), digits(b), digits(a2), digits(b2), mac_tag(a, b, c) == mac_tag(a2, b2, c2)
    ensures a == a2, b == b2, c == c2
{
    reveal_strlit("macosx_"); reveal_strlit("_");
    let t = mac_tag(a, b, c);
    let n = a.len(); let n2 = a2.len();
    assert(t[7 + n as int] == '_'); assert(t[7 + n2 as int] == '_');
    if n < n2 { assert(t[7 + n as int] == a2[n as int]); } else if n2 < n { assert(t[7 + n2 as int] == a[n2 as int]); }
    assert(a =~= t.subrange(7, 7 + n as int)); assert(a2 =~= t.subrange(7, 7 + n as int));
    let m = b.len(); let m2 = b2.len(); let o = 8 + n as int;
    assert(t[o + m as int] == '_'); assert(t[o + m2 as int] == '_');
    if m < m2 { assert(t[o + m as int] == b2[m as int]); } else if m2 < m { assert(t[o + m2 as int] == b[m2 as int]); }
    assert(b =~= t.subrange(o, o + m as int)); assert(b2 =~= t.subrange(o, o + m as int));
    assert(c =~= t.skip(o + m as int + 1)); assert(c2 =~= t.skip(o + m as int + 1));
}
pub open spec fn mac_has(vers: Seq<(u32, u32)>, arches: Seq<Seq<char>>, x: Seq<char>) -> bool {
    exists|i: int, j: int| 0 <= i < vers.len() && 0 <= j < arches.len() && x == #[trigger] mac_tag(dec(vers[i].0 as int), dec(vers[i].1 as int), arches[j])
}
pub proof fn lemma_mac_set(vers: Seq<(u32, u32)>, arches: Seq<Seq<char>>)
    ensures forall|x: Seq<char>| mac_list(vers, arches).contains(x) <==> #[trigger] mac_has(vers, arches, x)
    decreases vers.len()
{
    if vers.len() > 0 {
        let p = vers.drop_last(); let n = vers.len() - 1;
        lemma_mac_set(p, arches);
        let a = mac_list(p, arches); let b = mac_row(vers.last(), arches);
        assert forall|x: Seq<char>| mac_list(vers, arches).contains(x) <==> #[trigger] mac_has(vers, arches, x) by {
            lemma_concat_has(a, b, x);
            assert(a.contains(x) == mac_has(p, arches, x));
            if b.contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(x == mac_tag(dec(vers[n].0 as int), dec(vers[n].1 as int), arches[j])); }
            if mac_has(p, arches, x) { let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < arches.len() && x == #[trigger] mac_tag(dec(p[i].0 as int), dec(p[i].1 as int), arches[j]); assert(x == mac_tag(dec(vers[i].0 as int), dec(vers[i].1 as int), arches[j])); }
            if mac_has(vers, arches, x) {
                let (i, j) = choose|i: int, j: int| 0 <= i < vers.len() && 0 <= j < arches.len() && x == #[trigger] mac_tag(dec(vers[i].0 as int), dec(vers[i].1 as int), arches[j]);
                if i == n { assert(b[j] == x); } else { assert(x == mac_tag(dec(p[i].0 as int), dec(p[i].1 as int), arches[j])); }
            }
        }
    }
}
pub proof fn lemma_mac_distinct(vers: Seq<(u32, u32)>, arches: Seq<Seq<char>>)
    requires vers.no_duplicates(), arches.no_duplicates()
    ensures mac_list(vers, arches).no_duplicates()
    decreases vers.len()
{
    if vers.len() > 0 {
        let p = vers.drop_last(); let n = vers.len() - 1;
        lemma_mac_distinct(p, arches); lemma_mac_set(p, arches);
        let a = mac_list(p, arches); let b = mac_row(vers.last(), arches);
        let (v0, v1) = vers.last();
        lemma_dec(v0 as int); lemma_dec(v1 as int);
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies #[trigger] b[i] != #[trigger] b[j] by {
            if b[i] == b[j] { lemma_mac_unique(dec(v0 as int), dec(v1 as int), arches[i], dec(v0 as int), dec(v1 as int), arches[j]); }
        }
        assert forall|x: Seq<char>| #[trigger] a.contains(x) implies !b.contains(x) by {
            assert(mac_has(p, arches, x));
            let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < arches.len() && x == #[trigger] mac_tag(dec(p[i].0 as int), dec(p[i].1 as int), arches[j]);
            if b.contains(x) {
                let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
                lemma_dec(p[i].0 as int); lemma_dec(p[i].1 as int);
                lemma_mac_unique(dec(v0 as int), dec(v1 as int), arches[k], dec(p[i].0 as int), dec(p[i].1 as int), arches[j]);
                assert(vers[n] == vers[i]);
            }
        }
        lemma_concat_distinct(a, b);
    }
}
pub proof fn lemma_mac_vers(major: int, minor: int) requires 10 <= major <= u32::MAX, 0 <= minor <= u32::MAX ensures mac_vers(major, minor).no_duplicates()
{
    let v = mac_vers(major, minor);
    if major == 10 {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies #[trigger] v[i] != #[trigger] v[j] by { assert(v[i].1 == minor - i); assert(v[j].1 == minor - j); }
    } else {
        let a = Seq::new((major - 10) as nat, |i: int| ((major - i) as u32, 0u32)); let b = Seq::new(16, |i: int| (10u32, (15 - i) as u32));
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies #[trigger] a[i] != #[trigger] a[j] by { assert(a[i].0 == major - i); assert(a[j].0 == major - j); }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies #[trigger] b[i] != #[trigger] b[j] by { assert(b[i].1 == 15 - i); assert(b[j].1 == 15 - j); }
        assert forall|x: (u32, u32)| #[trigger] a.contains(x) implies !b.contains(x) by { assert(x.0 > 10); if b.contains(x) { assert(x.0 == 10); } }
        lemma_concat_distinct(a, b);
    }
}
pub proof fn lemma_mac_arches(arch: Seq<char>) ensures mac_arches(arch).no_duplicates()
{
    reveal_strlit("x86_64"); reveal_strlit("universal2"); reveal_strlit("intel"); reveal_strlit("fat64"); reveal_strlit("fat3"); reveal_strlit("universal"); reveal_strlit("arm64");
    let s = mac_arches(arch);
    if arch == "x86_64"@ { assert(s[0].len() == 6 && s[1].len() == 10 && s[2].len() == 5 && s[3].len() == 5 && s[4].len() == 4 && s[5].len() == 9); assert(s[2][0] == 'i'); assert(s[3][0] == 'f'); }
    else if arch == "arm64"@ { assert(s[0].len() == 5); assert(s[1].len() == 10); }
}
pub proof fn lemma_implied_distinct(t: Seq<char>, r: Seq<Seq<char>>)
    requires small(t), implied(t, r)
    ensures r.no_duplicates(), r.len() > 0, r[0] == t || is_linux(t) || is_mac(t)
{
    if is_linux(t) {
        let (v, a, b, arch) = choose|v: Seq<char>, a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] linux_parts(t, v, a, b, arch) && r == linux_list(v, num(a), num(b), 0, arch);
        lemma_num_nonneg(a); lemma_num_nonneg(b);
        lemma_linux_distinct(v, num(a), num(b), 0, arch);
    } else if is_mac(t) {
        let (a, b, arch) = choose|a: Seq<char>, b: Seq<char>, arch: Seq<char>| #[trigger] mac_parts(t, a, b, arch) && r == (if num(a) >= 10 { mac_list(mac_vers(num(a), num(b)), mac_arches(arch)) } else { seq![t] });
        lemma_num_nonneg(a); lemma_num_nonneg(b);
        if num(a) >= 10 { lemma_mac_vers(num(a), num(b)); lemma_mac_arches(arch); lemma_mac_distinct(mac_vers(num(a), num(b)), mac_arches(arch)); assert(mac_vers(num(a), num(b)).len() > 0); }
    }
}
pub proof fn lemma_num_nonneg(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) ensures num(s) >= 0 decreases s.len() { if s.len() > 0 { assert(is_digit(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i]) by { assert(is_digit(s[i])); } lemma_num_nonneg(s.drop_last()); } }

// ---- tag sets keep the order of first insertion
pub open spec fn add(s: Seq<Seq<char>>, t: Seq<char>) -> Seq<Seq<char>> { if s.contains(t) { s } else { s.push(t) } }
pub open spec fn add_all(s: Seq<Seq<char>>, ts: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ts.len() { if ts.len() == 0 { s } else { add(add_all(s, ts.drop_last()), ts.last()) } }
pub proof fn lemma_add_all_new(ts: Seq<Seq<char>>) requires ts.no_duplicates() ensures add_all(seq![], ts) == ts decreases ts.len()
{
    if ts.len() > 0 {
        let p = ts.drop_last();
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies #[trigger] p[i] != #[trigger] p[j] by { assert(ts[i] != ts[j]); }
        lemma_add_all_new(p);
        if p.contains(ts.last()) { let i = choose|i: int| 0 <= i < p.len() && p[i] == ts.last(); assert(ts[i] == ts[ts.len() - 1]); }
        assert(p.push(ts.last()) =~= ts);
    } else { assert(ts =~= seq![]); }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { x: Vec<T> }
impl IndexSet<String> {
    pub uninterp spec fn v(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, s: String) -> (r: bool) ensures final(self).v() == add(old(self).v(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn items(&self) -> (r: Vec<String>) ensures texts(r@) == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: &str) requires self.v().len() > 0 ensures r@ == self.v()[0] { unimplemented!() }
}
pub fn tag_set(v: Vec<String>) -> (r: IndexSet<String>) ensures r.v() == add_all(seq![], texts(v@))
{
    let mut out = IndexSet::new();
    let ghost all = texts(v@);
    let ghost v0 = v@;
    let mut it = vec_iter(v);
    proof { assert(all.take(0) =~= Seq::<Seq<char>>::empty()); }
    while it.more()
        invariant it.wf(), it.all@ == v0, all == texts(v0), out.v() == add_all(seq![], all.take(it.i@ as int))
        decreases v0.len() - it.i@
    {
        proof { let k = it.i@ as int; assert(all.take(k + 1).drop_last() =~= all.take(k)); assert(all.take(k + 1).last() == all[k]); }
        let s = it.take();
        out.insert(s);
    }
    proof { assert(all.take(all.len() as int) =~= all); }
    out
}
pub open spec fn dash_platform() -> Seq<char> { "-PLATFORM"@ }
pub open spec fn is_template(t: Seq<char>) -> bool { exists|p: Seq<char>| t == #[trigger] (p + dash_platform()) }
// the tags one line of the interpreter's metadata stands for
pub open spec fn instances(t: Seq<char>, tags: Seq<Seq<char>>) -> Seq<Seq<char>> {
    if is_template(t) { tags.map_values(|p: Seq<char>| t.take(t.len() - dash_platform().len()) + "-"@ + p) } else { seq![t] }
}
pub open spec fn combined(ts: Seq<Seq<char>>, tags: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ts.len() {
    if ts.len() == 0 { seq![] } else { add_all(combined(ts.drop_last(), tags), instances(ts.last(), tags)) }
}
#[verifier::external_body]
pub fn strip<'a>(s: &'a str, suffix: &str) -> (r: Option<&'a str>)
    ensures match r { Some(p) => s@ == p@ + suffix@, None => forall|p: Seq<char>| s@ != #[trigger] (p + suffix@) }
{ unimplemented!() }
@type src/platform_tags/platform.rs | type:PybiPlatform ;
@type src/platform_tags/platform.rs | type:WheelPlatform ;
pub struct PybiCoreMetadata { pub tags: Vec<String> }
impl PybiPlatform {
    pub open spec fn list(&self) -> Seq<Seq<char>> { self.tags.v() }
@fn src/platform_tags/platform.rs | PybiPlatform/fn:new
@sub? `tags: $e.into_iter().collect()` => `tags: tag_set($e)`
@sig pub fn new(core_tag: &str) -> (r: PybiPlatform)
    requires small(core_tag@)
    ensures
        !is_legacy(core_tag@) ==> implied(core_tag@, r.list()),
        is_legacy(core_tag@) ==> exists|w: Seq<char>, arch: Seq<char>| #[trigger] legacy_parts(core_tag@, w, arch) && implied(modern(w, arch), r.list()),
        r.list().no_duplicates(), r.list().len() > 0
@at start
proof {
    assert forall|l: Seq<Seq<char>>| #[trigger] implied(core_tag@, l) implies add_all(seq![], l) == l && l.no_duplicates() && l.len() > 0 by { lemma_implied_distinct(core_tag@, l); lemma_add_all_new(l); }
    assert forall|w: Seq<char>, arch: Seq<char>, l: Seq<Seq<char>>| legacy_parts(core_tag@, w, arch) && #[trigger] implied(modern(w, arch), l) implies add_all(seq![], l) == l && l.no_duplicates() && l.len() > 0 by { lemma_modern(w, arch); lemma_implied_distinct(modern(w, arch), l); lemma_add_all_new(l); }
}
@endfn
@fn src/platform_tags/platform.rs | PybiPlatform/fn:core_tag
@sub? `&self.tags[0]` => `self.tags.first()`
@sig pub fn core_tag(&self) -> (r: &str)
    requires self.list().len() > 0
    ensures r@ == self.list()[0]
@endfn
@fn src/platform_tags/platform.rs | PybiPlatform/fn:wheel_platform
@sub? `&self.tags {` => `self.tags.items() {`
@sub? `&metadata.tags {` => `each(&metadata.tags) {`
@sub? `= $e.strip_suffix($p)` => `= strip($e, $p)`
@sub? `wheel_tag_template.into()` => `to_text(wheel_tag_template)`
@format
@sig pub fn wheel_platform(&self, metadata: &PybiCoreMetadata) -> (r: Result<WheelPlatform, Report>)
    ensures r is Ok, r->Ok_0.tags.v() == combined(texts(metadata.tags@), self.list())
@at start
let ghost ts = texts(metadata.tags@);
proof { reveal_strlit("-PLATFORM"); assert(ts.take(0) =~= Seq::<Seq<char>>::empty()); }
@at loop 1 start
let ghost n = it.index@;
let ghost before = combined(ts.take(n), self.list());
let ghost inst = instances(wheel_tag_template@, self.list());
proof { assert(wheel_tag_template@ == strs(it.seq())[n]); assert(ts.take(n + 1).drop_last() =~= ts.take(n)); assert(ts.take(n + 1).last() == wheel_tag_template@); assert(inst.take(0) =~= Seq::<Seq<char>>::empty()); }
@at loop 2 start
proof {
    let k = it2.index@; let t = wheel_tag_template@;
    assert(is_template(t)); assert(t.take(t.len() - dash_platform().len()) =~= prefix@);
    assert(platform_tag@ == texts(it2.seq())[k]);
    assert(inst.take(k + 1).drop_last() =~= inst.take(k)); assert(inst.take(k + 1).last() == prefix@ + "-"@ + platform_tag@);
}
@at loop 2 after
proof { assert(is_template(wheel_tag_template@)); assert(inst.take(inst.len() as int) =~= inst); }
@at loop 1 end
proof { if !is_template(wheel_tag_template@) { assert(inst.drop_last() =~= Seq::<Seq<char>>::empty()); assert(add_all(before, inst.drop_last()) == before); } assert(combined(ts.take(n + 1), self.list()) == add_all(before, inst)); }
@at loop 1 after
proof { assert(ts.take(ts.len() as int) =~= ts); }
@loop 1 iter=it
    invariant ts == strs(it.seq()), ts == texts(metadata.tags@), wheel_tags.v() == combined(ts.take(it.index@), self.list())
@loop 2 iter=it2
    invariant wheel_tag_template@ == prefix@ + dash_platform(), texts(it2.seq()) == self.list(), inst == instances(wheel_tag_template@, self.list()), wheel_tags.v() == add_all(before, inst.take(it2.index@))
@endfn
}
#[verifier::external_body]
pub fn each<'a>(v: &'a Vec<String>) -> (r: Vec<&'a str>) ensures strs(r@) == texts(v@) { unimplemented!() }
}
fn main() {}
