@include contracts/common.vrs
@include contracts/fields.vrs
@note the grammar of metadata files, rule by rule
verus! {
pub proof fn lemma_ends(s: S)
    ensures
        starts(s, "\r\n"@) || starts(s, "\r"@) || starts(s, "\n"@) <==> eol(s) > 0,
        starts(s, "\r\n"@) <==> eol(s) == 2, eol(s) <= s.len(), 0 <= eol(s) <= 2, "\r\n"@.len() == 2, "\r"@.len() == 1, "\n"@.len() == 1,
        starts(s, ":"@) <==> s.len() > 0 && s[0] == ':', ":"@.len() == 1,
{
    reveal_strlit("\r\n"); reveal_strlit("\r"); reveal_strlit("\n"); reveal_strlit(":");
    let (a, b, c, d) = ("\r\n"@, "\r"@, "\n"@, ":"@);
    assert(a[0] == '\r' && a[1] == '\n' && b[0] == '\r' && c[0] == '\n' && d[0] == ':');
    if s.len() > 0 {
        assert(s.take(1) =~= b <==> s[0] == '\r'); assert(s.take(1) =~= c <==> s[0] == '\n'); assert(s.take(1) =~= d <==> s[0] == ':');
        if s.len() > 1 { assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]); assert(s.take(2) =~= a <==> s[0] == '\r' && s[1] == '\n'); }
    }
}
pub proof fn lemma_lens(s: S) ensures 0 <= gaps(s) <= s.len(), 0 <= name_len(s) <= s.len(), 0 <= value_len(s) <= s.len() decreases s.len()
{
    if s.len() > 0 {
        lemma_lens(s.skip(1));
        if eol(s) > 0 && s.len() > eol(s) { lemma_lens(s.skip(eol(s) + 1)); }
    }
}
pub open spec fn line_len(s: S) -> int decreases s.len() { if s.len() > 0 && eol(s) == 0 { 1 + line_len(s.skip(1)) } else { 0 } }
pub proof fn lemma_line(s: S) ensures 0 <= line_len(s) <= s.len(), value_len(s) == line_len(s) + value_len(s.skip(line_len(s))), s.len() == line_len(s) || eol(s.skip(line_len(s))) > 0 decreases s.len()
{
    if s.len() > 0 && eol(s) == 0 { lemma_line(s.skip(1)); lemma_skips(s, 1, line_len(s.skip(1))); } else { assert(s.skip(0) =~= s); }
}
pub open spec fn pair_texts(v: Seq<(String, String)>) -> Seq<(S, S)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }

@fn peg:src/vocab/rfc822ish.rs | fn:rule_line_ending
@params input pos
@sig pub fn rule_line_ending(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => eol(input@.skip(pos as int)) > 0 && q == pos + eol(input@.skip(pos as int)) && q <= input@.len() && input@.skip(q as int) == input@.skip(pos as int).skip(q - pos), None => eol(input@.skip(pos as int)) == 0 }
@at start
proof { lemma_ends(input@.skip(pos as int)); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_field_name
@params input pos
@sig pub fn rule_field_name<'input>(input: &'input Text, pos: usize) -> (r: Option<(&'input str, usize)>)
    requires pos <= input@.len()
    ensures match r { Some((n, q)) => q == pos + name_len(input@.skip(pos as int)) && pos < q <= input@.len() && n@ == input@.skip(pos as int).take(q - pos) && input@.skip(q as int) == input@.skip(pos as int).skip(q - pos), None => name_len(input@.skip(pos as int)) == 0 }
@at start
proof { lemma_lens(input@.skip(pos as int)); if pos < input@.len() { lemma_skips(input@, pos as int, 1); } }
@loop 1
    invariant
        pos < q1 <= input@.len(), pos <= input@.len(),
        name_len(input@.skip(pos as int)) == q1 - pos + name_len(input@.skip(q1 as int)),
        more1 || name_len(input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_field_separator
@params input pos
@sig pub fn rule_field_separator(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((_, q)) => input@.skip(pos as int).len() > 0 && input@.skip(pos as int)[0] == ':' && pos < q <= input@.len() && input@.skip(q as int) == value_of(input@.skip(pos + 1)), None => input@.skip(pos as int).len() == 0 || input@.skip(pos as int)[0] != ':' }
@at start
proof { lemma_ends(input@.skip(pos as int)); if pos < input@.len() { lemma_lens(input@.skip(pos + 1)); } }
@loop 1
    invariant
        pos < q1 <= input@.len(),
        gaps(input@.skip(pos + 1)) == q1 - pos - 1 + gaps(input@.skip(q1 as int)),
        more1 || gaps(input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { lemma_skips(input@, pos + 1, q1 - pos - 1); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_field_value_piece
@params input pos
@sig pub fn rule_field_value_piece(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures r is Some, pos <= r->Some_0.1 <= input@.len(), r->Some_0.1 - pos == line_len(input@.skip(pos as int)), input@.skip(r->Some_0.1 as int) == input@.skip(pos as int).skip(r->Some_0.1 - pos)
@loop 1
    invariant
        pos <= q1 <= input@.len(),
        line_len(input@.skip(pos as int)) == q1 - pos + line_len(input@.skip(q1 as int)),
        more1 || line_len(input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_continuation_line_ending
@params input pos
@sig pub fn rule_continuation_line_ending(input: &Text, pos: usize) -> (r: Option<((), usize)>)
    requires pos <= input@.len()
    ensures ({ let s = input@.skip(pos as int); match r {
        Some((_, q)) => eol(s) > 0 && s.len() > eol(s) && gap(s[eol(s)]) && q == pos + eol(s) + 1 && q <= input@.len() && input@.skip(q as int) == s.skip(eol(s) + 1),
        None => eol(s) == 0 || s.len() <= eol(s) || !gap(s[eol(s)]) } })
@at start
proof { let s = input@.skip(pos as int); lemma_ends(s); lemma_skips(input@, pos as int, eol(s)); if s.len() > eol(s) { lemma_skips(input@, pos as int, eol(s) + 1); } }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_field_value
@params input pos
@sig pub fn rule_field_value<'input>(input: &'input Text, pos: usize) -> (r: Option<(&'input str, usize)>)
    requires pos <= input@.len()
    ensures r is Some, ({ let (v, q) = r->Some_0; let s = input@.skip(pos as int); pos <= q <= input@.len() && q - pos == value_len(s) && v@ == s.take(value_len(s)) && input@.skip(q as int) == s.skip(value_len(s)) })
@at start
proof { lemma_line(input@.skip(pos as int)); lemma_lens(input@.skip(pos as int)); }
@loop 1
    invariant
        pos <= q1 <= input@.len(),
        value_len(input@.skip(pos as int)) == q1 - pos + value_len(input@.skip(q1 as int)),
        input@.skip(q1 as int).len() == 0 || eol(input@.skip(q1 as int)) > 0,
        more1 || value_len(input@.skip(q1 as int)) == 0,
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
proof { let s = input@.skip(q1 as int); lemma_ends(s); if s.len() > eol(s) { lemma_line(s.skip(eol(s) + 1)); } }
@at loop 1 after
proof { lemma_skips(input@, pos as int, q1 - pos); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_field
@params input pos
@sig pub fn rule_field(input: &Text, pos: usize) -> (r: Option<((String, String), usize)>)
    requires pos <= input@.len()
    ensures match r { Some((f, q)) => pos < q <= input@.len() && one_field(input@.skip(pos as int)) == Some(((f.0@, f.1@), input@.skip(q as int))), None => one_field(input@.skip(pos as int)) is None }
@at start
proof { let s = input@.skip(pos as int); lemma_lens(s); let n = name_len(s); lemma_skips(input@, pos as int, n); if n < s.len() { lemma_skips(input@, pos as int, n + 1); } }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_fields
@params input pos
@sig pub fn rule_fields(input: &Text, pos: usize) -> (r: Option<(Vec<(String, String)>, usize)>)
    requires pos <= input@.len()
    ensures r is Some, pos <= r->Some_0.1 <= input@.len(), pair_texts(r->Some_0.0@) == all_fields(input@.skip(pos as int)).0, input@.skip(r->Some_0.1 as int) == all_fields(input@.skip(pos as int)).1
@loop 1
    invariant
        pos < q1 <= input@.len(), one_field(input@.skip(pos as int)) is Some,
        pair_texts(vs1@) + more_fields(input@.skip(q1 as int)).0 == all_fields(input@.skip(pos as int)).0,
        more_fields(input@.skip(q1 as int)).1 == all_fields(input@.skip(pos as int)).1,
        more1 || more_fields(input@.skip(q1 as int)) == (Seq::<(S, S)>::empty(), input@.skip(q1 as int)),
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 start
let ghost had = vs1@; let ghost q0 = q1;
@at loop 1 end
proof { if vs1@.len() > had.len() { assert(pair_texts(vs1@) =~= pair_texts(had) + seq![(vs1@.last().0@, vs1@.last().1@)]); assert(pair_texts(vs1@) + more_fields(input@.skip(q1 as int)).0 =~= pair_texts(had) + more_fields(input@.skip(q0 as int)).0); } }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_trailing_body
@params input pos
@sig pub fn rule_trailing_body(input: &Text, pos: usize) -> (r: Option<(String, usize)>)
    requires pos <= input@.len()
    ensures ({ let s = input@.skip(pos as int); let t = s.skip(eol(s)); match r { Some((b, q)) => eol(s) > 0 && eol(t) > 0 && q == input@.len() && b@ == t.skip(eol(t)), None => eol(s) == 0 || eol(t) == 0 } })
@loop 1
    invariant p1_2 <= q1 <= input@.len(), more1 || q1 == input@.len(),
    decreases input@.len() - q1 + (if more1 { 1int } else { 0int })
@at loop 1 after
proof { let s = input@.skip(p1_2 as int); assert(s.take(q1 - p1_2) =~= s); }
@endfn
@fn peg:src/vocab/rfc822ish.rs | fn:rule_rfc822ish
@sub? `fields.entry(name).or_default().push(value)` => `fields.put(name, value)`
@params input pos
@sig pub fn rule_rfc822ish(input: &Text, pos: usize) -> (r: Option<(RFC822ish, usize)>)
    requires pos <= input@.len()
    ensures r is Some, ({ let (v, q) = r->Some_0; let (f, e) = all_fields(input@.skip(pos as int)); v.fields.m() == collected(f) && q <= input@.len() && (q == input@.len() <==> body_of(e) is Some) && (body_of(e) matches Some(b) ==> (match v.body { Some(t) => Some(t@), None => None }) == b) })
@at start
let ghost fs = all_fields(input@.skip(pos as int)).0;
proof { let e = all_fields(input@.skip(pos as int)).1; lemma_ends(e); lemma_ends(e.skip(eol(e))); reveal_with_fuel(collected, 2); assert(fs.take(0) =~= seq![]); }
@loop 1 iter=it
    invariant fields.m() == collected(pair_texts(it.seq()).take(it.index())),
@at loop 1 start
proof { let v = pair_texts(it.seq()); let i = it.index(); assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v[i] == (it.seq()[i].0@, it.seq()[i].1@)); }
@at loop 1 after
proof { let v = fs; assert(v.take(v.len() as int) =~= v); }
@endfn
impl RFC822ish {
@fn src/vocab/rfc822ish.rs | RFC822ish/fn:parse
@sub? `rfc822ish_parser::rfc822ish(` => `whole_file(`
@params input
@sig pub fn parse(input: &str) -> (r: Result<RFC822ish, Report>)
    ensures r is Ok <==> spec_fields(input@) is Some, r is Ok ==> Some(r->Ok_0.fields.m()) == spec_fields(input@),
        r matches Ok(v) ==> Some(match v.body { Some(t) => Some(t@), None => None }) == body_of(all_fields(input@).1)
@endfn
}
// peg: the whole text must match
pub fn whole_file(input: &str) -> (r: Result<RFC822ish, Report>)
    ensures r is Ok <==> spec_fields(input@) is Some, r is Ok ==> Some(r->Ok_0.fields.m()) == spec_fields(input@),
        r matches Ok(v) ==> Some(match v.body { Some(t) => Some(t@), None => None }) == body_of(all_fields(input@).1)
{
    let t = Text::new(input);
    proof { assert(input@.skip(0) =~= input@); }
    match rule_rfc822ish(&t, 0) { Some((v, q)) => if q == t.len() { Ok(v) } else { Err(verr()) }, None => Err(verr()) }
}
}
fn main() {}
