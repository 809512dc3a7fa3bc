verus! {
// ---- property text (PEP 503/508): which texts are project names, and their normalized form
pub open spec fn alnum(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || is_digit(c) }
pub open spec fn sep(c: char) -> bool { c == '-' || c == '_' || c == '.' }
pub open spec fn project_name(s: Seq<char>) -> bool { s.len() > 0 && alnum(s[0]) && alnum(s.last()) && forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || sep(s[i]) }
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn lowered(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
// every run of separators replaced by one '-'
pub open spec fn dashed(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else if !sep(s.last()) { dashed(s.drop_last()).push(s.last()) }
    else if s.len() > 1 && sep(s[s.len() - 2]) { dashed(s.drop_last()) } else { dashed(s.drop_last()).push('-') }
}
pub open spec fn normal(s: Seq<char>) -> Seq<char> { lowered(dashed(s)) }
pub proof fn lemma_lower(c: char) ensures sep(lower(c)) <==> sep(c), c == '-' <==> lower(c) == '-', lower(lower(c)) == lower(c), alnum(lower(c)) <==> alnum(c), !('A' <= lower(c) <= 'Z')
{ if 'A' <= c <= 'Z' { let d = (c as u32 + 32) as char; assert(d as u32 == c as u32 + 32); } }
// a normalized text is its own normalized form: lower case, no runs, separators are '-'
pub open spec fn is_normal(s: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !('A' <= #[trigger] s[i] <= 'Z') && s[i] != '_' && s[i] != '.'
    &&& forall|i: int| 0 < i < s.len() ==> !(s[i - 1] == '-' && #[trigger] s[i] == '-')
}
pub proof fn lemma_dashed(s: Seq<char>)
    ensures
        forall|i: int| 0 <= i < dashed(s).len() ==> (#[trigger] dashed(s)[i] == '-' || !sep(dashed(s)[i])),
        forall|i: int| 0 < i < dashed(s).len() ==> !(dashed(s)[i - 1] == '-' && #[trigger] dashed(s)[i] == '-'),
        s.len() > 0 ==> dashed(s).len() > 0 && (dashed(s).last() == '-' <==> sep(s.last())) && (dashed(s)[0] == '-' <==> sep(s[0])) && (!sep(s[0]) ==> dashed(s)[0] == s[0]) && (!sep(s.last()) ==> dashed(s).last() == s.last()),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dashed(s.drop_last());
        let r = dashed(s.drop_last());
        if s.len() > 1 { assert(s.drop_last().last() == s[s.len() - 2]); }
        assert forall|i: int| 0 <= i < dashed(s).len() implies (#[trigger] dashed(s)[i] == '-' || !sep(dashed(s)[i])) by { if i < r.len() { assert(dashed(s)[i] == r[i]); } }
        assert forall|i: int| 0 < i < dashed(s).len() implies !(dashed(s)[i - 1] == '-' && #[trigger] dashed(s)[i] == '-') by { assert(dashed(s)[i - 1] == r[i - 1]); if i < r.len() { assert(dashed(s)[i] == r[i]); } else { assert(r.last() == r[i - 1]); } }
        if s.len() > 1 { assert(dashed(s)[0] == r[0]); }
    }
}
pub proof fn lemma_normal(s: Seq<char>) requires project_name(s) ensures is_normal(normal(s)), project_name(normal(s))
{
    lemma_dashed(s);
    let n = normal(s); let d = dashed(s);
    lemma_dashed_chars(s);
    assert forall|i: int| 0 <= i < n.len() implies !('A' <= #[trigger] n[i] <= 'Z') && n[i] != '_' && n[i] != '.' && (alnum(n[i]) || sep(n[i])) by { lemma_lower(d[i]); assert(n[i] == lower(d[i])); assert(d.contains(d[i])); }
    assert forall|i: int| 0 < i < n.len() implies !(n[i - 1] == '-' && #[trigger] n[i] == '-') by { lemma_lower(d[i]); lemma_lower(d[i - 1]); assert(n[i] == lower(d[i]) && n[i - 1] == lower(d[i - 1])); assert(!(d[i - 1] == '-' && d[i] == '-')); }
    lemma_lower(d[0]); lemma_lower(d.last());
}
pub proof fn lemma_dashed_chars(s: Seq<char>) ensures forall|c: char| #[trigger] dashed(s).contains(c) ==> c == '-' || s.contains(c) decreases s.len()
{
    if s.len() > 0 {
        lemma_dashed_chars(s.drop_last());
        let r = dashed(s.drop_last());
        assert forall|c: char| #[trigger] dashed(s).contains(c) implies c == '-' || s.contains(c) by {
            let i = choose|i: int| 0 <= i < dashed(s).len() && dashed(s)[i] == c;
            if i < r.len() { assert(r[i] == c); assert(r.contains(c)); if c != '-' { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == c; assert(s[j] == c); } }
            else if c != '-' { assert(s[s.len() - 1] == c); }
        }
    }
}
// nothing is left to do on a normalized text
pub proof fn lemma_fixed(s: Seq<char>) requires is_normal(s) ensures normal(s) == s
{
    lemma_fixed_dashed(s);
    assert forall|i: int| 0 <= i < s.len() implies lower(s[i]) == s[i] by { assert(!('A' <= s[i] <= 'Z')); }
    assert(lowered(s) =~= s);
}
pub proof fn lemma_fixed_dashed(s: Seq<char>) requires is_normal(s) ensures dashed(s) == s decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies !('A' <= #[trigger] p[i] <= 'Z') && p[i] != '_' && p[i] != '.' by { assert(p[i] == s[i]); }
        assert forall|i: int| 0 < i < p.len() implies !(p[i - 1] == '-' && #[trigger] p[i] == '-') by { assert(p[i] == s[i]); assert(p[i - 1] == s[i - 1]); }
        lemma_fixed_dashed(p);
        assert(s[s.len() - 1] == s.last());
        assert(p.push(s.last()) =~= s);
    }
}
}
