pub open spec fn all_strings(l: Seq<Value>) -> bool { forall|i: int| 0 <= i < l.len() ==> jstr(#[trigger] l[i]) is Some }
pub open spec fn has_string(l: Seq<Value>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && jstr(#[trigger] l[i]) == Some(s) }
pub open spec fn holds(f: Set<Seq<char>>, l: Seq<Value>) -> bool { forall|s: Seq<char>| #[trigger] f.contains(s) <==> has_string(l, s) }
pub proof fn lemma_holds_step(f: Set<Seq<char>>, l: Seq<Value>, k: int)
    requires 0 <= k < l.len(), jstr(l[k]) is Some, holds(f, l.take(k)),
    ensures holds(f.insert(jstr(l[k])->0), l.take(k + 1))
{
    assert forall|s: Seq<char>| has_string(l.take(k + 1), s) <==> (has_string(l.take(k), s) || s == jstr(l[k])->0) by {
        if has_string(l.take(k + 1), s) { let i = choose|i: int| 0 <= i < k + 1 && jstr(#[trigger] l.take(k + 1)[i]) == Some(s); if i < k { assert(jstr(l.take(k)[i]) == Some(s)); } }
        if has_string(l.take(k), s) { let i = choose|i: int| 0 <= i < k && jstr(#[trigger] l.take(k)[i]) == Some(s); assert(jstr(l.take(k + 1)[i]) == Some(s)); }
        if s == jstr(l[k])->0 { assert(jstr(l.take(k + 1)[k]) == Some(s)); }
    }
}
// the formatted tags of a list of JSON strings
pub open spec fn fmt_list(l: Seq<Value>, f: Set<Seq<char>>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] has_string(l, t) ==> f.contains(tag_fmt(t))
    &&& forall|u: Seq<char>| #[trigger] f.contains(u) ==> exists|t: Seq<char>| #[trigger] has_string(l, t) && u == tag_fmt(t)
}
pub proof fn lemma_fmt_list(s: Set<Seq<char>>, l: Seq<Value>, f: Set<Seq<char>>) requires holds(s, l), fmt_all(s, f) ensures fmt_list(l, f) {
    assert forall|t: Seq<char>| #[trigger] has_string(l, t) implies f.contains(tag_fmt(t)) by { assert(s.contains(t)); }
    assert forall|u: Seq<char>| #[trigger] f.contains(u) implies exists|t: Seq<char>| #[trigger] has_string(l, t) && u == tag_fmt(t) by { let t = choose|t: Seq<char>| #[trigger] s.contains(t) && u == tag_fmt(t); assert(has_string(l, t)); }
}
// the list of tags of a configuration value
pub open spec fn tag_list(v: Value) -> Option<Seq<Value>> { match jget(v, "tags"@) { Some(t) => jarr(t), None => None } }
