// ---- part-of-speech tags: four parts, padded with asterisks, joined with commas ----------------------
pub open spec fn pad4(ps: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(4, |i: int| if i < ps.len() { ps[i] } else { "*"@ }) }
pub open spec fn comma() -> Seq<char> { ","@ }
pub open spec fn tag_parts(d: Seq<Seq<char>>) -> Seq<Seq<char>> { d.take(if d.len() >= 4 { 4 } else if d.len() >= 1 { 1 } else { 0 }) }
// the tag of a token
pub open spec fn tag_of(d: Seq<Seq<char>>) -> Seq<char> { joined(pad4(tag_parts(d)), comma()) }
// the tag a configured string stands for
pub open spec fn tag_fmt(t: Seq<char>) -> Seq<char> { joined(pad4(split_on(t, ',')), comma()) }
pub proof fn lemma_pad_step(f0: Seq<&str>, f1: Seq<&str>, ps: Seq<Seq<char>>, k: int)
    requires 0 <= k < ps.len(), k < 4, f0.len() == 4, strs(f0) == pad4(ps.take(k)), f1 == f0.update(k, f1[k]), f1[k]@ == ps[k],
    ensures strs(f1) == pad4(ps.take(k + 1))
{
    assert forall|j: int| 0 <= j < 4 implies #[trigger] strs(f1)[j] == pad4(ps.take(k + 1))[j] by { assert(strs(f0)[j] == pad4(ps.take(k))[j]); }
    assert(strs(f1) =~= pad4(ps.take(k + 1)));
}
// ---- trusted: HashSet<String> ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct VxStrSet { m: std::collections::HashSet<String> }
impl View for VxStrSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl VxStrSet {
    #[verifier::external_body]
    pub fn vx_has(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { self.m.contains(k) }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<&String>) ensures forall|x: Seq<char>| #[trigger] self@.contains(x) <==> among(r@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { self.m.insert(k) }
}
pub open spec fn among(s: Seq<&String>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }
#[verifier::external_body]
pub fn vx_new_set() -> (r: VxStrSet) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
// the tags a configuration stands for
pub open spec fn fmt_all(s: Set<Seq<char>>, f: Set<Seq<char>>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] s.contains(t) ==> f.contains(tag_fmt(t))
    &&& forall|u: Seq<char>| #[trigger] f.contains(u) ==> exists|t: Seq<char>| #[trigger] s.contains(t) && u == tag_fmt(t)
}
pub proof fn lemma_split_joined(ps: Seq<Seq<char>>) requires ps.len() > 0, all_free(ps, ',') ensures split_on(joined(ps, comma()), ',') == ps {
    reveal_strlit(",");
    assert(comma() =~= seq![',']);
    lemma_split_joined_on(ps, ',');
}
pub proof fn lemma_fmt_twice(t: Seq<char>) ensures tag_fmt(tag_fmt(t)) == tag_fmt(t), split_on(tag_fmt(t), ',').len() == 4 {
    lemma_split_free(t, ',');
    reveal_strlit("*");
    let p = pad4(split_on(t, ','));
    assert(free("*"@, ','));
    lemma_split_joined(p);
    assert(pad4(p) =~= p);
}
