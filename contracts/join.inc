// ---- joining and splitting on one character
pub open spec fn joined(ps: Seq<Seq<char>>, c: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { joined(ps.drop_last(), c) + c + ps.last() }
}
pub trait VxJoin { spec fn js(&self) -> Seq<Seq<char>>; fn vx_join(&self, c: &str) -> (r: String) ensures r@ == joined(self.js(), c@); }
impl<'a, const N: usize> VxJoin for [&'a str; N] { open spec fn js(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl<'a> VxJoin for Vec<&'a str> { open spec fn js(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl VxJoin for Vec<String> { open spec fn js(&self) -> Seq<Seq<char>> { dv(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl VxJoin for [String] { open spec fn js(&self) -> Seq<Seq<char>> { dv(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
pub open spec fn free(s: Seq<char>, c: char) -> bool { !s.contains(c) }
pub open spec fn all_free(ps: Seq<Seq<char>>, c: char) -> bool { forall|i: int| 0 <= i < ps.len() ==> free(#[trigger] ps[i], c) }
pub proof fn lemma_split_free(s: Seq<char>, c: char) ensures all_free(split_on(s, c), c), split_on(s, c).len() > 0 decreases s.len() {
    if s.len() > 0 {
        lemma_split_free(s.drop_last(), c);
        let p = split_on(s.drop_last(), c);
        if s.last() != c {
            let l = p.last().push(s.last());
            assert(free(l, c)) by { if l.contains(c) { let i = choose|i: int| 0 <= i < l.len() && l[i] == c; if i < p.last().len() { assert(p.last()[i] == c); } } }
        }
    }
}
pub proof fn lemma_split_one(b: Seq<char>, c: char) requires free(b, c) ensures split_on(b, c) == seq![b] decreases b.len() {
    if b.len() > 0 {
        assert(b[b.len() - 1] != c);
        assert(free(b.drop_last(), c)) by { if b.drop_last().contains(c) { let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i] == c; assert(b[i] == c); } }
        lemma_split_one(b.drop_last(), c);
        assert(b.drop_last().push(b.last()) =~= b);
        assert(split_on(b, c) =~= seq![b]);
    } else { assert(b =~= Seq::empty()); }
}
pub proof fn lemma_split_cat(a: Seq<char>, b: Seq<char>, c: char) requires free(b, c) ensures split_on(a.push(c) + b, c) == split_on(a, c).push(b) decreases b.len() {
    let s = a.push(c) + b;
    if b.len() > 0 {
        assert(b[b.len() - 1] != c);
        let b1 = b.drop_last();
        assert(free(b1, c)) by { if b1.contains(c) { let i = choose|i: int| 0 <= i < b1.len() && b1[i] == c; assert(b[i] == c); } }
        lemma_split_cat(a, b1, c);
        assert(s.drop_last() =~= a.push(c) + b1);
        assert(s.last() == b.last());
        let p = split_on(a, c).push(b1);
        assert(b1.push(b.last()) =~= b);
        assert(p.update(p.len() - 1, b) =~= split_on(a, c).push(b));
    } else {
        assert(s =~= a.push(c));
        assert(s.drop_last() =~= a);
        assert(b =~= Seq::empty());
    }
}
pub proof fn lemma_split_joined_on(ps: Seq<Seq<char>>, c: char) requires ps.len() > 0, all_free(ps, c) ensures split_on(joined(ps, seq![c]), c) == ps decreases ps.len() {
    if ps.len() == 1 { lemma_split_one(ps[0], c); assert(ps =~= seq![ps[0]]); }
    else {
        lemma_split_joined_on(ps.drop_last(), c);
        let a = joined(ps.drop_last(), seq![c]);
        assert(a + seq![c] + ps.last() =~= a.push(c) + ps.last());
        lemma_split_cat(a, ps.last(), c);
        assert(ps.drop_last().push(ps.last()) =~= ps);
    }
}
