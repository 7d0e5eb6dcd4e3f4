verus! {
// ---- std::str::split on one character: the pieces, in order ------------------------------------------
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == c { split_on(s.drop_last(), c).push(Seq::empty()) }
    else { let p = split_on(s.drop_last(), c); p.update(p.len() - 1, p.last().push(s.last())) }
}
pub proof fn lemma_split_some(s: Seq<char>, c: char) ensures split_on(s, c).len() > 0 decreases s.len() { if s.len() > 0 { lemma_split_some(s.drop_last(), c); } }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VxSplit { spec fn ps(&self) -> Seq<char>; fn vx_split(&self, c: char) -> (r: Vec<&str>) ensures strs(r@) == split_on(self.ps(), c); }
impl VxSplit for str { open spec fn ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() } }
impl VxSplit for String { open spec fn ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() } }
} // verus!
