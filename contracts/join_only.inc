// ---- joining and splitting on one character
pub open spec fn joined(ps: Seq<Seq<char>>, c: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { joined(ps.drop_last(), c) + c + ps.last() }
}
pub trait VxJoin { spec fn js(&self) -> Seq<Seq<char>>; fn vx_join(&self, c: &str) -> (r: String) ensures r@ == joined(self.js(), c@); }
impl<'a, const N: usize> VxJoin for [&'a str; N] { open spec fn js(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl<'a> VxJoin for Vec<&'a str> { open spec fn js(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl VxJoin for Vec<String> { open spec fn js(&self) -> Seq<Seq<char>> { dv(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
impl VxJoin for [String] { open spec fn js(&self) -> Seq<Seq<char>> { dv(self@) } #[verifier::external_body] fn vx_join(&self, c: &str) -> (r: String) { self.join(c) } }
pub open spec fn free(s: Seq<char>, c: char) -> bool { !s.contains(c) }
