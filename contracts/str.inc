verus! {
// ---- strings: `s@` is the sequence of characters --------------------------------------------
pub assume_specification[ <String as PartialEq<str>>::eq ](a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@);
// std::str::lines / split on one character: the pieces, in order
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == c { split_on(s.drop_last(), c).push(Seq::empty()) }
    else { let p = split_on(s.drop_last(), c); p.update(p.len() - 1, p.last().push(s.last())) }
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_lines(s: &str) -> (r: Vec<&str>) ensures strs(r@) == lines_of(s@) { s.lines().collect() }
#[verifier::external_body]
pub fn vx_split(s: &str, c: char) -> (r: Vec<&str>) ensures strs(r@) == split_on(s@, c) { s.split(c).collect() }
@include nums.inc
} // verus!
