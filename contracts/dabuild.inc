verus! {
// ---- trusted: building and loading a yada double array -------------------------------------------
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else { a[0] < b[0] || (a[0] == b[0] && lex_lt(a.skip(1), b.skip(1))) }
}
pub open spec fn keys_sorted(ks: Seq<(&[u8], u32)>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> lex_lt((#[trigger] ks[i]).0@, (#[trigger] ks[j]).0@) }
pub open spec fn da_built(ks: Seq<(&[u8], u32)>, m: Map<Seq<u8>, u32>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains((#[trigger] ks[i]).0@) && m[ks[i].0@] == ks[i].1
    &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).0@ == k
}
pub uninterp spec fn da_map(data: Seq<u8>) -> Map<Seq<u8>, u32>;
// sorted distinct keys without NUL, at least one of them, values of 31 bits
pub open spec fn da_input(ks: Seq<(&[u8], u32)>) -> bool {
    keys_sorted(ks) && ks.len() > 0 && (forall|i: int| 0 <= i < ks.len() ==> !has_nul((#[trigger] ks[i]).0@) && ks[i].1 < 0x8000_0000)
}
#[verifier::external_body]
pub fn vx_da_build(ks: &Vec<(&[u8], u32)>) -> (r: Option<Vec<u8>>)
    requires da_input(ks@),
    ensures r is Some ==> da_built(ks@, da_map(r->0@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_da_new(data: Vec<u8>) -> (r: DoubleArray<Vec<u8>>) ensures r.map() == da_map(data@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_bytes<'a>() -> (r: &'a [u8]) ensures r@.len() == 0 { b"" }
// sorting strings: by their bytes
pub open spec fn strs_sorted(s: Seq<&String>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_lt(utf8((#[trigger] s[i])@), utf8((#[trigger] s[j])@)) }
pub open spec fn strs_distinct(s: Seq<&String>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub open spec fn among(s: Seq<&String>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }
pub trait VxSortStr: Sized { spec fn ss(&self) -> Seq<&String>;
    fn vx_sort(&mut self) ensures
        final(self).ss().len() == old(self).ss().len(),
        forall|x: Seq<char>| among(final(self).ss(), x) <==> among(old(self).ss(), x),
        strs_distinct(old(self).ss()) ==> strs_sorted(final(self).ss()) && strs_distinct(final(self).ss()); }
impl<'a> VxSortStr for Vec<&'a String> { open spec fn ss(&self) -> Seq<&String> { self@ } #[verifier::external_body] fn vx_sort(&mut self) { self.sort() } }
pub trait VxHasChar { spec fn cs(&self) -> Seq<char>; fn vx_contains(&self, c: char) -> (r: bool) ensures r == self.cs().contains(c); }
impl VxHasChar for String { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, c: char) -> (r: bool) { self.contains(c) } }
impl VxHasChar for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, c: char) -> (r: bool) { self.contains(c) } }
// ---- HashMap<String, String> -------------------------------------------------------------------
#[verifier::external_body]
pub struct VxStrMap { m: std::collections::HashMap<String, String> }
impl View for VxStrMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxStrMap {
    pub uninterp spec fn size(&self) -> nat;
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&String>)
        ensures strs_distinct(r@), r@.len() == self.size(), forall|x: Seq<char>| #[trigger] self@.contains_key(x) <==> among(r@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&String>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> r->0@ == self@[k@] { self.m.get(k) }
    #[verifier::external_body]
    pub fn vx_at(&self, k: &str) -> (r: &String) requires self@.contains_key(k@), ensures r@ == self@[k@] { &self.m[k] }
}
} // verus!
