verus! {
// ---- trusted: yada 0.5 double array ----------------------------------------------------------
// `map()` is the key map the array was built from. NUL is no label in the array: keys are NUL-free, and a
// search that runs over a NUL may report anything for the prefixes that contain it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DoubleArray<T> { x: T }
pub open spec fn has_nul(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == 0u8 }
pub open spec fn cps_ok(m: Map<Seq<u8>, u32>, s: Seq<u8>, r: Seq<(u32, usize)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> 1 <= (#[trigger] r[i]).1 <= s.len()
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).1 < (#[trigger] r[j]).1
    &&& forall|i: int| 0 <= i < r.len() && !has_nul(s.take((#[trigger] r[i]).1 as int)) ==> m.dom().contains(s.take(r[i].1 as int)) && m[s.take(r[i].1 as int)] == r[i].0
    &&& forall|l: int| 1 <= l <= s.len() && !has_nul(s.take(l)) && m.dom().contains(#[trigger] s.take(l)) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == l
}
pub open spec fn ems_ok(m: Map<Seq<u8>, u32>, s: Seq<u8>, r: Option<u32>) -> bool {
    !has_nul(s) && s.len() > 0 ==> (r is Some <==> m.dom().contains(s)) && (r is Some ==> r->0 == m[s])
}
pub trait VxKey { spec fn kb(&self) -> Seq<u8>; }
impl VxKey for str { open spec fn kb(&self) -> Seq<u8> { utf8(self@) } }
impl VxKey for [u8] { open spec fn kb(&self) -> Seq<u8> { self@ } }
impl<T> DoubleArray<T> {
    pub uninterp spec fn map(&self) -> Map<Seq<u8>, u32>;
    #[verifier::external_body]
    pub fn common_prefix_search<K: VxKey + ?Sized>(&self, s: &K) -> (r: Vec<(u32, usize)>) ensures cps_ok(self.map(), s.kb(), r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exact_match_search<K: VxKey + ?Sized>(&self, s: &K) -> (r: Option<u32>) ensures ems_ok(self.map(), s.kb(), r) { unimplemented!() }
}
// trusted: slice and range membership
pub trait VxContains<T> {
    spec fn has(&self, x: T) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x);
}
impl VxContains<u8> for [u8] {
    open spec fn has(&self, x: u8) -> bool { exists|i: int| 0 <= i < self@.len() && self@[i] == x }
    #[verifier::external_body] fn vx_contains(&self, x: &u8) -> (r: bool) { self.contains(x) }
}
} // verus!
