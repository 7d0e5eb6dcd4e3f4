verus! {
// ---- trusted: lengths, slicing of sequences and of strings at character boundaries --------------
pub trait VxLen { spec fn vlen(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vlen(); }
impl<T> VxLen for Vec<T> { open spec fn vlen(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }
impl<T> VxLen for [T] { open spec fn vlen(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for str { open spec fn vlen(&self) -> nat { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for String { open spec fn vlen(&self) -> nat { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
pub trait VxSeqSlice<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.vseq().len(), ensures r@ == self.vseq().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &[T]) requires a <= self.vseq().len(), ensures r@ == self.vseq().subrange(a as int, self.vseq().len() as int);
    fn vx_to(&self, b: usize) -> (r: &[T]) requires b <= self.vseq().len(), ensures r@ == self.vseq().subrange(0, b as int);
    fn vx_all(&self) -> (r: &[T]) ensures r@ == self.vseq();
}
impl<T> VxSeqSlice<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[T]) { &self[..b] }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[T]) { &self[..] }
}
impl<T> VxSeqSlice<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[T]) { &self[..b] }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[T]) { &self[..] }
}
// str and String: panics unless the ends are character boundaries
pub trait VxStrSlice {
    spec fn vstr(&self) -> Seq<char>;
    fn vx_range(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, bound(self.vstr(), a as int), bound(self.vstr(), b as int),
        ensures r@ == self.vstr().subrange(cidx(self.vstr(), a as int), cidx(self.vstr(), b as int));
    fn vx_from(&self, a: usize) -> (r: &str)
        requires bound(self.vstr(), a as int),
        ensures r@ == self.vstr().skip(cidx(self.vstr(), a as int));
    fn vx_to(&self, b: usize) -> (r: &str)
        requires bound(self.vstr(), b as int),
        ensures r@ == self.vstr().take(cidx(self.vstr(), b as int));
    fn vx_all(&self) -> (r: &str) ensures r@ == self.vstr();
}
impl VxStrSlice for str {
    open spec fn vstr(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body] fn vx_all(&self) -> (r: &str) { &self[..] }
}
impl VxStrSlice for String {
    open spec fn vstr(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body] fn vx_all(&self) -> (r: &str) { &self[..] }
}
} // verus!
