verus! {
// ---- trusted: building strings; a string is at most isize::MAX bytes long -------------------------
pub trait VxPush { spec fn pv(&self) -> Seq<char>;
    fn vx_push_str(&mut self, s: &str) ensures final(self).pv() == old(self).pv() + s@;
    fn vx_push(&mut self, c: char) ensures final(self).pv() == old(self).pv().push(c); }
impl VxPush for String { open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body] fn vx_push(&mut self, c: char) { self.push(c) } }
#[verifier::external_body]
pub fn vx_first_char(s: &str) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->0 == s@[0] { s.chars().next() }
#[verifier::external_body]
pub fn vx_len_utf8(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
pub fn vx_unsigned_abs(x: i64) -> (r: u64) ensures r == if x < 0 { -(x as int) } else { x as int } { if x == i64::MIN { 0x8000_0000_0000_0000 } else if x < 0 { (-x) as u64 } else { x as u64 } }
#[verifier::external_body]
pub proof fn ax_str_len(s: &str) ensures blen(s@) <= 0x7fff_ffff_ffff_ffff {}
} // verus!
