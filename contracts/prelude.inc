use vstd::prelude::*;

verus! {
global size_of usize == 8; // 64-bit target
// ---- trusted extraction helpers -------------------------------------------------------------
pub fn vx_assert(b: bool) requires b {}
// index counter of `enumerate`/`count`: std panics (debug) on overflow only after usize::MAX items, which no
// in-memory sequence has
pub fn vx_next_index(n: usize) -> (r: usize) requires n < usize::MAX, ensures r == n + 1 { n + 1 }

// trusted: vec![..] holds the listed elements
#[verifier::external_body]
pub fn vx_list<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
#[verifier::external_body]
pub struct LinderaError { x: u8 }
pub type LinderaResult<T> = Result<T, LinderaError>;
#[verifier::external_body]
pub fn vx_err() -> (r: LinderaError) { LinderaError { x: 0 } }

// ---- little-endian numbers ------------------------------------------------------------------
pub open spec fn le2(s: Seq<u8>) -> int { s[0] as int + 256 * (s[1] as int) }
pub open spec fn le4(s: Seq<u8>) -> int {
    s[0] as int + 256 * (s[1] as int) + 65536 * (s[2] as int) + 16777216 * (s[3] as int)
}
pub open spec fn i16_of(u: int) -> int { if u >= 32768 { u - 65536 } else { u } }
pub open spec fn u16_of(i: int) -> int { if i < 0 { i + 65536 } else { i } }
pub open spec fn enc2(v: int) -> Seq<u8> { seq![(v % 256) as u8, ((v / 256) % 256) as u8] }
pub open spec fn enc4(v: int) -> Seq<u8> {
    seq![(v % 256) as u8, ((v / 256) % 256) as u8, ((v / 65536) % 256) as u8, ((v / 16777216) % 256) as u8]
}
pub proof fn lemma_enc2(v: int)
    requires 0 <= v < 65536,
    ensures le2(enc2(v)) == v, enc2(v).len() == 2,
{
}
pub proof fn lemma_enc4(v: int)
    requires 0 <= v < 4294967296,
    ensures le4(enc4(v)) == v, enc4(v).len() == 4,
{
    let (q1, q2, q3) = (v / 256, v / 65536, v / 16777216);
    assert(q1 / 256 == q2);
    assert(q2 / 256 == q3);
    assert(q3 < 256);
    lemma_le4_digits(v, q1, q2, q3);
}
pub proof fn lemma_le4_digits(v: int, q1: int, q2: int, q3: int)
    requires 0 <= v, q1 == v / 256, q2 == q1 / 256, q3 == q2 / 256, q3 < 256,
    ensures (v % 256) + 256 * (q1 % 256) + 65536 * (q2 % 256) + 16777216 * (q3 % 256) == v,
{
}
// trusted: byteorder 1.5
#[verifier::external_body]
pub fn vx_read_u32(buf: &[u8]) -> (r: u32) requires buf@.len() >= 4, ensures r as int == le4(buf@) {
    u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]])
}
#[verifier::external_body]
pub fn vx_read_u16(buf: &[u8]) -> (r: u16) requires buf@.len() >= 2, ensures r as int == le2(buf@) {
    u16::from_le_bytes([buf[0], buf[1]])
}
#[verifier::external_body]
pub fn vx_read_i16(buf: &[u8]) -> (r: i16) requires buf@.len() >= 2, ensures r as int == i16_of(le2(buf@)) {
    i16::from_le_bytes([buf[0], buf[1]])
}
} // verus!
