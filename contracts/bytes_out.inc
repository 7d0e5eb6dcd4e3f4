verus! {
// trusted: byteorder::WriteBytesExt on a Vec<u8> appends the little-endian bytes and does not fail
#[verifier::external_body]
pub fn vx_write_u32_le(w: &mut Vec<u8>, v: u32) -> (r: Result<(), LinderaError>)
    ensures final(w)@ == old(w)@ + enc4(v as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_u16_le(w: &mut Vec<u8>, v: u16) -> (r: Result<(), LinderaError>)
    ensures final(w)@ == old(w)@ + enc2(v as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_i16_le(w: &mut Vec<u8>, v: i16) -> (r: Result<(), LinderaError>)
    ensures final(w)@ == old(w)@ + enc2(u16_of(v as int)) { unimplemented!() }
} // verus!
