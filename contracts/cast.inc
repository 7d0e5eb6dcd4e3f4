verus! {
// ---- truncating casts: the meaning of `as` between integer types (Rust reference) ------------
pub trait VxCast: Sized {
    spec fn v(self) -> int;
    fn vx_as_u16(self) -> (r: u16) ensures r as int == self.v() % 65536;
    fn vx_as_i16(self) -> (r: i16) ensures r as int == i16_of(self.v() % 65536);
    fn vx_as_u32(self) -> (r: u32) ensures r as int == self.v() % 4294967296;
}
impl VxCast for i16 {
    open spec fn v(self) -> int { self as int }
    #[verifier::external_body] fn vx_as_u16(self) -> (r: u16) { self as u16 }
    #[verifier::external_body] fn vx_as_i16(self) -> (r: i16) { self as i16 }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { self as u32 }
}
impl VxCast for u16 {
    open spec fn v(self) -> int { self as int }
    #[verifier::external_body] fn vx_as_u16(self) -> (r: u16) { self as u16 }
    #[verifier::external_body] fn vx_as_i16(self) -> (r: i16) { self as i16 }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { self as u32 }
}
impl VxCast for i32 {
    open spec fn v(self) -> int { self as int }
    #[verifier::external_body] fn vx_as_u16(self) -> (r: u16) { self as u16 }
    #[verifier::external_body] fn vx_as_i16(self) -> (r: i16) { self as i16 }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { self as u32 }
}
impl VxCast for u32 {
    open spec fn v(self) -> int { self as int }
    #[verifier::external_body] fn vx_as_u16(self) -> (r: u16) { self as u16 }
    #[verifier::external_body] fn vx_as_i16(self) -> (r: i16) { self as i16 }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { self as u32 }
}
impl VxCast for usize {
    open spec fn v(self) -> int { self as int }
    #[verifier::external_body] fn vx_as_u16(self) -> (r: u16) { self as u16 }
    #[verifier::external_body] fn vx_as_i16(self) -> (r: i16) { self as i16 }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { self as u32 }
}
} // verus!
