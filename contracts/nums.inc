// std integer parsing
pub uninterp spec fn num_of(s: Seq<char>) -> Option<int>;
pub open spec fn num_in(s: Seq<char>, lo: int, hi: int) -> bool { num_of(s) is Some && lo <= num_of(s).unwrap() <= hi }
#[verifier::external_body]
pub fn vx_parse_u32(s: &str) -> (r: Result<u32, LinderaError>)
    ensures r is Ok <==> num_in(s@, 0, 4294967295), r is Ok ==> r->Ok_0 as int == num_of(s@).unwrap() { unimplemented!() }
#[verifier::external_body]
pub fn vx_parse_i32(s: &str) -> (r: Result<i32, LinderaError>)
    ensures r is Ok <==> num_in(s@, -2147483648, 2147483647), r is Ok ==> r->Ok_0 as int == num_of(s@).unwrap() { unimplemented!() }
#[verifier::external_body]
pub fn vx_parse_u16(s: &str) -> (r: Result<u16, LinderaError>)
    ensures r is Ok <==> num_in(s@, 0, 65535), r is Ok ==> r->Ok_0 as int == num_of(s@).unwrap() { unimplemented!() }
#[verifier::external_body]
pub fn vx_parse_i16(s: &str) -> (r: Result<i16, LinderaError>)
    ensures r is Ok <==> num_in(s@, -32768, 32767), r is Ok ==> r->Ok_0 as int == num_of(s@).unwrap() { unimplemented!() }
