@unit compress
@include prelude.inc
@call DeflateEncoder::new => VxEncoder::deflate
@call ZlibEncoder::new => VxEncoder::zlib
@call GzEncoder::new => VxEncoder::gzip
@call DeflateDecoder::new => VxDecoder::deflate
@call ZlibDecoder::new => VxDecoder::zlib
@call GzDecoder::new => VxDecoder::gzip
@method to_vec => fn vx_to_vec
verus! {
@item enum lindera-decompress/src/lib.rs Algorithm derive(Clone, Copy)
@end
@item struct lindera-decompress/src/lib.rs CompressedData
@end
// ---- trusted: flate2. A coded form belongs to a format and to one content.
pub uninterp spec fn coded(a: Algorithm, x: Seq<u8>) -> Seq<u8>;
pub struct Compression { x: u32 }
impl Compression {
    #[verifier::external_body] pub fn default() -> Compression { unimplemented!() }
    #[verifier::external_body] pub fn new(level: u32) -> Compression requires level <= 9 { unimplemented!() }
    #[verifier::external_body] pub fn best() -> Compression { unimplemented!() }
    #[verifier::external_body] pub fn fast() -> Compression { unimplemented!() }
    #[verifier::external_body] pub fn none() -> Compression { unimplemented!() }
}
// an encoder appends to `out`
#[verifier::external_body]
pub struct VxEncoder { x: u8 }
impl VxEncoder {
    pub uninterp spec fn alg(&self) -> Algorithm;
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn deflate(w: Vec<u8>, c: Compression) -> (r: VxEncoder) ensures r.alg() == Algorithm::Deflate, r.out() == w@, r.content() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn zlib(w: Vec<u8>, c: Compression) -> (r: VxEncoder) ensures r.alg() == Algorithm::Zlib, r.out() == w@, r.content() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn gzip(w: Vec<u8>, c: Compression) -> (r: VxEncoder) ensures r.alg() == Algorithm::Gzip, r.out() == w@, r.content() == Seq::<u8>::empty() { unimplemented!() }
    // writing to a vector does not fail
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: Result<(), LinderaError>)
        ensures r is Ok, final(self).alg() == old(self).alg(), final(self).out() == old(self).out(), final(self).content() == old(self).content() + d@ { unimplemented!() }
    // may take only a part
    #[verifier::external_body] pub fn write(&mut self, d: &[u8]) -> (r: Result<usize, LinderaError>)
        ensures r is Ok ==> r->Ok_0 <= d@.len() && final(self).alg() == old(self).alg() && final(self).out() == old(self).out() && final(self).content() == old(self).content() + d@.take(r->Ok_0 as int) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), LinderaError>)
        ensures r is Ok ==> final(self).alg() == old(self).alg() && final(self).out() == old(self).out() && final(self).content() == old(self).content() { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Result<Vec<u8>, LinderaError>)
        ensures r is Ok, r->Ok_0@ == self.out() + coded(self.alg(), self.content()) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDecoder { x: u8 }
impl VxDecoder {
    pub uninterp spec fn alg(&self) -> Algorithm;
    pub uninterp spec fn src(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn deflate(d: &[u8]) -> (r: VxDecoder) ensures r.alg() == Algorithm::Deflate, r.src() == d@ { unimplemented!() }
    #[verifier::external_body] pub fn zlib(d: &[u8]) -> (r: VxDecoder) ensures r.alg() == Algorithm::Zlib, r.src() == d@ { unimplemented!() }
    #[verifier::external_body] pub fn gzip(d: &[u8]) -> (r: VxDecoder) ensures r.alg() == Algorithm::Gzip, r.src() == d@ { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, LinderaError>)
        ensures forall|x: Seq<u8>| old(self).src() == #[trigger] coded(old(self).alg(), x) ==> r is Ok && final(out)@ == old(out)@ + x { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_to_vec(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@ { d.to_vec() }
// ---- what the data of an algorithm stands for
pub open spec fn form(a: Algorithm, x: Seq<u8>) -> Seq<u8> { if a is Raw { x } else { coded(a, x) } }
@item fn lindera-decompress/src/lib.rs CompressedData::new
@spec
  ensures r.algorithm == algorithm, r.data == data
@end
@item fn lindera-compress/src/lib.rs compress
@rettype Result<CompressedData, LinderaError>
@spec
  ensures r is Ok, r->Ok_0.algorithm == algorithm, r->Ok_0.data@ == form(algorithm, data@)
@at tail
  proof { if vx_ret is Ok { assert(vx_ret->Ok_0.data@ =~= form(algorithm, data@)); } }
@end
@item fn lindera-decompress/src/lib.rs decompress
@rettype Result<Vec<u8>, LinderaError>
@spec
  ensures forall|x: Seq<u8>| data.data@ == #[trigger] form(data.algorithm, x) ==> r is Ok && r->Ok_0@ == x
@at tail
  proof {
    assert forall|x: Seq<u8>| data.data@ == #[trigger] form(data.algorithm, x) implies vx_ret is Ok && vx_ret->Ok_0@ =~= x by { }
  }
@end
// C20: whatever carries algorithm and data faithfully in between (serialization), the bytes come back
pub fn c20_roundtrip(data: &[u8], algorithm: Algorithm) -> (r: Result<Vec<u8>, LinderaError>)
    ensures r is Ok, r->Ok_0@ == data@
{
    let c = compress(data, algorithm)?;
    decompress(c)
}
} // verus!
fn main() {}
