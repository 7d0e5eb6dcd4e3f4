// trusted: byteorder::WriteBytesExt on an io::Write that keeps what is written
pub trait VxWrite: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn vx_write_u32_le(&mut self, v: u32) -> (r: Result<(), LinderaError>)
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + enc4(v as int);
    fn vx_write_u16_le(&mut self, v: u16) -> (r: Result<(), LinderaError>)
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + enc2(v as int);
    fn vx_write_i16_le(&mut self, v: i16) -> (r: Result<(), LinderaError>)
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + enc2(u16_of(v as int));
    fn vx_write_all(&mut self, b: &[u8]) -> (r: Result<(), LinderaError>)
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + b@;
}
impl VxWrite for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_write_u32_le(&mut self, v: u32) -> (r: Result<(), LinderaError>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_u16_le(&mut self, v: u16) -> (r: Result<(), LinderaError>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_i16_le(&mut self, v: i16) -> (r: Result<(), LinderaError>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_all(&mut self, b: &[u8]) -> (r: Result<(), LinderaError>) { unimplemented!() }
}
pub open spec fn enc_entry(e: WordEntry) -> Seq<u8> {
    enc4(e.word_id.0 as int) + enc2(u16_of(e.word_cost as int)) + enc2(e.left_id as int) + enc2(e.right_id as int)
}
@item fn lindera-core/src/word_entry.rs WordEntry::serialize
@sig <W: VxWrite>(&self, wtr: &mut W) -> (r: Result<(), LinderaError>)
@spec
  ensures r.is_ok() ==> final(wtr).bytes() == old(wtr).bytes() + enc_entry(*self)
@at end
  proof { assert(wtr.bytes() =~= old(wtr).bytes() + enc_entry(*self)); }
@end
// C05: decoding the ten encoded bytes, wherever they sit in a buffer, gives back the entry.
pub proof fn c05_roundtrip(e: WordEntry, before: Seq<u8>, after: Seq<u8>, sys: bool)
    ensures
        enc_entry(e).len() == 10,
        ({
            let buf = before + enc_entry(e) + after;
            let d = dec_entry(buf.subrange(before.len() as int, buf.len() as int), sys);
            d == (WordEntry { word_id: WordId(e.word_id.0, sys), ..e })
        }),
{
    let buf = before + enc_entry(e) + after;
    let s = buf.subrange(before.len() as int, buf.len() as int);
    lemma_enc4(e.word_id.0 as int);
    lemma_enc2(u16_of(e.word_cost as int));
    lemma_enc2(e.left_id as int);
    lemma_enc2(e.right_id as int);
    assert(s.subrange(0, 4) =~= enc4(e.word_id.0 as int));
    assert(s.subrange(4, 6) =~= enc2(u16_of(e.word_cost as int)));
    assert(s.subrange(6, 8) =~= enc2(e.left_id as int));
    assert(s.subrange(8, 10) =~= enc2(e.right_id as int));
}
