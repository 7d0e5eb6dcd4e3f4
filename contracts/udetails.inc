// trusted: bincode writes a list of strings so that it is read back, whatever follows
pub uninterp spec fn bc(d: Seq<Seq<char>>) -> Seq<u8>;
pub open spec fn begins(b: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= b.len() && b.take(p.len() as int) == p }
#[verifier::external_body]
pub fn vx_bc_write(w: &mut Vec<u8>, d: &Vec<String>) -> (r: Result<(), LinderaError>) ensures r is Ok ==> final(w)@ == old(w)@ + bc(dv(d@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_bc_read(b: &[u8]) -> (r: Result<Vec<String>, LinderaError>) ensures forall|d: Seq<Seq<char>>| begins(b@, #[trigger] bc(d)) ==> r is Ok && dv(r->Ok_0@) == d { unimplemented!() }
@item struct lindera-core/src/dictionary.rs UserDictionary
@end
@item fn lindera-core/src/dictionary.rs UserDictionary::word_details
@spec
  requires word_id <= 0xffff_ffff, 4 * word_id < self.words_idx_data@.len() ==> 4 * word_id + 4 <= self.words_idx_data@.len() && at_idx(self.words_idx_data@, word_id as int) <= self.words_data@.len(),
  ensures
    4 * word_id >= self.words_idx_data@.len() ==> r is None,
    4 * word_id < self.words_idx_data@.len() ==> forall|d: Seq<Seq<char>>| begins(self.words_data@.skip(at_idx(self.words_idx_data@, word_id as int)), #[trigger] bc(d)) ==> r is Some && dv(r->0@) == d
@at let data 0 before
  proof {
    assert(idx as int == at_idx(self.words_idx_data@, word_id as int)) by { assert(self.words_idx_data@.subrange(4 * word_id as int, self.words_idx_data@.len() as int).subrange(0, 4) =~= self.words_idx_data@.subrange(4 * word_id as int, 4 * word_id as int + 4)); }
    assert(self.words_data@.subrange(idx as int, self.words_data@.len() as int) =~= self.words_data@.skip(idx as int));
  }
@end
