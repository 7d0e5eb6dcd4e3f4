@unit token
@include prelude.inc
@include cast.inc
@include text.inc
@include slice.inc
@include split.inc
@include strbuild.inc
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@method write_u32::<LittleEndian> => vx_write_u32_le
@method write_u16::<LittleEndian> => vx_write_u16_le
@method write_i16::<LittleEndian> => vx_write_i16_le
@method write_all => vx_write_all
@call i16::from_str => vx_parse_i16
@call u16::from_str => vx_parse_u16
@call u32::try_from => vx_u32_try
@call DoubleArrayBuilder::build => vx_da_build
@call DoubleArray::new => vx_da_new
@method join => vx_join
@method trim => vx_trim
@method replace => vx_replace
@type StringRecord => Vec<String>
@type BTreeMap<String, Vec<WordEntry>> => VxEntryMap
@call BTreeMap::new => VxEntryMap::new
@type Cow<'static, str> => VxStr
@type Algorithm => u8
@call str::from_utf8 => vx_from_utf8
@method try_into => vx_try_usize
@method contains => vx_contains
@method as_bytes => vx_as_bytes
@method len => vx_len
@method to_string => vx_to_string
@type PrefixDict<Vec<u8>> => PrefixDict
@type Cow<'static, [u8]> => Vec<u8>
@call bincode::serialize_into => vx_bc_write
@call bincode::deserialize_from => vx_bc_read
@known @slicing @cast:u32
verus! {
pub open spec fn has_nul(s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == 0u8 }
@include strings.inc
@include join.inc
#[verifier::external_body]
pub struct PrefixDict { x: u8 }
#[verifier::external_body]
pub struct ConnectionCostMatrix { x: u8 }
#[verifier::external_body]
pub struct CharacterDefinitions { x: u8 }
#[verifier::external_body]
pub struct UnknownDictionary { x: u8 }
pub proof fn lemma_enc_nul(c: char, j: int) requires 0 <= j < enc(c).len(), enc(c)[j] == 0u8 ensures c == '\0' {
    let x = c as u32 as int;
    assert(x < 0x110000);
    assert(x < 0x80 ==> enc(c)[j] == x);
}
@include details.inc
@include udetails.inc
@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item fn lindera-core/src/word_entry.rs WordId::is_unknown
@spec
  ensures r == (self.0 == u32::MAX)
@end
@item fn lindera-core/src/word_entry.rs WordId::is_system
@spec
  ensures r == self.1
@end
@item struct lindera-tokenizer/src/token.rs Token
@end
// the two dictionaries of the token have a readable record for its id
pub open spec fn token_ok(t: Token) -> bool {
    let id = t.word_id.0 as int;
    &&& t.word_id.1 ==> readable(t.dictionary.words_idx_data@, t.dictionary.words_data@, id)
    &&& !t.word_id.1 && t.user_dictionary is Some && 4 * id < t.user_dictionary->0.words_idx_data@.len() ==> 4 * id + 4 <= t.user_dictionary->0.words_idx_data@.len() && at_idx(t.user_dictionary->0.words_idx_data@, id) <= t.user_dictionary->0.words_data@.len()
}
pub open spec fn unk() -> Seq<Seq<char>> { seq![seq!['U', 'N', 'K']] }
// d is what the token's details are
pub open spec fn right(t: Token, d: Option<Seq<Seq<char>>>) -> bool {
    let id = t.word_id.0 as int;
    if t.details is Some { d == Some(dv(t.details->0@)) }
    else if id == u32::MAX { d == Some(unk()) }
    else if t.word_id.1 { d == says(t.dictionary.words_idx_data@, t.dictionary.words_data@, id) }
    else {
        match t.user_dictionary {
            None => d is None,
            Some(u) => if 4 * id >= u.words_idx_data@.len() { d is None } else { forall|x: Seq<Seq<char>>| begins(u.words_data@.skip(at_idx(u.words_idx_data@, id)), #[trigger] bc(x)) ==> d == Some(x) },
        }
    }
}
pub open spec fn shown(r: Option<Vec<&str>>) -> Option<Seq<Seq<char>>> { match r { Some(v) => Some(Seq::new(v@.len(), |i: int| v@[i]@)), None => None } }
pub open spec fn kept(t: Token) -> Option<Seq<Seq<char>>> { match t.details { Some(v) => Some(dv(v@)), None => None } }
pub open spec fn rest_same(a: Token, b: Token) -> bool { a.text == b.text && a.byte_start == b.byte_start && a.byte_end == b.byte_end && a.position == b.position && a.position_length == b.position_length && a.word_id == b.word_id && a.dictionary == b.dictionary && a.user_dictionary == b.user_dictionary }
@item fn lindera-tokenizer/src/token.rs UNK
@rettype Vec<&'static str>
@spec
  ensures r@.len() == 1, r@[0]@ == seq!['U', 'N', 'K']
@at start
  proof { reveal_strlit("UNK"); assert("UNK"@ =~= seq!['U', 'N', 'K']); }
@end
@item fn lindera-tokenizer/src/token.rs Token::new
@spec
  ensures r.details is None, r.text@ == text@, r.byte_start == start, r.byte_end == end, r.position == position, r.position_length == 1, r.word_id == word_id, r.dictionary == dictionary, r.user_dictionary == user_dictionary
@end
@item fn lindera-tokenizer/src/token.rs Token::details
@ty v Vec<&str>
@spec
  ensures shown(r) == kept(*self)
@loop 0
  invariant
    self.details is Some, it0.seq().len() == self.details->0@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.details->0@[k],
    v@.len() == it0.index(), forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@ == self.details->0@[k]@
@at tail
  proof { if self.details is Some { assert(shown(vx_ret)->0 =~= dv(self.details->0@)); } }
@end
@item fn lindera-tokenizer/src/token.rs Token::get_details
@ty vxc1 Vec<String>
@replace UNK.iter() ==> UNK().iter()
@spec
  requires token_ok(*old(self)),
  ensures right(*old(self), shown(r)), rest_same(*final(self), *old(self)), kept(*final(self)) == shown(r)
@loop 0
  invariant
    it0.seq().len() == 1, (*it0.seq()[0])@ == seq!['U', 'N', 'K'], vxc1@.len() == it0.index(), it0.index() == 1 ==> vxc1@[0]@ == seq!['U', 'N', 'K']
@at loop 0 after
  proof { assert(dv(vxc1@) =~= unk()); }
@end
@item fn lindera-tokenizer/src/token.rs Token::set_details
@spec
  ensures final(self).details == details, rest_same(*final(self), *old(self)), *r == *final(self)
@end
} // verus!
fn main() {}
