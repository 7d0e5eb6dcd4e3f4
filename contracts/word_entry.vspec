@unit word_entry
@include prelude.inc
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@method write_u32::<LittleEndian> => vx_write_u32_le
@method write_u16::<LittleEndian> => vx_write_u16_le
@method write_i16::<LittleEndian> => vx_write_i16_le
verus! {
@include ser.inc
@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item struct lindera-core/src/word_entry.rs WordEntry derive(Clone, Copy)
@end
@item const lindera-core/src/word_entry.rs WordEntry::SERIALIZED_LEN
@end
pub open spec fn dec_entry(d: Seq<u8>, sys: bool) -> WordEntry {
    WordEntry {
        word_id: WordId(le4(d.subrange(0, 4)) as u32, sys),
        word_cost: i16_of(le2(d.subrange(4, 6))) as i16,
        left_id: le2(d.subrange(6, 8)) as u16,
        right_id: le2(d.subrange(8, 10)) as u16,
    }
}
@item fn lindera-core/src/word_entry.rs WordId::is_unknown
@spec
  ensures r == (self.0 == 0xffff_ffffu32)
@end
@item fn lindera-core/src/word_entry.rs WordId::is_system
@spec
  ensures r == self.1
@end
@item fn lindera-core/src/word_entry.rs WordId::default
@impl impl WordId
@spec
  ensures r.0 == 0xffff_ffffu32, r.1
@end
@item fn lindera-core/src/word_entry.rs WordEntry::left_id
@spec
  ensures r == self.left_id
@end
@item fn lindera-core/src/word_entry.rs WordEntry::right_id
@spec
  ensures r == self.right_id
@end
@item fn lindera-core/src/word_entry.rs WordEntry::deserialize
@spec
  requires data@.len() >= 10,
  ensures r == dec_entry(data@, is_system_entry)
@end
pub proof fn c05_len() ensures WordEntry::SERIALIZED_LEN == 10 {}
} // verus!
fn main() {}
