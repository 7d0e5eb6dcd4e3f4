@unit prefix_dict
@include prelude.inc
@include text.inc
@include trie.inc
@method contains => vx_contains
@method as_bytes => fn vx_bytes
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
verus! {
@include lookup.inc
} // verus!
fn main() {}
