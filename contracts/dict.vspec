@unit dict
@include prelude.inc
@include cast.inc
@include text.inc
@include slice.inc
@include split.inc
@include trie.inc
@include strbuild.inc
@include dabuild.inc
@include fsrules.inc
@call Box::new => vx_boxed
@call DecodeReaderBytesBuilder::new => VxDecoder::new
@call csv::ReaderBuilder::new => VxCsv::new
@call Pattern::escape => vx_glob_escape
@call glob => vx_glob
@type Box<dyn Read> => VxSrc
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@method write_u32::<LittleEndian> => vx_write_u32_le
@method write_u16::<LittleEndian> => vx_write_u16_le
@method write_i16::<LittleEndian> => vx_write_i16_le
@method write_all => vx_write_all
@call i16::from_str => vx_parse_i16
@call u16::from_str => vx_parse_u16
@call u32::try_from => vx_u32_try
@call DoubleArrayBuilder::build => vx_da_build
@call DoubleArray::new => vx_da_new
@method trim => vx_trim
@method replace => vx_replace
@type StringRecord => Vec<String>
@type BTreeMap<String, Vec<WordEntry>> => VxEntryMap
@call BTreeMap::new => VxEntryMap::new
@type Algorithm => u8
@call str::from_utf8 => vx_from_utf8
@method try_into => vx_try_usize
@method contains => vx_contains
@method len => vx_len
@method to_string => vx_to_string
@type PrefixDict<Vec<u8>> => PrefixDict
@type Cow<'static, [u8]> => Vec<u8>
@known @slicing @cast:u32
verus! {
@include strings.inc
@include join.inc
@include lookup.inc
#[verifier::external_body]
pub struct ConnectionCostMatrix { x: u8 }
#[verifier::external_body]
pub struct CharacterDefinitions { x: u8 }
#[verifier::external_body]
pub struct UnknownDictionary { x: u8 }
pub proof fn lemma_enc_nul(c: char, j: int) requires 0 <= j < enc(c).len(), enc(c)[j] == 0u8 ensures c == '\0' {
    let x = c as u32 as int;
    assert(x < 0x110000);
    assert(x < 0x80 ==> enc(c)[j] == x);
}
@include details.inc
@include nums.inc
@include ser.inc
@include build.inc
@include builder.inc
} // verus!
fn main() {}
