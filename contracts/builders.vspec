@unit builders
@include prelude.inc
@include text.inc
@include fsrules.inc
@type StringRecord => Vec<String>
@type Box<dyn Fn(&StringRecord) -> LinderaResult<Vec<String>>> => VxHandler
@method to_string => vx_to_string
impl std::fmt::Debug for LinderaError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
verus! {
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
@include strings.inc
@include files.inc
@item enum lindera-decompress/src/lib.rs Algorithm
@end
#[verifier::external_body]
pub struct CharacterDefinitions { x: u8 }
#[verifier::external_body]
pub struct UserDictionary { x: u8 }
// the n-th kind's closure, lifted below as `simple_details`
pub struct VxHandler { pub n: u8 }
pub fn handler(n: u8) -> (r: VxHandler) ensures r.n == n { VxHandler { n } }
@item struct lindera-dictionary-builder/src/chardef.rs CharDefBuilder
@end
@item options lindera-dictionary-builder/src/chardef.rs CharDefBuilder
@end
@item struct lindera-dictionary-builder/src/unk.rs UnkBuilder
@end
@item options lindera-dictionary-builder/src/unk.rs UnkBuilder
@end
@item struct lindera-dictionary-builder/src/dict.rs DictBuilder
@end
@item options lindera-dictionary-builder/src/dict.rs DictBuilder
@end
@item struct lindera-dictionary-builder/src/cost_matrix.rs CostMatrixBuilder
@end
@item options lindera-dictionary-builder/src/cost_matrix.rs CostMatrixBuilder
@end
@item struct lindera-dictionary-builder/src/user_dict.rs UserDictBuilder
@end
@item options lindera-dictionary-builder/src/user_dict.rs UserDictBuilder
@end
// ---- what the single builders do, as proved in units chardef, unknown, connection, dict and userdict --------
// char.def means these definitions; unk.def, split in so many fields, gives this image; and so on
pub uninterp spec fn means_chars(text: Seq<char>, d: CharacterDefinitions) -> bool;
pub uninterp spec fn means_unk(text: Seq<char>, fields: int, d: CharacterDefinitions, image: Seq<u8>) -> bool;
pub uninterp spec fn means_matrix(text: Seq<char>, image: Seq<u8>) -> bool;
pub uninterp spec fn means_dict(enc: Seq<char>, flexible: bool, norm: bool, skip: bool, dir: PathBuf, da: Seq<u8>, vals: Seq<u8>, words: Seq<u8>, idx: Seq<u8>) -> bool;
pub uninterp spec fn means_user(f: PathBuf, simple: int, detailed: int, cost: int, ctx: int, flexible: bool, handler: int, d: UserDictionary) -> bool;
// the sizes the contracts ask for: fewer than 2^32 lines, 31 entries for a surface, 4 GiB of details
pub uninterp spec fn unk_small(enc: Seq<char>, dir: PathBuf) -> bool;
pub uninterp spec fn dict_small(enc: Seq<char>, flexible: bool, norm: bool, dir: PathBuf) -> bool;
pub uninterp spec fn user_small(f: PathBuf, simple: int, detailed: int, flexible: bool, handler: int) -> bool;
pub open spec fn user_built(f: PathBuf, simple: int, detailed: int, cost: int, ctx: int, flexible: bool, handler: int, d: UserDictionary) -> bool { means_user(f, simple, detailed, cost, ctx, flexible, handler, d) }
pub open spec fn chardef_file(enc: Seq<char>, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>, d: CharacterDefinitions) -> bool {
    means_chars(ptext(enc, pjoin(dir, "char.def"@)), d) && has_file(fs, pjoin(out, "char_def.bin"@), bin_image(d))
}
pub open spec fn unk_file(enc: Seq<char>, fields: int, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>, d: CharacterDefinitions) -> bool {
    fs.contains_key(pjoin(out, "unk.bin"@)) && means_unk(ptext(enc, pjoin(dir, "unk.def"@)), fields, d, fs[pjoin(out, "unk.bin"@)])
}
pub open spec fn matrix_file(enc: Seq<char>, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>) -> bool {
    fs.contains_key(pjoin(out, "matrix.mtx"@)) && means_matrix(ptext(enc, pjoin(dir, "matrix.def"@)), fs[pjoin(out, "matrix.mtx"@)])
}
pub open spec fn dict_files(out: PathBuf) -> Seq<PathBuf> { seq![pjoin(out, "dict.da"@), pjoin(out, "dict.vals"@), pjoin(out, "dict.words"@), pjoin(out, "dict.wordsidx"@)] }
pub open spec fn dict_written(enc: Seq<char>, flexible: bool, norm: bool, skip: bool, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>) -> bool {
    let p = dict_files(out);
    &&& fs.contains_key(p[0]) && fs.contains_key(p[1]) && fs.contains_key(p[2]) && fs.contains_key(p[3])
    &&& means_dict(enc, flexible, norm, skip, dir, fs[p[0]], fs[p[1]], fs[p[2]], fs[p[3]])
}
impl CharDefBuilder {
    #[verifier::external_body]
    pub fn build(&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
        ensures writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)), r is Ok ==> chardef_file(self.encoding@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0) { unimplemented!() }
}
impl UnkBuilder {
    #[verifier::external_body]
    pub fn build(&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
        requires self.unk_fields_num >= 4, unk_small(self.encoding@, *input_dir),
        ensures writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)), r is Ok ==> unk_file(self.encoding@, self.unk_fields_num as int, *input_dir, *output_dir, final(vx_fs)@, *chardef) { unimplemented!() }
}
impl CostMatrixBuilder {
    #[verifier::external_body]
    pub fn build(&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
        ensures writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)), r is Ok ==> matrix_file(self.encoding@, *input_dir, *output_dir, final(vx_fs)@) { unimplemented!() }
}
impl DictBuilder {
    #[verifier::external_body]
    pub fn build(&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
        requires dict_small(self.encoding@, self.flexible_csv, self.normalize_details, *input_dir),
        ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written(self.encoding@, self.flexible_csv, self.normalize_details, self.skip_invalid_cost_or_id, *input_dir, *output_dir, final(vx_fs)@) { unimplemented!() }
}
// the handler is asked about rows of the simple format only
pub open spec fn user_ready(b: UserDictBuilder) -> bool {
    b.simple_userdic_fields_num >= 1 && b.detailed_userdic_fields_num >= 4 && b.simple_userdic_details_handler is Some && b.simple_userdic_fields_num == 3
}
impl UserDictBuilder {
    #[verifier::external_body]
    pub fn build(&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
        requires user_ready(*self), user_small(*input_file, self.simple_userdic_fields_num as int, self.detailed_userdic_fields_num as int, self.flexible_csv, self.simple_userdic_details_handler->0.n as int),
        ensures r is Ok ==> user_built(*input_file, self.simple_userdic_fields_num as int, self.detailed_userdic_fields_num as int, self.simple_word_cost as int, self.simple_context_id as int, self.flexible_csv, self.simple_userdic_details_handler->0.n as int, r->Ok_0) { unimplemented!() }
}
#[verifier::external_body]
pub fn build_user_dictionary(vx_fs: &mut VxFs, user_dict: UserDictionary, output_file: &PathBuf) -> (r: LinderaResult<()>)
    ensures writes(old(vx_fs)@, final(vx_fs)@, *output_file), r is Ok ==> has_file(final(vx_fs)@, *output_file, bin_image(user_dict)) { unimplemented!() }
// ---- C29: the compiled directory has all its parts, made from the sources as the kind reads them
pub open spec fn has_all(enc: Seq<char>, fields: int, flexible: bool, norm: bool, skip: bool, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>, d: CharacterDefinitions) -> bool {
    chardef_file(enc, dir, out, fs, d) && unk_file(enc, fields, dir, out, fs, d) && dict_written(enc, flexible, norm, skip, dir, out, fs) && matrix_file(enc, dir, out, fs)
}
pub open spec fn compiled_dir(enc: Seq<char>, fields: int, flexible: bool, norm: bool, skip: bool, dir: PathBuf, out: PathBuf, fs: Map<PathBuf, Seq<u8>>) -> bool {
    exists|d: CharacterDefinitions| #[trigger] has_all(enc, fields, flexible, norm, skip, dir, out, fs, d)
}
// the seven files are different files
pub open spec fn part_names() -> Seq<Seq<char>> { seq!["char_def.bin"@, "unk.bin"@, "matrix.mtx"@, "dict.da"@, "dict.vals"@, "dict.words"@, "dict.wordsidx"@] }
pub proof fn lemma_part_names() ensures forall|i: int, j: int| 0 <= i < j < 7 ==> #[trigger] part_names()[i] != #[trigger] part_names()[j] {
    reveal_strlit("char_def.bin"); reveal_strlit("unk.bin"); reveal_strlit("matrix.mtx"); reveal_strlit("dict.da"); reveal_strlit("dict.vals"); reveal_strlit("dict.words"); reveal_strlit("dict.wordsidx");
    let n = part_names();
    assert(n[0].len() == 12 && n[1].len() == 7 && n[2].len() == 10 && n[3].len() == 7 && n[4].len() == 9 && n[5].len() == 10 && n[6].len() == 13);
    assert(n[1][0] == 'u' && n[3][0] == 'd');
    assert(n[2][0] == 'm' && n[5][0] == 'd');
}
pub proof fn lemma_parts(out: PathBuf)
    ensures
        ({
            let p = dict_files(out);
            let (a, b, c) = (pjoin(out, "char_def.bin"@), pjoin(out, "unk.bin"@), pjoin(out, "matrix.mtx"@));
            &&& a != b && a != c && b != c && !p.contains(a) && !p.contains(b) && !p.contains(c)
            &&& p.contains(p[0]) && p.contains(p[1]) && p.contains(p[2]) && p.contains(p[3])
            &&& p[0] != c && p[1] != c && p[2] != c && p[3] != c
        })
{
    lemma_part_names();
    let n = part_names();
    let p = dict_files(out);
    assert forall|i: int, j: int| 0 <= i < j < 7 implies pjoin(out, #[trigger] n[i]) != pjoin(out, #[trigger] n[j]) by { ax_pjoin(out, n[i], n[j]); }
    assert(p[0] == pjoin(out, n[3]) && p[1] == pjoin(out, n[4]) && p[2] == pjoin(out, n[5]) && p[3] == pjoin(out, n[6]));
    assert(n[0] == "char_def.bin"@ && n[1] == "unk.bin"@ && n[2] == "matrix.mtx"@);
    assert forall|i: int| 0 <= i < 3 implies !p.contains(pjoin(out, #[trigger] n[i])) by {
        if p.contains(pjoin(out, n[i])) { let k = p.index_of(pjoin(out, n[i])); assert(pjoin(out, n[3 + k]) == pjoin(out, n[i])); }
    }
}
pub open spec fn same_at(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>, q: PathBuf) -> bool { (a.contains_key(q) <==> b.contains_key(q)) && (a.contains_key(q) ==> b[q] == a[q]) }
pub proof fn lemma_kept(out: PathBuf, a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>)
    requires only_writes(a, b, dict_files(out)),
    ensures same_at(a, b, pjoin(out, "char_def.bin"@)), same_at(a, b, pjoin(out, "unk.bin"@)),
{
    lemma_parts(out);
    assert(b.contains_key(pjoin(out, "char_def.bin"@)) <==> a.contains_key(pjoin(out, "char_def.bin"@)));
    assert(b.contains_key(pjoin(out, "unk.bin"@)) <==> a.contains_key(pjoin(out, "unk.bin"@)));
}
pub proof fn lemma_kept2(out: PathBuf, a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>)
    requires writes(a, b, pjoin(out, "matrix.mtx"@)),
    ensures
        same_at(a, b, pjoin(out, "char_def.bin"@)), same_at(a, b, pjoin(out, "unk.bin"@)),
        ({ let p = dict_files(out); same_at(a, b, p[0]) && same_at(a, b, p[1]) && same_at(a, b, p[2]) && same_at(a, b, p[3]) }),
{
    lemma_parts(out);
    let p = dict_files(out);
    assert(b.contains_key(pjoin(out, "char_def.bin"@)) <==> a.contains_key(pjoin(out, "char_def.bin"@)));
    assert(b.contains_key(pjoin(out, "unk.bin"@)) <==> a.contains_key(pjoin(out, "unk.bin"@)));
    assert(b.contains_key(p[0]) <==> a.contains_key(p[0]));
    assert(b.contains_key(p[1]) <==> a.contains_key(p[1]));
    assert(b.contains_key(p[2]) <==> a.contains_key(p[2]));
    assert(b.contains_key(p[3]) <==> a.contains_key(p[3]));
}

// ==== IpadicBuilder ====
pub mod ipadic {
use super::*;
@item const lindera-ipadic-builder/src/ipadic_builder.rs SIMPLE_USERDIC_FIELDS_NUM
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs SIMPLE_WORD_COST
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs SIMPLE_CONTEXT_ID
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs DETAILED_USERDIC_FIELDS_NUM
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs COMPRESS_ALGORITHM
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs UNK_FIELDS_NUM
@end
@item const lindera-ipadic-builder/src/ipadic_builder.rs ENCODING
@end
@item struct lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> { seq![r[1], "*"@, "*"@, "*"@, "*"@, "*"@, r[0], r[2], "*"@] }
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof { assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file("EUC-JP"@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small("EUC-JP"@, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file("EUC-JP"@, 11, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small("EUC-JP"@, false, true, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written("EUC-JP"@, false, true, false, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file("EUC-JP"@, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| { $$x2 }) ==> handler(0)
@spec
  requires user_small(*input_file, 3, 13, true, 0),
  ensures r is Ok ==> user_built(*input_file, 3, 13, -10000, 0, true, 0, r->Ok_0)
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small("EUC-JP"@, *input_dir), dict_small("EUC-JP"@, false, true, *input_dir),
  ensures r is Ok ==> compiled_dir("EUC-JP"@, 11, false, true, false, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof { lemma_parts(*output_dir); }
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof { lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file("EUC-JP"@, 11, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file("EUC-JP"@, *input_dir, *output_dir, vx_f2, chardef)); }
@at call build_cost_matrix 0 after
  proof { lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file("EUC-JP"@, 11, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file("EUC-JP"@, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written("EUC-JP"@, false, true, false, *input_dir, *output_dir, vx_fs@)); assert(has_all("EUC-JP"@, 11, false, true, false, *input_dir, *output_dir, vx_fs@, chardef)); }
@end
@item fn lindera-ipadic-builder/src/ipadic_builder.rs IpadicBuilder::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, 13, true, 0),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, 13, -10000, 0, true, 0, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}

// ==== IpadicNeologdBuilder ====
pub mod neologd {
use super::*;
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs SIMPLE_USERDIC_FIELDS_NUM
@end
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs SIMPLE_WORD_COST
@end
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs SIMPLE_CONTEXT_ID
@end
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs DETAILED_USERDIC_FIELDS_NUM
@end
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs COMPRESS_ALGORITHM
@end
@item const lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs UNK_FIELDS_NUM
@end
@item struct lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> { seq![r[1], "*"@, "*"@, "*"@, "*"@, "*"@, r[0], r[2], "*"@] }
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof { assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file("UTF-8"@, 11, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small("UTF-8"@, false, true, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written("UTF-8"@, false, true, false, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| { $$x2 }) ==> handler(1)
@spec
  requires user_small(*input_file, 3, 13, true, 1),
  ensures r is Ok ==> user_built(*input_file, 3, 13, -10000, 0, true, 1, r->Ok_0)
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir), dict_small("UTF-8"@, false, true, *input_dir),
  ensures r is Ok ==> compiled_dir("UTF-8"@, 11, false, true, false, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof { lemma_parts(*output_dir); }
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof { lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file("UTF-8"@, 11, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_f2, chardef)); }
@at call build_cost_matrix 0 after
  proof { lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file("UTF-8"@, 11, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written("UTF-8"@, false, true, false, *input_dir, *output_dir, vx_fs@)); assert(has_all("UTF-8"@, 11, false, true, false, *input_dir, *output_dir, vx_fs@, chardef)); }
@end
@item fn lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs IpadicNeologdBuilder::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, 13, true, 1),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, 13, -10000, 0, true, 1, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}

// ==== UnidicBuilder ====
pub mod unidic {
use super::*;
@item const lindera-unidic-builder/src/unidic_builder.rs SIMPLE_USERDIC_FIELDS_NUM
@end
@item const lindera-unidic-builder/src/unidic_builder.rs SIMPLE_WORD_COST
@end
@item const lindera-unidic-builder/src/unidic_builder.rs SIMPLE_CONTEXT_ID
@end
@item const lindera-unidic-builder/src/unidic_builder.rs DETAILED_USERDIC_FIELDS_NUM
@end
@item const lindera-unidic-builder/src/unidic_builder.rs COMPRESS_ALGORITHM
@end
@item const lindera-unidic-builder/src/unidic_builder.rs UNK_FIELDS_NUM
@end
@item struct lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> { seq![r[1], "*"@, "*"@, "*"@, "*"@, "*"@, r[2], "*"@, "*"@, "*"@, "*"@, "*"@, "*"@, "*"@, "*"@, "*"@, "*"@] }
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof { assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file("UTF-8"@, 10, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small("UTF-8"@, false, false, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written("UTF-8"@, false, false, false, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| { $$x2 }) ==> handler(2)
@spec
  requires user_small(*input_file, 3, 21, false, 2),
  ensures r is Ok ==> user_built(*input_file, 3, 21, -10000, 0, false, 2, r->Ok_0)
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir), dict_small("UTF-8"@, false, false, *input_dir),
  ensures r is Ok ==> compiled_dir("UTF-8"@, 10, false, false, false, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof { lemma_parts(*output_dir); }
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof { lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file("UTF-8"@, 10, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_f2, chardef)); }
@at call build_cost_matrix 0 after
  proof { lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file("UTF-8"@, 10, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written("UTF-8"@, false, false, false, *input_dir, *output_dir, vx_fs@)); assert(has_all("UTF-8"@, 10, false, false, false, *input_dir, *output_dir, vx_fs@, chardef)); }
@end
@item fn lindera-unidic-builder/src/unidic_builder.rs UnidicBuilder::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, 21, false, 2),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, 21, -10000, 0, false, 2, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}

// ==== KoDicBuilder ====
pub mod kodic {
use super::*;
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs SIMPLE_USERDIC_FIELDS_NUM
@end
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs SIMPLE_WORD_COST
@end
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs SIMPLE_CONTEXT_ID
@end
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs DETAILED_USERDIC_FIELDS_NUM
@end
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs COMPRESS_ALGORITHM
@end
@item const lindera-ko-dic-builder/src/ko_dic_builder.rs UNK_FIELDS_NUM
@end
@item struct lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> { seq![r[1], "*"@, "*"@, r[2], "*"@, "*"@, "*"@, "*"@] }
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof { assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file("UTF-8"@, 12, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small("UTF-8"@, false, false, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written("UTF-8"@, false, false, false, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| { $$x2 }) ==> handler(3)
@spec
  requires user_small(*input_file, 3, 12, false, 3),
  ensures r is Ok ==> user_built(*input_file, 3, 12, -10000, 0, false, 3, r->Ok_0)
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir), dict_small("UTF-8"@, false, false, *input_dir),
  ensures r is Ok ==> compiled_dir("UTF-8"@, 12, false, false, false, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof { lemma_parts(*output_dir); }
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof { lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file("UTF-8"@, 12, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_f2, chardef)); }
@at call build_cost_matrix 0 after
  proof { lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file("UTF-8"@, 12, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written("UTF-8"@, false, false, false, *input_dir, *output_dir, vx_fs@)); assert(has_all("UTF-8"@, 12, false, false, false, *input_dir, *output_dir, vx_fs@, chardef)); }
@end
@item fn lindera-ko-dic-builder/src/ko_dic_builder.rs KoDicBuilder::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, 12, false, 3),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, 12, -10000, 0, false, 3, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}

// ==== CcCedictBuilder ====
pub mod cedict {
use super::*;
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs SIMPLE_USERDIC_FIELDS_NUM
@end
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs SIMPLE_WORD_COST
@end
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs SIMPLE_CONTEXT_ID
@end
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs DETAILED_USERDIC_FIELDS_NUM
@end
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs COMPRESS_ALGORITHM
@end
@item const lindera-cc-cedict-builder/src/cc_cedict_builder.rs UNK_FIELDS_NUM
@end
@item struct lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> { seq![r[1], "*"@, "*"@, "*"@, r[2], "*"@, "*"@, "*"@] }
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof { assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file("UTF-8"@, 10, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small("UTF-8"@, true, false, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written("UTF-8"@, true, false, true, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file("UTF-8"@, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| { $$x2 }) ==> handler(4)
@spec
  requires user_small(*input_file, 3, 12, false, 4),
  ensures r is Ok ==> user_built(*input_file, 3, 12, -10000, 0, false, 4, r->Ok_0)
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small("UTF-8"@, *input_dir), dict_small("UTF-8"@, true, false, *input_dir),
  ensures r is Ok ==> compiled_dir("UTF-8"@, 10, true, false, true, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof { lemma_parts(*output_dir); }
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof { lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file("UTF-8"@, 10, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_f2, chardef)); }
@at call build_cost_matrix 0 after
  proof { lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file("UTF-8"@, 10, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file("UTF-8"@, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written("UTF-8"@, true, false, true, *input_dir, *output_dir, vx_fs@)); assert(has_all("UTF-8"@, 10, true, false, true, *input_dir, *output_dir, vx_fs@, chardef)); }
@end
@item fn lindera-cc-cedict-builder/src/cc_cedict_builder.rs CcCedictBuilder::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, 12, false, 4),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, 12, -10000, 0, false, 4, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}

pub open spec fn made_by(h: int, r: Seq<Seq<char>>) -> Seq<Seq<char>> { if h == 0 { ipadic::simple(r) } else if h == 1 { neologd::simple(r) } else if h == 2 { unidic::simple(r) } else if h == 3 { kodic::simple(r) } else if h == 4 { cedict::simple(r) } else { Seq::empty() } }
} // verus!
fn main() {}
