#!/usr/bin/env python3
"""Writes contracts/builders.vspec: the contracts of the five kinds' builders, which differ only in the facts of the kind."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
# module, file, type, encoding constant?, encoding, unk fields, (flexible, normalize, skip), user detailed fields, user flexible, simple details
KINDS = [
    ("ipadic", "lindera-ipadic-builder/src/ipadic_builder.rs", "IpadicBuilder", True, "EUC-JP", 11, ("false", "true", "false"), 13, "true",
     ["r[1]", "*", "*", "*", "*", "*", "r[0]", "r[2]", "*"]),
    ("neologd", "lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs", "IpadicNeologdBuilder", False, "UTF-8", 11, ("false", "true", "false"), 13, "true",
     ["r[1]", "*", "*", "*", "*", "*", "r[0]", "r[2]", "*"]),
    ("unidic", "lindera-unidic-builder/src/unidic_builder.rs", "UnidicBuilder", False, "UTF-8", 10, ("false", "false", "false"), 21, "false",
     ["r[1]", "*", "*", "*", "*", "*", "r[2]"] + ["*"] * 10),
    ("kodic", "lindera-ko-dic-builder/src/ko_dic_builder.rs", "KoDicBuilder", False, "UTF-8", 12, ("false", "false", "false"), 12, "false",
     ["r[1]", "*", "*", "r[2]", "*", "*", "*", "*"]),
    ("cedict", "lindera-cc-cedict-builder/src/cc_cedict_builder.rs", "CcCedictBuilder", False, "UTF-8", 10, ("true", "false", "true"), 12, "false",
     ["r[1]", "*", "*", "*", "r[2]", "*", "*", "*"]),
]
out = [open(os.path.join(HERE, "builders_head.txt")).read()]
names = []
for n, (mod, f, ty, const, enc, unk, (flex, norm, skip), det, uflex, simple) in enumerate(KINDS):
    items = ", ".join('"*"@' if x == "*" else x for x in simple)
    E = f'"{enc}"@'
    consts = ["SIMPLE_USERDIC_FIELDS_NUM", "SIMPLE_WORD_COST", "SIMPLE_CONTEXT_ID", "DETAILED_USERDIC_FIELDS_NUM", "COMPRESS_ALGORITHM", "UNK_FIELDS_NUM"] + (["ENCODING"] if const else [])
    cs = "\n".join(f"@item const {f} {c}\n@end" for c in consts)
    out.append(f'''// ==== {ty} ====
pub mod {mod} {{
use super::*;
{cs}
@item struct {f} {ty}
@end
// a row of three fields: surface, part of speech, reading (or pinyin)
pub open spec fn simple(r: Seq<Seq<char>>) -> Seq<Seq<char>> {{ seq![{items}] }}
@item fn {f} {ty}::build_user_dict#0
@as simple_details
@impl free
@sig (row: &Vec<String>) -> (r: LinderaResult<Vec<String>>)
@spec
  requires row@.len() == 3,
  ensures r is Ok, dv(r->Ok_0@) == simple(dv(row@))
@at tail
  proof {{ assert(dv(vx_ret->Ok_0@) =~= simple(dv(row@))); }}
@end
@item fn {f} {ty}::build_chardef
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> chardef_file({E}, *input_dir, *output_dir, final(vx_fs)@, r->Ok_0)
@end
@item fn {f} {ty}::build_unk
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires unk_small({E}, *input_dir),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> unk_file({E}, {unk}, *input_dir, *output_dir, final(vx_fs)@, *chardef)
@end
@item fn {f} {ty}::build_dict
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  requires dict_small({E}, {flex}, {norm}, *input_dir),
  ensures r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)) && dict_written({E}, {flex}, {norm}, {skip}, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn {f} {ty}::build_cost_matrix
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace .build($$x1) ==> .build(vx_fs, $x1)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> matrix_file({E}, *input_dir, *output_dir, final(vx_fs)@)
@end
@item fn {f} {ty}::build_user_dict
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace Box::new(|$$x1| {{ $$x2 }}) ==> handler({n})
@spec
  requires user_small(*input_file, 3, {det}, {uflex}, {n}),
  ensures r is Ok ==> user_built(*input_file, 3, {det}, -10000, 0, {uflex}, {n}, r->Ok_0)
@end
@item fn {f} {ty}::build_dictionary
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace self.build_chardef($$x1) ==> self.build_chardef(vx_fs, $x1)
@replace self.build_unk($$x1) ==> self.build_unk(vx_fs, $x1)
@replace self.build_dict($$x1) ==> self.build_dict(vx_fs, $x1)
@replace self.build_cost_matrix($$x1) ==> self.build_cost_matrix(vx_fs, $x1)
@spec
  requires unk_small({E}, *input_dir), dict_small({E}, {flex}, {norm}, *input_dir),
  ensures r is Ok ==> compiled_dir({E}, {unk}, {flex}, {norm}, {skip}, *input_dir, *output_dir, final(vx_fs)@)
@at start
  proof {{ lemma_parts(*output_dir); }}
@at call build_dict 0 before
  let ghost vx_f1 = vx_fs@;
@at call build_dict 0 after
  let ghost vx_f2 = vx_fs@;
  proof {{ lemma_kept(*output_dir, vx_f1, vx_f2); assert(unk_file({E}, {unk}, *input_dir, *output_dir, vx_f2, chardef)); assert(chardef_file({E}, *input_dir, *output_dir, vx_f2, chardef)); }}
@at call build_cost_matrix 0 after
  proof {{ lemma_kept2(*output_dir, vx_f2, vx_fs@); assert(unk_file({E}, {unk}, *input_dir, *output_dir, vx_fs@, chardef)); assert(chardef_file({E}, *input_dir, *output_dir, vx_fs@, chardef)); assert(dict_written({E}, {flex}, {norm}, {skip}, *input_dir, *output_dir, vx_fs@)); assert(has_all({E}, {unk}, {flex}, {norm}, {skip}, *input_dir, *output_dir, vx_fs@, chardef)); }}
@end
@item fn {f} {ty}::build_user_dictionary
@sig (&self, vx_fs: &mut VxFs, input_file: &PathBuf, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace build_user_dictionary(user_dict, $x1) ==> build_user_dictionary(vx_fs, user_dict, $x1)
@spec
  requires user_small(*input_file, 3, {det}, {uflex}, {n}),
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> exists|d: UserDictionary| #[trigger] user_built(*input_file, 3, {det}, -10000, 0, {uflex}, {n}, d) && has_file(final(vx_fs)@, *output_file, bin_image(d))
@end
}}
''')
    names.append(mod)
made = " ".join(f"else if h == {i} {{ {m}::simple(r) }}" for i, m in enumerate(names)).replace("else if", "if", 1) + " else { Seq::empty() }"
out.append("pub open spec fn made_by(h: int, r: Seq<Seq<char>>) -> Seq<Seq<char>> { " + made + " }\n} // verus!\nfn main() {}\n")
open(os.path.join(HERE, "..", "contracts", "builders.vspec"), "w").write("\n".join(out))
