@unit unknown
@include prelude.inc
@include cast.inc
@include str.inc
@include text.inc
@include fsrules.inc
@type Algorithm => u8
@type LookupTable<CategoryId> => VxTable
@call bincode::serialize_into => vx_bin_write
@call u32::from_str => vx_parse_u32
@call i32::from_str => vx_parse_i32
@call u16::from_str => vx_parse_u16
@call i16::from_str => vx_parse_i16
@known @cast:u16 @cast:i16 @cast:u32
verus! {
@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item struct lindera-core/src/word_entry.rs WordEntry derive(Clone, Copy)
@end
@item struct lindera-core/src/character_definition.rs CategoryId derive(Clone, Copy)
@end
@item struct lindera-core/src/unknown_dictionary.rs UnknownDictionary
@end
@item struct lindera-core/src/unknown_dictionary.rs UnknownDictionaryEntry
@end
@item fn lindera-core/src/unknown_dictionary.rs UnknownDictionary::word_entry
@spec
  requires word_id < self.costs@.len(),
  ensures r == self.costs@[word_id as int]
@end
@item fn lindera-core/src/unknown_dictionary.rs UnknownDictionary::lookup_word_ids
@spec
  requires category_id.0 < self.category_references@.len(),
  ensures r@ == self.category_references@[category_id.0 as int]@
@end
// a row: surface, left id, right id, cost, and details
pub open spec fn row_ok(f: Seq<Seq<char>>, n: int) -> bool {
    f.len() == n && num_in(f[1], 0, 65535) && num_in(f[2], 0, 65535) && num_in(f[3], -32768, 32767)
}
pub open spec fn entry_is(e: UnknownDictionaryEntry, f: Seq<Seq<char>>) -> bool {
    e.surface@ == f[0] && e.left_id as int == num_of(f[1]).unwrap() && e.right_id as int == num_of(f[2]).unwrap() && e.word_cost as int == num_of(f[3]).unwrap()
}
@item fn lindera-core/src/unknown_dictionary.rs parse_dictionary_entry
@spec
  requires expected_fields_len >= 4,
  ensures
    r is Ok <==> row_ok(strs(fields@), expected_fields_len as int),
    r is Ok ==> entry_is(r->Ok_0, strs(fields@))
@at start
  let ghost fs = strs(fields@);
@end
// the rows whose surface is the category name, in file order
pub open spec fn positions(es: Seq<UnknownDictionaryEntry>, name: Seq<char>) -> Seq<u32> decreases es.len() {
    if es.len() == 0 { Seq::empty() }
    else {
        let p = positions(es.drop_last(), name);
        if es.last().surface@ == name { p.push((es.len() - 1) as u32) } else { p }
    }
}
@item fn lindera-core/src/unknown_dictionary.rs get_entry_id_matching_surface
@ty vxc1 Vec<u32>
@spec
  requires entries@.len() < 4294967296,
  ensures r@ == positions(entries@, target_surface@)
@loop 0
  invariant
    entries@.len() < 4294967296, it0.seq().len() == entries@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *#[trigger] it0.seq()[k] == entries@[k],
    vxn3 == it0.index(), vxc1@ == positions(entries@.take(it0.index()), target_surface@)
@at loop 0 body_start
  proof { assert(entries@.take(it0.index() + 1).drop_last() =~= entries@.take(it0.index())); }
@at tail
  proof { assert(entries@.take(entries@.len() as int) =~= entries@); }
@end
@item fn lindera-core/src/unknown_dictionary.rs make_category_references
@ty vxc1 Vec<Vec<u32>>
@spec
  requires entries@.len() < 4294967296,
  ensures
    r@.len() == categories@.len(),
    forall|c: int| 0 <= c < categories@.len() ==> (#[trigger] r@[c])@ == positions(entries@, categories@[c]@)
@loop 0
  invariant
    entries@.len() < 4294967296, vxc1@.len() == it0.index(), it0.seq().len() == categories@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *#[trigger] it0.seq()[k] == categories@[k],
    forall|c: int| 0 <= c < it0.index() ==> (#[trigger] vxc1@[c])@ == positions(entries@, categories@[c]@)
@end
pub open spec fn fits(e: UnknownDictionaryEntry) -> bool { e.left_id < 65536 && e.right_id < 65536 && -32768 <= e.word_cost <= 32767 }
pub open spec fn word_of(e: UnknownDictionaryEntry) -> WordEntry {
    WordEntry { word_id: WordId(0xffff_ffff, true), word_cost: e.word_cost as i16, left_id: e.left_id as u16, right_id: e.right_id as u16 }
}
@item fn lindera-core/src/unknown_dictionary.rs make_costs_array
@ty vxc1 Vec<WordEntry>
@spec
  requires forall|i: int| 0 <= i < entries@.len() ==> fits(#[trigger] entries@[i]),
  ensures
    r@.len() == entries@.len(),
    forall|i: int| 0 <= i < entries@.len() ==> #[trigger] r@[i] == word_of(entries@[i])
@loop 0
  invariant
    vxc1@.len() == it0.index(), it0.seq().len() == entries@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *#[trigger] it0.seq()[k] == entries@[k],
    forall|i: int| 0 <= i < entries@.len() ==> fits(#[trigger] entries@[i]),
    forall|i: int| 0 <= i < it0.index() ==> #[trigger] vxc1@[i] == word_of(entries@[i])
@end
// what a well-formed definition defines
pub open spec fn row(content: Seq<char>, i: int) -> Seq<Seq<char>> { split_on(lines_of(content)[i], ',') }
pub open spec fn all_rows_ok(content: Seq<char>, n: int) -> bool {
    forall|i: int| 0 <= i < lines_of(content).len() ==> row_ok(#[trigger] row(content, i), n)
}
pub open spec fn unk_defines(content: Seq<char>, categories: Seq<String>, d: UnknownDictionary) -> bool {
    &&& d.category_references@.len() == categories.len()
    &&& d.costs@.len() == lines_of(content).len()
    &&& exists|es: Seq<UnknownDictionaryEntry>| #[trigger] defined_by(content, categories, d, es)
}
pub open spec fn defined_by(content: Seq<char>, categories: Seq<String>, d: UnknownDictionary, es: Seq<UnknownDictionaryEntry>) -> bool {
    &&& es.len() == lines_of(content).len()
    &&& forall|i: int| 0 <= i < es.len() ==> entry_is(#[trigger] es[i], row(content, i))
    &&& forall|i: int| 0 <= i < es.len() ==> d.costs@[i] == #[trigger] word_of(es[i])
    &&& forall|c: int| 0 <= c < categories.len() ==> (#[trigger] d.category_references@[c])@ == positions(es, categories[c]@)
}
@item fn lindera-core/src/unknown_dictionary.rs parse_unk
@replace file_content.lines() ==> vx_lines(file_content)
@replace line.split(',').collect::<Vec<&str>>() ==> vx_split(line, ',')
@ty unknown_dict_entries Vec<UnknownDictionaryEntry>
@spec
  requires expected_fields_len >= 4, lines_of(file_content@).len() < 4294967296,
  ensures
    r is Ok <==> all_rows_ok(file_content@, expected_fields_len as int),
    r is Ok ==> unk_defines(file_content@, categories@, r->Ok_0)
@loop 0
  invariant
    expected_fields_len >= 4, strs(it0.seq()) == lines_of(file_content@),
    unknown_dict_entries@.len() == it0.index(),
    forall|i: int| 0 <= i < it0.index() ==> row_ok(#[trigger] row(file_content@, i), expected_fields_len as int),
    forall|i: int| 0 <= i < it0.index() ==> entry_is(#[trigger] unknown_dict_entries@[i], row(file_content@, i))
@at loop 0 after
  proof {
    assert forall|i: int| 0 <= i < unknown_dict_entries@.len() implies fits(#[trigger] unknown_dict_entries@[i]) by {
      assert(row_ok(row(file_content@, i), expected_fields_len as int));
      assert(entry_is(unknown_dict_entries@[i], row(file_content@, i)));
    }
    assert(unknown_dict_entries@.subrange(0, unknown_dict_entries@.len() as int) =~= unknown_dict_entries@);
  }
@at loop 0 body_start
  proof {
    assert(line@ == strs(it0.seq())[it0.index() as int]);
    assert(row(file_content@, it0.index() as int) == split_on(line@, ','));
  }
@at tail
  proof {
    let es = unknown_dict_entries@;
    let d = vx_ret->Ok_0;
    assert forall|i: int| 0 <= i < es.len() implies d.costs@[i] == #[trigger] word_of(es[i]) by { let x = d.costs@[i]; }
    assert(es.subrange(0, es.len() as int) =~= es);
    assert(es.len() == lines_of(file_content@).len());
    assert(forall|i: int| 0 <= i < es.len() ==> entry_is(#[trigger] es[i], row(file_content@, i)));
    assert(forall|c: int| 0 <= c < categories@.len() ==> (#[trigger] d.category_references@[c])@ == positions(es, categories@[c]@));
    assert(defined_by(file_content@, categories@, d, es));
  }
@end
// C25: the entries of a category are exactly the rows naming it, in file order
pub proof fn c25_positions(es: Seq<UnknownDictionaryEntry>, name: Seq<char>)
    requires es.len() < 4294967296,
    ensures
        forall|i: int| 0 <= i < es.len() ==> (positions(es, name).contains(i as u32) <==> #[trigger] es[i].surface@ == name),
        forall|k: int| 0 <= k < positions(es, name).len() ==> #[trigger] positions(es, name)[k] < es.len(),
        forall|a: int, b: int| 0 <= a < b < positions(es, name).len() ==> positions(es, name)[a] < positions(es, name)[b],
    decreases es.len()
{
    if es.len() > 0 {
        let q = es.drop_last();
        c25_positions(q, name);
        let p = positions(q, name);
        let n = (es.len() - 1) as u32;
        if es.last().surface@ == name {
            assert(p.push(n)[p.len() as int] == n);
            assert forall|i: int| 0 <= i < es.len() implies (p.push(n).contains(i as u32) <==> #[trigger] es[i].surface@ == name) by {
                if i < es.len() - 1 {
                    assert(q[i] == es[i]);
                    if p.contains(i as u32) {
                        let k = p.index_of(i as u32);
                        assert(p.push(n)[k] == i as u32);
                    }
                    if p.push(n).contains(i as u32) {
                        let k = p.push(n).index_of(i as u32);
                        assert(p[k] == i as u32);
                    }
                }
            }
        } else {
            assert forall|i: int| 0 <= i < es.len() implies (p.contains(i as u32) <==> #[trigger] es[i].surface@ == name) by {
                if i < es.len() - 1 { assert(q[i] == es[i]); }
                else if p.contains(i as u32) { let k = p.index_of(i as u32); assert(p[k] < q.len()); }
            }
        }
    }
}
// ---- the builder: unk.def in, unk.bin out ------------------------------------------------------------
@include files.inc
@item struct lindera-core/src/character_definition.rs CategoryData derive(Clone, Copy)
@end
#[verifier::external_body]
pub struct VxTable { x: u8 }
@item struct lindera-core/src/character_definition.rs CharacterDefinitions
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::categories
@spec
  ensures r@ == self.category_names@
@end
@item struct lindera-dictionary-builder/src/unk.rs UnkBuilder
@end
@item fn lindera-dictionary-builder/src/unk.rs UnkBuilder::build
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, chardef: &CharacterDefinitions, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace debug!($$x1); ==>
@replace &self.encoding ==> self.encoding.as_str()
@replace File::create($x1) ==> File::create(vx_fs, $x1)
@replace wtr_unk.flush() ==> wtr_unk.vx_flush(vx_fs)
@spec
  requires self.unk_fields_num >= 4, lines_of(ptext(self.encoding@, pjoin(*input_dir, "unk.def"@))).len() < 4294967296,
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "unk.bin"@)),
    r is Ok ==> {
        let text = ptext(self.encoding@, pjoin(*input_dir, "unk.def"@));
        all_rows_ok(text, self.unk_fields_num as int)
            && exists|d: UnknownDictionary| unk_defines(text, chardef.category_names@, d) && has_file(final(vx_fs)@, pjoin(*output_dir, "unk.bin"@), #[trigger] bin_image(d))
    }
@end
} // verus!
fn main() {}
