@unit userdict
@include prelude.inc
@include cast.inc
@include text.inc
@include slice.inc
@include split.inc
@include trie.inc
@include strbuild.inc
@include dabuild.inc
@include fsrules.inc
@call csv::ReaderBuilder::new => VxCsv::new
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@method write_u32::<LittleEndian> => vx_write_u32_le
@method write_u16::<LittleEndian> => vx_write_u16_le
@method write_i16::<LittleEndian> => vx_write_i16_le
@method write_all => vx_write_all
@call i16::from_str => vx_parse_i16
@call u16::from_str => vx_parse_u16
@call u32::try_from => vx_u32_try
@call DoubleArrayBuilder::build => vx_da_build
@call DoubleArray::new => vx_da_new
@method trim => vx_trim
@method replace => vx_replace
@type StringRecord => Vec<String>
@type BTreeMap<String, Vec<WordEntry>> => VxEntryMap
@call BTreeMap::new => VxEntryMap::new
@type Algorithm => u8
@call str::from_utf8 => vx_from_utf8
@method try_into => vx_try_usize
@method contains => vx_contains
@method len => vx_len
@method to_string => vx_to_string
@type PrefixDict<Vec<u8>> => PrefixDict
@type Cow<'static, [u8]> => Vec<u8>
@call bincode::serialize_into => vx_bc_write
@call bincode::deserialize_from => vx_bc_read
@method parse::<i16> => fn& vx_parse_i16
@method parse::<u16> => fn& vx_parse_u16
@type Box<dyn Fn(&StringRecord) -> LinderaResult<Vec<String>>> => VxHandler
@known @slicing @cast:u32
verus! {
@include strings.inc
@include join.inc
@include lookup.inc
@include nums.inc
@include ser.inc
@include build.inc
@include section.inc
@include files.inc
@include csv.inc
@include udetails.inc
// trusted: the handler makes the details of a simple row
#[verifier::external_body]
pub struct VxHandler { x: u8 }
pub uninterp spec fn made(h: VxHandler, r: Seq<Seq<char>>) -> Seq<Seq<char>>;
impl VxHandler {
    #[verifier::external_body]
    pub fn call(&self, r: &Vec<String>) -> (d: Result<Vec<String>, LinderaError>) ensures d is Ok ==> dv(d->Ok_0@) == made(*self, dv(r@)) { unimplemented!() }
}
@item struct lindera-dictionary-builder/src/user_dict.rs UserDictBuilder
@end
// ---- what the rows say ----------------------------------------------------------------------------------
pub open spec fn is_simple(b: UserDictBuilder, r: Seq<Seq<char>>) -> bool { r.len() == b.simple_userdic_fields_num }
pub open spec fn is_detailed(b: UserDictBuilder, r: Seq<Seq<char>>) -> bool { r.len() >= b.detailed_userdic_fields_num && num_in(r[3], -32768, 32767) && num_in(r[1], 0, 65535) && num_in(r[2], 0, 65535) }
pub open spec fn usr_entry(b: UserDictBuilder, r: Seq<Seq<char>>, id: int) -> Option<(Seq<char>, WordEntry)> {
    if is_simple(b, r) { Some((r[0], WordEntry { word_id: WordId(id as u32, false), word_cost: b.simple_word_cost, left_id: b.simple_context_id, right_id: b.simple_context_id })) }
    else if is_detailed(b, r) { Some((r[0], WordEntry { word_id: WordId(id as u32, false), word_cost: num_of(r[3]).unwrap() as i16, left_id: num_of(r[1]).unwrap() as u16, right_id: num_of(r[2]).unwrap() as u16 })) }
    else { None }
}
pub open spec fn usr_entries(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>) -> Seq<Option<(Seq<char>, WordEntry)>> { Seq::new(rows.len(), |i: int| usr_entry(b, rows[i], i)) }
pub open spec fn usr_detail(b: UserDictBuilder, r: Seq<Seq<char>>) -> Seq<Seq<char>> {
    if is_simple(b, r) { match b.simple_userdic_details_handler { Some(h) => made(h, r), None => r.skip(1) } } else { r.skip(4) }
}
pub open spec fn usr_recs(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>) -> Seq<Seq<u8>> { Seq::new(rows.len(), |i: int| bc(usr_detail(b, rows[i]))) }
pub open spec fn all_rows(es: Seq<Option<(Seq<char>, WordEntry)>>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Some }
// at most 31 rows for a surface, less than 4 GiB of details
pub open spec fn usr_rows_small(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>) -> bool {
    &&& rows.len() < 0x400_0000
    &&& all_rows(usr_entries(b, rows)) ==> sparse(usr_entries(b, rows)) && recs(usr_recs(b, rows), rows.len() as int).len() < 0x1_0000_0000
}
// C08: every row is in one of the two formats, is found by its surface, and its details are stored under its id
pub open spec fn usr_built(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>, d: UserDictionary) -> bool {
    &&& all_rows(usr_entries(b, rows)) && keyable(usr_entries(b, rows))
    &&& !d.dict.is_system
    &&& finds(d.dict, usr_entries(b, rows))
    &&& stored(d.words_idx_data@, d.words_data@, usr_recs(b, rows))
}
pub open spec fn usr_builds_from(b: UserDictBuilder, src: Seq<Seq<Seq<char>>>) -> bool { forall|rows: Seq<Seq<Seq<char>>>| #[trigger] permuted(src, rows) ==> usr_rows_small(b, rows) }
@item fn lindera-dictionary-builder/src/user_dict.rs UserDictBuilder::build
@sig (&self, input_file: &PathBuf) -> (r: LinderaResult<UserDictionary>)
@replace rows.sort_by_key($$x1) ==> vx_sort_rows(&mut rows)
@replace word_entry_map.entry($x1).or_default().push($$x2) ==> word_entry_map.vx_add($x1, $x2)
@replace key.contains(&0) ==> key.vx_has_nul()
@replace in &word_entry_map ==> in word_entry_map.vx_pairs()
@replace handler(row) ==> handler.call(row)
@spec
  requires
    self.simple_userdic_fields_num >= 1, self.detailed_userdic_fields_num >= 4,
    usr_builds_from(*self, unwrapped(csv_recs(file(*input_file)->0, self.flexible_csv))),
  ensures r is Ok ==> {
    let recs = csv_recs(file(*input_file)->0, self.flexible_csv);
    all_read(recs) && exists|rows: Seq<Seq<Seq<char>>>| #[trigger] permuted(unwrapped(recs), rows) && usr_built(*self, rows, r->Ok_0)
  }
@ty tmp_word_detail Vec<String>
@at start
  hide(utf8); hide(joined); hide(split_on); hide(has_nul); hide(enc4);
@ty rows Vec<Vec<String>>
@loop 0
  invariant
    read_as(it0.seq(), c), all_read(c.take(it0.index() as int)), rv(rows@) =~= unwrapped(c.take(it0.index() as int)),
    forall|k: int| 0 <= k < rows@.len() ==> (#[trigger] rows@[k])@.len() > 0
@at loop 0 before
  let ghost c = rdr.recs();
  proof { assert(c =~= csv_recs(file(*input_file)->0, self.flexible_csv)); }
@at loop 0 body_start
  let ghost j = it0.index() as int;
  let ghost rj = rows@;
  proof { assert(result == it0.seq()[j]); assert(c.take(j + 1) =~= c.take(j).push(c[j])); assert(forall|k: int| 0 <= k < c.take(j).len() ==> c.take(j)[k] == c[k]); }
@at loop 0 body_end
  proof { assert(rv(rows@) =~= rv(rj).push(c[j]->0)); assert(unwrapped(c.take(j + 1)) =~= unwrapped(c.take(j)).push(c[j]->0)); }
@at loop 0 after
  proof { assert(c.take(c.len() as int) =~= c); }
@at let word_entry_map 0 before
  let ghost b = *self;
  let ghost src = rv(rows@);
  let ghost es = usr_entries(b, src);
  let ghost rs = usr_recs(b, src);
  let ghost n = src.len() as int;
  proof { assert(permuted(unwrapped(c), src)); lemma_permuted_len(unwrapped(c), src); assert(usr_rows_small(b, src)); }
@loop 1
  invariant
    src == rv(rows@), es == usr_entries(b, src), b == *self, n == src.len(), n < 0x400_0000, b.detailed_userdic_fields_num >= 4,
    forall|i: int| 0 <= i < n ==> (#[trigger] src[i]).len() > 0,
    vxn2 == it1.index(), it1.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] it1.seq()[k]) == rows@[k],
    forall|i: int| 0 <= i < it1.index() ==> (#[trigger] es[i]) is Some,
    grouped(word_entry_map@, es, it1.index() as int)
@at loop 1 body_start
  let ghost i = it1.index() as int;
  let ghost m0 = word_entry_map@;
  proof { assert(*(it1.seq()[i]) == rows@[i]); assert(dv(vxe1@) =~= src[i]); assert(src[i].len() > 0); assert(forall|k: int| 0 <= k < vxe1@.len() ==> (#[trigger] vxe1@[k])@ == src[i][k]); }
@at loop 1 body_end
  proof { assert(es[i] == usr_entry(b, src[i], i)); lemma_grouped_add(m0, es, i); }
@loop 2
  invariant
    src == rv(rows@), rs == usr_recs(b, src), b == *self, n == src.len(), rs.len() == n, recs(rs, n).len() < 0x1_0000_0000, b.detailed_userdic_fields_num >= 4,
    it2.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] it2.seq()[k]) == rows@[k],
    forall|k: int| 0 <= k < n ==> is_simple(b, #[trigger] src[k]) || src[k].len() >= 4, b.simple_userdic_fields_num >= 1,
    words_data@ == recs(rs, it2.index() as int), words_idx_data@ == idxs(rs, it2.index() as int)
@at loop 2 body_start
  let ghost i = it2.index() as int;
  proof {
    assert(*(it2.seq()[i]) == rows@[i]); assert(dv(row@) =~= src[i]); assert(forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k]);
    lemma_recs(rs, n, i);
  }
@loop 3
  invariant
    it3.seq().len() == row@.len(), forall|k: int| 0 <= k < row@.len() ==> *(#[trigger] it3.seq()[k]) == row@[k],
    row@.len() == src[i].len(), forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k],
    vxs6 == if it3.index() < 1 { 1 - it3.index() } else { 0 }, vxc4@.len() == if it3.index() < 1 { 0 } else { it3.index() - 1 },
    forall|k: int| 0 <= k < vxc4@.len() ==> (#[trigger] vxc4@[k])@ == src[i][1 + k]
@at loop 3 after
  proof { assert(dv(vxc4@) =~= src[i].skip(1)); }
@loop 4
  invariant
    it4.seq().len() == row@.len(), forall|k: int| 0 <= k < row@.len() ==> *(#[trigger] it4.seq()[k]) == row@[k],
    row@.len() == src[i].len(), forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k],
    vxs9 == if it4.index() < 4 { 4 - it4.index() } else { 0 }, tmp_word_detail@.len() == if it4.index() < 4 { 0 } else { it4.index() - 4 },
    forall|k: int| 0 <= k < tmp_word_detail@.len() ==> (#[trigger] tmp_word_detail@[k])@ == src[i][4 + k]
@at loop 4 after
  proof { assert(dv(tmp_word_detail@) =~= src[i].skip(4)); }
@at let offset 0 before
  proof { assert(dv(word_detail@) == usr_detail(b, src[i])); assert(rs[i] == bc(usr_detail(b, src[i]))); }
@at loop 2 body_end
  proof {
    assert(recs(rs, i + 1) == recs(rs, i) + rs[i]);
    assert(idxs(rs, i + 1) == idxs(rs, i) + enc4(recs(rs, i).len() as int));
  }
@at let words_data 0 before
  proof { assert(all_rows(es)); assert forall|k: int| 0 <= k < n implies is_simple(b, #[trigger] src[k]) || src[k].len() >= 4 by { assert(es[k] is Some); } }
@at let keyset 0 before
  let ghost m = word_entry_map@;
  let ghost ks = keys_of(m);
  proof { word_entry_map.ax_keys(); lemma_room_for(m, ks, es, 0); }
@loop 5
  invariant
    m == word_entry_map@, ks == keys_of(m), sorted_keys(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k),
    grouped(m, es, es.len() as int), sparse(es),
    it5.seq().len() == ks.len(), forall|k: int| 0 <= k < ks.len() ==> (#[trigger] it5.seq()[k]).0@ == ks[k] && it5.seq()[k].1@ == m[ks[k]],
    keyed(keyset@, m, ks), keyset@.len() == it5.index(), id as int == flat(m, ks, it5.index() as int).len()
@at loop 5 body_start
  let ghost j = it5.index() as int;
  proof {
    lemma_room_for(m, ks, es, j);
    lemma_room_for(m, ks, es, j + 1);
    assert(it5.seq()[j] == vxe10);
    lemma_pack(id, m[ks[j]].len() as u32);
  }
@loop 6
  invariant_except_break
    !vxb11, !some_nul(keyset@, it6.index() as int)
  invariant
    it6.seq().len() == keyset@.len(), forall|k: int| 0 <= k < keyset@.len() ==> *(#[trigger] it6.seq()[k]) == keyset@[k]
  ensures
    vxb11 == some_nul(keyset@, keyset@.len() as int)
@at loop 6 body_start
  proof { assert(*(it6.seq()[it6.index() as int]) == keyset@[it6.index() as int]); }
@at let da_bytes 0 before
  proof { lemma_da_input(keyset@, m, ks, es); lemma_keyable(keyset@, m, ks, es); }
@loop 7
  invariant
    m == word_entry_map@, ks == keys_of(m),
    it7.seq().len() == ks.len(), forall|k: int| 0 <= k < ks.len() ==> (#[trigger] it7.seq()[k])@ == m[ks[k]],
    vals_data@ == sers(flat(m, ks, it7.index() as int))
@at loop 7 body_start
  let ghost j = it7.index() as int;
  let ghost fl = flat(m, ks, j);
  proof { assert(it7.seq()[j]@ == m[ks[j]]); assert(fl + m[ks[j]].take(0) =~= fl); }
@loop 8
  invariant
    word_entries@ == m[ks[j]], it8.seq().len() == word_entries@.len(), forall|k: int| 0 <= k < word_entries@.len() ==> *(#[trigger] it8.seq()[k]) == word_entries@[k],
    vals_data@ == sers(fl + m[ks[j]].take(it8.index() as int))
@at loop 8 body_start
  let ghost b = it8.index() as int;
  proof {
    assert(*(it8.seq()[b]) == word_entries@[b]);
    lemma_sers_push(fl + m[ks[j]].take(b), m[ks[j]][b]);
    assert((fl + m[ks[j]].take(b)).push(m[ks[j]][b]) =~= fl + m[ks[j]].take(b + 1));
  }
@at loop 8 after
  proof { assert(m[ks[j]].take(m[ks[j]].len() as int) =~= m[ks[j]]); assert(flat(m, ks, j + 1) == fl + m[ks[j]]); }
@at tail
  proof {
    if vx_ret is Ok {
      lemma_finds(vx_ret->Ok_0.dict, keyset@, m, ks, es);
      assert(usr_built(b, src, vx_ret->Ok_0));
    }
  }
@end
// what is written: the bincode image of the dictionary
@item fn lindera-dictionary-builder/src/user_dict.rs build_user_dictionary
@sig (vx_fs: &mut VxFs, user_dict: UserDictionary, output_file: &PathBuf) -> (r: LinderaResult<()>)
@replace bincode::serialize_into(&mut wtr, &user_dict) ==> vx_bin_write(&mut wtr, &user_dict)
@replace File::create($x1) ==> File::create(vx_fs, $x1.clone())
@replace wtr.flush() ==> wtr.vx_flush(vx_fs)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, *output_file),
    r is Ok ==> has_file(final(vx_fs)@, *output_file, bin_image(user_dict))
@end
// C08: what is read back for an id is the row's details; beyond the rows there is nothing to read
pub proof fn c08_details(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>, d: UserDictionary, id: int)
    requires usr_built(b, rows, d), recs(usr_recs(b, rows), rows.len() as int).len() < 0x1_0000_0000, 0 <= id,
    ensures
        d.words_idx_data@.len() == 4 * rows.len(),
        id < rows.len() ==> at_idx(d.words_idx_data@, id) <= d.words_data@.len() && begins(d.words_data@.skip(at_idx(d.words_idx_data@, id)), bc(usr_detail(b, rows[id])))
{
    let rs = usr_recs(b, rows);
    lemma_stored(d.words_idx_data@, d.words_data@, rs, id);
    if id < rows.len() {
        let o = at_idx(d.words_idx_data@, id);
        assert(rs[id] == bc(usr_detail(b, rows[id])));
        assert(d.words_data@.skip(o).take(rs[id].len() as int) =~= d.words_data@.subrange(o, o + rs[id].len()));
    }
}
// C08: a row's entry is among the entries found for its surface, marked as a user word
pub proof fn c08_found(b: UserDictBuilder, rows: Seq<Seq<Seq<char>>>, d: UserDictionary, i: int)
    requires usr_built(b, rows, d), 0 <= i < rows.len(), rows.len() < 0x400_0000,
    ensures
        is_key(d.dict, utf8(rows[i][0])),
        entries(d.dict, d.dict.da.map()[utf8(rows[i][0])]).contains((usr_entry(b, rows[i], i)->0).1),
        !(usr_entry(b, rows[i], i)->0).1.word_id.1, (usr_entry(b, rows[i], i)->0).1.word_id.0 == i
{
    let es = usr_entries(b, rows);
    let n = es.len() as int;
    assert(es[i] is Some);
    let k = rows[i][0];
    lemma_group_has(es, n, i);
    let g = group(es, n, k);
    let j = choose|j: int| 0 <= j < g.len() && g[j] == (es[i]->0).1;
    assert(is_key(d.dict, utf8(k)));
    let f = entries(d.dict, d.dict.da.map()[utf8(k)]);
    assert(f == all_flagged(g, false));
    assert(f[j] == (es[i]->0).1);
}
} // verus!
fn main() {}
