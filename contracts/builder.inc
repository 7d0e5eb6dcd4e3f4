// ---- the builder: rows of the source files -----------------------------------------------------------
@include files.inc
@include csv.inc
@include globs.inc
// trusted: std strings
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxTrim { spec fn ts(&self) -> Seq<char>; fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.ts()); }
impl VxTrim for String { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() } }
impl VxTrim for str { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() } }
pub open spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { replaced(s.drop_last(), c, t) + if s.last() == c { t } else { seq![s.last()] } }
}
pub trait VxReplace { spec fn rs(&self) -> Seq<char>; fn vx_replace(&self, c: char, t: &str) -> (r: String) ensures r@ == replaced(self.rs(), c, t@); }
impl VxReplace for String { open spec fn rs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, t: &str) -> (r: String) { self.replace(c, t) } }
impl VxReplace for str { open spec fn rs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, t: &str) -> (r: String) { self.replace(c, t) } }
#[verifier::external_body]
pub fn vx_u32_try(n: usize) -> (r: Result<u32, LinderaError>) ensures r is Ok <==> n <= 0xffff_ffff, r is Ok ==> r->Ok_0 == n { unimplemented!() }
// the normalization of the horizontal bar and the wave dash
pub open spec fn nc(c: char) -> char { if c == '―' { '—' } else if c == '～' { '〜' } else { c } }
pub open spec fn nrm(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| nc(s[i])) }
pub proof fn lemma_replaced(s: Seq<char>, c: char, d: char) ensures replaced(s, c, seq![d]).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] replaced(s, c, seq![d])[i] == if s[i] == c { d } else { s[i] } decreases s.len() {
    if s.len() > 0 { lemma_replaced(s.drop_last(), c, d); }
}
@item fn lindera-dictionary-builder/src/dict.rs normalize
@spec
  ensures r@ == nrm(text@)
@at start
  proof {
    reveal_strlit("—"); reveal_strlit("〜");
    assert("—"@ =~= seq!['—']); assert("〜"@ =~= seq!['〜']);
    lemma_replaced(text@, '―', '—');
    lemma_replaced(replaced(text@, '―', seq!['—']), '～', '〜');
    assert(replaced(replaced(text@, '―', seq!['—']), '～', seq!['〜']) =~= nrm(text@));
  }
@end
@item struct lindera-dictionary-builder/src/dict.rs DictBuilder
@end
// ---- what the rows say ----------------------------------------------------------------------------------
pub open spec fn norm_if(n: bool, s: Seq<char>) -> Seq<char> { if n { nrm(s) } else { s } }
pub open spec fn numbers_ok(r: Seq<Seq<char>>) -> bool { num_in(trimmed(r[3]), -32768, 32767) && num_in(trimmed(r[1]), 0, 65535) && num_in(trimmed(r[2]), 0, 65535) }
pub open spec fn sys_entry(n: bool, r: Seq<Seq<char>>, id: int) -> Option<(Seq<char>, WordEntry)> {
    if r.len() >= 4 && numbers_ok(r) {
        Some((norm_if(n, r[0]), WordEntry { word_id: WordId(id as u32, true), word_cost: num_of(trimmed(r[3])).unwrap() as i16, left_id: num_of(trimmed(r[1])).unwrap() as u16, right_id: num_of(trimmed(r[2])).unwrap() as u16 }))
    } else { None }
}
pub open spec fn sys_entries(n: bool, rows: Seq<Seq<Seq<char>>>) -> Seq<Option<(Seq<char>, WordEntry)>> { Seq::new(rows.len(), |i: int| sys_entry(n, rows[i], i)) }
pub open spec fn tail_of(n: bool, r: Seq<Seq<char>>, a: int) -> Seq<Seq<char>> { Seq::new(if r.len() >= a { (r.len() - a) as nat } else { 0 }, |i: int| norm_if(n, r[a + i])) }
pub open spec fn sys_details(n: bool, rows: Seq<Seq<Seq<char>>>) -> Seq<Seq<Seq<char>>> { Seq::new(rows.len(), |i: int| tail_of(n, rows[i], 4)) }
// at most 31 entries for a surface, fewer than 4 GiB of details
pub open spec fn sys_rows_small(n: bool, rows: Seq<Seq<Seq<char>>>) -> bool {
    &&& sparse(sys_entries(n, rows))
    &&& recs(recs_of(sys_details(n, rows)), rows.len() as int).len() < 0x1_0000_0000
}
// C28: every row is in order, unless rows that are not are skipped; there is some word and none contains NUL
pub open spec fn sys_rows_ok(n: bool, skip: bool, rows: Seq<Seq<Seq<char>>>) -> bool {
    &&& skip || forall|i: int| 0 <= i < rows.len() ==> (#[trigger] sys_entries(n, rows)[i]) is Some
    &&& keyable(sys_entries(n, rows))
}
// C07, C09: the five parts, read back, give every row's entry under its surface and every row's details under its id
pub open spec fn sys_built(n: bool, rows: Seq<Seq<Seq<char>>>, words: Seq<u8>, idx: Seq<u8>, da: Seq<u8>, vals: Seq<u8>) -> bool {
    &&& compiled(idx, words, sys_details(n, rows))
    &&& forall|p: PrefixDict| p.da.map() == da_map(da) && p.vals_data@ == vals ==> #[trigger] finds(p, sys_entries(n, rows))
}
pub open spec fn dict_files(out: PathBuf) -> Seq<PathBuf> { seq![pjoin(out, "dict.da"@), pjoin(out, "dict.vals"@), pjoin(out, "dict.words"@), pjoin(out, "dict.wordsidx"@)] }
pub open spec fn dict_parts(n: bool, rows: Seq<Seq<Seq<char>>>, fs: Map<PathBuf, Seq<u8>>, out: PathBuf) -> bool {
    &&& forall|k: int| 0 <= k < 4 ==> fs.contains_key(#[trigger] dict_files(out)[k])
    &&& sys_built(n, rows, fs[dict_files(out)[2]], fs[dict_files(out)[3]], fs[dict_files(out)[0]], fs[dict_files(out)[1]])
}
pub proof fn lemma_dict_files(out: PathBuf) ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 && i != j ==> #[trigger] dict_files(out)[i] != #[trigger] dict_files(out)[j] {
    let ps = dict_files(out);
    let n = seq!["dict.da"@, "dict.vals"@, "dict.words"@, "dict.wordsidx"@];
    reveal_strlit("dict.da"); reveal_strlit("dict.vals"); reveal_strlit("dict.words"); reveal_strlit("dict.wordsidx");
    assert(n[0].len() == 7 && n[1].len() == 9 && n[2].len() == 10 && n[3].len() == 13);
    assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 && i != j implies #[trigger] ps[i] != #[trigger] ps[j] by {
        ax_pjoin(out, n[i], n[j]);
        assert(ps[i] == pjoin(out, n[i]) && ps[j] == pjoin(out, n[j]));
    }
}
pub proof fn lemma_utf8_limit(s: Seq<char>) ensures true {}
pub open spec fn builds_from(n: bool, src: Seq<Seq<Seq<char>>>) -> bool { forall|rows: Seq<Seq<Seq<char>>>| #[trigger] permuted(src, rows) ==> sys_rows_small(n, rows) }
@item fn lindera-dictionary-builder/src/dict.rs DictBuilder::build
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace encoding.ok_or_else($$x1)? ==> vx_ok_or(encoding)?
@replace encoding == UTF_8 ==> vx_is_utf8(encoding)
@replace File::create($x1) ==> File::create(vx_fs, $x1)
@replace rows.sort_by_key($$x1) ==> vx_sort_rows(&mut rows)
@replace rows.sort_by($$x1) ==> vx_sort_rows(&mut rows)
@replace wtr_words.flush() ==> wtr_words.vx_flush(vx_fs)
@replace wtr_words_idx.flush() ==> wtr_words_idx.vx_flush(vx_fs)
@replace wtr_vals.flush() ==> wtr_vals.vx_flush(vx_fs)
@replace wtr_da.flush() ==> wtr_da.vx_flush(vx_fs)
@replace word_entry_map.entry($x1).or_default().push($$x2) ==> word_entry_map.vx_add($x1, $x2)
@replace key.contains(&0) ==> key.vx_has_nul()
@replace in &word_entry_map ==> in word_entry_map.vx_pairs()
@ty words_buffer Vec<u8>
@ty words_idx_buffer Vec<u8>
@ty vals_buffer Vec<u8>
@spec
  requires builds_from(self.normalize_details, unwrapped(recs_in(self.encoding@, self.flexible_csv, csv_files(*input_dir)))),
  ensures
    r is Ok ==> only_writes(old(vx_fs)@, final(vx_fs)@, dict_files(*output_dir)),
    r is Ok ==> {
        let recs = recs_in(self.encoding@, self.flexible_csv, csv_files(*input_dir));
        let out = final(vx_fs)@;
        all_read(recs) && exists|rows: Seq<Seq<Seq<char>>>| #[trigger] permuted(unwrapped(recs), rows)
            && sys_rows_ok(self.normalize_details, self.skip_invalid_cost_or_id, rows) && dict_parts(self.normalize_details, rows, out, *output_dir)
    }
@at start
  hide(utf8); hide(joined); hide(nrm); hide(split0); hide(split_on); hide(replaced); hide(has_nul); hide(enc4);
@ty rows Vec<Vec<String>>
@at let filenames 0 before
  let ghost ps = dict_files(*output_dir);
  proof { lemma_dict_files(*output_dir); }
  let ghost files = csv_files(*input_dir);
  let ghost label = self.encoding@;
  let ghost flex = self.flexible_csv;
  proof { ax_glob(*input_dir); assert(pattern@ == glob_escaped(path_text(*input_dir)) + "/*.csv"@); assert(globbed(pattern@) == files); }
@loop 0
  invariant
    forall|k: int| 0 <= k < files.len() ==> pjoin(*input_dir, name_of(#[trigger] files[k])) == files[k],
    it0.seq().len() == files.len(), forall|k: int| 0 <= k < files.len() ==> match #[trigger] it0.seq()[k] { Ok(x) => x == files[k], Err(_) => true },
    filenames@ == files.take(it0.index() as int)
@at loop 0 body_start
  let ghost i = it0.index() as int;
  proof { assert(entry == it0.seq()[i]); assert(files.take(i).push(files[i]) =~= files.take(i + 1)); }
@at loop 0 after
  proof { assert(files.take(files.len() as int) =~= files); }
@loop 1
  invariant
    it1.seq() == files, *encoding == enc_named(utf8(label))->0, flex == self.flexible_csv,
    all_read(recs_in(label, flex, files.take(it1.index() as int))), rv(rows@) =~= unwrapped(recs_in(label, flex, files.take(it1.index() as int))),
    forall|k: int| 0 <= k < rows@.len() ==> (#[trigger] rows@[k])@.len() > 0
@at loop 1 body_start
  let ghost i = it1.index() as int;
  let ghost r0 = rows@;
  let ghost c0 = recs_in(label, flex, files.take(i));
  proof { assert(filename == files[i]); assert(files.take(i + 1).drop_last() =~= files.take(i)); }
@loop 2
  invariant
    read_as(it2.seq(), c), all_read(c.take(it2.index() as int)), rv(rows@) =~= rv(r0) + unwrapped(c.take(it2.index() as int)),
    forall|k: int| 0 <= k < rows@.len() ==> (#[trigger] rows@[k])@.len() > 0
@at loop 2 before
  let ghost c = rdr.recs();
  proof { assert(c =~= csv_recs(stream_of(label, files[i]), flex)); }
@at loop 2 body_start
  let ghost j = it2.index() as int;
  let ghost rj = rows@;
  proof { assert(result == it2.seq()[j]); assert(c.take(j + 1) =~= c.take(j).push(c[j])); assert(forall|k: int| 0 <= k < c.take(j).len() ==> c.take(j)[k] == c[k]); }
@at loop 2 body_end
  proof { assert(rv(rows@) =~= rv(rj).push(c[j]->0)); assert(unwrapped(c.take(j + 1)) =~= unwrapped(c.take(j)).push(c[j]->0)); }
@at loop 2 after
  proof {
    assert(c.take(c.len() as int) =~= c);
    assert(recs_in(label, flex, files.take(i + 1)) =~= c0 + c);
  }
@at loop 1 after
  let ghost rc = recs_in(label, flex, files);
  let ghost rows0 = rows@;
  proof { assert(files.take(files.len() as int) =~= files); assert(unwrapped(rc) =~= rv(rows0)); }
@at let word_entry_map 0 before
  let ghost nf = self.normalize_details;
  let ghost src = rv(rows@);
  let ghost es = sys_entries(nf, src);
  let ghost ds = sys_details(nf, src);
  let ghost rs = recs_of(ds);
  let ghost n = src.len() as int;
  proof { assert(permuted(unwrapped(rc), src)); lemma_permuted_len(unwrapped(rc), src); assert(sys_rows_small(nf, src)); }
@loop 3
  invariant
    src == rv(rows@), es == sys_entries(nf, src), nf == self.normalize_details, n == src.len(), sys_rows_small(nf, src), forall|k: int| 0 <= k < n ==> (#[trigger] src[k]).len() > 0,
    self.skip_invalid_cost_or_id || forall|k: int| 0 <= k < it3.index() ==> (#[trigger] es[k]) is Some,
    vxn2 == it3.index(), it3.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] it3.seq()[k]) == rows@[k],
    grouped(word_entry_map@, es, it3.index() as int)
@at loop 3 body_start
  let ghost i = it3.index() as int;
  let ghost m0 = word_entry_map@;
  proof { assert(*(it3.seq()[i]) == rows@[i]); assert(dv(vxe1@) =~= src[i]); assert(src[i].len() > 0); assert(es[i] == sys_entry(nf, src[i], i)); assert(forall|k: int| 0 <= k < vxe1@.len() ==> (#[trigger] vxe1@[k])@ == src[i][k]); }
@at loop 3 body_end
  proof { if es[i] is Some { lemma_grouped_add(m0, es, i); } else { lemma_grouped_skip(m0, es, i); } }
@loop 4
  invariant
    src == rv(rows@), ds == sys_details(nf, src), rs == recs_of(ds), nf == self.normalize_details, n == src.len(), rs.len() == n, ds.len() == n, recs(rs, n).len() < 0x1_0000_0000,
    it4.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] it4.seq()[k]) == rows@[k],
    words_buffer@ == recs(rs, it4.index() as int), words_idx_buffer@ == idxs(rs, it4.index() as int)
@at loop 4 body_start
  let ghost i = it4.index() as int;
  proof {
    assert(*(it4.seq()[i]) == rows@[i]); assert(dv(row@) =~= src[i]); assert(forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k]);
    lemma_recs(rs, n, i);
    reveal_strlit("\0");
    assert("\0"@ =~= seq!['\0']);
  }
@loop 5
  invariant
    nf, it5.seq().len() == row@.len(), forall|k: int| 0 <= k < row@.len() ==> *(#[trigger] it5.seq()[k]) == row@[k],
    row@.len() == src[i].len(), forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k],
    vxs6 == if it5.index() < 4 { 4 - it5.index() } else { 0 }, vxc4@.len() == if it5.index() < 4 { 0 } else { it5.index() - 4 },
    forall|k: int| 0 <= k < vxc4@.len() ==> (#[trigger] vxc4@[k])@ == norm_if(nf, src[i][4 + k])
@at loop 5 after
  proof { assert(dv(vxc4@) =~= tail_of(nf, src[i], 4)); }
@loop 6
  invariant
    !nf, it6.seq().len() == row@.len(), forall|k: int| 0 <= k < row@.len() ==> *(#[trigger] it6.seq()[k]) == row@[k],
    row@.len() == src[i].len(), forall|k: int| 0 <= k < row@.len() ==> (#[trigger] row@[k])@ == src[i][k],
    vxs10 == if it6.index() < 4 { 4 - it6.index() } else { 0 }, vxc8@.len() == if it6.index() < 4 { 0 } else { it6.index() - 4 },
    forall|k: int| 0 <= k < vxc8@.len() ==> (#[trigger] vxc8@[k])@ == norm_if(nf, src[i][4 + k])
@at loop 6 after
  proof { assert(strs(vxc8@) =~= tail_of(nf, src[i], 4)); }
@at let joined_details_len 0 before
  proof {
    assert(ds[i] =~= tail_of(nf, src[i], 4));
    assert(joined_details@ == joined(ds[i], seq!['\0']));
    assert(rs[i] == rec(ds[i]));
  }
@at loop 4 body_end
  proof {
    assert(words_buffer@ =~= recs(rs, i) + rs[i]);
    assert(recs(rs, i + 1) == recs(rs, i) + rs[i]);
    assert(idxs(rs, i + 1) == idxs(rs, i) + enc4(recs(rs, i).len() as int));
  }
@at let id 0 before
  proof { assert(has_file(vx_fs@, ps[2], words_buffer@)); assert(has_file(vx_fs@, ps[3], words_idx_buffer@)); }
@at let vals_buffer 0 before
  proof { assert(has_file(vx_fs@, ps[0], da_bytes@)); assert(has_file(vx_fs@, ps[2], words_buffer@)); assert(has_file(vx_fs@, ps[3], words_idx_buffer@)); }
@at let keyset 0 before
  let ghost m = word_entry_map@;
  let ghost ks = keys_of(m);
  proof { word_entry_map.ax_keys(); lemma_room_for(m, ks, es, 0); }
@loop 7
  invariant
    m == word_entry_map@, ks == keys_of(m), sorted_keys(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k),
    grouped(m, es, es.len() as int), sparse(es),
    it7.seq().len() == ks.len(), forall|k: int| 0 <= k < ks.len() ==> (#[trigger] it7.seq()[k]).0@ == ks[k] && it7.seq()[k].1@ == m[ks[k]],
    keyed(keyset@, m, ks), keyset@.len() == it7.index(), id as int == flat(m, ks, it7.index() as int).len()
@at loop 7 body_start
  let ghost j = it7.index() as int;
  proof {
    lemma_room_for(m, ks, es, j);
    lemma_room_for(m, ks, es, j + 1);
    assert(it7.seq()[j] == vxe11);
    lemma_pack(id, m[ks[j]].len() as u32);
  }
@loop 8
  invariant_except_break
    !vxb12, !some_nul(keyset@, it8.index() as int)
  invariant
    it8.seq().len() == keyset@.len(), forall|k: int| 0 <= k < keyset@.len() ==> *(#[trigger] it8.seq()[k]) == keyset@[k]
  ensures
    vxb12 == some_nul(keyset@, keyset@.len() as int)
@at loop 8 body_start
  proof { assert(*(it8.seq()[it8.index() as int]) == keyset@[it8.index() as int]); }
@at let da_bytes 0 before
  proof { lemma_da_input(keyset@, m, ks, es); lemma_keyable(keyset@, m, ks, es); }
@loop 9
  invariant
    m == word_entry_map@, ks == keys_of(m),
    it9.seq().len() == ks.len(), forall|k: int| 0 <= k < ks.len() ==> (#[trigger] it9.seq()[k])@ == m[ks[k]],
    vals_buffer@ == sers(flat(m, ks, it9.index() as int))
@at loop 9 body_start
  let ghost j = it9.index() as int;
  let ghost fl = flat(m, ks, j);
  proof { assert(it9.seq()[j]@ == m[ks[j]]); assert(fl + m[ks[j]].take(0) =~= fl); }
@loop 10
  invariant
    word_entries@ == m[ks[j]], it10.seq().len() == word_entries@.len(), forall|k: int| 0 <= k < word_entries@.len() ==> *(#[trigger] it10.seq()[k]) == word_entries@[k],
    vals_buffer@ == sers(fl + m[ks[j]].take(it10.index() as int))
@at loop 10 body_start
  let ghost b = it10.index() as int;
  proof {
    assert(*(it10.seq()[b]) == word_entries@[b]);
    lemma_sers_push(fl + m[ks[j]].take(b), m[ks[j]][b]);
    assert((fl + m[ks[j]].take(b)).push(m[ks[j]][b]) =~= fl + m[ks[j]].take(b + 1));
  }
@at loop 10 after
  proof { assert(m[ks[j]].take(m[ks[j]].len() as int) =~= m[ks[j]]); assert(flat(m, ks, j + 1) == fl + m[ks[j]]); }
@at tail
  proof {
    if vx_ret is Ok {
      assert forall|p: PrefixDict| p.da.map() == da_map(da_bytes@) && p.vals_data@ == vals_buffer@ implies #[trigger] finds(p, es) by { lemma_finds(p, keyset@, m, ks, es); }
      assert(sys_built(nf, src, words_buffer@, words_idx_buffer@, da_bytes@, vals_buffer@));
      assert(ps.contains(ps[0]) && ps.contains(ps[1]) && ps.contains(ps[2]) && ps.contains(ps[3]));
      assert(has_file(vx_fs@, ps[0], da_bytes@) && has_file(vx_fs@, ps[1], vals_buffer@) && has_file(vx_fs@, ps[2], words_buffer@) && has_file(vx_fs@, ps[3], words_idx_buffer@));
      assert(dict_parts(nf, src, vx_fs@, *output_dir));
    }
  }
@end
