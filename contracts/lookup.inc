@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item struct lindera-core/src/word_entry.rs WordEntry derive(Clone, Copy)
@end
@item const lindera-core/src/word_entry.rs WordEntry::SERIALIZED_LEN
@end
pub struct PrefixDict { pub da: DoubleArray<Vec<u8>>, pub vals_data: Vec<u8>, pub is_system: bool }
pub open spec fn dec_entry(d: Seq<u8>, sys: bool) -> WordEntry {
    WordEntry {
        word_id: WordId(le4(d.subrange(0, 4)) as u32, sys),
        word_cost: i16_of(le2(d.subrange(4, 6))) as i16,
        left_id: le2(d.subrange(6, 8)) as u16,
        right_id: le2(d.subrange(8, 10)) as u16,
    }
}
@item fn lindera-core/src/word_entry.rs WordEntry::deserialize
@spec
  requires data@.len() >= 10,
  ensures r == dec_entry(data@, is_system_entry)
@end
// a value packs the index of the first record and the number of records
pub open spec fn v_off(v: u32) -> int { v as int / 32 }
pub open spec fn v_len(v: u32) -> int { v as int % 32 }
pub proof fn lemma_unpack(v: u32)
    ensures (v >> 5u32) as int == v_off(v), (v & ((1u32 << 5) - 1u32) as u32) as int == v_len(v), (1u32 << 5) == 32u32, (1u32 << 5) - 1u32 >= 0
{
    assert((1u32 << 5) == 32u32) by (bit_vector);
    assert((v >> 5u32) == v / 32) by (bit_vector);
    assert((v & 31u32) == v % 32) by (bit_vector);
}
pub open spec fn record(d: Seq<u8>, k: int, sys: bool) -> WordEntry { dec_entry(d.subrange(10 * k, d.len() as int), sys) }
// the entries stored for a value
pub open spec fn entries(p: PrefixDict, v: u32) -> Seq<WordEntry> {
    Seq::new(v_len(v) as nat, |i: int| record(p.vals_data@, v_off(v) + i, p.is_system))
}
pub open spec fn with_len(l: int, e: Seq<WordEntry>) -> Seq<(usize, WordEntry)> { Seq::new(e.len(), |i: int| (l as usize, e[i])) }
// every value of the key map refers to records that are there
pub open spec fn wf_dict(p: PrefixDict) -> bool {
    forall|k: Seq<u8>| #[trigger] p.da.map().dom().contains(k) ==> 10 * (v_off(p.da.map()[k]) + v_len(p.da.map()[k])) <= p.vals_data@.len()
}
// C09: the entries of all surfaces that are a prefix of s of at most l bytes, shortest first
pub open spec fn is_key(p: PrefixDict, k: Seq<u8>) -> bool { !has_nul(k) && p.da.map().dom().contains(k) }
pub open spec fn found_upto(p: PrefixDict, s: Seq<u8>, l: int) -> Seq<(usize, WordEntry)> decreases l {
    if l <= 0 { Seq::empty() }
    else if is_key(p, s.take(l)) { found_upto(p, s, l - 1) + with_len(l, entries(p, p.da.map()[s.take(l)])) }
    else { found_upto(p, s, l - 1) }
}
pub proof fn lemma_found_gap(p: PrefixDict, s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|l: int| a < l <= b ==> !is_key(p, #[trigger] s.take(l)),
    ensures found_upto(p, s, a) == found_upto(p, s, b)
    decreases b - a
{
    if a < b { assert(!is_key(p, s.take(b))); lemma_found_gap(p, s, a, b - 1); }
}
pub proof fn lemma_nul_longer(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), has_nul(s.take(a)),
    ensures has_nul(s.take(b))
{
    let i = choose|i: int| 0 <= i < s.take(a).len() && s.take(a)[i] == 0u8;
    assert(s.take(b)[i] == 0u8);
}
pub proof fn lemma_with_len(l: int, e: Seq<WordEntry>, i: int)
    requires 0 <= i < e.len(),
    ensures with_len(l, e.take(i)).push((l as usize, e[i])) =~= with_len(l, e.take(i + 1))
{
}
pub proof fn lemma_room(p: PrefixDict, k: Seq<u8>, i: int)
    requires wf_dict(p), p.da.map().dom().contains(k), 0 <= i < v_len(p.da.map()[k]),
    ensures
        10 * (v_off(p.da.map()[k]) + i) + 10 <= p.vals_data@.len(),
        0 <= v_off(p.da.map()[k]), v_off(p.da.map()[k]) * 10 <= p.vals_data@.len()
{
}
@item fn lindera-core/src/prefix_dict.rs PrefixDict::prefix
@impl impl PrefixDict
@rettype Vec<(usize, WordEntry)>
@ty vxc1 Vec<(usize, WordEntry)>
@spec
  requires wf_dict(*self),
  ensures r@ == found_upto(*self, utf8(s@), utf8(s@).len() as int)
@at start
  let ghost bs = utf8(s@);
  let ghost mut last: int = 0;
@loop 0
  invariant_except_break
    it0.index() == 0 ==> last == 0, it0.index() > 0 ==> last == it0.seq()[it0.index() - 1].1
  invariant
    wf_dict(*self), bs == utf8(s@), cps_ok(self.da.map(), bs, it0.seq()),
    0 <= last <= bs.len(), vxc1@ == found_upto(*self, bs, last)
  ensures forall|m: int| last < m <= bs.len() ==> !is_key(*self, #[trigger] bs.take(m))
@at loop 0 body_start
  let ghost l = vxe2.1 as int;
  let ghost key = bs.take(l);
  let ghost c0 = vxc1@;
  let ghost rs = it0.seq();
  let ghost ri = it0.index();
  proof {
    assert(rs[ri] == vxe2);
    assert(last < l <= bs.len());
    assert forall|m: int| last < m < l implies !is_key(*self, #[trigger] bs.take(m)) by {
      if is_key(*self, bs.take(m)) {
        let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).1 == m;
        if j < ri - 1 { assert(rs[j].1 < rs[ri - 1].1); } else if j > ri { assert(rs[ri].1 < rs[j].1); }
      }
    }
    lemma_found_gap(*self, bs, last, l - 1);
    if has_nul(key) {
      assert forall|m: int| last < m <= bs.len() implies !is_key(*self, #[trigger] bs.take(m)) by {
        if m >= l { lemma_nul_longer(bs, l, m); }
      }
    } else {
      assert(is_key(*self, key) && self.da.map()[key] == vxe2.0);
      lemma_unpack(vxe2.0);
    }
  }
@at let data 0 before
  proof { if v_len(offset_len) > 0 { lemma_room(*self, key, 0); } }
@at loop 1 before
  let ghost es = entries(*self, offset_len);
  proof { assert(with_len(l, es.take(0)) =~= Seq::empty()); assert(vxc1@ =~= c0 + with_len(l, es.take(0))); }
@loop 1
  invariant
    wf_dict(*self), is_key(*self, key), self.da.map()[key] == offset_len, es == entries(*self, offset_len),
    len as int == v_len(offset_len), prefix_len as int == l, 0 <= l,
    data@ == self.vals_data@.subrange(10 * v_off(offset_len), self.vals_data@.len() as int),
    vxc1@ == c0 + with_len(l, es.take(it1.index()))
@at loop 1 body_start
  proof { lemma_room(*self, key, vxe5 as int); }
@at loop 1 body_end
  proof {
    let i = vxe5 as int;
    assert(data@.subrange(10 * i, data@.len() as int) =~= self.vals_data@.subrange(10 * (v_off(offset_len) + i), self.vals_data@.len() as int));
    lemma_with_len(l, es, i);
  }
@at loop 1 after
  proof {
    assert(es.take(es.len() as int) =~= es);
    last = l;
  }
@at loop 0 after
  proof { lemma_found_gap(*self, bs, last, bs.len() as int); }
@end
@item fn lindera-core/src/prefix_dict.rs PrefixDict::find_surface
@impl impl PrefixDict
@ty vxc1 Vec<WordEntry>
@spec
  requires wf_dict(*self), surface@.len() > 0,
  ensures r@ == if is_key(*self, utf8(surface@)) { entries(*self, self.da.map()[utf8(surface@)]) } else { Seq::empty() }
@at start
  let ghost key = utf8(surface@);
  proof { lemma_utf8_len(surface@); lemma_blen_pos(surface@); }
@at let offset 0 before
  proof { lemma_unpack(offset_len); }
@at let data 0 before
  proof { if v_len(offset_len) > 0 { lemma_room(*self, key, 0); } }
@loop 0
  invariant
    wf_dict(*self), is_key(*self, key), self.da.map()[key] == offset_len,
    len as int == v_len(offset_len),
    data@ == self.vals_data@.subrange(10 * v_off(offset_len), self.vals_data@.len() as int),
    vxc1@ == entries(*self, offset_len).take(it0.index())
@at loop 0 body_start
  proof { lemma_room(*self, key, vxe2 as int); }
@at loop 0 body_end
  proof {
    let i = vxe2 as int;
    assert(data@.subrange(10 * i, data@.len() as int) =~= self.vals_data@.subrange(10 * (v_off(offset_len) + i), self.vals_data@.len() as int));
    assert(entries(*self, offset_len).take(i).push(vxm3) =~= entries(*self, offset_len).take(i + 1));
  }
@at loop 0 after
  proof { let es = entries(*self, offset_len); assert(es.take(es.len() as int) =~= es); }
@end
