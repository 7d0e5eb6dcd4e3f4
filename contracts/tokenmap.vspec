@unit tokenmap
@include prelude.inc
@include text.inc
@include slice.inc
@include cast.inc
@include trie.inc
@include strbuild.inc
@include usize_search.inc
@include dabuild.inc
@method binary_search => vx_binary_search
@method contains => vx_contains
@method sort => vx_sort
@method as_bytes => fn vx_bytes
@method len => vx_len
@method push_str => vx_push_str
@method len_utf8 => fn vx_len_utf8
@type HashMap<String, String> => VxStrMap
@call DoubleArrayBuilder::build => vx_da_build
@call DoubleArray::new => vx_da_new
@type serde_json::Value => Value
@known @slicing @cast:u32
verus! {
@include json.inc
@include offsets.inc
@include pieces.inc
@include mapping.inc
@include strings.inc
@include tokens.inc
@item struct lindera-filter/src/token_filter/mapping.rs MappingTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/mapping.rs MappingTokenFilter
@end
pub open spec fn mfilter_ok(f: MappingTokenFilter) -> bool { keys_known(f.config.mapping@, f.trie.map()) }
@item fn lindera-filter/src/token_filter/mapping.rs MappingTokenFilter::new
@replace config.mapping.keys().collect::<Vec<_>>() ==> config.mapping.keys()
@replace b"" ==> vx_no_bytes()
@spec
  requires config.mapping.size() < 0x8000_0000,
  ensures r is Ok ==> mfilter_ok(r->Ok_0) && r->Ok_0.config == config
@at let keyset 0 after
  let ghost m = config.mapping@;
  let ghost mut ks: Seq<&String> = Seq::empty();
  let ghost mut n: int = 0;
@at loop 0 before
  proof { ks = keys@; n = ks.len() as int; }
@loop 0
  invariant
    m == config.mapping@, ks.len() == config.mapping.size(), ks.len() < 0x8000_0000, it0.seq() == ks, strs_sorted(ks),
    forall|x: Seq<char>| #[trigger] m.contains_key(x) <==> among(ks, x),
    keyset@.len() == it0.index(), vxn2 == it0.index(),
    forall|i: int| 0 <= i < it0.index() ==> (#[trigger] keyset@[i]).0@ == utf8(ks[i]@) && keyset@[i].1 == i && !has_nul(utf8(ks[i]@))
@at loop 0 body_start
  proof { lemma_nul(vxe1@); assert(ks[it0.index()] == vxe1); }
@at loop 0 after
  proof { assert(n == keyset@.len()); }
@at let data 0 before
  proof { lemma_da_input(ks, keyset@, n); }
@at tail
  proof {
    assert forall|b: Seq<u8>| #[trigger] trie.map().dom().contains(b) && b.len() > 0 implies is_enc(m, b) by {
      let i = choose|i: int| 0 <= i < keyset@.len() && (#[trigger] keyset@[i]).0@ == b;
      assert(among(ks, ks[i]@));
      assert(m.contains_key(ks[i]@));
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && k.len() > 0 implies trie.map().dom().contains(utf8(k)) && !has_nul(utf8(k)) by {
      assert(among(ks, k));
      let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k;
      assert(keyset@[i].0@ == utf8(k));
    }
  }
@end
@item fn lindera-filter/src/token_filter/mapping.rs MappingTokenFilter::apply
@impl impl MappingTokenFilter
@replace &self.config.mapping[surface] ==> self.config.mapping.vx_at(surface)
@replace suffix.chars().next() ==> vx_first_char(suffix)
@replace result.push(c) ==> result.vx_push(c)
@spec
  requires mfilter_ok(*self),
  ensures r is Ok, final(tokens)@.len() == old(tokens)@.len(),
    forall|i: int| 0 <= i < old(tokens)@.len() ==> #[trigger] tvs(final(tokens)@)[i] == with_text(tv(old(tokens)@[i]), mapped(self.config.mapping@, old(tokens)@[i].text@))
@at start
  let ghost m = self.config.mapping@;
  let ghost every = tokens@;
@loop 0
  invariant
    mfilter_ok(*self), m == self.config.mapping@,
    it0.seq().len() == every.len(), forall|j: int| 0 <= j < every.len() ==> *(#[trigger] it0.seq()[j]) == every[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(every[j]), mapped(m, every[j].text@))
@at loop 0 body_start
  let ghost text = token.text;
  let ghost all = scan(m, text@);
  let ghost mut done: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
  let ghost mut rest: Seq<char> = text@;
  let ghost mut k: int = 0;
  proof {
    assert(*it0.seq()[it0.index()] == every[it0.index()]);
    assert(done + scan(m, rest) =~= all);
    assert(text@.take(0) =~= Seq::empty());
    assert(text@.skip(0) =~= text@);
    c14_pieces(m, text@);
  }
@loop 1
  invariant
    mfilter_ok(*self), m == self.config.mapping@, all == scan(m, text@), len == blen(text@), token.text@ == text@,
    all == done + scan(m, rest), 0 <= k <= text@.len(), rest == text@.skip(k), start == blen(text@.take(k)),
    result@ == targets(done),
    *token == every[it0.index()]
  ensures start >= len
  decreases rest.len()
@at loop 1 body_start
  let ghost h = head(m, rest);
  let ghost k1 = k + h.0.len();
  proof {
    lemma_bound(text@, k);
    lemma_blen_pos(rest);
    assert(text@ =~= text@.take(k) + rest);
    lemma_blen_cat(text@.take(k), rest);
    lemma_scan_step(m, rest, done, all);
    lemma_targets(done);
    lemma_blen_pos(h.0);
    assert(text@.skip(k).skip(h.0.len() as int) =~= text@.skip(k1));
    assert(text@.take(k) + h.0 =~= text@.take(k1)) by { assert(h.0 =~= rest.take(h.0.len() as int)); }
    lemma_blen_cat(text@.take(k), h.0);
    lemma_bound(text@, k1);
    lemma_blen_take(text@, k1, text@.len() as int);
    assert(text@.take(text@.len() as int) =~= text@);
    assert(text@.subrange(k, k1) =~= h.0) by { assert(h.0 =~= rest.take(h.0.len() as int)); }
    lemma_longest(m, rest, rest.len() as int);
    lemma_utf8_len(rest);
  }
@at loop 2 before
  let ghost mut cnt: int = 0;
  let ghost d = self.trie.map();
@loop 2
  invariant_except_break
    cnt == it2.index(),
    it2.index() == it2.seq().len() ==> seen_all(d, rest, it2.seq(), cnt, vxl1),
  invariant
    seen(d, rest, it2.seq(), cnt, vxl1), suffix@ == rest,
  ensures exists|rs: Seq<(u32, usize)>| #[trigger] seen_all(d, rest, rs, cnt, vxl1)
@at loop 2 body_start
  proof { assert(has_nul(utf8(rest).take(it2.seq()[cnt].1 as int)) ==> seen_all(d, rest, it2.seq(), cnt, vxl1)); }
@at loop 2 body_end
  proof { cnt = cnt + 1; }
@at loop 2 after
  proof { let rs = choose|rs: Seq<(u32, usize)>| #[trigger] seen_all(d, rest, rs, cnt, vxl1); lemma_found_longest(m, d, rest, rs, cnt); }
@at loop 1 body_end
  proof {
    if longest(m, rest) == 0 { lemma_blen_one(rest[0]); assert(h.0 =~= seq![rest[0]]); assert(targets(done.push(h)) =~= targets(done).push(rest[0])); }
    done = done.push(h);
    rest = text@.skip(k1);
    k = k1;
  }
@at loop 1 after
  proof { lemma_bound(text@, k); lemma_blen_pos(rest); assert(text@ =~= text@.take(k) + rest); lemma_blen_cat(text@.take(k), rest); assert(rest.len() == 0); assert(done =~= all); }
@end
@item fn lindera-filter/src/token_filter/mapping.rs MappingTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<MappingTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<MappingTokenFilterConfig>(*value)->0
@end
fn main() {}
@include spans.inc
pub proof fn c12_mapped(old: Seq<TokV>, new: Seq<TokV>, f: spec_fn(TokV) -> Seq<char>, l: int)
    requires new.len() == old.len(), forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == with_text(old[i], f(old[i])), spans(old, l),
    ensures spans(new, l)
{
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies (#[trigger] new[i]).byte_end <= (#[trigger] new[j]).byte_start by { assert(old[i].byte_end <= old[j].byte_start); }
}
} // verus!
