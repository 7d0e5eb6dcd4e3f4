@unit charfilter
@include prelude.inc
@include text.inc
@include slice.inc
@include cast.inc
@include trie.inc
@include strbuild.inc
@include usize_search.inc
@include dabuild.inc
@method binary_search => vx_binary_search
@method contains => vx_contains
@method sort => vx_sort
@method as_bytes => fn vx_bytes
@method len => vx_len
@method push_str => vx_push_str
@method graphemes => fn vx_graphemes
@method len_utf8 => fn vx_len_utf8
@method unsigned_abs => fn vx_unsigned_abs
@type HashMap<String, String> => VxStrMap
@call DoubleArrayBuilder::build => vx_da_build
@call DoubleArray::new => vx_da_new
@type serde_json::Value => Value
@known @slicing @cast:u32
verus! {
@include json.inc
@include offsets.inc
@include pieces.inc
@include mapping.inc
@item struct lindera-filter/src/character_filter/mapping.rs MappingCharacterFilterConfig
@end
@item struct lindera-filter/src/character_filter/mapping.rs MappingCharacterFilter
@end
pub open spec fn mfilter_ok(f: MappingCharacterFilter) -> bool { keys_known(f.config.mapping@, f.trie.map()) }
@item fn lindera-filter/src/character_filter/mapping.rs MappingCharacterFilter::new
@replace config.mapping.keys().collect::<Vec<_>>() ==> config.mapping.keys()
@replace b"" ==> vx_no_bytes()
@spec
  requires config.mapping.size() < 0x8000_0000,
  ensures r is Ok ==> mfilter_ok(r->Ok_0) && r->Ok_0.config == config
@at let keyset 0 after
  let ghost m = config.mapping@;
  let ghost mut ks: Seq<&String> = Seq::empty();
  let ghost mut n: int = 0;
@at loop 0 before
  proof { ks = keys@; n = ks.len() as int; }
@loop 0
  invariant
    m == config.mapping@, ks.len() == config.mapping.size(), ks.len() < 0x8000_0000, it0.seq() == ks, strs_sorted(ks),
    forall|x: Seq<char>| #[trigger] m.contains_key(x) <==> among(ks, x),
    keyset@.len() == it0.index(), vxn2 == it0.index(),
    forall|i: int| 0 <= i < it0.index() ==> (#[trigger] keyset@[i]).0@ == utf8(ks[i]@) && keyset@[i].1 == i && !has_nul(utf8(ks[i]@))
@at loop 0 body_start
  proof { lemma_nul(vxe1@); assert(ks[it0.index()] == vxe1); }
@at loop 0 after
  proof { assert(n == keyset@.len()); }
@at let data 0 before
  proof { lemma_da_input(ks, keyset@, n); }
@at tail
  proof {
    assert forall|b: Seq<u8>| #[trigger] trie.map().dom().contains(b) && b.len() > 0 implies is_enc(m, b) by {
      let i = choose|i: int| 0 <= i < keyset@.len() && (#[trigger] keyset@[i]).0@ == b;
      assert(among(ks, ks[i]@));
      assert(m.contains_key(ks[i]@));
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && k.len() > 0 implies trie.map().dom().contains(utf8(k)) && !has_nul(utf8(k)) by {
      assert(among(ks, k));
      let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k;
      assert(keyset@[i].0@ == utf8(k));
    }
  }
@end
@item fn lindera-filter/src/character_filter/mapping.rs MappingCharacterFilter::apply
@impl impl MappingCharacterFilter
@replace &self.config.mapping[input_text] ==> self.config.mapping.vx_at(input_text)
@replace suffix.chars().next() ==> vx_first_char(suffix)
@replace result.push(c) ==> result.vx_push(c)
@spec
  requires mfilter_ok(*self), blen(mapped(self.config.mapping@, text@)) <= 0x7fff_ffff_ffff_ffff,
  ensures r is Ok, r->Ok_0.0@ == mapped(self.config.mapping@, text@), tab(r->Ok_0.1@, r->Ok_0.2@, lens(scan(self.config.mapping@, text@)))
@at start
  let ghost m = self.config.mapping@;
  let ghost all = scan(m, text@);
  let ghost mut done: Seq<(Seq<char>, Seq<char>)> = Seq::empty();
  let ghost mut rest: Seq<char> = text@;
  let ghost mut k: int = 0;
  proof {
    ax_str_len(text);
    assert(done + scan(m, rest) =~= all);
    assert(lens(done) =~= Seq::empty());
    lemma_tab0();
    assert(text@.take(0) =~= Seq::empty());
    assert(text@.skip(0) =~= text@);
    c14_pieces(m, text@);
    lemma_lens(all, 0);
  }
@loop 0
  invariant
    mfilter_ok(*self), m == self.config.mapping@, all == scan(m, text@), len == blen(text@), len <= 0x7fff_ffff_ffff_ffff,
    osum(lens(all)) <= 0x7fff_ffff_ffff_ffff, isum(lens(all)) == len,
    all == done + scan(m, rest), 0 <= k <= text@.len(), rest == text@.skip(k), input_start == blen(text@.take(k)),
    result@ == targets(done), tab(offsets@, diffs@, lens(done)), isum(lens(done)) == input_start
  ensures input_start >= len
  decreases rest.len()
@at loop 0 body_start
  let ghost h = head(m, rest);
  let ghost k1 = k + h.0.len();
  let ghost ps = lens(done);
  let ghost (os0, ds0) = (offsets@, diffs@);
  let ghost (il, ol) = (blen(h.0) as int, blen(h.1) as int);
  proof {
    lemma_bound(text@, k);
    lemma_blen_pos(rest);
    lemma_scan_step(m, rest, done, all);
    assert(all.take(done.len() as int + 1) =~= done.push(h));
    assert(all.take(done.len() as int) =~= done);
    lemma_lens(all, done.len() as int + 1);
    lemma_push_sums(ps, il, ol);
    lemma_sums(ps, ps.len() as int);
    lemma_targets(done);
    lemma_blen_pos(h.0);
    assert(text@.skip(k).skip(h.0.len() as int) =~= text@.skip(k1));
    assert(text@.take(k) + h.0 =~= text@.take(k1)) by { assert(h.0 =~= rest.take(h.0.len() as int)); }
    lemma_blen_cat(text@.take(k), h.0);
    lemma_bound(text@, k1);
    assert(text@.subrange(k, k1) =~= h.0) by { assert(h.0 =~= rest.take(h.0.len() as int)); }
    lemma_longest(m, rest, rest.len() as int);
    lemma_utf8_len(rest);
  }
@at loop 1 before
  let ghost mut cnt: int = 0;
  let ghost d = self.trie.map();
@loop 1
  invariant_except_break
    cnt == it1.index(),
    it1.index() == it1.seq().len() ==> seen_all(d, rest, it1.seq(), cnt, vxl1),
  invariant
    seen(d, rest, it1.seq(), cnt, vxl1), suffix@ == rest,
  ensures exists|rs: Seq<(u32, usize)>| #[trigger] seen_all(d, rest, rs, cnt, vxl1)
@at loop 1 body_start
  proof { assert(has_nul(utf8(rest).take(it1.seq()[cnt].1 as int)) ==> seen_all(d, rest, it1.seq(), cnt, vxl1)); }
@at loop 1 body_end
  proof { cnt = cnt + 1; }
@at loop 1 after
  proof { let rs = choose|rs: Seq<(u32, usize)>| #[trigger] seen_all(d, rest, rs, cnt, vxl1); lemma_found_longest(m, d, rest, rs, cnt); }
@at let diff_len 0 after
  proof {
    assert(input_len == il && replacement_len == ol);
    if il == ol { lemma_same(os0, ds0, ps, il); }
    if il > ol { lemma_shrink(os0, ds0, ps, il, ol, (osum(ps) + ol) as usize, (isum(ps) + il - osum(ps) - ol) as i64); }
    if il < ol { lemma_grow(os0, ds0, ps, il, ol); lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), 0); }
  }
@loop 2
  invariant
    0 < il < ol, ol - il == it2.seq().len(),
    output_offset == osum(ps) + il, prev_diff == isum(ps) - osum(ps), osum(ps) >= 0, isum(ps) >= 0,
    osum(ps) + ol <= 0x7fff_ffff_ffff_ffff, isum(ps) + il <= 0x7fff_ffff_ffff_ffff,
    os0.len() == ds0.len(), os0.len() > 0 ==> os0.last() <= osum(ps),
    offsets@ == os0 + run_os(osum(ps) + il, it2.index()), diffs@ == ds0 + run_ds(isum(ps) - osum(ps), it2.index())
@at loop 2 body_start
  proof { lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), it2.index()); }
@at loop 0 body_end
  proof {
    if longest(m, rest) == 0 { lemma_same(os0, ds0, ps, il); lemma_blen_one(rest[0]); assert(h.0 =~= seq![rest[0]]); assert(targets(done.push(h)) =~= targets(done).push(rest[0])); }
    done = done.push(h);
    rest = text@.skip(k1);
    k = k1;
  }
@at tail
  proof { lemma_bound(text@, k); lemma_blen_pos(rest); assert(rest.len() == 0); assert(done =~= all); }
@end
// ---- Unicode normalization ------------------------------------------------------------------------
@item enum lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeKind
@end
@item struct lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilterConfig
@end
@item struct lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilter
@end
// trusted: extended grapheme clusters are non-empty and make up the text; the normal forms of a text
pub uninterp spec fn clusters(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn nf_c(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nf_d(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nf_kc(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn nf_kd(s: Seq<char>) -> Seq<char>;
pub open spec fn all_of(cs: Seq<Seq<char>>) -> Seq<char> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { all_of(cs.drop_last()) + cs.last() } }
#[verifier::external_body]
pub fn vx_graphemes(s: &str, ext: bool) -> (r: Vec<&str>)
    requires ext,
    ensures r@.len() == clusters(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == clusters(s@)[i], forall|i: int| 0 <= i < clusters(s@).len() ==> (#[trigger] clusters(s@)[i]).len() > 0, all_of(clusters(s@)) == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_nfc(s: &str) -> (r: String) ensures r@ == nf_c(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_nfd(s: &str) -> (r: String) ensures r@ == nf_d(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_nfkc(s: &str) -> (r: String) ensures r@ == nf_kc(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_nfkd(s: &str) -> (r: String) ensures r@ == nf_kd(s@) { unimplemented!() }
pub open spec fn nf(k: UnicodeNormalizeKind, s: Seq<char>) -> Seq<char> {
    match k { UnicodeNormalizeKind::NFC => nf_c(s), UnicodeNormalizeKind::NFD => nf_d(s), UnicodeNormalizeKind::NFKC => nf_kc(s), UnicodeNormalizeKind::NFKD => nf_kd(s) }
}
pub open spec fn nf_pieces(k: UnicodeNormalizeKind, cs: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(cs.len(), |i: int| (cs[i], nf(k, cs[i]))) }
pub proof fn lemma_nf_sources(k: UnicodeNormalizeKind, cs: Seq<Seq<char>>) ensures sources(nf_pieces(k, cs)) == all_of(cs) decreases cs.len() {
    if cs.len() > 0 { lemma_nf_sources(k, cs.drop_last()); assert(nf_pieces(k, cs).drop_last() =~= nf_pieces(k, cs.drop_last())); }
}
@item fn lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilter::apply
@impl impl UnicodeNormalizeCharacterFilter
@replace $x.nfc().collect::<String>() ==> vx_nfc($x)
@replace $x.nfd().collect::<String>() ==> vx_nfd($x)
@replace $x.nfkc().collect::<String>() ==> vx_nfkc($x)
@replace $x.nfkd().collect::<String>() ==> vx_nfkd($x)
@spec
  requires blen(targets(nf_pieces(self.config.kind, clusters(text@)))) <= 0x7fff_ffff_ffff_ffff,
  ensures ({
    let ps = nf_pieces(self.config.kind, clusters(text@));
    r is Ok && r->Ok_0.0@ == targets(ps) && sources(ps) == text@ && tab(r->Ok_0.1@, r->Ok_0.2@, lens(ps))
  })
@at start
  let ghost all = nf_pieces(self.config.kind, clusters(text@));
  proof {
    ax_str_len(text);
    lemma_tab0();
    assert(all.take(0) =~= Seq::empty());
    assert(lens(all.take(0)) =~= Seq::empty());
    lemma_nf_sources(self.config.kind, clusters(text@));
    lemma_lens(all, 0);
  }
@loop 0
  invariant
    all == nf_pieces(self.config.kind, clusters(text@)), all_of(clusters(text@)) == text@, sources(all) == text@, blen(text@) <= 0x7fff_ffff_ffff_ffff,
    osum(lens(all)) <= 0x7fff_ffff_ffff_ffff, isum(lens(all)) == blen(text@),
    it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] it0.seq()[i])@ == all[i].0,
    forall|i: int| 0 <= i < all.len() ==> (#[trigger] clusters(text@)[i]).len() > 0,
    result@ == targets(all.take(it0.index())), tab(offsets@, diffs@, lens(all.take(it0.index()))), isum(lens(all.take(it0.index()))) == input_start
@at loop 0 body_start
  let ghost k = it0.index();
  let ghost ps = lens(all.take(k));
  let ghost (os0, ds0) = (offsets@, diffs@);
  let ghost (il, ol) = (blen(all[k].0) as int, blen(all[k].1) as int);
  proof {
    assert(it0.seq()[k]@ == all[k].0);
    assert(clusters(text@)[k].len() > 0);
    lemma_blen_pos(all[k].0);
    assert(all.take(k + 1).drop_last() =~= all.take(k));
    assert(lens(all.take(k + 1)) =~= ps.push((il, ol)));
    lemma_lens(all, k + 1);
    lemma_lens(all, k);
    lemma_push_sums(ps, il, ol);
    lemma_sums(ps, ps.len() as int);
    lemma_targets(all.take(k));
  }
@at let diff_len 0 after
  proof {
    assert(input_len == il && replacement_len == ol);
    if il == ol { lemma_same(os0, ds0, ps, il); }
    if il > ol { lemma_shrink(os0, ds0, ps, il, ol, (osum(ps) + ol) as usize, (isum(ps) + il - osum(ps) - ol) as i64); }
    if il < ol { lemma_grow(os0, ds0, ps, il, ol); lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), 0); }
  }
@loop 1
  invariant
    0 < il < ol, ol - il == it1.seq().len(),
    output_offset == osum(ps) + il, prev_diff == isum(ps) - osum(ps), osum(ps) >= 0, isum(ps) >= 0,
    osum(ps) + ol <= 0x7fff_ffff_ffff_ffff, isum(ps) + il <= 0x7fff_ffff_ffff_ffff,
    os0.len() == ds0.len(), os0.len() > 0 ==> os0.last() <= osum(ps),
    offsets@ == os0 + run_os(osum(ps) + il, it1.index()), diffs@ == ds0 + run_ds(isum(ps) - osum(ps), it1.index())
@at loop 1 body_start
  proof { lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), it1.index()); }
@at tail
  proof { assert(all.take(all.len() as int) =~= all); }
@end
// ---- regular expressions ---------------------------------------------------------------------------
// trusted: the matches of an expression in a text are character-aligned, in order and do not overlap, and
// replacing all of them keeps what is between
pub struct Found { pub ghost start: int, pub ghost text: Seq<char>, pub ghost groups: int }
#[verifier::external_body]
pub struct Regex { x: u8 }
pub uninterp spec fn rx_valid(p: Seq<char>) -> bool;
pub uninterp spec fn rx_of(r: Regex) -> Seq<char>;
pub uninterp spec fn found_by(r: Regex, t: Seq<char>) -> Seq<Found>;
pub uninterp spec fn expanded(r: Regex, f: Found, tpl: Seq<char>) -> Seq<char>;
pub open spec fn fend(fs: Seq<Found>, k: int) -> int { if k <= 0 { 0 } else { fs[k - 1].start + blen(fs[k - 1].text) } }
pub open spec fn found_at(t: Seq<char>, fs: Seq<Found>, k: int) -> bool {
    fend(fs, k) <= fs[k].start && bound(t, fs[k].start) && bound(t, fend(fs, k + 1)) && fs[k].text == t.subrange(cidx(t, fs[k].start), cidx(t, fend(fs, k + 1)))
}
pub open spec fn founds_ok(t: Seq<char>, fs: Seq<Found>) -> bool { (forall|k: int| 0 <= k < fs.len() ==> #[trigger] found_at(t, fs, k)) && fend(fs, fs.len() as int) <= blen(t) }
#[verifier::external_body]
pub struct VxCaps { x: u8 }
#[verifier::external_body]
pub struct VxMatch { x: u8 }
impl VxMatch {
    pub uninterp spec fn f(&self) -> Found;
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self.f().start { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.f().start + blen(self.f().text) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.f().text { unimplemented!() }
}
impl VxCaps {
    pub uninterp spec fn f(&self) -> Found;
    pub uninterp spec fn re(&self) -> Regex;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<VxMatch>) ensures i == 0 ==> r is Some && r->0.f() == self.f() { unimplemented!() }
    #[verifier::external_body]
    pub fn expand(&self, tpl: &String, out: &mut String) ensures final(out)@ == old(out)@ + expanded(self.re(), self.f(), tpl@) { unimplemented!() }
}
impl Regex {
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, LinderaError>) ensures r is Ok <==> rx_valid(p@), r is Ok ==> rx_of(r->Ok_0) == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_iter(&self, t: &str) -> (r: Vec<VxCaps>)
        ensures r@.len() == found_by(*self, t@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).f() == found_by(*self, t@)[i] && r@[i].re() == *self, founds_ok(t@, found_by(*self, t@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_all(&self, t: &str, tpl: &String) -> (r: String)
        ensures r@ == targets(rx_pieces(*self, t@, found_by(*self, t@), tpl@, found_by(*self, t@).len() as int) + singles(t@.skip(cidx(t@, fend(found_by(*self, t@), found_by(*self, t@).len() as int))))) { unimplemented!() }
}
pub open spec fn singles(s: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (seq![s[i]], seq![s[i]])) }
// the pieces up to the end of the first k matches: single characters between them, and each match with its replacement
pub open spec fn rx_pieces(r: Regex, t: Seq<char>, fs: Seq<Found>, tpl: Seq<char>, k: int) -> Seq<(Seq<char>, Seq<char>)> decreases k {
    if k <= 0 { Seq::empty() }
    else { (rx_pieces(r, t, fs, tpl, k - 1) + singles(t.subrange(cidx(t, fend(fs, k - 1)), cidx(t, fs[k - 1].start)))).push((fs[k - 1].text, expanded(r, fs[k - 1], tpl))) }
}
pub open spec fn rx_all(r: Regex, t: Seq<char>, tpl: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> {
    let fs = found_by(r, t);
    rx_pieces(r, t, fs, tpl, fs.len() as int) + singles(t.skip(cidx(t, fend(fs, fs.len() as int))))
}
pub proof fn lemma_same_singles(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(Seq<char>, Seq<char>)>, s: Seq<char>)
    requires tab(os, ds, lens(ps)),
    ensures tab(os, ds, lens(ps + singles(s))), isum(lens(ps + singles(s))) == isum(lens(ps)) + blen(s), osum(lens(ps + singles(s))) == osum(lens(ps)) + blen(s), sources(singles(s)) == s, targets(singles(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_same_singles(os, ds, ps, t);
        let c = s.last();
        let qs = ps + singles(t);
        assert(qs.push((seq![c], seq![c])) =~= ps + singles(s));
        assert(lens(ps + singles(s)) =~= lens(qs).push((blen(seq![c]) as int, blen(seq![c]) as int)));
        lemma_same(os, ds, lens(qs), blen(seq![c]) as int);
        lemma_push_sums(lens(qs), blen(seq![c]) as int, blen(seq![c]) as int);
        assert(t + seq![c] =~= s);
        lemma_blen_cat(t, seq![c]);
        assert(singles(s).drop_last() =~= singles(t));
        assert(sources(singles(s)) =~= s);
        assert(targets(singles(s)) =~= s);
    } else { assert(ps + singles(s) =~= ps); }
}
pub proof fn lemma_rx_nonneg(ps: Seq<(Seq<char>, Seq<char>)>) ensures nonneg(lens(ps)) {}
pub proof fn lemma_rx_prefix(r: Regex, t: Seq<char>, fs: Seq<Found>, tpl: Seq<char>, k: int, n: int)
    requires 0 <= k <= n,
    ensures rx_pieces(r, t, fs, tpl, k).len() <= rx_pieces(r, t, fs, tpl, n).len(), rx_pieces(r, t, fs, tpl, n).take(rx_pieces(r, t, fs, tpl, k).len() as int) == rx_pieces(r, t, fs, tpl, k)
    decreases n
{
    if k < n {
        lemma_rx_prefix(r, t, fs, tpl, k, n - 1);
        let (a, b, c) = (rx_pieces(r, t, fs, tpl, k), rx_pieces(r, t, fs, tpl, n - 1), rx_pieces(r, t, fs, tpl, n));
        assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    } else { let a = rx_pieces(r, t, fs, tpl, k); assert(a.take(a.len() as int) =~= a); }
}
pub proof fn lemma_between(t: Seq<char>, a: int, b: int)
    requires bound(t, a), bound(t, b), a <= b,
    ensures 0 <= cidx(t, a) <= cidx(t, b) <= t.len(), blen(t.subrange(cidx(t, a), cidx(t, b))) == b - a, blen(t.skip(cidx(t, a))) == blen(t) - a
{
    let (i, j) = (cidx(t, a), cidx(t, b));
    if j < i { lemma_blen_take(t, j, i); }
    lemma_blen_take(t, i, j);
    lemma_bound(t, i);
}
pub proof fn lemma_fend_bound(t: Seq<char>, fs: Seq<Found>, k: int)
    requires founds_ok(t, fs), 0 <= k <= fs.len(),
    ensures bound(t, fend(fs, k)), 0 <= fend(fs, k)
    decreases k
{
    if k > 0 { assert(found_at(t, fs, k - 1)); lemma_fend_bound(t, fs, k - 1); } else { assert(t.take(0) =~= Seq::empty()); assert(blen(t.take(0)) == 0); }
}
// the pieces up to a match make up the text up to its end
pub proof fn lemma_rx_sources(r: Regex, t: Seq<char>, fs: Seq<Found>, tpl: Seq<char>, k: int)
    requires founds_ok(t, fs), 0 <= k <= fs.len(),
    ensures sources(rx_pieces(r, t, fs, tpl, k)) == t.take(cidx(t, fend(fs, k)))
    decreases k
{
    lemma_fend_bound(t, fs, k);
    if k > 0 {
        lemma_rx_sources(r, t, fs, tpl, k - 1);
        lemma_fend_bound(t, fs, k - 1);
        assert(found_at(t, fs, k - 1));
        let (a, b, c) = (fend(fs, k - 1), fs[k - 1].start, fend(fs, k));
        lemma_between(t, a, b);
        lemma_between(t, b, c);
        let g = singles(t.subrange(cidx(t, a), cidx(t, b)));
        let p = rx_pieces(r, t, fs, tpl, k - 1);
        lemma_tab0();
        assert(lens(Seq::<(Seq<char>, Seq<char>)>::empty()) =~= Seq::empty());
        lemma_same_singles(Seq::empty(), Seq::empty(), Seq::empty(), t.subrange(cidx(t, a), cidx(t, b)));
        lemma_cat(p, g);
        let q = rx_pieces(r, t, fs, tpl, k);
        assert(q.drop_last() =~= p + g);
        assert(sources(q) =~= t.take(cidx(t, c)));
    } else {
        lemma_bound(t, 0);
        assert(t.take(0) =~= Seq::empty());
    }
}
pub proof fn c11_regex_pieces(r: Regex, t: Seq<char>, tpl: Seq<char>)
    requires founds_ok(t, found_by(r, t)),
    ensures sources(rx_all(r, t, tpl)) == t
{
    let fs = found_by(r, t);
    let n = fs.len() as int;
    lemma_rx_sources(r, t, fs, tpl, n);
    lemma_fend_bound(t, fs, n);
    let i = cidx(t, fend(fs, n));
    lemma_tab0();
    assert(lens(Seq::<(Seq<char>, Seq<char>)>::empty()) =~= Seq::empty());
    lemma_same_singles(Seq::empty(), Seq::empty(), Seq::empty(), t.skip(i));
    lemma_cat(rx_pieces(r, t, fs, tpl, n), singles(t.skip(i)));
    assert(t.take(i) + t.skip(i) =~= t);
}
@item struct lindera-filter/src/character_filter/regex.rs RegexCharacterFilterConfig
@end
@item struct lindera-filter/src/character_filter/regex.rs RegexCharacterFilter
@end
@item fn lindera-filter/src/character_filter/regex.rs RegexCharacterFilter::apply
@impl impl RegexCharacterFilter
@replace self.regex.replace_all(text, &self.config.replacement).to_string() ==> self.regex.replace_all(text, &self.config.replacement)
@replace usize::from(input_len == 0) ==> (if input_len == 0 { 1usize } else { 0usize })
@spec
  requires blen(targets(rx_all(self.regex, text@, self.config.replacement@))) <= 0x7fff_ffff_ffff_fffe,
  ensures ({
    let ps = rx_all(self.regex, text@, self.config.replacement@);
    r is Ok && r->Ok_0.0@ == targets(ps) && sources(ps) == text@ && tab(r->Ok_0.1@, r->Ok_0.2@, lens(ps))
  })
@at start
  let ghost t = text@;
  let ghost re = self.regex;
  let ghost tpl = self.config.replacement@;
  let ghost fs = found_by(re, t);
  let ghost n = fs.len() as int;
  let ghost all = rx_all(re, t, tpl);
  proof {
    ax_str_len(text);
    lemma_tab0();
    assert(lens(rx_pieces(re, t, fs, tpl, 0)) =~= Seq::empty());
    lemma_lens(all, 0);
  }
@loop 0
  invariant
    t == text@, re == self.regex, tpl == self.config.replacement@, fs == found_by(re, t), n == fs.len(), all == rx_all(re, t, tpl), blen(t) <= 0x7fff_ffff_ffff_ffff,
    it0.seq().len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] it0.seq()[i]).f() == fs[i] && it0.seq()[i].re() == re, founds_ok(t, fs),
    osum(lens(all)) == blen(targets(all)), blen(targets(all)) <= 0x7fff_ffff_ffff_fffe,
    tab(offsets@, diffs@, lens(rx_pieces(re, t, fs, tpl, it0.index()))), isum(lens(rx_pieces(re, t, fs, tpl, it0.index()))) == fend(fs, it0.index())
@at loop 0 body_start
  let ghost k = it0.index();
  let ghost f = fs[k];
  let ghost gap = t.subrange(cidx(t, fend(fs, k)), cidx(t, f.start));
  let ghost p0 = rx_pieces(re, t, fs, tpl, k);
  let ghost ps = lens(p0 + singles(gap));
  let ghost (os0, ds0) = (offsets@, diffs@);
  let ghost (il, ol) = (blen(f.text) as int, blen(expanded(re, f, tpl)) as int);
  proof {
    assert(it0.seq()[k].f() == f);
    lemma_fend_bound(t, fs, k);
    assert(found_at(t, fs, k));
    lemma_between(t, fend(fs, k), f.start);
    lemma_same_singles(os0, ds0, p0, gap);
    assert(lens(rx_pieces(re, t, fs, tpl, k + 1)) =~= ps.push((il, ol)));
    lemma_push_sums(ps, il, ol);
    lemma_rx_prefix(re, t, fs, tpl, k + 1, n);
    let np = rx_pieces(re, t, fs, tpl, k + 1).len() as int;
    assert(all.take(np) =~= rx_pieces(re, t, fs, tpl, n).take(np));
    lemma_lens(all, np);
    lemma_fend_bound(t, fs, k + 1);
    lemma_between(t, f.start, fend(fs, k + 1));
    lemma_bound(t, cidx(t, fend(fs, k + 1)));
    lemma_sums(ps, ps.len() as int);
  }
@at let diff_len 0 after
  proof {
    assert(input_len == il);
    assert(replacement_text@ =~= expanded(re, f, tpl));
    if il == ol { lemma_same(os0, ds0, ps, il); }
    if il > ol { lemma_shrink(os0, ds0, ps, il, ol, (osum(ps) + ol) as usize, (isum(ps) + il - osum(ps) - ol) as i64); }
    if il < ol { lemma_grow(os0, ds0, ps, il, ol); lemma_run_step(os0, ds0, osum(ps) + if il == 0 { 1 } else { il }, isum(ps) - osum(ps), 0); }
  }
@loop 1
  invariant
    0 <= il < ol, ol - il == it1.seq().len(),
    output_start == osum(ps) + if il == 0 { 1 } else { il }, prev_diff == isum(ps) - osum(ps), osum(ps) >= 0, isum(ps) >= 0,
    osum(ps) + ol <= 0x7fff_ffff_ffff_fffe, isum(ps) + il <= 0x7fff_ffff_ffff_ffff,
    os0.len() == ds0.len(), os0.len() > 0 ==> os0.last() <= osum(ps),
    offsets@ == os0 + run_os(osum(ps) + if il == 0 { 1 } else { il }, it1.index()), diffs@ == ds0 + run_ds(isum(ps) - osum(ps), it1.index())
@at loop 1 body_start
  proof { lemma_run_step(os0, ds0, osum(ps) + if il == 0 { 1 } else { il }, isum(ps) - osum(ps), it1.index()); }
@at tail
  proof {
    lemma_fend_bound(t, fs, n);
    lemma_same_singles(offsets@, diffs@, rx_pieces(re, t, fs, tpl, n), t.skip(cidx(t, fend(fs, n))));
    c11_regex_pieces(re, t, tpl);
  }
@end
@item fn lindera-filter/src/character_filter/mapping.rs MappingCharacterFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<MappingCharacterFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<MappingCharacterFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<UnicodeNormalizeCharacterFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<UnicodeNormalizeCharacterFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/character_filter/regex.rs RegexCharacterFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<RegexCharacterFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<RegexCharacterFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/character_filter/regex.rs RegexCharacterFilter::new
@ret r
@spec
  ensures r is Ok <==> rx_valid(config.pattern@), r is Ok ==> r->Ok_0.config == config && rx_of(r->Ok_0.regex) == config.pattern@
@end
} // verus!
fn main() {}
