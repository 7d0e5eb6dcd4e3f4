@unit rewrite
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@method len => vx_len
@method to_string => vx_to_string
@method to_owned => vx_to_string
@method get => vx_get
@method to_lowercase => vx_lower
@method to_uppercase => vx_upper
@method len_utf8 => fn vx_len_utf8
@method ends_with => vx_ends_with
@type NonZeroUsize => VxNonZero
@type serde_json::Value => Value
@known @slicing @streq
verus! {
@include json.inc
@include strings.inc
@include tokens.inc
// C18: the same tokens with new texts
pub open spec fn retexted(old: Seq<TokV>, new: Seq<TokV>, f: spec_fn(TokV) -> Seq<char>) -> bool {
    new.len() == old.len() && forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == with_text(old[i], f(old[i]))
}
pub open spec fn unk(t: TokV) -> bool { t.details[0] == "UNK"@ }
pub open spec fn field_text(t: TokV, i: int) -> Seq<char> { if !unk(t) && 0 <= i < t.details.len() { t.details[i] } else { t.text } }
@item struct lindera-filter/src/token_filter/lowercase.rs LowercaseTokenFilter
@end
@item fn lindera-filter/src/token_filter/lowercase.rs LowercaseTokenFilter::apply
@impl impl LowercaseTokenFilter
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| lower(t.text))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), lower(all[j].text@))
@end
@item struct lindera-filter/src/token_filter/uppercase.rs UppercaseTokenFilter
@end
@item fn lindera-filter/src/token_filter/uppercase.rs UppercaseTokenFilter::apply
@impl impl UppercaseTokenFilter
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| upper(t.text))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), upper(all[j].text@))
@end
@item enum lindera-dictionary/src/lib.rs DictionaryKind
@end
@item struct lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilter
@end
pub open spec fn base_field(k: DictionaryKind) -> int { match k { DictionaryKind::IPADIC => 6, DictionaryKind::IPADICNEologd => 6, DictionaryKind::UniDic => 10, _ => -1 } }
pub open spec fn reading_field(k: DictionaryKind) -> int { match k { DictionaryKind::IPADIC => 7, DictionaryKind::IPADICNEologd => 7, DictionaryKind::UniDic => 6, _ => -1 } }
@item fn lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilter::apply
@impl impl JapaneseBaseFormTokenFilter
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| field_text(t, base_field(self.config.kind)))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), field_text(tv(all[j]), base_field(self.config.kind)))
@at loop 0 body_start
  let ghost t0 = tv(all[it0.index()]);
  proof { assert(*it0.seq()[it0.index()] == all[it0.index()]); if token.details@.len() > 0 { assert(t0.details[0] == token.details@[0]@); } }
@end
@item struct lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilter::apply
@impl impl JapaneseReadingFormTokenFilter
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| field_text(t, reading_field(self.config.kind)))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), field_text(tv(all[j]), reading_field(self.config.kind)))
@at loop 0 body_start
  let ghost t0 = tv(all[it0.index()]);
  proof { assert(*it0.seq()[it0.index()] == all[it0.index()]); if token.details@.len() > 0 { assert(t0.details[0] == token.details@[0]@); } }
@end
@item struct lindera-filter/src/token_filter/korean_reading_form.rs KoreanReadingFormTokenFilter
@end
@item fn lindera-filter/src/token_filter/korean_reading_form.rs KoreanReadingFormTokenFilter::apply
@impl impl KoreanReadingFormTokenFilter
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| field_text(t, 3))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), field_text(tv(all[j]), 3))
@at loop 0 body_start
  let ghost t0 = tv(all[it0.index()]);
  proof { assert(*it0.seq()[it0.index()] == all[it0.index()]); if token.details@.len() > 0 { assert(t0.details[0] == token.details@[0]@); } }
@end
// trusted: the kana conversions of the kanaria crate
pub uninterp spec fn hira(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn kana(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_hiragana(s: &str) -> (r: String) ensures r@ == hira(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_katakana(s: &str) -> (r: String) ensures r@ == kana(s@) { unimplemented!() }
@item enum lindera-filter/src/token_filter/japanese_kana.rs KanaKind
@end
@item struct lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilter::apply
@impl impl JapaneseKanaTokenFilter
@replace UCSStr::from_str($$a).hiragana().to_string() ==> vx_hiragana($a)
@replace UCSStr::from_str($$a).katakana().to_string() ==> vx_katakana($a)
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| if self.config.kind is Hiragana { hira(t.text) } else { kana(t.text) })
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), if self.config.kind is Hiragana { hira(all[j].text@) } else { kana(all[j].text@) })
@end
// ---- C17 -------------------------------------------------------------------------------------------
// trusted: the block table of `unicode_blocks`
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub struct UnicodeBlock { pub id: u32 }
    pub const HIRAGANA: UnicodeBlock = UnicodeBlock { id: 0x3040 };
    pub const KATAKANA: UnicodeBlock = UnicodeBlock { id: 0x30A0 };
    pub const KATAKANA_PHONETIC_EXTENSIONS: UnicodeBlock = UnicodeBlock { id: 0x31F0 };
    pub open spec fn block_has(b: UnicodeBlock, c: char) -> bool {
    if b == HIRAGANA { '\u{3040}' <= c && c <= '\u{309F}' } else if b == KATAKANA { '\u{30A0}' <= c && c <= '\u{30FF}' } else if b == KATAKANA_PHONETIC_EXTENSIONS { '\u{31F0}' <= c && c <= '\u{31FF}' } else { true }
}
#[verifier::external_body]
pub fn find_unicode_block(c: char) -> (r: Option<UnicodeBlock>)
    ensures r is Some ==> block_has(r->0, c), block_has(HIRAGANA, c) ==> r == Some(HIRAGANA), block_has(KATAKANA, c) ==> r == Some(KATAKANA), block_has(KATAKANA_PHONETIC_EXTENSIONS, c) ==> r == Some(KATAKANA_PHONETIC_EXTENSIONS) { unimplemented!() }
pub struct VxNonZero { pub n: usize }
impl VxNonZero { pub fn vx_get(&self) -> (r: usize) ensures r == self.n { self.n } }
pub trait VxEnds { spec fn es(&self) -> Seq<char>; fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.es().len() > 0 && self.es().last() == c); }
impl VxEnds for String { open spec fn es(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_ends_with(&self, c: char) -> (r: bool) { self.ends_with(c) } }
impl VxEnds for str { open spec fn es(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_ends_with(&self, c: char) -> (r: bool) { self.ends_with(c) } }
pub open spec fn kata(c: char) -> bool { '\u{30A0}' <= c && c <= '\u{30FF}' }
pub open spec fn all_kata(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> kata(#[trigger] s[i]) }
pub open spec fn stem(s: Seq<char>, min: int) -> Seq<char> { if all_kata(s) && s.len() > min && s.len() > 0 && s.last() == '\u{30FC}' { s.drop_last() } else { s } }
@item const lindera-filter/src/token_filter/japanese_katakana_stem.rs DEFAULT_HIRAGANA_KATAKANA_PROLONGED_SOUND_MARK
@end
@item struct lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_katakana_stem.rs is_katakana
@replace unicode_blocks :: $x ==> $x
@spec
  ensures r == all_kata(text@)
@loop 0
  invariant it0.seq() == text@, forall|j: int| 0 <= j < it0.index() ==> kata(text@[j])
@at loop 0 body_start
  proof { assert(ch == text@[it0.index()]); }
@end
@item fn lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilter::apply
@impl impl JapaneseKatakanaStemTokenFilter
@replace .chars().count() ==> .vx_count_chars()
@spec
  ensures r is Ok, retexted(tvs(old(tokens)@), tvs(final(tokens)@), |t: TokV| stem(t.text, self.config.min.n as int))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    min == self.config.min.n,
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == with_text(tv(all[j]), stem(all[j].text@, self.config.min.n as int))
@at loop 0 body_start
  let ghost x = token.text@;
  proof {
    assert(*it0.seq()[it0.index()] == all[it0.index()]);
    if x.len() > 0 {
      let n = x.len() - 1;
      assert(x =~= x.take(n) + seq![x[n]]);
      lemma_blen_cat(x.take(n), seq![x[n]]);
      lemma_blen_one(x[n]);
      lemma_bound(x, n);
      assert(x.take(n) =~= x.drop_last());
      assert(clen('\u{30FC}') == 3);
    }
  }
@end
@item fn lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseBaseFormTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<JapaneseBaseFormTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseReadingFormTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<JapaneseReadingFormTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseKatakanaStemTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<JapaneseKatakanaStemTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseKanaTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<JapaneseKanaTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
fn main() {}
@include spans.inc
pub proof fn c12_retexted(old: Seq<TokV>, new: Seq<TokV>, f: spec_fn(TokV) -> Seq<char>, l: int)
    requires retexted(old, new, f), spans(old, l),
    ensures spans(new, l)
{
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies (#[trigger] new[i]).byte_end <= (#[trigger] new[j]).byte_start by { assert(old[i].byte_end <= old[j].byte_start); }
}
} // verus!
