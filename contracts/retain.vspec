@unit retain
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@include split.inc
@method len => vx_len
@method to_string => vx_to_string
@method to_owned => vx_to_string
@method get => vx_get
@method contains => vx_has
@method join => vx_join
@method split => vx_split
@type HashSet<String> => VxStrSet
@type serde_json::Value => Value
@call HashSet::new => vx_new_set
@known @slicing @streq
verus! {
@include strings.inc
@include tokens.inc
@include join.inc
@include tags.inc
@include json.inc
@include json_tags.inc
// ---- C15: the tokens that satisfy the criterion, unmodified and in order ---------------------------
pub open spec fn kept(s: Seq<Token>, p: spec_fn(TokV) -> bool) -> Seq<Token> { s.filter(|t: Token| p(tv(t))) }
pub proof fn lemma_kept(s: Seq<Token>, p: spec_fn(TokV) -> bool, k: int)
    requires 0 <= k < s.len(),
    ensures kept(s.take(k + 1), p) == if p(tv(s[k])) { kept(s.take(k), p).push(s[k]) } else { kept(s.take(k), p) }
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    reveal(Seq::filter);
}
#[verifier::external_body]
pub fn vx_take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@ { std::mem::take(v) }
@item struct lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilter
@end
@item fn lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilter::apply
@impl impl StopWordsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| !self.config.words@.contains(t.text))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| !self.config.words@.contains(t.text);
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| !self.config.words@.contains(t.text)), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilter
@end
@item fn lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilter::apply
@impl impl KeepWordsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| self.config.words@.contains(t.text))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| self.config.words@.contains(t.text);
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| self.config.words@.contains(t.text)), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/length.rs LengthTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/length.rs LengthTokenFilter
@end
pub open spec fn in_bounds(c: LengthTokenFilterConfig, n: int) -> bool { (c.min is Some ==> n >= c.min->0) && (c.max is Some ==> n <= c.max->0) }
@item fn lindera-filter/src/token_filter/length.rs LengthTokenFilter::apply
@impl impl LengthTokenFilter
@replace .chars().count() ==> .vx_count_chars()
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| in_bounds(self.config, t.text.len() as int))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| in_bounds(self.config, t.text.len() as int);
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| in_bounds(self.config, t.text.len() as int)), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilter
@end
@item fn lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilter::apply
@impl impl KoreanStopTagsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| !(t.details.len() > 0 && self.config.tags@.contains(t.details[0])))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| !(t.details.len() > 0 && self.config.tags@.contains(t.details[0]));
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| !(t.details.len() > 0 && self.config.tags@.contains(t.details[0]))), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilter
@end
@item fn lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilter::apply
@impl impl KoreanKeepTagsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| (t.details.len() > 0 && self.config.tags@.contains(t.details[0])))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| (t.details.len() > 0 && self.config.tags@.contains(t.details[0]));
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| (t.details.len() > 0 && self.config.tags@.contains(t.details[0]))), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilter::apply
@impl impl JapaneseStopTagsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| !self.config.tags@.contains(tag_of(t.details)))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| !self.config.tags@.contains(tag_of(t.details));
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| !self.config.tags@.contains(tag_of(t.details))), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  let ghost d = dv(vxi.details@);
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@loop 1
  invariant
    d == dv(vxi.details@), it1.seq().len() == tag_parts(d).len(), vxn2 == it1.index(), tag_parts(d).len() <= 4,
    forall|j: int| 0 <= j < it1.seq().len() ==> (#[trigger] it1.seq()[j])@ == tag_parts(d)[j],
    strs(formatted_tags@) == pad4(tag_parts(d).take(it1.index()))
@at loop 1 body_start
  let ghost f0 = formatted_tags@;
  proof { assert(vxe1 == it1.seq()[it1.index()]); }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tags@, tag_parts(d), it1.index()); }
@at loop 1 after
  proof { assert(tag_parts(d).take(tag_parts(d).len() as int) =~= tag_parts(d)); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item struct lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilter::apply
@impl impl JapaneseKeepTagsTokenFilter
@spec
  ensures r is Ok, final(tokens)@ == kept(old(tokens)@, |t: TokV| self.config.tags@.contains(tag_of(t.details)))
@at start
  let ghost all = tokens@;
  let ghost p = |t: TokV| self.config.tags@.contains(tag_of(t.details));
@loop 0
  invariant it0.seq() == all, p == (|t: TokV| self.config.tags@.contains(tag_of(t.details))), vxkept@ == kept(all.take(it0.index()), p)
@at loop 0 body_start
  let ghost d = dv(vxi.details@);
  proof { lemma_kept(all, p, it0.index()); assert(vxi == all[it0.index()]); }
@loop 1
  invariant
    d == dv(vxi.details@), it1.seq().len() == tag_parts(d).len(), vxn2 == it1.index(), tag_parts(d).len() <= 4,
    forall|j: int| 0 <= j < it1.seq().len() ==> (#[trigger] it1.seq()[j])@ == tag_parts(d)[j],
    strs(formatted_tags@) == pad4(tag_parts(d).take(it1.index()))
@at loop 1 body_start
  let ghost f0 = formatted_tags@;
  proof { assert(vxe1 == it1.seq()[it1.index()]); }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tags@, tag_parts(d), it1.index()); }
@at loop 1 after
  proof { assert(tag_parts(d).take(tag_parts(d).len() as int) =~= tag_parts(d)); }
@at loop 0 after
  proof { assert(all.take(all.len() as int) =~= all); }
@end
@item fn lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilterConfig::new
@ret r
@spec
  ensures fmt_all(tags@, r.tags@)
@loop 0
  invariant
    forall|x: Seq<char>| #[trigger] tags@.contains(x) <==> among(it0.seq(), x),
    forall|k: int| 0 <= k < it0.index() ==> formatted_tags@.contains(tag_fmt((#[trigger] it0.seq()[k])@)),
    forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) ==> exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t)
@at loop 0 body_start
  proof { assert(tag == it0.seq()[it0.index()]); assert(among(it0.seq(), tag@)); }
  let ghost ps = split_on(tag@, ',');
  let ghost g0 = formatted_tags@;
@loop 1
  invariant_except_break
    vxn2 == it1.index(), vxt4 == 4 - it1.index(), strs(formatted_tag@) == pad4(ps.take(it1.index())),
    it1.index() == it1.seq().len() ==> strs(formatted_tag@) == pad4(ps)
  invariant
    ps == split_on(tag@, ','), it1.seq().len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] it1.seq()[j])@ == ps[j],
  ensures strs(formatted_tag@) == pad4(ps)
@at loop 1 before
  proof { assert(strs(tag_array@) == ps); assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] tag_array@[j])@ == ps[j] by { assert(strs(tag_array@)[j] == ps[j]); } lemma_split_some(tag@, ','); assert(strs(formatted_tag@) =~= pad4(ps.take(0))); }
@at loop 1 body_start
  let ghost f0 = formatted_tag@;
  proof { if it1.index() >= 4 { assert(pad4(ps.take(it1.index())) =~= pad4(ps)); } }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tag@, ps, it1.index()); assert(ps.take(ps.len() as int) =~= ps); }
@at loop 0 body_end
  proof { assert(tags@.contains(tag@)); assert forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) implies exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t) by { if !g0.contains(u) { assert(u == tag_fmt(tag@)); } } }
@end
@item fn lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilterConfig::from_value
@ret r
@replace $v["tags"] ==> $v.vx_at("tags")
@spec
  ensures r is Ok <==> tag_list(*value) is Some && all_strings(tag_list(*value)->0), r is Ok ==> fmt_list(tag_list(*value)->0, r->Ok_0.tags@)
@at start
  let ghost l = tag_list(*value)->0;
@loop 0
  invariant tag_list(*value) is Some, l == tag_list(*value)->0, it0.seq().len() == l.len(), forall|j: int| 0 <= j < l.len() ==> *(#[trigger] it0.seq()[j]) == l[j],
     holds(vxc1@, l.take(it0.index())), forall|j: int| 0 <= j < it0.index() ==> jstr(#[trigger] l[j]) is Some
@at loop 0 body_start
  proof { assert(*it0.seq()[it0.index()] == l[it0.index()]); if jstr(l[it0.index()]) is Some { lemma_holds_step(vxc1@, l, it0.index()); } }
@at loop 0 after
  proof { assert(l.take(l.len() as int) =~= l); }
@at tail
  proof { lemma_fmt_list(tags@, l, vx_ret->Ok_0.tags@); }
@end
@item fn lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilterConfig::new
@ret r
@spec
  ensures fmt_all(tags@, r.tags@)
@loop 0
  invariant
    forall|x: Seq<char>| #[trigger] tags@.contains(x) <==> among(it0.seq(), x),
    forall|k: int| 0 <= k < it0.index() ==> formatted_tags@.contains(tag_fmt((#[trigger] it0.seq()[k])@)),
    forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) ==> exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t)
@at loop 0 body_start
  proof { assert(tag == it0.seq()[it0.index()]); assert(among(it0.seq(), tag@)); }
  let ghost ps = split_on(tag@, ',');
  let ghost g0 = formatted_tags@;
@loop 1
  invariant_except_break
    vxn2 == it1.index(), vxt4 == 4 - it1.index(), strs(formatted_tag@) == pad4(ps.take(it1.index())),
    it1.index() == it1.seq().len() ==> strs(formatted_tag@) == pad4(ps)
  invariant
    ps == split_on(tag@, ','), it1.seq().len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] it1.seq()[j])@ == ps[j],
  ensures strs(formatted_tag@) == pad4(ps)
@at loop 1 before
  proof { assert(strs(tag_array@) == ps); assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] tag_array@[j])@ == ps[j] by { assert(strs(tag_array@)[j] == ps[j]); } lemma_split_some(tag@, ','); assert(strs(formatted_tag@) =~= pad4(ps.take(0))); }
@at loop 1 body_start
  let ghost f0 = formatted_tag@;
  proof { if it1.index() >= 4 { assert(pad4(ps.take(it1.index())) =~= pad4(ps)); } }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tag@, ps, it1.index()); assert(ps.take(ps.len() as int) =~= ps); }
@at loop 0 body_end
  proof { assert(tags@.contains(tag@)); assert forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) implies exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t) by { if !g0.contains(u) { assert(u == tag_fmt(tag@)); } } }
@end
@item fn lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilterConfig::from_value
@ret r
@replace $v["tags"] ==> $v.vx_at("tags")
@spec
  ensures r is Ok <==> tag_list(*value) is Some && all_strings(tag_list(*value)->0), r is Ok ==> fmt_list(tag_list(*value)->0, r->Ok_0.tags@)
@at start
  let ghost l = tag_list(*value)->0;
@loop 0
  invariant tag_list(*value) is Some, l == tag_list(*value)->0, it0.seq().len() == l.len(), forall|j: int| 0 <= j < l.len() ==> *(#[trigger] it0.seq()[j]) == l[j],
     holds(vxc1@, l.take(it0.index())), forall|j: int| 0 <= j < it0.index() ==> jstr(#[trigger] l[j]) is Some
@at loop 0 body_start
  proof { assert(*it0.seq()[it0.index()] == l[it0.index()]); if jstr(l[it0.index()]) is Some { lemma_holds_step(vxc1@, l, it0.index()); } }
@at loop 0 after
  proof { assert(l.take(l.len() as int) =~= l); }
@at tail
  proof { lemma_fmt_list(tags@, l, vx_ret->Ok_0.tags@); }
@end
// C24: a tag selects the same tokens as its padded form
pub proof fn c24_padded(t: Seq<char>) ensures tag_fmt(tag_fmt(t)) == tag_fmt(t) { lemma_fmt_twice(t); }
@item fn lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<KoreanStopTagsTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<KoreanStopTagsTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<KoreanKeepTagsTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<KoreanKeepTagsTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<StopWordsTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<StopWordsTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<KeepWordsTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<KeepWordsTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/length.rs LengthTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<LengthTokenFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<LengthTokenFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/token_filter/length.rs LengthTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
@item fn lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
fn main() {}
@include spans.inc
pub proof fn c12_kept(s: Seq<Token>, p: spec_fn(TokV) -> bool, l: int)
    requires spans(tvs(s), l),
    ensures spans(tvs(kept(s, p)), l), kept(s, p).len() > 0 ==> s.len() > 0 && tv(kept(s, p).last()).byte_end <= tv(s.last()).byte_end
    decreases s.len()
{
    let q = |t: Token| p(tv(t));
    if s.len() > 0 {
        let (a, k) = (s.drop_last(), kept(s.drop_last(), p));
        assert forall|i: int| 0 <= i < a.len() implies tvs(a)[i] == tvs(s)[i] by {}
        c12_kept(a, p, l);
        lemma_kept(s, p, s.len() - 1);
        assert(s.take(s.len() as int) =~= s && s.take(s.len() - 1) =~= a);
        let r = kept(s, p);
        let n = k.len() as int;
        if a.len() > 0 { assert(tvs(s)[a.len() - 1] == tv(a.last()) && tvs(s)[s.len() - 1] == tv(s.last())); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] tvs(k)[i]).byte_end <= tv(k.last()).byte_end by {
            if i < n - 1 { assert(tvs(k)[i].byte_end <= tvs(k)[n - 1].byte_start); }
            assert(tvs(k)[n - 1] == tv(k.last()));
        }
        assert forall|i: int| 0 <= i < r.len() implies 0 <= (#[trigger] tvs(r)[i]).byte_start <= tvs(r)[i].byte_end <= l by {
            if i < n { assert(tvs(r)[i] == tvs(k)[i]); } else { assert(tvs(r)[i] == tvs(s)[s.len() - 1]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] tvs(r)[i]).byte_end <= (#[trigger] tvs(r)[j]).byte_start by {
            assert(tvs(r)[i] == tvs(k)[i]);
            if j < n { assert(tvs(r)[j] == tvs(k)[j]); } else { assert(tvs(r)[j] == tvs(s)[s.len() - 1]); assert(tvs(s)[a.len() - 1].byte_end <= tvs(s)[s.len() - 1].byte_start); }
        }
    }
}
} // verus!
