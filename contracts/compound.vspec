@unit compound
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@include split.inc
@method len => vx_len
@method to_string => vx_to_string
@method to_owned => vx_to_string
@method as_str => vx_as_str
@method get => vx_get
@method contains => vx_has
@method join => vx_join
@method clone => vx_clone
@method split => vx_split
@type HashSet<String> => VxStrSet
@call HashSet::new => vx_new_set
@call mem::swap => vx_swap
@call std::mem::swap => vx_swap
@type serde_json::Value => Value
@known @slicing @streq
verus! {
@include json.inc
@include strings.inc
@include tokens.inc
@include join.inc
@include tags.inc
@item enum lindera-dictionary/src/lib.rs DictionaryKind
@end
@item struct lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilter
@end
type Config = JapaneseCompoundWordTokenFilterConfig;
// trusted: copying a token, joining two strings, owning the pieces of a split
pub trait VxCloneTok: Sized { spec fn cv(&self) -> TokV; fn vx_clone(&self) -> (r: Token) ensures tv(r) == self.cv(); }
impl VxCloneTok for Token { open spec fn cv(&self) -> TokV { tv(*self) } #[verifier::external_body] fn vx_clone(&self) -> (r: Token) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_split_owned(s: &str, c: char) -> (r: Vec<String>) ensures dv(r@) == split_on(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
// ---- the details of a compound word ------------------------------------------------------------------
pub open spec fn base9() -> Seq<char> { "複合語,*,*,*,*,*,*,*,*"@ }
pub open spec fn base17() -> Seq<char> { "複合語,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*"@ }
pub open spec fn base_of(k: DictionaryKind) -> Seq<Seq<char>> { match k { DictionaryKind::UniDic => split_on(base17(), ','), _ => split_on(base9(), ',') } }
pub proof fn lemma_base(k: DictionaryKind) ensures base_of(k).len() >= 9 {
    reveal_strlit("複合語,*,*,*,*,*,*,*,*");
    reveal_strlit("複合語,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*");
    assert(base9() =~= seq!['複', '合', '語', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*']);
    assert(base17() =~= seq!['複', '合', '語', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*']);
    assert(split_on(seq!['複', '合', '語', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*'], ',').len() == 9) by (compute_only);
    assert(split_on(seq!['複', '合', '語', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*', ',', '*'], ',').len() == 17) by (compute_only);
}
pub open spec fn over(b: Seq<Seq<char>>, p: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(b.len(), |i: int| if i < p.len() { p[i] } else { b[i] }) }
pub open spec fn new_details(c: Config) -> Seq<Seq<char>> { match c.new_tag { Some(t) => over(base_of(c.kind), split_on(t@, ',')), None => base_of(c.kind) } }
pub open spec fn config_ok(c: Config) -> bool { c.new_tag is Some ==> split_on(c.new_tag->0@, ',').len() == 4 }
// ---- C16 ------------------------------------------------------------------------------------------------
pub open spec fn tagged(c: Config, t: TokV) -> bool { c.tags@.contains(tag_of(t.details)) }
pub open spec fn cat(c: Config, a: TokV, b: TokV) -> TokV {
    TokV { text: a.text + b.text, byte_end: b.byte_end, position_length: a.position_length + b.position_length, details: new_details(c), ..a }
}
// one token for a run of tokens; a run of one is that token
pub open spec fn one(c: Config, r: Seq<TokV>) -> TokV decreases r.len() { if r.len() <= 1 { r[0] } else { cat(c, one(c, r.drop_last()), r.last()) } }
// length of the maximal run at the start
pub open spec fn run(c: Config, ts: Seq<TokV>) -> int decreases ts.len() { if ts.len() > 0 && tagged(c, ts[0]) { 1 + run(c, ts.skip(1)) } else { 0 } }
pub open spec fn merged(c: Config, ts: Seq<TokV>) -> Seq<TokV> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() }
    else if 0 < run(c, ts) <= ts.len() { seq![one(c, ts.take(run(c, ts)))] + merged(c, ts.skip(run(c, ts))) }
    else { seq![ts[0]] + merged(c, ts.skip(1)) }
}
pub open spec fn all_tagged(c: Config, ts: Seq<TokV>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> tagged(c, #[trigger] ts[i]) }
pub proof fn lemma_run(c: Config, ts: Seq<TokV>, n: int)
    requires 0 <= n <= ts.len(), all_tagged(c, ts, 0, n), n < ts.len() ==> !tagged(c, ts[n]),
    ensures run(c, ts) == n decreases n
{
    if n > 0 {
        assert(tagged(c, ts[0]));
        assert forall|i: int| 0 <= i < n - 1 implies tagged(c, #[trigger] ts.skip(1)[i]) by { assert(tagged(c, ts[i + 1])); }
        lemma_run(c, ts.skip(1), n - 1);
    }
}
// the run from s ends at k
pub proof fn lemma_close(c: Config, all: Seq<TokV>, s: int, k: int)
    requires 0 <= s <= k <= all.len(), all_tagged(c, all, s, k), k < all.len() ==> !tagged(c, all[k]),
    ensures
        s < k ==> merged(c, all.skip(s)) == seq![one(c, all.subrange(s, k))] + merged(c, all.skip(k)),
        s == k && k < all.len() ==> merged(c, all.skip(s)) == seq![all[k]] + merged(c, all.skip(k + 1)),
{
    let t = all.skip(s);
    assert forall|i: int| 0 <= i < k - s implies tagged(c, #[trigger] t[i]) by { assert(tagged(c, all[s + i])); }
    lemma_run(c, t, k - s);
    assert(t.take(k - s) =~= all.subrange(s, k));
    assert(t.skip(k - s) =~= all.skip(k));
    if s == k && k < all.len() { assert(t.skip(1) =~= all.skip(k + 1)); }
}
pub open spec fn plsum(ts: Seq<TokV>) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { plsum(ts.drop_last()) + ts.last().position_length } }
pub proof fn lemma_plsum(ts: Seq<TokV>, k: int) requires 0 <= k <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> 0 <= (#[trigger] ts[i]).position_length ensures 0 <= plsum(ts.take(k)) <= plsum(ts) decreases ts.len() {
    if k < ts.len() { lemma_plsum(ts.drop_last(), k); assert(ts.drop_last().take(k) =~= ts.take(k)); assert(ts.last().position_length >= 0); }
    else { assert(ts.take(k) =~= ts); if k > 0 { lemma_plsum(ts.drop_last(), k - 1); assert(ts.drop_last().take(k - 1) =~= ts.drop_last()); assert(ts.last().position_length >= 0); } }
}
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilter::concat_token
@replace $x.split(',').map(|s| s.to_string()).collect::<Vec<String>>() ==> vx_split_owned($x, ',')
@replace format!("{}{}", $$a, $$b) ==> vx_concat(&$a, &$b)
@spec
  requires config_ok(self.config), old(token1).position_length + token2.position_length <= usize::MAX,
  ensures tv(*final(token1)) == cat(self.config, tv(*old(token1)), tv(*token2))
@at start
  let ghost b = base_of(self.config.kind);
  proof { lemma_base(self.config.kind); }
@loop 0
  invariant
    b == base_of(self.config.kind), self.config.new_tag is Some, b.len() >= 9, new_tag_str@ == self.config.new_tag->0@,
    it0.seq().len() == 4, vxn2 == it0.index(), forall|j: int| 0 <= j < 4 ==> (#[trigger] it0.seq()[j])@ == split_on(new_tag_str@, ',')[j],
    split_on(new_tag_str@, ',').len() == 4, q == split_on(new_tag_str@, ','),
    formatted_details@.len() == b.len(),
    dv(formatted_details@) == over(b, split_on(new_tag_str@, ',').take(it0.index()))
@at loop 0 before
  let ghost q = split_on(new_tag_str@, ',');
  proof {
    assert(strs(new_tag_array@) == q);
    assert forall|j: int| 0 <= j < 4 implies (#[trigger] new_tag_array@[j])@ == q[j] by { assert(strs(new_tag_array@)[j] == q[j]); }
    assert(dv(formatted_details@).len() == b.len());
    assert(dv(formatted_details@) =~= over(b, q.take(0)));
  }
@at loop 0 body_start
  let ghost f0 = formatted_details@;
  let ghost kk = it0.index();
@at loop 0 body_end
  proof {
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] dv(formatted_details@)[j] == over(b, q.take(kk + 1))[j] by { assert(dv(f0)[j] == over(b, q.take(kk))[j]); }
    assert(dv(formatted_details@) =~= over(b, q.take(kk + 1)));
  }
@at loop 0 after
  proof { assert(q.take(4) =~= q); }
@end
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilter::apply
@impl impl JapaneseCompoundWordTokenFilter
@spec
  requires config_ok(self.config), plsum(tvs(old(tokens)@)) <= usize::MAX,
  ensures r is Ok, tvs(final(tokens)@) == merged(self.config, tvs(old(tokens)@))
@at start
  let ghost toks = tokens@;
  let ghost all = tvs(toks);
  let ghost c = self.config;
  let ghost mut s: int = 0;
@ty compound_token_opt Option<Token>
@ty new_tokens Vec<Token>
@loop 0
  invariant
    config_ok(self.config), c == self.config, all == tvs(toks), plsum(all) <= usize::MAX,
    it0.seq().len() == toks.len(), forall|j: int| 0 <= j < toks.len() ==> *(#[trigger] it0.seq()[j]) == toks[j],
    compound_token_opt is None ==> merged(c, all) == tvs(new_tokens@) + merged(c, all.skip(it0.index())),
    compound_token_opt is Some ==> {
      &&& 0 <= s < it0.index() && all_tagged(c, all, s, it0.index())
      &&& merged(c, all) == tvs(new_tokens@) + merged(c, all.skip(s))
      &&& tv(compound_token_opt->0) == one(c, all.subrange(s, it0.index()))
      &&& compound_token_opt->0.position_length <= plsum(all.take(it0.index()))
    },
@at loop 0 before
  proof { assert(all.skip(0) =~= all); assert(tvs(new_tokens@) =~= Seq::empty()); assert(tvs(new_tokens@) + merged(c, all) =~= merged(c, all)); }
@at loop 0 body_start
  let ghost k = it0.index();
  let ghost d = dv(token.details@);
  let ghost n0 = tvs(new_tokens@);
  let ghost o0 = compound_token_opt;
  proof {
    assert(*it0.seq()[k] == toks[k]);
    assert(all[k] == tv(toks[k]));
    lemma_plsum(all, k + 1);
    lemma_plsum(all, k);
    assert(all.take(k + 1).drop_last() =~= all.take(k));
  }
@loop 1
  invariant
    d == dv(token.details@), it1.seq().len() == tag_parts(d).len(), vxn2 == it1.index(), tag_parts(d).len() <= 4,
    forall|j: int| 0 <= j < it1.seq().len() ==> (#[trigger] it1.seq()[j])@ == tag_parts(d)[j],
    strs(formatted_tags@) == pad4(tag_parts(d).take(it1.index()))
@at loop 1 body_start
  let ghost f0 = formatted_tags@;
  proof { assert(vxe1 == it1.seq()[it1.index()]); }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tags@, tag_parts(d), it1.index()); }
@at loop 1 after
  proof { assert(tag_parts(d).take(tag_parts(d).len() as int) =~= tag_parts(d)); }
@at loop 0 body_end
  proof {
    if tagged(c, all[k]) {
      if o0 is None { s = k; assert(all.subrange(s, k + 1) =~= seq![all[k]]); }
      else { assert(all.subrange(s, k + 1).drop_last() =~= all.subrange(s, k)); }
    } else {
      if o0 is Some {
        lemma_close(c, all, s, k);
        assert(tvs(new_tokens@) =~= n0 + seq![one(c, all.subrange(s, k))] + seq![all[k]]);
        assert(n0 + (seq![one(c, all.subrange(s, k))] + merged(c, all.skip(k))) =~= (n0 + seq![one(c, all.subrange(s, k))]) + merged(c, all.skip(k)));
      } else { assert(tvs(new_tokens@) =~= n0 + seq![all[k]]); }
      lemma_close(c, all, k, k);
      assert(tvs(new_tokens@) + merged(c, all.skip(k + 1)) =~= merged(c, all));
    }
  }
@at loop 0 after
  let ghost n1 = tvs(new_tokens@);
  let ghost o1 = compound_token_opt;
@at call vx_swap 0 before
  proof {
    let n = all.len() as int;
    assert(all.skip(n) =~= Seq::empty());
    if o1 is Some {
      lemma_close(c, all, s, n);
      assert(tvs(new_tokens@) =~= n1 + seq![one(c, all.subrange(s, n))]);
    }
    assert(tvs(new_tokens@) =~= merged(c, all));
  }
@end
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilterConfig::new
@spec
  ensures r is Ok, fmt_all(tags@, r->Ok_0.tags@), r->Ok_0.kind == kind, config_ok(r->Ok_0),
    new_tag is None ==> r->Ok_0.new_tag is None, new_tag is Some ==> r->Ok_0.new_tag is Some && r->Ok_0.new_tag->0@ == tag_fmt(new_tag->0@)
@loop 0
  invariant
    forall|x: Seq<char>| #[trigger] tags@.contains(x) <==> among(it0.seq(), x),
    forall|k: int| 0 <= k < it0.index() ==> formatted_tags@.contains(tag_fmt((#[trigger] it0.seq()[k])@)),
    forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) ==> exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t)
@at loop 0 body_start
  proof { assert(tag == it0.seq()[it0.index()]); assert(among(it0.seq(), tag@)); }
  let ghost ps = split_on(tag@, ',');
  let ghost g0 = formatted_tags@;
@loop 1
  invariant_except_break
    vxn2 == it1.index(), vxt4 == 4 - it1.index(), strs(formatted_tag@) == pad4(ps.take(it1.index())),
    it1.index() == it1.seq().len() ==> strs(formatted_tag@) == pad4(ps)
  invariant
    ps == split_on(tag@, ','), it1.seq().len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] it1.seq()[j])@ == ps[j],
  ensures strs(formatted_tag@) == pad4(ps)
@at loop 1 before
  proof { assert(strs(tag_array@) == ps); assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] tag_array@[j])@ == ps[j] by { assert(strs(tag_array@)[j] == ps[j]); } lemma_split_some(tag@, ','); assert(strs(formatted_tag@) =~= pad4(ps.take(0))); }
@at loop 1 body_start
  let ghost f0 = formatted_tag@;
  proof { if it1.index() >= 4 { assert(pad4(ps.take(it1.index())) =~= pad4(ps)); } }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tag@, ps, it1.index()); assert(ps.take(ps.len() as int) =~= ps); }
@at loop 0 body_end
  proof { assert(tags@.contains(tag@)); assert forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) implies exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t) by { if !g0.contains(u) { assert(u == tag_fmt(tag@)); } } }
@loop 2
  invariant_except_break
    vxn6 == it2.index(), vxt8 == 4 - it2.index(), strs(formatted_tag@) == pad4(ps.take(it2.index())),
    it2.index() == it2.seq().len() ==> strs(formatted_tag@) == pad4(ps)
  invariant
    ps == split_on(new_tag_str@, ','), it2.seq().len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] it2.seq()[j])@ == ps[j],
  ensures strs(formatted_tag@) == pad4(ps)
@at loop 2 before
  let ghost ps = split_on(new_tag_str@, ',');
  proof { assert(strs(tag_array@) == ps); assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] tag_array@[j])@ == ps[j] by { assert(strs(tag_array@)[j] == ps[j]); } lemma_split_some(new_tag_str@, ','); assert(strs(formatted_tag@) =~= pad4(ps.take(0))); }
@at loop 2 body_start
  let ghost f0 = formatted_tag@;
  proof { if it2.index() >= 4 { assert(pad4(ps.take(it2.index())) =~= pad4(ps)); } }
@at loop 2 body_end
  proof { lemma_pad_step(f0, formatted_tag@, ps, it2.index()); assert(ps.take(ps.len() as int) =~= ps); }
@at tail
  proof { if new_tag is Some { lemma_fmt_twice(new_tag->0@); } }
@end
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseCompoundWordTokenFilterConfig>(*value) is Some, r is Ok ==> ({ let c = jread::<JapaneseCompoundWordTokenFilterConfig>(*value)->0; let g = r->Ok_0;
     config_ok(g) && g.kind == c.kind && fmt_all(c.tags@, g.tags@) && (c.new_tag is None ==> g.new_tag is None) && (c.new_tag is Some ==> g.new_tag is Some && g.new_tag->0@ == tag_fmt(c.new_tag->0@)) })
@end
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
fn main() {}
@include spans.inc
pub proof fn lemma_one_span(c: Config, r: Seq<TokV>)
    requires r.len() > 0,
    ensures one(c, r).byte_start == r[0].byte_start, one(c, r).byte_end == r.last().byte_end
    decreases r.len()
{
    if r.len() > 1 { lemma_one_span(c, r.drop_last()); assert(r.drop_last()[0] == r[0]); }
}
pub proof fn c12_merged(c: Config, ts: Seq<TokV>, l: int)
    requires spans(ts, l),
    ensures spans(merged(c, ts), l), ts.len() > 0 ==> merged(c, ts).len() > 0 && merged(c, ts)[0].byte_start == ts[0].byte_start
    decreases ts.len()
{
    if ts.len() > 0 {
        let n = if 0 < run(c, ts) <= ts.len() { run(c, ts) } else { 1 };
        let h = if 0 < run(c, ts) <= ts.len() { one(c, ts.take(n)) } else { ts[0] };
        let rest = ts.skip(n);
        let m = merged(c, rest);
        if 0 < run(c, ts) <= ts.len() { lemma_one_span(c, ts.take(n)); }
        assert(h.byte_start == ts[0].byte_start && h.byte_end == ts[n - 1].byte_end);
        if n > 1 { assert(ts[0].byte_end <= ts[n - 1].byte_start); }
        assert forall|i: int| 0 <= i < rest.len() implies 0 <= (#[trigger] rest[i]).byte_start <= rest[i].byte_end <= l by { assert(ts[n + i].byte_start >= 0); }
        assert forall|i: int, j: int| 0 <= i < j < rest.len() implies (#[trigger] rest[i]).byte_end <= (#[trigger] rest[j]).byte_start by { assert(ts[n + i].byte_end <= ts[n + j].byte_start); }
        c12_merged(c, rest, l);
        let r = seq![h] + m;
        assert(merged(c, ts) == r);
        assert forall|i: int| 0 <= i < r.len() implies 0 <= (#[trigger] r[i]).byte_start <= r[i].byte_end <= l by { if i > 0 { assert(m[i - 1].byte_start >= 0); } else { assert(ts[n - 1].byte_end <= l); } }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).byte_end <= (#[trigger] r[j]).byte_start by {
            if i > 0 { assert(m[i - 1].byte_end <= m[j - 1].byte_start); }
            else {
                assert(rest.len() > 0) by { if rest.len() == 0 { assert(m.len() == 0); } }
                assert(ts[n - 1].byte_end <= ts[n].byte_start);
                if j > 1 { assert(m[0].byte_end <= m[j - 1].byte_start); assert(m[0].byte_start <= m[0].byte_end); }
                assert(m[j - 1] == r[j]);
            }
        }
    }
}
} // verus!
