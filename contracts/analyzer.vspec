@unit analyzer
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@include usize_search.inc
@method binary_search => vx_binary_search
@method len => vx_len
@method to_string => vx_to_string
@method box_clone => vx_box_clone
@known @slicing
verus! {
@include strings.inc
@include tokens.inc
@include spans.inc
@include offsets.inc
#[verifier::external_body]
pub proof fn ax_string_len(s: &String) ensures blen(s@) <= 0x7fff_ffff_ffff_ffff {}
// ---- the parts of an analyzer, by their contracts -----------------------------------------------------
// a character filter: what C11 and C13 prove of each of the four filters
#[verifier::external_body]
pub struct BoxCharacterFilter { x: u8 }
pub uninterp spec fn cf_ok(f: BoxCharacterFilter, t: Seq<char>) -> bool;
pub uninterp spec fn cf_text(f: BoxCharacterFilter, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn cf_os(f: BoxCharacterFilter, t: Seq<char>) -> Seq<usize>;
pub uninterp spec fn cf_ds(f: BoxCharacterFilter, t: Seq<char>) -> Seq<i64>;
pub uninterp spec fn cf_ps(f: BoxCharacterFilter, t: Seq<char>) -> Seq<(int, int)>;
pub open spec fn cf_tab(f: BoxCharacterFilter, t: Seq<char>) -> bool {
    tab(cf_os(f, t), cf_ds(f, t), cf_ps(f, t)) && isum(cf_ps(f, t)) == blen(t) && osum(cf_ps(f, t)) == blen(cf_text(f, t))
}
impl BoxCharacterFilter {
    #[verifier::external_body]
    pub fn apply(&self, text: &str) -> (r: LinderaResult<(String, Vec<usize>, Vec<i64>)>)
        ensures r is Ok <==> cf_ok(*self, text@), r is Ok ==> r->Ok_0.0@ == cf_text(*self, text@) && r->Ok_0.1@ == cf_os(*self, text@) && r->Ok_0.2@ == cf_ds(*self, text@) && cf_tab(*self, text@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_box_clone(&self) -> (r: BoxCharacterFilter) ensures r == *self { unimplemented!() }
}
// a token filter: what C14 to C19 prove; none moves a token out of the text it is in
#[verifier::external_body]
pub struct BoxTokenFilter { x: u8 }
pub uninterp spec fn tf_ok(f: BoxTokenFilter, s: Seq<TokV>) -> bool;
pub uninterp spec fn tf_out(f: BoxTokenFilter, s: Seq<TokV>) -> Seq<TokV>;
impl BoxTokenFilter {
    #[verifier::external_body]
    pub fn apply(&self, tokens: &mut Vec<Token>) -> (r: LinderaResult<()>)
        ensures r is Ok <==> tf_ok(*self, tvs(old(tokens)@)), r is Ok ==> tvs(final(tokens)@) == tf_out(*self, tvs(old(tokens)@)), r is Ok ==> forall|l: int| spans(tvs(old(tokens)@), l) ==> #[trigger] spans(tvs(final(tokens)@), l) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_box_clone(&self) -> (r: BoxTokenFilter) ensures r == *self { unimplemented!() }
}
// the tokenizer: what C01 to C04 and C23 prove
#[verifier::external_body]
pub struct Dictionary { x: u8 }
#[verifier::external_body]
pub struct UserDictionary { x: u8 }
#[verifier::external_body]
pub struct Tokenizer { x: u8 }
@item struct lindera-tokenizer/src/token.rs Token
@as RawToken
@end
pub uninterp spec fn raw_details(t: RawToken) -> Option<Seq<Seq<char>>>;
pub open spec fn shown(r: Option<Vec<&str>>) -> Option<Seq<Seq<char>>> { match r { Some(v) => Some(Seq::new(v@.len(), |i: int| v@[i]@)), None => None } }
impl<'a> RawToken<'a> {
    #[verifier::external_body]
    pub fn get_details(&mut self) -> (r: Option<Vec<&str>>)
        ensures shown(r) == raw_details(*old(self)) { unimplemented!() }
}
pub open spec fn rtv(t: RawToken) -> TokV {
    TokV { text: t.text@, byte_start: t.byte_start as int, byte_end: t.byte_end as int, position: t.position as int, position_length: t.position_length as int, word_id: t.word_id, details: raw_details(t)->0 }
}
pub uninterp spec fn tz_ok(z: Tokenizer, t: Seq<char>) -> bool;
// the tokens, and whether their details are known
pub uninterp spec fn tz_toks(z: Tokenizer, t: Seq<char>) -> Seq<(TokV, bool)>;
impl Tokenizer {
    #[verifier::external_body]
    pub fn tokenize<'a>(&'a self, text: &'a str) -> (r: LinderaResult<Vec<RawToken<'a>>>)
        ensures r is Ok <==> tz_ok(*self, text@), r is Ok ==> r->Ok_0@.len() == tz_toks(*self, text@).len() && (forall|i: int| 0 <= i < r->Ok_0@.len() ==> rtv(#[trigger] r->Ok_0@[i]) == tz_toks(*self, text@)[i].0 && (raw_details(r->Ok_0@[i]) is Some == tz_toks(*self, text@)[i].1)) && spans(firsts(tz_toks(*self, text@)), blen(text@) as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Tokenizer) ensures r == *self { unimplemented!() }
}
pub open spec fn firsts(s: Seq<(TokV, bool)>) -> Seq<TokV> { Seq::new(s.len(), |i: int| s[i].0) }
@item struct lindera-analyzer/src/analyzer.rs Analyzer
@end
// ---- what an analysis is -------------------------------------------------------------------------------
// the text after the first k character filters
pub open spec fn ctext(fs: Seq<BoxCharacterFilter>, t: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { t } else { cf_text(fs[k - 1], ctext(fs, t, k - 1)) } }
// an offset of that text mapped back through them, the last first
pub open spec fn unmap(fs: Seq<BoxCharacterFilter>, t: Seq<char>, k: int, o: int) -> int decreases k {
    if k <= 0 { o } else { unmap(fs, t, k - 1, corr(cf_os(fs[k - 1], ctext(fs, t, k - 1)), cf_ds(fs[k - 1], ctext(fs, t, k - 1)), o)) }
}
// the tokens after the first k token filters
pub open spec fn tout(fs: Seq<BoxTokenFilter>, s: Seq<TokV>, k: int) -> Seq<TokV> decreases k { if k <= 0 { s } else { tf_out(fs[k - 1], tout(fs, s, k - 1)) } }
pub open spec fn moved(v: TokV, a: int, b: int) -> TokV { TokV { byte_start: a, byte_end: b, ..v } }
pub open spec fn analysis_ok(a: Analyzer, t: Seq<char>) -> bool {
    let n = a.character_filters@.len() as int;
    let x = ctext(a.character_filters@, t, n);
    &&& forall|k: int| 0 <= k < n ==> cf_ok(#[trigger] a.character_filters@[k], ctext(a.character_filters@, t, k))
    &&& tz_ok(a.tokenizer, x)
    &&& forall|i: int| 0 <= i < tz_toks(a.tokenizer, x).len() ==> (#[trigger] tz_toks(a.tokenizer, x)[i]).1
    &&& forall|k: int| 0 <= k < a.token_filters@.len() ==> tf_ok(#[trigger] a.token_filters@[k], tout(a.token_filters@, firsts(tz_toks(a.tokenizer, x)), k))
}
pub open spec fn analysis(a: Analyzer, t: Seq<char>) -> Seq<TokV> {
    let n = a.character_filters@.len() as int;
    let s = tout(a.token_filters@, firsts(tz_toks(a.tokenizer, ctext(a.character_filters@, t, n))), a.token_filters@.len() as int);
    Seq::new(s.len(), |i: int| moved(s[i], unmap(a.character_filters@, t, n, s[i].byte_start), unmap(a.character_filters@, t, n, s[i].byte_end)))
}
// ---- the recorded tables -------------------------------------------------------------------------------
pub open spec fn good_table(os: Seq<usize>, ds: Seq<i64>, hi: int) -> bool {
    &&& os.len() == ds.len() && os.len() > 0 && ascending(os) && os.last() <= hi
    &&& 0 <= hi <= 0x7fff_ffff_ffff_ffff && hi + last_diff(ds) <= 0x7fff_ffff_ffff_ffff
    &&& forall|o: int| 0 <= o <= hi ==> 0 <= #[trigger] corr(os, ds, o) <= hi + last_diff(ds)
    &&& forall|o: int, p: int| 0 <= o <= p <= hi ==> #[trigger] corr(os, ds, o) <= #[trigger] corr(os, ds, p)
}
// the tables from the i-th on take offsets of a text of hi bytes to offsets of a text of end bytes
pub open spec fn chain(ol: Seq<Vec<usize>>, dl: Seq<Vec<i64>>, ll: Seq<usize>, i: int, hi: int, end: int) -> bool decreases ol.len() - i {
    if i >= ol.len() { hi == end } else { ll[i] == hi && good_table(ol[i]@, dl[i]@, hi) && chain(ol, dl, ll, i + 1, hi + last_diff(dl[i]@), end) }
}
pub open spec fn through(ol: Seq<Vec<usize>>, dl: Seq<Vec<i64>>, i: int, o: int) -> int decreases ol.len() - i {
    if i >= ol.len() { o } else { through(ol, dl, i + 1, corr(ol[i]@, dl[i]@, o)) }
}
pub proof fn lemma_shift(ol: Seq<Vec<usize>>, dl: Seq<Vec<i64>>, ll: Seq<usize>, ol2: Seq<Vec<usize>>, dl2: Seq<Vec<i64>>, ll2: Seq<usize>, i: int, hi: int, end: int)
    requires i >= 0, ol.len() == dl.len() == ll.len(), ol2.len() == ol.len() + 1, dl2.len() == ol2.len(), ll2.len() == ol2.len(),
        forall|k: int| 0 <= k < ol.len() ==> ol2[k + 1] == #[trigger] ol[k] && dl2[k + 1] == dl[k] && ll2[k + 1] == ll[k],
    ensures chain(ol2, dl2, ll2, i + 1, hi, end) == chain(ol, dl, ll, i, hi, end), forall|o: int| through(ol2, dl2, i + 1, o) == #[trigger] through(ol, dl, i, o)
    decreases ol.len() - i
{
    if i < ol.len() {
        assert(ol2[i + 1] == ol[i]);
        lemma_shift(ol, dl, ll, ol2, dl2, ll2, i + 1, hi + last_diff(dl[i]@), end);
        assert forall|o: int| through(ol2, dl2, i + 1, o) == #[trigger] through(ol, dl, i, o) by {
            assert(through(ol2, dl2, i + 2, corr(ol[i]@, dl[i]@, o)) == through(ol, dl, i + 1, corr(ol[i]@, dl[i]@, o)));
        }
    }
}
pub proof fn lemma_good(f: BoxCharacterFilter, t: Seq<char>)
    requires cf_tab(f, t), cf_os(f, t).len() > 0, blen(t) <= 0x7fff_ffff_ffff_ffff, blen(cf_text(f, t)) <= 0x7fff_ffff_ffff_ffff,
    ensures good_table(cf_os(f, t), cf_ds(f, t), blen(cf_text(f, t)) as int), blen(cf_text(f, t)) + last_diff(cf_ds(f, t)) == blen(t)
{
    let (os, ds, ps) = (cf_os(f, t), cf_ds(f, t), cf_ps(f, t));
    assert forall|o: int| 0 <= o <= osum(ps) implies 0 <= #[trigger] corr(os, ds, o) <= isum(ps) by { c11_range(os, ds, ps, o); }
}
pub proof fn lemma_through(ol: Seq<Vec<usize>>, dl: Seq<Vec<i64>>, ll: Seq<usize>, i: int, hi: int, end: int, o: int, p: int)
    requires i >= 0, ol.len() == dl.len() == ll.len(), chain(ol, dl, ll, i, hi, end), 0 <= o <= p <= hi,
    ensures 0 <= through(ol, dl, i, o) <= through(ol, dl, i, p) <= end
    decreases ol.len() - i
{
    if i < ol.len() { lemma_through(ol, dl, ll, i + 1, hi + last_diff(dl[i]@), end, corr(ol[i]@, dl[i]@, o), corr(ol[i]@, dl[i]@, p)); }
}
@item fn lindera-analyzer/src/analyzer.rs Analyzer::analyze
@ty tokens Vec<Token>
@spec
  ensures
    r is Ok <==> analysis_ok(*self, text@),
    r is Ok ==> tvs(r->Ok_0@) == analysis(*self, text@),
    r is Ok ==> spans(tvs(r->Ok_0@), blen(text@) as int)
@at start
  let ghost fs = self.character_filters@;
  let ghost t0 = text@;
  let ghost end = blen(t0) as int;
  proof { ax_str_len(text); }
@loop 0
  invariant
    fs == self.character_filters@, t0 == text@, end == blen(t0), end <= 0x7fff_ffff_ffff_ffff,
    it0.seq().len() == fs.len(), forall|k: int| 0 <= k < fs.len() ==> *(#[trigger] it0.seq()[k]) == fs[k],
    normalized_text@ == ctext(fs, t0, it0.index() as int), blen(normalized_text@) <= 0x7fff_ffff_ffff_ffff,
    forall|k: int| 0 <= k < it0.index() ==> cf_ok(#[trigger] fs[k], ctext(fs, t0, k)),
    offsets_vec@.len() == diffs_vec@.len() == text_len_vec@.len(),
    chain(offsets_vec@, diffs_vec@, text_len_vec@, 0, blen(normalized_text@) as int, end),
    forall|o: int| #[trigger] through(offsets_vec@, diffs_vec@, 0, o) == unmap(fs, t0, it0.index() as int, o)
@at loop 0 body_start
  let ghost k = it0.index() as int;
  let ghost x = normalized_text@;
  let ghost (ol, dl, ll) = (offsets_vec@, diffs_vec@, text_len_vec@);
  proof { assert(*(it0.seq()[k]) == fs[k]); assert(ctext(fs, t0, k) == x); }
@at loop 0 body_end
  proof {
    let f = fs[k];
    ax_string_len(&normalized_text);
    assert(normalized_text@ == ctext(fs, t0, k + 1));
    if cf_os(f, x).len() > 0 {
      lemma_good(f, x);
      lemma_shift(ol, dl, ll, offsets_vec@, diffs_vec@, text_len_vec@, 0, blen(x) as int, end);
      assert forall|o: int| #[trigger] through(offsets_vec@, diffs_vec@, 0, o) == unmap(fs, t0, k + 1, o) by {
        let c = corr(cf_os(f, x), cf_ds(f, x), o);
        assert(through(offsets_vec@, diffs_vec@, 1, c) == through(ol, dl, 0, c));
      }
    } else {
      assert(cf_ds(f, x).len() == 0);
      assert forall|o: int| #[trigger] through(offsets_vec@, diffs_vec@, 0, o) == unmap(fs, t0, k + 1, o) by {
        assert(corr(cf_os(f, x), cf_ds(f, x), o) == o);
      }
    }
  }
@at loop 0 after
  let ghost x = normalized_text@;
  let ghost n = fs.len() as int;
  let ghost raw = tz_toks(self.tokenizer, x);
@loop 1
  invariant
    x == ctext(self.character_filters@, text@, self.character_filters@.len() as int),
    raw == tz_toks(self.tokenizer, x), it1.seq().len() == raw.len(),
    forall|j: int| 0 <= j < raw.len() ==> rtv(*(#[trigger] it1.seq()[j])) == raw[j].0 && (raw_details(*it1.seq()[j]) is Some == raw[j].1),
    tokens@.len() == it1.index(), forall|j: int| 0 <= j < it1.index() ==> (#[trigger] raw[j]).1 && tv(tokens@[j]) == raw[j].0
@at loop 1 body_start
  let ghost j = it1.index() as int;
  let ghost tk = *token;
  proof { assert(tk == *(it1.seq()[j])); assert(rtv(tk) == raw[j].0); }
@loop 2
  invariant
    it2.seq().len() == raw_details(tk)->0.len(), forall|i: int| 0 <= i < it2.seq().len() ==> (#[trigger] it2.seq()[i])@ == raw_details(tk)->0[i],
    vxc1@.len() == it2.index(), forall|i: int| 0 <= i < it2.index() ==> (#[trigger] vxc1@[i])@ == raw_details(tk)->0[i]
@at loop 2 after
  proof { assert(dv(vxc1@) =~= raw_details(tk)->0); }
@at loop 1 after
  let ghost base = firsts(raw);
  proof { assert(tvs(tokens@) =~= base); }
@loop 3
  invariant
    x == ctext(self.character_filters@, text@, self.character_filters@.len() as int), base == firsts(tz_toks(self.tokenizer, x)),
    it3.seq().len() == self.token_filters@.len(), forall|k: int| 0 <= k < it3.seq().len() ==> *(#[trigger] it3.seq()[k]) == self.token_filters@[k],
    tvs(tokens@) == tout(self.token_filters@, base, it3.index() as int), spans(tvs(tokens@), blen(x) as int),
    forall|k: int| 0 <= k < it3.index() ==> tf_ok(#[trigger] self.token_filters@[k], tout(self.token_filters@, base, k))
@at loop 3 body_start
  let ghost kk = it3.index() as int;
  proof { assert(*(it3.seq()[kk]) == self.token_filters@[kk]); }
@at loop 3 after
  let ghost all = tokens@;
@loop 4
  invariant
    end <= 0x7fff_ffff_ffff_ffff, spans(tvs(all), blen(x) as int),
    offsets_vec@.len() == diffs_vec@.len() == text_len_vec@.len(),
    chain(offsets_vec@, diffs_vec@, text_len_vec@, 0, blen(x) as int, end),
    forall|o: int| #[trigger] through(offsets_vec@, diffs_vec@, 0, o) == unmap(fs, t0, n, o),
    it4.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it4.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it4.index() ==> tv(*final(#[trigger] it4.seq()[j])) == moved(tv(all[j]), unmap(fs, t0, n, all[j].byte_start as int), unmap(fs, t0, n, all[j].byte_end as int))
@at loop 4 body_start
  let ghost j = it4.index() as int;
  let ghost tj = tv(all[j]);
  let ghost mut hi = blen(x) as int;
  proof { assert(*(it4.seq()[j]) == all[j]); assert(tvs(all)[j] == tj); assert(0 <= tj.byte_start <= tj.byte_end <= hi); }
@loop 5
  invariant
    end <= 0x7fff_ffff_ffff_ffff,
    offsets_vec@.len() == diffs_vec@.len() == text_len_vec@.len(),
    it5.seq().len() == offsets_vec@.len(), forall|i: int| 0 <= i < it5.seq().len() ==> *(#[trigger] it5.seq()[i]) == offsets_vec@[i],
    vxn6 == it5.index(),
    chain(offsets_vec@, diffs_vec@, text_len_vec@, it5.index() as int, hi, end),
    0 <= token.byte_start <= token.byte_end <= hi,
    tv(*token) == moved(tj, token.byte_start as int, token.byte_end as int),
    through(offsets_vec@, diffs_vec@, it5.index() as int, token.byte_start as int) == through(offsets_vec@, diffs_vec@, 0, tj.byte_start),
    through(offsets_vec@, diffs_vec@, it5.index() as int, token.byte_end as int) == through(offsets_vec@, diffs_vec@, 0, tj.byte_end)
@at loop 5 body_start
  let ghost q = it5.index() as int;
  let ghost (o, p) = (token.byte_start as int, token.byte_end as int);
  proof {
    assert(*(it5.seq()[q]) == offsets_vec@[q]);
    assert(good_table(offsets_vec@[q]@, diffs_vec@[q]@, hi));
    assert(corr(offsets_vec@[q]@, diffs_vec@[q]@, o) <= corr(offsets_vec@[q]@, diffs_vec@[q]@, p));
  }
@at loop 5 body_end
  proof { hi = hi + last_diff(diffs_vec@[q]@); }
@at tail
  proof {
    if vx_ret is Ok {
      let s = tout(self.token_filters@, base, self.token_filters@.len() as int);
      assert(tvs(all) == s);
      assert(tvs(tokens@) =~= analysis(*self, t0)) by {
        assert forall|i: int| 0 <= i < s.len() implies tvs(tokens@)[i] == analysis(*self, t0)[i] by { assert(tvs(all)[i] == tv(all[i])); }
      }
      assert forall|i: int| 0 <= i < tokens@.len() implies 0 <= (#[trigger] tvs(tokens@)[i]).byte_start <= tvs(tokens@)[i].byte_end <= end by {
        assert(tvs(all)[i] == s[i]);
        lemma_through(offsets_vec@, diffs_vec@, text_len_vec@, 0, blen(x) as int, end, s[i].byte_start, s[i].byte_end);
      }
      assert forall|i: int, k: int| 0 <= i < k < tokens@.len() implies (#[trigger] tvs(tokens@)[i]).byte_end <= (#[trigger] tvs(tokens@)[k]).byte_start by {
        assert(tvs(all)[i] == s[i] && tvs(all)[k] == s[k]);
        lemma_through(offsets_vec@, diffs_vec@, text_len_vec@, 0, blen(x) as int, end, s[i].byte_end, s[k].byte_start);
      }
    }
  }
@end
@item fn lindera-analyzer/src/analyzer.rs Analyzer::clone
@impl impl Analyzer
@spec
  ensures r.character_filters@ == self.character_filters@, r.tokenizer == self.tokenizer, r.token_filters@ == self.token_filters@
@loop 0
  invariant
    it0.seq().len() == self.character_filters@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.character_filters@[k],
    character_filters@ == self.character_filters@.take(it0.index() as int)
@loop 1
  invariant
    it1.seq().len() == self.token_filters@.len(), forall|k: int| 0 <= k < it1.seq().len() ==> *(#[trigger] it1.seq()[k]) == self.token_filters@[k],
    token_filters@ == self.token_filters@.take(it1.index() as int)
@end
// C26: what the parts agree on, the analyses agree on
pub proof fn c26_clone(a: Analyzer, b: Analyzer, t: Seq<char>)
    requires a.character_filters@ == b.character_filters@, a.tokenizer == b.tokenizer, a.token_filters@ == b.token_filters@,
    ensures analysis_ok(a, t) == analysis_ok(b, t), analysis(a, t) == analysis(b, t)
{
}
} // verus!
fn main() {}
