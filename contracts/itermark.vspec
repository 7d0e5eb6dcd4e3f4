@unit itermark
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@include usize_search.inc
@method binary_search => vx_binary_search
@method len => vx_len
@method push => vx_push
@method push_str => vx_push_str
@method len_utf8 => vx_clen
@method unsigned_abs => fn vx_unsigned_abs
@call char::from_u32_unchecked => vx_char
@call BTreeMap::new => vx_new_marks
@type BTreeMap<usize, &char> => VxMarks
@call String::with_capacity => vx_new_string_cap
@type serde_json::Value => Value
@known @slicing
verus! {
@include json.inc
@include offsets.inc
@include pieces.inc
// trusted: std
#[verifier::external_body]
pub fn vx_char(x: u32) -> (r: char) requires x < 0xd800, ensures r as u32 == x { unimplemented!() }
pub trait VxClen { spec fn cl(&self) -> nat; fn vx_clen(&self) -> (r: usize) ensures r == self.cl(); }
impl VxClen for char { open spec fn cl(&self) -> nat { clen(*self) } #[verifier::external_body] fn vx_clen(&self) -> (r: usize) { self.len_utf8() } }
pub trait VxPushAny<T> { spec fn pa(&self) -> Seq<T>; fn vx_push(&mut self, x: T) ensures final(self).pa() == old(self).pa().push(x); }
impl<T> VxPushAny<T> for Vec<T> { open spec fn pa(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_push(&mut self, x: T) { self.push(x) } }
#[verifier::external_body]
pub fn vx_new_string_cap(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn vx_zip_chars<'a>(a: &'a Vec<char>, b: &String) -> (r: Vec<(&'a char, char)>)
    ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i] { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_string_len(s: &String) ensures blen(s@) <= 0x7fff_ffff_ffff_ffff {}
// std BTreeMap<usize, &char>, filled in ascending order of the keys
#[verifier::external_body]
pub struct VxMarks<'a> { m: std::collections::BTreeMap<usize, &'a char> }
impl<'a> View for VxMarks<'a> { type V = Seq<(usize, char)>; uninterp spec fn view(&self) -> Seq<(usize, char)>; }
impl<'a> VxMarks<'a> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, c: &'a char)
        requires old(self)@.len() > 0 ==> old(self)@.last().0 < k,
        ensures final(self)@ == old(self)@.push((k, *c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&usize, &&'a char)>) ensures r is Some <==> self@.len() > 0, r is Some ==> *(r->0).0 == self@[0].0 && **(r->0).1 == self@[0].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&usize, &&'a char)>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self@[i].0 && **r@[i].1 == self@[i].1 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_new_marks<'a>() -> (r: VxMarks<'a>) ensures r@.len() == 0 { unimplemented!() }
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs KANJI_ITERATION_MARK
@end
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs HIRAGANA_ITERATION_MARK
@end
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs HIRAGANA_DAKUON_ITERATION_MARK
@end
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs KATAKANA_ITERATION_MARK
@end
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs KATAKANA_DAKUON_ITERATION_MARK
@end
@item struct lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilterConfig
@end
@item struct lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter
@end
type Filter = JapaneseIterationMarkCharacterFilter;
// ---- C13: voicing ------------------------------------------------------------------------------------
pub open spec fn h_voiced(c: char) -> Option<char> {
    if c == 'か' { Some('が') } else if c == 'き' { Some('ぎ') } else if c == 'く' { Some('ぐ') } else if c == 'け' { Some('げ') } else if c == 'こ' { Some('ご') }
    else if c == 'さ' { Some('ざ') } else if c == 'し' { Some('じ') } else if c == 'す' { Some('ず') } else if c == 'せ' { Some('ぜ') } else if c == 'そ' { Some('ぞ') }
    else if c == 'た' { Some('だ') } else if c == 'ち' { Some('ぢ') } else if c == 'つ' { Some('づ') } else if c == 'て' { Some('で') } else if c == 'と' { Some('ど') }
    else if c == 'は' { Some('ば') } else if c == 'ひ' { Some('び') } else if c == 'ふ' { Some('ぶ') } else if c == 'へ' { Some('べ') } else if c == 'ほ' { Some('ぼ') }
    else { None }
}
pub open spec fn k_voiced(c: char) -> Option<char> {
    if c == 'カ' { Some('ガ') } else if c == 'キ' { Some('ギ') } else if c == 'ク' { Some('グ') } else if c == 'ケ' { Some('ゲ') } else if c == 'コ' { Some('ゴ') }
    else if c == 'サ' { Some('ザ') } else if c == 'シ' { Some('ジ') } else if c == 'ス' { Some('ズ') } else if c == 'セ' { Some('ゼ') } else if c == 'ソ' { Some('ゾ') }
    else if c == 'タ' { Some('ダ') } else if c == 'チ' { Some('ヂ') } else if c == 'ツ' { Some('ヅ') } else if c == 'テ' { Some('デ') } else if c == 'ト' { Some('ド') }
    else if c == 'ハ' { Some('バ') } else if c == 'ヒ' { Some('ビ') } else if c == 'フ' { Some('ブ') } else if c == 'ヘ' { Some('ベ') } else if c == 'ホ' { Some('ボ') }
    else { None }
}
pub open spec fn h_plain(c: char) -> Option<char> {
    if c == 'が' { Some('か') } else if c == 'ぎ' { Some('き') } else if c == 'ぐ' { Some('く') } else if c == 'げ' { Some('け') } else if c == 'ご' { Some('こ') }
    else if c == 'ざ' { Some('さ') } else if c == 'じ' { Some('し') } else if c == 'ず' { Some('す') } else if c == 'ぜ' { Some('せ') } else if c == 'ぞ' { Some('そ') }
    else if c == 'だ' { Some('た') } else if c == 'ぢ' { Some('ち') } else if c == 'づ' { Some('つ') } else if c == 'で' { Some('て') } else if c == 'ど' { Some('と') }
    else if c == 'ば' { Some('は') } else if c == 'び' { Some('ひ') } else if c == 'ぶ' { Some('ふ') } else if c == 'べ' { Some('へ') } else if c == 'ぼ' { Some('ほ') }
    else { None }
}
pub open spec fn k_plain(c: char) -> Option<char> {
    if c == 'ガ' { Some('カ') } else if c == 'ギ' { Some('キ') } else if c == 'グ' { Some('ク') } else if c == 'ゲ' { Some('ケ') } else if c == 'ゴ' { Some('コ') }
    else if c == 'ザ' { Some('サ') } else if c == 'ジ' { Some('シ') } else if c == 'ズ' { Some('ス') } else if c == 'ゼ' { Some('セ') } else if c == 'ゾ' { Some('ソ') }
    else if c == 'ダ' { Some('タ') } else if c == 'ヂ' { Some('チ') } else if c == 'ヅ' { Some('ツ') } else if c == 'デ' { Some('テ') } else if c == 'ド' { Some('ト') }
    else if c == 'バ' { Some('ハ') } else if c == 'ビ' { Some('ヒ') } else if c == 'ブ' { Some('フ') } else if c == 'ベ' { Some('ヘ') } else if c == 'ボ' { Some('ホ') }
    else { None }
}
pub open spec fn or(o: Option<char>, c: char) -> char { match o { Some(x) => x, None => c } }
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs hiragana_add_dakuon
@spec
  ensures r == or(h_voiced(*c), *c)
@end
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs hiragana_remove_dakuon
@spec
  ensures r == or(h_plain(*c), *c)
@end
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs katakana_add_dakuon
@spec
  ensures r == or(k_voiced(*c), *c)
@end
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs katakana_remove_dakuon
@spec
  ensures r == or(k_plain(*c), *c)
@end
// ---- C13: marks, their runs and what they repeat -------------------------------------------------------
pub open spec fn is_mark(f: Filter, c: char) -> bool {
    ||| f.config.normalize_kanji && c == '々'
    ||| f.config.normalize_kana && (c == 'ゝ' || c == 'ゞ' || c == 'ヽ' || c == 'ヾ')
}
pub open spec fn repeated(m: char, c: char) -> char {
    if m == '々' { c } else if m == 'ゝ' { or(h_plain(c), c) } else if m == 'ゞ' { or(h_voiced(c), c) } else if m == 'ヽ' { or(k_plain(c), c) } else { or(k_voiced(c), c) }
}
pub open spec fn run_start(f: Filter, t: Seq<char>, i: int) -> int decreases i { if i > 0 && i <= t.len() && is_mark(f, t[i - 1]) { run_start(f, t, i - 1) } else { i } }
pub open spec fn run_end(f: Filter, t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && is_mark(f, t[i]) { run_end(f, t, i + 1) } else { i } }
pub open spec fn back(p: int, n: int) -> int { if p < n { p } else { n } }
pub open spec fn out_at(f: Filter, t: Seq<char>, i: int) -> char {
    if is_mark(f, t[i]) { repeated(t[i], t[i - back(run_start(f, t, i), run_end(f, t, i) - run_start(f, t, i))]) } else { t[i] }
}
pub open spec fn unmarked(f: Filter, t: Seq<char>) -> Seq<char> { Seq::new(t.len(), |i: int| out_at(f, t, i)) }
pub open spec fn run_at(f: Filter, t: Seq<char>, s: int, k: int) -> bool {
    &&& 0 <= s <= k <= t.len()
    &&& forall|i: int| s <= i < k ==> is_mark(f, #[trigger] t[i])
    &&& s > 0 ==> !is_mark(f, t[s - 1])
}
pub open spec fn marks_of(t: Seq<char>, s: int, k: int) -> Seq<(usize, char)> { Seq::new((k - s) as nat, |j: int| ((s + j) as usize, t[s + j])) }
pub proof fn lemma_run_start(f: Filter, t: Seq<char>, s: int, k: int, i: int)
    requires run_at(f, t, s, k), s <= i <= k,
    ensures run_start(f, t, i) == s
    decreases i - s
{
    if i > s { assert(is_mark(f, t[i - 1])); lemma_run_start(f, t, s, k, i - 1); }
}
pub proof fn lemma_run_end(f: Filter, t: Seq<char>, s: int, k: int, i: int)
    requires run_at(f, t, s, k), s <= i <= k, k < t.len() ==> !is_mark(f, t[k]),
    ensures run_end(f, t, i) == k
    decreases k - i
{
    if i < k { assert(is_mark(f, t[i])); lemma_run_end(f, t, s, k, i + 1); }
}
// what `normalize` makes of a run
pub open spec fn run_out(f: Filter, t: Seq<char>, s: int, k: int) -> Seq<char> { Seq::new((k - s) as nat, |j: int| repeated(t[s + j], t[s + j - back(s, k - s)])) }
pub proof fn lemma_run_out(f: Filter, t: Seq<char>, s: int, k: int)
    requires run_at(f, t, s, k), k < t.len() ==> !is_mark(f, t[k]),
    ensures unmarked(f, t).take(s) + run_out(f, t, s, k) == unmarked(f, t).take(k)
{
    assert forall|j: int| 0 <= j < k - s implies run_out(f, t, s, k)[j] == unmarked(f, t)[s + j] by {
        lemma_run_start(f, t, s, k, s + j);
        lemma_run_end(f, t, s, k, s + j);
        assert(is_mark(f, t[s + j]));
    }
    assert(unmarked(f, t).take(s) + run_out(f, t, s, k) =~= unmarked(f, t).take(k));
}
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::normalize
@spec
  requires exists|s: int, k: int| #[trigger] run_at(*self, text_chars@, s, k) && s < k && iter_marks@ == marks_of(text_chars@, s, k) && k <= usize::MAX,
  ensures forall|s: int, k: int| #[trigger] run_at(*self, text_chars@, s, k) && s < k && iter_marks@ == marks_of(text_chars@, s, k) && k <= usize::MAX ==> r@ == run_out(*self, text_chars@, s, k)
@at start
  let ghost f = *self;
  let ghost t = text_chars@;
  let ghost (s, k) = choose|s: int, k: int| #[trigger] run_at(*self, text_chars@, s, k) && s < k && iter_marks@ == marks_of(text_chars@, s, k) && k <= usize::MAX;
  proof { assert(iter_marks@[0] == (s as usize, t[s])); }
@loop 0
  invariant
    f == *self, t == text_chars@, run_at(f, t, s, k), s < k, k <= usize::MAX, iter_marks@ == marks_of(t, s, k),
    it0.seq().len() == k - s, forall|i: int| 0 <= i < k - s ==> *(#[trigger] it0.seq()[i]).0 == s + i && **it0.seq()[i].1 == t[s + i],
    pos_diff == back(s, k - s), normalized_str@ == run_out(f, t, s, k).take(it0.index())
@at loop 0 body_start
  proof { assert(is_mark(f, t[s + it0.index()])); assert(it0.seq()[it0.index()].0 == s + it0.index()); }
@at loop 0 body_end
  proof { assert(normalized_str@ =~= run_out(f, t, s, k).take(it0.index() + 1)); }
@at tail
  proof {
    assert(run_out(f, t, s, k).take(k - s) =~= run_out(f, t, s, k));
    assert forall|s2: int, k2: int| #[trigger] run_at(*self, text_chars@, s2, k2) && s2 < k2 && iter_marks@ == marks_of(text_chars@, s2, k2) && k2 <= usize::MAX implies s2 == s && k2 == k by {
      assert(marks_of(t, s, k)[0] == marks_of(t, s2, k2)[0]);
      assert(marks_of(t, s, k).len() == marks_of(t, s2, k2).len());
    }
  }
@end
pub open spec fn pairs(a: Seq<char>, b: Seq<char>, k: int) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(k as nat, |i: int| (seq![a[i]], seq![b[i]])) }
pub proof fn lemma_pairs(a: Seq<char>, b: Seq<char>, k: int)
    requires 0 <= k <= a.len(), a.len() == b.len(),
    ensures sources(pairs(a, b, k)) == a.take(k), targets(pairs(a, b, k)) == b.take(k), k < a.len() ==> pairs(a, b, k + 1) == pairs(a, b, k).push((seq![a[k]], seq![b[k]]))
    decreases k
{
    if k > 0 {
        lemma_pairs(a, b, k - 1);
        assert(pairs(a, b, k).drop_last() =~= pairs(a, b, k - 1));
        assert(a.take(k) =~= a.take(k - 1) + seq![a[k - 1]]);
        assert(b.take(k) =~= b.take(k - 1) + seq![b[k - 1]]);
    } else { assert(a.take(0) =~= Seq::empty()); assert(b.take(0) =~= Seq::empty()); }
    if k < a.len() { assert(pairs(a, b, k + 1) =~= pairs(a, b, k).push((seq![a[k]], seq![b[k]]))); }
}
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::apply
@impl impl JapaneseIterationMarkCharacterFilter
@replace text.chars().collect::<Vec<char>>() ==> vx_chars(text)
@replace text_chars.iter().zip(filterd_text.chars()) ==> vx_zip_chars(&text_chars, &filterd_text)
@spec
  ensures r is Ok && r->Ok_0.0@ == unmarked(*self, text@) && tab(r->Ok_0.1@, r->Ok_0.2@, lens(pairs(text@, unmarked(*self, text@), text@.len() as int)))
@at start
  let ghost f = *self;
  let ghost t = text@;
  let ghost u = unmarked(f, t);
  proof { ax_str_len(text); lemma_blen_pos(t); assert(u.take(0) =~= Seq::empty()); assert(marks_of(t, 0, 0) =~= Seq::empty()); }
@loop 0
  invariant
    f == *self, t == text@, u == unmarked(f, t), text_chars@ == t, t.len() <= 0x7fff_ffff_ffff_ffff,
    it0.seq().len() == t.len(), forall|i: int| 0 <= i < t.len() ==> *(#[trigger] it0.seq()[i]) == t[i],
    vxn2 == it0.index(), iter_marks@.len() <= it0.index(),
    run_at(f, t, it0.index() - iter_marks@.len(), it0.index()),
    iter_marks@ == marks_of(t, it0.index() - iter_marks@.len(), it0.index()),
    filterd_text@ == u.take(it0.index() - iter_marks@.len())
@at loop 0 body_start
  let ghost k = it0.index();
  let ghost s = k - iter_marks@.len();
  proof {
    assert(*it0.seq()[k] == t[k]);
    if s < k { assert(iter_marks@.last() == ((k - 1) as usize, t[k - 1])); }
    assert(is_mark(f, t[k]) ==> marks_of(t, s, k).push((k as usize, t[k])) =~= marks_of(t, s, k + 1));
    if !is_mark(f, t[k]) { lemma_run_out(f, t, s, k); assert(u.take(k + 1) =~= u.take(k).push(t[k])); assert(u[k] == t[k]); assert(marks_of(t, k + 1, k + 1) =~= Seq::empty()); }
    assert(s == k ==> run_out(f, t, s, k) =~= Seq::empty());
  }
@at let offsets 0 before
  proof {
    let n = t.len() as int;
    lemma_run_out(f, t, n - iter_marks@.len(), n);
    assert(iter_marks@.len() == 0 ==> u.take(n) =~= u.take(n - iter_marks@.len()));
    assert(u.take(n) =~= u);
    assert(filterd_text@ == u);
    ax_string_len(&filterd_text);
    lemma_tab0();
  }
  let ghost all = pairs(t, u, t.len() as int);
  proof {
    lemma_pairs(t, u, t.len() as int);
    lemma_pairs(t, u, 0);
    assert(t.take(t.len() as int) =~= t);
    lemma_lens(all, 0);
    assert(lens(pairs(t, u, 0)) =~= Seq::empty());
  }
@loop 1
  invariant
    t.len() == u.len(), all == pairs(t, u, t.len() as int), isum(lens(all)) == blen(t), osum(lens(all)) == blen(u), blen(t) <= 0x7fff_ffff_ffff_ffff, blen(u) <= 0x7fff_ffff_ffff_ffff,
    it1.seq().len() == t.len(), forall|i: int| 0 <= i < t.len() ==> *(#[trigger] it1.seq()[i]).0 == t[i] && it1.seq()[i].1 == u[i],
    tab(offsets@, diffs@, lens(pairs(t, u, it1.index()))), isum(lens(pairs(t, u, it1.index()))) == input_offset
@at loop 1 body_start
  let ghost k = it1.index();
  let ghost p0 = pairs(t, u, k);
  let ghost ps = lens(p0);
  let ghost (os0, ds0) = (offsets@, diffs@);
  let ghost (il, ol) = (clen(t[k]) as int, clen(u[k]) as int);
  proof {
    assert(*it1.seq()[k].0 == t[k] && it1.seq()[k].1 == u[k]);
    lemma_pairs(t, u, k);
    lemma_blen_one(t[k]);
    lemma_blen_one(u[k]);
    assert(lens(pairs(t, u, k + 1)) =~= ps.push((il, ol)));
    assert(all.take(k + 1) =~= pairs(t, u, k + 1));
    lemma_lens(all, k + 1);
    lemma_push_sums(ps, il, ol);
    lemma_sums(ps, ps.len() as int);
  }
@at let prev_diff 0 after
  proof {
    assert(prev_diff == isum(ps) - osum(ps));
    if il == ol { lemma_same(os0, ds0, ps, il); }
    if il > ol { lemma_shrink(os0, ds0, ps, il, ol, (osum(ps) + ol) as usize, (isum(ps) + il - osum(ps) - ol) as i64); }
    if il < ol { lemma_grow(os0, ds0, ps, il, ol); }
    lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), 0);
  }
@loop 2
  invariant
    0 < il <= ol, ol - il == it2.seq().len(),
    output_offset == osum(ps) + il, prev_diff == isum(ps) - osum(ps), osum(ps) >= 0, isum(ps) >= 0,
    osum(ps) + ol <= 0x7fff_ffff_ffff_ffff, isum(ps) + il <= 0x7fff_ffff_ffff_ffff,
    os0.len() == ds0.len(), os0.len() > 0 ==> os0.last() <= osum(ps),
    offsets@ == os0 + run_os(osum(ps) + il, it2.index()), diffs@ == ds0 + run_ds(isum(ps) - osum(ps), it2.index())
@at loop 2 body_start
  proof { lemma_run_step(os0, ds0, osum(ps) + il, isum(ps) - osum(ps), it2.index()); }
@end
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilterConfig::from_value
@ret r
@replace serde_json::from_value::<$t>($v.clone()) ==> vx_read::<$t>($v)
@spec
  ensures r is Ok <==> jread::<JapaneseIterationMarkCharacterFilterConfig>(*value) is Some, r is Ok ==> r->Ok_0 == jread::<JapaneseIterationMarkCharacterFilterConfig>(*value)->0
@end
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::new
@ret r
@spec
  ensures r.config == config
@end
} // verus!
fn main() {}
