@include section.inc
pub open spec fn rec(d: Seq<Seq<char>>) -> Seq<u8> { let j = utf8(joined(d, seq!['\0'])); enc4(j.len() as int) + j }
pub open spec fn recs_of(ds: Seq<Seq<Seq<char>>>) -> Seq<Seq<u8>> { Seq::new(ds.len(), |i: int| rec(ds[i])) }
// the compiled form of the details of all words
pub open spec fn compiled(idx: Seq<u8>, data: Seq<u8>, ds: Seq<Seq<Seq<char>>>) -> bool { stored(idx, data, recs_of(ds)) }
// details that survive: at least one field, no NUL, fewer than 2^32 bytes in all
pub open spec fn storable(ds: Seq<Seq<Seq<char>>>) -> bool {
    (forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).len() > 0 && all_free(ds[i], '\0')) && recs(recs_of(ds), ds.len() as int).len() < 0x1_0000_0000
}
pub open spec fn split0(b: Seq<u8>) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { seq![Seq::empty()] }
    else if b.last() == 0 { split0(b.drop_last()).push(Seq::empty()) }
    else { let p = split0(b.drop_last()); p.update(p.len() - 1, p.last().push(b.last())) }
}
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] utf8(s) == b }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { choose|s: Seq<char>| #[trigger] utf8(s) == b }
pub open spec fn u8s(ps: Seq<Seq<char>>) -> Seq<Seq<u8>> { Seq::new(ps.len(), |i: int| utf8(ps[i])) }
pub open spec fn joined_at(data: Seq<u8>, o: int) -> Seq<u8> { data.subrange(o + 4, o + 4 + le4(data.subrange(o, o + 4))) }
// what the compiled form says about a word
pub open spec fn says(idx: Seq<u8>, data: Seq<u8>, id: int) -> Option<Seq<Seq<char>>> {
    if 4 * id >= idx.len() { None }
    else {
        let ps = split0(joined_at(data, at_idx(idx, id)));
        if forall|i: int| 0 <= i < ps.len() ==> is_utf8(#[trigger] ps[i]) { Some(Seq::new(ps.len(), |i: int| chars_of(ps[i]))) } else { None }
    }
}
pub open spec fn readable(idx: Seq<u8>, data: Seq<u8>, id: int) -> bool {
    4 * id < idx.len() ==> 4 * id + 4 <= idx.len() && ({ let o = at_idx(idx, id); 0 <= o && o + 4 <= data.len() && o + 4 + le4(data.subrange(o, o + 4)) <= data.len() })
}
pub proof fn lemma_split0_some(b: Seq<u8>) ensures split0(b).len() > 0 decreases b.len() { if b.len() > 0 { lemma_split0_some(b.drop_last()); } }
pub proof fn lemma_split0_cat(b: Seq<u8>, e: Seq<u8>)
    requires !has_nul(e),
    ensures split0(b + e) == split0(b).update(split0(b).len() - 1, split0(b).last() + e)
    decreases e.len()
{
    lemma_split0_some(b);
    if e.len() > 0 {
        let e1 = e.drop_last();
        assert(!has_nul(e1)) by { if has_nul(e1) { let i = choose|i: int| 0 <= i < e1.len() && e1[i] == 0u8; assert(e[i] == 0u8); } }
        lemma_split0_cat(b, e1);
        assert((b + e).drop_last() =~= b + e1);
        assert((b + e).last() == e.last());
        assert(e[e.len() - 1] != 0u8);
        let p = split0(b);
        let q = p.update(p.len() - 1, p.last() + e1);
        assert((p.last() + e1).push(e.last()) =~= p.last() + e);
        assert(q.update(q.len() - 1, q.last().push(e.last())) =~= p.update(p.len() - 1, p.last() + e));
    } else {
        assert(b + e =~= b);
        assert(split0(b).last() + e =~= split0(b).last());
        assert(split0(b).update(split0(b).len() - 1, split0(b).last()) =~= split0(b));
    }
}
pub proof fn lemma_split0_utf8(s: Seq<char>) ensures split0(utf8(s)) == u8s(split_on(s, '\0')) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last();
        let c = s.last();
        lemma_split0_utf8(t);
        lemma_split_some(t, '\0');
        assert(s =~= t + seq![c]);
        lemma_utf8_cat(t, seq![c]);
        assert(utf8(seq![c]) =~= enc(c)) by { assert(seq![c].skip(1) =~= Seq::empty()); reveal_with_fuel(utf8, 2); }
        let p = split_on(t, '\0');
        if c == '\0' {
            assert(enc(c) =~= seq![0u8]);
            assert((utf8(t) + seq![0u8]).drop_last() =~= utf8(t));
            assert(u8s(p).push(Seq::empty()) =~= u8s(p.push(Seq::empty())));
        } else {
            assert(!has_nul(enc(c))) by { if has_nul(enc(c)) { let i = choose|i: int| 0 <= i < enc(c).len() && enc(c)[i] == 0u8; lemma_enc_nul(c, i); } }
            lemma_split0_cat(utf8(t), enc(c));
            lemma_utf8_cat(p.last(), seq![c]);
            assert(p.last() + seq![c] =~= p.last().push(c));
            assert(u8s(p).update(p.len() - 1, utf8(p.last()) + enc(c)) =~= u8s(p.update(p.len() - 1, p.last().push(c))));
        }
    } else { assert(u8s(seq![Seq::empty()]) =~= seq![Seq::<u8>::empty()]); }
}
pub proof fn lemma_chars_of(s: Seq<char>) ensures is_utf8(utf8(s)), chars_of(utf8(s)) == s {
    assert(is_utf8(utf8(s)));
    lemma_utf8_inj(chars_of(utf8(s)), s);
}
// C07: every word's details are read back as they were compiled, and there are no others
pub proof fn c07_details(idx: Seq<u8>, data: Seq<u8>, ds: Seq<Seq<Seq<char>>>, id: int)
    requires compiled(idx, data, ds), storable(ds), 0 <= id,
    ensures readable(idx, data, id), says(idx, data, id) == if id < ds.len() { Some(ds[id]) } else { None }
{
    lemma_stored(idx, data, recs_of(ds), id);
    if id < ds.len() {
        let o = at_idx(idx, id);
        let d = ds[id];
        let j = utf8(joined(d, seq!['\0']));
        let r = rec(d);
        lemma_enc4(j.len() as int);
        assert(recs_of(ds)[id] == r);
        assert(data.subrange(o, o + r.len()) == r);
        assert(r.len() == 4 + j.len());
        assert forall|x: int| 0 <= x < r.len() implies data[o + x] == r[x] by { assert(data.subrange(o, o + r.len())[x] == r[x]); }
        assert(data.subrange(o, o + 4) =~= r.take(4)) by { assert(r.take(4) =~= data.subrange(o, o + r.len()).take(4)); }
        assert(r.take(4) =~= enc4(j.len() as int));
        assert(joined_at(data, o) =~= j) by {
            assert forall|x: int| 0 <= x < j.len() implies data[o + 4 + x] == j[x] by { assert(data.subrange(o, o + r.len())[4 + x] == r[4 + x]); }
        }
        assert(ds[id].len() > 0 && all_free(ds[id], '\0'));
        lemma_split_joined_on(d, '\0');
        lemma_split0_utf8(joined(d, seq!['\0']));
        let ps = split0(j);
        assert(ps == u8s(d));
        assert forall|i: int| 0 <= i < ps.len() implies is_utf8(#[trigger] ps[i]) && chars_of(ps[i]) == d[i] by { lemma_chars_of(d[i]); }
        assert(Seq::new(ps.len(), |i: int| chars_of(ps[i])) =~= d);
    }
}
// trusted: std
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, LinderaError>) ensures r is Ok <==> is_utf8(b@), r is Ok ==> r->Ok_0@ == chars_of(b@) { unimplemented!() }
pub open spec fn split_byte(b: Seq<u8>, c: u8) -> Seq<Seq<u8>> { if c == 0 { split0(b) } else { split_other(b, c) } }
pub uninterp spec fn split_other(b: Seq<u8>, c: u8) -> Seq<Seq<u8>>;
#[verifier::external_body]
pub fn vx_split_byte(b: &[u8], c: u8) -> (r: Vec<&[u8]>) ensures r@.len() == split_byte(b@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_byte(b@, c)[i] { unimplemented!() }
pub trait VxTryUsize { spec fn tu(&self) -> int; fn vx_try_usize(self) -> (r: Result<usize, LinderaError>) ensures r is Ok <==> 0 <= self.tu() <= usize::MAX, r is Ok ==> r->Ok_0 == self.tu(); }
impl VxTryUsize for u32 { open spec fn tu(&self) -> int { *self as int } #[verifier::external_body] fn vx_try_usize(self) -> (r: Result<usize, LinderaError>) { unimplemented!() } }
@item struct lindera-core/src/dictionary.rs Dictionary
@end
@item fn lindera-core/src/dictionary.rs Dictionary::word_details
@ty details Vec<String>
@replace $x1.split(|&b| b == $x2) ==> vx_split_byte($x1, $x2)
@spec
  requires readable(self.words_idx_data@, self.words_data@, word_id as int), 4 * word_id <= usize::MAX,
  ensures r is Some <==> says(self.words_idx_data@, self.words_data@, word_id as int) is Some, r is Some ==> dv(r->0@) == says(self.words_idx_data@, self.words_data@, word_id as int)->0
@at let details 0 before
  let ghost ps = split0(joined_details_bytes@);
  proof {
    let o = idx as int;
    assert(o == at_idx(self.words_idx_data@, word_id as int)) by { assert(self.words_idx_data@.subrange(4 * word_id as int, self.words_idx_data@.len() as int).subrange(0, 4) =~= self.words_idx_data@.subrange(4 * word_id as int, 4 * word_id as int + 4)); }
    assert(data@.subrange(0, 4) =~= self.words_data@.subrange(o, o + 4));
    assert(joined_details_bytes@ =~= joined_at(self.words_data@, o));
  }
@loop 0
  invariant
    ps == split0(joined_details_bytes@), it0.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it0.seq()[i])@ == ps[i],
    ps == split0(joined_at(self.words_data@, at_idx(self.words_idx_data@, word_id as int))), 4 * word_id < self.words_idx_data@.len(),
    details@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> is_utf8(#[trigger] ps[i]) && details@[i]@ == chars_of(ps[i])
@at loop 0 body_start
  proof { assert(it0.seq()[it0.index()]@ == ps[it0.index()]); }
@at tail
  proof { assert(dv(details@) =~= says(self.words_idx_data@, self.words_data@, word_id as int)->0); }
@end
