@unit viterbi
@include prelude.inc
@include text.inc
@include slice.inc
@include trie.inc
@method contains => vx_contains
@method resize => vx_resize
@method reverse => vx_reverse
@method as_bytes => fn vx_bytes
@method len => vx_len
@call Edge::default => vx_edge_default
@call LittleEndian::read_u32 => vx_read_u32
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@type Cow<'static, [u8]> => Vec<u8>
@type PrefixDict<Vec<u8>> => PrefixDict
@call Lattice::default => vx_lattice_default
@method split_inclusive => fn vx_split_inclusive
@type LookupTable<CategoryId> => LookupTable
@type LookupTable<T> => LookupTable
@type Vec<T> => Vec<CategoryId>
@type Vec<Vec<T>> => Vec<Vec<CategoryId>>
@type &[T] => &[CategoryId]
@method binary_search => vx_binary_search
@known @slicing @cast:u16 @cast:i16
verus! {
@include lookup.inc
// trusted: slice::reverse
pub trait VxReverse<T>: Sized { spec fn rv(&self) -> Seq<T>; fn vx_reverse(&mut self) ensures final(self).rv() == old(self).rv().reverse(); }
impl<T> VxReverse<T> for Vec<T> { open spec fn rv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_reverse(&mut self) { self.reverse() } }
// trusted: resizing with an empty vector keeps the first elements and appends empty ones
pub trait VxResize<T>: Sized {
    spec fn vv(&self) -> Seq<Vec<T>>;
    fn vx_resize(&mut self, n: usize, e: Vec<T>)
        requires e@.len() == 0,
        ensures
            final(self).vv().len() == n,
            forall|i: int| 0 <= i < n && i < old(self).vv().len() ==> (#[trigger] final(self).vv()[i])@ == old(self).vv()[i]@,
            forall|i: int| old(self).vv().len() <= i < n ==> (#[trigger] final(self).vv()[i])@.len() == 0;
}
impl<T: Clone> VxResize<T> for Vec<Vec<T>> {
    open spec fn vv(&self) -> Seq<Vec<T>> { self@ }
    #[verifier::external_body] fn vx_resize(&mut self, n: usize, e: Vec<T>) { self.resize(n, e) }
}
// a panic in `unwrap`/index is excluded by the preconditions
@item enum lindera-core/src/viterbi.rs EdgeType derive(Clone, Copy)
@end
@item struct lindera-core/src/viterbi.rs EdgeId derive(Clone, Copy, PartialEq, Eq, Structural)
@end
@item const lindera-core/src/viterbi.rs EOS_NODE
@end
@item struct lindera-core/src/viterbi.rs Edge
@end
@item struct lindera-core/src/viterbi.rs Lattice
@end
@item struct lindera-core/src/mode.rs Penalty
@end
@item enum lindera-core/src/mode.rs Mode
@end
@item struct lindera-core/src/character_definition.rs CategoryData derive(Clone, Copy)
@end
@item struct lindera-core/src/character_definition.rs CategoryId derive(Clone, Copy, PartialEq, Eq, Structural)
@end
@item struct lindera-core/src/character_definition.rs LookupTable
@impl LookupTable
@end
@item struct lindera-core/src/character_definition.rs CharacterDefinitions
@end
@item struct lindera-core/src/unknown_dictionary.rs UnknownDictionary
@end
@include conn.inc
@include pen.inc
@include modefns.inc
@item fn lindera-core/src/word_entry.rs WordEntry::left_id
@spec
  ensures r == self.left_id
@end
@item fn lindera-core/src/word_entry.rs WordEntry::right_id
@spec
  ensures r == self.right_id
@end
pub assume_specification[ <CategoryId as PartialEq>::eq ](a: &CategoryId, b: &CategoryId) -> (r: bool) ensures r == (*a == *b);
pub open spec fn kanji(c: char) -> bool { 0x4e00 <= c as u32 && c as u32 <= 0x9faf }
pub open spec fn kanji_only(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> kanji(#[trigger] s[i]) }
@item fn lindera-core/src/viterbi.rs is_kanji
@spec
  ensures r == kanji(c)
@end
@item fn lindera-core/src/viterbi.rs is_kanji_only
@spec
  ensures r == kanji_only(s@)
@loop 0
  invariant_except_break
    vxb1, forall|i: int| 0 <= i < it0.index() ==> kanji(#[trigger] s@[i])
  invariant
    it0.seq() == s@
  ensures
    vxb1 == kanji_only(s@)
@end
// ---- dictionaries ---------------------------------------------------------------------------------
pub open spec fn increasing(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
// trusted: slice::binary_search on sorted data
pub trait VxU32s { spec fn vx_u(&self) -> Seq<u32>;
    fn vx_binary_search(&self, t: &u32) -> (r: Result<usize, usize>)
        requires increasing(self.vx_u()),
        ensures match r { Ok(i) => i < self.vx_u().len() && self.vx_u()[i as int] == *t,
            Err(i) => i <= self.vx_u().len() && (forall|k: int| 0 <= k < i ==> self.vx_u()[k] < *t) && (forall|k: int| i <= k < self.vx_u().len() ==> self.vx_u()[k] > *t) };
}
impl VxU32s for Vec<u32> { open spec fn vx_u(&self) -> Seq<u32> { self@ }
    #[verifier::external_body] fn vx_binary_search(&self, t: &u32) -> (r: Result<usize, usize>) { self.binary_search(t) }
}
pub open spec fn table_wf(t: LookupTable) -> bool {
    &&& increasing(t.boundaries@) && t.boundaries@.len() == t.values@.len()
    &&& t.boundaries@.contains(0)
}
pub open spec fn slot(t: LookupTable, i: int, c: int) -> bool {
    &&& 0 <= i < t.boundaries@.len() && t.boundaries@[i] <= c
    &&& (i + 1 < t.boundaries@.len() ==> c < t.boundaries@[i + 1])
}
pub proof fn lemma_slot(t: LookupTable, i: int, j: int, c: int)
    requires table_wf(t), slot(t, i, c), slot(t, j, c),
    ensures i == j
{
    if i < j { if i + 1 < j { assert(t.boundaries@[i + 1] < t.boundaries@[j]); } }
    if j < i { if j + 1 < i { assert(t.boundaries@[j + 1] < t.boundaries@[i]); } }
}
// the categories of a character (what they are is C10)
pub open spec fn cats(cd: CharacterDefinitions, c: char) -> Seq<CategoryId> {
    cd.mapping.values@[choose|i: int| slot(cd.mapping, i, c as int)]@
}
@item fn lindera-core/src/character_definition.rs LookupTable::eval
@impl impl LookupTable
@spec
  requires table_wf(*self),
  ensures exists|i: int| #[trigger] slot(*self, i, target as int) && r@ == self.values@[i]@
@at start
  let ghost bs = self.boundaries@;
  proof { let z = bs.index_of(0); }
@at tail
  proof {
    assert(slot(*self, idx as int, target as int));
    assert(vx_ret@ =~= self.values@[idx as int]@);
  }
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::lookup_categories
@spec
  requires table_wf(self.mapping),
  ensures r@ == cats(*self, c)
@at tail
  proof {
    let i = choose|i: int| #[trigger] slot(self.mapping, i, c as int) && vx_ret@ == self.mapping.values@[i]@;
    let j = choose|i: int| slot(self.mapping, i, c as int);
    lemma_slot(self.mapping, i, j, c as int);
  }
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::lookup_definition
@spec
  requires category_id.0 < self.category_definitions@.len(),
  ensures *r == self.category_definitions@[category_id.0 as int]
@end
@item fn lindera-core/src/unknown_dictionary.rs UnknownDictionary::word_entry
@spec
  requires word_id < self.costs@.len(),
  ensures r == self.costs@[word_id as int]
@end
@item fn lindera-core/src/unknown_dictionary.rs UnknownDictionary::lookup_word_ids
@spec
  requires category_id.0 < self.category_references@.len(),
  ensures r@ == self.category_references@[category_id.0 as int]@
@end
// ---- the candidates of C03 -------------------------------------------------------------------------
pub ghost struct Ctx { pub dict: PrefixDict, pub user: Option<PrefixDict>, pub cd: CharacterDefinitions, pub ud: UnknownDictionary, pub search: bool }
pub open spec fn opt_ref(u: Option<&PrefixDict>) -> Option<PrefixDict> { match u { Some(d) => Some(*d), None => None } }
// a well-formed dictionary: keys are non-empty words, every character has a category, every category has data and
// at least one unknown-word entry
pub open spec fn word_keys(p: PrefixDict) -> bool {
    forall|k: Seq<u8>| #[trigger] is_key(p, k) ==> exists|w: Seq<char>| k == #[trigger] utf8(w) && w.len() > 0
}
pub open spec fn cat_ok(cd: CharacterDefinitions, ud: UnknownDictionary, c: CategoryId) -> bool {
    &&& c.0 < cd.category_definitions@.len() && c.0 < ud.category_references@.len()
    &&& ud.category_references@[c.0 as int]@.len() > 0
    &&& forall|k: int| 0 <= k < ud.category_references@[c.0 as int]@.len() ==> (#[trigger] ud.category_references@[c.0 as int]@[k]) < ud.costs@.len()
}
pub open spec fn defs_ok(cd: CharacterDefinitions, ud: UnknownDictionary) -> bool {
    &&& table_wf(cd.mapping)
    &&& forall|c: char| 0 < (#[trigger] cats(cd, c)).len() <= 0xffff_ffff
    &&& forall|c: char, k: int| 0 <= k < cats(cd, c).len() ==> cat_ok(cd, ud, #[trigger] cats(cd, c)[k])
}
pub open spec fn ctx_ok(x: Ctx) -> bool {
    &&& wf_dict(x.dict) && word_keys(x.dict)
    &&& x.user is Some ==> wf_dict(x.user->0) && word_keys(x.user->0)
    &&& defs_ok(x.cd, x.ud)
}
pub open spec fn word_edge(t: EdgeType, e: WordEntry, start: int, stop: int, k: bool) -> Edge {
    Edge { edge_type: t, word_entry: e, path_cost: i32::MAX, left_edge: None, start_index: start as u32, stop_index: stop as u32, kanji_only: k }
}
pub open spec fn ctx(dict: PrefixDict, user: Option<&PrefixDict>, cd: CharacterDefinitions, ud: UnknownDictionary, mode: Mode) -> Ctx {
    Ctx { dict, user: opt_ref(user), cd, ud, search: mode is Decompose }
}
// dictionary words that begin the remaining text s
pub open spec fn known_edge(s: Seq<char>, start: int, f: (usize, WordEntry)) -> Edge {
    word_edge(EdgeType::KNOWN, f.1, start, start + f.0, kanji_only(s.take(cidx(s, f.0 as int))))
}
pub open spec fn found_in(p: PrefixDict, s: Seq<char>) -> Seq<(usize, WordEntry)> { found_upto(p, utf8(s), utf8(s).len() as int) }
pub open spec fn known_edges(p: PrefixDict, s: Seq<char>, start: int) -> Seq<Edge> {
    Seq::new(found_in(p, s).len(), |i: int| known_edge(s, start, found_in(p, s)[i]))
}
pub open spec fn user_edges(u: Option<PrefixDict>, s: Seq<char>, start: int) -> Seq<Edge> {
    match u { Some(p) => known_edges(p, s, start), None => Seq::empty() }
}
// unknown words: the length in characters, 0 if none is proposed
pub open spec fn in_cat(cd: CharacterDefinitions, c: char, cat: CategoryId, ord: int) -> bool {
    ord < cats(cd, c).len() && cats(cd, c)[ord] == cat
}
pub open spec fn run(cd: CharacterDefinitions, s: Seq<char>, k: int, cat: CategoryId, ord: int) -> int decreases s.len() - k {
    if 0 <= k < s.len() && in_cat(cd, s[k], cat, ord) { 1 + run(cd, s, k + 1, cat, ord) } else { 0 }
}
pub open spec fn unk_chars(cd: CharacterDefinitions, s: Seq<char>, cat: CategoryId, ord: int, found: bool) -> int {
    let d = cd.category_definitions@[cat.0 as int];
    if d.invoke || !found { if d.group { 1 + run(cd, s, 1, cat, ord) } else { 1 } } else { 0 }
}
pub open spec fn unk_edge(ud: UnknownDictionary, s: Seq<char>, start: int, n: int, id: u32) -> Edge {
    word_edge(EdgeType::UNKNOWN, ud.costs@[id as int], start, start + blen(s.take(n)), kanji_only(s.take(n)))
}
pub open spec fn unk_edges(cd: CharacterDefinitions, ud: UnknownDictionary, s: Seq<char>, start: int, cat: CategoryId, ord: int, found: bool) -> Seq<Edge> {
    let n = unk_chars(cd, s, cat, ord, found);
    let ids = ud.category_references@[cat.0 as int]@;
    if n > 0 { Seq::new(ids.len(), |i: int| unk_edge(ud, s, start, n, ids[i])) } else { Seq::empty() }
}
pub open spec fn unk_end(cd: CharacterDefinitions, s: Seq<char>, start: int, cat: CategoryId, ord: int, found: bool, uwe: Option<usize>) -> Option<usize> {
    let n = unk_chars(cd, s, cat, ord, found);
    if n > 0 { Some((start + blen(s.take(n))) as usize) } else { uwe }
}
pub ghost struct St { pub es: Seq<Edge>, pub uwe: Option<usize> }
pub open spec fn unk_all(x: Ctx, s: Seq<char>, start: int, found: bool, st: St, n: int) -> St decreases n {
    if n <= 0 { st } else {
        let p = unk_all(x, s, start, found, st, n - 1);
        let cat = cats(x.cd, s[0])[n - 1];
        St { es: p.es + unk_edges(x.cd, x.ud, s, start, cat, n - 1, found), uwe: unk_end(x.cd, s, start, cat, n - 1, found, p.uwe) }
    }
}
// a position is reachable if it is the start or a candidate ends there
pub open spec fn live(es: Seq<Edge>, i: int) -> bool { i == 0 || exists|k: int| 0 <= k < es.len() && #[trigger] es[k].stop_index == i }
pub open spec fn may_start(x: Ctx, uwe: Option<usize>, i: int) -> bool { x.search || uwe is None || uwe->0 <= i }
pub open spec fn known_st(x: Ctx, s: Seq<char>, st: St, i: int) -> St {
    St { es: st.es + user_edges(x.user, s, i) + known_edges(x.dict, s, i), uwe: st.uwe }
}
pub open spec fn any_found(x: Ctx, s: Seq<char>, i: int) -> bool { user_edges(x.user, s, i).len() > 0 || known_edges(x.dict, s, i).len() > 0 }
pub open spec fn step(x: Ctx, text: Seq<char>, st: St, i: int) -> St {
    if live(st.es, i) {
        let s = text.skip(cidx(text, i));
        let k = known_st(x, s, st, i);
        if may_start(x, st.uwe, i) { unk_all(x, s, i, any_found(x, s, i), k, cats(x.cd, s[0]).len() as int) } else { k }
    } else { st }
}
pub open spec fn lat(x: Ctx, text: Seq<char>, n: int) -> St decreases n {
    if n <= 0 { St { es: Seq::empty(), uwe: None } } else { step(x, text, lat(x, text, n - 1), n - 1) }
}
pub open spec fn all_edges(x: Ctx, text: Seq<char>) -> Seq<Edge> { lat(x, text, blen(text) as int).es }
// ---- the lattice that stores them -------------------------------------------------------------------
pub open spec fn edge0() -> Edge {
    Edge { edge_type: EdgeType::KNOWN, word_entry: WordEntry { word_id: WordId(0xffff_ffff, true), word_cost: 0, left_id: 0, right_id: 0 },
        path_cost: 0, left_edge: None, start_index: 0, stop_index: 0, kanji_only: false }
}
// begin node, end node, candidates
pub open spec fn nodes(es: Seq<Edge>) -> Seq<Edge> { seq![edge0(), edge0()] + es }
// trusted: the derived Default of Edge, EdgeType (KNOWN) and WordEntry with WordId's Default
#[verifier::external_body]
pub fn vx_edge_default() -> (r: Edge) ensures r == edge0() { unimplemented!() }
// ids of the candidates starting / ending at p, in order (ids 0 and 1 are the begin and end nodes)
pub open spec fn ids_start(es: Seq<Edge>, p: int) -> Seq<EdgeId> decreases es.len() {
    if es.len() == 0 { Seq::empty() }
    else if es.last().start_index == p { ids_start(es.drop_last(), p).push(EdgeId((es.len() + 1) as u32)) }
    else { ids_start(es.drop_last(), p) }
}
pub open spec fn ids_stop(es: Seq<Edge>, p: int) -> Seq<EdgeId> decreases es.len() {
    if es.len() == 0 { Seq::empty() }
    else if es.last().stop_index == p { ids_stop(es.drop_last(), p).push(EdgeId((es.len() + 1) as u32)) }
    else { ids_stop(es.drop_last(), p) }
}
pub open spec fn starts_list(es: Seq<Edge>, len: int, p: int) -> Seq<EdgeId> { (if p == len { seq![EdgeId(1)] } else { Seq::empty() }) + ids_start(es, p) }
pub open spec fn stops_list(es: Seq<Edge>, p: int) -> Seq<EdgeId> { (if p == 0 { seq![EdgeId(0)] } else { Seq::empty() }) + ids_stop(es, p) }
pub open spec fn sized(l: Lattice) -> bool {
    l.starts_at@.len() == l.ends_at@.len() && (l.starts_at@.len() == l.capacity + 1 || (l.capacity == 0 && l.starts_at@.len() == 0))
}
pub open spec fn filed(l: Lattice, es: Seq<Edge>, len: int) -> bool {
    &&& sized(l) && len < l.starts_at@.len()
    &&& forall|p: int| 0 <= p < l.starts_at@.len() ==> (#[trigger] l.starts_at@[p])@ == starts_list(es, len, p)
    &&& forall|p: int| 0 <= p < l.ends_at@.len() ==> (#[trigger] l.ends_at@[p])@ == stops_list(es, p)
}
pub open spec fn rep(l: Lattice, es: Seq<Edge>, len: int) -> bool {
    &&& l.edges@ == nodes(es)
    &&& filed(l, es, len)
}

pub open spec fn blank(l: Lattice) -> bool {
    &&& sized(l) && l.edges@.len() == 0
    &&& forall|p: int| 0 <= p < l.starts_at@.len() ==> (#[trigger] l.starts_at@[p])@.len() == 0
    &&& forall|p: int| 0 <= p < l.ends_at@.len() ==> (#[trigger] l.ends_at@[p])@.len() == 0
}
@item fn lindera-core/src/viterbi.rs Lattice::clear
@spec
  requires sized(*old(self)),
  ensures blank(*final(self)), final(self).capacity == old(self).capacity, final(self).starts_at@.len() == old(self).starts_at@.len()
@loop 0
  invariant
    it0.seq().len() == old(self).starts_at@.len(),
    forall|i: int| 0 <= i < it0.index() ==> (#[trigger] final(it0.seq()[i]))@.len() == 0
@loop 1
  invariant
    it1.seq().len() == old(self).ends_at@.len(),
    forall|i: int| 0 <= i < it1.index() ==> (#[trigger] final(it1.seq()[i]))@.len() == 0
@end
@item fn lindera-core/src/viterbi.rs Lattice::set_capacity
@spec
  requires sized(*old(self)), 0 < text_len < 0x7fff_ffff,
  ensures blank(*final(self)), final(self).capacity >= text_len, final(self).starts_at@.len() > text_len
@end
@item fn lindera-core/src/viterbi.rs Lattice::add_edge
@spec
  requires old(self).edges@.len() < 4294967296,
  ensures
    r.0 == old(self).edges@.len(), final(self).edges@ == old(self).edges@.push(edge),
    final(self).starts_at == old(self).starts_at, final(self).ends_at == old(self).ends_at, final(self).capacity == old(self).capacity
@end
@item fn lindera-core/src/viterbi.rs Lattice::add_edge_in_lattice
@spec
  requires old(self).edges@.len() < 4294967296, edge.start_index < old(self).starts_at@.len(), edge.stop_index < old(self).ends_at@.len(),
  ensures
    final(self).edges@.len() == old(self).edges@.len() + 1, final(self).starts_at@.len() == old(self).starts_at@.len(), final(self).ends_at@.len() == old(self).ends_at@.len(),
    forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) ==> rep(*final(self), es.push(edge), len)
@at end
  proof {
    assert forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) implies rep(*self, es.push(edge), len) by {
      assert(es.push(edge).drop_last() =~= es);
      assert(self.edges@ =~= nodes(es.push(edge)));
      assert forall|p: int| 0 <= p < self.starts_at@.len() implies (#[trigger] self.starts_at@[p])@ == starts_list(es.push(edge), len, p) by {
        assert(old(self).starts_at@[p]@ == starts_list(es, len, p));
        assert(self.starts_at@[p]@ =~= starts_list(es.push(edge), len, p));
      }
      assert forall|p: int| 0 <= p < self.ends_at@.len() implies (#[trigger] self.ends_at@[p])@ == stops_list(es.push(edge), p) by {
        assert(old(self).ends_at@[p]@ == stops_list(es, p));
        assert(self.ends_at@[p]@ =~= stops_list(es.push(edge), p));
      }
    }
  }
@end
@item fn lindera-core/src/viterbi.rs Lattice::edge
@spec
  requires edge_id.0 < self.edges@.len(),
  ensures *r == self.edges@[edge_id.0 as int]
@end
pub proof fn lemma_run(cd: CharacterDefinitions, s: Seq<char>, k: int, cat: CategoryId, ord: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= run(cd, s, k, cat, ord) <= s.len() - k
    decreases s.len() - k
{
    if k < s.len() { lemma_run(cd, s, k + 1, cat, ord); }
}
@item fn lindera-core/src/viterbi.rs Lattice::process_unknown_word
@spec
  requires
    defs_ok(*char_definitions, *unknown_dictionary), cat_ok(*char_definitions, *unknown_dictionary, category),
    suffix@.len() > 0, start + blen(suffix@) < old(self).starts_at@.len(), old(self).starts_at@.len() == old(self).ends_at@.len(), start + blen(suffix@) < 0x7fff_ffff,
    old(self).edges@.len() + unk_edges(*char_definitions, *unknown_dictionary, suffix@, start as int, category, category_ord as int, found).len() <= 0xffff_ffff,
  ensures
    r == unk_end(*char_definitions, suffix@, start as int, category, category_ord as int, found, unknown_word_index),
    final(self).starts_at@.len() == old(self).starts_at@.len(), final(self).ends_at@.len() == old(self).ends_at@.len(),
    forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) ==>
      rep(*final(self), es + unk_edges(*char_definitions, *unknown_dictionary, suffix@, start as int, category, category_ord as int, found), len)
@at start
  let ghost s = suffix@;
  let ghost ord = category_ord as int;
  let ghost n = unk_chars(*char_definitions, s, category, ord, found);
  let ghost all = unk_edges(*char_definitions, *unknown_dictionary, s, start as int, category, ord, found);
  proof { lemma_run(*char_definitions, s, 1, category, ord); lemma_blen_pos(s); }
@loop 0
  invariant_except_break
    vxs2 == 1 ==> it0.index() == 0, vxs2 == 0 ==> it0.index() >= 1, vxs2 <= 1,
    vxs2 == 0 ==> unknown_word_num_chars == it0.index(), vxs2 == 1 ==> unknown_word_num_chars == 1,
    1 + run(*char_definitions, s, 1, category, ord) == unknown_word_num_chars + run(*char_definitions, s, unknown_word_num_chars as int, category, ord)
  invariant
    s.len() <= blen(s) < 0x7fff_ffff, unknown_word_num_chars <= s.len(),
    it0.seq() == s, s == suffix@, s.len() > 0, defs_ok(*char_definitions, *unknown_dictionary), ord == category_ord as int
  ensures
    unknown_word_num_chars == 1 + run(*char_definitions, s, 1, category, ord)
@at loop 1 before
  proof { assert(n == unknown_word_num_chars as int); assert(n <= s.len()); }
@loop 1
  invariant_except_break
    vxc3@ == s.take(it1.index()), vxt5 == n - it1.index()
  invariant
    it1.seq() == s, 0 < n <= s.len(), n == unknown_word_num_chars as int
  ensures
    vxc3@ == s.take(n)
@at loop 2 before
  proof {
    assert(unknown_word@ == s.take(n));
    lemma_blen_take(s, 0, n);
    lemma_bound(s, n);
    assert(self.edges@.len() + all.len() <= 0xffff_ffff);
    assert forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) implies rep(*self, es + all.take(0), len) by { assert(es + all.take(0) =~= es); }
  }
@loop 2
  invariant
    cat_ok(*char_definitions, *unknown_dictionary, category),
    s == suffix@, unknown_word@ == s.take(n), 0 < n <= s.len(), n == unk_chars(*char_definitions, s, category, ord, found),
    all == unk_edges(*char_definitions, *unknown_dictionary, s, start as int, category, ord, found),
    start + blen(s) < old(self).starts_at@.len(), old(self).starts_at@.len() == old(self).ends_at@.len(), start + blen(s) < 0x7fff_ffff, blen(s.take(n)) <= blen(s),
    it2.seq().len() == all.len(), forall|k: int| 0 <= k < it2.seq().len() ==> *#[trigger] it2.seq()[k] == unknown_dictionary.category_references@[category.0 as int]@[k],
    old(self).edges@.len() + all.len() <= 0xffff_ffff, self.edges@.len() == old(self).edges@.len() + it2.index(),
    self.starts_at@.len() == old(self).starts_at@.len(), self.ends_at@.len() == old(self).ends_at@.len(),
    forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) ==> rep(*self, es + all.take(it2.index()), len)
@at loop 2 body_start
  let ghost i = it2.index();
  let ghost l0 = *self;
@at loop 2 body_end
  proof {
    let e = all[i];
    assert forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) implies rep(*self, es + all.take(i + 1), len) by {
      assert(rep(l0, es + all.take(i), len));
      assert(es + all.take(i + 1) =~= (es + all.take(i)).push(e));
    }
  }
@at loop 2 after
  proof { assert(all.take(all.len() as int) =~= all); }
@at tail
  proof {
    assert forall|es: Seq<Edge>, len: int| #[trigger] rep(*old(self), es, len) implies rep(*self, es + all, len) by { assert(es + all =~= es); }
  }
@end
// ---- the candidates are well formed, and reach the end of the text ------------------------------------
pub open spec fn edge_ok(e: Edge, text: Seq<char>) -> bool {
    &&& e.start_index < e.stop_index <= blen(text)
    &&& bound(text, e.start_index as int) && bound(text, e.stop_index as int)
}
pub open spec fn edges_ok(es: Seq<Edge>, text: Seq<char>) -> bool { forall|k: int| 0 <= k < es.len() ==> edge_ok(#[trigger] es[k], text) }
pub open spec fn starts_live(es: Seq<Edge>) -> bool { forall|k: int| 0 <= k < es.len() ==> live(es, (#[trigger] es[k]).start_index as int) }
pub open spec fn starts_below(es: Seq<Edge>, n: int) -> bool { forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).start_index < n }
pub open spec fn reach_at(x: Ctx, st: St, text: Seq<char>, n: int, p: int) -> bool { n <= p <= blen(text) && live(st.es, p) && may_start(x, st.uwe, p) }
pub open spec fn reaches(x: Ctx, st: St, text: Seq<char>, n: int) -> bool { exists|p: int| #[trigger] reach_at(x, st, text, n, p) }
pub open spec fn from_i(es: Seq<Edge>, text: Seq<char>, i: int) -> bool { forall|k: int| 0 <= k < es.len() ==> edge_ok(#[trigger] es[k], text) && es[k].start_index == i }
pub proof fn lemma_live_more(a: Seq<Edge>, b: Seq<Edge>, p: int) requires live(a, p) ensures live(a + b, p) {
    if p != 0 { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k].stop_index == p; assert((a + b)[k] == a[k]); }
}
pub proof fn lemma_bound_cat(t: Seq<char>, i: int, l: int)
    requires bound(t, i), bound(t.skip(cidx(t, i)), l),
    ensures bound(t, i + l), cidx(t, i + l) == cidx(t, i) + cidx(t.skip(cidx(t, i)), l), 0 <= i, 0 <= l, i + l <= blen(t),
        0 <= cidx(t, i) <= t.len(), i + blen(t.skip(cidx(t, i))) == blen(t)
{
    let k = cidx(t, i);
    let s = t.skip(k);
    let m = cidx(s, l);
    lemma_blen_cat(t.take(k), s.take(m));
    assert(t.take(k) + s.take(m) =~= t.take(k + m));
    lemma_bound(t, k + m);
    lemma_bound(t, k);
    lemma_blen_take(t, k + m, k + m);
}
pub proof fn lemma_found_ok(p: PrefixDict, s: Seq<char>, l: int)
    requires word_keys(p), 0 <= l <= utf8(s).len(), blen(s) < 0x7fff_ffff,
    ensures forall|i: int| 0 <= i < found_upto(p, utf8(s), l).len() ==> {
        let f = #[trigger] found_upto(p, utf8(s), l)[i];
        1 <= f.0 <= blen(s) && bound(s, f.0 as int) && is_key(p, utf8(s).take(f.0 as int)) }
    decreases l
{
    if l > 0 {
        lemma_found_ok(p, s, l - 1);
        lemma_utf8_len(s);
        let bs = utf8(s);
        if is_key(p, bs.take(l)) {
            let w = choose|w: Seq<char>| bs.take(l) == #[trigger] utf8(w) && w.len() > 0;
            lemma_prefix(w, s);
            lemma_bound(s, w.len() as int);
            let a = found_upto(p, bs, l - 1);
            let b = with_len(l, entries(p, p.da.map()[bs.take(l)]));
            assert forall|i: int| 0 <= i < (a + b).len() implies ({ let f = #[trigger] (a + b)[i]; 1 <= f.0 <= blen(s) && bound(s, f.0 as int) && is_key(p, bs.take(f.0 as int)) }) by {
                if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
            }
        }
    }
}
pub proof fn lemma_known_ok(p: PrefixDict, text: Seq<char>, i: int)
    requires word_keys(p), bound(text, i), 0 <= i, blen(text) < 0x7fff_ffff,
    ensures from_i(known_edges(p, text.skip(cidx(text, i)), i), text, i)
{
    let s = text.skip(cidx(text, i));
    lemma_bound(text, cidx(text, i));
    lemma_utf8_len(s);
    lemma_found_ok(p, s, utf8(s).len() as int);
    let es = known_edges(p, s, i);
    assert forall|k: int| 0 <= k < es.len() implies edge_ok(#[trigger] es[k], text) && es[k].start_index == i by {
        let f = found_in(p, s)[k];
        assert(f == found_upto(p, utf8(s), utf8(s).len() as int)[k]);
        lemma_bound_cat(text, i, f.0 as int);
    }
}
pub proof fn lemma_unk_ok(x: Ctx, text: Seq<char>, i: int, cat: CategoryId, ord: int, f: bool)
    requires ctx_ok(x), bound(text, i), 0 <= i < blen(text), blen(text) < 0x7fff_ffff, cat_ok(x.cd, x.ud, cat),
    ensures ({
        let s = text.skip(cidx(text, i));
        let n = unk_chars(x.cd, s, cat, ord, f);
        let es = unk_edges(x.cd, x.ud, s, i, cat, ord, f);
        &&& s.len() > 0 && 0 <= n <= s.len()
        &&& from_i(es, text, i)
        &&& n > 0 ==> es.len() > 0 && i < i + blen(s.take(n)) <= blen(text) && es[0].stop_index == i + blen(s.take(n))
        &&& !f ==> n > 0
    })
{
    let s = text.skip(cidx(text, i));
    lemma_bound(text, cidx(text, i));
    lemma_blen_pos(s);
    let n = unk_chars(x.cd, s, cat, ord, f);
    lemma_run(x.cd, s, 1, cat, ord);
    if n > 0 {
        lemma_bound(s, n);
        lemma_blen_pos(s.take(n));
        lemma_bound_cat(text, i, blen(s.take(n)) as int);
    }
}
pub proof fn lemma_unk_all(x: Ctx, text: Seq<char>, i: int, f: bool, st: St, n: int)
    requires ctx_ok(x), bound(text, i), 0 <= i < blen(text), blen(text) < 0x7fff_ffff, 0 <= n <= cats(x.cd, text.skip(cidx(text, i))[0]).len(),
    ensures ({
        let s = text.skip(cidx(text, i));
        let r = unk_all(x, s, i, f, st, n);
        &&& exists|new: Seq<Edge>| r.es == st.es + new && #[trigger] from_i(new, text, i)
        &&& r.uwe == st.uwe || (exists|k: int| 0 <= k < r.es.len() && r.uwe == Some(#[trigger] r.es[k].stop_index as usize) && r.es[k].stop_index > i)
        &&& !f && n > 0 ==> r.uwe is Some && exists|k: int| 0 <= k < r.es.len() && r.uwe == Some(#[trigger] r.es[k].stop_index as usize) && r.es[k].stop_index > i
        &&& r.es.len() >= st.es.len()
    })
    decreases n
{
    let s = text.skip(cidx(text, i));
    if n <= 0 { assert(st.es + Seq::<Edge>::empty() =~= st.es); assert(from_i(Seq::<Edge>::empty(), text, i)); }
    else {
        lemma_unk_all(x, text, i, f, st, n - 1);
        let p = unk_all(x, s, i, f, st, n - 1);
        let cat = cats(x.cd, s[0])[n - 1];
        assert(cat_ok(x.cd, x.ud, cat));
        lemma_unk_ok(x, text, i, cat, n - 1, f);
        let b = unk_edges(x.cd, x.ud, s, i, cat, n - 1, f);
        let new = choose|new: Seq<Edge>| p.es == st.es + new && #[trigger] from_i(new, text, i);
        let r = unk_all(x, s, i, f, st, n);
        assert(r.es =~= st.es + (new + b));
        assert(from_i(new + b, text, i));
        if unk_chars(x.cd, s, cat, n - 1, f) > 0 {
            assert(r.es[p.es.len() as int] == b[0]);
            assert(r.uwe == Some(r.es[p.es.len() as int].stop_index as usize));
        } else {
            assert(b.len() == 0);
            assert(r.es =~= p.es);
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_step(x: Ctx, text: Seq<char>, st: St, i: int)
    requires
        ctx_ok(x), 0 <= i < blen(text), blen(text) < 0x7fff_ffff,
        edges_ok(st.es, text), starts_live(st.es), starts_below(st.es, i), reaches(x, st, text, i),
    ensures ({
        let r = step(x, text, st, i);
        &&& edges_ok(r.es, text) && starts_live(r.es) && starts_below(r.es, i + 1) && reaches(x, r, text, i + 1)
        &&& r.es.len() >= st.es.len() && r.es.take(st.es.len() as int) =~= st.es
        &&& live(st.es, i) ==> bound(text, i)
    })
{
    hide(unk_all); hide(found_upto); hide(utf8); hide(wf_dict); hide(cats); hide(cat_ok); hide(table_wf); hide(word_keys); hide(blen); hide(kanji_only);
    let r = step(x, text, st, i);
    let p = choose|p: int| #[trigger] reach_at(x, st, text, i, p);
    if live(st.es, i) {
        assert(bound(text, i)) by {
            reveal(blen);
            if i == 0 { lemma_bound(text, 0); assert(text.take(0) =~= Seq::empty()); }
            else { let k = choose|k: int| 0 <= k < st.es.len() && #[trigger] st.es[k].stop_index == i; assert(edge_ok(st.es[k], text)); }
        }
        let s = text.skip(cidx(text, i));
        lemma_bound(text, cidx(text, i));
        lemma_blen_pos(s);
        let u = user_edges(x.user, s, i);
        let w = known_edges(x.dict, s, i);
        lemma_known_ok(x.dict, text, i);
        if x.user is Some { lemma_known_ok(x.user->0, text, i); }
        assert(from_i(u, text, i));
        let k = known_st(x, s, st, i);
        let f = any_found(x, s, i);
        let n = cats(x.cd, s[0]).len() as int;
        let ms = may_start(x, st.uwe, i);
        let new = if ms { lemma_unk_all(x, text, i, f, k, n); choose|new: Seq<Edge>| r.es == k.es + new && #[trigger] from_i(new, text, i) } else { Seq::empty() };
        assert(from_i(new, text, i));
        let b = u + w + new;
        assert(r.es =~= st.es + b);
        assert(from_i(b, text, i));
        assert forall|j: int| 0 <= j < r.es.len() implies edge_ok(#[trigger] r.es[j], text) && r.es[j].start_index < i + 1 && live(r.es, r.es[j].start_index as int) by {
            if j < st.es.len() { assert(r.es[j] == st.es[j]); lemma_live_more(st.es, b, st.es[j].start_index as int); }
            else { assert(r.es[j] == b[j - st.es.len()]); lemma_live_more(st.es, b, i); }
        }
        if r.uwe != st.uwe {
            let j = choose|j: int| 0 <= j < r.es.len() && r.uwe == Some(#[trigger] r.es[j].stop_index as usize) && r.es[j].stop_index > i;
            assert(edge_ok(r.es[j], text));
            assert(reach_at(x, r, text, i + 1, r.es[j].stop_index as int));
        } else if p > i {
            lemma_live_more(st.es, b, p);
            assert(reach_at(x, r, text, i + 1, p));
        } else {
            assert(ms);
            if f {
                assert(u.len() + w.len() > 0);
                assert(edge_ok(b[0], text));
                assert(r.es[st.es.len() as int] == b[0]);
                assert(live(r.es, b[0].stop_index as int));
                assert(reach_at(x, r, text, i + 1, b[0].stop_index as int));
            } else {
                let j = choose|j: int| 0 <= j < r.es.len() && r.uwe == Some(#[trigger] r.es[j].stop_index as usize) && r.es[j].stop_index > i;
                assert(edge_ok(r.es[j], text));
                assert(reach_at(x, r, text, i + 1, r.es[j].stop_index as int));
            }
        }
    } else {
        assert(p != i);
        assert(reach_at(x, r, text, i + 1, p));
    }
}
pub proof fn lemma_lat(x: Ctx, text: Seq<char>, n: int)
    requires ctx_ok(x), 0 <= n <= blen(text), blen(text) < 0x7fff_ffff,
    ensures ({
        let r = lat(x, text, n);
        &&& edges_ok(r.es, text) && starts_live(r.es) && starts_below(r.es, n) && reaches(x, r, text, n)
        &&& n > 0 ==> r.es.len() >= lat(x, text, n - 1).es.len() && r.es.take(lat(x, text, n - 1).es.len() as int) =~= lat(x, text, n - 1).es
    })
    decreases n
{
    if n > 0 { lemma_lat(x, text, n - 1); lemma_step(x, text, lat(x, text, n - 1), n - 1); }
    else { assert(reach_at(x, lat(x, text, 0), text, 0, 0)); }
}
pub proof fn lemma_lat_mono(x: Ctx, text: Seq<char>, n: int, m: int)
    requires ctx_ok(x), 0 <= n <= m <= blen(text), blen(text) < 0x7fff_ffff,
    ensures lat(x, text, n).es.len() <= lat(x, text, m).es.len()
    decreases m - n
{
    if n < m { lemma_lat_mono(x, text, n, m - 1); lemma_lat(x, text, m); }
}
pub proof fn lemma_unk_all_mono(x: Ctx, s: Seq<char>, i: int, f: bool, st: St, n: int, m: int)
    requires n <= m,
    ensures unk_all(x, s, i, f, st, n).es.len() <= unk_all(x, s, i, f, st, m).es.len()
    decreases m - n
{
    if n < m { lemma_unk_all_mono(x, s, i, f, st, n, m - 1); }
}
pub proof fn lemma_ids_stop(es: Seq<Edge>, p: int)
    ensures (ids_stop(es, p).len() == 0) <==> (forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).stop_index != p)
    decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last();
        lemma_ids_stop(d, p);
        assert forall|k: int| 0 <= k < d.len() implies d[k] == es[k] by {}
        if es.last().stop_index == p { assert(es[es.len() - 1].stop_index == p); }
    }
}
pub proof fn lemma_unk_step_len(x: Ctx, s: Seq<char>, i: int, f: bool, st: St, n: int)
    requires 0 <= n < cats(x.cd, s[0]).len(),
    ensures
        unk_all(x, s, i, f, st, n + 1).es.len() <= unk_all(x, s, i, f, st, cats(x.cd, s[0]).len() as int).es.len(),
        unk_all(x, s, i, f, st, n + 1).es == unk_all(x, s, i, f, st, n).es + unk_edges(x.cd, x.ud, s, i, cats(x.cd, s[0])[n], n, f),
        unk_all(x, s, i, f, st, n + 1).uwe == unk_end(x.cd, s, i, cats(x.cd, s[0])[n], n, f, unk_all(x, s, i, f, st, n).uwe)
{
    lemma_unk_all_mono(x, s, i, f, st, n + 1, cats(x.cd, s[0]).len() as int);
}
// everything the loop over the positions needs to know at position i
pub open spec fn at_pos(x: Ctx, t: Seq<char>, i: int) -> bool {
    let st = lat(x, t, i);
    let s = t.skip(cidx(t, i));
    let k = known_st(x, s, st, i);
    let c = cats(x.cd, s[0]);
    &&& lat(x, t, i + 1).es.len() <= all_edges(x, t).len()
    &&& live(st.es, i) <==> stops_list(st.es, i).len() > 0
    &&& !live(st.es, i) ==> lat(x, t, i + 1) == st
    &&& live(st.es, i) ==> {
        &&& bound(t, i) && s.len() > 0 && i + blen(s) == blen(t) && utf8(s).len() == blen(s)
        &&& table_wf(x.cd.mapping) && defs_ok(x.cd, x.ud) && 0 < c.len() <= 0xffff_ffff
        &&& forall|j: int| 0 <= j < c.len() ==> cat_ok(x.cd, x.ud, #[trigger] c[j])
        &&& known_pos(x.dict, s)
        &&& x.user is Some ==> known_pos(x.user->0, s)
        &&& k.es.len() <= lat(x, t, i + 1).es.len()
        &&& lat(x, t, i + 1) == (if may_start(x, st.uwe, i) { unk_all(x, s, i, any_found(x, s, i), k, c.len() as int) } else { k })
    }
}
pub open spec fn known_pos(p: PrefixDict, s: Seq<char>) -> bool {
    wf_dict(p) && forall|i: int| 0 <= i < found_in(p, s).len() ==> 1 <= (#[trigger] found_in(p, s)[i]).0 <= blen(s) && bound(s, found_in(p, s)[i].0 as int)
}
#[verifier::spinoff_prover]
pub proof fn lemma_at_pos(x: Ctx, t: Seq<char>, i: int)
    requires ctx_ok(x), 0 <= i < blen(t), blen(t) < 0x7fff_ffff,
    ensures at_pos(x, t, i)
{
    hide(unk_all); hide(found_upto); hide(utf8); hide(wf_dict); hide(cats); hide(cat_ok); hide(table_wf); hide(word_keys); hide(reaches); hide(edges_ok); hide(starts_live); hide(starts_below); hide(blen);
    let st = lat(x, t, i);
    let s = t.skip(cidx(t, i));
    let k = known_st(x, s, st, i);
    lemma_lat(x, t, i);
    lemma_lat_mono(x, t, i + 1, blen(t) as int);
    lemma_step(x, t, st, i);
    lemma_ids_stop(st.es, i);
    assert(lat(x, t, i + 1) == step(x, t, st, i));
    if live(st.es, i) {
        lemma_bound(t, cidx(t, i));
        lemma_blen_pos(s);
        lemma_utf8_len(s);
        lemma_known_pos(x.dict, s);
        if x.user is Some { lemma_known_pos(x.user->0, s); }
        if may_start(x, st.uwe, i) { lemma_unk_all_mono(x, s, i, any_found(x, s, i), k, 0, cats(x.cd, s[0]).len() as int); assert(unk_all(x, s, i, any_found(x, s, i), k, 0) == k) by { reveal(unk_all); } }
    }
}
pub proof fn lemma_known_pos(p: PrefixDict, s: Seq<char>)
    requires wf_dict(p), word_keys(p), blen(s) < 0x7fff_ffff,
    ensures known_pos(p, s)
{
    lemma_utf8_len(s);
    lemma_found_ok(p, s, utf8(s).len() as int);
}
pub proof fn lemma_rep(l: Lattice, es: Seq<Edge>, len: int, p: int)
    requires rep(l, es, len), 0 <= p < l.starts_at@.len(),
    ensures l.edges@.len() == 2 + es.len(), l.starts_at@.len() == l.ends_at@.len(), len < l.starts_at@.len(), l.ends_at@[p]@ == stops_list(es, p), l.starts_at@[p]@ == starts_list(es, len, p),
        forall|k: int| 0 <= k < es.len() ==> l.edges@[k + 2] == #[trigger] es[k]
{}
pub open spec fn room(l: Lattice, es: Seq<Edge>, len: int) -> bool { l.edges@.len() == 2 + es.len() && l.starts_at@.len() == l.ends_at@.len() && len < l.starts_at@.len() }
pub proof fn lemma_room_of(l: Lattice, es: Seq<Edge>, len: int) requires rep(l, es, len) ensures room(l, es, len) {}
pub proof fn lemma_more(a: Seq<Edge>, u: Seq<Edge>)
    ensures
        a + u.take(0) == a, u.take(u.len() as int) == u,
        forall|i: int| 0 <= i < u.len() ==> #[trigger] (a + u.take(i)).push(u[i]) == a + u.take(i + 1)
{
    assert(a + u.take(0) =~= a);
    assert(u.take(u.len() as int) =~= u);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] (a + u.take(i)).push(u[i]) == a + u.take(i + 1) by { assert((a + u.take(i)).push(u[i]) =~= a + u.take(i + 1)); }
}
pub proof fn lemma_nodes(s: Seq<Edge>) requires s.len() == 2, s[0] == edge0(), s[1] == edge0() ensures s == seq![edge0(), edge0()] { assert(s =~= seq![edge0(), edge0()]); }
pub proof fn lemma_rep0(l: Lattice, len: int)
    requires
        sized(l), 0 < len < l.starts_at@.len(), l.edges@ == seq![edge0(), edge0()],
        forall|p: int| 0 <= p < l.starts_at@.len() ==> (#[trigger] l.starts_at@[p])@ == (if p == len { seq![EdgeId(1)] } else { Seq::empty() }),
        forall|p: int| 0 <= p < l.ends_at@.len() ==> (#[trigger] l.ends_at@[p])@ == (if p == 0 { seq![EdgeId(0)] } else { Seq::empty() }),
    ensures rep(l, Seq::empty(), len)
{
    assert(l.edges@ =~= nodes(Seq::empty()));
    assert forall|p: int| 0 <= p < l.starts_at@.len() implies (#[trigger] l.starts_at@[p])@ == starts_list(Seq::empty(), len, p) by {
        assert(l.starts_at@[p]@ =~= starts_list(Seq::empty(), len, p));
    }
    assert forall|p: int| 0 <= p < l.ends_at@.len() implies (#[trigger] l.ends_at@[p])@ == stops_list(Seq::empty(), p) by {
        assert(l.ends_at@[p]@ =~= stops_list(Seq::empty(), p));
    }
}
@item fn lindera-core/src/viterbi.rs Lattice::set_text
@attr #[verifier::spinoff_prover]
@spec
  requires
    sized(*old(self)), text@.len() > 0, blen(text@) < 0x7fff_ffff,
    ctx_ok(ctx(*dict, *user_dict, *char_definitions, *unknown_dictionary, *search_mode)),
    all_edges(ctx(*dict, *user_dict, *char_definitions, *unknown_dictionary, *search_mode), text@).len() + 2 <= 0xffff_ffff,
  ensures
    rep(*final(self), all_edges(ctx(*dict, *user_dict, *char_definitions, *unknown_dictionary, *search_mode), text@), blen(text@) as int)
@at start
  hide(ctx_ok); hide(rep); hide(step); hide(lat); hide(unk_all); hide(unk_edges); hide(unk_end); hide(found_upto); hide(utf8); hide(blen); hide(clen); hide(enc); hide(wf_dict); hide(defs_ok); hide(cat_ok); hide(table_wf); hide(cats); hide(stops_list); hide(at_pos); hide(kanji_only); hide(live);
  let ghost x = ctx(*dict, *user_dict, *char_definitions, *unknown_dictionary, *search_mode);
  let ghost t = text@;
  let ghost total = all_edges(x, t).len();
  let ghost sys = *dict;
  proof { lemma_blen_pos(t); }
@at loop 0 before
  proof {
    lemma_nodes(self.edges@);
    assert(forall|p: int| 0 <= p < self.starts_at@.len() ==> (#[trigger] self.starts_at@[p])@ =~= (if p == len { seq![EdgeId(1)] } else { Seq::empty() }));
    assert(forall|p: int| 0 <= p < self.ends_at@.len() ==> (#[trigger] self.ends_at@[p])@ =~= (if p == 0 { seq![EdgeId(0)] } else { Seq::empty() }));
    lemma_rep0(*self, len as int);
    assert(lat(x, t, 0).es == Seq::<Edge>::empty() && lat(x, t, 0).uwe is None) by { reveal(lat); }
  }
@loop 0
  invariant
    t == text@, len == blen(t), 0 < len < 0x7fff_ffff, ctx_ok(x), sys == *dict,
    x == ctx(*dict, *user_dict, *char_definitions, *unknown_dictionary, *search_mode),
    total == all_edges(x, t).len(), total + 2 <= 0xffff_ffff,
    rep(*self, lat(x, t, start as int).es, len as int), unknown_word_end == lat(x, t, start as int).uwe
@at loop 0 body_start
  let ghost st = lat(x, t, start as int);
  let ghost s = t.skip(cidx(t, start as int));
  let ghost u = user_edges(x.user, s, start as int);
  let ghost w = known_edges(x.dict, s, start as int);
  let ghost k = known_st(x, s, st, start as int);
  proof {
    lemma_at_pos(x, t, start as int);
    lemma_room_of(*self, st.es, len as int);
    lemma_rep(*self, st.es, len as int, start as int);
    reveal(at_pos);
    lemma_more(st.es, u);
    lemma_more(st.es + u, w);
  }
@loop 1
  invariant
    it1.seq() == found_in(x.user->0, s), x.user is Some, known_pos(x.user->0, s), suffix@ == s,
    u.len() == it1.seq().len(), u == known_edges(x.user->0, s, start as int), st.es.len() + u.len() <= total, total + 2 <= 0xffff_ffff, start + blen(s) == len, len < 0x7fff_ffff,
    forall|i: int| 0 <= i < u.len() ==> #[trigger] (st.es + u.take(i)).push(u[i]) == st.es + u.take(i + 1),
    rep(*self, st.es + u.take(it1.index()), len as int), found == (it1.index() > 0)
@at loop 1 body_start
  let ghost i = it1.index();
  proof { lemma_room_of(*self, st.es + u.take(i), len as int); assert(u[i] == known_edge(s, start as int, found_in(x.user->0, s)[i])); assert((st.es + u.take(i)).push(u[i]) == st.es + u.take(i + 1)); }
@at loop 2 before
  proof {
    assert(rep(*self, st.es + u, len as int)) by { if x.user is None { assert(u == u.take(0)); } }
  }
@loop 2
  invariant
    it2.seq() == found_in(x.dict, s), known_pos(x.dict, s), suffix@ == s,
    w.len() == it2.seq().len(), w == known_edges(x.dict, s, start as int), st.es.len() + u.len() + w.len() <= total, total + 2 <= 0xffff_ffff, start + blen(s) == len, len < 0x7fff_ffff,
    forall|i: int| 0 <= i < w.len() ==> #[trigger] (st.es + u + w.take(i)).push(w[i]) == st.es + u + w.take(i + 1),
    rep(*self, st.es + u + w.take(it2.index()), len as int), found == (u.len() > 0 || it2.index() > 0)
@at loop 2 body_start
  let ghost i = it2.index();
  proof { lemma_room_of(*self, st.es + u + w.take(i), len as int); assert(w[i] == known_edge(s, start as int, found_in(x.dict, s)[i])); assert((st.es + u + w.take(i)).push(w[i]) == st.es + u + w.take(i + 1)); }
@at loop 2 after
  proof {
    assert(found == any_found(x, s, start as int));
    assert(st.es + u + w == k.es);
    assert(unk_all(x, s, start as int, found, k, 0) == k) by { reveal(unk_all); }
  }
@loop 3
  invariant
    it3.seq().len() == cats(x.cd, s[0]).len(), forall|j: int| 0 <= j < it3.seq().len() ==> *#[trigger] it3.seq()[j] == cats(x.cd, s[0])[j],
    forall|j: int| 0 <= j < cats(x.cd, s[0]).len() ==> cat_ok(x.cd, x.ud, #[trigger] cats(x.cd, s[0])[j]),
    vxn4 == it3.index(), it3.seq().len() <= 0xffff_ffff, defs_ok(x.cd, x.ud), x.cd == *char_definitions, x.ud == *unknown_dictionary, suffix@ == s, s.len() > 0,
    unk_all(x, s, start as int, found, k, cats(x.cd, s[0]).len() as int).es.len() <= total, total + 2 <= 0xffff_ffff, start + blen(s) == len, len < 0x7fff_ffff,
    rep(*self, unk_all(x, s, start as int, found, k, it3.index()).es, len as int),
    unknown_word_end == unk_all(x, s, start as int, found, k, it3.index()).uwe
@at loop 3 body_start
  proof { lemma_unk_step_len(x, s, start as int, found, k, it3.index()); lemma_room_of(*self, unk_all(x, s, start as int, found, k, it3.index()).es, len as int); }
@end
// ---- best paths (C02) ----------------------------------------------------------------------------------
// what a node costs to its right neighbour: path so far, connection, penalty of the mode
pub open spec fn link(cm: ConnectionCostMatrix, mode: Mode, a: Edge, b: Edge) -> int {
    cell(cm.costs_data@, cm.backward_size as int, a.word_entry.right_id as int, b.word_entry.left_id as int) + mode_pen(mode, a)
}
pub open spec fn via(es: Seq<Edge>, cm: ConnectionCostMatrix, mode: Mode, l: EdgeId, r: EdgeId) -> int {
    es[l.0 as int].path_cost + link(cm, mode, es[l.0 as int], es[r.0 as int])
}
// m is the first of the left neighbours that makes the path to r cheapest
pub open spec fn cheapest(es: Seq<Edge>, cm: ConnectionCostMatrix, mode: Mode, ls: Seq<EdgeId>, r: EdgeId, m: int) -> bool {
    &&& 0 <= m < ls.len()
    &&& forall|j: int| 0 <= j < ls.len() ==> via(es, cm, mode, ls[m], r) <= via(es, cm, mode, #[trigger] ls[j], r)
    &&& forall|j: int| 0 <= j < m ==> via(es, cm, mode, ls[m], r) < via(es, cm, mode, #[trigger] ls[j], r)
}
pub open spec fn settled(es: Seq<Edge>, cm: ConnectionCostMatrix, mode: Mode, ls: Seq<EdgeId>, r: EdgeId) -> bool {
    exists|m: int| #[trigger] cheapest(es, cm, mode, ls, r, m) && es[r.0 as int].left_edge == Some(ls[m])
        && es[r.0 as int].path_cost == es[r.0 as int].word_entry.word_cost + via(es, cm, mode, ls[m], r)
}
// same word at the same place
pub open spec fn same_word(a: Edge, b: Edge) -> bool {
    a.word_entry == b.word_entry && a.start_index == b.start_index && a.stop_index == b.stop_index && a.kanji_only == b.kanji_only && a.edge_type == b.edge_type
}
pub open spec fn same_words(a: Seq<Edge>, b: Seq<Edge>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> same_word(#[trigger] a[k], b[k])
}
pub open spec fn costed(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode) -> bool {
    &&& filed(l, es, len)
    &&& same_words(l.edges@, nodes(es)) && l.edges@[0] == edge0()
    &&& forall|p: int, j: int| 0 <= p <= len && 0 <= j < starts_list(es, len, p).len() ==> settled(l.edges@, cm, mode, stops_list(es, p), #[trigger] starts_list(es, len, p)[j])
}
pub open spec fn within(es: Seq<Edge>, len: int) -> bool {
    &&& forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).start_index < es[k].stop_index <= len
    &&& starts_live(es) && live(es, len) && len > 0
}
// every path cost fits 32 bits if a penalty is at most c per byte and the text is short enough
pub open spec fn pen_room(es: Seq<Edge>, mode: Mode, c: int, len: int) -> bool {
    &&& c >= 0 && 65536 * (len + 2) + c * len <= 0x7fff_ffff
    &&& forall|k: int| 0 <= k < es.len() ==> -c * ((#[trigger] es[k]).stop_index - es[k].start_index) <= mode_pen(mode, es[k]) <= c * (es[k].stop_index - es[k].start_index)
}
pub open spec fn cells_ok(es: Seq<Edge>, cm: ConnectionCostMatrix) -> bool {
    forall|a: int, b: int| 0 <= a < es.len() + 2 && 0 <= b < es.len() + 2 ==> cell_ok(cm.costs_data@, cm.backward_size as int,
        (#[trigger] nodes(es)[a]).word_entry.right_id as int, (#[trigger] nodes(es)[b]).word_entry.left_id as int)
}
pub open spec fn es_of(l: Lattice) -> Seq<Edge> { l.edges@.skip(2) }
pub open spec fn pathable(l: Lattice, cm: ConnectionCostMatrix, mode: Mode, len: int, c: int) -> bool {
    &&& rep(l, es_of(l), len) && within(es_of(l), len) && es_of(l).len() + 2 <= 0xffff_ffff
    &&& pen_room(es_of(l), mode, c, len) && cells_ok(es_of(l), cm)
}
pub open spec fn bounded(e: Edge, id: EdgeId, c: int, len: int) -> bool {
    let b = if id.0 == 0 { 0 } else if id.0 == 1 { 65536 * (len + 1) + c * len } else { 65536 * e.stop_index + c * e.start_index };
    -b <= e.path_cost <= b
}
pub proof fn lemma_stops(es: Seq<Edge>, p: int, j: int)
    requires 0 <= j < ids_stop(es, p).len(), es.len() + 2 <= 0xffff_ffff,
    ensures ({ let k = ids_stop(es, p)[j].0 - 2; 0 <= k < es.len() && es[k].stop_index == p })
    decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last();
        if j < ids_stop(d, p).len() { lemma_stops(d, p, j); let k = ids_stop(d, p)[j].0 - 2; assert(d[k] == es[k]); }
    }
}
pub proof fn lemma_starts(es: Seq<Edge>, p: int, j: int)
    requires 0 <= j < ids_start(es, p).len(), es.len() + 2 <= 0xffff_ffff,
    ensures ({ let k = ids_start(es, p)[j].0 - 2; 0 <= k < es.len() && es[k].start_index == p })
    decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last();
        if j < ids_start(d, p).len() { lemma_starts(d, p, j); let k = ids_start(d, p)[j].0 - 2; assert(d[k] == es[k]); }
    }
}
pub proof fn lemma_stops_has(es: Seq<Edge>, p: int, k: int)
    requires 0 <= k < es.len(), es[k].stop_index == p, es.len() + 2 <= 0xffff_ffff,
    ensures ids_stop(es, p).contains(EdgeId((k + 2) as u32))
    decreases es.len()
{
    let d = es.drop_last();
    if k < d.len() {
        lemma_stops_has(d, p, k);
        let j = choose|j: int| 0 <= j < ids_stop(d, p).len() && ids_stop(d, p)[j] == EdgeId((k + 2) as u32);
        assert(ids_stop(es, p)[j] == EdgeId((k + 2) as u32));
    } else {
        let l = ids_stop(es, p);
        assert(l[l.len() - 1] == EdgeId((k + 2) as u32));
    }
}
pub proof fn lemma_starts_has(es: Seq<Edge>, p: int, k: int)
    requires 0 <= k < es.len(), es[k].start_index == p, es.len() + 2 <= 0xffff_ffff,
    ensures ids_start(es, p).contains(EdgeId((k + 2) as u32))
    decreases es.len()
{
    let d = es.drop_last();
    if k < d.len() {
        lemma_starts_has(d, p, k);
        let j = choose|j: int| 0 <= j < ids_start(d, p).len() && ids_start(d, p)[j] == EdgeId((k + 2) as u32);
        assert(ids_start(es, p)[j] == EdgeId((k + 2) as u32));
    } else {
        let l = ids_start(es, p);
        assert(l[l.len() - 1] == EdgeId((k + 2) as u32));
    }
}
// a node that can stand left (ends at p) / right (starts at p) of position p
pub open spec fn left_at(es: Seq<Edge>, p: int, id: EdgeId) -> bool {
    (id.0 == 0 && p == 0) || (2 <= id.0 && id.0 - 2 < es.len() && es[id.0 - 2].stop_index == p)
}
pub open spec fn right_at(es: Seq<Edge>, len: int, p: int, id: EdgeId) -> bool {
    (id.0 == 1 && p == len) || (2 <= id.0 && id.0 - 2 < es.len() && es[id.0 - 2].start_index == p)
}
pub proof fn lemma_lists(es: Seq<Edge>, len: int, p: int)
    requires es.len() + 2 <= 0xffff_ffff,
    ensures
        forall|j: int| 0 <= j < stops_list(es, p).len() ==> left_at(es, p, #[trigger] stops_list(es, p)[j]),
        forall|j: int| 0 <= j < starts_list(es, len, p).len() ==> right_at(es, len, p, #[trigger] starts_list(es, len, p)[j]),
        forall|id: EdgeId| left_at(es, p, id) ==> #[trigger] stops_list(es, p).contains(id),
        forall|id: EdgeId| right_at(es, len, p, id) ==> #[trigger] starts_list(es, len, p).contains(id),
{
    let a = if p == 0 { seq![EdgeId(0)] } else { Seq::<EdgeId>::empty() };
    let b = if p == len { seq![EdgeId(1)] } else { Seq::<EdgeId>::empty() };
    assert forall|j: int| 0 <= j < stops_list(es, p).len() implies left_at(es, p, #[trigger] stops_list(es, p)[j]) by {
        if j >= a.len() { lemma_stops(es, p, j - a.len()); assert(stops_list(es, p)[j] == ids_stop(es, p)[j - a.len()]); }
    }
    assert forall|j: int| 0 <= j < starts_list(es, len, p).len() implies right_at(es, len, p, #[trigger] starts_list(es, len, p)[j]) by {
        if j >= b.len() { lemma_starts(es, p, j - b.len()); assert(starts_list(es, len, p)[j] == ids_start(es, p)[j - b.len()]); }
    }
    assert forall|id: EdgeId| left_at(es, p, id) implies #[trigger] stops_list(es, p).contains(id) by {
        if id.0 == 0 { assert(stops_list(es, p)[0] == id); } else {
            lemma_stops_has(es, p, id.0 - 2);
            let j = choose|j: int| 0 <= j < ids_stop(es, p).len() && ids_stop(es, p)[j] == id;
            assert(stops_list(es, p)[j + a.len()] == id);
        }
    }
    assert forall|id: EdgeId| right_at(es, len, p, id) implies #[trigger] starts_list(es, len, p).contains(id) by {
        if id.0 == 1 { assert(starts_list(es, len, p)[0] == id); } else {
            lemma_starts_has(es, p, id.0 - 2);
            let j = choose|j: int| 0 <= j < ids_start(es, p).len() && ids_start(es, p)[j] == id;
            assert(starts_list(es, len, p)[j + b.len()] == id);
        }
    }
}
// everything filed before (p, j) is settled and bounded
pub open spec fn done(e: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int, n: int) -> bool {
    &&& e[0] == edge0() && same_words(e, nodes(es))
    &&& forall|q: int, j: int| 0 <= j < starts_list(es, len, q).len() && (0 <= q < p || (q == p && j < n)) ==>
        settled(e, cm, mode, stops_list(es, q), #[trigger] starts_list(es, len, q)[j]) && bounded(e[starts_list(es, len, q)[j].0 as int], starts_list(es, len, q)[j], c, len)
}
// setting one more node leaves the earlier ones settled
pub proof fn lemma_done_step(e: Seq<Edge>, f: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int, n: int)
    requires
        done(e, es, len, cm, mode, c, p, n), es.len() + 2 <= 0xffff_ffff, within(es, len), 0 <= p <= len, 0 <= n < starts_list(es, len, p).len(),
        ({
            let r = starts_list(es, len, p)[n];
            &&& f.len() == e.len() && forall|k: int| 0 <= k < e.len() && k != r.0 ==> f[k] == e[k]
            &&& same_word(f[r.0 as int], e[r.0 as int])
            &&& settled(f, cm, mode, stops_list(es, p), r) && bounded(f[r.0 as int], r, c, len)
        }),
    ensures done(f, es, len, cm, mode, c, p, n + 1)
{
    let r = starts_list(es, len, p)[n];
    lemma_lists(es, len, p);
    assert(right_at(es, len, p, r));
    let base = nodes(es);
    assert forall|q: int, j: int| 0 <= j < starts_list(es, len, q).len() && (0 <= q < p || (q == p && j < n + 1)) implies
        settled(f, cm, mode, stops_list(es, q), #[trigger] starts_list(es, len, q)[j]) && bounded(f[starts_list(es, len, q)[j].0 as int], starts_list(es, len, q)[j], c, len) by {
        let id = starts_list(es, len, q)[j];
        if id != r {
            let ls = stops_list(es, q);
            lemma_lists(es, len, q);
            assert(settled(e, cm, mode, ls, id));
            let m = choose|m: int| #[trigger] cheapest(e, cm, mode, ls, id, m) && e[id.0 as int].left_edge == Some(ls[m])
                && e[id.0 as int].path_cost == e[id.0 as int].word_entry.word_cost + via(e, cm, mode, ls[m], id);
            assert forall|k: int| 0 <= k < ls.len() implies via(f, cm, mode, #[trigger] ls[k], id) == via(e, cm, mode, ls[k], id) by {
                assert(left_at(es, q, ls[k]));
                if ls[k] == r { assert(es[r.0 - 2].start_index == p && es[r.0 - 2].stop_index == q); }
                assert(f[ls[k].0 as int] == e[ls[k].0 as int]);
            }
            assert(cheapest(f, cm, mode, ls, id, m));
        } else {
            assert(q == p) by { lemma_lists(es, len, q); assert(right_at(es, len, q, r)); }
        }
    }
}
pub open spec fn left_ok(e: Seq<Edge>, cm: ConnectionCostMatrix, mode: Mode, c: int, len: int, p: int, l: EdgeId, r: EdgeId) -> bool {
    let x = e[l.0 as int];
    &&& l.0 < e.len() && x.start_index <= x.stop_index
    &&& cell_ok(cm.costs_data@, cm.backward_size as int, x.word_entry.right_id as int, e[r.0 as int].word_entry.left_id as int)
    &&& i32_fits(mode_pen(mode, x)) && i32_fits(via(e, cm, mode, l, r))
    &&& i32_fits(x.path_cost + cell(cm.costs_data@, cm.backward_size as int, x.word_entry.right_id as int, e[r.0 as int].word_entry.left_id as int))
    &&& -(65536 * p + c * p + 32768) <= via(e, cm, mode, l, r) <= 65536 * p + c * p + 32768
    &&& 65536 * (p + 1) + c * p <= 0x7fff_ffff
}
pub proof fn lemma_left(e: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int, n: int, l: EdgeId, r: EdgeId)
    requires
        done(e, es, len, cm, mode, c, p, n), within(es, len), es.len() + 2 <= 0xffff_ffff, pen_room(es, mode, c, len), cells_ok(es, cm),
        0 <= p <= len, left_at(es, p, l), right_at(es, len, p, r),
    ensures left_ok(e, cm, mode, c, len, p, l, r)
{
    let x = e[l.0 as int];
    let y = e[r.0 as int];
    let z = nodes(es);
    assert(same_word(x, z[l.0 as int]));
    assert(same_word(y, z[r.0 as int]));
    assert(cell_ok(cm.costs_data@, cm.backward_size as int, z[l.0 as int].word_entry.right_id as int, z[r.0 as int].word_entry.left_id as int));
    assert(mode_pen(mode, x) == mode_pen(mode, z[l.0 as int]));
    assert(0 <= c * p <= c * len) by (nonlinear_arith) requires 0 <= p <= len, c >= 0;
    if l.0 != 0 {
        let k = l.0 - 2;
        assert(z[l.0 as int] == es[k]);
        let q = es[k].start_index as int;
        lemma_lists(es, len, q);
        assert(right_at(es, len, q, l));
        assert(starts_list(es, len, q).contains(l));
        let j = choose|j: int| 0 <= j < starts_list(es, len, q).len() && starts_list(es, len, q)[j] == l;
        assert(bounded(e[starts_list(es, len, q)[j].0 as int], l, c, len));
        assert(c * (p - q) == c * p - c * q) by (nonlinear_arith);
        assert(0 <= c * q <= c * p) by (nonlinear_arith) requires 0 <= q <= p, c >= 0;
        assert(-(c * (p - q)) == -c * (p - q)) by (nonlinear_arith);
    } else {
        assert(z[0] == edge0());
        assert(mode_pen(mode, edge0()) == 0);
    }
}
pub proof fn lemma_len_unique(l: Lattice, es: Seq<Edge>, a: int, b: int)
    requires rep(l, es, a), rep(l, es, b), 0 <= a, 0 <= b,
    ensures a == b
{
    if a != b {
        assert(l.starts_at@[a]@ == starts_list(es, a, a));
        assert(l.starts_at@[a]@ == starts_list(es, b, a));
        assert(starts_list(es, a, a).len() == ids_start(es, a).len() + 1);
        assert(starts_list(es, b, a).len() == ids_start(es, a).len());
    }
}
pub proof fn lemma_within_pos(es: Seq<Edge>, len: int) requires within(es, len) ensures len > 0 {}
pub proof fn lemma_done0(e: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int)
    requires e == nodes(es),
    ensures done(e, es, len, cm, mode, c, 0, 0)
{}
pub proof fn lemma_done_len(e: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int, n: int)
    requires done(e, es, len, cm, mode, c, p, n),
    ensures e.len() == es.len() + 2
{}
pub proof fn lemma_done_next(e: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int)
    requires done(e, es, len, cm, mode, c, p, starts_list(es, len, p).len() as int),
    ensures done(e, es, len, cm, mode, c, p + 1, 0)
{}
// where a node starts, a node ends
pub proof fn lemma_left_live(es: Seq<Edge>, len: int, p: int)
    requires within(es, len), es.len() + 2 <= 0xffff_ffff, 0 <= p,
    ensures starts_list(es, len, p).len() > 0 ==> stops_list(es, p).len() > 0 && p <= len
{
    if starts_list(es, len, p).len() > 0 {
        lemma_lists(es, len, p);
        let r = starts_list(es, len, p)[0];
        assert(right_at(es, len, p, r));
        if r.0 != 1 { assert(live(es, es[r.0 - 2].start_index as int)); }
        assert(live(es, p));
        if p != 0 {
            let k = choose|k: int| 0 <= k < es.len() && #[trigger] es[k].stop_index == p;
            assert(left_at(es, p, EdgeId((k + 2) as u32)));
            assert(stops_list(es, p).contains(EdgeId((k + 2) as u32)));
        } else { assert(left_at(es, 0, EdgeId(0))); assert(stops_list(es, p).contains(EdgeId(0))); }
    }
}
pub proof fn lemma_set(e: Seq<Edge>, f: Seq<Edge>, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, p: int, n: int, bm: int)
    requires
        done(e, es, len, cm, mode, c, p, n), within(es, len), es.len() + 2 <= 0xffff_ffff, 0 <= p <= len, 0 <= n < starts_list(es, len, p).len(),
        ({
            let r = starts_list(es, len, p)[n];
            let ls = stops_list(es, p);
            &&& cheapest(e, cm, mode, ls, r, bm) && left_ok(e, cm, mode, c, len, p, ls[bm], r)
            &&& f == e.update(r.0 as int, f[r.0 as int]) && same_word(f[r.0 as int], e[r.0 as int])
            &&& f[r.0 as int].left_edge == Some(ls[bm]) && f[r.0 as int].path_cost == e[r.0 as int].word_entry.word_cost + via(e, cm, mode, ls[bm], r)
        }),
    ensures
        f.len() == e.len(), forall|k: int| 0 <= k < e.len() && k != starts_list(es, len, p)[n].0 ==> f[k] == e[k],
        settled(f, cm, mode, stops_list(es, p), starts_list(es, len, p)[n]), bounded(f[starts_list(es, len, p)[n].0 as int], starts_list(es, len, p)[n], c, len)
{
    let r = starts_list(es, len, p)[n];
    let ls = stops_list(es, p);
    lemma_lists(es, len, p);
    assert(right_at(es, len, p, r));
    assert forall|k: int| 0 <= k < ls.len() implies via(f, cm, mode, #[trigger] ls[k], r) == via(e, cm, mode, ls[k], r) by {
        assert(left_at(es, p, ls[k]));
        assert(f[ls[k].0 as int] == e[ls[k].0 as int]);
    }
    assert(cheapest(f, cm, mode, ls, r, bm));
    assert(same_word(e[r.0 as int], nodes(es)[r.0 as int]));
    if r.0 != 1 { assert(nodes(es)[r.0 as int] == es[r.0 - 2]); }
}
pub proof fn lemma_costed(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, c: int, n: int)
    requires filed(l, es, len), done(l.edges@, es, len, cm, mode, c, n, 0), len < n,
    ensures costed(l, es, len, cm, mode)
{}
@item fn lindera-core/src/viterbi.rs Lattice::calculate_path_costs
@attr #[verifier::spinoff_prover]
@ty vxbest2 Option<(i32, EdgeId)>
@spec
  requires
    exists|len: int, c: int| pathable(*old(self), *cost_matrix, *mode, len, c),
  ensures
    forall|len: int, c: int| #[trigger] pathable(*old(self), *cost_matrix, *mode, len, c) ==> costed(*final(self), es_of(*old(self)), len, *cost_matrix, *mode)
@at start
  hide(settled); hide(cell_ok); hide(starts_list); hide(stops_list); hide(cheapest); hide(via); hide(within); hide(pen_room); hide(cells_ok); hide(done); hide(ids_start); hide(ids_stop);
  let ghost w = choose|w: (int, int)| pathable(*old(self), *cost_matrix, *mode, w.0, w.1);
  let ghost len = w.0;
  let ghost c = w.1;
  let ghost es = es_of(*old(self));
  let ghost cm = *cost_matrix;
  let ghost m = *mode;
  proof {
    let w2 = choose|len: int, c: int| pathable(*old(self), *cost_matrix, *mode, len, c);
    assert(pathable(*old(self), *cost_matrix, *mode, (w2.0, w2.1).0, (w2.0, w2.1).1));
    lemma_within_pos(es, len);
    assert(self.edges@ == nodes(es));
    lemma_done0(self.edges@, es, len, cm, m, c);
  }
@loop 0
  invariant
    cm == *cost_matrix, m == *mode, es == es_of(*old(self)), es.len() + 2 <= 0xffff_ffff, within(es, len), pen_room(es, m, c, len), cells_ok(es, cm), 0 < len < text_len,
    rep(*old(self), es, len), text_len == old(self).starts_at@.len(),
    self.starts_at == old(self).starts_at, self.ends_at == old(self).ends_at, self.capacity == old(self).capacity,
    done(self.edges@, es, len, cm, m, c, i as int, 0)
@at loop 0 body_start
  let ghost p = i as int;
  let ghost ls = stops_list(es, p);
  let ghost rs = starts_list(es, len, p);
  proof {
    lemma_rep(*old(self), es, len, p);
    lemma_lists(es, len, p);
    lemma_done_len(self.edges@, es, len, cm, m, c, p, 0);
    lemma_left_live(es, len, p);
  }
@loop 1
  invariant
    cm == *cost_matrix, m == *mode, es == es_of(*old(self)), es.len() + 2 <= 0xffff_ffff, within(es, len), pen_room(es, m, c, len), cells_ok(es, cm), 0 < len,
    0 <= p, p == i, ls == stops_list(es, p), rs == starts_list(es, len, p), left_edge_ids@ == ls,
    self.starts_at == old(self).starts_at, self.ends_at == old(self).ends_at, self.capacity == old(self).capacity,
    forall|j: int| 0 <= j < ls.len() ==> left_at(es, p, #[trigger] ls[j]), forall|j: int| 0 <= j < rs.len() ==> right_at(es, len, p, #[trigger] rs[j]),
    rs.len() > 0 ==> ls.len() > 0 && p <= len, self.edges@.len() == es.len() + 2,
    it1.seq().len() == rs.len(), forall|j: int| 0 <= j < rs.len() ==> *#[trigger] it1.seq()[j] == rs[j],
    done(self.edges@, es, len, cm, m, c, p, it1.index())
@at loop 1 body_start
  let ghost n = it1.index();
  let ghost r = rs[n];
  let ghost e = self.edges@;
  let ghost mut bm: int = 0;
  proof {
    assert(*it1.seq()[n] == r); assert(right_at(es, len, p, r));
    assert forall|j: int| 0 <= j < ls.len() implies left_ok(e, cm, m, c, len, p, #[trigger] ls[j], r) by { lemma_left(e, es, len, cm, m, c, p, n, ls[j], r); }
  }
@loop 2
  invariant
    cm == *cost_matrix, m == *mode, e == self.edges@, ls.len() > 0, r.0 < e.len(), right_word_entry == e[r.0 as int].word_entry,
    it2.seq().len() == ls.len(), forall|j: int| 0 <= j < ls.len() ==> *#[trigger] it2.seq()[j] == ls[j],
    forall|j: int| 0 <= j < ls.len() ==> left_ok(e, cm, m, c, len, p, #[trigger] ls[j], r),
    vxbest2 is None <==> it2.index() == 0,
    vxbest2 is Some ==> 0 <= bm < it2.index() && (vxbest2->0).1 == ls[bm] && (vxbest2->0).0 == via(e, cm, m, ls[bm], r),
    forall|j: int| 0 <= j < it2.index() ==> via(e, cm, m, ls[bm], r) <= via(e, cm, m, #[trigger] ls[j], r),
    forall|j: int| 0 <= j < bm ==> via(e, cm, m, ls[bm], r) < via(e, cm, m, #[trigger] ls[j], r)
@at loop 2 body_start
  proof { assert(*it2.seq()[it2.index()] == ls[it2.index()]); assert(left_ok(e, cm, m, c, len, p, ls[it2.index()], r)); reveal(via); }
@at assign vxbest2 0 after
  proof { bm = it2.index(); }
@at loop 2 after
  proof {
    assert(cheapest(e, cm, m, ls, r, bm)) by { reveal(cheapest); }
    assert(left_ok(e, cm, m, c, len, p, ls[bm], r));
  }
@at loop 1 body_end
  proof {
    let f = self.edges@;
    lemma_set(e, f, es, len, cm, m, c, p, n, bm);
    lemma_done_step(e, f, es, len, cm, m, c, p, n);
  }
@at loop 1 after
  proof { lemma_done_next(self.edges@, es, len, cm, m, c, p); }
@at end
  proof {
    assert forall|len2: int, c2: int| #[trigger] pathable(*old(self), *cost_matrix, *mode, len2, c2) implies costed(*self, es_of(*old(self)), len2, *cost_matrix, *mode) by {
      lemma_within_pos(es, len2);
      lemma_len_unique(*old(self), es, len, len2);
      lemma_costed(*self, es, len, cm, m, c, text_len as int);
    }
  }
@end
// ---- the returned path (C01, C02) -----------------------------------------------------------------------
pub open spec fn adjacent(es: Seq<Edge>, len: int, a: EdgeId, b: EdgeId) -> bool {
    exists|pos: int| 0 <= pos <= len && #[trigger] left_at(es, pos, a) && right_at(es, len, pos, b)
}
pub open spec fn adj_at(es: Seq<Edge>, len: int, q: Seq<EdgeId>, i: int) -> bool { adjacent(es, len, q[i - 1], q[i]) }
// a way to analyse the whole text: candidates that follow each other from the begin node to the end node
pub open spec fn is_path(es: Seq<Edge>, len: int, q: Seq<EdgeId>) -> bool {
    &&& q.len() >= 2 && q[0].0 == 0 && q.last().0 == 1
    &&& forall|i: int| 0 < i < q.len() ==> #[trigger] adj_at(es, len, q, i)
}
// its cost up to the n-th node: words, connections, penalties
pub open spec fn total(es: Seq<Edge>, cm: ConnectionCostMatrix, mode: Mode, q: Seq<EdgeId>, n: int) -> int decreases n {
    if n <= 0 { 0 } else {
        let (a, b) = (nodes(es)[q[n - 1].0 as int], nodes(es)[q[n].0 as int]);
        total(es, cm, mode, q, n - 1) + link(cm, mode, a, b) + b.word_entry.word_cost
    }
}
pub open spec fn back_at(e: Seq<Edge>, p: Seq<EdgeId>, i: int) -> bool { e[p[i].0 as int].left_edge == Some(p[i - 1]) }
pub open spec fn fwd_at(e: Seq<Edge>, s: Seq<EdgeId>, i: int) -> bool { e[s[i - 1].0 as int].left_edge == Some(s[i]) }
pub open spec fn tok(e: Seq<Edge>, id: EdgeId) -> (usize, WordId) { (e[id.0 as int].start_index as usize, e[id.0 as int].word_entry.word_id) }
pub open spec fn back_path(e: Seq<Edge>, p: Seq<EdgeId>) -> bool {
    &&& p.len() >= 2 && p[0].0 == 0 && p.last().0 == 1
    &&& forall|i: int| 0 < i < p.len() ==> #[trigger] back_at(e, p, i)
}
pub open spec fn toks(e: Seq<Edge>, p: Seq<EdgeId>) -> Seq<(usize, WordId)> {
    Seq::new((p.len() - 2) as nat, |i: int| tok(e, p[i + 1]))
}
pub open spec fn node(es: Seq<Edge>, id: EdgeId) -> bool { id.0 < es.len() + 2 }
pub open spec fn rank(es: Seq<Edge>, len: int, id: EdgeId) -> int { if id.0 == 0 { 0 } else if id.0 == 1 { len + 2 } else { es[id.0 - 2].start_index + 1 } }
pub open spec fn pos_of(es: Seq<Edge>, len: int, id: EdgeId) -> int { if id.0 == 1 { len } else { es[id.0 - 2].start_index as int } }
pub proof fn lemma_settled(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, r: EdgeId)
    requires costed(l, es, len, cm, mode), within(es, len), es.len() + 2 <= 0xffff_ffff, node(es, r), r.0 != 0,
    ensures
        right_at(es, len, pos_of(es, len, r), r), 0 <= pos_of(es, len, r) <= len,
        settled(l.edges@, cm, mode, stops_list(es, pos_of(es, len, r)), r),
        l.edges@[r.0 as int].left_edge is Some,
        ({ let a = l.edges@[r.0 as int].left_edge->0;
            node(es, a) && left_at(es, pos_of(es, len, r), a) && rank(es, len, a) < rank(es, len, r) && adjacent(es, len, a, r) && a.0 != 1
            && l.edges@[r.0 as int].path_cost == l.edges@[r.0 as int].word_entry.word_cost + via(l.edges@, cm, mode, a, r) }),
        forall|a: EdgeId| #[trigger] left_at(es, pos_of(es, len, r), a) ==> l.edges@[r.0 as int].path_cost <= l.edges@[r.0 as int].word_entry.word_cost + via(l.edges@, cm, mode, a, r)
{
    let p = pos_of(es, len, r);
    assert(right_at(es, len, p, r));
    lemma_lists(es, len, p);
    let rs = starts_list(es, len, p);
    let ls = stops_list(es, p);
    assert(rs.contains(r));
    let j = choose|j: int| 0 <= j < rs.len() && rs[j] == r;
    assert(settled(l.edges@, cm, mode, ls, rs[j]));
    let m = choose|m: int| #[trigger] cheapest(l.edges@, cm, mode, ls, r, m) && l.edges@[r.0 as int].left_edge == Some(ls[m])
        && l.edges@[r.0 as int].path_cost == l.edges@[r.0 as int].word_entry.word_cost + via(l.edges@, cm, mode, ls[m], r);
    assert(left_at(es, p, ls[m]));
    assert forall|a: EdgeId| #[trigger] left_at(es, p, a) implies via(l.edges@, cm, mode, ls[m], r) <= via(l.edges@, cm, mode, a, r) by {
        assert(ls.contains(a));
        let k = choose|k: int| 0 <= k < ls.len() && ls[k] == a;
        assert(via(l.edges@, cm, mode, ls[m], r) <= via(l.edges@, cm, mode, ls[k], r));
    }
}
pub open spec fn analysed(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode) -> bool {
    costed(l, es, len, cm, mode) && within(es, len) && es.len() + 2 <= 0xffff_ffff
}
pub proof fn lemma_costed_len(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode)
    requires costed(l, es, len, cm, mode),
    ensures l.edges@.len() == es.len() + 2
{}
pub proof fn lemma_bos(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode)
    requires costed(l, es, len, cm, mode),
    ensures l.edges@[0].left_edge is None
{}
@item fn lindera-core/src/viterbi.rs Lattice::tokens_offset
@attr #[verifier::spinoff_prover]
@ty offsets Vec<(usize, WordId)>
@spec
  requires exists|es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode| analysed(*self, es, len, cm, mode),
  ensures exists|p: Seq<EdgeId>| #[trigger] back_path(self.edges@, p) && r@ == toks(self.edges@, p)
@at start
  hide(costed); hide(within); hide(settled); hide(left_at); hide(right_at); hide(via);
  let ghost (es, len, cm, mode) = choose|es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode| analysed(*self, es, len, cm, mode);
  let ghost e = self.edges@;
  let ghost mut seen: Seq<EdgeId> = Seq::empty();
  proof { lemma_costed_len(*self, es, len, cm, mode); }
@loop 0
  invariant_except_break
    node(es, edge_id),
    offsets@.len() == seen.len(), seen.len() == 0 ==> edge_id.0 == 1, seen.len() > 0 ==> seen[0].0 == 1 && e[seen.last().0 as int].left_edge == Some(edge_id),
    forall|i: int| 0 <= i < seen.len() ==> offsets@[i] == tok(e, #[trigger] seen[i]),
    forall|i: int| 0 < i < seen.len() ==> #[trigger] fwd_at(e, seen, i)
  invariant
    e == self.edges@, e.len() == es.len() + 2, analysed(*self, es, len, cm, mode)
  ensures
    seen.len() > 0, seen[0].0 == 1, e[seen.last().0 as int].left_edge == Some(EdgeId(0)), offsets@.len() == seen.len(),
    forall|i: int| 0 <= i < seen.len() ==> offsets@[i] == tok(e, #[trigger] seen[i]),
    forall|i: int| 0 < i < seen.len() ==> #[trigger] fwd_at(e, seen, i)
  decreases rank(es, len, edge_id)
@at loop 0 body_start
  proof {
    if edge_id.0 != 0 { lemma_settled(*self, es, len, cm, mode, edge_id); }
    else { lemma_bos(*self, es, len, cm, mode); }
  }
@at assign edge_id 0 before
  let ghost was = seen;
  proof { seen = seen.push(edge_id); }
@at assign edge_id 0 after
  proof {
    assert forall|i: int| 0 < i < seen.len() implies #[trigger] fwd_at(e, seen, i) by {
      if i == was.len() { assert(seen[i - 1] == was.last()); } else { assert(fwd_at(e, was, i)); assert(seen[i] == was[i]); assert(seen[i - 1] == was[i - 1]); }
    }
  }
@at loop 0 after
  let ghost raw = offsets@;
@at tail
  proof {
    let n = seen.len() as int;
    let p = Seq::new((n + 1) as nat, |i: int| if i == 0 { EdgeId(0) } else { seen[n - i] });
    assert forall|i: int| 0 < i < p.len() implies #[trigger] back_at(e, p, i) by {
      if i > 1 { assert(fwd_at(e, seen, n - i + 1)); } else { assert(p[i] == seen.last()); }
    }
    assert(back_path(self.edges@, p));
    assert forall|i: int| 0 <= i < n - 1 implies vx_ret@[i] == tok(e, p[i + 1]) by {
      assert(vx_ret@[i] == raw[n - 1 - i]);
      assert(raw[n - 1 - i] == tok(e, seen[n - 1 - i]));
    }
    assert(vx_ret@ =~= toks(self.edges@, p));
  }
@end
// C01: the returned path takes the text apart without gap or overlap
pub open spec fn start_of(es: Seq<Edge>, id: EdgeId) -> int { es[id.0 - 2].start_index as int }
pub open spec fn stop_of(es: Seq<Edge>, id: EdgeId) -> int { es[id.0 - 2].stop_index as int }
pub open spec fn candidate(es: Seq<Edge>, id: EdgeId) -> bool { 2 <= id.0 && id.0 < es.len() + 2 }
pub proof fn lemma_back_node(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>, i: int)
    requires analysed(l, es, len, cm, mode), back_path(l.edges@, p), 0 <= i < p.len(),
    ensures
        i == p.len() - 1 ==> p[i].0 == 1,
        i < p.len() - 1 ==> node(es, p[i]) && p[i].0 != 1 && adj_at(es, len, p, i + 1) && left_at(es, pos_of(es, len, p[i + 1]), p[i]) && p[i + 1].0 != 0,
        i > 0 ==> p[i].0 != 0 && node(es, p[i])
    decreases p.len() - i
{
    if i < p.len() - 1 {
        lemma_back_node(l, es, len, cm, mode, p, i + 1);
        assert(back_at(l.edges@, p, i + 1));
        assert(node(es, p[i + 1]));
        lemma_settled(l, es, len, cm, mode, p[i + 1]);
    }
    if i > 0 {
        assert(back_at(l.edges@, p, i));
        lemma_bos(l, es, len, cm, mode);
    }
}
pub proof fn c01_partition(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>)
    requires analysed(l, es, len, cm, mode), back_path(l.edges@, p),
    ensures
        is_path(es, len, p), p.len() >= 3,
        forall|i: int| 0 < i < p.len() - 1 ==> candidate(es, #[trigger] p[i]) && start_of(es, p[i]) < stop_of(es, p[i]),
        start_of(es, p[1]) == 0, stop_of(es, p[p.len() - 2]) == len,
        forall|i: int| 0 < i < p.len() - 2 ==> stop_of(es, #[trigger] p[i]) == start_of(es, p[i + 1]),
        // the reported offsets are the starts of these candidates, the reported words are theirs
        forall|i: int| 0 <= i < p.len() - 2 ==> (#[trigger] toks(l.edges@, p)[i]).0 == start_of(es, p[i + 1]) && toks(l.edges@, p)[i].1 == es[p[i + 1].0 - 2].word_entry.word_id,
{
    let n = p.len() as int;
    assert forall|i: int| 0 < i < n implies #[trigger] adj_at(es, len, p, i) by { lemma_back_node(l, es, len, cm, mode, p, i - 1); }
    assert forall|i: int| 0 < i < n - 1 implies candidate(es, #[trigger] p[i]) && start_of(es, p[i]) < stop_of(es, p[i]) && stop_of(es, p[i]) == pos_of(es, len, p[i + 1]) by {
        lemma_back_node(l, es, len, cm, mode, p, i);
    }
    lemma_back_node(l, es, len, cm, mode, p, 0);
    lemma_back_node(l, es, len, cm, mode, p, 1);
    lemma_back_node(l, es, len, cm, mode, p, n - 2);
    assert(pos_of(es, len, p[1]) == 0);
    if n == 2 { assert(p[1].0 == 1); assert(len == 0); }
    assert forall|i: int| 0 < i < n - 2 implies stop_of(es, #[trigger] p[i]) == start_of(es, p[i + 1]) by { assert(candidate(es, p[i + 1])); }
    assert(candidate(es, p[n - 2]));
    assert forall|i: int| 0 <= i < n - 2 implies (#[trigger] toks(l.edges@, p)[i]).0 == start_of(es, p[i + 1]) && toks(l.edges@, p)[i].1 == es[p[i + 1].0 - 2].word_entry.word_id by {
        assert(candidate(es, p[i + 1]));
        assert(same_word(l.edges@[p[i + 1].0 as int], nodes(es)[p[i + 1].0 as int]));
    }
}
// C02: no way to analyse the text is cheaper
pub proof fn lemma_at_most(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, q: Seq<EdgeId>, n: int)
    requires analysed(l, es, len, cm, mode), is_path(es, len, q), 0 <= n < q.len(),
    ensures l.edges@[q[n].0 as int].path_cost <= total(es, cm, mode, q, n), node(es, q[n])
    decreases n
{
    if n > 0 {
        lemma_at_most(l, es, len, cm, mode, q, n - 1);
        assert(adj_at(es, len, q, n));
        let pos = choose|pos: int| 0 <= pos <= len && #[trigger] left_at(es, pos, q[n - 1]) && right_at(es, len, pos, q[n]);
        assert(pos == pos_of(es, len, q[n]));
        lemma_settled(l, es, len, cm, mode, q[n]);
        assert(same_word(l.edges@[q[n].0 as int], nodes(es)[q[n].0 as int]));
        assert(same_word(l.edges@[q[n - 1].0 as int], nodes(es)[q[n - 1].0 as int]));
    }
}
pub proof fn lemma_exact(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>, n: int)
    requires analysed(l, es, len, cm, mode), back_path(l.edges@, p), 0 <= n < p.len(),
    ensures l.edges@[p[n].0 as int].path_cost == total(es, cm, mode, p, n)
    decreases n
{
    if n > 0 {
        lemma_exact(l, es, len, cm, mode, p, n - 1);
        lemma_back_node(l, es, len, cm, mode, p, n);
        lemma_back_node(l, es, len, cm, mode, p, n - 1);
        assert(back_at(l.edges@, p, n));
        lemma_settled(l, es, len, cm, mode, p[n]);
        assert(same_word(l.edges@[p[n].0 as int], nodes(es)[p[n].0 as int]));
        assert(same_word(l.edges@[p[n - 1].0 as int], nodes(es)[p[n - 1].0 as int]));
    }
}
pub proof fn c02_minimal(l: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>, q: Seq<EdgeId>)
    requires analysed(l, es, len, cm, mode), back_path(l.edges@, p), is_path(es, len, q),
    ensures is_path(es, len, p), total(es, cm, mode, p, p.len() - 1) <= total(es, cm, mode, q, q.len() - 1)
{
    c01_partition(l, es, len, cm, mode, p);
    lemma_exact(l, es, len, cm, mode, p, p.len() - 1);
    lemma_at_most(l, es, len, cm, mode, q, q.len() - 1);
}
// C03: the dictionary candidates at a position are exactly the entries of the words that begin the remaining text
pub proof fn c03_known(p: PrefixDict, s: Seq<char>, w: Seq<char>, e: WordEntry, i: int)
    requires word_keys(p), blen(s) < 0x7fff_ffff, w.len() > 0, w.len() <= s.len(), s.take(w.len() as int) == w,
        is_key(p, utf8(w)), 0 <= i < entries(p, p.da.map()[utf8(w)]).len(), e == entries(p, p.da.map()[utf8(w)])[i],
    ensures found_in(p, s).contains((blen(w) as usize, e))
{
    lemma_utf8_len(w); lemma_utf8_len(s); lemma_bound(s, w.len() as int); lemma_blen_pos(w);
    lemma_utf8_cat(w, s.skip(w.len() as int));
    assert(w + s.skip(w.len() as int) =~= s);
    assert(utf8(s).take(utf8(w).len() as int) =~= utf8(w));
    lemma_found_has(p, utf8(s), blen(w) as int, utf8(s).len() as int, i);
}
pub proof fn lemma_found_has(p: PrefixDict, bs: Seq<u8>, m: int, l: int, i: int)
    requires 1 <= m <= l <= bs.len(), is_key(p, bs.take(m)), 0 <= i < entries(p, p.da.map()[bs.take(m)]).len(),
    ensures found_upto(p, bs, l).contains((m as usize, entries(p, p.da.map()[bs.take(m)])[i]))
    decreases l
{
    let x = (m as usize, entries(p, p.da.map()[bs.take(m)])[i]);
    let a = found_upto(p, bs, l - 1);
    if l == m {
        let b = with_len(l, entries(p, p.da.map()[bs.take(l)]));
        assert((a + b)[a.len() + i] == x);
    } else {
        lemma_found_has(p, bs, m, l - 1, i);
        let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
        assert(found_upto(p, bs, l)[j] == x);
    }
}
pub proof fn c03_only_known(p: PrefixDict, s: Seq<char>, l: int, j: int)
    requires word_keys(p), blen(s) < 0x7fff_ffff, 0 <= l <= utf8(s).len(), 0 <= j < found_upto(p, utf8(s), l).len(),
    ensures ({
        let f = found_upto(p, utf8(s), l)[j];
        let w = s.take(cidx(s, f.0 as int));
        is_key(p, utf8(w)) && blen(w) == f.0 && entries(p, p.da.map()[utf8(w)]).contains(f.1)
    })
    decreases l
{
    let bs = utf8(s);
    lemma_utf8_len(s);
    if l > 0 {
        let a = found_upto(p, bs, l - 1);
        if j < a.len() { c03_only_known(p, s, l - 1, j); assert(found_upto(p, bs, l)[j] == a[j]); }
        else {
            let k = bs.take(l);
            let es = entries(p, p.da.map()[k]);
            let w = choose|w: Seq<char>| k == #[trigger] utf8(w) && w.len() > 0;
            lemma_prefix(w, s);
            lemma_bound(s, w.len() as int);
            assert(found_upto(p, bs, l)[j] == (l as usize, es[j - a.len()]));
            assert(s.take(cidx(s, l)) == w);
        }
    }
}
// C04: what was analysed before leaves no trace: the candidates, the costs and the links decide the path
pub proof fn lemma_same(a: Lattice, b: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, r: EdgeId)
    requires analysed(a, es, len, cm, mode), analysed(b, es, len, cm, mode), node(es, r),
    ensures a.edges@[r.0 as int].path_cost == b.edges@[r.0 as int].path_cost, a.edges@[r.0 as int].left_edge == b.edges@[r.0 as int].left_edge
    decreases rank(es, len, r)
{
    if r.0 != 0 {
        let p = pos_of(es, len, r);
        let ls = stops_list(es, p);
        lemma_settled(a, es, len, cm, mode, r);
        lemma_settled(b, es, len, cm, mode, r);
        lemma_lists(es, len, p);
        assert forall|j: int| 0 <= j < ls.len() implies via(a.edges@, cm, mode, #[trigger] ls[j], r) == via(b.edges@, cm, mode, ls[j], r) by {
            let l = ls[j];
            assert(left_at(es, p, l));
            lemma_same(a, b, es, len, cm, mode, l);
            assert(same_word(a.edges@[l.0 as int], nodes(es)[l.0 as int]));
            assert(same_word(b.edges@[l.0 as int], nodes(es)[l.0 as int]));
            assert(same_word(a.edges@[r.0 as int], nodes(es)[r.0 as int]));
            assert(same_word(b.edges@[r.0 as int], nodes(es)[r.0 as int]));
        }
        assert(same_word(a.edges@[r.0 as int], nodes(es)[r.0 as int]));
        assert(same_word(b.edges@[r.0 as int], nodes(es)[r.0 as int]));
        let m = choose|m: int| #[trigger] cheapest(a.edges@, cm, mode, ls, r, m) && a.edges@[r.0 as int].left_edge == Some(ls[m])
            && a.edges@[r.0 as int].path_cost == a.edges@[r.0 as int].word_entry.word_cost + via(a.edges@, cm, mode, ls[m], r);
        let n = choose|n: int| #[trigger] cheapest(b.edges@, cm, mode, ls, r, n) && b.edges@[r.0 as int].left_edge == Some(ls[n])
            && b.edges@[r.0 as int].path_cost == b.edges@[r.0 as int].word_entry.word_cost + via(b.edges@, cm, mode, ls[n], r);
        assert(via(a.edges@, cm, mode, ls[m], r) == via(b.edges@, cm, mode, ls[m], r));
        assert(via(a.edges@, cm, mode, ls[n], r) == via(b.edges@, cm, mode, ls[n], r));
        if m < n { assert(via(b.edges@, cm, mode, ls[n], r) < via(b.edges@, cm, mode, ls[m], r)); }
        if n < m { assert(via(a.edges@, cm, mode, ls[m], r) < via(a.edges@, cm, mode, ls[n], r)); }
    }
}
// the two back paths agree counted from the end
pub proof fn lemma_same_back(a: Lattice, b: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>, q: Seq<EdgeId>, k: int)
    requires analysed(a, es, len, cm, mode), analysed(b, es, len, cm, mode), back_path(a.edges@, p), back_path(b.edges@, q), 0 <= k < p.len(),
    ensures k < q.len(), p[p.len() - 1 - k] == q[q.len() - 1 - k]
    decreases k
{
    if k > 0 {
        lemma_same_back(a, b, es, len, cm, mode, p, q, k - 1);
        let r = p[p.len() - k];
        lemma_back_node(a, es, len, cm, mode, p, p.len() - k);
        lemma_same(a, b, es, len, cm, mode, r);
        assert(back_at(a.edges@, p, p.len() - k));
        if k == q.len() { lemma_bos(b, es, len, cm, mode); assert(q[0].0 == 0); }
        assert(back_at(b.edges@, q, q.len() - k));
    }
}
pub proof fn c04_same_tokens(a: Lattice, b: Lattice, es: Seq<Edge>, len: int, cm: ConnectionCostMatrix, mode: Mode, p: Seq<EdgeId>, q: Seq<EdgeId>)
    requires analysed(a, es, len, cm, mode), analysed(b, es, len, cm, mode), back_path(a.edges@, p), back_path(b.edges@, q),
    ensures toks(a.edges@, p) == toks(b.edges@, q)
{
    lemma_same_back(a, b, es, len, cm, mode, p, q, p.len() - 1);
    lemma_same_back(b, a, es, len, cm, mode, q, p, q.len() - 1);
    assert forall|i: int| 0 <= i < p.len() - 2 implies toks(a.edges@, p)[i] == toks(b.edges@, q)[i] by {
        lemma_same_back(a, b, es, len, cm, mode, p, q, p.len() - 2 - i);
        lemma_back_node(a, es, len, cm, mode, p, i + 1);
        let r = p[i + 1];
        assert(same_word(a.edges@[r.0 as int], nodes(es)[r.0 as int]));
        assert(same_word(b.edges@[r.0 as int], nodes(es)[r.0 as int]));
    }
    assert(toks(a.edges@, p) =~= toks(b.edges@, q));
}
// what set_text leaves behind is ready for the path search
pub proof fn lemma_ready(x: Ctx, t: Seq<char>)
    requires ctx_ok(x), t.len() > 0, blen(t) < 0x7fff_ffff,
    ensures within(all_edges(x, t), blen(t) as int)
{
    let len = blen(t) as int;
    lemma_blen_pos(t);
    lemma_lat(x, t, len);
    let st = lat(x, t, len);
    let p = choose|p: int| #[trigger] reach_at(x, st, t, len, p);
    assert(p == len);
    assert forall|k: int| 0 <= k < st.es.len() implies (#[trigger] st.es[k]).start_index < st.es[k].stop_index <= len by { assert(edge_ok(st.es[k], t)); }
}
// ---- the whole analysis --------------------------------------------------------------------------------
@item struct lindera-core/src/dictionary.rs Dictionary
@end
@item struct lindera-core/src/dictionary.rs UserDictionary
@end
@item struct lindera-tokenizer/src/token.rs Token
@end
@item struct lindera-tokenizer/src/tokenizer.rs Tokenizer
@end
@item fn lindera-tokenizer/src/token.rs Token::new
@spec
  ensures r == (Token { text, details: None, byte_start: start, byte_end: end, position, position_length: 1, word_id, dictionary, user_dictionary })
@end
// trusted: the derived Default of Lattice
#[verifier::external_body]
pub fn vx_lattice_default() -> (r: Lattice) ensures r.capacity == 0, r.edges@.len() == 0, r.starts_at@.len() == 0, r.ends_at@.len() == 0 { unimplemented!() }
// trusted: str::split_inclusive ends a piece after every separator
pub open spec fn cut(s: Seq<char>, d: Seq<char>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if d.contains(s[i]) { i + 1 } else { cut(s, d, i + 1) }
}
pub open spec fn sents(s: Seq<char>, d: Seq<char>) -> Seq<Seq<char>> decreases s.len() via sents_dec {
    if s.len() == 0 { Seq::empty() } else { seq![s.take(cut(s, d, 0))] + sents(s.skip(cut(s, d, 0)), d) }
}
#[via_fn]
proof fn sents_dec(s: Seq<char>, d: Seq<char>) { if s.len() > 0 { lemma_cut(s, d, 0); } }
pub proof fn lemma_cut(s: Seq<char>, d: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures i < cut(s, d, i) <= s.len()
    decreases s.len() - i
{
    reveal_with_fuel(cut, 2);
    if !d.contains(s[i]) && i + 1 < s.len() { lemma_cut(s, d, i + 1); }
}
#[verifier::external_body]
pub fn vx_split_inclusive<'a, const N: usize>(s: &'a str, d: &[char; N]) -> (r: Vec<&'a str>)
    ensures r@.len() == sents(s@, d@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == sents(s@, d@)[i]
{ s.split_inclusive(d).collect() }
pub open spec fn delims() -> Seq<char> { seq!['。', '、', '\n', '\t'] }
pub open spec fn joined(ss: Seq<Seq<char>>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { joined(ss, k - 1) + ss[k - 1] } }
pub open spec fn base(ss: Seq<Seq<char>>, k: int) -> int decreases k { if k <= 0 { 0 } else { base(ss, k - 1) + blen(ss[k - 1]) } }
pub proof fn lemma_joined_shift(a: Seq<char>, ss: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ss.len(),
    ensures joined(seq![a] + ss, k + 1) == a + joined(ss, k)
    decreases k
{
    let t = seq![a] + ss;
    if k > 0 {
        lemma_joined_shift(a, ss, k - 1);
        assert(t[k] == ss[k - 1]);
        assert(joined(t, k + 1) =~= a + joined(ss, k));
    } else { assert(joined(t, 1) =~= joined(t, 0) + t[0]); assert(joined(t, 1) =~= a + joined(ss, 0)); }
}
// the sentences are non-empty and make up the text
pub proof fn lemma_sents(s: Seq<char>, d: Seq<char>)
    ensures joined(sents(s, d), sents(s, d).len() as int) == s, forall|i: int| 0 <= i < sents(s, d).len() ==> (#[trigger] sents(s, d)[i]).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_cut(s, d, 0);
        let k = cut(s, d, 0);
        let r = sents(s.skip(k), d);
        lemma_sents(s.skip(k), d);
        lemma_joined_shift(s.take(k), r, r.len() as int);
        assert(s.take(k) + s.skip(k) =~= s);
        assert forall|i: int| 0 <= i < sents(s, d).len() implies (#[trigger] sents(s, d)[i]).len() > 0 by { if i > 0 { assert(sents(s, d)[i] == r[i - 1]); } }
    } else { assert(joined(sents(s, d), 0) =~= s); }
}
pub proof fn lemma_base(ss: Seq<Seq<char>>, k: int)
    requires 0 <= k <= ss.len(),
    ensures base(ss, k) == blen(joined(ss, k)), base(ss, k) >= 0
    decreases k
{
    if k > 0 { lemma_base(ss, k - 1); lemma_blen_cat(joined(ss, k - 1), ss[k - 1]); }
}
pub proof fn lemma_base_mono(ss: Seq<Seq<char>>, j: int, k: int)
    requires 0 <= j <= k,
    ensures base(ss, j) <= base(ss, k)
    decreases k - j
{
    if j < k { lemma_base_mono(ss, j, k - 1); }
}
// the words of the cheapest analysis of a sentence
pub open spec fn is_best(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>, ts: Seq<(usize, WordId)>) -> bool {
    exists|l: Lattice, p: Seq<EdgeId>| analysed(l, all_edges(x, s), blen(s) as int, cm, mode) && #[trigger] back_path(l.edges@, p) && ts == toks(l.edges@, p)
}
pub open spec fn best(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>) -> Seq<(usize, WordId)> { choose|ts: Seq<(usize, WordId)>| is_best(x, cm, mode, s, ts) }
pub open spec fn sent_fits(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>, c: int) -> bool {
    &&& blen(s) < 0x7fff_ffff && all_edges(x, s).len() + 2 <= 0xffff_ffff
    &&& pen_room(all_edges(x, s), mode, c, blen(s) as int) && cells_ok(all_edges(x, s), cm)
}
pub open spec fn fits(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, t: Seq<char>, c: int) -> bool {
    ctx_ok(x) && blen(t) < 0x7fff_ffff_ffff_ffff && forall|i: int| 0 <= i < sents(t, delims()).len() ==> sent_fits(x, cm, mode, #[trigger] sents(t, delims())[i], c)
}
pub ghost struct TV { pub text: Seq<char>, pub start: int, pub end: int, pub word: WordId }
pub open spec fn tok_end(s: Seq<char>, ts: Seq<(usize, WordId)>, i: int) -> int { if i == ts.len() - 1 { blen(s) as int } else { ts[i + 1].0 as int } }
pub open spec fn sent_tv(s: Seq<char>, ts: Seq<(usize, WordId)>, b: int, i: int) -> TV {
    TV { text: s.subrange(cidx(s, ts[i].0 as int), cidx(s, tok_end(s, ts, i))), start: b + ts[i].0, end: b + tok_end(s, ts, i), word: ts[i].1 }
}
pub open spec fn sent_tvs(s: Seq<char>, ts: Seq<(usize, WordId)>, b: int) -> Seq<TV> { Seq::new(ts.len(), |i: int| sent_tv(s, ts, b, i)) }
pub open spec fn flat(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, ss: Seq<Seq<char>>, k: int) -> Seq<TV> decreases k {
    if k <= 0 { Seq::empty() } else { flat(x, cm, mode, ss, k - 1) + sent_tvs(ss[k - 1], best(x, cm, mode, ss[k - 1]), base(ss, k - 1)) }
}
// what the analyser says about a text
pub open spec fn analysis(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, t: Seq<char>) -> Seq<TV> { flat(x, cm, mode, sents(t, delims()), sents(t, delims()).len() as int) }
pub open spec fn good_cut(s: Seq<char>, ts: Seq<(usize, WordId)>) -> bool {
    &&& ts.len() > 0 && ts[0].0 == 0
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] cut_at(s, ts, i)
}
pub open spec fn cut_at(s: Seq<char>, ts: Seq<(usize, WordId)>, i: int) -> bool {
    ts[i].0 < tok_end(s, ts, i) <= blen(s) && bound(s, ts[i].0 as int) && bound(s, tok_end(s, ts, i))
}
pub proof fn lemma_best(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>, l: Lattice, p: Seq<EdgeId>)
    requires analysed(l, all_edges(x, s), blen(s) as int, cm, mode), back_path(l.edges@, p), ctx_ok(x), blen(s) < 0x7fff_ffff,
    ensures toks(l.edges@, p) == best(x, cm, mode, s), is_best(x, cm, mode, s, toks(l.edges@, p)), good_cut(s, toks(l.edges@, p))
{
    let ts = toks(l.edges@, p);
    let es = all_edges(x, s);
    let len = blen(s) as int;
    assert(is_best(x, cm, mode, s, ts));
    let us = best(x, cm, mode, s);
    let (m, q) = choose|m: Lattice, q: Seq<EdgeId>| analysed(m, es, len, cm, mode) && #[trigger] back_path(m.edges@, q) && us == toks(m.edges@, q);
    c04_same_tokens(l, m, es, len, cm, mode, p, q);
    c01_partition(l, es, len, cm, mode, p);
    lemma_lat(x, s, len);
    let n = p.len() - 2;
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] cut_at(s, ts, i) by {
        let a = p[i + 1];
        assert(candidate(es, a));
        assert(ts[i].0 == start_of(es, a));
        assert(edge_ok(es[a.0 - 2], s));
        assert(tok_end(s, ts, i) == stop_of(es, a)) by {
            if i == ts.len() - 1 { assert(a == p[p.len() - 2]); } else { assert(ts[i + 1].0 == start_of(es, p[i + 2])); assert(stop_of(es, a) == start_of(es, p[i + 1 + 1])); }
        }
    }
    assert(ts[0].0 == start_of(es, p[1]));
}
pub open spec fn tok_is(t: Token, v: TV, j: int, tz: Tokenizer) -> bool {
    &&& t.text@ == v.text && t.byte_start == v.start && t.byte_end == v.end && t.word_id == v.word
    &&& t.position == j && t.position_length == 1 && t.details is None
    &&& *t.dictionary == tz.dictionary
    &&& (t.user_dictionary is Some <==> tz.user_dictionary is Some) && (t.user_dictionary is Some ==> *t.user_dictionary->0 == tz.user_dictionary->0)
}
pub open spec fn toks_are(ts: Seq<Token>, vs: Seq<TV>, tz: Tokenizer) -> bool {
    ts.len() == vs.len() && forall|j: int| 0 <= j < ts.len() ==> tok_is(#[trigger] ts[j], vs[j], j, tz)
}
pub open spec fn tz_ctx(tz: Tokenizer) -> Ctx {
    Ctx { dict: tz.dictionary.dict, user: match tz.user_dictionary { Some(d) => Some(d.dict), None => None }, cd: tz.dictionary.char_definitions, ud: tz.dictionary.unknown_dictionary, search: tz.mode is Decompose }
}
pub proof fn lemma_pathable(l: Lattice, x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>, c: int)
    requires rep(l, all_edges(x, s), blen(s) as int), ctx_ok(x), s.len() > 0, sent_fits(x, cm, mode, s, c),
    ensures es_of(l) == all_edges(x, s), pathable(l, cm, mode, blen(s) as int, c)
{
    assert(es_of(l) =~= all_edges(x, s));
    lemma_ready(x, s);
}
pub proof fn lemma_push(ts: Seq<Token>, us: Seq<Token>, vs: Seq<TV>, v: TV, tz: Tokenizer)
    requires toks_are(ts, vs, tz), us.len() == ts.len() + 1, us.drop_last() =~= ts, tok_is(us.last(), v, ts.len() as int, tz),
    ensures toks_are(us, vs.push(v), tz)
{
    assert forall|j: int| 0 <= j < us.len() implies tok_is(#[trigger] us[j], vs.push(v)[j], j, tz) by { if j < ts.len() { assert(us[j] == us.drop_last()[j]); assert(tok_is(ts[j], vs[j], j, tz)); } }
}
// C01 and C02 for every sentence: its words are those of a cheapest path and cover it
pub open spec fn best_at(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, ss: Seq<Seq<char>>, k: int) -> bool {
    is_best(x, cm, mode, ss[k], best(x, cm, mode, ss[k])) && good_cut(ss[k], best(x, cm, mode, ss[k]))
}
pub open spec fn all_best(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, ss: Seq<Seq<char>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] best_at(x, cm, mode, ss, k)
}
// C01: the tokens cover the text without gap or overlap, and each carries the text at its offsets
pub open spec fn tv_at(t: Seq<char>, v: TV, a: int) -> bool {
    v.start == a && a < v.end && bound(t, v.start) && bound(t, v.end) && v.text == t.subrange(cidx(t, v.start), cidx(t, v.end))
}
pub open spec fn cov_at(t: Seq<char>, vs: Seq<TV>, i: int) -> bool { tv_at(t, vs[i], if i == 0 { 0 } else { vs[i - 1].end }) }
pub open spec fn covers(t: Seq<char>, vs: Seq<TV>, end: int) -> bool {
    &&& forall|i: int| 0 <= i < vs.len() ==> #[trigger] cov_at(t, vs, i)
    &&& (if vs.len() == 0 { 0 } else { vs.last().end }) == end
}
pub proof fn lemma_in_text(t: Seq<char>, ss: Seq<Seq<char>>, k: int, a: int)
    requires joined(ss, ss.len() as int) == t, 0 <= k < ss.len(), bound(ss[k], a),
    ensures bound(t, base(ss, k) + a), cidx(t, base(ss, k) + a) == joined(ss, k).len() + cidx(ss[k], a),
        joined(ss, k).len() + ss[k].len() <= t.len(), t.subrange(joined(ss, k).len() as int, (joined(ss, k).len() + ss[k].len()) as int) == ss[k], 0 <= cidx(ss[k], a) <= ss[k].len()
{
    let j = joined(ss, k);
    let s = ss[k];
    lemma_joined_prefix(ss, k + 1, ss.len() as int);
    let q = j + s;
    assert(joined(ss, k + 1) == q);
    lemma_base(ss, k);
    let m = cidx(s, a);
    assert(t.take(j.len() + m) =~= j + s.take(m)) by { assert(t.take(q.len() as int) == q); assert(forall|i: int| 0 <= i < q.len() ==> t[i] == #[trigger] t.take(q.len() as int)[i]); }
    lemma_blen_cat(j, s.take(m));
    lemma_bound(t, (j.len() + m) as int);
    assert(t.take(q.len() as int) == q);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] t.subrange(j.len() as int, (j.len() + s.len()) as int)[i] == s[i] by {
        assert(t.take(q.len() as int)[j.len() + i] == t[j.len() + i]);
        assert(q[j.len() + i] == s[i]);
    }
    assert(t.subrange(j.len() as int, (j.len() + s.len()) as int) =~= s);
}
pub proof fn lemma_joined_prefix(ss: Seq<Seq<char>>, j: int, k: int)
    requires 0 <= j <= k <= ss.len(),
    ensures joined(ss, j).len() <= joined(ss, k).len(), joined(ss, k).take(joined(ss, j).len() as int) == joined(ss, j)
    decreases k - j
{
    if j < k {
        lemma_joined_prefix(ss, j, k - 1);
        let a = joined(ss, k - 1);
        assert((a + ss[k - 1]).take(joined(ss, j).len() as int) =~= a.take(joined(ss, j).len() as int));
    } else { assert(joined(ss, k).take(joined(ss, k).len() as int) =~= joined(ss, k)); }
}
pub proof fn lemma_covers(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, t: Seq<char>, ss: Seq<Seq<char>>, k: int)
    requires all_best(x, cm, mode, ss, ss.len() as int), joined(ss, ss.len() as int) == t, 0 <= k <= ss.len(),
    ensures covers(t, flat(x, cm, mode, ss, k), base(ss, k))
    decreases k
{
    if k > 0 {
        lemma_covers(x, cm, mode, t, ss, k - 1);
        let a = flat(x, cm, mode, ss, k - 1);
        let s = ss[k - 1];
        let ts = best(x, cm, mode, s);
        let b = base(ss, k - 1);
        let vs = sent_tvs(s, ts, b);
        assert(best_at(x, cm, mode, ss, k - 1));
        let f = a + vs;
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] cov_at(t, f, i) by {
            if i < a.len() { assert(cov_at(t, a, i)); if i > 0 { assert(f[i - 1] == a[i - 1]); } }
            else {
                let j = i - a.len();
                let (c, d) = (ts[j].0 as int, tok_end(s, ts, j));
                assert(cut_at(s, ts, j));
                lemma_in_text(t, ss, k - 1, c);
                lemma_in_text(t, ss, k - 1, d);
                lemma_surface(s, c, d);
                let q = joined(ss, k - 1).len() as int;
                assert(f[i] == sent_tv(s, ts, b, j));
                assert(t.subrange(q + cidx(s, c), q + cidx(s, d)) =~= t.subrange(q, q + s.len()).subrange(cidx(s, c), cidx(s, d)));
                if j > 0 { assert(f[i - 1] == sent_tv(s, ts, b, j - 1)); assert(tok_end(s, ts, j - 1) == ts[j].0); } else { if i > 0 { assert(f[i - 1] == a.last()); } }
            }
        }
        assert(f.last() == vs[ts.len() - 1]);
    }
}
pub proof fn c01_text(x: Ctx, cm: ConnectionCostMatrix, mode: Mode, t: Seq<char>)
    requires all_best(x, cm, mode, sents(t, delims()), sents(t, delims()).len() as int),
    ensures covers(t, analysis(x, cm, mode, t), blen(t) as int)
{
    let ss = sents(t, delims());
    lemma_sents(t, delims());
    lemma_base(ss, ss.len() as int);
    lemma_covers(x, cm, mode, t, ss, ss.len() as int);
}
pub proof fn lemma_analysed(l: Lattice, x: Ctx, cm: ConnectionCostMatrix, mode: Mode, s: Seq<char>)
    requires costed(l, all_edges(x, s), blen(s) as int, cm, mode), ctx_ok(x), s.len() > 0, blen(s) < 0x7fff_ffff, all_edges(x, s).len() + 2 <= 0xffff_ffff,
    ensures analysed(l, all_edges(x, s), blen(s) as int, cm, mode), sized(l)
{
    lemma_ready(x, s);
}
pub proof fn lemma_surface(s: Seq<char>, a: int, b: int)
    requires bound(s, a), bound(s, b), a <= b,
    ensures blen(s.subrange(cidx(s, a), cidx(s, b))) == b - a, 0 <= cidx(s, a) <= cidx(s, b) <= s.len()
{
    let (i, j) = (cidx(s, a), cidx(s, b));
    if j < i { lemma_blen_take(s, j, i); }
    lemma_blen_take(s, i, j);
}
@item fn lindera-tokenizer/src/tokenizer.rs Tokenizer::tokenize
@attr #[verifier::spinoff_prover]
@spec
  requires
    exists|c: int| fits(tz_ctx(*self), self.dictionary.cost_matrix, self.mode, text@, c),
  ensures
    r is Ok && toks_are(r->Ok_0@, analysis(tz_ctx(*self), self.dictionary.cost_matrix, self.mode, text@), *self),
    all_best(tz_ctx(*self), self.dictionary.cost_matrix, self.mode, sents(text@, delims()), sents(text@, delims()).len() as int)
@at start
  hide(ctx_ok); hide(rep); hide(lat); hide(pathable); hide(costed); hide(analysed); hide(back_path); hide(toks); hide(best); hide(bound); hide(cidx); hide(pen_room); hide(cells_ok); hide(tok_is); hide(blen); hide(is_best);
  let ghost x = tz_ctx(*self);
  let ghost cm = self.dictionary.cost_matrix;
  let ghost m = self.mode;
  let ghost t = text@;
  let ghost ss = sents(t, delims());
  let ghost c = choose|c: int| fits(x, cm, m, t, c);
  let ghost n = ss.len() as int;
  proof { lemma_sents(t, delims()); lemma_base(ss, n); }
@loop 0
  invariant
    x == tz_ctx(*self), cm == self.dictionary.cost_matrix, m == self.mode, t == text@, ss == sents(t, delims()), n == ss.len(), fits(x, cm, m, t, c),
    forall|i: int| 0 <= i < n ==> (#[trigger] ss[i]).len() > 0, base(ss, n) == blen(t),
    it0.seq().len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] it0.seq()[i])@ == ss[i],
    sized(lattice), byte_position == base(ss, it0.index()), position == tokens@.len(), position <= byte_position,
    toks_are(tokens@, flat(x, cm, m, ss, it0.index()), *self), all_best(x, cm, m, ss, it0.index())
@at loop 0 body_start
  let ghost k = it0.index();
  let ghost s = ss[k];
  let ghost b = base(ss, k);
  let ghost ts0 = tokens@;
  proof {
    assert(it0.seq()[k]@ == s);
    assert(s.len() > 0);
    assert(sent_fits(x, cm, m, s, c));
    lemma_base(ss, k); lemma_base(ss, k + 1); lemma_base_mono(ss, k + 1, n);
    lemma_blen_pos(t); lemma_blen_pos(s);
  }
@at call calculate_path_costs 0 before
  let ghost l1 = lattice;
  proof {
    lemma_pathable(lattice, x, cm, m, s, c);
  }
@at let offsets 0 before
  proof {
    assert(costed(lattice, all_edges(x, s), blen(s) as int, cm, m));
    lemma_analysed(lattice, x, cm, m, s);
  }
@at let offsets 0 after
  let ghost ts = offsets@;
  let ghost vs = sent_tvs(s, ts, b);
  proof {
    let p = choose|p: Seq<EdgeId>| #[trigger] back_path(lattice.edges@, p) && ts == toks(lattice.edges@, p);
    lemma_best(x, cm, m, s, lattice, p);
    assert(flat(x, cm, m, ss, k) + vs.take(0) =~= flat(x, cm, m, ss, k));
  }
@loop 1
  invariant
    ts == offsets@, good_cut(s, ts), sentence@ == s, vs == sent_tvs(s, ts, b), b + blen(s) <= 0x7fff_ffff_ffff_ffff, 0 <= b,
    byte_position == b + (if i < ts.len() { ts[i as int].0 as int } else { blen(s) as int }),
    position == tokens@.len(), position <= byte_position,
    toks_are(tokens@, flat(x, cm, m, ss, k) + vs.take(i as int), *self)
@at loop 1 body_start
  let ghost was = tokens@;
  proof {
    assert(cut_at(s, ts, i as int));
    if i < ts.len() - 1 { assert(cut_at(s, ts, i + 1)); }
    lemma_surface(s, ts[i as int].0 as int, tok_end(s, ts, i as int));
  }
@at loop 1 body_end
  proof {
    assert(tok_is(tokens@.last(), vs[i as int], was.len() as int, *self)) by { reveal(tok_is); }
    lemma_push(was, tokens@, flat(x, cm, m, ss, k) + vs.take(i as int), vs[i as int], *self);
    assert((flat(x, cm, m, ss, k) + vs.take(i as int)).push(vs[i as int]) =~= flat(x, cm, m, ss, k) + vs.take(i + 1));
  }
@at loop 1 after
  proof {
    assert(vs.take(vs.len() as int) =~= vs);
    assert(flat(x, cm, m, ss, k + 1) == flat(x, cm, m, ss, k) + vs);
    assert(best_at(x, cm, m, ss, k));
  }
@end
} // verus!
fn main() {}
