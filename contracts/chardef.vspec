@unit chardef
@include prelude.inc
@include str.inc
@include text.inc
@include fsrules.inc
@type Algorithm => u8
@call bincode::serialize_into => vx_bin_write
@call CharacterDefinitionsBuilder::default => vx_builder_default
@type HashMap<String, CategoryId> => VxMap
@type BTreeSet<u32> => Vec<u32>
@type LookupTable<CategoryId> => LookupTable
@type LookupTable<T> => LookupTable
@type Vec<T> => Vec<CategoryId>
@type Vec<Vec<T>> => Vec<Vec<CategoryId>>
@type &[T] => &[CategoryId]
@method contains => vx_contains
@method sort_unstable => vx_sort_u32
@method binary_search => vx_binary_search
@method split_whitespace => vx_ws_split
@method parse::<u32> => fn vx_parse_u32
@method trim => vx_trim
@method starts_with => vx_starts_with
verus! {
@item const lindera-core/src/character_definition.rs DEFAULT_CATEGORY_NAME
@end
@item struct lindera-core/src/character_definition.rs CategoryData derive(Clone, Copy)
@end
@item struct lindera-core/src/character_definition.rs CategoryId derive(Clone, Copy)
@end
@item struct lindera-core/src/character_definition.rs LookupTable
@impl LookupTable
@end
@item struct lindera-core/src/character_definition.rs CharacterDefinitions
@end
@item struct lindera-core/src/character_definition.rs CharacterDefinitionsBuilder
@end
// ---- trusted glue ------------------------------------------------------------------------------
pub trait VxContains<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.vx_seq().contains(*x); }
impl VxContains<u32> for Vec<u32> { open spec fn vx_seq(&self) -> Seq<u32> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &u32) -> (r: bool) { self.contains(x) } }
impl VxContains<CategoryId> for Vec<CategoryId> { open spec fn vx_seq(&self) -> Seq<CategoryId> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &CategoryId) -> (r: bool) { unimplemented!() } }
pub open spec fn increasing(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn distinct(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub trait VxU32s { spec fn vx_u(&self) -> Seq<u32>;
    fn vx_sort_u32(&mut self)
        ensures forall|x: u32| final(self).vx_u().contains(x) <==> old(self).vx_u().contains(x), distinct(old(self).vx_u()) ==> increasing(final(self).vx_u()), final(self).vx_u().len() == old(self).vx_u().len();
    fn vx_binary_search(&self, t: &u32) -> (r: Result<usize, usize>)
        requires increasing(self.vx_u()),
        ensures match r { Ok(i) => i < self.vx_u().len() && self.vx_u()[i as int] == *t,
            Err(i) => i <= self.vx_u().len() && (forall|k: int| 0 <= k < i ==> self.vx_u()[k] < *t) && (forall|k: int| i <= k < self.vx_u().len() ==> self.vx_u()[k] > *t) };
}
impl VxU32s for Vec<u32> { open spec fn vx_u(&self) -> Seq<u32> { self@ }
    #[verifier::external_body] fn vx_sort_u32(&mut self) { self.sort_unstable() }
    #[verifier::external_body] fn vx_binary_search(&self, t: &u32) -> (r: Result<usize, usize>) { self.binary_search(t) }
}
// collecting into a BTreeSet and iterating it: the distinct elements in increasing order
#[verifier::external_body]
pub fn vx_btree_into_vec(v: Vec<u32>) -> (r: Vec<u32>)
    ensures increasing(r@), forall|x: u32| r@.contains(x) <==> v@.contains(x) { let mut v = v; v.sort(); v.dedup(); v }
// HashMap<String, CategoryId>
#[verifier::external_body]
pub struct VxMap { m: std::collections::HashMap<String, CategoryId> }
impl View for VxMap { type V = Map<Seq<char>, CategoryId>; uninterp spec fn view(&self) -> Map<Seq<char>, CategoryId>; }
pub open spec fn listed(m: Map<Seq<char>, CategoryId>, e: Seq<(String, CategoryId)>, x: Seq<char>) -> bool {
    exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0@ == x && e[k].1 == m[x]
}
impl VxMap {
    pub uninterp spec fn size(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.size(), r < 0x7fff_ffff_ffff_ffff /* each entry occupies memory */ { self.m.len() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&CategoryId>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { self.m.get(k) }
    #[verifier::external_body]
    pub fn vx_get_or_insert(&mut self, k: String, v: CategoryId) -> (r: CategoryId)
        ensures
            old(self)@.contains_key(k@) ==> r == old(self)@[k@] && final(self)@ == old(self)@ && final(self).size() == old(self).size(),
            !old(self)@.contains_key(k@) ==> r == v && final(self)@ == old(self)@.insert(k@, v) && final(self).size() == old(self).size() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(String, CategoryId)>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> self@.contains_key(#[trigger] r@[k].0@) && self@[r@[k].0@] == r@[k].1,
            forall|x: Seq<char>| #[trigger] self@.contains_key(x) ==> listed(self@, r@, x) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_tail<'a, 'b>(v: &'b Vec<&'a str>) -> (r: &'b [&'a str]) requires v@.len() >= 1, ensures r@ == v@.skip(1) { unimplemented!() }
// text
pub uninterp spec fn ws_split(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn aws_split(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn dots_split(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn hex_of(s: Seq<char>) -> Option<int>;
pub uninterp spec fn utf16_char(cp: int) -> Option<char>;
pub trait VxStrExt {
    spec fn vx_c(&self) -> Seq<char>;
    fn vx_ws_split(&self) -> (r: Vec<&str>) ensures strs(r@) == ws_split(self.vx_c());
    fn vx_aws_split(&self) -> (r: Vec<&str>) ensures strs(r@) == aws_split(self.vx_c());
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vx_c()), r@.len() > 0 ==> ws_split(r@).len() > 0;
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == (p@.len() <= self.vx_c().len() && self.vx_c().take(p@.len() as int) == p@);
    fn vx_before(&self, c: char) -> (r: &str) ensures r@ == split_on(self.vx_c(), c)[0];
    fn vx_dots(&self) -> (r: Vec<&str>) ensures strs(r@) == dots_split(self.vx_c()), r@.len() >= 1;
}
impl VxStrExt for str {
    open spec fn vx_c(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ws_split(&self) -> (r: Vec<&str>) { self.split_whitespace().collect() }
    #[verifier::external_body] fn vx_aws_split(&self) -> (r: Vec<&str>) { self.split_ascii_whitespace().collect() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn vx_before(&self, c: char) -> (r: &str) { self.split(c).next().unwrap() }
    #[verifier::external_body] fn vx_dots(&self) -> (r: Vec<&str>) { self.split("..").collect() }
}
#[verifier::external_body]
pub fn vx_hex16(s: &str) -> (r: Result<u16, LinderaError>)
    ensures r is Ok <==> hex_of(s@) is Some && 0 <= hex_of(s@).unwrap() < 65536, r is Ok ==> r->Ok_0 as int == hex_of(s@).unwrap() { unimplemented!() }
// the UTF-16 unit read as a character (the replacement character for a surrogate)
#[verifier::external_body]
pub fn vx_utf16(cp: u16) -> (r: Vec<char>) ensures utf16_char(cp as int) is Some <==> r@.len() == 1, r@.len() == 1 ==> r@[0] == utf16_char(cp as int).unwrap() && r@[0] as u32 <= 0xffff { unimplemented!() }

// ---- what a definition means --------------------------------------------------------------------
pub struct Range { pub ghost lo: int, pub ghost hi: int, pub ghost cats: Seq<Seq<char>> }
pub struct Flags { pub ghost invoke: bool, pub ghost group: bool, pub ghost length: int }
// cats: the categories in order of first mention
pub struct Def { pub ghost cats: Seq<Seq<char>>, pub ghost ranges: Seq<Range>, pub ghost flags: Map<Seq<char>, Flags> }
pub open spec fn mention(cats: Seq<Seq<char>>, x: Seq<char>) -> Seq<Seq<char>> { if cats.contains(x) { cats } else { cats.push(x) } }
pub open spec fn mention_all(cats: Seq<Seq<char>>, xs: Seq<Seq<char>>) -> Seq<Seq<char>> decreases xs.len() {
    if xs.len() == 0 { cats } else { mention(mention_all(cats, xs.drop_last()), xs.last()) }
}
pub open spec fn point(s: Seq<char>) -> int { utf16_char(hex_of(s).unwrap()).unwrap() as int }
pub open spec fn range_of(l: Seq<char>) -> Range {
    let f = ws_split(l);
    let b = dots_split(f[0]);
    Range { lo: point(b[0]), hi: point(b.last()), cats: f.skip(1) }
}
pub open spec fn flags_of(f: Seq<Seq<char>>) -> Flags {
    Flags { invoke: num_of(f[1]) == Some(1int), group: num_of(f[2]) == Some(1int), length: num_of(f[3]).unwrap() }
}
pub open spec fn step(d: Def, line: Seq<char>) -> Def {
    let l = trimmed(split_on(line, '#')[0]);
    if l.len() == 0 { d }
    else if l.len() >= 2 && l.take(2) == "0x"@ { range_step(d, l) }
    else { cat_step(d, l) }
}
pub open spec fn range_step(d: Def, l: Seq<char>) -> Def {
    Def { cats: mention_all(d.cats, range_of(l).cats), ranges: d.ranges.push(range_of(l)), flags: d.flags }
}
pub open spec fn cat_step(d: Def, l: Seq<char>) -> Def {
    let f = aws_split(l);
    Def { cats: mention(d.cats, f[0]), ranges: d.ranges, flags: d.flags.insert(f[0], flags_of(f)) }
}
pub open spec fn steps(d: Def, lines: Seq<Seq<char>>) -> Def decreases lines.len() {
    if lines.len() == 0 { d } else { step(steps(d, lines.drop_last()), lines.last()) }
}
pub open spec fn in_range(r: Range, c: int) -> bool { r.lo <= c <= r.hi }
// the categories of a character: those of all ranges that contain it, in order, without repetition
pub open spec fn collect(rs: Seq<Range>, c: int) -> Seq<Seq<char>> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() }
    else if in_range(rs.last(), c) { mention_all(collect(rs.drop_last(), c), rs.last().cats) }
    else { collect(rs.drop_last(), c) }
}
pub open spec fn cats_of(d: Def, c: int) -> Seq<Seq<char>> {
    let s = collect(d.ranges, c);
    if s.len() == 0 && d.cats.contains("DEFAULT"@) { seq!["DEFAULT"@] } else { s }
}
// ---- how the builder represents it ---------------------------------------------------------------
pub open spec fn nodup(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn named(cats: Seq<Seq<char>>, ids: Seq<CategoryId>, names: Seq<Seq<char>>) -> bool {
    ids.len() == names.len() && forall|j: int| 0 <= j < ids.len() ==> (#[trigger] ids[j]).0 < cats.len() && cats[ids[j].0 as int] == names[j]
}
pub open spec fn index_ok(m: VxMap, cats: Seq<Seq<char>>) -> bool {
    &&& nodup(cats) && m.size() == cats.len() && cats.len() <= 0x7fff_ffff_ffff_ffff
    &&& forall|x: Seq<char>| #[trigger] m@.contains_key(x) ==> m@[x].0 < cats.len() && cats[m@[x].0 as int] == x
    &&& forall|i: int| 0 <= i < cats.len() ==> m@.contains_key(#[trigger] cats[i]) && m@[cats[i]].0 == i
}
pub open spec fn range_ok(r: (u32, u32, Vec<CategoryId>), s: Range, cats: Seq<Seq<char>>) -> bool {
    r.0 as int == s.lo && r.1 as int == s.hi && r.1 <= 0xffff && named(cats, r.2@, s.cats)
}
pub open spec fn flags_ok(d: Seq<CategoryData>, i: int, f: Flags) -> bool {
    0 <= i < d.len() && d[i].invoke == f.invoke && d[i].group == f.group && d[i].length as int == f.length
}
pub open spec fn flags_at(d: Seq<Option<CategoryData>>, i: int, f: Flags) -> bool {
    0 <= i < d.len() && d[i] is Some && d[i]->0.invoke == f.invoke && d[i]->0.group == f.group && d[i]->0.length as int == f.length
}
// every category mentioned is defined
pub open spec fn all_defined(d: Def) -> bool { forall|i: int| 0 <= i < d.cats.len() ==> d.flags.contains_key(#[trigger] d.cats[i]) }
pub open spec fn rep(b: CharacterDefinitionsBuilder, d: Def) -> bool {
    &&& index_ok(b.category_index, d.cats)
    &&& b.char_ranges@.len() == d.ranges.len()
    &&& forall|k: int| 0 <= k < d.ranges.len() ==> range_ok(#[trigger] b.char_ranges@[k], d.ranges[k], d.cats)
    &&& forall|x: Seq<char>| #[trigger] d.flags.contains_key(x) ==> b.category_index@.contains_key(x) && flags_at(b.category_definition@, b.category_index@[x].0 as int, d.flags[x])
    &&& b.category_definition@.len() <= d.cats.len()
    &&& forall|i: int| 0 <= i < b.category_definition@.len() && (#[trigger] b.category_definition@[i]) is Some ==> d.flags.contains_key(d.cats[i])
}
pub proof fn lemma_mention_prefix(cats: Seq<Seq<char>>, xs: Seq<Seq<char>>)
    ensures mention_all(cats, xs).len() >= cats.len(), forall|i: int| 0 <= i < cats.len() ==> mention_all(cats, xs)[i] == cats[i],
        nodup(cats) ==> nodup(mention_all(cats, xs))
    decreases xs.len()
{
    if xs.len() > 0 { lemma_mention_prefix(cats, xs.drop_last()); }
}
@item fn lindera-core/src/character_definition.rs ucs2_to_unicode
@replace LittleEndian::write_u16(&mut buf[..], ucs2_codepoint); ==>
@replace let s = UTF_16LE.decode(&buf[..]).0.into_owned(); ==>
@replace s.chars().collect() ==> vx_utf16(ucs2_codepoint)
@spec
  ensures
    r is Ok <==> utf16_char(ucs2_codepoint as int) is Some,
    r is Ok ==> r->Ok_0 as int == utf16_char(ucs2_codepoint as int).unwrap() as int && r->Ok_0 <= 0xffff
@end
@item fn lindera-core/src/character_definition.rs parse_hex_codepoint
@replace let removed_0x = s.trim_start_matches("0x"); ==>
@replace u16::from_str_radix(removed_0x, 16) ==> vx_hex16(s)
@spec
  ensures r is Ok ==> r->Ok_0 as int == point(s@) && r->Ok_0 <= 0xffff
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::category_id
@replace *self.category_index.entry($$k).or_insert($$v) ==> self.category_index.vx_get_or_insert($k, $v)
@spec
  ensures
    final(self).category_definition == old(self).category_definition, final(self).char_ranges == old(self).char_ranges,
    forall|cats: Seq<Seq<char>>| #[trigger] index_ok(old(self).category_index, cats) ==> {
        let c2 = mention(cats, category_name@);
        index_ok(final(self).category_index, c2) && r.0 < c2.len() && c2[r.0 as int] == category_name@
    },
    final(self).category_index@.contains_key(category_name@), final(self).category_index@[category_name@] == r,
    forall|x: Seq<char>| #[trigger] old(self).category_index@.contains_key(x) ==> final(self).category_index@.contains_key(x) && final(self).category_index@[x] == old(self).category_index@[x],
@at tail
  proof {
    assert forall|cats: Seq<Seq<char>>| #[trigger] index_ok(old(self).category_index, cats) implies {
        let c2 = mention(cats, category_name@);
        index_ok(self.category_index, c2) && vx_ret.0 < c2.len() && c2[vx_ret.0 as int] == category_name@
    } by {
        if old(self).category_index@.contains_key(category_name@) {
            assert(cats[old(self).category_index@[category_name@].0 as int] == category_name@);
        } else {
            if cats.contains(category_name@) { let i = cats.index_of(category_name@); assert(old(self).category_index@.contains_key(cats[i])); }
            let c2 = cats.push(category_name@);
            assert forall|i: int| 0 <= i < c2.len() implies self.category_index@.contains_key(#[trigger] c2[i]) && self.category_index@[c2[i]].0 == i by {
                if i < cats.len() { assert(c2[i] == cats[i]); assert(old(self).category_index@.contains_key(cats[i])); }
            }
        }
    }
  }
@end

// ids of the categories of one character
pub open spec fn lookup_ok(d: Def, c: int, ids: Seq<CategoryId>) -> bool { named(d.cats, ids, cats_of(d, c)) }
pub proof fn lemma_named_contains(cats: Seq<Seq<char>>, ids: Seq<CategoryId>, names: Seq<Seq<char>>, id: CategoryId)
    requires named(cats, ids, names), nodup(cats), id.0 < cats.len(),
    ensures ids.contains(id) <==> names.contains(cats[id.0 as int])
{
    if ids.contains(id) { let j = ids.index_of(id); assert(names[j] == cats[id.0 as int]); }
    if names.contains(cats[id.0 as int]) {
        let j = names.index_of(cats[id.0 as int]);
        assert(cats[ids[j].0 as int] == cats[id.0 as int]);
        assert(ids[j].0 == id.0);
        assert(ids[j] == id);
    }
}
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::lookup_categories
@spec
  ensures forall|d: Def| #[trigger] rep(*self, d) ==> lookup_ok(d, c as int, final(categories_buffer)@)
@at loop 0 before
  let ghost rs = self.char_ranges@;
@loop 0
  invariant
    rs == self.char_ranges@, it0.seq().len() == rs.len(), forall|k: int| 0 <= k < rs.len() ==> *#[trigger] it0.seq()[k] == rs[k],
    forall|d: Def| #[trigger] rep(*self, d) ==> named(d.cats, categories_buffer@, collect(d.ranges.take(it0.index() as int), c as int)),
@at loop 0 body_start
  let ghost i = it0.index() as int;
  proof { assert(forall|d: Def| #[trigger] rep(*self, d) ==> d.ranges.take(i + 1).drop_last() =~= d.ranges.take(i)); }
@at loop 1 before
  let ghost ids = category_ids@;
  proof {
    assert forall|d: Def| #[trigger] rep(*self, d) implies
      mention_all(collect(d.ranges.take(i), c as int), d.ranges[i].cats.take(0)) == collect(d.ranges.take(i), c as int) by {}
  }
@loop 1
  invariant
    0 <= i < rs.len(), rs == self.char_ranges@, ids == rs[i].2@, ids == category_ids@,
    it1.seq().len() == ids.len(), forall|k: int| 0 <= k < ids.len() ==> *#[trigger] it1.seq()[k] == ids[k],
    forall|d: Def| #[trigger] rep(*self, d) ==> named(d.cats, categories_buffer@, mention_all(collect(d.ranges.take(i), c as int), d.ranges[i].cats.take(it1.index() as int)))
@at loop 1 body_start
  let ghost j = it1.index() as int;
  let ghost buf0 = categories_buffer@;
@at loop 1 body_end
  proof {
    assert forall|d: Def| #[trigger] rep(*self, d) implies
      named(d.cats, categories_buffer@, mention_all(collect(d.ranges.take(i), c as int), d.ranges[i].cats.take(j + 1))) by {
      assert(range_ok(rs[i], d.ranges[i], d.cats));
      assert(d.ranges[i].cats.take(j + 1).drop_last() =~= d.ranges[i].cats.take(j));
      assert(d.cats[ids[j].0 as int] == d.ranges[i].cats[j]);
      lemma_named_contains(d.cats, buf0, mention_all(collect(d.ranges.take(i), c as int), d.ranges[i].cats.take(j)), ids[j]);
    }
  }
@at loop 1 after
  proof {
    assert forall|d: Def| #[trigger] rep(*self, d) implies
      d.ranges[i].cats.take(ids.len() as int) == d.ranges[i].cats by {
      assert(range_ok(rs[i], d.ranges[i], d.cats));
      assert(d.ranges[i].cats.take(ids.len() as int) =~= d.ranges[i].cats);
    }
  }
@at loop 0 body_end
  proof {
    assert forall|d: Def| #[trigger] rep(*self, d) implies
      named(d.cats, categories_buffer@, collect(d.ranges.take(i + 1), c as int)) by {
      assert(range_ok(rs[i], d.ranges[i], d.cats));
    }
  }
@at loop 0 after
  proof { assert(forall|d: Def| #[trigger] rep(*self, d) ==> d.ranges.take(rs.len() as int) =~= d.ranges); }
@at end
  proof {
    assert forall|d: Def| #[trigger] rep(*self, d) implies lookup_ok(d, c as int, categories_buffer@) by {
      if collect(d.ranges, c as int).len() == 0 {
        if d.cats.contains("DEFAULT"@) { let k = d.cats.index_of("DEFAULT"@); assert(self.category_index@.contains_key(d.cats[k])); }
      }
    }
  }
@end
// the table of a definition: entry i holds the categories of every character from boundary i up to the next one
pub open spec fn table_wf(t: LookupTable) -> bool {
    &&& increasing(t.boundaries@) && t.boundaries@.len() == t.values@.len()
    &&& t.boundaries@.contains(0)
}
pub open spec fn slot(t: LookupTable, i: int, c: int) -> bool {
    &&& 0 <= i < t.boundaries@.len() && t.boundaries@[i] <= c
    &&& (i + 1 < t.boundaries@.len() ==> c < t.boundaries@[i + 1])
}
@item fn lindera-core/src/character_definition.rs LookupTable::eval
@impl impl LookupTable
@spec
  requires table_wf(*self),
  ensures exists|i: int| #[trigger] slot(*self, i, target as int) && r@ == self.values@[i]@
@at start
  let ghost bs = self.boundaries@;
  proof { let z = bs.index_of(0); }
@at tail
  proof {
    assert(slot(*self, idx as int, target as int));
    assert(vx_ret@ =~= self.values@[idx as int]@);
  }
@end
@item fn lindera-core/src/character_definition.rs LookupTable::from_fn
@impl impl LookupTable
@sig (mut boundaries: Vec<u32>, funct: &CharacterDefinitionsBuilder) -> (r: LookupTable)
@replace funct($$a) ==> funct.lookup_categories($a)
@replace Vec::default() ==> Vec::new()
@ty values Vec<Vec<CategoryId>>
@ty output Vec<CategoryId>
@spec
  requires increasing(boundaries@),
  ensures
    table_wf(r), forall|x: u32| boundaries@.contains(x) ==> r.boundaries@.contains(x),
    forall|d: Def| #[trigger] rep(*funct, d) ==> forall|i: int| 0 <= i < r.values@.len() ==> lookup_ok(d, r.boundaries@[i] as int, #[trigger] r.values@[i]@)
@at start
  let ghost b0 = boundaries@;
@at call vx_sort_u32 0 before
  proof {
    assert(b0.contains(0) ==> boundaries@ == b0);
    if !b0.contains(0) {
      assert(boundaries@ =~= b0.push(0));
      assert forall|x: u32| b0.contains(x) implies boundaries@.contains(x) by { let k = b0.index_of(x); assert(boundaries@[k] == x); }
      assert(boundaries@[b0.len() as int] == 0);
    }
    assert(distinct(boundaries@));
  }
@at loop 0 before
  let ghost bs = boundaries@;
@loop 0
  invariant
    bs == boundaries@, it0.seq().len() == bs.len(), forall|k: int| 0 <= k < bs.len() ==> *#[trigger] it0.seq()[k] == bs[k],
    values@.len() == it0.index(),
    forall|d: Def| #[trigger] rep(*funct, d) ==> forall|i: int| 0 <= i < values@.len() ==> lookup_ok(d, bs[i] as int, #[trigger] values@[i]@)
@end
pub open spec fn bounds_ok(bs: Seq<u32>, rs: Seq<(u32, u32, Vec<CategoryId>)>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> bs.contains((#[trigger] rs[k]).0) && bs.contains((rs[k].1 + 1) as u32)
}
pub open spec fn ranges_small(rs: Seq<(u32, u32, Vec<CategoryId>)>) -> bool { forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).1 <= 0xffff }
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::build_lookup_table
@replace boundaries_set.into_iter().collect() ==> vx_btree_into_vec(boundaries_set)
@replace &|c, buff| self.lookup_categories(c, buff) ==> self
@ty vxc1 Vec<u32>
@spec
  requires ranges_small(self.char_ranges@),
  ensures
    table_wf(r), bounds_ok(r.boundaries@, self.char_ranges@, self.char_ranges@.len() as int),
    forall|d: Def| #[trigger] rep(*self, d) ==> forall|i: int| 0 <= i < r.values@.len() ==> lookup_ok(d, r.boundaries@[i] as int, #[trigger] r.values@[i]@)
@loop 0
  invariant
    ranges_small(self.char_ranges@),
    it0.seq().len() == self.char_ranges@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *#[trigger] it0.seq()[k] == self.char_ranges@[k],
    bounds_ok(vxc1@, self.char_ranges@, it0.index() as int)
@at loop 0 body_start
  let ghost old_c = vxc1@;
  let ghost i = it0.index() as int;
  proof { assert(self.char_ranges@[i].1 <= 0xffff); }
@at loop 0 body_end
  proof {
    let a = self.char_ranges@[i].0;
    let b = (self.char_ranges@[i].1 + 1) as u32;
    assert(vxc1@ =~= old_c.push(a).push(b));
    assert(vxc1@[old_c.len() as int] == a && vxc1@[old_c.len() as int + 1] == b);
    assert forall|x: u32| old_c.contains(x) implies vxc1@.contains(x) by { let k = old_c.index_of(x); assert(vxc1@[k] == x); }
  }
@at let boundaries 0 before
  let ghost vs = boundaries_set@;
@at let boundaries 0 after
  proof {
    assert(bounds_ok(vs, self.char_ranges@, self.char_ranges@.len() as int));
    assert(bounds_ok(boundaries@, self.char_ranges@, self.char_ranges@.len() as int));
  }
@end
// ---- parsing -------------------------------------------------------------------------------------
pub open spec fn rep_at(b: CharacterDefinitionsBuilder, d: Def, n: int) -> bool { rep(b, d) && d.cats.len() <= n }
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::parse_range
@replace fields[0].split("..").collect() ==> fields[0].vx_dots()
@replace line.split_whitespace().collect() ==> line.vx_ws_split()
@replace fields[1..].iter() ==> vx_tail(&fields).iter()
@ty vxc1 Vec<CategoryId>
@spec
  requires ws_split(line@).len() >= 1,
  ensures
    r is Ok ==> forall|d: Def| #[trigger] rep(*old(self), d) ==> rep(*final(self), range_step(d, line@))
@at let category_ids 0 before
  let ghost s0 = *self;
  let ghost names = ws_split(line@).skip(1);
  proof {
    assert(strs(fields@)[0] == fields@[0]@);
    assert(strs(range_bounds@)[0] == range_bounds@[0]@);
    assert(range_bounds@.len() == 2 ==> strs(range_bounds@)[1] == range_bounds@[1]@);
    assert forall|d: Def| #[trigger] rep(s0, d) implies mention_all(d.cats, names.take(0)) == d.cats by {}
  }
@loop 0
  invariant
    names == ws_split(line@).skip(1), it0.seq().len() == names.len(), forall|k: int| 0 <= k < names.len() ==> (*#[trigger] it0.seq()[k])@ == names[k],
    self.char_ranges == s0.char_ranges, self.category_definition == s0.category_definition,
    forall|x: Seq<char>| #[trigger] s0.category_index@.contains_key(x) ==> self.category_index@.contains_key(x) && self.category_index@[x] == s0.category_index@[x],
    forall|d: Def| #[trigger] rep(s0, d) ==> {
      let c = mention_all(d.cats, names.take(it0.index() as int));
      index_ok(self.category_index, c) && named(c, vxc1@, names.take(it0.index() as int))
    }
@at loop 0 body_start
  let ghost j = it0.index() as int;
  let ghost v0 = vxc1@;
@at loop 0 body_end
  proof {
    assert forall|d: Def| #[trigger] rep(s0, d) implies {
      let c = mention_all(d.cats, names.take(j + 1));
      index_ok(self.category_index, c) && named(c, vxc1@, names.take(j + 1))
    } by {
      let c = mention_all(d.cats, names.take(j));
      let c2 = mention_all(d.cats, names.take(j + 1));
      assert(names.take(j + 1).drop_last() =~= names.take(j));
      assert(c2 == mention(c, names[j]));
      assert forall|k: int| 0 <= k < vxc1@.len() implies (#[trigger] vxc1@[k]).0 < c2.len() && c2[vxc1@[k].0 as int] == names.take(j + 1)[k] by {
        if k < j { assert(vxc1@[k] == v0[k]); assert(c[v0[k].0 as int] == names.take(j)[k]); }
      }
    }
  }
@at call push 1 after
  proof {
    assert forall|d: Def| #[trigger] rep(s0, d) implies rep(*self, range_step(d, line@)) by {
      let d2 = range_step(d, line@);
      assert(names.take(names.len() as int) =~= names);
      lemma_mention_prefix(d.cats, names);
      assert(range_of(line@).cats == names);
      assert forall|k: int| 0 <= k < d2.ranges.len() implies range_ok(#[trigger] self.char_ranges@[k], d2.ranges[k], d2.cats) by {
        if k < d.ranges.len() {
          assert(range_ok(s0.char_ranges@[k], d.ranges[k], d.cats));
          let r = s0.char_ranges@[k];
          assert forall|q: int| 0 <= q < r.2@.len() implies (#[trigger] r.2@[q]).0 < d2.cats.len() && d2.cats[r.2@[q].0 as int] == d.ranges[k].cats[q] by {
            assert(d.cats[r.2@[q].0 as int] == d.ranges[k].cats[q]);
          }
        }
      }
    }
  }
@end

@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::parse_category
@replace line.split_ascii_whitespace().collect::<Vec<&str>>() ==> line.vx_aws_split()
@spec
  requires exists|d: Def| #[trigger] rep(*old(self), d),
  ensures
    r is Ok ==> forall|d: Def| #[trigger] rep(*old(self), d) ==> rep(*final(self), cat_step(d, line@))
@at let invoke 0 before
  proof {
    assert(strs(fields@)[0] == fields@[0]@ && strs(fields@)[1] == fields@[1]@ && strs(fields@)[2] == fields@[2]@ && strs(fields@)[3] == fields@[3]@);
  }
@at end
  proof {
    assert forall|d: Def| #[trigger] rep(*old(self), d) implies rep(*self, cat_step(d, line@)) by {
      let d2 = cat_step(d, line@);
      let name = fields@[0]@;
      let s0 = *old(self);
      assert(d2.cats == mention(d.cats, name));
      assert forall|k: int| 0 <= k < d2.ranges.len() implies range_ok(#[trigger] self.char_ranges@[k], d2.ranges[k], d2.cats) by {
        assert(range_ok(s0.char_ranges@[k], d.ranges[k], d.cats));
        let r = s0.char_ranges@[k];
        assert forall|q: int| 0 <= q < r.2@.len() implies (#[trigger] r.2@[q]).0 < d2.cats.len() && d2.cats[r.2@[q].0 as int] == d.ranges[k].cats[q] by {
          assert(d.cats[r.2@[q].0 as int] == d.ranges[k].cats[q]);
        }
      }
      assert forall|x: Seq<char>| #[trigger] d2.flags.contains_key(x) implies self.category_index@.contains_key(x) && flags_at(self.category_definition@, self.category_index@[x].0 as int, d2.flags[x]) by {
        if x != name {
          assert(d.flags.contains_key(x));
          let i = s0.category_index@[x].0 as int;
          assert(self.category_index@[x].0 == i);
          assert(d2.cats[i] == x);
          assert(i != index);
        }
      }
      assert(d2.cats.len() >= d.cats.len() && forall|i: int| 0 <= i < d.cats.len() ==> d2.cats[i] == d.cats[i]);
      assert(index < d2.cats.len() && d2.cats[index as int] == name);
      assert(self.category_definition@.len() <= d2.cats.len());
      assert forall|i: int| 0 <= i < self.category_definition@.len() && (#[trigger] self.category_definition@[i]) is Some implies d2.flags.contains_key(d2.cats[i]) by {
        if i != index {
          assert(i < s0.category_definition@.len());
          assert(s0.category_definition@[i] is Some);
        }
      }
    }
  }
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::parse
@replace content.lines() ==> vx_lines(content)
@replace line.split('#').next() ==> Some(line.vx_before('#'))
@spec
  requires exists|d: Def| #[trigger] rep(*old(self), d),
  ensures
    r is Ok ==> forall|d: Def| #[trigger] rep(*old(self), d) ==> rep(*final(self), steps(d, lines_of(content@))) && all_defined(steps(d, lines_of(content@)))
@at loop 0 before
  let ghost dd = choose|d: Def| #[trigger] rep(*old(self), d);
  let ghost ls = lines_of(content@);
@loop 0
  invariant
    ls == lines_of(content@), strs(it0.seq()) == ls, rep(*old(self), dd),
    forall|d: Def| #[trigger] rep(*old(self), d) ==> rep(*self, steps(d, ls.take(it0.index() as int)))
@at loop 0 body_start
  let ghost i = it0.index() as int;
  let ghost s1 = *self;
  proof {
    reveal_strlit("0x");
    assert("0x"@.len() == 2);
    assert(line@ == strs(it0.seq())[i]);
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
  }
@at loop 0 body_end
  proof {
    assert forall|d: Def| #[trigger] rep(*old(self), d) implies rep(*self, steps(d, ls.take(i + 1))) by {
      let e = steps(d, ls.take(i));
      assert(rep(s1, e));
      assert(rep(*self, step(e, line@)));
    }
  }
@at loop 0 after
  proof { assert(ls.take(ls.len() as int) =~= ls); }
@loop 1
  invariant_except_break
    !vxb1, forall|k: int| 0 <= k < it1.index() ==> (#[trigger] self.category_definition@[k]) is Some
  invariant
    it1.seq().len() == self.category_definition@.len(), forall|k: int| 0 <= k < it1.seq().len() ==> *(#[trigger] it1.seq()[k]) == self.category_definition@[k]
  ensures
    !vxb1 ==> forall|k: int| 0 <= k < self.category_definition@.len() ==> (#[trigger] self.category_definition@[k]) is Some
@at tail
  proof {
    if vx_ret is Ok {
      assert forall|d: Def| #[trigger] rep(*old(self), d) implies all_defined(steps(d, ls)) by {
        let e = steps(d, ls);
        assert(rep(*self, e));
        assert forall|i: int| 0 <= i < e.cats.len() implies e.flags.contains_key(#[trigger] e.cats[i]) by { assert(self.category_definition@[i] is Some); }
      }
    }
  }
@end

// ---- the finished definitions --------------------------------------------------------------------
pub open spec fn table_ok(t: LookupTable, d: Def) -> bool {
    &&& table_wf(t)
    &&& forall|k: int| 0 <= k < d.ranges.len() ==> t.boundaries@.contains((#[trigger] d.ranges[k]).lo as u32) && t.boundaries@.contains((d.ranges[k].hi + 1) as u32)
            && 0 <= d.ranges[k].lo < 4294967296 && 0 <= d.ranges[k].hi <= 0xffff
    &&& forall|i: int| 0 <= i < t.values@.len() ==> lookup_ok(d, t.boundaries@[i] as int, #[trigger] t.values@[i]@)
}
pub open spec fn defs_ok(c: CharacterDefinitions, d: Def) -> bool {
    &&& nodup(d.cats) && c.category_names@.len() == d.cats.len()
    &&& forall|i: int| 0 <= i < d.cats.len() ==> (#[trigger] c.category_names@[i])@ == d.cats[i]
    &&& c.category_definitions@.len() == d.cats.len()
    &&& forall|i: int| 0 <= i < d.cats.len() ==> d.flags.contains_key(#[trigger] d.cats[i]) && flags_ok(c.category_definitions@, i, d.flags[d.cats[i]])
    &&& table_ok(c.mapping, d)
}
pub proof fn lemma_table(b: CharacterDefinitionsBuilder, t: LookupTable, d: Def)
    requires rep(b, d), table_wf(t), bounds_ok(t.boundaries@, b.char_ranges@, b.char_ranges@.len() as int),
        forall|i: int| 0 <= i < t.values@.len() ==> lookup_ok(d, t.boundaries@[i] as int, #[trigger] t.values@[i]@)
    ensures table_ok(t, d)
{
    assert forall|k: int| 0 <= k < d.ranges.len() implies t.boundaries@.contains((#[trigger] d.ranges[k]).lo as u32) && t.boundaries@.contains((d.ranges[k].hi + 1) as u32)
            && 0 <= d.ranges[k].lo < 4294967296 && 0 <= d.ranges[k].hi <= 0xffff by {
        assert(range_ok(b.char_ranges@[k], d.ranges[k], d.cats));
    }
}
pub proof fn lemma_collect_same(rs: Seq<Range>, a: int, c: int)
    requires forall|k: int| 0 <= k < rs.len() ==> in_range(#[trigger] rs[k], a) == in_range(rs[k], c)
    ensures collect(rs, a) == collect(rs, c)
    decreases rs.len()
{
    if rs.len() > 0 {
        assert(in_range(rs[rs.len() - 1], a) == in_range(rs[rs.len() - 1], c));
        assert forall|k: int| 0 <= k < rs.drop_last().len() implies in_range(#[trigger] rs.drop_last()[k], a) == in_range(rs.drop_last()[k], c) by { assert(rs.drop_last()[k] == rs[k]); }
        lemma_collect_same(rs.drop_last(), a, c);
    }
}
// between two neighbouring boundaries every character has the same categories
pub proof fn lemma_slot(t: LookupTable, d: Def, i: int, c: int)
    requires table_ok(t, d), slot(t, i, c), c < 4294967296,
    ensures lookup_ok(d, c, t.values@[i]@)
{
    let a = t.boundaries@[i] as int;
    assert forall|k: int| 0 <= k < d.ranges.len() implies in_range(#[trigger] d.ranges[k], a) == in_range(d.ranges[k], c) by {
        let lo = d.ranges[k].lo as u32;
        let hi = (d.ranges[k].hi + 1) as u32;
        let x = t.boundaries@.index_of(lo);
        let y = t.boundaries@.index_of(hi);
        assert(t.boundaries@[x] == lo && t.boundaries@[y] == hi);
        if x > i { assert(i + 1 <= x); if i + 1 < x { } assert(t.boundaries@[i + 1] <= lo); } else { assert(lo <= a); }
        if y > i { assert(t.boundaries@[i + 1] <= hi); } else { assert(hi <= a); }
    }
    lemma_collect_same(d.ranges, a, c);
    assert(lookup_ok(d, a, t.values@[i]@));
}
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::categories
@spec
  ensures r@ == self.category_names@
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::lookup_definition
@spec
  requires category_id.0 < self.category_definitions@.len(),
  ensures *r == self.category_definitions@[category_id.0 as int]
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::category_name
@spec
  requires category_id.0 < self.category_names@.len(),
  ensures r@ == self.category_names@[category_id.0 as int]@
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitions::lookup_categories
@spec
  requires table_wf(self.mapping),
  ensures forall|d: Def| #[trigger] table_ok(self.mapping, d) ==> lookup_ok(d, c as int, r@)
@at tail
  proof {
    let i = choose|i: int| #[trigger] slot(self.mapping, i, c as int) && vx_ret@ == self.mapping.values@[i]@;
    assert forall|d: Def| #[trigger] table_ok(self.mapping, d) implies lookup_ok(d, c as int, vx_ret@) by { lemma_slot(self.mapping, d, i, c as int); }
  }
@end
@item fn lindera-core/src/character_definition.rs CharacterDefinitionsBuilder::build
@replace in &self.category_index ==> in vx_es.iter()
@ty vxc1 Vec<String>
@spec
  requires exists|d: Def| #[trigger] rep(self, d) && all_defined(d),
  ensures forall|d: Def| #[trigger] rep(self, d) && all_defined(d) ==> defs_ok(r, d)
@at start
  let vx_es = self.category_index.vx_entries();
  let ghost s0 = self;
  let ghost dd = choose|d: Def| #[trigger] rep(self, d) && all_defined(d);
  let ghost es = vx_es@;
  let ghost n = s0.category_index.size();
@loop 0
  invariant vxc1@.len() == it0.index(), n == s0.category_index.size(), it0.seq().len() == n
@at loop 1 before
  let ghost nn = category_names@.len();
  proof { assert(nn == n); }
@loop 1
  invariant
    rep(s0, dd), s0 == self, nn == dd.cats.len(), category_names@.len() == nn, es == vx_es@,
    it1.seq().len() == es.len(), forall|k: int| 0 <= k < es.len() ==> *#[trigger] it1.seq()[k] == es[k],
    forall|k: int| 0 <= k < es.len() ==> s0.category_index@.contains_key(#[trigger] es[k].0@) && s0.category_index@[es[k].0@] == es[k].1,
    forall|k: int| 0 <= k < it1.index() ==> category_names@[(#[trigger] es[k]).1.0 as int]@ == es[k].0@
@at loop 1 body_start
  let ghost k1 = it1.index() as int;
  let ghost c0 = category_names@;
  proof { let x = es[k1].0@; assert(s0.category_index@.contains_key(x)); assert(dd.cats[s0.category_index@[x].0 as int] == x); }
@at loop 1 body_end
  proof {
    assert forall|k: int| 0 <= k < k1 + 1 implies category_names@[(#[trigger] es[k]).1.0 as int]@ == es[k].0@ by {
      let x = es[k].0@;
      assert(s0.category_index@.contains_key(x)); assert(dd.cats[s0.category_index@[x].0 as int] == x);
    }
  }
@ty vxc5 Vec<CategoryData>
@loop 2
  invariant
    vxc5@.len() == it2.index(), it2.seq() == s0.category_definition@,
    forall|k: int| 0 <= k < it2.seq().len() ==> (#[trigger] it2.seq()[k]) is Some,
    forall|k: int| 0 <= k < it2.index() ==> #[trigger] vxc5@[k] == s0.category_definition@[k]->0
@at tail
  proof {
    assert forall|d: Def| #[trigger] rep(s0, d) && all_defined(d) implies defs_ok(vx_ret, d) by {
      lemma_table(s0, mapping, d);
      assert(d.cats.len() == nn);
      if d.cats.len() > 0 {
        let i = d.cats.len() - 1;
        assert(d.flags.contains_key(d.cats[i]));
        assert(s0.category_index@.contains_key(d.cats[i]));
      }
      assert forall|i: int| 0 <= i < d.cats.len() implies (#[trigger] category_names@[i])@ == d.cats[i] by {
        assert(s0.category_index@.contains_key(d.cats[i]));
        assert(listed(s0.category_index@, es, d.cats[i]));
        let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0@ == d.cats[i] && es[k].1 == s0.category_index@[d.cats[i]];
        assert(es[k].1.0 == i);
      }
      assert forall|i: int| 0 <= i < d.cats.len() implies d.flags.contains_key(#[trigger] d.cats[i]) && flags_ok(vx_ret.category_definitions@, i, d.flags[d.cats[i]]) by {
        assert(s0.category_index@.contains_key(d.cats[i]));
      }
    }
  }
@at let mapping 0 before
  proof {
    assert forall|k: int| 0 <= k < s0.char_ranges@.len() implies (#[trigger] s0.char_ranges@[k]).1 <= 0xffff by { assert(range_ok(s0.char_ranges@[k], dd.ranges[k], dd.cats)); }
    assert forall|k: int| 0 <= k < s0.category_definition@.len() implies (#[trigger] s0.category_definition@[k]) is Some by {
      assert(dd.flags.contains_key(dd.cats[k]));
      assert(s0.category_index@.contains_key(dd.cats[k]));
    }
  }
@end
// C10: the reported categories are those of the ranges containing the character, each once, DEFAULT exactly otherwise
pub proof fn lemma_mention_all(cats: Seq<Seq<char>>, xs: Seq<Seq<char>>, x: Seq<char>)
    ensures mention_all(cats, xs).contains(x) <==> cats.contains(x) || xs.contains(x)
    decreases xs.len()
{
    if xs.len() > 0 {
        let p = mention_all(cats, xs.drop_last());
        lemma_mention_all(cats, xs.drop_last(), x);
        let m = mention(p, xs.last());
        if xs.contains(x) {
            let k = xs.index_of(x);
            if k < xs.len() - 1 { assert(xs.drop_last()[k] == x); }
        }
        if p.contains(x) { let k = p.index_of(x); assert(m[k] == x); }
        if x == xs.last() {
            assert(xs[xs.len() - 1] == x);
            if !p.contains(x) { assert(m[p.len() as int] == x); }
        }
        if m.contains(x) && !p.contains(x) { let k = m.index_of(x); assert(k == p.len()); }
        if xs.drop_last().contains(x) { let k = xs.drop_last().index_of(x); assert(xs[k] == x); }
    }
}
pub open spec fn some_range(rs: Seq<Range>, c: int, x: Seq<char>) -> bool {
    exists|k: int| 0 <= k < rs.len() && in_range(#[trigger] rs[k], c) && rs[k].cats.contains(x)
}
pub proof fn lemma_collect(rs: Seq<Range>, c: int, x: Seq<char>)
    ensures collect(rs, c).contains(x) <==> some_range(rs, c, x), nodup(collect(rs, c))
    decreases rs.len()
{
    if rs.len() > 0 {
        let q = rs.drop_last();
        lemma_collect(q, c, x);
        lemma_mention_all(collect(q, c), rs.last().cats, x);
        lemma_mention_prefix(collect(q, c), rs.last().cats);
        if some_range(q, c, x) { let k = choose|k: int| 0 <= k < q.len() && in_range(#[trigger] q[k], c) && q[k].cats.contains(x); assert(in_range(rs[k], c) && rs[k].cats.contains(x)); }
        if in_range(rs.last(), c) && rs.last().cats.contains(x) { assert(in_range(rs[rs.len() - 1], c)); }
        if some_range(rs, c, x) {
            let k = choose|k: int| 0 <= k < rs.len() && in_range(#[trigger] rs[k], c) && rs[k].cats.contains(x);
            if k < q.len() { assert(in_range(q[k], c)); }
        }
    }
}
pub proof fn c10_categories(d: Def, c: int, x: Seq<char>)
    requires forall|k: int| 0 <= k < d.ranges.len() ==> (#[trigger] d.ranges[k]).cats.len() > 0,
    ensures
        (exists|k: int| 0 <= k < d.ranges.len() && in_range(#[trigger] d.ranges[k], c)) ==> (cats_of(d, c).contains(x) <==> some_range(d.ranges, c, x)),
        !(exists|k: int| 0 <= k < d.ranges.len() && in_range(#[trigger] d.ranges[k], c)) ==> cats_of(d, c) == (if d.cats.contains("DEFAULT"@) { seq!["DEFAULT"@] } else { Seq::<Seq<char>>::empty() }),
        nodup(cats_of(d, c)),
{
    lemma_collect(d.ranges, c, x);
    if exists|k: int| 0 <= k < d.ranges.len() && in_range(#[trigger] d.ranges[k], c) {
        let k = choose|k: int| 0 <= k < d.ranges.len() && in_range(#[trigger] d.ranges[k], c);
        let y = d.ranges[k].cats[0];
        lemma_collect(d.ranges, c, y);
        assert(d.ranges[k].cats.contains(y));
        assert(collect(d.ranges, c).contains(y));
    } else {
        let s = collect(d.ranges, c);
        if s.len() > 0 {
            lemma_collect(d.ranges, c, s[0]);
            assert(s.contains(s[0]));
        }
    }
}
// the empty builder represents the empty definition
pub proof fn c10_start(b: CharacterDefinitionsBuilder)
    requires b.category_definition@.len() == 0, b.char_ranges@.len() == 0, b.category_index@ == Map::<Seq<char>, CategoryId>::empty(), b.category_index.size() == 0,
    ensures rep(b, Def { cats: Seq::empty(), ranges: Seq::empty(), flags: Map::empty() })
{
}
// ---- the builder: char.def in, char_def.bin out ------------------------------------------------------
@include files.inc
// trusted: #[derive(Default)]
#[verifier::external_body]
pub fn vx_builder_default() -> (r: CharacterDefinitionsBuilder)
    ensures r.category_definition@.len() == 0, r.char_ranges@.len() == 0, r.category_index@ == Map::<Seq<char>, CategoryId>::empty(), r.category_index.size() == 0 { unimplemented!() }
pub open spec fn no_def() -> Def { Def { cats: Seq::empty(), ranges: Seq::empty(), flags: Map::empty() } }
@item struct lindera-dictionary-builder/src/chardef.rs CharDefBuilder
@end
@item fn lindera-dictionary-builder/src/chardef.rs CharDefBuilder::build
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<CharacterDefinitions>)
@replace debug!($$x1); ==>
@replace &self.encoding ==> self.encoding.as_str()
@replace File::create($x1) ==> File::create(vx_fs, $x1)
@replace wtr_chardef.flush() ==> wtr_chardef.vx_flush(vx_fs)
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@)),
    r is Ok ==> {
        let text = ptext(self.encoding@, pjoin(*input_dir, "char.def"@));
        all_defined(steps(no_def(), lines_of(text))) && defs_ok(r->Ok_0, steps(no_def(), lines_of(text)))
            && has_file(final(vx_fs)@, pjoin(*output_dir, "char_def.bin"@), bin_image(r->Ok_0))
    }
@at let char_definitions_builder 0 after
  proof { c10_start(char_definitions_builder); assert(rep(char_definitions_builder, no_def())); }
@at let char_definitions 0 before
  proof { assert(rep(char_definitions_builder, steps(no_def(), lines_of(char_def@)))); }
@end
} // verus!
fn main() {}
