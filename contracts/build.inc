// ---- compiling rows into the lookup structure ------------------------------------------------------
// each row contributes at most one entry under its key
pub open spec fn group(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, k: Seq<char>) -> Seq<WordEntry> decreases n {
    if n <= 0 { Seq::empty() }
    else { match es[n - 1] { Some(p) => if p.0 == k { group(es, n - 1, k).push(p.1) } else { group(es, n - 1, k) }, None => group(es, n - 1, k) } }
}
// trusted: BTreeMap<String, Vec<WordEntry>>: keys in ascending order of their bytes
#[verifier::external_body]
pub struct VxEntryMap { m: std::collections::BTreeMap<String, Vec<WordEntry>> }
pub open spec fn sorted_keys(ks: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> lex_lt(utf8(#[trigger] ks[i]), utf8(#[trigger] ks[j])) }
impl View for VxEntryMap { type V = Map<Seq<char>, Seq<WordEntry>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<WordEntry>>; }
pub open spec fn at_key(m: Map<Seq<char>, Seq<WordEntry>>, k: Seq<char>) -> Seq<WordEntry> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
pub uninterp spec fn keys_of(m: Map<Seq<char>, Seq<WordEntry>>) -> Seq<Seq<char>>;
impl VxEntryMap {
    #[verifier::external_body]
    pub fn new() -> (r: VxEntryMap) ensures r@ == Map::<Seq<char>, Seq<WordEntry>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add(&mut self, k: String, e: WordEntry) ensures final(self)@ == old(self)@.insert(k@, at_key(old(self)@, k@).push(e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(&self) -> (r: Vec<(&String, &Vec<WordEntry>)>)
        ensures r@.len() == keys_of(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == keys_of(self@)[i] && r@[i].1@ == self@[keys_of(self@)[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&Vec<WordEntry>>)
        ensures r@.len() == keys_of(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[keys_of(self@)[i]] { unimplemented!() }
    #[verifier::external_body]
    pub proof fn ax_keys(&self) ensures sorted_keys(keys_of(self@)), forall|k: Seq<char>| #[trigger] self@.contains_key(k) <==> keys_of(self@).contains(k) {}
}
// the entries of all keys in order
pub open spec fn flat(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, j: int) -> Seq<WordEntry> decreases j { if j <= 0 { Seq::empty() } else { flat(m, ks, j - 1) + m[ks[j - 1]] } }
pub open spec fn sers(es: Seq<WordEntry>) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else { sers(es.drop_last()) + enc_entry(es.last()) } }
pub proof fn lemma_sers(es: Seq<WordEntry>, i: int)
    ensures sers(es).len() == 10 * es.len(), 0 <= i < es.len() ==> sers(es).subrange(10 * i, 10 * i + 10) == enc_entry(es[i])
    decreases es.len()
{
    if es.len() > 0 {
        lemma_sers(es.drop_last(), i);
        c05_roundtrip(es.last(), Seq::empty(), Seq::empty(), true);
        if 0 <= i < es.len() - 1 { assert(sers(es).subrange(10 * i, 10 * i + 10) =~= sers(es.drop_last()).subrange(10 * i, 10 * i + 10)); }
        else if i == es.len() - 1 { assert(sers(es).subrange(10 * i, 10 * i + 10) =~= enc_entry(es[i])); }
    }
}
pub proof fn lemma_sers_push(es: Seq<WordEntry>, e: WordEntry) ensures sers(es.push(e)) == sers(es) + enc_entry(e) { assert(es.push(e).drop_last() =~= es); }
pub proof fn lemma_flat_at(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, n: int, j: int, i: int)
    requires 0 <= j < n <= ks.len(), 0 <= i < m[ks[j]].len(),
    ensures flat(m, ks, j).len() + i < flat(m, ks, n).len(), flat(m, ks, n)[flat(m, ks, j).len() + i] == m[ks[j]][i], flat(m, ks, j).len() + m[ks[j]].len() <= flat(m, ks, n).len()
    decreases n
{
    if j < n - 1 { lemma_flat_at(m, ks, n - 1, j, i); }
}
pub proof fn lemma_flat_le(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, j: int, n: int) requires 0 <= j <= n ensures flat(m, ks, j).len() <= flat(m, ks, n).len() decreases n { if j < n { lemma_flat_le(m, ks, j, n - 1); } }
// there are at most as many entries as rows
pub open spec fn tot(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, ks: Seq<Seq<char>>, j: int) -> int decreases j { if j <= 0 { 0 } else { tot(es, n, ks, j - 1) + group(es, n, ks[j - 1]).len() } }
pub proof fn lemma_tot_step(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, ks: Seq<Seq<char>>, j: int)
    requires 0 < n <= es.len(), 0 <= j <= ks.len(), forall|a: int, b: int| 0 <= a < b < ks.len() ==> ks[a] != ks[b],
    ensures tot(es, n, ks, j) <= tot(es, n - 1, ks, j) + 1, (es[n - 1] is None || !ks.take(j).contains((es[n - 1]->0).0)) ==> tot(es, n, ks, j) == tot(es, n - 1, ks, j)
    decreases j
{
    if j > 0 {
        lemma_tot_step(es, n, ks, j - 1);
        assert(ks.take(j)[j - 1] == ks[j - 1]);
        if es[n - 1] is Some {
            let k = (es[n - 1]->0).0;
            if ks.take(j - 1).contains(k) {
                let a = ks.take(j - 1).index_of(k);
                assert(ks[a] == k && ks[j - 1] != k);
                assert(ks.take(j)[a] == k);
            }
            if !ks.take(j).contains(k) && ks.take(j - 1).contains(k) {}
        }
    }
}
pub proof fn lemma_tot(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, ks: Seq<Seq<char>>, j: int)
    requires 0 <= n <= es.len(), 0 <= j <= ks.len(), forall|a: int, b: int| 0 <= a < b < ks.len() ==> ks[a] != ks[b],
    ensures tot(es, n, ks, j) <= n, tot(es, n, ks, j) >= 0
    decreases n, j
{
    if n > 0 { lemma_tot(es, n - 1, ks, j); lemma_tot_step(es, n, ks, j); lemma_tot_nonneg(es, n, ks, j); }
    else if j > 0 { lemma_tot(es, n, ks, j - 1); }
}
pub proof fn lemma_tot_nonneg(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, ks: Seq<Seq<char>>, j: int) ensures tot(es, n, ks, j) >= 0 decreases j { if j > 0 { lemma_tot_nonneg(es, n, ks, j - 1); } }
pub proof fn lemma_lex_irrefl(a: Seq<u8>) ensures !lex_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_lex_irrefl(a.skip(1)); } }
pub open spec fn grouped(m: Map<Seq<char>, Seq<WordEntry>>, es: Seq<Option<(Seq<char>, WordEntry)>>, n: int) -> bool {
    forall|k: Seq<char>| #[trigger] at_key(m, k) == group(es, n, k) && (m.contains_key(k) ==> m[k].len() > 0)
}
pub proof fn lemma_grouped_add(m: Map<Seq<char>, Seq<WordEntry>>, es: Seq<Option<(Seq<char>, WordEntry)>>, n: int)
    requires grouped(m, es, n), 0 <= n < es.len(), es[n] is Some,
    ensures grouped(m.insert((es[n]->0).0, at_key(m, (es[n]->0).0).push((es[n]->0).1)), es, n + 1)
{
    let m2 = m.insert((es[n]->0).0, at_key(m, (es[n]->0).0).push((es[n]->0).1));
    assert forall|k: Seq<char>| #[trigger] at_key(m2, k) == group(es, n + 1, k) && (m2.contains_key(k) ==> m2[k].len() > 0) by { assert(at_key(m, k) == group(es, n, k)); assert(at_key(m, (es[n]->0).0) == group(es, n, (es[n]->0).0)); }
}
pub proof fn lemma_grouped_skip(m: Map<Seq<char>, Seq<WordEntry>>, es: Seq<Option<(Seq<char>, WordEntry)>>, n: int)
    requires grouped(m, es, n), 0 <= n < es.len(), es[n] is None,
    ensures grouped(m, es, n + 1)
{
    assert forall|k: Seq<char>| #[trigger] at_key(m, k) == group(es, n + 1, k) && (m.contains_key(k) ==> m[k].len() > 0) by { assert(at_key(m, k) == group(es, n, k)); }
}
// few enough entries
pub open spec fn sparse(es: Seq<Option<(Seq<char>, WordEntry)>>) -> bool {
    es.len() < 0x400_0000 && forall|k: Seq<char>| (#[trigger] group(es, es.len() as int, k)).len() <= 31
}
// keys without NUL, at least one of them
pub open spec fn keyable(es: Seq<Option<(Seq<char>, WordEntry)>>) -> bool {
    &&& exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some ==> !has_nul(utf8((es[i]->0).0))
}
// trusted: a byte string contains a zero byte
pub trait VxHasByte { spec fn bs(&self) -> Seq<u8>; fn vx_has_nul(&self) -> (r: bool) ensures r == has_nul(self.bs()); }
impl VxHasByte for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_has_nul(&self) -> (r: bool) { self.contains(&0) } }
pub open spec fn some_nul(kv: Seq<(&[u8], u32)>, n: int) -> bool { exists|j: int| 0 <= j < n && has_nul((#[trigger] kv[j]).0@) }
// keys that were checked are keys of compilable rows
pub proof fn lemma_keyable(kv: Seq<(&[u8], u32)>, m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, es: Seq<Option<(Seq<char>, WordEntry)>>)
    requires keyed(kv, m, ks), kv.len() == ks.len(), grouped(m, es, es.len() as int), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k),
    ensures keyable(es) <==> kv.len() > 0 && !some_nul(kv, kv.len() as int)
{
    if kv.len() > 0 && !some_nul(kv, kv.len() as int) {
        assert(ks.contains(ks[0]));
        assert(at_key(m, ks[0]) == group(es, es.len() as int, ks[0]));
        lemma_group_key(es, es.len() as int, ks[0]);
        assert forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some implies !has_nul(utf8((es[i]->0).0)) by {
            let k = (es[i]->0).0;
            lemma_group_in(es, es.len() as int, i);
            assert(at_key(m, k) == group(es, es.len() as int, k));
            assert(ks.contains(k));
            let j = ks.index_of(k);
            assert(kv[j].0@ == utf8(ks[j]));
        }
    }
    if keyable(es) {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Some;
        let k = (es[i]->0).0;
        lemma_group_in(es, es.len() as int, i);
        assert(at_key(m, k) == group(es, es.len() as int, k));
        assert(ks.contains(k));
        assert forall|j: int| 0 <= j < kv.len() implies !has_nul((#[trigger] kv[j]).0@) by {
            assert(ks.contains(ks[j]));
            assert(at_key(m, ks[j]) == group(es, es.len() as int, ks[j]));
            lemma_group_key(es, es.len() as int, ks[j]);
        }
    }
}
// the trie keys and values
pub open spec fn key_value(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, j: int) -> int { 32 * (flat(m, ks, j).len() as int) + m[ks[j]].len() as int }
pub open spec fn keyed(kv: Seq<(&[u8], u32)>, m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>) -> bool {
    kv.len() <= ks.len() && forall|j: int| 0 <= j < kv.len() ==> (#[trigger] kv[j]).0@ == utf8(ks[j]) && kv[j].1 as int == key_value(m, ks, j)
}
pub proof fn lemma_pack(id: u32, len: u32) requires id < 0x400_0000, len <= 31 ensures ((id << 5u32) | len) as int == 32 * id + len {
    assert(((id << 5u32) | len) == 32 * id + len) by (bit_vector) requires id < 0x400_0000, len <= 31;
}
pub proof fn lemma_keys_distinct(ks: Seq<Seq<char>>) requires sorted_keys(ks) ensures forall|a: int, b: int| 0 <= a < b < ks.len() ==> ks[a] != ks[b] {
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies ks[a] != ks[b] by { assert(lex_lt(utf8(ks[a]), utf8(ks[b]))); lemma_lex_irrefl(utf8(ks[a])); }
}
// each key's entries are few and all entries together are no more than the rows
pub proof fn lemma_room_for(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, es: Seq<Option<(Seq<char>, WordEntry)>>, j: int)
    requires grouped(m, es, es.len() as int), sparse(es), sorted_keys(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k), 0 <= j <= ks.len(),
    ensures flat(m, ks, j).len() < 0x400_0000, j < ks.len() ==> 0 < m[ks[j]].len() <= 31
{
    lemma_keys_distinct(ks);
    lemma_tot(es, es.len() as int, ks, j);
    lemma_flat_tot(m, ks, es, j);
    if j < ks.len() { assert(ks.contains(ks[j])); assert(m.contains_key(ks[j])); assert(at_key(m, ks[j]) == group(es, es.len() as int, ks[j])); }
}
pub proof fn lemma_group_in(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, i: int) requires 0 <= i < n <= es.len(), es[i] is Some ensures group(es, n, (es[i]->0).0).len() > 0 decreases n { if i < n - 1 { lemma_group_in(es, n - 1, i); } }
pub proof fn lemma_flat_tot(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, es: Seq<Option<(Seq<char>, WordEntry)>>, j: int)
    requires grouped(m, es, es.len() as int), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k), 0 <= j <= ks.len(),
    ensures flat(m, ks, j).len() == tot(es, es.len() as int, ks, j)
    decreases j
{
    if j > 0 { lemma_flat_tot(m, ks, es, j - 1); assert(ks.contains(ks[j - 1])); assert(m.contains_key(ks[j - 1])); assert(at_key(m, ks[j - 1]) == group(es, es.len() as int, ks[j - 1])); }
}
pub proof fn lemma_da_input(kv: Seq<(&[u8], u32)>, m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, es: Seq<Option<(Seq<char>, WordEntry)>>)
    requires keyed(kv, m, ks), kv.len() == ks.len(), kv.len() > 0, !some_nul(kv, kv.len() as int), grouped(m, es, es.len() as int), sparse(es), sorted_keys(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k),
    ensures da_input(kv)
{
    lemma_room_for(m, ks, es, 0);
    assert forall|i: int, j: int| 0 <= i < j < kv.len() implies lex_lt((#[trigger] kv[i]).0@, (#[trigger] kv[j]).0@) by { assert(lex_lt(utf8(ks[i]), utf8(ks[j]))); }
    assert forall|i: int| 0 <= i < kv.len() implies !has_nul((#[trigger] kv[i]).0@) && kv[i].1 < 0x8000_0000 by {
        lemma_room_for(m, ks, es, i);
        assert(ks.contains(ks[i]));
        assert(m.contains_key(ks[i]));
        assert(at_key(m, ks[i]) == group(es, es.len() as int, ks[i]));
        lemma_group_key(es, es.len() as int, ks[i]);
    }
}
pub proof fn lemma_group_key(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, k: Seq<char>)
    requires 0 <= n <= es.len(), group(es, n, k).len() > 0,
    ensures exists|i: int| 0 <= i < n && (#[trigger] es[i]) is Some && (es[i]->0).0 == k
    decreases n
{
    if n > 0 && !(es[n - 1] is Some && (es[n - 1]->0).0 == k) { lemma_group_key(es, n - 1, k); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] es[i]) is Some && (es[i]->0).0 == k; assert(es[i] is Some); }
    else { assert(es[n - 1] is Some); }
}
// an entry as it comes back from its record
pub open spec fn flagged(e: WordEntry, sys: bool) -> WordEntry { WordEntry { word_id: WordId(e.word_id.0, sys), ..e } }
pub open spec fn all_flagged(es: Seq<WordEntry>, sys: bool) -> Seq<WordEntry> { Seq::new(es.len(), |i: int| flagged(es[i], sys)) }
// C08, C09: the compiled form finds for every surface exactly the entries of its rows, and nothing for any other text
pub open spec fn finds(p: PrefixDict, es: Seq<Option<(Seq<char>, WordEntry)>>) -> bool {
    &&& wf_dict(p)
    &&& forall|k: Seq<char>| #[trigger] is_key(p, utf8(k)) <==> group(es, es.len() as int, k).len() > 0
    &&& forall|k: Seq<char>| #[trigger] is_key(p, utf8(k)) ==> entries(p, p.da.map()[utf8(k)]) == all_flagged(group(es, es.len() as int, k), p.is_system)
    &&& forall|b: Seq<u8>| #[trigger] is_key(p, b) ==> exists|k: Seq<char>| b == #[trigger] utf8(k)
}
#[verifier::rlimit(40)]
pub proof fn lemma_finds(p: PrefixDict, kv: Seq<(&[u8], u32)>, m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, es: Seq<Option<(Seq<char>, WordEntry)>>)
    requires
        keyed(kv, m, ks), kv.len() == ks.len(), grouped(m, es, es.len() as int), sparse(es), keyable(es), sorted_keys(ks), forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> ks.contains(k),
        da_built(kv, p.da.map()), p.vals_data@ == sers(flat(m, ks, ks.len() as int)),
    ensures finds(p, es)
{
    let n = ks.len() as int;
    let f = flat(m, ks, n);
    lemma_sers(f, 0);
    assert forall|b: Seq<u8>| #[trigger] p.da.map().dom().contains(b) implies exists|j: int| #![trigger ks[j]] 0 <= j < n && b == utf8(ks[j]) && p.da.map()[b] as int == key_value(m, ks, j) by {
        let j = choose|j: int| 0 <= j < kv.len() && (#[trigger] kv[j]).0@ == b;
        assert(b == utf8(ks[j]));
    }
    assert forall|b: Seq<u8>| #[trigger] p.da.map().dom().contains(b) implies 10 * (v_off(p.da.map()[b]) + v_len(p.da.map()[b])) <= p.vals_data@.len() by {
        let j = choose|j: int| #![trigger ks[j]] 0 <= j < n && b == utf8(ks[j]) && p.da.map()[b] as int == key_value(m, ks, j);
        lemma_room_for(m, ks, es, j);
        lemma_unkey(m, ks, j, p.da.map()[b]);
        lemma_flat_at(m, ks, n, j, 0);
    }
    assert forall|b: Seq<u8>| #[trigger] is_key(p, b) implies exists|k: Seq<char>| b == #[trigger] utf8(k) by {
        let j = choose|j: int| #![trigger ks[j]] 0 <= j < n && b == utf8(ks[j]) && p.da.map()[b] as int == key_value(m, ks, j);
        assert(b == utf8(ks[j]));
    }
    assert forall|k: Seq<char>| #[trigger] is_key(p, utf8(k)) <==> group(es, es.len() as int, k).len() > 0 by {
        assert(at_key(m, k) == group(es, es.len() as int, k));
        if is_key(p, utf8(k)) {
            let j = choose|j: int| #![trigger ks[j]] 0 <= j < n && utf8(k) == utf8(ks[j]) && p.da.map()[utf8(k)] as int == key_value(m, ks, j);
            lemma_utf8_inj(k, ks[j]);
            assert(ks.contains(ks[j]));
            assert(m.contains_key(k));
        }
        if group(es, es.len() as int, k).len() > 0 {
            assert(m.contains_key(k));
            assert(ks.contains(k));
            let j = ks.index_of(k);
            assert(kv[j].0@ == utf8(k));
            lemma_group_key(es, es.len() as int, k);
        }
    }
    assert forall|k: Seq<char>| #[trigger] is_key(p, utf8(k)) implies entries(p, p.da.map()[utf8(k)]) == all_flagged(group(es, es.len() as int, k), p.is_system) by {
        let j = choose|j: int| #![trigger ks[j]] 0 <= j < n && utf8(k) == utf8(ks[j]) && p.da.map()[utf8(k)] as int == key_value(m, ks, j);
        lemma_utf8_inj(k, ks[j]);
        lemma_room_for(m, ks, es, j);
        let v = p.da.map()[utf8(k)];
        lemma_unkey(m, ks, j, v);
        assert(ks.contains(ks[j]));
        assert(m.contains_key(k));
        assert(at_key(m, k) == group(es, es.len() as int, k));
        assert forall|i: int| 0 <= i < v_len(v) implies record(p.vals_data@, v_off(v) + i, p.is_system) == flagged(m[k][i], p.is_system) by {
            lemma_flat_at(m, ks, n, j, i);
            let at = v_off(v) + i;
            lemma_sers(f, at);
            lemma_record(p.vals_data@, at, f[at], p.is_system);
        }
        assert(entries(p, v) =~= all_flagged(m[k], p.is_system));
    }
}
pub proof fn lemma_unkey(m: Map<Seq<char>, Seq<WordEntry>>, ks: Seq<Seq<char>>, j: int, v: u32)
    requires v as int == key_value(m, ks, j), m[ks[j]].len() <= 31,
    ensures v_off(v) == flat(m, ks, j).len(), v_len(v) == m[ks[j]].len()
{
}
pub proof fn lemma_record(d: Seq<u8>, k: int, e: WordEntry, sys: bool)
    requires 0 <= k, 10 * k + 10 <= d.len(), d.subrange(10 * k, 10 * k + 10) == enc_entry(e),
    ensures record(d, k, sys) == flagged(e, sys)
{
    c05_roundtrip(e, d.take(10 * k), d.skip(10 * k + 10), sys);
    let buf = d.take(10 * k) + enc_entry(e) + d.skip(10 * k + 10);
    assert(enc_entry(e).len() == 10);
    assert forall|i: int| 0 <= i < d.len() implies buf[i] == d[i] by { if 10 * k <= i < 10 * k + 10 { assert(d.subrange(10 * k, 10 * k + 10)[i - 10 * k] == d[i]); } }
    assert(buf =~= d);
    assert(buf.subrange(10 * k, buf.len() as int) =~= d.subrange(10 * k, d.len() as int));
}
pub proof fn lemma_group_has(es: Seq<Option<(Seq<char>, WordEntry)>>, n: int, i: int)
    requires 0 <= i < n <= es.len(), es[i] is Some,
    ensures exists|j: int| 0 <= j < group(es, n, (es[i]->0).0).len() && #[trigger] group(es, n, (es[i]->0).0)[j] == (es[i]->0).1
    decreases n
{
    let k = (es[i]->0).0;
    let g = group(es, n, k);
    if i < n - 1 {
        lemma_group_has(es, n - 1, i);
        let h = group(es, n - 1, k);
        let j = choose|j: int| 0 <= j < h.len() && #[trigger] h[j] == (es[i]->0).1;
        assert(g[j] == h[j]);
    } else { assert(g[g.len() - 1] == (es[i]->0).1); }
}
