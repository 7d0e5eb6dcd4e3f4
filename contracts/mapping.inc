// ---- C14: leftmost-longest replacement ---------------------------------------------------------
pub open spec fn longest_upto(m: Map<Seq<char>, Seq<char>>, s: Seq<char>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if m.contains_key(s.take(n)) { n } else { longest_upto(m, s, n - 1) }
}
pub open spec fn longest(m: Map<Seq<char>, Seq<char>>, s: Seq<char>) -> int { longest_upto(m, s, s.len() as int) }
pub open spec fn head(m: Map<Seq<char>, Seq<char>>, s: Seq<char>) -> (Seq<char>, Seq<char>) {
    if longest(m, s) > 0 { (s.take(longest(m, s)), m[s.take(longest(m, s))]) } else { (s.take(1), s.take(1)) }
}
pub open spec fn scan(m: Map<Seq<char>, Seq<char>>, s: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> decreases s.len() via scan_dec {
    if s.len() == 0 { Seq::empty() } else { seq![head(m, s)] + scan(m, s.skip(head(m, s).0.len() as int)) }
}
#[via_fn]
proof fn scan_dec(m: Map<Seq<char>, Seq<char>>, s: Seq<char>) { if s.len() > 0 { lemma_longest(m, s, s.len() as int); } }
pub proof fn lemma_longest(m: Map<Seq<char>, Seq<char>>, s: Seq<char>, n: int)
    requires n <= s.len(),
    ensures
        0 <= longest_upto(m, s, n), longest_upto(m, s, n) <= (if n < 0 { 0 } else { n }),
        longest_upto(m, s, n) > 0 ==> m.contains_key(s.take(longest_upto(m, s, n))),
        forall|l: int| longest_upto(m, s, n) < l <= n ==> !m.contains_key(#[trigger] s.take(l)),
    decreases n
{
    if n > 0 && !m.contains_key(s.take(n)) { lemma_longest(m, s, n - 1); }
}
// C14: the replaced text
pub open spec fn mapped(m: Map<Seq<char>, Seq<char>>, s: Seq<char>) -> Seq<char> { targets(scan(m, s)) }
// the double array knows the keys of the mapping
pub open spec fn keys_known(m: Map<Seq<char>, Seq<char>>, d: Map<Seq<u8>, u32>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && k.len() > 0 ==> d.dom().contains(utf8(k)) && !has_nul(utf8(k))
    &&& forall|b: Seq<u8>| #[trigger] d.dom().contains(b) && b.len() > 0 ==> is_enc(m, b)
}
pub open spec fn is_enc(m: Map<Seq<char>, Seq<char>>, b: Seq<u8>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && b == utf8(k) }
// a byte prefix of s that is a key is s.take(l) for some l
pub proof fn lemma_key_prefix(m: Map<Seq<char>, Seq<char>>, d: Map<Seq<u8>, u32>, s: Seq<char>, n: int) -> (l: int)
    requires keys_known(m, d), 0 < n <= utf8(s).len(), d.dom().contains(utf8(s).take(n)),
    ensures 0 < l <= s.len(), m.contains_key(s.take(l)), blen(s.take(l)) == n
{
    let b = utf8(s).take(n);
    assert(is_enc(m, b));
    let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && b == utf8(k);
    lemma_utf8_len(k);
    lemma_prefix(k, s);
    lemma_utf8_len(s.take(k.len() as int));
    k.len() as int
}
pub proof fn lemma_prefix_bytes(s: Seq<char>, l: int)
    requires 0 <= l <= s.len(),
    ensures utf8(s).take(blen(s.take(l)) as int) == utf8(s.take(l)), blen(s.take(l)) <= utf8(s).len(), l > 0 ==> blen(s.take(l)) > 0
{
    assert(s.take(l) + s.skip(l) =~= s);
    lemma_utf8_cat(s.take(l), s.skip(l));
    lemma_utf8_len(s.take(l));
    lemma_utf8_len(s);
    lemma_blen_pos(s.take(l));
    assert(utf8(s).take(blen(s.take(l)) as int) =~= utf8(s.take(l)));
}
// the longest search result that holds no NUL is the longest key
pub open spec fn best_found(s: Seq<char>, r: Seq<(u32, usize)>, l: int) -> bool {
    &&& (l == 0 ==> r.len() == 0 || has_nul(utf8(s).take(r[0].1 as int)))
    &&& 0 <= l <= r.len() && (l > 0 ==> !has_nul(utf8(s).take(r[l - 1].1 as int)))
    &&& (l < r.len() ==> has_nul(utf8(s).take(r[l].1 as int)))
}
pub open spec fn seen(d: Map<Seq<u8>, u32>, s: Seq<char>, r: Seq<(u32, usize)>, l: int, o: Option<(u32, usize)>) -> bool {
    &&& cps_ok(d, utf8(s), r) && 0 <= l <= r.len()
    &&& if l == 0 { o is None } else { o == Some(r[l - 1]) && !has_nul(utf8(s).take(r[l - 1].1 as int)) }
}
pub open spec fn seen_all(d: Map<Seq<u8>, u32>, s: Seq<char>, r: Seq<(u32, usize)>, l: int, o: Option<(u32, usize)>) -> bool {
    seen(d, s, r, l, o) && (l < r.len() ==> has_nul(utf8(s).take(r[l].1 as int)))
}
pub proof fn lemma_found_longest(m: Map<Seq<char>, Seq<char>>, d: Map<Seq<u8>, u32>, s: Seq<char>, r: Seq<(u32, usize)>, l: int)
    requires keys_known(m, d), cps_ok(d, utf8(s), r), best_found(s, r, l),
    ensures
        l == 0 ==> longest(m, s) == 0,
        l > 0 ==> longest(m, s) > 0 && blen(s.take(longest(m, s))) == r[l - 1].1,
{
    let b = utf8(s);
    lemma_longest(m, s, s.len() as int);
    let g = longest(m, s);
    if g > 0 {
        lemma_prefix_bytes(s, g);
        let n = blen(s.take(g)) as int;
        assert(m.contains_key(s.take(g)));
        assert(!has_nul(b.take(n)) && d.dom().contains(b.take(n)));
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == n;
        if i >= l {
            assert(has_nul(b.take(r[l].1 as int)));
            if i > l { assert(r[l].1 < r[i].1); }
            lemma_nul_longer(b, r[l].1 as int, n);
        } else if i < l - 1 {
            assert(r[i].1 < r[l - 1].1);
            assert(d.dom().contains(b.take(r[l - 1].1 as int)));
            let j = lemma_key_prefix(m, d, s, r[l - 1].1 as int);
            if j <= g { lemma_blen_take(s, j, g); }
        }
    }
    if l > 0 {
        assert(d.dom().contains(b.take(r[l - 1].1 as int)));
        let j = lemma_key_prefix(m, d, s, r[l - 1].1 as int);
        if g == 0 { assert(m.contains_key(s.take(j))); }
    }
}
pub proof fn lemma_nul_longer(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), has_nul(s.take(a)),
    ensures has_nul(s.take(b))
{
    let i = choose|i: int| 0 <= i < s.take(a).len() && s.take(a)[i] == 0u8;
    assert(s.take(b)[i] == 0u8);
}
// one step of the scan
pub proof fn lemma_scan_step(m: Map<Seq<char>, Seq<char>>, s: Seq<char>, done: Seq<(Seq<char>, Seq<char>)>, all: Seq<(Seq<char>, Seq<char>)>)
    requires s.len() > 0, all == done + scan(m, s),
    ensures ({
        let h = head(m, s);
        let rest = s.skip(h.0.len() as int);
        &&& all == done.push(h) + scan(m, rest)
        &&& h.0.len() > 0 && h.0.len() <= s.len() && s == h.0 + rest
        &&& targets(done.push(h)) == targets(done) + h.1
        &&& lens(done.push(h)) == lens(done).push((blen(h.0) as int, blen(h.1) as int))
        &&& blen(s) == blen(h.0) + blen(rest)
    })
{
    let h = head(m, s);
    lemma_longest(m, s, s.len() as int);
    assert(s.take(longest(m, s)).len() == longest(m, s));
    assert(s.take(1).len() == 1);
    let rest = s.skip(h.0.len() as int);
    assert(s =~= h.0 + rest);
    assert(done + (seq![h] + scan(m, rest)) =~= done.push(h) + scan(m, rest));
    assert(done.push(h).drop_last() =~= done);
    assert(lens(done.push(h)) =~= lens(done).push((blen(h.0) as int, blen(h.1) as int)));
    lemma_blen_cat(h.0, rest);
}
// lengths of a prefix of the pieces
// the pieces make up the text
pub proof fn c14_pieces(m: Map<Seq<char>, Seq<char>>, s: Seq<char>)
    ensures sources(scan(m, s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let h = head(m, s);
        let rest = s.skip(h.0.len() as int);
        assert(Seq::empty() + scan(m, s) =~= scan(m, s));
        lemma_scan_step(m, s, Seq::empty(), scan(m, s));
        c14_pieces(m, rest);
        lemma_cat(seq![h], scan(m, rest));
        assert(seq![h].drop_last() =~= Seq::empty());
        assert(sources(seq![h]) =~= h.0) by { reveal_with_fuel(sources, 2); }
    }
}
pub proof fn lemma_nul(s: Seq<char>) ensures s.contains('\0') <==> has_nul(utf8(s)) decreases s.len() {
    if s.len() > 0 {
        let r = s.skip(1);
        lemma_nul(r);
        lemma_enc_len(s[0]);
        let (e, u) = (enc(s[0]), utf8(r));
        assert(utf8(s) == e + u);
        if s.contains('\0') {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == '\0';
            if i == 0 { assert(utf8(s)[0] == 0u8); }
            else { assert(r[i - 1] == '\0'); let j = choose|j: int| 0 <= j < u.len() && u[j] == 0u8; assert(utf8(s)[j + e.len()] == 0u8); }
        }
        if has_nul(utf8(s)) {
            let j = choose|j: int| 0 <= j < utf8(s).len() && utf8(s)[j] == 0u8;
            if j >= e.len() { assert(u[j - e.len()] == 0u8); let i = choose|i: int| 0 <= i < r.len() && r[i] == '\0'; assert(s[i + 1] == '\0'); }
            else { lemma_enc_nul(s[0], j); assert(s[0] == '\0'); }
        }
    }
}
pub proof fn lemma_enc_nul(c: char, j: int) requires 0 <= j < enc(c).len(), enc(c)[j] == 0u8 ensures c == '\0' {
    let x = c as u32 as int;
    assert(x < 0x110000);
    assert(x < 0x80 ==> enc(c)[j] == x);
}
pub proof fn lemma_da_input(ks: Seq<&String>, keyset: Seq<(&[u8], u32)>, n: int)
    requires
        strs_sorted(ks), n == ks.len(), n < 0x8000_0000, keyset.len() == if n == 0 { 1 } else { n },
        n == 0 ==> keyset[0].0@.len() == 0 && keyset[0].1 == 0,
        forall|i: int| 0 <= i < n ==> (#[trigger] keyset[i]).0@ == utf8(ks[i]@) && keyset[i].1 == i && !has_nul(utf8(ks[i]@)),
    ensures da_input(keyset)
{
    assert forall|i: int, j: int| 0 <= i < j < keyset.len() implies lex_lt((#[trigger] keyset[i]).0@, (#[trigger] keyset[j]).0@) by { assert(lex_lt(utf8(ks[i]@), utf8(ks[j]@))); }
}
