verus! {
// ---- UTF-8 ------------------------------------------------------------------------------------
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn enc(c: char) -> Seq<u8> {
    let x = c as u32 as int;
    if x < 0x80 { seq![x as u8] }
    else if x < 0x800 { seq![(0xc0 + x / 64) as u8, (0x80 + x % 64) as u8] }
    else if x < 0x10000 { seq![(0xe0 + x / 4096) as u8, (0x80 + (x / 64) % 64) as u8, (0x80 + x % 64) as u8] }
    else { seq![(0xf0 + x / 262144) as u8, (0x80 + (x / 4096) % 64) as u8, (0x80 + (x / 64) % 64) as u8, (0x80 + x % 64) as u8] }
}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc(s[0]) + utf8(s.skip(1)) }
}
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.skip(1)) }
}
// byte offset i is a character boundary of s
pub open spec fn bound(s: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k <= s.len() && i == #[trigger] blen(s.take(k)) }
pub open spec fn cidx(s: Seq<char>, i: int) -> int { choose|k: int| 0 <= k <= s.len() && i == #[trigger] blen(s.take(k)) }
pub proof fn lemma_enc_len(c: char) ensures enc(c).len() == clen(c), 1 <= clen(c) <= 4 {}
pub proof fn lemma_utf8_len(s: Seq<char>) ensures utf8(s).len() == blen(s) decreases s.len() {
    if s.len() > 0 { lemma_utf8_len(s.skip(1)); }
}
pub proof fn lemma_blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases a.len() {
    if a.len() > 0 { lemma_blen_cat(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); } else { assert(a + b =~= b); }
}
pub proof fn lemma_utf8_cat(a: Seq<char>, b: Seq<char>) ensures utf8(a + b) == utf8(a) + utf8(b) decreases a.len() {
    if a.len() > 0 {
        lemma_utf8_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(utf8(a + b) =~= utf8(a) + utf8(b));
    } else { assert(a + b =~= b); assert(utf8(a) + utf8(b) =~= utf8(b)); }
}
pub proof fn lemma_blen_pos(s: Seq<char>) ensures blen(s) >= s.len(), blen(s) == 0 <==> s.len() == 0 decreases s.len() {
    if s.len() > 0 { lemma_blen_pos(s.skip(1)); }
}
pub proof fn lemma_blen_one(c: char) ensures blen(seq![c]) == clen(c) { assert(seq![c].skip(1) =~= Seq::empty()); reveal_with_fuel(blen, 2); }
// boundaries are unique and ordered
pub proof fn lemma_bound(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures bound(s, blen(s.take(k)) as int), cidx(s, blen(s.take(k)) as int) == k, blen(s.take(k)) + blen(s.skip(k)) == blen(s)
{
    let i = blen(s.take(k)) as int;
    let j = cidx(s, i);
    assert(bound(s, i));
    if j < k { lemma_blen_take(s, j, k); } else if k < j { lemma_blen_take(s, k, j); }
    lemma_blen_cat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
}
pub proof fn lemma_blen_take(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= s.len(),
    ensures blen(s.take(j)) + blen(s.subrange(j, k)) == blen(s.take(k)), blen(s.subrange(j, k)) >= k - j, blen(s.take(k)) <= blen(s)
{
    lemma_blen_cat(s.take(j), s.subrange(j, k));
    assert(s.take(j) + s.subrange(j, k) =~= s.take(k));
    lemma_blen_pos(s.subrange(j, k));
    lemma_blen_cat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
}
// a string whose encoding is a prefix of another's encoding is a prefix of it
pub proof fn lemma_prefix(k: Seq<char>, s: Seq<char>)
    requires utf8(k).len() <= utf8(s).len(), utf8(s).take(utf8(k).len() as int) == utf8(k),
    ensures k.len() <= s.len(), s.take(k.len() as int) == k, utf8(k).len() == blen(s.take(k.len() as int))
    decreases k.len()
{
    lemma_utf8_len(k);
    if k.len() > 0 {
        let c = k[0];
        lemma_enc_len(c);
        assert(s.len() > 0) by { if s.len() == 0 { assert(utf8(s).len() == 0); } }
        let d = s[0];
        lemma_enc_len(d);
        let t = utf8(s).take(utf8(k).len() as int);
        assert(t[0] == enc(c)[0] && utf8(s)[0] == enc(d)[0]);
        assert(enc(c)[0] == enc(d)[0]);
        lemma_enc_first(c, d);
        assert forall|i: int| 0 <= i < clen(c) implies enc(c)[i] == enc(d)[i] by { assert(t[i] == enc(c)[i]); assert(utf8(s)[i] == enc(d)[i]); }
        lemma_enc_inj(c, d);
        assert forall|i: int| 0 <= i < utf8(k.skip(1)).len() implies utf8(s.skip(1))[i] == utf8(k.skip(1))[i] by {
            assert(t[i + clen(c)] == utf8(k)[i + clen(c)]);
            assert(utf8(s)[i + clen(c)] == utf8(s.skip(1))[i]);
        }
        assert(utf8(s.skip(1)).take(utf8(k.skip(1)).len() as int) =~= utf8(k.skip(1)));
        lemma_prefix(k.skip(1), s.skip(1));
        assert forall|i: int| 0 <= i < k.len() implies s[i] == k[i] by {
            if i > 0 { assert(s.skip(1).take(k.len() - 1)[i - 1] == k.skip(1)[i - 1]); }
        }
        assert(s.take(k.len() as int) =~= k);
    } else { assert(s.take(0) =~= k); }
}
pub proof fn lemma_enc_first(c: char, d: char) requires enc(c)[0] == enc(d)[0] ensures clen(c) == clen(d) {
    let x = c as u32 as int; let y = d as u32 as int;
    assert(x < 0x110000 && y < 0x110000);
}
pub proof fn lemma_enc_inj(c: char, d: char)
    requires clen(c) == clen(d), forall|i: int| 0 <= i < clen(c) ==> enc(c)[i] == enc(d)[i],
    ensures c == d
{
    lemma_dec(c); lemma_dec(d);
    assert(enc(c)[0] == enc(d)[0]);
    if clen(c) >= 2 { assert(enc(c)[1] == enc(d)[1]); }
    if clen(c) >= 3 { assert(enc(c)[2] == enc(d)[2]); }
    if clen(c) >= 4 { assert(enc(c)[3] == enc(d)[3]); }
    assert(c as u32 as int == d as u32 as int);
}
pub open spec fn dec(b: Seq<u8>) -> int {
    if b.len() == 1 { b[0] as int }
    else if b.len() == 2 { (b[0] - 0xc0) * 64 + (b[1] - 0x80) }
    else if b.len() == 3 { (b[0] - 0xe0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80) }
    else { (b[0] - 0xf0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80) }
}
pub proof fn lemma_dec(c: char) ensures dec(enc(c)) == c as u32 as int {
    let x = c as u32 as int;
    assert(x < 0x110000);
    let (q1, q2, q3) = (x / 64, x / 4096, x / 262144);
    assert(q1 / 64 == q2);
    assert(q2 / 64 == q3);
    lemma_digits64(x, q1, q2, q3);
}
pub proof fn lemma_digits64(x: int, q1: int, q2: int, q3: int)
    requires 0 <= x < 0x110000, q1 == x / 64, q2 == q1 / 64, q3 == q2 / 64,
    ensures x == q1 * 64 + x % 64, x == q2 * 4096 + (q1 % 64) * 64 + x % 64, x == q3 * 262144 + (q2 % 64) * 4096 + (q1 % 64) * 64 + x % 64,
        x < 0x10000 ==> q2 < 16, x < 0x800 ==> q1 < 32, q3 <= 4
{
}
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b {
    assert(utf8(b).take(utf8(a).len() as int) =~= utf8(a));
    lemma_prefix(a, b);
    assert(utf8(a).take(utf8(b).len() as int) =~= utf8(b));
    lemma_prefix(b, a);
}
// trusted: str is UTF-8; slicing at character boundaries
#[verifier::external_body]
pub fn vx_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
pub trait VxBytes { spec fn bs(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.bs()); }
impl VxBytes for str { open spec fn bs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
impl VxBytes for String { open spec fn bs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() } }
} // verus!
