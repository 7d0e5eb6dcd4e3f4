@unit number
@include prelude.inc
@include text.inc
@include slice.inc
@include strbuild.inc
@include split.inc
@method len => vx_len
@method to_string => vx_to_string
@method to_owned => vx_to_string
@method get => vx_find
@type serde_json::Value => Value
@method contains => vx_has
@method join => vx_join
@method split => vx_split
@method push_str => vx_push_str
@method insert => vx_insert
@method insert_str => vx_insert_str
@method clear => vx_clear
@method peekable => vx_peekable
@type HashSet<String> => VxStrSet
@call HashSet::new => vx_new_set
@known @slicing @streq
verus! {
@include strings.inc
@include tokens.inc
@include join.inc
@include tags.inc
@include json.inc
@include json_tags.inc
// ---- trusted: inserting into and emptying a string ------------------------------------------------------
pub trait VxIns { spec fn iv(&self) -> Seq<char>;
    fn vx_insert(&mut self, i: usize, c: char) requires i == 0 || bound(old(self).iv(), i as int),
        ensures i == 0 ==> final(self).iv() == seq![c] + old(self).iv(), i != 0 ==> final(self).iv() == old(self).iv().insert(cidx(old(self).iv(), i as int), c);
    fn vx_insert_str(&mut self, i: usize, t: &str) requires i == 0 || bound(old(self).iv(), i as int),
        ensures i == 0 ==> final(self).iv() == t@ + old(self).iv(), i != 0 ==> final(self).iv() == old(self).iv().take(cidx(old(self).iv(), i as int)) + t@ + old(self).iv().skip(cidx(old(self).iv(), i as int));
    fn vx_clear(&mut self) ensures final(self).iv() == Seq::<char>::empty(); }
impl VxIns for String { open spec fn iv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_insert(&mut self, i: usize, c: char) { self.insert(i, c) }
    #[verifier::external_body] fn vx_insert_str(&mut self, i: usize, t: &str) { self.insert_str(i, t) }
    #[verifier::external_body] fn vx_clear(&mut self) { self.clear() } }
#[verifier::external_body]
pub fn vx_cat2(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { format!("{}{}", a, b) }
#[verifier::external_body]
pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
// trusted: the characters of a string from last to first
#[verifier::external_body]
pub fn vx_rev_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@.reverse() { s.chars().rev().collect() }
// an iterator with one character of lookahead
pub struct VxPeek { pub v: Vec<char>, pub k: usize }
impl VxPeek {
    pub fn new(v: Vec<char>) -> (r: Self) ensures r.v@ == v@, r.k == 0 { VxPeek { v, k: 0 } }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).k <= old(self).v@.len(),
        ensures final(self).v@ == old(self).v@, final(self).k <= final(self).v@.len(), r is None <==> old(self).k == old(self).v@.len(), r is None ==> final(self).k == old(self).k, r is Some ==> r->0 == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1
    { if self.k < self.v.len() { self.k = self.k + 1; Some(self.v[self.k - 1]) } else { None } }
    pub fn peek(&self) -> (r: Option<char>)
        requires self.k <= self.v@.len(),
        ensures r == if self.k < self.v@.len() { Some(self.v@[self.k as int]) } else { None }
    { if self.k < self.v.len() { Some(self.v[self.k]) } else { None } }
}
// ---- reading a numeral from right to left ----------------------------------------------------------------
pub open spec fn dig(c: char) -> int {
    if c == '0' || c == '０' || c == '〇' || c == '零' { 0 } else if c == '1' || c == '１' || c == '一' || c == '壱' { 1 }
    else if c == '2' || c == '２' || c == '二' || c == '弐' { 2 } else if c == '3' || c == '３' || c == '三' || c == '参' { 3 }
    else if c == '4' || c == '４' || c == '四' { 4 } else if c == '5' || c == '５' || c == '五' { 5 } else if c == '6' || c == '６' || c == '六' { 6 }
    else if c == '7' || c == '７' || c == '七' { 7 } else if c == '8' || c == '８' || c == '八' { 8 } else if c == '9' || c == '９' || c == '九' { 9 } else { -1 }
}
// the power of ten of a unit, 0 for any other character
pub open spec fn exp(c: char) -> int {
    if c == '十' || c == '拾' { 1 } else if c == '百' { 2 } else if c == '千' { 3 } else if c == '万' { 4 } else if c == '億' { 8 }
    else if c == '兆' { 12 } else if c == '京' { 16 } else if c == '垓' { 20 } else { 0 }
}
pub open spec fn numeric(c: char) -> bool { dig(c) >= 0 || exp(c) > 0 }
pub open spec fn dch(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
pub open spec fn pad(s: Seq<char>, n: int) -> Seq<char> { zeros(n - s.len()) + s }
// a unit whose 1 was left out: nothing, or a higher unit, stands before it
pub open spec fn opens(c: char, nxt: Option<char>) -> bool { nxt is None || exp(nxt->0) > exp(c) }
pub ghost struct St { pub buf: Seq<char>, pub z: int, pub tail: Seq<char> }
pub open spec fn step(s: St, c: char, nxt: Option<char>) -> St {
    if dig(c) >= 0 { St { buf: seq![dch(dig(c))] + s.buf, ..s } }
    else if exp(c) > 0 {
        let b = pad(s.buf, if exp(c) < 4 { exp(c) + s.z } else { exp(c) });
        St { buf: if opens(c, nxt) { seq!['1'] + b } else { b }, z: if exp(c) < 4 { s.z } else { exp(c) }, tail: s.tail }
    } else { St { buf: Seq::empty(), z: 0, tail: seq![c] + (s.buf + s.tail) } }
}
pub open spec fn init() -> St { St { buf: Seq::empty(), z: 0, tail: Seq::empty() } }
pub open spec fn at(t: Seq<char>, i: int) -> Option<char> { if 0 <= i < t.len() { Some(t[i]) } else { None } }
// after the last k characters
pub open spec fn run(t: Seq<char>, k: int) -> St decreases k { if k <= 0 { init() } else { step(run(t, k - 1), t[t.len() - k], at(t, t.len() - k - 1)) } }
pub open spec fn arabic(t: Seq<char>) -> Seq<char> { run(t, t.len() as int).buf + run(t, t.len() as int).tail }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn lemma_ascii(s: Seq<char>) requires ascii(s) ensures blen(s) == s.len() decreases s.len() {
    if s.len() > 0 {
        assert(ascii(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i] as u32) < 0x80 by { assert(s.skip(1)[i] == s[i + 1]); } }
        lemma_ascii(s.skip(1));
        assert((s[0] as u32) < 0x80);
    }
}
pub proof fn lemma_ascii_bound(s: Seq<char>, k: int) requires ascii(s), 0 <= k <= s.len() ensures bound(s, k), cidx(s, k) == k {
    assert(ascii(s.take(k))) by { assert forall|i: int| 0 <= i < s.take(k).len() implies (#[trigger] s.take(k)[i] as u32) < 0x80 by { assert(s.take(k)[i] == s[i]); } }
    lemma_ascii(s.take(k));
    lemma_bound(s, k);
}
@item fn lindera-filter/src/token_filter/japanese_number.rs adjust_digits
@ret r
@replace format!("{}{}", $a, $b) ==> vx_cat2($a, $b)
@spec
  requires ascii(num@), base@ + digit@ == zeros((base@ + digit@).len() as int),
  ensures r@ == pad(num@, (base@ + digit@).len() as int)
@at start
  proof { lemma_ascii(num@); lemma_ascii(base@ + digit@); }
@at let zeros 0 before
  proof {
     let n = (base@ + digit@).len() as int;
     let m = if n >= num@.len() { n - num@.len() } else { 0 };
     lemma_ascii_bound(base@ + digit@, m); lemma_ascii_bound(base@ + digit@, 0);
     assert((base@ + digit@).subrange(0, m) =~= zeros(n - num@.len()));
  }
@end
@item fn lindera-filter/src/token_filter/japanese_number.rs to_arabic_numerals
@ret r
@replace from_str.chars().rev().collect::<Vec<char>>() ==> vx_rev_chars(from_str)
@replace $a.iter().peekable() ==> VxPeek::new($a)
@replace *c ==> c
@spec
  ensures r@ == arabic(from_str@)
@at start
  let ghost t = from_str@;
@loop 0
  invariant t == from_str@, i.v@ == t.reverse(), i.k <= t.len(), num_buf@ == run(t, i.k as int).buf, digit@ == zeros(run(t, i.k as int).z), run(t, i.k as int).z >= 0, tail@ == run(t, i.k as int).tail, ascii(num_buf@),
  ensures i.k == t.len(),
  decreases t.len() - i.k
@at loop 0 body_start
  let ghost k = i.k as int;
  let ghost s0 = run(t, k - 1);
  proof { lemma_lits(); assert(c == t[t.len() - k]); assert(run(t, k) == step(s0, c, at(t, t.len() - k - 1))); lemma_zeros_cat(exp(c), s0.z); lemma_zeros_cat(0, exp(c)); lemma_ascii_zeros(s0.buf, exp(c) + s0.z); lemma_ascii_zeros(s0.buf, exp(c)); }
@end
pub proof fn lemma_zeros_cat(a: int, b: int) requires a >= 0, b >= 0 ensures zeros(a) + zeros(b) == zeros(a + b), zeros(b).len() == b { assert(zeros(a) + zeros(b) =~= zeros(a + b)); }
pub proof fn lemma_ascii_zeros(s: Seq<char>, n: int) requires ascii(s) ensures ascii(pad(s, n)), ascii(seq!['1'] + pad(s, n)) {
    assert forall|i: int| 0 <= i < pad(s, n).len() implies (#[trigger] pad(s, n)[i] as u32) < 0x80 by { if i >= pad(s, n).len() - s.len() { assert(pad(s, n)[i] == s[i - (pad(s, n).len() - s.len())]); } }
    let u = seq!['1'] + pad(s, n);
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i] as u32) < 0x80 by { if i > 0 { assert(u[i] == pad(s, n)[i - 1]); } }
}
pub proof fn lemma_lits() ensures "0"@ == zeros(1), "00"@ == zeros(2), "000"@ == zeros(3), "0000"@ == zeros(4), "00000000"@ == zeros(8), "000000000000"@ == zeros(12), "0000000000000000"@ == zeros(16), "00000000000000000000"@ == zeros(20), ""@ == zeros(0) {
    reveal_strlit("0"); reveal_strlit("00"); reveal_strlit("000"); reveal_strlit("0000"); reveal_strlit("00000000"); reveal_strlit("000000000000"); reveal_strlit("0000000000000000"); reveal_strlit("00000000000000000000"); reveal_strlit("");
    assert("0"@ =~= zeros(1)); assert("00"@ =~= zeros(2)); assert("000"@ =~= zeros(3)); assert("0000"@ =~= zeros(4)); assert("00000000"@ =~= zeros(8)); assert("000000000000"@ =~= zeros(12)); assert("0000000000000000"@ =~= zeros(16)); assert("00000000000000000000"@ =~= zeros(20)); assert(""@ =~= zeros(0));
}
// ---- canonical numerals of up to 24 decimal digits ----------------------------------------------------------
// d: digit at each power of ten; sp: the character written for it; om: a 1 before a unit is left out; alt: 拾 for 十
pub ghost struct Num { pub d: spec_fn(int) -> int, pub sp: spec_fn(int) -> char, pub om: spec_fn(int) -> bool, pub alt: spec_fn(int) -> bool }
pub open spec fn ok(n: Num) -> bool { forall|p: int| 0 <= p < 24 ==> 0 <= #[trigger] (n.d)(p) <= 9 && dig((n.sp)(p)) == (n.d)(p) }
pub open spec fn grp(n: Num, k: int) -> bool { (n.d)(4 * k) > 0 || (n.d)(4 * k + 1) > 0 || (n.d)(4 * k + 2) > 0 || (n.d)(4 * k + 3) > 0 }
pub open spec fn only1(n: Num, k: int) -> bool { (n.d)(4 * k) == 1 && (n.d)(4 * k + 1) == 0 && (n.d)(4 * k + 2) == 0 && (n.d)(4 * k + 3) == 0 }
pub open spec fn uch(n: Num, p: int) -> char {
    if p % 4 == 1 { if (n.alt)(p) { '拾' } else { '十' } } else if p % 4 == 2 { '百' } else if p % 4 == 3 { '千' }
    else if p == 4 { '万' } else if p == 8 { '億' } else if p == 12 { '兆' } else if p == 16 { '京' } else { '垓' }
}
pub open spec fn pexp(p: int) -> int { if p % 4 > 0 { p % 4 } else { p } }
// the digit written at power p, if any
pub open spec fn dpart(n: Num, p: int) -> Seq<char> {
    if (n.d)(p) == 0 || (p > 0 && (n.d)(p) == 1 && (n.om)(p) && (p % 4 > 0 || only1(n, p / 4))) { Seq::empty() } else { seq![(n.sp)(p)] }
}
pub open spec fn has_unit(n: Num, p: int) -> bool { if p % 4 > 0 { (n.d)(p) > 0 } else { p > 0 && grp(n, p / 4) } }
pub open spec fn part(n: Num, p: int) -> Seq<char> { if has_unit(n, p) { dpart(n, p).push(uch(n, p)) } else { dpart(n, p) } }
// the numeral below power p
pub open spec fn num(n: Num, p: int) -> Seq<char> decreases p { if p <= 0 { Seq::empty() } else { part(n, p - 1) + num(n, p - 1) } }
pub open spec fn numeral(n: Num) -> Seq<char> { num(n, 24) }
pub open spec fn before(n: Num, k: int) -> Option<char> { at(numeral(n), numeral(n).len() - k - 1) }
pub proof fn lemma_suffix(n: Num, p: int)
    requires 0 <= p <= 24,
    ensures num(n, p).len() <= numeral(n).len(), numeral(n).skip(numeral(n).len() - num(n, p).len()) == num(n, p)
    decreases 24 - p
{
    if p < 24 {
        lemma_suffix(n, p + 1);
        let t = numeral(n);
        assert(num(n, p + 1) == part(n, p) + num(n, p));
        assert(t.skip(t.len() - num(n, p).len()) =~= t.skip(t.len() - num(n, p + 1).len()).skip(part(n, p).len() as int));
        assert(num(n, p + 1).skip(part(n, p).len() as int) =~= num(n, p));
    } else { assert(numeral(n).skip(0) =~= numeral(n)); }
}
pub proof fn lemma_part_at(n: Num, p: int, i: int)
    requires 0 <= p < 24, 0 <= i < part(n, p).len(),
    ensures num(n, p + 1).len() == part(n, p).len() + num(n, p).len(), before(n, num(n, p + 1).len() - i - 1) == Some(part(n, p)[i])
{
    lemma_suffix(n, p + 1);
    let t = numeral(n);
    assert(num(n, p + 1) == part(n, p) + num(n, p));
    assert(t.skip(t.len() - num(n, p + 1).len())[i] == num(n, p + 1)[i]);
}
// what stands before the numeral below power p: the unit of the next power written
pub proof fn lemma_next(n: Num, p: int) -> (q: int)
    requires 0 < p <= 24, ok(n),
    ensures p <= q <= 24, forall|r: int| p <= r < q ==> !#[trigger] has_unit(n, r), q < 24 ==> has_unit(n, q) && before(n, num(n, p).len() as int) == Some(uch(n, q)),
        q == 24 ==> before(n, num(n, p).len() as int) is None
    decreases 24 - p
{
    if p == 24 { 24 }
    else if has_unit(n, p) { lemma_part_at(n, p, part(n, p).len() - 1); assert(0 <= (n.d)(p)); p }
    else {
        let q = lemma_next(n, p + 1);
        assert(0 <= (n.d)(p) <= 9);
        assert(dpart(n, p).len() == 0) by { if p % 4 == 0 { assert(4 * (p / 4) == p); } }
        assert(num(n, p + 1) =~= num(n, p));
        q
    }
}
pub open spec fn dr(n: Num, l: int) -> Seq<char> { Seq::new(if l > 0 { l as nat } else { 0 }, |i: int| dch((n.d)(l - 1 - i))) }
// how many digits are in place after power p
pub open spec fn bl(n: Num, p: int) -> int decreases p {
    if p <= 0 { 0 } else if (n.d)(p - 1) > 0 { p } else if has_unit(n, p - 1) { p - 1 } else { bl(n, p - 1) }
}
pub open spec fn inv(n: Num, p: int) -> bool {
    let s = run(numeral(n), num(n, p).len() as int);
    let b = bl(n, p);
    &&& s.tail == Seq::<char>::empty() && s.buf == dr(n, b) && 0 <= b <= p
    &&& forall|q: int| b <= q < p ==> #[trigger] (n.d)(q) == 0
    &&& p < 4 ==> s.z == 0
    &&& p % 4 > 0 && p > 4 && grp(n, p / 4) ==> s.z == 4 * (p / 4) && b >= s.z
    &&& b == 0 || (n.d)(b - 1) > 0 || (p % 4 > 0 && b == 4 * (p / 4) && grp(n, p / 4))
}
pub proof fn lemma_pad_dr(n: Num, b: int, p: int) requires 0 <= b <= p, forall|q: int| b <= q < p ==> #[trigger] (n.d)(q) == 0 ensures pad(dr(n, b), p) == dr(n, p) {
    assert forall|i: int| 0 <= i < p implies pad(dr(n, b), p)[i] == dr(n, p)[i] by { if i < p - b { assert((n.d)(p - 1 - i) == 0); } }
    assert(pad(dr(n, b), p) =~= dr(n, p));
}
pub proof fn lemma_exp_uch(n: Num, p: int) requires 0 < p < 24 ensures exp(uch(n, p)) == pexp(p), dig(uch(n, p)) < 0 { }
pub proof fn lemma_dig_not_unit(c: char) ensures dig(c) >= 0 ==> exp(c) == 0 {}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_power(n: Num, p: int) requires 0 <= p < 24, ok(n), inv(n, p) ensures inv(n, p + 1) {
    let t = numeral(n);
    let m = num(n, p).len() as int;
    let s = run(t, m);
    let k = p / 4;
    let d = (n.d)(p);
    assert(0 <= d <= 9 && dig((n.sp)(p)) == d);
    let q = lemma_next(n, p + 1);
    assert(num(n, p + 1) == part(n, p) + num(n, p));
    lemma_suffix(n, p + 1);
    assert(bl(n, p + 1) == if d > 0 { p + 1 } else if has_unit(n, p) { p } else { bl(n, p) });
    lemma_pad_dr(n, bl(n, p), p);
    assert(seq![dch(d)] + dr(n, p) =~= dr(n, p + 1));
    let l = part(n, p).len() as int;
    // after the unit
    let s1 = run(t, m + (if has_unit(n, p) { 1int } else { 0 }));
    if has_unit(n, p) {
        lemma_part_at(n, p, l - 1);
        lemma_exp_uch(n, p);
        let u = uch(n, p);
        let nx = at(t, t.len() - m - 2);
        assert(s1 == step(s, u, nx));
        assert(p % 4 > 0 ==> s.z + p % 4 == p) by {}
        if dpart(n, p).len() > 0 {
            lemma_part_at(n, p, 0);
            assert(nx == Some((n.sp)(p)));
            lemma_dig_not_unit((n.sp)(p));
            assert(s1.buf == dr(n, p));
            assert(run(t, m + 2) == step(s1, (n.sp)(p), at(t, t.len() - m - 3)));
            assert(run(t, m + 2).buf == dr(n, p + 1));
        } else {
            assert(l == 1);
            assert(nx == before(n, num(n, p + 1).len() as int));
            if q < 24 { lemma_exp_uch(n, q); }
            if d > 0 {
                assert(d == 1);
                if q < 24 && q / 4 == k { assert(p % 4 > 0 || only1(n, k)); assert(q % 4 > p % 4); }
                if q < 24 && q / 4 > k { let f = 4 * (q / 4); assert(f / 4 == q / 4); assert(grp(n, q / 4)) by { assert(has_unit(n, q)); if q % 4 > 0 { assert(q == f + 1 || q == f + 2 || q == f + 3); } } assert(has_unit(n, f)); assert(q == f); }
                assert(opens(u, nx));
                assert(s1.buf == dr(n, p + 1));
            } else {
                assert(p % 4 == 0 && grp(n, k) && 4 * k == p);
                assert(has_unit(n, p + 1) || has_unit(n, p + 2) || has_unit(n, p + 3));
                assert(q <= p + 3);
                assert(!opens(u, nx));
                assert(s1.buf == dr(n, p));
            }
        }
    } else if d > 0 {
        assert(p == 0) by { if p % 4 == 0 { assert(4 * k == p); } }
        lemma_part_at(n, p, 0);
        lemma_pad_dr(n, 0, 0);
        assert(run(t, m + 1) == step(s, (n.sp)(p), at(t, t.len() - m - 2)));
        assert(s.buf =~= Seq::<char>::empty());
        assert(run(t, m + 1).buf =~= dr(n, p + 1));
    } else {
        assert(l == 0);
        if p % 4 == 0 { assert(4 * k == p); }
    }
    let b1 = bl(n, p + 1);
    assert forall|r: int| b1 <= r < p + 1 implies #[trigger] (n.d)(r) == 0 by { }
}
pub proof fn lemma_canonical(n: Num, p: int) requires 0 <= p <= 24, ok(n) ensures inv(n, p) decreases p {
    if p > 0 { lemma_canonical(n, p - 1); lemma_power(n, p - 1); }
    else { assert(dr(n, 0) =~= Seq::<char>::empty()); }
}
// the result is the decimal notation: no leading zero, all digits above are 0
pub proof fn lemma_numeral(n: Num) -> (l: int)
    requires ok(n),
    ensures 0 <= l <= 24, arabic(numeral(n)) == dr(n, l), l > 0 ==> (n.d)(l - 1) > 0, forall|q: int| l <= q < 24 ==> #[trigger] (n.d)(q) == 0
{
    lemma_canonical(n, 24);
    assert(dr(n, bl(n, 24)) + Seq::<char>::empty() =~= dr(n, bl(n, 24)));
    bl(n, 24)
}
pub open spec fn digits_of(t: Seq<char>) -> Seq<char> { Seq::new(t.len(), |i: int| dch(dig(t[i]))) }
pub proof fn lemma_positional(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| 0 <= i < t.len() ==> dig(#[trigger] t[i]) >= 0,
    ensures run(t, k).buf == digits_of(t).skip(t.len() - k), run(t, k).tail == Seq::<char>::empty()
    decreases k
{
    if k > 0 {
        lemma_positional(t, k - 1);
        assert(dig(t[t.len() - k]) >= 0);
        assert(digits_of(t).skip(t.len() - k) =~= seq![dch(dig(t[t.len() - k]))] + digits_of(t).skip(t.len() - k + 1));
    } else { assert(digits_of(t).skip(t.len() as int) =~= Seq::<char>::empty()); }
}
// a digit string keeps its digits
pub proof fn lemma_digit_string(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> dig(#[trigger] t[i]) >= 0,
    ensures arabic(t) == digits_of(t)
{
    lemma_positional(t, t.len() as int);
    assert(digits_of(t).skip(0) + Seq::<char>::empty() =~= digits_of(t));
}
pub open spec fn others(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !numeric(c)) }
pub proof fn lemma_others_cat(a: Seq<char>, b: Seq<char>) ensures others(a + b) == others(a) + others(b) { Seq::filter_distributes_over_add(a, b, |c: char| !numeric(c)); }
pub proof fn lemma_others_one(c: char) ensures others(seq![c]) == if numeric(c) { Seq::<char>::empty() } else { seq![c] } {
    reveal(Seq::filter); reveal_with_fuel(Seq::filter, 2);
    let s = seq![c];
    assert(s.drop_last() =~= Seq::<char>::empty());
}
pub proof fn lemma_others_zeros(n: int) ensures others(zeros(n)).len() == 0 decreases n {
    reveal(Seq::filter);
    if n > 0 { lemma_others_zeros(n - 1); assert(zeros(n).drop_last() =~= zeros(n - 1)); assert(numeric('0')); }
    else { assert(zeros(n) =~= Seq::<char>::empty()); }
}
pub proof fn lemma_kept_run(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures others(run(t, k).buf).len() == 0, others(run(t, k).tail) == others(t.skip(t.len() - k))
    decreases k
{
    reveal(Seq::filter);
    if k > 0 {
        lemma_kept_run(t, k - 1);
        let s = run(t, k - 1);
        let c = t[t.len() - k];
        let s1 = run(t, k);
        assert(s1 == step(s, c, at(t, t.len() - k - 1)));
        assert(t.skip(t.len() - k) =~= seq![c] + t.skip(t.len() - k + 1));
        lemma_others_cat(seq![c], t.skip(t.len() - k + 1));
        lemma_others_one(c);
        assert(Seq::<char>::empty() + others(s.tail) =~= others(s.tail));
        if dig(c) >= 0 {
            lemma_others_cat(seq![dch(dig(c))], s.buf); lemma_others_one(dch(dig(c))); assert(numeric(dch(dig(c))));
        } else if exp(c) > 0 {
            let n = if exp(c) < 4 { exp(c) + s.z } else { exp(c) };
            lemma_others_cat(zeros(n - s.buf.len()), s.buf); lemma_others_zeros(n - s.buf.len());
            lemma_others_cat(seq!['1'], pad(s.buf, n)); lemma_others_one('1'); assert(numeric('1'));
        } else {
            lemma_others_cat(seq![c], s.buf + s.tail); lemma_others_cat(s.buf, s.tail);
            assert(others(s.buf) + others(s.tail) =~= others(s.tail));
        }
    } else { assert(t.skip(t.len() as int) =~= Seq::<char>::empty()); }
}
// whatever the text, its other characters are kept in order
pub proof fn lemma_arabic_keeps(t: Seq<char>) ensures others(arabic(t)) == others(t) {
    let s = run(t, t.len() as int);
    lemma_kept_run(t, t.len() as int);
    lemma_others_cat(s.buf, s.tail);
    assert(t.skip(0) =~= t);
    assert(others(s.buf) + others(s.tail) =~= others(s.tail));
}
// ---- the filter --------------------------------------------------------------------------------------------
impl VxStrSet {
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
@item struct lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilterConfig
@end
@item struct lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilter
@end
@item fn lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilterConfig::new
@ret r
@spec
  ensures tags is None ==> r.tags is None, tags is Some ==> r.tags is Some && fmt_all(tags->0@, r.tags->0@)
@loop 0
  invariant
    forall|x: Seq<char>| #[trigger] tags@.contains(x) <==> among(it0.seq(), x),
    forall|k: int| 0 <= k < it0.index() ==> formatted_tags@.contains(tag_fmt((#[trigger] it0.seq()[k])@)),
    forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) ==> exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t)
@at loop 0 body_start
  proof { assert(tag == it0.seq()[it0.index()]); assert(among(it0.seq(), tag@)); }
  let ghost ps = split_on(tag@, ',');
  let ghost g0 = formatted_tags@;
@loop 1
  invariant_except_break
    vxn2 == it1.index(), vxt4 == 4 - it1.index(), strs(formatted_tag@) == pad4(ps.take(it1.index())),
    it1.index() == it1.seq().len() ==> strs(formatted_tag@) == pad4(ps)
  invariant
    ps == split_on(tag@, ','), it1.seq().len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> (#[trigger] it1.seq()[j])@ == ps[j],
  ensures strs(formatted_tag@) == pad4(ps)
@at loop 1 before
  proof { assert(strs(tag_array@) == ps); assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] tag_array@[j])@ == ps[j] by { assert(strs(tag_array@)[j] == ps[j]); } lemma_split_some(tag@, ','); assert(strs(formatted_tag@) =~= pad4(ps.take(0))); }
@at loop 1 body_start
  let ghost f0 = formatted_tag@;
  proof { if it1.index() >= 4 { assert(pad4(ps.take(it1.index())) =~= pad4(ps)); } }
@at loop 1 body_end
  proof { lemma_pad_step(f0, formatted_tag@, ps, it1.index()); assert(ps.take(ps.len() as int) =~= ps); }
@at loop 0 body_end
  proof { assert(tags@.contains(tag@)); assert forall|u: Seq<char>| #[trigger] formatted_tags@.contains(u) implies exists|t: Seq<char>| #[trigger] tags@.contains(t) && u == tag_fmt(t) by { if !g0.contains(u) { assert(u == tag_fmt(tag@)); } } }
@end
pub open spec fn selected(c: JapaneseNumberTokenFilterConfig, t: TokV) -> bool { c.tags is Some ==> c.tags->0@.contains(tag_of(t.details)) }
pub open spec fn numbered(c: JapaneseNumberTokenFilterConfig, t: TokV) -> TokV { if selected(c, t) { with_text(t, arabic(t.text)) } else { t } }
@item fn lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilter::apply
@impl impl JapaneseNumberTokenFilter
@spec
  ensures r is Ok, final(tokens)@.len() == old(tokens)@.len(), forall|i: int| 0 <= i < old(tokens)@.len() ==> tv(#[trigger] final(tokens)@[i]) == numbered(self.config, tv(old(tokens)@[i]))
@at start
  let ghost all = tokens@;
@loop 0
  invariant
    it0.seq().len() == all.len(), forall|j: int| 0 <= j < all.len() ==> *(#[trigger] it0.seq()[j]) == all[j],
    forall|j: int| 0 <= j < it0.index() ==> tv(*final(#[trigger] it0.seq()[j])) == numbered(self.config, tv(all[j]))
@at loop 0 body_start
  let ghost t0 = tv(all[it0.index()]);
  let ghost d = t0.details;
  proof { assert(*it0.seq()[it0.index()] == all[it0.index()]); }
@loop 1
  invariant
    d == dv(token.details@), t0 == tv(*token), it1.seq().len() == tag_parts(d).len(), vxn2 == it1.index(), tag_parts(d).len() <= 4,
    forall|j: int| 0 <= j < it1.seq().len() ==> (#[trigger] it1.seq()[j])@ == tag_parts(d)[j],
    strs(tag_vec@) == pad4(tag_parts(d).take(it1.index()))
@at loop 1 body_start
  let ghost f0 = tag_vec@;
  proof { assert(vxe1 == it1.seq()[it1.index()]); }
@at loop 1 body_end
  proof { lemma_pad_step(f0, tag_vec@, tag_parts(d), it1.index()); }
@at loop 1 after
  proof { assert(tag_parts(d).take(tag_parts(d).len() as int) =~= tag_parts(d)); }
@end
@item fn lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilterConfig::from_value
@ret r
@spec
  ensures tag_list(*value) is None ==> r is Ok && r->Ok_0.tags is None, tag_list(*value) is Some ==> (r is Ok <==> all_strings(tag_list(*value)->0)),
     tag_list(*value) is Some && r is Ok ==> r->Ok_0.tags is Some && fmt_list(tag_list(*value)->0, r->Ok_0.tags->0@)
@at start
  let ghost l = tag_list(*value)->0;
@loop 0
  invariant tag_list(*value) is Some, l == tag_list(*value)->0, it0.seq().len() == l.len(), forall|j: int| 0 <= j < l.len() ==> *(#[trigger] it0.seq()[j]) == l[j],
     holds(vxc1@, l.take(it0.index())), forall|j: int| 0 <= j < it0.index() ==> jstr(#[trigger] l[j]) is Some
@at loop 0 body_start
  proof { assert(*it0.seq()[it0.index()] == l[it0.index()]); if jstr(l[it0.index()]) is Some { lemma_holds_step(vxc1@, l, it0.index()); } }
@at loop 0 after
  proof { assert(l.take(l.len() as int) =~= l); }
@at tail
  proof { if tags is Some { lemma_fmt_list(tags->0@, l, vx_ret->Ok_0.tags->0@); } }
@end
@item fn lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilter::new
@ret r
@spec
  ensures r.config == config
@end
fn main() {}
} // verus!
