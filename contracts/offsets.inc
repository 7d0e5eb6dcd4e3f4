// ---- C11: the offset table of a character filter ----------------------------------------------
// a piece is a run of input bytes and the run of output bytes it became: (input length, output length)
pub open spec fn isum(ps: Seq<(int, int)>) -> int decreases ps.len() { if ps.len() == 0 { 0 } else { isum(ps.drop_last()) + ps.last().0 } }
pub open spec fn osum(ps: Seq<(int, int)>) -> int decreases ps.len() { if ps.len() == 0 { 0 } else { osum(ps.drop_last()) + ps.last().1 } }
pub open spec fn nonneg(ps: Seq<(int, int)>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).0 >= 0 && ps[k].1 >= 0 }
// what the table says about output offset o
pub open spec fn corr(os: Seq<usize>, ds: Seq<i64>, o: int) -> int decreases os.len() {
    if os.len() == 0 { o } else if os.last() <= o { o + ds.last() } else { corr(os.drop_last(), ds.drop_last(), o) }
}
pub open spec fn ascending(os: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < os.len() ==> os[i] < os[j] }
pub open spec fn last_diff(ds: Seq<i64>) -> int { if ds.len() == 0 { 0 } else { ds.last() as int } }
pub open spec fn added(os: Seq<usize>, ds: Seq<i64>, o: usize, d: i64) -> (Seq<usize>, Seq<i64>) {
    if os.len() > 0 && os.last() == o { (os, ds.drop_last().push(d)) } else { (os.push(o), ds.push(d)) }
}
// v lies where output offset o belongs: not before the piece that o starts or is in, and not beyond it
pub open spec fn at_piece(ps: Seq<(int, int)>, k: int, o: int, v: int) -> bool {
    &&& o >= osum(ps.take(k)) ==> v >= isum(ps.take(k))
    &&& o < osum(ps.take(k)) || (o == osum(ps.take(k)) && (k == ps.len() || ps[k].1 > 0)) ==> v <= isum(ps.take(k))
}
pub open spec fn at(ps: Seq<(int, int)>, o: int, v: int) -> bool { forall|k: int| 0 <= k <= ps.len() ==> #[trigger] at_piece(ps, k, o, v) }
// the table maps every boundary between pieces back, and every other offset in between, monotonically
pub open spec fn tab(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>) -> bool {
    &&& os.len() == ds.len() && nonneg(ps) && ascending(os)
    &&& (os.len() > 0 ==> os.last() <= osum(ps))
    &&& last_diff(ds) == isum(ps) - osum(ps)
    &&& forall|o: int| 0 <= o <= osum(ps) ==> at(ps, o, #[trigger] corr(os, ds, o))
    &&& forall|o: int, p: int| 0 <= o <= p <= osum(ps) ==> #[trigger] corr(os, ds, o) <= #[trigger] corr(os, ds, p)
}
pub proof fn lemma_tab0() ensures tab(Seq::empty(), Seq::empty(), Seq::empty()) {}
// C11: a boundary between pieces maps back exactly (a deleted piece collapses onto the boundary after it)
pub proof fn c11_boundary(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, k: int)
    requires tab(os, ds, ps), 0 <= k <= ps.len(), k == ps.len() || ps[k].1 > 0,
    ensures corr(os, ds, osum(ps.take(k))) == isum(ps.take(k))
{
    lemma_sums(ps, k);
    assert(at_piece(ps, k, osum(ps.take(k)), corr(os, ds, osum(ps.take(k)))));
}
pub proof fn lemma_sums(ps: Seq<(int, int)>, k: int)
    requires nonneg(ps), 0 <= k <= ps.len(),
    ensures 0 <= isum(ps.take(k)) <= isum(ps), 0 <= osum(ps.take(k)) <= osum(ps)
    decreases ps.len()
{
    if k < ps.len() {
        assert(ps.drop_last().take(k) =~= ps.take(k));
        lemma_sums(ps.drop_last(), k);
        assert(ps[ps.len() - 1].0 >= 0);
    } else {
        assert(ps.take(k) =~= ps);
        if k > 0 { lemma_sums(ps.drop_last(), k - 1); assert(ps.drop_last().take(k - 1) =~= ps.drop_last()); assert(ps[ps.len() - 1].0 >= 0); }
    }
}
// C11: never beyond the input, never before its start
pub proof fn c11_range(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, o: int)
    requires tab(os, ds, ps), 0 <= o <= osum(ps),
    ensures 0 <= corr(os, ds, o) <= isum(ps)
{
    let v = corr(os, ds, o);
    assert(at_piece(ps, 0, o, v));
    assert(ps.take(0) =~= Seq::empty());
    assert(at_piece(ps, ps.len() as int, o, v));
    assert(ps.take(ps.len() as int) =~= ps);
}
pub proof fn lemma_corr_beyond(os: Seq<usize>, ds: Seq<i64>, o: int)
    requires os.len() == ds.len(), ascending(os), os.len() > 0 ==> os.last() <= o,
    ensures corr(os, ds, o) == o + last_diff(ds)
{
}
pub proof fn lemma_push_sums(ps: Seq<(int, int)>, i: int, o: int)
    ensures isum(ps.push((i, o))) == isum(ps) + i, osum(ps.push((i, o))) == osum(ps) + o
{
    assert(ps.push((i, o)).drop_last() =~= ps);
}
// a new table over one more piece, given what it says up to and after the old end
pub proof fn lemma_extend(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, os2: Seq<usize>, ds2: Seq<i64>, i: int, o: int)
    requires
        tab(os, ds, ps), i >= 0, o >= 0,
        os2.len() == ds2.len(), ascending(os2), os2.len() > 0 ==> os2.last() <= osum(ps) + o,
        last_diff(ds2) == isum(ps) + i - osum(ps) - o,
        forall|x: int| 0 <= x < osum(ps) ==> corr(os2, ds2, x) == #[trigger] corr(os, ds, x),
        forall|x: int| osum(ps) <= x < osum(ps) + o ==> isum(ps) <= #[trigger] corr(os2, ds2, x) <= isum(ps) + i,
        o > 0 ==> corr(os2, ds2, osum(ps)) == isum(ps),
        forall|x: int, y: int| osum(ps) <= x <= y < osum(ps) + o ==> #[trigger] corr(os2, ds2, x) <= #[trigger] corr(os2, ds2, y),
    ensures tab(os2, ds2, ps.push((i, o)))
{
    let qs = ps.push((i, o));
    let n = ps.len() as int;
    lemma_push_sums(ps, i, o);
    lemma_sums(ps, n);
    assert(ps.take(n) =~= ps);
    lemma_corr_beyond(os2, ds2, osum(ps) + o);
    assert forall|x: int| 0 <= x <= osum(qs) implies at(qs, x, #[trigger] corr(os2, ds2, x)) by {
        let v = corr(os2, ds2, x);
        assert forall|k: int| 0 <= k <= qs.len() implies #[trigger] at_piece(qs, k, x, v) by {
            if k <= n {
                assert(qs.take(k) =~= ps.take(k));
                lemma_sums(ps, k);
                if x < osum(ps) { let w = corr(os, ds, x); assert(at_piece(ps, k, x, w)); assert(at_piece(ps, n, x, w)); }
                else if k < n && x == osum(ps.take(k)) && qs[k].1 > 0 {
                    lemma_take_next(ps, k);
                    lemma_sums(ps, k + 1);
                }
            } else {
                assert(qs.take(k) =~= qs);
                if x < osum(ps) { let w = corr(os, ds, x); assert(at_piece(ps, n, x, w)); }
            }
        }
    }
    assert forall|x: int, y: int| 0 <= x <= y <= osum(qs) implies #[trigger] corr(os2, ds2, x) <= #[trigger] corr(os2, ds2, y) by {
        if x < osum(ps) {
            assert(corr(os2, ds2, x) == corr(os, ds, x));
            let w = corr(os, ds, x);
            assert(at_piece(ps, n, x, w));
            if y < osum(ps) { assert(corr(os2, ds2, y) == corr(os, ds, y)); }
        }
    }
}
pub proof fn lemma_take_next(ps: Seq<(int, int)>, k: int)
    requires 0 <= k < ps.len(),
    ensures osum(ps.take(k + 1)) == osum(ps.take(k)) + ps[k].1, isum(ps.take(k + 1)) == isum(ps.take(k)) + ps[k].0
{
    assert(ps.take(k + 1).drop_last() =~= ps.take(k));
}
pub proof fn lemma_same(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, l: int)
    requires tab(os, ds, ps), l >= 0,
    ensures tab(os, ds, ps.push((l, l)))
{
    assert forall|x: int| osum(ps) <= x implies #[trigger] corr(os, ds, x) == x + isum(ps) - osum(ps) by { lemma_corr_beyond(os, ds, x); }
    lemma_extend(os, ds, ps, os, ds, l, l);
}
pub proof fn lemma_shrink(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, i: int, o: int, off: usize, d: i64)
    requires tab(os, ds, ps), 0 <= o < i, off == osum(ps) + o, d == isum(ps) + i - osum(ps) - o,
    ensures tab(added(os, ds, off, d).0, added(os, ds, off, d).1, ps.push((i, o)))
{
    let (os2, ds2) = added(os, ds, off, d);
    lemma_sums(ps, ps.len() as int);
    assert forall|x: int| 0 <= x < off implies corr(os2, ds2, x) == #[trigger] corr(os, ds, x) by {
        if os.len() > 0 && os.last() == off { assert(ds2.drop_last() =~= ds.drop_last()); }
        else { assert(os2.drop_last() =~= os && ds2.drop_last() =~= ds); }
    }
    assert forall|x: int| osum(ps) <= x < off implies #[trigger] corr(os2, ds2, x) == x + isum(ps) - osum(ps) by { lemma_corr_beyond(os, ds, x); assert(corr(os2, ds2, x) == corr(os, ds, x)); }
    lemma_extend(os, ds, ps, os2, ds2, i, o);
}
// n entries one byte apart, each taking one more byte back
pub open spec fn run_os(b: int, n: int) -> Seq<usize> { Seq::new(n as nat, |j: int| (b + j) as usize) }
pub open spec fn run_ds(p: int, n: int) -> Seq<i64> { Seq::new(n as nat, |j: int| (p - 1 - j) as i64) }
pub open spec fn fits64(ps: Seq<(int, int)>) -> bool { isum(ps) <= 0x7fff_ffff_ffff_ffff && osum(ps) <= 0x7fff_ffff_ffff_ffff }
pub proof fn lemma_run_step(os: Seq<usize>, ds: Seq<i64>, b: int, p: int, n: int)
    requires n >= 0,
    ensures
        (os + run_os(b, n)).push((b + n) as usize) =~= os + run_os(b, n + 1),
        (ds + run_ds(p, n)).push((p - 1 - n) as i64) =~= ds + run_ds(p, n + 1),
        os + run_os(b, 0) =~= os, ds + run_ds(p, 0) =~= ds,
        n > 0 ==> (os + run_os(b, n)).last() == (b + n - 1) as usize,
{
}
pub proof fn lemma_corr_run(os: Seq<usize>, ds: Seq<i64>, b: int, p: int, n: int, x: int)
    requires os.len() == ds.len(), n >= 0, 0 <= b, b + n <= 0x8000_0000_0000_0000, -0x7fff_ffff_ffff_ffff <= p - n, p <= 0x7fff_ffff_ffff_ffff,
    ensures
        x < b ==> corr(os + run_os(b, n), ds + run_ds(p, n), x) == corr(os, ds, x),
        n > 0 && x >= b ==> corr(os + run_os(b, n), ds + run_ds(p, n), x) == x + p - 1 - (if x - b < n - 1 { x - b } else { n - 1 }),
    decreases n
{
    if n > 0 {
        let (o2, d2) = (os + run_os(b, n), ds + run_ds(p, n));
        assert(o2.drop_last() =~= os + run_os(b, n - 1));
        assert(d2.drop_last() =~= ds + run_ds(p, n - 1));
        assert(o2.last() == b + n - 1);
        assert(d2.last() == p - n);
        lemma_corr_run(os, ds, b, p, n - 1, x);
    } else {
        assert(os + run_os(b, n) =~= os);
        assert(ds + run_ds(p, n) =~= ds);
    }
}
pub proof fn lemma_grow(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, i: int, o: int)
    requires tab(os, ds, ps), 0 <= i < o, fits64(ps.push((i, o))),
    ensures ({
        let b = osum(ps) + if i == 0 { 1 } else { i };
        tab(os + run_os(b, o - i), ds + run_ds(isum(ps) - osum(ps), o - i), ps.push((i, o)))
    })
{
    let b = osum(ps) + if i == 0 { 1 } else { i };
    let p = isum(ps) - osum(ps);
    let n = o - i;
    let (o2, d2) = (os + run_os(b, n), ds + run_ds(p, n));
    lemma_push_sums(ps, i, o);
    lemma_sums(ps, ps.len() as int);
    assert(ps.take(ps.len() as int) =~= ps);
    assert forall|x: int| #![trigger corr(o2, d2, x)] #![trigger corr(os, ds, x)] (x < b ==> corr(o2, d2, x) == corr(os, ds, x)) && (x >= b ==> corr(o2, d2, x) == x + p - 1 - (if x - b < n - 1 { x - b } else { n - 1 })) by {
        lemma_corr_run(os, ds, b, p, n, x);
    }
    assert forall|x: int| osum(ps) <= x < b implies #[trigger] corr(o2, d2, x) == x + p by { lemma_corr_beyond(os, ds, x); assert(corr(o2, d2, x) == corr(os, ds, x)); }
    assert(ascending(o2)) by {
        assert forall|j: int, k: int| 0 <= j < k < o2.len() implies o2[j] < o2[k] by {
            if k >= os.len() { assert(o2[k] == b + (k - os.len())); if j < os.len() { if j < os.len() - 1 { assert(os[j] < os[os.len() - 1]); } assert(os[j] <= os.last()); } else { assert(o2[j] == b + (j - os.len())); } }
        }
    }
    assert(o2.last() == b + n - 1);
    assert(d2.last() == p - n);
    lemma_extend(os, ds, ps, o2, d2, i, o);
}
pub open spec fn ones(n: int) -> Seq<(int, int)> { Seq::new(n as nat, |j: int| (1int, 1int)) }
pub proof fn lemma_same_n(os: Seq<usize>, ds: Seq<i64>, ps: Seq<(int, int)>, n: int)
    requires tab(os, ds, ps), n >= 0,
    ensures tab(os, ds, ps + ones(n)), isum(ps + ones(n)) == isum(ps) + n, osum(ps + ones(n)) == osum(ps) + n
    decreases n
{
    if n > 0 {
        lemma_same_n(os, ds, ps, n - 1);
        assert((ps + ones(n - 1)).push((1int, 1int)) =~= ps + ones(n));
        lemma_same(os, ds, ps + ones(n - 1), 1);
        lemma_push_sums(ps + ones(n - 1), 1, 1);
    } else { assert(ps + ones(0) =~= ps); }
}
// binary search and the recursive reading of the table agree
pub proof fn lemma_search(os: Seq<usize>, ds: Seq<i64>, o: int, i: int)
    requires os.len() == ds.len(), ascending(os), 0 <= i <= os.len(),
        forall|k: int| 0 <= k < i ==> os[k] <= o, forall|k: int| i <= k < os.len() ==> os[k] > o,
    ensures corr(os, ds, o) == if i == 0 { o } else { o + ds[i - 1] }
    decreases os.len()
{
    if os.len() > 0 && os.last() > o {
        assert(i < os.len()) by { if i == os.len() { assert(os[i - 1] <= o); } }
        lemma_search(os.drop_last(), ds.drop_last(), o, i);
    } else if os.len() > 0 { assert(i == os.len()) by { if i < os.len() { assert(os[os.len() - 1] > o); } } }
}
@item fn lindera-filter/src/character_filter.rs add_offset_diff
@spec
  requires old(offsets)@.len() == old(diffs)@.len(),
  ensures final(offsets)@ == added(old(offsets)@, old(diffs)@, offset, diff).0, final(diffs)@ == added(old(offsets)@, old(diffs)@, offset, diff).1
@end
@item fn lindera-filter/src/character_filter.rs correct_offset
@spec
  requires
    offsets@.len() == diffs@.len(), ascending(offsets@), offset <= text_len,
    text_len == 0 && offsets@.len() > 0 ==> offsets@[0] == 0,
    offset <= 0x7fff_ffff_ffff_ffff, 0 <= corr(offsets@, diffs@, offset as int) <= 0x7fff_ffff_ffff_ffff,
  ensures r == corr(offsets@, diffs@, offset as int)
@at start
  let ghost (os, ds) = (offsets@, diffs@);
  let ghost o = offset as int;
  proof {
    if os.len() > 0 && o < os[0] {
      assert forall|k: int| 0 <= k < os.len() implies os[k] > o by { if k > 0 { assert(os[0] < os[k]); } }
      lemma_search(os, ds, o, 0);
    }
  }
@at let index 0 after
  proof {
    let i = index as int + 1;
    assert(index < os.len() && os[index as int] <= o);
    assert forall|k: int| 0 <= k < i implies os[k] <= o by { if k < index { assert(os[k] < os[index as int]); } }
    assert forall|k: int| i <= k < os.len() implies os[k] > o by { if os[index as int] == o { assert(os[index as int] < os[k]); } }
    lemma_search(os, ds, o, i);
  }
@end
