// a text cut into pieces, each with what it became
pub open spec fn sources(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { sources(ps.drop_last()) + ps.last().0 } }
pub open spec fn targets(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { targets(ps.drop_last()) + ps.last().1 } }
pub open spec fn lens(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<(int, int)> { Seq::new(ps.len(), |k: int| (blen(ps[k].0) as int, blen(ps[k].1) as int)) }
pub proof fn lemma_lens(all: Seq<(Seq<char>, Seq<char>)>, k: int)
    requires 0 <= k <= all.len(),
    ensures isum(lens(all.take(k))) <= isum(lens(all)), osum(lens(all.take(k))) <= osum(lens(all)), lens(all.take(k)) == lens(all).take(k),
        osum(lens(all)) == blen(targets(all)), isum(lens(all)) == blen(sources(all)), nonneg(lens(all))
{
    assert(lens(all.take(k)) =~= lens(all).take(k));
    lemma_sums(lens(all), k);
    lemma_targets(all);
}
pub proof fn lemma_targets(all: Seq<(Seq<char>, Seq<char>)>)
    ensures osum(lens(all)) == blen(targets(all)), isum(lens(all)) == blen(sources(all))
    decreases all.len()
{
    if all.len() > 0 {
        lemma_targets(all.drop_last());
        assert(lens(all).drop_last() =~= lens(all.drop_last()));
        lemma_blen_cat(targets(all.drop_last()), all.last().1);
        lemma_blen_cat(sources(all.drop_last()), all.last().0);
    }
}
pub proof fn lemma_cat(a: Seq<(Seq<char>, Seq<char>)>, b: Seq<(Seq<char>, Seq<char>)>)
    ensures sources(a + b) == sources(a) + sources(b), targets(a + b) == targets(a) + targets(b)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(sources(a + b) =~= sources(a) + sources(b));
        assert(targets(a + b) =~= targets(a) + targets(b));
    } else { assert(a + b =~= a); assert(sources(a) + sources(b) =~= sources(a)); assert(targets(a) + targets(b) =~= targets(a)); }
}
