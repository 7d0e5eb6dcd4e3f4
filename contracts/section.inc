// ---- the detail section: records behind an index of 32-bit offsets
pub open spec fn recs(rs: Seq<Seq<u8>>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { recs(rs, k - 1) + rs[k - 1] } }
pub open spec fn idxs(rs: Seq<Seq<u8>>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { idxs(rs, k - 1) + enc4(recs(rs, k - 1).len() as int) } }
pub open spec fn stored(idx: Seq<u8>, data: Seq<u8>, rs: Seq<Seq<u8>>) -> bool { idx == idxs(rs, rs.len() as int) && data == recs(rs, rs.len() as int) }
pub open spec fn at_idx(idx: Seq<u8>, id: int) -> int { le4(idx.subrange(4 * id, 4 * id + 4)) }
pub proof fn lemma_idxs(rs: Seq<Seq<u8>>, k: int, i: int)
    requires 0 <= i < k <= rs.len(),
    ensures idxs(rs, k).len() == 4 * k, idxs(rs, k).subrange(4 * i, 4 * i + 4) == enc4(recs(rs, i).len() as int)
    decreases k
{
    lemma_idxs_len(rs, k - 1);
    if i < k - 1 { lemma_idxs(rs, k - 1, i); assert(idxs(rs, k).subrange(4 * i, 4 * i + 4) =~= idxs(rs, k - 1).subrange(4 * i, 4 * i + 4)); }
    else { assert(idxs(rs, k).subrange(4 * i, 4 * i + 4) =~= enc4(recs(rs, i).len() as int)); }
}
pub proof fn lemma_idxs_len(rs: Seq<Seq<u8>>, k: int) requires 0 <= k ensures idxs(rs, k).len() == 4 * k decreases k { if k > 0 { lemma_idxs_len(rs, k - 1); } }
pub proof fn lemma_recs(rs: Seq<Seq<u8>>, k: int, i: int)
    requires 0 <= i < k <= rs.len(),
    ensures recs(rs, i).len() + rs[i].len() <= recs(rs, k).len(), recs(rs, k).subrange(recs(rs, i).len() as int, recs(rs, i).len() as int + rs[i].len() as int) == rs[i]
    decreases k
{
    let (a, b) = (recs(rs, i).len() as int, (recs(rs, i).len() + rs[i].len()) as int);
    if i < k - 1 { lemma_recs(rs, k - 1, i); assert(recs(rs, k).subrange(a, b) =~= recs(rs, k - 1).subrange(a, b)); }
    else { assert(recs(rs, k).subrange(a, b) =~= rs[i]); }
}
// the index entry of a word is where its record starts
pub proof fn lemma_stored(idx: Seq<u8>, data: Seq<u8>, rs: Seq<Seq<u8>>, id: int)
    requires stored(idx, data, rs), data.len() < 0x1_0000_0000, 0 <= id,
    ensures idx.len() == 4 * rs.len(),
        id < rs.len() ==> ({ let o = at_idx(idx, id); 0 <= o && o + rs[id].len() <= data.len() && data.subrange(o, o + rs[id].len()) == rs[id] })
{
    let n = rs.len() as int;
    lemma_idxs_len(rs, n);
    if id < n {
        lemma_idxs(rs, n, id);
        lemma_recs(rs, n, id);
        let o = recs(rs, id).len() as int;
        lemma_enc4(o);
        assert(at_idx(idx, id) == o);
    }
}
