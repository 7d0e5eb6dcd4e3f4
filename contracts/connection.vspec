@unit connection
@include prelude.inc
@include cast.inc
@include bytes_out.inc
@include str.inc
@include text.inc
@include fsrules.inc
@type Algorithm => u8
@type Cow<'static, [u8]> => Vec<u8>
@type &'static [u8] => &[u8]
@call LittleEndian::read_u16 => vx_read_u16
@call LittleEndian::read_i16 => vx_read_i16
@call Cow::Borrowed => vx_borrowed
@call Cow::Owned => vx_owned
@method to_vec => fn& vx_to_vec
@known @cast:u16 @cast:i16
verus! {
// trusted: Cow keeps its bytes
#[verifier::external_body]
pub fn vx_borrowed(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
#[verifier::external_body]
pub fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
pub fn vx_owned(b: Vec<u8>) -> (r: Vec<u8>) ensures r@ == b@ { b }
@include conn.inc
// a loaded image: two sizes, then the cells
pub open spec fn loaded(img: Seq<u8>, m: ConnectionCostMatrix) -> bool {
    &&& m.costs_data@ == img.subrange(4, img.len() as int)
    &&& m.backward_size as int == le2(img.subrange(2, 4))
}
@item fn lindera-core/src/connection.rs ConnectionCostMatrix::load_static
@spec
  requires conn_data@.len() >= 4,
  ensures loaded(conn_data@, r)
@end
@item fn lindera-core/src/connection.rs ConnectionCostMatrix::load
@spec
  requires conn_data@.len() >= 4,
  ensures loaded(conn_data@, r)
@end
// ---- the builder -------------------------------------------------------------------------------
@include files.inc
// trusted: std split_whitespace
pub uninterp spec fn ws_split(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn all_i32(f: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < f.len() ==> num_in(#[trigger] f[i], -2147483648, 2147483647) }
// the numbers of a line
pub open spec fn line_nums(l: Seq<char>) -> Option<Seq<int>> {
    let f = ws_split(l);
    if all_i32(f) { Some(Seq::new(f.len(), |i: int| num_of(f[i]).unwrap())) } else { None }
}
pub open spec fn ints(v: Seq<i32>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub fn vx_some<T>(o: Option<T>) -> (r: Result<T, LinderaError>) ensures o is Some ==> r == Ok::<T, LinderaError>(o->0), o is None ==> r is Err { match o { Some(x) => Ok(x), None => Err(vx_err()) } }
// trusted glue: splitting a line and std integer parsing of every field
#[verifier::external_body]
pub fn vx_parse_i32s(l: &str) -> (r: Result<Vec<i32>, LinderaError>)
    ensures r is Ok ==> line_nums(l@) == Some(ints(r->Ok_0@)) { unimplemented!() }
// the definition: header `forward backward`, then lines `forward backward cost`
pub open spec fn nums(ls: Seq<Seq<char>>, k: int) -> Seq<int> { line_nums(ls[k]).unwrap() }
// every number is there and in its range
pub open spec fn wf_line(ls: Seq<Seq<char>>, k: int) -> bool {
    &&& line_nums(ls[k]) is Some
    &&& ({
        let n = nums(ls, k);
        if k == 0 { n.len() >= 2 && 0 <= n[0] <= 65535 && 0 <= n[1] <= 65535 }
        else { n.len() >= 3 && 0 <= n[0] < nums(ls, 0)[0] && 0 <= n[1] < nums(ls, 0)[1] && -32768 <= n[2] <= 32767 }
    })
}
pub open spec fn wf_def(ls: Seq<Seq<char>>) -> bool { ls.len() >= 1 && forall|k: int| 0 <= k < ls.len() ==> #[trigger] wf_line(ls, k) }
// the cost defined for a pair by the first k lines: the last line for the pair counts, 32767 if there is none
pub open spec fn defined(ls: Seq<Seq<char>>, k: int, f: int, b: int) -> int decreases k {
    if k <= 1 { 32767 }
    else if nums(ls, k - 1)[0] == f && nums(ls, k - 1)[1] == b { nums(ls, k - 1)[2] }
    else { defined(ls, k - 1, f, b) }
}
pub open spec fn enc_all(c: Seq<i16>) -> Seq<u8> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { enc_all(c.drop_last()) + enc2(u16_of(c.last() as int)) }
}
pub proof fn lemma_enc_all(c: Seq<i16>, i: int)
    requires 0 <= i < c.len(),
    ensures enc_all(c).len() == 2 * c.len(), enc_all(c)[2 * i] == enc2(u16_of(c[i] as int))[0], enc_all(c)[2 * i + 1] == enc2(u16_of(c[i] as int))[1]
    decreases c.len()
{
    lemma_enc_all_len(c.drop_last());
    if i < c.len() - 1 { lemma_enc_all(c.drop_last(), i); }
}
pub proof fn lemma_enc_all_len(c: Seq<i16>) ensures enc_all(c).len() == 2 * c.len() decreases c.len() {
    if c.len() > 0 { lemma_enc_all_len(c.drop_last()); }
}
pub proof fn lemma_cell_inj(f: int, b: int, g: int, c: int, bs: int)
    requires 0 <= b < bs, 0 <= c < bs, 0 <= f, 0 <= g, b + f * bs == c + g * bs,
    ensures f == g, b == c
{
    assert(f == g) by (nonlinear_arith) requires 0 <= b < bs, 0 <= c < bs, 0 <= f, 0 <= g, b + f * bs == c + g * bs;
}
pub proof fn lemma_cell_bound(f: int, b: int, fs: int, bs: int)
    requires 0 <= f < fs, 0 <= b < bs,
    ensures 0 <= f * bs, 0 <= b + f * bs < fs * bs, f * bs <= fs * bs
{
    assert(0 <= f * bs) by (nonlinear_arith) requires 0 <= f, 0 < bs;
    assert(f * bs + bs <= fs * bs) by (nonlinear_arith) requires f + 1 <= fs, 0 < bs;
}
// the image the builder writes for a definition: only for a well-formed one
pub open spec fn built(ls: Seq<Seq<char>>, img: Seq<u8>) -> bool {
    &&& wf_def(ls)
    &&& exists|c: Seq<i16>| img == #[trigger] enc_all(c) && cells_are(ls, c)
}
pub open spec fn cells_are(ls: Seq<Seq<char>>, c: Seq<i16>) -> bool {
    let fs = nums(ls, 0)[0];
    let bs = nums(ls, 0)[1];
    &&& c.len() == 2 + fs * bs
    &&& u16_of(c[0] as int) == fs && u16_of(c[1] as int) == bs
    &&& forall|f: int, b: int| 0 <= f < fs && 0 <= b < bs ==> c[2 + (b + f * bs)] as int == #[trigger] defined(ls, ls.len() as int, f, b)
}
@item fn lindera-dictionary-builder/src/cost_matrix.rs number
@spec
  ensures
    r is Ok <==> index < fields@.len() && min <= fields@[index as int] <= max,
    r is Ok ==> r->Ok_0 == fields@[index as int]
@end
@item struct lindera-dictionary-builder/src/cost_matrix.rs CostMatrixBuilder
@end
@item fn lindera-dictionary-builder/src/cost_matrix.rs CostMatrixBuilder::build
@sig (&self, vx_fs: &mut VxFs, input_dir: &PathBuf, output_dir: &PathBuf) -> (r: LinderaResult<()>)
@replace debug!($$x1); ==>
@replace &self.encoding ==> self.encoding.as_str()
@replace File::create($x1) ==> File::create(vx_fs, $x1)
@replace wtr_matrix_mtx.flush() ==> wtr_matrix_mtx.vx_flush(vx_fs)
@replace matrix_data.lines() ==> vx_lines(matrix_data.as_str())
@replace line.split_whitespace().map(i32::from_str).collect::<Result<_, _>>().map_err($$x1)? ==> vx_parse_i32s(line)?
@replace matrix_mtx_buffer.write_i16::<LittleEndian>($x1).map_err($$x2)?; ==> vx_write_i16_le(&mut matrix_mtx_buffer, $x1)?;
@replace lines_it.next().ok_or_else($$x1)? ==> vx_some(lines_it.next())?
@ty lines Vec<Vec<i32>>
@at let lines 0 before
  let ghost ls = lines_of(matrix_data@);
@ty matrix_mtx_buffer Vec<u8>
@spec
  ensures
    writes(old(vx_fs)@, final(vx_fs)@, pjoin(*output_dir, "matrix.mtx"@)),
    r is Ok ==> {
        let out = final(vx_fs)@;
        let p = pjoin(*output_dir, "matrix.mtx"@);
        out.contains_key(p) && built(lines_of(ptext(self.encoding@, pjoin(*input_dir, "matrix.def"@))), out[p])
    }
@loop 0
  invariant
    lines@.len() == it0.index(), ls == lines_of(matrix_data@), strs(it0.seq()) == ls,
    forall|k: int| 0 <= k < it0.index() ==> line_nums(ls[k]) == Some(ints(#[trigger] lines@[k]@))
@at loop 0 body_start
  proof { assert(line@ == strs(it0.seq())[it0.index() as int]); }
@at let header 0 before
  let ghost rows = lines@;
  proof {
    assert(forall|k: int| 0 <= k < ls.len() ==> #[trigger] line_nums(ls[k]) == Some(ints(rows[k]@)));
  }
@at let len 0 before
  let ghost fs = nums(ls, 0)[0];
  let ghost bs = nums(ls, 0)[1];
  proof {
    assert(line_nums(ls[0]) == Some(ints(rows[0]@)));
    assert(fs == header@[0] as int && bs == header@[1] as int);
    assert(0 <= fs * bs <= 65535 * 65535) by (nonlinear_arith) requires 0 <= fs <= 65535, 0 <= bs <= 65535;
    assert(wf_line(ls, 0));
  }
@at loop 1 before
  let ghost mut kk: int = 1;
  proof {
    assert forall|f: int, b: int| 0 <= f < fs && 0 <= b < bs implies costs@[2 + (b + f * bs)] as int == #[trigger] defined(ls, 1, f, b) by {
      lemma_cell_bound(f, b, fs, bs);
    }
  }
@loop 1
  invariant
    it1.seq() == rows.skip(1), rows.len() == ls.len(), ls.len() >= 1,
    forall|k: int| 0 <= k < ls.len() ==> #[trigger] line_nums(ls[k]) == Some(ints(rows[k]@)),
    fs == nums(ls, 0)[0], bs == nums(ls, 0)[1], 0 <= fs <= 65535, 0 <= bs <= 65535, 0 <= fs * bs <= 65535 * 65535,
    forall|k: int| 0 <= k < kk ==> #[trigger] wf_line(ls, k),
    forward_size as int == fs, backward_size as int == bs, costs@.len() == 2 + fs * bs,
    u16_of(costs@[0] as int) == fs, u16_of(costs@[1] as int) == bs,
    forall|f: int, b: int| 0 <= f < fs && 0 <= b < bs ==> costs@[2 + (b + f * bs)] as int == #[trigger] defined(ls, kk, f, b),
    kk == 1 + it1.index()
@at loop 1 body_start
  let ghost k = 1 + it1.index();
  let ghost c0 = costs@;
  proof {
    assert(fields == rows[k]);
    assert(line_nums(ls[k]) == Some(ints(rows[k]@)));
    assert(line_nums(ls[0]) is Some);
  }
@at let cost 0 after
  proof {
    assert(nums(ls, k)[0] == fields@[0] as int && nums(ls, k)[1] == fields@[1] as int && nums(ls, k)[2] == fields@[2] as int);
    assert(wf_line(ls, k));
    lemma_cell_bound(fields@[0] as int, fields@[1] as int, fs, bs);
    assert(fields@[0] as int * bs <= fs * bs);
  }
@at loop 1 body_end
  proof {
    kk = kk + 1;
    assert forall|f: int, b: int| 0 <= f < fs && 0 <= b < bs implies costs@[2 + (b + f * bs)] as int == #[trigger] defined(ls, kk, f, b) by {
      lemma_cell_bound(f, b, fs, bs);
      if b + f * bs == fields@[1] as int + fields@[0] as int * bs {
        lemma_cell_inj(f, b, fields@[0] as int, fields@[1] as int, bs);
      }
      assert(defined(ls, kk - 1, f, b) == c0[2 + (b + f * bs)] as int);
    }
  }
@at let matrix_mtx_buffer 0 after
  let ghost cs = costs@;
  proof {
    assert(rows.skip(1).len() == ls.len() - 1);
    assert(kk == ls.len());
    assert(wf_def(ls));
    assert(u16_of(cs[0] as int) == fs && u16_of(cs[1] as int) == bs);
    assert(cs.len() == 2 + fs * bs);
    assert forall|f: int, b: int| 0 <= f < fs && 0 <= b < bs implies cs[2 + (b + f * bs)] as int == #[trigger] defined(ls, ls.len() as int, f, b) by {
 }
    assert(cells_are(ls, cs));
  }
@loop 2
  invariant
    writes(old(vx_fs)@, vx_fs@, pjoin(*output_dir, "matrix.mtx"@)), wtr_matrix_mtx.vx_at() == pjoin(*output_dir, "matrix.mtx"@), wtr_matrix_mtx.vx_out().len() == 0,
    it2.seq() == cs, matrix_mtx_buffer@ == enc_all(cs.take(it2.index()))
@at loop 2 body_end
  proof { assert(cs.take(it2.index() + 1).drop_last() =~= cs.take(it2.index())); }
@at loop 2 after
  proof { assert(cs.take(cs.len() as int) =~= cs); }
@end
// C06: the cost looked up in the image built from a definition is the cost defined for that pair
pub proof fn c06_lookup(ls: Seq<Seq<char>>, img: Seq<u8>, m: ConnectionCostMatrix, f: int, b: int)
    requires
        built(ls, img), loaded(img, m),
        0 <= f < nums(ls, 0)[0], 0 <= b < nums(ls, 0)[1],
    ensures
        cell_ok(m.costs_data@, m.backward_size as int, f, b),
        cell(m.costs_data@, m.backward_size as int, f, b) == defined(ls, ls.len() as int, f, b),
        // no other pair shares the cell
        forall|g: int, c: int| 0 <= g && 0 <= c < m.backward_size && #[trigger] (c + g * m.backward_size) == b + f * m.backward_size ==> g == f && c == b,
{
    let c = choose|c: Seq<i16>| img == #[trigger] enc_all(c) && cells_are(ls, c);
    let fs = nums(ls, 0)[0];
    let bs = nums(ls, 0)[1];
    assert(wf_line(ls, 0));
    lemma_cell_bound(f, b, fs, bs);
    assert(fs * bs <= 65535 * 65535) by (nonlinear_arith) requires 0 < fs <= 65535, 0 < bs <= 65535;
    lemma_enc_all(c, 1);
    lemma_enc_all(c, 2 + (b + f * bs));
    lemma_enc2(u16_of(c[1] as int));
    assert(img.subrange(2, 4) =~= enc2(u16_of(c[1] as int)));
    let v = c[2 + (b + f * bs)];
    lemma_enc2(u16_of(v as int));
    let d = m.costs_data@;
    let t = d.subrange(2 * (b + f * bs), d.len() as int);
    assert(t[0] == enc2(u16_of(v as int))[0] && t[1] == enc2(u16_of(v as int))[1]);
    assert(v as int == defined(ls, ls.len() as int, f, b));
    assert forall|g: int, e: int| 0 <= g && 0 <= e < bs && #[trigger] (e + g * bs) == b + f * bs implies g == f && e == b by {
        lemma_cell_inj(f, b, g, e, bs);
    }
}
} // verus!
fn main() {}
