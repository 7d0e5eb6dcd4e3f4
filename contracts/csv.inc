// ---- trusted: csv, encoding_rs_io, glob -------------------------------------------------------------------
// the records of a CSV text (bytes); None: one that cannot be read (not UTF-8, or, unless flexible, of another length)
pub uninterp spec fn csv_recs(b: Seq<u8>, flexible: bool) -> Seq<Option<Seq<Seq<char>>>>;
pub uninterp spec fn transcoded(e: Encoding, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn utf8_enc() -> Encoding;
#[verifier::external_body]
pub fn vx_is_utf8(e: &'static Encoding) -> (r: bool) ensures r == (*e == utf8_enc()) { unimplemented!() }
#[verifier::external_body]
pub struct VxSrc { x: u8 }
impl VxSrc { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
pub trait VxIntoSrc: Sized { spec fn stream(&self) -> Seq<u8>; fn vx_src(self) -> (r: VxSrc) ensures r.bytes() == self.stream(); }
impl VxIntoSrc for VxFile { open spec fn stream(&self) -> Seq<u8> { self.rest() } #[verifier::external_body] fn vx_src(self) -> (r: VxSrc) { unimplemented!() } }
#[verifier::external_body]
pub struct VxDecoded { x: u8 }
impl VxDecoded { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
impl VxIntoSrc for VxDecoded { open spec fn stream(&self) -> Seq<u8> { self.bytes() } #[verifier::external_body] fn vx_src(self) -> (r: VxSrc) { unimplemented!() } }
pub fn vx_boxed<T: VxIntoSrc>(x: T) -> (r: VxSrc) ensures r.bytes() == x.stream() { x.vx_src() }
pub struct VxDecoder { pub e: Option<&'static Encoding> }
impl VxDecoder {
    pub fn new() -> (r: VxDecoder) ensures r.e is None { VxDecoder { e: None } }
    pub fn encoding(self, e: Option<&'static Encoding>) -> (r: VxDecoder) ensures r.e == e { VxDecoder { e } }
    #[verifier::external_body] pub fn build(self, f: VxFile) -> (r: VxDecoded) ensures self.e is Some ==> r.bytes() == transcoded(*self.e->0, f.rest()) { unimplemented!() }
}
pub struct VxCsv { pub headers: bool, pub flexible: bool }
#[verifier::external_body]
pub struct VxReader { x: u8 }
impl VxReader {
    pub uninterp spec fn recs(&self) -> Seq<Option<Seq<Seq<char>>>>;
    #[verifier::external_body] pub fn records(&mut self) -> (r: Vec<Result<Vec<String>, LinderaError>>) ensures read_as(r@, old(self).recs()) { unimplemented!() }
}
pub open spec fn read_as(r: Seq<Result<Vec<String>, LinderaError>>, recs: Seq<Option<Seq<Seq<char>>>>) -> bool {
    r.len() == recs.len() && forall|k: int| 0 <= k < r.len() ==> match #[trigger] r[k] { Ok(v) => recs[k] == Some(dv(v@)) && v@.len() > 0, Err(_) => recs[k] is None }
}
impl VxCsv {
    pub fn new() -> (r: VxCsv) ensures r.headers, !r.flexible { VxCsv { headers: true, flexible: false } }
    pub fn has_headers(self, b: bool) -> (r: VxCsv) ensures r.headers == b, r.flexible == self.flexible { VxCsv { headers: b, flexible: self.flexible } }
    pub fn flexible(self, b: bool) -> (r: VxCsv) ensures r.headers == self.headers, r.flexible == b { VxCsv { headers: self.headers, flexible: b } }
    pub open spec fn reads(&self, b: Seq<u8>) -> Seq<Option<Seq<Seq<char>>>> { let a = csv_recs(b, self.flexible); if self.headers { a.skip(1) } else { a } }
    #[verifier::external_body] pub fn from_reader(self, s: VxSrc) -> (r: VxReader) ensures r.recs() == self.reads(s.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn from_path(self, p: &PathBuf) -> (r: Result<VxReader, LinderaError>) ensures r is Ok ==> r->Ok_0.recs() == self.reads(file(*p)->0) { unimplemented!() }
}
pub open spec fn all_read(s: Seq<Option<Seq<Seq<char>>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
pub open spec fn unwrapped(s: Seq<Option<Seq<Seq<char>>>>) -> Seq<Seq<Seq<char>>> { Seq::new(s.len(), |i: int| s[i]->0) }
pub open spec fn rv(rows: Seq<Vec<String>>) -> Seq<Seq<Seq<char>>> { Seq::new(rows.len(), |i: int| dv(rows[i]@)) }
// trusted: sorting the rows permutes them
pub open spec fn permuted(a: Seq<Seq<Seq<char>>>, b: Seq<Seq<Seq<char>>>) -> bool { a.to_multiset() == b.to_multiset() }
#[verifier::external_body]
pub fn vx_sort_rows(rows: &mut Vec<Vec<String>>) ensures permuted(rv(old(rows)@), rv(final(rows)@)) { unimplemented!() }
// what is true of every row is true of every row when they are rearranged
pub proof fn lemma_permuted_len(a: Seq<Seq<Seq<char>>>, b: Seq<Seq<Seq<char>>>)
    requires permuted(a, b), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() > 0,
    ensures forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0, a.len() == b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset().len() == b.to_multiset().len());
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by {
        assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
        assert(a[k].len() > 0);
    }
}
