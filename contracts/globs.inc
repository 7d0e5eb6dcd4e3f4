// the CSV files of a directory: those the escaped directory followed by "/*.csv" matches
pub uninterp spec fn csv_files(dir: PathBuf) -> Seq<PathBuf>;
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
pub uninterp spec fn glob_escaped(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn globbed(s: Seq<char>) -> Seq<PathBuf>;
pub uninterp spec fn name_of(p: PathBuf) -> Seq<char>;
#[verifier::external_body]
pub proof fn ax_glob(dir: PathBuf) ensures globbed(glob_escaped(path_text(dir)) + "/*.csv"@) == csv_files(dir), forall|k: int| 0 <= k < csv_files(dir).len() ==> pjoin(dir, name_of(#[trigger] csv_files(dir)[k])) == csv_files(dir)[k] {}
impl PathBuf {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == path_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == name_of(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_glob_escape(s: &str) -> (r: String) ensures r@ == glob_escaped(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_glob(p: &String) -> (r: Result<Vec<Result<PathBuf, LinderaError>>, LinderaError>)
    ensures r is Ok ==> r->Ok_0@.len() == globbed(p@).len() && forall|k: int| 0 <= k < r->Ok_0@.len() ==> match #[trigger] r->Ok_0@[k] { Ok(x) => x == globbed(p@)[k], Err(_) => true } { unimplemented!() }
pub open spec fn stream_of(label: Seq<char>, p: PathBuf) -> Seq<u8> {
    let e = enc_named(utf8(label))->0;
    if e == utf8_enc() { file(p)->0 } else { transcoded(e, file(p)->0) }
}
// the records of several files, in order
pub open spec fn recs_in(label: Seq<char>, flexible: bool, ps: Seq<PathBuf>) -> Seq<Option<Seq<Seq<char>>>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { recs_in(label, flexible, ps.drop_last()) + csv_recs(stream_of(label, ps.last()), flexible) }
}
