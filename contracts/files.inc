// ---- trusted: files. Source files do not change during a build; `vx_fs` holds the files this build has written
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn pjoin(p: PathBuf, n: Seq<char>) -> PathBuf;
pub axiom fn ax_pjoin(p: PathBuf, a: Seq<char>, b: Seq<char>) ensures pjoin(p, a) == pjoin(p, b) ==> a == b;
impl PathBuf { #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
pub uninterp spec fn file(p: PathBuf) -> Option<Seq<u8>>;
impl PathBuf {
    #[verifier::external_body] pub fn vx_join(&self, n: &str) -> (r: PathBuf) ensures r == pjoin(*self, n@) { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>) { unimplemented!() } }
// trusted: making directories leaves the files alone
#[verifier::external_body]
pub fn vx_create_dir_all(p: &PathBuf) -> (r: Result<(), LinderaError>) { unimplemented!() }
pub fn vx_pathlike<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn vx_into_string(x: &str) -> (r: String) ensures r@ == x@ { x.to_owned() }
pub trait VxAsPath: Sized { spec fn pth(&self) -> PathBuf; }
impl VxAsPath for PathBuf { open spec fn pth(&self) -> PathBuf { *self } }
impl VxAsPath for &PathBuf { open spec fn pth(&self) -> PathBuf { **self } }
#[verifier::external_body]
pub struct VxFs { x: u8 }
impl VxFs { pub uninterp spec fn view(&self) -> Map<PathBuf, Seq<u8>>; }
// only the file p changes; only the files among `ps`
pub open spec fn writes(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>, p: PathBuf) -> bool {
    forall|q: PathBuf| q != p ==> (#[trigger] b.contains_key(q) <==> a.contains_key(q)) && (a.contains_key(q) ==> b[q] == a[q])
}
pub open spec fn only_writes(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>, ps: Seq<PathBuf>) -> bool {
    forall|q: PathBuf| !ps.contains(q) ==> (#[trigger] b.contains_key(q) <==> a.contains_key(q)) && (a.contains_key(q) ==> b[q] == a[q])
}
pub open spec fn has_file(m: Map<PathBuf, Seq<u8>>, p: PathBuf, b: Seq<u8>) -> bool { m.contains_key(p) && m[p] == b }
#[verifier::external_body]
pub struct VxFile { x: u8 }
impl VxFile {
    // what is still to be read
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> PathBuf;
    #[verifier::external_body] pub fn open<P: VxAsPath>(p: P) -> (r: Result<VxFile, LinderaError>) ensures r is Ok ==> file(p.pth()) == Some(r->Ok_0.rest()) { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, LinderaError>) ensures r is Ok ==> final(out)@ == old(out)@ + old(self).rest() { unimplemented!() }
}
// an emptied file; what it contains in the end is what is flushed to it
#[verifier::external_body]
pub fn vx_create(vx_fs: &mut VxFs, p: PathBuf) -> (r: Result<VxFile, LinderaError>)
    ensures final(vx_fs)@ == old(vx_fs)@.remove(p), r is Ok ==> r->Ok_0.at() == p { unimplemented!() }
pub trait VxSink: Sized {
    spec fn out(&self) -> Seq<u8>;
    spec fn dest(&self) -> Option<PathBuf>;
    fn vx_put(&mut self, b: &[u8]) -> (r: Result<(), LinderaError>)
        ensures final(self).dest() == old(self).dest(), r is Ok ==> final(self).out() == old(self).out() + b@;
}
impl VxSink for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn dest(&self) -> Option<PathBuf> { None }
    #[verifier::external_body] fn vx_put(&mut self, b: &[u8]) -> (r: Result<(), LinderaError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxBuf { x: u8 }
impl VxBuf {
    pub uninterp spec fn vx_out(&self) -> Seq<u8>;
    pub uninterp spec fn vx_at(&self) -> PathBuf;
    #[verifier::external_body] pub fn new(f: VxFile) -> (r: VxBuf) ensures r.vx_at() == f.at(), r.vx_out() == Seq::<u8>::empty() { unimplemented!() }
    // only flushing tells that everything is in the file
    #[verifier::external_body] pub fn vx_flush(&mut self, vx_fs: &mut VxFs) -> (r: Result<(), LinderaError>)
        ensures final(self).vx_at() == old(self).vx_at(), final(self).vx_out() == old(self).vx_out(), writes(old(vx_fs)@, final(vx_fs)@, old(self).vx_at()), r is Ok ==> has_file(final(vx_fs)@, old(self).vx_at(), old(self).vx_out()) { unimplemented!() }
}
impl VxSink for VxBuf {
    open spec fn out(&self) -> Seq<u8> { self.vx_out() }
    open spec fn dest(&self) -> Option<PathBuf> { Some(self.vx_at()) }
    #[verifier::external_body] fn vx_put(&mut self, b: &[u8]) -> (r: Result<(), LinderaError>) { unimplemented!() }
}
// ---- trusted: encoding_rs
#[verifier::external_body]
pub struct Encoding { x: u8 }
pub uninterp spec fn enc_named(label: Seq<u8>) -> Option<Encoding>;
pub uninterp spec fn decoded(e: Encoding, b: Seq<u8>) -> Seq<char>;
impl Encoding {
    #[verifier::external_body] pub fn vx_decode(&self, b: &[u8]) -> (r: String) ensures r@ == decoded(*self, b@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_encoding(label: &[u8]) -> (r: Option<&'static Encoding>) ensures r is Some <==> enc_named(label@) is Some, r is Some ==> *r->0 == enc_named(label@)->0 { unimplemented!() }
// ---- the text of a source file
pub open spec fn ptext(label: Seq<char>, p: PathBuf) -> Seq<char> { decoded(enc_named(utf8(label))->0, file(p)->0) }
@item fn lindera-core/src/file_util.rs read_file
@ty buffer Vec<u8>
@spec
  ensures r is Ok ==> file(*filename) == Some(r->Ok_0@)
@end
@item fn lindera-dictionary-builder/src/utils.rs read_file_with_encoding
@replace encoding.ok_or_else($$x1)? ==> vx_ok_or(encoding)?
@replace encoding.decode(&buffer).0.into_owned() ==> encoding.vx_decode(&buffer)
@spec
  ensures r is Ok ==> r->Ok_0@ == ptext(encoding_name@, *filepath) && file(*filepath) is Some && enc_named(utf8(encoding_name@)) is Some
@end
pub fn vx_ok_or<T>(o: Option<T>) -> (r: Result<T, LinderaError>) ensures o is Some ==> r == Ok::<T, LinderaError>(o->0), o is None ==> r is Err { match o { Some(x) => Ok(x), None => Err(vx_err()) } }
// without the `compress` feature the parts are written as they are (with it: unit compress)
@item fn lindera-dictionary-builder/src/utils.rs compress_write
@sig <W: VxSink>(buffer: &[u8], _algorithm: u8, writer: &mut W) -> (r: LinderaResult<()>)
@replace writer.write_all(buffer) ==> writer.vx_put(buffer)
@spec
  ensures final(writer).dest() == old(writer).dest(), r is Ok ==> final(writer).out() == old(writer).out() + buffer@
@end
// trusted: bincode (the same value always gives the same bytes; reading them back: unit loader)
pub uninterp spec fn bin_image<T>(x: T) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_bin_write<W: VxSink, T>(w: &mut W, x: &T) -> (r: Result<(), LinderaError>) ensures final(w).dest() == old(w).dest(), r is Ok ==> final(w).out() == old(w).out() + bin_image(*x) { unimplemented!() }
