// ---- strings and string lists as values
pub open spec fn dv(d: Seq<String>) -> Seq<Seq<char>> { Seq::new(d.len(), |i: int| d[i]@) }
// trusted: string conversions
pub trait VxText { spec fn tx(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.tx(); fn vx_count_chars(&self) -> (r: usize) ensures r == self.tx().len(); fn vx_as_str(&self) -> (r: &str) ensures r@ == self.tx(); fn vx_same(&self, o: &str) -> (r: bool) ensures r == (self.tx() == o@); fn vx_lower(&self) -> (r: String) ensures r@ == lower(self.tx()); fn vx_upper(&self) -> (r: String) ensures r@ == upper(self.tx()); }
impl VxText for String { #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) { self == o } open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } #[verifier::external_body] fn vx_count_chars(&self) -> (r: usize) { self.chars().count() } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } #[verifier::external_body] fn vx_lower(&self) -> (r: String) { self.to_lowercase() } #[verifier::external_body] fn vx_upper(&self) -> (r: String) { self.to_uppercase() } }
impl VxText for str { #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) { self == o } open spec fn tx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } #[verifier::external_body] fn vx_count_chars(&self) -> (r: usize) { self.chars().count() } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self } #[verifier::external_body] fn vx_lower(&self) -> (r: String) { self.to_lowercase() } #[verifier::external_body] fn vx_upper(&self) -> (r: String) { self.to_uppercase() } }
pub fn vx_osame(o: Option<&str>, s: &str) -> (r: bool) ensures r == (o is Some && o->0@ == s@) { match o { Some(x) => x.vx_same(s), None => false } }
pub trait VxGet<T> { spec fn gs(&self) -> Seq<T>; fn vx_get(&self, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < self.gs().len(), r is Some ==> *r->0 == self.gs()[i as int]; }
impl<T> VxGet<T> for Vec<T> { open spec fn gs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
