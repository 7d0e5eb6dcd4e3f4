// ---- trusted: JSON values and how serde reads a configuration from them ---------------------------------
#[verifier::external_body]
pub struct Value { v: u8 }
pub uninterp spec fn jget(v: Value, k: Seq<char>) -> Option<Value>;
pub uninterp spec fn jarr(v: Value) -> Option<Seq<Value>>;
pub uninterp spec fn jstr(v: Value) -> Option<Seq<char>>;
// the configuration serde reads from a value, if it can
pub uninterp spec fn jread<T>(v: Value) -> Option<T>;
// null is neither an array nor a string
pub uninterp spec fn jnull() -> Value;
pub open spec fn jat(v: Value, k: Seq<char>) -> Value { if jget(v, k) is Some { jget(v, k)->0 } else { jnull() } }
impl Value {
    // indexing with a key gives Null when there is no such field
    #[verifier::external_body]
    pub fn vx_at(&self, k: &str) -> (r: &Value) ensures *r == jat(*self, k@), jget(*self, k@) is Some ==> *r == jget(*self, k@)->0, jget(*self, k@) is None ==> jarr(*r) is None && jstr(*r) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find(&self, k: &str) -> (r: Option<&Value>) ensures r is Some <==> jget(*self, k@) is Some, r is Some ==> *r->0 == jget(*self, k@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == (jarr(*self) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures r is Some <==> jarr(*self) is Some, r is Some ==> r->0@ == jarr(*self)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures r is Some <==> jstr(*self) is Some, r is Some ==> r->0@ == jstr(*self)->0 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_read<T>(v: &Value) -> (r: Result<T, LinderaError>) ensures r is Ok <==> jread::<T>(*v) is Some, r is Ok ==> r->Ok_0 == jread::<T>(*v)->0 { unimplemented!() }
