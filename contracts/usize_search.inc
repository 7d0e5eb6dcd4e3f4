verus! {
// trusted: std slice::binary_search on an ascending slice
pub trait VxSearch { spec fn vx_u(&self) -> Seq<usize>;
    fn vx_binary_search(&self, t: &usize) -> (r: Result<usize, usize>)
        requires forall|i: int, j: int| 0 <= i < j < self.vx_u().len() ==> self.vx_u()[i] < self.vx_u()[j],
        ensures match r { Ok(i) => i < self.vx_u().len() && self.vx_u()[i as int] == *t,
            Err(i) => i <= self.vx_u().len() && (forall|k: int| 0 <= k < i ==> self.vx_u()[k] < *t) && (forall|k: int| i <= k < self.vx_u().len() ==> self.vx_u()[k] > *t) };
}
impl VxSearch for [usize] { open spec fn vx_u(&self) -> Seq<usize> { self@ }
    #[verifier::external_body] fn vx_binary_search(&self, t: &usize) -> (r: Result<usize, usize>) { self.binary_search(t) }
}
} // verus!
