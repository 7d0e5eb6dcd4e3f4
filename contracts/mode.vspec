@unit mode
@include prelude.inc
verus! {
@include edge.inc
@include modefns.inc
} // verus!
fn main() {}
