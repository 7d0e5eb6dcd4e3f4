@item struct lindera-core/src/connection.rs ConnectionCostMatrix
@end
// the 16-bit cell of a stored matrix: row = forward id, column = backward id
pub open spec fn cell(d: Seq<u8>, bs: int, f: int, b: int) -> int {
    i16_of(le2(d.subrange(2 * (b + f * bs), d.len() as int)))
}
pub open spec fn cell_ok(d: Seq<u8>, bs: int, f: int, b: int) -> bool {
    &&& 0 <= f && 0 <= b < bs && b + f * bs < 4294967296 && f * bs < 4294967296
    &&& d.len() >= 2 * (b + f * bs) + 2
}
@item fn lindera-core/src/connection.rs ConnectionCostMatrix::cost
@spec
  requires cell_ok(self.costs_data@, self.backward_size as int, forward_id as int, backward_id as int),
  ensures r as int == cell(self.costs_data@, self.backward_size as int, forward_id as int, backward_id as int)
@end
