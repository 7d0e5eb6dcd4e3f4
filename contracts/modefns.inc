@item fn lindera-core/src/viterbi.rs Edge::num_chars
@spec
  requires self.start_index <= self.stop_index,
  ensures r as int == edge_chars(*self)
@end
@item fn lindera-core/src/mode.rs Penalty::penalty
@spec
  requires edge.start_index <= edge.stop_index, i32_fits(pen_spec(*self, *edge)),
  ensures r as int == pen_spec(*self, *edge)
@end
@item fn lindera-core/src/mode.rs Mode::is_search
@spec
  ensures r == (*self is Decompose)
@end
@item fn lindera-core/src/mode.rs Mode::penalty_cost
@spec
  requires edge.start_index <= edge.stop_index, i32_fits(mode_pen(*self, *edge)),
  ensures r as int == mode_pen(*self, *edge)
@end
