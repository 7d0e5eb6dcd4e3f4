// C22: what the decompose mode adds to the cost of an edge.
pub open spec fn edge_chars(e: Edge) -> int { (e.stop_index - e.start_index) / 3 }
pub open spec fn pen_spec(p: Penalty, e: Edge) -> int {
    let n = edge_chars(e);
    if n <= p.kanji_penalty_length_threshold { 0 }
    else if e.kanji_only { (n - p.kanji_penalty_length_threshold) * p.kanji_penalty_length_penalty }
    else if n > p.other_penalty_length_threshold { (n - p.other_penalty_length_threshold) * p.other_penalty_length_penalty }
    else { 0 }
}
pub open spec fn mode_pen(m: Mode, e: Edge) -> int {
    match m { Mode::Normal => 0, Mode::Decompose(p) => pen_spec(p, e) }
}
pub open spec fn i32_fits(x: int) -> bool { -2147483648 <= x <= 2147483647 }
