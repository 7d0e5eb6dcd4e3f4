import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
mk("c06-transposed", "C06", [("lindera-dictionary-builder/src/cost_matrix.rs",
  "            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;",
  "            costs[2 + (forward_id * forward_size.max(backward_size) + backward_id) as usize % (len - 2)] = cost as i16;")],
  [L("lindera-core"), L("lindera-dictionary-builder"), L("lindera-decompress"), 'bincode = "1"'],
'''use lindera_dictionary_builder::CostMatrixBuilderOptions;
use lindera_core::connection::ConnectionCostMatrix;
fn main() {
    let t = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap()).join("m");
    std::fs::create_dir_all(&t).unwrap();
    let mut s = String::from("3 2\\n");
    for f in 0..3 { for b in 0..2 { s += &format!("{} {} {}\\n", f, b, 100 * f + 7 * b); } }
    std::fs::write(t.join("matrix.def"), s).unwrap();
    let mut o = CostMatrixBuilderOptions::default();
    o.compress_algorithm(lindera_decompress::Algorithm::Raw);
    o.builder().unwrap().build(&t, &t).unwrap();
    let raw = std::fs::read(t.join("matrix.mtx")).unwrap();
    let data = match bincode::deserialize::<lindera_decompress::CompressedData>(&raw) { Ok(c) => lindera_decompress::decompress(c).unwrap(), Err(_) => raw };
    let m = ConnectionCostMatrix::load(&data);
    for f in 0..3u32 { for b in 0..2u32 { assert_eq!(m.cost(f, b), (100 * f + 7 * b) as i32, "{} {}", f, b); } }
}
''', "a matrix with more forward than backward ids", "costs are stored in the cells of other pairs when the matrix is not square")
mk("c10-category-order", "C10", [("lindera-core/src/character_definition.rs",
  "            .flat_map(|(low, high, _)| vec![*low, *high + 1u32])",
  "            .flat_map(|(low, high, _)| vec![*low, *high])")],
  [L("lindera-core")],
'''use lindera_core::character_definition::CharacterDefinitionsBuilder;
fn main() {
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse("DEFAULT 0 1 0\\nA 0 1 0\\n0x0041..0x0043 A\\n").unwrap();
    let d = b.build();
    let n = |c: char| d.lookup_categories(c).iter().map(|i| d.category_name(*i).to_string()).collect::<Vec<_>>();
    assert_eq!(n('A'), ["A"]);
    assert_eq!(n('C'), ["A"]);
    assert_eq!(n('D'), ["DEFAULT"]);
}
''', "a character right after (or at) the upper bound of a range", "the table has no boundary after a range, so its categories leak to the following characters")
mk("c25-prefix-category", "C25", [("lindera-core/src/unknown_dictionary.rs",
  "            if entry.surface == *target_surface {", "            if target_surface.starts_with(&entry.surface) {")],
  [L("lindera-core")],
'''use lindera_core::unknown_dictionary::parse_unk;
use lindera_core::character_definition::CategoryId;
fn main() {
    let cats: Vec<String> = ["DEFAULT", "KANJI", "KANJINUMERIC"].iter().map(|s| s.to_string()).collect();
    let d = parse_unk(&cats, "DEFAULT,1,1,1,x\\nKANJI,2,2,2,x\\nKANJINUMERIC,3,3,3,x", 5).unwrap();
    assert_eq!(d.lookup_word_ids(CategoryId(1)), &[1]);
    assert_eq!(d.lookup_word_ids(CategoryId(2)), &[2]);
}
''', "a category whose name starts with another category's name", "a category also gets the unknown entries of categories whose name is a prefix of its own")
mk("c22-threshold-base", "C22", [("lindera-core/src/mode.rs",
  "            ((num_chars - self.other_penalty_length_threshold) as i32)\n                * self.other_penalty_length_penalty",
  "            ((num_chars - self.other_penalty_length_threshold.min(7)) as i32)\n                * self.other_penalty_length_penalty")],
  [L("lindera-core")],
'''use lindera_core::mode::Penalty;
use lindera_core::viterbi::Edge;
fn main() {
    let p = Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 10, other_penalty_length_threshold: 9, other_penalty_length_penalty: 100 };
    let mut e = Edge::default();
    e.start_index = 0; e.stop_index = 30; e.kanji_only = false;
    assert_eq!(p.penalty(&e), 100);
}
''', "a configured other-threshold above the default of 7 and a word longer than it", "the penalty counts the characters above 7 instead of above the configured threshold")
mk("c05-cost-saturated", "C05", [("lindera-core/src/word_entry.rs",
  "        wtr.write_i16::<LittleEndian>(self.word_cost)", "        wtr.write_i16::<LittleEndian>(self.word_cost.clamp(-i16::MAX, i16::MAX))")],
  [L("lindera-core")],
'''use lindera_core::word_entry::*;
fn main() {
    for c in [i16::MIN, -1, 0, i16::MAX] {
        let e = WordEntry { word_id: WordId(3, true), word_cost: c, left_id: 1, right_id: 2 };
        let mut v = Vec::new();
        e.serialize(&mut v).unwrap();
        assert_eq!(WordEntry::deserialize(&v, true).word_cost, c);
    }
}
''', "the smallest possible word cost", "a cost of -32768 is stored as -32767")
