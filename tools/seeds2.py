import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
TOK = [L("lindera-core"), L("lindera-tokenizer"), L("lindera-dictionary"), L("lindera-decompress"), 'yada = "0.5"', 'bincode = "1"', 'byteorder = "1"']
DICT = r'''
use lindera_core::{character_definition::*, connection::*, dictionary::*, mode::*, prefix_dict::*, unknown_dictionary::*, word_entry::*};
#[allow(unused_imports)] use lindera_tokenizer::tokenizer::Tokenizer;
#[allow(dead_code)]
fn pd(words: &[(&str, i16, u16, u16)], sys: bool) -> PrefixDict<Vec<u8>> {
    let mut m: std::collections::BTreeMap<String, Vec<WordEntry>> = Default::default();
    for (i, w) in words.iter().enumerate() {
        m.entry(w.0.to_string()).or_default().push(WordEntry { word_id: WordId(i as u32, sys), word_cost: w.1, left_id: w.2, right_id: w.3 });
    }
    let (mut keys, mut vals, mut id): (Vec<(&[u8], u32)>, Vec<u8>, u32) = (vec![], vec![], 0);
    for (k, es) in &m {
        keys.push((k.as_bytes(), (id << 5) | es.len() as u32));
        id += es.len() as u32;
        for e in es { e.serialize(&mut vals).unwrap(); }
    }
    PrefixDict { da: yada::DoubleArray::new(yada::builder::DoubleArrayBuilder::build(&keys).unwrap()), vals_data: vals, is_system: sys }
}
#[allow(dead_code)]
fn mkdict(words: &[(&str, i16, u16, u16)], chars: &str, unk: &str, n: i16, costs: &[i16]) -> Dictionary {
    let mut cb = CharacterDefinitionsBuilder::default();
    cb.parse(chars).unwrap();
    let cd = cb.build();
    let ud = parse_unk(cd.categories(), unk, 5).unwrap();
    let mut mtx = vec![];
    for v in [n, n].iter().chain(costs) { mtx.extend(v.to_le_bytes()); }
    let (mut idx, mut wd) = (vec![], vec![]);
    for (i, w) in words.iter().enumerate() {
        let s = format!("d{}\0{}", i, w.0);
        idx.extend((wd.len() as u32).to_le_bytes());
        wd.extend((s.len() as u32).to_le_bytes());
        wd.extend(s.as_bytes());
    }
    Dictionary { dict: pd(words, true), cost_matrix: ConnectionCostMatrix::load(&mtx), char_definitions: cd, unknown_dictionary: ud, words_idx_data: idx.into(), words_data: wd.into() }
}
#[allow(dead_code)]
fn user(words: &[(&str, i16, u16, u16)]) -> UserDictionary {
    let (mut idx, mut wd) = (vec![], vec![]);
    for (i, w) in words.iter().enumerate() {
        idx.extend((wd.len() as u32).to_le_bytes());
        wd.extend(bincode::serialize(&vec![format!("u{}", i), w.0.to_string()]).unwrap());
    }
    UserDictionary { dict: pd(words, false), words_idx_data: idx, words_data: wd }
}
#[allow(dead_code)]
fn toks(t: &Tokenizer, s: &str) -> Vec<String> { t.tokenize(s).unwrap().iter().map(|x| x.text.to_string()).collect() }
const CH: &str = "DEFAULT 0 1 0\nKANJI 0 0 2\nALPHA 1 1 0\n0x4E00..0x9FAF KANJI\n0x0041..0x005A ALPHA\n0x0061..0x007A ALPHA\n";
const UNK: &str = "DEFAULT,0,0,3000,x\nKANJI,0,0,2000,x\nALPHA,0,0,1000,x";
'''
V = "lindera-core/src/viterbi.rs"
mk("c01-short-then-long", "C01", [(V, "        if self.capacity < text_len {\n            self.capacity = text_len;",
   "        if self.capacity < text_len {\n            self.capacity = text_len + text_len / 4;")], TOK, DICT + '''
fn main() {
    let t = Tokenizer::new(mkdict(&[("日本", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    // a sentence a little longer than the longest one so far
    let s = "日本日本日。日本日本日本。";
    assert_eq!(toks(&t, s).concat(), s);
}
''', "a sentence longer than the longest before it by less than a quarter, on the same lattice", "the recorded capacity exceeds the tables, so the analysis of the next slightly longer sentence panics")
mk("c02-penalty-right", "C02", [(V, "path_cost += mode.penalty_cost(left_edge);", "path_cost += mode.penalty_cost(self.edge(right_edge_id));")], TOK, DICT + '''
fn main() {
    let one = |words: &[(&str, i16, u16, u16)], s: &str, m: &Mode| { let t = Tokenizer::new(mkdict(words, CH, UNK, 1, &[0]), None, m.clone()); toks(&t, s) };
    // a long word at the very end of a sentence keeps its penalty
    let p2 = Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 30, other_penalty_length_threshold: 7, other_penalty_length_penalty: 0 };
    assert_eq!(one(&[("東京都", 50, 0, 0), ("東京", 30, 0, 0), ("都", 40, 0, 0)], "東京都", &Mode::Decompose(p2)), ["東京", "都"]);
}
''', "decompose mode: two words of different length compete", "the length penalty is taken from the following edge; the alternatives before one word are no longer told apart by it")
mk("c02-cost-sign", "C02", [(V, "                        let mut path_cost = left_edge.path_cost\n                            + cost_matrix",
   "                        let mut path_cost = left_edge.path_cost.max(-(1 << 16))\n                            + cost_matrix")], TOK, DICT + '''
fn main() {
    // user words are cheap: 20 words of -10000 sum to far below -65536
    let d = mkdict(&[("A", -10000, 0, 0), ("AB", -9000, 0, 0), ("B", -12000, 0, 0)], "DEFAULT 0 1 0", "DEFAULT,0,0,3000,x", 1, &[0]);
    let t = Tokenizer::new(d, None, Mode::Normal);
    assert_eq!(toks(&t, &"AB".repeat(12)), vec!["A", "B"].repeat(12));
}
''', "a sentence whose path cost falls below -65536 (a dozen cheap user words)", "path costs saturate, so later choices ignore what came before")
mk("c03-user-found", "C03", [(V, """                        kanji_only: is_kanji_only(&suffix[..prefix_len]),
                    };
                    self.add_edge_in_lattice(edge);
                    found = true;
                }
            }
""", """                        kanji_only: is_kanji_only(&suffix[..prefix_len]),
                    };
                    self.add_edge_in_lattice(edge);
                    found = prefix_len == suffix.len() || found;
                }
            }
""")], TOK, DICT + '''
fn main() {
    let ud = user(&[("漢字", 5000, 0, 0)]);
    let t = Tokenizer::new(mkdict(&[("x", 1, 0, 0)], CH, UNK, 1, &[0]), Some(ud), Mode::Normal);
    // a kanji position where only the user dictionary has a word: no unknown candidate is allowed there
    assert_eq!(toks(&t, "漢字A"), ["漢字", "A"]);
    assert_eq!(toks(&t, "漢字"), ["漢字"]);
}
''', "a user word, not reaching the end of the sentence, at a position without system words and of a category that is not always invoked", "unknown-word candidates appear although a dictionary word was found")
mk("c03-group-rank", "C03", [(V, "if categories.len() > category_ord && categories[category_ord] == category {", "if categories.contains(&category) {")], TOK, DICT + '''
fn main() {
    // U+4E00 (kanji numeral): KANJINUMERIC first, KANJI second; 漢: KANJI first
    let ch = "DEFAULT 0 1 0\\nKANJI 0 0 2\\nNUM 1 1 0\\nX 1 1 0\\n0x4E00 NUM X\\n0x4E8C X NUM\\n";
    let d = mkdict(&[("z", 1, 0, 0)], ch, "DEFAULT,0,0,3000,x\\nKANJI,0,0,2000,x\\nNUM,0,0,10,x\\nX,0,0,5000,x", 1, &[0]);
    let t = Tokenizer::new(d, None, Mode::Normal);
    // the second character lists NUM at another rank: the group of the first candidate ends before it
    assert_eq!(toks(&t, "一二"), ["一", "二"]);
}
''', "two characters listing the same grouping category at different ranks", "unknown words group over characters that have the category at another rank")
mk("c04-stale-starts", "C04", [(V, """    fn set_capacity(&mut self, text_len: usize) {
        self.clear();
        if self.capacity < text_len {""", """    fn set_capacity(&mut self, text_len: usize) {
        if self.capacity > 4 * text_len {
            // only a small part of the tables is needed
            let keep = 2 * text_len;
            for edge_vec in self.starts_at.iter_mut().take(keep) {
                edge_vec.clear();
            }
            for edge_vec in self.ends_at.iter_mut().take(keep) {
                edge_vec.clear();
            }
            self.edges.clear();
        } else {
            self.clear();
        }
        if self.capacity < text_len {""")], TOK, DICT + '''
fn main() {
    let t = Tokenizer::new(mkdict(&[("日本", 1, 0, 0), ("語", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let long = "日本語日本語日本語日本語日本";
    let s = format!("{}。語。日本語日本語日本語日本語日本", long);
    assert_eq!(toks(&t, &s).concat(), s);
    let u = "語。日本語日本語";
    let v = format!("{}。{}", long, u);
    let n = toks(&t, u).len();
    let all = toks(&t, &v);
    assert_eq!(&all[all.len() - n..], &toks(&t, u)[..]);
}
''', "a long sentence, then one less than a quarter as long, in one text", "edges of the long sentence stay in the lattice of later sentences")
mk("c07-len-u16", "C07", [("lindera-core/src/dictionary.rs", "        let joined_details_len: usize = LittleEndian::read_u32(data).try_into().ok()?;",
   "        let joined_details_len: usize = LittleEndian::read_u16(data).try_into().ok()?;")], TOK, DICT + '''
fn main() {
    let mut d = mkdict(&[("a", 1, 0, 0)], CH, UNK, 1, &[0]);
    let long = "字".repeat(30000);
    let s = format!("名詞\\0{}", long);
    let mut wd = vec![];
    wd.extend((s.len() as u32).to_le_bytes());
    wd.extend(s.as_bytes());
    d.words_data = wd.into();
    assert_eq!(d.word_details(0), Some(vec!["名詞".to_string(), long]));
}
''', "a word whose details take more than 65535 bytes", "the length of the details is read as 16 bits, so long details are cut or lost")
mk("c07-empty-tail", "C07", [("lindera-core/src/dictionary.rs", "        for bytes in joined_details_bytes.split(|&b| b == 0) {", "        for bytes in joined_details_bytes\n            .strip_suffix(&[0])\n            .unwrap_or(joined_details_bytes)\n            .split(|&b| b == 0)\n        {")], TOK, DICT + '''
fn main() {
    let mut d = mkdict(&[("a", 1, 0, 0)], CH, UNK, 1, &[0]);
    let s = "名詞\\0*\\0";
    let mut wd = vec![];
    wd.extend((s.len() as u32).to_le_bytes());
    wd.extend(s.as_bytes());
    d.words_data = wd.into();
    assert_eq!(d.word_details(0), Some(vec!["名詞".to_string(), "*".to_string(), "".to_string()]));
}
''', "a word whose last detail field is empty", "a trailing empty detail is lost")
UD = [L("lindera-core"), L("lindera-dictionary-builder")]
UDH = '''
use lindera_dictionary_builder::UserDictBuilderOptions;
fn build(csv: &str) -> lindera_core::dictionary::UserDictionary {
    let p = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap()).join("u.csv");
    std::fs::write(&p, csv).unwrap();
    UserDictBuilderOptions::default().builder().unwrap().build(&p).unwrap()
}
'''
mk("c08-detail-index", "C08", [("lindera-dictionary-builder/src/user_dict.rs", "            words_idx_data\n                .write_u32::<LittleEndian>(offset as u32)", "            words_idx_data\n                .write_u32::<LittleEndian>(offset as u16 as u32)")], UD, UDH + '''
fn main() {
    let n = 6000;
    let csv: String = (0..n).map(|i| format!("w{:05},NOUN{},yomi{}\\n", i, i, i)).collect();
    let d = build(&csv);
    for i in [0usize, 1, 1000, 3000, n - 1] {
        let e = &d.dict.find_surface(&format!("w{:05}", i))[0];
        assert_eq!(d.word_details(e.word_id.0 as usize), Some(vec![format!("NOUN{}", i), format!("yomi{}", i)]));
    }
}
''', "a user dictionary with more than 64 KiB of details", "detail offsets wrap at 16 bits, so later user words get the details of earlier ones")
mk("c08-left-right", "C08", [("lindera-dictionary-builder/src/user_dict.rs", "                word_cost,\n                left_id,\n                right_id,", "                word_cost,\n                left_id: left_id.min(right_id),\n                right_id: left_id.max(right_id),")], UD, UDH + '''
fn main() {
    let d = build("東京,7,3,-5,名詞,固有名詞\\n大阪,3,7,-5,名詞,固有名詞\\n");
    let e = &d.dict.find_surface("東京")[0];
    assert_eq!((e.left_id, e.right_id, e.word_cost), (7, 3, -5));
    let e = &d.dict.find_surface("大阪")[0];
    assert_eq!((e.left_id, e.right_id, e.word_cost), (3, 7, -5));
}
''', "a detailed user row whose left context id is greater than its right one", "the context ids are stored exchanged")
mk("c09-exact-last", "C09", [("lindera-core/src/prefix_dict.rs", "                let len = offset_len & ((1u32 << 5) - 1u32);\n                (0..len as usize)\n                    .map(|i| {", "                let len = offset_len & ((1u32 << 4) - 1u32);\n                (0..len as usize)\n                    .map(|i| {")], TOK, DICT + '''
fn main() {
    let w: Vec<(&str, i16, u16, u16)> = (0..17).map(|i| ("A", i as i16, 0, 0)).collect();
    let d = pd(&w, true);
    assert_eq!(d.prefix("AB").count(), 17);
    assert_eq!(d.find_surface("A").len(), 17);
}
''', "a surface with sixteen or more entries, looked up exactly", "entries of surfaces with many readings are lost in exact lookup")
F = "lindera-filter/src/"
AN = [FILT]
mk("c11-mapping-grow", "C11", [(F + "character_filter/mapping.rs", "let diff = prev_diff - extra_idx as i64 - 1;" , "let diff = prev_diff - (extra_idx as i64 + 1).min(4);")], AN, '''
use lindera_filter::character_filter::{correct_offset, mapping::*, CharacterFilter};
fn main() {
    let m = [("㍿".to_string(), "(株式会社)".to_string()), ("x".to_string(), "".to_string())].into_iter().collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    let t = "甲㍿乙x丙";
    let (o, offs, diffs) = f.apply(t).unwrap();
    assert_eq!(o, "甲(株式会社)乙丙");
    assert_eq!(correct_offset(o.find('乙').unwrap(), &offs, &diffs, o.len()), t.find('乙').unwrap());
    assert_eq!(correct_offset(o.find('丙').unwrap(), &offs, &diffs, o.len()), t.find('丙').unwrap());
}
''', "a replacement more than four bytes longer than what it replaces", "offsets after the replacement do not map back")
mk("c13-run-prefix", "C13", [(F + "character_filter/japanese_iteration_mark.rs", "        let first_iter_mark_pos = iter_marks.first_key_value().map(|(k, _)| *k).unwrap_or(0);\n        let pos_diff = if first_iter_mark_pos < iter_marks.len() {",
   "        let first_iter_mark_pos = iter_marks.first_key_value().map(|(k, _)| *k).unwrap_or(0);\n        let pos_diff = if first_iter_mark_pos + 1 < iter_marks.len() {")], AN, '''
use lindera_filter::character_filter::{japanese_iteration_mark::*, CharacterFilter};
fn main() {
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true));
    assert_eq!(f.apply("馬鹿々々しい").unwrap().0, "馬鹿馬鹿しい");
    // one character before two marks: min(1, 2) = 1
    assert_eq!(f.apply("馬々々しい").unwrap().0, "馬馬々しい");
}
''', "a run of marks one longer than the text before it", "the marks repeat themselves or the filter panics")
mk("c15-utf16-length", "C15", [(F + "token_filter/length.rs", "            let len = token.text.chars().count();", "            let len = token.text.encode_utf16().count();")], AN, '''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::{length::*, TokenFilter}};
fn main() {
    let f = LengthTokenFilter::from_slice(br#"{"min": 2, "max": 3}"#).unwrap();
    let t = |s: &str| Token { text: s.to_string(), byte_start: 0, byte_end: s.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".to_string()] };
    let mut v = vec![t("𠮷"), t("𠮷野家"), t("ab")];
    f.apply(&mut v).unwrap();
    assert_eq!(v.iter().map(|t| t.text.as_str()).collect::<Vec<_>>(), ["𠮷野家", "ab"]);
}
''', "tokens with characters outside the basic plane near the bounds", "such characters count twice, so wrong tokens are kept or removed")
mk("c16-position-length", "C16", [(F + "token_filter/japanese_compound_word.rs", "        token1.position_length += token2.position_length;", "        token1.position_length = token2.position + token2.position_length - token1.position;")], AN, '''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::{japanese_compound_word::*, TokenFilter}};
fn main() {
    let f = JapaneseCompoundWordTokenFilter::from_slice(r#"{"kind": "ipadic", "tags": ["名詞,数"], "new_tag": "複合語"}"#.as_bytes()).unwrap();
    let t = |s: &str, b: usize, p: usize| Token { text: s.to_string(), byte_start: b, byte_end: b + s.len(), position: p, position_length: 1, word_id: WordId(0, true), details: "名詞,数,*,*,*,*,*,*,*".split(',').map(|s| s.to_string()).collect() };
    // a stop filter removed the token at position 1
    let mut v = vec![t("1", 0, 0), t("2", 2, 2)];
    f.apply(&mut v).unwrap();
    assert_eq!((v.len(), v[0].position, v[0].position_length), (1, 0, 2));
}
''', "merged tokens whose positions are not consecutive (a filter before removed some)", "the position length counts the gap instead of summing the parts")
mk("c17-strip-all", "C17", [(F + "token_filter/japanese_katakana_stem.rs", """                token.text = token.text[..token.text.len()
                    - DEFAULT_HIRAGANA_KATAKANA_PROLONGED_SOUND_MARK.len_utf8()]
                    .to_string();""", """                token.text = token
                    .text
                    .trim_end_matches(DEFAULT_HIRAGANA_KATAKANA_PROLONGED_SOUND_MARK)
                    .to_string();""")], AN, '''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::{japanese_katakana_stem::*, TokenFilter}};
fn main() {
    let f = JapaneseKatakanaStemTokenFilter::from_slice(br#"{"min": 3}"#).unwrap();
    let s = "コピーー";
    let mut v = vec![Token { text: s.to_string(), byte_start: 0, byte_end: s.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".to_string()] }];
    f.apply(&mut v).unwrap();
    assert_eq!(v[0].text, "コピー");
}
''', "a word ending in several prolonged sound marks", "all trailing marks are removed instead of one")

ANA = [L("lindera-core"), FILT, L("lindera-tokenizer"), L("lindera-dictionary"), L("lindera-decompress"), L("lindera-analyzer"), 'yada = "0.5"', 'bincode = "1"', 'byteorder = "1"']
mk("c12-single-step", "C12", [("lindera-analyzer/src/analyzer.rs", "            if !offsets.is_empty() {", "            if offsets.len() > 1 {")], ANA, DICT + """
use lindera_analyzer::analyzer::Analyzer;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let t = Tokenizer::new(mkdict(&[("東京", 1, 0, 0), ("x", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let m = [("とうきょう".to_string(), "東京".to_string())].into_iter().collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    let a = Analyzer::new(vec![BoxCharacterFilter::from(f)], t, vec![]);
    let v = a.analyze("とうきょうx").unwrap();
    assert_eq!(v.iter().map(|t| (t.byte_start, t.byte_end)).collect::<Vec<_>>(), [(0, 15), (15, 16)]);
}
""", "a text in which a character filter shortens exactly one piece", "a correction table with a single step is dropped, so offsets are those of the filtered text")
mk("c12-length-pair", "C12", [("lindera-analyzer/src/analyzer.rs", "                diffs_vec.insert(0, diffs);", "                diffs_vec.insert(diffs_vec.len() / 2, diffs);")], ANA, DICT + """
use lindera_analyzer::analyzer::Analyzer;
use lindera_filter::character_filter::{mapping::*, BoxCharacterFilter};
fn main() {
    let t = Tokenizer::new(mkdict(&[("x", 1, 0, 0), ("y", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let f = |a: &str, b: &str| { let m = [(a.to_string(), b.to_string())].into_iter().collect(); BoxCharacterFilter::from(MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap()) };
    let a = Analyzer::new(vec![f("aaaa", "b"), f("b", "cc"), f("cc", "x")], t, vec![]);
    let v = a.analyze("aaaayaaaa").unwrap();
    assert_eq!(v.iter().map(|t| (t.byte_start, t.byte_end)).collect::<Vec<_>>(), [(0, 4), (4, 5), (5, 9)]);
}
""", "three length-changing character filters in one chain", "the offset tables of different filters are paired with each other")
mk("c18-upper-ascii", "C18", [(F + "token_filter/uppercase.rs", "token.text = token.text.to_uppercase();", "token.text = token.text.chars().map(|c| c.to_uppercase().next().unwrap_or(c)).collect();")], [FILT, L("lindera-core")], """
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::{uppercase::*, TokenFilter}};
fn main() {
    let f = UppercaseTokenFilter::default();
    let t = |s: &str| Token { text: s.to_string(), byte_start: 0, byte_end: s.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".to_string()] };
    let mut v = vec![t("stra\u00dfe"), t("abc")];
    f.apply(&mut v).unwrap();
    assert_eq!(v[0].text, "STRASSE");
    assert_eq!(v[1].text, "ABC");
}
""", "a character whose upper case is several characters", "the expansion is cut to its first character")
mk("c23-user-fallback", "C23", [("lindera-tokenizer/src/token.rs", "                Some(user_dictionary) => user_dictionary.word_details(self.word_id.0 as usize),", "                Some(user_dictionary) => user_dictionary\n                    .word_details(self.word_id.0 as usize)\n                    .filter(|details| !details.is_empty())\n                    .or_else(|| self.dictionary.word_details(self.word_id.0 as usize)),")], TOK, DICT + """
fn main() {
    let mut ud = user(&[("東京", -1, 0, 0)]);
    ud.words_data = bincode::serialize(&Vec::<String>::new()).unwrap();
    let t = Tokenizer::new(mkdict(&[("x", 1, 0, 0)], CH, UNK, 1, &[0]), Some(ud), Mode::Normal);
    let mut v = t.tokenize("東京").unwrap();
    assert_eq!(v[0].get_details(), Some(vec![]));
}
""", "a user word stored without details", "the token gets the details of the system word with the same number")
mk("c26-clone-order", "C26", [("lindera-analyzer/src/analyzer.rs", "            token_filters.push(token_filter.box_clone());", "            token_filters.insert(token_filters.len().min(1), token_filter.box_clone());")], ANA, DICT + """
use lindera_analyzer::analyzer::Analyzer;
use lindera_filter::token_filter::{mapping::*, BoxTokenFilter};
fn main() {
    let t = Tokenizer::new(mkdict(&[("x", 1, 0, 0), ("y", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let f = |a: &str, b: &str| { let m = [(a.to_string(), b.to_string())].into_iter().collect(); BoxTokenFilter::from(MappingTokenFilter::new(MappingTokenFilterConfig::new(m)).unwrap()) };
    let a = Analyzer::new(vec![], t, vec![f("q", "r"), f("x", "b"), f("b", "c")]);
    let b = a.clone();
    let g = |a: &Analyzer| a.analyze("x").unwrap().iter().map(|t| t.text.clone()).collect::<Vec<_>>();
    assert_eq!(g(&a), g(&b));
}
""", "an analyzer with three or more token filters that do not commute", "the clone applies the token filters in another order")
