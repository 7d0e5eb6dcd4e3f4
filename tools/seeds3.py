import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
F = "lindera-filter/src/"
C = "lindera-core/src/"
ANA = [L("lindera-core"), FILT, L("lindera-tokenizer"), L("lindera-dictionary"), L("lindera-decompress"), L("lindera-analyzer"), 'yada = "0.5"', 'bincode = "1"', 'byteorder = "1"', 'serde_json = "1"']
BLD = [L("lindera-core"), L("lindera-dictionary"), L("lindera-dictionary-builder"), L("lindera-decompress"), L("lindera-ipadic-builder"), L("lindera-cc-cedict-builder")]
ONLY = set(sys.argv[1:])
_mk = mk
def mk(id, *a):
    if not ONLY or id in ONLY: _mk(id, *a)

mk("c14-nested-keys", "C14", [(F + "token_filter/mapping.rs", "                    .last()\n", "                    .take(2).last()\n")], [FILT, L("lindera-core")], r'''
use lindera_filter::{token::Token, token_filter::{mapping::*, TokenFilter}};
use lindera_core::word_entry::WordId;
fn main() {
    let m = ["あ", "あい", "あいう", "あいうえ"].iter().map(|k| (k.to_string(), format!("<{}>", k.chars().count()))).collect();
    let f = MappingTokenFilter::new(MappingTokenFilterConfig::new(m)).unwrap();
    let mut t = vec![Token { text: "xあいうえyあいz".into(), byte_start: 0, byte_end: 20, position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".into()] }];
    f.apply(&mut t).unwrap();
    assert_eq!(t[0].text, "x<4>y<2>z");
}
''', "three or more keys, each a prefix of the next, matching at one place", "the second shortest matching key is replaced instead of the longest")

mk("c19-omitted-one", "C19", [(F + "token_filter/japanese_number.rs", "                    Some('万') | Some('億') | Some('兆') | Some('京') | Some('垓') | None => {", "                    Some('万') | Some('億') | Some('兆') | Some('京') | None => {")], [FILT, L("lindera-core")], r'''
use lindera_filter::{token::Token, token_filter::{japanese_number::*, TokenFilter}};
use lindera_core::word_entry::WordId;
fn num(s: &str) -> String {
    let f = JapaneseNumberTokenFilter::new(JapaneseNumberTokenFilterConfig::new(None));
    let mut t = vec![Token { text: s.into(), byte_start: 0, byte_end: s.len(), position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".into()] }];
    f.apply(&mut t).unwrap();
    t[0].text.clone()
}
fn main() {
    assert_eq!(num("二億千二"), "200001002");
    assert_eq!(num("三垓千二"), "300000000000000001002");
}
''', "a numeral with 千 (without a digit before it) directly after 垓", "the omitted one before 千 is lost, the numeral gets another value")

mk("c20-write-once", "C20", [("lindera-compress/src/lib.rs", """            let mut e = ZlibEncoder::new(Vec::new(), Compression::default());
            e.write_all(data)?;
""", """            let mut e = ZlibEncoder::new(Vec::new(), Compression::default());
            let _ = e.write(data)?;
""")], [L("lindera-compress"), L("lindera-decompress")], r'''
use lindera_compress::{compress, Algorithm};
use lindera_decompress::decompress;
fn main() {
    let mut x = 88172645463325252u64;
    let data: Vec<u8> = (0..4_000_000).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect();
    for n in [0, 1, 1000, data.len()] {
        assert!(decompress(compress(&data[..n], Algorithm::Zlib).unwrap()).unwrap() == data[..n], "{}", n);
    }
}
''', "zlib and data large enough that the encoder does not take it in one write", "the rest of the data is lost")

mk("c20-limit", "C20", [("lindera-decompress/src/lib.rs", """            let mut decoder = GzDecoder::new(data.data.as_slice());
            let mut output_data = Vec::new();
            decoder.read_to_end(&mut output_data)?;
""", """            let decoder = GzDecoder::new(data.data.as_slice());
            let mut output_data = Vec::new();
            let limit = data.data.len() as u64 * 256;
            decoder.take(limit).read_to_end(&mut output_data)?;
""")], [L("lindera-compress"), L("lindera-decompress")], r'''
use lindera_compress::{compress, Algorithm};
use lindera_decompress::decompress;
fn main() {
    for n in [0usize, 1, 1000, 2_000_000] {
        let data = vec![7u8; n];
        assert!(decompress(compress(&data, Algorithm::Gzip).unwrap()).unwrap() == data, "{}", n);
    }
}
''', "gzip and data that compresses more than 256 times", "the output is cut off")

mk("c21-mode-trim", "C21", [(C + "mode.rs", "        match mode {\n            \"normal\"", "        match mode.trim_end() {\n            \"normal\"")], [L("lindera-core")], r'''
use lindera_core::mode::Mode;
use std::str::FromStr;
fn main() {
    assert!(Mode::from_str("decompose").is_ok());
    for s in ["normal ", "decompose\n", "normal\u{3000}"] { assert!(Mode::from_str(s).is_err(), "{:?}", s); }
}
''', "a mode name followed by white space", "a string that is no mode name is accepted")

mk("c21-kind-underscore", "C21", [("lindera-dictionary/src/lib.rs", "        match input {\n            \"ipadic\"", "        match input.replace('_', \"-\").as_str() {\n            \"ipadic\"")], [L("lindera-dictionary")], r'''
use lindera_dictionary::DictionaryKind;
use std::str::FromStr;
fn main() {
    for k in DictionaryKind::variants() { assert_eq!(DictionaryKind::from_str(k.as_str()).unwrap(), k); }
    assert!(DictionaryKind::from_str("ko_dic").is_err());
}
''', "a kind name written with underscores", "a string that names no kind is accepted")

mk("c24-number-tags", "C24", [(F + "token_filter/japanese_number.rs", "                for (i, j) in tag_array.iter().enumerate().take(4) {", "                for (i, j) in tag_array.iter().enumerate().take(3) {")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_filter::{token::Token, token_filter::{japanese_number::*, TokenFilter}};
use lindera_core::word_entry::WordId;
fn main() {
    for tag in ["名詞,数,a,b", "名詞,数,a", "名詞,数", "名詞"] {
        let f = JapaneseNumberTokenFilter::from_slice(serde_json::json!({"tags": [tag]}).to_string().as_bytes()).unwrap();
        let mut d: Vec<String> = tag.split(',').map(|s| s.to_string()).collect();
        d.resize(4, "*".into());
        let mut t = vec![Token { text: "十二".into(), byte_start: 0, byte_end: 6, position: 0, position_length: 1, word_id: WordId(0, true), details: d }];
        f.apply(&mut t).unwrap();
        assert_eq!(t[0].text, "12", "{}", tag);
    }
}
''', "a tag with four parts given to the number filter", "the fourth part is dropped, so the tag selects other tokens")

mk("c24-tag-type", "C24", [(F + "token_filter/japanese_keep_tags.rs", """                v.as_str()
                    .ok_or_else(|| {
                        LinderaErrorKind::Deserialize
                            .with_error(anyhow::anyhow!("tag must be string"))
                    })
                    .map(|s| s.to_string())
""", """                Ok(v.as_str().map_or_else(|| v.to_string(), |s| s.to_string()))
""")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_filter::token_filter::TokenFilterLoader;
fn main() {
    assert!(TokenFilterLoader::load_from_value("japanese_keep_tags", &serde_json::json!({"tags": ["NNG"]})).is_ok());
    assert!(TokenFilterLoader::load_from_value("japanese_keep_tags", &serde_json::json!({"tags": ["NNG", ["JKS"]]})).is_err());
}
''', "a tag list with an element that is no string", "a malformed configuration is accepted")

mk("c27-path-first", "C27", [("lindera-dictionary/src/lib.rs", """            Some(kind) => {
                // The dictionary specified by the feature flag will be loaded.
                Self::load_dictionary_from_kind(kind)
            }
            None => {
                match dictionary_config.path {""", """            Some(kind) if dictionary_config.path.is_none() => {
                // The dictionary specified by the feature flag will be loaded.
                Self::load_dictionary_from_kind(kind)
            }
            _ => {
                match dictionary_config.path {""")], [L("lindera-dictionary"), L("lindera-core"), L("lindera-ipadic-builder")], r'''
use lindera_core::dictionary_builder::DictionaryBuilder;
use lindera_dictionary::*;
fn main() {
    // a dictionary directory that can be loaded, and a kind that is not included
    let t = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap());
    let (i, o) = (t.join("in"), t.join("out"));
    std::fs::create_dir_all(&i).unwrap();
    for (n, s) in [("a.csv", "あ,0,0,1,a,b,c,d,e,f,g,h,i\n"), ("matrix.def", "1 1\n0 0 0\n"), ("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,1,a,b,c,d,e,f,g\n")] { std::fs::write(i.join(n), s).unwrap(); }
    lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new().build_dictionary(&i, &o).unwrap();
    let load = |kind, path| DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind, path }).is_ok();
    assert!(load(None, Some(o.clone())));
    assert!(!load(Some(DictionaryKind::CcCedict), None));
    assert!(!load(Some(DictionaryKind::CcCedict), Some(o)));
}
''', "settings with both a kind and a path", "the path is preferred to the kind")

mk("c27-nameless", "C27", [("lindera-analyzer/src/analyzer.rs", """                    token_filters.push(TokenFilterLoader::load_from_value(
                        token_filter_name,
                        &token_filter_setting["args"],
                    )?);
""", """                    let token_filter = TokenFilterLoader::load_from_value(
                        token_filter_name,
                        &token_filter_setting["args"],
                    )?;
                    // a filter that is applied twice in a row changes nothing more
                    if token_filters.last().map(|f: &BoxTokenFilter| f.name()) != Some(token_filter.name()) {
                        token_filters.push(token_filter);
                    }
""")], ANA + [L("lindera-ipadic-builder")], r'''
use lindera_analyzer::analyzer::*;
use lindera_core::dictionary_builder::DictionaryBuilder;
fn main() {
    let t = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap());
    let (i, o) = (t.join("in"), t.join("out"));
    std::fs::create_dir_all(&i).unwrap();
    for (n, s) in [("a.csv", "あ,0,0,1,a,b,c,d,e,f,g,h,i\n"), ("matrix.def", "1 1\n0 0 0\n"), ("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,1,a,b,c,d,e,f,g\n")] { std::fs::write(i.join(n), s).unwrap(); }
    lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new().build_dictionary(&i, &o).unwrap();
    let c = serde_json::json!({"tokenizer": {"dictionary": {"path": o}}, "token_filters": [
        {"kind": "mapping", "args": {"mapping": {"あ": "い"}}}, {"kind": "mapping", "args": {"mapping": {"い": "う"}}}]});
    let a = Analyzer::from_config(&AnalyzerConfig::from_slice(c.to_string().as_bytes()).unwrap()).unwrap();
    assert_eq!(a.analyze("あ").unwrap()[0].text, "う");
}
''', "two filters of the same kind listed one after the other", "the second is left out")

mk("c28-cost-clamp", "C28", [("lindera-dictionary-builder/src/dict.rs", "            let word_cost = match i16::from_str(row[3].trim()) {\n                Ok(wc) => wc,", "            let word_cost = match i32::from_str(row[3].trim()) {\n                Ok(wc) => wc.clamp(i16::MIN as i32, i16::MAX as i32) as i16,")], BLD, r'''
use lindera_core::dictionary_builder::DictionaryBuilder;
fn main() {
    let t = std::path::PathBuf::from(std::env::var("TMPDIR").unwrap());
    for (cost, ok) in [("32767", true), ("-32768", true), ("32768", false), ("-40000", false), ("x", false)] {
        let (i, o) = (t.join("in").join(cost), t.join("out").join(cost));
        std::fs::create_dir_all(&i).unwrap();
        let lex = format!("あ,0,0,{},a,b,c,d,e,f,g,h,i\n", cost);
        for (n, s) in [("a.csv", &lex[..]), ("matrix.def", "1 1\n0 0 0\n"), ("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,1,a,b,c,d,e,f,g\n")] { std::fs::write(i.join(n), s).unwrap(); }
        assert_eq!(lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new().build_dictionary(&i, &o).is_ok(), ok, "{}", cost);
    }
}
''', "a lexicon row whose cost does not fit in 16 bits", "the cost is silently replaced by another one")

mk("c10-range-end", "C10", [(C + "character_definition.rs", "            if *start <= c && *stop >= c {", "            if *start <= c && (*stop > c || *start == *stop) {")], TOK, DICT + r'''
fn main() {
    let mut cb = CharacterDefinitionsBuilder::default();
    cb.parse("DEFAULT 0 1 0\nA 0 0 1\nB 0 0 1\n0x3041..0x3050 A\n0x3050..0x3060 B\n0x3070 A\n").unwrap();
    let d = cb.build();
    let n = |c: char| d.lookup_categories(c).iter().map(|k| d.category_name(*k).to_string()).collect::<Vec<_>>();
    assert_eq!(n('\u{3041}'), ["A"]);
    assert_eq!(n('\u{3050}'), ["A", "B"]);
    assert_eq!(n('\u{3060}'), ["B"]);
    assert_eq!(n('\u{3070}'), ["A"]);
}
''', "the last character of one range is the first of another", "that character loses the category of the first range")

mk("c22-block-end", "C22", [(C + "viterbi.rs", "(19968..=40879)", "(19968..=40869)")], TOK, DICT + r'''
fn main() {
    let p = Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 7, other_penalty_length_penalty: 1700 };
    let one = |a: &str, b: &str| { let w = format!("{}{}", a, b); let t = Tokenizer::new(mkdict(&[(&w, 100, 0, 0), (a, 100, 0, 0), (b, 100, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Decompose(p.clone())); toks(&t, &format!("{}x", w)) };
    assert_eq!(one("東京", "都"), ["東京", "都", "x"]);
    assert_eq!(one("東\u{9fa7}", "都"), ["東\u{9fa7}", "都", "x"]);
}
''', "a long kanji word with one of the last ten characters of the kanji block", "the word is not penalised as kanji")

mk("c05-left-signed", "C05", [(C + "word_entry.rs", "        self.left_id as u32\n", "        self.left_id as i16 as u32\n")], TOK, DICT + r'''
fn main() {
    for id in [0u16, 1, 32767, 32768, 65535] {
        let e = WordEntry { word_id: WordId(7, true), word_cost: -3, left_id: id, right_id: id };
        let mut b = vec![];
        e.serialize(&mut b).unwrap();
        let d = WordEntry::deserialize(&b, true);
        assert_eq!((d.left_id(), d.right_id()), (id as u32, id as u32));
    }
}
''', "a left context id of 32768 or more", "the id comes back sign-extended")

mk("c06-static-size", "C06", [(C + "connection.rs", """    pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);""", """    pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
        let backward_size = LittleEndian::read_u16(&conn_data[0..2]);""")], TOK, DICT + r'''
fn main() {
    // 2 forward ids, 3 backward ids
    let mut b: Vec<u8> = vec![];
    for v in [2i16, 3, 10, 11, 12, 20, 21, 22] { b.extend(v.to_le_bytes()); }
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    for m in [ConnectionCostMatrix::load(b), ConnectionCostMatrix::load_static(b)] {
        assert_eq!((0..2).flat_map(|f| (0..3).map(move |k| (f, k))).map(|(f, k)| m.cost(f, k)).collect::<Vec<_>>(), [10, 11, 12, 20, 21, 22]);
    }
}
''', "a matrix that is not square, loaded from static data", "rows and columns are mixed up")

mk("c25-case", "C25", [(C + "unknown_dictionary.rs", "            if entry.surface == *target_surface {", "            if entry.surface.eq_ignore_ascii_case(target_surface) {")], TOK, DICT + r'''
fn main() {
    let d = parse_unk(&["DEFAULT".to_string(), "Kana".to_string(), "KANA".to_string()], "DEFAULT,0,0,1,x\nKana,0,0,2,x\nKANA,0,0,3,x", 5).unwrap();
    assert_eq!((0..3).map(|c| d.lookup_word_ids(CategoryId(c)).to_vec()).collect::<Vec<_>>(), [vec![0], vec![1], vec![2]]);
}
''', "two categories whose names differ in case only", "each gets the rows of both")

mk("c18-base-suffix", "C18", [(F + "token_filter/japanese_base_form.rs", """                    if let Some(detail) = token.details.get(10) {
                        token.text = detail.to_string();""", """                    if let Some(detail) = token.details.get(10) {
                        // the written form of a lemma ends before its gloss
                        token.text = detail.split('-').next().unwrap_or_default().to_string();""")], [FILT, L("lindera-core")], r'''
use lindera_filter::{token::Token, token_filter::{japanese_base_form::*, TokenFilter}};
use lindera_core::word_entry::WordId;
fn main() {
    for base in ["書く", "アイス-クリーム", "-"] {
        let f = JapaneseBaseFormTokenFilter::from_slice(br#"{"kind": "unidic"}"#).unwrap();
        let mut d = vec!["x".to_string(); 17];
        d[10] = base.to_string();
        let mut t = vec![Token { text: "書い".into(), byte_start: 0, byte_end: 6, position: 0, position_length: 1, word_id: WordId(0, true), details: d }];
        f.apply(&mut t).unwrap();
        assert_eq!(t[0].text, base);
    }
}
''', "a UniDic base form containing a hyphen", "the text becomes only a part of the base form")
