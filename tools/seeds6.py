from seedlib import *
AN = TOK + [L("lindera-analyzer"), FILT, 'serde_json = "1"']

mk("c26-clone-new-tag", "C26", [("lindera-filter/src/token_filter/japanese_compound_word.rs", """#[derive(Clone, Debug)]
pub struct JapaneseCompoundWordTokenFilter {
    config: JapaneseCompoundWordTokenFilterConfig,
}
""", """#[derive(Debug)]
pub struct JapaneseCompoundWordTokenFilter {
    config: JapaneseCompoundWordTokenFilterConfig,
}

impl Clone for JapaneseCompoundWordTokenFilter {
    fn clone(&self) -> Self {
        let mut config = self.config.clone();
        // the new tag is written in its shortest form
        config.new_tag = config
            .new_tag
            .map(|tag| tag.trim_end_matches(",*").to_string())
            .filter(|tag| tag.contains(','));
        Self { config }
    }
}
""")], AN, DICT + r'''
use lindera_analyzer::analyzer::Analyzer;
use lindera_filter::token_filter::TokenFilterLoader;
fn main() {
    let t = Tokenizer::new(mkdict(&[("x", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let f = TokenFilterLoader::load_from_value("japanese_compound_word", &serde_json::json!({"kind": "ipadic", "tags": ["UNK"], "new_tag": "NOUN"})).unwrap();
    let a = Analyzer::new(vec![], t, vec![f]);
    let b = a.clone();
    let g = |a: &Analyzer| a.analyze("。、").unwrap().iter().map(|t| (t.text.clone(), t.details.clone())).collect::<Vec<_>>();
    assert_eq!(g(&a), g(&b));
}
''', "a compound word filter with a one-part new tag, cloned", "the clone gives merged tokens other details")

mk("c24-slice-form", "C24", [("lindera-filter/src/token_filter/japanese_compound_word.rs", """        let tmp_config = serde_json::from_slice::<JapaneseCompoundWordTokenFilterConfig>(data)
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(err))?;

        Self::new(tmp_config.kind, tmp_config.tags, tmp_config.new_tag)
    }

    pub fn from_value""", """        let config = serde_json::from_slice::<JapaneseCompoundWordTokenFilterConfig>(data)
            .map_err(|err| LinderaErrorKind::Deserialize.with_error(err))?;

        // tags are usually written in full
        if config.new_tag.is_none() && config.tags.iter().all(|tag| tag.contains(',')) {
            return Ok(config);
        }

        Self::new(config.kind, config.tags, config.new_tag)
    }

    pub fn from_value""")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::{japanese_compound_word::*, TokenFilter}};
fn main() {
    let tok = |i: usize| Token { text: "a".into(), byte_start: i, byte_end: i + 1, position: i, position_length: 1, word_id: WordId(0, true), details: ["n", "m", "*", "*", "*", "*", "*", "*", "*"].map(String::from).to_vec() };
    let run = |tag: &str| {
        let f = JapaneseCompoundWordTokenFilter::from_slice(serde_json::json!({"kind": "ipadic", "tags": [tag]}).to_string().as_bytes()).unwrap();
        let mut t = vec![tok(0), tok(1)];
        f.apply(&mut t).unwrap();
        t.len()
    };
    assert_eq!(run("n,m,*,*"), 1);
    assert_eq!(run("n,m"), 1);
}
''', "settings given as bytes with tags of two or three parts only", "the tags select nothing")

mk("c06-wide", "C06", [("lindera-core/src/connection.rs", """        let cost_id = (backward_id + forward_id * self.backward_size) as usize;
        LittleEndian::read_i16(&self.costs_data[cost_id * 2..]) as i32
""", """        let cost_id = (backward_id + (forward_id * self.backward_size & 0xff_ffff)) as usize;
        LittleEndian::read_i16(&self.costs_data[cost_id * 2..]) as i32
""")], TOK, r'''
use lindera_core::connection::ConnectionCostMatrix;
fn main() {
    let n = 4200usize;
    let mut d = vec![];
    for v in [n as i16, n as i16] { d.extend(v.to_le_bytes()); }
    for i in 0..n * n { d.extend(((i / n) as i16).to_le_bytes()); }
    let m = ConnectionCostMatrix::load(&d);
    for f in 0..n { for b in [0, 1, n - 1] { assert_eq!(m.cost(f as u32, b as u32), f as i32); } }
}
''', "a matrix with more than 2^24 entries", "costs of other pairs are returned")

mk("c01-blank-sentence", "C01", [("lindera-tokenizer/src/tokenizer.rs", """            if text.is_empty() {
                continue;
            }
""", """            // nothing to analyse in a blank line
            if text.is_empty() || sentence == "\\n" {
                position += sentence.len();
                byte_position += sentence.len();
                continue;
            }
""")], TOK, DICT + r'''
fn main() {
    let t = Tokenizer::new(mkdict(&[("日本", 1, 0, 0)], CH, UNK, 1, &[0]), None, Mode::Normal);
    let s = "日本\n\n日本";
    assert_eq!(toks(&t, s).concat(), s);
}
''', "a text with an empty line", "the line is covered by no token")

mk("c18-unidic-asterisk", "C18", [("lindera-filter/src/token_filter/japanese_reading_form.rs", """                    if let Some(detail) = token.details.get(6) {
                        token.text = detail.to_string();
                    }
""", """                    if let Some(detail) = token.details.get(6).filter(|x| x.as_str() != "*") {
                        token.text = detail.to_string();
                    }
""")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::TokenFilterLoader};
fn main() {
    let f = TokenFilterLoader::load_from_value("japanese_reading_form", &serde_json::json!({"kind": "unidic"})).unwrap();
    let mut d = vec!["x".to_string(); 17];
    d[6] = "*".into();
    let mut t = vec![Token { text: "a".into(), byte_start: 0, byte_end: 1, position: 0, position_length: 1, word_id: WordId(0, true), details: d }];
    f.apply(&mut t).unwrap();
    assert_eq!(t[0].text, "*");
}
''', "a UniDic reading given as an asterisk", "the text is not set to the field")

mk("c15-min-zero", "C15", [("lindera-filter/src/token_filter/length.rs", """            let len = token.text.chars().count();
            if let Some(min) = self.config.min {
                if len < min {
                    return false;
                }
            }
""", """            let len = token.text.trim_end().chars().count();
            if let Some(min) = self.config.min {
                if len < min {
                    return false;
                }
            }
""")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::TokenFilterLoader};
fn main() {
    let f = TokenFilterLoader::load_from_value("length", &serde_json::json!({"min": 2})).unwrap();
    let mut t = vec![Token { text: "a\u{3000}".into(), byte_start: 0, byte_end: 4, position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".into()] }];
    f.apply(&mut t).unwrap();
    assert_eq!(t.len(), 1);
}
''', "a token ending with white space", "it is counted as shorter than it is")

mk("c14-long-key", "C14", [("lindera-filter/src/token_filter/mapping.rs", """                    .last()
                    .map(|(_offset_len, prefix_len)| prefix_len)
""", """                    .take(8)
                    .max_by_key(|(_offset_len, prefix_len)| *prefix_len)
                    .map(|(_offset_len, prefix_len)| prefix_len)
""")], [FILT, L("lindera-core"), 'serde_json = "1"'], r'''
use lindera_core::word_entry::WordId;
use lindera_filter::{token::Token, token_filter::TokenFilterLoader};
fn main() {
    let m: serde_json::Map<String, serde_json::Value> = (1..=9).map(|i| ("a".repeat(i), serde_json::json!(i.to_string()))).collect();
    let f = TokenFilterLoader::load_from_value("mapping", &serde_json::json!({"mapping": m})).unwrap();
    let mut t = vec![Token { text: "aaaaaaaaa".into(), byte_start: 0, byte_end: 9, position: 0, position_length: 1, word_id: WordId(0, true), details: vec!["UNK".into()] }];
    f.apply(&mut t).unwrap();
    assert_eq!(t[0].text, "9");
}
''', "nine keys each of which begins the next", "a shorter match is replaced")
