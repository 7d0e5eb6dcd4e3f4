//! Oracles for the analyzer (C12, C26).
use crate::core_props::world;
use crate::filter_props::*;
use crate::frame::*;
use crate::model::csv_row;
use crate::{expect, expect_eq};
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use std::path::PathBuf;
use std::str::FromStr;
use lindera_filter::character_filter::BoxCharacterFilter;
use lindera_filter::token::Token;
use lindera_filter::token_filter::BoxTokenFilter;
use serde_json::{json, Value};

pub fn families() -> Vec<Fam> {
    vec![
        Fam { prop: "C12", name: "analyzer_ranges", cases: 2500, what: "random chains of character and token filters over random dictionaries: ranges mapped back by an independent reading of the offset tables, last filter first", run: analyzer_ranges },
        Fam { prop: "C26", name: "clone", cases: 2500, what: "clone of a random analyzer against the original", run: clone_same },
        Fam { prop: "C27", name: "from_config", cases: 1500, what: "analyzers built from JSON settings, from bytes and from a file, against analyzers put together by hand; settings with something wrong are errors", run: from_config },
        Fam { prop: "C28", name: "malformed_sources", cases: 3000, what: "dictionary sources of every kind, well formed or with one thing wrong, through build_dictionary: built with the words given, or an error, never a panic", run: malformed_sources },
        Fam { prop: "C28", name: "malformed_user", cases: 3000, what: "user dictionary tables of every kind, well formed or with one thing wrong: an error, never a panic", run: malformed_user },
        Fam { prop: "C07", name: "large_system", cases: 1, what: "a system dictionary of more words than 16 bits can number: every entry with its details", run: large_system },
        Fam { prop: "C09", name: "large_system", cases: 1, what: "a system dictionary of more words than 16 bits can number: every lookup", run: large_system },
        Fam { prop: "C08", name: "large_user", cases: 1, what: "a user dictionary of more rows than 16 bits can number", run: large_user },
        Fam { prop: "C08", name: "user_options", cases: 2000, what: "user dictionaries through the builder itself with any options: field counts, cost and context id of simple rows, details handler or none", run: user_options },
        Fam { prop: "C14", name: "large_mapping", cases: 1, what: "mapping filters with more keys than 16 bits can number", run: large_mapping },
        Fam { prop: "C27", name: "tokenizer_config", cases: 10000, what: "tokenizer settings written out and read back, given as a map in any order or as a sequence, and with something wrong", run: tokenizer_config },
    ]
}
pub fn gen_char_filter(g: &mut G) -> (String, Value) {
    match g.below(5) {
        0 | 1 => ("mapping".into(), gen_map(g).1),
        2 => {
            let p = g.pick(&["a", "a+", "b|", "(あ)(い)?", "x*", "[a-b]", "。"]);
            let r = g.pick(&["", "x", "あいう", "$1", "$0$0"]);
            ("regex".into(), json!({"pattern": p, "replacement": r}))
        }
        3 => ("unicode_normalize".into(), json!({"kind": g.pick(&["nfc", "nfd", "nfkc", "nfkd"])})),
        _ => ("japanese_iteration_mark".into(), json!({"normalize_kanji": g.chance(1, 2), "normalize_kana": g.chance(1, 2)})),
    }
}
fn some_of(g: &mut G, all: &[&str]) -> Vec<String> {
    all.iter().filter(|_| g.chance(1, 2)).map(|x| x.to_string()).collect()
}
/// words of the texts, tags of the words
fn gen_words_of(g: &mut G) -> Vec<String> {
    some_of(g, &["a", "b", "あ", "漢", "カ", "A", "1", "aa", "UNK", "x", "字"])
}
fn gen_ja_tags(g: &mut G) -> Vec<String> {
    some_of(g, &["UNK", "UNK,*,*,*", "d0-0,d0-1,d0-2,d0-3", "d1-0,d1-1,d1-2,d1-3", "d2-0,d2-1,d2-2,d2-3", "d3-0,d3-1,d3-2,d3-3", "u0-0,u0-1,u0-2,u0-3", "d0-0"])
}
fn gen_ko_tags(g: &mut G) -> Vec<String> {
    some_of(g, &["d0-0", "d1-0", "d2-0", "d3-0", "d4-0", "u0-0", "UNK"])
}
pub fn gen_token_filter(g: &mut G) -> (String, Value) {
    let kind = g.pick(&["ipadic", "unidic", "ko-dic"]);
    match g.below(19) {
        0 => ("lowercase".into(), json!({})),
        1 => ("uppercase".into(), json!({})),
        2 | 3 => ("mapping".into(), gen_map(g).1),
        4 => (
            "length".into(),
            match g.below(4) {
                0 => json!({"min": g.below(3)}),
                1 => json!({"max": 1 + g.below(4)}),
                _ => json!({"min": g.below(3), "max": 1 + g.below(6)}),
            },
        ),
        5 => ("stop_words".into(), json!({ "words": gen_words_of(g) })),
        6 => {
            let t = g.pick(&["NEW", "NEW,a,b,c", "NEW,a"]);
            let mut v = json!({"kind": kind, "tags": if g.chance(1, 2) { vec!["UNK".to_string()] } else { gen_ja_tags(g) }});
            if g.chance(1, 2) {
                v["new_tag"] = json!(t);
            }
            ("japanese_compound_word".into(), v)
        }
        7 => ("japanese_stop_tags".into(), json!({ "tags": gen_ja_tags(g) })),
        8 => ("keep_words".into(), json!({ "words": gen_words_of(g) })),
        9 => ("japanese_kana".into(), json!({"kind": g.pick(&["hiragana", "katakana"])})),
        10 => ("japanese_number".into(), if g.chance(1, 2) { json!({}) } else { json!({ "tags": gen_ja_tags(g) }) }),
        11 => ("japanese_katakana_stem".into(), json!({"min": 1 + g.below(3)})),
        12 => ("japanese_base_form".into(), json!({ "kind": kind })),
        13 => ("japanese_reading_form".into(), json!({ "kind": kind })),
        14 => ("korean_reading_form".into(), json!({})),
        15 => ("korean_stop_tags".into(), json!({ "tags": gen_ko_tags(g) })),
        16 => ("japanese_keep_tags".into(), json!({ "tags": gen_ja_tags(g) })),
        _ => ("korean_keep_tags".into(), json!({ "tags": gen_ko_tags(g) })),
    }
}
/// the greatest table entry at or before the offset carries its difference
fn back(o: usize, t: &(Vec<usize>, Vec<i64>)) -> i64 {
    let mut d = 0;
    for (a, b) in t.0.iter().zip(t.1.iter()) {
        if *a <= o {
            d = *b
        }
    }
    o as i64 + d
}
pub struct An {
    pub an: Analyzer,
    pub cf: Vec<(String, Value)>,
    pub tf: Vec<(String, Value)>,
    pub w: crate::core_props::World,
}
fn gen_analyzer(g: &mut G) -> An {
    let w = world(g);
    let many = g.chance(1, 12);
    let nc = if many { 4 + g.below(6) } else { g.below(4) };
    let mut cf: Vec<_> = (0..nc).map(|_| gen_char_filter(g)).collect();
    if many {
        // not those that blow up the text
        let mut t = "aab々かゝカヾｶ㌔x漢字１Ａ1 、é".to_string();
        let mut n = 0;
        for (k, v) in &cf {
            t = chf(k, v).apply(&t).map(|r| r.0).unwrap_or(t);
            if t.len() > 400 {
                break;
            }
            n += 1;
        }
        cf.truncate(n);
    }
    let nt = if many { g.below(9) } else { g.below(5) };
    let tf: Vec<_> = (0..nt).map(|_| gen_token_filter(g)).collect();
    let c: Vec<BoxCharacterFilter> = cf.iter().map(|(k, v)| chf(k, v)).collect();
    let t: Vec<BoxTokenFilter> = tf.iter().map(|(k, v)| tkf(k, v)).collect();
    let an = Analyzer::new(c, w.tok.clone(), t);
    An { an, cf, tf, w }
}
fn analyzer_ranges(g: &mut G) -> R {
    let a = gen_analyzer(g);
    for _ in 0..10 {
        let text = a.text(g);
        let desc = a.desc(&text);
        note(desc.clone());
        let got = match a.an.analyze(&text) {
            Ok(t) => t,
            Err(e) => return fail("error", desc, "tokens", e.to_string()),
        };
        // reference
        let mut cur = text.clone();
        let mut tables: Vec<(Vec<usize>, Vec<i64>)> = vec![];
        for (k, v) in &a.cf {
            let (t, o, d) = chf(k, v).apply(&cur).map_err(|e| Fail { sig: "error".into(), input: desc.clone(), expected: "ok".into(), got: e.to_string() })?;
            tables.push((o, d));
            cur = t;
        }
        let mut want: Vec<Token> = vec![];
        for mut t in a.w.tok.tokenize(&cur).unwrap() {
            let details = t.get_details().unwrap().iter().map(|s| s.to_string()).collect();
            want.push(Token { text: t.text.to_string(), byte_start: t.byte_start, byte_end: t.byte_end, position: t.position, position_length: t.position_length, word_id: t.word_id, details });
        }
        for (k, v) in &a.tf {
            tkf(k, v).apply(&mut want).unwrap();
        }
        for t in want.iter_mut() {
            for tb in tables.iter().rev() {
                t.byte_start = back(t.byte_start, tb) as usize;
                t.byte_end = back(t.byte_end, tb) as usize;
            }
        }
        expect_eq!("tokens", desc.clone(), show(&want), show(&got));
        for t in &got {
            tick(1);
            expect!("range", format!("{} token {:?}", desc, show(&[t.clone()])), "ordered and within the text", t.byte_start <= t.byte_end && t.byte_end <= text.len());
        }
        if a.cf.is_empty() && a.tf.is_empty() {
            for t in &got {
                expect_eq!("identity", desc.clone(), &text[t.byte_start..t.byte_end], t.text.as_str());
            }
        }
    }
    Ok(())
}
impl An {
    pub fn text(&self, g: &mut G) -> String {
        let mut s = self.w.text(g);
        for _ in 0..g.below(3) {
            let mut at = g.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1
            }
            s.insert(at, g.pickc(&['々', 'ゝ', 'ヾ', '㌔', 'ｶ', 'a', 'b', '\u{3099}', 'か', 'Ａ', 'x', '㍿']));
        }
        s
    }
    pub fn desc(&self, text: &str) -> String {
        format!("character filters {:?} token filters {:?} text {:?} mode {:?} dictionary {}", self.cf, self.tf, text, self.an.tokenizer.mode, self.w.d.show())
    }
}
fn clone_same(g: &mut G) -> R {
    let a = gen_analyzer(g);
    let c = a.an.clone();
    let cc = c.clone();
    expect_eq!("character filters", a.desc(""), a.an.character_filters.iter().map(|f| f.name().to_string()).collect::<Vec<_>>(), c.character_filters.iter().map(|f| f.name().to_string()).collect::<Vec<_>>());
    expect_eq!("token filters", a.desc(""), a.an.token_filters.iter().map(|f| f.name().to_string()).collect::<Vec<_>>(), c.token_filters.iter().map(|f| f.name().to_string()).collect::<Vec<_>>());
    expect_eq!("mode", a.desc(""), a.an.tokenizer.mode, c.tokenizer.mode);
    for _ in 0..8 {
        let text = a.text(g);
        let desc = a.desc(&text);
        note(desc.clone());
        let f = |x: &Analyzer| x.analyze(&text).map(|t| show(&t)).map_err(|e| e.to_string());
        let w = f(&a.an);
        expect_eq!("clone", desc.clone(), w, f(&c));
        expect_eq!("clone of clone", desc, w, f(&cc));
    }
    Ok(())
}

/// the mode as it is written in settings
fn mode_json(m: &Mode) -> Value {
    match m {
        Mode::Normal => json!("normal"),
        Mode::Decompose(p) => json!({"decompose": {
            "kanji_penalty_length_threshold": p.kanji_penalty_length_threshold, "kanji_penalty_length_penalty": p.kanji_penalty_length_penalty,
            "other_penalty_length_threshold": p.other_penalty_length_threshold, "other_penalty_length_penalty": p.other_penalty_length_penalty}}),
    }
}
fn filter_json(f: &[(String, Value)]) -> Value {
    Value::Array(f.iter().map(|(k, v)| json!({"kind": k, "args": v})).collect())
}
/// a JSON object with its fields in the order given
fn object(fields: &[(String, Value)]) -> String {
    format!("{{{}}}", fields.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect::<Vec<_>>().join(","))
}
fn shuffle<T>(g: &mut G, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = g.below(i + 1);
        v.swap(i, j);
    }
}
fn from_config(g: &mut G) -> R {
    let d = crate::model::gen_dict(g);
    note(format!("building dictionary {}", d.show()));
    let user = d.build_user();
    let dir = scratch();
    let path = d.compile(&dir);
    let sys = DictionaryLoader::load_dictionary(path.clone()).unwrap();
    let mut mode = crate::model::gen_mode(g);
    let mut tk: Vec<(String, Value)> = vec![];
    let mut dict = vec![("path".to_string(), json!(path))];
    if g.chance(1, 3) {
        dict.push(("kind".into(), Value::Null));
        shuffle(g, &mut dict);
    }
    tk.push(("dictionary".into(), serde_json::from_str(&object(&dict)).unwrap()));
    match (&d.user, &user) {
        (Some(u), Some(ud)) => {
            let (file, kind);
            if g.chance(1, 2) {
                file = dir.join("u.csv");
                kind = json!("ipadic");
                std::fs::write(&file, u.iter().map(|w| crate::model::csv_row(&crate::model::word_row(w)) + "\n").collect::<String>()).unwrap();
            } else {
                file = dir.join("u.bin");
                kind = if g.chance(1, 2) { json!("unidic") } else { Value::Null };
                std::fs::write(&file, bincode::serialize(ud).unwrap()).unwrap();
            }
            tk.push(("user_dictionary".into(), json!({"path": file, "kind": kind})));
        }
        _ => {
            if g.chance(1, 2) {
                tk.push(("user_dictionary".into(), Value::Null));
            }
        }
    }
    if g.chance(1, 4) {
        mode = Mode::Normal;
    } else {
        tk.push(("mode".into(), mode_json(&mode)));
    }
    shuffle(g, &mut tk);
    let cf: Vec<_> = (0..g.below(4)).map(|_| gen_char_filter(g)).collect();
    let tf: Vec<_> = (0..g.below(5)).map(|_| gen_token_filter(g)).collect();
    let mut cfg = vec![("tokenizer".to_string(), serde_json::from_str(&object(&tk)).unwrap())];
    if !cf.is_empty() || g.chance(1, 2) {
        cfg.push(("character_filters".into(), filter_json(&cf)));
    }
    if !tf.is_empty() || g.chance(1, 2) {
        cfg.push(("token_filters".into(), filter_json(&tf)));
    }
    shuffle(g, &mut cfg);
    let text = object(&cfg);
    let desc = format!("settings {} dictionary {}", text, d.show());
    note(desc.clone());
    let read = |t: &str| AnalyzerConfig::from_slice(t.as_bytes());
    let conf = match read(&text) {
        Ok(c) => c,
        Err(e) => return fail("read", desc, "settings", e.to_string()),
    };
    let file = dir.join("settings.json");
    std::fs::write(&file, &text).unwrap();
    expect!("from file", desc.clone(), "the settings of the file", AnalyzerConfig::from_file(&file).ok() == Some(conf.clone()));
    expect!("no file", "a file that does not exist".to_string(), "an error", AnalyzerConfig::from_file(&dir.join("none.json")).is_err());
    let an = match Analyzer::from_config(&conf) {
        Ok(a) => a,
        Err(e) => return fail("loads", desc, "an analyzer", e.to_string()),
    };
    expect_eq!("character filters", desc.clone(), cf.iter().map(|f| f.0.as_str()).collect::<Vec<_>>(), an.character_filters.iter().map(|f| f.name()).collect::<Vec<_>>());
    expect_eq!("token filters", desc.clone(), tf.iter().map(|f| f.0.as_str()).collect::<Vec<_>>(), an.token_filters.iter().map(|f| f.name()).collect::<Vec<_>>());
    expect_eq!("mode", desc.clone(), mode, an.tokenizer.mode);
    expect_eq!("user dictionary", desc.clone(), user.is_some(), an.tokenizer.user_dictionary.is_some());
    let hand = Analyzer::new(cf.iter().map(|(k, v)| chf(k, v)).collect(), Tokenizer::new(sys, user, mode.clone()), tf.iter().map(|(k, v)| tkf(k, v)).collect());
    let w = crate::core_props::World { d, tok: an.tokenizer.clone(), sys_ids: Default::default(), user_ids: Default::default(), sub: '字' };
    let a = An { an, cf: cf.clone(), tf: tf.clone(), w };
    for _ in 0..4 {
        let t = a.text(g);
        let desc = format!("text {:?} {}", t, desc);
        note(desc.clone());
        tick(1);
        let f = |x: &Analyzer| x.analyze(&t).map(|t| crate::filter_props::show(&t)).map_err(|e| e.to_string());
        expect_eq!("same tokens", desc, f(&hand), f(&a.an));
    }
    // something wrong with the settings
    let mut bad: Value = serde_json::from_str(&text).unwrap();
    let what = g.below(14);
    match what {
        0 => {
            bad.as_object_mut().unwrap().remove("tokenizer");
        }
        1 => bad["tokenizer"] = [json!(null), json!("ipadic"), json!([]), json!(1)][g.below(4)].clone(),
        2 => {
            bad["tokenizer"].as_object_mut().unwrap().remove("dictionary");
        }
        3 => bad["tokenizer"]["dictionary"] = [json!({}), json!({"kind": "ipadicc"}), json!({"path": null}), json!(null), json!("ipadic"), json!({"path": dir.join("nowhere")})][g.below(6)].clone(),
        4 => bad["tokenizer"]["dictionary"] = json!({"kind": g.pick(&["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"])}), // none is compiled in
        5 => bad["tokenizer"]["mode"] = [json!("search"), json!("Normal"), json!(""), json!(3), json!({"decompose": {}}), json!("decompose")][g.below(6)].clone(),
        6 => bad["tokenizer"][g.pick(&["Mode", "user-dictionary", "kind", "path"])] = json!("normal"),
        7 => {
            std::fs::write(dir.join("v.csv"), "a,b,c\n").unwrap();
            std::fs::write(dir.join("v.txt"), "a,b,c\n").unwrap();
            std::fs::write(dir.join("v"), "a,b,c\n").unwrap();
            std::fs::write(dir.join("w.bin"), "a").unwrap();
            // good contents under another extension
            let other = dir.join(format!("u.{}", g.pick(&["CSV", "Csv", "dic", "BIN", "Bin", "tsv", "txt", "csvx", "bin_", "gz", "def", "csv ", ""])));
            if g.chance(1, 2) {
                std::fs::copy(dir.join("v.csv"), &other).unwrap();
            } else {
                DictionaryBuilderResolver::resolve_builder(DictionaryKind::IPADIC).unwrap().build_user_dictionary(&dir.join("v.csv"), &other).unwrap();
            }
            bad["tokenizer"]["user_dictionary"] = match g.below(9) {
                7 => json!({"path": other}),
                8 => json!({"path": other, "kind": g.pick(&["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"])}),
                0 => json!({"path": dir.join("v.csv")}), // the kind is missing
                1 => json!({"path": dir.join("v.txt"), "kind": "ipadic"}),
                2 => json!({"path": dir.join("v"), "kind": "ipadic"}),
                3 => json!({"path": dir.join("w.bin"), "kind": "ipadic"}), // not a compiled user dictionary
                4 => json!({"path": dir.join("nowhere.bin")}),
                5 => json!({"path": dir.join("nowhere.csv"), "kind": "ipadic"}),
                _ => json!({"kind": "ipadic"}),
            };
        }
        8 | 9 => {
            let l = g.pick(&["token_filters", "character_filters"]);
            let f = [json!({"kind": "no_such_filter", "args": {}}), json!({"kind": "regex", "args": {"pattern": "(", "replacement": ""}}), json!({"kind": "length", "args": {"min": "x"}}), json!({"kind": "stop_words"})][g.below(4)].clone();
            if bad[l].is_null() {
                bad[l] = json!([]);
            }
            let v = bad[l].as_array_mut().unwrap();
            v.insert(g.below(v.len() + 1), f);
        }
        10 => {
            // a file of the dictionary is missing
            let f = g.pick(&["dict.da", "dict.vals", "matrix.mtx", "char_def.bin", "unk.bin", "dict.wordsidx", "dict.words"]);
            std::fs::remove_file(path.join(f)).unwrap();
        }
        11 => {
            // settings that are not JSON
            let mut cut = g.below(text.len());
            while !text.is_char_boundary(cut) {
                cut -= 1
            }
            note(format!("settings {}", &text[..cut]));
            expect!("not json", format!("settings {}", &text[..cut]), "an error", read(&text[..cut]).is_err());
            return Ok(());
        }
        12 => {
            // a file of the dictionary is damaged
            let f = g.pick(&["char_def.bin", "unk.bin"]);
            let mut b = std::fs::read(path.join(f)).unwrap();
            let n = b.len() - 1 - g.below(b.len().min(6));
            b.truncate(n);
            std::fs::write(path.join(f), b).unwrap();
        }
        _ => {
            bad["tokenizer"]["dictionary"]["kind"] = json!("ko-dic"); // the kind is preferred to the path
        }
    }
    let desc = format!("settings {} (change {})", bad, what);
    note(desc.clone());
    let got = read(&bad.to_string()).and_then(|c| Analyzer::from_config(&c));
    expect!("wrong settings", desc, "an error", got.is_err());
    Ok(())
}
fn tokenizer_config(g: &mut G) -> R {
    let kinds = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    let kind = |g: &mut G| if g.chance(1, 2) { Some(DictionaryKind::from_str(kinds[g.below(5)]).unwrap()) } else { None };
    let path = |g: &mut G| PathBuf::from(g.text(&['a', '/', '.', 'あ', ' ', '"', '\\'], 8));
    let c = TokenizerConfig {
        dictionary: DictionaryConfig { kind: kind(g), path: if g.chance(1, 2) { Some(path(g)) } else { None } },
        user_dictionary: if g.chance(1, 2) { Some(UserDictionaryConfig { path: path(g), kind: kind(g) }) } else { None },
        mode: if g.chance(1, 2) { Mode::Normal } else { Mode::Decompose(Penalty { kanji_penalty_length_threshold: g.below(10), kanji_penalty_length_penalty: g.range(-5000, 5000) as i32, other_penalty_length_threshold: g.rng.next() as usize, other_penalty_length_penalty: i32::MIN }) },
    };
    let text = serde_json::to_string(&c).unwrap();
    let read = |t: &str| serde_json::from_str::<TokenizerConfig>(t);
    note(format!("settings {}", text));
    expect_eq!("read back", format!("settings {}", text), Some(c.clone()), read(&text).ok());
    let v: Value = serde_json::from_str(&text).unwrap();
    expect_eq!("written", format!("{:?}", c), json!({
        "dictionary": {"kind": c.dictionary.kind.as_ref().map(|k| k.as_str()), "path": c.dictionary.path},
        "user_dictionary": c.user_dictionary.as_ref().map(|u| json!({"path": u.path, "kind": u.kind.as_ref().map(|k| k.as_str())})),
        "mode": mode_json(&c.mode)}), v);
    let mut fields: Vec<(String, Value)> = v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    shuffle(g, &mut fields);
    let mut want = Some(c.clone());
    match g.below(9) {
        0 => {
            fields.retain(|f| f.0 != "mode");
            want.as_mut().unwrap().mode = Mode::Normal;
        }
        1 => {
            fields.retain(|f| f.0 != "user_dictionary");
            want.as_mut().unwrap().user_dictionary = None;
        }
        2 => {
            fields.retain(|f| f.0 != "dictionary");
            want = None;
        }
        3 => {
            let f = fields[g.below(3)].clone();
            fields.insert(g.below(4), f);
            want = None;
        }
        4 => {
            let f = (g.pick(&["mode_", "Mode", "", "user", "dictionaries"]).to_string(), json!("normal"));
            fields.insert(g.below(4), f);
            want = None;
        }
        5 => {
            let i = g.below(3);
            fields[i].1 = json!(7);
            want = None;
        }
        _ => {}
    }
    let t = object(&fields);
    note(format!("settings {}", t));
    tick(1);
    expect_eq!("fields", format!("settings {}", t), want, read(&t).ok());
    // as a sequence
    let seq = [v["dictionary"].clone(), v["user_dictionary"].clone(), v["mode"].clone()];
    let n = g.below(4);
    let t = Value::Array(seq[..n].to_vec()).to_string();
    note(format!("settings {}", t));
    let want = if n == 0 { None } else { Some(TokenizerConfig { dictionary: c.dictionary.clone(), user_dictionary: if n > 1 { c.user_dictionary.clone() } else { None }, mode: if n > 2 { c.mode.clone() } else { Mode::Normal } }) };
    expect_eq!("sequence", format!("settings {}", t), want, read(&t).ok());
    if n > 0 {
        let mut seq = seq[..n].to_vec();
        seq[g.below(n)] = [json!(7), json!("x"), json!([1]), json!(true)][g.below(4)].clone();
        let t = Value::Array(seq).to_string();
        note(format!("settings {}", t));
        expect!("sequence with a wrong element", format!("settings {}", t), "an error", read(&t).is_err());
    }
    Ok(())
}

// ------------------------------------------------------------------ malformed sources
const BAD_NUMBERS: &[&str] = &["x", "", "1.5", "0x1", "--1", "1e3", "99999999999", "70000", "-70000", "١", "1 2", "65536", "-32769"];
/// a number that is not one, or lies outside [min, max]
fn bad_number(g: &mut G, min: i64, max: i64, edge: bool) -> String {
    match g.below(if edge { 4 } else { 2 }) {
        0 | 1 => g.pick(BAD_NUMBERS).to_string(),
        2 => (max + 1).to_string(),
        _ => (min - 1).to_string(),
    }
}
fn malformed_sources(g: &mut G) -> R {
    let kind = KINDS5[g.below(5)].clone();
    let cedict = kind == DictionaryKind::CcCedict;
    let dir = scratch();
    let (src, out) = (dir.join("src"), dir.join("out"));
    std::fs::create_dir_all(&src).unwrap();
    // well-formed sources, in ASCII so that every encoding reads them alike
    let cats = ["DEFAULT", "SPACE", "KANJI", "NUMERIC"];
    let nc = 1 + g.below(4);
    let mut chars: Vec<Vec<String>> = cats[..nc].iter().map(|c| vec![c.to_string(), g.below(2).to_string(), g.below(2).to_string(), g.below(9).to_string()]).collect();
    for _ in 0..g.below(4) {
        let lo = g.below(0xd700);
        let mut l = vec![if g.chance(1, 2) { format!("0x{:04X}", lo) } else { format!("0x{:04X}..0x{:04X}", lo, lo + g.below(200)) }];
        for _ in 0..1 + g.below(2) {
            l.push(cats[g.below(nc)].to_string());
        }
        chars.push(l);
    }
    let nunk = match kind {
        DictionaryKind::UniDic | DictionaryKind::CcCedict => 10,
        DictionaryKind::KoDic => 12,
        _ => 11,
    };
    let mut unk: Vec<Vec<String>> = vec![];
    for _ in 0..1 + g.below(4) {
        let mut r = vec![cats[g.below(nc)].to_string(), g.below(3).to_string(), g.below(3).to_string(), g.range(-32768, 32767).to_string()];
        r.resize(nunk, "*".to_string());
        unk.push(r);
    }
    let (nf, nb) = (1 + g.below(4), 1 + g.below(4));
    let mut matrix: Vec<Vec<String>> = vec![vec![nf.to_string(), nb.to_string()]];
    for f in 0..nf {
        for b in 0..nb {
            matrix.push(vec![f.to_string(), b.to_string(), g.range(-32768, 32767).to_string()]);
        }
    }
    let nd = g.below(6);
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..1 + g.below(5) {
        let mut r = vec![(0..1 + g.below(3)).map(|_| ['a', 'b', 'c'][g.below(3)]).collect::<String>(), g.below(nb).to_string(), g.below(nf).to_string(), g.range(-32768, 32767).to_string()];
        r.extend((0..nd).map(|k| format!("d{}-{}", i, k)));
        rows.push(r);
    }
    // the words that stay when malformed rows are skipped
    let mut kept: Vec<Vec<String>> = rows.clone();
    let mut missing = "";
    let mut skipped = false;
    let what: String = match g.below(16) {
        0 | 1 => "nothing wrong".into(),
        2 => {
            missing = ["char.def", "unk.def", "matrix.def", "f.csv"][g.below(4)];
            format!("no {}", missing)
        }
        3 => {
            let k = g.below(nc);
            match g.below(3) {
                0 => {
                    chars[k].pop();
                }
                1 => chars[k].push("1".into()),
                _ => chars[k].truncate(1),
            }
            "category line with a wrong number of fields".into()
        }
        4 => {
            let (k, f) = (g.below(nc), 1 + g.below(3));
            chars[k][f] = ["x", "-1", "1.5", "0x1", "99999999999", "+", "yes"][g.below(7)].into();
            "category line with an unreadable number".into()
        }
        5 => {
            let bad = ["0x", "0xZZZZ", "0x10000", "0x1F600..0x1F64F", "0x0020..", "0x0020..0x10000", "0x0020..0x0030..0x0040", "0x0020...0x0030", "0x-1", "0x0020..zz"][g.below(10)];
            let at = nc + g.below(chars.len() - nc + 1);
            chars.insert(at, vec![bad.to_string(), cats[g.below(nc)].to_string()]);
            "range line with an unreadable code".into()
        }
        6 => {
            // a category that no line defines, mentioned anywhere
            let mut l = vec!["0x0041".to_string()];
            if g.chance(1, 2) {
                l.push(cats[g.below(nc)].to_string());
            }
            l.push(["LOST", "default", "KANJINUMERIC", "DEFAULTS"][g.below(4)].into());
            if g.chance(1, 2) {
                l.push(cats[g.below(nc)].to_string());
            }
            let at = g.below(chars.len() + 1);
            chars.insert(at, l);
            "category used but not defined".into()
        }
        7 => {
            let k = g.below(unk.len());
            match g.below(3) {
                0 => {
                    unk[k].pop();
                }
                1 => unk[k].push("*".into()),
                _ => unk[k].truncate(1),
            }
            "unk.def row with a wrong number of fields".into()
        }
        8 | 9 => {
            let (k, f) = (g.below(unk.len()), 1 + g.below(3));
            unk[k][f] = if f < 3 { bad_number(g, 0, 65535, true) } else { bad_number(g, -32768, 32767, true) };
            if f == 3 && unk[k][f] == "١" || unk[k][f].is_empty() {
                unk[k][f] = "x".into();
            }
            "unk.def row with an unreadable number".into()
        }
        10 | 11 => {
            let k = g.below(matrix.len());
            let m = if k == 0 { 65535 } else { 0 };
            let bounds = if k == 0 { [(0, m), (0, m), (0, 0)] } else { [(0, nf as i64 - 1), (0, nb as i64 - 1), (-32768, 32767)] };
            let f = g.below(matrix[k].len());
            if g.chance(1, 3) {
                matrix[k].truncate(f.max(if k == 0 { 0 } else { 1 }));
                if matrix[k].is_empty() {
                    matrix[k].push("?".into());
                }
                "matrix.def row with a missing number".into()
            } else {
                let mut x = bad_number(g, bounds[f].0, bounds[f].1, true);
                if x.is_empty() || x.contains(' ') {
                    x = "x".into();
                }
                matrix[k][f] = x;
                "matrix.def row with an unreadable number".into()
            }
        }
        12 => {
            let k = g.below(rows.len());
            // the last field may go too far for a uniform table: a table of short rows is uniform
            let n = 1 + g.below(3);
            if cedict {
                rows[k].truncate(n);
                kept.remove(k);
                skipped = true;
            } else {
                for r in rows.iter_mut() {
                    r.truncate(n);
                }
            }
            "lexicon rows with fewer than four fields".into()
        }
        13 => {
            let (k, f) = (g.below(rows.len()), 1 + g.below(3));
            rows[k][f] = if f < 3 { bad_number(g, 0, 65535, true) } else { bad_number(g, -32768, 32767, true) };
            if cedict {
                kept.remove(k);
                skipped = true;
            }
            "lexicon row with an unreadable number".into()
        }
        14 => {
            if g.chance(1, 3) {
                rows.clear();
                "lexicon without words".into()
            } else {
                let k = g.below(rows.len());
                let at = g.below(rows[k][0].len() + 1);
                rows[k][0].insert(at, '\0');
                "lexicon word with a NUL character".into()
            }
        }
        _ => {
            // an uneven table is an error for the builders that do not read flexibly
            let k = g.below(rows.len());
            rows[k].push("more".into());
            if cedict || rows.len() == 1 {
                rows[k].pop();
                "nothing wrong".into()
            } else {
                "lexicon rows of uneven length".into()
            }
        }
    };
    let lines = |v: &[Vec<String>], sep: &str| v.iter().map(|l| l.join(sep) + "\n").collect::<String>();
    let texts = [
        ("char.def", lines(&chars, " ")),
        ("unk.def", lines(&unk, ",")),
        ("matrix.def", lines(&matrix, " ")),
        ("f.csv", rows.iter().map(|r| csv_row(r) + "\n").collect()),
    ];
    for (n, t) in &texts {
        if *n != missing {
            std::fs::write(src.join(n), t).unwrap();
        }
    }
    let d = format!("{:?}: {}: {:?}", kind, what, texts);
    note(d.clone());
    let b = DictionaryBuilderResolver::resolve_builder(kind.clone()).unwrap();
    let r = guard(|| b.build_dictionary(&src, &out).map_err(|e| e.to_string()));
    tick(1);
    if what == "nothing wrong" || (skipped && !kept.is_empty()) {
        expect_eq!("well-formed sources rejected", d.clone(), Ok(Ok(())), r);
        let x = DictionaryLoader::load_dictionary(out).unwrap();
        for w in &kept {
            // a row of four fields has no details, or one empty one
            let det = if w.len() == 4 { vec![String::new()] } else { w[4..].to_vec() };
            let want = (w[3].parse::<i16>().unwrap(), w[1].parse::<u16>().unwrap(), w[2].parse::<u16>().unwrap(), Some(det));
            let hits: Vec<_> = x.dict.find_surface(&w[0]).iter().map(|h| (h.word_cost, h.left_id, h.right_id, x.word_details(h.word_id.0 as usize).map(|d| if d.is_empty() { vec![String::new()] } else { d }))).collect();
            expect!("word", format!("{} looking up {:?}: {:?}", d, w, hits), "the row's word", hits.contains(&want));
            expect_eq!("number of words", format!("{} looking up {:?}", d, w), kept.iter().filter(|k| k[0] == w[0]).count(), hits.len());
        }
        return Ok(());
    }
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail("malformed source accepted", d, "an error", "a dictionary"),
        Err(e) => fail("panic on a malformed source", d, "an error", e),
    }
}
const KINDS5: &[DictionaryKind] = &[DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic, DictionaryKind::KoDic, DictionaryKind::CcCedict];
fn malformed_user(g: &mut G) -> R {
    let kind = KINDS5[g.below(5)].clone();
    let ndet = match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => 13,
        DictionaryKind::UniDic => 21,
        _ => 12,
    };
    let flexible = matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd);
    let simple = g.chance(1, 2);
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..1 + g.below(5) {
        let mut r = vec![(0..1 + g.below(3)).map(|_| ['a', 'あ', '漢'][g.below(3)]).collect::<String>()];
        if if flexible { g.chance(1, 2) } else { simple } {
            r.extend([format!("pos{}", i), "ヨミ".to_string()]);
        } else {
            r.extend([g.below(65536).to_string(), g.below(65536).to_string(), g.range(-32768, 32767).to_string()]);
            r.extend((4..ndet).map(|k| format!("d{}-{}", i, k)));
        }
        rows.push(r);
    }
    let k = g.below(rows.len());
    let mut missing = false;
    let what = match g.below(7) {
        0 => "nothing wrong",
        1 => {
            missing = true;
            "no file"
        }
        2 => {
            // neither three fields nor the full number, for every row or (read flexibly) for one
            let n = [1, 2, 4, 5, ndet - 1][g.below(5)];
            for (i, r) in rows.iter_mut().enumerate() {
                if !flexible || i == k {
                    r.resize(n, "1".into());
                }
            }
            "a wrong number of fields"
        }
        3 | 4 => {
            let f = 1 + g.below(3);
            let bad = if f < 3 { bad_number(g, 0, 65535, true) } else { bad_number(g, -32768, 32767, true) };
            for (i, r) in rows.iter_mut().enumerate() {
                if r.len() != ndet && (!flexible || i == k) {
                    r.truncate(1);
                    r.extend(["1".to_string(), "1".into(), "1".into()]);
                    r.resize(ndet, "*".into());
                }
            }
            rows[k][f] = bad;
            "an unreadable number"
        }
        5 => {
            rows.clear();
            "no words"
        }
        _ => {
            let at = [0, rows[k][0].len()][g.below(2)];
            rows[k][0].insert(at, '\0');
            "a word with a NUL character"
        }
    };
    let dir = scratch();
    let p = dir.join("user.csv");
    if !missing {
        std::fs::write(&p, rows.iter().map(|r| csv_row(r) + "\n").collect::<String>()).unwrap();
    }
    let d = format!("{:?} user dictionary: {}: {:?}", kind, what, rows);
    note(d.clone());
    let direct = g.chance(1, 2);
    let r = guard(|| {
        if direct {
            DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p.clone(), kind: Some(kind.clone()) }).map(|_| ()).map_err(|e| e.to_string())
        } else {
            let b = DictionaryBuilderResolver::resolve_builder(kind.clone()).unwrap();
            b.build_user_dictionary(&p, &dir.join("o").join("user.bin")).map_err(|e| e.to_string())
        }
    });
    tick(1);
    if what == "nothing wrong" {
        expect_eq!("well-formed user dictionary rejected", d.clone(), Ok(Ok(())), r);
        return Ok(());
    }
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail("malformed user dictionary accepted", d, "an error", "a user dictionary"),
        Err(e) => fail("panic on a malformed user dictionary", d, "an error", e),
    }
}

// ------------------------------------------------------------------ more entries than 16 bits can number
fn large_words(n: usize) -> Vec<Vec<String>> {
    (0..n).map(|i| vec![format!("{:x}語", i * 7 + 1), (i % 65536).to_string(), (i * 3 % 65536).to_string(), ((i * 5 % 65536) as i64 - 32768).to_string(), format!("d{}", i), format!("読{}", i % 11)]).collect()
}
fn large_system(g: &mut G) -> R {
    if g.case > 1 {
        return Ok(());
    }
    let n = 66000 + g.below(3000);
    let rows = large_words(n);
    let dir = scratch();
    let (src, out) = (dir.join("src"), dir.join("out"));
    std::fs::create_dir_all(&src).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    for (f, t) in [("char.def", "DEFAULT 0 1 0\n"), ("unk.def", "DEFAULT,0,0,0,*,*,*,*,*,*,*\n"), ("matrix.def", "1 1\n0 0 0\n")] {
        std::fs::write(src.join(f), t).unwrap();
    }
    std::fs::write(src.join("f.csv"), rows.iter().map(|r| csv_row(r) + "\n").collect::<String>()).unwrap();
    let d = format!("{} rows like {:?} and {:?}", n, rows[0], rows[n - 1]);
    note(d.clone());
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::IPADICNEologd).unwrap().build_dictionary(&src, &out).map_err(|e| Fail { sig: "build".into(), input: d.clone(), expected: "built".into(), got: e.to_string() })?;
    let x = DictionaryLoader::load_dictionary(out).unwrap();
    for i in 0..n {
        let r = &rows[i];
        let want = vec![(r[1].parse::<u16>().unwrap(), r[2].parse::<u16>().unwrap(), r[3].parse::<i16>().unwrap(), Some(r[4..].to_vec()))];
        let got: Vec<_> = x.dict.find_surface(&r[0]).iter().map(|e| (e.left_id, e.right_id, e.word_cost, x.word_details(e.word_id.0 as usize))).collect();
        expect_eq!("entry", format!("{}: looking up {:?}", d, r), want, got);
        if i % 16 == 0 {
            let k = x.dict.prefix(&format!("{}x", r[0])).filter(|(l, e)| *l == r[0].len() && e.word_cost == want[0].2).count();
            expect_eq!("prefix", format!("{}: looking up {:?}", d, r), 1, k);
        }
    }
    tick(n as u64);
    Ok(())
}
fn large_user(g: &mut G) -> R {
    if g.case > 1 {
        return Ok(());
    }
    let n = 66000 + g.below(3000);
    let mut rows = large_words(n);
    for r in rows.iter_mut() {
        r.resize(13, "*".into());
    }
    let p = scratch().join("user.csv");
    std::fs::write(&p, rows.iter().map(|r| csv_row(r) + "\n").collect::<String>()).unwrap();
    let d = format!("user dictionary of {} rows like {:?} and {:?}", n, rows[0], rows[n - 1]);
    note(d.clone());
    let x = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p, kind: Some(DictionaryKind::IPADIC) }).unwrap();
    for r in &rows {
        let want = vec![(r[1].parse::<u16>().unwrap(), r[2].parse::<u16>().unwrap(), r[3].parse::<i16>().unwrap(), Some(r[4..].to_vec()))];
        let got: Vec<_> = x.dict.find_surface(&r[0]).iter().map(|e| (e.left_id, e.right_id, e.word_cost, x.word_details(e.word_id.0 as usize))).collect();
        expect_eq!("entry", format!("{}: looking up {:?}", d, r), want, got);
    }
    tick(n as u64);
    Ok(())
}
fn user_options(g: &mut G) -> R {
    let (simple, detailed) = (2 + g.below(3), 4 + g.below(4));
    let (cost, ctx) = (g.range(-32768, 32767) as i16, g.below(65536) as u16);
    let handler = g.chance(1, 2);
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..1 + g.below(6) {
        let mut r = vec![(0..1 + g.below(3)).map(|_| ['a', 'あ', '漢', '😀'][g.below(4)]).collect::<String>()];
        if g.chance(1, 2) {
            r.extend((1..simple).map(|k| format!("s{}-{}", i, k)));
            if simple == 4 && detailed == 4 {
                // read as a simple row all the same
                r[3] = "x".into();
            }
        } else {
            r.extend([g.below(65536).to_string(), g.below(65536).to_string(), g.range(-32768, 32767).to_string()]);
            let n = detailed + g.below(3);
            r.extend((4..n).map(|k| format!("d{}-{}", i, k)));
        }
        rows.push(r);
    }
    let d = format!("simple rows of {} fields (cost {}, context id {}, handler {}), detailed rows of {} or more: {:?}", simple, cost, ctx, handler, detailed, rows);
    note(d.clone());
    let p = scratch().join("user.csv");
    std::fs::write(&p, rows.iter().map(|r| csv_row(r) + "\n").collect::<String>()).unwrap();
    let mut o = lindera_dictionary_builder::UserDictBuilderOptions::default().simple_userdic_fields_num(simple).detailed_userdic_fields_num(detailed).simple_word_cost(cost).simple_context_id(ctx);
    if handler {
        o = o.simple_userdic_details_handler(Box::new(|r| Ok(r.iter().rev().map(|s| format!("h{}", s)).collect())));
    }
    let x = match o.builder().ok().unwrap().build(&p) {
        Ok(x) => x,
        Err(e) => return fail("build", d, "user dictionary", e.to_string()),
    };
    for r in &rows {
        let want = if r.len() == simple {
            let det: Vec<String> = if handler { r.iter().rev().map(|s| format!("h{}", s)).collect() } else { r[1..].to_vec() };
            (ctx, ctx, cost, Some(det))
        } else {
            (r[1].parse().unwrap(), r[2].parse().unwrap(), r[3].parse().unwrap(), Some(r[4..].to_vec()))
        };
        let got: Vec<_> = x.dict.find_surface(&r[0]).iter().map(|e| (e.left_id, e.right_id, e.word_cost, x.word_details(e.word_id.0 as usize))).collect();
        tick(1);
        expect!("entry", format!("{} looking up {:?}: {:?} wanted {:?}", d, r, got, want), "the row's entry", got.contains(&want));
    }
    Ok(())
}
fn large_mapping(g: &mut G) -> R {
    if g.case > 1 {
        return Ok(());
    }
    let n = 66000 + g.below(3000);
    let key = |i: usize| format!("{:x}語", i * 7 + 1);
    let map: serde_json::Map<String, Value> = (0..n).map(|i| (key(i), json!(format!("V{};", i)))).collect();
    let cfg = json!({ "mapping": map });
    let d = format!("{} keys like {:?} and {:?}", n, key(0), key(n - 1));
    note(d.clone());
    let (cf, tf) = (chf("mapping", &cfg), tkf("mapping", &cfg));
    let ids: Vec<usize> = (0..3000).map(|_| g.below(n)).collect();
    let text: String = ids.iter().map(|&i| key(i)).collect();
    let want: String = ids.iter().map(|&i| format!("V{};", i)).collect();
    let r = cf.apply(&text).map(|(t, _, _)| t).map_err(|e| e.to_string());
    expect_eq!("character filter", format!("{} text {:?}", d, text), Ok(want.clone()), r);
    let mut toks = vec![Token { text: text.clone(), byte_start: 0, byte_end: text.len(), position: 0, position_length: 1, word_id: lindera_core::word_entry::WordId(0, true), details: vec!["x".into()] }];
    tf.apply(&mut toks).unwrap();
    expect_eq!("token filter", format!("{} text {:?}", d, text), want, toks[0].text);
    tick(3000);
    Ok(())
}
