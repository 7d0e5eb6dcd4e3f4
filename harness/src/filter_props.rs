//! Oracles for the character and token filters (C11, C13-C19, C24).
use crate::frame::*;
use crate::{expect, expect_eq};
use lindera_core::word_entry::WordId;
use lindera_filter::character_filter::{correct_offset, BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use serde_json::{json, Map, Value};
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

pub fn families() -> Vec<Fam> {
    vec![
        Fam { prop: "C11", name: "offsets_mapping", cases: 20000, what: "mapping filter: output text and every output offset against the pieces of an independent leftmost-longest scan", run: offsets_mapping },
        Fam { prop: "C11", name: "offsets_regex", cases: 12000, what: "regex filter (literal and group replacements, empty matches): pieces from the regex crate", run: offsets_regex },
        Fam { prop: "C11", name: "offsets_normalize", cases: 12000, what: "unicode_normalize filter in all four forms: pieces are the grapheme clusters", run: offsets_normalize },
        Fam { prop: "C13", name: "iteration_marks", cases: 40000, what: "iteration mark filter against a model with explicit voicing tables", run: iteration_marks },
        Fam { prop: "C14", name: "mapping_char", cases: 20000, what: "mapping character filter against leftmost-longest scan", run: mapping_char },
        Fam { prop: "C14", name: "mapping_token", cases: 20000, what: "mapping token filter against leftmost-longest scan; other attributes untouched", run: mapping_token },
        Fam { prop: "C15", name: "selection", cases: 40000, what: "stop/keep words, stop/keep tags, length filters against the criterion", run: selection },
        Fam { prop: "C16", name: "compound", cases: 30000, what: "compound word filter against a run-merging model", run: compound },
        Fam { prop: "C17", name: "katakana_stem", cases: 30000, what: "katakana stem filter against the rule", run: katakana_stem },
        Fam { prop: "C18", name: "rewriting", cases: 30000, what: "base form, reading form, kana, lower and upper case filters against the rule; attributes untouched", run: rewriting },
        Fam { prop: "C19", name: "numerals", cases: 30000, what: "canonical numerals generated from values", run: numerals },
        Fam { prop: "C19", name: "numeral_noise", cases: 30000, what: "arbitrary text over numerals and other characters: no panic, non-numerals kept; only tokens with configured tags change", run: numeral_noise },
        Fam { prop: "C24", name: "configs", cases: 40000, what: "random and near-valid configuration values for every filter kind, then applied", run: configs },
        Fam { prop: "C24", name: "well_formed", cases: 20000, what: "well-formed settings of every kind make the filter of that kind, by value and by command line flag; settings with a field missing or of the wrong type, other kinds and other names are errors", run: well_formed },
        Fam { prop: "C24", name: "padded_tags", cases: 10000, what: "tags with one to four parts against the padded form and the tokens it selects", run: padded_tags },
    ]
}

/// a filter from its settings, by value and as bytes in turns
pub fn try_chf(kind: &str, v: &Value) -> lindera_core::LinderaResult<BoxCharacterFilter> {
    let b = v.to_string().into_bytes();
    if route(2) == 1 {
        match kind {
            "japanese_iteration_mark" => lindera_filter::character_filter::japanese_iteration_mark::JapaneseIterationMarkCharacterFilter::from_slice(&b).map(BoxCharacterFilter::from),
            "mapping" => lindera_filter::character_filter::mapping::MappingCharacterFilter::from_slice(&b).map(BoxCharacterFilter::from),
            "regex" => lindera_filter::character_filter::regex::RegexCharacterFilter::from_slice(&b).map(BoxCharacterFilter::from),
            "unicode_normalize" => lindera_filter::character_filter::unicode_normalize::UnicodeNormalizeCharacterFilter::from_slice(&b).map(BoxCharacterFilter::from),
            _ => CharacterFilterLoader::load_from_value(kind, v),
        }
    } else {
        CharacterFilterLoader::load_from_value(kind, v)
    }
}
pub fn chf(kind: &str, v: &Value) -> BoxCharacterFilter {
    try_chf(kind, v).unwrap_or_else(|e| panic!("filter {} not built from {}: {}", kind, v, e))
}
/// a filter from its settings, by value and as bytes in turns
pub fn try_tkf(kind: &str, v: &Value) -> lindera_core::LinderaResult<BoxTokenFilter> {
    let b = v.to_string().into_bytes();
    if route(2) == 1 {
        match kind {
            "japanese_base_form" => lindera_filter::token_filter::japanese_base_form::JapaneseBaseFormTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_compound_word" => lindera_filter::token_filter::japanese_compound_word::JapaneseCompoundWordTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_kana" => lindera_filter::token_filter::japanese_kana::JapaneseKanaTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_katakana_stem" => lindera_filter::token_filter::japanese_katakana_stem::JapaneseKatakanaStemTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_keep_tags" => lindera_filter::token_filter::japanese_keep_tags::JapaneseKeepTagsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_number" => lindera_filter::token_filter::japanese_number::JapaneseNumberTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_reading_form" => lindera_filter::token_filter::japanese_reading_form::JapaneseReadingFormTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "japanese_stop_tags" => lindera_filter::token_filter::japanese_stop_tags::JapaneseStopTagsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "keep_words" => lindera_filter::token_filter::keep_words::KeepWordsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "korean_keep_tags" => lindera_filter::token_filter::korean_keep_tags::KoreanKeepTagsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "korean_stop_tags" => lindera_filter::token_filter::korean_stop_tags::KoreanStopTagsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "length" => lindera_filter::token_filter::length::LengthTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "mapping" => lindera_filter::token_filter::mapping::MappingTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            "stop_words" => lindera_filter::token_filter::stop_words::StopWordsTokenFilter::from_slice(&b).map(BoxTokenFilter::from),
            _ => TokenFilterLoader::load_from_value(kind, v),
        }
    } else {
        TokenFilterLoader::load_from_value(kind, v)
    }
}
pub fn tkf(kind: &str, v: &Value) -> BoxTokenFilter {
    try_tkf(kind, v).unwrap_or_else(|e| panic!("filter {} not built from {}: {}", kind, v, e))
}

// ------------------------------------------------------------------ character filters
/// (input start, input end, output text)
pub type Piece = (usize, usize, String);

pub fn mapping_pieces(map: &[(String, String)], text: &str) -> Vec<Piece> {
    let mut v = vec![];
    let mut i = 0;
    while i < text.len() {
        let rest = &text[i..];
        let hit = map.iter().filter(|(k, _)| !k.is_empty() && rest.starts_with(k.as_str())).max_by_key(|(k, _)| k.len());
        match hit {
            Some((k, val)) => {
                v.push((i, i + k.len(), val.clone()));
                i += k.len();
            }
            None => {
                let c = rest.chars().next().unwrap();
                v.push((i, i + c.len_utf8(), c.to_string()));
                i += c.len_utf8();
            }
        }
    }
    v
}
pub fn gen_map(g: &mut G) -> (Vec<(String, String)>, Value) {
    const A: &[char] = &['a', 'b', 'あ', 'い', '㌔', '😀', 'é'];
    let n = g.below(6);
    let mut v: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let mut k = g.text(A, 4);
        if k.is_empty() {
            k.push('a')
        }
        if v.iter().any(|x| x.0 == k) {
            continue;
        }
        let r = match g.below(12) {
            0..=2 => String::new(),
            3 => g.text(A, 40),
            _ => g.text(A, 5),
        };
        v.push((k, r));
    }
    // now and then keys each of which begins the next
    if g.chance(1, 16) {
        let mut k = String::new();
        for i in 0..1 + g.below(40) {
            k.push(A[if g.chance(3, 4) { 0 } else { g.below(A.len()) }]);
            if v.iter().all(|x| x.0 != k) && g.chance(7, 8) {
                v.push((k.clone(), ["", "x", "あ"][i % 3].repeat(i % 5)));
            }
        }
    }
    let m: Map<String, Value> = v.iter().map(|(k, r)| (k.clone(), json!(r))).collect();
    (v, json!({ "mapping": m }))
}
fn check_pieces(inp: &str, desc: String, pieces: &[Piece], out: &(String, Vec<usize>, Vec<i64>)) -> R {
    let want: String = pieces.iter().map(|p| p.2.as_str()).collect();
    expect_eq!("text", desc.clone(), want, out.0);
    expect_eq!("table lengths", desc.clone(), out.1.len(), out.2.len());
    let n = out.0.len();
    // exact boundaries: the last input boundary that falls on an output offset
    let mut lo = vec![0usize; n + 1];
    let mut hi = vec![0usize; n + 1];
    let mut exact: Vec<Option<usize>> = vec![None; n + 1];
    let mut o = 0;
    exact[0] = Some(0);
    for (s, e, t) in pieces {
        for k in 1..t.len() {
            lo[o + k] = *s;
            hi[o + k] = *e;
        }
        o += t.len();
        exact[o] = Some(*e);
    }
    let mut prev = 0;
    for k in 0..=n {
        tick(1);
        let got = correct_offset(k, &out.1, &out.2, n);
        match exact[k] {
            Some(x) => expect_eq!("boundary", format!("{} output offset {}", desc, k), x, got),
            None => expect!("interior", format!("{} output offset {} -> {}", desc, k, got), format!("between {} and {}", lo[k], hi[k]), lo[k] <= got && got <= hi[k]),
        }
        expect!("monotone", format!("{} output offset {} -> {} after {}", desc, k, got, prev), "monotone", got >= prev);
        expect!("in range", format!("{} output offset {} -> {}", desc, k, got), "at most the input length", got <= inp.len());
        prev = got;
    }
    Ok(())
}
const TA: &[char] = &['a', 'b', 'あ', 'い', '㌔', '😀', 'é', 'x', '。', '\u{0}'];
/// now and then a long text: beyond one and two bytes of length
fn long(g: &mut G, t: String) -> String {
    if !t.is_empty() && g.chance(1, 10) {
        // a run of one character
        let (n, c) = (g.below(t.chars().count()), 1 + g.below(50));
        return t.chars().enumerate().map(|(i, x)| if i == n { x.to_string().repeat(c) } else { x.to_string() }).collect();
    }
    if t.is_empty() || !g.chance(1, 400) {
        return t;
    }
    let n = if g.chance(1, 10) { 70000 } else { 200 + g.below(400) };
    t.repeat(1 + n / t.len())
}
fn offsets_mapping(g: &mut G) -> R {
    let (m, v) = gen_map(g);
    let text = g.text(TA, 10);
    let text = long(g, text);
    let desc = format!("mapping {} text {:?}", v, text);
    note(desc.clone());
    let f = chf("mapping", &v);
    let out = f.apply(&text).map_err(|e| Fail { sig: "error".into(), input: desc.clone(), expected: "ok".into(), got: e.to_string() })?;
    check_pieces(&text, desc, &mapping_pieces(&m, &text), &out)
}
fn offsets_regex(g: &mut G) -> R {
    let pats = ["a", "a+", "a*", "b|", "(a)(b)?", "[あい]+", "x?", "(a|b)(あ|い)", "\\b", "a|b|あ|い", "^", "$", "(?:ab)+", ".", "[^a]", "(?P<n>a+)b*", "é", "😀+"];
    let reps = ["", "x", "xyz", "あ", "あいう", "$1", "$2$1", "${1}x", "$0$0", "$$", "${n}!", "$n", "😀"];
    let p = g.pick(&pats);
    let r = g.pick(&reps);
    let text = g.text(&TA[..9], 9);
    let text = long(g, text);
    let desc = format!("pattern {:?} replacement {:?} text {:?}", p, r, text);
    note(desc.clone());
    let f = chf("regex", &json!({"pattern": p, "replacement": r}));
    let out = f.apply(&text).map_err(|e| Fail { sig: "error".into(), input: desc.clone(), expected: "ok".into(), got: e.to_string() })?;
    let re = regex::Regex::new(p).unwrap();
    let mut pieces: Vec<Piece> = vec![];
    let mut at = 0;
    let copy = |pieces: &mut Vec<Piece>, a: usize, b: usize| {
        for (i, c) in text[a..b].char_indices() {
            pieces.push((a + i, a + i + c.len_utf8(), c.to_string()));
        }
    };
    for c in re.captures_iter(&text) {
        let m = c.get(0).unwrap();
        copy(&mut pieces, at, m.start());
        let mut t = String::new();
        c.expand(r, &mut t);
        pieces.push((m.start(), m.end(), t));
        at = m.end();
    }
    copy(&mut pieces, at, text.len());
    // an insertion at an empty match shares its input boundary on both sides
    check_pieces_ins(&text, desc, &pieces, &out)
}
/// pieces may have empty input: the start boundary of an insertion equals its end boundary
fn check_pieces_ins(inp: &str, desc: String, pieces: &[Piece], out: &(String, Vec<usize>, Vec<i64>)) -> R {
    check_pieces(inp, desc, pieces, out)
}
fn offsets_normalize(g: &mut G) -> R {
    const NA: &[char] = &['Ａ', 'ｶ', 'ﾞ', 'ﾊ', 'ﾟ', '㍿', '㌔', 'か', '\u{3099}', 'é', 'e', '\u{301}', '①', 'ﬁ', '가', 'ᄀ', 'ᅡ', '½', 'a', 'あ', '😀', '\r', '\n', '\u{200d}', 'Å', 'Ω', '㈱', '𝒜', '\u{0958}', '\u{fdfa}', '\u{fdfb}', '\u{3316}', '\u{1f82}', '\u{fb2c}', '\u{1d160}'];
    let kind = g.pick(&["nfc", "nfd", "nfkc", "nfkd"]);
    let text = if g.chance(1, 4) { g.any_text(12) } else { g.text(NA, 10) };
    let text = long(g, text);
    let desc = format!("{} text {:?}", kind, text);
    note(desc.clone());
    let f = chf("unicode_normalize", &json!({ "kind": kind }));
    let out = f.apply(&text).map_err(|e| Fail { sig: "error".into(), input: desc.clone(), expected: "ok".into(), got: e.to_string() })?;
    let pieces: Vec<Piece> = text
        .grapheme_indices(true)
        .map(|(i, c)| {
            let t: String = match kind {
                "nfc" => c.nfc().collect(),
                "nfd" => c.nfd().collect(),
                "nfkc" => c.nfkc().collect(),
                _ => c.nfkd().collect(),
            };
            (i, i + c.len(), t)
        })
        .collect();
    check_pieces(&text, desc, &pieces, &out)
}

const HV: &str = "かがきぎくぐけげこごさざしじすずせぜそぞただちぢつづてでとどはばひびふぶへべほぼ";
const KV: &str = "カガキギクグケゲコゴサザシジスズセゼソゾタダチヂツヅテデトドハバヒビフブヘベホボ";
fn voice(t: &str, c: char, on: bool) -> char {
    let v: Vec<char> = t.chars().collect();
    match v.iter().position(|&x| x == c) {
        Some(i) if on && i % 2 == 0 => v[i + 1],
        Some(i) if !on && i % 2 == 1 => v[i - 1],
        _ => c,
    }
}
pub fn iteration_model(text: &str, kanji: bool, kana: bool) -> String {
    let t: Vec<char> = text.chars().collect();
    let on = |c: char| (kanji && c == '々') || (kana && "ゝゞヽヾ".contains(c));
    let mut out = String::new();
    let mut i = 0;
    while i < t.len() {
        if !on(t[i]) {
            out.push(t[i]);
            i += 1;
            continue;
        }
        let p = i;
        while i < t.len() && on(t[i]) {
            i += 1
        }
        let d = p.min(i - p);
        for k in p..i {
            let c = t[k - d];
            out.push(match t[k] {
                'ゝ' => voice(HV, c, false),
                'ゞ' => voice(HV, c, true),
                'ヽ' => voice(KV, c, false),
                'ヾ' => voice(KV, c, true),
                _ => c,
            });
        }
    }
    out
}
fn iteration_marks(g: &mut G) -> R {
    const IA: &[char] = &['々', 'ゝ', 'ゞ', 'ヽ', 'ヾ', 'a', '😀', '時', 'っ', 'ッ', 'ぱ', 'パ', 'ん', 'ゔ', 'ヴ'];
    let (kanji, kana) = (g.chance(3, 4), g.chance(3, 4));
    let n = g.below(10);
    let hv: Vec<char> = HV.chars().chain(KV.chars()).collect();
    let text: String = (0..n)
        .map(|_| match g.below(10) {
            0..=4 => g.pickc(&IA[..5]),
            5 | 6 => g.pickc(IA),
            7 | 8 => g.pickc(&hv),
            _ => {
                if g.chance(1, 2) {
                    // kana, and characters outside the plane whose low 16 bits are those of kana
                    let hi = if g.chance(1, 2) { 0 } else { 0x10000 * (1 + g.below(16) as u32) };
                    char::from_u32(hi + g.range(0x3041, 0x30ff) as u32).unwrap()
                } else {
                    g.any_char()
                }
            }
        })
        .collect();
    // a long run of marks after a long prefix
    let text = if g.chance(1, 20) {
        let (p, m) = (g.below(40), g.below(40));
        let before: String = (0..p).map(|_| if g.chance(1, 2) { g.pickc(&hv) } else { g.pickc(&IA[5..]) }).collect();
        let marks: String = (0..m).map(|_| g.pickc(&IA[..5])).collect();
        before + &marks + &text
    } else {
        text
    };
    let text = long(g, text);
    let desc = format!("kanji {} kana {} text {:?}", kanji, kana, text);
    note(desc.clone());
    let f = chf("japanese_iteration_mark", &json!({"normalize_kanji": kanji, "normalize_kana": kana}));
    let out = f.apply(&text).map_err(|e| Fail { sig: "error".into(), input: desc.clone(), expected: "ok".into(), got: e.to_string() })?;
    expect_eq!("text", desc.clone(), iteration_model(&text, kanji, kana), out.0);
    expect_eq!("character count", desc.clone(), text.chars().count(), out.0.chars().count());
    // character boundaries map back to character boundaries
    let mut io = 0;
    let mut oo = 0;
    for (a, b) in text.chars().zip(out.0.chars()) {
        expect_eq!("offset", format!("{} output offset {}", desc, oo), io, correct_offset(oo, &out.1, &out.2, out.0.len()));
        io += a.len_utf8();
        oo += b.len_utf8();
    }
    Ok(())
}
fn mapping_char(g: &mut G) -> R {
    let (m, v) = gen_map(g);
    let text = g.text(TA, 12);
    let text = long(g, text);
    let desc = format!("mapping {} text {:?}", v, text);
    note(desc.clone());
    let f = chf("mapping", &v);
    let want: String = mapping_pieces(&m, &text).into_iter().map(|p| p.2).collect();
    let got = f.apply(&text).map(|x| x.0).map_err(|e| e.to_string());
    expect_eq!("text", desc, Ok(want), got);
    Ok(())
}
fn mapping_token(g: &mut G) -> R {
    let (m, v) = gen_map(g);
    let mut toks = gen_tokens(g, TA, 4);
    for t in toks.iter_mut() {
        t.text = long(g, t.text.clone());
    }
    let desc = format!("mapping {} tokens {:?}", v, show(&toks));
    note(desc.clone());
    let f = tkf("mapping", &v);
    let mut want = toks.clone();
    for t in want.iter_mut() {
        t.text = mapping_pieces(&m, &t.text).into_iter().map(|p| p.2).collect();
    }
    let r = f.apply(&mut toks).map_err(|e| e.to_string());
    expect_eq!("result", desc.clone(), Ok(()), r);
    expect_eq!("tokens", desc, show(&want), show(&toks));
    Ok(())
}

// ------------------------------------------------------------------ token filters
pub type TShow = (String, usize, usize, usize, usize, (u32, bool), Vec<String>);
pub fn show(ts: &[Token]) -> Vec<TShow> {
    ts.iter().map(|t| (t.text.clone(), t.byte_start, t.byte_end, t.position, t.position_length, (t.word_id.0, t.word_id.1), t.details.clone())).collect()
}
const TAGS: &[&str] = &["名詞", "助詞", "*", "接尾", "x", "UNK", "数"];
/// tokens with contiguous positions and random details (at least one detail, as the tokenizer gives)
pub fn gen_tokens(g: &mut G, alpha: &[char], max: usize) -> Vec<Token> {
    let n = g.upto(200, 300, max + 1);
    let mut at = g.below(3);
    let mut pos = 0;
    (0..n)
        .map(|i| {
            let mut text = match g.below(8) {
                0 => g.any_text(5),
                _ => g.text(alpha, 6),
            };
            if text.is_empty() && g.chance(3, 4) {
                text.push('a')
            }
            let nd = match g.below(8) {
                // a user dictionary may hold words without details
                0 if g.chance(1, 3) => 0,
                0 => 1,
                1 => 2 + g.below(3),
                2 => 17,
                3 => 8,
                _ => 9,
            };
            let details: Vec<String> = if g.chance(1, 6) {
                vec!["UNK".into()]
            } else {
                (0..nd)
                    .map(|k| match g.below(24) {
                        23 if k < 4 => g.pick(&["", "UNKNOWN", "unk", "UNK ", "-", " ", "😀", "**", "カナ", "a-b"]).to_string(),
                        _ if k < 4 => TAGS[g.below(TAGS.len())].to_string(),
                        0 | 1 => "*".to_string(),
                        2 => String::new(),
                        3 => g.pick(&["UNK", " x ", "a,b", "lemma-gloss", "カナ", "かな", "a\"b", "😀", "A/B"]).to_string(),
                        _ => format!("d{}-{}", i, k),
                    })
                    .collect()
            };
            let pl = 1 + g.below(2);
            // a filter before may have removed tokens
            if g.chance(1, 8) {
                pos += 1 + g.below(3);
            }
            let t = Token { text: text.clone(), byte_start: at, byte_end: at + text.len(), position: pos, position_length: pl, word_id: WordId(g.below(9) as u32, g.chance(1, 2)), details };
            at += text.len() + g.below(2);
            pos += pl;
            t
        })
        .collect()
}
pub fn gen_tag(g: &mut G) -> String {
    let n = 1 + g.below(4);
    (0..n).map(|_| TAGS[g.below(TAGS.len())]).collect::<Vec<_>>().join(",")
}
/// documented meaning of a tag: up to four comma separated parts, the rest wildcard-asterisk
pub fn pad(tag: &str) -> String {
    let mut v: Vec<&str> = tag.split(',').take(4).collect();
    while v.len() < 4 {
        v.push("*")
    }
    v.join(",")
}
pub fn tag_of(t: &Token) -> String {
    if t.details.len() >= 4 {
        t.details[..4].join(",")
    } else {
        format!("{},*,*,*", t.details.first().map_or("*", |x| x.as_str()))
    }
}
/// tags biased to occur in the tokens
fn gen_tags_for(g: &mut G, ts: &[Token]) -> Vec<String> {
    let n = g.below(5);
    (0..n)
        .map(|_| {
            if !ts.is_empty() && g.chance(2, 3) {
                let t = tag_of(&ts[g.below(ts.len())]);
                let mut v: Vec<&str> = t.split(',').collect();
                while v.len() > 1 && *v.last().unwrap() == "*" && g.chance(1, 2) {
                    v.pop();
                }
                if g.chance(1, 6) {
                    v.pop();
                }
                v.join(",")
            } else {
                gen_tag(g)
            }
        })
        .collect()
}
const SA: &[char] = &['a', 'b', 'あ', '漢', '😀', 'é'];
fn apply_and_compare(kind: &str, cfg: Value, toks: Vec<Token>, want: Vec<Token>) -> R {
    let desc = format!("{} {} tokens {:?}", kind, cfg, show(&toks));
    note(desc.clone());
    let f = tkf(kind, &cfg);
    let mut got = toks;
    let r = f.apply(&mut got).map_err(|e| e.to_string());
    tick(1);
    expect_eq!("result", desc.clone(), Ok(()), r);
    expect_eq!("tokens", desc, show(&want), show(&got));
    Ok(())
}
fn selection(g: &mut G) -> R {
    let mut toks = gen_tokens(g, SA, 6);
    match g.below(7) {
        k @ (0 | 1) => {
            let n = g.below(5);
            let words: Vec<String> = (0..n).map(|_| if !toks.is_empty() && g.chance(2, 3) { toks[g.below(toks.len())].text.clone() } else { g.text(SA, 3) }).collect();
            let keep = k == 1;
            let want = toks.iter().filter(|t| words.contains(&t.text) == keep).cloned().collect();
            apply_and_compare(if keep { "keep_words" } else { "stop_words" }, json!({ "words": words }), toks, want)
        }
        k @ (2 | 3) => {
            let tags = gen_tags_for(g, &toks);
            let keep = k == 3;
            let want = toks.iter().filter(|t| tags.iter().any(|x| pad(x) == tag_of(t)) == keep).cloned().collect();
            apply_and_compare(if keep { "japanese_keep_tags" } else { "japanese_stop_tags" }, json!({ "tags": tags }), toks, want)
        }
        k @ (4 | 5) => {
            let n = g.below(4);
            let tags: Vec<String> = (0..n).map(|_| TAGS[g.below(TAGS.len())].to_string()).collect();
            let keep = k == 5;
            let want = toks.iter().filter(|t| t.details.first().map_or(false, |x| tags.contains(x)) == keep).cloned().collect();
            apply_and_compare(if keep { "korean_keep_tags" } else { "korean_stop_tags" }, json!({ "tags": tags }), toks, want)
        }
        _ => {
            let (mut a, mut b) = (5, 6);
            if g.chance(1, 20) {
                // long tokens, bounds about their lengths
                let m = 1 + g.below(700);
                (a, b) = (m, m + 1);
                for t in toks.iter_mut() {
                    let n = if g.chance(1, 2) { m.saturating_sub(g.below(3)) } else { g.below(700) };
                    t.text = (0..n).map(|_| g.pickc(&['a', 'é', '漢', '😀'])).collect();
                }
            }
            let lo = if g.chance(2, 3) { Some(if a > 5 && g.chance(1, 2) { a - g.below(3) } else { g.below(a) }) } else { None };
            let hi = if g.chance(2, 3) { Some(if b > 6 && g.chance(1, 2) { b - g.below(4) } else { g.below(b) }) } else { None };
            let want = toks
                .iter()
                .filter(|t| {
                    let n = t.text.chars().count();
                    lo.map_or(true, |l| n >= l) && hi.map_or(true, |h| n <= h)
                })
                .cloned()
                .collect();
            let mut cfg = Map::new();
            if lo.is_some() || g.chance(1, 2) {
                cfg.insert("min".into(), json!(lo));
            }
            if hi.is_some() || g.chance(1, 2) {
                cfg.insert("max".into(), json!(hi));
            }
            apply_and_compare("length", Value::Object(cfg), toks, want)
        }
    }
}
fn compound(g: &mut G) -> R {
    let mut toks = gen_tokens(g, SA, 8);
    if toks.len() > 30 && g.chance(2, 3) {
        // one long run, now and then with long texts
        let (d, k) = (toks[0].details.clone(), [1, 1, 40][g.below(3)]);
        for t in toks.iter_mut() {
            t.details = d.clone();
            t.text = t.text.repeat(k);
        }
    }
    let tags = gen_tags_for(g, &toks);
    let kind = g.pick(&["ipadic", "unidic", "ipadic-neologd", "ko-dic", "cc-cedict"]);
    let new_tag = if g.chance(1, 2) { Some(gen_tag(g)) } else { None };
    let mut want: Vec<Token> = vec![];
    let mut i = 0;
    let hit = |t: &Token| tags.iter().any(|x| pad(x) == tag_of(t));
    while i < toks.len() {
        let mut j = i;
        while j < toks.len() && hit(&toks[j]) {
            j += 1
        }
        if j <= i + 1 {
            want.push(toks[i].clone());
            i += 1;
            continue;
        }
        let mut t = toks[i].clone();
        t.text = toks[i..j].iter().map(|x| x.text.as_str()).collect();
        t.byte_end = toks[j - 1].byte_end;
        t.position_length = toks[i..j].iter().map(|x| x.position_length).sum();
        let n = if kind == "unidic" { 17 } else { 9 };
        let mut d = vec!["*".to_string(); n];
        d[0] = "複合語".into();
        if let Some(nt) = &new_tag {
            for (k, x) in pad(nt).split(',').enumerate() {
                d[k] = x.into();
            }
        }
        t.details = d;
        want.push(t);
        i = j;
    }
    apply_and_compare("japanese_compound_word", json!({"kind": kind, "tags": tags, "new_tag": new_tag}), toks, want)
}
fn katakana_stem(g: &mut G) -> R {
    const KA: &[char] = &['カ', 'ー', 'ー', 'ン', 'ヴ', 'ヿ', '゠', '・', 'ヷ', 'ｶ', 'あ', '漢', 'a', '\u{2fe0}', '\u{31f0}', '\u{e0000}'];
    let mut toks = gen_tokens(g, KA, 4);
    for t in toks.iter_mut() {
        match g.below(4) {
            0 | 1 => {
                t.text = g.text(&KA[..6], 6) + if g.chance(2, 3) { "ー" } else { "" };
            }
            2 => t.text = g.text(KA, 6) + if g.chance(2, 3) { "ー" } else { "" },
            _ => {}
        }
    }
    let mut min = if g.chance(1, 3) { None } else { Some(1 + g.below(6)) };
    if g.chance(1, 30) {
        // long words, bounds about their lengths
        let m = 4 + g.below(500);
        min = Some(m);
        for t in toks.iter_mut() {
            let n = m - g.below(3);
            t.text = (0..n).map(|_| g.pickc(&KA[..6])).collect::<String>() + "ー";
        }
    }
    let cfg = match min {
        Some(m) => json!({ "min": m }),
        None => json!({}),
    };
    let min = min.unwrap_or(3);
    let mut want = toks.clone();
    for t in want.iter_mut() {
        let kata = t.text.chars().all(|c| ('\u{30a0}'..='\u{30ff}').contains(&c));
        if kata && t.text.ends_with('ー') && t.text.chars().count() > min {
            t.text.pop();
        }
    }
    apply_and_compare("japanese_katakana_stem", cfg, toks, want)
}
fn rewriting(g: &mut G) -> R {
    const LA: &[char] = &['A', 'b', 'É', 'ß', 'İ', 'Σ', 'ａ', 'あ', '漢', 'ǅ', 'ﬁ'];
    let toks = gen_tokens(g, LA, 5);
    let mut want = toks.clone();
    let kind = g.pick(&["ipadic", "unidic", "ipadic-neologd", "ko-dic", "cc-cedict"]);
    let (name, cfg, field): (&str, Value, Option<usize>) = match g.below(6) {
        5 => {
            const KANA: &[char] = &['ぁ', 'あ', 'か', 'が', 'ぱ', 'ん', 'ゔ', 'ァ', 'ア', 'カ', 'ガ', 'パ', 'ン', 'ヴ', 'ー', '漢', 'a', '、', '1', 'ッ', 'っ'];
            let to_hira = g.chance(1, 2);
            let kcfg = json!({"kind": if to_hira { "hiragana" } else { "katakana" }});
            let mut ts = toks.clone();
            for t in ts.iter_mut() {
                t.text = g.text(KANA, 6);
            }
            let mut w = ts.clone();
            for t in w.iter_mut() {
                t.text = t
                    .text
                    .chars()
                    .map(|c| match c {
                        'ァ'..='ヴ' if to_hira => char::from_u32(c as u32 - 0x60).unwrap(),
                        'ぁ'..='ゔ' if !to_hira => char::from_u32(c as u32 + 0x60).unwrap(),
                        _ => c,
                    })
                    .collect();
            }
            return apply_and_compare("japanese_kana", kcfg, ts, w);
        }
        0 => ("japanese_base_form", json!({ "kind": kind }), match kind { "ipadic" | "ipadic-neologd" => Some(6), "unidic" => Some(10), _ => None }),
        1 => ("japanese_reading_form", json!({ "kind": kind }), match kind { "ipadic" | "ipadic-neologd" => Some(7), "unidic" => Some(6), _ => None }),
        2 => ("korean_reading_form", json!({}), Some(3)),
        3 => {
            for t in want.iter_mut() {
                t.text = t.text.to_lowercase();
            }
            ("lowercase", json!({}), None)
        }
        _ => {
            for t in want.iter_mut() {
                t.text = t.text.to_uppercase();
            }
            ("uppercase", json!({}), None)
        }
    };
    if let Some(k) = field {
        for t in want.iter_mut() {
            if t.details.first().map_or(false, |x| x != "UNK") {
                if let Some(d) = t.details.get(k) {
                    t.text = d.clone();
                }
            }
        }
    }
    apply_and_compare(name, cfg, toks, want)
}

// ------------------------------------------------------------------ numerals
const UNITS: &[(u32, char)] = &[(20, '垓'), (16, '京'), (12, '兆'), (8, '億'), (4, '万')];
const KD: &[char] = &['〇', '一', '二', '三', '四', '五', '六', '七', '八', '九'];
/// below ten thousand; `one` keeps a written 一 before 十/百/千
fn small(v: u32, one: bool, alt: &mut dyn FnMut(u32) -> char) -> String {
    let mut s = String::new();
    for (p, c) in [(1000, '千'), (100, '百'), (10, '十'), (1, ' ')] {
        let d = v / p % 10;
        if d == 0 {
            continue;
        }
        if d > 1 || p == 1 || one {
            s.push(alt(d));
        }
        if p > 1 {
            s.push(c);
        }
    }
    s
}
pub fn kanji_numeral(v: u128, one: bool, bare: bool, alt: &mut dyn FnMut(u32) -> char) -> String {
    let mut s = String::new();
    for &(p, c) in UNITS {
        let d = (v / 10u128.pow(p) % 10000) as u32;
        if d > 0 {
            // the 1 may be left out before a larger unit, too
            if d > 1 || !bare {
                s += &small(d, one, alt);
            }
            s.push(c);
        }
    }
    s += &small((v % 10000) as u32, one, alt);
    s
}
/// a canonical numeral and its value; `one` writes a leading 一 before units
fn numeral(g: &mut G, explicit: bool) -> (String, String) {
    match g.below(5) {
        0 => {
            // digit string, any of the digit forms, positional
            let n = 1 + g.below(12);
            let forms: [&[char]; 3] = [&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'], &['０', '１', '２', '３', '４', '５', '６', '７', '８', '９'], KD];
            let f = forms[g.below(3)];
            let d: Vec<usize> = (0..n).map(|_| g.below(10)).collect();
            (d.iter().map(|&x| f[x]).collect::<String>(), d.iter().map(|x| x.to_string()).collect::<String>())
        }
        k => {
            let mut v: u128 = 0;
            if k < 3 {
                v = 10u128.pow(g.below(22) as u32) * (1 + g.below(9) as u128);
                if g.chance(1, 2) {
                    v += 10u128.pow(g.below(22) as u32) * (1 + g.below(9) as u128);
                }
            } else {
                for i in 0..6 {
                    let d = if g.chance(1, 3) { 0 } else if g.chance(1, 3) { [1, 10, 100, 1000, 11, 1111, 110][g.below(7)] } else { g.below(10000) as u128 };
                    v += d * 10u128.pow(4 * i);
                }
            }
            if v == 0 {
                v = 1
            }
            let one = explicit || g.chance(1, 3);
            let bare = !one && g.chance(1, 3);
            let form = g.below(4);
            let mut alt = |d: u32| match form {
                0 => char::from_digit(d, 10).unwrap(),
                1 if d <= 3 => ['零', '壱', '弐', '参'][d as usize],
                2 => char::from_u32('０' as u32 + d).unwrap(),
                _ => KD[d as usize],
            };
            (kanji_numeral(v, one, bare, &mut alt), v.to_string())
        }
    }
}
fn numerals(g: &mut G) -> R {
    let (text, want) = if g.chance(1, 4) {
        // numerals among other text; they begin with a digit
        let noise = ['月', 'a', '.', '第', '😀', ',', '-', '年', 'ー', 'e'];
        let (mut t, mut w) = (String::new(), String::new());
        for k in 0..1 + g.below(3) {
            if k > 0 || g.chance(1, 2) {
                for _ in 0..1 + g.below(3) {
                    let c = noise[g.below(noise.len())];
                    t.push(c);
                    w.push(c);
                }
            }
            let (x, y) = numeral(g, true);
            t += &x;
            w += &y;
        }
        if g.chance(1, 2) {
            t.push('円');
            w.push('円');
        }
        (t, w)
    } else {
        numeral(g, false)
    };
    let d = vec!["名詞".to_string(), "数".into(), "*".into(), "*".into()];
    let t = Token { text: text.clone(), byte_start: 0, byte_end: text.len(), position: 0, position_length: 1, word_id: WordId(1, true), details: d };
    let mut w = t.clone();
    w.text = want;
    let cfg = if g.chance(1, 2) { json!({"tags": ["名詞,数"]}) } else { json!({}) };
    apply_and_compare("japanese_number", cfg, vec![t], vec![w])
}
const NUMCH: &str = "0123456789０１２３４５６７８９〇零一壱二弐三参四五六七八九十拾百千万億兆京垓";
// neighbours of the numerals which are none themselves
const NOISE: &[char] = &['月', 'a', '.', '第', '😀', ',', '-', '玖', '肆', '伍', '廿', '佰', '仟', '萬', '秭', '①', '²', '٣', 'Ⅷ', '㊀', '/', ':', '．', '，', '：', '\u{3006}', ' '];
fn numeral_noise(g: &mut G) -> R {
    let nc: Vec<char> = NUMCH.chars().collect();
    let mut toks = gen_tokens(g, &nc, 4);
    for t in toks.iter_mut() {
        let n = g.below(8);
        t.text = (0..n).map(|_| if g.chance(1, 4) { NOISE[g.below(NOISE.len())] } else { nc[g.below(nc.len())] }).collect();
    }
    let tags = if g.chance(1, 3) { None } else { Some(gen_tags_for(g, &toks)) };
    let cfg = match &tags {
        None => json!({}),
        Some(t) => json!({ "tags": t }),
    };
    let desc = format!("japanese_number {} tokens {:?}", cfg, show(&toks));
    note(desc.clone());
    let f = tkf("japanese_number", &cfg);
    let mut got = toks.clone();
    let r = f.apply(&mut got).map_err(|e| e.to_string());
    expect_eq!("result", desc.clone(), Ok(()), r);
    expect_eq!("token count", desc.clone(), toks.len(), got.len());
    for (a, b) in toks.iter().zip(got.iter()) {
        let on = tags.as_ref().map_or(true, |ts| ts.iter().any(|x| pad(x) == tag_of(a)));
        if !on {
            expect_eq!("not selected", desc.clone(), a.text, b.text);
        }
        let mut w = a.clone();
        w.text = b.text.clone();
        expect_eq!("other attributes", desc.clone(), show(&[w]), show(&[b.clone()]));
        let other = |s: &str| s.chars().filter(|c| !NUMCH.contains(*c)).collect::<String>();
        expect_eq!("non-numerals kept", desc.clone(), other(&a.text), other(&b.text));
        if on {
            expect!("converted", format!("{} -> {:?}", desc, b.text), "only ASCII digits remain of numerals", b.text.chars().all(|c| c.is_ascii_digit() || !NUMCH.contains(c)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ configurations
pub const TOKEN_KINDS: &[&str] = &[
    "japanese_base_form", "japanese_compound_word", "japanese_kana", "japanese_katakana_stem", "japanese_keep_tags", "japanese_number", "japanese_reading_form",
    "japanese_stop_tags", "keep_words", "korean_keep_tags", "korean_reading_form", "korean_stop_tags", "length", "lowercase", "mapping", "stop_words", "uppercase",
];
pub const CHAR_KINDS: &[&str] = &["japanese_iteration_mark", "mapping", "regex", "unicode_normalize"];
fn any_value(g: &mut G, depth: usize) -> Value {
    match g.below(if depth == 0 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => json!(g.chance(1, 2)),
        2 => json!(g.range(-3, 9)),
        3 => json!(g.below(4)),
        4 => json!(["", "ipadic", "unidic", "nfkc", "hiragana", "katakana", "(", "a*", "名詞", "名詞,一般", "a,b,c,d,e", ",,,,,", "xyz", "$1", "\u{0}", "IPADIC", "nfd"][g.below(17)]),
        5 => json!(g.any_text(4)),
        6 => json!(-1.5),
        7 => {
            let n = g.below(4);
            Value::Array((0..n).map(|_| any_value(g, depth - 1)).collect())
        }
        8 => {
            let n = g.below(4);
            Value::Array((0..n).map(|_| json!(gen_tag(g) + if g.chance(1, 4) { ",e,f" } else { "" })).collect())
        }
        _ => {
            let n = g.below(4);
            let mut m = Map::new();
            for _ in 0..n {
                let k = if g.chance(1, 3) { g.any_text(3) } else { g.text(SA, 2) };
                let v = if g.chance(3, 4) { json!(g.text(SA, 3)) } else { any_value(g, depth - 1) };
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}
fn gen_config(g: &mut G) -> Value {
    if g.chance(1, 8) {
        return any_value(g, 2);
    }
    let keys = ["kind", "tags", "words", "mapping", "pattern", "replacement", "min", "max", "normalize_kanji", "normalize_kana", "new_tag"];
    let mut m = Map::new();
    for k in keys {
        if g.chance(3, 4) {
            let v = if g.chance(2, 3) {
                match k {
                    "kind" => json!(["ipadic", "unidic", "ipadic-neologd", "ko-dic", "cc-cedict", "nfc", "nfkc", "hiragana", "katakana"][g.below(9)]),
                    "tags" | "words" => {
                        let n = g.below(4);
                        Value::Array((0..n).map(|_| json!(gen_tag(g) + if g.chance(1, 4) { ",e,f" } else { "" })).collect())
                    }
                    "mapping" => {
                        let mut o = Map::new();
                        for _ in 0..g.below(4) {
                            let key = if g.chance(1, 8) { g.any_text(3) } else if g.chance(1, 12) { "a\u{0}b".to_string() } else { g.text(SA, 3) };
                            o.insert(key, json!(g.text(SA, 3)));
                        }
                        Value::Object(o)
                    }
                    "pattern" => json!(["a", "(", "a*", "[", "(a)(b)", "\\d+", "", "(?i)A", "a{2000}{2000}"][g.below(9)]),
                    "replacement" => json!(["", "x", "$1", "$", "${", "$2y"][g.below(6)]),
                    "min" | "max" => json!(g.below(5)),
                    "new_tag" => {
                        if g.chance(1, 3) {
                            Value::Null
                        } else {
                            json!(gen_tag(g) + if g.chance(1, 4) { ",e,f" } else { "" })
                        }
                    }
                    _ => json!(g.chance(1, 2)),
                }
            } else {
                any_value(g, 2)
            };
            m.insert(k.into(), v);
        }
    }
    Value::Object(m)
}
fn configs(g: &mut G) -> R {
    let cfg = gen_config(g);
    if g.chance(1, 4) {
        let kind = if g.chance(1, 20) { "nothing" } else { g.pick(CHAR_KINDS) };
        note(format!("character filter {} from {}", kind, cfg));
        let f = if g.chance(1, 5) { CharacterFilterLoader::load_from_cli_flag(&format!("{}:{}", kind, cfg)) } else { try_chf(kind, &cfg) };
        if let Ok(f) = f {
            for _ in 0..3 {
                let text = if g.chance(1, 2) { g.any_text(10) } else { g.text(TA, 10) };
                note(format!("character filter {} from {} on {:?}", kind, cfg, text));
                let out = f.apply(&text);
                expect!("apply", format!("{} {} {:?}", kind, cfg, text), "no error", out.is_ok());
            }
        }
    } else {
        let kind = if g.chance(1, 40) { "nothing" } else { g.pick(TOKEN_KINDS) };
        note(format!("token filter {} from {}", kind, cfg));
        let f = if g.chance(1, 5) { TokenFilterLoader::load_from_cli_flag(&format!("{}:{}", kind, cfg)) } else { try_tkf(kind, &cfg) };
        if let Ok(f) = f {
            for _ in 0..2 {
                let mut toks = gen_tokens(g, TA, 5);
                note(format!("token filter {} from {} on {:?}", kind, cfg, show(&toks)));
                let s = format!("{} {} {:?}", kind, cfg, show(&toks));
                let r = f.apply(&mut toks);
                expect!("apply", s, "no error", r.is_ok());
            }
        }
    }
    Ok(())
}
/// every kind with its fields: (name, required, kind of value)
fn fields(kind: &str, token: bool) -> Vec<(&'static str, bool, char)> {
    match (kind, token) {
        ("japanese_base_form", _) | ("japanese_reading_form", _) => vec![("kind", true, 'd')],
        ("japanese_compound_word", _) => vec![("kind", true, 'd'), ("tags", true, 't'), ("new_tag", false, 'T')],
        ("japanese_kana", _) => vec![("kind", true, 'k')],
        ("japanese_katakana_stem", _) => vec![("min", false, 'p')],
        ("japanese_keep_tags", _) | ("japanese_stop_tags", _) | ("korean_keep_tags", _) | ("korean_stop_tags", _) => vec![("tags", true, 't')],
        ("japanese_number", _) => vec![("tags", false, 't')],
        ("keep_words", _) | ("stop_words", _) => vec![("words", true, 't')],
        ("length", _) => vec![("min", false, 'u'), ("max", false, 'u')],
        ("mapping", _) => vec![("mapping", true, 'm')],
        ("japanese_iteration_mark", _) => vec![("normalize_kanji", true, 'b'), ("normalize_kana", true, 'b')],
        ("regex", _) => vec![("pattern", true, 'r'), ("replacement", true, 's')],
        ("unicode_normalize", _) => vec![("kind", true, 'n')],
        _ => vec![],
    }
}
fn good_value(g: &mut G, k: char) -> Value {
    match k {
        'd' => json!(["ipadic", "unidic", "ipadic-neologd", "ko-dic", "cc-cedict"][g.below(5)]),
        'k' => json!(["hiragana", "katakana"][g.below(2)]),
        'n' => json!(["nfc", "nfd", "nfkc", "nfkd"][g.below(4)]),
        't' => Value::Array((0..g.below(4)).map(|_| json!(gen_tag(g))).collect()),
        'T' => json!(gen_tag(g)),
        'p' => json!(1 + g.below(5)),
        'u' => json!(g.below(5)),
        'b' => json!(g.chance(1, 2)),
        'r' => json!(["a", "a*", "(あ)b", "\\d+", "[ab]"][g.below(5)]),
        's' => json!(["", "x", "$1", "あ"][g.below(4)]),
        _ => {
            let mut m = Map::new();
            for _ in 0..1 + g.below(4) {
                let mut key = g.text(SA, 3);
                key.push('a');
                m.insert(key, json!(g.text(SA, 3)));
            }
            Value::Object(m)
        }
    }
}
fn bad_value(g: &mut G, k: char) -> Value {
    let bad: Vec<Value> = match k {
        'd' => vec![json!("IPADIC"), json!("nfc"), json!(""), json!(1), json!(null), json!(["ipadic"])],
        'k' => vec![json!("Hiragana"), json!("ipadic"), json!(true), json!(null)],
        'n' => vec![json!("NFC"), json!("nfe"), json!(0), json!(null)],
        't' => vec![json!([1]), json!(["名詞", null]), json!([["名詞"]]), json!([true, "x"])],
        'T' => vec![json!(1), json!(["x"]), json!(false)],
        'p' => vec![json!(0), json!(-1), json!(1.5), json!("3")],
        'u' => vec![json!(-1), json!(1.5), json!("3"), json!([1])],
        'b' => vec![json!(0), json!("true"), json!(null)],
        'r' => vec![json!("("), json!("["), json!("a{2,1}"), json!(1), json!(null)],
        's' => vec![json!(1), json!(null), json!(["x"])],
        _ => vec![json!({"a": 1}), json!({"a": null}), json!([["a", "b"]]), json!("a"), json!(null)],
    };
    bad[g.below(bad.len())].clone()
}
fn well_formed(g: &mut G) -> R {
    let token = g.chance(3, 4);
    let kind = g.pick(if token { TOKEN_KINDS } else { CHAR_KINDS });
    let fs = fields(kind, token);
    let mut m = Map::new();
    for (n, req, k) in &fs {
        if *req || g.chance(2, 3) {
            m.insert(n.to_string(), good_value(g, *k));
        }
    }
    let mut want = true;
    let mut name = kind.to_string();
    match g.below(5) {
        0 => {
            // drop a required field
            let r: Vec<_> = fs.iter().filter(|x| x.1).collect();
            if !r.is_empty() {
                m.remove(r[g.below(r.len())].0);
                want = false;
            }
        }
        1 => {
            if !fs.is_empty() {
                let (n, _, k) = fs[g.below(fs.len())];
                m.insert(n.to_string(), bad_value(g, k));
                want = false;
            }
        }
        2 => {
            name = match g.below(5) {
                0 => name + "x",
                1 => name.replace('_', "-") + "-",
                2 => name.to_uppercase(),
                3 => String::new(),
                _ => (if token { ["regex", "unicode_normalize", "japanese_iteration_mark", "stop_tags"][g.below(4)] } else { ["length", "japanese_kana", "lowercase", "normalize"][g.below(4)] }).to_string(),
            };
            want = false;
        }
        _ => {}
    }
    let cfg = Value::Object(m);
    let desc = format!("{} filter {:?} from {}", if token { "token" } else { "character" }, name, cfg);
    note(desc.clone());
    let flag = format!("{}:{}", name, cfg);
    tick(1);
    if token {
        let toks = gen_tokens(g, TA, 4);
        let run = |f: &BoxTokenFilter| {
            let mut t = toks.clone();
            let ok = f.apply(&mut t).is_ok();
            (ok, show(&t))
        };
        let (v, c) = (try_tkf(&name, &cfg), TokenFilterLoader::load_from_cli_flag(&flag));
        expect_eq!("loads", desc.clone(), want, v.is_ok());
        expect_eq!("loads from flag", format!("flag {:?}", flag), want, c.is_ok());
        if let (Ok(v), Ok(c)) = (v, c) {
            expect_eq!("name", desc.clone(), (kind, kind), (v.name(), c.name()));
            expect_eq!("same filter", format!("flag {:?} tokens {:?}", flag, show(&toks)), run(&v), run(&c));
        }
        if fs.iter().all(|x| !x.1) == false {
            expect!("no settings", format!("flag {:?}", kind), "an error", TokenFilterLoader::load_from_cli_flag(kind).is_err());
        }
    } else {
        let text = g.text(TA, 8);
        let (v, c) = (try_chf(&name, &cfg), CharacterFilterLoader::load_from_cli_flag(&flag));
        expect_eq!("loads", desc.clone(), want, v.is_ok());
        expect_eq!("loads from flag", format!("flag {:?}", flag), want, c.is_ok());
        if let (Ok(v), Ok(c)) = (v, c) {
            expect_eq!("name", desc.clone(), (kind, kind), (v.name(), c.name()));
            expect_eq!("same filter", format!("flag {:?} text {:?}", flag, text), v.apply(&text).ok(), c.apply(&text).ok());
        }
        expect!("no settings", format!("flag {:?}", kind), "an error", CharacterFilterLoader::load_from_cli_flag(kind).is_err());
    }
    Ok(())
}
fn padded_tags(g: &mut G) -> R {
    let toks = gen_tokens(g, SA, 6);
    let mut tags = gen_tags_for(g, &toks);
    if tags.is_empty() {
        tags.push(gen_tag(g))
    }
    let padded: Vec<String> = tags.iter().map(|t| pad(t)).collect();
    let kind = g.pick(&["japanese_stop_tags", "japanese_keep_tags", "japanese_number", "japanese_compound_word"]);
    let mk = |t: &Vec<String>| json!({"tags": t, "kind": "ipadic"});
    let desc = format!("{} tags {:?} against {:?} tokens {:?}", kind, tags, padded, show(&toks));
    note(desc.clone());
    let (f, p) = (tkf(kind, &mk(&tags)), tkf(kind, &mk(&padded)));
    let (mut a, mut b) = (toks.clone(), toks.clone());
    let ra = f.apply(&mut a).is_ok();
    let rb = p.apply(&mut b).is_ok();
    expect_eq!("result", desc.clone(), (true, true), (ra, rb));
    expect_eq!("tokens", desc.clone(), show(&b), show(&a));
    // the padded form selects what it says
    let sel = |t: &Token| padded.contains(&tag_of(t));
    tick(1);
    let want: Vec<Token> = match kind {
        "japanese_keep_tags" => toks.iter().filter(|t| sel(t)).cloned().collect(),
        "japanese_stop_tags" => toks.iter().filter(|t| !sel(t)).cloned().collect(),
        "japanese_number" => {
            let mut all = toks.clone();
            expect!("result", desc.clone(), "ok", tkf(kind, &json!({})).apply(&mut all).is_ok());
            toks.iter().zip(all).map(|(t, n)| if sel(t) { n } else { t.clone() }).collect()
        }
        _ => a.clone(),
    };
    expect_eq!("selected", desc, show(&want), show(&a));
    Ok(())
}
