use crate::frame::*;
use crate::model::*;
use crate::{expect, expect_eq};
use lindera_core::character_definition::CharacterDefinitionsBuilder;
use lindera_core::connection::ConnectionCostMatrix;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::dictionary_builder::DictionaryBuilder;
use lindera_core::mode::{Mode, Penalty};
use lindera_core::unknown_dictionary::parse_unk;
use lindera_core::viterbi::{Edge, EdgeId, Lattice};
use lindera_core::word_entry::{WordEntry, WordId};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_dictionary_builder::*;
use lindera_tokenizer::token::Token;
use lindera_tokenizer::tokenizer::Tokenizer;
use std::collections::BTreeMap;
use std::str::FromStr;

pub fn families() -> Vec<Fam> {
    vec![
        Fam { prop: "C01", name: "partition", cases: 3000, what: "random dictionaries (model, built through the dictionary builders), user dictionaries, modes and texts: tokens partition the text", run: partition },
        Fam { prop: "C02", name: "least_cost", cases: 3000, what: "returned token sequence is a path of model candidates whose total cost equals the minimum over all candidate sequences (reference dynamic programme over all paths)", run: least_cost },
        Fam { prop: "C03", name: "candidates", cases: 3000, what: "edges of the lattice equal the candidates computed by an independent model of the rules", run: candidate_set },
        Fam { prop: "C04", name: "sentences", cases: 2500, what: "tokens of a text are the tokens of its sentences; repeated and interleaved analysis, reused lattices", run: sentence_indep },
        Fam { prop: "C05", name: "word_entry", cases: 4000, what: "word entry encode/decode at random buffer positions, boundary values", run: word_entry },
        Fam { prop: "C06", name: "matrix", cases: 700, what: "matrix.def built, loaded by load and load_static, all pairs compared", run: matrix },
        Fam { prop: "C07", name: "sys_details", cases: 700, what: "compiled system dictionaries of every kind: details of every row by id, ids outside", run: sys_details },
        Fam { prop: "C08", name: "user_dict", cases: 1500, what: "user dictionaries of every kind, CSV and binary, simple and detailed rows", run: user_dict },
        Fam { prop: "C09", name: "lookup", cases: 1500, what: "prefix and find_surface against the list of rows", run: lookup },
        Fam { prop: "C10", name: "chardef", cases: 3000, what: "char.def parsed, categories of all boundary characters and category flags", run: chardef },
        Fam { prop: "C20", name: "compress", cases: 1500, what: "compress, (serialize, deserialize,) decompress", run: compress },
        Fam { prop: "C21", name: "names", cases: 3000, what: "kind and mode names, near misses", run: names },
        Fam { prop: "C22", name: "penalty", cases: 20000, what: "penalty of random edges and configurations", run: penalty_formula },
        Fam { prop: "C22", name: "edge_flags", cases: 1000, what: "kanji-only flag and span of lattice edges as the penalty uses them", run: edge_flags },
        Fam { prop: "C23", name: "token_details", cases: 1500, what: "details of tokens by source, set details, repeated", run: token_details },
        Fam { prop: "C25", name: "unk_def", cases: 3000, what: "parse_unk against a model of the file", run: unk_def },
    ]
}

pub struct World {
    pub d: MDict,
    pub tok: Tokenizer,
    pub sys_ids: BTreeMap<u32, usize>,
    pub user_ids: BTreeMap<u32, usize>,
    /// the character used in place of 字: the ends of the kanji block and their neighbours too
    pub sub: char,
}
fn id_map(n: usize, tag: char, f: impl Fn(usize) -> Option<Vec<String>>) -> BTreeMap<u32, usize> {
    let mut m = BTreeMap::new();
    for i in 0..n {
        if let Some(v) = f(i) {
            if let Some(k) = v.get(0).and_then(|s| s.strip_prefix(tag)).and_then(|s| s.split('-').next()).and_then(|s| s.parse().ok()) {
                m.insert(i as u32, k);
            }
        }
    }
    m
}
pub fn world(g: &mut G) -> World {
    let mut d = gen_dict(g);
    let sub = if g.chance(1, 4) { ['\u{4dff}', '\u{4e00}', '\u{9faf}', '\u{9fb0}'][g.below(4)] } else { '字' };
    for w in d.words.iter_mut().chain(d.user.iter_mut().flatten()) {
        w.surface = w.surface.replace('字', &sub.to_string());
    }
    note(format!("building dictionary {}", d.show()));
    let sys: Dictionary = d.build();
    let user: Option<UserDictionary> = d.build_user();
    let sys_ids = id_map(d.words.len(), 'd', |i| sys.word_details(i));
    let user_ids = match &user {
        Some(u) => id_map(d.user.as_ref().unwrap().len(), 'u', |i| u.word_details(i)),
        None => BTreeMap::new(),
    };
    let tok = Tokenizer::new(sys, user, gen_mode(g));
    World { d, tok, sys_ids, user_ids, sub }
}
/// characters that end no sentence here, though they look like it
const PUNCT: &[char] = &['！', '？', '.', '．', '，', ',', '!', '?', '\r', '\u{3000}', '・', '…', '｡', '､', '\u{85}', '\u{2028}', '\u{b}', ';', '」', '♪'];
impl World {
    fn src(&self, w: WordId) -> Option<Src> {
        if w.is_unknown() {
            Some(Src::Unk)
        } else if w.is_system() {
            self.sys_ids.get(&w.0).map(|&i| Src::Sys(i))
        } else {
            self.user_ids.get(&w.0).map(|&i| Src::User(i))
        }
    }
    pub fn text(&self, g: &mut G) -> String {
        let mut s = String::new();
        let n = g.below(5 + g.size);
        for _ in 0..n {
            match g.below(6) {
                0 | 1 if !self.d.words.is_empty() => s += &self.d.words[g.below(self.d.words.len())].surface,
                2 => {
                    if let Some(u) = &self.d.user {
                        s += &u[g.below(u.len())].surface
                    }
                }
                3 => s.push(g.any_char()),
                4 => {
                    let c = ALPHA[g.below(ALPHA.len())];
                    for _ in 0..g.below(10) {
                        s.push(c)
                    }
                }
                _ if g.chance(1, 5) => s.push(PUNCT[g.below(PUNCT.len())]),
                _ => s.push(ALPHA[g.below(ALPHA.len())]),
            }
        }
        s.replace('字', &self.sub.to_string())
    }
    fn desc(&self, text: &str) -> String {
        format!("text {:?} mode {:?} dictionary {}", text, self.tok.mode, self.d.show())
    }
}
pub type Tok = (String, usize, usize, usize, usize, WordIdKey);
pub type WordIdKey = (u32, bool);
pub fn show(ts: &[Token]) -> Vec<Tok> {
    ts.iter().map(|t| (t.text.to_string(), t.byte_start, t.byte_end, t.position, t.position_length, (t.word_id.0, t.word_id.1))).collect()
}

/// a dictionary without grouping, so that a long text without delimiters stays cheap
fn plain_world(mode: Mode, user: bool, group: bool) -> World {
    let w = |s: &str, i: usize, t: char| MWord { surface: s.into(), cost: 50, left: 0, right: 0, details: (0..9).map(|k| format!("{}{}-{}", t, i, k)).collect() };
    let d = MDict {
        words: vec![w("あ", 0, 'd'), w("いあ", 1, 'd'), w("漢字", 2, 'd'), w("あい", 3, 'd')],
        cats: vec![MCat { name: "DEFAULT".into(), invoke: false, group }],
        ranges: vec![],
        unk: vec![(0, 0, 0, 3000)],
        nf: 1,
        nb: 1,
        matrix: vec![7],
        user: if user { Some(vec![w("漢", 0, 'u'), w("字x", 1, 'u'), w("あいあ", 2, 'u')]) } else { None },
    };
    let sys = d.build();
    let us = d.build_user();
    let sys_ids = id_map(4, 'd', |i| sys.word_details(i));
    let user_ids = us.as_ref().map_or(BTreeMap::new(), |u| id_map(3, 'u', |i| u.word_details(i)));
    World { d, tok: Tokenizer::new(sys, us, mode), sys_ids, user_ids, sub: '字' }
}
/// offsets, lengths and word counts beyond 16 bits, with and without sentence ends (first cases of a family)
const LONG: usize = 10;
fn long_case(case: usize) -> Option<(World, String)> {
    if case >= LONG {
        return None;
    }
    let w = plain_world(if case % 2 == 0 { Mode::Normal } else { Mode::Decompose(Penalty::default()) }, case >= 4, case >= 8);
    let text = if case == 8 {
        // one unknown word longer than 16 bits
        format!("あ{}漢字", "é".repeat(33000))
    } else {
        [("あいあ漢字x", if case < 2 { 12000 } else { 4500 }), ("あいあ。漢字x", 16000)].map(|(t, n)| t.repeat(n))[case / 2 % 2].clone()
    };
    Some((w, text))
}
/// a world and the texts to try in it: one long text first, random ones after that
fn world_texts(g: &mut G, n: usize) -> (World, Vec<String>) {
    if let Some((w, t)) = long_case(g.case) {
        return (w, vec![t]);
    }
    let w = world(g);
    let ts = (0..n).map(|_| w.text(g)).collect();
    (w, ts)
}
fn partition(g: &mut G) -> R {
    let (w, texts) = world_texts(g, 12);
    for text in texts {
        note(w.desc(&text));
        let r = w.tok.tokenize(&text);
        let ts = match r {
            Ok(t) => t,
            Err(e) => return fail("tokenize error", w.desc(&text), "tokens", e.to_string()),
        };
        tick(1);
        let mut at = 0;
        for (i, t) in ts.iter().enumerate() {
            let d = || format!("{} tokens {:?}", w.desc(&text), show(&ts));
            expect_eq!("contiguous", d(), at, t.byte_start);
            expect!("nonempty", d(), "token not empty", t.byte_end > t.byte_start);
            expect_eq!("slice", d(), text.get(t.byte_start..t.byte_end), Some(t.text));
            expect_eq!("position", d(), (i, 1), (t.position, t.position_length));
            at = t.byte_end;
        }
        expect_eq!("covers", w.desc(&text), text.len(), at);
    }
    Ok(())
}

fn least_cost(g: &mut G) -> R {
    let (w, texts) = world_texts(g, 10);
    for text in texts {
        note(w.desc(&text));
        for s in sentences(&text).into_iter().take(300) {
            let ts = match w.tok.tokenize(s) {
                Ok(t) => t,
                Err(e) => return fail("tokenize error", w.desc(s), "tokens", e.to_string()),
            };
            let cands = candidates(&w.d, s, w.tok.mode.is_search());
            let best = best_cost(&w.d, s, &w.tok.mode, &cands);
            let at: BTreeMap<usize, &Token> = ts.iter().map(|t| (t.byte_start, t)).collect();
            let chosen: Vec<Cand> = cands
                .iter()
                .filter(|c| at.get(&c.start).map_or(false, |t| t.byte_end == c.stop && w.src(t.word_id) == Some(c.src.clone())))
                .cloned()
                .collect();
            let mine = best_cost(&w.d, s, &w.tok.mode, &chosen);
            tick(1);
            expect_eq!("least cost", format!("{} sentence {:?} tokens {:?}", w.desc(s), s, show(&ts)), best, mine);
        }
    }
    Ok(())
}

fn lattice_edges(w: &World, lattice: &Lattice) -> Vec<(Edge, Option<Cand>)> {
    let mut got = vec![];
    for i in 0u32.. {
        let Ok(e) = guard(|| lattice.edge(EdgeId(i)).clone()) else { break };
        if e.start_index == e.stop_index {
            continue;
        }
        let c = w.src(e.word_entry.word_id).map(|src| Cand {
            start: e.start_index as usize,
            stop: e.stop_index as usize,
            src,
            cost: e.word_entry.word_cost,
            left: e.word_entry.left_id,
            right: e.word_entry.right_id,
        });
        got.push((e, c));
    }
    got
}
fn fill(w: &World, lattice: &mut Lattice, s: &str) {
    lattice.set_text(
        &w.tok.dictionary.dict,
        &w.tok.user_dictionary.as_ref().map(|d| &d.dict),
        &w.tok.dictionary.char_definitions,
        &w.tok.dictionary.unknown_dictionary,
        s,
        &w.tok.mode,
    );
}
fn candidate_set(g: &mut G) -> R {
    let (w, texts) = world_texts(g, 10);
    let mut lattice = Lattice::default();
    for text in texts {
        note(w.desc(&text));
        for s in sentences(&text).into_iter().take(300) {
            fill(&w, &mut lattice, s);
            let mut got: Vec<Cand> = vec![];
            for (e, c) in lattice_edges(&w, &lattice) {
                match c {
                    Some(c) => got.push(c),
                    None => return fail("unknown edge", w.desc(s), "a candidate of the model", format!("{:?}", e)),
                }
            }
            got.sort();
            tick(1);
            expect_eq!("candidates", format!("{} sentence {:?}", w.desc(s), s), candidates(&w.d, s, w.tok.mode.is_search()), got);
        }
    }
    Ok(())
}

fn sentence_indep(g: &mut G) -> R {
    let (w, mut texts) = world_texts(g, 5);
    let mut lattice = Lattice::default();
    if g.case >= LONG {
        texts.push(format!("{}。{}、{}", w.text(g), w.text(g), w.text(g)));
    }
    for text in &texts {
        note(w.desc(text));
        let whole = show(&w.tok.tokenize(text).map_err(|e| Fail { sig: "tokenize error".into(), input: w.desc(text), expected: "tokens".into(), got: e.to_string() })?);
        let mut parts: Vec<Tok> = vec![];
        let mut at = 0;
        for s in sentences(text) {
            let ts = show(&w.tok.tokenize(s).map_err(|e| Fail { sig: "tokenize error".into(), input: w.desc(s), expected: "tokens".into(), got: e.to_string() })?);
            let words: Vec<(usize, WordIdKey)> = ts.iter().map(|t| (t.1, t.5)).collect();
            for mut t in ts {
                t.1 += at;
                t.2 += at;
                t.3 = parts.len();
                parts.push(t);
            }
            at += s.len();
            // a lattice that has seen other sentences gives the same words as a fresh one
            let mut fresh = Lattice::default();
            fill(&w, &mut lattice, s);
            fill(&w, &mut fresh, s);
            lattice.calculate_path_costs(&w.tok.dictionary.cost_matrix, &w.tok.mode);
            fresh.calculate_path_costs(&w.tok.dictionary.cost_matrix, &w.tok.mode);
            tick(1);
            expect_eq!("lattice reuse", format!("{} sentence {:?}", w.desc(text), s), fresh.tokens_offset(), lattice.tokens_offset());
            // a sentence is analysed as one piece
            let one: Vec<(usize, WordIdKey)> = fresh.tokens_offset().iter().map(|&(a, w)| (a, (w.0, w.1))).collect();
            expect_eq!("one piece", format!("{} sentence {:?}", w.desc(text), s), one, words);
        }
        expect_eq!("sentences", w.desc(text), parts, whole);
        for t in &whole {
            let inner = &t.0[..t.0.len() - t.0.chars().last().map_or(0, |c| c.len_utf8())];
            expect!("crosses delimiter", format!("{} token {:?}", w.desc(text), t), "no delimiter inside a token", !inner.contains(|c| "。、\n\t".contains(c)));
        }
        let _ = w.tok.tokenize(&texts[0]);
        let again = show(&w.tok.tokenize(text).unwrap());
        expect_eq!("repeat", w.desc(text), whole, again);
    }
    Ok(())
}

fn word_entry(g: &mut G) -> R {
    let edge = |g: &mut G, v: &[i64], lo: i64, hi: i64| if g.chance(1, 2) { v[g.below(v.len())] } else { g.range(lo, hi) };
    for _ in 0..20 {
        let id = edge(g, &[0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304], 0, 0xffffffff) as u32;
        let cost = edge(g, &[0, 1, -1, 127, 128, -128, 255, 256, -256, -257, 32767, -32768, 0x0102], -32768, 32767) as i16;
        let l = edge(g, &[0, 1, 255, 256, 32767, 32768, 65535, 0x0304], 0, 65535) as u16;
        let r = edge(g, &[0, 1, 255, 256, 32767, 32768, 65535, 0x0506], 0, 65535) as u16;
        let e = WordEntry { word_id: WordId(id, g.chance(1, 2)), word_cost: cost, left_id: l, right_id: r };
        let mut buf: Vec<u8> = (0..g.below(25)).map(|_| g.below(256) as u8).collect();
        let at = buf.len();
        e.serialize(&mut buf).unwrap();
        let d = format!("{:?} at {}", e, at);
        note(d.clone());
        expect_eq!("length", d.clone(), 10, buf.len() - at);
        expect_eq!("declared length", d.clone(), 10, WordEntry::SERIALIZED_LEN);
        for _ in 0..g.below(25) {
            buf.push(g.below(256) as u8);
        }
        let sys = g.chance(1, 2);
        let b = WordEntry::deserialize(&buf[at..], sys);
        tick(1);
        expect_eq!(
            "round trip",
            d,
            (id, sys, cost, l, r, l as u32, r as u32),
            (b.word_id.0, b.word_id.1, b.word_cost, b.left_id, b.right_id, b.left_id(), b.right_id())
        );
    }
    Ok(())
}

/// more pairs than 24 bits can number, in memory
fn huge_matrix(g: &mut G) -> R {
    let (nf, nb) = [(4200, 4100), (300, 60000), (60000, 300)][g.case % 3];
    let cost = |f: usize, b: usize| (((f * nb + b) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as i16;
    let mut bytes = vec![];
    bytes.extend((nf as u16).to_le_bytes());
    bytes.extend((nb as u16).to_le_bytes());
    for f in 0..nf {
        for b in 0..nb {
            bytes.extend(cost(f, b).to_le_bytes());
        }
    }
    let probes: Vec<(usize, usize)> = (0..200_000).map(|_| (g.below(nf), g.below(nb))).chain([(0, 0), (0, nb - 1), (nf - 1, 0), (nf - 1, nb - 1)]).collect();
    let d = format!("matrix {} x {}", nf, nb);
    note(d.clone());
    for (route, c) in [("load", ConnectionCostMatrix::load(&bytes)), ("load_static", ConnectionCostMatrix::load_static(Box::leak(bytes.clone().into_boxed_slice())))] {
        for &(f, b) in &probes {
            let got = c.cost(f as u32, b as u32);
            if got != cost(f, b) as i32 {
                return fail("cost", format!("{} via {} forward {} backward {}", d, route, f, b), cost(f, b), got);
            }
        }
        tick(probes.len() as u64);
    }
    Ok(())
}
fn matrix(g: &mut G) -> R {
    if (5..8).contains(&g.case) {
        return huge_matrix(g);
    }
    let (nf, nb) = match g.case {
        0 => (1, 40000),
        1 => (2, 33000),
        2 => (40000, 1),
        3 => (1, 1),
        4 => (3, 32767),
        _ => (g.range(1, 12) as usize, g.range(1, 12) as usize),
    };
    let dir = scratch();
    let m: Vec<i16> = (0..nf * nb)
        .map(|_| if g.chance(1, 4) { [0, -1, 1, 32767, -32768, 255, 256, -256][g.below(8)] } else { g.range(-32768, 32767) } as i16)
        .collect();
    let mut order: Vec<usize> = (0..nf * nb).collect();
    for i in (1..order.len()).rev() {
        let j = g.below(i + 1);
        order.swap(i, j);
    }
    let sep = ["\t", " ", "  "][g.below(3)];
    let mut s = format!("{}{}{}\n", nf, sep, nb);
    for k in order {
        s += &format!("{}{}{}{}{}\n", k / nb, sep, k % nb, sep, m[k]);
    }
    let d = format!("matrix {} x {} {:?}", nf, nb, if nf * nb < 50 { &m[..] } else { &[] });
    note(d.clone());
    std::fs::write(dir.join("matrix.def"), s).unwrap();
    CostMatrixBuilderOptions::default().builder().unwrap().build(&dir, &dir).unwrap();
    let bytes = std::fs::read(dir.join("matrix.mtx")).unwrap();
    let leaked: &'static [u8] = Box::leak(bytes.clone().into_boxed_slice());
    let a = DictionaryLoader::connection(dir.clone()).unwrap();
    for (route, c) in [("load", ConnectionCostMatrix::load(&bytes)), ("load_static", ConnectionCostMatrix::load_static(leaked)), ("loader", a)] {
        for f in 0..nf {
            for b in 0..nb {
                let got = c.cost(f as u32, b as u32);
                if got != m[f * nb + b] as i32 {
                    return fail("cost", format!("{} via {} forward {} backward {}", d, route, f, b), m[f * nb + b], got);
                }
            }
        }
        tick((nf * nb) as u64);
    }
    // leaked bytes are small except for the fixed large cases
    Ok(())
}

pub const KINDS: [DictionaryKind; 5] = [DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic, DictionaryKind::KoDic, DictionaryKind::CcCedict];

/// characters representable in EUC-JP, for dictionaries whose sources use that encoding
pub const EUC_ALPHA: &[char] = &['a', 'b', 'あ', 'い', '漢', '字', 'ー', 'カ', '1', '、', '日', '本', '～', '―', 'ｱ', '丂'];
pub fn kind_encode(k: &DictionaryKind, s: &str) -> Vec<u8> {
    if *k == DictionaryKind::IPADIC {
        // EUC-JP: two-byte JIS X 0208, and one character each of half-width katakana and the three-byte JIS X 0212
        let mut v = vec![];
        for c in s.chars() {
            let t: &[u8] = match c {
                'あ' => &[0xa4, 0xa2],
                'い' => &[0xa4, 0xa4],
                '漢' => &[0xb4, 0xc1],
                '字' => &[0xbb, 0xfa],
                'ー' => &[0xa1, 0xbc],
                'カ' => &[0xa5, 0xab],
                '、' => &[0xa1, 0xa2],
                '日' => &[0xc6, 0xfc],
                '～' => &[0xa1, 0xc1],
                '―' => &[0xa1, 0xbd],
                'ｱ' => &[0x8e, 0xb1],
                '丂' => &[0x8f, 0xb0, 0xa1],
                '本' => &[0xcb, 0xdc],
                _ => {
                    assert!(c.is_ascii());
                    v.push(c as u8);
                    continue;
                }
            };
            v.extend_from_slice(t);
        }
        v
    } else {
        s.as_bytes().to_vec()
    }
}
fn detail_text(g: &mut G, euc: bool) -> String {
    let a: &[char] = if euc { EUC_ALPHA } else { &['a', 'ア', '漢', ',', '"', '*', ' ', '😀', 'é', '-', '가', '1'] };
    match g.below(5) {
        0 => "*".into(),
        1 => String::new(),
        _ => (0..1 + g.below(5)).map(|_| a[g.below(a.len())]).collect(),
    }
}
pub fn normalize(s: &str) -> String {
    s.replace('―', "—").replace('～', "〜")
}
fn sys_details(g: &mut G) -> R {
    let kind = KINDS[if g.case < 5 { g.case } else { g.below(5) }].clone();
    let euc = kind == DictionaryKind::IPADIC;
    let norm = matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd);
    let dir = scratch();
    let (src, out) = (dir.join("src"), dir.join("out"));
    std::fs::create_dir_all(&src).unwrap();
    let nfields = 1 + g.upto(20, 60, 10);
    let n = g.below(20) + 1;
    let mut words: Vec<MWord> = vec![];
    for i in 0..n {
        let surface: String = if i > 0 && g.chance(1, 3) {
            words[g.below(i)].surface.clone()
        } else {
            let a = if euc { EUC_ALPHA } else if norm { &['a', '～', '―', '漢', 'あ', '〜', '—'][..] } else { &['a', 'b', '漢', '字', '가', '😀', '―', ',', '"'][..] };
            (0..1 + g.below(3)).map(|_| a[g.below(a.len())]).collect()
        };
        // ragged rows are accepted by the one builder that reads its CSV files flexibly
        let nf = if kind == DictionaryKind::CcCedict { 1 + g.upto(40, 60, 10) } else { nfields };
        let mut details: Vec<String> = (0..nf).map(|_| detail_text(g, euc)).collect();
        details[0] = format!("{}id{}", details[0], i);
        if g.case < 5 && i % 3 == 1 {
            // records longer than 16 bits, and offsets beyond them
            details[nf - 1] = if euc { "漢" } else { "字" }.repeat(22000 + i);
        }
        if norm && !euc && g.chance(1, 4) {
            details[nf - 1] = "～―x".into();
        }
        // now and then a row that repeats an earlier one in every field
        let again = if i > 0 && g.chance(1, 6) { Some(words[g.below(i)].clone()) } else { None };
        words.push(again.unwrap_or(MWord { surface, cost: g.range(-32768, 32767) as i16, left: g.below(65536) as u16, right: g.below(65536) as u16, details }));
    }
    let desc = format!("{:?} rows {:?}", kind, words);
    note(desc.clone());
    let mut files = vec![String::new(), String::new()];
    for w in &words {
        let k = g.below(2);
        files[k] += &(csv_row(&word_row(w)) + "\n");
    }
    for (i, f) in files.iter().enumerate() {
        std::fs::write(src.join(format!("f{}.csv", i)), kind_encode(&kind, f)).unwrap();
    }
    std::fs::write(src.join("char.def"), "DEFAULT 0 1 0\n").unwrap();
    let nunk = match kind {
        DictionaryKind::UniDic | DictionaryKind::CcCedict => 10,
        DictionaryKind::KoDic => 12,
        _ => 11,
    };
    let mut u = "DEFAULT,0,0,0".to_string();
    for _ in 4..nunk {
        u += ",*";
    }
    std::fs::write(src.join("unk.def"), u + "\n").unwrap();
    std::fs::write(src.join("matrix.def"), "1 1\n0 0 0\n").unwrap();
    let b = DictionaryBuilderResolver::resolve_builder(kind.clone()).unwrap();
    if let Err(e) = b.build_dictionary(&src, &out) {
        return fail("build", desc, "built", e.to_string());
    }
    let d = DictionaryLoader::load_dictionary(out).unwrap();
    let mut seen = vec![false; n];
    for w in &words {
        let (surface, details): (String, Vec<String>) = if norm { (normalize(&w.surface), w.details.iter().map(|x| normalize(x)).collect()) } else { (w.surface.clone(), w.details.clone()) };
        let hits = d.dict.find_surface(&surface);
        // the entry whose costs and details are this row's
        let mut ok = false;
        for h in &hits {
            expect!("word id range", desc.clone(), "id below the number of rows", (h.word_id.0 as usize) < n);
            let got = d.word_details(h.word_id.0 as usize);
            if got.as_ref() == Some(&details) && (h.word_cost, h.left_id, h.right_id) == (w.cost, w.left, w.right) {
                ok = true;
                seen[h.word_id.0 as usize] = true;
            }
        }
        tick(1);
        if !ok {
            return fail("details", format!("{} looking up {:?}", desc, w), (w, details), hits.iter().map(|h| (format!("{:?}", h), d.word_details(h.word_id.0 as usize))).collect::<Vec<_>>());
        }
    }
    expect!("ids", desc.clone(), "every id belongs to a row", seen.iter().all(|x| *x));
    for id in [n, n + 1, n + 7, 100000, u32::MAX as usize - 1, u32::MAX as usize, 1 << 32, (1 << 32) + n - 1, 1 << 40] {
        note(format!("{} id {}", desc, id));
        expect_eq!("id outside", format!("{} id {}", desc, id), None, d.word_details(id));
    }
    Ok(())
}

pub fn simple_details(kind: &DictionaryKind, r: &[String]) -> Vec<String> {
    let s = |n: usize| vec!["*".to_string(); n];
    let mut v = vec![r[1].clone()];
    match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => {
            v.extend(s(5));
            v.push(r[0].clone());
            v.push(r[2].clone());
            v.extend(s(1));
        }
        DictionaryKind::UniDic => {
            v.extend(s(5));
            v.push(r[2].clone());
            v.extend(s(10));
        }
        DictionaryKind::KoDic => {
            v.extend(s(2));
            v.push(r[2].clone());
            v.extend(s(4));
        }
        DictionaryKind::CcCedict => {
            v.extend(s(3));
            v.push(r[2].clone());
            v.extend(s(3));
        }
    }
    v
}
pub fn user_dict(g: &mut G) -> R {
    let kind = KINDS[if g.case < 6 { g.case.max(1) - 1 } else { g.below(5) }].clone();
    let ndet = match kind {
        DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => 13,
        DictionaryKind::UniDic => 21,
        _ => 12,
    };
    let flexible = matches!(kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd);
    let all_simple = g.chance(1, 2);
    let n = if g.case == 0 { 40 } else if g.case < 6 { 7 } else { 1 + g.below(8) };
    let extra = g.upto(20, 40, 3);
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..n {
        let surface: String = if g.case == 0 {
            "同".into()
        } else if i > 0 && g.chance(1, 3) {
            rows[g.below(i)][0].clone()
        } else {
            (0..1 + g.below(4)).map(|_| WORD_ALPHA[g.below(WORD_ALPHA.len())]).collect()
        };
        let simple = if flexible { g.chance(1, 2) } else { all_simple };
        let mut r = vec![surface];
        if simple {
            r.push(format!("pos{}", i));
            r.push(detail_text(g, false));
        } else {
            r.push(g.below(65536).to_string());
            r.push(g.below(65536).to_string());
            r.push(g.range(-32768, 32767).to_string());
            let m = if flexible { ndet + g.upto(40, 40, 3) } else { ndet + extra };
            for k in 4..m {
                let t = detail_text(g, false);
                r.push(if k == 4 { format!("pos{}", i) } else { t });
            }
        }
        if (1..6).contains(&g.case) && i % 3 == 1 {
            // records longer than 16 bits, and offsets beyond them
            *r.last_mut().unwrap() = "字".repeat(22000 + i);
        }
        if i > 0 && g.chance(1, 8) {
            // a row that repeats an earlier one in every field
            r = rows[g.below(i)].clone();
        }
        rows.push(r);
    }
    let many = if g.case == 0 { "more than 31 entries for one surface: " } else { "" };
    let sigp = if g.case == 0 { "many-entries: " } else { "" };
    let sig = |s: &str| format!("{}{}", sigp, s);
    let desc = format!("{}{:?} user rows {:?}", many, kind, rows);
    note(desc.clone());
    let dir = scratch();
    let p = dir.join("user.csv");
    std::fs::write(&p, rows.iter().map(|r| csv_row(r) + "\n").collect::<String>()).unwrap();
    let csv = guard(|| DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p.clone(), kind: Some(kind.clone()) }));
    let csv = match csv {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return fail(&sig("build"), desc, "user dictionary", e.to_string()),
        Err(e) => return fail(&sig("build panic"), desc, "user dictionary", e),
    };
    let bin = dir.join("out").join("user.bin");
    DictionaryBuilderResolver::resolve_builder(kind.clone()).unwrap().build_user_dictionary(&p, &bin).unwrap();
    let b = DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: bin, kind: None }).unwrap();
    for (route, u) in [("csv", csv), ("bin", b)] {
        let mut seen = vec![0usize; n];
        for r in &rows {
            let (want_cost, want_l, want_r, details) = if r.len() == 3 {
                (-10000i16, 0u16, 0u16, simple_details(&kind, r))
            } else {
                (r[3].parse().unwrap(), r[1].parse().unwrap(), r[2].parse().unwrap(), r[4..].to_vec())
            };
            let same = rows.iter().filter(|x| x[0] == r[0]).count();
            let hits = match guard(|| u.dict.find_surface(&r[0])) {
                Ok(h) => h,
                Err(e) => return fail(&sig("find panic"), desc, same, e),
            };
            tick(1);
            expect_eq!(&sig("number found"), format!("{} via {} surface {:?}", desc, route, r[0]), same, hits.len());
            let mut ok = false;
            for h in &hits {
                expect!(&sig("user flag"), desc.clone(), "marked as user word", !h.word_id.is_system() && !h.word_id.is_unknown());
                if u.word_details(h.word_id.0 as usize).as_ref() == Some(&details) && (h.word_cost, h.left_id, h.right_id) == (want_cost, want_l, want_r) {
                    ok = true;
                    seen[h.word_id.0 as usize] += 1;
                }
            }
            if !ok {
                return fail(&sig("entry"), format!("{} via {} row {:?}", desc, route, r), (want_cost, want_l, want_r, details), hits.iter().map(|h| (format!("{:?}", h), u.word_details(h.word_id.0 as usize))).collect::<Vec<_>>());
            }
            let mut text = r[0].clone();
            text.push('x');
            let k = u.dict.prefix(&text).filter(|(l, _)| *l == r[0].len()).count();
            expect_eq!(&sig("prefix"), format!("{} text {:?}", desc, text), same, k);
        }
        expect!(&sig("ids"), desc.clone(), "every id belongs to a row", seen.iter().all(|x| *x > 0));
        for id in [n, n + 1, n + 50, u32::MAX as usize, 1 << 32, (1 << 32) + n - 1, 1 << 40] {
            expect_eq!(&sig("id outside"), format!("{} id {}", desc, id), None, u.word_details(id));
        }
    }
    Ok(())
}

fn lookup(g: &mut G) -> R {
    let n = match g.case {
        0 => 40,
        2..=20 => 13 + g.case,
        21 => 7000,
        _ => 1 + g.below(24),
    };
    let mut words: Vec<MWord> = vec![];
    for i in 0..n {
        let surface: String = if g.case == 0 {
            "a".into()
        } else if g.case == 1 {
            ["a", "b"][i % 2].into()
        } else if g.case == 21 {
            // more entries than 16 bits of bytes and of packed offsets
            format!("w{:04}", (i * 7919) % 7000)
        } else if g.case <= 20 {
            // many entries for one surface, up to the limit
            if i < 2 { "漢".into() } else { "漢字".into() }
        } else if i > 0 && g.chance(1, 2) {
            let s = &words[g.below(i)].surface;
            if g.chance(1, 2) {
                s.clone()
            } else {
                format!("{}{}", s, WORD_ALPHA[g.below(WORD_ALPHA.len())])
            }
        } else {
            (0..1 + g.below(2)).map(|_| WORD_ALPHA[g.below(WORD_ALPHA.len())]).collect()
        };
        let again = if i > 0 && g.case > 21 && g.chance(1, 8) { Some(words[g.below(i)].clone()) } else { None };
        words.push(again.unwrap_or(MWord { surface, cost: g.range(-32768, 32767) as i16, left: g.below(65536) as u16, right: g.below(65536) as u16, details: vec![format!("d{}", i)] }));
    }
    let many = n < 1000 && (0..n).any(|i| words.iter().filter(|w| w.surface == words[i].surface).count() > 31);
    let sigp = if many { "many-entries: " } else { "" };
    let desc = format!("{}rows {:?}", if many { "more than 31 entries for one surface: " } else { "" }, words.iter().take(200).map(|w| (&w.surface, w.cost, w.left, w.right)).collect::<Vec<_>>());
    note(desc.clone());
    let dir = scratch();
    // numbers may be padded with blanks, and the last line need not be terminated
    let blanks = g.chance(1, 6);
    let mut csv: String = words
        .iter()
        .map(|w| {
            let mut r = word_row(w);
            if blanks {
                for f in &mut r[1..4] {
                    *f = format!("{}{}{}", ["", " ", "\t", "\u{3000}"][g.below(4)], f, ["", " ", "  "][g.below(3)]);
                }
            }
            csv_row(&r) + "\n"
        })
        .collect();
    if g.chance(1, 8) {
        csv.pop();
    }
    std::fs::write(dir.join("a.csv"), csv).unwrap();
    match guard(|| DictBuilderOptions::default().builder().unwrap().build(&dir, &dir)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail(&format!("{}build", sigp), desc, "built", e.to_string()),
        Err(e) => return fail(&format!("{}build panic", sigp), desc, "built", e),
    }
    let d = DictionaryLoader::prefix_dict(dir.clone()).unwrap();
    let idx = std::fs::read(dir.join("dict.wordsidx")).unwrap();
    let data = std::fs::read(dir.join("dict.words")).unwrap();
    let name = |e: &WordEntry| -> String {
        let at = 4 * e.word_id.0 as usize;
        if at + 4 > idx.len() {
            return format!("bad id {}", e.word_id.0);
        }
        let o = u32::from_le_bytes(idx[at..at + 4].try_into().unwrap()) as usize;
        let l = u32::from_le_bytes(data[o..o + 4].try_into().unwrap()) as usize;
        String::from_utf8_lossy(&data[o + 4..o + 4 + l]).into_owned()
    };
    for _ in 0..12 {
        let mut text = if g.chance(3, 4) { words[g.below(n)].surface.clone() } else { String::new() };
        for _ in 0..g.below(4) {
            text.push(if g.chance(5, 6) { WORD_ALPHA[g.below(WORD_ALPHA.len())] } else { g.any_char() });
        }
        note(format!("{} text {:?}", desc, text));
        let mut want: Vec<(usize, i16, u16, u16, bool, String)> =
            words.iter().filter(|w| text.starts_with(&w.surface)).map(|w| (w.surface.len(), w.cost, w.left, w.right, true, w.details[0].clone())).collect();
        want.sort();
        let mut got: Vec<_> = match guard(|| d.prefix(&text).collect::<Vec<_>>()) {
            Ok(v) => v.iter().map(|(l, e)| (*l, e.word_cost, e.left_id, e.right_id, e.word_id.is_system(), name(e))).collect(),
            Err(e) => return fail(&format!("{}prefix panic", sigp), format!("{} text {:?}", desc, text), want, e),
        };
        got.sort();
        tick(1);
        expect_eq!(&format!("{}prefix", sigp), format!("{} text {:?}", desc, text), want, got);
        let mut want: Vec<(i16, u16, u16, bool, String)> = words.iter().filter(|w| text == w.surface).map(|w| (w.cost, w.left, w.right, true, w.details[0].clone())).collect();
        want.sort();
        let mut got: Vec<_> = match guard(|| d.find_surface(&text)) {
            Ok(v) => v.iter().map(|e| (e.word_cost, e.left_id, e.right_id, e.word_id.is_system(), name(e))).collect(),
            Err(e) => return fail(&format!("{}find_surface panic", sigp), format!("{} text {:?}", desc, text), want, e),
        };
        got.sort();
        expect_eq!(&format!("{}find_surface", sigp), format!("{} surface {:?}", desc, text), want, got);
    }
    Ok(())
}

fn comment(g: &mut G) -> &'static str {
    ["", "", "", " # comment", "  # note 0x0000", "#", "#0x0000 DEFAULT", "\t#注", " ## # x"][g.below(9)]
}
fn chardef(g: &mut G) -> R {
    let mut names: Vec<String> = vec!["DEFAULT".into(), "SPACE".into(), "KANJI".into(), "KANJINUMERIC".into(), "NUMERIC".into(), "kanji".into(), "DEFAULTS".into()];
    for i in (2..names.len()).rev() {
        let j = 1 + g.below(i);
        names.swap(i, j);
    }
    names.truncate(1 + g.below(7));
    let large = g.chance(1, 30);
    if large {
        names.extend((0..g.below(300)).map(|i| format!("C{}", i)));
    }
    let flags: Vec<(bool, bool, u32)> = names.iter().map(|_| (g.chance(1, 2), g.chance(1, 2), if g.chance(1, 20) { [255u32, 256, 65536, u32::MAX][g.below(4)] } else { g.below(10) as u32 })).collect();
    let mut ranges: Vec<(u32, u32, Vec<usize>)> = vec![];
    let nr = if large { 100 + g.below(300) } else { g.below(8) };
    for _ in 0..nr {
        let lo = match g.below(3) {
            0 => g.range(0x20, 0x60),
            1 => g.range(0x3000, 0x3040),
            _ => g.range(0, 0xd7ff),
        } as u32;
        let hi = match g.below(4) {
            0 => lo,
            1 => lo + 1,
            2 => (lo + g.below(32) as u32).min(0xd7ff),
            _ => *[0xd7ffu32, 0xffff, 0xfffd].get(g.below(3)).unwrap(),
        }
        .max(lo);
        let k = g.upto(8, 8, 3) + 1;
        ranges.push((lo, hi, (0..k).map(|_| g.below(names.len())).collect()));
    }
    let mut s = String::new();
    let mut lines: Vec<String> = vec![];
    let mut cat_lines: Vec<String> = vec![];
    for (n, f) in names.iter().zip(&flags) {
        cat_lines.push(format!("{} {} {} {}{}", n, f.0 as u8, f.1 as u8, f.2, comment(g)));
    }
    for (lo, hi, cs) in &ranges {
        let ns: Vec<_> = cs.iter().map(|&c| names[c].clone()).collect();
        let x = if lo == hi && g.chance(1, 2) { format!("0x{:04X} {}", lo, ns.join(" ")) } else { format!("0x{:04x}..0x{:04X}\t{}", lo, hi, ns.join("  ")) };
        lines.push(x + comment(g));
    }
    // definitions normally precede the ranges; any order is legal
    let mixed = g.chance(1, 4);
    let all: Vec<String> = if mixed {
        let mut v = lines.clone();
        for c in cat_lines {
            let at = g.below(v.len() + 1);
            v.insert(at, c);
        }
        // keep the ranges in their order: insertion preserves it
        v
    } else {
        cat_lines.into_iter().chain(lines).collect()
    };
    for l in all {
        if g.chance(1, 6) {
            s += ["\n# only a comment\n", "#\n", "  \t\n", "#0x0000..0xFFFF DEFAULT\n", " # DEFAULT 1 1 1\n", "\r\n"][g.below(6)];
        }
        s += [" ", "\t", "", "", ""][g.below(5)];
        s += &(l + ["\r\n", " \n", "\n", "\n", "\n"][g.below(5)]);
    }
    if g.chance(1, 8) {
        s.pop();
    }
    note(format!("char.def {:?}", s));
    let mut b = CharacterDefinitionsBuilder::default();
    if let Err(e) = b.parse(&s) {
        return fail("parse", format!("char.def {:?}", s), "parsed", e.to_string());
    }
    let cd = b.build();
    let bytes = bincode::serialize(&cd).unwrap();
    let cd2 = lindera_core::character_definition::CharacterDefinitions::load(&bytes).unwrap();
    let mut probes: Vec<u32> = vec![0, 1, 0x20, 0x2f, 0x3042, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff];
    for (lo, hi, _) in &ranges {
        probes.extend([lo.saturating_sub(1), *lo, lo + 1, hi.saturating_sub(1), *hi, hi + 1, (lo + hi) / 2]);
    }
    for _ in 0..10 {
        probes.push(g.any_char() as u32);
    }
    for cd in [&cd, &cd2] {
        for &p in &probes {
            let Some(c) = char::from_u32(p) else { continue };
            let mut want: Vec<String> = vec![];
            for (lo, hi, cs) in &ranges {
                if *lo <= p && p <= *hi {
                    for &k in cs {
                        if !want.contains(&names[k]) {
                            want.push(names[k].clone());
                        }
                    }
                }
            }
            if want.is_empty() {
                want.push("DEFAULT".into());
            }
            let got: Vec<String> = cd.lookup_categories(c).iter().map(|&k| cd.category_name(k).to_string()).collect();
            tick(1);
            expect_eq!("categories", format!("char.def {:?} char {:?}", s, c), want, got);
            for &k in cd.lookup_categories(c) {
                let n = cd.category_name(k).to_string();
                let i = names.iter().position(|x| *x == n).unwrap();
                let got = match guard(|| *cd.lookup_definition(k)) {
                    Ok(f) => f,
                    Err(e) => return fail("flags panic", format!("char.def {:?} category {}", s, n), flags[i], e),
                };
                expect_eq!("flags", format!("char.def {:?} category {}", s, n), flags[i], (got.invoke, got.group, got.length));
            }
        }
    }
    Ok(())
}

fn compress(g: &mut G) -> R {
    use lindera_decompress::{decompress, Algorithm, CompressedData};
    let n = match g.below(5) {
        0 => g.below(4),
        1 => g.below(100),
        2 => g.below(3000),
        3 => 32768 + g.below(3),
        _ => g.below(70000),
    };
    let kind = g.below(4);
    let data: Vec<u8> = (0..n)
        .map(|i| match kind {
            0 => g.below(256) as u8,
            1 => 0,
            2 => (i / 7) as u8,
            _ => g.below(4) as u8,
        })
        .collect();
    for alg in [Algorithm::Deflate, Algorithm::Zlib, Algorithm::Gzip, Algorithm::Raw] {
        let d = format!("{:?} of {} bytes (kind {}) {:?}", alg, n, kind, &data[..n.min(60)]);
        note(d.clone());
        let c = match lindera_compress::compress(&data, alg) {
            Ok(c) => c,
            Err(e) => return fail("compress", d, "compressed", e.to_string()),
        };
        let ser = bincode::serialize(&c).unwrap();
        let back: CompressedData = bincode::deserialize(&ser).unwrap();
        for (route, x) in [("direct", c), ("serialized", back)] {
            match decompress(x) {
                Ok(v) => {
                    tick(1);
                    expect!("round trip", format!("{} {}", d, route), "original bytes", v == data)
                }
                Err(e) => return fail("decompress", format!("{} {}", d, route), "original bytes", e.to_string()),
            }
        }
    }
    Ok(())
}

fn mutate(g: &mut G, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match g.below(7) {
        0 => {
            v.push(g.any_char());
        }
        1 => {
            v.pop();
        }
        2 => v.insert(0, ' '),
        3 => {
            let i = g.below(v.len());
            v[i] = v[i].to_ascii_uppercase();
        }
        4 => {
            v.remove(0);
        }
        5 => {
            let i = g.below(v.len());
            v[i] = g.any_char();
        }
        _ => v.retain(|c| *c != '-'),
    }
    v.into_iter().collect()
}
fn names(g: &mut G) -> R {
    let want = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
    expect_eq!("variants", "DictionaryKind::variants()".to_string(), KINDS.to_vec(), DictionaryKind::variants());
    for (k, n) in KINDS.iter().zip(want) {
        expect_eq!("name", format!("{:?}", k), n, k.as_str());
        expect_eq!("parse", n.to_string(), Some(k.clone()), DictionaryKind::from_str(n).ok());
        expect_eq!("serde name", n.to_string(), serde_json::json!(n), serde_json::to_value(k).unwrap());
        expect_eq!("serde parse", n.to_string(), Some(k.clone()), serde_json::from_value(serde_json::json!(n)).ok());
    }
    expect_eq!("normal", "normal".to_string(), Some(Mode::Normal), Mode::from_str("normal").ok());
    let p = Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 7, other_penalty_length_penalty: 1700 };
    expect_eq!("decompose", "decompose".to_string(), Some(Mode::Decompose(p)), Mode::from_str("decompose").ok());
    let modes = ["normal", "decompose"];
    for _ in 0..20 {
        let base = if g.chance(1, 2) { want[g.below(5)] } else { modes[g.below(2)] };
        let s = match g.below(4) {
            0 => g.any_text(6),
            1 => ["search", "extended", "", "NORMAL", "Decompose", "ipadic_neologd", "IPADIC", "UniDic", "kodic", "cc_cedict", "ipadic ", "normal\n"][g.below(12)].to_string(),
            _ => mutate(g, base),
        };
        note(s.clone());
        tick(1);
        expect_eq!("kind of other string", s.clone(), want.iter().position(|x| *x == s).map(|i| KINDS[i].clone()), DictionaryKind::from_str(&s).ok());
        expect_eq!("mode of other string", s.clone(), modes.contains(&s.as_str()), Mode::from_str(&s).is_ok());
    }
    Ok(())
}

fn penalty_formula(g: &mut G) -> R {
    let b = |g: &mut G| if g.chance(3, 4) { g.range(0, 12) as usize } else { g.range(0, 300) as usize };
    let p = Penalty {
        kanji_penalty_length_threshold: b(g),
        kanji_penalty_length_penalty: g.range(-5000, 5000) as i32,
        other_penalty_length_threshold: b(g),
        other_penalty_length_penalty: g.range(-5000, 5000) as i32,
    };
    let start = g.below(500) as u32;
    let len = match g.below(40) {
        0 => g.below(1 << 20),
        k if k % 2 == 0 => 3 * g.below(14),
        _ => g.below(1000),
    } as u32;
    let mut e = Edge::default();
    e.start_index = start;
    e.stop_index = start + len;
    e.kanji_only = g.chance(1, 2);
    let n = len as i64 / 3;
    let d = format!("{:?} {:?}", p, e);
    note(d.clone());
    let (kt, ot) = (p.kanji_penalty_length_threshold as i64, p.other_penalty_length_threshold as i64);
    let want = if n <= kt {
        0
    } else if e.kanji_only {
        (n - kt) * p.kanji_penalty_length_penalty as i64
    } else if n > ot {
        (n - ot) * p.other_penalty_length_penalty as i64
    } else {
        0
    };
    if want != want as i32 as i64 {
        // beyond what a cost can hold
        return Ok(());
    }
    expect_eq!("penalty", d.clone(), want, p.penalty(&e) as i64);
    expect_eq!("decompose", d.clone(), want, Mode::Decompose(p).penalty_cost(&e) as i64);
    expect_eq!("normal", d.clone(), 0, Mode::Normal.penalty_cost(&e));
    expect_eq!("num_chars", d, n as usize, e.num_chars());
    expect!("is_search", "modes".into(), "decompose searches, normal does not", !Mode::Normal.is_search() && Mode::Decompose(Penalty::default()).is_search());
    tick(1);
    Ok(())
}
fn edge_flags(g: &mut G) -> R {
    let (w, texts) = world_texts(g, 10);
    let mut lattice = Lattice::default();
    for text in texts {
        note(w.desc(&text));
        for s in sentences(&text).into_iter().take(300) {
            fill(&w, &mut lattice, s);
            for (e, _) in lattice_edges(&w, &lattice) {
                let t = &s[e.start_index as usize..e.stop_index as usize];
                tick(1);
                expect_eq!("kanji only", format!("{} edge {:?}", w.desc(s), e), is_kanji_only(t), e.kanji_only);
                expect_eq!("penalty", format!("{} edge {:?}", w.desc(s), e), penalty(&w.tok.mode, t), w.tok.mode.penalty_cost(&e) as i64);
            }
        }
    }
    Ok(())
}

fn token_details(g: &mut G) -> R {
    let w = world(g);
    for _ in 0..8 {
        let text = w.text(g);
        note(w.desc(&text));
        let mut ts = w.tok.tokenize(&text).unwrap();
        for t in ts.iter_mut() {
            let d = format!("{} token {:?} id {:?}", w.desc(&text), t.text, t.word_id);
            let want: Option<Vec<String>> = if t.word_id.0 == u32::MAX {
                Some(vec!["UNK".into()])
            } else if t.word_id.1 {
                w.sys_ids.get(&t.word_id.0).map(|&i| w.d.words[i].details.clone())
            } else {
                w.user_ids.get(&t.word_id.0).map(|&i| w.d.user.as_ref().unwrap()[i].details.clone())
            };
            let own = |v: Option<Vec<&str>>| v.map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
            let got = own(t.get_details());
            tick(1);
            expect_eq!("details", d.clone(), want, got);
            expect_eq!("details again", d.clone(), want, own(t.get_details()));
            if g.chance(1, 3) {
                let set: Vec<String> = (0..g.below(4)).map(|_| g.any_text(4)).collect();
                t.set_details(Some(set.clone()));
                expect_eq!("set details", d.clone(), Some(set.clone()), own(t.get_details()));
                expect_eq!("set details again", d, Some(set), own(t.get_details()));
            }
        }
        // tokens built by hand, with ids in and out of range
        for id in [0u32, 1, w.d.words.len() as u32, 99, u32::MAX] {
            for sys in [true, false] {
                let x = ["x", " ", "", "　", "漢字", "\n", "UNK"][g.below(7)];
                let d = format!("Token::new({:?}) with WordId({}, {})", x, id, sys);
                note(d.clone());
                let mut t = Token::new(x, 0, x.len(), 0, WordId(id, sys), &w.tok.dictionary, w.tok.user_dictionary.as_ref());
                let want: Option<Vec<String>> = if id == u32::MAX {
                    Some(vec!["UNK".into()])
                } else if sys {
                    w.sys_ids.get(&id).map(|&i| w.d.words[i].details.clone())
                } else {
                    w.user_ids.get(&id).map(|&i| w.d.user.as_ref().unwrap()[i].details.clone())
                };
                let got = t.get_details().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
                expect_eq!("details by id", format!("{} in {}", d, w.d.show()), want, got);
            }
        }
    }
    Ok(())
}

fn unk_def(g: &mut G) -> R {
    let mut all = vec!["DEFAULT", "SPACE", "KANJI", "KANJINUMERIC", "NUMERIC", "NUM", "kanji", "カナ", "カ", "N"];
    for i in (1..all.len()).rev() {
        let j = g.below(i + 1);
        all.swap(i, j);
    }
    let ncat = 1 + g.below(7);
    let cats: Vec<String> = all[..ncat].iter().map(|s| s.to_string()).collect();
    let nfields = 4 + g.below(9);
    let mut rows: Vec<Vec<String>> = vec![];
    // now and then more entries than 16 bits can number
    let n = if g.case < 4 { 66000 } else { g.below(9) };
    for _ in 0..n {
        let mut r = vec![{
            let m = if g.chance(1, 8) { 10 } else { ncat };
            all[g.below(m)].to_string()
        }];
        let any = g.below(65536);
        let l = [0, 1, 65535, any][g.below(4)];
        r.push(l.to_string());
        r.push(if g.chance(3, 4) { l } else { g.below(65536) }.to_string());
        let any = g.range(-32768, 32767);
        r.push([0, -1, 32767, -32768, any][g.below(5)].to_string());
        while r.len() < nfields {
            r.push(match g.below(5) {
                0 => String::new(),
                k => format!("f{}", k),
            });
        }
        if !rows.is_empty() && g.chance(1, 8) {
            r = rows[g.below(rows.len())].clone();
        }
        rows.push(r);
    }
    let mut bad = false;
    if n > 0 && g.chance(1, 3) {
        bad = true;
        let k = g.below(n);
        match g.below(4) {
            0 => {
                rows[k].pop();
            }
            3 => rows[k] = vec![String::new()],
            1 => rows[k].push(["*", "", " "][g.below(3)].into()),
            _ => {
                let f = 1 + g.below(3);
                rows[k][f] = ["x", "", "1.5", "0x1", " 1", "99999999999"][g.below(6)].to_string();
            }
        }
    }
    let end = ["\n", "\n", "\r\n"][g.below(3)];
    let mut text: String = rows.iter().map(|r| r.join(",") + end).collect();
    if g.chance(1, 8) && !(bad && rows[n - 1] == [""]) {
        // the last line need not be terminated
        text.truncate(text.len().saturating_sub(end.len()));
    }
    let d = format!("unk.def {:?} categories {:?} fields {}", text, cats, nfields);
    note(d.clone());
    let r = parse_unk(&cats, &text, nfields);
    tick(1);
    if bad {
        expect!("malformed accepted", d, "an error", r.is_err());
        return Ok(());
    }
    let u = match r {
        Ok(u) => u,
        Err(e) => return fail("rejected", d, "parsed", e.to_string()),
    };
    let bytes = bincode::serialize(&u).unwrap();
    let u2 = lindera_core::unknown_dictionary::UnknownDictionary::load(&bytes).unwrap();
    for u in [&u, &u2] {
        for (i, c) in cats.iter().enumerate() {
            let want: Vec<(u16, u16, i16)> =
                rows.iter().filter(|r| r[0] == *c).map(|r| (r[1].parse().unwrap(), r[2].parse().unwrap(), r[3].parse().unwrap())).collect();
            let mut got = vec![];
            for &id in u.lookup_word_ids(lindera_core::character_definition::CategoryId(i)) {
                let e = u.word_entry(id);
                expect!("marked unknown", d.clone(), "unknown word id", e.word_id.is_unknown());
                got.push((e.left_id, e.right_id, e.word_cost));
            }
            expect_eq!("entries", format!("{} category {}", d, c), want, got);
        }
    }
    Ok(())
}
#[allow(unused)]
fn _unused(_: &dyn DictionaryBuilder) {}
