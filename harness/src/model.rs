//! An independent model of a dictionary, its source files, and the reference analysis.
use crate::frame::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::DictionaryLoader;
use lindera_dictionary_builder::*;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct MWord {
    pub surface: String,
    pub cost: i16,
    pub left: u16,
    pub right: u16,
    pub details: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct MCat {
    pub name: String,
    pub invoke: bool,
    pub group: bool,
}
#[derive(Clone, Debug)]
pub struct MDict {
    pub words: Vec<MWord>,
    pub cats: Vec<MCat>,
    pub ranges: Vec<(u32, u32, Vec<usize>)>,
    pub unk: Vec<(usize, u16, u16, i16)>,
    pub nf: usize,
    pub nb: usize,
    pub matrix: Vec<i16>,
    /// user words (simple form when details.len() == 2)
    pub user: Option<Vec<MWord>>,
}

pub const ALPHA: &[char] = &['a', 'b', 'あ', 'い', '漢', '字', 'ー', 'é', '😀', '。', '、', '\n', '\t', 'カ', '1', ' ', '\u{13042}', '\u{24e00}'];
pub const WORD_ALPHA: &[char] = &['a', 'b', 'あ', 'い', '漢', '字', 'ー', 'é', '😀', 'カ', '1', '。', '、', ' '];

pub fn csv_field(s: &str) -> String {
    if s.contains(|c| c == ',' || c == '"' || c == '\n' || c == '\r') || s.starts_with(' ') || s.is_empty() {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
pub fn csv_row(f: &[String]) -> String {
    f.iter().map(|x| csv_field(x)).collect::<Vec<_>>().join(",")
}

pub fn gen_dict(g: &mut G) -> MDict {
    let ncat = 1 + g.upto(8, 9, 4);
    let mut cats = vec![MCat { name: "DEFAULT".into(), invoke: g.chance(1, 2), group: g.chance(1, 2) }];
    for i in 1..ncat {
        cats.push(MCat { name: format!("CAT{}", i), invoke: g.chance(1, 2), group: g.chance(1, 2) });
    }
    let mut ranges = vec![];
    let nr = g.below(6);
    for _ in 0..nr {
        let c = ALPHA[g.below(ALPHA.len())] as u32;
        let (lo, hi) = match g.below(3) {
            0 => (c, c),
            1 => (c.saturating_sub(1 + g.below(40) as u32), c),
            _ => (c, c + g.below(3000) as u32),
        };
        if hi > 0xd7ff {
            continue;
        }
        let k = 1 + g.upto(4, 4, 2);
        let cs = (0..k).map(|_| g.below(ncat)).collect();
        ranges.push((lo, hi, cs));
    }
    let (mut nf, mut nb) = (g.range(1, 4) as usize, g.range(1, 4) as usize);
    // context ids beyond one byte
    match g.below(24) {
        0 => nf = g.range(250, 400) as usize,
        1 => nb = g.range(250, 400) as usize,
        _ => {}
    }
    let wild = g.chance(1, 4);
    let matrix = (0..nf * nb).map(|_| if wild { g.range(-32768, 32767) } else { g.range(-6, 6) * 50 } as i16).collect();
    let cost = |g: &mut G| if wild { g.range(-32768, 32767) as i16 } else { (g.range(-4, 12) * 50) as i16 };
    let mut unk = vec![];
    for c in 0..ncat {
        let n = if g.chance(1, 20) { 12 } else { 5 };
        for _ in 0..1 + g.upto(n, n, 2) {
            let x = cost(g);
            // entries of unknown words: left id may be anything inside the matrix
            unk.push((c, g.below(nb) as u16, g.below(nf) as u16, x));
        }
    }
    for i in (1..unk.len()).rev() {
        let j = g.below(i + 1);
        unk.swap(i, j);
    }
    let many = if g.chance(1, 20) { 80 } else { 12 };
    let mut words = gen_words(g, many, nf, nb, wild, "d");
    if many == 12 && g.chance(1, 20) {
        nest(g, &mut words, nf, nb, wild, "d");
    }
    let mut user = if g.chance(1, 3) { Some(gen_words(g, 4, nf, nb, wild, "u")) } else { None };
    if let Some(u) = user.as_mut() {
        if g.chance(1, 20) {
            nest(g, u, nf, nb, wild, "u");
        }
    }
    let user = user.map(|u| if u.is_empty() { gen_words_n(g, 1, nf, nb, wild, "u") } else { u });
    MDict { words, cats, ranges, unk, nf, nb, matrix, user }
}
fn gen_words(g: &mut G, max: usize, nf: usize, nb: usize, wild: bool, tag: &str) -> Vec<MWord> {
    let n = 1 + g.below(max);
    gen_words_n(g, n, nf, nb, wild, tag)
}
/// many words that begin at the same place: every prefix of a word, several times
fn nest(g: &mut G, words: &mut Vec<MWord>, nf: usize, nb: usize, wild: bool, tag: &str) {
    let mut s = String::new();
    let one = if g.chance(1, 2) { Some(WORD_ALPHA[g.below(WORD_ALPHA.len())]) } else { None };
    for _ in 0..4 + g.below(6) {
        s.push(one.unwrap_or_else(|| WORD_ALPHA[g.below(WORD_ALPHA.len())]));
        let n = 1 + g.below(6);
        for mut w in gen_words_n(g, n, nf, nb, wild, tag) {
            w.surface = s.clone();
            w.details = (0..9).map(|k| format!("{}{}-{}", tag, words.len(), k)).collect();
            words.push(w);
        }
    }
}
fn gen_words_n(g: &mut G, n: usize, nf: usize, nb: usize, wild: bool, tag: &str) -> Vec<MWord> {
    let mut words: Vec<MWord> = vec![];
    for i in 0..n {
        let surface = if i > 0 && g.chance(1, 2) {
            // relate to an earlier surface: same, or an extension
            let s = words[g.below(i)].surface.clone();
            if g.chance(1, 2) {
                s
            } else {
                format!("{}{}", s, WORD_ALPHA[g.below(WORD_ALPHA.len())])
            }
        } else {
            let k = if g.chance(1, 40) { 20 + g.below(90) } else { 1 + g.below(3) };
            (0..k).map(|_| WORD_ALPHA[g.below(WORD_ALPHA.len())]).collect()
        };
        words.push(MWord {
            surface,
            cost: if wild { g.range(-32768, 32767) as i16 } else { (g.range(-4, 12) * 50) as i16 },
            left: g.below(nb) as u16,
            right: g.below(nf) as u16,
            details: (0..9).map(|k| format!("{}{}-{}", tag, i, k)).collect(),
        });
    }
    words
}

impl MDict {
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
    pub fn char_def(&self) -> String {
        let mut s = String::new();
        for c in &self.cats {
            s += &format!("{} {} {} 0\n", c.name, c.invoke as u8, c.group as u8);
        }
        for (lo, hi, cs) in &self.ranges {
            let names: Vec<_> = cs.iter().map(|&c| self.cats[c].name.clone()).collect();
            if lo == hi {
                s += &format!("0x{:04X} {} # one\n", lo, names.join(" "));
            } else {
                s += &format!("0x{:04X}..0x{:04X} {}\n", lo, hi, names.join(" "));
            }
        }
        s
    }
    pub fn write_sources(&self, dir: &Path) {
        std::fs::write(dir.join("char.def"), self.char_def()).unwrap();
        let mut s = String::new();
        for (c, l, r, k) in &self.unk {
            s += &format!("{},{},{},{},*,*,*,*,*,*,*\n", self.cats[*c].name, l, r, k);
        }
        std::fs::write(dir.join("unk.def"), s).unwrap();
        let mut s = format!("{} {}\n", self.nf, self.nb);
        for f in 0..self.nf {
            for b in 0..self.nb {
                s += &format!("{} {} {}\n", f, b, self.matrix[f * self.nb + b]);
            }
        }
        std::fs::write(dir.join("matrix.def"), s).unwrap();
        let mut a = String::new();
        let mut b = String::new();
        for (i, w) in self.words.iter().enumerate() {
            let t = if i % 3 == 2 { &mut b } else { &mut a };
            *t += &(csv_row(&word_row(w)) + "\n");
        }
        std::fs::write(dir.join("a.csv"), a).unwrap();
        std::fs::write(dir.join("b.csv"), b).unwrap();
    }
    pub fn build(&self) -> Dictionary {
        DictionaryLoader::load_dictionary(self.compile(&scratch())).unwrap()
    }
    /// compile the system dictionary below dir; the directory of the compiled files
    pub fn compile(&self, dir: &Path) -> PathBuf {
        let (src, out) = (dir.join("src"), dir.join("out"));
        std::fs::create_dir_all(&src).unwrap();
        std::fs::create_dir_all(&out).unwrap();
        self.write_sources(&src);
        let cd = CharDefBuilderOptions::default().builder().unwrap().build(&src, &out).unwrap();
        UnkBuilderOptions::default().unk_fields_num(11).builder().unwrap().build(&src, &cd, &out).unwrap();
        DictBuilderOptions::default().flexible_csv(false).builder().unwrap().build(&src, &out).unwrap();
        CostMatrixBuilderOptions::default().builder().unwrap().build(&src, &out).unwrap();
        out
    }
    pub fn build_user(&self) -> Option<UserDictionary> {
        let u = self.user.as_ref()?;
        let dir = scratch();
        let p = dir.join("user.csv");
        let s: String = u.iter().map(|w| csv_row(&word_row(w)) + "\n").collect();
        std::fs::write(&p, s).unwrap();
        Some(
            UserDictBuilderOptions::default()
                .simple_userdic_fields_num(3)
                .detailed_userdic_fields_num(13)
                .builder()
                .ok()
                .unwrap()
                .build(&p)
                .unwrap(),
        )
    }
    /// categories of a character: model of char.def
    pub fn cats_of(&self, c: char) -> Vec<usize> {
        let mut v = vec![];
        for (lo, hi, cs) in &self.ranges {
            if *lo <= c as u32 && c as u32 <= *hi {
                for &k in cs {
                    if !v.contains(&k) {
                        v.push(k);
                    }
                }
            }
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn conn(&self, f: u16, b: u16) -> i64 {
        self.matrix[f as usize * self.nb + b as usize] as i64
    }
}
pub fn word_row(w: &MWord) -> Vec<String> {
    let mut r = vec![w.surface.clone(), w.left.to_string(), w.right.to_string(), w.cost.to_string()];
    r.extend(w.details.iter().cloned());
    r
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Src {
    Sys(usize),
    User(usize),
    Unk,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cand {
    pub start: usize,
    pub stop: usize,
    pub src: Src,
    pub cost: i16,
    pub left: u16,
    pub right: u16,
}
/// the candidates of a sentence by the documented rules
pub fn candidates(d: &MDict, s: &str, search: bool) -> Vec<Cand> {
    let mut out: Vec<Cand> = vec![];
    let mut reach = vec![false; s.len() + 1];
    reach[0] = true;
    let mut unk_end: Option<usize> = None;
    for (start, first) in s.char_indices() {
        if !reach[start] {
            continue;
        }
        let rest = &s[start..];
        let mut found = false;
        if let Some(u) = &d.user {
            for (i, w) in u.iter().enumerate() {
                if rest.starts_with(&w.surface) {
                    found = true;
                    out.push(Cand { start, stop: start + w.surface.len(), src: Src::User(i), cost: w.cost, left: w.left, right: w.right });
                }
            }
        }
        for (i, w) in d.words.iter().enumerate() {
            if rest.starts_with(&w.surface) {
                found = true;
                out.push(Cand { start, stop: start + w.surface.len(), src: Src::Sys(i), cost: w.cost, left: w.left, right: w.right });
            }
        }
        if search || unk_end.map(|e| e <= start).unwrap_or(true) {
            for (ord, &cat) in d.cats_of(first).iter().enumerate() {
                let c = &d.cats[cat];
                if !(c.invoke || !found) {
                    continue;
                }
                let mut end = start + first.len_utf8();
                if c.group {
                    for x in rest.chars().skip(1) {
                        // same category at the same rank in the character's list
                        if d.cats_of(x).get(ord) == Some(&cat) {
                            end += x.len_utf8();
                        } else {
                            break;
                        }
                    }
                }
                for (k, l, r, cost) in &d.unk {
                    if *k == cat {
                        out.push(Cand { start, stop: end, src: Src::Unk, cost: *cost, left: *l, right: *r });
                    }
                }
                unk_end = Some(end);
            }
        }
        for c in &out {
            reach[c.stop] = true;
        }
    }
    out.sort();
    out
}
pub fn is_kanji_only(s: &str) -> bool {
    s.chars().all(|c| (19968..=40879).contains(&(c as u32)))
}
pub fn penalty(mode: &Mode, text: &str) -> i64 {
    match mode {
        Mode::Normal => 0,
        Mode::Decompose(p) => {
            let n = text.len() / 3;
            if n <= p.kanji_penalty_length_threshold {
                0
            } else if is_kanji_only(text) {
                (n - p.kanji_penalty_length_threshold) as i64 * p.kanji_penalty_length_penalty as i64
            } else if n > p.other_penalty_length_threshold {
                (n - p.other_penalty_length_threshold) as i64 * p.other_penalty_length_penalty as i64
            } else {
                0
            }
        }
    }
}
/// least total cost over all candidate sequences covering the sentence (restricted to `ok` candidates)
pub fn best_cost(d: &MDict, s: &str, mode: &Mode, cands: &[Cand]) -> Option<i64> {
    // best[i] = least cost of a path ending with candidate i, end excluded
    let mut order: Vec<usize> = (0..cands.len()).collect();
    order.sort_by_key(|&i| cands[i].start);
    let mut ending = vec![vec![]; s.len() + 1];
    for (j, c) in cands.iter().enumerate() {
        ending[c.stop].push(j);
    }
    let mut best = vec![None::<i64>; cands.len()];
    let mut res: Option<i64> = None;
    for &i in &order {
        let c = &cands[i];
        let mut m: Option<i64> = if c.start == 0 { Some(d.conn(0, c.left)) } else { None };
        if c.start > 0 {
            for &j in &ending[c.start] {
                if let Some(b) = best[j] {
                    let v = b + d.conn(cands[j].right, c.left) + penalty(mode, &s[cands[j].start..cands[j].stop]);
                    m = Some(m.map_or(v, |x| x.min(v)));
                }
            }
        }
        best[i] = m.map(|x| x + c.cost as i64);
        if c.stop == s.len() {
            if let Some(b) = best[i] {
                let v = b + d.conn(c.right, 0) + penalty(mode, &s[c.start..c.stop]);
                res = Some(res.map_or(v, |x: i64| x.min(v)));
            }
        }
    }
    res
}
pub fn sentences(text: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut from = 0;
    for (i, c) in text.char_indices() {
        if "。、\n\t".contains(c) {
            let e = i + c.len_utf8();
            v.push(&text[from..e]);
            from = e;
        }
    }
    if from < text.len() {
        v.push(&text[from..]);
    }
    v
}
pub fn gen_mode(g: &mut G) -> Mode {
    match g.below(4) {
        0 | 1 => Mode::Normal,
        2 => Mode::Decompose(Penalty::default()),
        _ => Mode::Decompose(Penalty {
            kanji_penalty_length_threshold: g.below(4),
            kanji_penalty_length_penalty: g.range(-2000, 3000) as i32,
            other_penalty_length_threshold: g.below(8),
            other_penalty_length_penalty: g.range(-2000, 3000) as i32,
        }),
    }
}
