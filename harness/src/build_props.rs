//! Oracles for building whole dictionaries (C29).
use crate::core_props::{kind_encode, normalize, EUC_ALPHA, KINDS};
use crate::frame::*;
use crate::model::csv_row;
use crate::{expect, expect_eq};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use std::path::{Path, PathBuf};

pub fn families() -> Vec<Fam> {
    vec![
        Fam { prop: "C29", name: "kind_builds", cases: 1200, what: "well-formed sources of every kind in the kind's encoding, split over any number of CSV files in directories of any name: built, loaded, and every category, unknown-word entry, cost and word compared", run: kind_builds },
        Fam { prop: "C29", name: "kind_user_builds", cases: 700, what: "user dictionaries of every kind built from CSV files: loaded directly and from the built file, every row compared", run: kind_user_builds },
        Fam { prop: "C29", name: "failing_writes", cases: 1200, what: "builds of dictionaries and user dictionaries in which one file cannot be created or written: an error, or a complete dictionary", run: failing_writes },
    ]
}

pub struct Src {
    pub kind: DictionaryKind,
    pub cats: Vec<(String, bool, bool, u32)>,
    pub ranges: Vec<(u32, u32, Vec<usize>)>,
    pub unk: Vec<(usize, u16, u16, i16)>,
    pub nf: usize,
    pub nb: usize,
    pub costs: Vec<i16>,
    /// the rows of each CSV file
    pub files: Vec<(String, Vec<Vec<String>>)>,
    pub texts: Vec<(String, String)>,
}
pub fn unk_fields(k: &DictionaryKind) -> usize {
    match k {
        DictionaryKind::UniDic | DictionaryKind::CcCedict => 10,
        DictionaryKind::KoDic => 12,
        _ => 11,
    }
}
fn word(g: &mut G, a: &[char], n: usize) -> String {
    (0..1 + g.below(n)).map(|_| a[g.below(a.len())]).collect()
}
pub fn gen_src(g: &mut G) -> Src {
    let kind = KINDS[g.below(5)].clone();
    let euc = kind == DictionaryKind::IPADIC;
    let alpha: &[char] = if euc { EUC_ALPHA } else { &['a', 'b', 'あ', '漢', '字', '가', '😀', '1', 'é', '～', '―', '—'] };
    let mut cats: Vec<(String, bool, bool, u32)> = vec![("DEFAULT".into(), g.chance(1, 2), g.chance(1, 2), g.below(5) as u32)];
    for _ in 0..g.below(4) {
        let n = format!("{}{}", ["", "漢字", "KANJI", "カ"][g.below(4)], cats.len());
        cats.push((n, g.chance(1, 2), g.chance(1, 2), g.below(5) as u32));
    }
    let mut ranges = vec![];
    for _ in 0..g.below(5) {
        let lo = if g.chance(1, 2) { g.range(0x3040, 0x30a0) } else { g.range(0x20, 0xd000) } as u32;
        let hi = lo + if g.chance(1, 3) { 0 } else { g.below(0x300) as u32 };
        ranges.push((lo, hi, (0..1 + g.below(2)).map(|_| g.below(cats.len())).collect::<Vec<_>>()));
    }
    let (nf, nb) = (1 + g.below(5), 1 + g.below(5));
    let costs: Vec<i16> = (0..nf * nb).map(|_| g.range(-32768, 32767) as i16).collect();
    let unk: Vec<(usize, u16, u16, i16)> = (0..1 + g.below(5)).map(|_| (g.below(cats.len()), g.below(nb) as u16, g.below(nf) as u16, g.range(-32768, 32767) as i16)).collect();
    let nd = 1 + g.below(6);
    let mut files: Vec<(String, Vec<Vec<String>>)> = vec![];
    let mut names = ["f.csv", "F.csv", "A b.csv", "名詞.csv", "x[1].csv", "0.csv", "a.b.csv", ".hidden.csv", "Noun.adj.csv", "f.f.csv", "10.csv", "9.csv"];
    for i in 0..names.len() {
        names.swap(i, g.below(i + 1));
    }
    let mut k = 0;
    let large = g.chance(1, 40);
    let most = if g.chance(1, 6) { 12 } else { 4 };
    for i in 0..1 + g.below(most) {
        let mut rows = vec![];
        for _ in 0..if i > 0 && g.chance(1, 4) { 0 } else if large { 700 } else { 1 + g.below(5) } {
            let mut r = vec![word(g, alpha, if large { 6 } else { 3 }), g.below(nb).to_string(), g.below(nf).to_string(), g.range(-32768, 32767).to_string()];
            r.extend((0..nd).map(|_| word(g, alpha, 3)));
            if large {
                r[0] += &k.to_string();
            }
            r[4] = format!("id{}{}", k, r[4]);
            k += 1;
            rows.push(r);
        }
        files.push((names[i].to_string(), rows));
    }
    let eol = if g.chance(1, 5) { "\r\n" } else { "\n" };
    let mut t = String::new();
    for (n, i, gr, l) in &cats {
        t += &format!("{} {} {} {}{}{}", n, *i as u8, *gr as u8, l, if g.chance(1, 4) { " # 漢字 日本" } else { "" }, eol);
    }
    for (lo, hi, cs) in &ranges {
        let ns: Vec<_> = cs.iter().map(|&c| cats[c].0.clone()).collect();
        t += &(if lo == hi { format!("0x{:04X} {}", lo, ns.join(" ")) } else { format!("0x{:04X}..0x{:04X} {}", lo, hi, ns.join(" ")) } + eol);
    }
    let mut texts = vec![("char.def".to_string(), t)];
    let mut t = String::new();
    for (c, l, r, w) in &unk {
        let mut f = vec![cats[*c].0.clone(), l.to_string(), r.to_string(), w.to_string()];
        while f.len() < unk_fields(&kind) {
            f.push(["*", "日本", "a"][g.below(3)].to_string());
        }
        t += &(f.join(",") + eol);
    }
    texts.push(("unk.def".into(), t));
    let mut t = format!("{} {}{}", nf, nb, eol);
    for f in 0..nf {
        for b in 0..nb {
            t += &format!("{} {} {}{}", f, b, costs[f * nb + b], eol);
        }
    }
    texts.push(("matrix.def".into(), t));
    for (n, rows) in &files {
        texts.push((n.clone(), rows.iter().map(|r| csv_row(r) + eol).collect()));
    }
    Src { kind, cats, ranges, unk, nf, nb, costs, files, texts }
}
impl Src {
    pub fn write(&self, dir: &Path) {
        std::fs::create_dir_all(dir).unwrap();
        for (n, t) in &self.texts {
            std::fs::write(dir.join(n), kind_encode(&self.kind, t)).unwrap();
        }
    }
    pub fn rows(&self) -> Vec<&Vec<String>> {
        self.files.iter().flat_map(|(_, r)| r.iter()).collect()
    }
    /// the compiled directory holds exactly what these sources say
    pub fn check(&self, out: &Path, d: &str) -> R {
        let x = match guard(|| DictionaryLoader::load_dictionary(out.to_path_buf()).map_err(|e| e.to_string())) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) | Err(e) => return fail("load", d.to_string(), "a dictionary", e),
        };
        let cd = &x.char_definitions;
        let all: Vec<String> = cd.categories().to_vec();
        let mut want: Vec<String> = self.cats.iter().map(|c| c.0.clone()).collect();
        let mut got = all.clone();
        want.sort();
        got.sort();
        expect_eq!("category names", d.to_string(), want, got);
        for (lo, hi, _) in self.ranges.iter().chain([&(0x20u32, 0x3042u32, vec![])]) {
            for p in [lo.wrapping_sub(1), *lo, (lo + hi) / 2, *hi, hi + 1] {
                let Some(c) = char::from_u32(p) else { continue };
                let mut want: Vec<String> = vec![];
                for (lo, hi, cs) in &self.ranges {
                    if *lo <= p && p <= *hi {
                        for &k in cs {
                            if !want.contains(&self.cats[k].0) {
                                want.push(self.cats[k].0.clone());
                            }
                        }
                    }
                }
                if want.is_empty() {
                    want.push("DEFAULT".into());
                }
                let got: Vec<String> = cd.lookup_categories(c).iter().map(|&k| cd.category_name(k).to_string()).collect();
                expect_eq!("categories", format!("{} char {:?}", d, c), want, got);
            }
        }
        for (i, n) in all.iter().enumerate() {
            let id = lindera_core::character_definition::CategoryId(i);
            let def = cd.lookup_definition(id);
            let want = self.cats.iter().find(|c| c.0 == *n).unwrap();
            expect_eq!("flags", format!("{} category {}", d, n), (want.1, want.2, want.3), (def.invoke, def.group, def.length));
            let want: Vec<(u16, u16, i16)> = self.unk.iter().filter(|u| self.cats[u.0].0 == *n).map(|u| (u.1, u.2, u.3)).collect();
            let got: Vec<(u16, u16, i16)> = x.unknown_dictionary.lookup_word_ids(id).iter().map(|&k| x.unknown_dictionary.word_entry(k)).map(|e| (e.left_id, e.right_id, e.word_cost)).collect();
            expect_eq!("unknown-word entries", format!("{} category {}", d, n), want, got);
        }
        for f in 0..self.nf {
            for b in 0..self.nb {
                expect_eq!("cost", format!("{} forward {} backward {}", d, f, b), self.costs[f * self.nb + b] as i32, x.cost_matrix.cost(f as u32, b as u32));
            }
        }
        let norm = matches!(self.kind, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd);
        let n = |s: &String| if norm { normalize(s) } else { s.clone() };
        let rows = self.rows();
        let mut by: std::collections::BTreeMap<String, Vec<&Vec<String>>> = Default::default();
        for r in &rows {
            by.entry(n(&r[0])).or_default().push(r);
        }
        for (s, rs) in by {
            let mut want: Vec<(i16, u16, u16, Option<Vec<String>>)> =
                rs.iter().map(|q| (q[3].parse().unwrap(), q[1].parse().unwrap(), q[2].parse().unwrap(), Some(q[4..].iter().map(|x| n(x)).collect()))).collect();
            let mut got: Vec<(i16, u16, u16, Option<Vec<String>>)> = x.dict.find_surface(&s).iter().map(|e| (e.word_cost, e.left_id, e.right_id, x.word_details(e.word_id.0 as usize))).collect();
            want.sort();
            got.sort();
            tick(1);
            expect_eq!("words", format!("{} surface {:?}", d, s), want, got);
        }
        expect_eq!("number of words", d.to_string(), None, x.word_details(rows.len()));
        Ok(())
    }
}
fn kind_user_builds(g: &mut G) -> R {
    // more than 31 rows of one surface are a finding of its own (C08)
    g.case = g.case.max(1);
    crate::core_props::user_dict(g)
}
const DIRS: &[&str] = &["src", "a[1]", "x*y", "what?", "日本語", "two words", "[!a]", "{a,b}", "a.csv", "~", "[", "**"];
fn kind_builds(g: &mut G) -> R {
    let s = gen_src(g);
    let dir = scratch();
    let src = dir.join(DIRS[if g.case < DIRS.len() { g.case } else { g.below(DIRS.len()) }]);
    s.write(&src);
    if g.chance(1, 3) {
        // not part of the lexicon
        std::fs::write(src.join(["words.txt", "f.csv.bak", "csv", "README"][g.below(4)]), "zzz,0,0,0,no\n").unwrap();
    }
    let out = dir.join(["out", "deep/er/out", "o[1]"][g.below(3)]);
    let again = g.chance(1, 4);
    let d = format!("{:?} in {:?} to {:?}{} sources {:?}", s.kind, src.file_name().unwrap(), out.strip_prefix(&dir).unwrap(), if again { " (over a former build)" } else { "" }, s.texts);
    note(d.clone());
    if again {
        // what an earlier build left does not matter
        std::fs::create_dir_all(&out).unwrap();
        for f in PARTS {
            std::fs::write(out.join(f), vec![7u8; 30000]).unwrap();
        }
    }
    let b = DictionaryBuilderResolver::resolve_builder(s.kind.clone()).unwrap();
    let r = guard(|| b.build_dictionary(&src, &out).map_err(|e| e.to_string()));
    expect_eq!("build", d.clone(), Ok(Ok(())), r);
    s.check(&out, &d)
}
const PARTS: [&str; 7] = ["char_def.bin", "unk.bin", "matrix.mtx", "dict.da", "dict.vals", "dict.words", "dict.wordsidx"];
fn failing_writes(g: &mut G) -> R {
    let s = gen_src(g);
    let dir = scratch();
    let (src, out) = (dir.join("src"), dir.join("out"));
    s.write(&src);
    std::fs::create_dir_all(&out).unwrap();
    let user = g.chance(1, 5);
    let part: PathBuf = out.join(if user { "user.bin" } else { PARTS[g.below(7)] });
    let how = g.below(4);
    let how = match how {
        0 => {
            std::fs::create_dir(&part).unwrap();
            "is a directory"
        }
        1 => "is written",
        _ => {
            std::os::unix::fs::symlink("/dev/full", &part).unwrap();
            "lies on a full device"
        }
    };
    let d = format!("{:?}: {:?} {} sources {:?}", s.kind, part.file_name().unwrap(), how, s.texts);
    note(d.clone());
    let b = DictionaryBuilderResolver::resolve_builder(s.kind.clone()).unwrap();
    let r = if user {
        let csv = dir.join("user.csv");
        std::fs::write(&csv, "語,名詞,ゴ\n").unwrap();
        guard(|| b.build_user_dictionary(&csv, &part).map_err(|e| e.to_string()))
    } else {
        guard(|| b.build_dictionary(&src, &out).map_err(|e| e.to_string()))
    };
    tick(1);
    match (how, r) {
        (_, Err(e)) => fail("panic", d, "an error or success", e),
        ("is written", Ok(Err(e))) => fail("build", d, "built", e),
        ("is written", Ok(Ok(()))) => {
            if user {
                return Ok(());
            }
            s.check(&out, &d)
        }
        (_, Ok(Ok(()))) => fail("success without the file", d, "an error", "success"),
        (_, Ok(Err(_))) => Ok(()),
    }
}
#[allow(unused)]
fn unused() -> R {
    expect!("", String::new(), "", true);
    Ok(())
}
