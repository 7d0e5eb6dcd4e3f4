//! Oracles for the command line program (C30). It is compiled from lindera-cli/src/main.rs as a binary of this crate.
use crate::build_props::gen_src;
use crate::core_props::{kind_encode, KINDS};
use crate::filter_props::{chf, tkf};
use crate::frame::*;
use crate::model::{csv_row, gen_dict, word_row};
use crate::more_props::{gen_char_filter, gen_token_filter};
use crate::{expect, expect_eq};
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn families() -> Vec<Fam> {
    vec![
        Fam { prop: "C30", name: "cli_tokenize", cases: 220, what: "the program itself on random lines from a file or standard input, with random dictionaries, user dictionaries, modes, filters and formats: its output against the analysis of each line by the library", run: cli_tokenize },
        Fam { prop: "C30", name: "cli_errors", cases: 60, what: "the program with one setting wrong or unreadable input: a failure, showing at most the lines before", run: cli_errors },
        Fam { prop: "C30", name: "cli_build", cases: 60, what: "dictionaries and user dictionaries of every kind built by the program: the same files the library builds, at the same place", run: cli_build },
    ]
}
fn program() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("vxlindera")
}
struct Out {
    ok: bool,
    out: Vec<u8>,
    err: String,
}
fn run(args: &[String], stdin: Option<&Path>, dir: &Path) -> Out {
    let mut c = Command::new(program());
    c.args(args).current_dir(dir).env("RUST_BACKTRACE", "0");
    c.stdin(match stdin {
        Some(p) => Stdio::from(std::fs::File::open(p).unwrap()),
        None => Stdio::null(),
    });
    let o = c.output().expect("the program does not start");
    tick(1);
    Out { ok: o.status.success(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
const SPACE: &[&str] = &["", "", "", " ", "\t", "\u{3000}", "\r", "\u{a0}", "  ", "\u{2003}", "\u{85}"];
struct Setup {
    an: Analyzer,
    args: Vec<String>,
    d: crate::model::MDict,
    dir: PathBuf,
}
fn setup(g: &mut G) -> Setup {
    let mut d = gen_dict(g);
    if g.chance(1, 3) {
        // any number of details
        let n = 4 + g.below(9);
        for (i, w) in d.words.iter_mut().enumerate() {
            w.details = (0..n).map(|k| format!("{}d{}-{}{}", ["", "", "", " ", "*"][(i + 2 * k) % 5], i, k, ["", " x", "\"", "、", " ", "\u{3000}"][(i + k) % 6])).collect();
        }
    }
    note(format!("building dictionary {}", d.show()));
    let user = d.build_user();
    let dir = scratch();
    let path = d.compile(&dir);
    let sys = DictionaryLoader::load_dictionary(path.clone()).unwrap();
    let mut args: Vec<(usize, Vec<String>)> = vec![];
    let mut flag = |g: &mut G, short: &str, long: &str, v: String| {
        let a = match g.below(3) {
            0 => vec![format!("-{}", short), v],
            1 => vec![format!("--{}", long), v],
            _ => vec![format!("--{}={}", long, v)],
        };
        // the order of different flags does not matter
        let at = g.below(1000);
        args.push((at, a));
    };
    flag(g, "d", "dic-dir", path.to_str().unwrap().to_string());
    if let Some(u) = &user {
        let p = dir.join(["u.bin", "my user.bin", "辞書.bin"][g.below(3)]);
        std::fs::write(&p, bincode::serialize(u).unwrap()).unwrap();
        flag(g, "u", "user-dic-file", p.to_str().unwrap().to_string());
    }
    let mut mode = Mode::Normal;
    match g.below(3) {
        0 => {}
        1 => flag(g, "m", "mode", "normal".into()),
        _ => {
            mode = Mode::Decompose(Penalty::default());
            flag(g, "m", "mode", "decompose".into())
        }
    }
    let (nc, nt) = if g.chance(1, 6) { (g.below(9), g.below(9)) } else { (g.below(4), g.below(4)) };
    let cf: Vec<_> = (0..nc).map(|_| gen_char_filter(g)).collect();
    let tf: Vec<_> = (0..nt).map(|_| gen_token_filter(g)).collect();
    for (k, v) in &cf {
        flag(g, "C", "character-filter", format!("{}:{}", k, v));
    }
    for (k, v) in &tf {
        flag(g, "T", "token-filter", format!("{}:{}", k, v));
    }
    // filters stay in their order
    let filters = |s: &str| s.starts_with("-C") || s.starts_with("-T") || s.starts_with("--character-filter") || s.starts_with("--token-filter");
    let mut rest: Vec<(usize, Vec<String>)> = args.iter().filter(|a| !filters(&a.1[0])).cloned().collect();
    rest.sort();
    let cut = g.below(rest.len() + 1);
    let mut all: Vec<String> = rest[..cut].iter().flat_map(|a| a.1.clone()).collect();
    all.extend(args.iter().filter(|a| filters(&a.1[0])).flat_map(|a| a.1.clone()));
    all.extend(rest[cut..].iter().flat_map(|a| a.1.clone()));
    let an = Analyzer::new(cf.iter().map(|(k, v)| chf(k, v)).collect(), Tokenizer::new(sys, user, mode), tf.iter().map(|(k, v)| tkf(k, v)).collect());
    Setup { an, args: all, d, dir }
}
fn lines(g: &mut G, d: &crate::model::MDict) -> Vec<String> {
    (0..g.below(7))
        .map(|_| {
            let mut s = if g.chance(1, 20) { "\u{feff}".to_string() } else { SPACE[g.below(SPACE.len())].to_string() };
            for _ in 0..if g.chance(1, 20) { 400 } else { g.below(9) } {
                match g.below(6) {
                    0 | 1 if !d.words.is_empty() => s += &d.words[g.below(d.words.len())].surface,
                    2 => s += d.user.as_ref().map(|u| u[g.below(u.len())].surface.clone()).unwrap_or_default().as_str(),
                    3 => s.push(g.any_char()),
                    4 => s += SPACE[g.below(SPACE.len())],
                    _ => s.push(g.pickc(&['a', 'あ', '漢', 'カ', '1', '、', '。', '"', '\\', ',', '々', 'Ａ', '㌔', '\u{7}', '\0', '\u{feff}', '\u{200b}', '\u{1b}'])),
                }
            }
            (s + SPACE[g.below(SPACE.len())]).replace('\n', "")
        })
        .collect()
}
type Shown = Vec<Value>;
fn analysis(an: &Analyzer, line: &str) -> Result<Shown, String> {
    guard(|| {
        an.analyze(line.trim()).map(|ts| {
            ts.iter()
                .map(|t| json!({"text": t.text, "details": t.details, "byte_start": t.byte_start, "byte_end": t.byte_end, "word_id": serde_json::to_value(&t.word_id).unwrap()}))
                .collect()
        })
    })
    .and_then(|r| r.map_err(|e| e.to_string()))
}
fn show(fmt: &str, ts: &Shown) -> String {
    let text = |t: &Value| t["text"].as_str().unwrap().to_string();
    match fmt {
        "mecab" => {
            let mut s = String::new();
            for t in ts {
                s += &text(t);
                s.push('\t');
                for (i, d) in t["details"].as_array().unwrap().iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s += d.as_str().unwrap();
                }
                s.push('\n');
            }
            s + "EOS\n"
        }
        "wakati" if ts.is_empty() => String::new(),
        "wakati" => {
            let mut s = String::new();
            for (i, t) in ts.iter().enumerate() {
                s += if i > 0 { " " } else { "" };
                s += &text(t);
            }
            s + "\n"
        }
        _ => serde_json::to_string_pretty(&Value::Array(ts.clone())).unwrap() + "\n",
    }
}
fn cli_tokenize(g: &mut G) -> R {
    let s = setup(g);
    for _ in 0..6 {
        let fmt = ["mecab", "wakati", "json"][g.below(3)];
        let ls = lines(g, &s.d);
        let mut want = String::new();
        let mut ok = true;
        for l in &ls {
            match analysis(&s.an, l) {
                Ok(ts) => want += &show(fmt, &ts),
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            // whether the analysis itself succeeds is another property
            continue;
        }
        let open = g.chance(1, 3) && ls.last().map(|l| !l.is_empty()).unwrap_or(false);
        let input = ls.join("\n") + if open || ls.is_empty() { "" } else { "\n" };
        let file = s.dir.join("input.txt");
        std::fs::write(&file, &input).unwrap();
        let mut args = vec!["tokenize".to_string()];
        args.extend(s.args.clone());
        if fmt != "mecab" || g.chance(1, 2) {
            args.extend(if g.chance(1, 2) { vec!["-o".to_string(), fmt.to_string()] } else { vec![format!("--output-format={}", fmt)] });
        }
        let stdin = g.chance(1, 2);
        if !stdin {
            args.push("input.txt".into());
        }
        let d = format!("arguments {:?}{} lines {:?} dictionary {}", args, if stdin { " (standard input)" } else { "" }, ls, s.d.show());
        note(d.clone());
        let o = run(&args, if stdin { Some(&file) } else { None }, &s.dir);
        expect!("success", format!("{} error {}", d, o.err), "success", o.ok);
        let got = String::from_utf8_lossy(&o.out).into_owned();
        if fmt == "json" {
            let read = |t: &str| serde_json::Deserializer::from_str(t).into_iter::<Value>().collect::<Result<Vec<_>, _>>();
            let v = read(&got);
            expect!("json", format!("{} output {:?}", d, got), "JSON values", v.is_ok());
            let v = v.unwrap();
            expect_eq!("output", d.clone(), read(&want).unwrap(), v);
            let pretty: String = v.iter().map(|x| serde_json::to_string_pretty(x).unwrap() + "\n").collect();
            expect_eq!("pretty", d.clone(), pretty.split('\n').count(), got.split('\n').count());
        } else {
            expect_eq!("output", d.clone(), want, got);
        }
    }
    Ok(())
}
fn cli_errors(g: &mut G) -> R {
    let s = setup(g);
    let file = s.dir.join("input.txt");
    let mut args = vec!["tokenize".to_string()];
    args.extend(s.args.clone());
    let mut bytes: Vec<u8> = "aあ\n漢b\n".into();
    let mut shown = String::new();
    let mut input = Some("input.txt");
    let what = ["format", "file", "text", "filter", "mode", "kind", "user", "none", "directory"][g.below(9)];
    match what {
        "format" => args.extend(["-o".to_string(), ["mecabs", "", "JSON", "Wakati", "text", "xml", "MECAB", "Json", " json", "wakati\n", "MeCab"][g.below(11)].to_string()]),
        "file" => input = Some("missing.txt"),
        "text" => {
            let bad: [&[u8]; 4] = [b"\xff\xfe\n", b"a\xe3\x81\n", b"\xed\xa0\x80\n", b"ok \x80"];
            bytes.extend(bad[g.below(4)]);
            for l in ["aあ", "漢b"] {
                match analysis(&s.an, l) {
                    Ok(t) => shown += &show("mecab", &t),
                    Err(_) => return Ok(()),
                }
            }
        }
        "filter" => args.extend(match g.below(4) {
            0 => ["-C".to_string(), "mapping:{}".to_string()],
            1 => ["-T".into(), "nosuch:{}".into()],
            2 => ["-T".into(), "length:{".into()],
            _ => ["-C".into(), "unicode_normalize:{\"kind\":\"nfx\"}".into()],
        }),
        "mode" => args.extend(["-m".to_string(), ["search", "Normal", ""][g.below(3)].to_string()]),
        "kind" => args.extend(["-t".to_string(), ["ipa", "IPADIC", "jumandic"][g.below(3)].to_string()]),
        "user" => {
            if s.args.iter().any(|a| a.starts_with("-u") || a.starts_with("--user")) {
                return Ok(());
            }
            std::fs::write(s.dir.join("u.csv"), "a,x,y\n").unwrap();
            // a CSV file needs the kind
            args.extend(["-u".to_string(), ["u.csv", "missing.bin", "u"][g.below(3)].to_string()])
        }
        "none" => args = vec!["tokenize".into()],
        _ => args = vec!["tokenize".into(), "-d".into(), "nowhere".into()],
    }
    std::fs::write(&file, &bytes).unwrap();
    let stdin = what != "file" && g.chance(1, 2);
    if stdin {
        input = None;
    }
    args.extend(input.map(|s| s.to_string()));
    let d = format!("wrong: {} arguments {:?} input {:?} dictionary {}", what, args, String::from_utf8_lossy(&bytes), s.d.show());
    note(d.clone());
    let o = run(&args, if stdin { Some(&file) } else { None }, &s.dir);
    expect!("failure", d.clone(), "a failure", !o.ok);
    expect!("panic", format!("{} error {}", d, o.err), "an error message", !o.err.contains("panicked at"));
    let got = String::from_utf8_lossy(&o.out).into_owned();
    expect_eq!("output before the error", d, shown, got);
    Ok(())
}
fn tree(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default();
    v.sort();
    v
}
fn cli_build(g: &mut G) -> R {
    let o = run(&["list".to_string()], None, &std::env::temp_dir());
    let want: String = DictionaryKind::contained_variants().iter().map(|k| k.as_str().to_string() + "\n").collect();
    expect_eq!("list", "list".to_string(), (true, want), (o.ok, String::from_utf8_lossy(&o.out).into_owned()));
    let dir = scratch();
    let kind = KINDS[g.below(5)].clone();
    let b = DictionaryBuilderResolver::resolve_builder(kind.clone()).unwrap();
    let mut args = vec!["build".to_string()];
    if g.chance(1, 2) {
        let s = gen_src(g);
        let b = DictionaryBuilderResolver::resolve_builder(s.kind.clone()).unwrap();
        s.write(&dir.join("src"));
        args.extend([format!("--dic-type={}", s.kind.as_str()), "src".to_string(), "out".to_string()]);
        let bad = g.chance(1, 5);
        if bad {
            std::fs::remove_file(dir.join("src").join(["char.def", "unk.def", "matrix.def"][g.below(3)])).unwrap();
        }
        let d = format!("arguments {:?} sources {:?}{}", args, s.texts, if bad { " without one" } else { "" });
        note(d.clone());
        let r = b.build_dictionary(&dir.join("src"), &dir.join("direct")).is_ok();
        let o = run(&args, None, &dir);
        expect_eq!("built", format!("{} error {}", d, o.err), r, o.ok);
        if r {
            let names = |p: &str| tree(&dir.join(p)).into_iter().map(|x| x.0).collect::<Vec<_>>();
            expect_eq!("files", d.clone(), names("direct"), names("out"));
            s.check(&dir.join("out"), &d)?;
        }
        return Ok(());
    }
    let dict = gen_dict(g);
    let Some(u) = &dict.user else { return Ok(()) };
    let name = ["user.csv", "my user.csv", "a.b.csv", "user.txt", "user", "辞書.csv", ".user"][g.below(7)];
    let simple = g.chance(1, 2);
    let text: String = u.iter().map(|w| csv_row(&if simple { vec![w.surface.clone(), "x".into(), "y".into()] } else { word_row(w) }) + "\n").collect();
    std::fs::create_dir(dir.join("in")).unwrap();
    std::fs::write(dir.join("in").join(name), kind_encode(&DictionaryKind::UniDic, &text)).unwrap();
    let flag = ["-u", "--build-user-dic"][g.below(2)].to_string();
    let at = g.below(3);
    let mut rest = vec!["-t".to_string(), kind.as_str().to_string(), format!("in/{}", name), "dest".to_string()];
    rest.insert([0, 2, 4][at], flag);
    args.extend(rest);
    let d = format!("arguments {:?} rows {:?}", args, text);
    note(d.clone());
    let stem = Path::new(name).file_stem().unwrap().to_str().unwrap().to_string();
    let r = guard(|| b.build_user_dictionary(&dir.join("in").join(name), &dir.join("direct").join("one.bin")).map_err(|e| e.to_string()));
    let o = run(&args, None, &dir);
    expect_eq!("built", format!("{} error {}", d, o.err), matches!(r, Ok(Ok(()))), o.ok);
    if o.ok {
        let got = tree(&dir.join("dest"));
        expect_eq!("name", d.clone(), vec![format!("{}.bin", stem)], got.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        expect_eq!("content", d, tree(&dir.join("direct"))[0].1, got[0].1);
    }
    Ok(())
}
