import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
D = "lindera-dictionary-builder/src/"
BLD = [L("lindera-core"), L("lindera-dictionary"), L("lindera-dictionary-builder"), L("lindera-decompress"), L("lindera-ipadic-builder"), L("lindera-ipadic-neologd-builder"), L("lindera-unidic-builder"), L("lindera-ko-dic-builder"), L("lindera-cc-cedict-builder")]
ONLY = set(sys.argv[1:])
_mk = mk
def mk(id, *a):
    if not ONLY or id in ONLY: _mk(id, *a)
HEAD = r'''
#![allow(unused)]
use lindera_core::dictionary_builder::DictionaryBuilder;
use lindera_dictionary::DictionaryLoader;
use std::path::PathBuf;
fn tmp(n: &str) -> PathBuf { PathBuf::from(std::env::var("TMPDIR").unwrap()).join(n) }
fn put(dir: &PathBuf, files: &[(&str, &[u8])]) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, b) in files { std::fs::write(dir.join(n), b).unwrap(); }
}
const M: &[u8] = b"1 1\n0 0 0\n";
const C: &[u8] = b"DEFAULT 0 1 0\n";
const U: &[u8] = b"DEFAULT,0,0,1,a,b,c,d,e,f,g\n";
'''
mk("c29-neologd-raw", "C29", [("lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs", "            .normalize_details(true)\n", "")], BLD, HEAD + r'''
fn main() {
    let (i, o) = (tmp("in"), tmp("out"));
    put(&i, &[("matrix.def", M), ("char.def", C), ("unk.def", U), ("a.csv", "Ａ～Ｂ,0,0,1,a,b,c,d,e,f,あ―い,h,i\n".as_bytes())]);
    lindera_ipadic_neologd_builder::ipadic_neologd_builder::IpadicNeologdBuilder::new().build_dictionary(&i, &o).unwrap();
    let d = DictionaryLoader::load_dictionary(o).unwrap();
    assert_eq!(d.dict.find_surface("Ａ〜Ｂ").len(), 1);
    assert_eq!(d.word_details(0).unwrap()[6], "あ—い");
}
''', "an ipadic-neologd word or detail with one of the two characters that are normalized", "they are compiled as they are")

mk("c29-index-full", "C29", [(D + "dict.rs", """        wtr_words_idx
            .flush()
            .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
""", """        if let Err(err) = wtr_words_idx.flush() {
            warn!("failed to flush dict.wordsidx: {}", err);
        }
""")], BLD, HEAD + r'''
fn main() {
    for part in ["none", "dict.words", "dict.wordsidx", "dict.vals"] {
        let (i, o) = (tmp("in"), tmp(&format!("out-{}", part)));
        put(&i, &[("matrix.def", M), ("char.def", C), ("unk.def", U), ("a.csv", b"a,0,0,1,a,b,c,d,e,f,g,h,i\n")]);
        std::fs::create_dir_all(&o).unwrap();
        if part != "none" { std::os::unix::fs::symlink("/dev/full", o.join(part)).unwrap(); }
        let r = lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new().build_dictionary(&i, &o);
        assert_eq!(r.is_ok(), part == "none", "{}", part);
    }
}
''', "no space left while dict.wordsidx is written out", "the build reports success with an index cut short")

mk("c29-name-case", "C29", [(D + "dict.rs", """                        filenames.push(Path::new(input_dir).join(filename));
""", """                        // the same file may be listed twice on case-insensitive file systems
                        let path = Path::new(input_dir).join(filename);
                        let name = path.to_string_lossy().to_lowercase();
                        if !filenames.iter().any(|f| f.to_string_lossy().to_lowercase() == name) {
                            filenames.push(path);
                        }
""")], BLD, HEAD + r'''
fn main() {
    let (i, o) = (tmp("in"), tmp("out"));
    put(&i, &[("matrix.def", M), ("char.def", C), ("unk.def", U), ("A.csv", b"a,0,0,1,x\n"), ("a.csv", b"b,0,0,1,x\n"), ("b.csv", b"c,0,0,1,x\n")]);
    lindera_unidic_builder::unidic_builder::UnidicBuilder::new();
    std::fs::write(i.join("unk.def"), "DEFAULT,0,0,1,a,b,c,d,e,f\n").unwrap();
    lindera_unidic_builder::unidic_builder::UnidicBuilder::new().build_dictionary(&i, &o).unwrap();
    let d = DictionaryLoader::load_dictionary(o).unwrap();
    assert_eq!(["a", "b", "c"].map(|s| d.dict.find_surface(s).len()), [1, 1, 1]);
}
''', "two CSV files whose names differ in case only", "the words of the second file are left out")

mk("c29-chardef-utf8", "C29", [("lindera-ipadic-builder/src/ipadic_builder.rs", """        CharDefBuilderOptions::default()
            .encoding(ENCODING)
""", """        CharDefBuilderOptions::default()
""")], BLD, HEAD + r'''
fn main() {
    let (i, o) = (tmp("in"), tmp("out"));
    // the category 漢字 in EUC-JP
    let k: &[u8] = &[0xb4, 0xc1, 0xbb, 0xfa];
    let c = [C, k, b" 0 0 2\n0x4E00..0x9FFF ", k, b"\n"].concat();
    let u = [U, k, b",0,0,1,a,b,c,d,e,f,g\n"].concat();
    put(&i, &[("matrix.def", M), ("char.def", &c), ("unk.def", &u), ("a.csv", b"a,0,0,1,x\n")]);
    lindera_ipadic_builder::ipadic_builder::IpadicBuilder::new().build_dictionary(&i, &o).unwrap();
    let d = DictionaryLoader::load_dictionary(o).unwrap();
    let k = d.char_definitions.lookup_categories('漢')[0];
    assert_eq!(d.char_definitions.category_name(k), "漢字");
    assert_eq!(d.unknown_dictionary.lookup_word_ids(k).len(), 1);
}
''', "an ipadic source whose char.def has a category with a Japanese name", "the name is read in the wrong encoding, the category has no unknown-word entries")
