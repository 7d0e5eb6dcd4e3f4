import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
TOK = [L("lindera-core"), L("lindera-tokenizer"), L("lindera-dictionary"), L("lindera-decompress"), 'yada = "0.5"', 'bincode = "1"', 'byteorder = "1"']
DICT = r'''
use lindera_core::{character_definition::*, connection::*, dictionary::*, mode::*, prefix_dict::*, unknown_dictionary::*, word_entry::*};
#[allow(unused_imports)] use lindera_tokenizer::tokenizer::Tokenizer;
#[allow(dead_code)]
fn pd(words: &[(&str, i16, u16, u16)], sys: bool) -> PrefixDict<Vec<u8>> {
    let mut m: std::collections::BTreeMap<String, Vec<WordEntry>> = Default::default();
    for (i, w) in words.iter().enumerate() {
        m.entry(w.0.to_string()).or_default().push(WordEntry { word_id: WordId(i as u32, sys), word_cost: w.1, left_id: w.2, right_id: w.3 });
    }
    let (mut keys, mut vals, mut id): (Vec<(&[u8], u32)>, Vec<u8>, u32) = (vec![], vec![], 0);
    for (k, es) in &m {
        keys.push((k.as_bytes(), (id << 5) | es.len() as u32));
        id += es.len() as u32;
        for e in es { e.serialize(&mut vals).unwrap(); }
    }
    PrefixDict { da: yada::DoubleArray::new(yada::builder::DoubleArrayBuilder::build(&keys).unwrap()), vals_data: vals, is_system: sys }
}
#[allow(dead_code)]
fn mkdict(words: &[(&str, i16, u16, u16)], chars: &str, unk: &str, n: i16, costs: &[i16]) -> Dictionary {
    let mut cb = CharacterDefinitionsBuilder::default();
    cb.parse(chars).unwrap();
    let cd = cb.build();
    let ud = parse_unk(cd.categories(), unk, 5).unwrap();
    let mut mtx = vec![];
    for v in [n, n].iter().chain(costs) { mtx.extend(v.to_le_bytes()); }
    let (mut idx, mut wd) = (vec![], vec![]);
    for (i, w) in words.iter().enumerate() {
        let s = format!("d{}\0{}", i, w.0);
        idx.extend((wd.len() as u32).to_le_bytes());
        wd.extend((s.len() as u32).to_le_bytes());
        wd.extend(s.as_bytes());
    }
    Dictionary { dict: pd(words, true), cost_matrix: ConnectionCostMatrix::load(&mtx), char_definitions: cd, unknown_dictionary: ud, words_idx_data: idx.into(), words_data: wd.into() }
}
#[allow(dead_code)]
fn user(words: &[(&str, i16, u16, u16)]) -> UserDictionary {
    let (mut idx, mut wd) = (vec![], vec![]);
    for (i, w) in words.iter().enumerate() {
        idx.extend((wd.len() as u32).to_le_bytes());
        wd.extend(bincode::serialize(&vec![format!("u{}", i), w.0.to_string()]).unwrap());
    }
    UserDictionary { dict: pd(words, false), words_idx_data: idx, words_data: wd }
}
#[allow(dead_code)]
fn toks(t: &Tokenizer, s: &str) -> Vec<String> { t.tokenize(s).unwrap().iter().map(|x| x.text.to_string()).collect() }
const CH: &str = "DEFAULT 0 1 0\nKANJI 0 0 2\nALPHA 1 1 0\n0x4E00..0x9FAF KANJI\n0x0041..0x005A ALPHA\n0x0061..0x007A ALPHA\n";
const UNK: &str = "DEFAULT,0,0,3000,x\nKANJI,0,0,2000,x\nALPHA,0,0,1000,x";
'''
