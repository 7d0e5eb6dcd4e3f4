@unit config
@include prelude.inc
@type serde_json::Value => Value
@type Box<dyn DictionaryBuilder> => BoxBuilder
@type Cow<'static, [u8]> => Vec<u8>
@type PrefixDict<Vec<u8>> => PrefixDict
@call fs::read => vx_fs_read
@call Box::new => vx_box
@call Cow::Owned => vx_owned
@call de::Error::unknown_field => vx_err_field
@call de::Error::duplicate_field => vx_err_named
@call de::Error::missing_field => vx_err_named
@call de::Error::invalid_length => vx_err_length
@method unwrap_or => unwrap_or
@known @streq @strpat new
verus! {
@include strings.inc
@include json.inc
// ---- files -----------------------------------------------------------------------------------------------
// A path, and what reading it gives (nothing when it cannot be read). The files are the same for all reads of
// one call.
#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
pub struct OsStr { x: u8 }
pub type Path = PathBuf;
pub uninterp spec fn pjoin(p: PathBuf, name: Seq<char>) -> PathBuf;
pub uninterp spec fn file(p: PathBuf) -> Option<Seq<u8>>;
// the extension, as text
pub uninterp spec fn pext(p: PathBuf) -> Option<Seq<char>>;
impl OsStr {
    pub uninterp spec fn tx(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures (r is Some) == (self.tx() is Some), r is Some ==> r->0@ == self.tx()->0 { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn join(&self, name: &str) -> (r: PathBuf) ensures r == pjoin(*self, name@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &PathBuf) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is None ==> pext(*self) is None, r is Some ==> r->0.tx() == pext(*self) { unimplemented!() }
}
pub trait VxPathArg { spec fn pv(&self) -> PathBuf; }
impl VxPathArg for PathBuf { open spec fn pv(&self) -> PathBuf { *self } }
impl<'a> VxPathArg for &'a PathBuf { open spec fn pv(&self) -> PathBuf { **self } }
#[verifier::external_body]
pub fn vx_fs_read<P: VxPathArg>(p: P) -> (r: Result<Vec<u8>, LinderaError>) ensures r is Ok <==> file(p.pv()) is Some, r is Ok ==> r->Ok_0@ == file(p.pv())->0 { unimplemented!() }
pub fn vx_owned(v: Vec<u8>) -> (r: Vec<u8>) ensures r == v { v }
// ---- the parts of a dictionary, by the contracts of their units ---------------------------------------------
#[verifier::external_body] pub struct PrefixDict { x: u8 }
#[verifier::external_body] pub struct ConnectionCostMatrix { x: u8 }
#[verifier::external_body] pub struct CharacterDefinitions { x: u8 }
#[verifier::external_body] pub struct UnknownDictionary { x: u8 }
pub uninterp spec fn pd_of(da: Seq<u8>, vals: Seq<u8>) -> PrefixDict;
pub uninterp spec fn cm_of(d: Seq<u8>) -> ConnectionCostMatrix;
pub uninterp spec fn cd_of(d: Seq<u8>) -> Option<CharacterDefinitions>;
pub uninterp spec fn ud_of(d: Seq<u8>) -> Option<UnknownDictionary>;
pub uninterp spec fn user_of(d: Seq<u8>) -> Option<UserDictionary>;
// the user dictionary that a builder makes of a CSV file (C08)
pub uninterp spec fn user_built(k: DictionaryKind, csv: PathBuf) -> Option<UserDictionary>;
// the dictionary compiled into the program for a kind, if any
pub uninterp spec fn contained(k: DictionaryKind) -> Option<Dictionary>;
impl PrefixDict { #[verifier::external_body] pub fn from_static_slice(da: &[u8], vals: &[u8]) -> (r: PrefixDict) ensures r == pd_of(da@, vals@) { unimplemented!() } }
impl ConnectionCostMatrix { #[verifier::external_body] pub fn load(d: &[u8]) -> (r: ConnectionCostMatrix) ensures r == cm_of(d@) { unimplemented!() } }
impl CharacterDefinitions { #[verifier::external_body] pub fn load(d: &[u8]) -> (r: LinderaResult<CharacterDefinitions>) ensures r is Ok <==> cd_of(d@) is Some, r is Ok ==> r->Ok_0 == cd_of(d@)->0 { unimplemented!() } }
impl UnknownDictionary { #[verifier::external_body] pub fn load(d: &[u8]) -> (r: LinderaResult<UnknownDictionary>) ensures r is Ok <==> ud_of(d@) is Some, r is Ok ==> r->Ok_0 == ud_of(d@)->0 { unimplemented!() } }
@item struct lindera-core/src/dictionary.rs Dictionary
@end
@item struct lindera-core/src/dictionary.rs UserDictionary
@end
#[verifier::external_body]
pub fn vx_user_of(d: &[u8]) -> (r: Result<UserDictionary, LinderaError>) ensures r is Ok <==> user_of(d@) is Some, r is Ok ==> r->Ok_0 == user_of(d@)->0 { unimplemented!() }
@item fn lindera-core/src/dictionary.rs UserDictionary::load
@ret r
@replace bincode::deserialize($d) ==> vx_user_of($d)
@spec
  ensures r is Ok <==> user_of(user_dict_data@) is Some, r is Ok ==> r->Ok_0 == user_of(user_dict_data@)->0
@end
@item enum lindera-dictionary/src/lib.rs DictionaryKind derive(Clone, Copy)
@end
@item struct lindera-dictionary/src/lib.rs DictionaryConfig
@end
@item struct lindera-dictionary/src/lib.rs UserDictionaryConfig
@end
// a boxed dictionary builder
#[verifier::external_body] pub struct BoxBuilder { x: u8 }
impl BoxBuilder {
    pub uninterp spec fn kind(&self) -> DictionaryKind;
    #[verifier::external_body] pub fn build_user_dict(&self, p: &PathBuf) -> (r: LinderaResult<UserDictionary>) ensures r is Ok <==> user_built(self.kind(), *p) is Some, r is Ok ==> r->Ok_0 == user_built(self.kind(), *p)->0 { unimplemented!() }
}
pub trait VxBuilder: Sized { spec fn k() -> DictionaryKind; }
#[verifier::external_body] pub fn vx_box<B: VxBuilder>(b: B) -> (r: BoxBuilder) ensures r.kind() == B::k() { unimplemented!() }
pub struct IpadicBuilder {}
pub struct IpadicNeologdBuilder {}
pub struct UnidicBuilder {}
pub struct KoDicBuilder {}
pub struct CcCedictBuilder {}
impl VxBuilder for IpadicBuilder { open spec fn k() -> DictionaryKind { DictionaryKind::IPADIC } }
impl VxBuilder for IpadicNeologdBuilder { open spec fn k() -> DictionaryKind { DictionaryKind::IPADICNEologd } }
impl VxBuilder for UnidicBuilder { open spec fn k() -> DictionaryKind { DictionaryKind::UniDic } }
impl VxBuilder for KoDicBuilder { open spec fn k() -> DictionaryKind { DictionaryKind::KoDic } }
impl VxBuilder for CcCedictBuilder { open spec fn k() -> DictionaryKind { DictionaryKind::CcCedict } }
impl IpadicBuilder { pub fn new() -> Self { IpadicBuilder {} } }
impl IpadicNeologdBuilder { pub fn new() -> Self { IpadicNeologdBuilder {} } }
impl UnidicBuilder { pub fn new() -> Self { UnidicBuilder {} } }
impl KoDicBuilder { pub fn new() -> Self { KoDicBuilder {} } }
impl CcCedictBuilder { pub fn new() -> Self { CcCedictBuilder {} } }
@item struct lindera-dictionary/src/lib.rs DictionaryBuilderResolver
@end
@item fn lindera-dictionary/src/lib.rs DictionaryBuilderResolver::resolve_builder
@ret r
@spec
  ensures r is Ok, r->Ok_0.kind() == dictionary_type
@end
// the dictionary a directory of compiled files holds
pub open spec fn dict_files(p: PathBuf) -> bool {
    &&& file(pjoin(p, "dict.da"@)) is Some && file(pjoin(p, "dict.vals"@)) is Some && file(pjoin(p, "matrix.mtx"@)) is Some
    &&& file(pjoin(p, "char_def.bin"@)) is Some && cd_of(file(pjoin(p, "char_def.bin"@))->0) is Some
    &&& file(pjoin(p, "unk.bin"@)) is Some && ud_of(file(pjoin(p, "unk.bin"@))->0) is Some
    &&& file(pjoin(p, "dict.wordsidx"@)) is Some && file(pjoin(p, "dict.words"@)) is Some
}
pub open spec fn is_dict(p: PathBuf, d: Dictionary) -> bool {
    &&& d.dict == pd_of(file(pjoin(p, "dict.da"@))->0, file(pjoin(p, "dict.vals"@))->0)
    &&& d.cost_matrix == cm_of(file(pjoin(p, "matrix.mtx"@))->0)
    &&& d.char_definitions == cd_of(file(pjoin(p, "char_def.bin"@))->0)->0
    &&& d.unknown_dictionary == ud_of(file(pjoin(p, "unk.bin"@))->0)->0
    &&& d.words_idx_data@ == file(pjoin(p, "dict.wordsidx"@))->0 && d.words_data@ == file(pjoin(p, "dict.words"@))->0
}
@item struct lindera-dictionary/src/lib.rs DictionaryLoader
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::read_file
@ret r
@spec
  ensures r is Ok <==> file(path) is Some, r is Ok ==> r->Ok_0@ == file(path)->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::prefix_dict
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "dict.da"@)) is Some && file(pjoin(dir, "dict.vals"@)) is Some,
    r is Ok ==> r->Ok_0 == pd_of(file(pjoin(dir, "dict.da"@))->0, file(pjoin(dir, "dict.vals"@))->0)
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::connection
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "matrix.mtx"@)) is Some, r is Ok ==> r->Ok_0 == cm_of(file(pjoin(dir, "matrix.mtx"@))->0)
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::char_def
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "char_def.bin"@)) is Some && cd_of(file(pjoin(dir, "char_def.bin"@))->0) is Some, r is Ok ==> r->Ok_0 == cd_of(file(pjoin(dir, "char_def.bin"@))->0)->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::unknown_dict
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "unk.bin"@)) is Some && ud_of(file(pjoin(dir, "unk.bin"@))->0) is Some, r is Ok ==> r->Ok_0 == ud_of(file(pjoin(dir, "unk.bin"@))->0)->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::words_idx_data
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "dict.wordsidx"@)) is Some, r is Ok ==> r->Ok_0@ == file(pjoin(dir, "dict.wordsidx"@))->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::words_data
@ret r
@spec
  ensures r is Ok <==> file(pjoin(dir, "dict.words"@)) is Some, r is Ok ==> r->Ok_0@ == file(pjoin(dir, "dict.words"@))->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_dictionary
@ret r
@spec
  ensures r is Ok <==> dict_files(path), r is Ok ==> is_dict(path, r->Ok_0)
@end
// the crates of the contained dictionaries
#[verifier::external_body] pub fn vx_contained(k: DictionaryKind) -> (r: Result<Dictionary, LinderaError>) ensures r is Ok <==> contained(k) is Some, r is Ok ==> r->Ok_0 == contained(k)->0 { unimplemented!() }
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_dictionary_from_kind
@ret r
@replace lindera_ipadic::load_dictionary() ==> vx_contained(DictionaryKind::IPADIC)
@replace lindera_ipadic_neologd::load_dictionary() ==> vx_contained(DictionaryKind::IPADICNEologd)
@replace lindera_unidic::load_dictionary() ==> vx_contained(DictionaryKind::UniDic)
@replace lindera_ko_dic::load_dictionary() ==> vx_contained(DictionaryKind::KoDic)
@replace lindera_cc_cedict::load_dictionary() ==> vx_contained(DictionaryKind::CcCedict)
@spec
  ensures r is Ok ==> contained(kind) is Some && r->Ok_0 == contained(kind)->0, contained(kind) is Some ==> r is Ok
@end
// the dictionary of a configuration: the contained one of the kind, if a kind is given, else that of the directory
pub open spec fn conf_ok(c: DictionaryConfig) -> bool { if c.kind is Some { contained(c.kind->0) is Some } else { c.path is Some && dict_files(c.path->0) } }
pub open spec fn conf_dict(c: DictionaryConfig, d: Dictionary) -> bool { if c.kind is Some { d == contained(c.kind->0)->0 } else { is_dict(c.path->0, d) } }
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_dictionary_from_config
@ret r
@spec
  ensures r is Ok <==> conf_ok(dictionary_config), r is Ok ==> conf_dict(dictionary_config, r->Ok_0)
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_user_dictionary_from_csv
@ret r
@spec
  ensures r is Ok <==> user_built(kind, path) is Some, r is Ok ==> r->Ok_0 == user_built(kind, path)->0
@end
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_user_dictionary_from_bin
@ret r
@spec
  ensures r is Ok <==> file(path) is Some && user_of(file(path)->0) is Some, r is Ok ==> r->Ok_0 == user_of(file(path)->0)->0
@end
// the user dictionary of a configuration: built from CSV with the kind given, or read from its compiled form
pub open spec fn conf_user(c: UserDictionaryConfig) -> Option<UserDictionary> {
    if pext(c.path) == Some("csv"@) { if c.kind is Some { user_built(c.kind->0, c.path) } else { None } }
    else if pext(c.path) == Some("bin"@) { if file(c.path) is Some { user_of(file(c.path)->0) } else { None } }
    else { None }
}
@item fn lindera-dictionary/src/lib.rs DictionaryLoader::load_user_dictionary_from_config
@ret r
@spec
  ensures r is Ok <==> conf_user(dictionary_config) is Some, r is Ok ==> r->Ok_0 == conf_user(dictionary_config)->0
@at start
  proof { reveal_strlit("csv"); reveal_strlit("bin"); assert("csv"@[0] != "bin"@[0]); }
@end
// ---- tokenizers --------------------------------------------------------------------------------------------
@item struct lindera-core/src/mode.rs Penalty derive(Clone, Copy)
@end
@item enum lindera-core/src/mode.rs Mode
@end
@item struct lindera-tokenizer/src/tokenizer.rs TokenizerConfig
@end
@item struct lindera-tokenizer/src/tokenizer.rs Tokenizer
@end
@item fn lindera-tokenizer/src/tokenizer.rs TokenizerConfig::default
@impl impl TokenizerConfig
@ret r
@spec
  ensures r.dictionary.kind is None, r.dictionary.path is None, r.user_dictionary is None, r.mode is Normal
@end
@item fn lindera-tokenizer/src/tokenizer.rs Tokenizer::new
@ret r
@spec
  ensures r.dictionary == dictionary, r.user_dictionary == user_dictionary, r.mode == mode
@end
pub open spec fn tconf_ok(c: TokenizerConfig) -> bool { conf_ok(c.dictionary) && (c.user_dictionary is Some ==> conf_user(c.user_dictionary->0) is Some) }
pub open spec fn is_tok(c: TokenizerConfig, t: Tokenizer) -> bool {
    &&& conf_dict(c.dictionary, t.dictionary) && t.mode == c.mode
    &&& t.user_dictionary == (if c.user_dictionary is Some { conf_user(c.user_dictionary->0) } else { None })
}
@item fn lindera-tokenizer/src/tokenizer.rs Tokenizer::from_config
@ret r
@spec
  ensures r is Ok <==> tconf_ok(config), r is Ok ==> is_tok(config, r->Ok_0)
@end
// ---- tokenizer settings --------------------------------------------------------------------------------------
// the fields of an object in the order written, and what serde reads from them
pub type Ent = (Seq<char>, Value);
pub uninterp spec fn entries(v: Value) -> Seq<Ent>;
@item enum lindera-tokenizer/src/tokenizer.rs Field
@end
pub open spec fn field(k: Seq<char>) -> Option<Field> {
    if k == "dictionary"@ { Some(Field::Dictionary) } else if k == "user_dictionary"@ { Some(Field::UserDictionary) } else if k == "mode"@ { Some(Field::Mode) } else { None }
}
@item fn lindera-tokenizer/src/tokenizer.rs FieldVisitor::visit_str
@impl impl FieldVisitor
@sig (self, value: &str) -> (r: Result<Field, LinderaError>)
@spec
  ensures r is Ok <==> field(value@) is Some, r is Ok ==> r->Ok_0 == field(value@)->0
@at start
  proof { reveal_strlit("dictionary"); reveal_strlit("user_dictionary"); reveal_strlit("mode"); }
@end
pub fn vx_err_field(n: &str, fs: u8) -> (r: LinderaError) { vx_err() }
pub fn vx_err_named(n: &str) -> (r: LinderaError) { vx_err() }
pub fn vx_err_length<T>(n: usize, v: &T) -> (r: LinderaError) { vx_err() }
// the list of field names is only shown in messages
pub const FIELDS: u8 = 0;
pub struct FieldVisitor {}
pub struct DurationVisitor {}
// trusted: an optional value is absent when it is null (serde)
pub open spec fn read_opt<T>(v: Value) -> Option<Option<T>> { if v == jnull() { Some(None) } else if jread::<T>(v) is Some { Some(Some(jread::<T>(v)->0)) } else { None } }
pub trait VxRead: Sized { spec fn rd(v: Value) -> Option<Self>; }
impl VxRead for DictionaryConfig { open spec fn rd(v: Value) -> Option<Self> { jread::<Self>(v) } }
impl VxRead for UserDictionaryConfig { open spec fn rd(v: Value) -> Option<Self> { jread::<Self>(v) } }
impl VxRead for Mode { open spec fn rd(v: Value) -> Option<Self> { jread::<Self>(v) } }
impl VxRead for Option<UserDictionaryConfig> { open spec fn rd(v: Value) -> Option<Self> { read_opt::<UserDictionaryConfig>(v) } }
// trusted: serde's access to the fields of an object; keys are read by `FieldVisitor`
#[verifier::external_body] pub struct VxMap { x: u8 }
impl VxMap {
    // the fields not asked for yet; the value of the last key
    pub uninterp spec fn rest(&self) -> Seq<Ent>;
    pub uninterp spec fn value(&self) -> Value;
    #[verifier::external_body]
    pub fn next_key(&mut self) -> (r: Result<Option<Field>, LinderaError>)
        ensures
            old(self).rest().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> (r is Ok <==> field(old(self).rest()[0].0) is Some),
            old(self).rest().len() > 0 && r is Ok ==> r->Ok_0 == field(old(self).rest()[0].0) && final(self).rest() == old(self).rest().skip(1) && final(self).value() == old(self).rest()[0].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value<T: VxRead>(&mut self) -> (r: Result<T, LinderaError>)
        ensures r is Ok <==> T::rd(old(self).value()) is Some, r is Ok ==> r->Ok_0 == T::rd(old(self).value())->0, final(self).rest() == old(self).rest(),
    { unimplemented!() }
}
#[verifier::external_body] pub struct VxSeq { x: u8 }
impl VxSeq {
    pub uninterp spec fn rest(&self) -> Seq<Value>;
    #[verifier::external_body]
    pub fn next_element<T: VxRead>(&mut self) -> (r: Result<Option<T>, LinderaError>)
        ensures
            old(self).rest().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> (r is Ok <==> T::rd(old(self).rest()[0]) is Some),
            old(self).rest().len() > 0 && r is Ok ==> r->Ok_0 is Some && r->Ok_0->0 == T::rd(old(self).rest()[0])->0 && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
// where a field is
pub open spec fn at_key(es: Seq<Ent>, f: Field, i: int) -> bool { 0 <= i < es.len() && field(es[i].0) == Some(f) }
pub open spec fn has_key(es: Seq<Ent>, f: Field) -> bool { exists|i: int| at_key(es, f, i) }
pub open spec fn key_value(es: Seq<Ent>, f: Field) -> Value { es[choose|i: int| at_key(es, f, i)].1 }
pub open spec fn readable(e: Ent) -> bool {
    match field(e.0) { Some(Field::Dictionary) => jread::<DictionaryConfig>(e.1) is Some, Some(Field::UserDictionary) => read_opt::<UserDictionaryConfig>(e.1) is Some, Some(Field::Mode) => jread::<Mode>(e.1) is Some, None => false }
}
// every field known, readable and given once; the dictionary given
pub open spec fn once(es: Seq<Ent>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> readable(#[trigger] es[i])
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> field((#[trigger] es[i]).0) != field((#[trigger] es[j]).0)
}
pub open spec fn settings_ok(es: Seq<Ent>) -> bool { once(es) && has_key(es, Field::Dictionary) }
pub open spec fn is_settings(es: Seq<Ent>, c: TokenizerConfig) -> bool {
    &&& c.dictionary == jread::<DictionaryConfig>(key_value(es, Field::Dictionary))->0
    &&& c.user_dictionary == (if has_key(es, Field::UserDictionary) { read_opt::<UserDictionaryConfig>(key_value(es, Field::UserDictionary))->0 } else { None })
    &&& c.mode == (if has_key(es, Field::Mode) { jread::<Mode>(key_value(es, Field::Mode))->0 } else { Mode::Normal })
}
@item fn lindera-tokenizer/src/tokenizer.rs DurationVisitor::visit_map
@impl impl DurationVisitor
@sig (self, vx_map: VxMap) -> (r: Result<TokenizerConfig, LinderaError>)
@spec
  ensures r is Ok <==> settings_ok(vx_map.rest()), r is Ok ==> is_settings(vx_map.rest(), r->Ok_0)
@at start
  let mut map = vx_map;
  let ghost es = map.rest();
  let ghost mut n = 0int;
@loop 0
  invariant
    es == vx_map.rest(), 0 <= n <= es.len(), map.rest() == es.skip(n), n < es.len() ==> map.rest()[0] == es[n], forall|i: int| 0 <= i < n ==> readable(#[trigger] es[i]),
    forall|i: int, j: int| 0 <= i < j < n ==> field((#[trigger] es[i]).0) != field((#[trigger] es[j]).0),
    forall|i: int| 0 <= i < n && field((#[trigger] es[i]).0) == Some(Field::Dictionary) ==> dictionary is Some && dictionary->0 == jread::<DictionaryConfig>(es[i].1)->0,
    forall|i: int| 0 <= i < n && field((#[trigger] es[i]).0) == Some(Field::UserDictionary) ==> user_dictionary is Some && user_dictionary->0 == read_opt::<UserDictionaryConfig>(es[i].1)->0,
    forall|i: int| 0 <= i < n && field((#[trigger] es[i]).0) == Some(Field::Mode) ==> mode is Some && mode->0 == jread::<Mode>(es[i].1)->0,
    dictionary is Some ==> exists|i: int| 0 <= i < n && #[trigger] at_key(es, Field::Dictionary, i),
    user_dictionary is Some ==> exists|i: int| 0 <= i < n && #[trigger] at_key(es, Field::UserDictionary, i),
    mode is Some ==> exists|i: int| 0 <= i < n && #[trigger] at_key(es, Field::Mode, i),
  ensures n == es.len(),
  decreases es.len() - n
@at loop 0 body_start
  proof { assert(es.skip(n)[0] == es[n]); assert(at_key(es, key, n)); assert(es.skip(n).skip(1) =~= es.skip(n + 1)); }
@at loop 0 body_end
  proof { n = n + 1; }
@end
@item fn lindera-tokenizer/src/tokenizer.rs DurationVisitor::visit_seq
@impl impl DurationVisitor
@sig (self, mut seq: VxSeq) -> (r: Result<TokenizerConfig, LinderaError>)
@spec
  ensures
    r is Ok <==> seq.rest().len() > 0 && jread::<DictionaryConfig>(seq.rest()[0]) is Some && (seq.rest().len() > 1 ==> read_opt::<UserDictionaryConfig>(seq.rest()[1]) is Some) && (seq.rest().len() > 2 ==> jread::<Mode>(seq.rest()[2]) is Some),
    r is Ok ==> r->Ok_0.dictionary == jread::<DictionaryConfig>(seq.rest()[0])->0
      && r->Ok_0.user_dictionary == (if seq.rest().len() > 1 { read_opt::<UserDictionaryConfig>(seq.rest()[1])->0 } else { None })
      && r->Ok_0.mode == (if seq.rest().len() > 2 { jread::<Mode>(seq.rest()[2])->0 } else { Mode::Normal })
@end
// ---- analyzers --------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct BoxCharacterFilter { x: u8 }
#[verifier::external_body] pub struct BoxTokenFilter { x: u8 }
pub struct CharacterFilterLoader {}
pub struct TokenFilterLoader {}
// the filter the loader makes of a kind and its settings, if it can (unit loader)
pub uninterp spec fn cf_made(kind: Seq<char>, args: Value) -> Option<BoxCharacterFilter>;
pub uninterp spec fn tf_made(kind: Seq<char>, args: Value) -> Option<BoxTokenFilter>;
impl CharacterFilterLoader { #[verifier::external_body] pub fn load_from_value(kind: &str, v: &Value) -> (r: LinderaResult<BoxCharacterFilter>) ensures r is Ok <==> cf_made(kind@, *v) is Some, r is Ok ==> r->Ok_0 == cf_made(kind@, *v)->0 { unimplemented!() } }
impl TokenFilterLoader { #[verifier::external_body] pub fn load_from_value(kind: &str, v: &Value) -> (r: LinderaResult<BoxTokenFilter>) ensures r is Ok <==> tf_made(kind@, *v) is Some, r is Ok ==> r->Ok_0 == tf_made(kind@, *v)->0 { unimplemented!() } }
// an object, and reading tokenizer settings back from the bytes it is written as: serde_json writes the fields
// and hands them to `visit_map` again
#[verifier::external_body] pub struct JMap { x: u8 }
impl JMap { pub uninterp spec fn entries(&self) -> Seq<Ent>; }
pub uninterp spec fn jobj(v: Value) -> Option<JMap>;
pub uninterp spec fn jtext(b: Seq<u8>) -> Seq<Ent>;
impl Value { #[verifier::external_body] pub fn as_object(&self) -> (r: Option<&JMap>) ensures r is Some <==> jobj(*self) is Some, r is Some ==> *r->0 == jobj(*self)->0 { unimplemented!() } }
#[verifier::external_body]
pub fn vx_to_vec(m: &JMap) -> (r: Result<Vec<u8>, LinderaError>) ensures r is Ok, jtext(r->Ok_0@) == m.entries() { unimplemented!() }
#[verifier::external_body]
pub fn vx_settings(b: &Vec<u8>) -> (r: Result<TokenizerConfig, LinderaError>) ensures r is Ok <==> settings_ok(jtext(b@)), r is Ok ==> is_settings(jtext(b@), r->Ok_0) { unimplemented!() }
// what settings are read as
pub uninterp spec fn jparse_bytes(b: Seq<u8>) -> Option<Value>;
#[verifier::external_body]
pub fn vx_parse(b: &[u8]) -> (r: Result<Value, LinderaError>) ensures r is Ok <==> jparse_bytes(b@) is Some, r is Ok ==> r->Ok_0 == jparse_bytes(b@)->0 { unimplemented!() }
@item struct lindera-analyzer/src/analyzer.rs AnalyzerConfig
@end
@item struct lindera-analyzer/src/analyzer.rs Analyzer
@end
@item fn lindera-analyzer/src/analyzer.rs AnalyzerConfig::from_slice
@ret r
@replace serde_json::from_slice::<Value>($d) ==> vx_parse($d)
@spec
  ensures r is Ok <==> jparse_bytes(data@) is Some, r is Ok ==> r->Ok_0.inner == jparse_bytes(data@)->0
@end
@item fn lindera-analyzer/src/analyzer.rs AnalyzerConfig::from_file
@ret r
@spec
  ensures r is Ok <==> file(*path) is Some && jparse_bytes(file(*path)->0) is Some, r is Ok ==> r->Ok_0.inner == jparse_bytes(file(*path)->0)->0
@end
@item fn lindera-analyzer/src/analyzer.rs Analyzer::new
@ret r
@spec
  ensures r.character_filters == character_filters, r.tokenizer == tokenizer, r.token_filters == token_filters
@end
// the filters listed, in order; an item that names no kind is passed over
pub open spec fn listed(v: Value, k: Seq<char>) -> Seq<Value> { if jarr(jat(v, k)) is Some { jarr(jat(v, k))->0 } else { Seq::empty() } }
pub open spec fn kind_of(v: Value) -> Option<Seq<char>> { jstr(jat(v, "kind"@)) }
pub open spec fn args_of(v: Value) -> Value { jat(v, "args"@) }
pub open spec fn cfs_ok(l: Seq<Value>) -> bool { forall|i: int| 0 <= i < l.len() && kind_of(#[trigger] l[i]) is Some ==> cf_made(kind_of(l[i])->0, args_of(l[i])) is Some }
pub open spec fn cfs(l: Seq<Value>, k: int) -> Seq<BoxCharacterFilter> decreases k {
    if k <= 0 { Seq::empty() } else if kind_of(l[k - 1]) is Some { cfs(l, k - 1).push(cf_made(kind_of(l[k - 1])->0, args_of(l[k - 1]))->0) } else { cfs(l, k - 1) }
}
pub open spec fn tfs_ok(l: Seq<Value>) -> bool { forall|i: int| 0 <= i < l.len() && kind_of(#[trigger] l[i]) is Some ==> tf_made(kind_of(l[i])->0, args_of(l[i])) is Some }
pub open spec fn tfs(l: Seq<Value>, k: int) -> Seq<BoxTokenFilter> decreases k {
    if k <= 0 { Seq::empty() } else if kind_of(l[k - 1]) is Some { tfs(l, k - 1).push(tf_made(kind_of(l[k - 1])->0, args_of(l[k - 1]))->0) } else { tfs(l, k - 1) }
}
pub open spec fn tok_entries(v: Value) -> Seq<Ent> { jobj(jat(v, "tokenizer"@))->0.entries() }
pub open spec fn tok_conf(v: Value, c: TokenizerConfig) -> bool { is_settings(tok_entries(v), c) }
pub open spec fn an_ok(v: Value) -> bool {
    &&& cfs_ok(listed(v, "character_filters"@)) && tfs_ok(listed(v, "token_filters"@))
    &&& jobj(jat(v, "tokenizer"@)) is Some && settings_ok(tok_entries(v))
    &&& forall|c: TokenizerConfig| #[trigger] tok_conf(v, c) ==> tconf_ok(c)
}
pub open spec fn is_an(v: Value, a: Analyzer) -> bool {
    &&& a.character_filters@ == cfs(listed(v, "character_filters"@), listed(v, "character_filters"@).len() as int)
    &&& a.token_filters@ == tfs(listed(v, "token_filters"@), listed(v, "token_filters"@).len() as int)
    &&& exists|c: TokenizerConfig| #[trigger] tok_conf(v, c) && is_tok(c, a.tokenizer)
}
pub proof fn lemma_conf(v: Value, c: TokenizerConfig, d: TokenizerConfig) requires tok_conf(v, c), tok_conf(v, d) ensures c == d {}
@item fn lindera-analyzer/src/analyzer.rs Analyzer::from_config
@ret r
@replace $v["character_filters"] ==> $v.vx_at("character_filters")
@replace $v["token_filters"] ==> $v.vx_at("token_filters")
@replace $v["tokenizer"] ==> $v.vx_at("tokenizer")
@replace $v["kind"] ==> $v.vx_at("kind")
@replace $v["args"] ==> $v.vx_at("args")
@replace serde_json::to_vec($d) ==> vx_to_vec($d)
@replace serde_json::from_slice(&$d) ==> vx_settings(&$d)
@spec
  ensures r is Ok <==> an_ok(config.inner), r is Ok ==> is_an(config.inner, r->Ok_0)
@at start
  let ghost v = config.inner;
  let ghost cl = listed(v, "character_filters"@);
  let ghost tl = listed(v, "token_filters"@);
@loop 0
  invariant
    v == config.inner, cl == listed(v, "character_filters"@), it0.seq().len() == cl.len(), forall|j: int| 0 <= j < cl.len() ==> *(#[trigger] it0.seq()[j]) == cl[j],
    character_filters@ == cfs(cl, it0.index() as int),
    forall|i: int| 0 <= i < it0.index() && kind_of(#[trigger] cl[i]) is Some ==> cf_made(kind_of(cl[i])->0, args_of(cl[i])) is Some
@at loop 0 body_start
  proof { assert(*it0.seq()[it0.index() as int] == cl[it0.index() as int]); }
@at let tokenizer_config 0 after
  let ghost c = tokenizer_config;
  proof { assert(tok_conf(v, c)); assert forall|d: TokenizerConfig| #[trigger] tok_conf(v, d) implies d == c by { lemma_conf(v, c, d); } }
@loop 1
  invariant
    v == config.inner, tl == listed(v, "token_filters"@), it1.seq().len() == tl.len(), forall|j: int| 0 <= j < tl.len() ==> *(#[trigger] it1.seq()[j]) == tl[j],
    token_filters@ == tfs(tl, it1.index() as int),
    forall|i: int| 0 <= i < it1.index() && kind_of(#[trigger] tl[i]) is Some ==> tf_made(kind_of(tl[i])->0, args_of(tl[i])) is Some
@at loop 1 body_start
  proof { assert(*it1.seq()[it1.index() as int] == tl[it1.index() as int]); }
@end
} // verus!
fn main() {}
