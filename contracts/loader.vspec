@unit loader
@include prelude.inc
@type serde_json::Value => Value
@method split_once => vx_split_once
@known from @strpat @streq
verus! {
@include strings.inc
@include json.inc
// ---- the settings a filter was made from ----------------------------------------------------------------
// The filters themselves are opaque here: what `from_value` and `new` make of the settings, and that they do
// not panic, are the contracts of the units of the filters (retain, compound, number, rewrite, itermark,
// tokenmap, charfilter).
pub trait VxFilter: Sized { spec fn nm() -> Seq<char>; spec fn src(&self) -> Value; }
// ---- a command line flag: the kind, a colon, the settings -------------------------------------------------
pub open spec fn colon(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == ':' && forall|j: int| 0 <= j < i ==> s[j] != ':' }
pub open spec fn flag_cut(s: Seq<char>) -> int { if exists|i: int| colon(s, i) { choose|i: int| colon(s, i) } else { s.len() as int } }
pub open spec fn flag_kind(s: Seq<char>) -> Seq<char> { s.take(flag_cut(s)) }
pub open spec fn flag_json(s: Seq<char>) -> Seq<char> { if flag_cut(s) < s.len() { s.skip(flag_cut(s) + 1) } else { Seq::empty() } }
#[verifier::external_body]
pub fn vx_split_colon(s: &str) -> (r: Option<(&str, &str)>)
    ensures r is Some <==> (exists|i: int| colon(s@, i)), r is Some ==> (r->0).0@ == flag_kind(s@) && (r->0).1@ == flag_json(s@), { s.split_once(':') }
pub uninterp spec fn jparse(s: Seq<char>) -> Option<Value>;
#[verifier::external_body]
pub fn vx_parse_json(s: &str) -> (r: Result<Value, LinderaError>) ensures r is Ok <==> jparse(s@) is Some, r is Ok ==> r->Ok_0 == jparse(s@)->0 { unimplemented!() }
@item fn lindera-filter/src/lib.rs parse_cli_flag
@ret r
@replace $s.split_once(':') ==> vx_split_colon($s)
@replace serde_json::from_str($s) ==> vx_parse_json($s)
@spec
  ensures r is Ok <==> jparse(flag_json(cli_flag@)) is Some, r is Ok ==> (r->Ok_0).0@ == flag_kind(cli_flag@) && (r->Ok_0).1 == jparse(flag_json(cli_flag@))->0
@at start
  proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(cli_flag@.take(cli_flag@.len() as int) =~= cli_flag@);
     if exists|i: int| colon(cli_flag@, i) { assert(colon(cli_flag@, flag_cut(cli_flag@))); } }
@end
#[verifier::external_body] pub struct JapaneseBaseFormTokenFilter { x: u8 }
impl VxFilter for JapaneseBaseFormTokenFilter { open spec fn nm() -> Seq<char> { "japanese_base_form"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseBaseFormTokenFilterConfig { x: u8 }
impl JapaneseBaseFormTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseBaseFormTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseBaseFormTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseCompoundWordTokenFilter { x: u8 }
impl VxFilter for JapaneseCompoundWordTokenFilter { open spec fn nm() -> Seq<char> { "japanese_compound_word"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseCompoundWordTokenFilterConfig { x: u8 }
impl JapaneseCompoundWordTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseCompoundWordTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseCompoundWordTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseKanaTokenFilter { x: u8 }
impl VxFilter for JapaneseKanaTokenFilter { open spec fn nm() -> Seq<char> { "japanese_kana"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseKanaTokenFilterConfig { x: u8 }
impl JapaneseKanaTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseKanaTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseKanaTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseKatakanaStemTokenFilter { x: u8 }
impl VxFilter for JapaneseKatakanaStemTokenFilter { open spec fn nm() -> Seq<char> { "japanese_katakana_stem"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseKatakanaStemTokenFilterConfig { x: u8 }
impl JapaneseKatakanaStemTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseKatakanaStemTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseKatakanaStemTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseKeepTagsTokenFilter { x: u8 }
impl VxFilter for JapaneseKeepTagsTokenFilter { open spec fn nm() -> Seq<char> { "japanese_keep_tags"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseKeepTagsTokenFilterConfig { x: u8 }
impl JapaneseKeepTagsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseKeepTagsTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseKeepTagsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseNumberTokenFilter { x: u8 }
impl VxFilter for JapaneseNumberTokenFilter { open spec fn nm() -> Seq<char> { "japanese_number"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseNumberTokenFilterConfig { x: u8 }
impl JapaneseNumberTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseNumberTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseNumberTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseReadingFormTokenFilter { x: u8 }
impl VxFilter for JapaneseReadingFormTokenFilter { open spec fn nm() -> Seq<char> { "japanese_reading_form"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseReadingFormTokenFilterConfig { x: u8 }
impl JapaneseReadingFormTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseReadingFormTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseReadingFormTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct JapaneseStopTagsTokenFilter { x: u8 }
impl VxFilter for JapaneseStopTagsTokenFilter { open spec fn nm() -> Seq<char> { "japanese_stop_tags"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseStopTagsTokenFilterConfig { x: u8 }
impl JapaneseStopTagsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseStopTagsTokenFilter { #[verifier::external_body] pub fn new(config: JapaneseStopTagsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct KeepWordsTokenFilter { x: u8 }
impl VxFilter for KeepWordsTokenFilter { open spec fn nm() -> Seq<char> { "keep_words"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct KeepWordsTokenFilterConfig { x: u8 }
impl KeepWordsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl KeepWordsTokenFilter { #[verifier::external_body] pub fn new(config: KeepWordsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct KoreanKeepTagsTokenFilter { x: u8 }
impl VxFilter for KoreanKeepTagsTokenFilter { open spec fn nm() -> Seq<char> { "korean_keep_tags"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct KoreanKeepTagsTokenFilterConfig { x: u8 }
impl KoreanKeepTagsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl KoreanKeepTagsTokenFilter { #[verifier::external_body] pub fn new(config: KoreanKeepTagsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct KoreanReadingFormTokenFilter { x: u8 }
impl VxFilter for KoreanReadingFormTokenFilter { open spec fn nm() -> Seq<char> { "korean_reading_form"@ } uninterp spec fn src(&self) -> Value; }
impl KoreanReadingFormTokenFilter { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct KoreanStopTagsTokenFilter { x: u8 }
impl VxFilter for KoreanStopTagsTokenFilter { open spec fn nm() -> Seq<char> { "korean_stop_tags"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct KoreanStopTagsTokenFilterConfig { x: u8 }
impl KoreanStopTagsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl KoreanStopTagsTokenFilter { #[verifier::external_body] pub fn new(config: KoreanStopTagsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct LengthTokenFilter { x: u8 }
impl VxFilter for LengthTokenFilter { open spec fn nm() -> Seq<char> { "length"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct LengthTokenFilterConfig { x: u8 }
impl LengthTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl LengthTokenFilter { #[verifier::external_body] pub fn new(config: LengthTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct LowercaseTokenFilter { x: u8 }
impl VxFilter for LowercaseTokenFilter { open spec fn nm() -> Seq<char> { "lowercase"@ } uninterp spec fn src(&self) -> Value; }
impl LowercaseTokenFilter { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct MappingTokenFilter { x: u8 }
impl VxFilter for MappingTokenFilter { open spec fn nm() -> Seq<char> { "mapping"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct MappingTokenFilterConfig { x: u8 }
impl MappingTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl MappingTokenFilter { pub uninterp spec fn makes(config: MappingTokenFilterConfig) -> bool; #[verifier::external_body] pub fn new(config: MappingTokenFilterConfig) -> (r: LinderaResult<Self>) ensures r is Ok ==> r->Ok_0.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct StopWordsTokenFilter { x: u8 }
impl VxFilter for StopWordsTokenFilter { open spec fn nm() -> Seq<char> { "stop_words"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct StopWordsTokenFilterConfig { x: u8 }
impl StopWordsTokenFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl StopWordsTokenFilter { #[verifier::external_body] pub fn new(config: StopWordsTokenFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct UppercaseTokenFilter { x: u8 }
impl VxFilter for UppercaseTokenFilter { open spec fn nm() -> Seq<char> { "uppercase"@ } uninterp spec fn src(&self) -> Value; }
impl UppercaseTokenFilter { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct BoxTokenFilter { x: u8 }
impl BoxTokenFilter {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn src(&self) -> Value;
    #[verifier::external_body] pub fn from<T: VxFilter>(t: T) -> (r: Self) ensures r.nm() == T::nm(), r.src() == t.src() { unimplemented!() }
}
@item const lindera-filter/src/token_filter/japanese_base_form.rs JAPANESE_BASE_FORM_TOKEN_FILTER_NAME
@as JAPANESE_BASE_FORM_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_compound_word.rs JAPANESE_COMPOUND_WORD_TOKEN_FILTER_NAME
@as JAPANESE_COMPOUND_WORD_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_kana.rs JAPANESE_KANA_TOKEN_FILTER_NAME
@as JAPANESE_KANA_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_katakana_stem.rs JAPANESE_KATAKANA_STEM_TOKEN_FILTER_NAME
@as JAPANESE_KATAKANA_STEM_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_keep_tags.rs JAPANESE_KEEP_TAGS_TOKEN_FILTER_NAME
@as JAPANESE_KEEP_TAGS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_number.rs JAPANESE_NUMBER_TOKEN_FILTER_NAME
@as JAPANESE_NUMBER_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_reading_form.rs JAPANESE_READING_FORM_TOKEN_FILTER_NAME
@as JAPANESE_READING_FORM_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/japanese_stop_tags.rs JAPANESE_STOP_TAGS_TOKEN_FILTER_NAME
@as JAPANESE_STOP_TAGS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/keep_words.rs KEEP_WORDS_TOKEN_FILTER_NAME
@as KEEP_WORDS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/korean_keep_tags.rs KOREAN_KEEP_TAGS_TOKEN_FILTER_NAME
@as KOREAN_KEEP_TAGS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/korean_reading_form.rs KOREAN_READING_FORM_TOKEN_FILTER_NAME
@as KOREAN_READING_FORM_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/korean_stop_tags.rs KOREAN_STOP_TAGS_TOKEN_FILTER_NAME
@as KOREAN_STOP_TAGS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/length.rs LENGTH_TOKEN_FILTER_NAME
@as LENGTH_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/lowercase.rs LOWERCASE_TOKEN_FILTER_NAME
@as LOWERCASE_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/mapping.rs MAPPING_TOKEN_FILTER_NAME
@as MAPPING_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/stop_words.rs STOP_WORDS_TOKEN_FILTER_NAME
@as STOP_WORDS_TOKEN_FILTER_NAME
@end
@item const lindera-filter/src/token_filter/uppercase.rs UPPERCASE_TOKEN_FILTER_NAME
@as UPPERCASE_TOKEN_FILTER_NAME
@end
// the names documented for token filters
pub open spec fn token_kind(k: Seq<char>) -> bool { k == "japanese_base_form"@ || k == "japanese_compound_word"@ || k == "japanese_kana"@ || k == "japanese_katakana_stem"@ || k == "japanese_keep_tags"@ || k == "japanese_number"@ || k == "japanese_reading_form"@ || k == "japanese_stop_tags"@ || k == "keep_words"@ || k == "korean_keep_tags"@ || k == "korean_reading_form"@ || k == "korean_stop_tags"@ || k == "length"@ || k == "lowercase"@ || k == "mapping"@ || k == "stop_words"@ || k == "uppercase"@ }
// kinds without settings
pub open spec fn token_plain(k: Seq<char>) -> bool { k == "korean_reading_form"@ || k == "lowercase"@ || k == "uppercase"@ }
// kinds whose settings, once read, always make a filter
pub open spec fn token_total(k: Seq<char>) -> bool { k == "japanese_base_form"@ || k == "japanese_compound_word"@ || k == "japanese_kana"@ || k == "japanese_katakana_stem"@ || k == "japanese_keep_tags"@ || k == "japanese_number"@ || k == "japanese_reading_form"@ || k == "japanese_stop_tags"@ || k == "keep_words"@ || k == "korean_keep_tags"@ || k == "korean_reading_form"@ || k == "korean_stop_tags"@ || k == "length"@ || k == "lowercase"@ || k == "stop_words"@ || k == "uppercase"@ }
pub open spec fn token_readable(k: Seq<char>, v: Value) -> bool { (k == "japanese_base_form"@ ==> jread::<JapaneseBaseFormTokenFilterConfig>(v) is Some) && (k == "japanese_compound_word"@ ==> jread::<JapaneseCompoundWordTokenFilterConfig>(v) is Some) && (k == "japanese_kana"@ ==> jread::<JapaneseKanaTokenFilterConfig>(v) is Some) && (k == "japanese_katakana_stem"@ ==> jread::<JapaneseKatakanaStemTokenFilterConfig>(v) is Some) && (k == "japanese_keep_tags"@ ==> jread::<JapaneseKeepTagsTokenFilterConfig>(v) is Some) && (k == "japanese_number"@ ==> jread::<JapaneseNumberTokenFilterConfig>(v) is Some) && (k == "japanese_reading_form"@ ==> jread::<JapaneseReadingFormTokenFilterConfig>(v) is Some) && (k == "japanese_stop_tags"@ ==> jread::<JapaneseStopTagsTokenFilterConfig>(v) is Some) && (k == "keep_words"@ ==> jread::<KeepWordsTokenFilterConfig>(v) is Some) && (k == "korean_keep_tags"@ ==> jread::<KoreanKeepTagsTokenFilterConfig>(v) is Some) && (k == "korean_stop_tags"@ ==> jread::<KoreanStopTagsTokenFilterConfig>(v) is Some) && (k == "length"@ ==> jread::<LengthTokenFilterConfig>(v) is Some) && (k == "mapping"@ ==> jread::<MappingTokenFilterConfig>(v) is Some) && (k == "stop_words"@ ==> jread::<StopWordsTokenFilterConfig>(v) is Some) }
pub open spec fn token_loads(k: Seq<char>, v: Value, r: LinderaResult<BoxTokenFilter>) -> bool {
    &&& !(token_kind(k) && token_readable(k, v)) ==> r is Err
    &&& token_total(k) && token_readable(k, v) ==> r is Ok
    &&& r is Ok ==> r->Ok_0.nm() == k && (token_plain(k) || r->Ok_0.src() == v)
}
@item fn lindera-filter/src/token_filter/japanese_base_form.rs JapaneseBaseFormTokenFilter::name
@impl impl JapaneseBaseFormTokenFilter
@ret r
@spec
  ensures r@ == JapaneseBaseFormTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_compound_word.rs JapaneseCompoundWordTokenFilter::name
@impl impl JapaneseCompoundWordTokenFilter
@ret r
@spec
  ensures r@ == JapaneseCompoundWordTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_kana.rs JapaneseKanaTokenFilter::name
@impl impl JapaneseKanaTokenFilter
@ret r
@spec
  ensures r@ == JapaneseKanaTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_katakana_stem.rs JapaneseKatakanaStemTokenFilter::name
@impl impl JapaneseKatakanaStemTokenFilter
@ret r
@spec
  ensures r@ == JapaneseKatakanaStemTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_keep_tags.rs JapaneseKeepTagsTokenFilter::name
@impl impl JapaneseKeepTagsTokenFilter
@ret r
@spec
  ensures r@ == JapaneseKeepTagsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_number.rs JapaneseNumberTokenFilter::name
@impl impl JapaneseNumberTokenFilter
@ret r
@spec
  ensures r@ == JapaneseNumberTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_reading_form.rs JapaneseReadingFormTokenFilter::name
@impl impl JapaneseReadingFormTokenFilter
@ret r
@spec
  ensures r@ == JapaneseReadingFormTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/japanese_stop_tags.rs JapaneseStopTagsTokenFilter::name
@impl impl JapaneseStopTagsTokenFilter
@ret r
@spec
  ensures r@ == JapaneseStopTagsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/keep_words.rs KeepWordsTokenFilter::name
@impl impl KeepWordsTokenFilter
@ret r
@spec
  ensures r@ == KeepWordsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/korean_keep_tags.rs KoreanKeepTagsTokenFilter::name
@impl impl KoreanKeepTagsTokenFilter
@ret r
@spec
  ensures r@ == KoreanKeepTagsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/korean_reading_form.rs KoreanReadingFormTokenFilter::name
@impl impl KoreanReadingFormTokenFilter
@ret r
@spec
  ensures r@ == KoreanReadingFormTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/korean_stop_tags.rs KoreanStopTagsTokenFilter::name
@impl impl KoreanStopTagsTokenFilter
@ret r
@spec
  ensures r@ == KoreanStopTagsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/length.rs LengthTokenFilter::name
@impl impl LengthTokenFilter
@ret r
@spec
  ensures r@ == LengthTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/lowercase.rs LowercaseTokenFilter::name
@impl impl LowercaseTokenFilter
@ret r
@spec
  ensures r@ == LowercaseTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/mapping.rs MappingTokenFilter::name
@impl impl MappingTokenFilter
@ret r
@spec
  ensures r@ == MappingTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/stop_words.rs StopWordsTokenFilter::name
@impl impl StopWordsTokenFilter
@ret r
@spec
  ensures r@ == StopWordsTokenFilter::nm()
@end
@item fn lindera-filter/src/token_filter/uppercase.rs UppercaseTokenFilter::name
@impl impl UppercaseTokenFilter
@ret r
@spec
  ensures r@ == UppercaseTokenFilter::nm()
@end
@item struct lindera-filter/src/token_filter.rs TokenFilterLoader
@end
@item fn lindera-filter/src/token_filter.rs TokenFilterLoader::load_from_value
@ret r
@spec
  ensures token_loads(kind@, *value, r)
@at start
  proof { lemma_token_names(); }
@end
pub proof fn lemma_token_names() ensures "japanese_base_form"@ != "japanese_compound_word"@, "japanese_base_form"@ != "japanese_kana"@, "japanese_base_form"@ != "japanese_katakana_stem"@, "japanese_base_form"@ != "japanese_keep_tags"@, "japanese_base_form"@ != "japanese_number"@, "japanese_base_form"@ != "japanese_reading_form"@, "japanese_base_form"@ != "japanese_stop_tags"@, "japanese_base_form"@ != "keep_words"@, "japanese_base_form"@ != "korean_keep_tags"@, "japanese_base_form"@ != "korean_reading_form"@, "japanese_base_form"@ != "korean_stop_tags"@, "japanese_base_form"@ != "length"@, "japanese_base_form"@ != "lowercase"@, "japanese_base_form"@ != "mapping"@, "japanese_base_form"@ != "stop_words"@, "japanese_base_form"@ != "uppercase"@, "japanese_compound_word"@ != "japanese_kana"@, "japanese_compound_word"@ != "japanese_katakana_stem"@, "japanese_compound_word"@ != "japanese_keep_tags"@, "japanese_compound_word"@ != "japanese_number"@, "japanese_compound_word"@ != "japanese_reading_form"@, "japanese_compound_word"@ != "japanese_stop_tags"@, "japanese_compound_word"@ != "keep_words"@, "japanese_compound_word"@ != "korean_keep_tags"@, "japanese_compound_word"@ != "korean_reading_form"@, "japanese_compound_word"@ != "korean_stop_tags"@, "japanese_compound_word"@ != "length"@, "japanese_compound_word"@ != "lowercase"@, "japanese_compound_word"@ != "mapping"@, "japanese_compound_word"@ != "stop_words"@, "japanese_compound_word"@ != "uppercase"@, "japanese_kana"@ != "japanese_katakana_stem"@, "japanese_kana"@ != "japanese_keep_tags"@, "japanese_kana"@ != "japanese_number"@, "japanese_kana"@ != "japanese_reading_form"@, "japanese_kana"@ != "japanese_stop_tags"@, "japanese_kana"@ != "keep_words"@, "japanese_kana"@ != "korean_keep_tags"@, "japanese_kana"@ != "korean_reading_form"@, "japanese_kana"@ != "korean_stop_tags"@, "japanese_kana"@ != "length"@, "japanese_kana"@ != "lowercase"@, "japanese_kana"@ != "mapping"@, "japanese_kana"@ != "stop_words"@, "japanese_kana"@ != "uppercase"@, "japanese_katakana_stem"@ != "japanese_keep_tags"@, "japanese_katakana_stem"@ != "japanese_number"@, "japanese_katakana_stem"@ != "japanese_reading_form"@, "japanese_katakana_stem"@ != "japanese_stop_tags"@, "japanese_katakana_stem"@ != "keep_words"@, "japanese_katakana_stem"@ != "korean_keep_tags"@, "japanese_katakana_stem"@ != "korean_reading_form"@, "japanese_katakana_stem"@ != "korean_stop_tags"@, "japanese_katakana_stem"@ != "length"@, "japanese_katakana_stem"@ != "lowercase"@, "japanese_katakana_stem"@ != "mapping"@, "japanese_katakana_stem"@ != "stop_words"@, "japanese_katakana_stem"@ != "uppercase"@, "japanese_keep_tags"@ != "japanese_number"@, "japanese_keep_tags"@ != "japanese_reading_form"@, "japanese_keep_tags"@ != "japanese_stop_tags"@, "japanese_keep_tags"@ != "keep_words"@, "japanese_keep_tags"@ != "korean_keep_tags"@, "japanese_keep_tags"@ != "korean_reading_form"@, "japanese_keep_tags"@ != "korean_stop_tags"@, "japanese_keep_tags"@ != "length"@, "japanese_keep_tags"@ != "lowercase"@, "japanese_keep_tags"@ != "mapping"@, "japanese_keep_tags"@ != "stop_words"@, "japanese_keep_tags"@ != "uppercase"@, "japanese_number"@ != "japanese_reading_form"@, "japanese_number"@ != "japanese_stop_tags"@, "japanese_number"@ != "keep_words"@, "japanese_number"@ != "korean_keep_tags"@, "japanese_number"@ != "korean_reading_form"@, "japanese_number"@ != "korean_stop_tags"@, "japanese_number"@ != "length"@, "japanese_number"@ != "lowercase"@, "japanese_number"@ != "mapping"@, "japanese_number"@ != "stop_words"@, "japanese_number"@ != "uppercase"@, "japanese_reading_form"@ != "japanese_stop_tags"@, "japanese_reading_form"@ != "keep_words"@, "japanese_reading_form"@ != "korean_keep_tags"@, "japanese_reading_form"@ != "korean_reading_form"@, "japanese_reading_form"@ != "korean_stop_tags"@, "japanese_reading_form"@ != "length"@, "japanese_reading_form"@ != "lowercase"@, "japanese_reading_form"@ != "mapping"@, "japanese_reading_form"@ != "stop_words"@, "japanese_reading_form"@ != "uppercase"@, "japanese_stop_tags"@ != "keep_words"@, "japanese_stop_tags"@ != "korean_keep_tags"@, "japanese_stop_tags"@ != "korean_reading_form"@, "japanese_stop_tags"@ != "korean_stop_tags"@, "japanese_stop_tags"@ != "length"@, "japanese_stop_tags"@ != "lowercase"@, "japanese_stop_tags"@ != "mapping"@, "japanese_stop_tags"@ != "stop_words"@, "japanese_stop_tags"@ != "uppercase"@, "keep_words"@ != "korean_keep_tags"@, "keep_words"@ != "korean_reading_form"@, "keep_words"@ != "korean_stop_tags"@, "keep_words"@ != "length"@, "keep_words"@ != "lowercase"@, "keep_words"@ != "mapping"@, "keep_words"@ != "stop_words"@, "keep_words"@ != "uppercase"@, "korean_keep_tags"@ != "korean_reading_form"@, "korean_keep_tags"@ != "korean_stop_tags"@, "korean_keep_tags"@ != "length"@, "korean_keep_tags"@ != "lowercase"@, "korean_keep_tags"@ != "mapping"@, "korean_keep_tags"@ != "stop_words"@, "korean_keep_tags"@ != "uppercase"@, "korean_reading_form"@ != "korean_stop_tags"@, "korean_reading_form"@ != "length"@, "korean_reading_form"@ != "lowercase"@, "korean_reading_form"@ != "mapping"@, "korean_reading_form"@ != "stop_words"@, "korean_reading_form"@ != "uppercase"@, "korean_stop_tags"@ != "length"@, "korean_stop_tags"@ != "lowercase"@, "korean_stop_tags"@ != "mapping"@, "korean_stop_tags"@ != "stop_words"@, "korean_stop_tags"@ != "uppercase"@, "length"@ != "lowercase"@, "length"@ != "mapping"@, "length"@ != "stop_words"@, "length"@ != "uppercase"@, "lowercase"@ != "mapping"@, "lowercase"@ != "stop_words"@, "lowercase"@ != "uppercase"@, "mapping"@ != "stop_words"@, "mapping"@ != "uppercase"@, "stop_words"@ != "uppercase"@ { reveal_strlit("japanese_base_form"); reveal_strlit("japanese_compound_word"); reveal_strlit("japanese_kana"); reveal_strlit("japanese_katakana_stem"); reveal_strlit("japanese_keep_tags"); reveal_strlit("japanese_number"); reveal_strlit("japanese_reading_form"); reveal_strlit("japanese_stop_tags"); reveal_strlit("keep_words"); reveal_strlit("korean_keep_tags"); reveal_strlit("korean_reading_form"); reveal_strlit("korean_stop_tags"); reveal_strlit("length"); reveal_strlit("lowercase"); reveal_strlit("mapping"); reveal_strlit("stop_words"); reveal_strlit("uppercase");  assert("japanese_base_form"@.len() != "japanese_compound_word"@.len()); assert("japanese_base_form"@.len() != "japanese_kana"@.len()); assert("japanese_base_form"@.len() != "japanese_katakana_stem"@.len()); assert("japanese_base_form"@[9] != "japanese_keep_tags"@[9]); assert("japanese_base_form"@.len() != "japanese_number"@.len()); assert("japanese_base_form"@.len() != "japanese_reading_form"@.len()); assert("japanese_base_form"@[9] != "japanese_stop_tags"@[9]); assert("japanese_base_form"@.len() != "keep_words"@.len()); assert("japanese_base_form"@.len() != "korean_keep_tags"@.len()); assert("japanese_base_form"@.len() != "korean_reading_form"@.len()); assert("japanese_base_form"@.len() != "korean_stop_tags"@.len()); assert("japanese_base_form"@.len() != "length"@.len()); assert("japanese_base_form"@.len() != "lowercase"@.len()); assert("japanese_base_form"@.len() != "mapping"@.len()); assert("japanese_base_form"@.len() != "stop_words"@.len()); assert("japanese_base_form"@.len() != "uppercase"@.len()); assert("japanese_compound_word"@.len() != "japanese_kana"@.len()); assert("japanese_compound_word"@[9] != "japanese_katakana_stem"@[9]); assert("japanese_compound_word"@.len() != "japanese_keep_tags"@.len()); assert("japanese_compound_word"@.len() != "japanese_number"@.len()); assert("japanese_compound_word"@.len() != "japanese_reading_form"@.len()); assert("japanese_compound_word"@.len() != "japanese_stop_tags"@.len()); assert("japanese_compound_word"@.len() != "keep_words"@.len()); assert("japanese_compound_word"@.len() != "korean_keep_tags"@.len()); assert("japanese_compound_word"@.len() != "korean_reading_form"@.len()); assert("japanese_compound_word"@.len() != "korean_stop_tags"@.len()); assert("japanese_compound_word"@.len() != "length"@.len()); assert("japanese_compound_word"@.len() != "lowercase"@.len()); assert("japanese_compound_word"@.len() != "mapping"@.len()); assert("japanese_compound_word"@.len() != "stop_words"@.len()); assert("japanese_compound_word"@.len() != "uppercase"@.len()); assert("japanese_kana"@.len() != "japanese_katakana_stem"@.len()); assert("japanese_kana"@.len() != "japanese_keep_tags"@.len()); assert("japanese_kana"@.len() != "japanese_number"@.len()); assert("japanese_kana"@.len() != "japanese_reading_form"@.len()); assert("japanese_kana"@.len() != "japanese_stop_tags"@.len()); assert("japanese_kana"@.len() != "keep_words"@.len()); assert("japanese_kana"@.len() != "korean_keep_tags"@.len()); assert("japanese_kana"@.len() != "korean_reading_form"@.len()); assert("japanese_kana"@.len() != "korean_stop_tags"@.len()); assert("japanese_kana"@.len() != "length"@.len()); assert("japanese_kana"@.len() != "lowercase"@.len()); assert("japanese_kana"@.len() != "mapping"@.len()); assert("japanese_kana"@.len() != "stop_words"@.len()); assert("japanese_kana"@.len() != "uppercase"@.len()); assert("japanese_katakana_stem"@.len() != "japanese_keep_tags"@.len()); assert("japanese_katakana_stem"@.len() != "japanese_number"@.len()); assert("japanese_katakana_stem"@.len() != "japanese_reading_form"@.len()); assert("japanese_katakana_stem"@.len() != "japanese_stop_tags"@.len()); assert("japanese_katakana_stem"@.len() != "keep_words"@.len()); assert("japanese_katakana_stem"@.len() != "korean_keep_tags"@.len()); assert("japanese_katakana_stem"@.len() != "korean_reading_form"@.len()); assert("japanese_katakana_stem"@.len() != "korean_stop_tags"@.len()); assert("japanese_katakana_stem"@.len() != "length"@.len()); assert("japanese_katakana_stem"@.len() != "lowercase"@.len()); assert("japanese_katakana_stem"@.len() != "mapping"@.len()); assert("japanese_katakana_stem"@.len() != "stop_words"@.len()); assert("japanese_katakana_stem"@.len() != "uppercase"@.len()); assert("japanese_keep_tags"@.len() != "japanese_number"@.len()); assert("japanese_keep_tags"@.len() != "japanese_reading_form"@.len()); assert("japanese_keep_tags"@[9] != "japanese_stop_tags"@[9]); assert("japanese_keep_tags"@.len() != "keep_words"@.len()); assert("japanese_keep_tags"@.len() != "korean_keep_tags"@.len()); assert("japanese_keep_tags"@.len() != "korean_reading_form"@.len()); assert("japanese_keep_tags"@.len() != "korean_stop_tags"@.len()); assert("japanese_keep_tags"@.len() != "length"@.len()); assert("japanese_keep_tags"@.len() != "lowercase"@.len()); assert("japanese_keep_tags"@.len() != "mapping"@.len()); assert("japanese_keep_tags"@.len() != "stop_words"@.len()); assert("japanese_keep_tags"@.len() != "uppercase"@.len()); assert("japanese_number"@.len() != "japanese_reading_form"@.len()); assert("japanese_number"@.len() != "japanese_stop_tags"@.len()); assert("japanese_number"@.len() != "keep_words"@.len()); assert("japanese_number"@.len() != "korean_keep_tags"@.len()); assert("japanese_number"@.len() != "korean_reading_form"@.len()); assert("japanese_number"@.len() != "korean_stop_tags"@.len()); assert("japanese_number"@.len() != "length"@.len()); assert("japanese_number"@.len() != "lowercase"@.len()); assert("japanese_number"@.len() != "mapping"@.len()); assert("japanese_number"@.len() != "stop_words"@.len()); assert("japanese_number"@.len() != "uppercase"@.len()); assert("japanese_reading_form"@.len() != "japanese_stop_tags"@.len()); assert("japanese_reading_form"@.len() != "keep_words"@.len()); assert("japanese_reading_form"@.len() != "korean_keep_tags"@.len()); assert("japanese_reading_form"@.len() != "korean_reading_form"@.len()); assert("japanese_reading_form"@.len() != "korean_stop_tags"@.len()); assert("japanese_reading_form"@.len() != "length"@.len()); assert("japanese_reading_form"@.len() != "lowercase"@.len()); assert("japanese_reading_form"@.len() != "mapping"@.len()); assert("japanese_reading_form"@.len() != "stop_words"@.len()); assert("japanese_reading_form"@.len() != "uppercase"@.len()); assert("japanese_stop_tags"@.len() != "keep_words"@.len()); assert("japanese_stop_tags"@.len() != "korean_keep_tags"@.len()); assert("japanese_stop_tags"@.len() != "korean_reading_form"@.len()); assert("japanese_stop_tags"@.len() != "korean_stop_tags"@.len()); assert("japanese_stop_tags"@.len() != "length"@.len()); assert("japanese_stop_tags"@.len() != "lowercase"@.len()); assert("japanese_stop_tags"@.len() != "mapping"@.len()); assert("japanese_stop_tags"@.len() != "stop_words"@.len()); assert("japanese_stop_tags"@.len() != "uppercase"@.len()); assert("keep_words"@.len() != "korean_keep_tags"@.len()); assert("keep_words"@.len() != "korean_reading_form"@.len()); assert("keep_words"@.len() != "korean_stop_tags"@.len()); assert("keep_words"@.len() != "length"@.len()); assert("keep_words"@.len() != "lowercase"@.len()); assert("keep_words"@.len() != "mapping"@.len()); assert("keep_words"@[0] != "stop_words"@[0]); assert("keep_words"@.len() != "uppercase"@.len()); assert("korean_keep_tags"@.len() != "korean_reading_form"@.len()); assert("korean_keep_tags"@[7] != "korean_stop_tags"@[7]); assert("korean_keep_tags"@.len() != "length"@.len()); assert("korean_keep_tags"@.len() != "lowercase"@.len()); assert("korean_keep_tags"@.len() != "mapping"@.len()); assert("korean_keep_tags"@.len() != "stop_words"@.len()); assert("korean_keep_tags"@.len() != "uppercase"@.len()); assert("korean_reading_form"@.len() != "korean_stop_tags"@.len()); assert("korean_reading_form"@.len() != "length"@.len()); assert("korean_reading_form"@.len() != "lowercase"@.len()); assert("korean_reading_form"@.len() != "mapping"@.len()); assert("korean_reading_form"@.len() != "stop_words"@.len()); assert("korean_reading_form"@.len() != "uppercase"@.len()); assert("korean_stop_tags"@.len() != "length"@.len()); assert("korean_stop_tags"@.len() != "lowercase"@.len()); assert("korean_stop_tags"@.len() != "mapping"@.len()); assert("korean_stop_tags"@.len() != "stop_words"@.len()); assert("korean_stop_tags"@.len() != "uppercase"@.len()); assert("length"@.len() != "lowercase"@.len()); assert("length"@.len() != "mapping"@.len()); assert("length"@.len() != "stop_words"@.len()); assert("length"@.len() != "uppercase"@.len()); assert("lowercase"@.len() != "mapping"@.len()); assert("lowercase"@.len() != "stop_words"@.len()); assert("lowercase"@[0] != "uppercase"@[0]); assert("mapping"@.len() != "stop_words"@.len()); assert("mapping"@.len() != "uppercase"@.len()); assert("stop_words"@.len() != "uppercase"@.len()); }
@item fn lindera-filter/src/token_filter.rs TokenFilterLoader::load_from_cli_flag
@ret r
@spec
  ensures jparse(flag_json(cli_flag@)) is None ==> r is Err, jparse(flag_json(cli_flag@)) is Some ==> token_loads(flag_kind(cli_flag@), jparse(flag_json(cli_flag@))->0, r)
@end
#[verifier::external_body] pub struct JapaneseIterationMarkCharacterFilter { x: u8 }
impl VxFilter for JapaneseIterationMarkCharacterFilter { open spec fn nm() -> Seq<char> { "japanese_iteration_mark"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct JapaneseIterationMarkCharacterFilterConfig { x: u8 }
impl JapaneseIterationMarkCharacterFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl JapaneseIterationMarkCharacterFilter { #[verifier::external_body] pub fn new(config: JapaneseIterationMarkCharacterFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct MappingCharacterFilter { x: u8 }
impl VxFilter for MappingCharacterFilter { open spec fn nm() -> Seq<char> { "mapping"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct MappingCharacterFilterConfig { x: u8 }
impl MappingCharacterFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl MappingCharacterFilter { pub uninterp spec fn makes(config: MappingCharacterFilterConfig) -> bool; #[verifier::external_body] pub fn new(config: MappingCharacterFilterConfig) -> (r: LinderaResult<Self>) ensures r is Ok ==> r->Ok_0.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct RegexCharacterFilter { x: u8 }
impl VxFilter for RegexCharacterFilter { open spec fn nm() -> Seq<char> { "regex"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct RegexCharacterFilterConfig { x: u8 }
impl RegexCharacterFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl RegexCharacterFilter { pub uninterp spec fn makes(config: RegexCharacterFilterConfig) -> bool; #[verifier::external_body] pub fn new(config: RegexCharacterFilterConfig) -> (r: LinderaResult<Self>) ensures r is Ok ==> r->Ok_0.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct UnicodeNormalizeCharacterFilter { x: u8 }
impl VxFilter for UnicodeNormalizeCharacterFilter { open spec fn nm() -> Seq<char> { "unicode_normalize"@ } uninterp spec fn src(&self) -> Value; }
#[verifier::external_body] pub struct UnicodeNormalizeCharacterFilterConfig { x: u8 }
impl UnicodeNormalizeCharacterFilterConfig { pub uninterp spec fn src(&self) -> Value; #[verifier::external_body] pub fn from_value(v: &Value) -> (r: LinderaResult<Self>) ensures r is Ok <==> jread::<Self>(*v) is Some, r is Ok ==> r->Ok_0.src() == *v { unimplemented!() } }
impl UnicodeNormalizeCharacterFilter { #[verifier::external_body] pub fn new(config: UnicodeNormalizeCharacterFilterConfig) -> (r: Self) ensures r.src() == config.src() { unimplemented!() } }
#[verifier::external_body] pub struct BoxCharacterFilter { x: u8 }
impl BoxCharacterFilter {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn src(&self) -> Value;
    #[verifier::external_body] pub fn from<T: VxFilter>(t: T) -> (r: Self) ensures r.nm() == T::nm(), r.src() == t.src() { unimplemented!() }
}
@item const lindera-filter/src/character_filter/japanese_iteration_mark.rs JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME
@as JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME
@end
@item const lindera-filter/src/character_filter/mapping.rs MAPPING_CHARACTER_FILTER_NAME
@as MAPPING_CHARACTER_FILTER_NAME
@end
@item const lindera-filter/src/character_filter/regex.rs REGEX_CHARACTER_FILTER_NAME
@as REGEX_CHARACTER_FILTER_NAME
@end
@item const lindera-filter/src/character_filter/unicode_normalize.rs UNICODE_NORMALIZE_CHARACTER_FILTER_NAME
@as UNICODE_NORMALIZE_CHARACTER_FILTER_NAME
@end
// the names documented for character filters
pub open spec fn character_kind(k: Seq<char>) -> bool { k == "japanese_iteration_mark"@ || k == "mapping"@ || k == "regex"@ || k == "unicode_normalize"@ }
// kinds without settings
pub open spec fn character_plain(k: Seq<char>) -> bool { false }
// kinds whose settings, once read, always make a filter
pub open spec fn character_total(k: Seq<char>) -> bool { k == "japanese_iteration_mark"@ || k == "unicode_normalize"@ }
pub open spec fn character_readable(k: Seq<char>, v: Value) -> bool { (k == "japanese_iteration_mark"@ ==> jread::<JapaneseIterationMarkCharacterFilterConfig>(v) is Some) && (k == "mapping"@ ==> jread::<MappingCharacterFilterConfig>(v) is Some) && (k == "regex"@ ==> jread::<RegexCharacterFilterConfig>(v) is Some) && (k == "unicode_normalize"@ ==> jread::<UnicodeNormalizeCharacterFilterConfig>(v) is Some) }
pub open spec fn character_loads(k: Seq<char>, v: Value, r: LinderaResult<BoxCharacterFilter>) -> bool {
    &&& !(character_kind(k) && character_readable(k, v)) ==> r is Err
    &&& character_total(k) && character_readable(k, v) ==> r is Ok
    &&& r is Ok ==> r->Ok_0.nm() == k && (character_plain(k) || r->Ok_0.src() == v)
}
@item fn lindera-filter/src/character_filter/japanese_iteration_mark.rs JapaneseIterationMarkCharacterFilter::name
@impl impl JapaneseIterationMarkCharacterFilter
@ret r
@spec
  ensures r@ == JapaneseIterationMarkCharacterFilter::nm()
@end
@item fn lindera-filter/src/character_filter/mapping.rs MappingCharacterFilter::name
@impl impl MappingCharacterFilter
@ret r
@spec
  ensures r@ == MappingCharacterFilter::nm()
@end
@item fn lindera-filter/src/character_filter/regex.rs RegexCharacterFilter::name
@impl impl RegexCharacterFilter
@ret r
@spec
  ensures r@ == RegexCharacterFilter::nm()
@end
@item fn lindera-filter/src/character_filter/unicode_normalize.rs UnicodeNormalizeCharacterFilter::name
@impl impl UnicodeNormalizeCharacterFilter
@ret r
@spec
  ensures r@ == UnicodeNormalizeCharacterFilter::nm()
@end
@item struct lindera-filter/src/character_filter.rs CharacterFilterLoader
@end
@item fn lindera-filter/src/character_filter.rs CharacterFilterLoader::load_from_value
@ret r
@spec
  ensures character_loads(kind@, *value, r)
@at start
  proof { lemma_character_names(); }
@end
pub proof fn lemma_character_names() ensures "japanese_iteration_mark"@ != "mapping"@, "japanese_iteration_mark"@ != "regex"@, "japanese_iteration_mark"@ != "unicode_normalize"@, "mapping"@ != "regex"@, "mapping"@ != "unicode_normalize"@, "regex"@ != "unicode_normalize"@ { reveal_strlit("japanese_iteration_mark"); reveal_strlit("mapping"); reveal_strlit("regex"); reveal_strlit("unicode_normalize");  assert("japanese_iteration_mark"@.len() != "mapping"@.len()); assert("japanese_iteration_mark"@.len() != "regex"@.len()); assert("japanese_iteration_mark"@.len() != "unicode_normalize"@.len()); assert("mapping"@.len() != "regex"@.len()); assert("mapping"@.len() != "unicode_normalize"@.len()); assert("regex"@.len() != "unicode_normalize"@.len()); }
@item fn lindera-filter/src/character_filter.rs CharacterFilterLoader::load_from_cli_flag
@ret r
@spec
  ensures jparse(flag_json(cli_flag@)) is None ==> r is Err, jparse(flag_json(cli_flag@)) is Some ==> character_loads(flag_kind(cli_flag@), jparse(flag_json(cli_flag@))->0, r)
@end
fn main() {}
} // verus!
