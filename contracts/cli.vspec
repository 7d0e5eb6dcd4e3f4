@unit cli
@include prelude.inc
@type File => VxFile
@type Path => PathBuf
@type Box<dyn BufRead> => VxLines
@call File::open => VxFile::open
@call BufReader::new => vx_lines
@call io::stdin => vx_stdin
@call Box::new => vx_same_value
@call Path::new => vx_path
@method trim => vx_trim
@method join => vx_join
@method peekable => vx_peekable
@known from @streq
verus! {
@include strings.inc
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
@include join_only.inc
@include json.inc
@include tokens.inc
#[verifier::external_body]
pub fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// ---- trusted: what is read and what is printed
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn file(p: PathBuf) -> Option<Seq<u8>>;
#[verifier::external_body]
pub struct VxOut { x: u8 }
impl VxOut { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_print(vx_out: &mut VxOut, s: &str) ensures final(vx_out)@ == old(vx_out)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub struct VxFile { x: u8 }
impl VxFile {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn open(p: PathBuf) -> (r: Result<VxFile, LinderaError>) ensures r is Ok <==> file(p) is Some, r is Ok ==> r->Ok_0.rest() == file(p)->0 { unimplemented!() }
}
pub uninterp spec fn stdin_bytes() -> Seq<u8>;
#[verifier::external_body]
pub struct VxStdin { x: u8 }
#[verifier::external_body]
pub fn vx_stdin() -> (r: VxStdin) { unimplemented!() }
pub trait VxSource: Sized { spec fn bytes(&self) -> Seq<u8>; }
impl VxSource for VxFile { open spec fn bytes(&self) -> Seq<u8> { self.rest() } }
impl VxSource for VxStdin { open spec fn bytes(&self) -> Seq<u8> { stdin_bytes() } }
pub fn vx_same_value<T>(x: T) -> (r: T) ensures r == x { x }
// the first line, with its line feed; what a line's bytes mean as UTF-8
pub open spec fn feed(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && b[i] == 10 && forall|j: int| 0 <= j < i ==> b[j] != 10 }
pub open spec fn cut(b: Seq<u8>) -> int { if exists|i: int| feed(b, i) { (choose|i: int| feed(b, i)) + 1 } else { b.len() as int } }
pub uninterp spec fn line_text(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct VxLines { x: u8 }
impl VxLines {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn read_line(&mut self, s: &mut String) -> (r: Result<usize, LinderaError>)
        ensures
            r is Ok <==> line_text(old(self).rest().take(cut(old(self).rest()))) is Some,
            r is Ok ==> final(s)@ == old(s)@ + line_text(old(self).rest().take(cut(old(self).rest())))->0 && final(self).rest() == old(self).rest().skip(cut(old(self).rest())) && r->Ok_0 == cut(old(self).rest()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_lines<S: VxSource>(s: S) -> (r: VxLines) ensures r.rest() == s.bytes() { unimplemented!() }
pub proof fn lemma_cut(b: Seq<u8>) ensures 0 <= cut(b) <= b.len(), b.len() > 0 ==> cut(b) > 0 { if exists|i: int| feed(b, i) { let i = choose|i: int| feed(b, i); assert(feed(b, i)); } }
// trusted: std strings
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxTrim { spec fn ts(&self) -> Seq<char>; fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.ts()); }
impl VxTrim for String { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() } }
impl VxTrim for str { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPeek<'a, T> { x: &'a T }
impl<'a, T> VxPeek<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>) ensures r is Some <==> old(self).rest().len() > 0, r is Some ==> *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r is None ==> final(self).rest() == old(self).rest() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<&T>) ensures final(self).rest() == old(self).rest(), r is Some <==> old(self).rest().len() > 0, r is Some ==> *r->0 == old(self).rest()[0] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_peek<'a, T>(v: &'a Vec<T>) -> (r: VxPeek<'a, T>) ensures r.rest() == v@ { unimplemented!() }
// ---- the library, by its contracts (units config, loader, analyzer)
@item enum lindera-dictionary/src/lib.rs DictionaryKind derive(Clone, Copy)
@end
@item struct lindera-core/src/mode.rs Penalty derive(Clone, Copy)
@end
@item enum lindera-core/src/mode.rs Mode
@end
@item struct lindera-dictionary/src/lib.rs DictionaryConfig
@end
@item struct lindera-dictionary/src/lib.rs UserDictionaryConfig
@end
#[verifier::external_body] pub struct Dictionary { x: u8 }
#[verifier::external_body] pub struct UserDictionary { x: u8 }
#[verifier::external_body] pub struct BoxCharacterFilter { x: u8 }
#[verifier::external_body] pub struct BoxTokenFilter { x: u8 }
pub struct DictionaryLoader {}
pub uninterp spec fn conf_dict(c: DictionaryConfig) -> Option<Dictionary>;
pub uninterp spec fn conf_user(c: UserDictionaryConfig) -> Option<UserDictionary>;
impl DictionaryLoader {
    #[verifier::external_body] pub fn load_dictionary_from_config(c: DictionaryConfig) -> (r: LinderaResult<Dictionary>) ensures r is Ok <==> conf_dict(c) is Some, r is Ok ==> r->Ok_0 == conf_dict(c)->0 { unimplemented!() }
    #[verifier::external_body] pub fn load_user_dictionary_from_config(c: UserDictionaryConfig) -> (r: LinderaResult<UserDictionary>) ensures r is Ok <==> conf_user(c) is Some, r is Ok ==> r->Ok_0 == conf_user(c)->0 { unimplemented!() }
}
pub uninterp spec fn cf_flag(s: Seq<char>) -> Option<BoxCharacterFilter>;
pub uninterp spec fn tf_flag(s: Seq<char>) -> Option<BoxTokenFilter>;
pub struct CharacterFilterLoader {}
impl CharacterFilterLoader { #[verifier::external_body] pub fn load_from_cli_flag(s: &str) -> (r: LinderaResult<BoxCharacterFilter>) ensures r is Ok <==> cf_flag(s@) is Some, r is Ok ==> r->Ok_0 == cf_flag(s@)->0 { unimplemented!() } }
pub struct TokenFilterLoader {}
impl TokenFilterLoader { #[verifier::external_body] pub fn load_from_cli_flag(s: &str) -> (r: LinderaResult<BoxTokenFilter>) ensures r is Ok <==> tf_flag(s@) is Some, r is Ok ==> r->Ok_0 == tf_flag(s@)->0 { unimplemented!() } }
pub struct Tokenizer { pub dictionary: Dictionary, pub user_dictionary: Option<UserDictionary>, pub mode: Mode }
impl Tokenizer { pub fn new(dictionary: Dictionary, user_dictionary: Option<UserDictionary>, mode: Mode) -> (r: Tokenizer) ensures r.dictionary == dictionary, r.user_dictionary == user_dictionary, r.mode == mode { Tokenizer { dictionary, user_dictionary, mode } } }
pub struct Analyzer { pub character_filters: Vec<BoxCharacterFilter>, pub tokenizer: Tokenizer, pub token_filters: Vec<BoxTokenFilter> }
pub ghost struct An { pub cfs: Seq<BoxCharacterFilter>, pub dict: Dictionary, pub user: Option<UserDictionary>, pub mode: Mode, pub tfs: Seq<BoxTokenFilter> }
pub open spec fn an(a: Analyzer) -> An { An { cfs: a.character_filters@, dict: a.tokenizer.dictionary, user: a.tokenizer.user_dictionary, mode: a.tokenizer.mode, tfs: a.token_filters@ } }
// the analysis of a text (unit analyzer)
pub uninterp spec fn analysis(a: An, t: Seq<char>) -> Option<Seq<TokV>>;
impl Analyzer {
    pub fn new(character_filters: Vec<BoxCharacterFilter>, tokenizer: Tokenizer, token_filters: Vec<BoxTokenFilter>) -> (r: Analyzer) ensures an(r) == (An { cfs: character_filters@, dict: tokenizer.dictionary, user: tokenizer.user_dictionary, mode: tokenizer.mode, tfs: token_filters@ }) { Analyzer { character_filters, tokenizer, token_filters } }
    #[verifier::external_body] pub fn analyze(&self, text: &str) -> (r: LinderaResult<Vec<Token>>) ensures r is Ok <==> analysis(an(*self), text@) is Some, r is Ok ==> tvs(r->Ok_0@) == analysis(an(*self), text@)->0 { unimplemented!() }
}
// ---- trusted: serde_json: an object with these fields; pretty printing
pub uninterp spec fn json_token(text: Seq<char>, details: Seq<Seq<char>>, byte_start: int, byte_end: int, word_id: WordId) -> Value;
#[verifier::external_body]
pub fn vx_json_token(text: &String, details: &Vec<String>, byte_start: &usize, byte_end: &usize, word_id: &WordId) -> (r: Value) ensures r == json_token(text@, dv(details@), *byte_start as int, *byte_end as int, *word_id) { unimplemented!() }
pub axiom fn ax_json_token(text: Seq<char>, details: Seq<Seq<char>>, a: int, b: int, w: WordId)
    ensures
        jstr(jat(json_token(text, details, a, b, w), "text"@)) == Some(text),
        jarr(jat(json_token(text, details, a, b, w), "details"@)) is Some,
        str_list(jarr(jat(json_token(text, details, a, b, w), "details"@))->0) == Some(details);
pub open spec fn all_strs(l: Seq<Value>) -> bool { forall|i: int| 0 <= i < l.len() ==> jstr(#[trigger] l[i]) is Some }
pub open spec fn str_list(l: Seq<Value>) -> Option<Seq<Seq<char>>> { if all_strs(l) { Some(Seq::new(l.len(), |i: int| jstr(l[i])->0)) } else { None } }
pub uninterp spec fn pretty(v: Seq<Value>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_pretty(v: &Vec<Value>) -> (r: Result<String, LinderaError>) ensures r is Ok <==> pretty(v@) is Some, r is Ok ==> r->Ok_0@ == pretty(v@)->0 { unimplemented!() }
// ---- C30: what is printed for the tokens of a line
@item enum lindera-cli/src/main.rs Format derive(Clone, Copy)
@end
pub open spec fn val(t: TokV) -> Value { json_token(t.text, t.details, t.byte_start, t.byte_end, t.word_id) }
pub open spec fn vals(s: Seq<TokV>) -> Seq<Value> { Seq::new(s.len(), |i: int| val(s[i])) }
pub open spec fn text_of(v: Value) -> Seq<char> { jstr(jat(v, "text"@))->0 }
pub open spec fn details_of(v: Value) -> Seq<Seq<char>> { str_list(jarr(jat(v, "details"@))->0)->0 }
// text, tab, details joined by commas, line feed
pub open spec fn mecab_line(v: Value) -> Seq<char> { text_of(v) + "\t"@ + joined(details_of(v), ","@) + "\n"@ }
pub open spec fn mecab(vs: Seq<Value>) -> Seq<char> decreases vs.len() { if vs.len() == 0 { Seq::empty() } else { mecab(vs.drop_last()) + mecab_line(vs.last()) } }
// the texts separated by one space, and a line feed; nothing without tokens
pub open spec fn wakati(vs: Seq<Value>) -> Seq<char> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else if vs.len() == 1 { text_of(vs[0]) + "\n"@ } else { text_of(vs[0]) + " "@ + wakati(vs.skip(1)) }
}
pub open spec fn token_value(v: Value) -> bool { jstr(jat(v, "text"@)) is Some && jarr(jat(v, "details"@)) is Some && all_strs(jarr(jat(v, "details"@))->0) }
pub open spec fn token_values(vs: Seq<Value>) -> bool { forall|i: int| 0 <= i < vs.len() ==> token_value(#[trigger] vs[i]) }
pub proof fn lemma_vals(s: Seq<TokV>) ensures token_values(vals(s)) {
    assert forall|i: int| 0 <= i < s.len() implies token_value(#[trigger] vals(s)[i]) by { ax_json_token(s[i].text, s[i].details, s[i].byte_start, s[i].byte_end, s[i].word_id); }
}
// so the lines show the token's text and details
pub proof fn c30_line(t: TokV) ensures mecab_line(val(t)) == t.text + "\t"@ + joined(t.details, ","@) + "\n"@ { ax_json_token(t.text, t.details, t.byte_start, t.byte_end, t.word_id); }
pub proof fn lemma_wakati(vs: Seq<Value>, k: int) requires 0 <= k <= vs.len(), ensures k < vs.len() ==> wakati(vs.skip(k)) == text_of(vs[k]) + (if k + 1 == vs.len() { "\n"@ } else { " "@ }) + wakati(vs.skip(k + 1)), k == vs.len() ==> wakati(vs.skip(k)) == Seq::<char>::empty() {
    if k < vs.len() { assert(vs.skip(k).skip(1) =~= vs.skip(k + 1)); if k + 1 == vs.len() { assert(vs.skip(k + 1).len() == 0); assert(text_of(vs[k]) + "\n"@ + Seq::<char>::empty() =~= text_of(vs[k]) + "\n"@); } }
}
@item fn lindera-cli/src/main.rs mecab_output
@sig (tokens: Vec<Value>, vx_out: &mut VxOut) -> (r: LinderaResult<()>)
@replace $v["text"] ==> $v.vx_at("text")
@replace $v["details"] ==> $v.vx_at("details")
@replace $v.iter_mut() ==> $v.iter()
@spec
  requires token_values(tokens@),
  ensures r is Ok, final(vx_out)@ == old(vx_out)@ + mecab(tokens@) + "EOS\n"@
@loop 0
  invariant
    token_values(tokens@), it0.seq().len() == tokens@.len(), forall|i: int| 0 <= i < tokens@.len() ==> *(#[trigger] it0.seq()[i]) == tokens@[i],
    vx_out@ == old(vx_out)@ + mecab(tokens@.take(it0.index()))
@at loop 0 body_start
  let ghost v = tokens@[it0.index()]; let ghost o = vx_out@;
  proof { assert(token_value(v)); assert(*it0.seq()[it0.index()] == v); reveal_strlit("text"); reveal_strlit("details"); }
@loop 1
  invariant
    it1.seq().len() == jarr(jat(v, "details"@))->0.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == jarr(jat(v, "details"@))->0[i],
    all_strs(jarr(jat(v, "details"@))->0), vxc1@.len() == it1.index(), forall|i: int| 0 <= i < it1.index() ==> (#[trigger] vxc1@[i])@ == jstr(jarr(jat(v, "details"@))->0[i])->0
@at loop 1 body_start
  proof { assert(*it1.seq()[it1.index()] == jarr(jat(v, "details"@))->0[it1.index()]); assert(jstr(jarr(jat(v, "details"@))->0[it1.index()]) is Some); }
@at loop 1 after
  proof { assert(strs(vxc1@) =~= details_of(v)); }
@at loop 0 body_end
  proof {
    assert(tokens@.take(it0.index() + 1).drop_last() =~= tokens@.take(it0.index()));
    assert(vx_out@ =~= o + mecab_line(v)); assert(vx_out@ =~= old(vx_out)@ + mecab(tokens@.take(it0.index() + 1)));
  }
@at loop 0 after
  proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
@at tail
  proof { assert(vx_out@ =~= old(vx_out)@ + mecab(tokens@) + "EOS\n"@); }
@end
@item fn lindera-cli/src/main.rs wakati_output
@sig (tokens: Vec<Value>, vx_out: &mut VxOut) -> (r: LinderaResult<()>)
@replace tokens.iter().peekable() ==> vx_peek(&tokens)
@replace $v["text"] ==> $v.vx_at("text")
@spec
  requires token_values(tokens@),
  ensures r is Ok, final(vx_out)@ == old(vx_out)@ + wakati(tokens@)
@at start
  let ghost mut k: int = 0;
  proof { assert(tokens@.skip(0) =~= tokens@); }
@loop 0
  invariant
    token_values(tokens@), 0 <= k <= tokens@.len(), it.rest() == tokens@.skip(k), old(vx_out)@ + wakati(tokens@) == vx_out@ + wakati(tokens@.skip(k))
  ensures k == tokens@.len()
  decreases tokens@.len() - k
@at loop 0 body_start
  let ghost v = tokens@[k]; let ghost o = vx_out@;
  proof { assert(token_value(v)); assert(*token == v); lemma_wakati(tokens@, k); assert(tokens@.skip(k).skip(1) =~= tokens@.skip(k + 1)); k = k + 1; }
@at loop 0 body_end
  proof { assert(vx_out@ =~= o + text_of(v) + (if k == tokens@.len() { "\n"@ } else { " "@ })); assert(vx_out@ + wakati(tokens@.skip(k)) =~= o + (text_of(v) + (if k == tokens@.len() { "\n"@ } else { " "@ }) + wakati(tokens@.skip(k)))); }
@at loop 0 after
  proof { lemma_wakati(tokens@, k); assert(vx_out@ + Seq::<char>::empty() =~= vx_out@); }
@end
@item fn lindera-cli/src/main.rs json_output
@sig (tokens: Vec<Value>, vx_out: &mut VxOut) -> (r: LinderaResult<()>)
@replace serde_json::to_string_pretty($$x1) ==> vx_pretty($x1)
@spec
  ensures r is Ok <==> pretty(tokens@) is Some, final(vx_out)@ == old(vx_out)@ + if r is Ok { pretty(tokens@)->0 + "\n"@ } else { Seq::empty() }
@end
@item fn lindera-cli/src/main.rs Format::from_str
@impl impl Format
@rettype Result<Format, LinderaError>
@spec
  ensures r is Ok <==> named(s@) is Some, r is Ok ==> r->Ok_0 == named(s@)->0
@at start
  proof { reveal_strlit("mecab"); reveal_strlit("wakati"); reveal_strlit("json"); assert("mecab"@[0] == 'm' && "wakati"@[0] == 'w' && "json"@[0] == 'j'); }
@end
pub open spec fn named(s: Seq<char>) -> Option<Format> { if s == "mecab"@ { Some(Format::Mecab) } else if s == "wakati"@ { Some(Format::Wakati) } else if s == "json"@ { Some(Format::Json) } else { None } }
// what one line shows, and all of them
pub open spec fn shown(f: Format, s: Seq<TokV>) -> Option<Seq<char>> {
    match f { Format::Mecab => Some(mecab(vals(s)) + "EOS\n"@), Format::Wakati => Some(wakati(vals(s))), Format::Json => if pretty(vals(s)) is Some { Some(pretty(vals(s))->0 + "\n"@) } else { None } }
}
pub open spec fn line_shown(f: Format, a: An, b: Seq<u8>) -> Option<Seq<char>> {
    match line_text(b) { Some(t) => match analysis(a, trimmed(t)) { Some(s) => shown(f, s), None => None }, None => None }
}
pub open spec fn lines_shown(f: Format, a: An, b: Seq<u8>) -> Option<Seq<char>> decreases b.len() via lines_shown_down {
    if b.len() == 0 { if line_text(b) is Some { Some(Seq::empty()) } else { None } }
    else { match (line_shown(f, a, b.take(cut(b))), lines_shown(f, a, b.skip(cut(b)))) { (Some(x), Some(y)) => Some(x + y), _ => None } }
}
#[via_fn]
proof fn lines_shown_down(f: Format, a: An, b: Seq<u8>) { lemma_cut(b); }
@item struct lindera-cli/src/main.rs TokenizeArgs
@end
pub open spec fn flags(o: Option<Vec<String>>) -> Seq<Seq<char>> { match o { Some(v) => dv(v@), None => Seq::empty() } }
#[verifier::external_body]
pub fn vx_flat(o: &Option<Vec<String>>) -> (r: &Vec<String>) ensures dv(r@) == flags(*o) { unimplemented!() }
pub open spec fn cfs_made(l: Seq<Seq<char>>, s: Seq<BoxCharacterFilter>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> cf_flag(#[trigger] l[i]) == Some(s[i]) }
pub open spec fn tfs_made(l: Seq<Seq<char>>, s: Seq<BoxTokenFilter>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> tf_flag(#[trigger] l[i]) == Some(s[i]) }
// the analyzer the arguments ask for
pub open spec fn asked(g: TokenizeArgs, a: An) -> bool {
    &&& conf_dict(DictionaryConfig { kind: g.dic_type, path: g.dic_dir }) == Some(a.dict)
    &&& match g.user_dic_file { Some(p) => conf_user(UserDictionaryConfig { kind: g.dic_type, path: p }) == a.user && a.user is Some, None => a.user is None }
    &&& a.mode == g.mode && cfs_made(flags(g.character_filters), a.cfs) && tfs_made(flags(g.token_filters), a.tfs)
}
pub open spec fn input_of(g: TokenizeArgs) -> Option<Seq<u8>> { match g.input_file { Some(p) => file(p), None => Some(stdin_bytes()) } }
pub proof fn lemma_asked(g: TokenizeArgs, a: An, b: An) requires asked(g, a), asked(g, b), ensures a == b {
    let l = flags(g.character_filters); let m = flags(g.token_filters);
    assert forall|i: int| 0 <= i < l.len() implies a.cfs[i] == b.cfs[i] by { assert(cf_flag(l[i]) == Some(a.cfs[i])); }
    assert forall|i: int| 0 <= i < m.len() implies a.tfs[i] == b.tfs[i] by { assert(tf_flag(m[i]) == Some(a.tfs[i])); }
    assert(a.cfs =~= b.cfs && a.tfs =~= b.tfs);
}
pub open spec fn and_then(x: Seq<char>, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(y) => Some(x + y), None => None } }
pub proof fn lemma_shown(f: Format, a: An, b: Seq<u8>, out: Seq<char>)
    ensures
        line_text(b.take(cut(b))) is None ==> lines_shown(f, a, b) is None,
        b.len() == 0 ==> b.skip(cut(b)) == b && (line_text(b.take(cut(b))) is Some ==> lines_shown(f, a, b) == Some(Seq::<char>::empty())) && out + Seq::<char>::empty() == out,
        b.len() > 0 && line_shown(f, a, b.take(cut(b))) is None ==> lines_shown(f, a, b) is None,
        b.len() > 0 && line_shown(f, a, b.take(cut(b))) is Some ==> and_then(out, lines_shown(f, a, b)) == and_then(out + line_shown(f, a, b.take(cut(b)))->0, lines_shown(f, a, b.skip(cut(b)))),
{
    lemma_cut(b);
    if b.len() == 0 { assert(b.take(cut(b)) =~= b && b.skip(cut(b)) =~= b && out + Seq::<char>::empty() =~= out); }
    else if line_shown(f, a, b.take(cut(b))) is Some && lines_shown(f, a, b.skip(cut(b))) is Some {
        let x = line_shown(f, a, b.take(cut(b)))->0; let y = lines_shown(f, a, b.skip(cut(b)))->0;
        assert(out + (x + y) =~= out + x + y);
    }
}
pub open spec fn printed(g: TokenizeArgs, a: An, o: Seq<char>) -> bool { asked(g, a) && named(g.output_format@) is Some && input_of(g) is Some && lines_shown(named(g.output_format@)->0, a, input_of(g)->0) == Some(o) }
@item fn lindera-cli/src/main.rs tokenize
@sig (args: TokenizeArgs, vx_out: &mut VxOut) -> (r: LinderaResult<()>)
@replace $v.iter_mut() ==> $v.iter()
@replace mecab_output($$x1) ==> mecab_output($x1, vx_out)
@replace json_output($$x1) ==> json_output($x1, vx_out)
@replace wakati_output($$x1) ==> wakati_output($x1, vx_out)
@replace args.character_filters.iter().flatten() ==> vx_flat(&args.character_filters).iter()
@replace args.token_filters.iter().flatten() ==> vx_flat(&args.token_filters).iter()
@replace serde_json::json!({ "text": $$x1, "details": $$x2, "byte_start": $$x3, "byte_end": $$x4, "word_id": $$x5, }) ==> vx_json_token(&$x1, &$x2, &$x3, &$x4, &$x5)
@spec
  ensures
    r is Ok ==> exists|a: An, o: Seq<char>| #[trigger] printed(args, a, o) && final(vx_out)@ == old(vx_out)@ + o,
    r is Err ==> forall|a: An, o: Seq<char>| !printed(args, a, o)
@loop 0
  invariant
    it0.seq().len() == flags(args.character_filters).len(), forall|i: int| 0 <= i < it0.seq().len() ==> (*(#[trigger] it0.seq()[i]))@ == flags(args.character_filters)[i],
    vx_out@ == old(vx_out)@, character_filters@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> cf_flag(#[trigger] flags(args.character_filters)[i]) == Some(character_filters@[i])
@at loop 0 body_start
  proof { assert((*it0.seq()[it0.index()])@ == flags(args.character_filters)[it0.index()]); }
@loop 1
  invariant
    it1.seq().len() == flags(args.token_filters).len(), forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]))@ == flags(args.token_filters)[i],
    vx_out@ == old(vx_out)@, token_filters@.len() == it1.index(), forall|i: int| 0 <= i < it1.index() ==> tf_flag(#[trigger] flags(args.token_filters)[i]) == Some(token_filters@[i])
@at loop 1 body_start
  proof { assert((*it1.seq()[it1.index()])@ == flags(args.token_filters)[it1.index()]); }
@at let analyzer 0 after
  let ghost a = an(analyzer);
  proof {
    assert(asked(args, a));
    assert forall|b: An| asked(args, b) implies a == b by { lemma_asked(args, a, b); }
  }
@at loop 2 before
  let ghost input = reader.rest(); let ghost mut out: Seq<char> = Seq::empty();
@loop 2
  invariant
    a == an(analyzer), asked(args, a), forall|b: An| asked(args, b) ==> a == b, named(args.output_format@) == Some(output_format), input_of(args) == Some(input),
    vx_out@ == old(vx_out)@ + out, lines_shown(output_format, a, input) == and_then(out, lines_shown(output_format, a, reader.rest()))
  ensures
    printed(args, a, out), vx_out@ == old(vx_out)@ + out
  decreases reader.rest().len()
@at loop 2 body_start
  let ghost rest = reader.rest();
  proof { lemma_cut(rest); lemma_shown(output_format, a, rest, out); }
@loop 3
  invariant
    it3.seq().len() == tmp_tokens@.len(), forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == tmp_tokens@[i],
    tokens@.len() == it3.index(), forall|i: int| 0 <= i < it3.index() ==> #[trigger] tokens@[i] == val(tvs(tmp_tokens@)[i])
@at loop 3 body_start
  proof { assert(*it3.seq()[it3.index()] == tmp_tokens@[it3.index()]); }
@at loop 3 after
  let ghost shows = tvs(tmp_tokens@);
  proof { assert(tokens@ =~= vals(shows)); lemma_vals(shows); }
  let ghost before = vx_out@;
@at loop 2 body_end
  proof {
    let line = shown(output_format, shows)->0;
    assert(vx_out@ =~= before + line);
    out = out + line;
  }
@end
// ---- `list` and `build`
pub uninterp spec fn contained() -> Seq<DictionaryKind>;
pub uninterp spec fn kind_name(k: DictionaryKind) -> Seq<char>;
impl DictionaryKind {
    #[verifier::external_body] pub fn contained_variants() -> (r: Vec<DictionaryKind>) ensures r@ == contained() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == kind_name(*self) { unimplemented!() }
}
pub open spec fn names(l: Seq<DictionaryKind>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { names(l.drop_last()) + kind_name(l.last()) + "\n"@ } }
@item struct lindera-cli/src/main.rs ListArgs
@end
@item fn lindera-cli/src/main.rs list
@sig (_args: ListArgs, vx_out: &mut VxOut) -> (r: LinderaResult<()>)
@spec
  ensures r is Ok, final(vx_out)@ == old(vx_out)@ + names(contained())
@loop 0
  invariant
    it0.seq().len() == contained().len(), forall|i: int| 0 <= i < it0.seq().len() ==> #[trigger] it0.seq()[i] == contained()[i],
    vx_out@ == old(vx_out)@ + names(contained().take(it0.index()))
@at loop 0 body_start
  let ghost o = vx_out@;
  proof { assert(it0.seq()[it0.index()] == contained()[it0.index()]); }
@at loop 0 body_end
  proof { assert(contained().take(it0.index() + 1).drop_last() =~= contained().take(it0.index())); assert(vx_out@ =~= o + kind_name(contained()[it0.index()]) + "\n"@); assert(vx_out@ =~= old(vx_out)@ + names(contained().take(it0.index() + 1))); }
@at loop 0 after
  proof { assert(contained().take(contained().len() as int) =~= contained()); }
@end
// trusted: paths; what building leaves and whether it succeeds is a function of the kind and the two paths
#[verifier::external_body]
pub struct OsStr { x: u8 }
pub uninterp spec fn last_name(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn pjoin(p: PathBuf, n: Seq<char>) -> PathBuf;
pub uninterp spec fn with_ext(p: PathBuf, e: Seq<char>) -> PathBuf;
impl OsStr { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_path(p: &PathBuf) -> (r: &PathBuf) ensures *r == *p { p }
impl PathBuf {
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> last_name(*self) is Some, r is Some ==> r->0@ == last_name(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_join(&self, n: &OsStr) -> (r: PathBuf) ensures r == pjoin(*self, n@) { unimplemented!() }
    #[verifier::external_body] pub fn set_extension(&mut self, e: &str) -> (r: bool) ensures *final(self) == with_ext(*old(self), e@) { unimplemented!() }
}
pub uninterp spec fn built(k: DictionaryKind, src: PathBuf, dest: PathBuf) -> LinderaResult<()>;
pub uninterp spec fn built_user(k: DictionaryKind, src: PathBuf, dest: PathBuf) -> LinderaResult<()>;
#[verifier::external_body]
pub struct VxBuilder { x: u8 }
impl VxBuilder {
    pub uninterp spec fn kind(&self) -> DictionaryKind;
    #[verifier::external_body] pub fn build_dictionary(&self, src: &PathBuf, dest: &PathBuf) -> (r: LinderaResult<()>) ensures r == built(self.kind(), *src, *dest) { unimplemented!() }
    #[verifier::external_body] pub fn build_user_dictionary(&self, src: &PathBuf, dest: &PathBuf) -> (r: LinderaResult<()>) ensures r == built_user(self.kind(), *src, *dest) { unimplemented!() }
}
pub struct DictionaryBuilderResolver {}
impl DictionaryBuilderResolver { #[verifier::external_body] pub fn resolve_builder(k: DictionaryKind) -> (r: LinderaResult<VxBuilder>) ensures r is Ok && r->Ok_0.kind() == k { unimplemented!() } }
@item struct lindera-cli/src/main.rs BuildArgs
@end
@item fn lindera-cli/src/main.rs build
@spec
  ensures r == (if !args.build_user_dic { built(args.dic_type, args.src_path, args.dest_path) } else { match last_name(args.src_path) { Some(n) => built_user(args.dic_type, args.src_path, with_ext(pjoin(args.dest_path, n), "bin"@)), None => r } }),
    args.build_user_dic && last_name(args.src_path) is None ==> r is Err
@end
} // verus!
fn main() {}
