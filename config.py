"""Which units and functions decide which property."""
MULT_QUICK = 10
MULT_THOROUGH = 60

LATTICE = ["well-formed dictionary: ids inside the matrix, at least one unknown word for every character, character categories known",
           "path costs fit 32 bits and texts are shorter than 2^31 bytes", "yada's common prefix search, str::split_inclusive and the default lattice behave as documented"]
FROM_VALUE = [k + "Config::from_value" for k in ("JapaneseStopTagsTokenFilter", "JapaneseKeepTagsTokenFilter", "KoreanStopTagsTokenFilter", "KoreanKeepTagsTokenFilter",
    "StopWordsTokenFilter", "KeepWordsTokenFilter", "LengthTokenFilter", "JapaneseNumberTokenFilter", "JapaneseCompoundWordTokenFilter", "JapaneseBaseFormTokenFilter",
    "JapaneseReadingFormTokenFilter", "JapaneseKatakanaStemTokenFilter", "JapaneseKanaTokenFilter", "MappingTokenFilter", "JapaneseIterationMarkCharacterFilter",
    "MappingCharacterFilter", "UnicodeNormalizeCharacterFilter", "RegexCharacterFilter")]
PROPS = {
    "C01": {"units": {"viterbi": "*"}, "level": "proof",
            "alarm": ["Lattice::tokens_offset", "Lattice::edge", "Token::new", "Tokenizer::tokenize"],
            "assumptions": LATTICE, "bounded": "loading the dictionary, the analysis of a whole text against the reference model"},
    "C02": {"units": {"viterbi": "*"}, "level": "proof",
            "alarm": ["Lattice::calculate_path_costs", "Lattice::tokens_offset"],
            "assumptions": LATTICE, "bounded": "the analysis of a whole text against the reference model"},
    "C03": {"units": {"viterbi": "*"}, "level": "proof",
            "alarm": ["Lattice::set_text", "Lattice::process_unknown_word", "Lattice::add_edge_in_lattice", "Lattice::add_edge", "is_kanji", "is_kanji_only", "LookupTable::eval",
                      "CharacterDefinitions::lookup_categories", "CharacterDefinitions::lookup_definition", "UnknownDictionary::lookup_word_ids", "UnknownDictionary::word_entry"],
            "assumptions": LATTICE, "bounded": "the analysis of a whole text against the reference model"},
    "C04": {"units": {"viterbi": "*"}, "level": "proof",
            "alarm": ["Lattice::clear", "Lattice::set_capacity", "Tokenizer::tokenize"],
            "assumptions": LATTICE, "bounded": "histories of several texts on one tokenizer"},
    "C05": {"units": {"word_entry": "*"}, "level": "proof",
            "assumptions": ["byteorder reads and writes little-endian integers; io::Write of a Vec appends"],
            "bounded": "agreement of the trusted byteorder contracts with the real crate (sampled)"},
    "C06": {"units": {"connection": "*"}, "level": "proof",
            "assumptions": ["byteorder reads little-endian integers", "file reading, line splitting, integer parsing and writing the output file are trusted glue"],
            "bounded": "the file, compression and number parsing glue around the proved builder and lookup"},
    "C07": {"units": {"dict": "*"}, "level": "proof",
            "alarm": ["Dictionary::word_details", r"DictBuilder::build~words_|tail_of|joined|details|rs\[i\]|compiled", "normalize"],
            "assumptions": ["rows with at least one detail field and no NUL character in the details, fewer than 2^32 rows, less than 4 GiB of details", "reading, decoding and sorting the CSV files, and writing and compressing the parts, are trusted glue", "byteorder writes and reads little-endian integers; std join, split, str::from_utf8 behave as documented"],
            "bounded": "the file and compression glue; the loaded dictionary against the source rows"},
    "C08": {"units": {"userdict": "*"}, "level": "proof",
            "alarm": ["UserDictBuilder::build", "UserDictionary::word_details"],
            "assumptions": ["at most 31 rows per surface, less than 4 GiB of details", "bincode reads back the details it wrote, whatever follows", "yada builds and searches the array as documented", "reading and sorting the CSV rows is trusted glue; the handlers of simple rows are functions of the row"],
            "bounded": "the CSV glue, the handlers of simple rows, tokenizing with the loaded dictionary, the binary form"},
    "C09": {"units": {"prefix_dict": "*", "dict": "*"}, "level": "proof",
            "alarm": ["PrefixDict::prefix", "PrefixDict::find_surface", "PrefixDict::from_static_slice", r"DictBuilder::build~keyset|vals_|grouped|lemma_room|lemma_pack|finds|vx_da|\bid\b"],
            "assumptions": ["at most 31 entries for a surface", "yada builds and searches the array as documented", "byteorder writes and reads little-endian integers", "reading and sorting the CSV rows is trusted glue"],
            "bounded": "the file and compression glue; agreement of the trusted yada contract with the real crate"},
    "C10": {"units": {"chardef": "*"}, "level": "proof",
            "assumptions": ["std string splitting, HashMap<String, _>, BTreeSet, sort and binary search behave as documented", "UTF-16 decoding yields a character of the basic plane", "serialization of the finished definitions (bincode) is faithful"],
            "bounded": "serialized form, text splitting and number parsing glue"},
    "C11": {"units": {"charfilter": "*"}, "level": "proof",
            "alarm": ["MappingCharacterFilter::apply", "RegexCharacterFilter::apply", "UnicodeNormalizeCharacterFilter::apply", "add_offset_diff", "correct_offset"],
            "assumptions": ["outputs shorter than 2^63 bytes", "regex matches are ordered, disjoint and character-aligned; replace_all keeps what is between", "grapheme clusters are non-empty and make up the text; normal forms are uninterpreted", "yada's common prefix search"],
            "bounded": "agreement of the trusted regex, grapheme and normalization contracts with the real crates"},
    "C12": {"units": {"analyzer": "*"}, "level": "proof",
            "alarm": ["Analyzer::analyze"],
            "assumptions": ["every character filter returns a table for its text (proved for the four filters under C11 and C13) and is a function of the text", "every token filter keeps tokens as ordered ranges of the text (proved for the retaining, merging, rewriting and mapping filters: lemmas c12_*) and is a function of the tokens", "the tokenizer returns ordered ranges of the text it is given (C01)", "texts are at most isize::MAX bytes long"],
            "bounded": "dispatch through the boxed filters; the token filters not under contract (number, katakana stem)"},
    "C13": {"units": {"itermark": "*"}, "level": "proof",
            "alarm": ["JapaneseIterationMarkCharacterFilter::apply", "JapaneseIterationMarkCharacterFilter::normalize", "hiragana_add_dakuon", "hiragana_remove_dakuon", "katakana_add_dakuon", "katakana_remove_dakuon"],
            "assumptions": ["BTreeMap<usize, _> filled in ascending order, chars, zip and string building behave as documented", "a String is at most isize::MAX bytes long"],
            "bounded": "agreement of the trusted string and set functions with the real ones"},
    "C14": {"units": {"charfilter": "*", "tokenmap": "*"}, "level": "proof",
            "alarm": ["MappingCharacterFilter::new", "MappingTokenFilter::new", "MappingTokenFilter::apply"],
            "assumptions": ["fewer than 2^31 keys", "outputs shorter than 2^63 bytes", "yada builds and searches the array as documented", "HashMap<String, String>, sort and string building behave as documented"],
            "bounded": "agreement of the trusted yada contract with the real crate"},
    "C15": {"units": {"retain": "*"}, "level": "proof",
            "alarm": ["StopWordsTokenFilter::apply", "KeepWordsTokenFilter::apply", "LengthTokenFilter::apply", "KoreanStopTagsTokenFilter::apply", "KoreanKeepTagsTokenFilter::apply", "JapaneseStopTagsTokenFilter::apply", "JapaneseKeepTagsTokenFilter::apply"],
            "assumptions": ["HashSet<String>, join and char counting behave as documented", "Vec::retain keeps the accepted elements in order (turned into a loop)"],
            "bounded": "agreement of the trusted string and set functions with the real ones"},
    "C16": {"units": {"compound": "*"}, "level": "proof",
            "alarm": ["JapaneseCompoundWordTokenFilter::apply", "JapaneseCompoundWordTokenFilter::concat_token"],
            "assumptions": ["the position lengths of all tokens add up to less than 2^64", "HashSet<String>, join, split and format! behave as documented; Token::clone copies"],
            "bounded": "agreement of the trusted string and set functions with the real ones"},
    "C17": {"units": {"rewrite": "*"}, "level": "proof",
            "alarm": ["JapaneseKatakanaStemTokenFilter::apply", "is_katakana"],
            "assumptions": ["the block table of the unicode_blocks crate", "std string functions"],
            "bounded": "agreement of the trusted string and set functions with the real ones"},
    "C18": {"units": {"rewrite": "*"}, "level": "proof",
            "alarm": ["LowercaseTokenFilter::apply", "UppercaseTokenFilter::apply", "JapaneseBaseFormTokenFilter::apply", "JapaneseReadingFormTokenFilter::apply", "KoreanReadingFormTokenFilter::apply", "JapaneseKanaTokenFilter::apply"],
            "assumptions": ["std case mappings and the kanaria crate are uninterpreted functions of the text"],
            "bounded": "std case mappings; the kanaria conversions"},
    "C19": {"units": {"number": "*"}, "level": "proof",
            "alarm": ["adjust_digits", "to_arabic_numerals", "JapaneseNumberTokenFilter::apply"],
            "assumptions": ["String::insert, insert_str, clear, push_str, reversing and peeking at characters, format!, join and HashSet<String> behave as documented"],
            "bounded": "numerals above 10^24"},
    "C20": {"units": {"compress": "*"}, "level": "proof",
            "assumptions": ["flate2: an encoder's output decodes to what was written to it, with the decoder of the same format; writing to a vector does not fail", "serialization (bincode) of the compressed form is faithful"],
            "bounded": "agreement of the trusted flate2 contracts with the real crate; the serialized form"},
    "C21": {"units": {"names": "*"}, "level": "proof",
            "assumptions": ["comparison of strings"],
            "bounded": "the names used by serde"},
    "C22": {"units": {"mode": "*"}, "level": "proof", "assumptions": ["penalties and lengths small enough that the formula fits 32 bits"],
            "bounded": "effect of the penalty on a whole analysis"},
    "C25": {"units": {"unknown": "*"}, "level": "proof",
            "assumptions": ["std line and comma splitting and integer parsing behave as documented", "serialization of the parsed dictionary (bincode) is faithful"],
            "bounded": "serialized form, text splitting and number parsing glue"},
    "C23": {"units": {"token": "*"}, "level": "proof",
            "alarm": ["UNK", "Token::new", "Token::details", "Token::get_details", "Token::set_details", "WordId::is_unknown", "WordId::is_system"],
            "assumptions": ["the dictionaries have a readable record for the token's id (C07, C08)", "bincode reads back the details it wrote", "a dereferenced once_cell Lazy is the value its initializer makes"],
            "bounded": "tokens of whole analyses"},
    "C26": {"units": {"analyzer": "*"}, "level": "proof",
            "alarm": ["Analyzer::clone"],
            "assumptions": ["the derived Clone of the filters, of the tokenizer and of the dictionaries copies every field", "filters and tokenizer are functions of their settings and the text"],
            "bounded": "the derived clones behind box_clone"},
    "C24": {"units": {"loader": "*", "retain": "*", "compound": "*", "number": "*", "rewrite": "*", "itermark": "*", "tokenmap": "*", "charfilter": "*"}, "level": "proof",
            "alarm": ["JapaneseStopTagsTokenFilterConfig::new", "JapaneseKeepTagsTokenFilterConfig::new", "JapaneseCompoundWordTokenFilterConfig::new", "JapaneseNumberTokenFilterConfig::new",
                      "parse_cli_flag", "TokenFilterLoader::load_from_value", "TokenFilterLoader::load_from_cli_flag", "CharacterFilterLoader::load_from_value", "CharacterFilterLoader::load_from_cli_flag",
                      "RegexCharacterFilter::new", "MappingCharacterFilter::new", "MappingTokenFilter::new"] + FROM_VALUE,
            "assumptions": ["std split, join and HashSet<String> behave as documented", "serde_json reads the derived configurations or reports an error, and never panics (jread)", "the regex crate compiles a pattern or reports an error",
                            "fewer than 2^31 mapping keys"],
            "bounded": "agreement of the trusted serde and regex contracts with the real crates; filters applied to random tokens"},
    "C27": {"units": {"config": "*"}, "level": "proof",
            "alarm": ["DictionaryLoader::load_dictionary", "DictionaryLoader::load_dictionary_from_kind", "DictionaryLoader::load_dictionary_from_config", "DictionaryLoader::load_user_dictionary_from_csv",
                      "DictionaryLoader::load_user_dictionary_from_bin", "DictionaryLoader::load_user_dictionary_from_config", "DictionaryBuilderResolver::resolve_builder", "UserDictionary::load",
                      "TokenizerConfig::default", "Tokenizer::new", "Tokenizer::from_config", "AnalyzerConfig::from_slice", "AnalyzerConfig::from_file", "Analyzer::new", "Analyzer::from_config"],
            "assumptions": ["files are read as documented; bincode reads what it wrote or reports an error", "serde and serde_json hand the fields of an object to the visitors as documented", "the filter loaders are functions of kind and arguments (their behaviour: C24)",
                            "a matrix file at least as long as its header says", "the dictionaries included at build time load"],
            "bounded": "serde's derived visitors, the per-dictionary builders, whole analyses with the configured analyzer"},
    "C28": {"units": {"connection": "*", "unknown": "*", "chardef": "*", "dict": "*", "userdict": "*"}, "level": "proof",
            "alarm": ["number", "CostMatrixBuilder::build", "parse_dictionary_entry", "parse_unk", "CharacterDefinitionsBuilder::parse", "CharacterDefinitionsBuilder::parse_range", "CharacterDefinitionsBuilder::parse_category",
                      "CharacterDefinitionsBuilder::build", "parse_hex_codepoint", r"DictBuilder::build~sys_rows_ok|some_nul|keyable|precondition|index", r"UserDictBuilder::build~some_nul|keyable|precondition|index"],
            "assumptions": ["reading the files, splitting them into rows, lines and fields, and parsing integers are trusted glue that reports errors as documented", "fewer than 2^32 rows, less than 4 GiB of details, at most 31 entries for a surface"],
            "bounded": "the per-dictionary builders and the file glue; well-formed sources are accepted"},
    "C29": {"units": {"builders": "*", "chardef": "*", "unknown": "*", "connection": "*", "dict": "*", "userdict": "*"}, "level": "proof",
            "alarm": [t + "::" + f for t in ("IpadicBuilder", "IpadicNeologdBuilder", "UnidicBuilder", "KoDicBuilder", "CcCedictBuilder")
                      for f in ("build_dictionary", "build_user_dictionary", "build_chardef", "build_unk", "build_dict", "build_cost_matrix", "build_user_dict", "build_user_dict#0")]
                     + ["read_file", "read_file_with_encoding", "compress_write", "build_user_dictionary", r"CharDefBuilder::build~has_file|writes", r"UnkBuilder::build~has_file|writes", r"CostMatrixBuilder::build~has_file|writes", r"DictBuilder::build~has_file|writes"],
            "assumptions": ["the file system, the csv crate, glob, encoding_rs and bincode as modelled in contracts/files.inc, csv.inc and globs.inc: reading a file yields its bytes, a flushed writer has written what it was given, an unflushed one nothing that can be relied on",
                            "the single builders' contracts (units chardef, unknown, connection, dict, userdict) are stated over the same files; the builders unit refers to them by name",
                            "fewer than 2^32 rows, less than 4 GiB of details, at most 31 entries for a surface"],
            "bounded": "building, loading and reading back whole directories of the five kinds; failing writes"},
    "C30": {"units": {"cli": "*"}, "level": "proof",
            "assumptions": ["read_line yields the bytes up to and including the next line feed as text, or an error when they are not UTF-8; print! and println! append to standard output",
                            "serde_json indexes, reads and pretty-prints the objects json! makes; str::trim, join and Peekable behave as documented",
                            "loading dictionaries, building filters from flags and analysing are functions of what they are given (units loader, config, analyzer); clap fills in the arguments as declared"],
            "bounded": "clap's argument parsing, main's dispatch and the program as a process"},
}

def all_units():
    s = []
    for p in PROPS.values():
        for u in p["units"]:
            if u not in s:
                s.append(u)
    return s
NOT_APPLICABLE = {}
