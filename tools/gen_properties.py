#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements stay easy to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tokens partition the input text",
  "For every input text and every well-formed dictionary (with or without a user dictionary, in either mode), tokenization succeeds without panicking and the byte ranges of the returned tokens are non-empty, contiguous, start at 0, end at the text's length and fall on character boundaries. Every token's text is exactly the slice of the input at its byte range, so the token texts concatenate to the input. Token positions count 0, 1, 2, ... and each position length is 1.",
  ["inputs","configurations"],"every UTF-8 text up to the cost-overflow length, every well-formed dictionary, user dictionary and mode",
  "The tokenizer tests compare a few sentences against fixed outputs (and most of them need a real dictionary that is not present); none quantifies over texts or dictionaries, unusual scripts, 1-4 byte characters or characters without dictionary words.",
  ["lindera-core/src/viterbi.rs","lindera-tokenizer/src/tokenizer.rs"],
  "The lattice builder keeps: a non-empty end list only at character boundaries, and some reachable position at or past every scan position; back-tracking from the end node gives strictly decreasing starts down to 0; the tokenizer turns starts into ranges and accumulates sentence lengths.",
  [{"name":"ends_at/starts_at","meaning":"edges ending/starting at each byte position"},{"name":"unknown_word_end","meaning":"greedy end of the last unknown word in normal mode"}])
p("C02","Segmentation chosen has least total cost",
  "Among all sequences of candidate words that cover a sentence, the one returned minimises the sum of word costs, connection costs between neighbours (including the begin and end of the sentence) and, in decompose mode, the length penalties of the words. No other covering sequence of candidates is cheaper.",
  ["inputs","configurations"],"every sentence, every candidate set the lattice builder can produce, every cost matrix and penalty setting for which the costs of all paths fit 32 bits",
  "Optimality is a statement about exponentially many alternative paths; tests only compare one expected output per sentence and cannot see a wrong cost that happens not to change that output.",
  ["lindera-core/src/viterbi.rs","lindera-core/src/mode.rs","lindera-core/src/connection.rs"],
  "Forward dynamic programme: processing positions in order, each edge's path cost is the minimum over all edges ending where it starts; lemma: that minimum is at most the cost of any path; back pointers attain it.",
  [{"name":"path_cost/left_edge","meaning":"cost of the best path ending with the edge and its predecessor"}])
p("C03","Candidate words are exactly those the dictionaries and rules prescribe",
  "At every position reachable from the sentence start, the candidates considered are exactly all user-dictionary and all system-dictionary words that prefix the remaining text, plus the unknown-word candidates of the first character's categories: one per unknown entry of a category that is always invoked or for which no dictionary word was found, covering one character or, for grouping categories, the maximal run of characters listing that category at the same rank. In normal mode no unknown word is started inside the previous unknown word; in decompose mode that restriction does not apply.",
  ["inputs","configurations"],"every sentence, dictionary, character definition and mode",
  "Tests never look at the candidate set, only at a final segmentation of a few sentences; a lost or spurious candidate usually leaves those unchanged.",
  ["lindera-core/src/viterbi.rs"],
  "Lattice construction adds one edge per dictionary match and per unknown entry at each reachable start, filing it under its start and its end.",
  [{"name":"edges","meaning":"all candidate words with start, stop and costs"}])
p("C04","Sentences are analysed independently of each other and of history",
  "The tokens of a text are the tokens of its sentences (maximal pieces ending at 。, 、, newline or tab) in order, and what was tokenized before never influences the result for a sentence. Consequently no token crosses one of those delimiters and tokenizing the same text again gives the same tokens.",
  ["inputs","histories"],"every text and every sequence of sentences previously processed by the same working lattice",
  "The lattice is reused and only partly reset between sentences; a stale edge shows up only for particular sequences of longer and shorter sentences that the tests do not contain.",
  ["lindera-core/src/viterbi.rs","lindera-tokenizer/src/tokenizer.rs"],
  "Resetting the working lattice yields an empty lattice of sufficient capacity whatever it held before; everything after depends only on the sentence, dictionary and mode.",
  [{"name":"capacity","meaning":"largest sentence seen so far; lists beyond the sentence must stay empty"}])
p("C05","Word entry records round-trip through their binary form",
  "Encoding a word entry always yields exactly ten bytes and decoding those bytes, at any position inside a larger buffer, returns the same word id, cost and context ids with the requested system/user flag.",
  ["inputs"],"every 32-bit word id, 16-bit cost, 16-bit left and right context ids, and flag",
  "One test round-trips a single entry; sign, width and byte-order errors for other values are invisible to it.",
  ["lindera-core/src/word_entry.rs"],"Fixed little-endian layout 4+2+2+2.")
p("C06","Connection costs are the ones defined in the matrix file",
  "After building a connection matrix from its text definition and loading it back, the cost between any forward id and any backward id inside the declared sizes is the 16-bit value defined for that pair. Lookups never mix up rows, columns or signs, whichever loading route is used.",
  ["inputs","configurations"],"every matrix (sizes up to 32767 on each side), every pair of ids, both loading routes",
  "No existing test reads the matrix; segmentation tests with real dictionaries do not run here and would notice only gross errors.",
  ["lindera-core/src/connection.rs","lindera-dictionary-builder/src/cost_matrix.rs"],
  "Row-major layout backward + forward * backward_size after a 4-byte header holding both sizes.")
p("C07","Word details returned are the ones compiled into the dictionary",
  "For every word of a compiled system dictionary, looking up its id returns exactly the detail fields of its source row, in order, and an id outside the dictionary yields nothing rather than a panic or another word's details.",
  ["inputs","configurations"],"every dictionary content with at least one detail field per row (including empty and multi-byte fields, details without NUL, below 4 GiB of details) and every word id, also ids far outside; details are normalised when the builder is told to",
  "No existing test builds a dictionary with more than a placeholder entry; offsets, lengths and separators are never checked across many entries.",
  ["lindera-core/src/dictionary.rs","lindera-dictionary-builder/src/dict.rs"],
  "Index of 32-bit offsets into a data section of length-prefixed NUL-separated fields.",
  [{"name":"words_idx_data/words_data","meaning":"offset index and concatenated records"}])
p("C08","User dictionary entries are found with their details",
  "Every row of a user dictionary, simple or detailed, becomes a user word that is found by its surface with the costs and ids of that row (or the documented defaults) and is marked as a user word. Looking up its id returns exactly that row's details; an id outside the user dictionary yields nothing. A row in neither format is rejected with an error.",
  ["inputs","configurations"],"every user dictionary content in either row format",
  "Tests load one small fixed user dictionary per format; ordering, duplicate surfaces and index arithmetic for other contents are not exercised.",
  ["lindera-core/src/dictionary.rs","lindera-dictionary-builder/src/user_dict.rs","lindera-core/src/prefix_dict.rs"],
  "Rows are sorted by surface, grouped per surface in the trie value (offset and count), with ids counting rows and details stored behind an offset index.")
p("C09","Dictionary lookup returns every entry of every matching surface",
  "Looking up the words that begin a text returns exactly the entries of all dictionary surfaces that are a prefix of that text, each with the byte length of its surface and its own costs and ids; looking up a surface returns exactly that surface's entries. No entry is lost, duplicated or attributed to another surface.",
  ["inputs","configurations"],"every compiled dictionary (any number of surfaces, up to the format's limit of entries per surface) and every text",
  "No test looks words up in a dictionary with several entries or overlapping surfaces.",
  ["lindera-core/src/prefix_dict.rs","lindera-dictionary-builder/src/dict.rs"],
  "Trie value packs (index of first entry << 5 | number of entries); entries are stored consecutively as ten-byte records.",
  [{"name":"vals_data","meaning":"concatenated word entry records"}])
p("C10","Character categories follow the character definition file",
  "For every character, the categories reported are those of all ranges of the definition that contain the character, in order of definition and without repetition, and the DEFAULT category exactly when no range contains it. Both range bounds are inclusive, and category flags reported for a category are the ones defined for it.",
  ["inputs","configurations"],"every 32-bit code point and every set of ranges, overlapping, adjacent or touching the ends",
  "One test probes a two-segment table at 100 points; overlapping ranges and both ends of ranges are never checked.",
  ["lindera-core/src/character_definition.rs"],
  "Boundaries at each low and high+1 make the category function piecewise constant; lookup is a binary search for the segment.",
  [{"name":"boundaries/values","meaning":"segment starts and the categories valid on each segment"}])
p("C11","Character filters report offsets that map back to the original text",
  "For every text, the text a mapping, regex or Unicode-normalization filter produces together with its offset table maps every boundary between transformed pieces back to the byte offset of the same boundary in the filter's input, and every other output offset to a value between the boundaries around it. The correction is monotone, never exceeds the input length and never panics.",
  ["inputs","configurations"],"every text and every filter configuration, including replacements of any length, consecutive replacements and captures",
  "Each filter is tested on a handful of strings with listed offsets; accumulations over several growing and shrinking replacements, and adjacent ones, are not covered.",
  ["lindera-filter/src/character_filter.rs","lindera-filter/src/character_filter/mapping.rs","lindera-filter/src/character_filter/regex.rs","lindera-filter/src/character_filter/unicode_normalize.rs"],
  "While emitting output the filter records (output offset, difference) steps, strictly increasing in offset; correction finds the last step at or before an offset and adds its difference.",
  [{"name":"offsets/diffs","meaning":"step function from output offset to offset difference"}])
p("C12","Analyzer tokens point at the right bytes of the original text",
  "For every chain of character filters, the byte range the analyzer reports for a token is the range of the original text obtained by mapping the token's boundaries back through all filters, last filter first. Filters that change no lengths leave offsets untouched, every range is ordered and within the original text, and texts and details are those of the tokenized text after the token filters in the configured order.",
  ["inputs","configurations"],"every text and every combination of character and token filters",
  "The analyzer tests use one configuration; composition order and the pairing of the recorded tables matter only with two or more length-changing filters.",
  ["lindera-analyzer/src/analyzer.rs","lindera-filter/src/character_filter.rs"],
  "Tables are pushed at the front as filters run, and corrections are applied front to back to both ends of every token.")
p("C13","Iteration marks expand to the character they repeat",
  "For every text, each enabled iteration mark is replaced by the character it repeats: in a run of n marks starting at character p the k-th mark repeats the character min(p, n) places before it, with voiced marks adding and unvoiced kana marks removing the voicing exactly where that kana has such a form (the rows か to と and は to ほ of both syllabaries). All other characters, including disabled marks, are kept in order, and the number of characters never changes.",
  ["inputs","configurations"],"every text and all four enable settings; the voicing functions over every character",
  "Tests list a few words; the voicing tables are checked at a handful of kana, and runs at the text start or longer than their prefix hardly at all.",
  ["lindera-filter/src/character_filter/japanese_iteration_mark.rs"],
  "Marks are collected per run and expanded against the original characters; voicing is arithmetic on code points.")
p("C14","Mapping filters replace the leftmost-longest match and nothing else",
  "For every mapping and every text, the mapping character filter and the mapping token filter produce the result of scanning left to right, replacing at each point the longest key that matches there by its value, and otherwise copying one character. Replaced text is not scanned again and the process always terminates without panicking.",
  ["inputs","configurations"],"every mapping of non-empty keys (overlapping keys, prefixes, empty values, multi-byte keys, the empty mapping) and every text; keys with NUL are rejected with an error",
  "Tests try a few mappings; longest-match among nested keys and mixed copies and replacements are sampled at most once.",
  ["lindera-filter/src/character_filter/mapping.rs","lindera-filter/src/token_filter/mapping.rs"],
  "Loop over the text with a trie of the keys, advancing by the key's or the character's byte length.")
p("C15","Stop, keep and length filters select exactly the prescribed tokens",
  "For every token sequence, the stop-words, keep-words, stop-tags, keep-tags (Japanese and Korean) and length filters return exactly those input tokens that satisfy their criterion, unmodified and in the original order. The criterion is membership of the token's text or part-of-speech tag in the configured set, respectively the character count lying within the inclusive bounds. The Japanese tag is the first four detail fields (with fewer than four, the first one padded with asterisks; with none, asterisks only), the Korean tag the first field (a token without fields has no tag and belongs to no set).",
  ["inputs","configurations"],"every token sequence and every configured set or bound",
  "Each filter is tested on one or two token lists; empty sets, absent bounds, short detail lists and boundary lengths are not.",
  ["lindera-filter/src/token_filter/stop_words.rs","lindera-filter/src/token_filter/keep_words.rs","lindera-filter/src/token_filter/japanese_stop_tags.rs","lindera-filter/src/token_filter/japanese_keep_tags.rs","lindera-filter/src/token_filter/korean_stop_tags.rs","lindera-filter/src/token_filter/korean_keep_tags.rs","lindera-filter/src/token_filter/length.rs"],
  "Order-preserving retain with a predicate on each token.")
p("C16","Compound word filter merges exactly the maximal runs",
  "For every token sequence, each maximal run of consecutive tokens whose part-of-speech tag is configured is replaced by one token whose text is the concatenation of their texts, whose byte range spans from the first start to the last end, whose position is the first token's and whose position length is the sum of theirs. All other tokens are unchanged and in order; a run of one token is unchanged.",
  ["inputs","configurations"],"every token sequence and every tag set",
  "Tests have two token lists; runs at the start or end of the sequence, adjacent to single tokens, or of length three and more are not all covered.",
  ["lindera-filter/src/token_filter/japanese_compound_word.rs"],
  "Single pass with one pending compound token that is flushed by a non-matching token or the end.")
p("C17","Katakana stemming removes only one trailing prolonged sound mark",
  "For every token, the katakana stem filter removes one trailing prolonged sound mark exactly when the whole text is katakana and has more characters than the configured minimum, and otherwise leaves the token untouched. It never panics, whatever characters the text contains.",
  ["inputs","configurations"],"every token text and every minimum",
  "Tests use a handful of words; texts with characters outside every Unicode block, and lengths at the bound, are missing.",
  ["lindera-filter/src/token_filter/japanese_katakana_stem.rs"],
  "Per-token check of the Unicode block of every character, then the suffix and the character count.")
p("C18","Text-rewriting filters change only the text of the tokens they cover",
  "The base-form, reading-form (Japanese and Korean), kana, lowercase and uppercase filters set each token's text to the corresponding dictionary field, or to the kana or case mapping of its own text, leave the text of tokens without that field (unknown words) as it is, and change neither any other attribute nor the number or order of tokens.",
  ["inputs","configurations"],"every token sequence and dictionary kind",
  "Each filter is tested on one token list per dictionary; that other attributes stay untouched for all tokens is never asserted.",
  ["lindera-filter/src/token_filter/japanese_base_form.rs","lindera-filter/src/token_filter/japanese_reading_form.rs","lindera-filter/src/token_filter/korean_reading_form.rs","lindera-filter/src/token_filter/japanese_kana.rs","lindera-filter/src/token_filter/lowercase.rs","lindera-filter/src/token_filter/uppercase.rs"],
  "In-place assignment of the text from a fixed detail index or from a case mapping.")
p("C19","Japanese numerals become the Arabic numeral of the same value",
  "For every canonical Japanese numeral (kanji digits with units up to 垓, or a digit string) the number filter produces the decimal representation of its value, and numerals within other text are converted in place when each begins with a digit. For any other text it terminates without panicking, and characters that are not numerals are kept.",
  ["inputs"],"every canonical numeral below 10^24 and every text",
  "A table of numerals is tested; omitted ones, skipped units, and numerals mixed with other text are sampled sparsely.",
  ["lindera-filter/src/token_filter/japanese_number.rs"],
  "Right-to-left accumulation of digits padded with zeros up to each unit.")
p("C20","Compressed data decompresses to the original bytes",
  "For every byte string and every supported algorithm (deflate, zlib, gzip, raw), decompressing the compressed form returns the original bytes, also when the compressed form has itself been serialized and read back in between.",
  ["inputs","configurations"],"every byte string and every algorithm",
  "One test round-trips one random buffer with one algorithm.",
  ["lindera-compress/src/lib.rs","lindera-decompress/src/lib.rs"],
  "The algorithm is recorded beside the data and selects the decoder.")
p("C21","Mode and dictionary names round-trip and unknown names are rejected",
  "Every dictionary kind's name parses back to that kind and no two kinds share a name; the mode names parse to normal and to decompose with the default penalties. Every other string is rejected with an error.",
  ["inputs"],"all names and all other strings",
  "Only some kinds and modes are parsed, as part of other tests; rejection and uniqueness are not tested.",
  ["lindera-core/src/mode.rs","lindera-dictionary/src/lib.rs"],"String matches in both directions.")
p("C22","Decompose-mode penalties follow the documented formula",
  "In decompose mode a candidate is penalised only if it is longer than the kanji length threshold: a kanji-only word by the kanji penalty per character above that threshold, any other word by the other penalty per character above the other threshold if it exceeds that one too, and nothing otherwise; lengths are counted as three bytes per character. In normal mode there is never a penalty.",
  ["inputs","configurations"],"every word length, kanji flag and penalty setting within 32-bit range",
  "One decompose test exists per dictionary (not runnable here); thresholds at and around equality are not tested.",
  ["lindera-core/src/mode.rs","lindera-core/src/viterbi.rs"],"Piecewise linear function of the number of characters; kanji test on code points 0x4E00..0x9FAF.")
p("C23","Token details come from the dictionary the token came from",
  "A token for an unknown word has the single detail UNK; a token of the system dictionary has the details stored there for its id and a token of the user dictionary those stored in the user dictionary. Details set explicitly on a token are returned unchanged, and asking again returns the same details.",
  ["inputs","histories"],"every token and every sequence of reading and setting details",
  "Tests read details once for tokens of a fixed dictionary.",
  ["lindera-tokenizer/src/token.rs","lindera-core/src/word_entry.rs"],"Lazy lookup keyed by the word id's unknown/system/user distinction, cached in the token.",
  [{"name":"details","meaning":"cached details"}])
p("C24","Malformed filter configurations are rejected, not crashed on",
  "Building any filter from any configuration value, or from a command line flag of a kind, a colon and a JSON value, returns either a filter of the kind named or an error and never panics; an unknown kind, unreadable JSON, a missing required field and a field of the wrong type are errors. Applying a filter that was built never panics on tokens as produced by the tokenizer. Tags written with up to four comma-separated parts select the same tokens as their form padded with asterisks: those whose first four details (only the first, when there are fewer) padded likewise are that form.",
  ["inputs","configurations"],"every JSON configuration for every filter kind",
  "Tests only use well-formed configurations.",
  ["lindera-filter/src/token_filter","lindera-filter/src/character_filter","lindera-filter/src/lib.rs"],"Normalization of tags to four fields at construction; serde errors mapped to library errors.")
p("C25","Unknown-word entries belong to the category they are defined for",
  "After parsing an unknown-word definition, the entries of each category are exactly the rows naming that category, in file order, with their context ids and cost, and they are marked unknown. A row with the wrong number of fields or a malformed number is reported as an error.",
  ["inputs","configurations"],"every list of categories and every definition text",
  "No test parses an unknown-word definition with more than one row.",
  ["lindera-core/src/unknown_dictionary.rs"],"Rows are collected, then indexed by category name.",
  [{"name":"category_references","meaning":"row indices per category"}])
p("C26","A cloned analyzer behaves as the original",
  "A clone of an analyzer applies the same character filters, tokenizer settings and token filters in the same order, so that it returns the same tokens for every text.",
  ["inputs","configurations"],"every configuration and every text",
  "No test analyses with a clone.",
  ["lindera-analyzer/src/analyzer.rs"],"Filters are cloned one by one into the new analyzer.")
p("C27","Settings produce exactly the analyzer they describe",
  "An analyzer made from settings (a JSON value, bytes or a file) applies the filters its lists name, in the listed order and each with its listed arguments, around a tokenizer with the given mode (normal when none is given), dictionary and user dictionary. A dictionary's kind is preferred to its path; a user dictionary is read as CSV (which needs a kind) or in binary form by its file's extension. A missing tokenizer, unknown or repeated tokenizer fields, unknown filter kinds, a kind not included, missing or damaged files and other extensions are reported as errors, never a panic. Tokenizer settings written out read back the same, an explicit null standing for no user dictionary.",
  ["inputs","configurations"],"every settings value with any filters, dictionaries and user dictionaries",
  "Tests build a few analyzers from settings and most of them need a dictionary that is not included here; order of filters, defaults, precedence and error paths are not tested.",
  ["lindera-analyzer/src/analyzer.rs","lindera-tokenizer/src/tokenizer.rs","lindera-dictionary/src/lib.rs","lindera-core/src/mode.rs"],
  "Settings are read field by field with errors for unknown and repeated ones; loaders are chosen by kind and extension; filters are loaded one by one in list order.")
p("C28","Malformed dictionary sources are reported as errors",
  "Building a dictionary from a directory reports an error, never a panic, when one of its four sources is missing; when the matrix header or a row of it lacks a number, or a number is unreadable, negative, outside the declared sizes or beyond 16 bits; when a category line has not exactly four fields or an unreadable number, a range line an unreadable or longer than 16-bit code, or a category is used in a range but never defined; when an unknown-word row has the wrong number of fields or a number unreadable or beyond 16 bits; when a lexicon row has fewer than four fields or such a number (unless the builder is told to skip such rows, which then leaves the other words intact), or when there is no word at all or one containing NUL. A user dictionary with rows in neither format, such a number, no word, or a NUL in a word is likewise an error. No malformed value is silently replaced by another one, and well-formed sources build.",
  ["inputs","configurations"],"every content of the source files, all five kinds of dictionary",
  "Tests build from well-formed sources only, and none builds a whole dictionary.",
  ["lindera-dictionary-builder/src","lindera-core/src/character_definition.rs","lindera-core/src/unknown_dictionary.rs","lindera-ipadic-builder/src/ipadic_builder.rs","lindera-ko-dic-builder/src/ko_dic_builder.rs","lindera-cc-cedict-builder/src/cc_cedict_builder.rs"],
  "Every number is range-checked where it is read and errors are passed on with ?.")
p("C29","Building compiles exactly the sources, completely, or reports an error",
  "For every kind (ipadic, ipadic-neologd, unidic, ko-dic, cc-cedict), building a dictionary from a directory whose sources are well-formed in that kind's format and encoding (ipadic: EUC-JP, the others: UTF-8) succeeds, whatever the directory's name and however the lexicon is split into *.csv files, and the compiled directory loads as the dictionary of exactly those sources: categories, unknown-word entries, connection costs and words, with details normalized for the two ipadic kinds only. Building a user dictionary from its CSV file gives the user dictionary of exactly its rows. Whenever building a dictionary or user dictionary reports success, all its files exist and are completely written; a file that cannot be read, created or completely written is an error.",
  ["inputs","configurations","faults"],"every directory of well-formed sources, all five kinds, every file that cannot be written",
  "No test builds a whole dictionary, and none makes a write fail.",
  ["lindera-dictionary-builder/src","lindera-ipadic-builder/src/ipadic_builder.rs","lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs","lindera-unidic-builder/src/unidic_builder.rs","lindera-ko-dic-builder/src/ko_dic_builder.rs","lindera-cc-cedict-builder/src/cc_cedict_builder.rs","lindera-core/src/file_util.rs"],
  "Each builder opens its files under the two directories, decodes with the kind's encoding, passes errors on with ? and flushes what it writes.")
p("C30","The command line program shows exactly what the library yields",
  "For every input (file or standard input), dictionary, user dictionary, mode, chain of filters and output format, `lindera tokenize` prints for each line, in order, exactly the tokens the analysis of that line without surrounding white space yields: mecab as text, tab and all details joined by commas, one token a line, then EOS; wakati as the texts separated by one blank, nothing for a line without tokens; json as one pretty-printed array of objects with text, details, byte_start, byte_end and word_id. A wrong setting, an unreadable file or a line that is not UTF-8 is an error, and what is printed before it are the lines before it. `lindera build` builds the named kind from the source to the destination, a user dictionary under its file name with the extension bin, and fails when building fails; `lindera list` prints the contained kinds.",
  ["inputs","configurations"],"every input, every setting",
  "The program has no tests at all.",
  ["lindera-cli/src/main.rs"],
  "tokenize builds one analyzer from the arguments and prints each line's tokens; errors are passed on with ?.")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
