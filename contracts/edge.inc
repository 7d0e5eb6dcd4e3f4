@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item struct lindera-core/src/word_entry.rs WordEntry derive(Clone, Copy)
@end
@item enum lindera-core/src/viterbi.rs EdgeType derive(Clone, Copy)
@end
@item struct lindera-core/src/viterbi.rs EdgeId derive(Clone, Copy)
@end
@item struct lindera-core/src/viterbi.rs Edge
@end
@item struct lindera-core/src/mode.rs Penalty
@end
@item enum lindera-core/src/mode.rs Mode
@end
@include pen.inc
