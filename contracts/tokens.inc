@item struct lindera-core/src/word_entry.rs WordId derive(Clone, Copy)
@end
@item struct lindera-filter/src/token.rs Token
@end
// ---- tokens as values ----------------------------------------------------------------------------
pub ghost struct TokV { pub text: Seq<char>, pub byte_start: int, pub byte_end: int, pub position: int, pub position_length: int, pub word_id: WordId, pub details: Seq<Seq<char>> }
pub open spec fn tv(t: Token) -> TokV {
    TokV { text: t.text@, byte_start: t.byte_start as int, byte_end: t.byte_end as int, position: t.position as int, position_length: t.position_length as int, word_id: t.word_id, details: dv(t.details@) }
}
pub open spec fn tvs(s: Seq<Token>) -> Seq<TokV> { Seq::new(s.len(), |i: int| tv(s[i])) }
pub open spec fn with_text(t: TokV, x: Seq<char>) -> TokV { TokV { text: x, ..t } }
