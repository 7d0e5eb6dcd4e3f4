@unit names
@include prelude.inc
@method to_string => vx_to_string
@known @streq
verus! {
@include strings.inc
@item struct lindera-core/src/mode.rs Penalty derive(Clone, Copy)
@end
@item enum lindera-core/src/mode.rs Mode
@end
@item enum lindera-dictionary/src/lib.rs DictionaryKind derive(Clone, Copy)
@end
// the documented names
pub open spec fn kind_name(k: DictionaryKind) -> Seq<char> {
    match k {
        DictionaryKind::IPADIC => "ipadic"@,
        DictionaryKind::IPADICNEologd => "ipadic-neologd"@,
        DictionaryKind::UniDic => "unidic"@,
        DictionaryKind::KoDic => "ko-dic"@,
        DictionaryKind::CcCedict => "cc-cedict"@,
    }
}
pub open spec fn default_penalty() -> Penalty {
    Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 7, other_penalty_length_penalty: 1700 }
}
// no two kinds share a name
pub proof fn lemma_names_differ()
    ensures forall|a: DictionaryKind, b: DictionaryKind| kind_name(a) == kind_name(b) ==> a == b
{
    reveal_strlit("ipadic"); reveal_strlit("ipadic-neologd"); reveal_strlit("unidic"); reveal_strlit("ko-dic"); reveal_strlit("cc-cedict");
    assert forall|a: DictionaryKind, b: DictionaryKind| kind_name(a) == kind_name(b) implies a == b by {
        assert(kind_name(a).len() == kind_name(b).len());
        assert(kind_name(a)[0] == kind_name(b)[0]);
    }
}
@item fn lindera-core/src/mode.rs Penalty::default
@impl impl Penalty
@spec
  ensures r == default_penalty()
@end
@item fn lindera-core/src/mode.rs Mode::from_str
@impl impl Mode
@rettype Result<Mode, LinderaError>
@spec
  ensures
    mode@ == "normal"@ ==> r == Ok::<Mode, LinderaError>(Mode::Normal),
    mode@ == "decompose"@ ==> r == Ok::<Mode, LinderaError>(Mode::Decompose(default_penalty())),
    mode@ != "normal"@ && mode@ != "decompose"@ ==> r is Err,
@at start
  proof { reveal_strlit("normal"); reveal_strlit("decompose"); assert("normal"@.len() != "decompose"@.len()); }
@end
@item fn lindera-dictionary/src/lib.rs DictionaryKind::as_str
@spec
  ensures r@ == kind_name(*self)
@end
@item fn lindera-dictionary/src/lib.rs DictionaryKind::from_str
@impl impl DictionaryKind
@rettype Result<DictionaryKind, LinderaError>
@spec
  ensures
    forall|k: DictionaryKind| #[trigger] kind_name(k) == input@ ==> r == Ok::<DictionaryKind, LinderaError>(k),
    (forall|k: DictionaryKind| #[trigger] kind_name(k) != input@) ==> r is Err,
    r is Ok ==> kind_name(r->Ok_0) == input@,
@at start
  proof {
    lemma_names_differ();
    assert(kind_name(DictionaryKind::IPADIC) == "ipadic"@);
    assert(kind_name(DictionaryKind::IPADICNEologd) == "ipadic-neologd"@);
    assert(kind_name(DictionaryKind::UniDic) == "unidic"@);
    assert(kind_name(DictionaryKind::KoDic) == "ko-dic"@);
    assert(kind_name(DictionaryKind::CcCedict) == "cc-cedict"@);
  }
@end
// C21: every kind's name parses back to that kind
pub fn c21_roundtrip(k: DictionaryKind) -> (r: Result<DictionaryKind, LinderaError>)
    ensures r == Ok::<DictionaryKind, LinderaError>(k)
{ DictionaryKind::from_str(k.as_str()) }
} // verus!
fn main() {}
