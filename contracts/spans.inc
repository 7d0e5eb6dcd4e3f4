// ---- C12: tokens are ordered ranges of the text
pub open spec fn spans(s: Seq<TokV>, l: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).byte_start <= s[i].byte_end <= l
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).byte_end <= (#[trigger] s[j]).byte_start
}
