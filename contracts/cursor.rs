// ---------------------------------------------------------------- the conversion cursor
pub type MD = Range<MetaData>;
/// a cursor whose end is representable
pub open spec fn cur_ok(c: Convert) -> bool { c.offset + c.data@.len() <= usize::MAX }
pub open spec fn is_start(d: Seq<MD>, name: Seq<char>) -> bool { d.len() > 0 && (d[0].data matches MetaData::StartNode(n) && sv(n) == name) }
pub open spec fn is_end(d: Seq<MD>, name: Seq<char>) -> bool { d.len() > 0 && (d[0].data matches MetaData::EndNode(n) && sv(n) == name) }
/// items of the next item or of the whole node it starts; acc: how many nodes are open
pub open spec fn ext(d: Seq<MD>, acc: int) -> int decreases d.len() {
    if d.len() == 0 { 0 } else {
        match d[0].data {
            MetaData::StartNode(_) => 1 + ext(d.skip(1), acc + 1),
            MetaData::EndNode(_) => if acc <= 0 { 0 } else if acc == 1 { 1 } else { 1 + ext(d.skip(1), acc - 1) },
            _ => if acc <= 0 { 1 } else { 1 + ext(d.skip(1), acc) },
        }
    }
}
pub proof fn lem_ext_len(d: Seq<MD>, a: int)
    ensures 0 <= ext(d, a) <= d.len()
    decreases d.len()
{
    if d.len() > 0 { lem_ext_len(d.skip(1), a + 1); lem_ext_len(d.skip(1), a - 1); lem_ext_len(d.skip(1), a); }
}
