// ---------------------------------------------------------------- ranges of the meta data that was written
#[verifier::opaque]
pub open spec fn tok_in(t: Range<MetaData>, rt: ReadToken, len: int) -> bool {
    &&& rt.offset <= t.offset && t.offset + t.length <= rt.offset + len
    &&& boundary(rt.src@, t.offset - rt.offset) && boundary(rt.src@, t.offset - rt.offset + t.length)
}
pub open spec fn toks_in(v: Seq<Range<MetaData>>, a: int, b: int, rt: ReadToken, len: int) -> bool {
    forall|i: int| a <= i < b && i < v.len() ==> tok_in(#[trigger] v[i], rt, len)
}
pub broadcast proof fn lem_tok_self(t: Range<MetaData>, rt: ReadToken, len: int)
    requires t.offset == rt.offset, t.length <= len, t.length == 0 || boundary(rt.src@, t.length as int)
    ensures #[trigger] tok_in(t, rt, len)
{ reveal(tok_in); lem_boundary_zero(rt.src@); }
pub broadcast proof fn lem_tok_adv(t: Range<MetaData>, rt: ReadToken, rt2: ReadToken, len: int)
    requires #[trigger] adv(rt, rt2), #[trigger] tok_in(t, rt2, len)
    ensures tok_in(t, rt, rt2.offset - rt.offset + len)
{
    reveal(tok_in); reveal(adv);
    lem_boundary_add(rt.src@, rt2.offset - rt.offset, t.offset - rt2.offset);
    lem_boundary_add(rt.src@, rt2.offset - rt.offset, t.offset - rt2.offset + t.length);
}
pub broadcast proof fn lem_tok_more(t: Range<MetaData>, rt: ReadToken, len: int, len2: int)
    requires #[trigger] tok_in(t, rt, len), len <= len2
    ensures #[trigger] tok_in(t, rt, len2)
{ reveal(tok_in); }
pub broadcast group grp_rng { lem_tok_self, lem_tok_adv, lem_tok_more }
