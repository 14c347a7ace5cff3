/// bytes that are left
pub open spec fn rem(r: ReadToken) -> nat { blen(r.src@) as nat }
pub broadcast proof fn lem_adv_rem(a: ReadToken, b: ReadToken)
    requires #[trigger] adv(a, b)
    ensures a.offset <= b.offset, rem(b) == rem(a) - (b.offset - a.offset)
{ reveal(adv); lem_boundary(a.src@, b.offset - a.offset); lem_blen_nonneg(a.src@); lem_blen_nonneg(b.src@); }
pub broadcast group grp_term { lem_adv_rem }
pub proof fn lem_lnext_call(s: Seq<char>, nl: bool, k0: int, k: int)
    requires 0 <= k0 <= k
    ensures lnext(s, nl, k0, k) matches LN::Call(x) ==> x >= k0 && (x > k0 || nl)
    decreases s.len()
{
    reveal_with_fuel(lnext, 2);
    if s.len() > 0 {
        if s[0] == '\n' { lem_lnext_call(s.skip(1), true, k + 1, k + 1); }
        else if is_ws(s[0]) { lem_lnext_call(s.skip(1), nl, k0, k + clen(s[0])); }
    }
}
/// how much a line rule still has to do
pub open spec fn d_more(d: LinesDriver) -> nat { if d.st == 2 { 0 } else { 1 } }
pub open spec fn d_nl(d: LinesDriver) -> nat { if d.nl { 1 } else { 0 } }
pub proof fn lem_btake0(s: Seq<char>)
    ensures forall|t: Seq<char>| #![trigger btake(t, 0)] btake(t, 0).len() == 0
{ assert forall|t: Seq<char>| #![trigger btake(t, 0)] btake(t, 0).len() == 0 by { reveal_with_fuel(btake, 2); } }
