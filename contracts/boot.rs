// ---------------------------------------------------------------- the bootstrap rules
/// no reference is resolved, no table (see wf)
#[verifier::opaque]
pub open spec fn rw0(r: Rule) -> bool { LA() ==> wf(r, 0) }
#[verifier::opaque]
pub open spec fn rws(v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> rw0(#[trigger] v[i]) }
pub broadcast proof fn lem_rws_new(v: Seq<Rule>) requires v.len() == 0 ensures #[trigger] rws(v) { reveal(rws); }
pub broadcast proof fn lem_rws_push(v: Seq<Rule>, r: Rule) ensures rws(v) && rw0(r) ==> rws(#[trigger] v.push(r)) { reveal(rws); }
pub broadcast proof fn lem_b_ws(x: Whitespace) ensures #[trigger] rw0(Rule::Whitespace(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_tag(x: Tag) ensures #[trigger] rw0(Rule::Tag(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_ua(x: UntilAny) ensures #[trigger] rw0(Rule::UntilAny(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_uaw(x: UntilAnyOrWhitespace) ensures #[trigger] rw0(Rule::UntilAnyOrWhitespace(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_text(x: Text) ensures #[trigger] rw0(Rule::Text(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_num(x: Number) ensures #[trigger] rw0(Rule::Number(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_node(x: Node) requires x.index is None ensures #[trigger] rw0(Rule::Node(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_seq(x: Sequence) requires rws(x.args@) ensures #[trigger] rw0(Rule::Sequence(x)) { reveal(rw0); reveal(rws); reveal_with_fuel(wf, 1); assert forall|i: int| 0 <= i < x.args@.len() implies (LA() ==> wf(#[trigger] x.args@[i], 0)) by { assert(rw0(x.args@[i])); } }
pub broadcast proof fn lem_b_sel(x: Select) requires rws(x.args@) ensures #[trigger] rw0(Rule::Select(x)) { reveal(rw0); reveal(rws); reveal_with_fuel(wf, 1); assert forall|i: int| 0 <= i < x.args@.len() implies (LA() ==> wf(#[trigger] x.args@[i], 0)) by { assert(rw0(x.args@[i])); } }
pub broadcast proof fn lem_b_opt(x: Box<Optional>) requires rw0((*x).rule) ensures #[trigger] rw0(Rule::Optional(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_not(x: Box<Not>) requires rw0((*x).rule) ensures #[trigger] rw0(Rule::Not(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_rep(x: Box<Repeat>) requires rw0((*x).rule) ensures #[trigger] rw0(Rule::Repeat(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_sep(x: Box<SeparateBy>) requires rw0((*x).rule), rw0((*x).by) ensures #[trigger] rw0(Rule::SeparateBy(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast proof fn lem_b_lines(x: Box<Lines>) requires rw0((*x).rule) ensures #[trigger] rw0(Rule::Lines(x)) { reveal(rw0); reveal_with_fuel(wf, 1); }
pub broadcast group grp_boot { lem_b_lines, lem_rws_new, lem_rws_push, lem_b_ws, lem_b_tag, lem_b_ua, lem_b_uaw, lem_b_text, lem_b_num, lem_b_node, lem_b_seq, lem_b_sel, lem_b_opt, lem_b_not, lem_b_rep, lem_b_sep }
pub proof fn lem_boot(names: Seq<Arc<String>>, a: Seq<Rule>, b: Seq<Rule>)
    requires upds(names, a, b),
        names.len() == a.len(),
        names.len() <= usize::MAX,
        rws(a),
    ensures LA() ==> wfr(b)
{
    if LA() { assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i], b.len()) by { reveal(rws); reveal(rw0); assert(rw0(a[i])); lem_wf_mono(a[i], 0, b.len()); lem_upd_wf(names, a[i], b[i], b.len()); } }
}
