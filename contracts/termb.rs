// ---------------------------------------------------------------- the bootstrap rules finish (C20)
#[verifier::opaque]
pub open spec fn is_doc(s: Seq<char>) -> bool { s == "document"@ }
#[verifier::opaque]
pub open spec fn nrank(s: Seq<char>) -> nat { if s == "rule"@ || s == "document"@ { 2 } else if s == "comment"@ || s == "tag"@ { 1 } else { 0 } }
pub proof fn lem_bnames()
    ensures nrank("rule"@) == 2, !is_doc("rule"@),
        nrank("set"@) == 0, !is_doc("set"@),
        nrank("set_opt"@) == 0, !is_doc("set_opt"@),
        nrank("opt"@) == 0, !is_doc("opt"@),
        nrank("comment"@) == 1, !is_doc("comment"@),
        nrank("multi_line_comment"@) == 0, !is_doc("multi_line_comment"@),
        nrank("string"@) == 0, !is_doc("string"@),
        nrank("node"@) == 0, !is_doc("node"@),
        nrank("number"@) == 0, !is_doc("number"@),
        nrank("text"@) == 0, !is_doc("text"@),
        nrank("reference"@) == 0, !is_doc("reference"@),
        nrank("sequence"@) == 0, !is_doc("sequence"@),
        nrank("select"@) == 0, !is_doc("select"@),
        nrank("separated_by"@) == 0, !is_doc("separated_by"@),
        nrank("tag"@) == 1, !is_doc("tag"@),
        nrank("optional"@) == 0, !is_doc("optional"@),
        nrank("not"@) == 0, !is_doc("not"@),
        nrank("whitespace"@) == 0, !is_doc("whitespace"@),
        nrank("until_any"@) == 0, !is_doc("until_any"@),
        nrank("until_any_or_whitespace"@) == 0, !is_doc("until_any_or_whitespace"@),
        nrank("repeat"@) == 0, !is_doc("repeat"@),
        nrank("lines"@) == 0, !is_doc("lines"@),
        nrank("document"@) == 2, is_doc("document"@)
{
    reveal(nrank); reveal(is_doc);
    reveal_strlit("rule"); assert("rule"@.len() == 4);
    reveal_strlit("set"); assert("set"@.len() == 3);
    reveal_strlit("set_opt"); assert("set_opt"@.len() == 7);
    reveal_strlit("opt"); assert("opt"@.len() == 3);
    reveal_strlit("comment"); assert("comment"@.len() == 7);
    reveal_strlit("multi_line_comment"); assert("multi_line_comment"@.len() == 18);
    reveal_strlit("string"); assert("string"@.len() == 6);
    reveal_strlit("node"); assert("node"@.len() == 4);
    reveal_strlit("number"); assert("number"@.len() == 6);
    reveal_strlit("text"); assert("text"@.len() == 4);
    reveal_strlit("reference"); assert("reference"@.len() == 9);
    reveal_strlit("sequence"); assert("sequence"@.len() == 8);
    reveal_strlit("select"); assert("select"@.len() == 6);
    reveal_strlit("separated_by"); assert("separated_by"@.len() == 12);
    reveal_strlit("tag"); assert("tag"@.len() == 3);
    reveal_strlit("optional"); assert("optional"@.len() == 8);
    reveal_strlit("not"); assert("not"@.len() == 3);
    reveal_strlit("whitespace"); assert("whitespace"@.len() == 10);
    reveal_strlit("until_any"); assert("until_any"@.len() == 9);
    reveal_strlit("until_any_or_whitespace"); assert("until_any_or_whitespace"@.len() == 23);
    reveal_strlit("repeat"); assert("repeat"@.len() == 6);
    reveal_strlit("lines"); assert("lines"@.len() == 5);
    reveal_strlit("document"); assert("document"@.len() == 8);
    assert("document"@[0] == 'd' && "rule"@[0] == 'r' && "comment"@[0] == 'c' && "tag"@[0] == 't');
    assert("rule"@[0] == 'r');
    assert("set"@[0] == 's');
    assert("set_opt"@[0] == 's');
    assert("opt"@[0] == 'o');
    assert("comment"@[0] == 'c');
    assert("multi_line_comment"@[0] == 'm');
    assert("string"@[0] == 's');
    assert("node"@[0] == 'n');
    assert("number"@[0] == 'n');
    assert("text"@[0] == 't');
    assert("reference"@[0] == 'r');
    assert("sequence"@[0] == 's');
    assert("select"@[0] == 's');
    assert("separated_by"@[0] == 's');
    assert("tag"@[0] == 't');
    assert("optional"@[0] == 'o');
    assert("not"@[0] == 'n');
    assert("whitespace"@[0] == 'w');
    assert("until_any"@[0] == 'u');
    assert("until_any_or_whitespace"@[0] == 'u');
    assert("repeat"@[0] == 'r');
    assert("lines"@[0] == 'l');
    assert("document"@[0] == 'd');
}
/// numbers by name, while references are not resolved
#[verifier::opaque]
pub open spec fn gb() -> Gr { Gr { rank: |n: Node| nrank(sv(n.name)), nul: |n: Node| is_doc(sv(n.name)) } }
/// numbers by index
#[verifier::opaque]
pub open spec fn gi(names: Seq<Arc<String>>) -> Gr {
    Gr { rank: |n: Node| match n.index { Some(i) => nrank(sv(names[i as int])), None => nrank(sv(n.name)) }, nul: |n: Node| match n.index { Some(i) => is_doc(sv(names[i as int])), None => is_doc(sv(n.name)) } }
}
#[verifier::opaque]
pub open spec fn tb(r: Rule) -> bool { tk(gb(), r) }
#[verifier::opaque]
pub open spec fn nb(r: Rule) -> bool { nl(gb(), r) }
#[verifier::opaque]
pub open spec fn lb(r: Rule) -> nat { lk(gb(), r) }
/// the rules of a list
#[verifier::opaque]
pub open spec fn tbs(v: Seq<Rule>) -> bool { tks(gb(), v) }
#[verifier::opaque]
pub open spec fn nbs(v: Seq<Rule>) -> bool { nls(gb(), v) }
#[verifier::opaque]
pub open spec fn nbm(v: Seq<Rule>) -> bool { nlm(gb(), v) }
#[verifier::opaque]
pub open spec fn lbs(v: Seq<Rule>) -> nat decreases v.len() {
    if v.len() == 0 { 0 } else { mx(lbs(v.drop_last()), if nbs(v.drop_last()) { lb(v.last()) } else { 0 }) }
}
#[verifier::opaque]
pub open spec fn lbm(v: Seq<Rule>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { mx(lbm(v.drop_last()), lb(v.last())) } }
pub broadcast proof fn lem_t_new(v: Seq<Rule>)
    requires v.len() == 0
    ensures #[trigger] tbs(v), nbs(v), !nbm(v), lbs(v) == 0, lbm(v) == 0
{ reveal(tbs); reveal(nbs); reveal(nbm); reveal_with_fuel(lbs, 1); reveal_with_fuel(lbm, 1); }
pub broadcast proof fn lem_t_push(v: Seq<Rule>, r: Rule)
    ensures ({ let w = #[trigger] v.push(r);
        &&& tbs(w) == (tbs(v) && tb(r)) &&& nbs(w) == (nbs(v) && nb(r)) &&& nbm(w) == (nbm(v) || nb(r))
        &&& lbs(w) == mx(lbs(v), if nbs(v) { lb(r) } else { 0 }) &&& lbm(w) == mx(lbm(v), lb(r)) })
{
    let w = v.push(r);
    reveal(tbs); reveal(nbs); reveal(nbm); reveal(tb); reveal(nb); reveal_with_fuel(lbs, 2); reveal_with_fuel(lbm, 2);
    assert(w.drop_last() =~= v);
    assert(w.last() == r);
    assert forall|i: int| 0 <= i < v.len() implies w[i] == #[trigger] v[i] by {}
    let g = gb();
    if tks(g, w) { assert forall|i: int| 0 <= i < v.len() implies tk(g, #[trigger] v[i]) by { let _ = w[i]; } assert(tk(g, w[v.len() as int])); }
    if nls(g, w) { assert forall|i: int| 0 <= i < v.len() implies nl(g, #[trigger] v[i]) by { let _ = w[i]; } assert(nl(g, w[v.len() as int])); }
    if nlm(g, v) { let i = choose|i: int| 0 <= i < v.len() && nl(g, #[trigger] v[i]); assert(nl(g, w[i])); }
    if nl(g, r) { assert(nl(g, w[v.len() as int])); }
}
pub proof fn lem_lbs(v: Vec<Rule>, i: int)
    requires 0 <= i <= v@.len()
    ensures mx(lbs(v@.take(i)), if nbs(v@.take(i)) { lks(gb(), v, i) } else { 0 }) == lbs(v@)
    decreases v@.len() - i
{
    if i < v@.len() {
        lem_lbs(v, i + 1);
        lem_lks(gb(), v, i);
        assert(v@.take(i + 1) =~= v@.take(i).push(v@[i]));
        lem_t_push(v@.take(i), v@[i]);
        reveal(lb); reveal(nb);
    } else { assert(v@.take(i) =~= v@); reveal_with_fuel(lks, 1); reveal_with_fuel(lk, 1); }
}
pub proof fn lem_lbs0(v: Vec<Rule>)
    ensures lks(gb(), v, 0) == lbs(v@)
{ lem_lbs(v, 0); assert(v@.take(0).len() == 0); lem_t_new(v@.take(0)); }
pub proof fn lem_lbm(v: Vec<Rule>, i: int)
    requires 0 <= i <= v@.len()
    ensures mx(lbm(v@.take(i)), lkm(gb(), v, i)) == lbm(v@)
    decreases v@.len() - i
{
    reveal_with_fuel(lkm, 2); reveal_with_fuel(lk, 1);
    if i < v@.len() {
        lem_lbm(v, i + 1);
        assert(v@.take(i + 1) =~= v@.take(i).push(v@[i]));
        lem_t_push(v@.take(i), v@[i]);
        reveal(lb);
    } else { assert(v@.take(i) =~= v@); }
}
pub proof fn lem_lbm0(v: Vec<Rule>)
    ensures lkm(gb(), v, 0) == lbm(v@)
{ lem_lbm(v, 0); assert(v@.take(0).len() == 0); lem_t_new(v@.take(0)); }
/// one level
pub proof fn lem_tb(r: Rule)
    ensures match r {
        Rule::Whitespace(w) => nb(r) == w.optional && lb(r) == 0 && tb(r),
        Rule::Tag(t) => (nb(r) ==> t.not || sv(t.text).len() == 0) && lb(r) == 0 && tb(r),
        Rule::UntilAny(u) => nb(r) == u.optional && lb(r) == 0 && tb(r),
        Rule::UntilAnyOrWhitespace(u) => nb(r) == u.optional && lb(r) == 0 && tb(r),
        Rule::Text(_) | Rule::Number(_) => !nb(r) && lb(r) == 0 && tb(r),
        Rule::Select(s) => nb(r) == nbm(s.args@) && lb(r) == lbm(s.args@) && tb(r) == tbs(s.args@),
        Rule::FastSelect(s) => true,
        Rule::Sequence(s) => nb(r) == nbs(s.args@) && lb(r) == lbs(s.args@) && tb(r) == tbs(s.args@),
        Rule::SeparateBy(b) => nb(r) == ((*b).optional || nb((*b).rule)) && lb(r) == mx(lb((*b).rule), if nb((*b).rule) { lb((*b).by) } else { 0 })
            && tb(r) == (tb((*b).rule) && tb((*b).by) && !(nb((*b).rule) && nb((*b).by))),
        Rule::Repeat(b) => nb(r) == ((*b).optional || nb((*b).rule)) && lb(r) == lb((*b).rule) && tb(r) == (tb((*b).rule) && !nb((*b).rule)),
        Rule::Lines(b) => nb(r) && lb(r) == lb((*b).rule) && tb(r) == tb((*b).rule),
        Rule::Optional(b) => nb(r) && lb(r) == lb((*b).rule) && tb(r) == tb((*b).rule),
        Rule::Not(b) => nb(r) && lb(r) == lb((*b).rule) && tb(r) == tb((*b).rule),
        Rule::Node(n) => nb(r) == (is_doc(sv(n.name))) && lb(r) == nrank(sv(n.name)) + 1 && tb(r),
    }
{
    let g = gb();
    lem_term(g, r);
    reveal(tb); reveal(nb); reveal(lb); reveal(tbs); reveal(nbs); reveal(nbm);
    match r {
        Rule::Sequence(s) => { lem_lbs0(s.args); }
        Rule::Select(s) => { lem_lbm0(s.args); }
        Rule::Node(n) => { reveal(gb); }
        Rule::Tag(t) => { lem_blen_pos(sv(t.text)); }
        _ => {}
    }
}
pub proof fn lem_blen_pos(s: Seq<char>)
    ensures s.len() > 0 ==> blen(s) > 0
{ if s.len() > 0 { reveal_with_fuel(blen, 1); lem_blen_nonneg(s.skip(1)); } }
pub open spec fn eqv(g: Gr, a: Rule, h: Gr, b: Rule) -> bool { tk(g, a) == tk(h, b) && nl(g, a) == nl(h, b) && lk(g, a) == lk(h, b) }
pub proof fn lem_lks_eq(g: Gr, a: Vec<Rule>, h: Gr, b: Vec<Rule>, i: int)
    requires 0 <= i, a@.len() == b@.len(), forall|k: int| 0 <= k < a@.len() ==> eqv(g, #[trigger] a@[k], h, b@[k])
    ensures lks(g, a, i) == lks(h, b, i), lkm(g, a, i) == lkm(h, b, i)
    decreases a@.len() - i
{
    reveal_with_fuel(lkm, 2); reveal_with_fuel(lks, 2); reveal_with_fuel(lk, 1);
    if i < a@.len() { let _ = a@[i]; lem_lks_eq(g, a, h, b, i + 1); }
}
pub proof fn lem_list_eq(g: Gr, a: Seq<Rule>, h: Gr, b: Seq<Rule>)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> eqv(g, #[trigger] a[k], h, b[k])
    ensures tks(g, a) == tks(h, b), nls(g, a) == nls(h, b), nlm(g, a) == nlm(h, b)
{
    if tks(g, a) { assert forall|k: int| 0 <= k < b.len() implies tk(h, #[trigger] b[k]) by { let _ = a[k]; } }
    if tks(h, b) { assert forall|k: int| 0 <= k < a.len() implies tk(g, #[trigger] a[k]) by { let _ = b[k]; } }
    if nls(g, a) { assert forall|k: int| 0 <= k < b.len() implies nl(h, #[trigger] b[k]) by { let _ = a[k]; } }
    if nls(h, b) { assert forall|k: int| 0 <= k < a.len() implies nl(g, #[trigger] a[k]) by { let _ = b[k]; } }
    if nlm(g, a) { let k = choose|k: int| 0 <= k < a.len() && nl(g, #[trigger] a[k]); assert(nl(h, b[k])); }
    if nlm(h, b) { let k = choose|k: int| 0 <= k < b.len() && nl(h, #[trigger] b[k]); assert(nl(g, a[k])); }
}
pub proof fn lem_first_name(names: Seq<Arc<String>>, name: Seq<char>, i: int)
    requires i >= 0, names.len() <= usize::MAX
    ensures first_at(names, name, i) matches Some(k) ==> k < names.len() && sv(names[k as int]) == name
    decreases names.len() - i
{ if i < names.len() && sv(names[i]) != name { lem_first_name(names, name, i + 1); } }
pub open spec fn upde(names: Seq<Arc<String>>, r: Rule, o: Rule) -> bool { upd(names, r, o) || r == o }
/// resolving the references by name changes nothing
pub proof fn lem_upd_term(names: Seq<Arc<String>>, r: Rule, o: Rule)
    requires upde(names, r, o), wf(r, 0), names.len() <= usize::MAX
    ensures eqv(gb(), r, gi(names), o)
    decreases r
{
    let (g, h) = (gb(), gi(names));
    lem_upd1(names, r); lem_term(g, r); lem_term(h, o); lem_wf(r, 0);
    match r {
        Rule::Sequence(s) => if let Rule::Sequence(t) = o {
            assert forall|k: int| 0 <= k < s.args@.len() implies eqv(g, #[trigger] s.args@[k], h, t.args@[k]) by { lem_upd_term(names, s.args@[k], t.args@[k]); }
            lem_lks_eq(g, s.args, h, t.args, 0); lem_list_eq(g, s.args@, h, t.args@);
        }
        Rule::Select(s) => if let Rule::Select(t) = o {
            assert forall|k: int| 0 <= k < s.args@.len() implies eqv(g, #[trigger] s.args@[k], h, t.args@[k]) by { lem_upd_term(names, s.args@[k], t.args@[k]); }
            lem_lks_eq(g, s.args, h, t.args, 0); lem_list_eq(g, s.args@, h, t.args@);
        }
        Rule::FastSelect(s) => if let Rule::FastSelect(t) = o {
            assert forall|k: int| 0 <= k < (*s).args@.len() implies eqv(g, #[trigger] (*s).args@[k], h, (*t).args@[k]) by { lem_upd_term(names, (*s).args@[k], (*t).args@[k]); }
            lem_lks_eq(g, (*s).args, h, (*t).args, 0); lem_list_eq(g, (*s).args@, h, (*t).args@);
        }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_upd_term(names, (*s).rule, (*t).rule); lem_upd_term(names, (*s).by, (*t).by); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_upd_term(names, (*s).rule, (*t).rule); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_upd_term(names, (*s).rule, (*t).rule); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_upd_term(names, (*s).rule, (*t).rule); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_upd_term(names, (*s).rule, (*t).rule); }
        Rule::Node(n) => { lem_first_name(names, sv(n.name), 0); reveal(gb); reveal(gi); }
        _ => {}
    }
}
/// the rule fits the number of its name
#[verifier::opaque]
pub open spec fn fb1(a: Arc<String>, r: Rule) -> bool { tb(r) && lb(r) <= nrank(sv(a)) && (nb(r) ==> is_doc(sv(a))) }
#[verifier::opaque]
pub open spec fn fbs(n: Seq<Arc<String>>, v: Seq<Rule>) -> bool { n.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> fb1(n[i], #[trigger] v[i]) }
pub broadcast proof fn lem_fbs_new(n: Seq<Arc<String>>, v: Seq<Rule>) requires n.len() == 0, v.len() == 0 ensures #[trigger] fbs(n, v) { reveal(fbs); }
pub broadcast proof fn lem_fbs_push(n: Seq<Arc<String>>, a: Arc<String>, v: Seq<Rule>, r: Rule)
    requires fbs(n, v), fb1(a, r)
    ensures #[trigger] fbs(n.push(a), v.push(r))
{ reveal(fbs); }
pub proof fn lem_fb1(a: Arc<String>, r: Rule)
    ensures fb1(a, r) == (tb(r) && lb(r) <= nrank(sv(a)) && (nb(r) ==> is_doc(sv(a))))
{ reveal(fb1); }
/// names the parts of a sub rule, for the solver
#[verifier::opaque]
pub open spec fn see_whitespace(x: Whitespace) -> bool { true }
#[verifier::opaque]
pub open spec fn see_tag(x: Tag) -> bool { true }
#[verifier::opaque]
pub open spec fn see_text(x: Text) -> bool { true }
#[verifier::opaque]
pub open spec fn see_untilany(x: UntilAny) -> bool { true }
#[verifier::opaque]
pub open spec fn see_untilanyorwhitespace(x: UntilAnyOrWhitespace) -> bool { true }
#[verifier::opaque]
pub open spec fn see_number(x: Number) -> bool { true }
#[verifier::opaque]
pub open spec fn see_select(x: Select) -> bool { true }
#[verifier::opaque]
pub open spec fn see_sequence(x: Sequence) -> bool { true }
#[verifier::opaque]
pub open spec fn see_separateby(x: Box<SeparateBy>) -> bool { true }
#[verifier::opaque]
pub open spec fn see_repeat(x: Box<Repeat>) -> bool { true }
#[verifier::opaque]
pub open spec fn see_node(x: Node) -> bool { true }
#[verifier::opaque]
pub open spec fn see_lines(x: Box<Lines>) -> bool { true }
#[verifier::opaque]
pub open spec fn see_optional(x: Box<Optional>) -> bool { true }
#[verifier::opaque]
pub open spec fn see_not(x: Box<Not>) -> bool { true }
pub open spec fn parts(q: Rule) -> bool {
    &&& see_whitespace(q->Whitespace_0)
    &&& see_tag(q->Tag_0)
    &&& see_text(q->Text_0)
    &&& see_untilany(q->UntilAny_0)
    &&& see_untilanyorwhitespace(q->UntilAnyOrWhitespace_0)
    &&& see_number(q->Number_0)
    &&& see_select(q->Select_0)
    &&& see_sequence(q->Sequence_0)
    &&& see_separateby(q->SeparateBy_0)
    &&& see_repeat(q->Repeat_0)
    &&& see_node(q->Node_0)
    &&& see_lines(q->Lines_0)
    &&& see_optional(q->Optional_0)
    &&& see_not(q->Not_0)
}
pub proof fn lem_parts() ensures forall|q: Rule| #[trigger] parts(q) { reveal(see_whitespace); reveal(see_tag); reveal(see_text); reveal(see_untilany); reveal(see_untilanyorwhitespace); reveal(see_number); reveal(see_select); reveal(see_sequence); reveal(see_separateby); reveal(see_repeat); reveal(see_node); reveal(see_lines); reveal(see_optional); reveal(see_not); }
/// the same for the elements of a list
pub proof fn lem_elems(x: Rule) ensures
    parts(x), parts(x->Sequence_0.args@[0]), parts(x->Sequence_0.args@[1]), parts(x->Sequence_0.args@[2]), parts(x->Sequence_0.args@[3]), parts(x->Sequence_0.args@[4]), parts(x->Sequence_0.args@[5])
{ lem_parts(); }
pub broadcast proof fn lem_tb_ws(x: Whitespace) ensures (#[trigger] tb(Rule::Whitespace(x))), ({ let r = Rule::Whitespace(x); nb(r) == x.optional && lb(r) == 0 }) { lem_tb(Rule::Whitespace(x)); }
pub broadcast proof fn lem_tb_tag(x: Tag) ensures (#[trigger] tb(Rule::Tag(x))), ({ let r = Rule::Tag(x); (nb(r) ==> x.not || sv(x.text).len() == 0) && lb(r) == 0 }) { lem_tb(Rule::Tag(x)); }
pub broadcast proof fn lem_tb_ua(x: UntilAny) ensures (#[trigger] tb(Rule::UntilAny(x))), ({ let r = Rule::UntilAny(x); nb(r) == x.optional && lb(r) == 0 }) { lem_tb(Rule::UntilAny(x)); }
pub broadcast proof fn lem_tb_uaw(x: UntilAnyOrWhitespace) ensures (#[trigger] tb(Rule::UntilAnyOrWhitespace(x))), ({ let r = Rule::UntilAnyOrWhitespace(x); nb(r) == x.optional && lb(r) == 0 }) { lem_tb(Rule::UntilAnyOrWhitespace(x)); }
pub broadcast proof fn lem_tb_text(x: Text) ensures (#[trigger] tb(Rule::Text(x))), ({ let r = Rule::Text(x); !nb(r) && lb(r) == 0 }) { lem_tb(Rule::Text(x)); }
pub broadcast proof fn lem_tb_num(x: Number) ensures (#[trigger] tb(Rule::Number(x))), ({ let r = Rule::Number(x); !nb(r) && lb(r) == 0 }) { lem_tb(Rule::Number(x)); }
pub broadcast proof fn lem_tb_node(x: Node) ensures (#[trigger] tb(Rule::Node(x))), ({ let r = Rule::Node(x); nb(r) == (is_doc(sv(x.name))) && lb(r) == nrank(sv(x.name)) + 1 }) { lem_tb(Rule::Node(x)); }
pub broadcast proof fn lem_tb_sel(x: Select) ensures (#[trigger] tb(Rule::Select(x))) == (tbs(x.args@)), ({ let r = Rule::Select(x); nb(r) == nbm(x.args@) && lb(r) == lbm(x.args@) }) { lem_tb(Rule::Select(x)); }
pub broadcast proof fn lem_tb_seq(x: Sequence) ensures (#[trigger] tb(Rule::Sequence(x))) == (tbs(x.args@)), ({ let r = Rule::Sequence(x); nb(r) == nbs(x.args@) && lb(r) == lbs(x.args@) }) { lem_tb(Rule::Sequence(x)); }
pub broadcast proof fn lem_tb_sep(x: Box<SeparateBy>) ensures (#[trigger] tb(Rule::SeparateBy(x))) == (tb((*x).rule) && tb((*x).by) && !(nb((*x).rule) && nb((*x).by))), parts((*x).rule), parts((*x).by), ({ let r = Rule::SeparateBy(x); nb(r) == ((*x).optional || nb((*x).rule)) && lb(r) == mx(lb((*x).rule), if nb((*x).rule) { lb((*x).by) } else { 0 }) }) { lem_parts(); lem_tb(Rule::SeparateBy(x)); }
pub broadcast proof fn lem_tb_rep(x: Box<Repeat>) ensures (#[trigger] tb(Rule::Repeat(x))) == (tb((*x).rule) && !nb((*x).rule)), parts((*x).rule), ({ let r = Rule::Repeat(x); nb(r) == ((*x).optional || nb((*x).rule)) && lb(r) == lb((*x).rule) }) { lem_parts(); lem_tb(Rule::Repeat(x)); }
pub broadcast proof fn lem_tb_lines(x: Box<Lines>) ensures (#[trigger] tb(Rule::Lines(x))) == (tb((*x).rule)), parts((*x).rule), ({ let r = Rule::Lines(x); nb(r) && lb(r) == lb((*x).rule) }) { lem_parts(); lem_tb(Rule::Lines(x)); }
pub broadcast proof fn lem_tb_optional(x: Box<Optional>) ensures (#[trigger] tb(Rule::Optional(x))) == (tb((*x).rule)), parts((*x).rule), ({ let r = Rule::Optional(x); nb(r) && lb(r) == lb((*x).rule) }) { lem_parts(); lem_tb(Rule::Optional(x)); }
pub broadcast proof fn lem_tb_not(x: Box<Not>) ensures (#[trigger] tb(Rule::Not(x))) == (tb((*x).rule)), parts((*x).rule), ({ let r = Rule::Not(x); nb(r) && lb(r) == lb((*x).rule) }) { lem_parts(); lem_tb(Rule::Not(x)); }
pub broadcast group grp_tb { lem_t_new, lem_t_push, lem_tb_ws, lem_tb_tag, lem_tb_ua, lem_tb_uaw, lem_tb_text, lem_tb_num, lem_tb_node, lem_tb_sel, lem_tb_seq, lem_tb_sep, lem_tb_rep, lem_tb_lines, lem_tb_optional, lem_tb_not, lem_fbs_new, lem_fbs_push }
pub proof fn lem_boot_term(names: Seq<Arc<String>>, a: Seq<Rule>, b: Seq<Rule>)
    requires upds(names, a, b), fbs(names, a), rws(a), names.len() <= usize::MAX
    ensures LA() ==> graded(b)
{
    if LA() {
        let h = gi(names);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] fits(h, b[i], i) by {
            reveal(rws); reveal(rw0); reveal(fbs); reveal(fb1); reveal(tb); reveal(lb); reveal(nb); reveal(gi);
            assert(rw0(a[i])); assert(fb1(names[i], a[i]));
            lem_upd_term(names, a[i], b[i]);
        }
        assert(gok(h, b)); reveal(graded);
    }
}
