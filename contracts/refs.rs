// ---------------------------------------------------------------- resolving references
/// first position of the name from i on
pub open spec fn first_at(names: Seq<Arc<String>>, name: Seq<char>, i: int) -> Option<usize> decreases names.len() - i {
    if i < 0 || i >= names.len() { None } else if sv(names[i]) == name { Some(i as usize) } else { first_at(names, name, i + 1) }
}
/// the index after updating: what is resolved stays
pub open spec fn found(names: Seq<Arc<String>>, n: Node) -> Option<usize> { match n.index { Some(i) => Some(i), None => first_at(names, sv(n.name), 0) } }
/// o is r with exactly the unresolved references pointed to the first rule of their name
#[verifier::opaque]
pub open spec fn upd(names: Seq<Arc<String>>, r: Rule, o: Rule) -> bool decreases r {
    match r {
        Rule::Node(n) => o matches Rule::Node(m) && m == (Node { index: found(names, n), ..n }),
        Rule::Sequence(s) => match o { Rule::Sequence(t) => s.debug_id == t.debug_id && s.args@.len() == t.args@.len() && forall|k: int| 0 <= k < s.args@.len() ==> upd(names, #[trigger] s.args@[k], t.args@[k]), _ => false },
        Rule::Select(s) => match o { Rule::Select(t) => s.debug_id == t.debug_id && s.args@.len() == t.args@.len() && forall|k: int| 0 <= k < s.args@.len() ==> upd(names, #[trigger] s.args@[k], t.args@[k]), _ => false },
        Rule::SeparateBy(s) => match o { Rule::SeparateBy(t) => upd(names, (*s).rule, (*t).rule) && upd(names, (*s).by, (*t).by) && *t == (SeparateBy { rule: (*t).rule, by: (*t).by, ..*s }), _ => false },
        Rule::Repeat(s) => match o { Rule::Repeat(t) => upd(names, (*s).rule, (*t).rule) && *t == (Repeat { rule: (*t).rule, ..*s }), _ => false },
        Rule::Lines(s) => match o { Rule::Lines(t) => upd(names, (*s).rule, (*t).rule) && *t == (Lines { rule: (*t).rule, ..*s }), _ => false },
        Rule::Optional(s) => match o { Rule::Optional(t) => upd(names, (*s).rule, (*t).rule) && *t == (Optional { rule: (*t).rule, ..*s }), _ => false },
        Rule::Not(s) => match o { Rule::Not(t) => upd(names, (*s).rule, (*t).rule) && *t == (Not { rule: (*t).rule, ..*s }), _ => false },
        _ => o == r,
    }
}
pub open spec fn upds(names: Seq<Arc<String>>, a: Seq<Rule>, b: Seq<Rule>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> upd(names, #[trigger] a[k], b[k]) }
/// one level
pub open spec fn upd1(names: Seq<Arc<String>>, r: Rule, o: Rule) -> bool {
    match r {
        Rule::Node(n) => o matches Rule::Node(m) && m == (Node { index: found(names, n), ..n }),
        Rule::Sequence(s) => o matches Rule::Sequence(t) && s.debug_id == t.debug_id && upds(names, s.args@, t.args@),
        Rule::Select(s) => o matches Rule::Select(t) && s.debug_id == t.debug_id && upds(names, s.args@, t.args@),
        Rule::SeparateBy(s) => o matches Rule::SeparateBy(t) && upd(names, (*s).rule, (*t).rule) && upd(names, (*s).by, (*t).by) && *t == (SeparateBy { rule: (*t).rule, by: (*t).by, ..*s }),
        Rule::Repeat(s) => o matches Rule::Repeat(t) && upd(names, (*s).rule, (*t).rule) && *t == (Repeat { rule: (*t).rule, ..*s }),
        Rule::Lines(s) => o matches Rule::Lines(t) && upd(names, (*s).rule, (*t).rule) && *t == (Lines { rule: (*t).rule, ..*s }),
        Rule::Optional(s) => o matches Rule::Optional(t) && upd(names, (*s).rule, (*t).rule) && *t == (Optional { rule: (*t).rule, ..*s }),
        Rule::Not(s) => o matches Rule::Not(t) && upd(names, (*s).rule, (*t).rule) && *t == (Not { rule: (*t).rule, ..*s }),
        _ => o == r,
    }
}
pub proof fn lem_upd1(names: Seq<Arc<String>>, r: Rule)
    ensures forall|o: Rule| #[trigger] upd(names, r, o) == upd1(names, r, o)
{ reveal_with_fuel(upd, 1); }
/// references within the list of names make rules well formed when there is one rule for each name
pub proof fn lem_upd_wf(names: Seq<Arc<String>>, r: Rule, o: Rule, n: nat)
    requires upd(names, r, o), wf(r, n), names.len() <= n
    ensures wf(o, n)
    decreases r
{
    reveal_with_fuel(upd, 1); lem_wf(r, n); reveal_with_fuel(wf, 1);
    match r {
        Rule::Node(a) => { lem_first_at(names, sv(a.name), 0); }
        Rule::Sequence(s) => if let Rule::Sequence(t) = o { assert forall|k: int| 0 <= k < t.args@.len() implies wf(#[trigger] t.args@[k], n) by { let _ = s.args@[k]; lem_upd_wf(names, s.args@[k], t.args@[k], n); } }
        Rule::Select(s) => if let Rule::Select(t) = o { assert forall|k: int| 0 <= k < t.args@.len() implies wf(#[trigger] t.args@[k], n) by { let _ = s.args@[k]; lem_upd_wf(names, s.args@[k], t.args@[k], n); } }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_upd_wf(names, (*s).rule, (*t).rule, n); lem_upd_wf(names, (*s).by, (*t).by, n); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_upd_wf(names, (*s).rule, (*t).rule, n); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_upd_wf(names, (*s).rule, (*t).rule, n); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_upd_wf(names, (*s).rule, (*t).rule, n); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_upd_wf(names, (*s).rule, (*t).rule, n); }
        _ => {}
    }
}
pub proof fn lem_first_at(names: Seq<Arc<String>>, name: Seq<char>, i: int)
    requires i >= 0
    ensures first_at(names, name, i) matches Some(k) ==> (k as int) < usize::MAX || true, names.len() <= usize::MAX ==> (first_at(names, name, i) matches Some(k) ==> k < names.len())
    decreases names.len() - i
{ if i < names.len() && sv(names[i]) != name { lem_first_at(names, name, i + 1); } }
pub proof fn lem_wf_mono(r: Rule, m: nat, n: nat)
    requires wf(r, m), m <= n
    ensures wf(r, n)
    decreases r
{
    lem_wf(r, m); reveal_with_fuel(wf, 1);
    match r {
        Rule::Sequence(s) => { assert forall|i: int| 0 <= i < s.args@.len() implies wf(#[trigger] s.args@[i], n) by { lem_wf_mono(s.args@[i], m, n); } }
        Rule::Select(s) => { assert forall|i: int| 0 <= i < s.args@.len() implies wf(#[trigger] s.args@[i], n) by { lem_wf_mono(s.args@[i], m, n); } }
        Rule::FastSelect(s) => { assert forall|i: int| 0 <= i < (*s).args@.len() implies wf(#[trigger] (*s).args@[i], n) by { lem_wf_mono((*s).args@[i], m, n); } }
        Rule::SeparateBy(s) => { lem_wf_mono((*s).rule, m, n); lem_wf_mono((*s).by, m, n); }
        Rule::Repeat(s) => { lem_wf_mono((*s).rule, m, n); }
        Rule::Lines(s) => { lem_wf_mono((*s).rule, m, n); }
        Rule::Optional(s) => { lem_wf_mono((*s).rule, m, n); }
        Rule::Not(s) => { lem_wf_mono((*s).rule, m, n); }
        _ => {}
    }
}
