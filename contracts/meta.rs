// ---------------------------------------------------------------- the rules of the meta language
/// a rule without debug ids and resolved references
pub enum ML {
    Ws(bool), Tag(Seq<char>, bool, bool, Option<Seq<char>>), Until(Seq<char>, bool, Option<Seq<char>>), UntilWs(Seq<char>, bool, Option<Seq<char>>),
    Text(bool, Option<Seq<char>>), Num(bool, Option<Seq<char>>), Ref(Seq<char>, Option<Seq<char>>), Seq(Seq<ML>), Sel(Seq<ML>),
    Sep(bool, bool, Box<ML>, Box<ML>), Rep(bool, Box<ML>), Lines(bool, Box<ML>), Opt(Box<ML>), Not(Box<ML>), Fast,
}
pub open spec fn mp(o: Option<Arc<String>>) -> Option<Seq<char>> { match o { Some(s) => Some(sv(s)), None => None } }
#[verifier::opaque]
pub open spec fn mo(r: Rule) -> ML decreases r {
    match r {
        Rule::Whitespace(w) => ML::Ws(w.optional),
        // without a property nothing is written that could be inverted
        Rule::Tag(t) => ML::Tag(sv(t.text), t.not, t.inverted && t.property is Some, mp(t.property)),
        Rule::UntilAny(u) => ML::Until(sv(u.any_characters), u.optional, mp(u.property)),
        Rule::UntilAnyOrWhitespace(u) => ML::UntilWs(sv(u.any_characters), u.optional, mp(u.property)),
        Rule::Text(t) => ML::Text(t.allow_empty, mp(t.property)),
        Rule::Number(n) => ML::Num(n.allow_underscore, mp(n.property)),
        Rule::Node(n) => ML::Ref(sv(n.name), mp(n.property)),
        Rule::Sequence(s) => ML::Seq(Seq::new(s.args@.len(), |i: int| if 0 <= i < s.args@.len() { mo(s.args@[i]) } else { arbitrary() })),
        Rule::Select(s) => ML::Sel(Seq::new(s.args@.len(), |i: int| if 0 <= i < s.args@.len() { mo(s.args@[i]) } else { arbitrary() })),
        Rule::SeparateBy(s) => ML::Sep((*s).optional, (*s).allow_trail, Box::new(mo((*s).by)), Box::new(mo((*s).rule))),
        Rule::Repeat(s) => ML::Rep((*s).optional, Box::new(mo((*s).rule))),
        Rule::Lines(s) => ML::Lines((*s).indent, Box::new(mo((*s).rule))),
        Rule::Optional(s) => ML::Opt(Box::new(mo((*s).rule))),
        Rule::Not(s) => ML::Not(Box::new(mo((*s).rule))),
        Rule::FastSelect(_) => ML::Fast,
    }
}
#[verifier::opaque]
pub open spec fn mos(v: Seq<Rule>) -> Seq<ML> { v.map_values(|r: Rule| mo(r)) }
pub broadcast proof fn lem_mos_new(v: Seq<Rule>) requires v.len() == 0 ensures #[trigger] mos(v) == Seq::<ML>::empty() { reveal(mos); assert(mos(v) =~= Seq::<ML>::empty()); }
pub broadcast proof fn lem_mos_push(v: Seq<Rule>, r: Rule) ensures #[trigger] mos(v.push(r)) == mos(v).push(mo(r)) { reveal(mos); assert(mos(v.push(r)) =~= mos(v).push(mo(r))); }
pub broadcast proof fn lem_m_ws(x: Whitespace) ensures #[trigger] mo(Rule::Whitespace(x)) == ML::Ws(x.optional) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_tag(x: Tag) ensures #[trigger] mo(Rule::Tag(x)) == ML::Tag(sv(x.text), x.not, x.inverted && x.property is Some, mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_ua(x: UntilAny) ensures #[trigger] mo(Rule::UntilAny(x)) == ML::Until(sv(x.any_characters), x.optional, mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_uaw(x: UntilAnyOrWhitespace) ensures #[trigger] mo(Rule::UntilAnyOrWhitespace(x)) == ML::UntilWs(sv(x.any_characters), x.optional, mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_text(x: Text) ensures #[trigger] mo(Rule::Text(x)) == ML::Text(x.allow_empty, mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_num(x: Number) ensures #[trigger] mo(Rule::Number(x)) == ML::Num(x.allow_underscore, mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_node(x: Node) ensures #[trigger] mo(Rule::Node(x)) == ML::Ref(sv(x.name), mp(x.property)) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_seq(x: Sequence) ensures #[trigger] mo(Rule::Sequence(x)) == ML::Seq(mos(x.args@)) { reveal_with_fuel(mo, 1); reveal(mos); let r = mo(Rule::Sequence(x)); assert(r->Seq_0 =~= mos(x.args@)); }
pub broadcast proof fn lem_m_sel(x: Select) ensures #[trigger] mo(Rule::Select(x)) == ML::Sel(mos(x.args@)) { reveal_with_fuel(mo, 1); reveal(mos); let r = mo(Rule::Select(x)); assert(r->Sel_0 =~= mos(x.args@)); }
pub broadcast proof fn lem_m_sep(x: Box<SeparateBy>) ensures #[trigger] mo(Rule::SeparateBy(x)) == ML::Sep((*x).optional, (*x).allow_trail, Box::new(mo((*x).by)), Box::new(mo((*x).rule))) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_rep(x: Box<Repeat>) ensures #[trigger] mo(Rule::Repeat(x)) == ML::Rep((*x).optional, Box::new(mo((*x).rule))) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_lines(x: Box<Lines>) ensures #[trigger] mo(Rule::Lines(x)) == ML::Lines((*x).indent, Box::new(mo((*x).rule))) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_opt(x: Box<Optional>) ensures #[trigger] mo(Rule::Optional(x)) == ML::Opt(Box::new(mo((*x).rule))) { reveal_with_fuel(mo, 1); }
pub broadcast proof fn lem_m_not(x: Box<Not>) ensures #[trigger] mo(Rule::Not(x)) == ML::Not(Box::new(mo((*x).rule))) { reveal_with_fuel(mo, 1); }
/// every reference is resolved to a rule of its name
#[verifier::opaque]
pub open spec fn res(names: Seq<Arc<String>>, r: Rule) -> bool decreases r {
    match r {
        Rule::Node(n) => n.index matches Some(i) && i < names.len() && sv(names[i as int]) == sv(n.name),
        Rule::Sequence(s) => forall|i: int| 0 <= i < s.args@.len() ==> res(names, #[trigger] s.args@[i]),
        Rule::Select(s) => forall|i: int| 0 <= i < s.args@.len() ==> res(names, #[trigger] s.args@[i]),
        Rule::SeparateBy(s) => res(names, (*s).by) && res(names, (*s).rule),
        Rule::Repeat(s) => res(names, (*s).rule),
        Rule::Lines(s) => res(names, (*s).rule),
        Rule::Optional(s) => res(names, (*s).rule),
        Rule::Not(s) => res(names, (*s).rule),
        Rule::FastSelect(_) => false,
        _ => true,
    }
}
/// no reference is resolved yet, all have the name of a rule of the meta language
#[verifier::opaque]
pub open spec fn un(r: Rule) -> bool decreases r {
    match r {
        Rule::Node(n) => n.index is None && ml_named(sv(n.name)),
        Rule::Sequence(s) => forall|i: int| 0 <= i < s.args@.len() ==> un(#[trigger] s.args@[i]),
        Rule::Select(s) => forall|i: int| 0 <= i < s.args@.len() ==> un(#[trigger] s.args@[i]),
        Rule::SeparateBy(s) => un((*s).by) && un((*s).rule),
        Rule::Repeat(s) => un((*s).rule),
        Rule::Lines(s) => un((*s).rule),
        Rule::Optional(s) => un((*s).rule),
        Rule::Not(s) => un((*s).rule),
        Rule::FastSelect(_) => false,
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn uns(v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> un(#[trigger] v[i]) }
pub broadcast proof fn lem_uns_new(v: Seq<Rule>) requires v.len() == 0 ensures #[trigger] uns(v) { reveal(uns); }
pub broadcast proof fn lem_uns_push(v: Seq<Rule>, r: Rule) ensures uns(v) && un(r) ==> #[trigger] uns(v.push(r)) { reveal(uns); }
pub broadcast proof fn lem_u_ws(x: Whitespace) ensures #[trigger] un(Rule::Whitespace(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_tag(x: Tag) ensures #[trigger] un(Rule::Tag(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_ua(x: UntilAny) ensures #[trigger] un(Rule::UntilAny(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_uaw(x: UntilAnyOrWhitespace) ensures #[trigger] un(Rule::UntilAnyOrWhitespace(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_text(x: Text) ensures #[trigger] un(Rule::Text(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_num(x: Number) ensures #[trigger] un(Rule::Number(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_node(x: Node) requires x.index is None, ml_named(sv(x.name)) ensures #[trigger] un(Rule::Node(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_seq(x: Sequence) requires uns(x.args@) ensures #[trigger] un(Rule::Sequence(x)) { reveal(uns); reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_sel(x: Select) requires uns(x.args@) ensures #[trigger] un(Rule::Select(x)) { reveal(uns); reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_sep(x: Box<SeparateBy>) requires un((*x).rule), un((*x).by) ensures #[trigger] un(Rule::SeparateBy(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_rep(x: Box<Repeat>) requires un((*x).rule) ensures #[trigger] un(Rule::Repeat(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_lines(x: Box<Lines>) requires un((*x).rule) ensures #[trigger] un(Rule::Lines(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_opt(x: Box<Optional>) requires un((*x).rule) ensures #[trigger] un(Rule::Optional(x)) { reveal_with_fuel(un, 1); }
pub broadcast proof fn lem_u_not(x: Box<Not>) requires un((*x).rule) ensures #[trigger] un(Rule::Not(x)) { reveal_with_fuel(un, 1); }
pub broadcast group grp_meta {
    lem_ml_next, lem_ml_done, lem_mos_new, lem_mos_push, lem_m_ws, lem_m_tag, lem_m_ua, lem_m_uaw, lem_m_text, lem_m_num, lem_m_node, lem_m_seq, lem_m_sel, lem_m_sep, lem_m_rep, lem_m_lines, lem_m_opt, lem_m_not,
    lem_uns_new, lem_uns_push, lem_u_ws, lem_u_tag, lem_u_ua, lem_u_uaw, lem_u_text, lem_u_num, lem_u_node, lem_u_seq, lem_u_sel, lem_u_sep, lem_u_rep, lem_u_lines, lem_u_opt, lem_u_not,
}
/// resolving references changes nothing else
pub proof fn lem_upd_mo(names: Seq<Arc<String>>, r: Rule, o: Rule)
    requires upd(names, r, o)
    ensures mo(o) == mo(r)
    decreases r
{
    broadcast use {lem_m_seq, lem_m_sel, lem_m_sep, lem_m_rep, lem_m_lines, lem_m_opt, lem_m_not, lem_m_node};
    reveal_with_fuel(upd, 1);
    match r {
        Rule::Sequence(s) => if let Rule::Sequence(t) = o { reveal(mos); assert forall|k: int| 0 <= k < t.args@.len() implies mo(#[trigger] t.args@[k]) == mo(s.args@[k]) by { let _ = s.args@[k]; lem_upd_mo(names, s.args@[k], t.args@[k]); } assert(mos(s.args@) =~= mos(t.args@)); }
        Rule::Select(s) => if let Rule::Select(t) = o { reveal(mos); assert forall|k: int| 0 <= k < t.args@.len() implies mo(#[trigger] t.args@[k]) == mo(s.args@[k]) by { let _ = s.args@[k]; lem_upd_mo(names, s.args@[k], t.args@[k]); } assert(mos(s.args@) =~= mos(t.args@)); }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_upd_mo(names, (*s).rule, (*t).rule); lem_upd_mo(names, (*s).by, (*t).by); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_upd_mo(names, (*s).rule, (*t).rule); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_upd_mo(names, (*s).rule, (*t).rule); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_upd_mo(names, (*s).rule, (*t).rule); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_upd_mo(names, (*s).rule, (*t).rule); }
        _ => {}
    }
}
/// the first rule of a name that some rule has
pub proof fn lem_first_is(names: Seq<Arc<String>>, name: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < names.len() <= usize::MAX, sv(names[k]) == name
    ensures first_at(names, name, i) matches Some(j) && j < names.len() && sv(names[j as int]) == name
    decreases names.len() - i
{ if sv(names[i]) != name { lem_first_is(names, name, i + 1, k); } }
pub proof fn lem_upd_res(names: Seq<Arc<String>>, r: Rule, o: Rule)
    requires upd(names, r, o), un(r), ml_names(names)
    ensures res(names, o)
    decreases r
{
    reveal_with_fuel(upd, 1); reveal_with_fuel(un, 1); reveal_with_fuel(res, 1);
    match r {
        Rule::Node(n) => { let k = lem_named(names, sv(n.name)); lem_first_is(names, sv(n.name), 0, k); }
        Rule::Sequence(s) => if let Rule::Sequence(t) = o { assert forall|k: int| 0 <= k < t.args@.len() implies res(names, #[trigger] t.args@[k]) by { let _ = s.args@[k]; lem_upd_res(names, s.args@[k], t.args@[k]); } }
        Rule::Select(s) => if let Rule::Select(t) = o { assert forall|k: int| 0 <= k < t.args@.len() implies res(names, #[trigger] t.args@[k]) by { let _ = s.args@[k]; lem_upd_res(names, s.args@[k], t.args@[k]); } }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_upd_res(names, (*s).rule, (*t).rule); lem_upd_res(names, (*s).by, (*t).by); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_upd_res(names, (*s).rule, (*t).rule); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_upd_res(names, (*s).rule, (*t).rule); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_upd_res(names, (*s).rule, (*t).rule); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_upd_res(names, (*s).rule, (*t).rule); }
        _ => {}
    }
}
/// the names of the rules of the meta language, in order
#[verifier::opaque]
pub open spec fn ml_names(names: Seq<Arc<String>>) -> bool { names.len() == ml_len() && forall|i: int| 0 <= i < ml_len() ==> sv(#[trigger] names[i]) == ml_name(i) }
pub open spec fn ml_rules(rules: Seq<Rule>) -> bool { rules.len() == ml_len() && forall|i: int| 0 <= i < ml_len() ==> mo(#[trigger] rules[i]) == ml_rule(i) }
/// s are the rules of the meta language as its documentation describes them
#[verifier::opaque]
pub open spec fn is_meta(s: Syntax) -> bool { ml_names(s.names@) && ml_rules(s.rules@) && forall|i: int| 0 <= i < ml_len() ==> res(s.names@, #[trigger] s.rules@[i]) }
/// the first rules are there
#[verifier::opaque]
pub open spec fn ml_part(names: Seq<Arc<String>>, rules: Seq<Rule>) -> bool {
    names.len() == rules.len() && names.len() <= ml_len()
    && (forall|i: int| 0 <= i < names.len() ==> sv(#[trigger] names[i]) == ml_name(i)) && (forall|i: int| 0 <= i < rules.len() ==> mo(#[trigger] rules[i]) == ml_rule(i) && un(rules[i]))
}
pub broadcast proof fn lem_ml_next(names: Seq<Arc<String>>, rules: Seq<Rule>, n: Arc<String>, r: Rule)
    ensures ml_part(names, rules) && names.len() < ml_len() && sv(n) == ml_name(names.len() as int) && mo(r) == ml_rule(names.len() as int) && un(r) ==> #[trigger] ml_part(names.push(n), rules.push(r))
{ reveal(ml_part); }
pub broadcast proof fn lem_ml_done(names: Seq<Arc<String>>, a: Seq<Rule>, s: Syntax)
    requires ml_part(names, a), names.len() == ml_len(), #[trigger] upds(names, a, s.rules@), s.names@ == names
    ensures #[trigger] is_meta(s)
{
    reveal(ml_part); reveal(ml_names); reveal(is_meta);
    assert(ml_names(names));
    assert forall|i: int| 0 <= i < ml_len() implies mo(#[trigger] s.rules@[i]) == ml_rule(i) && res(s.names@, s.rules@[i]) by { let _ = a[i]; lem_upd_mo(names, a[i], s.rules@[i]); lem_upd_res(names, a[i], s.rules@[i]); }
}
