// ---------------------------------------------------------------- when parsing finishes (C20)
/// a number for each referred rule, and whether it may succeed without reading anything
pub ghost struct Gr { pub rank: spec_fn(Node) -> nat, pub nul: spec_fn(Node) -> bool }
pub open spec fn mx(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
/// the rule may succeed without reading anything
#[verifier::opaque]
pub open spec fn nl(g: Gr, r: Rule) -> bool decreases r {
    match r {
        Rule::Whitespace(w) => w.optional,
        Rule::Tag(t) => t.not || blen(sv(t.text)) == 0,
        Rule::UntilAny(u) => u.optional,
        Rule::UntilAnyOrWhitespace(u) => u.optional,
        Rule::Text(_) | Rule::Number(_) => false,
        Rule::Select(s) => exists|i: int| 0 <= i < s.args@.len() && nl(g, #[trigger] s.args@[i]),
        Rule::FastSelect(s) => exists|i: int| 0 <= i < (*s).args@.len() && nl(g, #[trigger] (*s).args@[i]),
        Rule::Sequence(s) => forall|i: int| 0 <= i < s.args@.len() ==> nl(g, #[trigger] s.args@[i]),
        Rule::SeparateBy(b) => (*b).optional || nl(g, (*b).rule),
        Rule::Repeat(b) => (*b).optional || nl(g, (*b).rule),
        Rule::Node(n) => (g.nul)(n),
        Rule::Lines(_) | Rule::Optional(_) | Rule::Not(_) => true,
    }
}
/// above the number of every rule that may be reached from here without reading anything
#[verifier::opaque]
pub open spec fn lk(g: Gr, r: Rule) -> nat decreases r, 0nat, 0int {
    match r {
        Rule::Sequence(s) => lks(g, s.args, 0),
        Rule::Select(s) => lkm(g, s.args, 0),
        Rule::FastSelect(s) => lkm(g, (*s).args, 0),
        Rule::SeparateBy(b) => mx(lk(g, (*b).rule), if nl(g, (*b).rule) { lk(g, (*b).by) } else { 0 }),
        Rule::Repeat(b) => lk(g, (*b).rule),
        Rule::Lines(b) => lk(g, (*b).rule),
        Rule::Optional(b) => lk(g, (*b).rule),
        Rule::Not(b) => lk(g, (*b).rule),
        Rule::Node(n) => (g.rank)(n) + 1,
        _ => 0,
    }
}
/// rules one after the other, from i on
pub open spec fn lks(g: Gr, v: Vec<Rule>, i: int) -> nat decreases v, 1nat, v@.len() - i {
    if 0 <= i < v@.len() { mx(lk(g, v@[i]), if nl(g, v@[i]) { lks(g, v, i + 1) } else { 0 }) } else { 0 }
}
/// any of the rules, from i on
pub open spec fn lkm(g: Gr, v: Vec<Rule>, i: int) -> nat decreases v, 1nat, v@.len() - i {
    if 0 <= i < v@.len() { mx(lk(g, v@[i]), lkm(g, v, i + 1)) } else { 0 }
}
/// nothing is repeated that may succeed without reading
#[verifier::opaque]
pub open spec fn tk(g: Gr, r: Rule) -> bool decreases r {
    match r {
        Rule::Select(s) => forall|i: int| 0 <= i < s.args@.len() ==> tk(g, #[trigger] s.args@[i]),
        Rule::FastSelect(s) => forall|i: int| 0 <= i < (*s).args@.len() ==> tk(g, #[trigger] (*s).args@[i]),
        Rule::Sequence(s) => forall|i: int| 0 <= i < s.args@.len() ==> tk(g, #[trigger] s.args@[i]),
        Rule::SeparateBy(b) => tk(g, (*b).rule) && tk(g, (*b).by) && !(nl(g, (*b).rule) && nl(g, (*b).by)),
        Rule::Repeat(b) => tk(g, (*b).rule) && !nl(g, (*b).rule),
        Rule::Lines(b) => tk(g, (*b).rule),
        Rule::Optional(b) => tk(g, (*b).rule),
        Rule::Not(b) => tk(g, (*b).rule),
        _ => true,
    }
}
pub open spec fn tks(g: Gr, v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> tk(g, #[trigger] v[i]) }
/// the numbers fit the rules: no rule is reached again without reading
pub open spec fn gok(g: Gr, refs: Seq<Rule>) -> bool {
    forall|i: int| 0 <= i < refs.len() ==> #[trigger] fits(g, refs[i], i)
}
pub open spec fn fits(g: Gr, r: Rule, i: int) -> bool {
    tk(g, r) && forall|n: Node| n.index is Some && n.index.unwrap() == i ==> lk(g, r) <= #[trigger] (g.rank)(n) && (nl(g, r) ==> (g.nul)(n))
}
/// a syntax in which no rule reaches itself, and nothing repeats, without reading
#[verifier::opaque]
pub open spec fn graded(refs: Seq<Rule>) -> bool { exists|g: Gr| gok(g, refs) }
#[verifier::opaque]
pub open spec fn gr(refs: Seq<Rule>) -> Gr { choose|g: Gr| gok(g, refs) }
pub proof fn lem_gr(refs: Seq<Rule>)
    requires graded(refs)
    ensures gok(gr(refs), refs)
{ reveal(graded); reveal(gr); }
pub open spec fn nlm(g: Gr, v: Seq<Rule>) -> bool { exists|i: int| 0 <= i < v.len() && nl(g, #[trigger] v[i]) }
pub open spec fn nls(g: Gr, v: Seq<Rule>) -> bool { forall|i: int| 0 <= i < v.len() ==> nl(g, #[trigger] v[i]) }
/// one level
pub proof fn lem_term(g: Gr, r: Rule)
    ensures match r {
        Rule::Whitespace(w) => nl(g, r) == w.optional && lk(g, r) == 0 && tk(g, r),
        Rule::Tag(t) => nl(g, r) == (t.not || blen(sv(t.text)) == 0) && lk(g, r) == 0 && tk(g, r),
        Rule::UntilAny(u) => nl(g, r) == u.optional && lk(g, r) == 0 && tk(g, r),
        Rule::UntilAnyOrWhitespace(u) => nl(g, r) == u.optional && lk(g, r) == 0 && tk(g, r),
        Rule::Text(_) | Rule::Number(_) => !nl(g, r) && lk(g, r) == 0 && tk(g, r),
        Rule::Select(s) => nl(g, r) == nlm(g, s.args@) && lk(g, r) == lkm(g, s.args, 0) && tk(g, r) == tks(g, s.args@),
        Rule::FastSelect(s) => nl(g, r) == nlm(g, (*s).args@) && lk(g, r) == lkm(g, (*s).args, 0) && tk(g, r) == tks(g, (*s).args@),
        Rule::Sequence(s) => nl(g, r) == nls(g, s.args@) && lk(g, r) == lks(g, s.args, 0) && tk(g, r) == tks(g, s.args@),
        Rule::SeparateBy(b) => nl(g, r) == ((*b).optional || nl(g, (*b).rule)) && lk(g, r) == mx(lk(g, (*b).rule), if nl(g, (*b).rule) { lk(g, (*b).by) } else { 0 })
            && tk(g, r) == (tk(g, (*b).rule) && tk(g, (*b).by) && !(nl(g, (*b).rule) && nl(g, (*b).by))),
        Rule::Repeat(b) => nl(g, r) == ((*b).optional || nl(g, (*b).rule)) && lk(g, r) == lk(g, (*b).rule) && tk(g, r) == (tk(g, (*b).rule) && !nl(g, (*b).rule)),
        Rule::Lines(b) => nl(g, r) && lk(g, r) == lk(g, (*b).rule) && tk(g, r) == tk(g, (*b).rule),
        Rule::Optional(b) => nl(g, r) && lk(g, r) == lk(g, (*b).rule) && tk(g, r) == tk(g, (*b).rule),
        Rule::Not(b) => nl(g, r) && lk(g, r) == lk(g, (*b).rule) && tk(g, r) == tk(g, (*b).rule),
        Rule::Node(n) => nl(g, r) == (g.nul)(n) && lk(g, r) == (g.rank)(n) + 1 && tk(g, r),
    }
{ reveal_with_fuel(nl, 1); reveal_with_fuel(lk, 1); reveal_with_fuel(tk, 1); }
pub proof fn lem_lkm(g: Gr, v: Vec<Rule>, i: int)
    requires 0 <= i
    ensures forall|j: int| i <= j < v@.len() ==> lk(g, #[trigger] v@[j]) <= lkm(g, v, i)
    decreases v@.len() - i
{ if i < v@.len() { lem_lkm(g, v, i + 1); reveal_with_fuel(lkm, 2); reveal_with_fuel(lk, 1); assert forall|j: int| i <= j < v@.len() implies lk(g, #[trigger] v@[j]) <= lkm(g, v, i) by { if j == i {} } } }
pub proof fn lem_lks(g: Gr, v: Vec<Rule>, i: int)
    requires 0 <= i < v@.len()
    ensures lks(g, v, i) == mx(lk(g, v@[i]), if nl(g, v@[i]) { lks(g, v, i + 1) } else { 0 })
{ reveal_with_fuel(lks, 2); reveal_with_fuel(lk, 1); }
pub proof fn lem_lkm_le(g: Gr, v: Vec<Rule>, i: int, k: nat)
    requires 0 <= i, forall|j: int| i <= j < v@.len() ==> lk(g, #[trigger] v@[j]) <= k
    ensures lkm(g, v, i) <= k
    decreases v@.len() - i
{ reveal_with_fuel(lkm, 2); reveal_with_fuel(lk, 1); if i < v@.len() { lem_lkm_le(g, v, i + 1, k); } }
/// rule by rule no more is reached
pub open spec fn le(g: Gr, a: Rule, b: Rule) -> bool { tk(g, a) && lk(g, a) <= lk(g, b) && (nl(g, a) ==> nl(g, b)) }
pub proof fn lem_lks_le(g: Gr, a: Vec<Rule>, b: Vec<Rule>, i: int)
    requires 0 <= i, a@.len() == b@.len(), forall|k: int| 0 <= k < b@.len() ==> le(g, a@[k], #[trigger] b@[k])
    ensures lks(g, a, i) <= lks(g, b, i)
    decreases a@.len() - i
{ if i < a@.len() { let _ = b@[i]; lem_lks(g, a, i); lem_lks(g, b, i); lem_lks_le(g, a, b, i + 1); } else { reveal_with_fuel(lks, 1); reveal_with_fuel(lk, 1); } }
