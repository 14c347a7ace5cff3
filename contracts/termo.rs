/// replacing selections by table lookup reaches no more without reading
pub proof fn lem_sim_term(refs: Seq<Rule>, g: Gr, r: Rule, o: Rule)
    requires sim(refs, r, o), tk(g, r)
    ensures le(g, o, r)
    decreases r
{
    if r == o { return; }
    lem_sim1(refs, r, o); lem_term(g, r); lem_term(g, o);
    match r {
        Rule::Sequence(s) => if let Rule::Sequence(t) = o {
            assert forall|k: int| 0 <= k < s.args@.len() implies le(g, t.args@[k], #[trigger] s.args@[k]) by { lem_sim_term(refs, g, s.args@[k], t.args@[k]); }
            assert forall|k: int| 0 <= k < t.args@.len() implies tk(g, #[trigger] t.args@[k]) by { let _ = s.args@[k]; }
            assert forall|k: int| nls(g, t.args@) && 0 <= k < s.args@.len() implies nl(g, #[trigger] s.args@[k]) by { let _ = t.args@[k]; }
            lem_lks_le(g, t.args, s.args, 0);
        }
        Rule::Select(s) => {
            lem_lkm(g, s.args, 0);
            match o {
                Rule::Select(t) => {
                    assert forall|k: int| 0 <= k < t.args@.len() implies tk(g, #[trigger] t.args@[k]) && lk(g, t.args@[k]) <= lkm(g, s.args, 0) && (nl(g, t.args@[k]) ==> nlm(g, s.args@)) by {
                        let _ = s.args@[k];
                        lem_sim_term(refs, g, s.args@[k], t.args@[k]);
                    }
                    lem_lkm_le(g, t.args, 0, lkm(g, s.args, 0));
                }
                Rule::FastSelect(f) => {
                    let n = (*f).args@.len() - (if (*f).tail { 1int } else { 0 });
                    reveal(tab_ok);
                    assert forall|k: int| 0 <= k < n implies tk(g, #[trigger] (*f).args@[k]) && lk(g, (*f).args@[k]) <= lkm(g, s.args, 0) && (nl(g, (*f).args@[k]) ==> nlm(g, s.args@)) by {
                        let _ = s.args@[k];
                        lem_sim_term(refs, g, s.args@[k], (*f).args@[k]);
                    }
                    if (*f).tail { if let Rule::Select(t) = (*f).args@[n] {
                        lem_term(g, (*f).args@[n]);
                        assert forall|k: int| 0 <= k < t.args@.len() implies tk(g, #[trigger] t.args@[k]) && lk(g, t.args@[k]) <= lkm(g, s.args, 0) && (nl(g, t.args@[k]) ==> nlm(g, s.args@)) by {
                            let _ = s.args@[k + n];
                            lem_sim_term(refs, g, s.args@[k + n], t.args@[k]);
                        }
                        lem_lkm_le(g, t.args, 0, lkm(g, s.args, 0));
                    } }
                    lem_lkm_le(g, (*f).args, 0, lkm(g, s.args, 0));
                }
                _ => {}
            }
        }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_sim_term(refs, g, (*s).rule, (*t).rule); lem_sim_term(refs, g, (*s).by, (*t).by); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_sim_term(refs, g, (*s).rule, (*t).rule); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_sim_term(refs, g, (*s).rule, (*t).rule); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_sim_term(refs, g, (*s).rule, (*t).rule); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_sim_term(refs, g, (*s).rule, (*t).rule); }
        _ => {}
    }
}
pub proof fn lem_graded_opt(refs: Seq<Rule>, o: Seq<Rule>)
    requires refs.len() == o.len(), graded(refs), forall|i: int| 0 <= i < refs.len() ==> sim(refs, #[trigger] refs[i], o[i])
    ensures graded(o)
{
    lem_gr(refs); let g = gr(refs);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] fits(g, o[i], i) by { assert(fits(g, refs[i], i)); lem_sim_term(refs, g, refs[i], o[i]); }
    assert(gok(g, o)); reveal(graded);
}
