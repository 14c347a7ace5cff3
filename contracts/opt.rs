// ---------------------------------------------------------------- optimization: first bytes, tables, simulation
/// the rule fails without effect where the next byte is not b
#[verifier::opaque]
pub open spec fn fb(refs: Seq<Rule>, r: Rule, b: int) -> bool {
    forall|g: G, p: P, ind: int| g.refs == refs && !(p.src.len() > 0 && first_byte(p.src[0]) == b) && (#[trigger] lim(g, Cfg::R(r, p, ind))) is Some
        ==> !lim(g, Cfg::R(r, p, ind)).unwrap().ok && lim(g, Cfg::R(r, p, ind)).unwrap().ind == ind
}
/// why a rule starts with b
pub open spec fn fb_why(refs: Seq<Rule>, r: Rule, b: int) -> bool {
    match r {
        Rule::Not(n) => (*n).rule matches Rule::Not(m) && fb(refs, (*m).rule, b),
        Rule::Text(_) => b == 0x22,
        Rule::Select(s) => s.args@.len() == 1 && fb(refs, s.args@[0], b),
        Rule::SeparateBy(s) => !(*s).optional && fb(refs, (*s).rule, b),
        Rule::Sequence(s) => s.args@.len() > 0 && fb(refs, s.args@[0], b),
        Rule::Repeat(s) => !(*s).optional && fb(refs, (*s).rule, b),
        Rule::Node(n) => n.index matches Some(i) && fb(refs, refs[i as int], b),
        Rule::Tag(t) => !t.not && sv(t.text).len() > 0 && first_byte(sv(t.text)[0]) == b,
        _ => false,
    }
}
pub proof fn lem_fb(refs: Seq<Rule>, r: Rule, b: int)
    requires fb_why(refs, r, b)
    ensures fb(refs, r, b)
{
    assert forall|g: G, p: P, ind: int| g.refs == refs && !(p.src.len() > 0 && first_byte(p.src[0]) == b) && (#[trigger] lim(g, Cfg::R(r, p, ind))) is Some
        implies !lim(g, Cfg::R(r, p, ind)).unwrap().ok && lim(g, Cfg::R(r, p, ind)).unwrap().ind == ind by {
        reveal(fb);
        lem_unfold(g, Cfg::R(r, p, ind));
        match r {
            Rule::Not(n) => {
                lem_unfold(g, Cfg::Not(*n, p, ind));
                lem_unfold(g, Cfg::R((*n).rule, p, ind));
                if let Rule::Not(m) = (*n).rule { lem_unfold(g, Cfg::Not(*m, p, ind)); }
            }
            Rule::Text(t) => { lem_str_quote(p.src); assert(first_byte('"') == 0x22) by (compute); }
            Rule::Select(s) => { lem_unfold(g, Cfg::Sel(s.args@, 0, p, ind, None, s.debug_id)); if lim(g, Cfg::R(s.args@[0], p, ind)) is Some {
                lem_unfold(g, Cfg::Sel(s.args@, 1, p, ind, amerge(oerr(lim(g, Cfg::R(s.args@[0], p, ind)).unwrap()), None), s.debug_id)); } }
            Rule::SeparateBy(s) => { lem_unfold(g, Cfg::SepR(*s, true, m_start(p, ind))); }
            Rule::Sequence(s) => { lem_unfold(g, Cfg::Seq(s.args@, 0, m_start(p, ind))); }
            Rule::Repeat(s) => { lem_unfold(g, Cfg::Rep((*s).rule, (*s).optional, true, m_start(p, ind))); }
            Rule::Node(n) => { lem_unfold(g, Cfg::Node(n, p, ind)); }
            Rule::Tag(t) => { reveal(starts_with); if starts_with(p.src, sv(t.text)) { assert(p.src.take(sv(t.text).len() as int)[0] == p.src[0]); } }
            _ => {}
        }
    }
    reveal(fb);
}
pub proof fn lem_fb_all(refs: Seq<Rule>, r: Rule)
    ensures forall|b: int| #[trigger] fb(refs, r, b) || !fb_why(refs, r, b)
{ assert forall|b: int| #[trigger] fb(refs, r, b) || !fb_why(refs, r, b) by { if fb_why(refs, r, b) { lem_fb(refs, r, b); } } }

pub proof fn lem_wf_not(r: Rule, n: nat)
    requires wf(r, n)
    ensures r matches Rule::Not(a) ==> ((*a).rule matches Rule::Not(b) ==> wf((*b).rule, n))
{ lem_wf(r, n); if let Rule::Not(a) = r { lem_wf((*a).rule, n); } }
pub open spec fn hit(t: [u8; 256], i: int) -> bool { exists|b: int| 0 <= b < 256 && #[trigger] t@[b] == i }
/// the table sends every byte to the one rule of the first n that may start with it
#[verifier::opaque]
pub open spec fn tab_ok(refs: Seq<Rule>, args: Seq<Rule>, n: int, t: [u8; 256]) -> bool {
    &&& 0 <= n <= 255 && n <= args.len()
    &&& forall|b: int| 0 <= b < 256 ==> #[trigger] t@[b] == 255 || (t@[b] < n && fb(refs, args[t@[b] as int], b))
    &&& forall|i: int| 0 <= i < n ==> #[trigger] hit(t, i)
}
pub proof fn lem_tab_new(refs: Seq<Rule>, args: Seq<Rule>, t: [u8; 256])
    requires forall|b: int| 0 <= b < 256 ==> #[trigger] t@[b] == 255
    ensures tab_ok(refs, args, 0, t)
{ reveal(tab_ok); }
pub proof fn lem_tab_add(refs: Seq<Rule>, args: Seq<Rule>, n: int, t: [u8; 256], b: int, t2: [u8; 256])
    requires tab_ok(refs, args, n, t), n < args.len(), n < 255, 0 <= b < 256, t@[b] == 255, fb(refs, args[n], b), t2@ == t@.update(b, n as u8)
    ensures tab_ok(refs, args, n + 1, t2)
{
    reveal(tab_ok);
    assert forall|c: int| 0 <= c < 256 implies #[trigger] t2@[c] == 255 || (t2@[c] < n + 1 && fb(refs, args[t2@[c] as int], c)) by { assert(t2@[c] == if c == b { n as u8 } else { t@[c] }); }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] hit(t2, i) by {
        if i == n { assert(t2@[b] == i); } else { assert(hit(t, i)); let c = choose|c: int| 0 <= c < 256 && #[trigger] t@[c] == i; assert(t2@[c] == i); }
    }
}

/// a[k] relates to b[k - d] from k = i on
pub open spec fn pw(refs: Seq<Rule>, a: Seq<Rule>, i: int, b: Seq<Rule>, d: int) -> bool {
    &&& 0 <= i && d <= i <= a.len() && a.len() - d == b.len()
    &&& forall|k: int| i <= k < a.len() ==> sim(refs, #[trigger] a[k], b[k - d])
}
/// o is r, possibly with selections replaced by table lookup
#[verifier::opaque]
pub open spec fn sim(refs: Seq<Rule>, r: Rule, o: Rule) -> bool decreases r {
    r == o || match r {
        Rule::Sequence(s) => match o { Rule::Sequence(t) => s.args@.len() == t.args@.len() && forall|k: int| 0 <= k < s.args@.len() ==> sim(refs, #[trigger] s.args@[k], t.args@[k]), _ => false },
        Rule::Select(s) => match o {
            Rule::Select(t) => s.args@.len() == t.args@.len() && forall|k: int| 0 <= k < s.args@.len() ==> sim(refs, #[trigger] s.args@[k], t.args@[k]),
            Rule::FastSelect(f) => {
                let n = (*f).args@.len() - (if (*f).tail { 1int } else { 0 });
                &&& tab_ok(refs, s.args@, n, (*f).table)
                &&& forall|k: int| 0 <= k < n && k < s.args@.len() ==> sim(refs, #[trigger] s.args@[k], (*f).args@[k])
                &&& if (*f).tail { (*f).args@[n] matches Rule::Select(t) && s.args@.len() - n == t.args@.len() && forall|k: int| 0 <= k && n <= k < s.args@.len() ==> sim(refs, #[trigger] s.args@[k], t.args@[k - n]) } else { n == s.args@.len() }
            },
            _ => false,
        },
        Rule::SeparateBy(s) => match o { Rule::SeparateBy(t) => sim(refs, (*s).rule, (*t).rule) && sim(refs, (*s).by, (*t).by) && (*s).optional == (*t).optional && (*s).allow_trail == (*t).allow_trail, _ => false },
        Rule::Repeat(s) => match o { Rule::Repeat(t) => sim(refs, (*s).rule, (*t).rule) && (*s).optional == (*t).optional, _ => false },
        Rule::Lines(s) => match o { Rule::Lines(t) => sim(refs, (*s).rule, (*t).rule) && (*s).indent == (*t).indent, _ => false },
        Rule::Optional(s) => match o { Rule::Optional(t) => sim(refs, (*s).rule, (*t).rule), _ => false },
        Rule::Not(s) => match o { Rule::Not(t) => sim(refs, (*s).rule, (*t).rule), _ => false },
        _ => false,
    }
}
pub broadcast proof fn lem_sim_refl(refs: Seq<Rule>, r: Rule)
    ensures #[trigger] sim(refs, r, r)
{ reveal_with_fuel(sim, 1); }
/// one level of the relation
pub open spec fn sim1(refs: Seq<Rule>, r: Rule, o: Rule) -> bool {
    r == o || match r {
        Rule::Sequence(s) => match o { Rule::Sequence(t) => pw(refs, s.args@, 0, t.args@, 0), _ => false },
        Rule::Select(s) => match o {
            Rule::Select(t) => pw(refs, s.args@, 0, t.args@, 0),
            Rule::FastSelect(f) => {
                let n = (*f).args@.len() - (if (*f).tail { 1int } else { 0 });
                &&& tab_ok(refs, s.args@, n, (*f).table)
                &&& forall|k: int| 0 <= k < n ==> sim(refs, #[trigger] s.args@[k], (*f).args@[k])
                &&& if (*f).tail { (*f).args@[n] matches Rule::Select(t) && pw(refs, s.args@, n, t.args@, n) } else { n == s.args@.len() }
            },
            _ => false,
        },
        Rule::SeparateBy(s) => match o { Rule::SeparateBy(t) => sim(refs, (*s).rule, (*t).rule) && sim(refs, (*s).by, (*t).by) && (*s).optional == (*t).optional && (*s).allow_trail == (*t).allow_trail, _ => false },
        Rule::Repeat(s) => match o { Rule::Repeat(t) => sim(refs, (*s).rule, (*t).rule) && (*s).optional == (*t).optional, _ => false },
        Rule::Lines(s) => match o { Rule::Lines(t) => sim(refs, (*s).rule, (*t).rule) && (*s).indent == (*t).indent, _ => false },
        Rule::Optional(s) => match o { Rule::Optional(t) => sim(refs, (*s).rule, (*t).rule), _ => false },
        Rule::Not(s) => match o { Rule::Not(t) => sim(refs, (*s).rule, (*t).rule), _ => false },
        _ => false,
    }
}
pub proof fn lem_sim1(refs: Seq<Rule>, r: Rule, o: Rule)
    ensures sim(refs, r, o) == sim1(refs, r, o)
{ reveal_with_fuel(sim, 1); reveal(tab_ok); }
pub proof fn lem_sim_all(refs: Seq<Rule>, r: Rule)
    ensures forall|o: Rule| #[trigger] sim(refs, r, o) == sim1(refs, r, o)
{ assert forall|o: Rule| #[trigger] sim(refs, r, o) == sim1(refs, r, o) by { lem_sim1(refs, r, o); } }
pub proof fn lem_sim_wf(refs: Seq<Rule>, r: Rule, o: Rule, n: nat)
    requires wf(r, n), sim(refs, r, o)
    ensures wf(o, n)
    decreases r
{
    if r == o { return; }
    lem_wf(r, n); lem_sim1(refs, r, o); reveal_with_fuel(wf, 2); 
    match r {
        Rule::Sequence(s) => if let Rule::Sequence(t) = o { assert forall|k: int| 0 <= k < t.args@.len() implies wf(#[trigger] t.args@[k], n) by { let _ = s.args@[k]; lem_sim_wf(refs, s.args@[k], t.args@[k], n); } }
        Rule::Select(s) => match o {
            Rule::Select(t) => { assert forall|k: int| 0 <= k < t.args@.len() implies wf(#[trigger] t.args@[k], n) by { let _ = s.args@[k]; lem_sim_wf(refs, s.args@[k], t.args@[k], n); } }
            Rule::FastSelect(f) => {
                let m = (*f).args@.len() - (if (*f).tail { 1int } else { 0 });
                assert forall|k: int| 0 <= k < (*f).args@.len() implies wf(#[trigger] (*f).args@[k], n) by {
                    if k < m { let _ = s.args@[k]; lem_sim_wf(refs, s.args@[k], (*f).args@[k], n); }
                    else if let Rule::Select(t) = (*f).args@[m] {
                        assert forall|j: int| 0 <= j < t.args@.len() implies wf(#[trigger] t.args@[j], n) by { let _ = s.args@[j + m]; lem_sim_wf(refs, s.args@[j + m], t.args@[j], n); }
                    }
                }
                reveal(tab_ok);
            }
            _ => {}
        }
        Rule::SeparateBy(s) => if let Rule::SeparateBy(t) = o { lem_sim_wf(refs, (*s).rule, (*t).rule, n); lem_sim_wf(refs, (*s).by, (*t).by, n); }
        Rule::Repeat(s) => if let Rule::Repeat(t) = o { lem_sim_wf(refs, (*s).rule, (*t).rule, n); }
        Rule::Lines(s) => if let Rule::Lines(t) = o { lem_sim_wf(refs, (*s).rule, (*t).rule, n); }
        Rule::Optional(s) => if let Rule::Optional(t) = o { lem_sim_wf(refs, (*s).rule, (*t).rule, n); }
        Rule::Not(s) => if let Rule::Not(t) = o { lem_sim_wf(refs, (*s).rule, (*t).rule, n); }
        _ => {}
    }
}
pub open spec fn simw(refs: Seq<Rule>, r: Rule, o: Rule) -> bool { sim(refs, r, o) && wf(r, refs.len()) }
pub open spec fn pww(refs: Seq<Rule>, a: Seq<Rule>, i: int, b: Seq<Rule>, d: int) -> bool { pw(refs, a, i, b, d) && wfs(a, refs.len()) }
pub open spec fn sepw(refs: Seq<Rule>, s: SeparateBy, t: SeparateBy) -> bool { simw(refs, s.rule, t.rule) && simw(refs, s.by, t.by) && s.optional == t.optional && s.allow_trail == t.allow_trail }
pub open spec fn linw(refs: Seq<Rule>, s: Lines, t: Lines) -> bool { simw(refs, s.rule, t.rule) && s.indent == t.indent }
pub proof fn lem_pw_refl(refs: Seq<Rule>, v: Seq<Rule>)
    ensures pw(refs, v, 0, v, 0)
{ assert forall|k: int| 0 <= k < v.len() implies sim(refs, #[trigger] v[k], v[k - 0]) by { lem_sim_refl(refs, v[k]); } }
/// related configurations
pub open spec fn csim(refs: Seq<Rule>, c: Cfg, d: Cfg) -> bool {
    match c {
        Cfg::R(r, p, ind) => d matches Cfg::R(r2, p2, ind2) && simw(refs, r, r2) && p == p2 && ind == ind2,
        Cfg::Seq(v, i, a) => d matches Cfg::Seq(v2, i2, a2) && pww(refs, v, 0, v2, 0) && i == i2 && a == a2 && i >= 0,
        Cfg::Sel(v, i, p, ind, err, id) => d matches Cfg::Sel(v2, i2, p2, ind2, err2, id2) && pww(refs, v, i, v2, i - i2) && i2 >= 0 && p == p2 && ind == ind2,
        Cfg::Fs(b, p, ind) => d matches Cfg::Fs(b2, p2, ind2) && pww(refs, b.args@, 0, b2.args@, 0) && wf_table(b.table, b.args@.len(), b.tail) && b.table == b2.table && b.tail == b2.tail && p == p2 && ind == ind2,
        Cfg::Fst(v, p, ind, err) => d matches Cfg::Fst(v2, p2, ind2, err2) && pww(refs, v, 0, v2, 0) && v.len() > 0 && p == p2 && ind == ind2,
        Cfg::Node(n, p, ind) => d matches Cfg::Node(n2, p2, ind2) && n == n2 && p == p2 && ind == ind2 && (n.index matches Some(i) ==> i < refs.len()),
        Cfg::Opt(b, p, ind) => d matches Cfg::Opt(b2, p2, ind2) && simw(refs, b.rule, b2.rule) && p == p2 && ind == ind2,
        Cfg::Not(b, p, ind) => d matches Cfg::Not(b2, p2, ind2) && simw(refs, b.rule, b2.rule) && p == p2 && ind == ind2,
        Cfg::Rep(r, opt, first, a) => d matches Cfg::Rep(r2, opt2, first2, a2) && simw(refs, r, r2) && opt == opt2 && first == first2 && a == a2,
        Cfg::SepR(s, first, a) => d matches Cfg::SepR(s2, first2, a2) && sepw(refs, s, s2) && first == first2 && a == a2,
        Cfg::SepB(s, a) => d matches Cfg::SepB(s2, a2) && sepw(refs, s, s2) && a == a2,
        Cfg::Lns(l, nl, fix, a) => d matches Cfg::Lns(l2, nl2, fix2, a2) && linw(refs, l, l2) && nl == nl2 && fix == fix2 && a == a2,
    }
}
pub open spec fn ksim(refs: Seq<Rule>, c: K, d: K) -> bool {
    match c {
        K::Seq(v, i, a) => d matches K::Seq(v2, i2, a2) && pww(refs, v, 0, v2, 0) && i == i2 && a == a2 && i >= 0,
        K::Sel(v, i, p, err, id) => d matches K::Sel(v2, i2, p2, err2, id2) && pww(refs, v, i, v2, i - i2) && i2 >= 0 && i < v.len() && p == p2,
        K::Fs(v, tail, p) => d matches K::Fs(v2, tail2, p2) && pww(refs, v, 0, v2, 0) && (tail ==> v.len() > 0) && tail == tail2 && p == p2,
        K::Fst(err) => d is Fst,
        K::Rep(r, opt, first, a) => d matches K::Rep(r2, opt2, first2, a2) && simw(refs, r, r2) && opt == opt2 && first == first2 && a == a2,
        K::SepR(s, first, a) => d matches K::SepR(s2, first2, a2) && sepw(refs, s, s2) && first == first2 && a == a2,
        K::SepB(s, a) => d matches K::SepB(s2, a2) && sepw(refs, s, s2) && a == a2,
        K::Opt => d is Opt,
        K::Not(p, id) => d matches K::Not(p2, id2) && p == p2,
        K::Node(prop, p) => d == c,
        K::Ln(l, a, q, n, lv) => d matches K::Ln(l2, a2, q2, n2, lv2) && linw(refs, l, l2) && a == a2 && q == q2 && n == n2 && lv == lv2,
    }
}
/// the optimized references belong to the original ones
pub open spec fn gsim(g: G, g2: G) -> bool {
    g.tab == g2.tab && g.align == g2.align && g.refs.len() == g2.refs.len() && wfr(g.refs) && forall|i: int| 0 <= i < g.refs.len() ==> sim(g.refs, #[trigger] g.refs[i], g2.refs[i])
}
pub open spec fn is_fast(c: Cfg, d: Cfg) -> bool { c matches Cfg::R(Rule::Select(_), _, _) && d matches Cfg::R(Rule::FastSelect(_), _, _) }
pub proof fn lem_step_sim(g: G, g2: G, c: Cfg, d: Cfg)
    requires gsim(g, g2), csim(g.refs, c, d), !is_fast(c, d)
    ensures match m_step(g, c) {
        Nx::Done(o) => m_step(g2, d) == m_step(g, c),
        Nx::Goto(c1) => m_step(g2, d) matches Nx::Goto(d1) && csim(g.refs, c1, d1),
        Nx::Then(c1, k) => m_step(g2, d) matches Nx::Then(d1, k2) && csim(g.refs, c1, d1) && ksim(g.refs, k, k2),
    }
{
    broadcast use lem_sim_refl;
    match c {
        Cfg::R(r, p, ind) => if let Cfg::R(r2, p2, ind2) = d {
            lem_sim1(g.refs, r, r2); lem_wf(r, g.refs.len());
            match r {
                Rule::Sequence(s) => { lem_pw_refl(g.refs, s.args@); }
                Rule::Select(s) => { lem_pw_refl(g.refs, s.args@); }
                Rule::FastSelect(b) => { lem_pw_refl(g.refs, (*b).args@); }
                _ => {}
            }
        }
        Cfg::Fs(b, p, ind) => if let Cfg::Fs(b2, p2, ind2) = d { assert(start_of(b, p) == start_of(b2, p2)); }
        Cfg::Lns(l, nl, fix, a) => if let Cfg::Lns(l2, nl2, fix2, a2) = d { assert(l.indent == l2.indent); }
        _ => {}
    }
}
pub proof fn lem_app_sim(g: G, g2: G, k: K, k2: K, o: Out)
    requires gsim(g, g2), ksim(g.refs, k, k2)
    ensures match m_app(g, k, o) {
        Ap::Done(x) => m_app(g2, k2, o) == m_app(g, k, o),
        Ap::Goto(c1) => m_app(g2, k2, o) matches Ap::Goto(d1) && csim(g.refs, c1, d1),
    }
{ }
/// what has a meaning keeps it
pub proof fn lem_sim(g: G, g2: G, f: nat, c: Cfg, d: Cfg)
    requires gsim(g, g2), csim(g.refs, c, d), ev(g, f, c) is Some
    ensures lim(g2, d) == ev(g, f, c)
    decreases f, 0int
{
    lem_unfold(g2, d);
    if is_fast(c, d) {
        if let Cfg::R(Rule::Select(s), p, ind) = c { if let Cfg::R(Rule::FastSelect(b), p2, ind2) = d {
            lem_sim1(g.refs, Rule::Select(s), Rule::FastSelect(b)); lem_wf(Rule::Select(s), g.refs.len());
            reveal(tab_ok);
            lem_fast(g, g2, (f - 1) as nat, s, 0, *b, p, ind, None);
        } }
    } else {
        lem_step_sim(g, g2, c, d);
        match m_step(g, c) {
            Nx::Done(o) => {}
            Nx::Goto(c1) => if let Nx::Goto(d1) = m_step(g2, d) { lem_sim(g, g2, (f - 1) as nat, c1, d1); }
            Nx::Then(c1, k) => if let Nx::Then(d1, k2) = m_step(g2, d) {
                lem_sim(g, g2, (f - 1) as nat, c1, d1);
                let o = ev(g, (f - 1) as nat, c1).unwrap();
                lem_app_sim(g, g2, k, k2, o);
                match m_app(g, k, o) {
                    Ap::Done(x) => {}
                    Ap::Goto(c2) => if let Ap::Goto(d2) = m_app(g2, k2, o) { lem_sim(g, g2, (f - 1) as nat, c2, d2); }
                }
            }
        }
    }
}
pub open spec fn fast_pre(g: G, s: Select, b: FastSelect) -> bool {
    sim1(g.refs, Rule::Select(s), Rule::FastSelect(Box::new(b))) && wfs(s.args@, g.refs.len())
}
/// trying the first n sub rules in order does what the table lookup does
pub proof fn lem_fast(g: G, g2: G, f: nat, s: Select, j: int, b: FastSelect, p: P, ind: int, err: Option<AE>)
    requires gsim(g, g2), fast_pre(g, s, b), 0 <= j <= b.args@.len() - (if b.tail { 1int } else { 0 }),
        start_of(b, p) == 255 || j <= start_of(b, p),
        ev(g, f, Cfg::Sel(s.args@, j, p, ind, err, s.debug_id)) is Some
    ensures lim(g2, Cfg::Fs(b, p, ind)) == ev(g, f, Cfg::Sel(s.args@, j, p, ind, err, s.debug_id))
    decreases f, 3int
{
    let n = b.args@.len() - (if b.tail { 1int } else { 0 });
    let t = start_of(b, p);
    let c = Cfg::Sel(s.args@, j, p, ind, err, s.debug_id);
    lem_unfold(g2, Cfg::Fs(b, p, ind));
    reveal(tab_ok);
    if t == j && j < n {
        let _ = s.args@[j];
        lem_sim(g, g2, (f - 1) as nat, Cfg::R(s.args@[j], p, ind), Cfg::R(b.args@[j], p, ind));
        let o = ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)).unwrap();
        if !o.ok {
            lem_rest(g, g2, (f - 1) as nat, s, j + 1, b, p, o.ind, amerge(oerr(o), err));
        }
    } else if j < n {
        lem_none(g, s, j, b, p, ind, f);
        let o = ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)).unwrap();
        lem_fast(g, g2, (f - 1) as nat, s, j + 1, b, p, ind, amerge(oerr(o), err));
    } else {
        lem_rest(g, g2, f, s, j, b, p, ind, err);
    }
}
/// a sub rule with another first byte fails without effect
pub proof fn lem_none(g: G, s: Select, j: int, b: FastSelect, p: P, ind: int, f: nat)
    requires fast_pre(g, s, b), 0 <= j < b.args@.len() - (if b.tail { 1int } else { 0 }), j != start_of(b, p), f > 0,
        ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)) is Some
    ensures !ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)).unwrap().ok, ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)).unwrap().ind == ind
{
    reveal(tab_ok); reveal(fb);
    assert(hit(b.table, j));
    let x = choose|x: int| 0 <= x < 256 && #[trigger] b.table@[x] == j;
    assert(fb(g.refs, s.args@[j], x));
    lem_lim(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind));
}
/// what the table lookup does after the looked up sub rule failed
pub open spec fn fast_rest(b: FastSelect, p: P, ind: int, err: Option<AE>) -> Option<Cfg> { if b.tail { Some(Cfg::Fst(b.args@, p, ind, err)) } else { None } }
pub proof fn lem_rest(g: G, g2: G, f: nat, s: Select, j: int, b: FastSelect, p: P, ind: int, err: Option<AE>)
    requires gsim(g, g2), fast_pre(g, s, b), 0 <= j <= b.args@.len() - (if b.tail { 1int } else { 0 }),
        start_of(b, p) == 255 || j > start_of(b, p),
        ev(g, f, Cfg::Sel(s.args@, j, p, ind, err, s.debug_id)) is Some
    ensures b.tail ==> forall|e: Option<AE>| #[trigger] lim(g2, Cfg::Fst(b.args@, p, ind, e)) == ev(g, f, Cfg::Sel(s.args@, j, p, ind, err, s.debug_id)),
        !b.tail ==> ev(g, f, Cfg::Sel(s.args@, j, p, ind, err, s.debug_id)) == Some(failo(ind, None))
    decreases f, 2int
{
    let n = b.args@.len() - (if b.tail { 1int } else { 0 });
    let c = Cfg::Sel(s.args@, j, p, ind, err, s.debug_id);
    reveal(tab_ok);
    if j < n {
        lem_none(g, s, j, b, p, ind, f);
        let o = ev(g, (f - 1) as nat, Cfg::R(s.args@[j], p, ind)).unwrap();
        lem_rest(g, g2, (f - 1) as nat, s, j + 1, b, p, ind, amerge(oerr(o), err));
    } else if b.tail { lem_tail(g, g2, f, s, b, p, ind, err); }
}
pub proof fn lem_tail(g: G, g2: G, f: nat, s: Select, b: FastSelect, p: P, ind: int, err: Option<AE>)
    requires gsim(g, g2), fast_pre(g, s, b), b.tail,
        ev(g, f, Cfg::Sel(s.args@, b.args@.len() - 1, p, ind, err, s.debug_id)) is Some
    ensures forall|e: Option<AE>| #[trigger] lim(g2, Cfg::Fst(b.args@, p, ind, e)) == ev(g, f, Cfg::Sel(s.args@, b.args@.len() - 1, p, ind, err, s.debug_id))
    decreases f, 1int
{
    let n = b.args@.len() - 1;
    let c = Cfg::Sel(s.args@, n, p, ind, err, s.debug_id);
    if let Rule::Select(t) = b.args@[n] {
        let d = Cfg::Sel(t.args@, 0, p, ind, None, t.debug_id);
        lem_sim(g, g2, f, c, d);
        lem_unfold(g2, Cfg::R(b.args@[n], p, ind));
        lem_fail(g, f, c);
        assert forall|e: Option<AE>| #[trigger] lim(g2, Cfg::Fst(b.args@, p, ind, e)) == ev(g, f, c) by {
            lem_unfold(g2, Cfg::Fst(b.args@, p, ind, e));
        }
    }
}
/// failing selections carry nothing (errors are not part of this theory)
pub proof fn lem_fail(g: G, f: nat, c: Cfg)
    requires ev(g, f, c) is Some, c is Sel
    ensures !ev(g, f, c).unwrap().ok ==> ev(g, f, c).unwrap() == failo(ev(g, f, c).unwrap().ind, None)
    decreases f
{
    reveal_with_fuel(ev, 2);
    match m_step(g, c) { Nx::Then(c1, k) => { match m_app(g, k, ev(g, (f - 1) as nat, c1).unwrap()) { Ap::Goto(c2) => lem_fail(g, (f - 1) as nat, c2), _ => {} } } _ => {} }
}
/// an optimized list of rules reads every text the original reads, in the same way
pub open spec fn same_meaning(rs: Seq<Rule>, os: Seq<Rule>) -> bool {
    forall|tab: int, align: bool, p: P, ind: int, i: int| 0 <= i < rs.len() && (#[trigger] lim(G { refs: rs, tab, align }, Cfg::R(rs[i], p, ind))) is Some
        ==> lim(G { refs: os, tab, align }, Cfg::R(os[i], p, ind)) == lim(G { refs: rs, tab, align }, Cfg::R(rs[i], p, ind))
}
pub proof fn lem_opt(rs: Seq<Rule>, os: Seq<Rule>)
    requires wfr(rs), rs.len() == os.len(), forall|i: int| 0 <= i < rs.len() ==> sim(rs, #[trigger] rs[i], os[i])
    ensures same_meaning(rs, os), wfr(os)
{
    assert forall|tab: int, align: bool, p: P, ind: int, i: int| 0 <= i < rs.len() && (#[trigger] lim(G { refs: rs, tab, align }, Cfg::R(rs[i], p, ind))) is Some
        implies lim(G { refs: os, tab, align }, Cfg::R(os[i], p, ind)) == lim(G { refs: rs, tab, align }, Cfg::R(rs[i], p, ind)) by {
        let g = G { refs: rs, tab, align };
        let g2 = G { refs: os, tab, align };
        let f = lem_lim_some(g, Cfg::R(rs[i], p, ind));
        lem_sim(g, g2, f, Cfg::R(rs[i], p, ind), Cfg::R(os[i], p, ind));
    }
    assert forall|i: int| 0 <= i < os.len() implies wf(#[trigger] os[i], os.len()) by { let _ = rs[i]; lem_sim_wf(rs, rs[i], os[i], rs.len()); }
}
