// ---------------------------------------------------------------- meaning of rules (lines ending in //E belong to the error theory only)
pub enum TD { S(Seq<char>), E(Seq<char>), B(Seq<char>, bool), F(Seq<char>, f64), T(Seq<char>, Seq<char>) }
/// one piece of meta data, by value
pub struct TV { pub off: int, pub len: int, pub d: TD }
pub open spec fn tdv(m: MetaData) -> TD {
    match m {
        MetaData::StartNode(n) => TD::S(sv(n)),
        MetaData::EndNode(n) => TD::E(sv(n)),
        MetaData::Bool(n, b) => TD::B(sv(n), b),
        MetaData::F64(n, x) => TD::F(sv(n), x),
        MetaData::String(n, t) => TD::T(sv(n), sv(t)),
    }
}
pub open spec fn tokv(t: Range<MetaData>) -> TV { TV { off: t.offset as int, len: t.length as int, d: tdv(t.data) } }
/// the entries a..b by value
#[verifier::opaque]
pub open spec fn tview(v: Seq<Range<MetaData>>, a: int, b: int) -> Seq<TV> { Seq::new((if b >= a { b - a } else { 0 }) as nat, |i: int| tokv(v[a + i])) }
/// what is appended by a step shows behind what was there
pub broadcast proof fn lem_tv_cat(v: Seq<Range<MetaData>>, w: Seq<Range<MetaData>>, a: int, b: int, c: int)
    requires #[trigger] keep(v, w, b), 0 <= a <= b <= c <= w.len()
    ensures #[trigger] tview(w, a, c) == tview(v, a, b) + tview(w, b, c)
{ reveal(tview); assert(tview(w, a, c) =~= tview(v, a, b) + tview(w, b, c)); }
pub broadcast proof fn lem_tv_none(v: Seq<Range<MetaData>>, a: int, b: int)
    requires b <= a
    ensures #[trigger] tview(v, a, b) == Seq::<TV>::empty()
{ reveal(tview); assert(tview(v, a, b) =~= Seq::<TV>::empty()); }
pub broadcast proof fn lem_tv_push(v: Seq<Range<MetaData>>, a: int, b: int, x: Range<MetaData>)
    requires 0 <= a <= b <= v.len()
    ensures #[trigger] tview(v.take(b).push(x), a, b + 1) == tview(v, a, b) + seq![tokv(x)]
{ reveal(tview); assert(tview(v.take(b).push(x), a, b + 1) =~= tview(v, a, b) + seq![tokv(x)]); }
pub broadcast proof fn lem_cat_none(a: Seq<TV>)
    ensures #[trigger] (a + Seq::<TV>::empty()) == a
{ assert(a + Seq::<TV>::empty() =~= a); }
pub broadcast proof fn lem_none_cat(a: Seq<TV>)
    ensures #[trigger] (Seq::<TV>::empty() + a) == a
{ assert(Seq::<TV>::empty() + a =~= a); }
pub broadcast group grp_sem { lem_tv_cat, lem_tv_none, lem_tv_push, lem_cat_none, lem_none_cat }
pub broadcast proof fn lem_tv_trunc(v: Seq<Range<MetaData>>, a: int, b: int)
    requires 0 <= a <= b <= v.len()
    ensures #[trigger] tview(v.subrange(0, b), a, b) == tview(v, a, b)
{ reveal(tview); assert(tview(v.subrange(0, b), a, b) =~= tview(v, a, b)); }

pub enum EK { Ws(usize), Nl(usize), Some(usize), Num(usize), PNum(ParseNumberError, usize), Text(usize), Empty(usize), PStr(ParseStringError, usize), Tag(Seq<char>, usize), NotTag(Seq<char>, usize), Invalid(usize), NoRules, End, Conv }
pub struct AE { pub off: int, pub len: int, pub k: EK }
pub open spec fn ekv(e: ParseError) -> EK {
    match e {
        ParseError::ExpectedWhitespace(d) => EK::Ws(d),
        ParseError::ExpectedNewLine(d) => EK::Nl(d),
        ParseError::ExpectedSomething(d) => EK::Some(d),
        ParseError::ExpectedNumber(d) => EK::Num(d),
        ParseError::ParseNumberError(x, d) => EK::PNum(x, d),
        ParseError::ExpectedText(d) => EK::Text(d),
        ParseError::EmptyTextNotAllowed(d) => EK::Empty(d),
        ParseError::ParseStringError(x, d) => EK::PStr(x, d),
        ParseError::ExpectedTag(t, d) => EK::Tag(sv(t), d),
        ParseError::DidNotExpectTag(t, d) => EK::NotTag(sv(t), d),
        ParseError::InvalidRule(_, d) => EK::Invalid(d),
        ParseError::NoRules => EK::NoRules,
        ParseError::ExpectedEnd => EK::End,
        ParseError::Conversion(_) => EK::Conv,
    }
}
pub open spec fn aev(e: Range<ParseError>) -> AE { AE { off: e.offset as int, len: e.length as int, k: ekv(e.data) } }
pub open spec fn oev(e: Option<Range<ParseError>>) -> Option<AE> { match e { Some(x) => Some(aev(x)), None => None } }
/// the deepest error; the newer one among equally deep ones
pub open spec fn amerge(new: Option<AE>, old: Option<AE>) -> Option<AE> {
    match (old, new) {
        (None, e) => e,
        (Some(o), None) => Some(o),
        (Some(o), Some(e)) => if o.off + o.len <= e.off + e.len { Some(e) } else { Some(o) },
    }
}
/// the failure itself unless an earlier kept error is strictly deeper
pub open spec fn afinal(e: Option<AE>, kept: Option<AE>) -> Option<AE> {
    match (e, kept) {
        (Some(x), Some(y)) => if y.off + y.len > x.off + x.len { Some(y) } else { Some(x) },
        (x, None) => x,
        (None, y) => y,
    }
}

pub struct G { pub refs: Seq<Rule>, pub tab: int, pub align: bool }
pub struct P { pub src: Seq<char>, pub off: int }
pub struct Out {
    pub ok: bool, pub len: int, pub toks: Seq<TV>, pub ind: int,
    pub err: Option<AE>, //E
}
/// progress of a loop: position, where it started, meta data so far, indentation level, kept error
pub struct A {
    pub p: P, pub s: int, pub toks: Seq<TV>, pub ind: int,
    pub err: Option<AE>, //E
}
pub open spec fn m_at(p: P, n: int) -> P { P { src: bskip(p.src, n), off: p.off + n } }
pub open spec fn m_start(p: P, ind: int) -> A { A {
    err: None, //E
    p, s: p.off, toks: Seq::empty(), ind } }
pub open spec fn m_next(a: A, o: Out) -> A { A {
    err: amerge(o.err, a.err), //E
    p: m_at(a.p, o.len), s: a.s, toks: a.toks + o.toks, ind: o.ind } }
pub open spec fn m_stop(a: A, o: Out) -> A { A {
    err: amerge(o.err, a.err), //E
    ind: o.ind, ..a } }
pub open spec fn m_fin(a: A) -> Out { Out {
    err: a.err, //E
    ok: true, len: a.p.off - a.s, toks: a.toks, ind: a.ind } }
pub open spec fn failo(ind: int, err: Option<AE>) -> Out { Out {
    err, //E
    ok: false, len: 0, toks: Seq::empty(), ind } }
pub open spec fn oko(len: int, toks: Seq<TV>, ind: int) -> Out { Out {
    err: None, //E
    ok: true, len, toks, ind } }
/// error part of an outcome
pub open spec fn oerr(o: Out) -> Option<AE> {
    o.err //E
    //N None
}
pub open spec fn kerr(a: A) -> Option<AE> {
    a.err //E
    //N None
}
pub open spec fn here(p: P, n: int, k: EK) -> Option<AE> { Some(AE { off: p.off, len: n, k }) }
pub open spec fn one(p: P, n: int, d: TD) -> Seq<TV> { seq![TV { off: p.off, len: n, d }] }
pub open spec fn oneb(p: P, n: int, prop: Option<Arc<String>>, b: bool) -> Seq<TV> { match prop { Some(x) => one(p, n, TD::B(sv(x), b)), None => Seq::empty() } }
pub open spec fn onet(p: P, n: int, prop: Option<Arc<String>>, t: Seq<char>) -> Seq<TV> { match prop { Some(x) => one(p, n, TD::T(sv(x), t)), None => Seq::empty() } }
pub open spec fn onef(p: P, n: int, prop: Option<Arc<String>>, v: f64) -> Seq<TV> { match prop { Some(x) => one(p, n, TD::F(sv(x), v)), None => Seq::empty() } }

// --- terminal rules
pub open spec fn tag_out(t: Tag, p: P) -> Out {
    let n = blen(sv(t.text));
    if starts_with(p.src, sv(t.text)) {
        if t.not { failo(0, here(p, n, EK::NotTag(sv(t.text), t.debug_id))) } else { oko(n, oneb(p, n, t.property, !t.inverted), 0) }
    } else {
        if t.not { oko(0, oneb(p, 0, t.property, !t.inverted), 0) } else { failo(0, here(p, 0, EK::Tag(sv(t.text), t.debug_id))) }
    }
}
pub open spec fn ws_out(w: Whitespace, p: P) -> Out {
    if ws_len(p.src) == 0 && !w.optional { failo(0, here(p, 0, EK::Ws(w.debug_id))) } else { oko(ws_len(p.src), Seq::empty(), 0) }
}
pub open spec fn until_out(p: P, n: int, optional: bool, prop: Option<Arc<String>>, id: usize) -> Out {
    if n == 0 && !optional { failo(0, here(p, 0, EK::Some(id))) }
    else { oko(n, onet(p, n, prop, btake(p.src, n)), 0) }
}
pub open spec fn text_out(t: Text, p: P) -> Out {
    match str_len(p.src) {
        None => failo(0, here(p, 0, EK::Text(t.debug_id))),
        Some(n) => if n == 2 && !t.allow_empty { failo(0, here(p, n, EK::Empty(t.debug_id))) } else {
            match str_val(p.src, n) {
                Err(e) => failo(0, Some(AE { off: p.off + e.0, len: e.1, k: EK::PStr(e.2, t.debug_id) })),
                Ok(v) => oko(n, onet(p, n, t.property, v), 0),
            }
        },
    }
}
pub open spec fn num_out(t: Number, p: P) -> Out {
    match num_len(p.src, t.allow_underscore) {
        None => failo(0, here(p, 0, EK::Num(t.debug_id))),
        Some(n) => match num_val(p.src, t.allow_underscore, n) {
            Err(e) => failo(0, here(p, n, EK::PNum(e, t.debug_id))),
            Ok(v) => oko(n, onef(p, n, t.property, v), 0),
        },
    }
}
pub open spec fn lev(o: Out, ind: int) -> Out { Out { ind, ..o } }

// --- indentation of a line
/// levels are counted up to the largest number that is stored
pub open spec fn sat(n: int) -> int { if n > u32::MAX { u32::MAX as int } else { n } }
/// bytes of the indentation when the line is indented to level n
pub open spec fn m_strip(s: Seq<char>, n: int, tab: int) -> Option<int> decreases s.len() {
    if n <= 0 { Some(0) }
    else if s.len() > 0 && s[0] == ' ' { match m_strip(s.skip(1), n - 1, tab) { Some(m) => Some(m + 1), None => None } }
    else if s.len() > 0 && s[0] == '\t' { if n <= tab { Some(1) } else { match m_strip(s.skip(1), n - tab, tab) { Some(m) => Some(m + 1), None => None } } }
    else { None }
}
/// bytes and levels of further indentation
pub open spec fn m_deeper(s: Seq<char>, tab: int) -> (int, int) decreases s.len() {
    if s.len() > 0 && s[0] == ' ' { let (m, l) = m_deeper(s.skip(1), tab); (m + 1, l + 1) }
    else if s.len() > 0 && s[0] == '\t' { let (m, l) = m_deeper(s.skip(1), tab); (m + 1, l + tab) }
    else { (0, 0) }
}
/// bytes of indentation and level of a line, None when it does not belong to the block; fix: this line fixes the level
pub open spec fn m_head(s: Seq<char>, ind: int, fix: bool, tab: int) -> Option<(int, int)> {
    match m_strip(s, ind, tab) {
        None => None,
        Some(n) => {
            let t = bskip(s, n);
            if fix { let (m, l) = m_deeper(t, tab); Some((n + m, sat(ind + l))) }
            else if t.len() > 0 && t[0] == ' ' { None } else { Some((n, ind)) }
        },
    }
}

pub enum Cfg {
    R(Rule, P, int),
    Seq(Seq<Rule>, int, A),
    Sel(Seq<Rule>, int, P, int, Option<AE>, usize),
    Fs(FastSelect, P, int),
    Fst(Seq<Rule>, P, int, Option<AE>),
    Node(Node, P, int),
    Opt(Optional, P, int),
    Not(Not, P, int),
    Rep(Rule, bool, bool, A),
    SepR(SeparateBy, bool, A),
    SepB(SeparateBy, A),
    Lns(Lines, bool, bool, A),
}
pub enum K {
    Seq(Seq<Rule>, int, A),
    Sel(Seq<Rule>, int, P, Option<AE>, usize),
    Fs(Seq<Rule>, bool, P),
    Fst(Option<AE>),
    Rep(Rule, bool, bool, A),
    SepR(SeparateBy, bool, A),
    SepB(SeparateBy, A),
    Opt,
    Not(P, usize),
    Node(Option<Arc<String>>, P),
    Ln(Lines, A, P, int, int),
}
pub enum Nx { Done(Out), Goto(Cfg), Then(Cfg, K) }
pub enum Ap { Done(Out), Goto(Cfg) }
pub open spec fn start_of(f: FastSelect, p: P) -> int { if p.src.len() == 0 { 255 } else { f.table@[first_byte(p.src[0]) as int] as int } }

/// the next thing a rule does
pub open spec fn m_step(g: G, c: Cfg) -> Nx {
    match c {
        Cfg::R(r, p, ind) => match r {
            Rule::Whitespace(w) => Nx::Done(lev(ws_out(w, p), ind)),
            Rule::Tag(t) => Nx::Done(lev(tag_out(t, p), ind)),
            Rule::UntilAny(u) => Nx::Done(lev(until_out(p, until_len(p.src, sv(u.any_characters)), u.optional, u.property, u.debug_id), ind)),
            Rule::UntilAnyOrWhitespace(u) => Nx::Done(lev(until_out(p, until_ws_len(p.src, sv(u.any_characters)), u.optional, u.property, u.debug_id), ind)),
            Rule::Text(t) => Nx::Done(lev(text_out(t, p), ind)),
            Rule::Number(n) => Nx::Done(lev(num_out(n, p), ind)),
            Rule::Select(s) => Nx::Goto(Cfg::Sel(s.args@, 0, p, ind, None, s.debug_id)),
            Rule::FastSelect(b) => Nx::Goto(Cfg::Fs(*b, p, ind)),
            Rule::Sequence(s) => Nx::Goto(Cfg::Seq(s.args@, 0, m_start(p, ind))),
            Rule::SeparateBy(b) => Nx::Goto(Cfg::SepR(*b, true, m_start(p, ind))),
            Rule::Repeat(b) => Nx::Goto(Cfg::Rep((*b).rule, (*b).optional, true, m_start(p, ind))),
            Rule::Lines(b) => Nx::Goto(Cfg::Lns(*b, true, (*b).indent && g.align, m_start(p, ind))),
            Rule::Node(n) => Nx::Goto(Cfg::Node(n, p, ind)),
            Rule::Optional(b) => Nx::Goto(Cfg::Opt(*b, p, ind)),
            Rule::Not(b) => Nx::Goto(Cfg::Not(*b, p, ind)),
        },
        Cfg::Fs(b, p, ind) => if start_of(b, p) != 255 { Nx::Then(Cfg::R(b.args@[start_of(b, p)], p, ind), K::Fs(b.args@, b.tail, p)) }
            else if b.tail { Nx::Goto(Cfg::Fst(b.args@, p, ind, None)) }
            else { Nx::Done(failo(ind, here(p, 0, EK::Some(b.debug_id)))) },
        Cfg::Node(n, p, ind) => match n.index {
            None => Nx::Done(failo(ind, here(p, 0, EK::Invalid(n.debug_id)))),
            Some(i) => Nx::Then(Cfg::R(g.refs[i as int], p, ind), K::Node(n.property, p)),
        },
        Cfg::Opt(b, p, ind) => Nx::Then(Cfg::R(b.rule, p, ind), K::Opt),
        Cfg::Not(b, p, ind) => Nx::Then(Cfg::R(b.rule, p, ind), K::Not(p, b.debug_id)),
        Cfg::Seq(args, i, a) => if i >= args.len() { Nx::Done(m_fin(a)) } else { Nx::Then(Cfg::R(args[i], a.p, a.ind), K::Seq(args, i, a)) },
        Cfg::Sel(args, i, p, ind, err, id) => if i >= args.len() { Nx::Done(failo(ind, if err is None { here(p, 0, EK::Invalid(id)) } else { err })) }
            else { Nx::Then(Cfg::R(args[i], p, ind), K::Sel(args, i, p, err, id)) },
        Cfg::Fst(args, p, ind, err) => Nx::Then(Cfg::R(args[args.len() - 1], p, ind), K::Fst(err)),
        Cfg::Rep(r, opt, first, a) => Nx::Then(Cfg::R(r, a.p, a.ind), K::Rep(r, opt, first, a)),
        Cfg::SepR(s, first, a) => Nx::Then(Cfg::R(s.rule, a.p, a.ind), K::SepR(s, first, a)),
        Cfg::SepB(s, a) => Nx::Then(Cfg::R(s.by, a.p, a.ind), K::SepB(s, a)),
        Cfg::Lns(l, nl, fix, a) => match lnext(a.p.src, nl, 0, 0) {
            LN::End(k) => Nx::Done(m_fin(A { p: m_at(a.p, k), ..a })),
            LN::Bad(k) => Nx::Done(failo(a.ind, afinal(here(m_at(a.p, k), 0, EK::Nl(l.debug_id)), kerr(a)))),
            LN::Call(k) => {
                let q = m_at(a.p, k);
                if !l.indent { Nx::Then(Cfg::R(l.rule, q, a.ind), K::Ln(l, a, q, 0, 0)) }
                else { match m_head(q.src, a.ind, fix, g.tab) {
                    None => Nx::Done(m_fin(A { p: q, ..a })),
                    Some((n, lv)) => Nx::Then(Cfg::R(l.rule, m_at(q, n), sat(lv + 1)), K::Ln(l, a, q, n, lv)),
                } }
            },
        },
    }
}
/// how it goes on with the outcome of a sub rule
pub open spec fn m_app(g: G, k: K, o: Out) -> Ap {
    match k {
        K::Seq(args, i, a) => if o.ok { Ap::Goto(Cfg::Seq(args, i + 1, m_next(a, o))) } else { Ap::Done(failo(o.ind, afinal(oerr(o), kerr(a)))) },
        K::Sel(args, i, p, err, id) => if o.ok { Ap::Done(Out {
                err: amerge(o.err, err), //E
                ..o }) } else { Ap::Goto(Cfg::Sel(args, i + 1, p, o.ind, amerge(oerr(o), err), id)) },
        K::Fs(args, tail, p) => if o.ok { Ap::Done(o) } else if tail { Ap::Goto(Cfg::Fst(args, p, o.ind, oerr(o))) } else { Ap::Done(failo(o.ind, oerr(o))) },
        K::Fst(err) => if o.ok { Ap::Done(Out {
                err: amerge(o.err, err), //E
                ..o }) } else { Ap::Done(failo(o.ind, afinal(oerr(o), err))) },
        K::Rep(r, opt, first, a) => if o.ok { Ap::Goto(Cfg::Rep(r, opt, false, m_next(a, o))) }
            else if first && !opt { Ap::Done(failo(o.ind, afinal(oerr(o), kerr(a)))) } else { Ap::Done(m_fin(m_stop(a, o))) },
        K::SepR(s, first, a) => if o.ok { Ap::Goto(Cfg::SepB(s, m_next(a, o))) }
            else if (if first { s.optional } else { s.allow_trail }) { Ap::Done(m_fin(m_stop(a, o))) } else { Ap::Done(failo(o.ind, afinal(oerr(o), kerr(a)))) },
        K::SepB(s, a) => if o.ok { Ap::Goto(Cfg::SepR(s, false, m_next(a, o))) } else { Ap::Done(m_fin(m_stop(a, o))) },
        K::Opt => if o.ok { Ap::Done(o) } else { Ap::Done(Out {
                err: o.err, //E
                ok: true, len: 0, toks: Seq::empty(), ind: o.ind }) },
        K::Not(p, id) => if o.ok { Ap::Done(failo(o.ind, here(p, o.len, EK::NotTag(btake(p.src, o.len), id)))) } else { Ap::Done(oko(0, Seq::empty(), o.ind)) },
        K::Node(prop, p) => if o.ok { match prop { None => Ap::Done(o), Some(x) => Ap::Done(Out { toks: one(p, 0, TD::S(sv(x))) + o.toks + one(p, o.len, TD::E(sv(x))), ..o }) } } else { Ap::Done(failo(o.ind, oerr(o))) },
        K::Ln(l, a, q, n, lv) => {
            let o2 = if l.indent { Out { ind: lv, ..o } } else { o };
            if o.ok { Ap::Goto(Cfg::Lns(l, ends_nl(btake(q.src, n + o.len), false), false, m_next(A { p: q, ..a }, Out { len: n + o.len, ..o2 }))) }
            else { Ap::Done(m_fin(m_stop(A { p: q, ..a }, o2))) }
        },
    }
}
/// outcome within f steps of nesting
pub open spec fn ev(g: G, f: nat, c: Cfg) -> Option<Out> decreases f {
    if f == 0 { None } else {
        match m_step(g, c) {
            Nx::Done(o) => Some(o),
            Nx::Goto(c2) => ev(g, (f - 1) as nat, c2),
            Nx::Then(c1, k) => match ev(g, (f - 1) as nat, c1) {
                None => None,
                Some(o) => match m_app(g, k, o) { Ap::Done(o2) => Some(o2), Ap::Goto(c2) => ev(g, (f - 1) as nat, c2) },
            },
        }
    }
}
/// outcome of a configuration, None when it has none (endless recursion)
#[verifier::opaque]
pub open spec fn lim(g: G, c: Cfg) -> Option<Out> {
    if exists|f: nat| ev(g, f, c) is Some { ev(g, choose|f: nat| ev(g, f, c) is Some, c) } else { None }
}
pub proof fn lem_mono(g: G, f: nat, h: nat, c: Cfg)
    requires ev(g, f, c) is Some, f <= h
    ensures ev(g, h, c) == ev(g, f, c)
    decreases f
{
    reveal_with_fuel(ev, 2);
    match m_step(g, c) {
        Nx::Done(o) => {}
        Nx::Goto(c2) => { lem_mono(g, (f - 1) as nat, (h - 1) as nat, c2); }
        Nx::Then(c1, k) => {
            lem_mono(g, (f - 1) as nat, (h - 1) as nat, c1);
            match m_app(g, k, ev(g, (f - 1) as nat, c1).unwrap()) { Ap::Done(_) => {} Ap::Goto(c2) => { lem_mono(g, (f - 1) as nat, (h - 1) as nat, c2); } }
        }
    }
}
pub proof fn lem_lim(g: G, f: nat, c: Cfg)
    requires ev(g, f, c) is Some
    ensures lim(g, c) == ev(g, f, c)
{
    reveal(lim);
    let h = choose|h: nat| ev(g, h, c) is Some;
    if h <= f { lem_mono(g, h, f, c); } else { lem_mono(g, f, h, c); }
}
pub proof fn lem_lim_some(g: G, c: Cfg) -> (f: nat)
    requires lim(g, c) is Some
    ensures ev(g, f, c) == lim(g, c)
{ reveal(lim); choose|f: nat| ev(g, f, c) is Some }
/// one step unfolded
pub open spec fn one_step(g: G, c: Cfg) -> Option<Out> {
    match m_step(g, c) {
        Nx::Done(o) => Some(o),
        Nx::Goto(c2) => lim(g, c2),
        Nx::Then(c1, k) => match lim(g, c1) {
            None => None,
            Some(o) => match m_app(g, k, o) { Ap::Done(o2) => Some(o2), Ap::Goto(c2) => lim(g, c2) },
        },
    }
}
pub proof fn lem_unfold(g: G, c: Cfg)
    ensures lim(g, c) == one_step(g, c)
{
    reveal_with_fuel(ev, 2);
    if lim(g, c) is Some {
        let f = lem_lim_some(g, c);
        match m_step(g, c) {
            Nx::Done(o) => {}
            Nx::Goto(c2) => { lem_lim(g, (f - 1) as nat, c2); }
            Nx::Then(c1, k) => {
                lem_lim(g, (f - 1) as nat, c1);
                match m_app(g, k, ev(g, (f - 1) as nat, c1).unwrap()) { Ap::Done(_) => {} Ap::Goto(c2) => { lem_lim(g, (f - 1) as nat, c2); } }
            }
        }
    } else if one_step(g, c) is Some {
        match m_step(g, c) {
            Nx::Done(o) => { lem_lim(g, 1, c); }
            Nx::Goto(c2) => { let f = lem_lim_some(g, c2); lem_lim(g, (f + 1) as nat, c); }
            Nx::Then(c1, k) => {
                let f1 = lem_lim_some(g, c1);
                match m_app(g, k, lim(g, c1).unwrap()) {
                    Ap::Done(_) => { lem_lim(g, (f1 + 1) as nat, c); }
                    Ap::Goto(c2) => {
                        let f2 = lem_lim_some(g, c2);
                        let h = if f1 < f2 { f2 } else { f1 };
                        lem_mono(g, f1, h, c1); lem_mono(g, f2, h, c2);
                        lem_lim(g, (h + 1) as nat, c);
                    }
                }
            }
        }
    }
}
// --- results of the code
pub open spec fn gof(refs: Seq<Rule>, s: IndentSettings) -> G { G { refs, tab: s.tab_spaces as int, align: s.align_first } }
pub open spec fn pof(r: ReadToken) -> P { P { src: r.src@, off: r.offset as int } }
pub open spec fn m_res(r: Result<(Range, TokenizerState, Option<Range<ParseError>>), Range<ParseError>>, tokens: Seq<Range<MetaData>>, st: int, ind: int) -> Out {
    match r {
        Ok(x) => Out {
            err: oev(x.2), //E
            ok: true, len: x.0.length as int, toks: tview(tokens, st, x.1.0 as int), ind },
        Err(e) => failo(ind, Some(aev(e))),
    }
}
/// where both succeed with the same length: the meta data is that of the successful path
pub open spec fn leaves(t: Option<Out>, m: Out) -> bool { t matches Some(o) ==> o.ok && m.ok && o.len == m.len ==> o.toks == m.toks }
pub open spec fn m_acc(rt: ReadToken, s: ReadToken, tokens: Seq<Range<MetaData>>, st: int, st2: int, ind: int, err: Option<Range<ParseError>>) -> A {
    A {
        err: oev(err), //E
        p: pof(rt), s: s.offset as int, toks: tview(tokens, st, st2), ind }
}
/// errors are not compared in the meaning theory
pub open spec fn erase(e: Option<AE>) -> Option<AE> {
    e //E
    //N None
}

pub proof fn lem_unfold_fst(g: G, args: Seq<Rule>, p: P)
    ensures forall|i: int, e: Option<AE>| #[trigger] lim(g, Cfg::Fst(args, p, i, e)) == one_step(g, Cfg::Fst(args, p, i, e))
{ assert forall|i: int, e: Option<AE>| #[trigger] lim(g, Cfg::Fst(args, p, i, e)) == one_step(g, Cfg::Fst(args, p, i, e)) by { lem_unfold(g, Cfg::Fst(args, p, i, e)); } }
pub proof fn lem_unfold_sepb(g: G, s: SeparateBy)
    ensures forall|a: A| #[trigger] lim(g, Cfg::SepB(s, a)) == one_step(g, Cfg::SepB(s, a))
{ assert forall|a: A| #[trigger] lim(g, Cfg::SepB(s, a)) == one_step(g, Cfg::SepB(s, a)) by { lem_unfold(g, Cfg::SepB(s, a)); } }
/// a tag of one character
pub proof fn lem_sw1(s: Seq<char>, c: char)
    requires clen(c) == 1
    ensures starts_with(s, seq![c]) <==> (s.len() > 0 && s[0] == c), blen(seq![c]) == 1, s.len() > 0 && s[0] == c ==> bskip(s, 1) == s.skip(1)
{
    reveal(starts_with); reveal_with_fuel(blen, 3); reveal_with_fuel(bskip, 3);
    assert(seq![c].skip(1) =~= Seq::empty());
    if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); assert(seq![c][0] == c); assert(s.take(1)[0] == s[0]); }
}
// ---------------------------------------------------------------- documents
//N /// the settings of `parse`
//N pub open spec fn ind0() -> IndentSettings { IndentSettings { indent: 0, align_first: true, tab_spaces: 4 } }
//N pub open spec fn match0(rs: Seq<Rule>, text: Seq<char>) -> Option<Out> { lim(gof(rs, ind0()), Cfg::R(rs.last(), P { src: text, off: 0 }, 0)) }
//N /// the text is a document of the rules
//N pub open spec fn is_doc_of(rs: Seq<Rule>, text: Seq<char>) -> bool { rs.len() > 0 && (match0(rs, text) matches Some(o) && o.ok && o.len == blen(text)) }
//N /// d is the meta data of a text that is a document of the rules
//N pub open spec fn accepted(rs: Seq<Rule>, text: Seq<char>, d: Seq<Range<MetaData>>) -> bool { is_doc_of(rs, text) && tview(d, 0, d.len() as int) == match0(rs, text).unwrap().toks }
