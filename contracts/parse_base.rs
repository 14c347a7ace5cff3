// ---------------------------------------------------------------- parsing: shape contracts shared by every theory
/// line rules only occur when the text has one-byte white space (read_token 1.0.0 counts bytes wrongly otherwise)
pub uninterp spec fn LA() -> bool;
#[verifier::opaque]
pub open spec fn ascii_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() && is_ws(#[trigger] s[i]) ==> clen(s[i]) == 1 }
pub open spec fn src_ok(s: Seq<char>) -> bool { LA() ==> ascii_ws(s) }
pub proof fn lem_src_ok(s: Seq<char>, n: int)
    requires src_ok(s)
    ensures src_ok(bskip(s, n))
    decreases s.len()
{
    reveal_with_fuel(bskip, 2); reveal(ascii_ws);
    if n <= 0 || s.len() == 0 { } else {
        assert(src_ok(s.skip(1))) by { if LA() { assert forall|i: int| 0 <= i < s.skip(1).len() && is_ws(#[trigger] s.skip(1)[i]) implies clen(s.skip(1)[i]) == 1 by { assert(s.skip(1)[i] == s[i + 1]); } } }
        lem_src_ok(s.skip(1), n - clen(s[0]));
    }
}

/// a rule whose references are in range and whose tables are consistent
#[verifier::opaque]
pub open spec fn wf(r: Rule, n: nat) -> bool decreases r {
    match r {
        Rule::Whitespace(_) | Rule::Tag(_) | Rule::UntilAny(_) | Rule::UntilAnyOrWhitespace(_) | Rule::Text(_) | Rule::Number(_) => true,
        Rule::Select(s) => forall|i: int| 0 <= i < s.args@.len() ==> wf(#[trigger] s.args@[i], n),
        Rule::Sequence(s) => forall|i: int| 0 <= i < s.args@.len() ==> wf(#[trigger] s.args@[i], n),
        Rule::FastSelect(b) => {
            &&& forall|i: int| 0 <= i < (*b).args@.len() ==> wf(#[trigger] (*b).args@[i], n)
            &&& wf_table((*b).table, (*b).args@.len(), (*b).tail)
        },
        Rule::SeparateBy(b) => wf((*b).rule, n) && wf((*b).by, n),
        Rule::Repeat(b) => wf((*b).rule, n),
        Rule::Lines(b) => LA() && wf((*b).rule, n),
        Rule::Optional(b) => wf((*b).rule, n),
        Rule::Not(b) => wf((*b).rule, n),
        Rule::Node(p) => p.index is Some ==> p.index.unwrap() < n,
    }
}
pub proof fn lem_wf(r: Rule, n: nat)
    requires wf(r, n)
    ensures match r {
        Rule::Select(s) => wfs(s.args@, n),
        Rule::Sequence(s) => wfs(s.args@, n),
        Rule::FastSelect(b) => wfs((*b).args@, n) && wf_table((*b).table, (*b).args@.len(), (*b).tail),
        Rule::SeparateBy(b) => wf((*b).rule, n) && wf((*b).by, n),
        Rule::Repeat(b) => wf((*b).rule, n),
        Rule::Lines(b) => LA() && wf((*b).rule, n),
        Rule::Optional(b) => wf((*b).rule, n),
        Rule::Not(b) => wf((*b).rule, n),
        Rule::Node(p) => p.index is Some ==> p.index.unwrap() < n,
        _ => true,
    }
{ reveal_with_fuel(wf, 1); }
pub open spec fn wfs(v: Seq<Rule>, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> wf(#[trigger] v[i], n) }
pub open spec fn wf_table(t: [u8; 256], len: nat, tail: bool) -> bool {
    (forall|j: int| 0 <= j < 256 ==> #[trigger] t@[j] == 255 || t@[j] < len) && (tail ==> len >= 1)
}
pub open spec fn wfr(refs: Seq<Rule>) -> bool { forall|i: int| 0 <= i < refs.len() ==> wf(#[trigger] refs[i], refs.len()) }

/// b is a with some whole characters consumed
#[verifier::opaque]
pub open spec fn adv(a: ReadToken, b: ReadToken) -> bool {
    b.offset >= a.offset && boundary(a.src@, b.offset - a.offset) && b.src@ == bskip(a.src@, b.offset - a.offset)
}
/// position representable, white space restriction
#[verifier::opaque]
pub open spec fn rtx(r: ReadToken) -> bool { rt_ok(r) && src_ok(r.src@) }
pub open spec fn end_of(e: Range<ParseError>) -> int { e.offset + e.length }
#[verifier::opaque]
pub open spec fn err_in(e: Range<ParseError>, rt: ReadToken) -> bool { rt.offset <= e.offset && end_of(e) <= rt.offset + blen(rt.src@) }
pub open spec fn oerr_in(e: Option<Range<ParseError>>, rt: ReadToken) -> bool { e matches Some(x) ==> err_in(x, rt) }
pub open spec fn eok(e: Option<Range<ParseError>>) -> bool { e matches Some(x) ==> end_of(x) <= usize::MAX }
/// deepest error; the newer one wins when equally deep
pub open spec fn emerge(new: Option<Range<ParseError>>, old: Option<Range<ParseError>>) -> Option<Range<ParseError>> {
    match (old, new) {
        (None, e) => e,
        (Some(o), None) => Some(o),
        (Some(o), Some(e)) => if end_of(o) <= end_of(e) { Some(e) } else { Some(o) },
    }
}
/// the certain failure unless the optional one is strictly deeper
pub open spec fn efinal(a: Range<ParseError>, b: Option<Range<ParseError>>) -> Range<ParseError> {
    match b { Some(x) => if end_of(x) > end_of(a) { x } else { a }, None => a }
}
/// the first n entries are the same
pub open spec fn keep<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool {
    n <= a.len() && n <= b.len() && forall|i: int| #![trigger b[i]] #![trigger a[i]] 0 <= i < n ==> b[i] == a[i]
}
#[verifier::opaque]
pub open spec fn rng_ok(rt: ReadToken, r: Range) -> bool { r.offset == rt.offset && boundary(rt.src@, r.length as int) }

pub broadcast proof fn lem_adv_refl(a: ReadToken)
    ensures #[trigger] adv(a, a)
{ reveal(adv); lem_boundary_zero(a.src@); }
pub broadcast proof fn lem_adv_trans(a: ReadToken, b: ReadToken, c: ReadToken)
    requires #[trigger] adv(a, b), #[trigger] adv(b, c)
    ensures adv(a, c)
{ reveal(adv); lem_boundary_add(a.src@, b.offset - a.offset, c.offset - b.offset); }
pub broadcast proof fn lem_adv_rtx(a: ReadToken, b: ReadToken)
    requires #[trigger] adv(a, b), rtx(a)
    ensures rtx(b), a.offset <= b.offset
{ reveal(adv); reveal(rtx); lem_boundary(a.src@, b.offset - a.offset); lem_src_ok(a.src@, b.offset - a.offset); }
pub broadcast proof fn lem_adv_err(a: ReadToken, b: ReadToken, e: Range<ParseError>)
    requires #[trigger] adv(a, b), #[trigger] err_in(e, b)
    ensures err_in(e, a)
{ reveal(adv); reveal(err_in); lem_boundary(a.src@, b.offset - a.offset); }
pub broadcast proof fn lem_err_ok(a: ReadToken, e: Range<ParseError>)
    requires #[trigger] err_in(e, a), rtx(a)
    ensures end_of(e) <= isize::MAX
{ reveal(err_in); reveal(rtx); }
pub broadcast proof fn lem_err_here(a: ReadToken, e: Range<ParseError>)
    requires e.offset == a.offset, e.length == 0 || boundary(a.src@, e.length as int)
    ensures #[trigger] err_in(e, a)
{ reveal(err_in); lem_blen_nonneg(a.src@); if e.length > 0 { lem_boundary(a.src@, e.length as int); } }
pub broadcast proof fn lem_err_at(a: ReadToken, b: ReadToken, e: Range<ParseError>)
    requires #[trigger] adv(a, b), e.offset == b.offset, e.length == 0, rtx(a)
    ensures #[trigger] err_in(e, a)
{ reveal(adv); reveal(err_in); lem_boundary(a.src@, b.offset - a.offset); lem_blen_nonneg(b.src@); }
pub broadcast proof fn lem_rng_here(a: ReadToken, r: Range)
    requires r.offset == a.offset, r.length == 0 || boundary(a.src@, r.length as int)
    ensures #[trigger] rng_ok(a, r)
{ reveal(rng_ok); lem_boundary_zero(a.src@); }
pub broadcast proof fn lem_rng_boundary(a: ReadToken, r: Range)
    requires #[trigger] rng_ok(a, r)
    ensures r.offset == a.offset, boundary(a.src@, r.length as int), rtx(a) ==> r.offset + r.length <= isize::MAX
{ reveal(rng_ok); reveal(rtx); lem_boundary(a.src@, r.length as int); }
pub broadcast proof fn lem_rng_cat(a: ReadToken, b: ReadToken, r: Range, r2: Range)
    requires #[trigger] adv(a, b), #[trigger] rng_ok(b, r), r2.offset == a.offset, r2.length == b.offset - a.offset + r.length
    ensures #[trigger] rng_ok(a, r2)
{ reveal(adv); reveal(rng_ok); lem_boundary_add(a.src@, b.offset - a.offset, r.length as int); }
pub broadcast proof fn lem_adv_rng(a: ReadToken, b: ReadToken, r: Range)
    requires #[trigger] adv(a, b), r.offset == a.offset, r.length == b.offset - a.offset
    ensures #[trigger] rng_ok(a, r)
{ reveal(adv); reveal(rng_ok); }
pub broadcast proof fn lem_rng_same(a: ReadToken, r: Range, r2: Range)
    requires #[trigger] rng_ok(a, r), r2.offset == r.offset, r2.length == r.length
    ensures #[trigger] rng_ok(a, r2)
{ reveal(rng_ok); }
pub broadcast proof fn lem_rtx(r: ReadToken)
    requires #[trigger] rtx(r)
    ensures rt_ok(r), LA() ==> ascii_ws(r.src@)
{ reveal(rtx); }
/// b results from consuming n bytes of a
pub proof fn lem_adv_consume(a: ReadToken, b: ReadToken, n: int)
    requires boundary(a.src@, n), b.offset == a.offset + n, b.src@ == bskip(a.src@, n)
    ensures adv(a, b)
{ reveal(adv); lem_boundary(a.src@, n); }

// ---------------------------------------------------------------- ReadToken::lines as a driver
// `read_token.lines(f)` is rewritten to: new; loop { match next() { Some(t) => feed(f(&t)), None => break } }; finish().
// Theory rtok proves that the rewritten form and `lines` itself meet one contract (lines_spec); white space is one byte each there.
pub enum LN { Call(int), End(int), Bad(int) }
#[verifier::opaque]
pub open spec fn lnext(s: Seq<char>, nl: bool, k0: int, k: int) -> LN decreases s.len() {
    if s.len() == 0 { LN::End(k) }
    else if s[0] == '\n' { lnext(s.skip(1), true, k + 1, k + 1) }
    else if is_ws(s[0]) { lnext(s.skip(1), nl, k0, k + clen(s[0])) }
    else if nl { LN::Call(k0) }
    else { LN::Bad(k0) }
}
#[verifier::opaque]
pub open spec fn ends_nl(s: Seq<char>, b: bool) -> bool decreases s.len() {
    if s.len() == 0 { b } else { ends_nl(s.skip(1), if s[0] == '\n' { true } else if is_ws(s[0]) { b } else { false }) }
}
pub open spec fn ln_pos(r: LN) -> int { match r { LN::Call(k) => k, LN::End(k) => k, LN::Bad(k) => k } }
pub proof fn lem_boundary_step(o: Seq<char>, k: int)
    requires boundary(o, k), bskip(o, k).len() > 0
    ensures boundary(o, k + clen(bskip(o, k)[0])), bskip(o, k + clen(bskip(o, k)[0])) == bskip(o, k).skip(1)
    decreases o.len()
{
    reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2);
    if k != 0 { lem_boundary_step(o.skip(1), k - clen(o[0])); lem_boundary(o.skip(1), k - clen(o[0])); }
    else { lem_boundary_zero(o.skip(1)); }
}
pub proof fn lem_lnext_gen(o: Seq<char>, s: Seq<char>, nl: bool, k0: int, k: int)
    requires boundary(o, k), boundary(o, k0), s == bskip(o, k)
    ensures boundary(o, ln_pos(lnext(s, nl, k0, k)))
    decreases s.len()
{
    reveal_with_fuel(lnext, 2);
    lem_boundary(o, k);
    if s.len() > 0 {
        lem_boundary_step(o, k);
        if s[0] == '\n' { lem_lnext_gen(o, s.skip(1), true, k + 1, k + 1); }
        else if is_ws(s[0]) { lem_lnext_gen(o, s.skip(1), nl, k0, k + clen(s[0])); }
    }
}
pub proof fn lem_lnext(s: Seq<char>, nl: bool)
    ensures boundary(s, ln_pos(lnext(s, nl, 0, 0)))
{ lem_boundary_zero(s); lem_lnext_gen(s, s, nl, 0, 0); }

pub struct LinesDriver<'a> { pub start: ReadToken<'a>, pub cur: ReadToken<'a>, pub nl: bool, pub st: u8 }
impl<'a> LinesDriver<'a> {
    #[verifier::external_body]
    pub fn vp_new(r: &ReadToken<'a>) -> (d: LinesDriver<'a>)
        ensures d.start == *r, d.cur == *r, d.nl, d.st == 0
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_next_raw(&mut self) -> (r: Option<ReadToken<'a>>)
        requires old(self).st == 0 || old(self).st == 2, ascii_ws(old(self).cur.src@), rt_ok(old(self).cur)
        ensures
            final(self).start == old(self).start,
            old(self).st == 2 ==> r is None && *final(self) == *old(self),
            old(self).st == 0 ==> {
            &&& final(self).cur.offset == old(self).cur.offset + ln_pos(lnext(old(self).cur.src@, old(self).nl, 0, 0))
            &&& final(self).cur.src@ == bskip(old(self).cur.src@, ln_pos(lnext(old(self).cur.src@, old(self).nl, 0, 0)))
            &&& match lnext(old(self).cur.src@, old(self).nl, 0, 0) {
                LN::Call(k) => r == Some(final(self).cur) && final(self).st == 1,
                LN::End(k) => r is None && final(self).st == 2,
                LN::Bad(k) => r is None && final(self).st == 3,
            }}
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_feed_raw(&mut self, r: Option<Range>)
        requires old(self).st == 1, r matches Some(x) ==> rng_ok(old(self).cur, x), rt_ok(old(self).cur)
        ensures final(self).start == old(self).start,
            match r {
                None => final(self).st == 2 && final(self).cur == old(self).cur,
                Some(x) => final(self).st == 0 && final(self).cur.offset == old(self).cur.offset + x.length
                    && final(self).cur.src@ == bskip(old(self).cur.src@, x.length as int)
                    && final(self).nl == ends_nl(btake(old(self).cur.src@, x.length as int), false),
            }
    { unimplemented!() }
    pub fn vp_next(&mut self) -> (r: Option<ReadToken<'a>>)
        requires old(self).st == 0 || old(self).st == 2, ascii_ws(old(self).cur.src@), rt_ok(old(self).cur)
        ensures
            final(self).start == old(self).start,
            adv(old(self).cur, final(self).cur),
            old(self).st == 2 ==> r is None && *final(self) == *old(self),
            old(self).st == 0 ==> {
            &&& final(self).cur.offset == old(self).cur.offset + ln_pos(lnext(old(self).cur.src@, old(self).nl, 0, 0))
            &&& final(self).cur.src@ == bskip(old(self).cur.src@, ln_pos(lnext(old(self).cur.src@, old(self).nl, 0, 0)))
            &&& match lnext(old(self).cur.src@, old(self).nl, 0, 0) {
                LN::Call(k) => r == Some(final(self).cur) && final(self).st == 1,
                LN::End(k) => r is None && final(self).st == 2,
                LN::Bad(k) => r is None && final(self).st == 3,
            }}
    {
        proof {
            lem_adv_refl(self.cur);
            lem_lnext(self.cur.src@, self.nl);
        }
        let ghost o = self.cur;
        let r = self.vp_next_raw();
        proof { if old(self).st == 0 { lem_adv_consume(o, self.cur, self.cur.offset - o.offset); } }
        r
    }
    pub fn vp_feed(&mut self, r: Option<Range>)
        requires old(self).st == 1, r matches Some(x) ==> rng_ok(old(self).cur, x), rt_ok(old(self).cur)
        ensures final(self).start == old(self).start, adv(old(self).cur, final(self).cur),
            match r {
                None => final(self).st == 2 && final(self).cur == old(self).cur,
                Some(x) => final(self).st == 0 && final(self).cur.offset == old(self).cur.offset + x.length
                    && final(self).cur.src@ == bskip(old(self).cur.src@, x.length as int)
                    && final(self).nl == ends_nl(btake(old(self).cur.src@, x.length as int), false),
            }
    {
        proof { lem_adv_refl(self.cur); reveal(rng_ok); }
        let ghost o = self.cur;
        self.vp_feed_raw(r);
        proof { if r is Some { lem_adv_consume(o, self.cur, r.unwrap().length as int); } }
    }
    #[verifier::external_body]
    pub fn vp_finish(self) -> (r: Result<Range, Range>)
        requires self.st >= 2, self.cur.offset >= self.start.offset
        ensures match r {
            Ok(x) => self.st == 2 && x.offset == self.start.offset && x.length == self.cur.offset - self.start.offset,
            Err(x) => self.st == 3 && x.offset == self.cur.offset && x.length == 0,
        }
    { unimplemented!() }
}
pub broadcast proof fn lem_starts_with(s: Seq<char>, t: Seq<char>)
    requires #[trigger] starts_with(s, t)
    ensures boundary(s, blen(t)), bskip(s, blen(t)) == s.skip(t.len() as int)
{ reveal(starts_with); lem_skip_char(s, t.len() as int); }
// facts about positions only; text functions stay opaque
pub broadcast group grp_parse { lem_adv_refl, lem_adv_trans, lem_adv_rtx, lem_adv_err, lem_err_ok, lem_err_here, lem_err_at, lem_rng_here, lem_rng_boundary, lem_adv_rng, lem_rng_cat, lem_rng_same, lem_rtx }
