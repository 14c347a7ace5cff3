// ---------------------------------------------------------------- lemmas about walking through a text
/// a text is never longer than an allocation can be (assumption on the language)
pub axiom fn ax_str_fits(s: &str) ensures blen(s@) <= isize::MAX;
pub proof fn lem_at(s: Seq<char>, j: int)
    requires 0 <= j < s.len()
    ensures s.skip(j).len() > 0, s.skip(j)[0] == s[j], s.skip(j).skip(1) == s.skip(j + 1), blen(s.take(j + 1)) == blen(s.take(j)) + clen(s[j]),
        blen(s.take(j)) + clen(s[j]) <= blen(s), 0 <= blen(s.take(j)), blen(s) == blen(s.take(j)) + blen(s.skip(j))
{
    assert(s.skip(j).skip(1) =~= s.skip(j + 1));
    assert(s.take(j + 1) =~= s.take(j) + seq![s[j]]);
    lem_blen_add(s.take(j), seq![s[j]]);
    reveal_with_fuel(blen, 3);
    assert(seq![s[j]].skip(1).len() == 0);
    assert(s =~= s.take(j) + s.skip(j));
    lem_blen_add(s.take(j), s.skip(j));
    assert(s =~= s.take(j + 1) + s.skip(j + 1));
    lem_blen_add(s.take(j + 1), s.skip(j + 1));
    lem_blen_nonneg(s.take(j)); lem_blen_nonneg(s.skip(j + 1));
}
pub proof fn lem_at0(s: Seq<char>)
    ensures s.skip(0) == s, blen(s.take(0)) == 0, s.take(s.len() as int) == s, s.skip(s.len() as int).len() == 0
{ reveal_with_fuel(blen, 2); assert(s.skip(0) =~= s); assert(s.take(s.len() as int) =~= s); assert(s.take(0).len() == 0); }
pub proof fn lem_not_in(any: Seq<char>, c: char)
    requires forall|m: int| 0 <= m < any.len() ==> #[trigger] any[m] != c
    ensures !any.contains(c)
{ }
/// how far the text has been followed; f is the remaining count
pub proof fn lem_ws(s: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures ws_len(s.skip(j)) == if j == s.len() || !is_ws(s[j]) { 0 } else { clen(s[j]) + ws_len(s.skip(j + 1)) }
{ reveal_with_fuel(ws_len, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_until(s: Seq<char>, any: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures until_len(s.skip(j), any) == if j == s.len() || any.contains(s[j]) { 0 } else { clen(s[j]) + until_len(s.skip(j + 1), any) },
        until_ws_len(s.skip(j), any) == if j == s.len() || is_ws(s[j]) || any.contains(s[j]) { 0 } else { clen(s[j]) + until_ws_len(s.skip(j + 1), any) }
{ reveal_with_fuel(until_len, 2); reveal_with_fuel(until_ws_len, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_tag(s: Seq<char>, t: Seq<char>)
    ensures starts_with(s, t) ==> boundary(s, blen(t)), vstd::utf8::encode_utf8(t).len() == blen(t)
{ lem_str_len(t); reveal(starts_with); if starts_with(s, t) { lem_skip_char(s, t.len() as int); } }
pub proof fn lem_here(s: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures boundary(s, blen(s.take(j))), vstd::utf8::encode_utf8(s).len() == blen(s)
{ lem_skip_char(s, j); lem_str_len(s); }

// string literals
pub open spec fn oplus(n: int, r: Option<int>) -> Option<int> { match r { Some(k) => Some(n + k), None => None } }
pub proof fn lem_str_end(s: Seq<char>, j: int, esc: bool)
    requires 0 <= j <= s.len()
    ensures str_end(s.skip(j), esc) == if j == s.len() { None } else if !esc && s[j] == '"' { Some(1int) } else { oplus(clen(s[j]), str_end(s.skip(j + 1), !esc && s[j] == '\\')) }
{ reveal_with_fuel(str_end, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_str_end_pos(s: Seq<char>, esc: bool)
    ensures str_end(s, esc) matches Some(k) ==> 1 <= k <= blen(s) && boundary(s, k) && boundary(s, k - 1) && bskip(s, k - 1).len() > 0 && bskip(s, k - 1)[0] == '"'
    decreases s.len()
{
    reveal_with_fuel(str_end, 2); reveal_with_fuel(blen, 2); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2);
    if s.len() > 0 {
        lem_blen_nonneg(s.skip(1));
        lem_str_end_pos(s.skip(1), !esc && s[0] == '\\');
    }
}
pub proof fn lem_str_len_pos(s: Seq<char>)
    ensures str_len(s) matches Some(n) ==> 2 <= n <= blen(s) && boundary(s, n) && boundary(s, 1) && boundary(s, n - 1) && s.len() > 0 && s[0] == '"' && bskip(s, 1) == s.skip(1)
{
    reveal(str_len); reveal_with_fuel(boundary, 2); reveal_with_fuel(bskip, 2); reveal_with_fuel(blen, 2);
    if s.len() > 0 { lem_str_end_pos(s.skip(1), false); lem_boundary_zero(s.skip(1)); }
}

// numbers
pub open spec fn nst(a: bool, b: bool, c: bool, d: bool, e: bool) -> NumSt { NumSt { sign: a, dec: b, sci: c, exp: d, digit: e } }
pub proof fn lem_num(s: Seq<char>, j: int, t: NumSt, us: bool)
    requires 0 <= j <= s.len()
    ensures num_run(s.skip(j), j == 0, t, us) == if j == s.len() { 0 } else { match num_step(t, s[j], j == 0, us) { Some(t2) => clen(s[j]) + num_run(s.skip(j + 1), false, t2, us), None => 0 } },
{ reveal_with_fuel(num_run, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_take_pos(s: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures blen(s.take(j)) >= 0, blen(s.take(j)) == 0 <==> j == 0
{ lem_blen_nonneg(s.take(j)); reveal_with_fuel(blen, 2); if j > 0 { lem_blen_nonneg(s.take(j).skip(1)); } }

// escapes
pub proof fn lem_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len()
    decreases s.len()
{ reveal_with_fuel(blen, 2); if s.len() > 0 { lem_blen_ge(s.skip(1)); } }
pub proof fn lem_hex_ascii(c: char) ensures hexv(c) matches Some(x) ==> 0 <= x < 16 && clen(c) == 1 { }
pub proof fn lem_code(a: u32, b: u32, c: u32, d: u32)
    requires a < 16, b < 16, c < 16, d < 16
    ensures (a << 12) | (b << 8) | (c << 4) | d == a * 4096 + b * 256 + c * 16 + d
{ assert((a << 12) | (b << 8) | (c << 4) | d == a * 4096 + b * 256 + c * 16 + d) by (bit_vector) requires a < 16, b < 16, c < 16, d < 16; }
pub proof fn lem_hex_bad(s: Seq<char>, i: int)
    requires 0 <= i <= 4, forall|m: int| 0 <= m < i ==> m < s.len() && hexv(#[trigger] s[m]) is Some
    ensures hex_bad(s, 0) == hex_bad(s, i)
    decreases i
{ if i > 0 { assert(hexv(s[i - 1]) is Some); lem_hex_bad(s, i - 1); } }
pub proof fn lem_hex_pos(s: Seq<char>, i: int)
    requires 0 <= i <= 4
    ensures i <= hex_bad(s, i) <= 4
    decreases 4 - i
{ if !(i >= 4 || i >= s.len() || hexv(s[i]) is None) { lem_hex_pos(s, i + 1); } }
pub proof fn lem_uni_shift(s: Seq<char>, k: int)
    ensures match uni(s, 0) { Ok(x) => uni(s, k) == Ok::<char, (int, int, ParseStringError)>(x), Err(e) => uni(s, k) == Err::<char, (int, int, ParseStringError)>((e.0 + k, e.1, e.2)) && 0 <= e.0 && 0 <= e.1 && e.0 + e.1 <= blen(s) }
{
    reveal(uni); lem_blen_ge(s); lem_hex_pos(s, 0);
    if hex_bad(s, 0) >= 4 { lem_hex_all(s, 0); }
}
pub proof fn lem_hex_all(s: Seq<char>, i: int)
    requires 0 <= i <= 4, hex_bad(s, i) >= 4
    ensures i < 4 ==> s.len() >= 4, forall|m: int| i <= m < 4 ==> hexv(#[trigger] s[m]) is Some
    decreases 4 - i
{ if i < 4 { lem_hex_all(s, i + 1); } }
pub proof fn lem_take_chars(x: Seq<char>, m: int)
    requires boundary(x, m)
    ensures btake(x, m).len() <= x.len(), btake(x, m) == x.take(btake(x, m).len() as int), blen(btake(x, m)) == m
    decreases x.len()
{
    lem_boundary(x, m);
    reveal_with_fuel(btake, 2); reveal_with_fuel(boundary, 2);
    if m <= 0 || x.len() == 0 { assert(btake(x, m) =~= x.take(0)); }
    else {
        lem_take_chars(x.skip(1), m - clen(x[0]));
        let l = btake(x.skip(1), m - clen(x[0])).len() as int;
        assert(btake(x, m) =~= x.take(l + 1)) by {
            assert forall|i: int| 0 <= i < l + 1 implies btake(x, m)[i] == x.take(l + 1)[i] by { if i > 0 { assert(x.skip(1).take(l)[i - 1] == x.skip(1)[i - 1]); } }
        }
    }
}
pub open spec fn inner(s: Seq<char>, n: int) -> Seq<char> { btake(bskip(s, 1), n - 2) }
/// the literal of n bytes: character j of its inside is character j + 1 of the text
pub proof fn lem_inner(s: Seq<char>, n: int, j: int)
    requires str_len(s) == Some(n), 0 <= j <= inner(s, n).len()
    ensures boundary(bskip(s, 1), n - 2), blen(inner(s, n)) == n - 2, inner(s, n).len() + 1 <= s.len(), boundary(s, 1), boundary(s, n - 1), 2 <= n <= blen(s),
        blen(s.take(j + 1)) == 1 + blen(inner(s, n).take(j)), btake(bskip(s, 1), n - 1 - 1) == inner(s, n),
        j < inner(s, n).len() ==> inner(s, n)[j] == s[j + 1] && 1 + blen(inner(s, n).take(j)) + clen(s[j + 1]) <= n - 1 && blen(inner(s, n).take(j)) >= 0,
        j == inner(s, n).len() ==> blen(inner(s, n).take(j)) == n - 2,
{
    lem_str_len_pos(s);
    reveal_with_fuel(boundary, 1);
    let x = s.skip(1);
    assert(boundary(x, n - 2)) by { reveal_with_fuel(boundary, 2); lem_boundary_zero(x); }
    lem_take_chars(x, n - 2);
    let t = inner(s, n);
    assert(t == x.take(t.len() as int));
    assert(t.take(j) =~= x.take(j));
    assert(s.take(j + 1) =~= seq!['"'] + x.take(j)) by { assert(s[0] == '"'); }
    lem_blen_add(seq!['"'], x.take(j));
    assert(blen(seq!['"']) == 1) by { reveal_with_fuel(blen, 3); assert(seq!['"'].skip(1).len() == 0); }
    if j < t.len() { lem_at(t, j); } else { assert(t.take(j) =~= t); }
}
pub proof fn lem_dec(s: Seq<char>, n: int, j: int, esc: bool, skip: int)
    requires str_len(s) == Some(n), 0 <= j <= inner(s, n).len()
    ensures ({
        let (r, k) = (s.skip(j + 1), 1 + blen(inner(s, n).take(j)));
        let d = str_dec(r, k, n - 1, esc, skip);
        if j == inner(s, n).len() { d == Ok::<Seq<char>, (int, int, ParseStringError)>(Seq::empty()) } else {
            let c = s[j + 1];
            let (s1, k1) = (s.skip(j + 2), 1 + blen(inner(s, n).take(j + 1)));
            d == if skip > 0 { str_dec(s1, k1, n - 1, esc, skip - 1) }
                else if !esc && c == '\\' { str_dec(s1, k1, n - 1, true, 0) }
                else if !esc { prep(seq![c], str_dec(s1, k1, n - 1, false, 0)) }
                else if c == 'u' { match uni(s1, k1) { Ok(x) => prep(seq![x], str_dec(s1, k1, n - 1, false, 4)), Err(e) => Err(e) } }
                else { match esc_char(c) { Some(x) => prep(seq![x], str_dec(s1, k1, n - 1, false, 0)), None => Err((k, 1, ParseStringError::ExpectedValidEscapeCharacter)) } }
        }
    })
{
    lem_inner(s, n, j);
    reveal_with_fuel(str_dec, 2);
    if j < inner(s, n).len() { lem_at(s, j + 1); lem_inner(s, n, j + 1); lem_at(inner(s, n), j); }
}
pub proof fn lem_prep(a: Seq<char>, x: char, r: Result<Seq<char>, (int, int, ParseStringError)>)
    ensures prep(a, prep(seq![x], r)) == prep(a.push(x), r), prep(Seq::empty(), r) == r
{ match r { Ok(v) => { assert(a + (seq![x] + v) =~= a.push(x) + v); assert(Seq::empty() + v =~= v); } Err(_) => {} } }

// ---------------------------------------------------------------- ReadToken::lines
/// what `lines` requires and assumes of the closure: it answers a range of whole characters from where it is called (or none)
pub trait VpFn: Sized {
    /// the calls so far: rest of the text, position, answer
    spec fn log(&self) -> Seq<(Seq<char>, int, Option<Range>)>;
    fn vp_call(&mut self, t: &ReadToken) -> (r: Option<Range>)
        requires rt_ok(*t), ascii_ws(t.src@)
        ensures final(self).log() == old(self).log().push((t.src@, t.offset as int, r)), r matches Some(x) ==> rng_ok(*t, x);
}
/// where reading by lines stands: st 0 before a line, 1 a line is to be read, 2 finished, 3 new line expected
pub ghost struct LnS { pub src: Seq<char>, pub off: int, pub nl: bool, pub st: int }
pub open spec fn ls_next(a: LnS) -> LnS {
    let x = lnext(a.src, a.nl, 0, 0);
    LnS { src: bskip(a.src, ln_pos(x)), off: a.off + ln_pos(x), nl: a.nl, st: match x { LN::Call(_) => 1, LN::End(_) => 2, LN::Bad(_) => 3 } }
}
pub open spec fn ls_feed(a: LnS, r: Option<Range>) -> LnS {
    match r { None => LnS { st: 2, ..a }, Some(x) => LnS { src: bskip(a.src, x.length as int), off: a.off + x.length, nl: ends_nl(btake(a.src, x.length as int), false), st: 0 } }
}
/// after the calls in the log
#[verifier::opaque]
pub open spec fn ls_run(src: Seq<char>, off: int, log: Seq<(Seq<char>, int, Option<Range>)>) -> LnS decreases log.len() {
    if log.len() == 0 { LnS { src, off, nl: true, st: 0 } } else { ls_feed(ls_next(ls_run(src, off, log.drop_last())), log.last().2) }
}
/// every call of the log is the one to be made after those before it
#[verifier::opaque]
pub open spec fn ls_ok(src: Seq<char>, off: int, log: Seq<(Seq<char>, int, Option<Range>)>) -> bool decreases log.len() {
    log.len() == 0 || ({
        let a = ls_run(src, off, log.drop_last());
        ls_ok(src, off, log.drop_last()) && a.st == 0 && ls_next(a).st == 1 && ls_next(a).src == log.last().0 && ls_next(a).off == log.last().1
    })
}
pub open spec fn ls_res(off: int, a: LnS, r: Result<Range, Range>) -> bool {
    let z = if a.st == 0 { ls_next(a) } else { a };
    match r { Ok(x) => z.st == 2 && x.offset == off && x.length == z.off - off, Err(x) => z.st == 3 && x.offset == z.off && x.length == 0 }
}
/// the calls made and the result of reading by lines
pub open spec fn lines_spec(src: Seq<char>, off: int, l0: Seq<(Seq<char>, int, Option<Range>)>, l1: Seq<(Seq<char>, int, Option<Range>)>, r: Result<Range, Range>) -> bool {
    exists|l: Seq<(Seq<char>, int, Option<Range>)>| l1 == #[trigger] (l0 + l) && ls_ok(src, off, l) && ls_res(off, ls_run(src, off, l), r)
}
pub proof fn lem_ls_empty(src: Seq<char>, off: int)
    ensures ls_ok(src, off, Seq::empty()), ls_run(src, off, Seq::empty()) == (LnS { src, off, nl: true, st: 0 })
{ reveal(ls_run); reveal(ls_ok); }
pub proof fn lem_ls_push(src: Seq<char>, off: int, l: Seq<(Seq<char>, int, Option<Range>)>, x: (Seq<char>, int, Option<Range>))
    requires ls_ok(src, off, l), ls_run(src, off, l).st == 0, ls_next(ls_run(src, off, l)).st == 1, ls_next(ls_run(src, off, l)).src == x.0, ls_next(ls_run(src, off, l)).off == x.1
    ensures ls_ok(src, off, l.push(x)), ls_run(src, off, l.push(x)) == ls_feed(ls_next(ls_run(src, off, l)), x.2)
{ reveal_with_fuel(ls_run, 2); reveal_with_fuel(ls_ok, 2); assert(l.push(x).drop_last() =~= l); }
pub proof fn lem_log_push(l0: Seq<(Seq<char>, int, Option<Range>)>, l: Seq<(Seq<char>, int, Option<Range>)>, x: (Seq<char>, int, Option<Range>))
    ensures (l0 + l).push(x) == l0 + l.push(x), l0 + Seq::<(Seq<char>, int, Option<Range>)>::empty() == l0
{ assert((l0 + l).push(x) =~= l0 + l.push(x)); assert(l0 + Seq::<(Seq<char>, int, Option<Range>)>::empty() =~= l0); }
pub open spec fn ln_add(x: LN, d: int) -> LN { match x { LN::Call(k) => LN::Call(k + d), LN::End(k) => LN::End(k + d), LN::Bad(k) => LN::Bad(k + d) } }
pub proof fn lem_lnext_add(s: Seq<char>, nl: bool, k0: int, k: int, d: int)
    ensures lnext(s, nl, k0 + d, k + d) == ln_add(lnext(s, nl, k0, k), d)
    decreases s.len()
{
    reveal_with_fuel(lnext, 2);
    if s.len() > 0 { if s[0] == '\n' { lem_lnext_add(s.skip(1), true, k + 1, k + 1, d); } else if is_ws(s[0]) { lem_lnext_add(s.skip(1), nl, k0, k + clen(s[0]), d); } }
}
pub proof fn lem_lnext_at(s: Seq<char>, j: int, nl: bool, k0: int, k: int)
    requires 0 <= j <= s.len()
    ensures lnext(s.skip(j), nl, k0, k) == if j == s.len() { LN::End(k) } else if s[j] == '\n' { lnext(s.skip(j + 1), true, k + 1, k + 1) }
        else if is_ws(s[j]) { lnext(s.skip(j + 1), nl, k0, k + clen(s[j])) } else if nl { LN::Call(k0) } else { LN::Bad(k0) }
{ reveal_with_fuel(lnext, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_ends_nl(s: Seq<char>, j: int, b: bool)
    requires 0 <= j <= s.len()
    ensures ends_nl(s.skip(j), b) == if j == s.len() { b } else { ends_nl(s.skip(j + 1), if s[j] == '\n' { true } else if is_ws(s[j]) { b } else { false }) }
{ reveal_with_fuel(ends_nl, 2); if j < s.len() { lem_at(s, j); } }
pub proof fn lem_ascii(s: Seq<char>, n: int)
    requires ascii_ws(s)
    ensures ascii_ws(bskip(s, n))
    decreases s.len()
{
    reveal_with_fuel(bskip, 2); reveal(ascii_ws);
    if n <= 0 || s.len() == 0 { } else {
        assert(ascii_ws(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() && is_ws(#[trigger] s.skip(1)[i]) implies clen(s.skip(1)[i]) == 1 by { assert(s.skip(1)[i] == s[i + 1]); } }
        lem_ascii(s.skip(1), n - clen(s[0]));
    }
}
pub open spec fn ln_measure(src: Seq<char>, nl: bool) -> int { 2 * blen(src) + if nl { 1int } else { 0 } }
/// a line range of no bytes does not count as a new line
pub proof fn lem_nl_empty(s: Seq<char>) ensures !ends_nl(btake(s, 0), false) { reveal_with_fuel(ends_nl, 2); reveal_with_fuel(btake, 2); }
/// a line is read after a new line only
pub proof fn lem_call_nl(s: Seq<char>, nl: bool, k0: int, k: int)
    requires k0 <= k
    ensures lnext(s, nl, k0, k) matches LN::Call(j) ==> j >= k0 && (j > k0 || nl)
    decreases s.len()
{
    reveal_with_fuel(lnext, 2);
    if s.len() > 0 { if s[0] == '\n' { lem_call_nl(s.skip(1), true, k + 1, k + 1); } else if is_ws(s[0]) { lem_call_nl(s.skip(1), nl, k0, k + clen(s[0])); } }
}

/// the rewriting the extraction applies to a call of `lines` behaves as `lines` does
pub fn vp_driven<F: VpFn>(rt: &ReadToken, f: &mut F) -> (r: Result<Range, Range>)
    requires rt_ok(*rt), ascii_ws(rt.src@)
    ensures lines_spec(rt.src@, rt.offset as int, old(f).log(), final(f).log(), r)
{
    let mut __ld = LinesDriver::vp_new(rt);
    let ghost l0 = f.log();
    let ghost mut l: Seq<(Seq<char>, int, Option<Range>)> = Seq::empty();
    proof { lem_ls_empty(rt.src@, rt.offset as int); lem_log_push(l0, l, (rt.src@, 0, None)); lem_adv_refl(*rt); }
    loop
        invariant_except_break
            __ld.st == 0 || __ld.st == 2,
            ls_run(rt.src@, rt.offset as int, l) == (LnS { src: __ld.cur.src@, off: __ld.cur.offset as int, nl: ls_run(rt.src@, rt.offset as int, l).nl, st: __ld.st as int }),
            __ld.st == 0 ==> ls_run(rt.src@, rt.offset as int, l).nl == __ld.nl,
        invariant
            __ld.start == *rt, rt_ok(*rt), ascii_ws(rt.src@), adv(*rt, __ld.cur), f.log() == l0 + l, ls_ok(rt.src@, rt.offset as int, l),
        ensures
            __ld.start == *rt, f.log() == l0 + l, ls_ok(rt.src@, rt.offset as int, l), __ld.st == 2 || __ld.st == 3, __ld.cur.offset >= rt.offset,
            ({ let a = ls_run(rt.src@, rt.offset as int, l); let z = if a.st == 0 { ls_next(a) } else { a }; z.st == __ld.st && z.off == __ld.cur.offset }),
        decreases (if __ld.st == 0 { 1int + ln_measure(__ld.cur.src@, __ld.nl) } else { 0 })
    {
        proof { reveal(adv); lem_boundary(rt.src@, __ld.cur.offset - rt.offset); lem_ascii(rt.src@, __ld.cur.offset - rt.offset); lem_lnext(__ld.cur.src@, __ld.nl); lem_boundary(__ld.cur.src@, ln_pos(lnext(__ld.cur.src@, __ld.nl, 0, 0))); lem_blen_nonneg(__ld.cur.src@); }
        let ghost c0 = __ld.cur; let ghost n0 = __ld.nl;
        match __ld.vp_next() {
            Some(__rt) => {
                proof { lem_adv_trans(*rt, c0, __ld.cur); lem_boundary(rt.src@, __ld.cur.offset - rt.offset); lem_ascii(rt.src@, __ld.cur.offset - rt.offset); lem_call_nl(c0.src@, n0, 0, 0); }
                let ghost c1 = __ld.cur;
                let __lr = f.vp_call(&__rt);
                proof { lem_ls_push(rt.src@, rt.offset as int, l, (__rt.src@, __rt.offset as int, __lr)); lem_log_push(l0, l, (__rt.src@, __rt.offset as int, __lr)); l = l.push((__rt.src@, __rt.offset as int, __lr));
                    reveal(rng_ok); lem_nl_empty(__rt.src@); if __lr is Some { lem_boundary(__rt.src@, __lr.unwrap().length as int); } }
                __ld.vp_feed(__lr);
                proof { lem_adv_trans(*rt, c1, __ld.cur); }
            }
            None => { proof { lem_adv_trans(*rt, c0, __ld.cur); lem_boundary(rt.src@, __ld.cur.offset - rt.offset); } break; }
        }
    }
    __ld.vp_finish()
}
