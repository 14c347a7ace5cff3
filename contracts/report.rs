// ---------------------------------------------------------------- lines of a text
/// the lines put together with '\n' between them
pub open spec fn join(l: Seq<&str>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0]@ } else { join(l.drop_last()) + seq!['\n'] + l.last()@ }
}
/// `str::split('\n')` (assumed): at least one line, no line has a '\n', together they are the text
#[verifier::external_body]
pub fn vp_split_nl<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() > 0, join(r@) == s@, forall|i: int| 0 <= i < r@.len() ==> !(#[trigger] r@[i])@.contains('\n')
{ unimplemented!() }
/// bytes before line i
#[verifier::opaque]
pub open spec fn lstart(l: Seq<&str>, i: int) -> int decreases i { if i <= 0 { 0 } else { lstart(l, i - 1) + blen(l[i - 1]@) + 1 } }
pub proof fn lem_lstart(l: Seq<&str>, i: int)
    requires 0 <= i < l.len()
    ensures lstart(l, i + 1) == lstart(l, i) + blen(l[i]@) + 1, lstart(l, 0) == 0
{ reveal_with_fuel(lstart, 2); }
pub proof fn lem_lstart_prefix(a: Seq<&str>, b: Seq<&str>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|k: int| 0 <= k < i ==> a[k] == b[k]
    ensures lstart(a, i) == lstart(b, i)
    decreases i
{ reveal_with_fuel(lstart, 2); if i > 0 { lem_lstart_prefix(a, b, i - 1); } }
pub proof fn lem_lstart_mono(l: Seq<&str>, i: int, j: int)
    requires 0 <= i <= j <= l.len()
    ensures lstart(l, i) <= lstart(l, j), 0 <= lstart(l, i)
    decreases j
{
    reveal_with_fuel(lstart, 2);
    if i > 0 { lem_lstart_mono(l, i - 1, i - 1); lem_blen_nonneg(l[i - 1]@); }
    if i < j { lem_lstart_mono(l, i, j - 1); lem_blen_nonneg(l[j - 1]@); }
}
pub proof fn lem_blen_one(c: char) ensures blen(seq![c]) == clen(c) {
    reveal_with_fuel(blen, 3);
    assert(seq![c].skip(1).len() == 0);
}
/// the lines and their separators are exactly the bytes of the text
pub proof fn lem_join_len(l: Seq<&str>)
    requires l.len() > 0
    ensures blen(join(l)) == lstart(l, l.len() as int) - 1
    decreases l.len()
{
    reveal_with_fuel(lstart, 2); reveal_with_fuel(join, 2);
    if l.len() > 1 {
        let a = l.drop_last();
        lem_join_len(a);
        lem_lstart_prefix(a, l, a.len() as int);
        lem_blen_add(join(a), seq!['\n']);
        lem_blen_add(join(a) + seq!['\n'], l.last()@);
        lem_blen_one('\n');
    }
}
pub open spec fn texts(l: Seq<(Range, &str)>) -> Seq<&str> { Seq::new(l.len(), |i: int| l[i].1) }
/// the line table of a text: every line with the range of its bytes
#[verifier::opaque]
pub open spec fn table(l: Seq<(Range, &str)>, text: Seq<char>) -> bool {
    &&& l.len() > 0 && join(texts(l)) == text
    &&& forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).1@.contains('\n') && l[i].0.offset == lstart(texts(l), i) && l[i].0.length == blen(l[i].1@)
}
/// some text has this table and is not longer than a string can be
pub open spec fn table_ok(l: Seq<(Range, &str)>) -> bool { exists|t: Seq<char>| #[trigger] table(l, t) && blen(t) <= isize::MAX }
/// every byte of the text (the end and the separators included) belongs to exactly one line
pub open spec fn line_has(l: Seq<(Range, &str)>, i: int, p: int) -> bool { 0 <= i < l.len() && l[i].0.offset <= p <= l[i].0.offset + l[i].0.length }
pub proof fn lem_find_line(l: Seq<&str>, n: int, p: int) -> (i: int)
    requires 0 <= n <= l.len(), 0 <= p < lstart(l, n)
    ensures 0 <= i < n, lstart(l, i) <= p < lstart(l, i + 1)
    decreases n
{
    reveal_with_fuel(lstart, 2);
    if p >= lstart(l, n - 1) { n - 1 } else { lem_find_line(l, n - 1, p) }
}
pub proof fn lem_one_line(l: Seq<(Range, &str)>, t: Seq<char>, p: int)
    requires table(l, t), 0 <= p <= blen(t)
    ensures exists|i: int| #[trigger] line_has(l, i, p), forall|i: int, j: int| #[trigger] line_has(l, i, p) && #[trigger] line_has(l, j, p) ==> i == j
{
    reveal(table);
    let x = texts(l);
    lem_join_len(x);
    let i = lem_find_line(x, x.len() as int, p);
    lem_lstart(x, i);
    assert(line_has(l, i, p));
    assert forall|i: int, j: int| #[trigger] line_has(l, i, p) && #[trigger] line_has(l, j, p) implies i == j by {
        if i < j { lem_lstart(x, i); lem_lstart_mono(x, i + 1, j); }
        if j < i { lem_lstart(x, j); lem_lstart_mono(x, j + 1, i); }
    }
}
pub proof fn lem_table_fit(l: Seq<(Range, &str)>, i: int)
    requires table_ok(l), 0 <= i < l.len()
    ensures l[i].0.offset + l[i].0.length <= isize::MAX, blen(l[i].1@) == l[i].0.length
{
    let t = choose|t: Seq<char>| #[trigger] table(l, t) && blen(t) <= isize::MAX;
    reveal(table);
    let x = texts(l);
    lem_join_len(x);
    lem_lstart(x, i);
    lem_lstart_mono(x, i + 1, l.len() as int);
}
// ---------------------------------------------------------------- columns
/// the number of characters that start before byte n
#[verifier::opaque]
pub open spec fn col(s: Seq<char>, n: int) -> int decreases s.len() { if s.len() == 0 || n <= 0 { 0 } else { 1 + col(s.skip(1), n - clen(s[0])) } }
pub proof fn lem_col(s: Seq<char>, n: int, k: int)
    requires 0 <= k <= s.len(), k == s.len() || blen(s.take(k)) >= n, forall|i: int| 0 <= i < k ==> blen(#[trigger] s.take(i)) < n
    ensures k == col(s, n)
    decreases s.len()
{
    reveal_with_fuel(col, 2); reveal_with_fuel(blen, 2);
    if k == 0 {
        assert(s.take(0) =~= Seq::<char>::empty());
    } else {
        assert(s.take(0) =~= Seq::<char>::empty());
        assert(blen(s.take(0)) < n);
        let t = s.skip(1);
        assert forall|i: int| 0 <= i <= t.len() implies blen(s.take(i + 1)) == clen(s[0]) + blen(#[trigger] t.take(i)) by {
            assert(s.take(i + 1).skip(1) =~= t.take(i));
            assert(s.take(i + 1)[0] == s[0]);
        }
        assert forall|i: int| 0 <= i < k - 1 implies blen(#[trigger] t.take(i)) < n - clen(s[0]) by { assert(blen(s.take(i + 1)) < n); }
        if k < s.len() { assert(blen(t.take(k - 1)) >= n - clen(s[0])); }
        lem_col(t, n - clen(s[0]), k - 1);
    }
}
pub proof fn lem_count(s: Seq<char>)
    ensures s.len() <= blen(s)
    decreases s.len()
{ reveal_with_fuel(blen, 2); if s.len() > 0 { lem_count(s.skip(1)); } }
// ---------------------------------------------------------------- the report
pub open spec fn rng0(r: Range<ParseError>) -> Range { Range { offset: r.offset, length: r.length, data: () } }
/// ends of ranges included
pub open spec fn touches(a: Range, r: Range) -> bool { r.offset + r.length >= a.offset && r.offset <= a.offset + a.length }
pub open spec fn lcol(a: Range, r: Range, text: Seq<char>) -> int { col(text, if a.offset > r.offset { a.offset - r.offset } else { 0 }) }
/// which part of a line is shown: all of it, unless it is longer than 100 characters or the column is far to the right
#[verifier::opaque]
pub open spec fn window(s: int, t: int, j: int, len: int) -> bool {
    0 <= s <= j <= t <= len && (s == 0 || (j > 75 && j - s >= 50)) && (t == len || t - s >= 100)
}
#[verifier::opaque]
pub open spec fn head(i: int, j: int) -> Seq<char> { dec(i + 1) + seq![','] + dec(j + 1) + seq![':', ' '] }
#[verifier::opaque]
pub open spec fn blanks(text: Seq<char>, s: int, n: int) -> Seq<char> { Seq::new(n as nat, |k: int| if text[s + k] == '\t' { '\t' } else { ' ' }) }
/// a line of the report: number, column, the shown part; with pointer: below the column a `^`
#[verifier::opaque]
pub open spec fn shown(e: Seq<char>, i: int, j: int, text: Seq<char>, ptr: bool) -> bool {
    exists|s: int, t: int| #[trigger] window(s, t, j, text.len() as int)
        && e =~= head(i, j) + text.subrange(s, t) + seq!['\n'] + (if ptr { head(i, j) + blanks(text, s, j - s) + seq!['^', '\n'] } else { Seq::empty() })
}
#[verifier::opaque]
pub open spec fn seen(a: Range, l: Seq<(Range, &str)>, n: int) -> bool { exists|i: int| 0 <= i < n && touches(a, (#[trigger] l[i]).0) }
pub open spec fn pe(p: Seq<char>, e: Seq<char>) -> bool { true }
/// o shows those of the first n lines that the range touches
#[verifier::opaque]
pub open spec fn report(o: Seq<char>, a: Range, l: Seq<(Range, &str)>, n: int) -> bool decreases n {
    if n <= 0 { o.len() == 0 }
    else if !touches(a, l[n - 1].0) { report(o, a, l, n - 1) }
    else { exists|p: Seq<char>, e: Seq<char>| #[trigger] pe(p, e) && report(p, a, l, n - 1) && shown(e, n - 1, lcol(a, l[n - 1].0, l[n - 1].1@), l[n - 1].1@, !seen(a, l, n - 1)) && o =~= p + e }
}
pub proof fn lem_report0(a: Range, l: Seq<(Range, &str)>) ensures report(Seq::empty(), a, l, 0), !seen(a, l, 0) { reveal(report); reveal(seen); }
pub proof fn lem_report_skip(o: Seq<char>, a: Range, l: Seq<(Range, &str)>, n: int)
    requires 0 <= n < l.len(), report(o, a, l, n), !touches(a, l[n].0)
    ensures report(o, a, l, n + 1), seen(a, l, n + 1) == seen(a, l, n)
{
    reveal(report); reveal(seen);
    if seen(a, l, n) { let i = choose|i: int| 0 <= i < n && touches(a, (#[trigger] l[i]).0); assert(touches(a, l[i].0)); }
}
pub proof fn lem_head(o: Seq<char>, i: int, j: int)
    ensures (((o + dec(i + 1)) + seq![',']) + dec(j + 1)) + seq![':', ' '] == o + head(i, j)
{ reveal(head); assert((((o + dec(i + 1)) + seq![',']) + dec(j + 1)) + seq![':', ' '] =~= o + head(i, j)); }
pub proof fn lem_sub(o: Seq<char>, t: Seq<char>, lo: int, i: int)
    requires 0 <= lo <= i <= t.len()
    ensures i < t.len() ==> (o + t.subrange(lo, i)) + seq![t[i]] == o + t.subrange(lo, i + 1), o + t.subrange(lo, lo) == o
{ assert(o + t.subrange(lo, lo) =~= o); if i < t.len() { assert((o + t.subrange(lo, i)) + seq![t[i]] =~= o + t.subrange(lo, i + 1)); } }
pub proof fn lem_blanks(o: Seq<char>, t: Seq<char>, lo: int, i: int)
    requires 0 <= lo <= i <= t.len()
    ensures i < t.len() ==> (o + blanks(t, lo, i - lo)) + seq![if t[i] == '\t' { '\t' } else { ' ' }] == o + blanks(t, lo, i + 1 - lo), o + blanks(t, lo, 0) == o
{
    reveal(blanks);
    assert(o + blanks(t, lo, 0) =~= o);
    if i < t.len() { assert((o + blanks(t, lo, i - lo)) + seq![if t[i] == '\t' { '\t' } else { ' ' }] =~= o + blanks(t, lo, i + 1 - lo)); }
}
/// the text after a line of the report was written behind o1
pub open spec fn line_out(o1: Seq<char>, n: int, j: int, text: Seq<char>, s: int, t: int, ptr: bool) -> Seq<char> {
    let a = ((o1 + head(n, j)) + text.subrange(s, t)) + seq!['\n'];
    if ptr { ((a + head(n, j)) + blanks(text, s, j - s)) + seq!['^', '\n'] } else { a }
}
pub proof fn lem_report_line(o0: Seq<char>, p: Seq<char>, o: Seq<char>, a: Range, l: Seq<(Range, &str)>, n: int, s: int, t: int, j: int, text: Seq<char>) -> (e: Seq<char>)
    requires 0 <= n < l.len(), report(p, a, l, n), touches(a, l[n].0), text == l[n].1@, j == lcol(a, l[n].0, text), window(s, t, j, text.len() as int),
        o == line_out(o0 + p, n, j, text, s, t, !seen(a, l, n))
    ensures report(p + e, a, l, n + 1), seen(a, l, n + 1), o == o0 + (p + e)
{
    reveal(report); reveal(shown); reveal(seen);
    let e = head(n, j) + text.subrange(s, t) + seq!['\n'] + (if !seen(a, l, n) { head(n, j) + blanks(text, s, j - s) + seq!['^', '\n'] } else { Seq::empty() });
    let m = n + 1;
    assert(m - 1 == n);
    assert(shown(e, n, j, text, !seen(a, l, n)));
    assert(pe(p, e));
    assert(report(p + e, a, l, m));
    assert(touches(a, l[n].0));
    assert(o =~= o0 + (p + e));
    e
}
/// lines in front of the first touched line, each with its number
#[verifier::opaque]
pub open spec fn context(o: Seq<char>, l: Seq<(Range, &str)>, from: int, to: int) -> bool decreases to - from {
    if to <= from { o.len() == 0 } else { exists|p: Seq<char>| #[trigger] pe(p, p) && context(p, l, from, to - 1) && o =~= p + dec(to) + seq![':', ' '] + l[to - 1].1@ + seq!['\n'] }
}
pub proof fn lem_context0(l: Seq<(Range, &str)>, from: int) ensures context(Seq::empty(), l, from, from) { reveal(context); }
pub proof fn lem_context1(p: Seq<char>, o: Seq<char>, l: Seq<(Range, &str)>, from: int, to: int)
    requires context(p, l, from, to), from <= to, o =~= p + dec(to + 1) + seq![':', ' '] + l[to].1@ + seq!['\n']
    ensures context(o, l, from, to + 1)
{ reveal(context); let m = to + 1; assert(m - 1 == to); assert(pe(p, p)); assert(context(o, l, from, m)); }
pub open spec fn lines_upto(v: Vec<(Range, &str)>, l: Seq<&str>, n: int) -> bool {
    v@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).1 == l[i] && v@[i].0.offset == lstart(l, i) && v@[i].0.length == blen(l[i]@)
}
pub open spec fn fl_in(x: Option<(usize, Range)>, n: int) -> bool { x matches Some(y) ==> y.0 < n }
pub open spec fn fl_none(x: Option<(usize, Range)>) -> bool { x is None }
/// what a full error report appends: the message, the context, every touched line
pub open spec fn rep_of(o0: Seq<char>, o1: Seq<char>, e: Range<ParseError>, l: Seq<(Range<()>, &str)>) -> bool {
    exists|c: Seq<char>, o: Seq<char>, from: int, to: int| #[trigger] context(c, l, from, to) && 0 <= from && to <= l.len() && #[trigger] report(o, rng0(e), l, l.len() as int)
        && o1 =~= o0 + seq!['E', 'r', 'r', 'o', 'r', ' '] + err_text(e.data) + seq!['\n'] + c + o
}
